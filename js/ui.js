// Driver of the web UI's scripts: each page runs in its own context against a
// server over HTTP; commands come as JSON lines on stdin, and after each one
// what the user would see is written as a JSON line.
'use strict';
const vm = require('vm'), fs = require('fs'), http = require('http'), readline = require('readline'), path = require('path');
const esbuild = require('/opt/veriftools/node/node_modules/esbuild');
const { Document, decode } = require('./dom.js');

function bundle(file) {
    const r = esbuild.buildSync({
        entryPoints: [file], bundle: true, write: false, format: 'iife', target: 'es2020',
        loader: { '.js': 'jsx' }, logLevel: 'error', charset: 'utf8',
        alias: { reqwest: path.join(__dirname, 'reqwest.js'), 'merge-anything': path.join(__dirname, 'merge.js') },
    });
    return r.outputFiles[0].text;
}

const [, , base, assets] = process.argv;
const source = {};
const react = new vm.Script(fs.readFileSync(path.join(assets, fs.readdirSync(assets).find((n) => /^react-.*\.min\.js$/.test(n))), 'utf8'), { filename: 'react.js' });
for (const n of ['hound', 'excluded_files']) source[n] = new vm.Script(bundle(path.join(assets, n + '.js')), { filename: n + '.js' });

class Page {
    constructor(kind, search, modelData) {
        this.kind = kind;
        this.errors = [];
        this.pending = 0;
        this.held = null;     // answers held back
        this.history = [];
        this.listeners = {};
        const page = this;
        const document = this.document = new Document();
        document.body.innerHTML = '<div id="root"><div id="result"></div></div>';
        const location = { search: search || '', pathname: '/', href: '/' + (search || ''), protocol: 'http:' };
        const window = {
            document, location, console: { error: () => {}, log: () => {}, warn: () => {} },
            navigator: { userAgent: 'verif', platform: 'verif' },
            history: { pushState(s, t, p) { page.history.push(p); const q = p.indexOf('?'); location.search = q < 0 ? '' : p.slice(q); } },
            addEventListener(n, f) { (page.listeners[n] = page.listeners[n] || []).push(f); },
            setTimeout, clearTimeout, setInterval, clearInterval,
            URL, URLSearchParams,
            __reqwest: (o) => page.request(o),
        };
        window.window = window.self = window.top = window.globalThis = window;
        if (modelData !== undefined) window.ModelData = modelData;
        this.window = vm.createContext(window);
        this.try(() => { react.runInContext(this.window); source[kind].runInContext(this.window); });
    }
    try(f) {
        try { f(); } catch (e) { this.errors.push(String(e && e.stack ? e.stack.split('\n').slice(0, 3).join(' | ') : e)); }
    }
    request(o) {
        const q = Object.keys(o.data || {}).map((k) => encodeURIComponent(k) + '=' + encodeURIComponent(o.data[k]).replace(/%20/g, '+')).join('&');
        const url = base + '/' + o.url + (q ? '?' + q : '');
        this.pending++;
        const seq = this.pendingSeq = (this.pendingSeq || 0) + 1;
        if (failures > 0) {
            failures--;
            const [status, why] = failed++ % 2 ? [0, 'net'] : [500, 'status'];
            setImmediate(() => this.arrive(() => o.error && o.error({ status, responseText: 'injected' }, why, why), seq));
            return;
        }
        http.get(url, { agent }, (res) => {
            const parts = [];
            res.on('data', (d) => parts.push(d));
            res.on('end', () => this.arrive(() => {
                const text = Buffer.concat(parts).toString('utf8');
                const fail = (why) => o.error && o.error({ status: res.statusCode, responseText: text }, why, why);
                if (res.statusCode < 200 || res.statusCode > 299) return fail('status');
                let v;
                try { v = JSON.parse(text, undefined); } catch (e) { return fail('json'); }
                o.success && o.success(v);
            }, seq));
        }).on('error', (e) => this.arrive(() => o.error && o.error({ status: 0 }, 'net', String(e)), seq));
    }
    // the answer to a request is there
    arrive(f, seq) {
        f.seq = seq;
        if (this.held) { this.held.push(f); this.wake(); return; }
        this.deliver(f);
    }
    deliver(f) {
        this.try(f);
        this.pending--;
        this.wake();
    }
    wake() { if (this.waiter) { const w = this.waiter; this.waiter = null; w(); } }
    async idle() { while (this.pending - (this.held ? this.held.length : 0) > 0) await new Promise((r) => { this.waiter = r; }); }

    // ---- reading the screen
    *hosts(el, pred) {
        for (const c of el.childNodes) {
            if (c.nodeType !== 1) continue;
            if (pred(c)) yield c; else yield* this.hosts(c, pred);
        }
    }
    find(el, pred) { for (const h of this.hosts(el, pred)) return h; return null; }
    all(el, pred) { return [...this.hosts(el, pred)]; }
    cls(name) { return (h) => (' ' + h.className + ' ').includes(' ' + name + ' '); }
    id(name) { return (h) => h.id === name; }
    text(el) { return el ? el.textContent : ''; }

    screen() {
        const s = { errors: this.errors.splice(0), pending: this.pending, repos: [], history: this.history.slice(-1), form: this.form(), held: this.held ? this.held.length : 0 };
        const root = this.document;
        const no = this.find(root, this.id('no-result'));
        if (no) s.message = this.text(no);
        for (const r of this.all(root, this.cls('repo'))) {
            const repo = { name: this.text(this.find(r, this.cls('name'))), open: this.cls('open')(r), files: [], more: null };
            for (const f of this.all(r, this.cls('file'))) {
                const title = this.find(f, this.cls('title'));
                const link = this.find(title, (h) => h.localName === 'a');
                const file = { name: link ? this.text(link) : '', href: link ? link.getAttribute('href') : null, badge: !!this.find(title, this.cls('file-badge')), open: this.cls('open')(f), blocks: [] };
                for (const m of this.all(f, this.cls('match'))) {
                    file.blocks.push(this.all(m, this.cls('line')).map((l) => {
                        const n = this.find(l, this.cls('lnum')), v = this.find(l, this.cls('lval'));
                        return this.line(this.text(n), n && n.getAttribute('href'), v ? v.innerHTML : null);
                    }));
                }
                repo.files.push(file);
            }
            const more = this.find(r, this.cls('moar'));
            if (more) repo.more = this.text(more);
            s.repos.push(repo);
        }
        return s;
    }
    // a line of a result: its number, link, text, and the marked ranges of the text
    line(num, href, html) {
        const l = { num, href, text: '', marks: [], bad: '' };
        if (html === null) { l.bad = 'no content'; return l; }
        let open = -1, i = 0;
        while (i < html.length) {
            if (html[i] === '<') {
                const m = /^<(\/?)(em|mark|b|strong)( class="[\w -]*")?>/.exec(html.slice(i, i + 60));
                if (!m) { l.bad = 'markup ' + html.slice(i, i + 40); return l; }
                if (m[1]) {
                    if (open < 0) { l.bad = 'unopened'; return l; }
                    l.marks.push([open, l.text.length]);
                    open = -1;
                } else {
                    if (open >= 0) { l.bad = 'nested'; return l; }
                    open = l.text.length;
                }
                i += m[0].length;
                continue;
            }
            if (html[i] === '>') { l.bad = 'bare >'; return l; }
            if (html[i] === '&') {
                const m = /^&(lt|gt|amp|quot|nbsp|apos|#\d+|#x[0-9a-fA-F]+);/.exec(html.slice(i, i + 12));
                if (!m) { l.bad = 'bare & ' + html.slice(i, i + 12); return l; }
                l.text += decode(m[0]);
                i += m[0].length;
                continue;
            }
            l.text += html[i++];
        }
        if (open >= 0) l.bad = 'unclosed';
        // a mark that begins or ends inside a character
        for (const [a, b] of l.marks) {
            for (const p of [a, b]) {
                const c = l.text.charCodeAt(p), d = l.text.charCodeAt(p - 1);
                if (c >= 0xdc00 && c <= 0xdfff && d >= 0xd800 && d <= 0xdbff) l.bad = 'half a character marked';
            }
        }
        // UTF-16 offsets to code points
        l.marks = l.marks.map(([a, b]) => [[...l.text.slice(0, a)].length, [...l.text.slice(0, b)].length]);
        return l;
    }
    field(id) { return this.document.getElementById(id); }
    fill(p) {
        for (const f of ['q', 'files', 'excludeFiles']) if (p[f] !== undefined) this.field(f).value = p[f];
        if (p.i !== undefined) this.field('ignore-case').checked = p.i;
        if (p.literal !== undefined) this.field('literal-search').checked = p.literal;
        if (p.repos !== undefined) {
            const s = this.field('repos');
            for (const o of s.options) o.selected = p.repos.includes(o.value);
            this.fire('change', s);
        }
    }
    form() {
        if (!['q', 'files', 'excludeFiles', 'ignore-case', 'literal-search', 'repos'].every((n) => this.field(n))) return null;
        const on = (id) => !!this.field(id).checked;
        return { q: this.field('q').value, files: this.field('files').value, exclude: this.field('excludeFiles').value, i: on('ignore-case'), literal: on('literal-search'), repos: this.field('repos').selectedOptions.map((o) => o.value) };
    }
    fire(type, el, more) { this.try(() => this.document.fire(type, el, more)); }
    click(h) { this.fire('click', h); }
    excluded() {
        const root = this.document;
        const s = { errors: this.errors.splice(0), pending: this.pending, rows: [], buttons: this.all(root, this.cls('repo-button')).map((b) => this.text(b)) };
        const no = this.find(root, this.id('no-result'));
        if (no) s.message = this.text(no);
        for (const tr of this.all(root, (h) => h.localName === 'tr')) {
            const n = this.find(tr, this.cls('name'));
            if (!n) continue;
            const a = this.find(n, (h) => h.localName === 'a');
            s.rows.push({ name: this.text(n), href: a && a.getAttribute('href'), reason: this.text(this.find(tr, this.cls('reason'))) });
        }
        return s;
    }
}

const agent = new http.Agent({ keepAlive: true });
let page = null, failures = 0, failed = 0;
async function run(c) {
    switch (c.op) {
    case 'load': page = new Page(c.page || 'hound', c.search, c.model === null ? undefined : c.model); break;
    case 'type': page.fill(c.params); break;
    case 'search': page.fill(c.params); page.click(page.field('dodat')); break;
    case 'key': page.fill(c.params); page.fire('keydown', page.field('q'), { keyCode: 13 }); break;
    case 'back':
        page.window.location.search = c.search;
        (page.listeners.popstate || []).forEach((f) => page.try(() => f({})));
        break;
    case 'more': {
        const root = page.document;
        const bs = page.all(root, page.cls('moar'));
        for (let k = 0; k < (c.times || 1); k++) {
            const b = page.all(root, page.cls('moar'))[c.index];
            if (b) page.click(b); else if (k === 0) page.errors.push('no button ' + c.index + ' of ' + bs.length);
        }
        break;
    }
    case 'toggle': {
        const root = page.document;
        for (const b of page.all(root, (h) => h.localName === 'button' && page.text(h).includes(c.label))) page.click(b);
        break;
    }
    case 'fail': failures = c.times; break;
    case 'hold': page.held = []; break;
    case 'release': {
        await page.idle();
        // in the order in which they were asked for
        const h = page.held.sort((a, b) => a.seq - b.seq);
        page.held = null;
        for (const k of c.order) if (h[k]) page.deliver(h[k]);
        for (let k = 0; k < h.length; k++) if (!c.order.includes(k)) page.deliver(h[k]);
        break;
    }
    case 'exclude': {
        const root = page.document;
        const b = page.all(root, page.cls('repo-button')).find((x) => page.text(x) === c.repo);
        if (b) page.click(b); else page.errors.push('no button for ' + c.repo);
        break;
    }
    default: throw new Error('op ' + c.op);
    }
    if (c.wait !== false) await page.idle();
    return page.kind === 'hound' ? page.screen() : page.excluded();
}

process.stdout.write('{"ready":true}\n');
const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
let chain = Promise.resolve();
rl.on('line', (line) => {
    chain = chain.then(async () => {
        let out;
        try { out = await run(JSON.parse(line)); } catch (e) { out = { driver: String(e.stack || e) }; }
        process.stdout.write(JSON.stringify(out) + '\n');
    });
});
rl.on('close', () => { chain.then(() => process.exit(0)); });
