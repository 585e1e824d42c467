// A small document: enough of the DOM for the bundled React to run in, with the
// semantics of the form elements the page uses.
'use strict';

const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'track', 'wbr']);
const named = { lt: '<', gt: '>', amp: '&', quot: '"', nbsp: '\u00a0', apos: "'" };
function decode(s) {
    return s.replace(/&(?:#x([0-9a-f]+)|#(\d+)|(lt|gt|amp|quot|nbsp|apos));/gi, (m, x, d, n) => {
        if (n) return named[n.toLowerCase()];
        return String.fromCodePoint(x ? parseInt(x, 16) : parseInt(d, 10));
    });
}
function escText(s) {
    return s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
}

class Node {
    constructor(doc, type) { this.ownerDocument = doc; this.nodeType = type; this.parentNode = null; this.childNodes = []; this.pos = 0; }
    get firstChild() { return this.childNodes[0] || null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
    at() {
        const s = this.parentNode.childNodes;
        if (s[this.pos] !== this) this.pos = s.indexOf(this);
        return this.pos;
    }
    get nextSibling() { return this.parentNode ? this.parentNode.childNodes[this.at() + 1] || null : null; }
    get previousSibling() { return this.parentNode ? this.parentNode.childNodes[this.at() - 1] || null : null; }
    hasChildNodes() { return this.childNodes.length > 0; }
    contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
    insertBefore(n, ref) {
        if (n.contains(this)) throw new Error('HierarchyRequestError');
        if (n.nodeType === 11) { for (const c of [...n.childNodes]) this.insertBefore(c, ref); return n; }
        if (n.parentNode) n.parentNode.removeChild(n);
        const at = ref ? ref.parentNode === this ? ref.at() : -1 : this.childNodes.length;
        if (at < 0) throw new Error('NotFoundError: insertBefore');
        this.childNodes.splice(at, 0, n);
        n.parentNode = this;
        n.pos = at;
        this.changed();
        return n;
    }
    appendChild(n) { return this.insertBefore(n, null); }
    removeChild(n) {
        if (n.parentNode !== this) throw new Error('NotFoundError: removeChild');
        const at = n.at();
        this.childNodes.splice(at, 1);
        n.parentNode = null;
        this.changed();
        return n;
    }
    replaceChild(n, old) { if (n === old) return old; this.insertBefore(n, old); return this.removeChild(old); }
    // the markup it was made from no longer tells what it holds
    changed() { for (let n = this; n; n = n.parentNode) n.raw = undefined; }
    get textContent() { return this.childNodes.map((c) => c.textContent).join(''); }
    set textContent(v) {
        while (this.lastChild) this.removeChild(this.lastChild);
        if (v !== null && v !== '') this.appendChild(new Text(this.ownerDocument, '' + v));
    }
    getElementsByTagName(n) { return [...this.elements()].filter((e) => n === '*' || e.localName === n.toLowerCase()); }
    *elements() { for (const c of this.childNodes) if (c.nodeType === 1) { yield c; yield* c.elements(); } }
}

class Text extends Node {
    constructor(doc, s) { super(doc, 3); this.s = s; this.nodeName = '#text'; }
    get nodeValue() { return this.s; }
    set nodeValue(v) { this.s = '' + v; this.changed(); }
    get data() { return this.s; }
    set data(v) { this.nodeValue = v; }
    get textContent() { return this.s; }
    set textContent(v) { this.nodeValue = v; }
    get outerHTML() { return escText(this.s); }
}

class Element extends Node {
    constructor(doc, name) {
        super(doc, 1);
        this.localName = name.toLowerCase();
        this.nodeName = this.tagName = name.toUpperCase();
        this.attrs = new Map();
        const st = { setProperty(k, v) { st[k] = v; }, removeProperty(k) { delete st[k]; } };
        this.style = st;
        this.scrollTop = this.scrollLeft = 0;
        this.listeners = {};
    }
    getAttribute(n) { n = n.toLowerCase(); return this.attrs.has(n) ? this.attrs.get(n) : null; }
    hasAttribute(n) { return this.attrs.has(n.toLowerCase()); }
    setAttribute(n, v) {
        n = n.toLowerCase();
        this.attrs.set(n, '' + v);
        if (n.startsWith('on')) this[n] = () => {};
        if (this.parentNode) this.parentNode.changed();
    }
    removeAttribute(n) { this.attrs.delete(n.toLowerCase()); if (this.parentNode) this.parentNode.changed(); }
    get attributes() { return [...this.attrs].map(([name, value]) => ({ name, value })); }
    addEventListener(t, f) { (this.listeners[t] = this.listeners[t] || []).push(f); }
    removeEventListener() {}
    get innerHTML() { return this.raw !== undefined ? this.raw : this.childNodes.map((c) => c.outerHTML).join(''); }
    set innerHTML(v) {
        v = v === null ? '' : '' + v;
        while (this.lastChild) this.removeChild(this.lastChild);
        parse(this, v);
        this.raw = v;
    }
    get outerHTML() {
        const a = [...this.attrs].map(([k, v]) => ' ' + k + '="' + v.replace(/&/g, '&amp;').replace(/"/g, '&quot;') + '"').join('');
        return '<' + this.localName + a + '>' + (VOID.has(this.localName) ? '' : this.innerHTML + '</' + this.localName + '>');
    }
    get innerText() { return this.textContent; }
    set innerText(v) { this.textContent = v; }
    focus() {
        const d = this.ownerDocument, was = d.activeElement;
        if (was === this || !d.documentElement.contains(this)) return;
        d.activeElement = this;
        if (was) d.fire('blur', was);
        d.fire('focus', this);
    }
    blur() { if (this.ownerDocument.activeElement === this) this.ownerDocument.activeElement = this.ownerDocument.body; }
    // form elements
    get value() {
        if (this.localName === 'select') { const o = this.options.find((x) => x.selected); return o ? o.value : ''; }
        if (this.localName === 'option') return this.hasAttribute('value') ? this.getAttribute('value') : this.textContent.replace(/\s+/g, ' ').trim();
        if (this.dirty !== undefined) return this.dirty;
        return this.getAttribute('value') || '';
    }
    set value(v) {
        v = v === null ? '' : '' + v;
        if (this.localName === 'select') { let done = false; for (const o of this.options) { o.selected = !done && o.value === v; done = done || o.selected; } return; }
        if (this.localName === 'option') { this.setAttribute('value', v); return; }
        this.dirty = v;
    }
    get checked() { return this.on === undefined ? this.hasAttribute('checked') : this.on; }
    set checked(v) { this.on = !!v; }
    get selected() { return this.sel === undefined ? this.hasAttribute('selected') : this.sel; }
    set selected(v) { this.sel = !!v; }
    get options() { return [...this.elements()].filter((e) => e.localName === 'option'); }
    get selectedOptions() { return this.options.filter((o) => o.selected); }
}
for (const [prop, attr] of [['id', 'id'], ['className', 'class'], ['href', 'href'], ['type', 'type'], ['name', 'name'], ['htmlFor', 'for'], ['title', 'title'], ['src', 'src'], ['rel', 'rel'], ['target', 'target']]) {
    Object.defineProperty(Element.prototype, prop, {
        get() { return this.getAttribute(attr) || ''; },
        set(v) { this.setAttribute(attr, v); },
    });
}
for (const prop of ['multiple', 'disabled', 'hidden', 'readOnly']) {
    Object.defineProperty(Element.prototype, prop, {
        get() { return this.hasAttribute(prop); },
        set(v) { if (v) this.setAttribute(prop, ''); else this.removeAttribute(prop); },
    });
}

function parse(root, s) {
    const doc = root.ownerDocument, open = [{ el: root, at: 0 }];
    const top = () => open[open.length - 1].el;
    let i = 0;
    const text = (t) => { if (t) top().appendChild(new Text(doc, decode(t))); };
    const made = [];
    while (i < s.length) {
        const lt = s.indexOf('<', i);
        if (lt < 0) { text(s.slice(i)); break; }
        const m = /^<(\/?)([a-zA-Z][^\s/>]*)((?:\s+[^\s=>/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s"'>]*))?|\s+)*)\s*\/?>/.exec(s.slice(lt));
        if (!m) {
            const c = /^<!--[^]*?-->/.exec(s.slice(lt));
            text(s.slice(i, lt) + (c ? '' : '<'));
            i = lt + (c ? c[0].length : 1);
            continue;
        }
        text(s.slice(i, lt));
        i = lt + m[0].length;
        const name = m[2].toLowerCase();
        if (m[1]) {
            let k = open.length - 1;
            while (k > 0 && open[k].el.localName !== name) k--;
            if (k > 0) {
                while (open.length > k) { const o = open.pop(); made.push([o.el, s.slice(o.at, lt)]); }
            }
            continue;
        }
        const el = new Element(doc, name);
        for (const a of m[3].matchAll(/([^\s=>/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]*)))?/g)) {
            const v = a[2] !== undefined ? a[2] : a[3] !== undefined ? a[3] : a[4] !== undefined ? a[4] : '';
            if (!el.attrs.has(a[1].toLowerCase())) el.attrs.set(a[1].toLowerCase(), decode(v));
        }
        top().appendChild(el);
        if (!VOID.has(name)) open.push({ el, at: i });
    }
    while (open.length > 1) { const o = open.pop(); made.push([o.el, s.slice(o.at)]); }
    for (const [el, raw] of made) el.raw = raw;
}

class Document extends Node {
    constructor() {
        super(null, 9);
        this.ownerDocument = this;
        this.nodeName = '#document';
        this.listeners = {};
        this.implementation = { hasFeature: () => true };
        this.documentElement = this.appendChild(new Element(this, 'html'));
        this.head = this.documentElement.appendChild(new Element(this, 'head'));
        this.body = this.documentElement.appendChild(new Element(this, 'body'));
        this.activeElement = this.body;
        for (const e of ['onclick', 'onfocus', 'onblur', 'onscroll', 'onwheel', 'onchange', 'oninput', 'onkeydown']) this[e] = null;
    }
    createElement(n) { return new Element(this, n); }
    createElementNS(ns, n) { return new Element(this, n); }
    createTextNode(s) { return new Text(this, '' + s); }
    createDocumentFragment() { return new Node(this, 11); }
    getElementById(id) { for (const e of this.elements()) if (e.id === id) return e; return null; }
    addEventListener(t, f) { (this.listeners[t] = this.listeners[t] || []).push(f); }
    removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] || []).filter((g) => g !== f); }
    // an event of the user at an element
    fire(type, target, more) {
        const ev = Object.assign({
            type, target, srcElement: target, bubbles: true, cancelable: true, defaultPrevented: false, timeStamp: Date.now(), button: 0, which: 1,
            preventDefault() { this.defaultPrevented = true; }, stopPropagation() {}, stopImmediatePropagation() {},
        }, more);
        for (const f of [...(this.listeners[type] || [])]) f(ev);
        for (let n = target; n && n.listeners && n !== this; n = n.parentNode) for (const f of n.listeners[type] || []) f.call(n, ev);
        return ev;
    }
}

module.exports = { Document, Element, Text, decode, escText };
