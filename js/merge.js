// stand-in for the merge-anything package (flat and nested plain objects)
function plain(x) { return Object.prototype.toString.call(x) === '[object Object]'; }
export function merge(a, ...more) {
    const out = {};
    for (const o of [a, ...more]) {
        if (!plain(o)) continue;
        for (const k of Object.keys(o)) {
            out[k] = plain(out[k]) && plain(o[k]) ? merge(out[k], o[k]) : plain(o[k]) ? merge({}, o[k]) : o[k];
        }
    }
    return out;
}
