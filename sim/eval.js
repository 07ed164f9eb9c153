'use strict';
// Reference semantics of the specification language: what every expression means over plain state.
// Values: null, boolean, integer (number), string, array.

const isInt = (v) => typeof v === 'number';
function int(v) {
    if (v === null || v === undefined) return 0;
    if (typeof v === 'boolean') return v ? 1 : 0;
    if (isInt(v)) return v;
    if (typeof v === 'string') return [...v].length;
    return v.length;
}
function truthy(v) {
    if (v === null || v === undefined) return false;
    if (typeof v === 'boolean') return v;
    if (isInt(v)) return v !== 0;
    return v.length !== 0;
}
function list(v) {
    if (Array.isArray(v)) return v;
    if (v === null || v === undefined) return [];
    return [v];
}
function key(v) {
    if (Array.isArray(v)) return v.length ? v[0] : null;
    return v;
}
function str(v) {
    if (v === null || v === undefined) return '';
    if (typeof v === 'boolean') return v ? 'true' : 'false';
    if (isInt(v)) return String(v);
    if (typeof v === 'string') return v;
    return '[' + v.map(str).join(',') + ']';
}
function eq(a, b) {
    if (a === b) return true;
    if (Array.isArray(a) && Array.isArray(b)) {
        if (a.length !== b.length) return false;
        for (let i = 0; i < a.length; i++) if (!eq(a[i], b[i])) return false;
        return true;
    }
    return false;
}
function fromJ(j) {
    if (j === null || j === undefined) return null;
    if (typeof j === 'number') return Number.isInteger(j) ? j : 0;
    if (Array.isArray(j)) return j.map(fromJ);
    if (typeof j === 'object') return null;
    return j;
}

// world: { value(i), local(uid), computed(i), source(i), route(i), cache(i), amap(i, key), dep(name) }
// env: { args: [], locals: [uid], path: '' }
function evaluate(e, env, w) {
    if (!Array.isArray(e) || typeof e[0] !== 'string') return fromJ(e);
    const ev = (i) => evaluate(e[i], env, w);
    switch (e[0]) {
        case 'k': return fromJ(e[1]);
        case 'v': return w.value(e[1]);
        case 'l': return e[1] < env.locals.length ? w.local(env.locals[e[1]]) : null;
        case 'a': return e[1] < env.args.length ? env.args[e[1]] : null;
        case 'c': return w.computed(e[1]);
        case 's': return w.source(e[1]);
        case 'r': return w.route(e[1]);
        case 'cache': return w.cache(e[1]);
        case 'amap': return w.amap(e[1], ev(2));
        case '+': return (int(ev(1)) + int(ev(2))) % 100003;
        case '-': return (int(ev(1)) - int(ev(2))) % 100003;
        case '*': return Number((BigInt(int(ev(1))) * BigInt(int(ev(2)))) % 100003n);
        case '%': {
            const m = int(ev(2));
            if (m === 0) return 0;
            const a = int(ev(1));
            const mm = Math.abs(m);
            return ((a % mm) + mm) % mm;
        }
        case 'cat': return Array.from(str(ev(1)) + str(ev(2))).slice(0, 60).join('');
        case 'str': return str(ev(1));
        case 'eq': return eq(ev(1), ev(2));
        case 'lt': return int(ev(1)) < int(ev(2));
        case 'not': return !truthy(ev(1));
        case 'if': return truthy(ev(1)) ? ev(2) : ev(3);
        case 'len': return list(ev(1)).length;
        case 'idx': {
            const l = list(ev(1));
            const i = int(ev(2));
            return i >= 0 && i < l.length ? l[i] : null;
        }
        case 'rev': return list(ev(1)).slice().reverse();
        case 'take': {
            const l = list(ev(1));
            return l.slice(0, Math.max(0, int(ev(2))));
        }
        case 'filt': {
            const l = list(ev(1));
            const n = Math.max(1, int(ev(2)));
            return l.filter((x) => (((int(key(x)) % n) + n) % n) !== 0);
        }
        case 'list': return e.slice(1).map((x) => evaluate(x, env, w));
        case 'push': {
            const l = list(ev(1)).slice();
            l.push(ev(2));
            return l;
        }
        case 'boom': return ev(2);
        default: return null;
    }
}

function constEval(e, env) {
    if (Array.isArray(e) && e[0] === 'a') return e[1] < env.args.length ? env.args[e[1]] : null;
    if (Array.isArray(e) && e[0] === 'k') return fromJ(e[1]);
    return fromJ(e);
}

const ROOT = { args: [], locals: [], path: '' };
const withArg = (env, v) => ({ args: [...env.args, v], locals: env.locals, path: env.path });
const sub = (env, part) => ({ args: env.args, locals: env.locals, path: env.path + '/' + part });

// ---- styles, with the rules they must produce (written by hand from the meaning of the style)
const STATIC_CSS = [
    { rules: [['', 'color: red']] },
    { rules: [['', 'color: blue'], [':hover', 'color: green;']] },
    { rules: [['', 'border: 1px solid black'], [':nth-child(2)', 'margin: 1px;']] },
    { rules: [['', 'animation: 1s infinite ease KF'], ['KF', '0% { opacity: 0; } 100% { opacity: 1; }']] },
    { rules: [['', 'width: 10px'], ['MEDIA screen and (max-width: 600px)', '@ { width: 5px }']] },
    { rules: [['', 'padding: 3px']] },
    { rules: [['', 'color: red; padding: 3px']] },
    { rules: [['', 'opacity: 0.5']] },
];
// a style is a list of groups; every group is one generated class: { id, rules }
function cssGroups(j) {
    if (!Array.isArray(j)) return [{ id: 's:', rules: [['', '']] }];
    if (j[0] === 's') {
        const i = j[1] % STATIC_CSS.length;
        return [{ id: 's' + i, rules: STATIC_CSS[i].rules }];
    }
    if (j[0] === 'd') return [j[2] ? { id: 'd' + j[1], rules: j[2] } : dyn(j[1])];
    if (j[0] === 'x') return [...cssGroups(j[1]), ...cssGroups(j[2])];
    return [{ id: 's:', rules: [['', '']] }];
}
// white space and trailing semicolons make no difference, except in quotes
function norm(s) {
    // outside quotes: runs of white space are one space, none around ; { }, and no ; before } or at the end
    const t = s.split(/("[^"]*")/).map((x, i) => (i % 2 ? x : x.replace(/\s+/g, ' ').replace(/ ?([;{}]) ?/g, '$1'))).join('');
    return t.split(/("[^"]*")/).map((x, i) => (i % 2 ? x : x.replace(/;+/g, ';').replace(/;\}/g, '}').replace(/\};/g, '}'))).join('').replace(/;$/, '').trim();
}
const dyn = (text) => ({ id: 'd' + text, rules: [['', norm(text)]] });
const mod = (a, n) => ((a % n) + n) % n;
function cssVal(v) {
    if (isInt(v)) {
        if (mod(v, 2) === 0) return [{ id: 's' + mod(v, 16) / 2, rules: STATIC_CSS[mod(v, 16) / 2].rules }];
        return [dyn(`width: ${mod(v, 50)}px;`)];
    }
    return [dyn(`margin: ${mod(int(v), 50)}px;`)];
}
function suspCss(kind, loading) {
    if (kind === 1) return [{ id: loading ? 'sL' : 'sR', rules: [['', loading ? 'opacity: 0.2' : 'opacity: 0.9']] }];
    return loading ? [{ id: 'sH', rules: [['', 'visibility: hidden']] }] : [];
}

// Split "selector { content }" style texts into rules: [selector, content].
function parseStyle(text) {
    const out = [];
    let i = 0;
    while (i < text.length) {
        const open = text.indexOf('{', i);
        if (open < 0) break;
        const sel = text.slice(i, open).trim();
        let depth = 1;
        let k = open + 1;
        while (k < text.length && depth > 0) {
            if (text[k] === '{') depth++;
            if (text[k] === '}') depth--;
            k++;
        }
        out.push([sel, text.slice(open + 1, k - 1)]);
        i = k;
    }
    return out;
}

// All rules of a page, by class name: name -> Map(suffix -> content), with generated names abstracted.
function rulesOf(styleTexts) {
    const byName = new Map();
    const frames = new Map();
    const add = (name, suffix, content, dupes) => {
        if (!byName.has(name)) byName.set(name, { rules: [], dupes: 0 });
        byName.get(name).rules.push([suffix, content]);
    };
    const all = [];
    for (const t of styleTexts) all.push(...parseStyle(t));
    for (const [sel, content] of all) {
        const kf = /^@keyframes\s+(\S+)$/.exec(sel);
        if (kf) frames.set(kf[1], norm(content));
    }
    for (const [sel, content] of all) {
        if (/^@keyframes/.test(sel)) continue;
        const media = /^@media\s+(.*)$/s.exec(sel);
        if (media) {
            for (const [s2, c2] of parseStyle(content)) {
                const m = /^\.([A-Za-z0-9_-]+)(.*)$/s.exec(s2);
                if (m) add(m[1], 'MEDIA ' + norm(media[1]), norm(`@${m[2]} { ${norm(c2)} }`));
            }
            continue;
        }
        const m = /^\.([A-Za-z0-9_-]+)(.*)$/s.exec(sel);
        if (!m) continue;
        let c = norm(content);
        const anim = /^(.*animation:.*?)\s+(\S+)$/s.exec(c);
        if (anim && frames.has(anim[2])) {
            c = norm(anim[1] + ' KF');
            add(m[1], 'KF', frames.get(anim[2]));
        }
        add(m[1], m[2].trim(), c);
    }
    return byName;
}
const ruleText = (rules) => rules.map(([s, c]) => s + '{' + norm(c) + '}').sort().join('\n');

module.exports = {
    int, truthy, list, key, str, eq, fromJ, evaluate, constEval, ROOT, withArg, sub, cssGroups, cssVal, suspCss, rulesOf, ruleText, norm,
};
