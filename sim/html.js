'use strict';
// Reads a page sent by the server. The subset of HTML it accepts is what a correct page may use; anything a
// browser would have to repair (unknown entity, stray or unclosed tag, duplicate attribute) is an error.
const { makeDom } = require('./dom');

const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr']);
const RAW = new Set(['script', 'style']);
const NAMED = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'" };
const NAME = /[^\s"'<>/=\u0000-\u001f]+/y;

function decode(text) {
    return text.replace(/&(#x[0-9a-fA-F]+;|#[0-9]+;|[A-Za-z][A-Za-z0-9]*;?|#?)/g, (all, e) => {
        if (e === '') return '&';
        if (e[0] === '#') {
            if (!e.endsWith(';')) throw new Error(`bad character reference ${all}`);
            const n = e[1] === 'x' ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10);
            return String.fromCodePoint(n);
        }
        const known = NAMED[e.replace(/;$/, '')];
        if (known !== undefined && e.endsWith(';')) return known;
        if (known !== undefined || e.endsWith(';')) throw new Error(`bad character reference ${all}`);
        return all;
    });
}

function emptyDocument() {
    const owner = {
        now: () => 0, wall: () => 0, onMutation() {}, onListener() {}, onInvoke() {}, onFocus() {}, onCookie() {}, uncaught(err) { throw err; }, track() {},
    };
    const D = makeDom(owner);
    const document = new D.Document();
    owner.document = document;
    return document;
}

// -> document; throws with a description when the text is not a well-formed page
function parsePage(text) {
    const document = emptyDocument();
    const m = /^<!DOCTYPE html>\s*/i.exec(text);
    if (!m) throw new Error('the page does not begin with <!DOCTYPE html>');
    let i = m[0].length;
    const stack = [];
    const here = (n = 60) => JSON.stringify(text.slice(i, i + n));
    const top = () => stack[stack.length - 1];
    const addText = (s) => {
        if (s === '') return;
        if (stack.length === 0) {
            if (/\S/.test(s)) throw new Error(`text outside of the document: ${JSON.stringify(s.slice(0, 60))}`);
            return;
        }
        top().appendChild(document.createTextNode(s));
    };
    while (i < text.length) {
        if (text.startsWith('<!--', i)) {
            const e = text.indexOf('-->', i);
            if (e < 0) throw new Error('unclosed comment');
            if (top()) top().appendChild(document.createComment(text.slice(i + 4, e)));
            i = e + 3;
            continue;
        }
        if (text[i] === '<' && text[i + 1] === '/') {
            NAME.lastIndex = i + 2;
            const n = NAME.exec(text);
            if (!n || text[NAME.lastIndex] !== '>') throw new Error(`bad closing tag ${here()}`);
            const el = stack.pop();
            if (!el || el._srcName !== n[0]) throw new Error(`closing tag </${n[0]}> for <${el ? el._srcName : 'nothing'}>`);
            i = NAME.lastIndex + 1;
            continue;
        }
        if (text[i] === '<') {
            NAME.lastIndex = i + 1;
            const n = NAME.exec(text);
            if (!n || !/^[A-Za-z]/.test(n[0])) throw new Error(`bad tag ${here()}`);
            let k = NAME.lastIndex;
            const svg = n[0] === 'svg' || (top() && top().namespaceURI === 'http://www.w3.org/2000/svg');
            const el = svg ? document.createElementNS('http://www.w3.org/2000/svg', n[0]) : document.createElement(n[0].toLowerCase());
            el._srcName = n[0];
            let selfClose = false;
            for (;;) {
                const ws = /\s*/y;
                ws.lastIndex = k;
                const had = ws.exec(text)[0].length;
                k = ws.lastIndex;
                if (text[k] === '>') {
                    k++;
                    break;
                }
                if (text.startsWith('/>', k)) {
                    selfClose = true;
                    k += 2;
                    break;
                }
                if (k >= text.length) throw new Error(`unclosed tag ${here()}`);
                if (!had) throw new Error(`no space before an attribute in ${here(120)}`);
                NAME.lastIndex = k;
                const a = NAME.exec(text);
                if (!a) throw new Error(`bad attribute in ${here(120)}`);
                k = NAME.lastIndex;
                let value = '';
                if (text[k] === '=') {
                    if (text[k + 1] !== '"') throw new Error(`attribute ${a[0]} is not quoted in ${here(120)}`);
                    const e = text.indexOf('"', k + 2);
                    if (e < 0) throw new Error(`unclosed attribute ${a[0]}`);
                    value = decode(text.slice(k + 2, e));
                    k = e + 1;
                }
                const name = decode(a[0]).toLowerCase();
                if (el.hasAttribute(name)) throw new Error(`attribute ${name} is given twice in ${here(120)}`);
                el.setAttribute(name, value);
            }
            if (stack.length === 0) {
                if (document.documentElement) throw new Error(`a second root element ${here()}`);
                document.appendChild(el);
            } else top().appendChild(el);
            i = k;
            if (VOID.has(el.localName) && !svg) continue;
            if (selfClose) {
                if (!svg) throw new Error(`<${n[0]} /> does not close an element`);
                continue;
            }
            if (RAW.has(el.localName) && !svg) {
                const close = `</${n[0]}>`;
                // lower case is not always of the same length
                const end = new RegExp(close, 'gi');
                end.lastIndex = i;
                const e = (end.exec(text) || { index: -1 }).index;
                if (e < 0) throw new Error(`unclosed <${n[0]}>`);
                if (e > i) el.appendChild(document.createTextNode(text.slice(i, e)));
                i = e + close.length;
                continue;
            }
            stack.push(el);
            continue;
        }
        let e = text.indexOf('<', i);
        if (e < 0) e = text.length;
        addText(decode(text.slice(i, e)));
        i = e;
    }
    if (stack.length) throw new Error(`<${top()._srcName}> is not closed`);
    if (!document.documentElement) throw new Error('the page is empty');
    return document;
}

module.exports = { parsePage, emptyDocument };
