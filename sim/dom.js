'use strict';
// A small document object model that follows the DOM standard closely enough for a program to be
// unable to tell (including the exceptions of invalid operations). Everything it does is observable
// by the simulator through the hooks of its owner.

class DOMExceptionSim extends Error {
    constructor(message, name) {
        super(message);
        this.name = name;
    }
}

function makeDom(owner) {
    // owner: { onMutation(kind, node, detail), onListener(node, type, +1|-1), uncaught(err), now() , track(node) }

    class EventTarget {
        constructor() {
            Object.defineProperty(this, '_listeners', { value: new Map(), enumerable: false });
        }
        addEventListener(type, callback, options) {
            if (callback === null || callback === undefined) return;
            const capture = typeof options === 'boolean' ? options : !!(options && options.capture);
            const once = typeof options === 'object' && options !== null && !!options.once;
            let list = this._listeners.get(type);
            if (!list) {
                list = [];
                this._listeners.set(type, list);
            }
            if (list.some((l) => l.callback === callback && l.capture === capture)) return;
            list.push({ callback, capture, once, removed: false });
            owner.onListener(this, type, 1);
            const signal = typeof options === 'object' && options !== null ? options.signal : null;
            if (signal) signal.addEventListener('abort', () => this.removeEventListener(type, callback, options));
        }
        removeEventListener(type, callback, options) {
            const capture = typeof options === 'boolean' ? options : !!(options && options.capture);
            const list = this._listeners.get(type);
            if (!list) return;
            const i = list.findIndex((l) => l.callback === callback && l.capture === capture);
            if (i >= 0) {
                list[i].removed = true;
                list.splice(i, 1);
                owner.onListener(this, type, -1);
            }
        }
        dispatchEvent(event) {
            return dispatch(this, event);
        }
        _count(type) {
            const l = this._listeners.get(type);
            return l ? l.length : 0;
        }
    }

    function invoke(target, event, phase) {
        const list = target._listeners.get(event.type);
        if (!list) {
            owner.onInvoke && owner.onInvoke(target, event, phase, 0);
            return;
        }
        owner.onInvoke && owner.onInvoke(target, event, phase, list.length);
        for (const l of list.slice()) {
            if (l.removed) continue;
            if (phase === 'capture' && !l.capture) continue;
            if (phase === 'bubble' && l.capture) continue;
            if (l.once) target.removeEventListener(event.type, l.callback, l.capture);
            event.currentTarget = target;
            try {
                if (typeof l.callback === 'function') l.callback.call(target, event);
                else l.callback.handleEvent(event);
            } catch (err) {
                owner.uncaught(err);
            }
            if (event._stopImmediate) return;
        }
    }

    function dispatch(target, event) {
        event.target = target;
        const path = [];
        let n = target.parentNode;
        while (n) {
            path.push(n);
            n = n.parentNode;
        }
        if (owner.window && target !== owner.window && event.type !== 'load') path.push(owner.window);
        const last = path[path.length - 1];
        if (last === owner.window && !(path.includes(owner.document) || target === owner.document)) path.pop();
        for (const p of path.slice().reverse()) {
            if (event._stop) break;
            invoke(p, event, 'capture');
        }
        if (!event._stop) invoke(target, event, 'target');
        if (event.bubbles) {
            for (const p of path) {
                if (event._stop) break;
                invoke(p, event, 'bubble');
            }
        }
        event.currentTarget = null;
        return !event.defaultPrevented;
    }

    class Event {
        constructor(type, init = {}) {
            this.type = type;
            this.bubbles = !!init.bubbles;
            this.cancelable = init.cancelable === undefined ? false : !!init.cancelable;
            this.defaultPrevented = false;
            this.target = null;
            this.currentTarget = null;
            this.isTrusted = true;
            this.timeStamp = owner.now();
            this._stop = false;
            this._stopImmediate = false;
        }
        preventDefault() {
            if (this.cancelable) this.defaultPrevented = true;
        }
        stopPropagation() {
            this._stop = true;
        }
        stopImmediatePropagation() {
            this._stop = true;
            this._stopImmediate = true;
        }
        composedPath() { return []; }
    }
    class UIEvent extends Event {}
    class MouseEvent extends UIEvent {
        constructor(t, i = {}) {
            super(t, i);
            this.button = i.button || 0;
            this.altKey = !!i.altKey; this.ctrlKey = !!i.ctrlKey; this.shiftKey = !!i.shiftKey; this.metaKey = !!i.metaKey;
        }
    }
    class InputEvent extends UIEvent {}
    class FocusEvent extends UIEvent {}
    class KeyboardEvent extends UIEvent {
        constructor(t, i = {}) {
            super(t, i);
            this.key = i.key || '';
            this.code = i.code || '';
            this.altKey = !!i.altKey; this.ctrlKey = !!i.ctrlKey; this.shiftKey = !!i.shiftKey; this.metaKey = !!i.metaKey;
        }
    }
    class DragEvent extends MouseEvent {
        constructor(t, i = {}) {
            super(t, i);
            this.dataTransfer = i.dataTransfer === undefined ? null : i.dataTransfer;
        }
    }
    class CustomEvent extends Event {
        constructor(t, i = {}) { super(t, i); this.detail = i.detail; }
    }
    class MessageEvent extends Event {
        constructor(t, i = {}) { super(t, i); this.data = i.data; }
    }
    class CloseEvent extends Event {
        constructor(t, i = {}) { super(t, i); this.code = i.code || 1005; this.reason = i.reason || ''; this.wasClean = !!i.wasClean; }
    }
    class PopStateEvent extends Event {
        constructor(t, i = {}) { super(t, i); this.state = i.state === undefined ? null : i.state; }
    }
    class HashChangeEvent extends Event {
        constructor(t, i = {}) { super(t, i); this.oldURL = i.oldURL || ''; this.newURL = i.newURL || ''; }
    }

    class NodeList extends Array {
        item(i) { return this[i] === undefined ? null : this[i]; }
    }

    let serial = 0;

    class Node extends EventTarget {
        constructor() {
            super();
            this._kids = [];
            this.parentNode = null;
            Object.defineProperty(this, '_serial', { value: serial++, enumerable: false });
            owner.track && owner.track(this);
        }
        get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
        get childNodes() { return NodeList.from(this._kids); }
        get firstChild() { return this._kids[0] || null; }
        get lastChild() { return this._kids[this._kids.length - 1] || null; }
        get nextSibling() {
            if (!this.parentNode) return null;
            const k = this.parentNode._kids;
            return k[k.indexOf(this) + 1] || null;
        }
        get previousSibling() {
            if (!this.parentNode) return null;
            const k = this.parentNode._kids;
            return k[k.indexOf(this) - 1] || null;
        }
        get ownerDocument() { return owner.document; }
        get isConnected() {
            let n = this;
            while (n.parentNode) n = n.parentNode;
            return n === owner.document;
        }
        hasChildNodes() { return this._kids.length > 0; }
        getRootNode() {
            let n = this;
            while (n.parentNode) n = n.parentNode;
            return n;
        }
        contains(other) {
            let n = other;
            while (n) {
                if (n === this) return true;
                n = n.parentNode;
            }
            return false;
        }
        insertBefore(node, ref) {
            if (!(node instanceof Node)) throw new TypeError("Failed to execute 'insertBefore' on 'Node': parameter 1 is not of type 'Node'.");
            if (ref === undefined && arguments.length < 2) throw new TypeError('2 arguments required');
            if (ref !== null && ref !== undefined && !(ref instanceof Node)) throw new TypeError('parameter 2 is not of type Node');
            if (!(this instanceof Element) && !(this instanceof Document) && !(this instanceof DocumentFragment)) {
                throw new DOMExceptionSim('This node type does not support this method.', 'HierarchyRequestError');
            }
            if (node.contains(this)) throw new DOMExceptionSim('The new child element contains the parent.', 'HierarchyRequestError');
            if (ref && ref.parentNode !== this) {
                throw new DOMExceptionSim('The node before which the new node is to be inserted is not a child of this node.', 'NotFoundError');
            }
            let before = ref || null;
            if (before === node) before = node.nextSibling;
            if (node instanceof DocumentFragment) {
                for (const k of node._kids.slice()) this.insertBefore(k, before);
                return node;
            }
            if (node.parentNode) node.parentNode._detach(node);
            const at = before ? this._kids.indexOf(before) : this._kids.length;
            this._kids.splice(at, 0, node);
            node.parentNode = this;
            owner.onMutation('insert', node, this);
            return node;
        }
        _detach(node) {
            const i = this._kids.indexOf(node);
            this._kids.splice(i, 1);
            node.parentNode = null;
        }
        appendChild(node) { return this.insertBefore(node, null); }
        removeChild(node) {
            if (!node || node.parentNode !== this) throw new DOMExceptionSim('The node to be removed is not a child of this node.', 'NotFoundError');
            this._detach(node);
            owner.onMutation('remove', node, this);
            return node;
        }
        replaceChild(node, child) {
            if (!child || child.parentNode !== this) throw new DOMExceptionSim('The node to be replaced is not a child of this node.', 'NotFoundError');
            if (node === child) return child;
            const next = child.nextSibling === node ? node.nextSibling : child.nextSibling;
            this.removeChild(child);
            this.insertBefore(node, next);
            return child;
        }
        remove() {
            if (this.parentNode) this.parentNode.removeChild(this);
        }
        _nodes(list) {
            return list.map((x) => (x instanceof Node ? x : owner.document.createTextNode(String(x))));
        }
        before(...list) {
            if (!this.parentNode) return;
            for (const n of this._nodes(list)) this.parentNode.insertBefore(n, this);
        }
        after(...list) {
            if (!this.parentNode) return;
            const next = this.nextSibling;
            for (const n of this._nodes(list)) this.parentNode.insertBefore(n, next);
        }
        replaceWith(...list) {
            if (!this.parentNode) return;
            this.before(...list);
            this.remove();
        }
        get textContent() {
            let s = '';
            for (const k of this._kids) if (!(k instanceof Comment)) s += k.textContent;
            return s;
        }
        set textContent(v) {
            for (const k of this._kids.slice()) this.removeChild(k);
            if (v !== null && v !== undefined && String(v) !== '') this.appendChild(owner.document.createTextNode(String(v)));
        }
    }
    Node.ELEMENT_NODE = 1; Node.TEXT_NODE = 3; Node.COMMENT_NODE = 8; Node.DOCUMENT_NODE = 9;

    class CharacterData extends Node {
        constructor(data) {
            super();
            this._data = String(data);
        }
        get data() { return this._data; }
        set data(v) {
            this._data = v === null ? '' : String(v);
            owner.onMutation('text', this, null);
        }
        get nodeValue() { return this._data; }
        set nodeValue(v) { this.data = v; }
        get textContent() { return this._data; }
        set textContent(v) { this.data = v; }
        get length() { return this._data.length; }
        replaceData(a, b, c) { this.data = this._data.slice(0, a) + c + this._data.slice(a + b); }
    }
    class Text extends CharacterData {
        get nodeType() { return 3; }
        get nodeName() { return '#text'; }
    }
    class Comment extends CharacterData {
        get nodeType() { return 8; }
        get nodeName() { return '#comment'; }
    }
    class DocumentFragment extends Node {
        get nodeType() { return 11; }
    }

    const NAME = /^[A-Za-z_:][-A-Za-z0-9_:.\u00B7-\uFFFF]*$/;
    const ATTR_BAD = /[\s"'<>/=\u0000]/;

    class Element extends Node {
        constructor(name, ns) {
            super();
            this._name = name;
            this.namespaceURI = ns;
            this._attrs = new Map();
        }
        get nodeType() { return 1; }
        get localName() { return this._name; }
        get tagName() { return this.namespaceURI === 'http://www.w3.org/1999/xhtml' ? this._name.toUpperCase() : this._name; }
        get nodeName() { return this.tagName; }
        get id() { return this.getAttribute('id') || ''; }
        set id(v) { this.setAttribute('id', v); }
        get className() { return this.getAttribute('class') || ''; }
        set className(v) { this.setAttribute('class', v); }
        get children() { return NodeList.from(this._kids.filter((k) => k instanceof Element)); }
        get firstElementChild() { return this.children[0] || null; }
        get childElementCount() { return this.children.length; }
        get attributes() { return NodeList.from([...this._attrs].map(([name, value]) => ({ name, value }))); }
        getAttributeNames() { return [...this._attrs.keys()]; }
        _lower(n) {
            n = String(n);
            return this.namespaceURI === 'http://www.w3.org/1999/xhtml' ? n.toLowerCase() : n;
        }
        getAttribute(n) {
            n = this._lower(n);
            return this._attrs.has(n) ? this._attrs.get(n) : null;
        }
        hasAttribute(n) { return this._attrs.has(this._lower(n)); }
        setAttribute(n, v) {
            n = String(n);
            if (n === '' || ATTR_BAD.test(n)) throw new DOMExceptionSim(`'${n}' is not a valid attribute name.`, 'InvalidCharacterError');
            n = this._lower(n);
            this._attrs.set(n, String(v));
            this._attrChanged(n, String(v));
            owner.onMutation('attr', this, n);
        }
        removeAttribute(n) {
            n = this._lower(n);
            if (this._attrs.delete(n)) {
                this._attrChanged(n, null);
                owner.onMutation('attr', this, n);
            }
        }
        toggleAttribute(n, force) {
            const has = this.hasAttribute(n);
            const want = force === undefined ? !has : !!force;
            if (want && !has) this.setAttribute(n, '');
            if (!want && has) this.removeAttribute(n);
            return want;
        }
        _attrChanged() {}
        append(...l) { for (const n of this._nodes(l)) this.insertBefore(n, null); }
        prepend(...l) {
            const f = this.firstChild;
            for (const n of this._nodes(l)) this.insertBefore(n, f);
        }
        replaceChildren(...l) {
            for (const k of this._kids.slice()) this.removeChild(k);
            this.append(...l);
        }
        get classList() {
            const self = this;
            const get = () => (self.getAttribute('class') || '').split(/\s+/).filter((x) => x);
            return {
                contains: (c) => get().includes(c),
                add: (...cs) => { const l = get(); for (const c of cs) if (!l.includes(c)) l.push(c); self.setAttribute('class', l.join(' ')); },
                remove: (...cs) => self.setAttribute('class', get().filter((c) => !cs.includes(c)).join(' ')),
                get length() { return get().length; },
            };
        }
        *_walk() {
            for (const k of this._kids) {
                if (k instanceof Element) {
                    yield k;
                    yield* k._walk();
                }
            }
        }
        matches(sel) { return sel.split(',').some((s) => matchSimple(this, s.trim())); }
        closest(sel) {
            let n = this;
            while (n instanceof Element) {
                if (n.matches(sel)) return n;
                n = n.parentNode;
            }
            return null;
        }
        querySelectorAll(sel) { return NodeList.from([...this._walk()].filter((e) => e.matches(sel))); }
        querySelector(sel) {
            for (const e of this._walk()) if (e.matches(sel)) return e;
            return null;
        }
        getElementsByTagName(n) { return NodeList.from([...this._walk()].filter((e) => n === '*' || e._name === n.toLowerCase())); }
        getElementsByClassName(n) { return NodeList.from([...this._walk()].filter((e) => e.classList.contains(n))); }
        getBoundingClientRect() { return { x: 0, y: 0, width: 0, height: 0, top: 0, left: 0, right: 0, bottom: 0 }; }
        scrollIntoView() {}
    }

    function matchSimple(el, s) {
        const m = /^(\*|[a-zA-Z][\w-]*)?((?:#[\w-]+|\.[\w-]+|\[[^\]]+\])*)$/.exec(s);
        if (!m) throw new DOMExceptionSim(`'${s}' is not a valid selector.`, 'SyntaxError');
        if (m[1] && m[1] !== '*' && el._name !== m[1].toLowerCase()) return false;
        for (const part of m[2].match(/#[\w-]+|\.[\w-]+|\[[^\]]+\]/g) || []) {
            if (part[0] === '#' && el.getAttribute('id') !== part.slice(1)) return false;
            if (part[0] === '.' && !el.classList.contains(part.slice(1))) return false;
            if (part[0] === '[') {
                const a = /^\[([\w-]+)(?:=["']?([^"'\]]*)["']?)?\]$/.exec(part);
                if (!a) throw new DOMExceptionSim(`'${s}' is not a valid selector.`, 'SyntaxError');
                if (!el.hasAttribute(a[1])) return false;
                if (a[2] !== undefined && el.getAttribute(a[1]) !== a[2]) return false;
            }
        }
        return true;
    }

    class HTMLElement extends Element {
        focus() { owner.onFocus && owner.onFocus(this); owner.document.activeElement = this; }
        blur() { if (owner.document.activeElement === this) owner.document.activeElement = owner.document.body; }
        click() { dispatch(this, new MouseEvent('click', { bubbles: true, cancelable: true })); }
        get dataset() {
            const self = this;
            return new Proxy({}, {
                get(_, k) {
                    if (typeof k !== 'string') return undefined;
                    const v = self.getAttribute('data-' + k.replace(/[A-Z]/g, (c) => '-' + c.toLowerCase()));
                    return v === null ? undefined : v;
                },
            });
        }
        get innerText() { return this.textContent; }
        set innerText(v) { this.textContent = v; }
        get offsetWidth() { return 100 + this._name.length; }
        get scrollTop() { return this._st || 0; }
        set scrollTop(v) { this._st = v; }
    }
    class SVGElement extends Element { focus() {} }
    class HTMLInputElement extends HTMLElement {
        constructor(n, ns) { super(n, ns); this._value = ''; this._dirty = false; this.checked = false; this.files = null; }
        get value() { return this._dirty ? this._value : (this.getAttribute('value') || ''); }
        set value(v) { this._value = v === null ? '' : String(v); this._dirty = true; owner.onMutation('value', this, null); }
        get defaultValue() { return this.getAttribute('value') || ''; }
        set defaultValue(v) { this.setAttribute('value', v); }
        get type() { return this.getAttribute('type') || 'text'; }
    }
    class HTMLTextAreaElement extends HTMLElement {
        constructor(n, ns) { super(n, ns); this._value = ''; this._dirty = false; }
        get value() { return this._dirty ? this._value : this.textContent; }
        set value(v) { this._value = v === null ? '' : String(v); this._dirty = true; owner.onMutation('value', this, null); }
        get defaultValue() { return this.textContent; }
        set defaultValue(v) { this._default = String(v); }
    }
    class HTMLSelectElement extends HTMLElement {
        constructor(n, ns) { super(n, ns); this._value = ''; }
        get value() { return this._value; }
        set value(v) { this._value = String(v); }
    }
    class HTMLAnchorElement extends HTMLElement {}
    class HTMLStyleElement extends HTMLElement {}
    class HTMLHeadElement extends HTMLElement {}
    class HTMLBodyElement extends HTMLElement {}
    class HTMLHtmlElement extends HTMLElement {}
    class HTMLUnknownElement extends HTMLElement {}

    const byName = {
        input: HTMLInputElement, textarea: HTMLTextAreaElement, select: HTMLSelectElement, a: HTMLAnchorElement,
        style: HTMLStyleElement, head: HTMLHeadElement, body: HTMLBodyElement, html: HTMLHtmlElement,
    };

    class Document extends Node {
        constructor() {
            super();
            this.activeElement = null;
            this.readyState = 'loading';
            this.title = '';
            this.hidden = false;
            this.visibilityState = 'visible';
            this._jar = new Map();
        }
        get nodeType() { return 9; }
        get documentElement() { return this._kids.find((k) => k instanceof Element) || null; }
        get head() { return this.documentElement ? this.documentElement._kids.find((k) => k._name === 'head') || null : null; }
        get body() { return this.documentElement ? this.documentElement._kids.find((k) => k._name === 'body') || null : null; }
        get defaultView() { return owner.window; }
        createElement(name) {
            name = String(name);
            if (!NAME.test(name)) throw new DOMExceptionSim(`The tag name provided ('${name}') is not a valid name.`, 'InvalidCharacterError');
            name = name.toLowerCase();
            return new (byName[name] || HTMLElement)(name, 'http://www.w3.org/1999/xhtml');
        }
        createElementNS(ns, name) {
            name = String(name);
            if (!NAME.test(name)) throw new DOMExceptionSim(`The tag name provided ('${name}') is not a valid name.`, 'InvalidCharacterError');
            if (ns === 'http://www.w3.org/1999/xhtml') return this.createElement(name);
            return new SVGElement(name, ns);
        }
        createTextNode(t) { return new Text(t); }
        createComment(t) { return new Comment(t); }
        createDocumentFragment() { return new DocumentFragment(); }
        getElementById(id) { return this.querySelector('#' + id); }
        querySelectorAll(sel) {
            const d = this.documentElement;
            return d ? NodeList.from([d, ...d._walk()].filter((e) => e.matches(sel))) : new NodeList();
        }
        querySelector(sel) {
            const d = this.documentElement;
            if (!d) return null;
            for (const e of [d, ...d._walk()]) if (e.matches(sel)) return e;
            return null;
        }
        getElementsByTagName(n) { return this.querySelectorAll(n); }
        get cookie() {
            const now = owner.wall();
            const out = [];
            for (const [k, c] of this._jar) if (c.expires === null || c.expires > now) out.push(`${k}=${c.value}`);
            return out.join('; ');
        }
        set cookie(text) {
            const parts = String(text).split(';');
            const first = parts[0];
            const eq = first.indexOf('=');
            const name = (eq < 0 ? '' : first.slice(0, eq)).trim();
            const value = (eq < 0 ? first : first.slice(eq + 1)).trim();
            let expires = null;
            let maxAge = null;
            for (const p of parts.slice(1)) {
                const i = p.indexOf('=');
                const k = (i < 0 ? p : p.slice(0, i)).trim().toLowerCase();
                const v = i < 0 ? '' : p.slice(i + 1).trim();
                if (k === 'expires') {
                    const t = Date.parse(v);
                    if (!Number.isNaN(t)) expires = t;
                }
                if (k === 'max-age' && /^-?\d+$/.test(v)) maxAge = owner.wall() + Number(v) * 1000;
            }
            if (maxAge !== null) expires = maxAge;
            owner.onCookie && owner.onCookie(text);
            if (/[\u0000-\u0008\u000a-\u001f\u007f]/.test(first)) return;
            this._jar.set(name, { value, expires });
        }
    }

    return {
        EventTarget, Event, UIEvent, MouseEvent, InputEvent, FocusEvent, KeyboardEvent, DragEvent, CustomEvent, MessageEvent, CloseEvent,
        PopStateEvent, HashChangeEvent, Node, NodeList, CharacterData, Text, Comment, DocumentFragment, Element, HTMLElement, SVGElement,
        HTMLInputElement, HTMLTextAreaElement, HTMLSelectElement, HTMLAnchorElement, HTMLStyleElement, HTMLHeadElement, HTMLBodyElement,
        HTMLHtmlElement, HTMLUnknownElement, Document, DOMException: DOMExceptionSim, dispatch,
    };
}

module.exports = { makeDom };
