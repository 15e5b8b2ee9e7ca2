// A small browser: enough of the DOM to run the pages of the web service, driven by lines of JSON.
//
// requests: {"html": page, "url": address, "statics": {path: text}, "files": {selector: name},
//            "stream": {"status": .., "chunks": [base64..], "broken": ..} | absent}   opens a page
//           {"act": event, "path": [child index, ...]}                                acts upon the open page
// response: {"views": [tree, ...], "errors": [...], "href": where the page went, "sent": [requests it made]}
// A tree is [tag, {attribute: value}, hidden, [children...]] or a string of text; what is hidden is still included.
"use strict";
const vm = require("vm");
const readline = require("readline");

const VOID = new Set("area base br col embed hr img input link meta param source track wbr".split(" "));
const RAW = new Set(["script", "style"]);
const RCDATA = new Set(["title", "textarea"]);
const ENT = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" };

const decode = (s) =>
    s.replace(/&(?:#x([0-9a-f]+)|#([0-9]+)|([a-z]+));/gi, (m, h, d, n) =>
        h ? String.fromCodePoint(parseInt(h, 16)) : d ? String.fromCodePoint(parseInt(d, 10)) : n in ENT ? ENT[n] : m);
const encode = (s) => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/"/g, "&quot;");

function browser(req) {
    const errors = [];
    let observers = [];
    let timers = [];
    let seq = 0;

    class Event {
        constructor(type, init = {}) {
            Object.assign(this, { type, bubbles: !!init.bubbles, cancelable: !!init.cancelable, composed: !!init.composed });
            this.target = this.currentTarget = null;
            this.defaultPrevented = this._stop = this._now = false;
            this.timeStamp = 0;
            this.key = init.key;
        }
        preventDefault() { if (this.cancelable) this.defaultPrevented = true; }
        stopPropagation() { this._stop = true; }
        stopImmediatePropagation() { this._stop = this._now = true; }
        composedPath() { return this._path || []; }
    }
    class CustomEvent extends Event {
        constructor(type, init = {}) { super(type, init); this.detail = init.detail === undefined ? null : init.detail; }
    }
    class Target {
        constructor() { Object.defineProperty(this, "_on", { value: new Map(), enumerable: false }); }
        addEventListener(type, fn, opt) {
            const l = this._on.get(type) || [];
            const capture = typeof opt === "object" && opt ? !!opt.capture : !!opt;
            if (!l.some((x) => x.fn === fn && x.capture === capture)) l.push({ fn, capture, once: !!(opt && opt.once) });
            this._on.set(type, l);
        }
        removeEventListener(type, fn, opt) {
            const capture = typeof opt === "object" && opt ? !!opt.capture : !!opt;
            this._on.set(type, (this._on.get(type) || []).filter((x) => x.fn !== fn || x.capture !== capture));
        }
        _run(ev, phase) {
            ev.currentTarget = this;
            const own = this["on" + ev.type];
            if (phase !== "capture" && typeof own === "function") this._call(own, ev);
            for (const l of [...(this._on.get(ev.type) || [])]) {
                if (phase === "capture" ? !l.capture : phase === "bubble" && l.capture) continue;
                if (l.once) this.removeEventListener(ev.type, l.fn, l.capture);
                this._call(typeof l.fn === "function" ? l.fn : l.fn.handleEvent.bind(l.fn), ev);
                if (ev._now) return;
            }
        }
        _call(fn, ev) { try { fn.call(this, ev); } catch (e) { errors.push(String(e)); } }
        dispatchEvent(ev) {
            ev.target = this;
            const path = [];
            for (let n = this; n; n = n === document ? window_ : n.parentNode || (n === window_ ? null : n === document ? window_ : null)) path.push(n);
            ev._path = path;
            for (const n of path.slice(1).reverse()) { if (ev._stop) break; n._run(ev, "capture"); }
            if (!ev._stop) this._run(ev, "at");
            if (ev.bubbles) for (const n of path.slice(1)) { if (ev._stop) break; n._run(ev, "bubble"); }
            ev.currentTarget = null;
            return !ev.defaultPrevented;
        }
    }

    function notify(target, rec) {
        for (const o of observers) {
            for (const [node, opt] of o._nodes) {
                if (node === target || (opt.subtree && node.contains(target))) {
                    if (rec.type === "attributes" && !opt.attributes && !opt.attributeOldValue) continue;
                    if (rec.type === "childList" && !opt.childList) continue;
                    if (rec.type === "characterData" && !opt.characterData) continue;
                    o._queue(Object.assign({ target, addedNodes: [], removedNodes: [], oldValue: null, attributeName: null }, rec));
                    break;
                }
            }
        }
    }
    class MutationObserver {
        constructor(cb) { this._cb = cb; this._nodes = new Map(); this._recs = []; this._due = false; }
        observe(node, opt) { this._nodes.set(node, opt || {}); if (!observers.includes(this)) observers.push(this); }
        disconnect() { this._nodes.clear(); this._recs = []; observers = observers.filter((o) => o !== this); }
        takeRecords() { const r = this._recs; this._recs = []; return r; }
        _queue(rec) {
            this._recs.push(rec);
            if (this._due) return;
            this._due = true;
            queueMicrotask(() => {
                this._due = false;
                const r = this.takeRecords();
                if (r.length) try { this._cb(r, this); } catch (e) { errors.push(String(e)); }
            });
        }
    }

    class Node extends Target {
        constructor(type) { super(); this.nodeType = type; this.parentNode = null; this.childNodes = []; }
        get ownerDocument() { return document; }
        get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
        get isConnected() { return document.contains(this); }
        getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
        get firstChild() { return this.childNodes[0] || null; }
        get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
        get children() { return this.childNodes.filter((n) => n instanceof Element); }
        get childElementCount() { return this.children.length; }
        get firstElementChild() { return this.children[0] || null; }
        get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
        _sib(d, el) {
            const p = this.parentNode;
            if (!p) return null;
            const l = el ? p.childNodes.filter((n) => n === this || n instanceof Element) : p.childNodes;
            return l[l.indexOf(this) + d] || null;
        }
        get nextSibling() { return this._sib(1); }
        get previousSibling() { return this._sib(-1); }
        get nextElementSibling() { return this._sib(1, true); }
        get previousElementSibling() { return this._sib(-1, true); }
        hasChildNodes() { return this.childNodes.length > 0; }
        contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
        isSameNode(n) { return n === this; }
        isEqualNode(n) { return ser(n) === ser(this); }
        compareDocumentPosition(n) {
            const all = [...walk(this.getRootNode())];
            return n === this ? 0 : this.contains(n) ? 20 : n.contains(this) ? 10 : all.indexOf(n) > all.indexOf(this) ? 4 : 2;
        }
        insertBefore(n, ref) {
            const ns = n instanceof DocumentFragment ? [...n.childNodes] : [n];
            for (const x of ns) {
                if (x.contains(this)) throw new Error("HierarchyRequestError");
                x.parentNode && x.parentNode.removeChild(x);
                const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
                if (i < 0) throw new Error("NotFoundError");
                this.childNodes.splice(i, 0, x);
                x.parentNode = this;
            }
            if (ns.length) notify(this, { type: "childList", addedNodes: ns });
            return n;
        }
        appendChild(n) { return this.insertBefore(n, null); }
        removeChild(n) {
            const i = this.childNodes.indexOf(n);
            if (i < 0) throw new Error("NotFoundError");
            this.childNodes.splice(i, 1);
            n.parentNode = null;
            notify(this, { type: "childList", removedNodes: [n] });
            return n;
        }
        replaceChild(n, old) { this.insertBefore(n, old); return this.removeChild(old); }
        remove() { if (this.parentNode) this.parentNode.removeChild(this); }
        append(...l) { for (const x of l) this.appendChild(nodeOf(x)); }
        prepend(...l) { const f = this.firstChild; for (const x of l) this.insertBefore(nodeOf(x), f); }
        replaceChildren(...l) { while (this.firstChild) this.removeChild(this.firstChild); this.append(...l); }
        after(...l) { const p = this.parentNode, r = this.nextSibling; for (const x of l) p.insertBefore(nodeOf(x), r); }
        before(...l) { for (const x of l) this.parentNode.insertBefore(nodeOf(x), this); }
        replaceWith(...l) { this.before(...l); this.remove(); }
        get textContent() { return this.childNodes.map((n) => (n.nodeType === 8 ? "" : n.textContent)).join(""); }
        set textContent(v) { this.replaceChildren(...(v === null || v === undefined || String(v) === "" ? [] : [String(v)])); }
        querySelectorAll(sel) { const t = parseSel(sel); return [...walk(this)].filter((n) => n !== this && n instanceof Element && t(n)); }
        querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
        getElementsByTagName(t) { return [...walk(this)].filter((n) => n !== this && n instanceof Element && (t === "*" || n.localName === t.toLowerCase())); }
        getElementsByClassName(c) { return this.querySelectorAll(c.trim().split(/\s+/).map((x) => "." + x).join("")); }
        normalize() {}
    }
    const nodeOf = (x) => (x instanceof Node ? x : new Text(String(x)));
    function* walk(n) { yield n; for (const c of n.childNodes) yield* walk(c); }

    class CharacterData extends Node {
        constructor(t, v) { super(t); this._v = v; }
        get data() { return this._v; }
        set data(v) { this._v = String(v); notify(this, { type: "characterData" }); }
        get nodeValue() { return this._v; }
        set nodeValue(v) { this.data = v; }
        get textContent() { return this._v; }
        set textContent(v) { this.data = v; }
        cloneNode() { return new this.constructor(this._v); }
    }
    class Text extends CharacterData { constructor(v) { super(3, v); } get nodeName() { return "#text"; } }
    class Comment extends CharacterData { constructor(v) { super(8, v); } get nodeName() { return "#comment"; } }
    class DocumentFragment extends Node {
        constructor() { super(11); }
        get nodeName() { return "#document-fragment"; }
        cloneNode(deep) { const f = new DocumentFragment(); if (deep) for (const c of this.childNodes) f.appendChild(c.cloneNode(true)); return f; }
        getElementById(i) { return [...walk(this)].find((n) => n instanceof Element && n.id === i) || null; }
    }
    class ShadowRoot extends DocumentFragment {}

    class Element extends Node {
        constructor(tag) {
            super(1);
            this.localName = tag;
            this._attrs = new Map();
            if (tag === "template") this.content = new DocumentFragment();
        }
        get tagName() { return this.localName.toUpperCase(); }
        get nodeName() { return this.tagName; }
        get namespaceURI() { return "http://www.w3.org/1999/xhtml"; }
        get attributes() { return [...this._attrs].map(([name, value]) => ({ name, value, nodeName: name, nodeValue: value })); }
        getAttributeNames() { return [...this._attrs.keys()]; }
        hasAttributes() { return this._attrs.size > 0; }
        getAttribute(k) { k = k.toLowerCase(); return this._attrs.has(k) ? this._attrs.get(k) : null; }
        hasAttribute(k) { return this._attrs.has(k.toLowerCase()); }
        setAttribute(k, v) {
            k = k.toLowerCase();
            const oldValue = this.getAttribute(k);
            this._attrs.set(k, String(v));
            notify(this, { type: "attributes", attributeName: k, oldValue });
        }
        removeAttribute(k) {
            k = k.toLowerCase();
            if (!this._attrs.has(k)) return;
            const oldValue = this.getAttribute(k);
            this._attrs.delete(k);
            notify(this, { type: "attributes", attributeName: k, oldValue });
        }
        toggleAttribute(k, on = !this.hasAttribute(k)) { on ? this.setAttribute(k, "") : this.removeAttribute(k); return on; }
        get id() { return this.getAttribute("id") || ""; }
        set id(v) { this.setAttribute("id", v); }
        get className() { return this.getAttribute("class") || ""; }
        set className(v) { this.setAttribute("class", v); }
        get classList() {
            const el = this, get = () => el.className.split(/\s+/).filter(Boolean), put = (l) => el.setAttribute("class", l.join(" "));
            return {
                add: (...c) => put([...new Set([...get(), ...c])]), remove: (...c) => put(get().filter((x) => !c.includes(x))),
                contains: (c) => get().includes(c), get length() { return get().length; }, [Symbol.iterator]: () => get()[Symbol.iterator](),
                toggle: (c, on) => { const want = on === undefined ? !get().includes(c) : !!on; want ? put([...new Set([...get(), c])]) : put(get().filter((x) => x !== c)); return want; },
                replace: (a, b) => put(get().map((x) => (x === a ? b : x))), forEach: (f) => get().forEach(f), toString: () => el.className, get value() { return el.className; },
            };
        }
        get style() {
            const el = this;
            const get = () => (el.getAttribute("style") || "").split(";").map((x) => x.split(":")).filter((x) => x.length > 1).map(([k, ...v]) => [k.trim(), v.join(":").trim()]);
            const put = (l) => el.setAttribute("style", l.map(([k, v]) => `${k}: ${v};`).join(" "));
            const kebab = (k) => k.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase());
            const api = {
                setProperty: (k, v, prio) => { const l = get().filter((x) => x[0] !== k); if (v !== "" && v !== null) l.push([k, String(v) + (prio ? " !" + prio : "")]); put(l); },
                removeProperty: (k) => { put(get().filter((x) => x[0] !== k)); },
                getPropertyValue: (k) => { const x = get().find((y) => y[0] === k); return x ? x[1] : ""; },
            };
            return new Proxy(api, {
                get: (t, k) => (k in t ? t[k] : k === "length" ? get().length : k === "cssText" ? el.getAttribute("style") || "" : typeof k === "string" ? t.getPropertyValue(kebab(k)) : undefined),
                set: (t, k, v) => { k === "cssText" ? el.setAttribute("style", v) : t.setProperty(kebab(k), v); return true; },
            });
        }
        get dataset() {
            const el = this, kebab = (k) => "data-" + k.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase());
            return new Proxy({}, {
                get: (t, k) => { const v = typeof k === "string" ? el.getAttribute(kebab(k)) : null; return v === null ? undefined : v; },
                set: (t, k, v) => { el.setAttribute(kebab(k), v); return true; }, has: (t, k) => el.hasAttribute(kebab(k)),
            });
        }
        get hidden() { return this.hasAttribute("hidden"); }
        set hidden(v) { this.toggleAttribute("hidden", !!v); }
        get href() { return this.getAttribute("href") || ""; }
        set href(v) { this.setAttribute("href", v); }
        get src() { return this.getAttribute("src") || ""; }
        set src(v) { this.setAttribute("src", v); }
        get type() { return this.getAttribute("type") || ""; }
        set type(v) { this.setAttribute("type", v); }
        get name() { return this.getAttribute("name") || ""; }
        set name(v) { this.setAttribute("name", v); }
        get title() { return this.getAttribute("title") || ""; }
        set title(v) { this.setAttribute("title", v); }
        get value() { return "_val" in this ? this._val : this.getAttribute("value") || ""; }
        set value(v) { if (this.localName === "progress" || this.localName === "li") this.setAttribute("value", v); else this._val = String(v); }
        get max() { return this.getAttribute("max"); }
        set max(v) { this.setAttribute("max", v); }
        get disabled() { return this.hasAttribute("disabled"); }
        set disabled(v) { this.toggleAttribute("disabled", !!v); }
        get files() { const l = [...(this._files || [])]; l.item = (i) => l[i] || null; return l; }
        get checked() { return "_checked" in this ? this._checked : this.hasAttribute("checked"); }
        set checked(v) { this._checked = !!v; }
        get form() { return this.closest("form"); }
        get elements() { return this.querySelectorAll("input, button, select, textarea"); }
        get innerText() { return this.textContent; }
        set innerText(v) { this.textContent = v; }
        get innerHTML() { return (this.content || this).childNodes.map(ser).join(""); }
        set innerHTML(v) {
            this._html = String(v);
            const f = parse(String(v), this.localName);
            const to = this.content || this;
            to.replaceChildren(...[...f.childNodes]);
        }
        get outerHTML() { return ser(this); }
        insertAdjacentElement(pos, el) { ({ beforebegin: () => this.before(el), afterbegin: () => this.prepend(el), beforeend: () => this.append(el), afterend: () => this.after(el) })[pos.toLowerCase()](); return el; }
        insertAdjacentHTML(pos, html) {
            const f = parse(html);
            ({ beforebegin: () => this.before(f), afterbegin: () => this.prepend(f), beforeend: () => this.append(f), afterend: () => this.after(f) })[pos.toLowerCase()]();
        }
        insertAdjacentText(pos, t) { this.insertAdjacentElement(pos, new Text(t)); }
        matches(sel) { return parseSel(sel)(this); }
        closest(sel) { const t = parseSel(sel); for (let n = this; n instanceof Element; n = n.parentNode) if (t(n)) return n; return null; }
        cloneNode(deep) {
            const e = new Element(this.localName);
            for (const [k, v] of this._attrs) e._attrs.set(k, v);
            if (this.content && deep) for (const c of this.content.childNodes) e.content.appendChild(c.cloneNode(true));
            if (deep) for (const c of this.childNodes) e.appendChild(c.cloneNode(true));
            return e;
        }
        click() { this.dispatchEvent(new Event("click", { bubbles: true, cancelable: true })); }
        focus() {} blur() {} scrollIntoView() {}
        reset() {}
        getBoundingClientRect() { return { x: 0, y: 0, width: 0, height: 0, top: 0, left: 0, right: 0, bottom: 0 }; }
        get offsetWidth() { return 0; } get offsetHeight() { return 0; }
        submit() {} requestSubmit() { this.dispatchEvent(new Event("submit", { bubbles: true, cancelable: true })); }
    }

    class Document extends Node {
        constructor() { super(9); this.visibilityState = "visible"; this.readyState = "loading"; this.activeElement = null; this.currentScript = null; this.cookie = ""; }
        get nodeName() { return "#document"; }
        get documentElement() { return this.firstElementChild; }
        get body() { return this.querySelector("body"); }
        get head() { return this.querySelector("head"); }
        get title() { const t = this.querySelector("title"); return t ? t.textContent : ""; }
        set title(v) { const t = this.querySelector("title"); if (t) t.textContent = v; }
        get hidden() { return false; }
        get forms() { return this.querySelectorAll("form"); }
        get URL() { return loc.href; }
        get defaultView() { return window_; }
        get location() { return window_.location; }
        getElementById(i) { return [...walk(this)].find((n) => n instanceof Element && n.id === i) || null; }
        createElement(t) { return new Element(t.toLowerCase()); }
        createElementNS(ns, t) { return new Element(t.toLowerCase()); }
        createTextNode(t) { return new Text(String(t)); }
        createComment(t) { return new Comment(String(t)); }
        createDocumentFragment() { return new DocumentFragment(); }
        createEvent() { const e = new Event(""); e.initEvent = (t, b, c) => Object.assign(e, { type: t, bubbles: b, cancelable: c }); return e; }
        importNode(n, deep) { return n.cloneNode(deep); }
        adoptNode(n) { n.remove(); return n; }
    }

    function parseSel(sel) {
        const alts = sel.split(/,(?![^[(]*[\])])/).map((s) => {
            const steps = [];
            const re = /\s*([>+~])\s*|(\s+)|([\w-]+|\*)|#((?:[\w-]|\\.)+)|\.((?:[\w-]|\\.)+)|\[\s*((?:[\w:@.-]|\\.)+)\s*(?:([~^$*|]?=)\s*(?:"([^"]*)"|'([^']*)'|([^\]\s]*))\s*)?\]|:not\(([^)]*)\)|:(first-child|last-child|scope|root)/y;
            let cur = [], comb = " ";
            s = s.trim();
            while (re.lastIndex < s.length) {
                const m = re.exec(s);
                if (!m) throw new Error("unsupported selector " + sel);
                const un = (x) => x.replace(/\\(.)/g, "$1");
                if (m[1] || m[2]) { steps.push([comb, cur]); cur = []; comb = m[1] || " "; }
                else if (m[3]) cur.push((e) => m[3] === "*" || e.localName === m[3].toLowerCase());
                else if (m[4]) cur.push((e) => e.id === un(m[4]));
                else if (m[5]) cur.push((e) => e.classList.contains(un(m[5])));
                else if (m[6]) {
                    const k = un(m[6]), v = m[8] ?? m[9] ?? m[10];
                    cur.push((e) => {
                        if (!e.hasAttribute(k)) return false;
                        const x = e.getAttribute(k);
                        return { undefined: () => true, "=": () => x === v, "^=": () => x.startsWith(v), "$=": () => x.endsWith(v), "*=": () => x.includes(v), "~=": () => x.split(/\s+/).includes(v), "|=": () => x === v || x.startsWith(v + "-") }[m[7]]();
                    });
                } else if (m[11] !== undefined) { const t = parseSel(m[11]); cur.push((e) => !t(e)); }
                else if (m[12]) cur.push((e) => ({ "first-child": () => !e.previousElementSibling, "last-child": () => !e.nextElementSibling, root: () => e === document.documentElement, scope: () => true })[m[12]]());
            }
            steps.push([comb, cur]);
            const at = (e, i) => {
                if (!(e instanceof Element) || !steps[i][1].every((t) => t(e))) return false;
                if (i === 0) return true;
                const c = steps[i][0];
                if (c === ">") return at(e.parentNode, i - 1);
                if (c === "+") return at(e.previousElementSibling, i - 1);
                if (c === "~") { for (let n = e.previousElementSibling; n; n = n.previousElementSibling) if (at(n, i - 1)) return true; return false; }
                for (let n = e.parentNode; n; n = n.parentNode) if (at(n, i - 1)) return true;
                return false;
            };
            return (e) => at(e, steps.length - 1);
        });
        return (e) => alts.some((t) => t(e));
    }

    function ser(n) {
        if (n.nodeType === 3) return encode(n.data);
        if (n.nodeType === 8) return `<!--${n.data}-->`;
        const a = [...n._attrs].map(([k, v]) => ` ${k}="${encode(v)}"`).join("");
        return `<${n.localName}${a}>` + (VOID.has(n.localName) ? "" : n.innerHTML + `</${n.localName}>`);
    }

    // the tree of some markup; onScript is called for each script as it has been parsed
    function parse(src, ctx, root = new DocumentFragment(), onScript = null) {
        const stack = [root];
        const into = () => { const n = stack[stack.length - 1]; return n.content || n; };
        const add = (n) => into().appendChild(n);
        const text = (t) => { if (t) add(new Text(t)); };
        const re = /<!--([^]*?)-->|<!doctype[^>]*>|<\?[^>]*>|<\/([a-z][^\s>\/]*)[^>]*>|<([a-z][^\s\/>]*)((?:"[^"]*"|'[^']*'|[^"'>])*)>/gi;
        let at = 0, m;
        while ((m = re.exec(src))) {
            text(decode(src.slice(at, m.index)));
            at = re.lastIndex;
            if (m[1] !== undefined) add(new Comment(m[1]));
            else if (m[2]) {
                const t = m[2].toLowerCase(), i = stack.map((n) => n.localName).lastIndexOf(t);
                if (i > 0) stack.length = i;
            } else if (m[3]) {
                const t = m[3].toLowerCase(), el = new Element(t);
                let raw = m[4], self = /\/\s*$/.test(raw);
                for (const x of raw.replace(/\/\s*$/, "").matchAll(/([^\s=\/"'<>]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g)) {
                    const k = x[1].toLowerCase();
                    if (!el._attrs.has(k)) el._attrs.set(k, decode(x[2] ?? x[3] ?? x[4] ?? ""));
                }
                if (["tr", "td", "th", "li", "p"].includes(t)) {
                    const last = stack[stack.length - 1].localName;
                    if (last === t || (t === "td" && last === "th") || (t === "th" && last === "td")) stack.pop();
                }
                add(el);
                if (RAW.has(t) || RCDATA.has(t)) {
                    const end = new RegExp(`</${t}[\\s/>]`, "gi");
                    end.lastIndex = at;
                    const e = end.exec(src), stop = e ? e.index : src.length, body = src.slice(at, stop);
                    if (body) el.appendChild(new Text(RAW.has(t) ? body : decode(body)));
                    at = e ? src.indexOf(">", stop) + 1 : src.length;
                    re.lastIndex = at;
                    if (t === "script" && onScript) onScript(el);
                } else if (!VOID.has(t)) {
                    stack.push(el);
                    if (self && onScript === null && ctx === "svg") stack.pop();
                }
            }
        }
        text(decode(src.slice(at)));
        return root;
    }

    // ---- the window
    const window_ = new Target();
    const sent = [];
    const document = new Document();
    const loc = new URL(req.url);
    let href = null;
    const location = {
        get href() { return loc.href; }, set href(v) { href = String(v); }, assign(v) { href = String(v); }, replace(v) { href = String(v); }, reload() {},
        get pathname() { return loc.pathname; }, get search() { return loc.search; }, get hash() { return loc.hash; }, get origin() { return loc.origin; },
        get host() { return loc.host; }, get hostname() { return loc.hostname; }, get protocol() { return loc.protocol; }, toString() { return loc.href; },
    };
    class FormData {
        constructor(form) {
            this.l = [];
            for (const el of form ? form.elements : []) {
                if (!el.name || el.disabled || el.localName === "button" || (["checkbox", "radio"].includes(el.type) && !el.checked)) continue;
                if (el.type === "file") for (const f of el.files.length ? el.files : [{ name: "" }]) this.append(el.name, f);
                else this.append(el.name, el.value);
            }
        }
        append(k, v, n) { this.l.push([k, v, n]); }
        set(k, v, n) { this.l = this.l.filter((x) => x[0] !== k); this.append(k, v, n); }
        get(k) { const x = this.l.find((y) => y[0] === k); return x ? x[1] : null; }
        getAll(k) { return this.l.filter((y) => y[0] === k).map((y) => y[1]); }
        has(k) { return this.l.some((x) => x[0] === k); }
        delete(k) { this.l = this.l.filter((x) => x[0] !== k); }
        keys() { return this.l.map(([k]) => k)[Symbol.iterator](); }
        values() { return this.l.map(([, v]) => v)[Symbol.iterator](); }
        forEach(f) { this.l.forEach(([k, v]) => f(v, k, this)); }
        entries() { return this.l.map(([k, v]) => [k, v])[Symbol.iterator](); }
        [Symbol.iterator]() { return this.entries(); }
    }
    const views = [];
    const fetch = async (url, init = {}) => {
        const h = {};
        for (const [k, v] of init.headers ? (typeof init.headers.entries === "function" ? init.headers.entries() : Object.entries(init.headers)) : []) h[k.toLowerCase()] = String(v);
        sent.push({ url: String(url), method: String(init.method || "GET").toUpperCase(), headers: h, form: init.body && init.body.l ? init.body.l.map(([k, v]) => [k, v && v.name !== undefined ? { file: v.name } : String(v)]) : null });
        const s = req.stream;
        await new Promise((r) => setTimer(r, 1000));
        if (!s) throw new TypeError("network error");
        const chunks = s.chunks.map((c) => Buffer.from(c, "base64"));
        let i = 0;
        // everything the page does about a piece is done before the next one arrives
        const arrival = () => new Promise((r) => setTimer(r, 1000));
        const next = async () => {
            await arrival();
            if (i > 0) views.push(view());
            if (i < chunks.length) return { done: false, value: new Uint8Array(chunks[i++]) };
            if (s.broken) throw new TypeError("network error");
            return { done: true, value: undefined };
        };
        const all = async () => { await arrival(); return Buffer.concat(chunks).toString("utf-8"); };
        const body = { getReader: () => ({ read: next, cancel: async () => {}, releaseLock() {}, closed: Promise.resolve() }), async *[Symbol.asyncIterator]() { for (;;) { const { done, value } = await next(); if (done) return; yield value; } } };
        body.pipeThrough = (t) => { const w = t.writable.getWriter(); (async () => { for await (const c of body) await w.write(c); await w.close(); })().catch((e) => w.abort(e).catch(() => {})); return t.readable; };
        return { ok: s.status >= 200 && s.status < 300, status: s.status, statusText: "", headers: new Map(), body, text: all, json: async () => JSON.parse(await all()), url: String(url) };
    };
    const turn = () => new Promise((r) => setImmediate(r));
    const quiet = { log() {}, info() {}, warn() {}, debug() {}, error() {}, trace() {}, group() {}, groupEnd() {}, table() {}, assert() {} };
    const setTimer = (fn, ms = 0, ...a) => { timers.push({ id: ++seq, at: now + Math.max(0, Number(ms) || 0), fn: () => fn(...a) }); return seq; };
    const clearTimer = (id) => { timers = timers.filter((t) => t.id !== id); };
    let now = 0;
    const store = () => { const m = new Map(); return { getItem: (k) => (m.has(k) ? m.get(k) : null), setItem: (k, v) => m.set(k, String(v)), removeItem: (k) => m.delete(k), clear: () => m.clear() }; };
    const sandbox = {
        document, location, console: quiet, Event, CustomEvent, MouseEvent: Event, MutationObserver, Node, Element, HTMLElement: Element, HTMLTemplateElement: Element, Text, Comment, DocumentFragment, ShadowRoot, Document,
        EventTarget: Target, FormData, fetch, TextDecoder, TextEncoder, TextDecoderStream: globalThis.TextDecoderStream, TransformStream, ReadableStream, WritableStream, URL, URLSearchParams, AbortController, Headers, Blob, File, atob, btoa, crypto: globalThis.crypto,
        setTimeout: setTimer, clearTimeout: clearTimer, setInterval: () => ++seq, clearInterval: clearTimer,
        requestAnimationFrame: (fn) => setTimer(() => fn(now), 16), cancelAnimationFrame: clearTimer, queueMicrotask, structuredClone,
        getComputedStyle: (el) => ({ getPropertyValue: (k) => el.style.getPropertyValue(k), display: shown(el) ? "block" : "none", transitionDuration: "0s", animationDuration: "0s", transitionDelay: "0s" }),
        navigator: { userAgent: "check", language: "en", clipboard: { writeText: async () => {} } }, history: { pushState() {}, replaceState() {}, state: null }, localStorage: store(), sessionStorage: store(),
        performance: { now: () => now }, CSS: { escape: (s) => s.replace(/[^\w-]/g, "\\$&") }, customElements: { get() {}, define() {} }, alert() {}, confirm: () => true,
        matchMedia: () => ({ matches: false, addEventListener() {}, removeEventListener() {} }), scrollTo() {}, IntersectionObserver: class { observe() {} disconnect() {} unobserve() {} }, ResizeObserver: class { observe() {} disconnect() {} unobserve() {} },
        addEventListener: (...a) => window_.addEventListener(...a), removeEventListener: (...a) => window_.removeEventListener(...a), dispatchEvent: (e) => window_.dispatchEvent(e),
    };
    sandbox.window = sandbox.self = sandbox.top = sandbox.parent = sandbox.globalThis = sandbox;
    const ctx = vm.createContext(sandbox);
    Object.defineProperty(window_, "location", { get: () => location });

    const shown = (el) => { for (let n = el; n instanceof Element; n = n.parentNode) if (n.style.display === "none" || n.hasAttribute("hidden")) return false; return true; };
    function tree(n) {
        if (n.nodeType === 3) return n.data;
        if (n.nodeType !== 1) return null;
        if (["script", "style", "template", "head"].includes(n.localName)) return null;
        const kids = n.childNodes.filter((c) => c.nodeType !== 8).map(tree).filter((c) => c !== null);
        const a = {};
        for (const [k, v] of n._attrs) if (!/^(x-|:|@)/.test(k)) a[k] = v;
        if (n._html !== undefined) a["*html"] = n._html;
        return [n.localName, a, n.style.display === "none" || n.hasAttribute("hidden"), kids];
    }
    const view = () => (document.body ? tree(document.body) : null);
    async function settle() {
        for (let i = 0; i < 5000; i++) {
            await turn();
            await turn();
            if (!timers.length) return;
            timers.sort((a, b) => a.at - b.at || a.id - b.id);
            const t = timers.shift();
            now = Math.max(now, t.at);
            try { t.fn(); } catch (e) { errors.push(String(e)); }
        }
        errors.push("the page does not come to rest");
    }
    async function run() {
        const later = [];
        const exec = (code) => { try { vm.runInContext(code, ctx, { timeout: 20000 }); } catch (e) { errors.push(String(e)); } };
        const pending = [];
        const scripts = (el) => pending.push(el);
        parse(req.html, null, document, scripts);
        for (const el of pending) {
            if (el.getAttribute("type") && !/javascript|module/.test(el.getAttribute("type"))) continue;
            if (el.hasAttribute("src")) {
                const code = req.statics[el.getAttribute("src")];
                if (code === undefined) { errors.push("no script at " + el.getAttribute("src")); continue; }
                if (el.hasAttribute("defer") || el.getAttribute("type") === "module") later.push(code); else exec(code);
            } else exec(el.textContent);
            await turn();
        }
        for (const code of later) { exec(code); await turn(); }
        document.readyState = "complete";
        document.dispatchEvent(new Event("DOMContentLoaded", { bubbles: true }));
        window_.dispatchEvent(new Event("load"));
        await settle();
        for (const [sel, name] of Object.entries(req.files || {})) {
            const el = document.querySelector(sel);
            if (el) { el._files = [{ name, size: 1, type: "text/html" }]; el._val = "C:\\fakepath\\" + name; el.dispatchEvent(new Event("input", { bubbles: true })); el.dispatchEvent(new Event("change", { bubbles: true })); }
        }
        await settle();
        views.push(view());
        return report();
    }
    const report = () => { const r = { views: views.splice(0), errors: errors.splice(0), href, sent: sent.splice(0) }; return r; };
    async function act(what, path) {
        let el = document.body;
        for (const i of path) el = el && el.childNodes.filter((c) => tree(c) !== null && c.nodeType !== 8)[i];
        if (!el || el.nodeType !== 1) throw new Error("nothing to act upon");
        el.dispatchEvent(new Event(what, { bubbles: true, cancelable: true }));
        await settle();
        views.push(view());
        return report();
    }
    return { run, act };
}

process.on("unhandledRejection", () => {});
const rl = readline.createInterface({ input: process.stdin });
let last = Promise.resolve(), page = null;
rl.on("line", (line) => {
    last = last.then(async () => {
        let out;
        try {
            const req = JSON.parse(line);
            if (req.act) out = await page.act(req.act, req.path);
            else { page = browser(req); out = await page.run(); }
        } catch (e) { out = { crash: String(e && e.stack) }; }
        process.stdout.write(JSON.stringify(out) + "\n");
    });
});
