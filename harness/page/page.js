// A small browser: the document of the demo page, events, and the parts of the DOM and of jQuery a page script is likely to
// use. It reads scenarios (one JSON per line) and writes what the table shows after every step.
// An answer to a request is only handed to the script when the scenario says so.
'use strict';
const vm = require('vm');
const rl = require('readline');
const base = process.argv[2]; // http://host:port/

class Unsupported extends Error {}
const unsupported = what => { throw new Unsupported(what); };

// ---- HTML ----
const VOID = new Set('area base br col embed hr img input link meta source track wbr'.split(' '));
const RAW = new Set(['script', 'style', 'title', 'textarea', 'xmp', 'iframe', 'noembed', 'noframes']);
const ENT = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0', copy: '\u00a9', reg: '\u00ae', AMP: '&', LT: '<', GT: '>', QUOT: '"', yen: '\u00a5', not: '\u00ac', para: '\u00b6', sect: '\u00a7' };
const LEGACY = /^(amp|lt|gt|quot|nbsp|copy|reg|AMP|LT|GT|QUOT|yen|not|para|sect)/; // may lack the semicolon
function decode(s) {
  return s.replace(/&(?:#[xX]([0-9a-fA-F]+);?|#([0-9]+);?|([A-Za-z]+);?)/g, (all, hex, dec, name) => {
    if (hex || dec) {
      const n = parseInt(hex || dec, hex ? 16 : 10);
      return n === 0 || n > 0x10ffff || (n >= 0xd800 && n < 0xe000) ? '\ufffd' : String.fromCodePoint(n);
    }
    if (all.endsWith(';') && Object.hasOwn(ENT, name)) return ENT[name];
    const m = LEGACY.exec(name);
    return m ? ENT[m[0]] + name.slice(m[0].length) + (all.endsWith(';') ? ';' : '') : all;
  });
}
function parseHTML(src, root, doc) {
  src = src.replace(/\r\n?/g, '\n');
  const stack = [root];
  const top = () => stack[stack.length - 1];
  const text = s => { if (s !== '') top().add(new Text(s, doc)); };
  let i = 0;
  while (i < src.length) {
    const lt = src.indexOf('<', i);
    if (lt < 0) { text(decode(src.slice(i)).replace(/\0/g, '')); break; }
    if (lt > i) text(decode(src.slice(i, lt)).replace(/\0/g, ''));
    const rest = src.slice(lt);
    let m;
    if (rest.startsWith('<!--')) {
      if (/^<!--(>|->)/.test(rest)) { i = lt + rest.indexOf('>') + 1; continue; }
      const e = /--!?>/.exec(rest.slice(4));
      i = e ? lt + 4 + e.index + e[0].length : src.length;
      continue;
    }
    if (/^<[!?]/.test(rest) || /^<\/[^A-Za-z]/.test(rest)) {
      const e = rest.indexOf('>');
      i = e < 0 ? src.length : lt + e + 1;
      continue;
    }
    if ((m = /^<\/([A-Za-z][^\s\/>]*)[^>]*>/.exec(rest))) {
      const name = m[1].toLowerCase();
      for (let k = stack.length - 1; k > 0; k--) if (stack[k].localName === name) { stack.length = k; break; }
      i = lt + m[0].length;
      continue;
    }
    if (/^<\/?[A-Za-z]/.test(rest)) {
      m = /^<([A-Za-z][^\s\/>]*)((?:[\s\/]+|[^\s\/>=]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s"'>][^\s>]*))?)*)>/.exec(rest);
      if (!m) { i = src.length; continue; } // unfinished tag
      const el = new Element(m[1].toLowerCase(), doc);
      const attr = /([^\s\/>=]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>][^\s>]*)))?/g;
      let a;
      while ((a = attr.exec(m[2]))) {
        const n = a[1].toLowerCase();
        if (!el.attrs.has(n)) el.attrs.set(n, decode(a[2] ?? a[3] ?? a[4] ?? ''));
      }
      el.reset();
      i = lt + m[0].length;
      // implied end tags of tables
      const close = { td: ['td', 'th'], th: ['td', 'th'], tr: ['td', 'th', 'tr'] }[el.localName];
      if (close) while (close.includes(top().localName) && stack.length > 1) stack.pop();
      top().add(el);
      if (RAW.has(el.localName)) {
        const e = src.toLowerCase().indexOf('</' + el.localName, i);
        let body = src.slice(i, e < 0 ? src.length : e);
        if (el.localName === 'textarea' || el.localName === 'title') body = decode(body);
        if (el.localName === 'textarea') body = body.replace(/^\n/, '');
        if (body) el.add(new Text(body, doc));
        el.reset();
        const g = e < 0 ? -1 : src.indexOf('>', e);
        i = g < 0 ? src.length : g + 1;
      } else if (!VOID.has(el.localName)) stack.push(el);
      continue;
    }
    text('<');
    i = lt + 1;
  }
}

// ---- DOM ----
const strict = (o, what) => new Proxy(o, {
  get(t, p, r) { if (typeof p === 'symbol' || p in t || p === 'then' || p === 'toJSON') return Reflect.get(t, p, t); return unsupported(what + '.' + String(p)); },
});
class Node {
  constructor(doc) { this.doc = doc; this.parentNode = null; this.kids = []; }
  get wrapped() { if (!this._w) { this._w = guard(this); byProxy.set(this._w, this); } return this._w; }
  add(n) { n.detach(); n.parentNode = this; this.kids.push(n); return n; }
  detach() { if (this.parentNode) { const k = this.parentNode.kids; k.splice(k.indexOf(this), 1); this.parentNode = null; } }
}
class Text extends Node {
  constructor(s, doc) { super(doc); this.data = String(s); this.nodeType = 3; this.nodeName = '#text'; }
  get textContent() { return this.data; }
  set textContent(v) { this.data = String(v); }
  get nodeValue() { return this.data; }
  set nodeValue(v) { this.data = String(v); }
}
class Element extends Node {
  constructor(name, doc) { super(doc); this.localName = name; this.attrs = new Map(); this.listeners = {}; this.value = ''; this.checked = false; this.disabled = false; this.nodeType = 1; this.style = {}; this.dataset = {}; }
  reset() {
    if (this.localName === 'textarea') this.value = this.textContent;
    if (this.localName === 'input') { this.value = this.attrs.get('value') ?? (/^(radio|checkbox)$/.test(this.attrs.get('type')) ? 'on' : ''); }
    this.checked = this.attrs.has('checked');
  }
  get tagName() { return this.localName.toUpperCase(); }
  get nodeName() { return this.tagName; }
  get id() { return this.attrs.get('id') || ''; }
  set id(v) { this.attrs.set('id', String(v)); }
  get name() { return this.attrs.get('name') || ''; }
  get type() { return this.attrs.get('type') || ''; }
  get className() { return this.attrs.get('class') || ''; }
  set className(v) { this.attrs.set('class', String(v)); }
  get classList() { const e = this; return { add: (...c) => { e.className = (e.className + ' ' + c.join(' ')).trim(); }, remove() {}, toggle() {}, contains: c => e.className.split(/\s+/).includes(c) }; }
  get textContent() { return this.kids.map(k => k.textContent).join(''); }
  set textContent(v) { this.clear(); if (v !== null && String(v) !== '') this.add(new Text(v, this.doc)); }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  set innerHTML(v) { this.clear(); parseHTML(String(v), this, this.doc); }
  get innerHTML() { return this.kids.map(serialize).join(''); }
  get outerHTML() { return serialize(this); }
  clear() { for (const k of this.kids) k.parentNode = null; this.kids = []; }
  get children() { return this.kids.filter(k => k.nodeType === 1).map(k => k.wrapped); }
  get childNodes() { return this.kids.map(k => k.wrapped); }
  get firstChild() { return this.kids.length ? this.kids[0].wrapped : null; }
  get lastChild() { return this.kids.length ? this.kids[this.kids.length - 1].wrapped : null; }
  get rows() { return all(this, 'tr').map(e => e.wrapped); }
  get cells() { return all(this, 'td,th').map(e => e.wrapped); }
  get parentElement() { return this.parentNode && this.parentNode.wrapped; }
  get form() { let n = this.parentNode; while (n && n.localName !== 'form') n = n.parentNode; return n && n.wrapped; }
  appendChild(n) { n = un(n); if (n.localName === '#fragment') for (const k of [...n.kids]) this.add(k); else this.add(n); return n.wrapped; }
  append(...ns) { for (const n of ns) if (un(n) instanceof Node) this.appendChild(n); else this.add(new Text(n, this.doc)); }
  replaceChildren(...ns) { this.clear(); this.append(...ns); }
  removeChild(n) { un(n).detach(); return n; }
  remove() { this.detach(); }
  hasChildNodes() { return this.kids.length > 0; }
  insertRow() { const e = new Element('tr', this.doc); this.add(e); return e.wrapped; }
  insertCell() { const e = new Element('td', this.doc); this.add(e); return e.wrapped; }
  insertAdjacentHTML(where, html) {
    if (String(where).toLowerCase() !== 'beforeend') unsupported('insertAdjacentHTML ' + where);
    const f = new Element('#fragment', this.doc); parseHTML(String(html), f, this.doc); for (const k of [...f.kids]) this.add(k);
  }
  insertAdjacentText(where, s) { if (String(where).toLowerCase() !== 'beforeend') unsupported('insertAdjacentText'); this.add(new Text(s, this.doc)); }
  getAttribute(n) { return this.attrs.has(n.toLowerCase()) ? this.attrs.get(n.toLowerCase()) : null; }
  setAttribute(n, v) { this.attrs.set(String(n).toLowerCase(), String(v)); }
  hasAttribute(n) { return this.attrs.has(n.toLowerCase()); }
  removeAttribute(n) { this.attrs.delete(n.toLowerCase()); }
  addEventListener(t, f) { (this.listeners[t] ||= []).push(f); }
  removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] || []).filter(x => x !== f); }
  get oninput() { return this._oninput || null; }
  set oninput(f) { this._oninput = f; }
  get onchange() { return this._onchange || null; }
  set onchange(f) { this._onchange = f; }
  querySelector(s) { const l = all(this, s); return l.length ? l[0].wrapped : null; }
  querySelectorAll(s) { return all(this, s).map(e => e.wrapped); }
  getElementsByTagName(s) { return this.querySelectorAll(s); }
  matches(s) { return match(this, s); }
}
// scripts see nodes through proxies that refuse what is not modelled here
const byProxy = new WeakMap();
const un = n => (n !== null && typeof n === 'object' && byProxy.get(n)) || n;
function guard(o) {
  return new Proxy(o, {
    get(t, p) {
      if (typeof p === 'symbol') return t[p];
      if (p === 'then' || p === 'toJSON') return undefined;
      if (p === 'parentNode') return t.parentNode && t.parentNode.wrapped;
      if (p === 'kids' || p === 'doc' || p === 'attrs' || p === 'listeners') return unsupported(p);
      if (p in t) { const v = t[p]; return typeof v === 'function' && t[p] === Object.getPrototypeOf(t)[p] ? v.bind(t) : v; }
      return t.extra && p in t.extra ? t.extra[p] : unsupported('element.' + p);
    },
    set(t, p, v) { if (p in t) t[p] = v; else (t.extra ||= {})[p] = v; return true; },
  });
}
const esc = s => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
function serialize(n) {
  if (n.nodeType === 3) return esc(n.data);
  return `<${n.localName}${[...n.attrs].map(([k, v]) => ` ${k}="${esc(v).replace(/"/g, '&quot;')}"`).join('')}>` + (VOID.has(n.localName) ? '' : n.kids.map(serialize).join('') + `</${n.localName}>`);
}
// selectors: compound parts joined by spaces or '>', groups by commas
function simple(el, part) {
  let s = part;
  while (s) {
    let m;
    if ((m = /^\*/.exec(s))) ;
    else if ((m = /^#([\w-]+)/.exec(s))) { if (el.id !== m[1]) return false; }
    else if ((m = /^\.([\w-]+)/.exec(s))) { if (!el.className.split(/\s+/).includes(m[1])) return false; }
    else if ((m = /^\[([\w-]+)(?:=["']?([^"'\]]*)["']?)?\]/.exec(s))) { if (!el.attrs.has(m[1]) || (m[2] !== undefined && el.attrs.get(m[1]) !== m[2])) return false; }
    else if ((m = /^:checked/.exec(s))) { if (!el.checked) return false; }
    else if ((m = /^:(radio|submit|text)/.exec(s))) { if (el.type !== m[1]) return false; }
    else if ((m = /^:input/.exec(s))) { if (!/^(input|textarea|select|button)$/.test(el.localName)) return false; }
    else if ((m = /^[\w-]+/.exec(s))) { if (el.localName !== m[0].toLowerCase()) return false; }
    else return unsupported('selector ' + part);
    s = s.slice(m[0].length);
  }
  return true;
}
function match(el, sel) {
  return sel.split(',').some(g => {
    const ps = g.trim().replace(/\s*>\s*/g, ' > ').split(/\s+/);
    const go = (e, i) => {
      if (!simple(e, ps[i])) return false;
      if (i === 0) return true;
      if (ps[i - 1] === '>') return !!e.parentNode && e.parentNode.localName !== '#document' && go(e.parentNode, i - 2);
      for (let p = e.parentNode; p && p.localName !== '#document'; p = p.parentNode) if (go(p, i - 1)) return true;
      return false;
    };
    return go(el, ps.length - 1);
  });
}
function all(root, sel) {
  const r = [];
  const walk = n => { for (const k of n.kids) if (k.nodeType === 1) { if (match(k, sel)) r.push(k); walk(k); } };
  walk(root);
  return r;
}

// ---- page ----
class Page {
  constructor(html) {
    this.requests = []; // {method, url, body, deliver(status, text)}
    this.timers = [];
    const page = this;
    const doc = new Element('#document', null);
    this.doc = doc;
    parseHTML(html, doc, doc);
    for (const e of all(doc, 'input:radio:checked')) { // the last one of a group wins
      const g = all(doc, `input:radio[name="${e.name}"]`).filter(x => x.checked);
      e.checked = g[g.length - 1] === e;
    }
    const create = n => new Element(String(n).toLowerCase(), doc).wrapped;
    doc.extra = {
      getElementById: id => { const l = all(doc, '#' + id); return l.length ? l[0].wrapped : null; },
      createElement: create, createTextNode: s => new Text(s, doc).wrapped, createDocumentFragment: () => create('#fragment'),
      readyState: 'complete', cookie: '', location: { href: base }, title: '',
      getElementsByName: n => all(doc, `[name="${n}"]`).map(e => e.wrapped),
    };
    Object.defineProperty(doc.extra, 'body', { get: () => all(doc, 'body')[0].wrapped });
    Object.defineProperty(doc.extra, 'forms', { get: () => all(doc, 'form').map(e => e.wrapped) });
    const quiet = () => {};
    const g = {
      document: doc.wrapped, console: { log: quiet, error: quiet, warn: quiet, info: quiet, debug: quiet },
      setTimeout: (f, ms) => { page.timers.push(f); return page.timers.length; }, clearTimeout: id => { page.timers[id - 1] = null; },
      location: { href: base, pathname: '/' }, navigator: { userAgent: 'harness' }, encodeURIComponent, decodeURIComponent,
      alert: quiet,
    };
    g.window = g; g.self = g;
    g.$ = g.jQuery = this.jquery(g);
    g.addEventListener = (t, f) => { if (t === 'load' || t === 'DOMContentLoaded') page.ready.push(f); };
    doc.addEventListener = (t, f) => (/^(load|DOMContentLoaded|readystatechange)$/.test(t) ? page.ready.push(f) : Element.prototype.addEventListener.call(doc, t, f));
    g.fetch = (url, o = {}) => new Promise((ok, bad) => page.request(o.method || 'GET', String(url), o.body, (status, text) => status < 0 ? bad(new TypeError('failed')) : ok({ ok: status >= 200 && status < 300, status, text: () => Promise.resolve(text), json: () => new Promise(r => r(page.parse(text))) })));
    g.XMLHttpRequest = class {
      constructor() { this.readyState = 0; this.status = 0; this.responseText = ''; this.response = ''; this.responseType = ''; this.l = {}; }
      open(m, u) { this.m = m; this.u = u; }
      setRequestHeader() {}
      addEventListener(t, f) { (this.l[t] ||= []).push(f); }
      abort() { this.aborted = true; }
      send(b) {
        page.request(this.m, this.u, b, (status, text) => {
          if (this.aborted) return;
          this.readyState = 4; this.status = Math.max(0, status); this.responseText = text;
          this.response = this.responseType === 'json' ? (() => { try { return page.parse(text); } catch { return null; } })() : text;
          const fire = t => { if (typeof this['on' + t] === 'function') this['on' + t]({ target: this }); for (const f of this.l[t] || []) f.call(this, { target: this }); };
          fire('readystatechange'); fire(status < 0 ? 'error' : 'load'); fire('loadend');
        });
      }
    };
    this.ready = [];
    this.sandbox = vm.createContext(g);
    this.parse = vm.runInContext('s => JSON.parse(s)', this.sandbox);
  }
  run() {
    for (const s of all(this.doc, 'script')) {
      if (s.attrs.has('src') || (s.attrs.get('type') && !/javascript|module/.test(s.attrs.get('type')))) continue;
      vm.runInContext(s.textContent, this.sandbox, { timeout: 5000 });
    }
    for (const f of this.ready) f.call(this.sandbox.document, {});
  }
  request(method, url, body, deliver) {
    this.requests.push({ method: method.toUpperCase(), url: new URL(url, base).href, body: body == null ? '' : String(body), deliver });
  }
  fire(el, type) {
    let stopped = false;
    const ev = strict({ type, target: el.wrapped, currentTarget: null, preventDefault() {}, stopPropagation() { stopped = true; }, stopImmediatePropagation() { stopped = true; }, isComposing: false, data: null, inputType: '', bubbles: true }, 'event');
    for (let n = el; n && !stopped; n = n.parentNode) {
      const inline = n.attrs.get('on' + type);
      if (inline !== undefined) {
        if (!n['inline' + type]) n['inline' + type] = vm.runInContext(`(function (event) {${inline}\n})`, this.sandbox);
        n['inline' + type].call(n.wrapped, ev);
      }
      const p = n['_on' + type];
      if (typeof p === 'function') p.call(n.wrapped, ev);
      for (const f of [...(n.listeners[type] || [])]) f.call(n.wrapped, ev);
    }
  }
  jquery(g) {
    const page = this;
    const isSet = x => x instanceof Set_;
    const nodes = x => {
      if (isSet(x)) return [...x.els];
      const u = un(x);
      if (u instanceof Node) return [u];
      if (Array.isArray(x) || (x && typeof x === 'object' && typeof x.length === 'number')) return [...x].flatMap(nodes);
      if (x === null || x === undefined) return [];
      const s = String(x);
      const f = new Element('#fragment', page.doc);
      if (/^\s*</.test(s) || /[<&]/.test(s)) parseHTML(s, f, page.doc); else if (s !== '') f.add(new Text(s, page.doc));
      const r = [...f.kids];
      for (const k of r) k.parentNode = null;
      f.kids = [];
      return r;
    };
    class Set_ {
      constructor(els) { this.els = els; this.length = els.length; els.forEach((e, i) => { this[i] = e.wrapped; }); }
      make(els) { return wrap([...new Set(els)]); }
      get(i) { return i === undefined ? this.els.map(e => e.wrapped) : this.els.at(i) && this.els.at(i).wrapped; }
      eq(i) { return this.make(this.els.slice(i, i + 1 || undefined)); }
      first() { return this.eq(0); }
      last() { return this.eq(-1); }
      size() { return this.els.length; }
      empty() { for (const e of this.els) e.clear(); return wrap(this.els); }
      remove() { for (const e of this.els) e.detach(); return wrap(this.els); }
      append(...xs) { for (const e of this.els) for (const x of xs) for (const n of nodes(x)) e.add(n); return wrap(this.els); }
      appendTo(x) { for (const t of typeof x === 'string' && !/^\s*</.test(x) ? all(page.doc, x) : nodes(x)) for (const n of this.els) t.add(n); return wrap(this.els); }
      html(v) { if (v === undefined) return this.els.length ? this.els[0].innerHTML : null; this.empty(); return this.append(typeof v === 'string' && !/[<&]/.test(v) ? new Text(v, page.doc).wrapped : v); }
      text(v) {
        if (typeof v === 'function') unsupported('text(function)');
        if (v === undefined || typeof v === 'object') return this.els.map(e => e.textContent).join(''); // as jQuery 1.6
        for (const e of this.els) e.textContent = String(v);
        return wrap(this.els);
      }
      val(v) { if (v === undefined) return this.els.length ? this.els[0].value : undefined; for (const e of this.els) e.value = String(v); return wrap(this.els); }
      attr(n, v) { if (v === undefined) { if (!this.els.length) return undefined; const a = this.els[0].getAttribute(n); return n === 'checked' ? (this.els[0].checked ? 'checked' : undefined) : a === null ? undefined : a; } for (const e of this.els) e.setAttribute(n, v); return wrap(this.els); }
      prop(n, v) { if (v === undefined) return this.els.length ? this.els[0][n] : undefined; for (const e of this.els) e[n] = v; return wrap(this.els); }
      addClass(c) { for (const e of this.els) e.classList.add(c); return wrap(this.els); }
      removeClass() { return wrap(this.els); }
      css() { return wrap(this.els); }
      filter(s) { return this.make(typeof s === 'function' ? this.els.filter((e, i) => s.call(e.wrapped, i, e.wrapped)) : this.els.filter(e => match(e, s))); }
      not(s) { return this.make(this.els.filter(e => !match(e, s))); }
      is(s) { return this.els.some(e => match(e, s)); }
      find(s) { return this.make(this.els.flatMap(e => all(e, s))); }
      children(s) { return this.make(this.els.flatMap(e => e.kids.filter(k => k.nodeType === 1 && (!s || match(k, s))))); }
      parent() { return this.make(this.els.map(e => e.parentNode).filter(Boolean)); }
      each(f) { this.els.some((e, i) => f.call(e.wrapped, i, e.wrapped) === false); return wrap(this.els); }
      map(f) { return this.els.map((e, i) => f.call(e.wrapped, i, e.wrapped)); }
      toArray() { return this.get(); }
      ready(f) { page.ready.push(f); return wrap(this.els); }
      on(types, sel, f) {
        if (typeof sel === 'function') { f = sel; sel = null; }
        for (const t of types.split(/\s+/)) for (const e of this.els) e.addEventListener(t.split('.')[0], sel ? function (ev) { if (match(un(ev.target), sel)) return f.call(ev.target, ev); } : f);
        return wrap(this.els);
      }
      one(types, f) {
        for (const t of types.split(/\s+/)) for (const e of this.els) { let done = false; e.addEventListener(t.split('.')[0], function (ev) { if (done) return undefined; done = true; return f.call(ev.target, ev); }); }
        return wrap(this.els);
      }
      bind(t, f) { return this.on(t, f); }
      live(t, f) { return this.on(t, f); }
      delegate(s, t, f) { return this.on(t, s, f); }
      off() { return unsupported('off'); }
      change(f) { return f ? this.on('change', f) : this.trigger('change'); }
      keyup(f) { return this.on('keyup', f); }
      click(f) { return f ? this.on('click', f) : unsupported('click()'); }
      trigger(t) { for (const e of this.els) page.fire(e, t); return wrap(this.els); }
    }
    const wrap = els => { const s = new Set_(els); return new Proxy(s, { get(t, p) { if (typeof p === 'symbol') return p === Symbol.iterator ? () => t.els.map(e => e.wrapped)[Symbol.iterator]() : t[p]; if (p === 'then' || p === 'toJSON') return undefined; if (p in t) return t[p]; if (/^\d+$/.test(p)) return undefined; return unsupported('jQuery().' + p); } }); };
    const $ = (x, ctx) => {
      if (typeof x === 'function') { page.ready.push(x); return wrap([]); }
      if (typeof x !== 'string') return isSet(x) ? x : wrap(un(x) === g || x === g ? [page.doc] : nodes(x));
      if (/^\s*</.test(x)) {
        const set = wrap(nodes(x));
        if (ctx && !(un(ctx) instanceof Node)) for (const [k, v] of Object.entries(ctx)) k === 'text' ? set.text(v) : k === 'html' ? set.html(v) : set.attr(k, v);
        return set;
      }
      return wrap(all(ctx ? un(ctx) : page.doc, x));
    };
    const call = (f, ...a) => { if (typeof f === 'function') f(...a); };
    $.ajax = (u, o) => {
      if (typeof u !== 'string') { o = u; u = o.url; }
      const done = [], fail = [], always = [];
      let data = o.data;
      if (data && typeof data === 'object') data = new URLSearchParams(data).toString();
      let aborted = false;
      const xhr = { abort() { aborted = true; }, done(f) { done.push(f); return xhr; }, success(f) { done.push(f); return xhr; }, fail(f) { fail.push(f); return xhr; }, error(f) { fail.push(f); return xhr; }, always(f) { always.push(f); return xhr; }, complete(f) { always.push(f); return xhr; }, status: 0, responseText: '' };
      page.request(o.type || o.method || 'GET', u, data, (status, text, ctype) => {
        if (aborted) return;
        xhr.status = status; xhr.responseText = text;
        let ok = status >= 200 && status < 300, v = text;
        if (ok && (o.dataType === 'json' || (!o.dataType && /json/.test(ctype)))) { try { v = page.parse(text); } catch { ok = false; } }
        if (ok) { call(o.success, v, 'success', xhr); for (const f of done) f(v, 'success', xhr); } else { call(o.error, xhr, 'error', ''); for (const f of fail) f(xhr, 'error', ''); }
        call(o.complete, xhr, ok ? 'success' : 'error'); for (const f of always) f(v, 'x', xhr);
      });
      return strict(xhr, 'jqXHR');
    };
    $.post = (url, data, success, dataType) => { if (typeof data === 'function') { dataType = success; success = data; data = undefined; } return $.ajax({ url, type: 'POST', data, success, dataType }); };
    $.get = (url, data, success, dataType) => { if (typeof data === 'function') { dataType = success; success = data; data = undefined; } return $.ajax({ url: data ? url + '?' + (typeof data === 'string' ? data : new URLSearchParams(data)) : url, type: 'GET', success, dataType }); };
    $.each = (l, f) => { if (l && typeof l.length === 'number') { for (let i = 0; i < l.length; i++) if (f.call(l[i], i, l[i]) === false) break; } else for (const k in l) if (f.call(l[k], k, l[k]) === false) break; return l; };
    $.map = (l, f) => [...l].flatMap((x, i) => { const v = f(x, i); return v === null || v === undefined ? [] : v; });
    $.trim = s => (s == null ? '' : String(s).trim());
    $.isArray = Array.isArray;
    $.extend = Object.assign;
    $.parseJSON = s => page.parse(s);
    $.ajaxSetup = () => {};
    $.fn = {};
    return new Proxy($, { get(t, p) { return typeof p === 'symbol' || p in t ? t[p] : unsupported('$.' + p); } });
  }
  table() {
    let t = all(this.doc, 'tbody'); // the results are in the last body of the table
    if (t.length === 0) t = all(this.doc, 'table');
    if (t.length === 0) return { bad: 'there is no table' };
    const rows = [];
    for (const k of t[t.length - 1].kids) {
      if (k.nodeType === 3) { if (k.data.trim()) return { bad: 'text outside the cells: ' + k.data }; continue; }
      if (k.nodeType === 8) continue;
      if (k.localName === 'thead' || k.localName === 'caption' || (k.localName === 'tr' && k.kids.length && k.kids.every(d => d.localName === 'th' || (d.nodeType === 3 && !d.data.trim())))) continue;
      if (k.localName !== 'tr') return { bad: `element ${k.localName} in the table: ` + serialize(k) };
      const row = [];
      for (const d of k.kids) {
        if (d.nodeType === 3) { if (d.data.trim()) return { bad: 'text outside the cells: ' + d.data }; continue; }
        if (d.localName !== 'td' && d.localName !== 'th') return { bad: `element ${d.localName} in a row: ` + serialize(k) };
        if (d.kids.some(x => x.nodeType !== 3)) return { bad: 'markup in a cell: ' + serialize(d) };
        row.push(d.textContent);
      }
      rows.push(row);
    }
    return { rows };
  }
  field() { // the text
    const l = all(this.doc, '[name="s"]');
    return l.length ? l : all(this.doc, 'textarea');
  }
  form() {
    const r = all(this.doc, 'input[name="r"]:checked');
    const i = this.field();
    return { text: i.length ? i[0].value : null, mode: r.length ? r[r.length - 1].value : null };
  }
}

const answers = new Map();
async function ask(r) {
  const key = JSON.stringify([r.method, r.url, r.body]);
  if (!answers.has(key)) {
    const u = new URL(r.url);
    const res = await fetch(u, { method: r.method, body: /^(GET|HEAD)$/.test(r.method) ? undefined : r.body, headers: { 'content-type': 'application/x-www-form-urlencoded; charset=UTF-8' } });
    answers.set(key, [res.status, await res.text(), res.headers.get('content-type') || '']);
  }
  return answers.get(key);
}
const tick = () => new Promise(r => setImmediate(r));

const pages = new Map();
const same = (got, want) => got.length === want.length && got.every((r, i) => r.length === want[i].length && r.every((c, j) => c === want[i][j] || (want[i][j] === '' && c === '*')));
const key = f => f.mode + ' ' + f.text;

// one schedule: choices[i] is what happens at step i (0: the next event, k: the k-th pending answer arrives); what is not in
// the list is 0, or the first pending answer when there are no more events. Returns the choices there were.
async function schedule(s, choices) {
  const url = new URL(s.query || '', base).href;
  if (!pages.has(url)) {
    const r = await fetch(url);
    pages.set(url, await r.text());
  }
  const p = new Page(pages.get(url));
  const out = { degree: [], log: [], steps: 0, requests: 0 };
  const settle = async () => {
    await tick();
    for (let n = 0; p.timers.some(Boolean) && n < 100; n++) { const l = p.timers; p.timers = []; for (const f of l) if (f) f(); await tick(); }
  };
  const bad = m => { out.bad = m; return out; };
  let held = [{ rows: [] }]; // what the form has held so far
  let issued = 0, lastOK = true, deliveredLast = -1;
  const look = () => {
    const t = p.table();
    if (t.bad) return t.bad;
    if (!held.some(h => same(t.rows, h.rows))) return 'the table is not the analysis of anything the form has held: ' + JSON.stringify(t.rows).slice(0, 600);
    return null;
  };
  p.run();
  await settle();
  const number = () => { for (const r of p.requests) if (r.n === undefined) { r.n = issued++; out.requests++; } };
  number();
  if (s.start) {
    const f = p.form();
    if (f.text !== s.start.text || f.mode !== s.start.mode) return bad(`the page was opened with ${JSON.stringify(s.start)}, its form holds ${JSON.stringify(f)}`);
  }
  let ev = 0, step = 0, since = p.requests.length > 0;
  let m = look();
  if (m && !since) return bad('at first ' + m);
  while (ev < s.events.length || p.requests.length) {
    const more = ev < s.events.length ? 1 : 0;
    out.degree.push(more + p.requests.length);
    const c = s.eager ? (p.requests.length ? more : 0) : choices[step++] || 0; // eager: each answer arrives before the next event
    if (more && c === 0) {
      const e = s.events[ev++];
      out.log.push(e);
      let el;
      if ('text' in e) {
        el = p.field()[0];
        if (!el) return bad('there is no text field');
        el.value = e.text;
        p.fire(el, 'input'); p.fire(el, 'keyup'); p.fire(el, 'change');
      } else {
        const rs = all(p.doc, 'input[name="r"]');
        el = rs.find(x => x.value === e.mode);
        if (!el) return bad('there is no choice ' + e.mode);
        for (const x of rs) x.checked = x === el;
        p.fire(el, 'click');
        if (!s.old) p.fire(el, 'input');
        p.fire(el, 'change');
      }
      const f = p.form(), w = s.want[key(f)];
      if (!w) return bad('the form holds ' + JSON.stringify(f));
      held.push({ rows: w });
    } else {
      const i = more ? c - 1 : c;
      const r = p.requests.splice(i, 1)[0];
      const how = s.faults && s.faults[r.n];
      out.log.push(`answer ${r.n}${how ? ' ' + how : ''}`);
      if (how === 'lost') r.deliver(-1, '', '');
      else if (how === 'garbage') r.deliver(200, '{"status":tru', 'application/json');
      else if (how === 'error') r.deliver(400, '{"status":false,"error":"x"}', 'text/plain; charset=utf-8');
      else if (how === 'empty') r.deliver(200, '', 'application/json');
      else r.deliver(...await ask(r));
      if (r.n > deliveredLast) { deliveredLast = r.n; lastOK = !how; }
    }
    await settle();
    number();
    out.steps++;
    if (out.steps > 300) return bad('the script does not stop asking');
    if ((m = look())) return bad(m);
  }
  const f = p.form(), t = p.table();
  if (s.events.length && lastOK && !same(t.rows, s.want[key(f)])) {
    return bad(`the form holds ${JSON.stringify(f)}, the table shows ${JSON.stringify(t.rows).slice(0, 600)}, want ${JSON.stringify(s.want[key(f)]).slice(0, 600)}`);
  }
  return out;
}

// all schedules, depth first
async function explore(s) {
  const res = { schedules: 0, steps: 0, requests: 0 };
  let choices = s.choices || [];
  for (;;) {
    const o = await schedule(s, choices);
    res.schedules++; res.steps += o.steps; res.requests += o.requests;
    if (o.bad) return { ...res, bad: o.bad, log: o.log, choices };
    if (!s.all) return res;
    let d = o.degree.length - 1;
    while (d >= 0 && (choices[d] || 0) + 1 >= o.degree[d]) d--;
    if (d < 0) return res;
    choices = Array.from({ length: d + 1 }, (_, i) => choices[i] || 0);
    choices[d]++;
  }
}

(async () => {
  for await (const line of rl.createInterface({ input: process.stdin })) {
    if (!line) continue;
    let out;
    try { out = await explore(JSON.parse(line)); } catch (e) {
      const stack = String((e && e.stack) || e), top = /\n\s+at ([^\n]*)/.exec(stack);
      if (e instanceof Unsupported) out = { unsupported: e.message };
      else if (top && !/evalmachine/.test(top[1])) out = { unsupported: 'error in the browser: ' + stack.slice(0, 400) };
      else out = { bad: 'the script fails: ' + stack.slice(0, 400) };
    }
    process.stdout.write(JSON.stringify(out) + '\n');
  }
})();
