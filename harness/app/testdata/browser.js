// A stand-in for a browser: runs a page's scripts over elements that only
// record what is done with them, then does what the visitor does. Input and
// output are JSON.
'use strict';
const vm = require('vm');
const inp = JSON.parse(require('fs').readFileSync(0, 'utf8'));
const out = { sinks: [], texts: 0, steps: [], errors: [], handlers: 0 };

const escape = s => String(s).replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
const markup = (how, s) => { if (typeof s === 'string') out.sinks.push([how, s]); };
const guard = f => { try { return f(); } catch (e) { out.errors.push(String(e && e.stack || e).slice(0, 300)); } };

// Anything a library has that is not modelled.
function any(target) {
  const p = new Proxy(target, {
    get(t, k) {
      if (k in t || typeof k === 'symbol') return t[k];
      return () => p;
    },
  });
  return p;
}

// shown is what the timeline was last given, and chart its handlers.
let shown = [], chart = {}, loc = null;
let nodes = { rect: [], text: [], label: [] };

function node(kind, i) {
  return { kind, i, on: {}, id: kind === 'rect' ? 'timelineItem_' + i : kind + i, data: null,
    get innerHTML() { return this.content || ''; },
    set innerHTML(v) { markup('innerHTML', v); this.content = v; } };
}

function draw() {
  nodes = { rect: [], text: [], label: [] };
  shown.forEach((d, i) => {
    for (const k of Object.keys(nodes)) nodes[k].push(node(k, i));
    nodes.rect[i].data = d.times && d.times[0];
    nodes.label[i].content = escape(d.label);
  });
}

// Elements by selector.
const els = new Map();
function el(key) {
  if (!els.has(key)) els.set(key, { on: {}, data: {}, attrs: {}, content: '', val: '' });
  return els.get(key);
}

function wrap(list) {
  const o = { length: list.length };
  list.forEach((e, i) => { o[i] = e; });
  const first = () => list[0];
  const on = (ev, f) => { if (typeof f === 'function') { out.handlers++; list.forEach(e => { (e.on[ev] = e.on[ev] || []).push(f); }); } return p; };
  for (const ev of ['click', 'keyup', 'keydown', 'change', 'submit', 'mouseover', 'mouseout', 'contextmenu', 'ready', 'focus', 'blur', 'input'])
    o[ev] = f => typeof f === 'function' ? on(ev, f) : p;
  o.on = (ev, a, b) => on(ev, typeof b === 'function' ? b : a);
  o.hover = (a, b) => { on('mouseover', a); return on('mouseout', b); };
  o.html = (...a) => {
    if (!a.length) return first() ? first().content || '' : '';
    markup('html', a[0]); list.forEach(e => { e.content = String(a[0]); }); return p;
  };
  o.text = (...a) => {
    if (!a.length) return first() ? String(first().content || '').replace(/&lt;/g, '<').replace(/&gt;/g, '>').replace(/&amp;/g, '&') : '';
    out.texts++; list.forEach(e => { e.content = escape(a[0]); }); return p;
  };
  for (const m of ['append', 'prepend', 'before', 'after', 'replaceWith', 'wrap', 'wrapInner', 'wrapAll', 'insertBefore', 'insertAfter', 'appendTo', 'prependTo'])
    o[m] = (...a) => { a.forEach(x => markup(m, x)); return p; };
  o.attr = (k, ...v) => {
    if (!v.length) { const e = first(); return e && (e.attrs && k in e.attrs ? e.attrs[k] : k === 'id' ? e.id : undefined); }
    if (/^on/.test(k) || k === 'srcdoc') markup('attr ' + k, v[0]);
    list.forEach(e => { (e.attrs = e.attrs || {})[k] = v[0]; }); return p;
  };
  o.prop = o.attr;
  o.css = (k, ...v) => v.length || typeof k === 'object' ? p : '16px';
  o.width = () => 1000;
  o.height = () => 1000;
  o.val = (...a) => { if (!a.length) return first() ? first().val || '' : ''; list.forEach(e => { e.val = a[0]; }); return p; };
  o.data = (k, ...v) => {
    const e = first();
    if (!v.length) return e && e.data ? e.data[k] : undefined;
    list.forEach(x => { (x.data = x.data || {})[k] = v[0]; }); return p;
  };
  o.each = f => { list.slice().forEach((e, i) => f.call(e, i, e)); return p; };
  o.prev = () => wrap(list.map(e => nodes.rect[e.i]).filter(Boolean));
  o.find = s => wrap(list.map(e => el((e.key || '?') + ' ' + s)));
  o.empty = () => p;
  o.size = () => list.length;
  o.get = i => i === undefined ? list.slice() : list[i];
  const p = any(o);
  return p;
}

function $(sel) {
  if (typeof sel === 'function') { guard(() => sel.call(document)); return wrap([]); }
  if (Array.isArray(sel)) return wrap(sel.flatMap(x => x && x.length !== undefined && !x.on ? Array.from(x) : [x]).filter(Boolean));
  if (typeof sel === 'string') {
    if (/^\s*</.test(sel)) { if (!/^\s*<\w+\s*\/?>(<\/\w+>)?\s*$/.test(sel)) markup('$', sel); return wrap([{ on: {}, content: '', key: 'new' }]); }
    if (/timeline.*label/.test(sel)) return wrap(nodes.label);
    if (/trace-timeline.*text/.test(sel)) return wrap(nodes.text);
    if (/trace-timeline.*rect/.test(sel)) return wrap(nodes.rect);
    const m = /^#timelineItem_(\d+)$/.exec(sel);
    if (m) return wrap(nodes.rect[m[1]] ? [nodes.rect[m[1]]] : []);
    const e = el(sel); e.key = sel; return wrap([e]);
  }
  if (sel === undefined || sel === null) return wrap([]);
  if (!sel.on) sel.on = {};
  return wrap([sel]);
}
$.each = (o, f) => {
  if (Array.isArray(o)) o.every((v, i) => f.call(v, i, v) !== false);
  else if (o) Object.keys(o).every(k => f.call(o[k], k, o[k]) !== false);
  return o;
};
$.extend = Object.assign;
$.map = (o, f) => Array.from(o, (v, i) => f(v, i));
$.isArray = Array.isArray;
$.fn = {};

function sel3(list) {
  const o = {};
  const set = m => (...a) => { if (m === 'html') markup('d3 html', a[0]); else out.texts++; list.forEach(e => { e.content = m === 'html' ? a[0] : escape(a[0]); }); return p; };
  o.on = (ev, f) => { if (typeof f === 'function') { out.handlers++; list.forEach(e => { if (e) e.on[ev] = [f]; }); } return p; };
  o.html = set('html');
  o.text = set('text');
  o.data = d => d === undefined ? list.map(e => e && e.data) : p;
  o.datum = d => { if (Array.isArray(d)) { shown = d; draw(); } return p; };
  o.append = () => p;
  o.node = () => list[0];
  o.attr = () => p;
  o.call = f => { if (typeof f === 'function') guard(() => f(p)); return p; };
  const p = any(o);
  return p;
}

const d3 = any({
  timeline() {
    const c = () => {};
    chart = {};
    for (const ev of ['hover', 'mouseout', 'mouseover', 'click', 'scroll']) c[ev] = f => { chart[ev] = f; return p; };
    c.colors = () => () => '#000';
    const p = any(c);
    return p;
  },
  tip() {
    const c = () => {};
    let content = () => '';
    c.html = v => { content = typeof v === 'function' ? v : () => v; if (typeof v !== 'function') markup('tip', v); return p; };
    c.show = (d, ...a) => { markup('tip', content(d, ...a)); return p; };
    const p = any(c);
    return p;
  },
  select: s => sel3(s && s.on ? [s] : typeof s === 'string' ? [el(s)] : [{ on: {} }]),
  selectAll: s => sel3([el(String(s))]),
});

const location = any({ get href() { return loc; }, set href(v) { loc = v; }, assign(v) { loc = v; }, reload() {} });
const document = any({
  getElementById: id => { const e = el('#' + id); e.key = '#' + id; return e; },
  querySelector: s => el(s), querySelectorAll: () => [], createElement: () => node('new', 0),
  write: s => markup('document.write', s), writeln: s => markup('document.write', s),
  addEventListener() {}, location,
});
function Stub() { return any(function () {}); }
const window = {
  $, jQuery: $, d3, document, location, console: { log() {}, error() {}, warn() {} },
  alert() {}, confirm: () => true, Fuse: Stub, ZeroClipboard: Stub, d3pie: Stub, history: any({}), navigator: any({}),
  setTimeout: f => { if (typeof f === 'string') markup('setTimeout', f); return 0; }, setInterval: f => { if (typeof f === 'string') markup('setInterval', f); return 0; },
  clearTimeout() {}, clearInterval() {}, addEventListener() {}, JSON, Math, Date, parseInt, parseFloat, isNaN,
  encodeURIComponent, decodeURIComponent,
};
window.window = window;
const ctx = vm.createContext(window);
for (const s of inp.scripts) guard(() => vm.runInContext(s, ctx, { timeout: 5000 }));

const event = x => Object.assign({ preventDefault() {}, stopPropagation() {}, pageX: 1, pageY: 1 }, x);
const fire = (e, ev, x) => { let n = 0; if (e) for (const f of (e.on[ev] || []).slice()) { n++; guard(() => f.call(e, event(x))); } return n; };
const at = id => shown.findIndex(d => d.spanID === id);
const menu = (id, act) => { const i = at(id); return i >= 0 && fire(nodes.rect[i], 'contextmenu') > 0 && fire(el('#contextMenu a[data-action="' + act + '"]'), 'click') > 0; };

const step = (did) => out.steps.push({ did: !!did, shown: shown.map(d => d.spanID), nav: loc });
step(true);
for (const a of inp.actions) {
  let did = false;
  loc = null;
  switch (a[0]) {
    case 'press': did = fire(el('#' + a[1]), 'click') > 0; break;
    case 'show': did = menu(a[1], 'show-children'); break;
    case 'hide': did = menu(a[1], 'hide-children'); break;
    case 'filter': {
      did = menu(a[1], 'filter');
      const f = el('#contextFilterMenu .filter');
      f.val = a[2];
      if (did) fire(f, 'keyup', { keyCode: 13 });
      break;
    }
    case 'hover': {
      const i = at(a[1]);
      if (i >= 0) {
        if (chart.hover) { did = true; guard(() => chart.hover.call(nodes.rect[i], shown[i].times && shown[i].times[0], i, shown[i])); }
        for (const n of [nodes.text[i], nodes.label[i]]) { fire(n, 'mouseover'); fire(n, 'mouseout'); }
        if (chart.mouseout) guard(() => chart.mouseout.call(nodes.rect[i], shown[i].times && shown[i].times[0], i, shown[i]));
      }
      break;
    }
    case 'click': {
      const i = at(a[1]);
      if (i >= 0 && chart.click) { did = true; guard(() => chart.click.call(nodes.rect[i], shown[i].times && shown[i].times[0], i, shown[i])); }
      break;
    }
    case 'clicktext': did = fire(nodes.text[at(a[1])], 'click') > 0; break;
  }
  step(did);
}
process.stdout.write(JSON.stringify(out));
