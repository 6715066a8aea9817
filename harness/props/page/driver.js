// Runs the scripts of the server's page as a browser would, with a document that only records.
// Reads lines {"url","texts"}: for each text, it is entered into the text area,
// the button is pressed, and the state of the page after the answer is recorded.
// Writes a line {"states"} or {"failed"} for each.
'use strict';
const vm = require('vm'), http = require('http'), readline = require('readline');

const VOID = new Set(['meta', 'link', 'br', 'img', 'input', 'hr', 'base']);
const ENT = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0', mu: 'μ', nu: 'ν', pi: 'π', ne: '≠', ni: '∋', le: '≤', ge: '≥' };

function decode(s) {
	return s.replace(/&(?:#x([0-9a-f]+)|#([0-9]+)|([a-z]+));/gi, (m, h, d, n) => {
		if (n) return n in ENT ? ENT[n] : m;
		return String.fromCodePoint(h ? parseInt(h, 16) : parseInt(d, 10));
	});
}

const encode = s => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');

class El {
	constructor(tag, attrs) {
		this.tagName = tag.toUpperCase();
		this.attrs = attrs || {};
		this.kids = []; // elements and strings
		this.parentNode = null;
		this.listeners = {};
		this.value_ = '';
		this.focused = false;
		this.style = {};
		for (const d of (this.attrs.style || '').split(';')) {
			const i = d.indexOf(':');
			if (i > 0) this.style[d.slice(0, i).trim()] = d.slice(i + 1).trim();
		}
		this.style.setProperty = (k, v) => { this.style[k] = v; };
		this.style.removeProperty = (k) => { delete this.style[k]; };
		const names = s => new Set(String(s).split(/\s+/).filter(x => x));
		let cls = names(this.attrs.class || '');
		this.classList = {
			add: (...c) => c.forEach(x => cls.add(x)), remove: (...c) => c.forEach(x => cls.delete(x)), contains: c => cls.has(c),
			toggle: (c, f) => { const on = f === undefined ? !cls.has(c) : f; on ? cls.add(c) : cls.delete(c); return on; },
			replace: (a, b) => { if (!cls.delete(a)) return false; cls.add(b); return true; },
			set: v => { cls = names(v); }, toString: () => [...cls].join(' '),
		};
		this.dataset = {};
	}
	get id() { return this.attrs.id || ''; }
	set id(v) { this.attrs.id = v; }
	get hidden() { return 'hidden' in this.attrs; }
	set hidden(v) { if (v) this.attrs.hidden = ''; else delete this.attrs.hidden; }
	getAttribute(k) { return k in this.attrs ? this.attrs[k] : null; }
	setAttribute(k, v) { this.attrs[k] = String(v); }
	removeAttribute(k) { delete this.attrs[k]; }
	get value() { return this.value_; }
	set value(v) { this.value_ = String(v).replace(/\r\n?/g, '\n'); this.selectionStart = this.selectionEnd = this.value_.length; }
	get selectionStart() { return this.s_ || 0; }
	set selectionStart(v) { this.s_ = Math.max(0, Math.min(v | 0, this.value_.length)); this.e_ = Math.max(this.s_, this.e_ || 0); }
	get selectionEnd() { return this.e_ || 0; }
	set selectionEnd(v) { this.e_ = Math.max(0, Math.min(v | 0, this.value_.length)); this.s_ = Math.min(this.s_ || 0, this.e_); }
	setSelectionRange(s, e) { this.e_ = Math.max(0, Math.min(e | 0, this.value_.length)); this.s_ = Math.max(0, Math.min(s | 0, this.e_)); }
	focus() { doc.focused = this; }
	blur() { if (doc.focused === this) doc.focused = null; }
	scrollIntoView() { }
	addEventListener(t, f) { (this.listeners[t] = this.listeners[t] || []).push(f); }
	removeEventListener() { }
	get children() { return this.kids.filter(k => k instanceof El); }
	get childNodes() { return this.kids; }
	get firstChild() { return this.kids[0] || null; }
	get firstElementChild() { return this.children[0] || null; }
	append(...ks) { ks.forEach(k => this.appendChild(k)); }
	appendChild(k) { if (k instanceof El) k.parentNode = this; this.kids.push(k); return k; }
	removeChild(k) { this.kids = this.kids.filter(x => x !== k); return k; }
	replaceChildren(...ks) { this.kids = []; this.append(...ks); }
	set innerHTML(h) { this.kids = []; parse(String(h), this); }
	get innerHTML() { return this.kids.map(k => k instanceof El ? k.outerHTML : encode(String(k))).join(''); }
	get outerHTML() {
		const t = this.tagName.toLowerCase();
		let a = '';
		for (const k in this.attrs) a += ' ' + k + '="' + encode(this.attrs[k]).replace(/"/g, '&quot;') + '"';
		return '<' + t + a + '>' + (VOID.has(t) ? '' : this.innerHTML + '</' + t + '>');
	}
	insertAdjacentHTML(w, h) {
		const e = new El('div', {});
		parse(String(h), e);
		e.kids.forEach(k => { if (k instanceof El) k.parentNode = this; });
		this.kids = w === 'afterbegin' ? e.kids.concat(this.kids) : this.kids.concat(e.kids);
	}
	insertAdjacentText(w, t) { if (w === 'afterbegin') this.kids.unshift(String(t)); else this.kids.push(String(t)); }
	insertBefore(k, r) {
		if (k instanceof El) k.parentNode = this;
		const i = this.kids.indexOf(r);
		this.kids.splice(i < 0 ? this.kids.length : i, 0, k);
		return k;
	}
	prepend(...ks) { ks.reverse().forEach(k => this.insertBefore(k, this.kids[0])); }
	remove() { if (this.parentNode) this.parentNode.removeChild(this); }
	closest(s) { let p = this; while (p && !sel(s)(p)) p = p.parentNode; return p; }
	matches(s) { return sel(s)(this); }
	hasAttribute(k) { return k in this.attrs; }
	toggleAttribute(k, f) { const on = f === undefined ? !(k in this.attrs) : f; if (on) this.attrs[k] = ''; else delete this.attrs[k]; return on; }
	get parentElement() { return this.parentNode; }
	get lastChild() { return this.kids[this.kids.length - 1] || null; }
	get className() { return this.classList.toString(); }
	set className(v) { this.classList.set(v); }
	get textLength() { return this.value_.length; }
	select() { this.setSelectionRange(0, this.value_.length); doc.focused = this; }
	get textContent() { return this.kids.map(k => k instanceof El ? k.textContent : String(k)).join(''); }
	set textContent(t) { this.kids = [String(t)]; }
	get innerText() { return this.textContent; }
	set innerText(t) { this.kids = [String(t)]; }
	walk(f) { f(this); this.children.forEach(k => k.walk(f)); }
	find(p) { let r = null; this.walk(e => { if (!r && p(e)) r = e; }); return r; }
	all(p) { const r = []; this.walk(e => { if (p(e)) r.push(e); }); return r; }
	querySelector(s) { return this.find(sel(s)); }
	querySelectorAll(s) { return this.all(sel(s)); }
	getElementsByTagName(t) { return this.all(e => e.tagName === t.toUpperCase()); }
	getElementsByClassName(c) { return this.all(e => e.classList.contains(c)); }
}

// sel returns whether an element is selected: names, ids, classes and attributes, below others or not.
function sel(s) {
	const any = s.split(',').map(x => x.trim().replace(/\s*>\s*/g, ' ').split(/\s+/).map(simple));
	const below = (e, ps) => {
		if (!ps[ps.length - 1](e)) return false;
		for (let i = ps.length - 2; i >= 0; i--) {
			do e = e.parentNode; while (e && !ps[i](e));
			if (!e) return false;
		}
		return true;
	};
	return e => any.some(ps => below(e, ps));
}

function simple(s) {
	const ps = [];
	const re = /^([\w-]+|\*)|#([\w-]+)|\.([\w-]+)|\[([\w-]+)(?:=["']?([^"'\]]*)["']?)?\]/g;
	const rest = s.replace(re, (m, t, id, c, a, v) => {
		if (t) ps.push(e => t === '*' || e.tagName === t.toUpperCase());
		else if (id) ps.push(e => e.id === id);
		else if (c) ps.push(e => e.classList.contains(c));
		else ps.push(e => a in e.attrs && (v === undefined || e.attrs[a] === v));
		return '';
	});
	if (rest) throw new Error('the selector ' + s + ' is not supported by the harness');
	return e => ps.every(p => p(e));
}

// parse adds the parsed HTML to an element.
function parse(h, root) {
	const re = /<!--[\s\S]*?-->|<![^>]*>|<(script|style|textarea)\b((?:"[^"]*"|'[^']*'|[^>"'])*)>([\s\S]*?)<\/\1\s*>|<(\/?)([a-zA-Z][^\s>\/]*)((?:"[^"]*"|'[^']*'|[^>"'])*)>/g;
	let cur = root, at = 0, m;
	const text = s => { if (s) cur.kids.push(decode(s)); };
	const attrs = s => {
		const a = {};
		s.replace(/([^\s=\/"']+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g, (m, k, x, y, z) => { a[k.toLowerCase()] = decode(x !== undefined ? x : y !== undefined ? y : z !== undefined ? z : ''); });
		return a;
	};
	while ((m = re.exec(h))) {
		let t = h.slice(at, m.index);
		text(t);
		at = re.lastIndex;
		if (m[1]) {
			const e = new El(m[1], attrs(m[2]));
			if (m[3]) e.kids.push(m[3]);
			cur.appendChild(e);
		} else if (m[5]) {
			const tag = m[5].toLowerCase();
			if (m[4]) {
				let e = cur;
				while (e !== root && e.tagName !== tag.toUpperCase()) e = e.parentNode;
				if (e !== root) cur = e.parentNode;
			} else {
				const e = new El(tag, attrs(m[6]));
				cur.appendChild(e);
				if (!VOID.has(tag)) {
					cur = e;
					// The newline after <pre> is not part of it.
					if (tag === 'pre' && h[at] === '\n') at = ++re.lastIndex;
				}
			}
		}
	}
	text(h.slice(at));
}

let doc;

function get(url, method, body) {
	return new Promise((ok, bad) => {
		const q = http.request(url, { method, agent: false }, r => {
			const bs = [];
			r.on('data', b => bs.push(b));
			r.on('end', () => ok({ status: r.statusCode, headers: r.headers, body: Buffer.concat(bs).toString('utf8') }));
			r.on('error', bad);
		});
		q.on('error', bad);
		q.end(body === undefined || body === null ? undefined : String(body));
	});
}

// hides returns a function that says whether an element itself is hidden, by its style or by a style sheet of the page.
function hides(root) {
	const rules = [];
	for (const s of root.all(e => e.tagName === 'STYLE')) {
		s.textContent.replace(/\/\*[\s\S]*?\*\//g, '').replace(/([^{}]+)\{([^{}]*)\}/g, (m, q, body) => {
			const d = /(?:^|;)\s*display\s*:\s*([\w-]+)/.exec(body);
			if (d && q.trim()[0] !== '@') try { rules.push([sel(q.trim()), d[1]]); } catch (e) { /* not for this harness */ }
			return '';
		});
	}
	return e => {
		let d = e.style.display;
		if (!d) for (const [q, v] of rules) if (q(e)) d = v;
		return e.hidden || d === 'none';
	};
}

async function run(c) {
	const page = await get(c.url, 'GET');
	if (page.status !== 200) return { failed: 'GET: status ' + page.status };
	const root = new El('#document', {});
	parse(page.body, root);
	let pending = 0, errors = [], timers = [];
	const guard = (f, ...a) => { try { return f(...a); } catch (e) { errors.push(String(e && e.stack || e)); } };
	class XHR {
		constructor() { this.readyState = 0; this.status = 0; this.responseText = ''; this.ls = {}; }
		open(m, u) { this.m = m; this.u = new URL(u, c.url).href; this.readyState = 1; }
		setRequestHeader() { }
		getResponseHeader(k) { return this.hs && this.hs[k.toLowerCase()] || null; }
		abort() { }
		addEventListener(t, f) { (this.ls[t] = this.ls[t] || []).push(f); }
		fire(t) {
			const ev = { type: t, target: this };
			if (typeof this['on' + t] === 'function') guard(() => this['on' + t](ev));
			(this.ls[t] || []).forEach(f => guard(() => f.call(this, ev)));
		}
		send(b) {
			pending++;
			get(this.u, this.m, b).then(r => {
				this.status = r.status;
				this.hs = r.headers;
				this.responseURL = this.u;
				for (const s of [2, 3, 4]) {
					this.readyState = s;
					if (s > 2) this.responseText = s === 3 ? r.body.slice(0, r.body.length >> 1) : r.body;
					this.response = this.responseType === 'json' ? (s === 4 ? JSON.parse(r.body) : null) : this.responseText;
					this.fire('readystatechange');
				}
				this.fire('load');
				this.fire('loadend');
			}, e => { this.readyState = 4; this.fire('readystatechange'); this.fire('error'); errors.push('request: ' + e); }).finally(() => pending--);
		}
	}
	doc = {
		URL: c.url, documentURI: c.url, readyState: 'complete', focused: null, listeners: {},
		getElementById: id => root.find(e => e.id === id),
		querySelector: s => root.querySelector(s), querySelectorAll: s => root.querySelectorAll(s),
		getElementsByTagName: t => root.getElementsByTagName(t), getElementsByClassName: t => root.getElementsByClassName(t),
		createElement: t => new El(t, {}), createTextNode: t => String(t), location: new URL(c.url), title: '', get activeElement() { return doc.focused || doc.body; },
		addEventListener: (t, f) => (doc.listeners[t] = doc.listeners[t] || []).push(f),
	};
	doc.documentElement = root;
	doc.body = root.find(e => e.tagName === 'BODY') || root;
	const win = {
		document: doc, location: new URL(c.url), console: { log() { }, error() { }, warn() { }, debug() { }, info() { } }, XMLHttpRequest: XHR, URL,
		URLSearchParams, TextEncoder, TextDecoder, AbortController, queueMicrotask, navigator: { userAgent: '', language: 'en' },
		requestAnimationFrame: f => win.setTimeout(f, 0, 0),
		alert(m) { errors.push('alert: ' + m); },
		setTimeout: (f, ms, ...a) => { pending++; return setTimeout(() => { guard(f, ...a); pending--; }, Math.min(ms || 0, 20)); }, clearTimeout() { },
		fetch: (u, o) => {
			pending++;
			o = o || {};
			return get(new URL(u, c.url).href, o.method || 'GET', o.body).then(r => {
				setTimeout(() => pending--, 5);
				return { headers: { get: k => r.headers[k.toLowerCase()] || null }, ok: r.status >= 200 && r.status < 300, status: r.status, text: async () => r.body, json: async () => JSON.parse(r.body) };
			}, e => { setTimeout(() => pending--, 5); throw e; });
		},
		listeners: {}, addEventListener: (t, f) => (win.listeners[t] = win.listeners[t] || []).push(f),
	};
	win.window = win; win.self = win;
	vm.createContext(win);
	for (const s of root.all(e => e.tagName === 'SCRIPT' && !('src' in e.attrs))) {
		guard(() => vm.runInContext(s.textContent, win, { timeout: 20000 }));
	}
	for (const l of [doc.listeners.DOMContentLoaded, doc.listeners.load, win.listeners.DOMContentLoaded, win.listeners.load]) (l || []).forEach(f => guard(f, {}));
	if (typeof win.onload === 'function') guard(win.onload, {});
	if (errors.length) return { failed: 'the scripts of the page fail: ' + errors.join('; ') };

	// The parts of the page, as its user sees them.
	const area = root.find(e => e.tagName === 'TEXTAREA'), button = root.find(e => e.tagName === 'BUTTON');
	if (!area || !button) return { failed: 'the page has no text area or no button' };
	const panels = {};
	for (const a of root.all(e => e.tagName === 'A' && (e.attrs.href || '')[0] === '#')) {
		panels[a.textContent.trim()] = doc.getElementById(a.attrs.href.slice(1));
	}
	const hidden = hides(root);
	const shown = e => { let p = e; while (p) { if (hidden(p)) return false; p = p.parentNode; } return true; };
	const before = {};
	for (const k in panels) if (panels[k]) before[k] = shown(panels[k]);
	const states = [];
	for (const [i, text] of c.texts.entries()) {
		area.value = text;
		// The cursor is at the start, at the end, or between.
		const at = [0, area.value.length, area.value.length >> 1][(text.length + i) % 3];
		area.setSelectionRange(at, at);
		doc.focused = null;
		errors = [];
		if (button.attrs.onclick) {
			guard(() => vm.runInContext('(function(event){' + button.attrs.onclick + '})', win).call(button, { preventDefault() { }, target: button }));
		}
		if (typeof button.onclick === 'function') guard(() => button.onclick({ preventDefault() { }, target: button }));
		(button.listeners.click || []).forEach(f => guard(() => f.call(button, { preventDefault() { }, target: button })));
		const t0 = Date.now();
		do await new Promise(r => setImmediate(r)); while (pending && Date.now() - t0 < 60000);
		await new Promise(r => setImmediate(r));
		const st = { errors, value: area.value, start: area.selectionStart, end: area.selectionEnd, focused: doc.focused === area, panels: {} };
		for (const k in panels) {
			const e = panels[k];
			if (!e) continue;
			st.panels[k] = {
				text: e.textContent, visible: shown(e), tags: e.all(x => x !== e).map(x => x.tagName),
				pre: e.kids.length > 0 && e.kids.every(x => x instanceof El && x.tagName === 'PRE'),
			};
		}
		states.push(st);
	}
	return { before, states };
}

(async () => {
	for await (const line of readline.createInterface({ input: process.stdin, crlfDelay: 0 })) {
		let r;
		try { r = await run(JSON.parse(line)); } catch (e) { r = { harness: String(e && e.stack || e) }; }
		process.stdout.write(JSON.stringify(r) + '\n');
	}
})();
