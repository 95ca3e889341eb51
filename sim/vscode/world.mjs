// The simulated editor: scheduler, virtual time, file system, configuration and the stand-ins for the modules the extension imports.
import path from "node:path";
import util from "node:util";
import url from "node:url";
import vm from "node:vm";
import { createRequire } from "node:module";
import { StringDecoder } from "node:string_decoder";
const require = createRequire(import.meta.url);
const PURE = new Set(["util", "events", "buffer", "string_decoder", "assert", "querystring", "punycode"]);
const esbuild = require("/opt/veriftools/node/node_modules/esbuild");

/** a glob as VS Code reads it */
function globRe(g) {
	let o = "", b = 0;
	for (let i = 0; i < g.length; i++) {
		const c = g[i];
		if (c === "*" && g[i + 1] === "*") { if (g[i + 2] === "/") { o += "(?:.*/)?"; i += 2; } else { o += ".*"; i++; } }
		else if (c === "*") o += "[^/]*"; else if (c === "?") o += "[^/]";
		else if (c === "{") { b++; o += "(?:"; } else if (c === "}" && b) { b--; o += ")"; } else if (c === "," && b) o += "|";
		else if (c === "[" && g.indexOf("]", i) > i) { const e = g.indexOf("]", i); o += `[${g.slice(i + 1, e).replace(/^!/, "^")}]`; i = e; }
		else o += c.replace(/[.+^${}()|[\]\\]/g, "\\$&");
	}
	return o;
}
export class Rng {
	constructor(seed) { this.s = BigInt.asUintN(64, BigInt(seed) * 0x9E3779B97F4A7C15n + 1n); for (let i = 0; i < 4; i++) this.next(); }
	next() { let x = this.s; x ^= x >> 12n; x = BigInt.asUintN(64, x ^ (x << 25n)); x ^= x >> 27n; this.s = x; return Number(BigInt.asUintN(64, x * 0x2545F4914F6CDD1Dn) >> 33n); }
	below(n) { return this.next() % n; }
	chance(p) { return this.below(100) < p; }
	range(a, b) { return a + this.below(b - a + 1); }
	pick(a) { return a[this.below(a.length)]; }
}
export function hash(h, s) { for (let i = 0; i < s.length; i++) { h = Math.imul(h ^ s.charCodeAt(i), 0x01000193) >>> 0; } return h; }

// ---------------------------------------------------------------- the extension's code
export function load(repo) {
	const dir = `${repo}/editors/code`;
	const out = esbuild.buildSync({ entryPoints: [`${dir}/src/extension.ts`], bundle: true, platform: "node", format: "cjs", target: "node20", write: false, logLevel: "silent", sourcemap: false,
		external: ["vscode", "vscode-languageclient", "vscode-languageclient/node", "p-queue", "fs-extra", "which", "adm-zip"], tsconfigRaw: "{}" });
	const args = ["require", "module", "exports", "__dirname", "__filename", "process", "setTimeout", "clearTimeout", "setInterval", "clearInterval", "setImmediate", "clearImmediate", "Date", "performance", "console"];
	const script = new vm.Script(`(function(${args.join(",")}){${out.outputFiles[0].text}\n})`, { filename: "extension.js" });
	const pkg = JSON.parse(require("node:fs").readFileSync(`${dir}/package.json`, "utf8"));
	return { make: script.runInThisContext(), args, pkg };
}

// ---------------------------------------------------------------- URIs
const enc = (s) => { let o = ""; for (const c of s) o += /[A-Za-z0-9\-._~/]/.test(c) ? c : encodeURIComponent(c).replace(/[!'()*]/g, (x) => "%" + x.charCodeAt(0).toString(16).toUpperCase()); return o; };
const dec = (s) => s.replace(/(%[0-9A-Fa-f]{2})+/g, (m) => { try { return decodeURIComponent(m); } catch { return m; } });
function uriClass(w) {
	return class Uri {
		constructor(scheme, authority, p, query, fragment) { Object.assign(this, { scheme, authority: authority || "", path: p || "", query: query || "", fragment: fragment || "" }); }
		static parse(s) { const m = /^(([^:/?#]+?):)?(\/\/([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?/.exec(s); return new Uri(m[2] || "file", dec(m[4] || ""), dec(m[5] || ""), dec(m[7] || ""), dec(m[9] || "")); }
		static file(p) { if (w.win) p = p.replace(/\\/g, "/"); if (!p.startsWith("/")) p = "/" + p; return new Uri("file", "", p, "", ""); }
		static joinPath(u, ...seg) { return u.with({ path: path.posix.join(u.path, ...seg) }); }
		static from(c) { return new Uri(c.scheme, c.authority, c.path, c.query, c.fragment); }
		static isUri(x) { return x instanceof Uri; }
		static revive(x) { return x && Uri.from(x); }
		with(c) { return new Uri(c.scheme ?? this.scheme, c.authority ?? this.authority, c.path ?? this.path, c.query ?? this.query, c.fragment ?? this.fragment); }
		get fsPath() { return w.fsPath(this.path); }
		toString(skip) { let p = this.path; const d = /^\/([A-Z]):/.exec(p); if (d) p = `/${d[1].toLowerCase()}${p.slice(2)}`; const e = skip ? (x) => x : enc; return `${this.scheme}:${this.authority || this.scheme === "file" ? "//" + e(this.authority) : ""}${e(p)}${this.query ? "?" + e(this.query) : ""}${this.fragment ? "#" + e(this.fragment) : ""}`; }
		toJSON() { return { scheme: this.scheme, authority: this.authority, path: this.path, query: this.query, fragment: this.fragment, fsPath: this.fsPath, external: this.toString() }; }
	};
}
class FileSystemError extends Error {
	constructor(m, code = "Unknown") { super(String(m?.toString?.() ?? m ?? code)); this.code = code; this.name = `${code} (FileSystemError)`; }
	static FileNotFound(m) { return new FileSystemError(m, "FileNotFound"); }
	static FileExists(m) { return new FileSystemError(m, "FileExists"); }
	static FileNotADirectory(m) { return new FileSystemError(m, "FileNotADirectory"); }
	static FileIsADirectory(m) { return new FileSystemError(m, "FileIsADirectory"); }
	static NoPermissions(m) { return new FileSystemError(m, "NoPermissions"); }
	static Unavailable(m) { return new FileSystemError(m, "Unavailable"); }
}

// ---------------------------------------------------------------- the world
export class World {
	constructor(code, c, verbose) {
		this.code = code; this.c = c; this.verbose = verbose; this.win = !!c.win;
		this.rng = new Rng(c.seed); this.now = 0; this.steps = 0; this.h = 0x811c9dc5; this.choices = []; this.pending = []; this.timers = []; this.seq = 0;
		this.count = {}; this.fired = {}; this.log = []; this.errors = [];
		this.path = this.win ? path.win32 : path.posix;
		this.root = this.win ? "/c:" : "";
		this.Uri = uriClass(this);
		this.files = new Map(); // uri path -> null (directory) or Uint8Array
		this.mkdirs(this.root + "/ext/bundled/bin");
		this.user = { ...c.user }; this.workspace = { ...c.workspace }; this.folderCfg = new Map();
		this.trusted = c.trusted; this.which = c.which;
		this.clients = []; this.messages = []; this.channelText = ""; this.spawns = []; this.env = new Map(); this.envLog = []; this.answers = [...(c.answers || [])]; this.picks = [...(c.picks || [])]; this.procs = [...(c.procs || [])]; this.opened = []; this.changes = 0;
		this.commands = new Map(); this.unhandled = []; this.updates = []; this.writes = []; this.saves = []; this.views = new Map(); this.dialogs = []; this.zips = [];
		for (const [p, t] of Object.entries(c.tree || {})) { const full = this.root + "/" + p; this.mkdirs(path.posix.dirname(full)); if (t === null) this.mkdirs(full); else this.files.set(full, Buffer.from(t, "latin1")); }
		if (c.bundled) this.files.set(this.root + "/ext/bundled/bin/" + this.airName, Buffer.from("air"));
		this.folders = (c.folders || []).map((f) => f);
		this.emitters();
		this.docs = (c.docs || []).map((d) => this.document(d));
		this.folderList = this.folders.map((f, i) => this.folder(f, i));
		for (const [f, v] of Object.entries(c.folderCfg || {})) this.folderCfg.set(this.folderUri(f).toString(), { ...v });
		this.editors = []; this.active = undefined;
	}
	get airName() { return this.win ? "air.exe" : "air"; }
	fsPath(p) { return this.win ? p.replace(/^\/([A-Za-z]):/, (_, d) => d.toLowerCase() + ":").replace(/\//g, "\\") : p; }
	key(fsPath) { let p = String(fsPath); if (this.win) { p = p.replace(/\\/g, "/").replace(/^([A-Za-z]):/, (_, d) => "/" + d.toLowerCase() + ":"); } p = path.posix.normalize(p); return p.length > 1 ? p.replace(/\/$/, "") : p; }
	mkdirs(p) { const parts = p.split("/"); for (let i = 2; i <= parts.length; i++) { const d = parts.slice(0, i).join("/"); if (!this.files.has(d)) this.files.set(d, null); } }
	folderUri(f) { return this.Uri.parse("file://").with({ scheme: "file", path: this.root + "/" + f }); }
	folder(f, index) { return { uri: this.folderUri(f), name: f.split("/").pop(), index }; }
	note(s) { this.h = hash(this.h, s); this.log.push(`${this.now} ${s}`); if (this.verbose) console.log(`${String(this.now).padStart(6)} ${s}`); }
	// a decision: seeded, or taken from the recorded schedule
	choose(n) {
		if (n <= 1) return 0;
		const i = this.choices.length;
		const k = this.c.schedule ? (this.c.schedule[i] ?? 0) % n : this.rng.below(n);
		this.choices.push(k);
		return k;
	}
	fault(op, detail = "") {
		const n = (this.count[op] = (this.count[op] || 0) + 1);
		for (const f of this.c.faults || []) if (f.op === op && n >= f.nth && n < f.nth + (f.repeat || 1) && (!f.match || detail.includes(f.match))) { this.fired[`${op}/${f.kind}`] = (this.fired[`${op}/${f.kind}`] || 0) + 1; return f; }
		return null;
	}
	/** An operation of the outside world: completes when the scheduler says so. */
	later(label, fn, slow = 0, ms = 0) {
		return new Promise((resolve, reject) => {
			this.pending.push({ id: ++this.seq, label, hold: slow, until: this.now + ms, run: () => { try { resolve(fn()); } catch (e) { reject(e); } } });
		});
	}
	op(label, detail, ok, bad) {
		const f = this.fault(label, detail);
		return this.later(`${label} ${detail}`, () => { const t = f && f.kind !== "slow"; this.note(`done ${label} ${detail}${t ? " FAULT " + f.kind : ""}`); return t ? bad(f) : ok(); }, f && f.kind === "slow" ? f.arg || 10 : 0, (f && f.ms) || 0);
	}
	emitter(name) {
		const w = this;
		return new (class EventEmitter {
			constructor() { this.ls = []; this.event = (fn, self, subs) => { const l = { fn, self }; this.ls.push(l); const d = { dispose: () => { const i = this.ls.indexOf(l); if (i >= 0) this.ls.splice(i, 1); } }; if (subs) subs.push(d); return d; }; }
			fire(e) { for (const l of [...this.ls]) { try { const r = l.fn.call(l.self, e); if (r && r.then) r.then(undefined, (err) => w.errors.push(`listener ${name}: ${err}`)); } catch (err) { w.errors.push(`listener ${name}: ${err}`); } } }
			dispose() { this.ls = []; }
		})();
	}
	emitters() { for (const n of ["config", "activeEditor", "visible", "change", "open", "close", "folders", "trust", "save", "selection", "editorOptions"]) this["on_" + n] = this.emitter(n); }

	// ------------------------------------------------------------ documents
	document(d) {
		const w = this;
		const uri = d.uri.startsWith("file:") ? this.Uri.from({ scheme: "file", path: this.root + "/" + d.uri.slice(5) }) : this.Uri.parse(d.uri);
		return { uri, get fileName() { return uri.fsPath; }, languageId: d.lang || "r", version: 1, isClosed: !d.open, isDirty: !!d.open && !!d.dirty && ["file", "untitled"].includes(uri.scheme), isUntitled: uri.scheme === "untitled", eol: 1, lineCount: 1, getText: () => d.text || "", open: !!d.open,
			save() { w.saves.push(uri.toString()); return w.op("save", uri.toString(), () => { this.isDirty = false; return true; }, (f) => { if (f.kind === "false") return false; throw new Error("cannot save"); }); } };
	}
	// ------------------------------------------------------------ configuration
	coreDefaults = { "editor.tabSize": 4, "editor.insertSpaces": true, "editor.indentSize": "tabSize" };
	declared(key) { const p = this.code.pkg.contributes.configuration; const all = (Array.isArray(p) ? p : [p]).flatMap((x) => Object.entries(x.properties || {})); return all.find(([k]) => k === key)?.[1]; }
	levels(key, scope) {
		const folder = scope.uri && this.folderOf(scope.uri);
		const decl = this.declared(key);
		const app = decl && ["application", "machine"].includes(decl.scope), window = decl && (decl.scope ?? "window") === "window";
		const lang = scope.languageId && `[${scope.languageId}]`;
		const pick = (o) => (o && key in o ? o[key] : undefined);
		const pickLang = (o) => (lang && o && o[lang] && key in o[lang] ? o[lang][key] : undefined);
		const none = {};
		const f = folder && !app && !window ? this.folderCfg.get(folder.uri.toString()) || none : none, ws = app ? none : this.workspace;
		return { key, defaultValue: decl ? decl.default : this.coreDefaults[key], globalValue: pick(this.user), workspaceValue: pick(ws), workspaceFolderValue: pick(f), globalLanguageValue: pickLang(this.user), workspaceLanguageValue: pickLang(ws), workspaceFolderLanguageValue: pickLang(f) };
	}
	/** The innermost workspace folder holding a URI. */
	/** whether a document selector (a string, a filter or a list of them) takes a document */
	selects(sel, d) {
		if (!sel) return false;
		if (Array.isArray(sel)) return sel.some((s) => this.selects(s, d));
		if (typeof sel === "string") return sel === "*" || sel === d.languageId;
		const nb = d.uri.scheme === "vscode-notebook-cell";
		if (sel.notebook !== undefined && !nb) return false;
		if (sel.language !== undefined && sel.language !== "*" && sel.language !== d.languageId) return false;
		if (sel.scheme !== undefined && sel.scheme !== "*" && sel.scheme !== d.uri.scheme) return false;
		if (sel.pattern !== undefined) {
			const g = typeof sel.pattern === "string" ? sel.pattern : `${(sel.pattern.baseUri ?? sel.pattern.base).path ?? sel.pattern.baseUri}/${sel.pattern.pattern}`;
			if (!new RegExp(`^${globRe(g)}$`).test(d.uri.path) && !new RegExp(`^${globRe(g)}$`).test(d.uri.fsPath)) return false;
		}
		return sel.notebook !== undefined || sel.language !== undefined || sel.scheme !== undefined || sel.pattern !== undefined;
	}
	folderOf(u) { let best; for (const f of this.folderList) if (u.scheme === f.uri.scheme && (u.path === f.uri.path || u.path.startsWith(f.uri.path + "/")) && (!best || f.uri.path.length > best.uri.path.length)) best = f; return best; }
	value(key, scope = {}) {
		const l = this.levels(key, scope);
		for (const k of ["workspaceFolderLanguageValue", "workspaceLanguageValue", "globalLanguageValue", "workspaceFolderValue", "workspaceValue", "globalValue", "defaultValue"]) if (l[k] !== undefined) return structuredClone(l[k]);
		return undefined;
	}
	configuration(section, scope) {
		const w = this;
		const s = !scope ? {} : scope instanceof this.Uri ? { uri: scope } : { uri: scope.uri, languageId: scope.languageId };
		const full = (k) => (section ? `${section}.${k}` : k);
		return {
			get: (k, dflt) => { const v = w.value(full(k), s); return v === undefined ? dflt : v; },
			has: (k) => w.value(full(k), s) !== undefined,
			inspect: (k) => structuredClone(w.levels(full(k), s)),
			update: (k, v, target, lang) => w.op("config.update", full(k), () => {
				const key = full(k);
				const folder = s.uri && w.folderOf(s.uri);
				let o;
				if (target === 3 || (target === undefined && folder)) { if (!folder) throw new Error("no folder to write settings of"); const id = folder.uri.toString(); if (!w.folderCfg.has(id)) w.folderCfg.set(id, {}); o = w.folderCfg.get(id); w.updates.push({ folder: id, key }); }
				else if (target === true || target === 1) { o = w.user; w.updates.push({ user: true, key }); } else { o = w.workspace; w.updates.push({ workspace: true, key }); }
				if (lang) { /* overrides for the scope's language */ const id = `[${s.languageId}]`; o[id] = { ...o[id] }; if (v === undefined) delete o[id][key]; else o[id][key] = structuredClone(v); } else if (v === undefined) delete o[key]; else o[key] = structuredClone(v);
				w.configChanged([key]);
			}, () => { throw new Error("Unable to write into settings"); }),
		};
	}
	configChanged(keys) { this.on_config.fire({ affectsConfiguration: (s) => keys.some((k) => k === s || k.startsWith(s + ".") || s.startsWith(k + ".") || (k.startsWith("[") && true)) }); }

	// ------------------------------------------------------------ files
	stat(p) { const v = this.files.get(p); if (v === undefined) throw FileSystemError.FileNotFound(p); return { type: v === null ? 2 : 1, ctime: 0, mtime: 0, size: v ? v.length : 0 }; }
	fsOp(label, uri, fn) { const p = this.key(uri.fsPath); return this.op(label, p, () => fn(p), (f) => { throw new FileSystemError(`${f.kind} ${p}`, f.kind); }); }
	vscodeFs() {
		const w = this;
		const needParent = (p) => { const d = path.posix.dirname(p); if (w.files.get(d) !== null && d !== "/" && d !== w.root) throw FileSystemError.FileNotFound(d); };
		return {
			stat: (u) => w.fsOp("fs.stat", u, (p) => w.stat(p)),
			readFile: (u) => w.fsOp("fs.readFile", u, (p) => { const v = w.files.get(p); if (v === undefined) throw FileSystemError.FileNotFound(p); if (v === null) throw FileSystemError.FileIsADirectory(p); return new Uint8Array(v); }),
			writeFile: (u, b) => { const copy = Buffer.from(b); return w.fsOp("fs.writeFile", u, (p) => { if (w.files.get(p) === null) throw FileSystemError.FileIsADirectory(p); w.mkdirs(path.posix.dirname(p)); w.files.set(p, copy); w.writes.push(p); }); },
			createDirectory: (u) => w.fsOp("fs.createDirectory", u, (p) => { if (w.files.get(p)) throw FileSystemError.FileExists(p); w.mkdirs(p); }),
			delete: (u, o) => w.fsOp("fs.delete", u, (p) => { w.stat(p); for (const k of [...w.files.keys()]) if (k === p || (k.startsWith(p + "/") && o?.recursive)) w.files.delete(k); w.writes.push(p); }),
			rename: (a, b, o) => w.fsOp("fs.rename", a, (p) => { const q = w.key(b.fsPath); if (w.files.has(q) && !o?.overwrite) throw FileSystemError.FileExists(q); w.files.set(q, w.files.get(p)); w.files.delete(p); w.writes.push(p, q); }),
			copy: (a, b, o) => w.fsOp("fs.copy", a, (p) => { const q = w.key(b.fsPath); if (w.files.has(q) && !o?.overwrite) throw FileSystemError.FileExists(q); needParent(q); w.files.set(q, w.files.get(p)); w.writes.push(q); }),
			readDirectory: (u) => w.fsOp("fs.readDirectory", u, (p) => { w.stat(p); return [...w.files.entries()].filter(([k]) => path.posix.dirname(k) === p).map(([k, v]) => [path.posix.basename(k), v === null ? 2 : 1]); }),
			isWritableFileSystem: () => true,
		};
	}
	exists(p) { return this.files.has(this.key(p)); }
	nodeFs() {
		const w = this;
		const nope = (p) => Object.assign(new Error(`ENOENT: no such file or directory, '${p}'`), { code: "ENOENT" });
		const st = (p) => { const v = w.files.get(w.key(p)); if (v === undefined) throw nope(p); return { isFile: () => v !== null, isDirectory: () => v === null, size: v ? v.length : 0 }; };
		const promises = { access: (p) => w.later(`access ${p}`, () => { if (!w.exists(p)) throw nope(p); }), stat: (p) => w.later(`stat ${p}`, () => st(p)), lstat: (p) => w.later(`stat ${p}`, () => st(p)) };
		return { existsSync: (p) => w.exists(p), statSync: (p, o) => { try { return st(p); } catch (e) { if (o?.throwIfNoEntry === false) return undefined; throw e; } }, accessSync: (p) => { if (!w.exists(p)) throw nope(p); }, constants: { F_OK: 0, R_OK: 4, W_OK: 2, X_OK: 1 }, promises };
	}

	// ------------------------------------------------------------ modules
	// documents whose text the extension provides: asked for when one is opened and whenever the extension says that it changed; the newest answer stays
	async provide(u) {
		const v = this.views.get(String(u)), k = ++v.asked;
		let text;
		try { text = await this.providers[u.scheme].provideTextDocumentContent(u, { isCancellationRequested: false, onCancellationRequested: () => ({ dispose() {} }) }); } catch (e) { v.failed = k; this.note(`view ${u} fails: ${e}`); throw e; }
		if (k > v.answered) { v.answered = k; v.text = text; v.texts.push({ text, at: this.steps ?? 0 }); this.note(`view ${u} ${JSON.stringify(text)}`); }
	}
	async openView(u) {
		const id = String(u);
		if (!this.views.has(id)) { const v = { uri: u, open: false, shown: false, text: undefined, texts: [], asked: 0, answered: 0, failed: 0 }; v.doc = { uri: u, languageId: "plaintext", version: 1, getText: () => v.text ?? "", isClosed: false, isDirty: false, isUntitled: false, fileName: u.fsPath }; this.views.set(id, v); v.opening = this.provide(u).then(() => { v.open = true; }, (e) => { this.views.delete(id); throw e; }); }
		await this.views.get(id).opening;
		return this.op("openTextDocument", id, () => this.views.get(id).doc, () => { throw new Error("cannot open"); });
	}
	refreshView(u) { if (this.views.get(String(u))?.open) this.provide(u).catch(() => {}); }
	viewText(kind, uri, position, version) { return JSON.stringify([kind, uri, position, version, "é日𝒳\n"]); }
	/** The server's answer: it knows the changes that the client has sent by now. */
	viewFile(p) {
		const d = this.docs.find((x) => x.uri.toString() === p?.textDocument?.uri);
		this.viewed?.(p, d);
		return this.viewText(p?.kind, p?.textDocument?.uri, p?.position, d && Math.max(1, ...(d.edits || []).filter((e) => e.at <= this.now).map((e) => e.version)));
	}
	/** Where to save a file: the user names a place of its own for every dialog, or dismisses it. */
	saveDialog() {
		const n = this.dialogs.length, d = { n, place: undefined, over: false, at: this.steps ?? 0 };
		this.dialogs.push(d);
		this.note(`save dialog ${n}`);
		return this.op("saveDialog", String(n), () => { d.over = true; const to = (this.c.places || [])[n] ?? "yes"; if (to === "dismiss") return undefined; const u = this.Uri.from({ scheme: "file", path: `${this.root}/${to === "odd" ? "o ut é" : "out"}/z${n}.zip` }); d.place = u.fsPath; return u; }, () => { d.over = true; return undefined; });
	}
	/** The archive library: entries by name, and writing that succeeds at once or throws. */
	zip() {
		const w = this;
		const write = (z, p) => { const f = w.fault("writeZip", p), t = f && f.kind !== "slow"; w.note(`write ${p} ${[...z.entries.keys()]}${t ? " FAULT" : ""}`); w.zips.push({ place: p, entries: new Map(z.entries), failed: !!t, at: w.steps ?? 0, settled: w.saved }); if (t) throw new Error("ENOSPC: no space left on device"); return true; };
		return class AdmZip {
			constructor() { this.entries = new Map(); }
			addFile(name, data) { this.entries.set(name, Buffer.from(data ?? "").toString("utf8")); }
			writeZip(p, done) { if (typeof done !== "function") return write(this, p); let e = null; try { write(this, p); } catch (x) { e = x; } w.later(`write ${p}`, () => done(e, "")); }
			writeZipPromise(p) { return w.later(`write ${p}`, () => write(this, p)); }
			getEntries() { return [...this.entries.keys()].map((entryName) => ({ entryName, name: entryName })); }
		};
	}
	vscode() {
		if (this.api) return this.api;
		const w = this, Uri = this.Uri;
		const say = (kind) => (text, ...rest) => {
			const items = rest.filter((x) => typeof x === "string" || (x && typeof x === "object" && "title" in x));
			w.note(`message ${kind} ${text}`);
			const m = { kind, text, items, answer: undefined, at: w.seq };
			w.messages.push(m);
			return w.op("message", kind, () => {
				const want = items.length ? w.answers.shift() ?? "yes" : "dismiss";
				const title = (x) => (typeof x === "string" ? x : x.title);
				m.answer = want === "dismiss" ? undefined : want === "yes" ? items[0] : items.find((x) => title(x) === "No") ?? items[1];
				return m.answer;
			}, () => undefined);
		};
		const pick = async (items) => {
			const list = await items;
			return w.op("pick", `${list.length}`, () => { const k = w.picks.shift() ?? 0; if (k < 0) return undefined; w.picked = k % list.length; return list[k % list.length]; }, () => undefined);
		};
		const channel = () => { const add = (s) => { w.channelText += s; }; const line = (s) => add(s + "\n"); return { name: "c", append: add, appendLine: line, replace: add, clear() {}, show() { w.shown = (w.shown || 0) + 1; }, hide() {}, dispose() {}, info: (...a) => line(util.format(...a)), warn: (...a) => line(util.format(...a)), error: (...a) => line(util.format(...a)), debug: (...a) => line(util.format(...a)), trace: (...a) => line(util.format(...a)), logLevel: 3, onDidChangeLogLevel: () => ({ dispose() {} }) }; };
		const nop = () => ({ dispose() {} });
		return (this.api = {
			Uri, FileSystemError, version: "1.99.0",
			EventEmitter: class { constructor() { return w.emitter("extension"); } },
			Disposable: class Disposable { constructor(f) { this.f = f; } dispose() { this.f?.(); } static from(...d) { return { dispose() { for (const x of d) x.dispose(); } }; } },
			Position: class { constructor(l, c) { this.line = l; this.character = c; } }, Range: class { constructor(a, b) { this.start = a; this.end = b; } }, Selection: class {},
			CancellationTokenSource: class { constructor() { this.token = { isCancellationRequested: false, onCancellationRequested: nop }; } cancel() { this.token.isCancellationRequested = true; } dispose() {} },
			RelativePattern: class { constructor(b, p) { this.base = b; this.pattern = p; } },
			ConfigurationTarget: { Global: 1, Workspace: 2, WorkspaceFolder: 3 }, FileType: { Unknown: 0, File: 1, Directory: 2, SymbolicLink: 64 }, ViewColumn: { Active: -1, Beside: -2, One: 1, Two: 2 }, EndOfLine: { LF: 1, CRLF: 2 }, ProgressLocation: { SourceControl: 1, Window: 10, Notification: 15 }, ExtensionMode: { Production: 1, Development: 2, Test: 3 }, StatusBarAlignment: { Left: 1, Right: 2 }, LogLevel: { Off: 0, Trace: 1, Debug: 2, Info: 3, Warning: 4, Error: 5 },
			workspace: {
				get isTrusted() { return w.trusted; }, get workspaceFolders() { return w.folderList.length ? w.folderList : undefined; }, get rootPath() { return w.folderList[0]?.uri.fsPath; }, get name() { return w.folderList[0]?.name; },
				get textDocuments() { return [...w.docs.filter((d) => d.open), ...[...w.views.values()].filter((v) => v.open).map((v) => v.doc)]; },
				getConfiguration: (s, scope) => w.configuration(s, scope), fs: this.vscodeFs(),
				getWorkspaceFolder: (u) => w.folderOf(u), asRelativePath: (u) => (typeof u === "string" ? u : u.path),
				openTextDocument: (u) => { w.opened.push(String(u)); w.note(`openTextDocument ${u}`); if (w.providers?.[u.scheme]) return w.openView(u); return w.op("openTextDocument", String(u), () => w.docs.find((d) => d.uri.toString() === u.toString()) || { uri: u, languageId: "plaintext", getText: () => "", isClosed: false, fileName: u.fsPath }, () => { throw new Error("cannot open"); }); },
				registerTextDocumentContentProvider: (scheme, p) => { w.providers = { ...w.providers, [scheme]: p }; p.onDidChange?.((u) => w.refreshView(u)); return nop(); },
				saveAll: () => Promise.all(w.docs.filter((d) => d.open && d.isDirty && !d.isUntitled).map((d) => d.save())).then((r) => r.every((x) => x)),
				onDidChangeConfiguration: this.on_config.event, onDidChangeTextDocument: this.on_change.event, onDidOpenTextDocument: this.on_open.event, onDidCloseTextDocument: this.on_close.event, onDidChangeWorkspaceFolders: this.on_folders.event, onDidGrantWorkspaceTrust: this.on_trust.event, onDidSaveTextDocument: this.on_save.event, createFileSystemWatcher: () => ({ onDidChange: nop, onDidCreate: nop, onDidDelete: nop, dispose() {} }),
			},
			window: {
				get activeTextEditor() { return w.active; }, get visibleTextEditors() { return w.editors; }, showInformationMessage: say("info"), showWarningMessage: say("warning"), showErrorMessage: say("error"), showQuickPick: pick,
				showWorkspaceFolderPick: () => pick(w.folderList), createOutputChannel: channel, showSaveDialog: () => w.saveDialog(), showTextDocument: (d) => w.op("showTextDocument", String(d.uri), () => { const v = w.views.get(String(d.uri)); if (v) v.shown = true; return { document: d, options: {} }; }, () => { throw new Error("cannot show"); }),
				withProgress: (_o, task) => Promise.resolve(task({ report() {} }, { isCancellationRequested: false, onCancellationRequested: nop })), setStatusBarMessage: nop, createStatusBarItem: () => ({ show() {}, hide() {}, dispose() {} }),
				onDidChangeActiveTextEditor: this.on_activeEditor.event, onDidChangeVisibleTextEditors: this.on_visible.event, onDidChangeTextEditorSelection: this.on_selection.event, onDidChangeTextEditorOptions: this.on_editorOptions.event,
			},
			commands: {
				registerCommand: (n, f, self) => { if (w.commands.has(n)) throw new Error(`command '${n}' already exists`); w.commands.set(n, (...a) => f.apply(self, a)); return { dispose: () => w.commands.delete(n) }; },
				executeCommand: async (n, ...a) => { const f = w.commands.get(n); if (!f) throw new Error(`command '${n}' not found`); return f(...a); }, getCommands: async () => [...w.commands.keys()],
			},
			env: { appName: "Visual Studio Code", shell: "/bin/sh", openExternal: async () => true }, extensions: { getExtension: () => undefined, all: [] }, languages: {}, l10n: { t: (s) => s },
		});
	}
	languageclient() {
		if (this.lc) return this.lc;
		const w = this;
		class ResponseError extends Error { constructor(code, m, data) { super(m); this.code = code; this.data = data; } }
		const kind = (m) => (typeof m === "string" ? m : m.method);
		class Type { constructor(m) { this.method = m; } }
		class LanguageClient {
			constructor(id, name, so, co) {
				if (typeof name !== "string") { co = so; so = name; name = id; }
				Object.assign(this, { id, name, so, co, n: w.clients.length, phase: "initial", handlers: {}, held: new Set() });
				const run = so?.run ?? so;
				this.command = typeof run === "function" ? "<function>" : run?.command; this.args = typeof run === "function" ? [] : run?.args;
				w.clients.push(this);
				w.note(`client ${this.n} new`);
				this.code2ProtocolConverter = { asTextDocumentIdentifier: (d) => ({ uri: d.uri.toString() }), asPosition: (p) => p, asUri: (u) => u.toString() };
				this.protocol2CodeConverter = { asUri: (s) => w.Uri.parse(s) };
				this.stateEmitter = w.emitter("client"); this.onDidChangeState = this.stateEmitter.event;
			}
			get state() { return this.phase === "running" ? 2 : this.phase === "starting" ? 3 : 1; }
			get outputChannel() { return this.co?.outputChannel; }
			isRunning() { return this.phase === "running"; }
			needsStart() { return ["initial", "stopping", "stopped"].includes(this.phase); }
			needsStop() { return ["starting", "running"].includes(this.phase); }
			// The documents this client has told its server about.
			opened(d) { if (this.phase !== "running" || !d.open || this.held.has(d) || !w.selects(this.co?.documentSelector, d)) return; const next = async () => { this.held.add(d); }; const m = this.co?.middleware?.didOpen; void (m ? Promise.resolve().then(() => m(d, next)).catch(() => {}) : next()); }
			closed(d) { if (!this.held.has(d)) return; const next = async () => { this.held.delete(d); }; const m = this.co?.middleware?.didClose; void (m ? Promise.resolve().then(() => m(d, next)).catch(() => {}) : next()); }
			set(p) { const a = this.state; this.phase = p; this.held = new Set(); if (p === "running") for (const d of w.docs) this.opened(d); w.note(`client ${this.n} ${p}`); w.event({ t: "client", n: this.n, p }); if (a !== this.state) this.stateEmitter.fire({ oldState: a, newState: this.state }); }
			start() {
				if (this.starting && (this.phase === "starting" || this.phase === "running")) return this.starting;
				const io = this.co?.initializationOptions; w.event({ t: "start", n: this.n, command: this.command, args: this.args, init: structuredClone(typeof io === "function" ? io() : io) });
				this.set("starting");
				return (this.starting = w.op("client.start", `${this.n}`, () => { this.set("running"); }, (f) => { this.failed = true; this.set("failed"); throw new Error(`start failed ${f.kind}`); }));
			}
			stop(timeout = 2000) {
				if (this.phase === "stopped" || this.phase === "initial") { w.event({ t: "stop", n: this.n }); return Promise.resolve(); }
				if (this.phase === "stopping") return this.stopping;
				if (this.phase !== "running") return Promise.reject(new Error(`Client is not running and can't be stopped. It's current state is: ${this.phase}`));
				void timeout;
				w.event({ t: "stop", n: this.n });
				this.set("stopping");
				return (this.stopping = w.op("client.stop", `${this.n}`, () => { this.set("stopped"); }, (f) => { this.set("stopped"); throw new Error(`Stopping the server timed out ${f.kind}`); }));
			}
			async restart() { await this.stop(); await this.start(); }
			dispose(timeout) { return this.stop(timeout); }
			onNotification(m, h) { const k = kind(m); (this.handlers[k] ??= []).push(h); return { dispose: () => { this.handlers[k] = this.handlers[k].filter((x) => x !== h); } }; }
			onRequest(m, h) { this.handlers[kind(m)] = [h]; return { dispose() {} }; }
			sendNotification() { return Promise.resolve(); }
			sendRequest(m, p) { w.note(`request ${kind(m)}`); w.requests = [...(w.requests || []), { m: kind(m), p }]; if (this.phase !== "running") return Promise.reject(new Error("Client is not running")); const answer = kind(m) === "air/viewFile" ? w.viewFile(p) : "answer"; return w.op("request", kind(m), () => answer, () => { throw new ResponseError(-32603, "failed"); }); }
			registerFeature() {} setTrace() { return Promise.resolve(); } error() {} info() {} warn() {}
		}
		return (this.lc = { LanguageClient, NotificationType: Type, NotificationType0: Type, RequestType: Type, RequestType0: Type, ResponseError, State: { Stopped: 1, Starting: 3, Running: 2 }, TransportKind: { stdio: 0, ipc: 1, pipe: 2, socket: 3 }, RevealOutputChannelOn: { Info: 1, Warn: 2, Error: 3, Never: 4 }, CloseAction: { DoNotRestart: 1, Restart: 2 }, ErrorAction: { Continue: 1, Shutdown: 2 }, Trace: { Off: 0, Messages: 1, Verbose: 3 }, ErrorCodes: { InternalError: -32603 } });
	}
	event(e) { e.step = this.steps; this.onEvent?.(e); }
	pqueue() {
		// the documented behaviour of p-queue: first in, first out among equal priorities, at most `concurrency` at once
		class PQueue {
			constructor(o = {}) { this.concurrency = o.concurrency ?? Infinity; this.running = 0; this.q = []; this.isPaused = o.autoStart === false; this.idle = []; if (!(this.concurrency >= 1)) throw new TypeError("concurrency"); }
			add(fn, o = {}) { return new Promise((resolve, reject) => { const e = { p: o.priority ?? 0, run: async () => { this.running++; try { resolve(await fn({ signal: o.signal })); } catch (x) { reject(x); } this.running--; this.pump(); } }; const i = this.q.findIndex((x) => x.p < e.p); if (i < 0) this.q.push(e); else this.q.splice(i, 0, e); this.pump(); }); }
			addAll(fs, o) { return Promise.all(fs.map((f) => this.add(f, o))); }
			pump() { while (!this.isPaused && this.running < this.concurrency && this.q.length) void this.q.shift().run(); if (!this.q.length && !this.running) { for (const f of this.idle.splice(0)) f(); } }
			start() { this.isPaused = false; this.pump(); return this; } pause() { this.isPaused = true; } clear() { this.q = []; }
			onIdle() { return !this.q.length && !this.running ? Promise.resolve() : new Promise((r) => this.idle.push(r)); } onEmpty() { return this.onIdle(); }
			get size() { return this.q.length; } get pending() { return this.running; }
			on() { return this; } off() { return this; }
		}
		return { __esModule: true, default: PQueue };
	}
	spawn(command, args, opts) {
		const w = this;
		if (!Array.isArray(args)) { opts = args; args = []; }
		const plan = this.procs.shift() || { events: [["exit", 0, null], ["close", 0, null]] };
		const dirty = this.docs.filter((d) => d.open && d.isDirty && !d.isUntitled).map((d) => d.uri.toString());
		const s = { command, args: [...args], cwd: opts?.cwd, shell: !!opts?.shell, dirty, plan, done: false };
		this.spawns.push(s);
		this.note(`spawn ${command} ${args.join(" ")}`);
		if (plan.throws) { this.fired["spawn/throws"] = (this.fired["spawn/throws"] || 0) + 1; throw Object.assign(new Error("spawn E2BIG"), { code: "E2BIG" }); }
		const mk = () => { const ls = {}; return { ls, on(n, f) { (ls[n] ??= []).push(f); return this; }, once(n, f) { return this.on(n, f); }, addListener(n, f) { return this.on(n, f); }, off() { return this; }, removeListener() { return this; }, removeAllListeners() { return this; }, emit(n, ...a) { for (const f of ls[n] || []) f(...a); return !!ls[n]; } }; };
		const stream = () => { const e = mk(); let d = null; return Object.assign(e, { setEncoding(x) { d = new StringDecoder(x); return this; }, resume() { return this; }, pause() { return this; }, push(b) { const v = d ? d.write(b) : b; if (!d || v) this.emit("data", v); }, finish() { if (d) { const r = d.end(); if (r) this.emit("data", r); } this.emit("end"); this.emit("close"); } }); };
		const p = Object.assign(mk(), { stdout: stream(), stderr: stream(), stdin: { write() {}, end() {}, on() {} }, pid: 42, exitCode: null, signalCode: null, kill() { return true; } });
		const step = (i) => {
			if (i >= plan.events.length) { s.done = true; return; }
			const e = plan.events[i];
			w.pending.push({ id: ++w.seq, label: `process ${e[0]}`, hold: 0, run: () => {
				w.note(`process ${JSON.stringify(e).slice(0, 80)}`);
				if (e[0] === "stdout" || e[0] === "stderr") p[e[0]].push(Buffer.from(e[1], "latin1"));
				else if (e[0] === "error") { w.fired["spawn/error"] = (w.fired["spawn/error"] || 0) + 1; s.error = e[1]; if (!p.emit("error", Object.assign(new Error(e[1]), { code: "ENOENT" }))) w.errors.push(`uncaught error event: ${e[1]}`); }
				else { if (e[0] === "close") { p.stdout.finish(); p.stderr.finish(); } else if (e[1] !== 0) w.fired[`spawn/exit-${e[2] || "status"}`] = (w.fired[`spawn/exit-${e[2] || "status"}`] || 0) + 1; p.exitCode = e[1]; p.signalCode = e[2]; p.emit(e[0], e[1], e[2]); }
				step(i + 1);
			} });
		};
		step(0);
		return p;
	}
	require(name) {
		const n = name.replace(/^node:/, "");
		switch (n) {
			case "vscode": return this.vscode();
			case "vscode-languageclient": case "vscode-languageclient/node": return this.languageclient();
			case "p-queue": return this.pqueue();
			case "fs-extra": return { ...this.nodeFs(), pathExists: (p) => this.later(`pathExists ${p}`, () => this.exists(p)), pathExistsSync: (p) => this.exists(p) };
			case "fs": return this.nodeFs();
			case "fs/promises": return this.nodeFs().promises;
			case "which": { const f = (_n, o = {}) => this.op("which", _n, () => { if (this.which) return this.which; if (o.nothrow) return null; throw new Error(`not found: ${_n}`); }, () => { throw new Error("which failed"); }); f.sync = (_n, o = {}) => { if (this.which) return this.which; if (o.nothrow) return null; throw new Error("not found"); }; return f; }
			case "adm-zip": return this.zip();
			case "child_process": return { spawn: (...a) => this.spawn(...a) };
			case "path": return this.path; case "path/posix": return path.posix; case "path/win32": return path.win32;
			case "url": return { ...url, fileURLToPath: (u) => url.fileURLToPath(u, { windows: this.win }), pathToFileURL: (p) => url.pathToFileURL(p, { windows: this.win }) };
			case "os": return { EOL: this.win ? "\r\n" : "\n", platform: () => (this.win ? "win32" : "linux"), homedir: () => "/home/u", tmpdir: () => "/tmp", type: () => "Linux" };
			case "timers": return { setTimeout: this.setTimeout, clearTimeout: this.clearTimeout }; case "timers/promises": return { setTimeout: (ms, v) => new Promise((r) => this.setTimeout(r, ms, v)) };
			default: if (PURE.has(n)) return require(n); throw new Error(`UNSIMULATED module ${name}`);
		}
	}
	setTimeout = (f, ms = 0, ...a) => { const t = { id: ++this.seq, due: this.now + (ms || 0), f: () => f(...a) }; this.timers.push(t); return t; };
	clearTimeout = (t) => { this.timers = this.timers.filter((x) => x !== t); };
	activate() {
		const w = this;
		const dirname = this.win ? "c:\\ext\\dist" : "/ext/dist";
		const module = { exports: {} };
		const SimDate = class extends Date { constructor(...a) { super(...(a.length ? a : [1.7e12 + w.now])); } static now() { return 1.7e12 + w.now; } };
		const nextTick = process.nextTick.bind(process);
		const env = {
			require: (n) => w.require(n), module, exports: module.exports, __dirname: dirname, __filename: dirname + "/extension.js",
			process: { platform: this.win ? "win32" : "linux", arch: "x64", cwd: () => w.fsPath(w.root + "/cwd"), env: {}, on() {}, once() {}, off() {}, nextTick, versions: process.versions, pid: 7, hrtime: process.hrtime, argv: [], exit() {} },
			setTimeout: this.setTimeout, clearTimeout: this.clearTimeout, setInterval: () => ({}), clearInterval() {}, setImmediate: (f, ...a) => w.setTimeout(f, 0, ...a), clearImmediate: this.clearTimeout, Date: SimDate, performance: { now: () => w.now }, console: { log() {}, error() {}, warn() {}, info() {}, debug() {} },
		};
		this.code.make(...this.code.args.map((a) => env[a]));
		this.ext = module.exports;
		const col = {
			set persistent(v) { w.persistent = v; w.note(`persistent ${v}`); }, get persistent() { return w.persistent ?? true; }, description: "",
			mut(type, k, v) { if (w.persistent !== false) w.persisted = true; w.env.set(k, { type, value: v }); w.note(`env ${type} ${k} ${v}`); },
			prepend(k, v, o) { this.mut("prepend", k, v, o); }, append(k, v) { this.mut("append", k, v); }, replace(k, v) { this.mut("replace", k, v); }, delete(k) { w.env.delete(k); w.note(`env delete ${k}`); }, clear() { w.env.clear(); w.note("env clear"); }, get: (k) => w.env.get(k), forEach(f) { w.env.forEach((v, k) => f(k, v, col)); }, getScoped: () => col, [Symbol.iterator]: () => w.env[Symbol.iterator](),
		};
		this.context = { subscriptions: [], environmentVariableCollection: col, extensionUri: this.Uri.from({ scheme: "file", path: this.root + "/ext" }), extensionPath: this.fsPath(this.root + "/ext"), asAbsolutePath: (p) => this.path.join(this.fsPath(this.root + "/ext"), p), globalState: { get() {}, update: async () => {} }, workspaceState: { get() {}, update: async () => {} }, extensionMode: 1, extension: { id: "Posit.air-vscode" } };
		this.exports = this.ext.activate(this.context);
	}
	/** Everything the program can do without the outside world. */
	async settleMicro() { await new Promise((r) => setImmediate(r)); }
	ready() { return this.pending.filter((p) => p.hold <= 0 && !(p.until > this.now)); }
	/** Lets one operation of the outside world complete or one timer expire. */
	fireOne() {
		const due = this.timers.filter((t) => t.due <= this.now);
		let list = this.ready();
		if (!list.length && !due.length) {
			// nothing but operations that take their time: time passes, or they are let go in turn
			const next = [...this.timers.map((t) => t.due), ...this.pending.map((p) => p.until)].filter((t) => t > this.now);
			if (next.length) { this.now = Math.min(...next); return true; }
			for (const p of this.pending) p.hold = 0;
			list = this.ready();
		}
		const k = this.choose(list.length + due.length || 1);
		if (k < due.length) { this.timers = this.timers.filter((t) => t !== due[k]); due[k].f(); return true; }
		const p = list[k - due.length];
		if (p) { this.pending = this.pending.filter((x) => x !== p); for (const x of this.pending) x.hold--; this.now += this.choose(4) * 7; p.run(); return true; }
		return false;
	}
}
