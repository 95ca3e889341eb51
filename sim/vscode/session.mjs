// One simulated session of the extension: what the user and the outside world do, and the judgement of what the extension did.
import path from "node:path";
import { World, Rng, hash } from "./world.mjs";

export const PROPS = ["V01", "V02", "V03", "V04", "V05", "V06", "V07", "V08", "V09", "V10", "V11"];
const FOLDERS = ["w", "w2", "w/sub", "v/w", "u p", "é"];
const VIEWS = { "air.viewTreeSitter": [["air-tree-sitter", "TreeSitter"]], "air.viewSyntaxTree": [["air-syntax-tree", "SyntaxTree"]], "air.viewFormatTree": [["air-format-tree", "FormatTree"]], "air.viewFileRepresentations": [["air-tree-sitter", "TreeSitter"], ["air-syntax-tree", "SyntaxTree"], ["air-format-tree", "FormatTree"]] };
const PATTERNS = ["^\\.vscode$", "^[.]?air[.]toml$"];
const SECTIONS = ["editor.insertSpaces", "editor.indentSize", "editor.tabSize", "air.logLevel", "editor.fontSize"];
const lifecycle = (a) => ["restart", "start", "stop", "deactivate"].includes(a.a);
const command = (a) => ["format", "init"].includes(a.a);
const quietly = (a) => ["settle", "env", "trust", "folders", "unsettle"].includes(a.a) || (a.a === "set" && (a.key.startsWith("air.executable") || /logLevel|LogLevels/.test(a.key)));

// ---------------------------------------------------------------- generation
function text8(r) { let s = ""; for (let i = r.below(5); i >= 0; i--) s += r.pick(["Error: é ", "failed\n", "𝒳 ", "x", "日本語\n", "\n", "a b\r\n"]); return Buffer.from(s, "utf8").toString("latin1"); }
function proc(r) {
	const ev = [];
	const data = () => { const b = text8(r); const n = r.pick([1, 2, 3, 1000]); const k = r.pick(["stderr", "stderr", "stdout"]); for (let i = 0; i < b.length; i += n) ev.push([k, b.slice(i, i + n)]); };
	if (r.chance(20)) return r.chance(25) ? { throws: true, events: [] } : { events: r.chance(50) ? [["error", "spawn air ENOENT"]] : [["error", "spawn air EACCES"], ["close", -13, null]] };
	for (let i = r.below(3); i > 0; i--) data();
	const [code, sig] = r.chance(50) ? [0, null] : r.chance(70) ? [r.pick([1, 2, 101, 255]), null] : [null, r.pick(["SIGKILL", "SIGTERM"])];
	ev.push(["exit", code, sig]);
	if (r.chance(50)) data();
	ev.push(["close", code, sig]);
	return { events: ev };
}
const FAULTS = {
	V01: [["client.start", ["error", "slow"]], ["client.stop", ["error", "slow"]], ["which", ["slow"]]], V02: [["client.start", ["error", "slow"]], ["client.stop", ["error", "slow"]], ["which", ["slow"]]], V03: [["next", ["slow"]]], V05: [],
	V04: [["fs.stat", ["NoPermissions", "Unavailable", "Unknown"]], ["fs.writeFile", ["NoPermissions", "Unavailable", "Unknown"]], ["fs.createDirectory", ["NoPermissions"]], ["fs.readFile", ["NoPermissions", "Unavailable"]], ["config.update", ["error"]], ["save", ["false", "error"]], ["message", ["dismiss"]], ["fs.stat", ["slow"]], ["fs.writeFile", ["slow"]]],
	V10: [["client.start", ["error", "slow"]], ["client.stop", ["error", "slow"]]],
	V11: [["request", ["error", "slow"]], ["openTextDocument", ["error"]], ["saveDialog", ["dismiss", "slow"]], ["saveDialog", ["slow"]], ["writeZip", ["error"]], ["writeZip", ["error"]], ["showTextDocument", ["slow"]]],
	V09: [["request", ["error", "slow"]], ["request", ["slow"]], ["client.start", ["error", "slow"]], ["openTextDocument", ["error"]], ["showTextDocument", ["slow"]]],
	V06: [["save", ["false", "error", "slow"]], ["message", ["dismiss", "slow"]], ["client.start", ["error"]], ["pick", ["dismiss"]]], V07: [["client.start", ["error"]], ["client.stop", ["error"]], ["which", ["slow"]]], V08: [["client.start", ["error", "slow"]], ["client.stop", ["error"]], ["which", ["slow"]]],
};
export function generate(prop, seed) {
	const r = new Rng(seed);
	const multi = r.chance(prop === "V06" || prop === "V04" ? 45 : 30);
	const folders = []; const nf = multi ? r.range(2, 3) : r.chance(8) ? 0 : 1;
	while (folders.length < nf) { const f = r.pick(FOLDERS); if (!folders.includes(f)) folders.push(f); }
	const tree = { cwd: null };
	for (const f of folders) if (r.chance(95)) tree[f] = null;
	const docs = [];
	const files = ["a.R", "b.r", "n.txt", "c d.R", "é.R", "sub/x.R", "R/100%.R", "..d/y.R", "...R"];
	for (let i = r.range(1, 5); i > 0; i--) {
		const base = r.chance(80) && folders.length ? r.pick(folders) : r.pick(FOLDERS);
		const uri = r.chance(82) ? `file:${base}/${r.pick(files)}` : r.pick(["untitled:Untitled-1", "git:/w/a.R?ref", `git:${r.chance(50) ? "" : "/c:"}/${base}/a.R?ref`, "vscode-notebook-cell:/w/n.qmd#W0", "untitled:/w/a.R"]);
		if (docs.some((d) => d.uri === uri)) continue;
		docs.push({ uri, lang: /\.[rR]|Untitled|W0/.test(uri) ? (r.chance(92) ? "r" : "plaintext") : "plaintext", open: r.chance(75), dirty: r.chance(prop === "V06" || prop === "V04" ? 50 : 10) });
	}
	const langs = () => { const o = {}; if (r.chance(55)) o["editor.insertSpaces"] = r.chance(50); if (r.chance(55)) o["editor.tabSize"] = r.pick([2, 3, 8]); if (r.chance(30)) o["editor.indentSize"] = r.pick([2, 5, "tabSize"]); return o; };
	const general = (ex) => { const o = langs(); if (r.chance(35)) o["[r]"] = langs(); if (r.chance(15)) o["[plaintext]"] = langs(); if (ex) { if (r.chance(35)) o["air.executableStrategy"] = r.pick(["bundled", "environment", "path", "environment", "path", "banana"]); if (r.chance(35)) o["air.executablePath"] = r.pick(["opt/air", "opt/missing", "w/evil", ""]); if (r.chance(25)) o["air.addExecutableToTerminalPath"] = r.chance(50); } if (r.chance(prop === "V08" ? 40 : 10)) o["air.logLevel"] = r.pick(["debug", "warning", "trace"]); if (prop === "V08" && r.chance(30)) o["air.dependencyLogLevels"] = r.pick(["warn", "air=debug"]); return o; };
	const win = r.chance(prop === "V05" ? 30 : 12);
	const ex = prop !== "V04" && prop !== "V05";
	tree["opt/air"] = "air"; if (r.chance(60)) tree["w/evil"] = "x";
	const c = { win, folders, tree, docs, user: general(ex), workspace: r.chance(50) ? general(ex) : {}, folderCfg: {}, trusted: r.chance(prop === "V07" ? 60 : 90), bundled: r.chance(prop === "V07" ? 70 : 94), which: r.chance(55) ? (win ? "c:\\bin\\air.exe" : "/usr/bin/air") : null, faults: [], script: [], eager: r.pick([5, 30, 60, 90]), seed: r.below(1e9), answers: [], picks: [], procs: [] };
	for (const o of [c.user, c.workspace]) if (typeof o["air.executablePath"] === "string" && o["air.executablePath"]) o["air.executablePath"] = win ? "c:\\" + o["air.executablePath"].replace(/\//g, "\\") : "/" + o["air.executablePath"];
	for (const f of folders) if (r.chance(30)) c.folderCfg[f] = general(false);
	for (let i = 0; i < 12; i++) { c.answers.push(r.pick(["yes", "yes", "yes", "no", "dismiss"])); c.picks.push(r.chance(88) ? r.below(4) : -1); c.procs.push(proc(r)); }
	for (const f of folders) {
		if (prop === "V04" || r.chance(20)) {
			const rb = () => { let s = ""; for (let i = r.below(4); i > 0; i--) s += r.pick(["^.*\\.Rproj$", "^\\.vscode$", "^[.]?air[.]toml$", "caf\xe9", "# x", "", "^\\.vscode", "^\\.vscode$ ", " ^[.]?air[.]toml$"]) + r.pick(["\n", "\n", "\r\n"]); if (r.chance(30)) s = s.replace(/\r?\n$/, ""); if (r.chance(6)) s = "\xef\xbb\xbf" + s; return s; };
			if (r.chance(25)) tree[`${f}/air.toml`] = "[format]\nline-width = 100\n"; if (r.chance(20)) tree[`${f}/.air.toml`] = "[format]\n";
			if (r.chance(30)) tree[`${f}/.vscode`] = null; if (r.chance(25)) tree[`${f}/.vscode/extensions.json`] = '{ "recommendations": ["x"] }\n'; if (r.chance(10)) tree[`${f}/.vscode/settings.json`] = "{}";
			if (r.chance(60)) tree[`${f}/.Rbuildignore`] = rb();
			if (r.chance(10)) tree[`${f}/DESCRIPTION`] = "Package: x\n";
			if (r.chance(50)) c.folderCfg[f] = { ...general(false), ...(r.chance(50) ? { "[r]": { "editor.formatOnSave": r.chance(50), "editor.rulers": [80], ...langs() } } : {}), ...(r.chance(30) ? { "[quarto]": { "editor.wordWrap": "on", "editor.defaultFormatter": "x.y" } } : {}), "files.eol": "\n" };
		}
	}
	for (let i = r.pick([0, 0, 1, 2, 3, 5]); i > 0 && FAULTS[prop].length; i--) { const [op, kinds] = r.pick(FAULTS[prop]); c.faults.push({ op, nth: r.range(1, r.pick([2, 5, 12])), repeat: r.pick([1, 1, 2, 99]), kind: r.pick(kinds), arg: r.range(1, 20), ...(r.chance(40) ? { ms: op === "client.stop" ? r.pick([300, 1900]) : r.pick([300, 1900, 6000, 61000]) } : {}), ...(op.startsWith("fs.") && r.chance(50) ? { match: r.pick(["air.toml", ".air.toml", "extensions.json", ".vscode", ".Rbuildignore"]) } : {}) }); }
	const W = { V01: { restart: 20, start: 20, stop: 20, settle: 4, crash: 4, set: 2, format: 2, env: 2 }, V02: { restart: 12, start: 10, stop: 12, settle: 3, setPath: 24, set: 4, env: 3, trust: 1, folders: 2 }, V10: { open: 20, close: 16, relang: 12, restart: 8, stop: 4, start: 5, settle: 4, edit: 4, activate: 4, crash: 2 }, V03: { pull: 30, open: 10, close: 14, activate: 2, set: 8, restart: 3, relang: 3 }, V04: { init: 16, settle: 4, set: 1, edit: 3, restart: 1 }, V05: { notify: 20, activate: 24, open: 3, close: 3, set: 4, restart: 2, usertab: 3 }, V06: { format: 20, edit: 10, settle: 3, restart: 5, stop: 2, open: 2, init: 2, folders: 1 }, V07: { restart: 14, start: 6, stop: 6, env: 12, trust: 3, set: 14, settle: 2, format: 2, folders: 2 }, V08: { restart: 14, start: 4, stop: 6, setLog: 24, settle: 3, set: 3, trust: 1, folders: 2, crash: 1 }, V09: { view: 14, edit: 24, activate: 18, open: 3, close: 3, settle: 6, restart: 2, stop: 1, start: 1 }, V11: { export: 16, view: 3, edit: 14, activate: 12, open: 3, close: 3, settle: 8, restart: 1, stop: 1, start: 1 } }[prop];
	const names = Object.keys(W), total = names.reduce((n, k) => n + W[k], 0);
	const setting = () => {
		const k = r.below(10), level = r.pick(["user", "workspace"]);
		if (prop === "V07" || (ex && k < 3)) { const key = r.pick(["air.executableStrategy", "air.executablePath"]); let v = key.endsWith("Path") ? r.pick(["opt/air", "opt/missing", "w/evil", undefined]) : r.pick(["bundled", "environment", "path", undefined, "banana"]); if (key.endsWith("Path") && v) v = win ? "c:\\" + v.replace(/\//g, "\\") : "/" + v; return { a: "set", level, key, value: v }; }
		return { a: "set", level, key: r.pick(["editor.tabSize", "editor.insertSpaces", "editor.indentSize"]), value: r.pick([2, 6, true, undefined]), lang: r.chance(50) ? "r" : undefined };
	};
	let n = r.range(2, prop === "V04" ? 5 : 14);
	while (n-- > 0) {
		let k = r.below(total), name = names[0];
		for (const x of names) { if (k < W[x]) { name = x; break; } k -= W[x]; }
		const doc = r.below(Math.max(1, docs.length));
		const a = { restart: () => ({ a: "restart" }), start: () => ({ a: "start" }), stop: () => ({ a: "stop" }), settle: () => ({ a: "settle" }), crash: () => ({ a: "crash" }), set: setting,
			setPath: () => ({ a: "set", level: r.pick(["user", "workspace", "workspace"]), key: "air.addExecutableToTerminalPath", value: r.pick([true, false, false, undefined]) }),
			setLog: () => ({ a: "set", level: r.pick(["user", "user", "workspace"]), ...(r.chance(50) ? { key: "air.logLevel", value: r.pick(["error", "warning", "info", "debug", "trace", undefined]) } : { key: "air.dependencyLogLevels", value: r.pick(["warn", "air=debug", "a=b,c=trace", "", undefined]) }) }),
			env: () => ({ a: "env", what: r.pick(["bundled", "which", "explicit", "evil"]), present: r.chance(50) }), trust: () => ({ a: "trust" }), folders: () => ({ a: "folders", list: folders.filter(() => r.chance(70)) }),
			open: () => ({ a: "open", doc }), close: () => ({ a: "close", doc }), relang: () => ({ a: "relang", doc, lang: r.pick(prop === "V10" ? ["r", "r", "plaintext", "quarto", "rmd"] : ["r", "plaintext"]) }), edit: () => ({ a: "edit", doc }), usertab: () => ({ a: "usertab", size: r.range(1, 8) }), activate: () => ({ a: "activate", doc: r.chance(88) ? doc : -1, col: r.below(3) }),
			notify: () => { const s = []; for (let i = 0; i < docs.length; i++) if (r.chance(60)) s.push({ doc: i, style: r.pick(["tab", "space"]), width: r.range(1, 8) }); return { a: "notify", files: s, raw: r.below(3) }; },
			pull: () => { const items = []; for (let i = r.range(0, 6); i > 0; i--) items.push({ section: r.chance(92) ? r.pick(SECTIONS) : undefined, doc: r.chance(75) ? r.below(Math.max(1, docs.length)) : r.chance(30) ? -2 : -1, raw: r.below(2) }); return { a: "pull", items, next: r.pick(["ok", "ok", "ok", "ok", "ok", "response_error", "reject"]) }; },
			view: () => ({ a: "view", kind: r.pick(Object.keys(VIEWS)) }), export: () => ({ a: "export" }), format: () => ({ a: "format" }), init: () => ({ a: "init" }) }[name]();
		c.script.push(a);
	}
	if (prop === "V09" && docs.length && r.chance(75)) c.script.unshift({ a: "activate", doc: r.below(docs.length), col: 0 }, { a: "settle" }, { a: "view", kind: r.pick(Object.keys(VIEWS)) });
	if (prop === "V11") { c.places = []; for (let i = 0; i < 8; i++) c.places.push(r.pick(["yes", "yes", "yes", "odd", "dismiss"])); if (docs.length && r.chance(90)) c.script.unshift({ a: "activate", doc: r.below(docs.length), col: 0 }, { a: "settle" }, ...(r.chance(60) ? [{ a: "export" }] : [])); }
	if (prop === "V04" && r.chance(70)) c.script.push({ a: "settle" }, { a: "init" });
	if (r.chance(prop === "V01" ? 30 : 4)) c.script.push({ a: "deactivate" });
	return c;
}
export function shrink(c) {
	const out = [];
	const put = (f) => { const d = structuredClone(c); delete d.schedule; f(d); if (JSON.stringify(d) !== JSON.stringify(c)) out.push(d); };
	const keep = (f) => { const d = structuredClone(c); f(d); if (JSON.stringify(d) !== JSON.stringify(c)) out.push(d); };
	for (let k = c.script.length >> 1; k >= 1; k >>= 1) for (let i = 0; i < c.script.length; i += k) put((d) => d.script.splice(i, k));
	for (let i = 0; i < c.faults.length; i++) { put((d) => d.faults.splice(i, 1)); put((d) => { d.faults[i].repeat = 1; }); put((d) => { delete d.faults[i].ms; }); }
	put((d) => { d.schedule = []; });
	if (c.schedule) { for (let k = c.schedule.length; k >= 1; k >>= 1) for (let i = 0; i < c.schedule.length; i += k) keep((d) => { d.schedule.fill(0, i, i + k); while (d.schedule.length && d.schedule.at(-1) === 0) d.schedule.pop(); }); }
	keep((d) => { d.win = false; }); put((d) => { d.workspace = {}; }); put((d) => { d.user = {}; }); put((d) => { d.folderCfg = {}; }); put((d) => { d.eager = 5; }); keep((d) => { d.trusted = true; }); keep((d) => { d.bundled = true; });
	for (const lv of ["user", "workspace"]) for (const k of Object.keys(c[lv])) keep((d) => { delete d[lv][k]; });
	for (const k of Object.keys(c.folderCfg)) for (const q of Object.keys(c.folderCfg[k])) keep((d) => { delete d.folderCfg[k][q]; });
	for (const k of Object.keys(c.tree)) keep((d) => { delete d.tree[k]; });
	for (let i = 0; i < c.docs.length; i++) { keep((d) => { d.docs[i].dirty = false; }); keep((d) => { d.docs[i].open = true; }); }
	c.script.forEach((a, i) => { if (a.items) for (let k = 0; k < a.items.length; k++) keep((d) => { d.script[i].items.splice(k, 1); }); if (a.files) for (let k = 0; k < a.files.length; k++) keep((d) => { d.script[i].files.splice(k, 1); }); });
	c.procs.forEach((p, i) => { if (i < 3 && p.events) for (let k = 0; k < p.events.length; k++) if (["stdout", "stderr"].includes(p.events[k][0])) keep((d) => { d.procs[i].events.splice(k, 1); }); });
	put((d) => { d.answers = []; }); if (c.places) put((d) => { d.places = []; }); put((d) => { d.picks = []; });
	return out;
}
export function pin(c, choices) { return { ...structuredClone(c), schedule: choices }; }

// ---------------------------------------------------------------- models
/** The executable that is to be started, or null when there is none. */
function resolve(w) {
	const bundled = w.fsPath(w.root + "/ext/bundled/bin/" + w.airName), there = w.exists(bundled);
	const folder = rootFolder(w);
	if (!w.trusted) return there ? bundled : null;
	const strategy = w.value("air.executableStrategy", { uri: folder.uri }), explicit = w.value("air.executablePath", { uri: folder.uri });
	switch (strategy ?? "bundled") {
		case "bundled": return there ? bundled : w.which;
		case "environment": return w.which || (there ? bundled : null);
		case "path": return explicit && w.exists(explicit) ? explicit : null;
		default: return null;
	}
}
function rootFolder(w) {
	const l = w.folderList;
	if (!l.length) return { uri: w.Uri.from({ scheme: "file", path: w.root + "/cwd" }) };
	let best = null;
	for (const f of l) if (w.exists(f.uri.fsPath) && (!best || f.uri.fsPath.length < best.uri.fsPath.length)) best = f;
	return best || l[0];
}
const under = (w, doc, folder) => doc.uri.scheme === "file" && doc.uri.path.startsWith(folder.uri.path + "/");
const show = (x) => JSON.stringify(x)?.slice(0, 300);

// ---------------------------------------------------------------- one run
export let unhandled = [];
process.on("unhandledRejection", (e) => unhandled.push(e));
export async function run(code, prop, c, verbose = false) {
	unhandled = [];
	const w = new World(code, c, verbose);
	const found = [];
	const counts = {};
	const count = (k, n = 1) => { counts[k] = (counts[k] || 0) + n; };
	const bad = (cls, detail) => { if (found.length < 20) found.push({ class: cls, detail: `${detail} (at ${w.now} ms, step ${w.steps})` }); if (verbose) console.log(`  !! ${cls}: ${detail}`); };
	const ops = [], trace = [];
	let active = null, nontrivial = false, recent = new Map(), listed = false, startFolder = null, stage = 0;
	const editors = new Map();
	// ---- lifecycle: at most one client, judged as it happens
	w.onEvent = (e) => {
		trace.push(e);
		const alive = w.clients.filter((x) => ["starting", "running", "stopping"].includes(x.phase) && !x.crashed).length + (e.t === "start" ? 1 : 0);
		if (e.t === "start") {
			nontrivial ||= ["V01", "V02", "V07", "V08"].includes(prop);
			if (alive > 1) bad("overlap", `client ${e.n} is started while another one is running`);
			const want = resolve(w);
			count("servers started");
			startFolder = rootFolder(w);
			if (e.command !== want) bad("executable", `${e.command} is started instead of ${want} (trusted ${w.trusted}, strategy ${w.value("air.executableStrategy", { uri: rootFolder(w).uri })})`);
			const log = { logLevel: w.user["air.logLevel"] ?? null, dependencyLogLevels: w.user["air.dependencyLogLevels"] ?? null };
			for (const k of Object.keys(log)) if ((e.init?.[k] ?? null) !== log[k]) bad("init-options", `the server is started with ${k} ${show(e.init?.[k])}, the user has set ${show(log[k])}`);
			if (JSON.stringify(e.args) !== '["language-server"]') bad("executable", `started with ${show(e.args)}`);
		}
	};
	let lsp;
	try { w.activate(); lsp = w.exports?.__private?.ctx?.lsp; } catch (e) { if (String(e).includes("UNSIMULATED")) throw e; bad("activate", `activation failed: ${e.stack}`); }
	if (lsp?.onStateChange) lsp.onStateChange((s) => { trace.push({ t: "state", state: s.state, binaryPath: s.binaryPath, step: w.steps }); w.note(`state ${s.state}`); });
	ops.push({ kind: "start", settled: undefined, first: true, want: null });
	const lifecycleOp = (kind, f) => {
		const o = { kind, settled: null, at: trace.length };
		ops.push(o);
		w.note(`do ${kind}`);
		let p;
		try { p = f(); } catch (e) { o.settled = "threw"; o.error = String(e); return; }
		if (!p || typeof p.then !== "function") { o.settled = undefined; o.noPromise = true; return; }
		p.then(() => { o.settled = "ok"; o.order = ++stage; o.where = trace.length; w.note(`${kind} ok`); }, (e) => { o.settled = "error"; o.error = String(e?.message ?? e); o.order = ++stage; o.where = trace.length; w.note(`${kind} failed: ${o.error}`); });
	};
	const call = (name) => w.api.commands.executeCommand(name);
	const servers = () => w.clients.filter((x) => x.phase === "running" || x.phase === "stopping").map((x) => x.command);
	// ---- commands
	const begin = (a) => {
		const name = a.a === "format" ? "air.workspaceFolderFormatting" : "air.workspaceFolderInitialization";
		const t = { a: a.a, done: false, messages: w.messages.length, spawns: w.spawns.length, text: w.channelText.length, saves: w.saves.length, files: new Map(w.files), cfg: structuredClone([...w.folderCfg]), global: JSON.stringify([w.user, w.workspace]), fired: { ...w.fired }, servers: new Set(servers()), docs: w.docs.map((d) => ({ uri: d.uri.toString(), dirty: d.open && d.isDirty && !d.isUntitled, d })), folders: [...w.folderList], edited: new Set(), picked: (w.picked = undefined), answers: w.answers.length };
		active = t;
		w.note(`do ${a.a}`);
		call(name).then(() => { t.done = true; t.ok = true; w.note(`${a.a} done`); }, (e) => { t.done = true; t.ok = false; t.error = String(e?.message ?? e); w.note(`${a.a} failed: ${t.error}`); });
	};
	let initDone = null;
	const finish = (t) => {
		const msgs = w.messages.slice(t.messages);
		const folder = t.folders.length === 1 ? t.folders[0] : t.folders.length && w.picked !== undefined ? t.folders[w.picked] : null;
		const fired = (p) => Object.entries(w.fired).some(([k, n]) => p.test(k) && n > (t.fired[k] || 0));
		const success = msgs.filter((m) => /success/i.test(m.text));
		const spawned = w.spawns.slice(t.spawns);
		const dirty = folder ? t.docs.filter((d) => d.dirty && under(w, d.d, folder)) : [];
		// the user agreed to save: the first answer that was offered
		const consent = msgs.some((m) => /save/i.test(m.text) && m.answer !== undefined && m.answer === m.items[0]);
		count(`${t.a} commands`);
		const others = w.saves.slice(t.saves).filter((u) => !folder || !w.docs.some((d) => d.uri.toString() === u && under(w, d, folder)));
		if (others.length) bad("saved-others", `${others} were saved although ${folder ? `the user was asked about ${folder.uri.fsPath}` : "no folder was chosen"}`);
		// --- formatting
		const ran = spawned.length;
		const formatted = success.filter((m) => /\bformatted\b/i.test(m.text));
		if (t.a === "format" || ran) {
			if (ran > 1) bad("spawn", `${ran} processes were started`);
			const s = spawned[0];
			if (s) {
				nontrivial ||= prop === "V06";
				if (!folder) bad("spawn", "a process was started although no folder was chosen");
				else {
					if (!t.servers.has(s.command)) bad("spawn", `${s.command} is run instead of the server's ${[...t.servers]}`);
					if (s.args[0] !== "format" || !s.args.includes(folder.uri.fsPath) || s.args.some((x) => t.folders.some((f) => f !== folder && f.uri.fsPath === x)) || s.shell) bad("spawn-folder", `ran ${show(s.args)} for the folder ${folder.uri.fsPath}`);
					if (s.cwd !== undefined && w.key(s.cwd) !== folder.uri.path) bad("spawn-folder", `ran in ${s.cwd} for the folder ${folder.uri.fsPath}`);
					const unsaved = s.dirty.filter((u) => dirty.some((d) => d.uri === u) && !t.edited.has(u));
					if (unsaved.length) bad("unsaved", `formatting started with unsaved documents: ${unsaved}`);
					if (dirty.length && !consent) bad("unsaved", "formatting started without the user's consent to save");
				}
			}
			const close = s?.plan.events.find((e) => e[0] === "close");
			const good = !!s && !s.plan.throws && !s.error && close && close[1] === 0;
			if (good !== formatted.length > 0) bad("report", good ? "a successful run is not reported as successful" : `success is reported although ${!s ? "nothing was run" : s.plan.throws || s.error ? "the process could not be started" : `it ended with ${close?.[1]} ${close?.[2]}`}`);
			if (s && !good && !s.plan.throws) {
				const err = Buffer.from(s.plan.events.filter((e) => e[0] === "stderr").map((e) => e[1]).join(""), "latin1").toString("utf8");
				const log = w.channelText.slice(t.text);
				if (!log.includes(s.error || err)) bad("report-log", `the error output is not in the log: ${show(err || s.error)} / ${show(log)}`);
			}
			if (s?.plan.throws && t.ok && !msgs.some((m) => /error/i.test(m.text))) bad("report", "a process that could not be started is not reported");
			if (!s && t.a === "format" && t.ok && folder && (!dirty.length || (consent && !fired(/^save\/(false|error)/))) && !t.edited.size && servers().length) bad("report", "nothing was run");
		}
		// --- initialisation
		if (t.a === "init") {
			const done = success.filter((m) => !formatted.includes(m));
			nontrivial ||= prop === "V04" && !!folder;
			const changed = [];
			for (const [p, b] of t.files) { const n = w.files.get(p); if (n === undefined) changed.push([p, "is gone"]); else if ((n === null) !== (b === null) || (n && !n.equals(b))) changed.push([p, n ? n.toString("latin1") : "a directory", b?.toString("latin1")]); }
			const added = [...w.files.keys()].filter((p) => !t.files.has(p));
			const base = folder?.uri.path;
			const saved = !dirty.length || (consent && !fired(/^save\/(false|error)/));
			const all = JSON.stringify([...w.folderCfg]);
			if (!folder || (!saved && !t.edited.size)) { if (changed.length || added.length || all !== JSON.stringify(t.cfg)) bad("unasked", `files or settings changed although ${folder ? "the editors were not saved" : "no folder was chosen"}: ${show(changed)} ${added}`); if (done.length) bad("report", "success is reported although nothing was done"); }
			if (!folder && !t.ok && !fired(/\/(?!slow)/)) bad("report", `no folder was chosen, but the command fails: ${t.error}`);
			if (folder) {
				for (const [p, n, b] of changed) {
					if (p !== `${base}/.Rbuildignore` || n === "is gone" || b === undefined) { bad("destroyed", `${p}, which the user had, now ${n === "is gone" ? n : "is " + show(n)}`); continue; }
					if (!n.startsWith(b)) { bad("destroyed", `.Rbuildignore was ${show(b)} and is now ${show(n)}`); continue; }
					const lines = b.split(/\r?\n/).map((x) => x.replace(/^\xef\xbb\xbf/, "")), extra = n.slice(b.length).split(/\r?\n/).filter((x) => x !== "");
					if (extra.some((x) => !PATTERNS.includes(x) || lines.includes(x)) || new Set(extra).size !== extra.length) bad("destroyed", `.Rbuildignore gained ${show(extra)}`);
					const open = b !== "" && b !== "\xef\xbb\xbf" && !b.endsWith("\n");
					if (n.slice(b.length).split(/\r?\n/).slice(open ? 1 : 0, -1).includes("")) bad("destroyed", `.Rbuildignore gained an empty line: ${show(n)}`);
					const crlf = /\r\n/, lf = /(^|[^\r])\n/, gain = n.slice(b.length);
					if ((crlf.test(b) && !lf.test(b) && lf.test(gain)) || (lf.test(b) && !crlf.test(b) && crlf.test(gain))) bad("destroyed", `.Rbuildignore has ${crlf.test(b) ? "CRLF" : "LF"} line endings throughout and gained ${show(gain)}`);
					if (b && b !== "\xef\xbb\xbf" && !b.endsWith("\n") && !/^\r?\n/.test(n.slice(b.length))) bad("destroyed", `the last line of .Rbuildignore became ${show(n.slice(b.lastIndexOf("\n") + 1))}`);
				}
				const had = (p) => t.files.has(`${base}/${p}`);
				for (const p of added) {
					const ok = (p === `${base}/air.toml` && !had("air.toml") && !had(".air.toml")) || p === `${base}/.vscode` || p === `${base}/.vscode/extensions.json` || base.startsWith(p + "/") || p === base;
					if (!ok) bad("unasked", `${p} was created`);
				}
				if (JSON.stringify([w.user, w.workspace]) !== t.global && !t.set) bad("unasked", "user or workspace settings were changed");
				const before = new Map(t.cfg);
				for (const [id, now] of w.folderCfg) {
					const was = before.get(id) || {};
					if (id !== folder.uri.toString()) { if (JSON.stringify(was) !== JSON.stringify(now)) bad("unasked", `settings of ${id} were changed`); continue; }
					const strip = (o) => { const x = structuredClone(o); for (const l of ["[r]", "[quarto]"]) { if (x[l]) { delete x[l]["editor.formatOnSave"]; delete x[l]["editor.defaultFormatter"]; if (!Object.keys(x[l]).length) delete x[l]; } } return JSON.stringify(x, Object.keys(x).sort().concat(...["[r]", "[quarto]"].map((l) => Object.keys(x[l] || {})))); };
					if (strip(was) !== strip(now)) bad("destroyed", `folder settings ${show(was)} became ${show(now)}`);
				}
				if (done.length) {
					const cfg = w.folderCfg.get(folder.uri.toString()) || {};
					const rb = w.files.get(`${base}/.Rbuildignore`);
					const miss = [];
					if (!w.files.has(`${base}/air.toml`) && !w.files.has(`${base}/.air.toml`)) miss.push("air.toml");
					if (!w.files.has(`${base}/.vscode/extensions.json`)) miss.push("extensions.json");
					if (cfg["[r]"]?.["editor.formatOnSave"] !== true || cfg["[r]"]?.["editor.defaultFormatter"] !== "Posit.air-vscode" || cfg["[quarto]"]?.["editor.formatOnSave"] !== true) miss.push("settings");
					if (rb) { const ls = rb.toString("latin1").replace(/^\xef\xbb\xbf/, "").split(/\r?\n/); if (PATTERNS.some((p) => !ls.includes(p))) miss.push(".Rbuildignore"); }
					if (miss.length) bad("report", `success is reported, but not done: ${miss}`);
					if (fired(/^(fs\.(writeFile|createDirectory|readFile)|config\.update)\/(?!slow)/)) bad("report", "success is reported although a step failed");
					if (done.length > 1) bad("report", "success is reported twice");
				} else if (saved && t.ok && !t.edited.size && servers().length && !fired(/\/(?!slow)/)) bad("report", "nothing failed, but no success is reported");
				if (!done.length && saved && !t.ok && !t.edited.size && servers().length && !fired(/\/(?!slow)/)) bad("report", `nothing failed, but the command fails: ${t.error}`);
				const state = JSON.stringify([[...w.files].map(([k, v]) => [k, v && v.toString("latin1")]), [...w.folderCfg]]);
				if (done.length) { if (initDone && initDone.folder === folder.uri.toString() && initDone.state === t.state && (changed.length || added.length || all !== JSON.stringify(t.cfg))) bad("again", `running it again changed ${show(changed)} ${added} or settings`); initDone = { folder: folder.uri.toString(), state: JSON.stringify([[...w.files].map(([k, v]) => [k, v && v.toString("latin1")]), [...w.folderCfg]]) }; }
				void state;
			}
		}
	};
	const told = (what, d) => { for (const k of w.clients) k[what](d); };
	// ---- actions
	const perform = (a) => {
		count(`action ${a.a}`);
		const d = a.doc >= 0 ? w.docs[a.doc % Math.max(1, w.docs.length)] : undefined;
		switch (a.a) {
			case "restart": return lifecycleOp("restart", () => call("air.restart"));
			case "start": return lsp?.start ? lifecycleOp("start", () => lsp.start()) : undefined;
			case "stop": return lsp?.stop ? lifecycleOp("stop", () => lsp.stop()) : undefined;
			case "deactivate": return lifecycleOp("deactivate", () => w.ext.deactivate());
			case "crash": { const k = w.clients.find((x) => x.phase === "running"); if (k) { w.note(`client ${k.n} crashes`); w.fired["server/crash"] = (w.fired["server/crash"] || 0) + 1; k.phase = "stopped"; k.crashed = true; } return; }
			case "set": { const o = a.level === "user" ? w.user : w.workspace; if (active) active.set = true; w.note(`set ${a.level} ${a.lang || ""} ${a.key} ${a.value}`); if (a.lang) { const id = `[${a.lang}]`; o[id] = { ...o[id] }; if (a.value === undefined) delete o[id][a.key]; else o[id][a.key] = a.value; } else if (a.value === undefined) delete o[a.key]; else o[a.key] = a.value; w.configChanged([a.key]); return; }
			case "env": { const set = (p) => { if (a.present) { w.mkdirs(path.posix.dirname(p)); w.files.set(p, Buffer.from("air")); } else w.files.delete(p); }; w.note(`env ${a.what} ${a.present}`); if (a.what === "bundled") set(`${w.root}/ext/bundled/bin/${w.airName}`); else if (a.what === "explicit") set(`${w.root}/opt/air`); else if (a.what === "evil") set(`${w.root}/w/evil`); else w.which = a.present ? (w.win ? "c:\\bin\\air.exe" : "/usr/bin/air") : null; return; }
			case "trust": if (!w.trusted) { w.note("trust"); w.trusted = true; w.on_trust.fire(); } return;
			case "folders": w.note(`folders ${a.list}`); w.folderList = a.list.map((f, i) => w.folderList.find((x) => x.uri.toString() === w.folderUri(f).toString()) || w.folder(f, i)); w.on_folders.fire({ added: [], removed: [] }); return;
			case "open": if (d && !d.open) { d.open = true; d.isClosed = false; w.note(`open ${d.uri}`); w.on_open.fire(d); told("opened", d); } return;
			case "close": if (d && d.open && w.active?.document !== d) { d.open = false; d.isClosed = true; w.note(`close ${d.uri}`); w.on_close.fire(d); told("closed", d); } return;
			case "relang": if (d) { w.note(`language ${d.uri} ${a.lang}`); if (d.open && d.languageId !== a.lang) { w.on_close.fire(d); told("closed", d); d.languageId = a.lang; w.on_open.fire(d); told("opened", d); } else d.languageId = a.lang; } return;
			case "edit": if (d && d.open && ["file", "untitled"].includes(d.uri.scheme)) { d.isDirty = true; active?.edited.add(d.uri.toString()); d.version++; (d.edits ??= []).push({ version: d.version, at: w.now + ((d.version * 7 + 3) % 10) }); w.note(`edit ${d.uri}`); if (isR(d)) trigger(); w.on_change.fire({ document: d, contentChanges: [{}] }); } return;
			case "usertab": if (w.active) { w.active.options = { ...w.active.options, tabSize: a.size }; seen(); } return;
			case "activate": {
				if (a.doc < 0 || !d) w.active = undefined;
				else { if (!d.open) { d.open = true; d.isClosed = false; w.on_open.fire(d); told("opened", d); } const id = `${a.col} ${d.uri}`; if (!editors.has(id)) { const e = { document: d, options: { tabSize: w.value("editor.tabSize", { uri: d.uri, languageId: d.languageId }), insertSpaces: w.value("editor.insertSpaces", { uri: d.uri, languageId: d.languageId }), indentSize: 4 }, selection: { active: { line: editors.size, character: a.col } }, viewColumn: a.col }; editors.set(id, e); w.editors.push(e); } w.active = editors.get(id); }
				w.note(`active ${w.active?.document.uri}`);
				prior = w.active && { ...w.active.options };
				w.on_activeEditor.fire(w.active);
				expectOptions();
				if (w.active && isR(w.active.document)) trigger();
				return;
			}
			case "view": {
				w.note(`do ${a.kind}`);
				const clean = !Object.keys(w.fired).some((k) => /^(openText|showText|request)/.test(k) && !k.endsWith("/slow"));
				const t = { kind: a.kind, client: running(), was: w.active };
				trigger();
				call(a.kind).then(() => { w.note(`${a.kind} done`); count("views shown"); for (const [scheme] of VIEWS[a.kind]) { const v = [...w.views.values()].find((x) => x.uri.scheme === scheme); if (!v?.shown) bad("view", `${a.kind} has ended, but no document of ${scheme} is shown`); else v.since = w.steps; } }, (e) => { w.note(`${a.kind} failed: ${e}`); if (clean && !Object.keys(w.fired).some((k) => /^(openText|showText|request)/.test(k) && !k.endsWith("/slow")) && ((t.client && running() === t.client) || (!t.was && !w.active))) bad("view", `${a.kind} failed: ${e}`); });
				return;
			}
			case "export": {
				const clean = () => !Object.keys(w.fired).some((k) => /^(openText|showText|request|writeZip)/.test(k) && !k.endsWith("/slow"));
				const was = clean(), client = running(), editor = w.active;
				exports.begun++;
				w.note("do export");
				trigger();
				call("air.saveFileRepresentations").then(() => {
					w.note("export done");
					count("exports ended");
					exports.ok++;
					// a dialog of its own is over, and what was to be written is written or its failure shown
					const shown = w.messages.some((m) => m.kind === "error");
					const over = w.dialogs.filter((x) => x.over && (x.place === undefined || w.zips.some((z) => z.place === x.place && (!z.failed || shown)))).length;
					if (exports.ok > over) bad("export", `${exports.ok} exports have ended well, but ${over} dialogs are over with their archive written: ${show(w.dialogs)}`);
				}, (e) => {
					w.note(`export failed: ${e}`);
					if (was && clean() && ((client && running() === client) || (!editor && !w.active))) bad("export", `nothing failed, but the export fails: ${e}`);
				});
				return;
			}
			case "notify": {
				const k = w.clients.find((x) => x.phase === "running");
				if (!k) return;
				const fs = a.files.filter((f) => f.doc < w.docs.length).map((f) => ({ f, u: w.docs[f.doc].uri })).filter((x) => x.u.scheme === "file" || x.u.scheme === "untitled");
				recent = new Map(fs.map(({ f, u }) => [u.toString(), f]));
				listed = true;
				// the server repeats the document's URI as the editor wrote it; other spellings are possible
				const spell = (u) => { const s = u.toString(); return u.scheme !== "file" || a.raw === 0 ? s : a.raw === 1 ? s.replace("%3A", ":") : s; };
				const params = { file_settings: fs.map(({ f, u }) => ({ url: spell(u), format: { indent_style: f.style, indent_width: f.width, line_width: 80 } })) };
				w.note(`notify ${show(params)}`);
				nontrivial ||= prop === "V05" && fs.length > 0;
				count("synchronisations");
				prior = w.active && { ...w.active.options };
				for (const h of k.handlers["air/syncFileSettings"] || []) h(params);
				expectOptions();
				return;
			}
			case "pull": {
				const k = w.clients.find((x) => x.phase === "running");
				if (!k) return;
				const items = a.items.map((it) => { const o = {}; if (it.section) o.section = it.section; if (it.doc >= 0 && w.docs.length) { const s = w.docs[it.doc % w.docs.length].uri.toString(); o.scopeUri = it.raw ? s.replace("%3A", ":") : s; } else if (it.doc === -2) o.scopeUri = "file:///nowhere/z.R"; return o; });
				w.note(`pull ${show(items)} ${a.next}`);
				const opened = w.opened.length;
				let want, err;
				const RE = w.languageclient().ResponseError;
				const next = (p) => w.op("next", "", () => {
					const list = p.items.map((it) => (it.section ? w.value(it.section, { uri: it.scopeUri ? w.Uri.parse(it.scopeUri) : undefined }) ?? null : null));
					if (a.next === "response_error") return (err = new RE(-32603, "no"));
					if (a.next === "reject") { err = new Error("rejected"); throw err; }
					want = list.map((v, i) => { const it = items[i]; if (!it.section || !it.scopeUri) return v; const u = w.Uri.parse(it.scopeUri).toString(); const doc = w.docs.find((x) => x.open && x.uri.toString() === u); return doc ? w.value(it.section, { uri: doc.uri, languageId: doc.languageId }) : v; });
					return list;
				}, () => { throw new Error("x"); });
				const mw = k.co?.middleware?.workspace?.configuration;
				const params = { items };
				const r = Promise.resolve().then(() => (mw ? mw(params, { isCancellationRequested: false }, next) : next(params)));
				pulls.push(r.then((got) => {
					count("pulls answered"); nontrivial ||= prop === "V03" && items.some((i) => i.scopeUri);
					if (a.next !== "ok") { if (got !== err) bad("pull-error", `the default answer failed, but ${show(got)} is answered`); return; }
					const norm = (x) => JSON.stringify(Array.isArray(x) ? x.map((v) => v ?? null) : x);
					if (norm(got) !== norm(want)) bad("pull", `for ${show(items)} the answer is ${norm(got)} instead of ${norm(want)}`);
					if (w.opened.length > opened) bad("pull-opens", `a document was opened to answer: ${w.opened.slice(opened)}`);
				}, (e) => { if (a.next !== "reject" || e !== err) bad("pull-error", `failed: ${e}`); }));
				return;
			}
			case "format": case "init": return begin(a);
		}
	};
	const pulls = [];
	let prior, last = null;
	// ---- indentation
	const expectOptions = () => { last = { editor: w.active, prior, size: w.active && w.value("editor.tabSize", { uri: w.active.document.uri, languageId: w.active.document.languageId }) }; };
	const seen = () => { last = null; };
	const options = () => {
		if (!last?.editor || last.editor !== w.active) return;
		const e = last.editor, f = recent.get(e.document.uri.toString()), o = e.options;
		count("editors judged");
		if (!f) { if (listed && JSON.stringify(o) !== JSON.stringify(last.prior)) bad("options-unlisted", `${e.document.uri} is not in the last notification, but its editor changed from ${show(last.prior)} to ${show(o)}`); return; }
		if (o.insertSpaces !== (f.style === "space") || o.indentSize !== f.width || (f.style === "space" && o.tabSize !== f.width)) bad("options", `${e.document.uri} should be indented with ${f.style} of ${f.width}, but its editor has ${show(o)}`);
		else if (f.style === "tab" && e.document.languageId === "r" && o.tabSize !== last.size) bad("options", `${e.document.uri}: tabs are ${o.tabSize} wide instead of ${last.size}`);
	};
	// ---- terminal path
	const terminal = () => {
		if (w.clients.some((x) => x.phase === "stopping" || x.phase === "starting") || w.clients.some((x) => x.crashed)) return;
		const k = w.clients.find((x) => x.phase === "running");
		const on = w.value("air.addExecutableToTerminalPath", { uri: startFolder?.uri }) !== false;
		const want = k && on && k.command ? w.path.dirname(k.command) : null;
		const v = w.env.get("PATH");
		const got = v ? v.value.split(w.path.delimiter)[0] : null;
		if ((want && (got !== want || v.type !== "prepend" || !v.value.endsWith(w.path.delimiter))) || (!want && v) || w.env.size > (want ? 1 : 0)) bad("terminal", `terminals get ${show([...w.env])} although the server ${k ? `runs from ${w.path.dirname(k.command ?? "")}` : "is not running"} and the setting is ${on ? "on" : "off"}`);
		if (w.persisted) bad("terminal-persisted", "the contribution would be kept across sessions");
	};
	// ---- view documents
	const isR = (d) => d.languageId === "r" && d.uri.scheme === "file";
	const running = () => w.clients.find((x) => x.phase === "running" && !x.crashed);
	let last_trigger = null;
	const trigger = () => { last_trigger = { client: running() }; };
	w.viewed = (p, d) => { if (!d || w.active?.document !== d || !isR(d)) bad("view-request", `the server is asked about ${p?.textDocument?.uri}, the active editor shows ${w.active?.document.uri}`); };
	const views = () => {
		if (w.pending.length || w.timers.length || !last_trigger?.client || running() !== last_trigger.client) return;
		const e = w.active;
		for (const v of w.views.values()) {
			if (!v.open || !v.shown || v.failed === v.asked || v.failed > v.answered || v.answered < v.asked) continue;
			const kind = Object.values(VIEWS).flat().find(([s]) => s === v.uri.scheme)[1];
			if (e && !isR(e.document)) continue;
			nontrivial ||= prop === "V09" && !!e;
			count("views judged");
			const want = e ? w.viewText(kind, e.document.uri.toString(), e.selection.active, e.document.version) : null;
			if (e && v.text !== want) bad("view-stale", `${v.uri} shows ${v.text} instead of ${want}`);
		}
	};
	// --- exported archives
	const exports = { begun: 0, ok: 0 };
	const archives = () => {
		if (w.dialogs.length > exports.begun) bad("export", `${w.dialogs.length} dialogs for ${exports.begun} exports`);
		for (const z of w.zips) {
			const d = w.dialogs.find((x) => x.place === z.place);
			if (!d) { bad("export", `an archive is written to ${z.place}, which the user did not choose`); continue; }
			if (w.zips.filter((x) => x.place === z.place).length > 1) bad("export", `${z.place} is written more than once`);
			nontrivial ||= prop === "V11";
			count("archives judged");
			const left = new Set(z.entries.keys());
			for (const v of w.views.values()) {
				const name = path.basename(v.uri.path), text = z.entries.get(name);
				if (!v.texts.length || v.texts[0].at > d.at) { left.delete(name); continue; }
				const before = v.texts.filter((x) => x.at <= d.at).at(-1).text, may = [before, ...v.texts.filter((x) => x.at >= d.at && x.at <= z.at).map((x) => x.text)];
				left.delete(name);
				if (text === undefined) bad("export", `${z.place} lacks ${name}`);
				else if (!may.includes(text)) bad("export", `${name} in ${z.place} is ${show(text)}, the document showed ${show(may)}`);
			}
			if (left.size) bad("export", `${z.place} also holds ${[...left]}`);
			for (const [scheme] of VIEWS["air.viewFileRepresentations"]) if (![...w.views.values()].some((v) => v.uri.scheme === scheme && v.texts.length && v.texts[0].at <= d.at)) bad("export", `${z.place} was written without a document of ${scheme}`);
		}
		for (const d of w.dialogs) if (d.place !== undefined && !w.zips.some((z) => z.place === d.place)) bad("export", `nothing is written to ${d.place}, which the user chose`);
	};
	// --- the documents the running server knows
	const held = () => {
		for (const k of w.clients) if (k.phase === "running") for (const d of w.docs) {
			const want = d.open && d.languageId === "r" && ["file", "untitled", "vscode-notebook-cell"].includes(d.uri.scheme);
			nontrivial ||= want;
			if (want && !k.held.has(d)) bad("documents", `${d.uri}, an open R document, is not open in the server`);
			if (k.held.has(d) && (!d.open || d.languageId !== "r")) bad("documents", `${d.uri} (${d.languageId}${d.open ? "" : ", closed"}) is open in the server`);
		}
	};
	const tick = () => { if (active?.done) { const t = active; active = null; finish(t); } if (active) for (const s of servers()) active.servers.add(s); options(); terminal(); if (prop === "V09") views(); if (prop === "V10") held(); };
	const drive = async (script) => {
		let i = 0;
		for (;;) {
			await w.settleMicro();
			tick();
			if (++w.steps > 4000) { bad("stuck", `still busy after 4000 steps: ${w.pending.map((p) => p.label)}`); return; }
			const a = script[i], busy = w.pending.length + w.timers.length > 0;
			if (!a && !busy) return;
			const can = a && !(quietly(a) && (busy || active)) && !(command(a) && active) && !((a.a === "folders" || a.a === "set") && active && prop !== "V06" && a.a === "folders");
			if (can && (!busy || w.choose(100) < c.eager)) { i++; perform(a); }
			else if (busy) w.fireOne();
			else { bad("stuck", `${active ? `the ${active.a} command never ends` : "nothing goes on"}`); active = null; i++; }
		}
	};
	await drive(c.script);
	await w.settleMicro();
	if (active) { bad("stuck", `the ${active.a} command never ends`); active = null; }
	// ---- once faults stop, the server can be started again
	const gone = c.script.some((a) => a.a === "deactivate");
	c = { ...c, faults: [] }; w.c = c;
	if (!gone && ["V01", "V02", "V07"].includes(prop)) { for (const k of w.clients) if (k.crashed && k.phase === "stopped") k.crashed = true; await drive([{ a: "restart" }]); const k = w.clients.filter((x) => x.phase === "running"); if ((resolve(w) !== null) !== (k.length === 1)) bad("recovery", `after a last restart without faults ${k.length} servers run`); }
	if (prop === "V11") archives();
	judgeLifecycle();
	for (const e of w.errors) bad("listener", e);
	void pulls;
	const h = w.log.reduce((x, l) => hash(x, l), w.h);
	return { found: found.filter((f) => concerns(prop, f.class)), hash: h, nontrivial, counts, faults: w.fired, steps: w.steps, ms: w.now, choices: w.choices, log: w.log };

	// the operations in the order they were asked for, against what happened
	function judgeLifecycle() {
		// after a failed stop a restart may give up or go on: both leave a client that can be started, so either reading of the history will do
		let first = null;
		for (let dec = 0, points = 0; dec < 1 << Math.min(points, 8) || dec === 0; dec++) {
			const r = read(dec);
			points = Math.max(points, r.points);
			if (!r.out.length) { first = []; break; }
			first ??= r.out;
		}
		for (const [cls, d] of first) bad(cls, d);
		for (const o of ops) if (o.settled === null) bad("stuck", `${o.kind} never ends`);
		for (const o of ops) if (o.kind === "deactivate" && o.noPromise) bad("deactivate", "deactivation does not wait for the client to stop");
		const ended = ops.filter((o) => o.order);
		for (let k = 1; k < ended.length; k++) if (ended[k].order < ended[k - 1].order) { bad("order", `${ended[k].kind} ended before ${ended[k - 1].kind}, which was asked for first`); break; }
	}
	function read(dec) {
		const ev = trace.filter((e) => !(e.t === "client" && (e.p === "stopping" || e.p === "starting")));
		const out = [], states = !!lsp?.onStateChange;
		let i = 0, state = null, points = 0;
		const at = () => ev[i];
		const skipCleanup = () => { while (at() && ((at().t === "stop" && w.clients[at().n].failed) || (at().t === "client" && w.clients[at().n].failed && at().p === "stopped"))) i++; };
		for (const o of ops) {
			let failed = false;
			const errs = o.settled === "error" || o.settled === "threw";
			const kind = o.kind === "deactivate" ? "stop" : o.kind;
			const fail = (why) => { out.push(["order", `${o.kind}: ${why}; next is ${show(at())}`]); };
			const startIt = () => {
				skipCleanup();
				// nothing starts when no executable is found; a start that belongs to a later operation is not this one's
				if (at()?.t !== "start") { failed = true; return; }
				const unknown = o.settled === undefined || o.settled === null;
				if ((errs && !w.clients[at().n].failed) || ((errs || unknown) && ((dec >> points++) & 1))) { failed = true; return; }
				const n = at().n, cmd = at().command;
				i++;
				const r = at();
				if (r?.t !== "client" || r.n !== n) return fail(`client ${n} should become running or fail`);
				i++;
				if (r.p === "running") { state = { n, cmd }; if (states) { const s = at(); if (s?.t !== "state" || s.state !== "started" || s.binaryPath !== cmd) return fail("a state change to started should be reported"); i++; } } else failed = true;
				skipCleanup();
			};
			const stopIt = () => {
				const crashed = w.clients[state.n].crashed;
				if (at()?.t === "stop" && at().n === state.n) i++; else if (!crashed) return fail(`client ${state.n} should be stopped`);
				if (at()?.t === "client" && at().n === state.n && at().p === "stopped") i++; else if (!crashed) return fail(`client ${state.n} should have stopped`);
				state = null;
				if (states) { const s = at(); if (s?.t !== "state" || s.state !== "stopped") return fail("a state change to stopped should be reported"); i++; }
			};
			const stopFails = kind !== "start" && state && stopFaulty(state.n);
			let either = false;
			if (kind === "start") { if (!state) startIt(); }
			else {
				if (state) stopIt();
				if (out.length) break;
				if (stopFails) { failed = true; either = true; }
				if (kind === "restart") { let go = true; if (stopFails) go = !((dec >> points++) & 1); if (go) startIt(); }
			}
			if (out.length) break;
			if (o.settled !== undefined && o.settled !== null && errs !== failed && !either) { out.push(["outcome", `${o.kind} ${errs ? `failed (${o.error})` : "reported no failure"} although it ${failed ? "failed" : "did not fail"}`]); break; }
		}
		if (!out.length && i < ev.length) out.push(["order", `more happened than was asked for: ${show(ev[i])}`]);
		return { out, points };
	}
	function stopFaulty(n) { return w.log.some((l) => l.includes(`done client.stop ${n} FAULT`)); }
}
function concerns(prop, cls) {
	switch (cls) {
		case "overlap": case "order": case "outcome": case "deactivate": return prop === "V01";
		case "recovery": return prop === "V01" || prop === "V07";
		case "terminal": case "terminal-persisted": return prop === "V02";
		case "pull": case "pull-error": case "pull-opens": return prop === "V03";
		case "destroyed": case "unasked": case "again": return prop === "V04";
		case "view": case "view-request": case "view-stale": return prop === "V09";
		case "documents": return prop === "V10";
		case "export": return prop === "V11";
		case "options": case "options-unlisted": return prop === "V05";
		case "spawn": case "spawn-folder": case "unsaved": case "report-log": return prop === "V06";
		case "report": case "saved-others": return prop === "V04" || prop === "V06";
		case "executable": return prop === "V07";
		case "init-options": return prop === "V08";
		default: return true;
	}
}
