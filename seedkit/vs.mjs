// Drives the extension's own code inside a small stand-in for the editor.
import { World, load } from "./world.mjs";
const REPO = process.cwd();
process.on("unhandledRejection", () => {});
export class Session {
	constructor(c) { this.w = new World(load(REPO), { win: false, folders: ["w"], tree: { w: null, cwd: null, "opt/air": "air" }, docs: [], user: {}, workspace: {}, folderCfg: {}, trusted: true, bundled: true, which: null, faults: [], seed: 1, schedule: [], answers: [], picks: [], procs: [], ...c }); this.results = []; }
	activate() { this.w.activate(); this.lsp = this.w.exports.__private.ctx.lsp; return this; }
	/** Asks for something without waiting for it. */
	ask(p) { const o = { done: false }; this.results.push(o); Promise.resolve(p).then((v) => Object.assign(o, { done: true, ok: true, v }), (e) => Object.assign(o, { done: true, ok: false, e })); return o; }
	command(n) { return this.ask(this.w.api.commands.executeCommand(n)); }
	restart() { return this.command("air.restart"); }
	/** Lets everything happen, in the order it was asked for. */
	async idle() { for (let i = 0; i < 3000; i++) { await this.w.settleMicro(); if (!this.w.pending.length && !this.w.timers.length) return; this.w.fireOne(); } throw new Error("never idle"); }
	micro() { return this.w.settleMicro(); }
	/** Completes the first pending operation whose label starts so. */
	async complete(label) { await this.micro(); const p = this.w.pending.find((x) => x.label.startsWith(label)); if (!p) throw new Error(`no ${label} among ${this.w.pending.map((x) => x.label)}`); this.w.pending = this.w.pending.filter((x) => x !== p); p.run(); await this.micro(); }
	set(key, value, level = "user") { this.w[level][key] = value; this.w.configChanged([key]); }
	running() { return this.w.clients.filter((c) => c.phase === "running"); }
	path() { return this.w.env.get("PATH")?.value; }
	open(i) { const d = this.w.docs[i]; const e = { document: d, options: { tabSize: 4, insertSpaces: true, indentSize: 4 }, selection: { active: { line: 0, character: 0 } }, viewColumn: 1 }; this.w.editors.push(e); return e; }
	show(e) { this.w.active = e; this.w.on_activeEditor.fire(e); }
	notify(list) { const k = this.running()[0]; for (const h of k.handlers["air/syncFileSettings"] || []) h({ file_settings: list.map(([d, style, width]) => ({ url: this.w.docs[d].uri.toString(), format: { indent_style: style, indent_width: width, line_width: 80 } })) }); }
	pull(items, next) { return this.ask(this.running()[0].co.middleware.workspace.configuration({ items }, { isCancellationRequested: false }, next)); }
	file(p) { return this.w.files.get("/" + p)?.toString("latin1"); }
	said(re) { return this.w.messages.some((m) => re.test(m.text)); }
}
let failures = 0;
export function check(ok, what) { if (!ok) { failures++; console.error(`FAILED: ${what}`); } }
export function done() { process.exit(failures ? 1 : 0); }
