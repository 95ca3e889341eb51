// usage: main.mjs check PROP [--tier T --secs N --seed N --jobs N] | replay FILE | case PROP SEED I | again PROP CASE.json
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { fork } from "node:child_process";
import { fileURLToPath } from "node:url";
import { load } from "./world.mjs";
import { generate, shrink, pin, run, PROPS } from "./session.mjs";
const me = fileURLToPath(import.meta.url);
const verif = path.resolve(path.dirname(me), "../..");
const REPO = process.env.SIM_REPO || "/repo";
const argv = process.argv.slice(2);
const arg = (n) => { const i = argv.indexOf(n); return i >= 0 ? argv[i + 1] : undefined; };
const seedOf = (seed, i) => (BigInt(seed) * 1_000_003n + BigInt(i) * 7919n + 17n) % 9_007_199_254_740_881n;
const fnv = (s) => { let h = 0x811c9dc5; for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 0x01000193) >>> 0; return h.toString(16).padStart(8, "0"); };
function knownFindings(prop) { try { return fs.readFileSync(`${verif}/known-findings.txt`, "utf8").split("\n").map((l) => /^known: property=(\S+) class=(\S+) (.*)$/.exec(l)).filter((m) => m && m[1] === prop).map((m) => ({ class: m[2], text: m[3] })); } catch { return []; } }
const add = (a, b) => { for (const [k, v] of Object.entries(b)) a[k] = (a[k] || 0) + v; };
async function worker() {
	const [prop, shard, jobs, seed, secs, stop] = [argv[1], +arg("--shard"), +arg("--jobs"), arg("--seed"), +arg("--secs"), arg("--stop")];
	const code = load(REPO), known = new Set(knownFindings(prop).map((k) => k.class));
	const t0 = Date.now(), o = { cases: 0, steps: 0, ms: 0, nontrivial: 0, rechecks: 0, mismatches: 0, counts: {}, faults: {}, known: {}, traces: [], samples: [], switches: 0, violation: null, error: null };
	const traces = new Set();
	for (let i = shard; Date.now() - t0 < secs * 1000; i += jobs) {
		const c = generate(prop, seedOf(seed, i));
		const r = await run(code, prop, c);
		o.cases++; o.steps += r.steps; o.ms += r.ms; o.switches += r.choices.length; add(o.counts, r.counts); add(o.faults, r.faults);
		if (r.nontrivial) { o.nontrivial++; traces.add(r.hash); if (o.samples.length < 2 && JSON.stringify(c).length < 4000) o.samples.push(c); }
		if (((i - shard) / jobs) % 40 === 7) { o.rechecks++; const q = await run(code, prop, c); if (q.hash !== r.hash) { o.mismatches++; o.error = `not reproducible: ${JSON.stringify(c)}`; } }
		const bad = r.found.find((f) => !known.has(f.class));
		for (const f of r.found) if (known.has(f.class)) o.known[f.class] = (o.known[f.class] || 0) + 1;
		if (bad) { o.violation = { case: c, finding: bad }; fs.writeFileSync(stop, ""); break; }
		if (o.cases % 16 === 0 && fs.existsSync(stop)) break;
	}
	o.traces = [...traces];
	process.send(o, () => process.exit(0));
}
async function minimise(code, prop, c, cls, secs) {
	const t0 = Date.now(), late = () => Date.now() - t0 > secs * 1000;
	const hit = async (d) => (await run(code, prop, d)).found.find((f) => f.class === cls);
	for (let phase = 0; phase < 2; phase++) {
		for (let better = true; better && !late(); ) { better = false; for (const d of shrink(c)) { if (late()) break; if (await hit(d)) { c = d; better = true; break; } } }
		if (phase === 0 && !c.schedule) { const d = pin(c, (await run(code, prop, c)).choices); if (await hit(d)) c = d; }
	}
	return c;
}
async function check(prop) {
	const tier = arg("--tier") || process.env.VERIF_TIER || "quick", seed = arg("--seed") || process.env.VERIF_SEED || "1", secs = +(arg("--secs") || (tier === "thorough" ? 600 : 20)), jobs = +(arg("--jobs") || os.cpus().length);
	if (!PROPS.includes(prop)) { console.error("unknown property"); return 2; }
	const t0 = Date.now();
	let code;
	try { code = load(REPO); } catch (e) { console.error(`the extension does not compile: ${e}`); return 2; }
	const dir = `${verif}/build`;
	fs.mkdirSync(`${dir}/replays`, { recursive: true });
	const stop = `${dir}/stop.${process.pid}`;
	const all = { cases: 0, steps: 0, ms: 0, nontrivial: 0, rechecks: 0, mismatches: 0, counts: {}, faults: {}, known: {}, samples: [], switches: 0 }, traces = new Set(), errors = [];
	let violation = null;
	await Promise.all([...Array(jobs).keys()].map((k) => new Promise((done) => {
		const p = fork(me, ["worker", prop, "--shard", k, "--jobs", jobs, "--seed", seed, "--secs", secs, "--stop", stop].map(String));
		let got = false;
		p.on("message", (o) => { got = true; for (const f of ["cases", "steps", "ms", "nontrivial", "rechecks", "mismatches", "switches"]) all[f] += o[f]; for (const f of ["counts", "faults", "known"]) add(all[f], o[f]); for (const t of o.traces) traces.add(t); all.samples.push(...o.samples); violation ??= o.violation; if (o.error) errors.push(o.error); });
		p.on("exit", (c, s) => { if (!got) errors.push(`a worker ended with ${c ?? s}`); done(); });
	})));
	fs.rmSync(stop, { force: true });
	const searched = (Date.now() - t0) / 1000;
	let rc = 0;
	if (violation) {
		const first = (await run(code, prop, violation.case)).found.find((f) => f.class === violation.finding.class);
		if (!first) { console.error(`internal error: a reported violation did not reproduce: ${JSON.stringify(violation)}`); rc = 2; }
		else {
			const small = await minimise(code, prop, violation.case, first.class, tier === "thorough" ? 60 : 20);
			const r = await run(code, prop, small), f = r.found.find((x) => x.class === first.class);
			const file = `${dir}/replays/${prop}-${fnv(JSON.stringify(small))}.json`;
			fs.writeFileSync(file, JSON.stringify({ property: prop, class: f.class, detail: f.detail, seed: +seed, trace: r.hash.toString(16), case: small, original_case: violation.case }, null, 1));
			console.log(`${f.class}: ${f.detail}`);
			console.log(`VIOLATION property=${prop} replay=${file}`);
			rc = 1;
		}
	}
	for (const k of knownFindings(prop)) console.log(`KNOWN-FINDING: property=${prop} ${k.text} (class ${k.class}, seen ${all.known[k.class] || 0} times in this run)`);
	if (errors.length) { console.error(`error: ${errors[0].slice(0, 3000)}`); if (rc === 0) rc = 2; }
	if (!all.cases && rc === 0) rc = 2;
	const ev = { property: prop, tier, seed: +seed, level: ["V03", "V05"].includes(prop) ? "exploration" : "fault_enumeration", wall_s: (Date.now() - t0) / 1000, violations: rc === 1 ? 1 : 0,
		assumptions: ["the editor, its language client library, p-queue, which and fs-extra behave as documented; they are stand-ins written for this simulation", "environment, trust and executable settings change only between lifecycle operations", "a failing file operation of the editor changes nothing"],
		coverage: { evaluations: all.cases, distinct_nontrivial: traces.size, nontrivial_cases: all.nontrivial, rule: "a case is a seeded session: folders, files, settings, documents, answers of the user, faults and a script of actions, interleaved by a seeded scheduler; it counts when it reaches the behaviour the property is about; distinct by the whole recorded history", samples: all.samples.slice(0, 3), simulated_runs: all.cases, seeds_per_hour: Math.round(all.cases / searched * 3600), simulated_seconds: all.ms / 1000, schedule_points: all.steps, scheduling_decisions: all.switches, faults_injected: all.faults, counts: all.counts, determinism_rechecks: all.rechecks, determinism_mismatches: all.mismatches, known_findings_seen: all.known, distinct_measure: "hash over every action, completion, fault, message and state change in order",
			real_components: ["editors/code/src, bundled by esbuild", "editors/code/package.json (declared settings, their defaults and scopes)"], stub_components: ["vscode API, vscode-languageclient, p-queue, which, fs-extra, adm-zip, child_process, file system, timers and clock"] } };
	fs.mkdirSync(`${verif}/evidence`, { recursive: true });
	fs.writeFileSync(`${verif}/evidence/${prop}.json`, JSON.stringify(ev, null, 1));
	console.log(`${prop}: ${all.cases} cases, ${all.steps} steps, ${traces.size} distinct non-trivial, ${((Date.now() - t0) / 1000).toFixed(1)} s${rc === 0 ? ", held" : ""}`);
	return rc;
}
async function replay(file) {
	const v = JSON.parse(fs.readFileSync(file, "utf8"));
	const r = await run(load(REPO), v.property, v.case, true);
	console.log(`trace ${r.hash.toString(16)}, recorded ${v.trace}`);
	for (const f of r.found) console.log(`${f.class}: ${f.detail}`);
	if (r.found.some((f) => f.class === v.class)) { console.log(`VIOLATION property=${v.property} replay=${file}`); return 1; }
	console.log("did not reproduce"); return 0;
}
switch (argv[0]) {
	case "worker": await worker(); break;
	case "check": process.exit(await check(argv[1])); break;
	case "replay": process.exit(await replay(argv[1])); break;
	case "case": console.log(JSON.stringify(generate(argv[1], seedOf(argv[2], argv[3])), null, 1)); break;
	case "again": { const r = await run(load(REPO), argv[1], JSON.parse(fs.readFileSync(argv[2], "utf8")), true); console.log(r.found); process.exit(0); }
	default: console.error("usage: main.mjs check PROP | replay FILE"); process.exit(2);
}
