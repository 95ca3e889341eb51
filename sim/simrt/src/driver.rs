//! Seeded search over cases, minimisation, replay files, known findings, evidence.
use crate::sim::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Finding { pub class: String, pub detail: String }
pub fn finding(class: impl Into<String>, detail: impl Into<String>) -> Finding { Finding { class: class.into(), detail: detail.into() } }
/// What the runs of one worker covered.
#[derive(Default, Serialize, Deserialize)]
pub struct Stats { pub cases: u64, pub runs: u64, pub nontrivial: u64, pub steps: u64, pub sim_ns: u64, pub switches: u64, pub stalls: u64, pub spurious: u64, pub fs_ops: u64, pub multi_thread_runs: u64, pub determinism_rechecks: u64, pub determinism_mismatches: u64,
    pub outcomes: BTreeMap<String, u64>, pub faults: BTreeMap<String, u64>, pub counts: BTreeMap<String, u64>, pub traces: HashSet<u64>, pub known: BTreeMap<String, u64> }
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.cases += o.cases; self.runs += o.runs; self.nontrivial += o.nontrivial; self.steps += o.steps; self.sim_ns += o.sim_ns; self.switches += o.switches; self.stalls += o.stalls; self.spurious += o.spurious; self.fs_ops += o.fs_ops; self.multi_thread_runs += o.multi_thread_runs;
        self.determinism_rechecks += o.determinism_rechecks; self.determinism_mismatches += o.determinism_mismatches;
        for (a, b) in [(&mut self.outcomes, o.outcomes), (&mut self.faults, o.faults), (&mut self.counts, o.counts), (&mut self.known, o.known)] { for (k, v) in b { *a.entry(k).or_default() += v; } }
        self.traces.extend(o.traces);
    }
}
/// Handed to a check for one case.
pub struct Ctx { pub scratch: PathBuf, pub stats: Stats, case_hash: u64, case_nontrivial: bool, pub schedules: Vec<Option<Vec<(u32, u32)>>>, pub verbose: bool }
impl Ctx {
    pub fn new(scratch: &Path) -> Self { Ctx { scratch: scratch.to_path_buf(), stats: Stats::default(), case_hash: 0, case_nontrivial: false, schedules: vec![], verbose: false } }
    /// Records a simulated run.
    pub fn record(&mut self, cfg: &SimCfg, o: &Outcome) {
        let s = &mut self.stats;
        s.runs += 1; s.steps += o.steps; s.sim_ns += o.sim_ns; s.switches += o.switches; s.stalls += o.stalls; s.spurious += o.spurious; s.fs_ops += o.fs_ops;
        if o.threads > 1 { s.multi_thread_runs += 1; }
        *s.outcomes.entry(format!("{:?}", o.kind)).or_default() += 1;
        for (i, f) in cfg.faults.iter().enumerate() { let n = o.fault_fired[i] as u64; if n > 0 { let a = if f.kind == "errno" { format!("{}/{}", f.op, errno_name(f.arg)) } else { format!("{}/{}", f.op, f.kind) }; *s.faults.entry(a).or_default() += n; } }
        if cfg.crash_at > 0 && o.kind == Kind::Crashed { *s.faults.entry("crash_at_op".into()).or_default() += 1; }
        for (n, v) in [("stdin_fragmented", cfg.chunk_max), ("stdout_fragmented", cfg.out_chunk_max), ("file_reads_fragmented", cfg.file_chunk_max)] { if v > 0 { *s.faults.entry(n.into()).or_default() += 1; } }
        self.case_hash = (self.case_hash ^ o.trace_hash).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(17) ^ o.steps;
        let sc = self.scratch.to_string_lossy().into_owned();
        let (out, err, user) = (place(&o.out, &sc), place(o.err.as_bytes(), &sc), place(&o.user, &sc));
        for b in out.iter().chain(err.iter()).chain(user.iter()) { self.case_hash = (self.case_hash ^ *b as u64).wrapping_mul(0x100000001b3); }
        if self.case_hash == 0 { self.case_hash = 1; }
        self.schedules.push(o.schedule.clone());
        if self.verbose { println!("--- run {}: {:?} code {} steps {} switches {} threads {} virtual {} us\nstderr:\n{}\nevents:\n{}", self.schedules.len(), o.kind, o.code, o.steps, o.switches, o.threads, o.sim_ns / 1000, o.err, o.log); }
    }
    /// For harnesses that drive real code without sim.c.
    pub fn record_plain(&mut self, hash: u64, steps: u64, sim_ns: u64) { self.stats.runs += 1; self.stats.steps += steps; self.stats.sim_ns += sim_ns; self.case_hash = (self.case_hash ^ hash).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(17) | 1; }
    pub fn count(&mut self, k: &str) { *self.stats.counts.entry(k.into()).or_default() += 1; }
    pub fn add(&mut self, k: &str, n: u64) { *self.stats.counts.entry(k.into()).or_default() += n; }
    pub fn fault(&mut self, k: &str, n: u64) { *self.stats.faults.entry(k.into()).or_default() += n; }
    pub fn nontrivial(&mut self) { self.case_nontrivial = true; }
}
/// The scratch directory's name differs between processes and is left out of the trace.
fn place<'a>(b: &'a [u8], scratch: &str) -> std::borrow::Cow<'a, [u8]> { match std::str::from_utf8(b) { Ok(s) if s.contains(scratch) => s.replace(scratch, "@").into_bytes().into(), _ => b.into() } }
pub fn errno_name(e: i32) -> String { match e { 4 => "EINTR", 5 => "EIO", 13 => "EACCES", 2 => "ENOENT", 28 => "ENOSPC", 24 => "EMFILE", 30 => "EROFS", 32 => "EPIPE", 9 => "EBADF", 40 => "ELOOP", 122 => "EDQUOT", 116 => "ESTALE", 27 => "EFBIG", _ => return format!("errno{e}") }.into() }
pub trait Check {
    type Case: Clone + Serialize + DeserializeOwned;
    fn directed(&self) -> Vec<Self::Case> { vec![] }
    fn generate(&self, r: &mut Rng) -> Self::Case;
    fn eval(&self, case: &Self::Case, ctx: &mut Ctx) -> Vec<Finding>;
    fn shrink(&self, case: &Self::Case) -> Vec<Self::Case>;
    /// The run configurations of the case in the order they are executed, for schedule minimisation.
    fn cfgs<'a>(&self, _case: &'a mut Self::Case) -> Vec<&'a mut SimCfg> { vec![] }
    fn rule(&self) -> String;
    fn real(&self) -> Vec<String>;
    fn stub(&self) -> Vec<String>;
    fn assumptions(&self) -> Vec<String> { vec![] }
    fn level(&self) -> &'static str { "exploration" }
}
pub trait DynCheck {
    fn directed_v(&self) -> Vec<Value>; fn gen_v(&self, seed: u64) -> Value; fn eval_v(&self, case: &Value, ctx: &mut Ctx) -> Vec<Finding>; fn shrink_v(&self, case: &Value) -> Vec<Value>;
    fn pin_schedules(&self, case: &Value, s: &[Option<Vec<(u32, u32)>>]) -> Value; fn get_schedules(&self, case: &Value) -> Vec<Option<Vec<(u32, u32)>>>; fn calmer(&self, case: &Value) -> Vec<Value>;
    fn info(&self) -> (String, Vec<String>, Vec<String>, Vec<String>, &'static str);
}
impl<T: Check> DynCheck for T {
    fn directed_v(&self) -> Vec<Value> { self.directed().iter().map(|c| serde_json::to_value(c).unwrap()).collect() }
    fn gen_v(&self, seed: u64) -> Value { serde_json::to_value(self.generate(&mut Rng::new(seed))).unwrap() }
    fn eval_v(&self, case: &Value, ctx: &mut Ctx) -> Vec<Finding> { let c: T::Case = serde_json::from_value(case.clone()).expect("case"); self.eval(&c, ctx) }
    fn shrink_v(&self, case: &Value) -> Vec<Value> { let c: T::Case = serde_json::from_value(case.clone()).expect("case"); self.shrink(&c).iter().map(|c| serde_json::to_value(c).unwrap()).collect() }
    fn pin_schedules(&self, case: &Value, s: &[Option<Vec<(u32, u32)>>]) -> Value { let mut c: T::Case = serde_json::from_value(case.clone()).unwrap(); for (i, k) in self.cfgs(&mut c).into_iter().enumerate() { if let Some(Some(d)) = s.get(i) { k.schedule = Some(d.clone()); } } serde_json::to_value(c).unwrap() }
    fn get_schedules(&self, case: &Value) -> Vec<Option<Vec<(u32, u32)>>> { let mut c: T::Case = serde_json::from_value(case.clone()).unwrap(); self.cfgs(&mut c).into_iter().map(|k| k.schedule.clone()).collect() }
    /// Variants with one dimension of nondeterminism switched off.
    fn calmer(&self, case: &Value) -> Vec<Value> {
        let base: T::Case = serde_json::from_value(case.clone()).unwrap();
        let mut out = vec![];
        let n = self.cfgs(&mut base.clone()).len();
        for i in 0..n {
            for f in 0..11 {
                let mut c = base.clone();
                let mut ks = self.cfgs(&mut c);
                let k = &mut ks[i];
                let before = (*k).clone();
                match f { 0 => { k.schedule = Some(vec![]); k.alloc_ppm = 0; k.stall_ppm = 0; k.lag_ppm = 0; k.spurious_ppm = 0; k.cpus = 1; } 1 => k.cpus = 1, 2 => k.alloc_ppm = 0, 3 => { k.stall_ppm = 0; k.lag_ppm = 0; k.spurious_ppm = 0; } 4 => k.chunk_max = 0, 5 => k.out_chunk_max = 0, 6 => k.file_chunk_max = 0, 7 => k.dir_seed = 0, 8 => { k.schedule = Some(vec![]); } 9 => k.out_cap = 0, _ => { if k.cpus > 2 { k.cpus = 2 } } }
                if before != **k { out.push(serde_json::to_value(&c).unwrap()); }
            }
            // drop faults one at a time
            let nf = self.cfgs(&mut base.clone())[i].faults.len();
            for f in 0..nf { let mut c = base.clone(); self.cfgs(&mut c)[i].faults.remove(f); out.push(serde_json::to_value(&c).unwrap()); }
            if self.cfgs(&mut base.clone())[i].crash_at > 0 { let mut c = base.clone(); self.cfgs(&mut c)[i].crash_at = 0; out.push(serde_json::to_value(&c).unwrap()); }
        }
        out
    }
    fn info(&self) -> (String, Vec<String>, Vec<String>, Vec<String>, &'static str) { (self.rule(), self.real(), self.stub(), self.assumptions(), self.level()) }
}
pub type Registry = fn(&str) -> Option<Box<dyn DynCheck>>;
struct Known { prop: String, class: String, text: String }
fn known_findings(verif: &Path) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(verif.join("known-findings.txt")) else { return vec![] };
    t.lines().filter_map(|l| { let l = l.strip_prefix("known: property=")?; let (prop, rest) = l.split_once(" class=")?; let (class, text) = rest.split_once(' ')?; Some(Known { prop: prop.into(), class: class.into(), text: text.into() }) }).collect()
}
fn arg(name: &str) -> Option<String> { let a: Vec<String> = std::env::args().collect(); a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned()) }
fn scratch_base() -> PathBuf { let b = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() }; b.join(format!("airsim.{:08}", std::process::id())) }
fn hash_str(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } h }
fn case_seed(seed: u64, i: u64) -> u64 { let mut r = Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i); r.next() }
#[derive(Serialize, Deserialize)]
struct WorkerOut { stats: Stats, violation: Option<(Value, Finding)>, samples: Vec<Value>, error: Option<String> }
pub fn main(reg: Registry) {
    crate::sim::init();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check(reg, &a[2])),
        Some("worker") => worker(reg, &a[2]),
        Some("replay") => std::process::exit(replay(reg, &a[2])),
        // the same case several times in one process, everything printed
        Some("again") => { let v: Value = serde_json::from_slice(&std::fs::read(&a[3]).unwrap()).unwrap(); let c = reg(&a[2]).unwrap(); let base = scratch_base(); let sc = base.join("s").join("min"); std::fs::create_dir_all(&sc).unwrap(); let mut keep = vec![]; for i in 0..4 { println!("=== {i}"); let (_, x) = evaluate(&*c, &v, &sc, true); println!("trace {:016x}", x.case_hash); println!("schedule {:?}", x.schedules); keep.push(vec![1u8; 1000 + i * 70000]); } std::fs::remove_dir_all(&base).ok(); }
        Some("case") => { let c = reg(&a[2]).unwrap(); println!("{}", serde_json::to_string_pretty(&c.gen_v(case_seed(a[3].parse().unwrap(), a[4].parse().unwrap()))).unwrap()); }
        _ => { eprintln!("usage: check PROP | replay FILE"); std::process::exit(2) }
    }
}
fn evaluate(c: &dyn DynCheck, case: &Value, scratch: &Path, verbose: bool) -> (Vec<Finding>, Ctx) { let mut x = Ctx::new(scratch); x.verbose = verbose; let f = c.eval_v(case, &mut x); (f, x) }
fn worker(reg: Registry, prop: &str) {
    let c = reg(prop).expect("property");
    let (shard, jobs, seed, secs): (u64, u64, u64, f64) = (arg("--shard").unwrap().parse().unwrap(), arg("--jobs").unwrap().parse().unwrap(), arg("--seed").unwrap().parse().unwrap(), arg("--secs").unwrap().parse().unwrap());
    let out = PathBuf::from(arg("--out").unwrap());
    let scratch = PathBuf::from(arg("--scratch").unwrap());
    std::fs::create_dir_all(&scratch).unwrap();
    let known: Vec<String> = known_findings(&PathBuf::from(arg("--verif").unwrap())).into_iter().filter(|k| k.prop == prop).map(|k| k.class).collect();
    let t0 = Instant::now();
    let mut w = WorkerOut { stats: Stats::default(), violation: None, samples: vec![], error: None };
    let directed = c.directed_v();
    let stop = out.with_extension("stop");
    let mut i = shard;
    while t0.elapsed().as_secs_f64() < secs || i < directed.len() as u64 {
        let case = if (i as usize) < directed.len() { directed[i as usize].clone() } else { c.gen_v(case_seed(seed, i)) };
        let (fs, mut x) = evaluate(&*c, &case, &scratch, false);
        x.stats.cases = 1;
        x.stats.nontrivial = x.case_nontrivial as u64;
        if x.case_nontrivial { x.stats.traces.insert(x.case_hash); }
        let h = x.case_hash;
        if (i / jobs) % 50 == 7 {
            let (_, y) = evaluate(&*c, &case, &scratch, false);
            x.stats.determinism_rechecks += 1;
            if y.case_hash != h { x.stats.determinism_mismatches += 1; if w.error.is_none() { w.error = Some(format!("not reproducible: {}", serde_json::to_string(&case).unwrap())); } }
        }
        if w.samples.len() < 2 && x.case_nontrivial && case.to_string().len() < 5000 && i >= directed.len() as u64 { w.samples.push(case.clone()); }
        w.stats.merge(x.stats);
        let mut bad = None;
        for f in fs { if known.contains(&f.class) { *w.stats.known.entry(f.class).or_default() += 1; } else if bad.is_none() { bad = Some(f); } }
        if let Some(f) = bad { w.violation = Some((case, f)); std::fs::write(&stop, b"").ok(); break; }
        if stop.exists() { break; }
        i += jobs;
    }
    std::fs::write(&out, serde_json::to_vec(&w).unwrap()).unwrap();
    std::fs::remove_dir_all(&scratch).ok();
}
fn reproduces(c: &dyn DynCheck, case: &Value, class: &str, scratch: &Path) -> Option<(Finding, Ctx)> { let (fs, x) = evaluate(c, case, scratch, false); fs.into_iter().find(|f| f.class == class).map(|f| (f, x)) }
/// Greedy minimisation: calmer environment, smaller workload, then fewer scheduling decisions.
fn minimise(c: &dyn DynCheck, case: &Value, class: &str, scratch: &Path, secs: f64) -> Value {
    let t0 = Instant::now();
    let mut best = case.clone();
    let mut improved = true;
    while improved && t0.elapsed().as_secs_f64() < secs {
        improved = false;
        for cand in c.calmer(&best).into_iter().chain(c.shrink_v(&best)) {
            if t0.elapsed().as_secs_f64() > secs { break; }
            if cand != best && reproduces(c, &cand, class, scratch).is_some() { best = cand; improved = true; break; }
        }
    }
    // explicit schedule
    let (_, x) = evaluate(c, &best, scratch, false);
    let pinned = c.pin_schedules(&best, &x.schedules);
    if pinned != best && reproduces(c, &pinned, class, scratch).is_some() {
        best = pinned;
        for r in 0..c.get_schedules(&best).len() {
            let mut size = c.get_schedules(&best)[r].as_ref().map_or(0, |s| s.len());
            while size > 0 && t0.elapsed().as_secs_f64() < secs * 1.5 {
                let mut at = 0;
                loop {
                    let all = c.get_schedules(&best);
                    let Some(s) = all[r].clone() else { break };
                    if at >= s.len() || t0.elapsed().as_secs_f64() > secs * 1.5 { break; }
                    let mut t = s.clone();
                    t.drain(at..(at + size).min(t.len()));
                    let mut all2 = all.clone();
                    all2[r] = Some(t);
                    let cand = c.pin_schedules(&best, &all2);
                    if reproduces(c, &cand, class, scratch).is_some() { best = cand; } else { at += size; }
                }
                size /= 2;
            }
        }
    }
    best
}
fn replay(reg: Registry, file: &str) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("json");
    let prop = v["property"].as_str().unwrap();
    let c = reg(prop).expect("property");
    let base = scratch_base();
    let scratch = base.join("s").join("min");
    std::fs::create_dir_all(&scratch).unwrap();
    let (fs, x) = evaluate(&*c, &v["case"], &scratch, true);
    std::fs::remove_dir_all(&base).ok();
    println!("trace {:016x}, recorded {}", x.case_hash, v["trace"].as_str().unwrap_or("-"));
    for f in &fs { println!("{}: {}", f.class, f.detail); }
    if fs.iter().any(|f| Some(f.class.as_str()) == v["class"].as_str()) { println!("VIOLATION property={prop} replay={file}"); 1 } else { println!("did not reproduce"); 0 }
}
fn check(reg: Registry, prop: &str) -> i32 {
    let t0 = Instant::now();
    let verif = PathBuf::from(arg("--verif").unwrap_or("/verif".into()));
    let tier = arg("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let seed: u64 = arg("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = arg("--secs").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600.0 } else if prop.starts_with('L') { 40.0 } else { 25.0 });
    let jobs: u64 = arg("--jobs").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64));
    let Some(c) = reg(prop) else { eprintln!("unknown property {prop}"); return 2 };
    let base = scratch_base();
    std::fs::create_dir_all(&base).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    let pad = |i: u64| format!("{i:03}");
    for i in 0..jobs {
        let out = base.join("r").join(pad(i)).join("out.json");
        std::fs::create_dir_all(out.parent().unwrap()).unwrap();
        let mut cmd = std::process::Command::new(&exe);
        // one stop file shared by all workers
        let stop = out.with_extension("stop");
        std::os::unix::fs::symlink(base.join("stop"), &stop).ok();
        cmd.args(["worker", prop, "--shard", &i.to_string(), "--jobs", &jobs.to_string(), "--seed", &seed.to_string(), "--secs", &secs.to_string(), "--verif"]).arg(&verif).arg("--out").arg(&out).arg("--scratch").arg(base.join("s").join(pad(i)));
        kids.push((cmd.spawn().expect("worker"), out));
    }
    let mut stats = Stats::default();
    let mut samples = vec![];
    let mut violation = None;
    let mut errors = vec![];
    for (mut k, out) in kids {
        let st = k.wait().unwrap();
        match std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<WorkerOut>(&b).ok()) {
            Some(w) if st.success() => { stats.merge(w.stats); samples.extend(w.samples); if violation.is_none() { violation = w.violation; } if let Some(e) = w.error { errors.push(e); } }
            _ => errors.push(format!("worker ended with {st}")),
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let scratch = base.join("s").join("min");
    std::fs::create_dir_all(&scratch).unwrap();
    let mut code = 0;
    if let Some((case, f)) = violation {
        let dir = verif.join("build").join("replays");
        std::fs::create_dir_all(&dir).unwrap();
        if reproduces(&*c, &case, &f.class, &scratch).is_none() {
            eprintln!("internal error: a reported violation did not reproduce: {} {}\n{case}", f.class, f.detail);
            code = 2;
        } else {
            let small = minimise(&*c, &case, &f.class, &scratch, if tier == "thorough" { 60.0 } else { 20.0 });
            let (f2, x) = reproduces(&*c, &small, &f.class, &scratch).unwrap_or_else(|| { let r = reproduces(&*c, &case, &f.class, &scratch).unwrap(); r });
            let path = dir.join(format!("{prop}-{:08x}.json", hash_str(&small.to_string()) as u32));
            std::fs::write(&path, serde_json::to_vec_pretty(&json!({"property": prop, "class": f2.class, "detail": f2.detail, "seed": seed, "trace": format!("{:016x}", x.case_hash), "case": small, "original_case": case})).unwrap()).unwrap();
            println!("{}: {}", f2.class, f2.detail);
            println!("VIOLATION property={prop} replay={}", path.display());
            code = 1;
        }
    }
    std::fs::remove_dir_all(&base).ok();
    for k in known_findings(&verif) { if k.prop == prop { println!("KNOWN-FINDING: property={prop} {} (class {}, seen {} times in this run)", k.text, k.class, stats.known.get(&k.class).unwrap_or(&0)); } }
    if !errors.is_empty() { for e in errors.iter().take(3) { if let Some(c) = e.strip_prefix("not reproducible: ") { std::fs::write(verif.join("build").join("unreproducible.json"), c).ok(); } eprintln!("error: {}", &e[..e.len().min(3000)]); } if code == 0 { code = 2; } }
    if stats.cases == 0 && code == 0 { eprintln!("no case was evaluated"); code = 2; }
    let (rule, real, stub, assumptions, level) = c.info();
    samples.truncate(3);
    let h = search_s / 3600.0;
    let ev = json!({"property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": t0.elapsed().as_secs_f64(), "violations": (code == 1) as u32, "assumptions": assumptions,
        "coverage": {"evaluations": stats.cases, "distinct_nontrivial": stats.traces.len(), "rule": rule, "samples": samples, "nontrivial_cases": stats.nontrivial,
            "simulated_runs": stats.runs, "seeds_per_hour": (stats.cases as f64 / h) as u64, "simulated_runs_per_hour": (stats.runs as f64 / h) as u64, "simulated_seconds": stats.sim_ns as f64 / 1e9, "schedule_points": stats.steps, "context_switches": stats.switches, "runs_with_several_threads": stats.multi_thread_runs,
            "stalled_threads": stats.stalls, "spurious_wakeups": stats.spurious, "file_operations": stats.fs_ops, "faults_injected": stats.faults, "run_outcomes": stats.outcomes, "distinct_measure": "hash over every scheduling decision, blocking point and output byte of all runs of the case",
            "determinism_rechecks": stats.determinism_rechecks, "determinism_mismatches": stats.determinism_mismatches, "counts": stats.counts, "known_findings_seen": stats.known, "real_components": real, "stub_components": stub}});
    let ed = verif.join("evidence");
    std::fs::create_dir_all(&ed).unwrap();
    std::fs::write(ed.join(format!("{prop}.json")), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!("{prop}: {} cases, {} simulated runs, {} distinct non-trivial, {:.1} s{}", stats.cases, stats.runs, stats.traces.len(), t0.elapsed().as_secs_f64(), if code == 0 { ", held" } else { "" });
    let _ = Duration::ZERO;
    code
}
