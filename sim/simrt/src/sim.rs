//! One simulated run: fork a child, activate sim.c in it, run the body, collect what it left in shared memory.
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::path::Path;
use std::sync::OnceLock;
const MAXDEC: usize = 65536;
const IO_MAX: usize = 4 << 20;
const ERR_MAX: usize = 1 << 20;
const LOG_MAX: usize = 1 << 20;
const MAXFAULTS: usize = 16;
pub const NOPS: usize = 13;
pub const OPS: [&str; NOPS] = ["open_r", "open_w", "read", "write", "close", "stat", "opendir", "readdir", "mutate", "stdin", "stdout", "stderr", "sync"];
pub const FKINDS: [&str; 5] = ["none", "errno", "short", "crash", "torn_crash"];
#[repr(C)]
struct CFault { op: u32, nth: u32, repeat: u32, kind: u32, arg: i32, seen: u32, path: [u8; 240] }
#[repr(C)]
#[derive(Clone, Copy)]
struct CDec { at: u32, who: u32 }
#[repr(C)]
struct CCfg {
    seed: u64, dir_seed: u64, start_ns: u64, wall_ns: u64, max_steps: u64, crash_at: u64,
    mode: u32, switch_ppm: u32, alloc_ppm: u32, stall_ppm: u32, spurious_ppm: u32, cpus: u32, chunk_max: u32, out_chunk_max: u32, file_chunk_max: u32, log_ops: u32, replay: u32, nreplay: u32, nfaults: u32, out_cap: u32, lag_ppm: u32, spare: u32,
    faults: [CFault; MAXFAULTS],
    replay_dec: *const CDec,
    root: [u8; 512],
}
#[repr(C)]
struct Shared {
    outcome: u32, exit_code: i32,
    steps: u64, sim_ns: u64, switches: u64, stalls: u64, spurious: u64, fs_ops: u64, mutations: u64, escapes: u64, trace_hash: u64,
    threads: u32, log_truncated: u32, dec_truncated: u32, ndec: u32,
    op_count: [u64; NOPS],
    fault_fired: [u32; MAXFAULTS],
    in_len: u32, in_pos: u32, in_closed: u32, out_len: u32, err_len: u32, log_len: u32, user_len: u32, out_taken: u32, out_closed: u32,
    dec: [CDec; MAXDEC],
    inp: [u8; IO_MAX], out: [u8; IO_MAX], err: [u8; ERR_MAX], log: [u8; LOG_MAX], user: [u8; IO_MAX],
}
extern "C" {
    fn sim_begin(cfg: *mut CCfg, shared: *mut Shared);
    fn sim_finish(code: i32) -> !;
    fn sim_alloc_point();
    fn sim_disable_aslr() -> i32;
    fn fork_real() -> i32;
    fn sim_child();
    fn sim_stdin_push(p: *const u8, n: usize) -> i32;
    fn sim_stdin_close();
    fn sim_stdin_pending() -> usize;
    fn sim_stdout_len() -> usize;
    fn sim_stdout_ptr() -> *const u8;
    fn sim_stdout_wait(have: usize, timeout_ns: u64) -> usize;
    fn sim_stdout_take(n: usize);
    fn sim_stdout_close();
    fn sim_bad_path(rel: *const u8, n: usize, err: i32);
    fn sim_bypass(on: i32);
    fn sim_now_ns() -> u64;
    fn sim_rand() -> u64;
    fn sim_yield();
    fn sim_log(p: *const u8, n: usize);
    fn sim_steps() -> u64;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn umask(m: u32) -> u32;
}
/// The harness binaries' allocator: a fraction of allocations are schedule points.
pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { sim_alloc_point(); if arena::on() { arena::alloc(l) } else { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if arena::holds(p) { arena::free(p, l) } else { System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sim_alloc_point();
        if !arena::on() && !arena::holds(p) { return System.realloc(p, l, n) }
        if arena::holds(p) && n <= arena::class_size(l) { return p }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = if arena::on() { arena::alloc(nl) } else { System.alloc(nl) };
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l); }
        q
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { sim_alloc_point(); if arena::on() { let p = arena::alloc(l); if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); } p } else { System.alloc_zeroed(l) } }
}
/// Memory of the simulated program: a region at a fixed address which only the forked child uses, so that addresses
/// (which programs hash) are the same in every run of a case, whatever the harness itself allocated before.
mod arena {
    use std::alloc::Layout;
    use std::sync::atomic::{AtomicBool, Ordering::*};
    pub const BASE: usize = 0x1000_0000_0000;
    pub const SIZE: usize = 16 << 30;
    static ON: AtomicBool = AtomicBool::new(false);
    static LOCK: AtomicBool = AtomicBool::new(false);
    static mut NEXT: usize = BASE;
    static mut FREE: [usize; 40] = [0; 40];
    pub fn on() -> bool { ON.load(Relaxed) }
    pub fn start() { ON.store(true, Relaxed) }
    pub fn holds(p: *mut u8) -> bool { (p as usize).wrapping_sub(BASE) < SIZE }
    fn class(l: Layout) -> u32 { l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros() }
    pub fn class_size(l: Layout) -> usize { 1 << class(l) }
    fn locked<T>(f: impl FnOnce() -> T) -> T {
        while LOCK.compare_exchange(false, true, Acquire, Relaxed).is_err() { std::hint::spin_loop() }
        let r = f();
        LOCK.store(false, Release);
        r
    }
    pub unsafe fn alloc(l: Layout) -> *mut u8 {
        let c = class(l) as usize;
        if c > 32 { return std::ptr::null_mut() }
        locked(|| {
            let f = FREE[c];
            if f != 0 { FREE[c] = *(f as *const usize); return f as *mut u8 }
            let n = 1usize << c;
            let a = NEXT.next_multiple_of(n.min(4096).max(l.align()));
            if a + n > BASE + SIZE { return std::ptr::null_mut() }
            NEXT = a + n;
            a as *mut u8
        })
    }
    pub unsafe fn free(p: *mut u8, l: Layout) {
        let c = class(l) as usize;
        locked(|| { *(p as *mut usize) = FREE[c]; FREE[c] = p as usize; })
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault { pub op: String, #[serde(default)] pub path: String, pub nth: u32, #[serde(default = "one")] pub repeat: u32, pub kind: String, #[serde(default)] pub arg: i32 }
fn one() -> u32 { 1 }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SimCfg {
    pub seed: u64, pub dir_seed: u64, pub prio: bool, pub switch_ppm: u32, pub alloc_ppm: u32, pub stall_ppm: u32, pub spurious_ppm: u32, pub cpus: u32,
    pub chunk_max: u32, pub out_chunk_max: u32, pub file_chunk_max: u32, pub max_steps: u64, pub crash_at: u64, #[serde(default)] pub out_cap: u32, #[serde(default)] pub lag_ppm: u32, pub faults: Vec<Fault>,
    /// An explicit schedule (schedule point, thread) replaces the seeded one.
    #[serde(default, skip_serializing_if = "Option::is_none")] pub schedule: Option<Vec<(u32, u32)>>,
    #[serde(default)] pub log_ops: bool,
}
impl SimCfg {
    pub fn calm(seed: u64) -> Self { SimCfg { seed, dir_seed: 0, prio: false, switch_ppm: 0, alloc_ppm: 0, stall_ppm: 0, spurious_ppm: 0, cpus: 1, chunk_max: 0, out_chunk_max: 0, file_chunk_max: 0, max_steps: 2_000_000, crash_at: 0, out_cap: 0, lag_ppm: 0, faults: vec![], schedule: None, log_ops: false } }
    pub fn random(r: &mut Rng) -> Self {
        let mut c = Self::calm(r.next());
        c.dir_seed = if r.chance(15) { 0 } else { r.next() };
        c.prio = r.chance(30);
        c.switch_ppm = *r.pick(&[0, 20_000, 100_000, 300_000, 600_000]);
        c.alloc_ppm = *r.pick(&[0, 0, 10_000, 100_000]);
        c.stall_ppm = *r.pick(&[0, 0, 5_000, 50_000]);
        c.lag_ppm = *r.pick(&[0, 0, 2_000, 20_000]);
        c.spurious_ppm = *r.pick(&[0, 0, 10_000]);
        c.cpus = *r.pick(&[1, 2, 2, 3, 4, 6]);
        c.chunk_max = *r.pick(&[0, 1, 3, 16, 200, 4096]);
        c.out_chunk_max = *r.pick(&[0, 0, 1, 7, 64, 1024]);
        c.file_chunk_max = *r.pick(&[0, 0, 1, 5, 64]);
        c
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Hung, Exited, Crashed, Deadlock, StepLimit, Aborted, Unsupported }
#[derive(Clone, Debug)]
pub struct Outcome {
    pub kind: Kind, pub code: i32, pub out: Vec<u8>, pub err: String, pub log: String, pub user: Vec<u8>, pub steps: u64, pub sim_ns: u64, pub switches: u64, pub stalls: u64, pub spurious: u64, pub fs_ops: u64, pub mutations: u64, pub escapes: u64,
    pub trace_hash: u64, pub threads: u32, pub schedule: Option<Vec<(u32, u32)>>, pub op_count: [u64; NOPS], pub fault_fired: Vec<u32>, pub stdin_unread: usize,
}
impl Outcome {
    /// Files opened for writing or otherwise mutated, in order.
    pub fn mutated(&self) -> Vec<String> { self.log.lines().filter_map(|l| l.strip_prefix("MUT ")).map(|l| l.splitn(2, ' ').nth(1).unwrap_or("").to_string()).collect() }
    pub fn fired(&self) -> bool { self.fault_fired.iter().any(|x| *x > 0) }
}
fn shared() -> *mut Shared {
    static S: OnceLock<usize> = OnceLock::new();
    *S.get_or_init(|| unsafe { let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0); assert!(p as isize != -1); p as usize }) as *mut Shared
}
/// Re-executes the program without address randomisation so that every run is exactly repeatable.
pub fn init() {
    if unsafe { sim_disable_aslr() } == 1 {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args_os().skip(1)).exec();
        panic!("re-exec: {e}");
    }
    unsafe {
        umask(0o22);
        let p = mmap(arena::BASE as *mut u8, arena::SIZE, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0); // private, anonymous, no reserve, fixed
        assert!(p as usize == arena::BASE, "arena");
    }
    shared();
}
pub struct RunEnv<'a> { pub root: &'a Path, pub cwd: &'a Path, pub stdin: Option<&'a [u8]>, pub watchdog_s: u32 }
/// Runs `body` in a forked child under the simulator. `setup` runs in the child before the simulation starts.
pub fn run(cfg: &SimCfg, env: &RunEnv, setup: impl FnOnce(), body: impl FnOnce() -> i32) -> Outcome {
    let sh = shared();
    unsafe {
        // reset everything up to the big arrays
        std::ptr::write_bytes(sh as *mut u8, 0, std::mem::offset_of!(Shared, dec));
        if let Some(b) = env.stdin { assert!(b.len() <= IO_MAX); std::ptr::copy_nonoverlapping(b.as_ptr(), (&raw mut (*sh).inp) as *mut u8, b.len()); (*sh).in_len = b.len() as u32; (*sh).in_closed = 1; }
    }
    let decs: Vec<CDec> = cfg.schedule.iter().flatten().map(|(a, w)| CDec { at: *a, who: *w }).collect();
    let mut c: Box<CCfg> = unsafe { Box::new(std::mem::zeroed()) };
    c.seed = cfg.seed; c.dir_seed = cfg.dir_seed; c.start_ns = 1_000_000_000_000; c.wall_ns = 1_760_000_000_000_000_000; c.max_steps = cfg.max_steps; c.crash_at = cfg.crash_at; c.out_cap = cfg.out_cap; c.lag_ppm = cfg.lag_ppm;
    c.mode = cfg.prio as u32; c.switch_ppm = cfg.switch_ppm; c.alloc_ppm = cfg.alloc_ppm; c.stall_ppm = cfg.stall_ppm; c.spurious_ppm = cfg.spurious_ppm; c.cpus = cfg.cpus.max(1);
    c.chunk_max = cfg.chunk_max; c.out_chunk_max = cfg.out_chunk_max; c.file_chunk_max = cfg.file_chunk_max; c.log_ops = cfg.log_ops as u32;
    c.replay = cfg.schedule.is_some() as u32; c.nreplay = decs.len() as u32; c.replay_dec = decs.as_ptr();
    assert!(cfg.faults.len() <= MAXFAULTS);
    c.nfaults = cfg.faults.len() as u32;
    for (i, f) in cfg.faults.iter().enumerate() {
        let d = &mut c.faults[i];
        d.op = OPS.iter().position(|o| *o == f.op).unwrap_or_else(|| panic!("op {}", f.op)) as u32;
        d.kind = FKINDS.iter().position(|o| *o == f.kind).unwrap_or_else(|| panic!("kind {}", f.kind)) as u32;
        d.nth = f.nth; d.repeat = f.repeat.max(1); d.arg = f.arg;
        assert!(f.path.len() < 239);
        d.path[..f.path.len()].copy_from_slice(f.path.as_bytes());
    }
    use std::os::unix::ffi::OsStrExt;
    let rb = env.root.as_os_str().as_bytes();
    assert!(rb.len() < 511);
    c.root[..rb.len()].copy_from_slice(rb);
    // The child's only thread is a new one: nothing this thread keeps for itself (hash keys, caches) reaches the run.
    let cp = &mut *c as *mut CCfg as usize;
    let sp = sh as usize;
    let f = move || -> i32 {
        let pid = unsafe { fork_real() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe { alarm(env.watchdog_s); sim_child(); }
            arena::start();
            std::env::set_current_dir(env.cwd).unwrap();
            setup();
            unsafe { sim_begin(cp as *mut CCfg, sp as *mut Shared); }
            let code = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(body)) { Ok(c) => c, Err(_) => 101 };
            // what Rust's runtime does when main returns: flush stdout, ignoring errors
            { use std::io::Write; let _ = std::io::stdout().flush(); }
            unsafe { sim_finish(code) }
        }
        pid
    };
    struct Move<T>(T);
    unsafe impl<T> Send for Move<T> {} // the spawning thread does nothing but wait
    impl<T: FnOnce() -> i32> Move<T> { fn call(self) -> i32 { (self.0)() } }
    let f = Move(f);
    let pid = std::thread::scope(|s| std::thread::Builder::new().name("main".into()).stack_size(8 << 20).spawn_scoped(s, move || f.call()).unwrap().join().unwrap());
    let mut st = 0;
    loop { let r = unsafe { waitpid(pid, &mut st, 0) }; if r == pid { break } }
    unsafe {
        let s = &*sh;
        let sl = |p: *const u8, n: u32| std::slice::from_raw_parts(p, n as usize).to_vec();
        let signal = st & 0x7f;
        let kind = if signal != 0 { if signal == 14 { Kind::Hung } else { Kind::Aborted } } else { match s.outcome { 1 => Kind::Exited, 2 => Kind::Crashed, 3 => Kind::Deadlock, 4 => Kind::StepLimit, 5 => Kind::Aborted, 6 => Kind::Unsupported, _ => Kind::Aborted } };
        Outcome {
            kind, code: if signal != 0 { 128 + signal } else { s.exit_code }, out: sl(s.out.as_ptr(), s.out_len), err: String::from_utf8_lossy(&sl(s.err.as_ptr(), s.err_len)).into_owned(), log: String::from_utf8_lossy(&sl(s.log.as_ptr(), s.log_len)).into_owned(), user: sl(s.user.as_ptr(), s.user_len),
            steps: s.steps, sim_ns: s.sim_ns, switches: s.switches, stalls: s.stalls, spurious: s.spurious, fs_ops: s.fs_ops, mutations: s.mutations, escapes: s.escapes, trace_hash: s.trace_hash, threads: s.threads,
            schedule: if s.dec_truncated != 0 { None } else { Some(s.dec[..s.ndec as usize].iter().map(|d| (d.at, d.who)).collect()) },
            op_count: s.op_count, fault_fired: s.fault_fired[..cfg.faults.len()].to_vec(), stdin_unread: (s.in_len - s.in_pos) as usize,
        }
    }
}
// ---- for code running inside the simulation
pub fn stdin_push(b: &[u8]) -> bool { unsafe { sim_stdin_push(b.as_ptr(), b.len()) == 0 } }
pub fn stdin_close() { unsafe { sim_stdin_close() } }
pub fn stdin_pending() -> usize { unsafe { sim_stdin_pending() } }
pub fn stdout_len() -> usize { unsafe { sim_stdout_len() } }
pub fn stdout_from(pos: usize) -> Vec<u8> { unsafe { std::slice::from_raw_parts(sim_stdout_ptr().add(pos), sim_stdout_len() - pos).to_vec() } }
pub fn stdout_wait(have: usize, timeout_ns: u64) -> usize { unsafe { sim_stdout_wait(have, timeout_ns) } }
/// The client has taken stdout up to here; a writer waiting for room goes on.
pub fn stdout_take(pos: usize) { unsafe { sim_stdout_take(pos) } }
/// The client has gone: writing to stdout fails from now on.
pub fn stdout_close() { unsafe { sim_stdout_close() } }
/// Opening or reading this path (relative to the root) fails until cleared (errno 0).
pub fn bad_path(rel: &str, errno: i32) { unsafe { sim_bad_path(rel.as_ptr(), rel.len(), errno) } }
/// Runs `f` outside the simulation (no schedule points, no faults): the environment acting by itself.
pub fn outside<T>(f: impl FnOnce() -> T) -> T { unsafe { sim_bypass(1) }; let r = f(); unsafe { sim_bypass(0) }; r }
pub fn now_ns() -> u64 { unsafe { sim_now_ns() } }
pub fn sim_random() -> u64 { unsafe { sim_rand() } }
pub fn yield_now() { unsafe { sim_yield() } }
pub fn steps() -> u64 { unsafe { sim_steps() } }
pub fn log(s: &str) { unsafe { sim_log(s.as_ptr(), s.len()) } }
/// Leaves bytes for the parent (the harness' own record of the run).
pub fn user_write(b: &[u8]) { unsafe { let s = &mut *shared(); let n = s.user_len as usize; let k = b.len().min(IO_MAX - n); s.user[n..n + k].copy_from_slice(&b[..k]); s.user_len += k as u32; } }
pub fn finish(code: i32) -> ! { unsafe { sim_finish(code) } }
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { let mut r = Rng(s ^ 0x5DEECE66D); r.next(); r }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, pct: u32) -> bool { self.next() % 100 < pct as u64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
}
