//! The deterministic scheduler (shim/detsched.c) as seen from Rust.
#![allow(dead_code)]
extern "C" {
    fn ds_suspend() -> i32;
    fn ds_resume(s: i32);
    fn ds_self() -> i32;
    fn ds_op(op: u32);
    fn ds_point(kind: i32);
    fn ds_block(key: usize);
    fn ds_wake(key: usize) -> i32;
    fn ds_total() -> u64;
    fn ds_hash() -> u64;
    fn ds_thread_init(t: i32);
    fn ds_wait_turn();
    fn ds_done();
    fn ds_run_begin(strategy: i32, seed: u64, psw: u32, pop: u32, pspur: u32, cap: u64);
    fn ds_add_cp(at: u64);
    fn ds_add_target(t: u32, op: u32, step: u32);
    fn ds_phase(mask: u32, phase: u32);
    fn ds_trace_len() -> u32;
    fn ds_trace_overflow() -> u32;
    fn ds_trace_get(i: u32, out: *mut u32);
    fn ds_states(out: *mut u8) -> i32;
    fn ds_replay_clear();
    fn ds_replay_add(t: u32, op: u32, step: u32, kind: u32, to: u32);
    static mut ds_c_points: u64;
    static mut ds_c_switch: u64;
    static mut ds_c_preempt: u64;
    static mut ds_c_block: u64;
    static mut ds_c_spurious: u64;
    static mut ds_c_yield: u64;
    static mut ds_c_force: u64;
}
pub const K_OP: i32 = 1;
pub const K_YIELD: i32 = 4;
pub const K_HARNESS: i32 = 6;
pub const REPLAY: i32 = 0;
pub const RANDOM: i32 = 1;
pub const PCT: i32 = 2;
pub const TARGET: i32 = 3;
pub const OPS: i32 = 4;
pub const SERIAL: i32 = 5;

/// Scheduling is on between `on()` and the end of the guard, off in the harness's own code.
pub struct Mode(i32);
pub fn on() -> Mode {
    unsafe {
        let s = ds_suspend();
        ds_resume(1);
        Mode(s)
    }
}
pub fn off() -> Mode {
    unsafe { Mode(ds_suspend()) }
}
impl Drop for Mode {
    fn drop(&mut self) {
        unsafe { ds_resume(self.0) }
    }
}
pub fn me() -> usize {
    unsafe { ds_self().max(0) as usize }
}
pub fn op(uid: u32) {
    unsafe { ds_op(uid) }
}
pub fn point(k: i32) {
    unsafe { ds_point(k) }
}
pub fn block(key: usize) {
    unsafe { ds_block(key) }
}
pub fn wake(key: usize) {
    unsafe {
        ds_wake(key);
    }
}
pub fn total() -> u64 {
    unsafe { ds_total() }
}
pub fn hash() -> u64 {
    unsafe { ds_hash() }
}
pub fn thread_init(t: usize) {
    unsafe { ds_thread_init(t as i32) }
}
pub fn wait_turn() {
    unsafe { ds_wait_turn() }
}
pub fn done() {
    unsafe { ds_done() }
}
pub fn run_begin(strategy: i32, seed: u64, psw: u32, pop: u32, pspur: u32, cap: u64) {
    unsafe { ds_run_begin(strategy, seed, psw, pop, pspur, cap) }
}
pub fn add_cp(at: u64) {
    unsafe { ds_add_cp(at) }
}
pub fn add_target(t: u32, op: u32, step: u32) {
    unsafe { ds_add_target(t, op, step) }
}
pub fn phase(mask: u32, p: u32) {
    unsafe { ds_phase(mask, p) }
}
pub fn states() -> String {
    let mut b = [0u8; 16];
    let n = unsafe { ds_states(b.as_mut_ptr()) };
    String::from_utf8_lossy(&b[..n as usize]).into_owned()
}
pub fn trace() -> Vec<[u32; 5]> {
    unsafe {
        (0..ds_trace_len())
            .map(|i| {
                let mut o = [0u32; 5];
                ds_trace_get(i, o.as_mut_ptr());
                o
            })
            .collect()
    }
}
pub fn trace_overflow() -> bool {
    unsafe { ds_trace_overflow() != 0 }
}
pub fn set_replay(d: &[[u32; 5]]) {
    unsafe {
        ds_replay_clear();
        for r in d {
            ds_replay_add(r[0], r[1], r[2], r[3], r[4]);
        }
    }
}
#[derive(Clone, Copy, Default, Debug)]
pub struct Counters {
    pub points: u64,
    pub switches: u64,
    pub preempt: u64,
    pub block: u64,
    pub spurious: u64,
    pub yields: u64,
    pub forced: u64,
}
pub fn counters() -> Counters {
    unsafe {
        Counters { points: ds_c_points, switches: ds_c_switch, preempt: ds_c_preempt, block: ds_c_block, spurious: ds_c_spurious, yields: ds_c_yield, forced: ds_c_force }
    }
}

#[derive(Clone)]
/// The second field, if there, is what comes out every time.
pub struct Rng(pub u64, pub Option<u64>);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s ^ 0x5bd1e9955bd1e995, None);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        if let Some(x) = self.1 {
            return x;
        }
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xD6E8FEB86659FD93), None);
    r.next();
    r.next()
}
