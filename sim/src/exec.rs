//! Runs one simulated program against the real crates and judges it: the reference model, the recorded
//! history and the oracles.
use crate::backend::{self, Backend};
use crate::ds;
use crate::handles::{self, AnyGuard, AnyHandle, Hk};
use crate::lin;
use crate::prog::*;
use crate::types::*;
use craballoc::prelude::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub const NEVER: u64 = u64::MAX;

// ---- the run in progress, for whoever has to report it -----------------------------------------------
pub struct Ctx {
    pub prop: String,
    pub program: Program,
    pub out: Option<String>,
    pub replay: bool,
}
pub static mut CTX: *mut Ctx = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn ctx() -> &'static mut Ctx {
    unsafe { &mut *CTX }
}
std::thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    // the next call into the code under test comes from a destructor, while a panic unwinds
    static UNWINDING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Report the violation and end the process: the run is over and the other threads stay parked.
pub fn fatal(class: &str, msg: &str) -> ! {
    if crate::WARM.load(SeqCst) {
        unsafe { _exit(11) }
    }
    let c = ctx();
    let mut p = c.program.clone();
    p.strat = ds::REPLAY;
    p.decs = ds::trace();
    let mut s = format!("# class {class}\n# what {}\n", msg.replace('\n', " / "));
    s += &p.to_text();
    if let Some(o) = &c.out {
        let _ = std::fs::write(o, &s);
    }
    if c.replay {
        println!("class {class}\nwhat {msg}\nhash {:016x}", ds::hash());
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(10) }
}
extern "C" {
    fn _exit(c: i32) -> !;
}
#[no_mangle]
pub extern "C" fn ds_on_fatal(code: i32) {
    let m = ds::off();
    let st = ds::states();
    std::mem::forget(m);
    if code == 1 {
        fatal("deadlock", &format!("no thread can make progress (thread states {st}; r runnable, f waiting for a lock, k waiting for an event, d done)"));
    }
    fatal("stepcap", &format!("no end within the step bound (thread states {st})"));
}
pub fn viol(props: &[&str], class: &str, msg: String) {
    if crate::WARM.load(SeqCst) {
        return;
    }
    let c = ctx();
    if c.prop == "ALL" || props.is_empty() || props.contains(&c.prop.as_str()) {
        fatal(class, &msg)
    }
}
pub fn runtime_violation(msg: String) {
    viol(&["C16", "C06", "C04", "C07"], "runtime-call", msg)
}

// ---- the model ---------------------------------------------------------------------------------------
pub struct Wr {
    pub inv: u64,
    pub ret: u64,
    pub enc: Enc,
    pub published: u64,
    pub tainted: bool,
    pub poke: bool,
    pub uid: u32,
}
pub struct LinOp {
    pub inv: u64,
    pub ret: u64,
    pub k: LinK,
    pub uid: u32,
}
pub enum LinK {
    Get(usize, Enc),
    Vec(Vec<Enc>),
    Swap(usize, Enc, Option<Enc>),
}
pub struct Al {
    pub name: u32,
    pub vt: &'static TyVt,
    pub ty: usize,
    pub array: bool,
    pub base: u32,
    pub n: u32,
    pub notifier: usize,
    pub lo: i32,
    pub hi: i32,
    pub cpu_lo: i32,
    pub cpu_hi: i32,
    pub lo_zero: u64,
    pub cpu_lo_zero: u64,
    pub ev: u64,
    pub dead_at: u64,
    pub recycled_at: u64,
    pub birth_ret: u64,
    pub cells: Vec<Vec<Wr>>,
    pub init: Vec<Enc>,
    pub lin: Vec<LinOp>,
    /// how many operations may have poisoned it
    pub poisoned: u32,
    pub gpu_writer: bool,
    pub mut_inflight: i32,
    pub last_mut_ret: u64,
    pub links: BTreeMap<usize, u32>,
}
impl Al {
    pub fn words(&self) -> u32 {
        self.n * self.vt.words as u32
    }
    pub fn end(&self) -> u32 {
        self.base + self.words()
    }
    /// Whether some item's one possible value is not what the buffer holds.
    fn unsynced(&self, slab: &[u32], t0: u64) -> bool {
        if self.poisoned > 0 || self.mut_inflight > 0 || self.vt.words == 0 || self.ty == T_BOMB {
            return false;
        }
        self.cells.iter().enumerate().any(|(c, ws)| {
            let Some(last) = ws.iter().max_by_key(|w| w.inv) else { return false };
            if ws.iter().any(|w| w.poke || w.tainted || w.ret >= t0) || ws.iter().any(|w| w.uid != last.uid && w.ret >= last.inv) {
                return false;
            }
            let at = self.base as usize + c * self.vt.words;
            at + self.vt.words > slab.len() || (self.vt.read)(slab, at as u32) != last.enc
        })
    }
    fn alive(&self) -> bool {
        self.lo >= 1 && self.birth_ret != NEVER
    }
}
pub struct Slot {
    h: Option<Box<dyn AnyHandle>>,
    al: usize,
    kind: Hk,
    users: u32,
}
pub struct GuardSlot {
    g: Option<Box<dyn AnyGuard>>,
    handle: u32,
    th: usize,
    inv: u64,
    old: Enc,
}
pub struct BufSlot<B> {
    /// boxed, as calls hold on to it while the map changes
    b: Box<SlabBuffer<B>>,
    users: u32,
    /// borrowed mutably by a call that is still going on
    busy: bool,
    /// when this handle came to hold this buffer
    since: u64,
    /// the commit that returned it as a new buffer, if one did: its index
    from_commit: Option<usize>,
}
pub struct CommitRec {
    inv: u64,
    ret: u64,
    ok: bool,
}
pub struct Snap {
    at: u64,
    buf: u64,
    k: usize,
    starts: usize,
    pokes: u64,
    words: Vec<u32>,
}
#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub ops: u64,
    pub skipped: u64,
    pub evals: BTreeMap<&'static str, u64>,
    pub faults: BTreeMap<&'static str, u64>,
    pub kinds: BTreeMap<&'static str, u64>,
    pub kinds_skipped: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub backends: [u64; 3],
    pub strategies: [u64; 6],
    pub nontrivial: u64,
    pub lin_inconclusive: u64,
}
impl Stats {
    pub fn ev(&mut self, k: &'static str) {
        *self.evals.entry(k).or_default() += 1;
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_default() += 1;
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_default() += 1;
    }
}
pub struct World<R: Backend> {
    pub p: Program,
    pub st: Stats,
    allocs: Vec<Option<Box<SlabAllocator<R>>>>,
    handles: BTreeMap<u32, Slot>,
    guards: BTreeMap<u32, GuardSlot>,
    bufs: BTreeMap<u32, BufSlot<R::Buffer>>,
    als: Vec<Al>,
    clock: u64,
    commits: Vec<CommitRec>,
    inflight: usize,
    faulty_inflight: usize,
    failed_commits: usize,
    commit_activity: u64,
    mut_inflight: i32,
    last_mut_ret: u64,
    unknown_notifiers: bool,
    newest_k: usize,
    newest_id: u64,
    k_ids: BTreeMap<usize, u64>,
    max_len: usize,
    pokes: u64,
    last_snap: Option<Snap>,
    hw: u32,
    failed_words: u32,
    occ: i64,
    occ_peak: i64,
    phase_done: u32,
    held: Vec<Vec<u32>>,
    rt: R,
    live0: usize,
    pub obs: Vec<String>,
    dead_alloc: bool,
    /// each thread's own slab on the same runtime, if it has made one
    others: Vec<Option<Box<OtherSlab<R>>>>,
}
/// A second slab that one thread uses alone: what it holds is known exactly, whatever happens to the first.
pub struct OtherSlab<R: Backend> {
    slab: SlabAllocator<R>,
    vals: Vec<(Hybrid<u32>, u32)>,
    arrs: Vec<(HybridArray<u32>, Vec<u32>)>,
    buf: Option<SlabBuffer<R::Buffer>>,
    /// 2: something was written since the last commit, 1: something was dropped, 0: nothing happened
    pending: u8,
    count: u32,
}
fn vtable(ty: usize) -> &'static TyVt {
    static mut T: Vec<Option<&'static TyVt>> = Vec::new();
    // SAFETY: one thread runs at a time
    #[allow(static_mut_refs)]
    unsafe {
        if T.is_empty() {
            T = (0..NTYPES).map(|_| None).collect();
        }
        let i = ty % NTYPES;
        if T[i].is_none() {
            T[i] = Some(Box::leak(Box::new(vt(i))));
        }
        T[i].unwrap()
    }
}
enum Outcome<T> {
    Ok(T),
    Panic(String),
}
/// Run code under test; a panic is caught, with its message.
fn guarded<T>(f: impl FnOnce() -> T) -> Outcome<T> {
    struct OnDrop<F: FnMut()>(F);
    impl<F: FnMut()> Drop for OnDrop<F> {
        fn drop(&mut self) {
            (self.0)()
        }
    }
    let r = if UNWINDING.replace(false) {
        let mut f = Some(f);
        let mut r = None;
        let e = catch_unwind(AssertUnwindSafe(|| {
            let _d = OnDrop(|| r = Some(catch_unwind(AssertUnwindSafe(f.take().unwrap()))));
            std::panic::resume_unwind(Box::new(0u8))
        }));
        std::mem::forget(e);
        r.unwrap()
    } else {
        catch_unwind(AssertUnwindSafe(f))
    };
    match r {
        Ok(v) => Outcome::Ok(v),
        Err(e) => {
            std::mem::forget(e);
            Outcome::Panic(LAST_PANIC.with(|p| p.borrow().clone()))
        }
    }
}
struct Flag {
    set: AtomicBool,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        let _m = ds::off();
        self.set.store(true, SeqCst);
        ds::wake(Arc::as_ptr(&self) as usize);
    }
}
/// Poll to the end, sleeping between polls until woken; `cancel` drops the future after so many polls.
/// `between` is what else this thread does once it has found the future pending.
fn drive<T>(mut fut: backend::Fut<'_, T>, cancel: Option<u32>, between: &mut dyn FnMut()) -> Option<T> {
    let flag = Arc::new(Flag { set: AtomicBool::new(false) });
    let waker: Waker = flag.clone().into();
    let mut cx = Context::from_waker(&waker);
    let mut polls = 0;
    loop {
        if cancel == Some(polls) {
            let _m = ds::on();
            drop(fut);
            return None;
        }
        let r = {
            let _m = ds::on();
            fut.as_mut().poll(&mut cx)
        };
        polls += 1;
        if let Poll::Ready(v) = r {
            let _m = ds::on();
            drop(fut);
            return Some(v);
        }
        if cancel == Some(polls) {
            continue;
        }
        if polls == 1 {
            between();
        }
        if wgpu::sim::LAZY.load(SeqCst) {
            let _m = ds::on();
            wgpu::sim::event_loop();
        }
        while !flag.set.swap(false, SeqCst) {
            ds::block(Arc::as_ptr(&flag) as usize);
        }
    }
}

impl<R: Backend> World<R> {
    pub fn new(p: Program) -> World<R> {
        let live0 = R::live().unwrap_or(0);
        let rt = R::fresh();
        // browser-like: nothing calls back until the thread lets go
        let often = matches!(p.prop.as_str(), "C12" | "C13");
        wgpu::sim::SLOW.store(p.vseed >> 24 & 1 == 0, SeqCst);
        wgpu::sim::LAZY.store(p.vseed >> 20 & if often { 3 } else { 7 } == 0, SeqCst);
        let a = SlabAllocator::<R>::new_with_label(&rt, R::usages(p.vseed), p.label_str());
        let mut allocs: Vec<_> = (0..p.threads).map(|_| Some(Box::new(a.clone()))).collect();
        allocs.push(Some(Box::new(a)));
        let t = p.threads;
        World {
            p,
            st: Stats::default(),
            allocs,
            handles: BTreeMap::new(),
            guards: BTreeMap::new(),
            bufs: BTreeMap::new(),
            als: vec![],
            clock: 0,
            commits: vec![],
            inflight: 0,
            faulty_inflight: 0,
            failed_commits: 0,
            commit_activity: 0,
            mut_inflight: 0,
            last_mut_ret: 0,
            unknown_notifiers: false,
            newest_k: 0,
            newest_id: 0,
            k_ids: BTreeMap::new(),
            max_len: 0,
            pokes: 0,
            last_snap: None,
            hw: 0,
            failed_words: 0,
            occ: 0,
            occ_peak: 0,
            phase_done: 0,
            held: vec![vec![]; t + 1],
            rt,
            live0,
            obs: vec![],
            dead_alloc: false,
            others: (0..t + 1).map(|_| None).collect(),
        }
    }
    pub fn begin_phase(&mut self) {
        self.phase_done = 0;
    }
    pub fn skip_thread(&mut self, t: usize) {
        self.phase_done |= 1 << t;
    }
    fn tick(&mut self) -> u64 {
        self.clock += 1;
        self.clock
    }
    fn alloc(&self, t: usize) -> Option<*const SlabAllocator<R>> {
        self.allocs.get(t).and_then(|a| a.as_ref()).map(|b| &**b as *const _)
    }
    fn unexpected(&self, op: &Op, msg: &str) {
        let brief: String = msg.chars().take(300).collect();
        viol(&[], &format!("panic:{}", brief.chars().filter(|c| !c.is_ascii_digit()).take(60).collect::<String>()), format!("operation {} {} of thread {} panicked: {brief}", op.uid, kind_name(op.k), op.th));
    }

    // -- bookkeeping of owners
    fn own_inc_hi(&mut self, al: usize, cpu: bool) {
        let a = &mut self.als[al];
        a.ev += 1;
        a.hi += 1;
        if cpu {
            a.cpu_hi += 1
        }
    }
    fn own_inc_lo(&mut self, al: usize, cpu: bool) {
        let now = self.clock;
        let a = &mut self.als[al];
        a.ev += 1;
        if a.lo == 0 {
            a.lo_zero = now
        }
        a.lo += 1;
        if cpu {
            if a.cpu_lo == 0 {
                a.cpu_lo_zero = now
            }
            a.cpu_lo += 1
        }
    }
    fn own_dec_lo(&mut self, al: usize, own: bool, cpu: bool) {
        let now = self.clock;
        let a = &mut self.als[al];
        a.ev += 1;
        if own {
            a.lo -= 1;
            if a.lo == 0 {
                a.lo_zero = now
            }
        }
        if cpu {
            a.cpu_lo -= 1;
            if a.cpu_lo == 0 {
                a.cpu_lo_zero = now
            }
        }
    }
    fn own_dec_hi(&mut self, al: usize, own: bool, cpu: bool) {
        let now = self.clock;
        let a = &mut self.als[al];
        a.ev += 1;
        if own {
            a.hi -= 1;
            if a.hi == 0 {
                a.dead_at = now
            }
        }
        if cpu {
            a.cpu_hi -= 1
        }
    }
    fn mut_begin(&mut self, al: Option<usize>) {
        self.mut_inflight += 1;
        if let Some(a) = al {
            self.als[a].mut_inflight += 1
        }
    }
    fn mut_end(&mut self, al: Option<usize>) {
        self.mut_inflight -= 1;
        self.last_mut_ret = self.clock;
        if let Some(a) = al {
            self.als[a].mut_inflight -= 1;
            self.als[a].last_mut_ret = self.clock
        }
    }

    // -- content oracle
    fn acceptable(al: &Al, cell: usize, t0: u64, t1: u64, enc: &Enc) -> bool {
        let ws = &al.cells[cell];
        if !ws.iter().any(|w| w.published <= t0) {
            return true;
        }
        ws.iter().any(|w| w.inv < t1 && w.enc == *enc && !ws.iter().any(|p| p.published <= t0 && w.ret < p.inv))
    }
    fn describe(al: &Al, cell: usize, t0: u64, t1: u64, got: &Enc) -> String {
        let ws: Vec<String> = al.cells[cell]
            .iter()
            .map(|w| {
                format!(
                    "{}{:?} by op {} [{}..{}] published {}",
                    if w.poke { "gpu wrote " } else { "" },
                    w.enc,
                    w.uid,
                    w.inv,
                    if w.ret == NEVER { "..".into() } else { w.ret.to_string() },
                    if w.published == NEVER { "no".into() } else { w.published.to_string() }
                )
            })
            .collect();
        format!("allocation {} ({} at {}) item {cell}: read {got:?} at [{t0}..{t1}]; writes: {}", al.name, al.vt.name, al.base, ws.join("; "))
    }
    /// A reader that follows ids into `words` (the words of the buffer from `start` on) seen in [t0,t1].
    fn check_contents(&mut self, words: &[u32], start: u32, t0: u64, t1: u64, whole: bool, props: &[&'static str], what: &'static str) {
        let mut bad = None;
        let mut n = 0;
        let mut seen = vec![];
        let mut full = vec![];
        let slab: &[u32] = if start == 0 {
            words
        } else {
            full.resize(start as usize, 0);
            full.extend_from_slice(words);
            &full
        };
        for i in 0..self.als.len() {
            let al = &self.als[i];
            if !al.alive() || al.lo_zero >= t0 && al.birth_ret > t0 {
                continue;
            }
            for c in 0..al.cells.len() {
                let at = al.base + (c * al.vt.words) as u32;
                if al.vt.words == 0 || at < start {
                    continue;
                }
                let must = al.cells[c].iter().any(|w| w.published <= t0);
                if (at as usize + al.vt.words) > slab.len() {
                    // never committed yet, or outside of what was read
                    if must && whole {
                        bad = Some(format!("allocation {} ({} at {}) lies outside of the {} words of the buffer", al.name, al.vt.name, at, slab.len()));
                    }
                    continue;
                }
                if !must {
                    continue;
                }
                if self.inflight > 0 && !al.vt.word {
                    continue;
                }
                n += 1;
                let got = (al.vt.read)(slab, at);
                if !Self::acceptable(al, c, t0, t1, &got) {
                    bad = Some(Self::describe(al, c, t0, t1, &got));
                    break;
                }
                if let Some(p) = (al.vt.parts)(slab, at) {
                    if p != got {
                        viol(&["C03"], "offset", format!("allocation {} ({} at {at}): fields read through their offsets give {p:?}, the whole gives {got:?}", al.name, al.vt.name));
                    }
                }
                // seen is as good as published from now on
                let same: Vec<usize> = (0..al.cells[c].len()).filter(|&w| al.cells[c][w].enc == got).collect();
                if same.len() == 1 && self.inflight == 0 {
                    seen.push((i, c, same[0]));
                }
            }
            if let Some(b) = bad.take() {
                viol(props, what, b);
            }
            let al = &self.als[i];
            if al.array && al.n > 0 && self.inflight == 0 && al.end() as usize <= slab.len() && al.base >= start && al.vt.words > 0 {
                let v = (al.vt.read_vec)(slab, al.base, al.n);
                for (c, got) in v.iter().enumerate() {
                    if !Self::acceptable(al, c, t0, t1, got) {
                        bad = Some(Self::describe(al, c, t0, t1, got));
                    }
                }
                if let Some(b) = bad.take() {
                    viol(props, what, b);
                }
            }
        }
        for (i, c, x) in seen {
            let w = &mut self.als[i].cells[c][x];
            w.published = w.published.min(t1);
        }
        for _ in 0..n {
            self.st.ev("content")
        }
    }

    // -- writes
    fn write_begin(&mut self, al: usize, cell: usize, enc: Enc, uid: u32) -> usize {
        let (now, taint) = (self.clock, self.faulty_inflight > 0);
        let c = &mut self.als[al].cells[cell];
        c.push(Wr { inv: now, ret: NEVER, enc, published: NEVER, tainted: taint, poke: false, uid });
        c.len() - 1
    }
    fn write_end(&mut self, al: usize, cell: usize, uid: u32) {
        let now = self.clock;
        for w in self.als[al].cells[cell].iter_mut() {
            if w.uid == uid && !w.poke {
                w.ret = now
            }
        }
    }
    fn write_cancel(&mut self, al: usize, cell: usize, uid: u32) {
        self.als[al].cells[cell].retain(|w| w.uid != uid || w.poke);
    }

    fn lock_ok(&self, t: usize, al: usize) -> bool {
        let name = self.als[al].name;
        self.held[t].iter().all(|h| *h < name)
    }
    /// The handle as a raw pointer, pinned until `unpin`.
    fn pin(&mut self, h: u32) -> Option<(*const dyn AnyHandle, usize, Hk)> {
        let s = self.handles.get_mut(&h)?;
        let p: *const dyn AnyHandle = &**s.h.as_ref()?;
        s.users += 1;
        Some((p, s.al, s.kind))
    }
    fn unpin(&mut self, h: u32) {
        if let Some(s) = self.handles.get_mut(&h) {
            s.users -= 1
        }
    }
    fn insert_handle(&mut self, uid: u32, h: Box<dyn AnyHandle>, al: usize) {
        let kind = h.kind();
        self.handles.insert(uid, Slot { h: Some(h), al, kind, users: 0 });
    }
}

/// One operation of thread `t`; `w` is shared by all threads, of which exactly one runs at a time, so
/// references into it are re-made after every call into the code under test.
macro_rules! W {
    ($w:expr) => {
        unsafe { &mut *$w }
    };
}
pub fn step<R: Backend>(w: *mut World<R>, t: usize, op: &Op) {
    ds::op(op.uid);
    ds::point(ds::K_OP);
    if op.u != 0 {
        UNWINDING.set(true);
        W!(w).st.probe("call from a destructor while a panic unwinds");
    }
    run_op(w, t, op);
    UNWINDING.set(false);
}
thread_local! {
    static RUNNING: std::cell::Cell<K> = const { std::cell::Cell::new(K::Commit) };
}
fn skip<R: Backend>(w: *mut World<R>) {
    let w = W!(w);
    w.st.skipped += 1;
    *w.st.kinds_skipped.entry(kind_name(RUNNING.get())).or_default() += 1;
}
fn run_op<R: Backend>(w: *mut World<R>, t: usize, op: &Op) {
    {
        let w = W!(w);
        w.st.ops += 1;
        *w.st.kinds.entry(kind_name(op.k)).or_default() += 1;
        RUNNING.set(op.k);
    }
    match op.k {
        K::NewVal | K::NewGpu | K::NewArr | K::NewGArr => create(w, t, op),
        K::Clone | K::Downgrade | K::WeakGpu | K::Upgrade => derive(w, op),
        K::IntoGpu => into_gpu(w, op),
        K::Drop => drop_handle(w, op),
        K::Set | K::Modify | K::Nested | K::Lock => write(w, t, op),
        K::LockBegin => lock_begin(w, t, op),
        K::Unlock => unlock(w, t, op.a, op.b, op),
        K::Get | K::GetVec => get(w, t, op),
        K::RefCount | K::Meta => inspect(w, op),
        K::WaitOthers => {
            while W!(w).phase_done & op.a != op.a {
                ds::block(&W!(w).phase_done as *const _ as usize);
            }
            W!(w).st.probe("waited for the other threads while holding a write guard");
        }
        K::Commit => commit(w, t, op),
        K::GetBuffer => get_buffer(w, t, op),
        K::BufClone | K::BufUpdate | K::BufCheck | K::BufDrop => buffer_op(w, op),
        K::HasQueued | K::GetIds => pending(w, t, op),
        K::Defrag => {
            let Some(a) = W!(w).alloc(t) else { return skip(w) };
            let r = guarded(|| {
                let _m = ds::on();
                unsafe { &*a }.defrag()
            });
            if let Outcome::Panic(m) = r {
                W!(w).unexpected(op, &m)
            }
        }
        K::Churn => churn(w, t, op),
        K::Other => other(w, t, op),
        K::Verify => verify(w, t, op),
        K::Poke => poke(w, t, op),
        K::Read | K::ReadArr => read(w, t, op),
        K::AllocDrop => {
            let a = W!(w).allocs.get_mut(t).and_then(|a| a.take());
            let main = if op.a == 1 { W!(w).dead_alloc = true; W!(w).allocs.last_mut().and_then(|a| a.take()) } else { None };
            if a.is_none() && main.is_none() {
                return skip(w);
            }
            if let Outcome::Panic(m) = guarded(|| {
                let _m = ds::on();
                drop(a);
                drop(main);
            }) {
                W!(w).unexpected(op, &m)
            }
            W!(w).tick();
        }
        K::CheckCpu => check_cpu(w, t, op),
        K::Reclaim => reclaim(w, t, op),
        K::Link => link(w, t, op),
        K::Chase | K::Stale => chase(w, t, op),
    }
}

// ---- creation and owners -------------------------------------------------------------------------------
fn create<R: Backend>(w: *mut World<R>, t: usize, op: &Op) {
    let Some(a) = W!(w).alloc(t) else { return skip(w) };
    if W!(w).handles.contains_key(&op.uid) {
        return skip(w);
    }
    let ty = op.a as usize % NTYPES;
    let vt = vtable(ty);
    let array = matches!(op.k, K::NewArr | K::NewGArr);
    let gpu = matches!(op.k, K::NewGpu | K::NewGArr);
    let n = if array { op.b as usize } else { 1 };
    let seeds: Vec<u64> = (0..n).map(|i| W!(w).p.op_seed(op.uid, i)).collect();
    let init: Vec<Enc> = seeds.iter().map(|s| (vt.enc_seed)(*s)).collect();
    let bomb = ty == T_BOMB && op.c != 0 && n > 0;
    let (inv, idx) = {
        let w = W!(w);
        let inv = w.tick();
        w.als.push(Al {
            name: op.uid,
            vt,
            ty,
            array,
            base: u32::MAX,
            n: n as u32,
            notifier: usize::MAX,
            lo: 0,
            hi: 0,
            cpu_lo: 0,
            cpu_hi: 0,
            lo_zero: inv,
            cpu_lo_zero: inv,
            ev: 0,
            dead_at: NEVER,
            recycled_at: NEVER,
            birth_ret: NEVER,
            cells: (0..n).map(|_| vec![]).collect(),
            init: init.clone(),
            lin: vec![],
            poisoned: 0,
            gpu_writer: false,
            mut_inflight: 0,
            last_mut_ret: 0,
            links: BTreeMap::new(),
        });
        let idx = w.als.len() - 1;
        w.own_inc_hi(idx, !gpu);
        w.mut_begin(Some(idx));
        for (i, e) in init.iter().enumerate() {
            w.write_begin(idx, i, e.clone(), op.uid);
        }
        let words = w.als[idx].words();
        w.occ += (words > 0) as i64;
        w.occ_peak = w.occ_peak.max(w.occ);
        (inv, idx)
    };
    let _ = inv;
    if bomb {
        BOMB.with(|b| b.set(op.c as u8));
    }
    let r = guarded(|| unsafe {
        if array {
            // from an iterator that itself uses the API
            let kind = if bomb { 0 } else { op.c };
            let mut hook = || {
                if kind > 0 {
                    W!(w).st.probe("call from inside the iterator an array is made of");
                    nested_op(w, t, &Op { a: kind >> 4, b: kind >> 4, ..op.clone() }, kind & 15);
                }
            };
            handles::new_array(&*a, ty, &seeds, gpu, &mut hook)
        } else {
            handles::new_value(&*a, ty, seeds[0], gpu)
        }
    });
    let unfired = bomb && BOMB.with(|b| b.replace(0)) != 0;
    let h = match r {
        Outcome::Ok(h) => h,
        Outcome::Panic(m) => {
            let w = W!(w);
            if !(bomb && !unfired && m.contains("injected")) {
                w.unexpected(op, &m);
            }
            w.st.fault("user code panics while a value is created");
            w.tick();
            w.unknown_notifiers = true;
            w.failed_words += w.als[idx].words();
            w.als[idx].cells.iter_mut().for_each(|c| c.clear());
            w.own_dec_hi(idx, true, !gpu);
            w.mut_end(Some(idx));
            // its place is free again after the next commit
            return;
        }
    };
    let meta = match guarded(|| h.meta()) {
        Outcome::Ok(m) => m,
        Outcome::Panic(m) => {
            W!(w).unexpected(op, &m);
            return;
        }
    };
    let w = W!(w);
    let now = w.tick();
    {
        let al = &mut w.als[idx];
        al.base = meta.base;
        al.notifier = meta.notifier;
        al.birth_ret = now;
        for c in 0..n {
            for wr in al.cells[c].iter_mut() {
                wr.ret = now
            }
        }
    }
    w.own_inc_lo(idx, !gpu);
    w.mut_end(Some(idx));
    w.insert_handle(op.uid, h, idx);
    w.check_meta(idx, &meta, true);
    let al = &w.als[idx];
    if al.words() == 0 {
        return;
    }
    w.hw = w.hw.max(al.end());
    // C04: disjoint from everything that is certainly alive
    let (b, e) = (al.base, al.end());
    for o in 0..w.als.len() {
        if o == idx || !w.als[o].alive() || w.als[o].words() == 0 {
            continue;
        }
        w.st.ev("disjoint");
        let ob = &w.als[o];
        if ob.base < e && b < ob.end() {
            viol(&["C04", "C05", "C01", "C02"], "overlap", format!("allocation {} ({}) got words {b}..{e} while allocation {} ({}), alive, has words {}..{}", op.uid, vt.name, ob.name, ob.vt.name, ob.base, ob.end()));
        }
    }
    for o in 0..w.als.len() {
        if o != idx && w.als[o].birth_ret != NEVER && w.als[o].alive() && w.als[o].notifier == w.als[idx].notifier {
            viol(&["C09", "C11", "C04"], "notifier", format!("allocations {} and {} share the identifier {}", w.als[o].name, op.uid, w.als[o].notifier));
        }
    }
    if w.p.epilogue & E_UNIFORM != 0 && w.als.iter().all(|o| o.words() == w.als[idx].words()) {
        w.st.ev("footprint");
        let bound = w.occ_peak * w.als[idx].words() as i64 + w.failed_words as i64;
        if e as i64 > bound {
            viol(&["C05"], "footprint", format!("allocation {} got words {b}..{e}: never more than {} allocations of {} words were alive or waiting for a commit, so {bound} words suffice", op.uid, w.occ_peak, w.als[idx].words()));
        }
    }
}
impl<R: Backend> World<R> {
    fn check_meta(&mut self, idx: usize, m: &handles::Meta, strong: bool) {
        self.st.ev("identity");
        let al = &self.als[idx];
        let ok = (m.base == al.base || (m.base == u32::MAX && !strong)) && m.notifier == al.notifier && m.oob_none;
        let n_ok = m.n.is_none_or(|n| n == al.n);
        let ids_ok = !strong || al.vt.words == 0 || m.ids.iter().enumerate().all(|(i, id)| *id == al.base + (i * al.vt.words) as u32) && m.ids.len() == al.n as usize;
        if !(ok && n_ok && ids_ok) {
            viol(&["C11", "C03", "C04"], "identity", format!("allocation {} has base {} len {} identifier {}, a handle to it says {} {:?} {} ids {:?}", al.name, al.base, al.n, al.notifier, m.base, m.n, m.notifier, m.ids));
        }
    }
}
fn derive<R: Backend>(w: *mut World<R>, op: &Op) {
    if W!(w).handles.contains_key(&op.uid) {
        return skip(w);
    }
    let Some((h, al, kind)) = W!(w).pin(op.a) else { return skip(w) };
    let (inv, hi0, cpu_hi0) = {
        let w = W!(w);
        let inv = w.tick();
        let r = (inv, w.als[al].hi, w.als[al].cpu_hi);
        // what the new handle will own
        match (op.k, kind) {
            (K::Clone, k) if k.strong() => w.own_inc_hi(al, k.cpu()),
            (K::Upgrade, Hk::WeakH) => w.own_inc_hi(al, true),
            (K::Upgrade, Hk::WeakG) => w.own_inc_hi(al, false),
            _ => {}
        }
        r
    };
    let r = guarded(|| unsafe {
        match op.k {
            K::Clone => Some((*h).clone_box()),
            K::Downgrade => (*h).downgrade(),
            K::WeakGpu => (*h).weak_gpu(),
            _ => (*h).upgrade(),
        }
    });
    let r = match r {
        Outcome::Ok(r) => r,
        Outcome::Panic(m) => {
            W!(w).unexpected(op, &m);
            return;
        }
    };
    let meta = match r.as_ref().map(|h| guarded(|| h.meta())) {
        Some(Outcome::Panic(m)) => {
            W!(w).unexpected(op, &m);
            return;
        }
        Some(Outcome::Ok(m)) => Some(m),
        None => None,
    };
    let w = W!(w);
    w.tick();
    w.unpin(op.a);
    if op.k == K::Upgrade {
        let cpu = kind == Hk::WeakH;
        if kind.strong() {
            return;
        }
        w.st.ev("upgrade");
        let a = &w.als[al];
        let must_some = if cpu { a.cpu_lo >= 1 && a.cpu_lo_zero < inv } else { a.lo >= 1 && a.lo_zero < inv };
        let must_none = if cpu { cpu_hi0 == 0 || hi0 == 0 } else { hi0 == 0 };
        if r.is_none() && must_some {
            viol(&["C11"], "upgrade-none", format!("upgrade {} of allocation {} failed though an owner existed throughout", op.uid, a.name));
        }
        if r.is_some() && must_none {
            viol(&["C11", "C04"], "upgrade-some", format!("upgrade {} of allocation {} succeeded after its last owner was gone", op.uid, a.name));
        }
        w.st.probe(if r.is_some() { "upgrade gave a handle" } else { "upgrade found nothing" });
        match r {
            None => w.own_dec_hi(al, true, cpu),
            Some(_) => w.own_inc_lo(al, cpu),
        }
    } else if op.k == K::Clone && kind.strong() {
        w.own_inc_lo(al, kind.cpu());
    }
    if r.is_none() && op.k != K::Upgrade {
        return skip(w);
    }
    if let (Some(h), Some(m)) = (r, meta) {
        let strong = h.kind().strong();
        w.insert_handle(op.uid, h, al);
        w.check_meta(al, &m, strong);
    }
}
fn take<R: Backend>(w: *mut World<R>, h: u32) -> Option<(Box<dyn AnyHandle>, usize, Hk)> {
    let s = W!(w).handles.get_mut(&h)?;
    if s.users > 0 {
        return None;
    }
    let b = s.h.take()?;
    let r = (b, s.al, s.kind);
    W!(w).handles.remove(&h);
    Some(r)
}
fn into_gpu<R: Backend>(w: *mut World<R>, op: &Op) {
    if W!(w).handles.contains_key(&op.uid) || !W!(w).handles.get(&op.a).is_some_and(|s| s.kind.cpu()) {
        return skip(w);
    }
    let Some((h, al, _)) = take(w, op.a) else { return skip(w) };
    W!(w).tick();
    W!(w).own_dec_lo(al, false, true);
    let r = guarded(|| h.into_gpu());
    let w = W!(w);
    w.tick();
    w.own_dec_hi(al, false, true);
    match r {
        Outcome::Panic(m) => w.unexpected(op, &m),
        Outcome::Ok(h) => w.insert_handle(op.uid, h, al),
    }
}
fn drop_handle<R: Backend>(w: *mut World<R>, op: &Op) {
    let Some((h, al, kind)) = take(w, op.a) else { return skip(w) };
    {
        let w = W!(w);
        w.tick();
        if kind.strong() {
            w.own_dec_lo(al, true, kind.cpu());
        }
        w.mut_begin(Some(al));
    }
    let r = guarded(|| {
        let _m = ds::on();
        drop(h)
    });
    let w = W!(w);
    w.tick();
    if kind.strong() {
        w.own_dec_hi(al, true, kind.cpu());
    }
    w.mut_end(Some(al));
    if let Outcome::Panic(m) = r {
        w.unexpected(op, &m)
    }
}

// ---- writes through handles ------------------------------------------------------------------------------
fn write<R: Backend>(w: *mut World<R>, t: usize, op: &Op) {
    let Some((h, al, kind)) = W!(w).pin(op.a) else { return skip(w) };
    let cpu = kind.cpu();
    let cell = (op.b & !AGAIN) as usize;
    if !kind.strong() || (cpu && !W!(w).lock_ok(t, al)) || (!cpu && op.k != K::Set) || (op.k == K::Lock && kind != Hk::Hybrid) {
        W!(w).unpin(op.a);
        return skip(w);
    }
    let name = W!(w).als[al].name;
    let n = W!(w).als[al].n as usize;
    let cell = if kind.array() { cell } else { 0 };
    let exists = cell < n;
    let is_bomb = W!(w).als[al].ty == T_BOMB;
    // the fault of this operation: panics of the caller's closure, or of its type
    let (mut panic_before, mut panic_after, mut bomb, mut nested) = (false, false, 0u8, 0u32);
    match op.k {
        K::Set if is_bomb => bomb = (op.c as u8).min(2),
        K::Modify => match op.c {
            1 => panic_before = true,
            2 => panic_after = true,
            3 | 4 if is_bomb => bomb = op.c as u8 - 2,
            _ => {}
        },
        K::Nested => nested = op.c.max(1),
        K::Lock => match op.c {
            1 => panic_after = true,
            3 | 4 if is_bomb => bomb = op.c as u8 - 2,
            _ => {}
        },
        _ => {}
    }
    let mutate = !(op.k == K::Lock && op.c == 2);
    // a new value, or the one the item had at first
    let seed = if op.b & AGAIN != 0 { W!(w).p.op_seed(name, cell) } else { W!(w).p.op_seed(op.uid, 0) };
    let vt = W!(w).als[al].vt;
    let enc = (vt.enc_seed)(seed);
    let inv = {
        let w = W!(w);
        let inv = w.tick();
        w.mut_begin(Some(al));
        if exists && mutate && !panic_before && !(panic_after && op.k == K::Modify) {
            w.write_begin(al, cell, enc.clone(), op.uid);
        }
        if !cpu {
            w.als[al].gpu_writer = true;
        }
        if cpu {
            w.held[t].push(name);
        }
        inv
    };
    if bomb != 0 {
        BOMB.with(|b| b.set(bomb));
    }
    let mut old: Option<Enc> = None;
    let was_poisoned = W!(w).als[al].poisoned > 0;
    if panic_before || panic_after || bomb != 0 {
        // from now on the value may be poisoned
        if cpu {
            W!(w).als[al].poisoned += 1;
        }
    }
    let r: Outcome<(bool, bool)> = match op.k {
        K::Set => guarded(|| {
            let (e, o) = unsafe { (*h).set(cell, seed) };
            if o.is_some() {
                old = o;
            }
            (e, true)
        }),
        K::Lock => guarded(|| {
            let mut g = unsafe { (*h).lock() }.unwrap();
            old = Some(g.read());
            if mutate {
                g.write(seed);
            }
            if panic_after {
                panic!("injected: the guard's owner");
            }
            drop(g);
            (true, true)
        }),
        _ => {
            let mut before = |o: &Enc| {
                old = Some(o.clone());
                if panic_before {
                    panic!("injected: closure, nothing changed yet");
                }
                if nested != 0 {
                    nested_op(w, t, op, nested);
                }
            };
            let mut after = || {
                if panic_after {
                    panic!("injected: closure, value changed");
                }
            };
            guarded(|| unsafe { (*h).modify(cell, seed, &mut before, &mut after) })
        }
    };
    let unfired = bomb != 0 && BOMB.with(|b| b.replace(0)) != 0;
    let w = W!(w);
    let ret = w.tick();
    if cpu {
        w.held[t].pop();
    }
    w.unpin(op.a);
    w.mut_end(Some(al));
    match r {
        Outcome::Panic(m) => {
            let injected = m.contains("injected") && (panic_before || panic_after || (bomb != 0 && !unfired));
            let poison = m.contains("Poison") && cpu && (w.als[al].poisoned > 0 || was_poisoned);
            if !injected && !poison {
                w.unexpected(op, &m);
            }
            if injected {
                w.st.fault(match op.k {
                    K::Lock => "user code panics while it holds a write guard",
                    _ if bomb != 0 => "user code panics while a value is encoded or cloned",
                    _ => "user closure panics inside modify",
                });
            } else {
                w.st.probe("poisoned value refused");
            }
            if op.k == K::Lock && injected {
                // the guard may still have published what the value was at that point
                for wr in w.als[al].cells.get_mut(cell).into_iter().flatten() {
                    if wr.uid == op.uid {
                        wr.ret = ret;
                        wr.tainted = true;
                    }
                }
            } else if cell < n {
                w.write_cancel(al, cell, op.uid);
            }
        }
        Outcome::Ok((existed, tag_ok)) => {
            if unfired && !panic_before && !panic_after && cpu {
                // the fault never happened
                w.als[al].poisoned -= 1;
            }
            if (panic_before || panic_after) && exists {
                viol(&["C14"], "swallowed", format!("operation {}: the closure's panic did not reach the caller", op.uid));
            }
            if existed != exists {
                viol(&["C10", "C01"], "index", format!("operation {} on item {cell} of allocation {name} (len {n}): existed = {existed}", op.uid));
            }
            if !tag_ok {
                viol(&["C10"], "result", format!("operation {}: modify did not return the closure's result", op.uid));
            }
            if exists && mutate {
                w.write_end(al, cell, op.uid);
            }
            if exists && cpu {
                let k = if mutate { LinK::Swap(cell, enc, old) } else { LinK::Get(cell, old.unwrap_or_default()) };
                w.als[al].lin.push(LinOp { inv, ret, k, uid: op.uid });
            }
        }
    }
}
/// What a closure passed to `modify` does with the rest of the API.
fn nested_op<R: Backend>(w: *mut World<R>, t: usize, op: &Op, kind: u32) {
    W!(w).st.probe("call from inside a modify closure");
    let uid = op.uid | 0x4000_0000;
    let mk = |k: K, a: u32, b: u32| Op { ph: op.ph, th: op.th, uid, k, a, b, c: 0, u: 0 };
    let b = op.b;
    match kind {
        1 => run_op(w, t, &mk(K::Commit, 0, 0)),
        2 => {
            run_op(w, t, &mk(K::NewVal, T_U32X2 as u32, 0));
        }
        3 => run_op(w, t, &mk(K::Set, b, 0)),
        4 => run_op(w, t, &mk(K::Get, b, 0)),
        5 => run_op(w, t, &mk(K::HasQueued, 0, 0)),
        6 => run_op(w, t, &mk(K::Clone, op.a, 0)),
        7 => run_op(w, t, &mk(K::GetIds, 0, 0)),
        8 => run_op(w, t, &mk(K::Drop, b, 0)),
        9 => run_op(w, t, &mk(K::Upgrade, b, 0)),
        10 => run_op(w, t, &mk(K::Defrag, 0, 0)),
        11 => run_op(w, t, &mk(K::Read, 0, 1)),
        14 => {
            for (k, n) in [(0, 0), (1, 3), (5, 0), (3, 1), (5, 0)] {
                run_op(w, t, &mk(K::Other, k, n));
            }
        }
        12 => {
            run_op(w, t, &mk(K::NewGArr, T_U32 as u32, 3));
            run_op(w, t, &mk(K::Commit, 0, 0));
        }
        _ => {
            run_op(w, t, &mk(K::Drop, b, 0));
            run_op(w, t, &mk(K::Commit, 0, 0));
            run_op(w, t, &mk(K::GetBuffer, 0, 0));
            run_op(w, t, &mk(K::BufUpdate, uid, 0));
        }
    }
}
/// A long history in one operation, of things that leave no trace of their own: values without words that
/// come and go (0), commits of nothing (1), writes of a value without words that no commit takes yet (2),
/// questions (3). What was there before must be as it was.
fn churn<R: Backend>(w: *mut World<R>, t: usize, op: &Op) {
    let (ph, th, uid) = (op.ph, op.th, op.uid);
    let commit = move |n: u32| run_op(w, t, &Op { ph, th, uid: uid << 8 | n, k: K::Commit, a: 0, b: 0, c: 0, u: 0 });
    if W!(w).p.threads > 1 && op.ph > 0 {
        return skip(w);
    }
    commit(1);
    if op.b >= 4 {
        return crowd(w, op);
    }
    let Some(a) = W!(w).alloc(t) else { return skip(w) };
    let r = guarded(|| {
        let _m = ds::off();
        let a = unsafe { &*a };
        let each = op.c.max(1);
        match op.b {
            0 => {
                for i in 0..op.a {
                    let v = a.new_value(std::marker::PhantomData::<u32>);
                    if i % 3 == 0 {
                        drop(v.clone())
                    }
                    drop(v);
                    if i % each == 0 {
                        own_commit(a);
                    }
                }
            }
            1 => {
                for _ in 0..op.a {
                    own_commit(a);
                }
            }
            2 => {
                let v = a.new_value(std::marker::PhantomData::<u32>);
                for _ in 0..op.a {
                    v.set(std::marker::PhantomData)
                }
            }
            _ => {
                for _ in 0..op.a {
                    a.get_updated_source_ids();
                    a.has_queued_updates();
                    a.get_buffer();
                }
            }
        }
    });
    match r {
        Outcome::Panic(m) => W!(w).unexpected(op, &m),
        Outcome::Ok(()) => {
            W!(w).tick();
            W!(w).st.probe("a history of tens of thousands of calls");
        }
    }
    commit(2);
}
fn own_commit<R: Backend>(slab: &SlabAllocator<R>) -> SlabBuffer<R::Buffer> {
    let before = backend::IN_COMMIT.with(|c| c.replace(true));
    let b = slab.commit();
    backend::IN_COMMIT.with(|c| c.set(before));
    b
}
/// Thousands of values and arrays on a slab of their own, between few commits.
fn crowd<R: Backend>(w: *mut World<R>, op: &Op) {
    let rt = W!(w).rt.clone();
    let usages = R::usages(W!(w).p.vseed);
    let mut rng = crate::ds::Rng::new(W!(w).p.vseed ^ (op.uid as u64) << 32 ^ op.c as u64);
    let n = (op.a as usize % 7000) + 300;
    let all: &'static [&'static str] = &["C01", "C02", "C04", "C05", "C06", "C07"];
    let mut bad: Vec<(&[&str], String)> = vec![];
    let r = guarded(|| {
        let _m = ds::off();
        let slab = SlabAllocator::<R>::new_with_label(&rt, usages, Some("crowd"));
        let mut vals: Vec<(Hybrid<u32>, u32)> = vec![];
        let mut gpus: Vec<(Gpu<u32>, u32)> = vec![];
        let mut arrs: Vec<(HybridArray<u32>, Vec<u32>)> = vec![];
        let mut x = 0u32;
        let mut next = || {
            x += 1;
            x.wrapping_mul(0x9E37_79B1)
        };
        let mut sizes = vec![];
        let mut old: Vec<u32> = vec![];
        for round in 0..5 {
            let (mut made, mut dropped) = (0, 0);
            match round {
                // everyone comes
                0 => {
                    for i in 0..n {
                        match i % 10 {
                            9 => {
                                let c: Vec<u32> = (0..2 + i % 7).map(|_| next()).collect();
                                arrs.push((slab.new_array(c.clone()), c));
                            }
                            6..=8 => {
                                let c = next();
                                gpus.push((slab.new_value(c).into_gpu_only(), c));
                            }
                            _ => {
                                let c = next();
                                vals.push((slab.new_value(c), c));
                            }
                        }
                        made += 1;
                    }
                }
                // most are written, some twice
                1 => {
                    for (v, c) in vals.iter_mut() {
                        if rng.chance(80) {
                            *c = next();
                            v.set(*c);
                            made += 1;
                        }
                    }
                    for (v, c) in gpus.iter_mut() {
                        for _ in 0..rng.below(3) {
                            *c = next();
                            v.set(*c);
                            made += 1;
                        }
                    }
                    for (a, c) in arrs.iter_mut() {
                        let i = rng.below(c.len());
                        c[i] = next();
                        a.set_item(i, c[i]);
                        made += 1;
                    }
                    // one array and one value are written all the time
                    let at = rng.below(arrs.len());
                    let (a, c) = &mut arrs[at];
                    let most = rng.below(c.len());
                    for k in 0..n * rng.below(3) {
                        // each item in turn, then one of them only
                        let i = if k < c.len() { k } else { most };
                        c[i] = next();
                        a.set_item(i, c[i]);
                        made += 1;
                    }
                    let (v, c) = &mut vals[0];
                    for _ in 0..n * rng.below(3) {
                        *c = next();
                        v.modify(|x| *x = *c);
                        made += 1;
                    }
                    // and one has many owners
                    let weak = WeakHybrid::from_hybrid(v);
                    let many: Vec<_> = (0..n).map(|i| if i % 2 == 0 { v.clone() } else { weak.upgrade().unwrap() }).collect();
                    if v.ref_count() != n + 1 || weak.strong_count() != n + 1 {
                        bad.push((&["C11"], format!("{} and {} owners counted, {} exist", v.ref_count(), weak.strong_count(), n + 1)));
                    }
                    drop(many);
                    if v.ref_count() != 1 {
                        bad.push((&["C11"], format!("{} owners counted after {n} have gone, 1 is left", v.ref_count())));
                    }
                }
                // every other one leaves
                2 => {
                    let mut k = 0;
                    let mut leaves = || {
                        k += 1;
                        k % 2 == 0
                    };
                    let before = vals.len() + gpus.len();
                    vals.retain(|_| !leaves());
                    gpus.retain(|_| !leaves());
                    dropped = before - vals.len() - gpus.len();
                }
                // as many come as have left: there must be room
                3 => {
                    let gone = n - n / 10 - vals.len() - gpus.len();
                    for _ in 0..gone {
                        let c = next();
                        vals.push((slab.new_value(c), c));
                        made += 1;
                    }
                }
                // all leave but one
                _ => {
                    dropped = vals.len() + gpus.len() + arrs.len() - 1;
                    vals.truncate(1);
                    gpus.clear();
                    arrs.clear();
                }
            }
            let ids = slab.get_updated_source_ids();
            if made > 0 && (!slab.has_queued_updates() || ids.is_empty()) {
                bad.push((&["C09"], format!("round {round}: {made} writes pend, has_queued_updates says {}, and there are {} ids", slab.has_queued_updates(), ids.len())));
            }
            let b = own_commit(&slab);
            if slab.has_queued_updates() || !slab.get_updated_source_ids().is_empty() {
                bad.push((&["C09"], format!("round {round}: something is queued right after a commit")));
            }
            let words = rt.snapshot(&b);
            sizes.push(words.len());
            let mut used: Vec<(usize, usize)> = vec![];
            let mut look = |at: usize, c: &[u32], cpu: Option<&[u32]>| {
                used.push((at, c.len()));
                if words.get(at..at + c.len()) != Some(c) {
                    bad.push((all, format!("round {round} of {n}: words {at}..{} hold {:?}, should be {c:?}", at + c.len(), words.get(at..at + c.len()))));
                }
                if cpu.is_some_and(|v| v != c) {
                    bad.push((&["C10"], format!("round {round} of {n}: the value at {at} is {cpu:?}, should be {c:?}")));
                }
            };
            for (v, c) in &vals {
                look(v.id().inner() as usize, &[*c], Some(&[v.get()]));
            }
            for (v, c) in &gpus {
                look(v.id().inner() as usize, &[*c], None);
            }
            for (a, c) in &arrs {
                look(a.array().starting_index(), c, Some(&a.get_vec()));
            }
            used.sort();
            if let Some(p) = used.windows(2).find(|p| p[0].0 + p[0].1 > p[1].0) {
                bad.push((&["C04"], format!("round {round} of {n}: the ranges {:?} and {:?} overlap", p[0], p[1])));
            }
            if dropped > 0 && made == 0 && words.get(..old.len()) != Some(&old[..]) {
                bad.push((&["C07"], format!("round {round} of {n}: nothing was written, yet words changed")));
            }
            old = words;
        }
        if sizes[3] > sizes[2] {
            bad.push((&["C05"], format!("{n} values: as many were created as had been dropped, and the slab grew from {} to {} words", sizes[2], sizes[3])));
        }
        // all but one word is free
        let v = vals.pop().unwrap();
        let used = n + n / 10;
        let c: Vec<u32> = (0..used as u32 / 2).collect();
        let a = slab.new_array(c.clone());
        let b = own_commit(&slab);
        let words = rt.snapshot(&b);
        let at = a.array().starting_index();
        if words.len() > sizes[4] {
            bad.push((&["C05"], format!("{n} values were dropped, and the slab grew from {} to {} words for an array of {} words", sizes[4], words.len(), c.len())));
        }
        if words.get(at..at + c.len()) != Some(&c[..]) || words.get(v.0.id().inner() as usize) != Some(&v.1) {
            bad.push((all, "the array in the place of dropped values, or the value left over, is not as written".into()));
        }
    });
    W!(w).st.ev("crowd");
    match r {
        Outcome::Panic(m) => W!(w).unexpected(op, &m),
        Outcome::Ok(()) => {
            W!(w).st.probe("thousands of values between two commits");
            for (p, m) in bad {
                viol(p, "crowd", format!("operation {}, a slab of its own: {m}", op.uid));
            }
        }
    }
}
/// The thread's own slab: 0 a new value, 1 a new array, 2 set, 3 set an item, 4 drop one, 5 commit and look,
/// 6 questions, 7 read back, 8 drop it all.
fn other<R: Backend>(w: *mut World<R>, t: usize, op: &Op) {
    if W!(w).others[t].is_none() {
        let seed = W!(w).p.vseed.wrapping_add(1);
        let rt = W!(w).rt.clone();
        let slab = {
            let _m = ds::on();
            SlabAllocator::<R>::new_with_label(&rt, R::usages(seed), Some("other"))
        };
        W!(w).others[t] = Some(Box::new(OtherSlab { slab, vals: vec![], arrs: vec![], buf: None, pending: 0, count: 0 }));
    }
    W!(w).st.probe("a second slab of the thread's own");
    // taken out: what it does may not reach itself again
    let mut slot = W!(w).others[t].take();
    let o = slot.as_mut().unwrap();
    o.count += 1;
    let x = (op.uid << 8).wrapping_add(o.count);
    let i = op.b as usize;
    let all: &[&str] = &["C01", "C04", "C06", "C07", "C10", "C12", "C14", "C15", "C16"];
    let rt = W!(w).rt.clone();
    let seed = W!(w).p.vseed.wrapping_add(1);
    let mut bad: Option<(&[&str], String)> = None;
    let r = guarded(|| {
        let m = ds::on();
        if op.a >= 8 {
            let OtherSlab { slab, vals, arrs, buf, .. } = *slot.take().unwrap();
            if i % 2 == 0 {
                drop(slab);
                drop((vals, buf, arrs));
            } else {
                drop((vals, arrs));
                drop(buf);
                drop(slab);
            }
            return;
        }
        let o = slot.as_mut().unwrap();
        match op.a {
            0 => {
                let v = o.slab.new_value(x);
                o.vals.push((v, x));
                o.pending = 2;
            }
            1 => {
                let n = 1 + i % 40;
                let c: Vec<u32> = (0..n as u32).map(|k| x.wrapping_add(k * 7)).collect();
                let a = o.slab.new_array(c.clone());
                o.arrs.push((a, c));
                o.pending = 2;
            }
            2 => {
                let n = o.vals.len().max(1);
                if let Some((v, c)) = o.vals.get_mut(i % n) {
                    v.set(x);
                    *c = x;
                    o.pending = 2;
                }
            }
            3 => {
                let n = o.arrs.len().max(1);
                if let Some((a, c)) = o.arrs.get_mut(i % n) {
                    let at = i / 7 % c.len();
                    let old = a.set_item(at, x);
                    if old != Some(c[at]) {
                        bad = Some((&["C10"], format!("item {at} of its array was {:?}, should have been {}", old, c[at])));
                    }
                    c[at] = x;
                    o.pending = 2;
                }
            }
            4 => {
                if i % 2 == 0 && !o.vals.is_empty() {
                    let n = o.vals.len();
                    drop(o.vals.swap_remove(i / 2 % n));
                    o.pending = 1;
                } else if !o.arrs.is_empty() {
                    let n = o.arrs.len();
                    drop(o.arrs.swap_remove(i / 2 % n));
                    o.pending = 1;
                }
            }
            5 | 7 => {
                let b = if op.a == 5 || o.buf.is_none() {
                    let b = own_commit(&o.slab);
                    o.pending = 0;
                    b
                } else {
                    o.slab.get_buffer().unwrap()
                };
                drop(m);
                if let Err(e) = R::described(&b, Some("other"), seed) {
                    bad = Some((&["C16"], format!("its buffer has {e}")));
                }
                let words = if op.a == 7 {
                    drive(R::read(&o.slab, &b, (Bound::Unbounded, Bound::Unbounded)), None, &mut || {}).unwrap().ok()
                } else {
                    Some(rt.snapshot(&b))
                };
                let fresh = o.pending == 0;
                if let Some(words) = words {
                    let mut look = |at: usize, n: usize, c: &[u32], cpu: Vec<u32>| {
                        if fresh && words.get(at..at + n) != Some(c) {
                            bad = Some((all, format!("words {at}..{} hold {:?}, should be {c:?}", at + n, words.get(at..at + n))));
                        }
                        if cpu != c {
                            bad = Some((&["C10", "C11"], format!("the value at {at} is {cpu:?}, should be {c:?}")));
                        }
                    };
                    for (v, c) in &o.vals {
                        look(v.id().inner() as usize, 1, &[*c], vec![v.get()]);
                    }
                    for (a, c) in &o.arrs {
                        look(a.array().starting_index(), c.len(), c, a.get_vec());
                    }
                } else if op.a == 7 {
                    bad = Some((&["C12"], "a read failed without a fault".into()));
                }
                if let Some(old) = &o.buf {
                    let same = R::buf_id(old) == R::buf_id(&b);
                    if old.is_valid() != same {
                        bad = Some((&["C08"], format!("its earlier buffer says valid {}, it is{} the one in use", !same, if same { "" } else { " not" })));
                    }
                }
                let _m = ds::on();
                o.buf = Some(b);
                return;
            }
            6 => {
                let (q, ids) = if i % 2 == 0 {
                    let q = o.slab.has_queued_updates();
                    (q, o.slab.get_updated_source_ids())
                } else {
                    let ids = o.slab.get_updated_source_ids();
                    (o.slab.has_queued_updates(), ids)
                };
                if o.pending != 1 && (q != (o.pending == 2) || ids.is_empty() == (o.pending == 2)) {
                    bad = Some((&["C09"], format!("has_queued_updates says {q}, the ids are {ids:?}, and there is {} to commit", if o.pending == 2 { "something" } else { "nothing" })));
                }
            }
            _ => {}
        }
        drop(m);
    });
    W!(w).others[t] = slot;
    W!(w).st.ev("second slab");
    match r {
        Outcome::Panic(m) => W!(w).unexpected(op, &m),
        Outcome::Ok(()) => {
            if let Some((p, m)) = bad {
                viol(p, "second-slab", format!("operation {} on the second slab of thread {t}: {m}", op.uid));
            }
        }
    }
}
fn lock_begin<R: Backend>(w: *mut World<R>, t: usize, op: &Op) {
    let Some((h, al, kind)) = W!(w).pin(op.a) else { return skip(w) };
    if kind != Hk::Hybrid || !W!(w).lock_ok(t, al) || W!(w).guards.contains_key(&op.uid) {
        W!(w).unpin(op.a);
        return skip(w);
    }
    let inv = W!(w).tick();
    let name = W!(w).als[al].name;
    W!(w).held[t].push(name);
    let r = guarded(|| unsafe { (*h).lock() }.unwrap());
    let w = W!(w);
    w.tick();
    match r {
        Outcome::Ok(g) => {
            let old = g.read();
            w.guards.insert(op.uid, GuardSlot { g: Some(g), handle: op.a, th: t, inv, old });
        }
        Outcome::Panic(m) => {
            w.held[t].retain(|x| *x != name);
            w.unpin(op.a);
            if !(m.contains("Poison") && w.als[al].poisoned > 0) {
                w.unexpected(op, &m)
            }
        }
    }
}
fn unlock<R: Backend>(w: *mut World<R>, t: usize, guard: u32, mutate: u32, op: &Op) {
    if !W!(w).guards.get(&guard).is_some_and(|g| g.th == t) {
        return skip(w);
    }
    let mut gs = W!(w).guards.remove(&guard).unwrap();
    let al = W!(w).handles[&gs.handle].al;
    let vt = W!(w).als[al].vt;
    let seed = W!(w).p.op_seed(op.uid, 0);
    let enc = (vt.enc_seed)(seed);
    {
        let w = W!(w);
        w.tick();
        w.mut_begin(Some(al));
        if mutate != 0 {
            w.write_begin(al, 0, enc.clone(), op.uid);
        }
    }
    let mut g = gs.g.take().unwrap();
    let r = guarded(move || {
        if mutate != 0 {
            g.write(seed);
        }
        drop(g);
    });
    let w = W!(w);
    let ret = w.tick();
    w.mut_end(Some(al));
    let name = w.als[al].name;
    w.held[t].retain(|x| *x != name);
    w.unpin(gs.handle);
    if let Outcome::Panic(m) = r {
        w.unexpected(op, &m);
        return;
    }
    let k = if mutate != 0 {
        w.write_end(al, 0, op.uid);
        LinK::Swap(0, enc, Some(gs.old))
    } else {
        LinK::Get(0, gs.old)
    };
    w.als[al].lin.push(LinOp { inv: gs.inv, ret, k, uid: op.uid });
}
/// Guards of a thread end with its phase.
pub fn end_thread<R: Backend>(w: *mut World<R>, t: usize) {
    let open: Vec<u32> = W!(w).guards.iter().filter(|(_, g)| g.th == t).map(|(k, _)| *k).rev().collect();
    for g in open {
        let op = Op { ph: 0, th: t as u8, uid: g | 0x2000_0000, k: K::Unlock, a: g, b: 0, c: 0, u: 0 };
        ds::op(op.uid);
        unlock(w, t, g, 0, &op);
    }
    W!(w).phase_done |= 1 << t;
    ds::wake(&W!(w).phase_done as *const _ as usize);
}
fn get<R: Backend>(w: *mut World<R>, t: usize, op: &Op) {
    let Some((h, al, kind)) = W!(w).pin(op.a) else { return skip(w) };
    if !kind.cpu() || !W!(w).lock_ok(t, al) {
        W!(w).unpin(op.a);
        return skip(w);
    }
    let cell = if kind.array() { op.b as usize } else { 0 };
    let inv = W!(w).tick();
    let r = guarded(|| unsafe {
        if op.k == K::GetVec {
            LinK::Vec((*h).get_vec())
        } else {
            match (*h).get(cell) {
                Some(e) => LinK::Get(cell, e),
                None => LinK::Get(usize::MAX, vec![]),
            }
        }
    });
    let w = W!(w);
    let ret = w.tick();
    w.unpin(op.a);
    let n = w.als[al].n as usize;
    match r {
        Outcome::Panic(m) => {
            if !(m.contains("Poison") && w.als[al].poisoned > 0) {
                w.unexpected(op, &m)
            }
        }
        Outcome::Ok(k) => {
            match &k {
                LinK::Get(c, _) => {
                    if (*c == usize::MAX) == (cell < n) {
                        viol(&["C10"], "index", format!("get of item {cell} of an array of {n}: {}", if *c == usize::MAX { "nothing" } else { "a value" }));
                    }
                    if *c == usize::MAX {
                        return;
                    }
                }
                LinK::Vec(v) => {
                    if v.len() != n {
                        viol(&["C10"], "index", format!("get_vec of an array of {n} has {} items", v.len()));
                        return;
                    }
                }
                _ => {}
            }
            w.als[al].lin.push(LinOp { inv, ret, k, uid: op.uid });
        }
    }
}
fn inspect<R: Backend>(w: *mut World<R>, op: &Op) {
    let Some((h, al, kind)) = W!(w).pin(op.a) else { return skip(w) };
    let (ev, hi) = {
        let w = W!(w);
        w.tick();
        (w.als[al].ev, w.als[al].hi)
    };
    let r = guarded(|| unsafe {
        match op.k {
            K::Meta => {
                let _ = (*h).debug();
                (Some((*h).meta()), 0, None)
            }
            _ => (None, (*h).ref_count(), (*h).external()),
        }
    });
    let w = W!(w);
    w.tick();
    w.unpin(op.a);
    match r {
        Outcome::Panic(m) => w.unexpected(op, &m),
        Outcome::Ok((Some(m), _, _)) => w.check_meta(al, &m, kind.strong()),
        Outcome::Ok((None, n, ext)) => {
            if n == usize::MAX || w.als[al].ev != ev {
                return;
            }
            w.st.ev("ref_count");
            let lo = w.als[al].lo;
            if (n as i64) < lo as i64 || n as i64 > hi as i64 {
                viol(&["C11"], "ref-count", format!("allocation {}: {n} references counted, {lo}..={hi} exist", w.als[al].name));
            }
            if let Some(e) = ext {
                if (e && hi == 0) || (!e && lo > 0) {
                    viol(&["C11"], "ref-count", format!("allocation {}: has_external_references is {e} with {lo}..={hi} owners", w.als[al].name));
                }
            }
        }
    }
}

// ---- commits and buffers -----------------------------------------------------------------------------------
fn commit<R: Backend>(w: *mut World<R>, t: usize, op: &Op) {
    let Some(a) = W!(w).alloc(t) else { return skip(w) };
    let faulty = op.c != 0 && R::ID == 0;
    let (inv, ci, pre_k, quiet) = {
        let w = W!(w);
        let inv = w.tick();
        let quiet = w.inflight == 0;
        w.inflight += 1;
        w.commit_activity = inv;
        w.commits.push(CommitRec { inv, ret: NEVER, ok: false });
        if faulty {
            w.faulty_inflight += 1;
            for c in w.als.iter_mut().flat_map(|a| a.cells.iter_mut()).flatten() {
                if c.published == NEVER {
                    c.tainted = true
                }
            }
        }
        (inv, w.commits.len() - 1, w.newest_k, quiet)
    };
    let pre_id = W!(w).newest_id;
    let had_commits = pre_id != 0;
    if faulty {
        backend::arm(op.c as u8);
    }
    backend::IN_COMMIT.with(|c| c.set(true));
    #[allow(deprecated)]
    let r = guarded(|| {
        let _m = ds::on();
        unsafe {
            if op.b == 1 {
                (*a).upkeep()
            } else {
                (*a).commit()
            }
        }
    });
    backend::IN_COMMIT.with(|c| c.set(false));
    let fired = if faulty { backend::fired() } else { 0 };
    let (id, k, size) = match &r {
        Outcome::Ok(b) => (R::buf_id(b), b.creation_time(), R::size(b)),
        _ => (0, 0, 0),
    };
    let w = W!(w);
    let ret = w.tick();
    w.inflight -= 1;
    w.commit_activity = ret;
    w.commits[ci].ret = ret;
    if faulty {
        w.faulty_inflight -= 1;
    }
    let b = match r {
        Outcome::Panic(m) => {
            w.failed_commits += 1;
            if fired == 0 {
                w.unexpected(op, &m);
            }
            w.st.fault(match fired {
                1 => "buffer creation fails",
                2 | 3 => "buffer copy fails",
                _ => "buffer write fails, possibly half done",
            });
            return;
        }
        Outcome::Ok(b) => b,
    };
    if fired != 0 {
        viol(&["C15"], "swallowed", format!("commit {}: a failing runtime call went unreported", op.uid));
    }
    w.commits[ci].ok = true;
    for al in w.als.iter_mut() {
        for wr in al.cells.iter_mut().flatten() {
            if wr.published == NEVER && wr.ret < inv && !wr.tainted {
                wr.published = ret
            }
        }
        if al.dead_at < inv && al.recycled_at == NEVER {
            al.recycled_at = ret;
            w.occ -= (al.words() > 0) as i64;
        }
    }
    // C04/C06: everything allocated before the commit began lies inside the buffer it returned
    for al in &w.als {
        if al.alive() && al.birth_ret < inv && al.words() > 0 {
            w.st.ev("in-bounds");
            if al.end() as usize > size {
                viol(&["C06", "C04", "C15"], "out-of-bounds", format!("commit {} returned a buffer of {size} words; allocation {} has words {}..{}", op.uid, al.name, al.base, al.end()));
            }
        }
    }
    // C06: never smaller
    if size < w.max_len && k >= w.newest_k {
        viol(&["C06"], "shrunk", format!("commit {} returned a buffer of {size} words, after one of {}", op.uid, w.max_len));
    }
    w.max_len = w.max_len.max(size);
    // C08
    w.st.ev("buffer");
    if let Err(e) = R::described(&b, w.p.label_str(), w.p.vseed) {
        viol(&["C16"], "described", format!("commit {}: buffer has {e}", op.uid));
    }
    let alone = quiet && w.commits.len() == ci + 1;
    let isnew = id != pre_id && k > pre_k;
    w.saw_buffer(id, k, pre_k, op.uid);
    if alone && w.failed_commits == 0 {
        let (new, valid, invalid) = {
            let _m = ds::off();
            (b.is_new_this_commit(), b.is_valid(), b.is_invalid())
        };
        if new != (isnew || !had_commits) {
            viol(&["C08"], "is-new", format!("commit {} returned a {} buffer, is_new_this_commit says {new}", op.uid, if isnew { "new" } else { "known" }));
        }
        if !valid || invalid {
            viol(&["C08"], "validity", format!("commit {} returned a buffer that is already invalid", op.uid));
        }
    }
    if isnew {
        w.st.probe("commit recreated the buffer");
    }
    if !alone {
        w.st.probe("commits overlapped");
    }
    w.bufs.insert(op.uid, BufSlot { b: Box::new(b), users: 0, busy: false, since: ret, from_commit: (alone && isnew).then_some(ci) });
}
impl<R: Backend> World<R> {
    /// A buffer handed out by a call that began when `pre_k` was the newest known.
    fn saw_buffer(&mut self, id: u64, k: usize, pre_k: usize, uid: u32) {
        if k < pre_k {
            viol(&["C08", "C15"], "old-buffer", format!("operation {uid} was given the buffer of time {k}, but one of time {pre_k} had been handed out before it began"));
        }
        match self.k_ids.get(&k) {
            Some(o) if *o != id => viol(&["C08", "C15"], "same-time", format!("operation {uid}: two buffers share the creation time {k}")),
            _ => {}
        }
        self.k_ids.insert(k, id);
        if k >= self.newest_k {
            self.newest_k = k;
            self.newest_id = id;
        }
    }
}
fn get_buffer<R: Backend>(w: *mut World<R>, t: usize, op: &Op) {
    let Some(a) = W!(w).alloc(t) else { return skip(w) };
    let (pre_k, had) = {
        let w = W!(w);
        w.tick();
        (w.newest_k, w.newest_id != 0)
    };
    let r = guarded(|| {
        let _m = ds::on();
        unsafe { &*a }.get_buffer()
    });
    let w = W!(w);
    match r {
        Outcome::Panic(m) => w.unexpected(op, &m),
        Outcome::Ok(None) => {
            let now = w.tick();
            let _ = now;
            w.st.ev("buffer");
            if had {
                viol(&["C08", "C06", "C15"], "no-buffer", format!("operation {}: no buffer, though one had been handed out before", op.uid));
            }
        }
        Outcome::Ok(Some(b)) => {
            let (id, k) = (R::buf_id(&b), b.creation_time());
            let since = w.tick();
            w.st.ev("buffer");
            if w.commits.is_empty() {
                viol(&["C08"], "early-buffer", format!("operation {}: a buffer exists before any commit", op.uid));
            }
            w.saw_buffer(id, k, pre_k, op.uid);
            w.bufs.insert(op.uid, BufSlot { b: Box::new(b), users: 0, busy: false, since, from_commit: None });
        }
    }
}
fn buffer_op<R: Backend>(w: *mut World<R>, op: &Op) {
    let (pre_k, t0, starts, quiet) = {
        let w = W!(w);
        let t0 = w.tick();
        (w.newest_k, t0, w.commits.len(), w.inflight == 0)
    };
    match op.k {
        K::BufClone => {
            let wr = W!(w);
            let Some(s) = wr.bufs.get(&op.a).filter(|s| !s.busy) else { return skip(w) };
            let b = s.b.clone();
            let (since, fc) = (s.since, s.from_commit);
            wr.bufs.insert(op.uid, BufSlot { b, users: 0, busy: false, since, from_commit: fc });
        }
        K::BufDrop => {
            if !W!(w).bufs.get(&op.a).is_some_and(|s| s.users == 0) {
                return skip(w);
            }
            let s = W!(w).bufs.remove(&op.a);
            if let Outcome::Panic(m) = guarded(|| {
                let _m = ds::on();
                drop(s);
            }) {
                W!(w).unexpected(op, &m)
            }
        }
        K::BufCheck => {
            let Some(s) = W!(w).bufs.get_mut(&op.a).filter(|s| !s.busy) else { return skip(w) };
            s.users += 1;
            let b: *const SlabBuffer<R::Buffer> = &*s.b;
            let r = guarded(|| {
                let _m = ds::on();
                let b = unsafe { &*b };
                let v = b.is_valid();
                let i = b.is_invalid();
                #[allow(deprecated)]
                let n = if op.b == 1 { b.is_new_this_upkeep() } else { b.is_new_this_commit() };
                (v, i, n, b.creation_time())
            });
            let w = W!(w);
            w.tick();
            let s = w.bufs.get_mut(&op.a).unwrap();
            s.users -= 1;
            let (since, fc) = (s.since, s.from_commit);
            let (v, i, n, k) = match r {
                Outcome::Ok(x) => x,
                Outcome::Panic(m) => return w.unexpected(op, &m),
            };
            w.st.ev("buffer");
            let still = quiet && w.inflight == 0 && w.commits.len() == starts;
            if still && v == i {
                viol(&["C08"], "validity", format!("operation {}: is_valid and is_invalid are both {v}", op.uid));
            }
            if k < pre_k && (v || !i) {
                viol(&["C08", "C15"], "validity", format!("operation {}: the buffer of time {k} is called valid though one of time {pre_k} replaced it", op.uid));
            }
            if still && k == w.newest_k && w.failed_commits == 0 && (!v || i) {
                viol(&["C08"], "validity", format!("operation {}: the newest buffer (time {k}) is called invalid", op.uid));
            }
            // a commit that began and ended after this buffer was already held
            if n && w.commits.iter().any(|c| c.inv > since && c.ret < t0) {
                viol(&["C08"], "is-new", format!("operation {}: is_new_this_commit though a whole commit has happened since the buffer was handed out", op.uid));
            }
            if let Some(c) = fc {
                if still && w.commits.len() == c + 1 && w.failed_commits == 0 && !n {
                    viol(&["C08"], "is-new", format!("operation {}: the last commit created this buffer, is_new_this_commit is false", op.uid));
                }
            }
        }
        _ => {
            let Some(s) = W!(w).bufs.get_mut(&op.a) else { return skip(w) };
            if s.users > 0 {
                return skip(w);
            }
            s.users += 1;
            s.busy = true;
            let b: *mut SlabBuffer<R::Buffer> = &mut *s.b;
            let (id0, k0) = (R::buf_id(unsafe { &*b }), unsafe { &*b }.creation_time());
            #[allow(deprecated)]
            let r = guarded(|| {
                let _m = ds::on();
                let b = unsafe { &mut *b };
                if op.b == 1 {
                    b.synchronize()
                } else {
                    b.update_if_invalid()
                }
            });
            let (id, k) = (R::buf_id(unsafe { &*b }), unsafe { &*b }.creation_time());
            let w = W!(w);
            let now = w.tick();
            let changed = match r {
                Outcome::Ok(c) => c,
                Outcome::Panic(m) => return w.unexpected(op, &m),
            };
            w.st.ev("buffer");
            let s = w.bufs.get_mut(&op.a).unwrap();
            s.users -= 1;
            s.busy = false;
            if id != id0 {
                s.since = now;
                s.from_commit = None;
            }
            if changed != (id != id0) {
                viol(&["C08", "C15"], "update", format!("operation {}: update_if_invalid returned {changed}, the buffer {}", op.uid, if id != id0 { "changed" } else { "did not change" }));
            }
            if changed {
                w.st.probe("a stale buffer was brought up to date");
                if k <= k0 {
                    viol(&["C08", "C15"], "update", format!("operation {}: update_if_invalid went from time {k0} to {k}", op.uid));
                }
            }
            w.saw_buffer(id, k, pre_k, op.uid);
        }
    }
}

// ---- pending updates -------------------------------------------------------------------------------------------
fn pending<R: Backend>(w: *mut World<R>, t: usize, op: &Op) {
    let Some(a) = W!(w).alloc(t) else { return skip(w) };
    // sources that certainly have an update waiting, and whether certainly none has
    // what the buffer holds now, to find updates that no commit has brought there
    let starts0 = W!(w).commits.len();
    let snap: Option<Vec<u32>> = if W!(w).inflight == 0 {
        let rt = W!(w).rt.clone();
        let r = guarded(|| {
            let b = {
                let _m = ds::on();
                unsafe { &*a }.get_buffer()
            };
            b.map(|b| {
                let s = rt.snapshot(&b);
                let _m = ds::on();
                drop(b);
                s
            })
        });
        match r {
            Outcome::Ok(x) => x,
            Outcome::Panic(m) => return W!(w).unexpected(op, &m),
        }
    } else {
        None
    };
    let (mut0, starts, quiet, must, none) = {
        let w = W!(w);
        let t0 = w.tick();
        let quiet = w.inflight == 0;
        let last = w.commit_activity;
        let must: Vec<usize> = if quiet {
            (0..w.als.len()).filter(|i| {
                let a = &w.als[*i];
                a.alive() && a.cells.iter().flatten().any(|x| !x.poke && x.ret < t0 && x.inv > last) || w.commits.len() == starts0 && snap.as_ref().is_some_and(|s| a.unsynced(s, t0))
            }).collect()
        } else {
            vec![]
        };
        let none = quiet && w.mut_inflight == 0 && w.commits.last().map_or(w.last_mut_ret == 0, |c| c.ok && w.last_mut_ret < c.inv && w.commits.iter().all(|d| d.ret < t0));
        (w.last_mut_ret, starts_of(w), quiet, must, none)
    };
    let r = guarded(|| {
        let _m = ds::on();
        unsafe {
            if op.k == K::HasQueued {
                ((*a).has_queued_updates(), vec![])
            } else {
                let mut v: Vec<usize> = (*a).get_updated_source_ids().into_iter().collect();
                v.sort_unstable();
                (!v.is_empty(), v)
            }
        }
    });
    let w = W!(w);
    w.tick();
    let (some, ids) = match r {
        Outcome::Ok(x) => x,
        Outcome::Panic(m) => return w.unexpected(op, &m),
    };
    w.st.ev("pending");
    let still = quiet && w.inflight == 0 && w.commits.len() == starts;
    let must: Vec<usize> = must.into_iter().map(|i| &w.als[i]).filter(|a| a.alive()).map(|a| a.notifier).collect();
    if still && !must.is_empty() {
        w.st.probe("updates were certainly pending");
        if !some {
            viol(&["C09"], "not-pending", format!("operation {} {}: nothing pending, though sources {must:?} have updates no commit has taken", op.uid, kind_name(op.k)));
        }
        if op.k == K::GetIds {
            if let Some(m) = must.iter().find(|m| !ids.contains(m)) {
                viol(&["C09"], "missing-source", format!("operation {}: source {m} has an update no commit has taken; reported: {ids:?}", op.uid));
            }
        }
    }
    if still && none && w.mut_inflight == 0 && w.last_mut_ret == mut0 {
        w.st.probe("certainly nothing was pending");
        if some {
            viol(&["C09"], "still-pending", format!("operation {} {}: updates are said to be pending ({ids:?}), though the last commit took them all", op.uid, kind_name(op.k)));
        }
    }
    if op.k == K::GetIds && still {
        let last = w.commits.last().filter(|c| c.ok).map_or(0, |c| c.inv);
        for id in &ids {
            let known = w.als.iter().any(|a| a.notifier == *id && (a.mut_inflight > 0 || a.last_mut_ret >= last)) || w.als.iter().any(|a| a.notifier == usize::MAX) || w.unknown_notifiers;
            if !known {
                viol(&["C09"], "extra-source", format!("operation {}: source {id} is reported, but nothing happened to it since the last commit", op.uid));
            }
        }
    }
}
fn starts_of<R: Backend>(w: &World<R>) -> usize {
    w.commits.len()
}

// ---- what the GPU sees ---------------------------------------------------------------------------------------------
fn take_snapshot<R: Backend>(w: *mut World<R>, t: usize, op: &Op) -> Option<(Vec<u32>, u64, u64)> {
    let a = W!(w).alloc(t)?;
    let (t0, starts, quiet, pokes, pre_k) = {
        let w = W!(w);
        (w.tick(), w.commits.len(), w.inflight == 0, w.pokes, w.newest_k)
    };
    let rt = W!(w).rt.clone();
    let r = guarded(|| {
        let b = {
            let _m = ds::on();
            unsafe { &*a }.get_buffer()
        };
        b.map(|b| {
            let s = rt.snapshot(&b);
            let r = (s, R::buf_id(&b), b.creation_time());
            let _m = ds::on();
            drop(b);
            r
        })
    });
    let w = W!(w);
    let t1 = w.tick();
    let (words, id, k) = match r {
        Outcome::Panic(m) => {
            w.unexpected(op, &m);
            return None;
        }
        Outcome::Ok(None) => return None,
        Outcome::Ok(Some(x)) => x,
    };
    w.saw_buffer(id, k, pre_k, op.uid);
    let still = quiet && w.inflight == 0 && w.commits.len() == starts && w.pokes == pokes;
    if let Some(l) = &w.last_snap {
        // C07: between two commits the buffer does not change
        if still && l.starts == starts && l.pokes == pokes {
            w.st.ev("isolation");
            if l.buf != id || l.words != words {
                let d = l.words.iter().zip(&words).position(|(a, b)| a != b);
                viol(&["C07"], "changed-outside-commit", format!("operation {}: the buffer differs from its last snapshot (word {d:?}) though no commit happened in between", op.uid));
            }
        } else if still && l.pokes == pokes {
            // C07/C06: commits in between changed nothing but what was written
            w.st.ev("isolation");
            let mut bad = None;
            for i in 0..l.words.len().min(words.len()) {
                if l.words[i] == words[i] {
                    continue;
                }
                let ok = w.als.iter().any(|a| {
                    a.base != u32::MAX && a.words() > 0 && (a.base..a.end()).contains(&(i as u32)) && {
                        let c = (i as u32 - a.base) as usize / a.vt.words;
                        a.cells[c].iter().any(|x| x.published == NEVER || x.published > l.at)
                    }
                }) || w.failed_words > 0
                    // a value that is being created right now, its place not known yet
                    || w.als.iter().any(|a| a.base == u32::MAX && a.words() > 0);
                if !ok {
                    bad = Some(i);
                    break;
                }
            }
            if words.len() < l.words.len() {
                bad = Some(words.len());
            }
            if let Some(i) = bad {
                viol(&["C07", "C06"], "collateral", format!("operation {}: word {i} went from {:?} to {:?} across commits that had no update for it", op.uid, l.words.get(i), words.get(i)));
            }
        }
    }
    if still {
        w.last_snap = Some(Snap { at: t1, buf: id, k, starts, pokes, words: words.clone() });
    } else if w.last_snap.as_ref().is_some_and(|l| l.k < k) {
        w.last_snap = None;
    }
    Some((words, t0, t1))
}
const CONTENT: &[&str] = &["C01", "C02", "C03", "C04", "C06", "C07", "C10", "C14", "C15", "C16"];
fn verify<R: Backend>(w: *mut World<R>, t: usize, op: &Op) {
    let Some((words, t0, t1)) = take_snapshot(w, t, op) else { return skip(w) };
    W!(w).check_contents(&words, 0, t0, t1, true, CONTENT, "content");
    if W!(w).p.strat == ds::OPS && W!(w).p.psw == 0 {
        // the same program on another runtime must see the same
        let n = W!(w).hw as usize;
        let o = format!("{} {:?}", op.uid, &words[..n.min(words.len())]);
        W!(w).obs.push(o);
    }
}
fn poke<R: Backend>(w: *mut World<R>, t: usize, op: &Op) {
    let Some(a) = W!(w).alloc(t) else { return skip(w) };
    let Some(s) = W!(w).handles.get(&op.a) else { return skip(w) };
    let al = s.al;
    let cell = op.b as usize;
    if cell >= W!(w).als[al].n as usize || W!(w).als[al].vt.words == 0 {
        return skip(w);
    }
    let seed = W!(w).p.op_seed(op.uid, 0);
    let vt = W!(w).als[al].vt;
    let (t0, starts, quiet) = {
        let w = W!(w);
        (w.tick(), w.commits.len(), w.inflight == 0)
    };
    if !quiet {
        return skip(w);
    }
    let rt = W!(w).rt.clone();
    let mut done = false;
    let r = guarded(|| {
        let b = {
            let _m = ds::on();
            unsafe { &*a }.get_buffer()
        };
        let Some(b) = b else { return };
        let at = W!(w).als[al].base as usize + cell * vt.words;
        if at + vt.words <= R::size(&b) {
            let words = (vt.words_seed)(seed);
            rt.poke(&b, at, &words, &mut || {
                let w = W!(w);
                let c = &w.als[al].cells[cell];
                let settled = c.iter().all(|x| x.published != NEVER || c.iter().any(|p| p.published != NEVER && x.ret < p.inv));
                let ok = w.inflight == 0 && w.commits.len() == starts && settled && !c.is_empty() && w.als[al].alive();
                if ok {
                    done = true;
                    let now = w.tick();
                    w.pokes += 1;
                    let enc = (vt.enc_seed)(seed);
                    w.als[al].cells[cell].push(Wr { inv: now, ret: now, enc, published: now, tainted: false, poke: true, uid: op.uid });
                }
                ok
            });
        }
        let _m = ds::on();
        drop(b);
    });
    let _ = t0;
    if let Outcome::Panic(m) = r {
        W!(w).unexpected(op, &m);
    }
    W!(w).tick();
    if done {
        W!(w).st.probe("the GPU wrote into the buffer");
        W!(w).last_snap = None;
    } else {
        skip(w)
    }
}
fn read<R: Backend>(w: *mut World<R>, t: usize, op: &Op) {
    let Some(a) = W!(w).alloc(t) else { return skip(w) };
    let a: &SlabAllocator<R> = unsafe { &*a };
    let (mapfault, cancel) = match op.c {
        1 | 2 => (op.c as u8, None),
        3.. => (0, Some(op.c - 3)),
        _ => (0, None),
    };
    // how a range is read: through the allocator (2) or the runtime (3), and which bounds say so
    let (mode, shape, other) = (op.b & 3, op.b >> 2 & 63, op.b >> 8);
    let mut between = move || {
        let w = { w };
        let go = |k: K, a: u32, b: u32| {
            let uid = op.uid | 0x2000_0000;
            run_op(w, t, &Op { ph: op.ph, th: op.th, uid, k, a, b, c: 0, u: 0 });
        };
        match other {
            1 => go(K::Commit, 0, 0),
            2 => {
                go(K::NewGpu, T_U32 as u32, 1);
                go(K::Commit, 0, 0);
            }
            3 => go(K::Read, 0, 1),
            4 => {
                go(K::HasQueued, 0, 0);
                go(K::GetIds, 0, 0);
                go(K::GetBuffer, 0, 0);
            }
            5 => {
                go(K::Set, op.a, 0);
                go(K::Commit, 0, 0);
                go(K::ReadArr, op.a, 0);
            }
            6 => {
                go(K::Drop, op.a, 0);
                go(K::Commit, 0, 0);
                go(K::NewGArr, T_U32 as u32, 9);
                go(K::Defrag, 0, 0);
                go(K::Commit, 0, 0);
            }
            _ => return,
        }
        W!(w).st.probe("other calls of the same thread while its read was pending");
    };
    let target = if op.k == K::ReadArr || mode >= 2 {
        let Some(s) = W!(w).handles.get(&op.a) else { return skip(w) };
        let al = &W!(w).als[s.al];
        // only what is certainly in the buffer
        if !al.alive() || al.base == u32::MAX && (al.words() > 0 || op.k == K::Read) || al.cells.iter().any(|c| !c.iter().any(|x| x.published != NEVER)) {
            return skip(w);
        }
        Some(s.al)
    } else {
        None
    };
    if let Some(al) = target {
        // the allocation must stay alive while it is read
        W!(w).own_inc_hi(al, false);
    }
    let unown = |w: *mut World<R>| {
        if let Some(al) = target {
            W!(w).own_dec_hi(al, true, false);
        }
    };
    let (t0, commits0) = {
        let w = W!(w);
        (w.tick(), w.commits.len())
    };
    wgpu::sim::arm_map_fault(mapfault);
    let (e0, d0) = (wgpu::sim::MAP_ERR.load(SeqCst), wgpu::sim::MAP_DROP.load(SeqCst));
    let _ = (e0, d0);
    enum Got {
        Words(u32, Vec<u32>),
        Vals(Vec<Enc>),
    }
    let ab = target.map(|al| (W!(w).als[al].base, W!(w).als[al].words(), W!(w).als[al].n, W!(w).als[al].ty));
    // the words asked for; all the rest of the buffer if `end` is None
    let (mut start, mut end) = (0, None);
    let mut range: backend::Bounds = (Bound::Unbounded, Bound::Unbounded);
    if op.k == K::Read && mode >= 2 {
        let (b, n, _, _) = ab.unwrap();
        let (mut s, mut e) = (b as usize, (b + n) as usize);
        match shape / 9 {
            1 => s = (s + 1).min(e),
            2 => e = e.max(s + 1) - 1,
            3 => s = 0,
            _ => {}
        }
        range.0 = match shape % 3 {
            1 if s > 0 => Bound::Excluded(s - 1),
            2 => Bound::Unbounded,
            _ => Bound::Included(s),
        };
        range.1 = match shape / 3 % 3 {
            1 if e > s => Bound::Included(e - 1),
            2 => Bound::Unbounded,
            _ => Bound::Excluded(e),
        };
        start = if range.0 == Bound::Unbounded { 0 } else { s as u32 };
        end = (range.1 != Bound::Unbounded).then_some(e);
    }
    let mut size = 0;
    let r = guarded(|| -> Option<Option<Result<Got, SlabAllocatorError>>> {
        if op.k == K::ReadArr {
            let (base, _, n, ty) = ab.unwrap();
            return crate::with_type!(ty, T => {
                let f = R::alloc_read_array::<T>(a, crabslab::Array::new(base, n))?;
                Some(drive(f, cancel, &mut between).map(|r| r.map(|v| Got::Vals(v.iter().map(enc_of).collect()))))
            });
        }
        if mode == 0 || mode == 3 || R::ID != 2 {
            let b = {
                let _m = ds::on();
                a.get_buffer()
            };
            let b = b?;
            size = R::size(&b);
            let r = drive(R::read(a, &b, range), cancel, &mut between).map(|r| r.map(|v| Got::Words(start, v)));
            let _m = ds::on();
            drop(b);
            Some(r)
        } else {
            let f = R::alloc_read(a, range)?;
            Some(drive(f, cancel, &mut between).map(|r| r.map(|v| Got::Words(start, v))))
        }
    });
    wgpu::sim::arm_map_fault(0);
    let t1 = W!(w).tick();
    let faulted = mapfault != 0 && R::ID == 2;
    let got = match r {
        Outcome::Panic(m) => {
            unown(w);
            return W!(w).unexpected(op, &m);
        }
        Outcome::Ok(None) => {
            unown(w);
            return skip(w);
        }
        Outcome::Ok(Some(None)) => {
            W!(w).st.fault("read future dropped before it finished");
            unown(w);
            return;
        }
        Outcome::Ok(Some(Some(r))) => r,
    };
    W!(w).st.ev("read");
    match got {
        Err(e) => {
            let m = format!("{e}");
            let none = matches!(e, SlabAllocatorError::NoInternalBuffer);
            if none {
                if W!(w).commits[..commits0].iter().any(|c| c.ok && c.ret < t0) {
                    viol(&["C12"], "read-error", format!("operation {}: {m}, though a commit had returned", op.uid));
                }
            } else if !faulted {
                viol(&["C12"], "read-error", format!("operation {}: read failed without a fault: {m}", op.uid));
            } else {
                W!(w).st.fault(if mapfault == 1 { "mapping the read-back buffer fails" } else { "device lost while a read is in flight" });
            }
        }
        Ok(Got::Words(start, v)) => {
            if faulted && W!(w).commits.iter().any(|c| c.ok) {
                let empty = v.is_empty();
                if !empty {
                    viol(&["C12"], "read-ok", format!("operation {}: read succeeded though mapping failed", op.uid));
                }
            }
            let rest = size.saturating_sub(start as usize);
            let least = ab.map_or(0, |(b, n, _, _)| (b + n).saturating_sub(start) as usize);
            if match end {
                Some(e) => v.len() != e.saturating_sub(start as usize),
                None if size > 0 => v.len() != rest,
                None => v.len() < least,
            } {
                viol(&["C12"], "read-len", format!("operation {}: {} words read of {range:?} in a buffer of {size}", op.uid, v.len()));
            }
            W!(w).check_contents(&v, start, t0, t1, mode < 2, &["C12", "C16", "C03"], "read-content");
        }
        Ok(Got::Vals(v)) => {
            let al = &W!(w).als[target.unwrap()];
            if v.len() != al.n as usize {
                viol(&["C12", "C03"], "read-len", format!("operation {}: {} items read from an array of {}", op.uid, v.len(), al.n));
            }
            let commits_quiet = W!(w).inflight == 0 && W!(w).commits.len() == commits0;
            for (c, got) in v.iter().enumerate().take(al.n as usize) {
                if (commits_quiet || al.vt.word) && al.alive() && !World::<R>::acceptable(al, c, t0, t1, got) {
                    viol(&["C12", "C03"], "read-content", World::<R>::describe(al, c, t0, t1, got));
                }
            }
        }
    }
    unown(w);
}

// ---- linked data ------------------------------------------------------------------------------------------------
/// Nothing is stored by `Link` itself: it remembers that item `b` of `a` is meant to point at allocation `c`.
fn link<R: Backend>(w: *mut World<R>, _t: usize, op: &Op) {
    let (Some(n), Some(to)) = (W!(w).handles.get(&op.a).map(|s| s.al), W!(w).handles.get(&op.c).map(|s| s.al)) else { return skip(w) };
    W!(w).als[n].links.insert(op.b as usize, W!(w).als[to].name);
}
/// A GPU reader with ids of any age: every id and array it holds is followed through the safe read, in
/// the current buffer, in a stale one, and in a truncated one. It must get a value, never an error, and
/// the default value where the item is not inside the buffer.
fn chase<R: Backend>(w: *mut World<R>, t: usize, op: &Op) {
    let words = if op.k == K::Stale {
        let rt = W!(w).rt.clone();
        let Some(s) = W!(w).bufs.get_mut(&op.a).filter(|s| !s.busy) else { return skip(w) };
        s.users += 1;
        let b: *const SlabBuffer<R::Buffer> = &*s.b;
        let r = guarded(|| rt.snapshot(unsafe { &*b }));
        W!(w).bufs.get_mut(&op.a).unwrap().users -= 1;
        match r {
            Outcome::Ok(x) => x,
            Outcome::Panic(m) => return W!(w).unexpected(op, &m),
        }
    } else {
        match take_snapshot(w, t, op) {
            Some(x) => x.0,
            None => return skip(w),
        }
    };
    let cut = if op.c % 3 == 1 { words.len() * (op.c as usize % 7) / 7 } else { words.len() };
    let mut slab = words;
    if op.c % 3 == 2 && !slab.is_empty() {
        // a reader that races with the writer may see any mix of words: flip some
        let mut r = ds::Rng::new(W!(w).p.op_seed(op.uid, 1));
        for _ in 0..3 {
            let i = r.below(slab.len());
            slab[i] = r.next() as u32;
        }
        W!(w).st.fault("words corrupted under a reader");
    }
    slab.truncate(cut);
    if op.k == K::Stale {
        W!(w).st.fault("reader holds an outdated buffer");
    }
    if op.c % 3 == 1 {
        W!(w).st.fault("reader sees a truncated buffer");
    }
    for i in 0..W!(w).als.len() {
        let al = &W!(w).als[i];
        if al.base == u32::MAX || al.vt.words == 0 {
            continue;
        }
        for c in 0..al.n as usize {
            let at = al.base + (c * al.vt.words) as u32;
            let vt = al.vt;
            let r = guarded(|| (vt.read)(&slab, at));
            let w = W!(w);
            match r {
                Outcome::Panic(m) => viol(&["C03"], "read-panic", format!("reading a {} at {at} from {} words panicked: {m}", vt.name, slab.len())),
                Outcome::Ok(e) => {
                    w.st.ev("chase");
                    if at as usize + vt.words > slab.len() {
                        if e != (vt.default)() {
                            viol(&["C03"], "not-default", format!("reading a {} at {at} from {} words gave {e:?}, not the default", vt.name, slab.len()));
                        }
                    } else {
                        let d = (vt.read_unchecked)(&slab, at);
                        if d != e {
                            viol(&["C03"], "read-differs", format!("reading a {} at {at}: read gives {e:?}, read_unchecked {d:?}", vt.name));
                        }
                    }
                }
            }
        }
        // ids that nothing was ever placed at: around the end, and words of something else read as ids
        let (vt, len) = (W!(w).als[i].vt, slab.len() as u32);
        let n = vt.words as u32;
        let stray = ds::Rng::new(W!(w).p.op_seed(op.uid, 2 + i)).next() as u32;
        let word = if len > 0 { slab[stray as usize % slab.len()] } else { stray };
        for at in [len, len.saturating_sub(1), len.saturating_sub(n), (len + 1).saturating_sub(n), u32::MAX, u32::MAX - 1, u32::MAX - n, (u32::MAX - n).wrapping_add(1), u32::MAX - stray % (n + 2), 1 << 31, stray, word] {
            let inside = at as u64 + n as u64 <= len as u64;
            let r = guarded(|| ((vt.read)(&slab, at), if inside { (vt.read_unchecked)(&slab, at) } else { (vt.default)() }));
            W!(w).st.ev("stray-id");
            match r {
                Outcome::Panic(m) => viol(&["C03"], "read-panic", format!("reading a {} at {at} from {len} words panicked: {m}", vt.name)),
                Outcome::Ok((e, d)) if e != d => viol(&["C03"], "stray-id", format!("reading a {} at {at} from {len} words gave {e:?}, not {d:?}", vt.name)),
                _ => {}
            }
        }
        // the whole array at once, and fields through their offsets, agree with item after item
        let al = &W!(w).als[i];
        let (vt, base, n) = (al.vt, al.base, al.n);
        let r = guarded(|| {
            let v = (vt.read_vec)(&slab, base, n);
            let each: Vec<Enc> = (0..n).map(|c| (vt.read)(&slab, base + c * vt.words as u32)).collect();
            (v, each, (vt.parts)(&slab, base), (vt.ways)(&slab, base, n))
        });
        match r {
            Outcome::Panic(m) => viol(&["C03"], "read-panic", format!("reading {n} of {} at {base} from {} words panicked: {m}", vt.name, slab.len())),
            Outcome::Ok((v, each, parts, ways)) => {
                W!(w).st.ev("chase");
                if let Err(e) = ways {
                    viol(&["C03"], "array-differs", format!("reading {n} of {} at {base} from {} words: {e}", vt.name, slab.len()));
                }
                if v != each {
                    viol(&["C03"], "array-differs", format!("reading {n} of {} at {base} from {} words at once gives {v:?}, one by one {each:?}", vt.name, slab.len()));
                }
                if parts.is_some_and(|p| base as usize + vt.words <= slab.len() && n > 0 && Some(&p) != each.first()) {
                    viol(&["C03"], "offset", format!("reading a {} at {base} from {} words: its fields through their offsets are not those of the whole", vt.name, slab.len()));
                }
            }
        }
    }
}

// ---- the end of a run ------------------------------------------------------------------------------------------------
/// CPU side and GPU side agree once everything is committed and nobody writes.
fn check_cpu<R: Backend>(w: *mut World<R>, t: usize, op: &Op) {
    let Some((words, _, _)) = take_snapshot(w, t, op) else { return skip(w) };
    if W!(w).inflight > 0 || W!(w).mut_inflight > 0 || W!(w).commits.last().is_none_or(|c| !c.ok || c.inv < W!(w).last_mut_ret) {
        return skip(w);
    }
    let hs: Vec<u32> = W!(w).handles.iter().filter(|(_, s)| s.kind.cpu()).map(|(k, _)| *k).collect();
    let mut seen = vec![];
    for h in hs {
        let al = W!(w).handles[&h].al;
        if seen.contains(&al) {
            continue;
        }
        seen.push(al);
        let a = &W!(w).als[al];
        if a.poisoned > 0 || a.gpu_writer || a.vt.words == 0 || a.cells.iter().flatten().any(|x| x.poke || x.tainted) {
            continue;
        }
        let Some((p, _, _)) = W!(w).pin(h) else { continue };
        let inv = W!(w).tick();
        let r = guarded(|| unsafe { (*p).get_vec() });
        let ret = W!(w).tick();
        W!(w).unpin(h);
        match r {
            Outcome::Panic(m) => W!(w).unexpected(op, &m),
            Outcome::Ok(v) => {
                let w = W!(w);
                w.als[al].lin.push(LinOp { inv, ret, k: LinK::Vec(v.clone()), uid: op.uid });
                let a = &w.als[al];
                for (c, cpu) in v.iter().enumerate() {
                    w.st.ev("cpu-gpu");
                    let at = a.base + (c * a.vt.words) as u32;
                    if at as usize + a.vt.words > words.len() {
                        viol(&["C10", "C01", "C06"], "cpu-gpu", format!("allocation {} lies outside of the buffer", a.name));
                        continue;
                    }
                    let gpu = (a.vt.read)(&words, at);
                    if gpu != *cpu {
                        viol(&["C10", "C01", "C02"], "cpu-gpu", format!("allocation {} ({}) item {c}: the CPU holds {cpu:?}, the GPU {gpu:?}, with everything committed", a.name, a.vt.name));
                    }
                }
            }
        }
    }
}
pub fn check_lin<R: Backend>(w: *mut World<R>) {
    for i in 0..W!(w).als.len() {
        let a = &W!(w).als[i];
        if a.lin.len() < 2 {
            continue;
        }
        let r = lin::check(&a.init, &a.lin);
        let w = W!(w);
        w.st.ev("linearizability");
        match r {
            lin::Lin::Ok => {}
            lin::Lin::Unknown => w.st.lin_inconclusive += 1,
            lin::Lin::Bad => {
                let a = &w.als[i];
                let h: Vec<String> = a
                    .lin
                    .iter()
                    .map(|o| {
                        let d = match &o.k {
                            LinK::Get(c, e) => format!("get {c} = {e:?}"),
                            LinK::Vec(v) => format!("get_vec = {v:?}"),
                            LinK::Swap(c, e, o) => format!("write {c} {e:?} over {o:?}"),
                        };
                        format!("op {} [{}..{}] {d}", o.uid, o.inv, o.ret)
                    })
                    .collect();
                viol(&["C10"], "linearizability", format!("allocation {} ({}) starting from {:?}: no order explains {}", a.name, a.vt.name, a.init, h.join("; ")));
            }
        }
    }
}
/// Everything dropped and committed: the whole slab must be one free range.
fn reclaim<R: Backend>(w: *mut World<R>, t: usize, op: &Op) {
    let hs: Vec<u32> = W!(w).handles.keys().copied().collect();
    for h in hs {
        drop_handle(w, &Op { ph: 0, th: t as u8, uid: op.uid, k: K::Drop, a: h, b: 0, c: 0, u: 0 });
    }
    let Some(a) = W!(w).alloc(t) else { return skip(w) };
    if W!(w).als.iter().any(|a| a.hi != 0) {
        return skip(w);
    }
    commit(w, t, &Op { ph: 0, th: t as u8, uid: op.uid | 0x1000_0000, k: K::Commit, a: 0, b: 0, c: 0, u: 0 });
    if op.b == 1 {
        let _ = guarded(|| {
            let _m = ds::on();
            unsafe { &*a }.defrag()
        });
    }
    let hw = W!(w).hw;
    if hw == 0 {
        return;
    }
    let r = guarded(|| {
        let _m = ds::on();
        let g = GpuArray::<u32>::new(unsafe { &*a }, &vec![7u32; hw as usize]);
        let arr = g.array();
        drop(g);
        arr
    });
    W!(w).tick();
    W!(w).unknown_notifiers = true;
    W!(w).last_mut_ret = W!(w).clock;
    match r {
        Outcome::Panic(m) => W!(w).unexpected(op, &m),
        Outcome::Ok(arr) => {
            W!(w).st.ev("reclaim");
            let end = arr.starting_index() + arr.len();
            // (an item whose creation failed may have lain behind them)
            if end as u32 > hw + W!(w).failed_words as u32 {
                viol(&["C05", "C14"], "leak", format!("everything was dropped and committed, and {hw} words had been in use, but an array of {hw} words was placed at {}..{end}", arr.starting_index()));
            }
        }
    }
}
/// All handles, guards, buffers and allocators go away; nothing may keep a buffer alive.
pub fn release<R: Backend>(w: *mut World<R>, judge: bool) {
    let r = guarded(|| {
        let w = W!(w);
        let (h, b, a) = (std::mem::take(&mut w.handles), std::mem::take(&mut w.bufs), std::mem::take(&mut w.allocs));
        let o = std::mem::take(&mut w.others);
        let _m = ds::on();
        drop(o);
        drop(h);
        drop(b);
        drop(a);
    });
    let w = W!(w);
    if let Outcome::Panic(m) = r {
        w.unexpected(&Op { ph: 0, th: 0, uid: 0, k: K::AllocDrop, a: 0, b: 0, c: 0, u: 0 }, &m);
    }
    w.rt = R::fresh();
    R::finish();
    if judge {
        if let Some(n) = R::live() {
            w.st.ev("release");
            if n > w.live0 {
                viol(&["C11"], "buffer-leak", format!("{} buffers are still alive after every allocator, buffer and value handle was dropped", n - w.live0));
            }
        }
    }
}
pub fn epilogue<R: Backend>(w: *mut World<R>) {
    let t = W!(w).p.threads; // the allocator kept by the main program
    let e = W!(w).p.epilogue;
    let mut uid = 0xE0_0000u32;
    let mut go = move |k: K, a: u32, b: u32| {
        uid += 1;
        let op = Op { ph: 0, th: t as u8, uid, k, a, b, c: 0, u: 0 };
        ds::op(uid);
        run_op(w, t, &op);
    };
    if e & E_FINAL != 0 && !W!(w).dead_alloc {
        go(K::Commit, 0, 0);
        go(K::Verify, 0, 0);
        go(K::CheckCpu, 0, 0);
        go(K::HasQueued, 0, 0);
        go(K::GetIds, 0, 0);
        go(K::Verify, 0, 0);
    }
    if e & E_READ != 0 && !W!(w).dead_alloc {
        go(K::Read, 0, 0);
        go(K::Read, 0, 1);
        let hs: Vec<u32> = W!(w).handles.iter().filter(|(_, s)| s.kind.strong()).map(|(k, _)| *k).collect();
        for h in hs.into_iter().take(4) {
            go(K::ReadArr, h, 0);
            go(K::Read, h, 2);
        }
    }
    let bufs: Vec<u32> = W!(w).bufs.keys().copied().collect();
    for b in bufs.into_iter().rev().take(3) {
        go(K::BufUpdate, b, 0);
        go(K::BufCheck, b, 0);
    }
    for i in 0..t {
        if W!(w).others[i].is_some() {
            run_op(w, i, &Op { ph: 0, th: t as u8, uid: 0xE8_0000 + i as u32, k: K::Other, a: 5, b: 0, c: 0, u: 0 });
        }
    }
    if e & E_LIN != 0 {
        check_lin(w);
    }
    if e & E_RECLAIM != 0 && !W!(w).dead_alloc {
        let d = (W!(w).p.vseed >> 9) as u32 & 1;
        go(K::Reclaim, 0, d);
    }
    // values may outlive their allocator
    if e & E_RELEASE != 0 && W!(w).p.vseed & 4 != 0 {
        let a = std::mem::take(&mut W!(w).allocs);
        let r = guarded(|| {
            let _m = ds::on();
            drop(a);
        });
        if let Outcome::Panic(m) = r {
            W!(w).unexpected(&Op { ph: 0, th: 0, uid: 0, k: K::AllocDrop, a: 0, b: 0, c: 0, u: 0 }, &m);
        }
        let hs: Vec<u32> = W!(w).handles.keys().copied().collect();
        for h in hs {
            go(K::Set, h, 0);
            go(K::Upgrade, h, 0);
            go(K::GetVec, h, 0);
            go(K::RefCount, h, 0);
        }
        W!(w).st.probe("values used after their allocator was dropped");
    }
}
