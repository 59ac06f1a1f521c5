//! Executes one program: a pool of OS threads of which the scheduler runs exactly one at a time.
use crate::backend::{Backend, SimRuntime};
use crate::ds;
use crate::exec::{self, Ctx, Stats, World};
use crate::prog::*;
use craballoc::prelude::*;
use std::sync::mpsc::{channel, Sender};

type Job = Box<dyn FnOnce() + Send>;
pub const MAXTHREADS: usize = 6;
pub struct Pool {
    tx: Vec<Sender<Job>>,
}
impl Pool {
    pub fn new() -> Pool {
        let mut tx = vec![];
        for t in 0..MAXTHREADS {
            let (s, r) = channel::<Job>();
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    ds::thread_init(t);
                    while let Ok(j) = r.recv() {
                        ds::wait_turn();
                        j();
                        ds::done();
                    }
                })
                .unwrap();
            tx.push(s);
        }
        Pool { tx }
    }
    fn phase(&self, id: u32, jobs: Vec<(usize, Job)>) {
        let mut mask = 0;
        for (t, j) in jobs {
            mask |= 1 << t;
            self.tx[t].send(j).unwrap();
        }
        ds::phase(mask, id);
    }
}
struct P<T>(*mut T);
unsafe impl<T> Send for P<T> {}
impl<T> Clone for P<T> {
    fn clone(&self) -> Self {
        P(self.0)
    }
}
impl<T> P<T> {
    fn get(&self) -> *mut T {
        self.0
    }
}
pub struct Ran {
    pub stats: Stats,
    pub hash: u64,
    pub steps: u64,
    pub obs: Vec<String>,
}
pub const STEPCAP: u64 = 400_000;

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _m = ds::off();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".into()
        };
        let at = i.location().map(|l| format!(" at {}:{}", l.file().rsplit("crates/").next().unwrap_or(l.file()), l.line())).unwrap_or_default();
        if std::env::var_os("CRABSIM_PANICS").is_some() {
            eprintln!("panic: {m}{at}");
        }
        exec::LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m}{at}"));
    }));
}

pub fn run(pool: &Pool, p: &Program, out: Option<&str>, replay: bool) -> Ran {
    let mut ctx = Ctx { prop: p.prop.clone(), program: p.clone(), out: out.map(|s| s.to_string()), replay };
    unsafe { exec::CTX = &mut ctx };
    match p.backend {
        0 => run_on::<SimRuntime>(pool, p),
        1 => run_on::<CpuRuntime>(pool, p),
        _ => run_on::<WgpuRuntime>(pool, p),
    }
}
fn run_on<R: Backend>(pool: &Pool, p: &Program) -> Ran {
    ds::run_begin(p.strat, p.sseed, p.psw, p.pop, p.pspur, STEPCAP + 1000 * p.ops.len() as u64 + p.ops.iter().filter(|o| o.k == crate::prog::K::Churn).map(|o| o.a as u64 * 40).sum::<u64>());
    for c in &p.cps {
        ds::add_cp(*c);
    }
    for t in &p.targets {
        ds::add_target(t.0, t.1, t.2);
    }
    ds::set_replay(if p.strat == ds::REPLAY { &p.decs } else { &[] });
    let world: P<World<R>> = P(Box::into_raw(Box::new(World::<R>::new(p.clone()))));
    for ph in 0..p.phases {
        let mut jobs: Vec<(usize, Job)> = vec![];
        unsafe { (*world.get()).begin_phase() };
        for t in 0..p.threads {
            let ops: Vec<Op> = p.ops.iter().filter(|o| o.ph as usize == ph && o.th as usize == t).cloned().collect();
            if ops.is_empty() {
                unsafe { (*world.get()).skip_thread(t) };
                continue;
            }
            let w = world.clone();
            jobs.push((
                t,
                Box::new(move || {
                    let w = w.get();
                    for o in &ops {
                        exec::step(w, t, o);
                    }
                    exec::end_thread(w, t);
                }),
            ));
        }
        if !jobs.is_empty() {
            pool.phase(ph as u32, jobs);
        }
    }
    let w = world.clone();
    let judge = p.epilogue & E_RELEASE != 0;
    pool.phase(
        100,
        vec![(
            0,
            Box::new(move || {
                exec::epilogue(w.get());
                exec::release(w.get(), judge);
            }),
        )],
    );
    // SAFETY: every thread has finished its part
    let mut w = unsafe { Box::from_raw(world.get()) };
    let mut stats = std::mem::take(&mut w.st);
    stats.runs = 1;
    if p.ops.len() > 150 {
        stats.probe("history of more than 150 operations");
    }
    if p.ops.len() > 1000 {
        stats.probe("history of more than 1000 operations");
    }
    stats.backends[R::ID] = 1;
    stats.strategies[p.strat as usize % 6] = 1;
    Ran { stats, hash: ds::mix(ds::hash(), p.hash()), steps: ds::total(), obs: std::mem::take(&mut w.obs) }
}
