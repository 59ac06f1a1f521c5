//! crabsim: deterministic simulation of craballoc. See DESIGN.md.
mod backend;
mod check;
mod ds;
mod exec;
mod gen;
mod handles;
mod lin;
mod prog;
mod run;
mod types;

use exec::Stats;
use prog::Program;
use run::{Pool, Ran};
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::fs::FileExt;

extern "C" {
    fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, n: usize, mask: *mut u64) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
fn confine(core: usize) {
    unsafe {
        // Handing over between threads is cheapest on one core: the core-th one this process may use
        let mut allowed = [0u64; 16];
        if sched_getaffinity(0, 128, allowed.as_mut_ptr()) > 0 {
            let cpus: Vec<usize> = (0..1024).filter(|c| allowed[c / 64] >> (c % 64) & 1 == 1).collect();
            if let Some(c) = cpus.get(core % cpus.len().max(1)) {
                let mut m = [0u64; 16];
                m[c / 64] = 1 << (c % 64);
                sched_setaffinity(0, 128, m.as_ptr());
            }
        }
        let gb = 3u64 << 30;
        setrlimit(9, &[gb, gb]); // address space
        setrlimit(4, &[0, 0]); // no core files
        prctl(1, 9, 0, 0, 0); // die with the parent
    }
}
/// Everything that happens only the first time (lazy statics, thread locals) happens here.
fn warm_up(pool: &Pool) {
    WARM.store(true, std::sync::atomic::Ordering::SeqCst);
    for b in 0..3 {
        let mut p = Program::parse(WARM_UP).unwrap();
        p.backend = b;
        p.strat = ds::SERIAL;
        run::run(pool, &p, None, false);
    }
    WARM.store(false, std::sync::atomic::Ordering::SeqCst);
}
const WARM_UP: &str = "threads 6
phases 1
epilogue 39
op 0 0 1 NewVal 0 0 0
op 0 0 2 NewGArr 0 3 0
op 0 0 3 Set 1 0 0
op 0 0 4 Modify 1 0 1
op 0 0 5 Commit 0 0 0
op 0 0 6 Verify 0 0 0
op 0 1 7 Get 1 0 0
op 0 2 8 Commit 0 0 0
op 0 3 9 Commit 0 0 0
op 0 4 10 Commit 0 0 0
op 0 5 11 Commit 0 0 0
";
pub static WARM: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Run a program, on all runtimes where it is meant to compare them.
pub fn run_checked(pool: &Pool, p: &Program, out: Option<&str>, replay: bool) -> Ran {
    let mut r = run::run(pool, p, out, replay);
    if p.prop == "C16" && p.strat == ds::OPS && p.psw == 0 {
        for b in 0..3 {
            if b == p.backend {
                continue;
            }
            let mut q = p.clone();
            q.backend = b;
            let s = run::run(pool, &q, out, replay);
            r.stats.ev("runtimes agree");
            r.stats.backends[b] += 1;
            if s.obs != r.obs {
                let i = (0..r.obs.len().max(s.obs.len())).find(|i| r.obs.get(*i) != s.obs.get(*i)).unwrap_or(0);
                let brief = |o: Option<&String>| o.map(|o| if o.len() > 400 { format!("{} … ({} bytes)", &o[..o.floor_char_boundary(400)], o.len()) } else { o.clone() });
                let m = format!("the same operations in the same order leave different slabs on runtime {} and {}: {:?} against {:?}", p.backend, b, brief(r.obs.get(i)), brief(s.obs.get(i)));
                let s = format!("# class runtimes-differ\n# what {m}\n{}", p.to_text());
                if let Some(o) = out {
                    let _ = std::fs::write(o, &s);
                }
                if replay {
                    println!("class runtimes-differ\nwhat {m}\nhash {:016x}", r.hash);
                }
                let _ = std::io::stdout().flush();
                std::process::exit(10);
            }
        }
    }
    r
}
pub fn nontrivial(prop: &str, p: &Program, r: &Ran, preempted: bool) -> bool {
    let s = &r.stats;
    let keys: &[&str] = match prop {
        "C01" => &["content", "cpu-gpu"],
        "C02" => &["content"],
        "C03" => &["chase", "content"],
        "C04" => &["disjoint", "in-bounds"],
        "C05" => &["reclaim", "footprint"],
        "C06" => &["in-bounds"],
        "C07" => &["isolation"],
        "C08" => &["buffer"],
        "C09" => &["pending"],
        "C10" => &["linearizability", "cpu-gpu"],
        "C11" => &["upgrade", "ref_count", "identity"],
        "C12" => &["read"],
        "C14" | "C15" => return !s.faults.is_empty(),
        "C16" => &["runtimes agree", "buffer"],
        _ => &[],
    };
    let judged = keys.is_empty() || keys.iter().any(|k| s.evals.contains_key(k));
    judged && (preempted || !s.faults.is_empty() || (p.threads == 1 && s.ops >= 8))
}
fn add(a: &mut BTreeMap<&'static str, u64>, b: &BTreeMap<&'static str, u64>) {
    for (k, v) in b {
        *a.entry(k).or_default() += v;
    }
}
pub fn merge(a: &mut Stats, b: &Stats) {
    a.runs += b.runs;
    a.ops += b.ops;
    a.skipped += b.skipped;
    a.nontrivial += b.nontrivial;
    a.lin_inconclusive += b.lin_inconclusive;
    add(&mut a.evals, &b.evals);
    add(&mut a.faults, &b.faults);
    add(&mut a.kinds, &b.kinds);
    add(&mut a.kinds_skipped, &b.kinds_skipped);
    add(&mut a.probes, &b.probes);
    for i in 0..3 {
        a.backends[i] += b.backends[i];
    }
    for i in 0..6 {
        a.strategies[i] += b.strategies[i];
    }
}
fn worker(a: &[String]) {
    let (prop, base, start, stride, count, secs, tier, dir) = (&a[0], a[1].parse::<u64>().unwrap(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap(), &a[6], &a[7]);
    confine(start as usize);
    let pool = Pool::new();
    run::install_hook();
    let out = format!("{dir}/w{start}.viol");
    let progress = std::fs::File::create(format!("{dir}/w{start}.prog")).unwrap();
    warm_up(&pool);
    let t0 = std::time::Instant::now();
    let (mut st, mut steps, mut longest) = (Stats::default(), 0u64, 0u64);
    let mut hashes: Vec<u64> = vec![];
    let c0 = ds::counters();
    let mut i = start;
    while i < count {
        let _ = progress.write_at(&i.to_le_bytes(), 0);
        let p = gen::generate(prop, base, i, tier == "thorough");
        let before = ds::counters();
        let r = run_checked(&pool, &p, Some(&out), false);
        let after = ds::counters();
        let pre = after.preempt > before.preempt || after.block > before.block;
        merge(&mut st, &r.stats);
        steps += r.steps;
        longest = longest.max(r.steps);
        if nontrivial(prop, &p, &r, pre) {
            st.nontrivial += 1;
            hashes.push(r.hash);
        }
        i += stride;
        if i % (stride * 64) == start && t0.elapsed().as_secs() >= secs {
            break;
        }
    }
    let c = ds::counters();
    let mut s = String::new();
    let mut kv = |k: &str, v: u64| s += &format!("{v} {k}\n");
    kv("n runs", st.runs);
    kv("n ops", st.ops);
    kv("n skipped", st.skipped);
    kv("n nontrivial", st.nontrivial);
    kv("n lin_inconclusive", st.lin_inconclusive);
    kv("n steps", steps);
    kv("m longest", longest);
    kv("n points", c.points - c0.points);
    kv("n switches", c.switches - c0.switches);
    kv("n preemptions", c.preempt - c0.preempt);
    kv("n blocked", c.block - c0.block);
    kv("n spurious", c.spurious - c0.spurious);
    kv("n yields", c.yields - c0.yields);
    for (n, m) in [("e", &st.evals), ("f", &st.faults), ("k", &st.kinds), ("x", &st.kinds_skipped), ("p", &st.probes)] {
        for (k, v) in m {
            kv(&format!("{n} {k}"), *v)
        }
    }
    for (i, b) in ["sim", "cpu", "wgpu"].iter().enumerate() {
        kv(&format!("b {b}"), st.backends[i]);
    }
    for (i, b) in ["replay", "random", "pct", "targeted", "operation-atomic", "serial"].iter().enumerate() {
        kv(&format!("s {b}"), st.strategies[i]);
    }
    let hb: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(format!("{dir}/w{start}.hash"), hb).unwrap();
    std::fs::write(format!("{dir}/w{start}.stats"), s).unwrap();
}
/// Exit status 10 with class, description and schedule hash if the file's program shows a violation.
fn replay(file: &str, out: Option<&str>) {
    let text = std::fs::read_to_string(file).expect("replay file");
    let head: BTreeMap<&str, &str> = text.lines().filter(|l| !l.starts_with('#')).filter_map(|l| l.split_once(' ')).collect();
    if head.contains_key("crabsim-row") {
        let n = |k: &str| head[k].parse::<u64>().expect("number");
        confine(n("start") as usize % 8);
        let pool = Pool::new();
        run::install_hook();
        warm_up(&pool);
        for i in (n("start")..=n("last")).step_by(n("stride") as usize) {
            run_checked(&pool, &gen::generate(head["property"], n("base"), i, head["tier"] == "thorough"), out, true);
        }
        println!("class none");
        return;
    }
    let p = Program::parse(&text).expect("replay file");
    confine(p.seed as usize % 8);
    let pool = Pool::new();
    run::install_hook();
    warm_up(&pool);
    let r = run_checked(&pool, &p, out, true);
    println!("class none\nhash {:016x}", r.hash);
}
/// One number for all that happened in a range of runs: two processes must agree on it.
fn digest(a: &[String]) {
    let (prop, base, start, n) = (&a[0], a[1].parse::<u64>().unwrap(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap());
    let stride = a.get(4).map_or(1, |x| x.parse().unwrap());
    confine(0);
    let pool = Pool::new();
    run::install_hook();
    warm_up(&pool);
    let mut h = 0;
    for i in (start..start + n).step_by(stride) {
        let p = gen::generate(prop, base, i, false);
        let r = run_checked(&pool, &p, None, true);
        let mut x = ds::mix(r.hash, r.steps);
        for o in &r.obs {
            x = o.bytes().fold(x, |x, b| ds::mix(x, b as u64));
        }
        for (k, v) in r.stats.evals.iter().chain(&r.stats.faults).chain(&r.stats.kinds).chain(&r.stats.probes) {
            x = k.bytes().fold(ds::mix(x, *v), |x, b| ds::mix(x, b as u64));
        }
        println!("{i} {x:016x}");
        h = ds::mix(h, x);
    }
    println!("digest {h:016x}");
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("worker") => worker(&a[1..]),
        Some("replay") => replay(&a[1], a.get(2).map(|s| s.as_str())),
        Some("digest") => digest(&a[1..]),
        Some("gen") => print!("{}", gen::generate(&a[1], a[2].parse().unwrap(), a[3].parse().unwrap(), a.get(4).is_some_and(|t| t == "thorough")).to_text()),
        Some("check") => std::process::exit(check::check(&a[1..])),
        Some("minimise") => check::minimise_cmd(&a[1..]),
        _ => {
            eprintln!("usage: crabsim check PROP quick|thorough | replay FILE | digest PROP BASE START N | gen PROP BASE INDEX [thorough]");
            std::process::exit(2)
        }
    }
}
