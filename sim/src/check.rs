//! The parent of a check: spreads seeds over worker processes, and when one of them finds a violation,
//! verifies that it replays, minimises it and reports it.
use crate::ds;
use crate::prog::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}
fn exe() -> PathBuf {
    std::env::current_exe().unwrap()
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect();
    format!("{{{}}}", v.join(", "))
}
/// (runs, seconds) of a tier
fn budget(prop: &str, thorough: bool) -> (u64, u64) {
    if let Ok(x) = std::env::var("CRABSIM_RUNS") {
        return (x.parse().unwrap(), 3600);
    }
    let _ = prop;
    if thorough {
        (40_000_000, 600)
    } else {
        (1_200_000, 60)
    }
}
#[derive(Clone, Debug, PartialEq)]
enum Verdict {
    Held,
    Violation(String, String, String),
    Crash(String),
    Hang,
}
impl Verdict {
    fn class(&self) -> String {
        match self {
            Verdict::Held => "none".into(),
            Verdict::Violation(c, _, _) => c.clone(),
            Verdict::Crash(_) => "crash".into(),
            Verdict::Hang => "hang".into(),
        }
    }
    fn what(&self) -> String {
        match self {
            Verdict::Held => "held".into(),
            Verdict::Violation(_, w, _) => w.clone(),
            Verdict::Crash(s) => format!("the process died ({s})"),
            Verdict::Hang => "the run does not end".into(),
        }
    }
}
fn read_head(text: &str, key: &str) -> String {
    text.lines().find_map(|l| l.strip_prefix(&format!("# {key} "))).unwrap_or("").to_string()
}
/// Run one program in a process of its own. The recorded schedule comes back in `out`.
fn replay(p: &Program, dir: &Path, tag: usize, secs: u64) -> (Verdict, Option<Program>) {
    replay_text(&p.to_text(), dir, tag, secs)
}
fn replay_text(text: &str, dir: &Path, tag: usize, secs: u64) -> (Verdict, Option<Program>) {
    let f = dir.join(format!("try{tag}"));
    let out = dir.join(format!("try{tag}.out"));
    let _ = std::fs::remove_file(&out);
    std::fs::write(&f, text).unwrap();
    let mut c = Command::new(exe()).arg("replay").arg(&f).arg(&out).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let st = match wait(&mut c, Duration::from_secs(secs)) {
        None => return (Verdict::Hang, None),
        Some(s) => s,
    };
    match st.code() {
        Some(0) => (Verdict::Held, None),
        Some(10) => {
            let t = std::fs::read_to_string(&out).unwrap_or_default();
            (Verdict::Violation(read_head(&t, "class"), read_head(&t, "what"), String::new()), Program::parse(&t).ok())
        }
        _ => (Verdict::Crash(format!("{st}")), None),
    }
}
fn wait(c: &mut Child, d: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed() > d {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_micros(500));
    }
}
/// Delta debugging over operations, then over scheduling decisions: the same class of violation must
/// remain. Candidates run in parallel, the first (in order) that still fails is kept.
fn minimise(mut p: Program, class: &str, dir: &Path, budget: Duration) -> (Program, usize) {
    let t0 = Instant::now();
    let mut trials = 0;
    let par = 8;
    fn attempt(cands: Vec<Program>, class: &str, dir: &Path, trials: &mut usize) -> Option<Program> {
        *trials += cands.len();
        let hs: Vec<_> = cands
            .into_iter()
            .enumerate()
            .map(|(i, c)| {
                let (dir, class) = (dir.to_path_buf(), class.to_string());
                std::thread::spawn(move || {
                    let (v, q) = replay(&c, &dir, i, 5);
                    (v.class() == class).then(|| if c.strat == ds::REPLAY { q.map(|q| Program { decs: q.decs, ..c.clone() }).unwrap_or(c) } else { c })
                })
            })
            .collect();
        let mut r = None;
        for h in hs {
            let x = h.join().unwrap();
            if r.is_none() {
                r = x
            }
        }
        r
    }
    let mut round = 0;
    loop {
        let before = (p.ops.len(), p.decs.len(), p.targets.len(), p.cps.len());
        // operations
        let mut size = (p.ops.len() / 2).max(1);
        while size >= 1 && t0.elapsed() < budget {
            let mut i = 0;
            while i < p.ops.len() && t0.elapsed() < budget {
                let mut cands = vec![];
                let mut at = vec![];
                let mut j = i;
                while j < p.ops.len() && cands.len() < par {
                    let mut c = p.clone();
                    c.ops.drain(j..(j + size).min(c.ops.len()));
                    cands.push(c);
                    at.push(j);
                    j += size;
                }
                let n = cands.len();
                match attempt(cands, class, dir, &mut trials) {
                    Some(c) => p = c,
                    None => i += n * size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // decisions of the schedule
        if p.strat == ds::REPLAY {
            let mut size = (p.decs.len() / 2).max(1);
            while size >= 1 && t0.elapsed() < budget {
                let mut i = 0;
                while i < p.decs.len() && t0.elapsed() < budget {
                    let mut cands = vec![];
                    let mut j = i;
                    while j < p.decs.len() && cands.len() < par {
                        let mut c = p.clone();
                        c.decs.drain(j..(j + size).min(c.decs.len()));
                        cands.push(c);
                        j += size;
                    }
                    let n = cands.len();
                    let before = p.decs.len();
                    match attempt(cands, class, dir, &mut trials) {
                        Some(c) if c.decs.len() < before => p = c,
                        _ => i += n * size,
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        }
        // everything that is merely set
        let mut cands = vec![];
        for e in 0..6 {
            if p.epilogue >> e & 1 == 1 {
                let mut c = p.clone();
                c.epilogue &= !(1 << e);
                cands.push(c)
            }
        }
        let mut c = p.clone();
        c.ops.iter_mut().for_each(|o| o.u = 0);
        if c.ops != p.ops {
            cands.push(c);
            for i in (0..p.ops.len()).filter(|i| p.ops[*i].u != 0).take(6) {
                let mut c = p.clone();
                c.ops[i].u = 0;
                cands.push(c);
            }
        }
        if p.label != 0 {
            cands.push(Program { label: 0, ..p.clone() })
        }
        if let Some(c) = attempt(cands, class, dir, &mut trials) {
            p = c
        }
        round += 1;
        if (p.ops.len(), p.decs.len(), p.targets.len(), p.cps.len()) == before && round > 1 || t0.elapsed() > budget {
            break;
        }
    }
    (p, trials)
}
pub fn minimise_cmd(a: &[String]) {
    let t = std::fs::read_to_string(&a[0]).unwrap();
    let p = Program::parse(&t).unwrap();
    let dir = std::env::temp_dir().join(format!("crabsim-min-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let (v, q) = replay(&p, &dir, 0, 20);
    eprintln!("{v:?}");
    if v == Verdict::Held {
        return;
    }
    let (m, n) = minimise(q.unwrap_or(p), &v.class(), &dir, Duration::from_secs(60));
    eprintln!("{n} trials");
    println!("# class {}\n# what {}\n{}", v.class(), v.what(), m.to_text());
    let _ = std::fs::remove_dir_all(&dir);
}

struct Found {
    prog: Program,
    verdict: Verdict,
}
pub fn check(a: &[String]) -> i32 {
    let prop = a[0].clone();
    let tier = std::env::var("VERIF_TIER").ok().filter(|t| t == "thorough" || t == "quick").unwrap_or_else(|| "quick".into());
    let tier = a.get(1).cloned().unwrap_or(tier);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let (runs, secs) = budget(&prop, thorough);
    let t0 = Instant::now();
    let dir = root().join("out").join(format!("{prop}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let nw = std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(1, 16);
    println!("{prop}: {runs} seeded runs, seed {seed}, {nw} workers, at most {secs} s");
    let mut ws: Vec<(usize, Option<Child>, u64, Instant)> = (0..nw)
        .map(|w| {
            let log = std::fs::File::create(dir.join(format!("w{w}.log"))).unwrap();
            let c = Command::new(exe())
                .arg("worker")
                .args([prop.clone(), seed.to_string(), w.to_string(), nw.to_string(), runs.to_string(), secs.to_string(), tier.clone()])
                .arg(&dir)
                .stdout(log.try_clone().unwrap())
                .stderr(log)
                .spawn()
                .unwrap();
            (w, Some(c), u64::MAX, Instant::now())
        })
        .collect();
    let progress = |w: usize| -> Option<u64> {
        let b = std::fs::read(dir.join(format!("w{w}.prog"))).ok()?;
        Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
    };
    let mut found: Option<Found> = None;
    let mut broken: Option<String> = None;
    'outer: loop {
        let mut alive = 0;
        for i in 0..ws.len() {
            let (w, c, last, since) = &mut ws[i];
            let Some(ch) = c else { continue };
            let prg = progress(*w);
            let st = ch.try_wait().unwrap();
            if st.is_none() {
                alive += 1;
                if prg.unwrap_or(0) != *last {
                    *last = prg.unwrap_or(0);
                    *since = Instant::now();
                }
                if since.elapsed() > Duration::from_secs(30) {
                    match prg {
                        Some(idx) => found = Some(Found { prog: crate::gen::generate(&prop, seed, idx, thorough), verdict: Verdict::Hang }),
                        None => broken = Some("a worker does not start".into()),
                    }
                    break 'outer;
                }
                continue;
            }
            let st = st.unwrap();
            *c = None;
            match st.code() {
                Some(0) => {}
                Some(10) => {
                    let t = std::fs::read_to_string(dir.join(format!("w{w}.viol"))).unwrap_or_default();
                    match Program::parse(&t) {
                        Ok(p) if !t.is_empty() => found = Some(Found { prog: p, verdict: Verdict::Violation(read_head(&t, "class"), read_head(&t, "what"), String::new()) }),
                        _ => broken = Some(format!("worker {w} reported a violation it did not write down")),
                    }
                    break 'outer;
                }
                _ => {
                    match prg {
                        Some(idx) => found = Some(Found { prog: crate::gen::generate(&prop, seed, idx, thorough), verdict: Verdict::Crash(format!("{st}")) }),
                        None if st.code() == Some(11) || st.code().is_none() => {
                            found = Some(Found { prog: crate::gen::generate(&prop, seed, 0, thorough), verdict: Verdict::Crash(format!("{st} in the very first operations")) });
                        }
                        None => {
                            broken = Some(format!("worker {w} ended with {st} before its first run: {}", std::fs::read_to_string(dir.join(format!("w{w}.log"))).unwrap_or_default()));
                        }
                    }
                    break 'outer;
                }
            }
        }
        if alive == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    for (_, c, _, _) in ws.iter_mut() {
        if let Some(c) = c {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let code = if let Some(b) = broken {
        eprintln!("{prop}: {b}");
        2
    } else if let Some(f) = found {
        report(&prop, seed, thorough, &dir, f, nw as u64)
    } else {
        0
    };
    if code == 0 || code == 1 {
        evidence(&prop, &tier, seed, &dir, nw, wall, code);
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}
fn report(prop: &str, seed: u64, thorough: bool, dir: &Path, f: Found, nw: u64) -> i32 {
    let rdir = root().join("replays");
    std::fs::create_dir_all(&rdir).unwrap();
    let file = rdir.join(format!("{prop}-{seed}-{}.txt", f.prog.seed));
    let orig = crate::gen::generate(prop, seed, f.prog.seed, thorough);
    println!("{prop}: seed {seed} run {}: {}: {}", f.prog.seed, f.verdict.class(), f.verdict.what());
    // it must fail the same way from the recorded schedule, in a fresh process
    let mut p = f.prog.clone();
    let mut class = f.verdict.class();
    let mut what = f.verdict.what();
    let (v, _) = replay(&p, dir, 90, 20);
    let mut replays = v.class() == class;
    if !replays {
        let (v2, q) = replay(&orig, dir, 91, 20);
        if v2 != Verdict::Held {
            class = v2.class();
            what = v2.what();
            p = q.unwrap_or(orig);
            replays = replay(&p, dir, 92, 20).0.class() == class;
        }
    }
    if replays {
        let (m, trials) = minimise(p.clone(), &class, dir, Duration::from_secs(if class == "hang" { 60 } else { 40 }));
        let (a, qa) = replay(&m, dir, 93, 20);
        let (b, _) = replay(&m, dir, 94, 20);
        if a.class() == class && a == b {
            println!("{prop}: minimised from {} operations and {} decisions to {} and {} in {trials} trials; replayed twice with the same result", p.ops.len(), p.decs.len(), m.ops.len(), m.decs.len());
            what = a.what();
            let _ = qa;
            p = m;
        } else if a.class() == class {
            p = m;
        }
    } else {
        // It takes what earlier runs of the same process left behind (memory that was freed or
        // overwritten): replay the shortest row of runs that ends the same way.
        println!("{prop}: run {} does not fail on its own", f.prog.seed);
        let last = f.prog.seed;
        let mut n = 1;
        let mut row = None;
        loop {
            let start = last.saturating_sub((n - 1) * nw).max(last % nw);
            let t = format!("crabsim-row 1\nproperty {prop}\nbase {seed}\nstart {start}\nstride {nw}\nlast {last}\ntier {}\n", if thorough { "thorough" } else { "quick" });
            let v = replay_text(&t, dir, 95, 240).0;
            if v != Verdict::Held {
                println!("{prop}: reproduced by {n} runs in a row: {}", v.what());
                class = v.class();
                what = v.what();
                row = Some(t);
                break;
            }
            if start < nw {
                break;
            }
            n *= 8;
        }
        if let Some(t) = row {
            std::fs::write(&file, format!("# class {class}\n# what {what}\n{t}")).unwrap();
            println!("VIOLATION property={prop} replay={}", file.display());
            return 1;
        }
        println!("{prop}: not reproduced by replay");
    }
    std::fs::write(&file, format!("# class {class}\n# what {what}\n{}", p.to_text())).unwrap();
    println!("{prop}: {what}");
    println!("VIOLATION property={prop} replay={}", file.display());
    1
}
fn evidence(prop: &str, tier: &str, seed: u64, dir: &Path, nw: usize, wall: f64, code: i32) {
    let mut m: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    let mut hashes: Vec<u64> = vec![];
    for w in 0..nw {
        if let Ok(t) = std::fs::read_to_string(dir.join(format!("w{w}.stats"))) {
            for l in t.lines() {
                let mut it = l.splitn(3, ' ');
                let (v, s, k) = (it.next().unwrap().parse::<u64>().unwrap(), it.next().unwrap(), it.next().unwrap_or(""));
                let e = m.entry(s.to_string()).or_default().entry(k.to_string()).or_default();
                if s == "m" {
                    *e = v.max(*e)
                } else {
                    *e += v
                }
            }
        }
        if let Ok(b) = std::fs::read(dir.join(format!("w{w}.hash"))) {
            hashes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    hashes.sort_unstable();
    hashes.dedup();
    let g = |s: &str, k: &str| m.get(s).and_then(|x| x.get(k)).copied().unwrap_or(0);
    let mut runs = g("n", "runs");
    if runs == 0 {
        // stopped by a violation: nothing but the workers' positions is known
        for w in 0..nw as u64 {
            let b = std::fs::read(dir.join(format!("w{w}.prog"))).unwrap_or_default();
            if let Some(i) = b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())) {
                runs += (i.saturating_sub(w)) / nw as u64 + 1;
            }
        }
    }
    let empty = BTreeMap::new();
    let sec = |s: &str| m.get(s).unwrap_or(&empty).clone();
    let mut faults = sec("f");
    faults.insert("preemption between two atomic steps of an operation".into(), g("n", "preemptions"));
    faults.insert("spurious wakeup of a blocked thread".into(), g("n", "spurious"));
    let mut samples: Vec<String> = vec![];
    for i in [0u64, 1, 2, 7] {
        let p = crate::gen::generate(prop, seed, i, tier == "thorough");
        samples.push(jstr(&p.to_text()));
    }
    let per_h = if wall > 0.0 { (runs as f64 * 3600.0 / wall) as u64 } else { 0 };
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_per_hour\": {per_h},\n  \"seeds\": \"every run has a seed of its own, derived from VERIF_SEED, the property and its index\",\n  \"simulated_time_steps\": {},\n  \"longest_run_steps\": {},\n  \"operations\": {},\n  \"operations_skipped\": {},\n  \"context_switches\": {},\n  \"times_blocked\": {},\n  \"oracle_evaluations\": {},\n  \"faults_injected\": {},\n  \"situations_reached\": {},\n  \"operation_kinds\": {},\n  \"operation_kinds_skipped\": {},\n  \"runtimes\": {},\n  \"schedulers\": {},\n  \"linearizability_inconclusive\": {},\n  \"components\": {{\"real\": {}, \"stub\": {}}}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n",
        jstr(prop),
        jstr(tier),
        hashes.len(),
        jstr("A case is one simulated execution: a generated program (setup, then 1 to 5 threads of API calls, faults included) under one seeded schedule. It counts as non-trivial if the property's own oracle judged something in it and at least one of these holds: a thread was preempted inside an operation or blocked, a fault fired, or it is a single-threaded history of 8 or more operations. Cases are distinct by the hash of the program together with every scheduling decision taken."),
        samples.join(", "),
        g("n", "steps"),
        g("m", "longest"),
        g("n", "ops"),
        g("n", "skipped"),
        g("n", "switches"),
        g("n", "blocked"),
        jmap(&sec("e")),
        jmap(&faults),
        jmap(&sec("p")),
        jmap(&sec("k")),
        jmap(&sec("x")),
        jmap(&sec("b")),
        jmap(&sec("s")),
        g("n", "lin_inconclusive"),
        jstr("craballoc (all of it: allocator, values, ranges, CpuRuntime, WgpuRuntime), crabslab, crabslab-derive's output, std Arc/Mutex/RwLock/Condvar code, async-channel, concurrent-queue, event-listener"),
        jstr("thread scheduler and futex (shim/detsched.c), getrandom, the wgpu crate (wgpu-sim), and for the share of runs listed under runtimes/sim the IsRuntime implementation itself"),
        jstr("Executions are interleavings of atomic operations and lock calls (sequential consistency): weak-memory reorderings are not simulated. Plain memory accesses are not scheduling points."),
        if code == 0 { 0 } else { 1 }
    );
    let d = root().join("evidence");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join(format!("{prop}.json")), s).unwrap();
    println!("{prop}: {runs} runs in {wall:.1} s, {} distinct non-trivial interleavings, {} scheduling points", hashes.len(), g("n", "points"));
}
