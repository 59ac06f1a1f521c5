//! A simulated program: operations of several threads in phases, plus everything that decides how it
//! runs. One value of this type is one execution; it is also the replay file.
use crate::ds::{mix, Rng};

macro_rules! kinds {
    ($($k:ident),*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
        #[repr(u8)]
        pub enum K { $($k),* }
        pub const KINDS: &[(K, &str)] = &[$((K::$k, stringify!($k))),*];
    };
}
kinds!(
    NewVal, NewGpu, NewArr, NewGArr, Clone, Downgrade, WeakGpu, Upgrade, IntoGpu, Drop, Set, Modify, Nested, Get, GetVec, Lock, LockBegin, Unlock, WaitOthers,
    RefCount, Meta, Commit, GetBuffer, BufClone, BufUpdate, BufCheck, BufDrop, HasQueued, GetIds, Defrag, Verify, Poke, Read, ReadArr, AllocDrop, CheckCpu, Reclaim,
    Link, Chase, Stale, Churn, Other
);
pub fn kind_name(k: K) -> &'static str {
    KINDS[k as usize].1
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub ph: u8,
    pub th: u8,
    pub uid: u32,
    pub k: K,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    /// executed by a destructor, while a panic (of the user's) unwinds
    pub u: u8,
}
#[derive(Clone, Debug)]
pub struct Program {
    pub prop: String,
    pub seed: u64,
    pub backend: usize,
    pub threads: usize,
    pub phases: usize,
    pub vseed: u64,
    pub label: u8,
    pub epilogue: u32,
    pub ops: Vec<Op>,
    // how the schedule is chosen; a replay has strat REPLAY and `decs`
    pub strat: i32,
    pub sseed: u64,
    pub psw: u32,
    pub pop: u32,
    pub pspur: u32,
    pub cps: Vec<u64>,
    pub targets: Vec<(u32, u32, u32)>,
    pub decs: Vec<[u32; 5]>,
}
/// In `b` of a write: the value is the one the item was created with.
pub const AGAIN: u32 = 1 << 28;
/// epilogue bits
pub const E_FINAL: u32 = 1; // commit, verify, CPU against GPU
pub const E_RECLAIM: u32 = 2; // drop everything, commit, everything must be one free range again
pub const E_RELEASE: u32 = 4; // drop buffers and allocators, no buffer may stay alive
pub const E_LIN: u32 = 8;
pub const E_UNIFORM: u32 = 16; // every allocation has the same size: bound the footprint
pub const E_READ: u32 = 32;

impl Program {
    pub fn op_seed(&self, uid: u32, i: usize) -> u64 {
        let x = mix(self.vseed, (uid as u64) << 16 | i as u64);
        // now and then a value of all zeros, as in a fresh buffer, or of all ones, as in a null id
        match x % 48 {
            0 => 0,
            1 => u64::MAX,
            _ => x,
        }
    }
    pub fn label_str(&self) -> Option<&'static str> {
        match self.label {
            0 => None,
            1 => Some("slab-a"),
            3 => Some("a long label \u{1F980}, a label that goes on and on and on, longer than any buffer one might want to keep it in, if one were to keep it in a buffer of sixty-four, or of a hundred and twenty-eight bytes, or even of 256 bytes: it will not fit, and nobody should try to make it"),
            _ => Some(""),
        }
    }
    pub fn to_text(&self) -> String {
        let mut s = format!(
            "crabsim 1\nproperty {}\nseed {}\nbackend {}\nthreads {}\nphases {}\nvseed {}\nlabel {}\nepilogue {}\nsched {} {} {} {} {}\n",
            self.prop, self.seed, self.backend, self.threads, self.phases, self.vseed, self.label, self.epilogue, self.strat, self.sseed, self.psw, self.pop, self.pspur
        );
        for c in &self.cps {
            s += &format!("cp {c}\n");
        }
        for t in &self.targets {
            s += &format!("target {} {} {}\n", t.0, t.1, t.2);
        }
        for o in &self.ops {
            s += &format!("op {} {} {} {} {} {} {}{}\n", o.ph, o.th, o.uid, kind_name(o.k), o.a, o.b, o.c, if o.u != 0 { " 1" } else { "" });
        }
        for d in &self.decs {
            s += &format!("dec {} {} {} {} {}\n", d[0], d[1], d[2], d[3], d[4]);
        }
        s
    }
    pub fn parse(text: &str) -> Result<Program, String> {
        let mut p = Program {
            prop: String::new(),
            seed: 0,
            backend: 0,
            threads: 1,
            phases: 1,
            vseed: 0,
            label: 0,
            epilogue: 0,
            ops: vec![],
            strat: 0,
            sseed: 0,
            psw: 0,
            pop: 0,
            pspur: 0,
            cps: vec![],
            targets: vec![],
            decs: vec![],
        };
        for (ln, l) in text.lines().enumerate() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.is_empty() || w[0].starts_with('#') {
                continue;
            }
            let n = |i: usize| -> Result<u64, String> { w.get(i).and_then(|x| x.parse::<i64>().ok().map(|v| v as u64).or(x.parse::<u64>().ok())).ok_or(format!("line {}: {l}", ln + 1)) };
            match w[0] {
                "crabsim" => {}
                "property" => p.prop = w.get(1).unwrap_or(&"").to_string(),
                "seed" => p.seed = n(1)?,
                "backend" => p.backend = n(1)? as usize,
                "threads" => p.threads = n(1)? as usize,
                "phases" => p.phases = n(1)? as usize,
                "vseed" => p.vseed = n(1)?,
                "label" => p.label = n(1)? as u8,
                "epilogue" => p.epilogue = n(1)? as u32,
                "sched" => {
                    p.strat = n(1)? as i32;
                    p.sseed = n(2)?;
                    p.psw = n(3)? as u32;
                    p.pop = n(4)? as u32;
                    p.pspur = n(5)? as u32;
                }
                "cp" => p.cps.push(n(1)?),
                "target" => p.targets.push((n(1)? as u32, n(2)? as u32, n(3)? as u32)),
                "op" => {
                    let k = KINDS.iter().find(|k| k.1 == w[4]).ok_or(format!("line {}: kind {}", ln + 1, w[4]))?.0;
                    p.ops.push(Op { ph: n(1)? as u8, th: n(2)? as u8, uid: n(3)? as u32, k, a: n(5)? as u32, b: n(6)? as u32, c: n(7)? as u32, u: if w.len() > 8 { n(8)? as u8 } else { 0 } });
                }
                "dec" => p.decs.push([n(1)? as u32, n(2)? as u32, n(3)? as u32, n(4)? as u32, n(5)? as u32]),
                _ => return Err(format!("line {}: {l}", ln + 1)),
            }
        }
        Ok(p)
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0u64;
        for o in &self.ops {
            h = mix(h, (o.ph as u64) << 56 | (o.th as u64) << 48 | (o.k as u64) << 40 | o.uid as u64);
            h = mix(h, (o.a as u64) << 32 | o.b as u64);
            h = mix(h, (o.u as u64) << 32 | o.c as u64);
        }
        mix(h, self.backend as u64)
    }
}
#[allow(dead_code)]
pub fn rng_of(seed: u64) -> Rng {
    Rng::new(seed)
}
