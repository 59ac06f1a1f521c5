//! From a seed to a program: which handles exist, what each thread does with them, which faults strike
//! and how the schedule is chosen. Every run draws its own mix (swarm testing).
use crate::ds::{self, mix, Rng};
use crate::handles::Hk;
use crate::prog::*;
use crate::types::*;

#[derive(Clone)]
struct Hm {
    uid: u32,
    /// the operation that made the value
    al: u32,
    hk: Hk,
    n: u32,
    ty: usize,
    /// the thread that uses it, or everybody
    vis: Option<usize>,
}
struct G {
    r: Rng,
    p: Program,
    uid: u32,
    hs: Vec<Hm>,
    bufs: Vec<u32>,
    locks: Vec<(usize, u32)>,
    types: Vec<usize>,
    bigarr: u32,
    w: Vec<(K, u32)>,
    user_faults: usize,
    rt_faults: usize,
    read_faults: usize,
}
pub const PROPS: [&str; 16] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"];

const BASE: &[(K, u32)] = &[
    (K::NewVal, 6),
    (K::NewGpu, 4),
    (K::NewArr, 3),
    (K::NewGArr, 3),
    (K::Clone, 4),
    (K::Downgrade, 2),
    (K::WeakGpu, 1),
    (K::Upgrade, 3),
    (K::IntoGpu, 1),
    (K::Drop, 8),
    (K::Set, 10),
    (K::Modify, 4),
    (K::Nested, 1),
    (K::Get, 4),
    (K::GetVec, 1),
    (K::Lock, 3),
    (K::LockBegin, 1),
    (K::Unlock, 1),
    (K::RefCount, 1),
    (K::Meta, 1),
    (K::Commit, 10),
    (K::GetBuffer, 2),
    (K::BufClone, 1),
    (K::BufUpdate, 2),
    (K::BufCheck, 2),
    (K::BufDrop, 1),
    (K::HasQueued, 2),
    (K::GetIds, 2),
    (K::Defrag, 1),
    (K::Verify, 2),
];
fn set(w: &mut Vec<(K, u32)>, k: K, v: u32) {
    w.retain(|x| x.0 != k);
    if v > 0 {
        w.push((k, v));
    }
}
fn only(w: &mut Vec<(K, u32)>, v: &[(K, u32)]) {
    w.clear();
    w.extend_from_slice(v);
}

impl G {
    fn op(&mut self, ph: usize, th: usize, k: K, a: u32, b: u32, c: u32) -> u32 {
        self.uid += 1;
        let uid = self.uid;
        self.p.ops.push(Op { ph: ph as u8, th: th as u8, uid, k, a, b, c, u: 0 });
        uid
    }
    fn pick_h(&mut self, th: usize, f: impl Fn(&Hm) -> bool) -> Option<Hm> {
        let v: Vec<usize> = (0..self.hs.len()).filter(|i| (self.hs[*i].vis.is_none() || self.hs[*i].vis == Some(th)) && f(&self.hs[*i])).collect();
        if v.is_empty() {
            return None;
        }
        // lately made handles are more likely
        let i = if self.r.chance(40) { v[v.len() - 1 - self.r.below(v.len().min(2))] } else { *self.r.pick(&v) };
        Some(self.hs[i].clone())
    }
    fn ty(&mut self) -> usize {
        *self.r.pick(&self.types.clone())
    }
    fn n(&mut self) -> u32 {
        match self.r.below(12) {
            0 => 0,
            1..=4 => 1 + self.r.below(2) as u32,
            5..=9 => 2 + self.r.below(4) as u32,
            _ => 1 + self.r.below(self.bigarr.max(1) as usize) as u32,
        }
    }
    fn vis(&mut self, th: usize, setup: bool) -> Option<usize> {
        if setup || self.r.chance(25) {
            None
        } else {
            Some(th)
        }
    }
    fn create(&mut self, ph: usize, th: usize, k: K, setup: bool) -> u32 {
        let ty = self.ty();
        let n = if matches!(k, K::NewArr | K::NewGArr) { self.n() } else { 1 };
        let c = if ty == T_BOMB && !setup && self.r.chance(self.user_faults) {
            1 + self.r.below(2) as u32
        } else if k == K::NewArr && !setup && ty != T_BOMB && self.r.chance(25) {
            let other = self.pick_h(th, |_| true).map_or(0, |o| o.uid);
            1 + self.r.below(14) as u32 | other << 4
        } else {
            0
        };
        let uid = self.op(ph, th, k, ty as u32, n, c);
        let hk = match k {
            K::NewVal => Hk::Hybrid,
            K::NewGpu => Hk::Gpu,
            K::NewArr => Hk::HArr,
            _ => Hk::GArr,
        };
        let vis = self.vis(th, setup);
        self.hs.push(Hm { uid, al: uid, hk, n, ty, vis });
        uid
    }
    fn draw(&mut self, ph: usize, th: usize) {
        let total: u32 = self.w.iter().map(|x| x.1).sum();
        let mut x = self.r.below(total as usize) as u32;
        let mut k = K::Commit;
        for (kk, w) in &self.w {
            if x < *w {
                k = *kk;
                break;
            }
            x -= w;
        }
        self.gen(ph, th, k);
    }
    fn gen(&mut self, ph: usize, th: usize, k: K) {
        match k {
            K::NewVal | K::NewGpu | K::NewArr | K::NewGArr => {
                self.create(ph, th, k, false);
            }
            K::Clone | K::Downgrade | K::WeakGpu | K::Upgrade | K::IntoGpu => {
                let h = self.pick_h(th, |h| match k {
                    K::Clone => true,
                    K::Downgrade => h.hk == Hk::Hybrid,
                    K::WeakGpu => matches!(h.hk, Hk::Hybrid | Hk::Gpu | Hk::WeakH),
                    K::Upgrade => !h.hk.strong(),
                    _ => h.hk.cpu(),
                });
                let Some(h) = h else { return };
                let uid = self.op(ph, th, k, h.uid, 0, 0);
                let hk = match (k, h.hk) {
                    (K::Clone, x) => x,
                    (K::Downgrade, _) => Hk::WeakH,
                    (K::WeakGpu, _) => Hk::WeakG,
                    (K::Upgrade, Hk::WeakH) => Hk::Hybrid,
                    (K::Upgrade, _) => Hk::Gpu,
                    (_, Hk::HArr) => Hk::GArr,
                    _ => Hk::Gpu,
                };
                if k == K::IntoGpu {
                    self.hs.retain(|x| x.uid != h.uid);
                }
                let vis = self.vis(th, false);
                self.hs.push(Hm { uid, al: h.al, hk, n: h.n, ty: h.ty, vis });
            }
            K::Drop => {
                let Some(h) = self.pick_h(th, |_| true) else { return };
                if self.r.chance(10) {
                    // the last owner goes, as far as this thread knows, and one without a share looks
                    let same: Vec<Hm> = self.hs.iter().filter(|x| x.al == h.al && x.vis.map_or(true, |v| v == th)).cloned().collect();
                    let k = *self.r.pick(&[K::Upgrade, K::Upgrade, K::RefCount]);
                    if let Some(weak) = same.iter().find(|x| !x.hk.strong() && (k == K::Upgrade || x.hk == Hk::WeakH)) {
                        for x in same.iter().filter(|x| x.hk.strong()) {
                            self.op(ph, th, K::Drop, x.uid, 0, 0);
                            self.hs.retain(|y| y.uid != x.uid);
                        }
                        self.op(ph, th, k, weak.uid, 0, 0);
                        return;
                    }
                }
                self.op(ph, th, k, h.uid, 0, 0);
                if self.r.chance(80) {
                    self.hs.retain(|x| x.uid != h.uid);
                }
            }
            K::Set => {
                let Some(h) = self.pick_h(th, |h| h.hk.strong()) else { return };
                let i = self.index(&h);
                let c = if h.ty == T_BOMB && self.r.chance(self.user_faults) { 1 + self.r.below(2) as u32 } else { 0 };
                self.op(ph, th, k, h.uid, i, c);
            }
            K::Modify => {
                let Some(h) = self.pick_h(th, |h| h.hk.cpu()) else { return };
                let i = self.index(&h);
                let c = if self.r.chance(self.user_faults) { 1 + self.r.below(if h.ty == T_BOMB { 4 } else { 2 }) as u32 } else { 0 };
                self.op(ph, th, k, h.uid, i, c);
            }
            K::Nested => {
                let Some(h) = self.pick_h(th, |h| h.hk.cpu()) else { return };
                let i = self.index(&h);
                let _ = i;
                let b = self.pick_h(th, |o| o.uid != h.uid && o.hk.strong()).map_or(0, |o| o.uid);
                let c = 1 + self.r.below(14) as u32;
                self.op(ph, th, k, h.uid, b, c);
            }
            K::Get | K::GetVec => {
                let Some(h) = self.pick_h(th, |h| h.hk.cpu()) else { return };
                let i = self.index(&h);
                self.op(ph, th, k, h.uid, i, 0);
            }
            K::Lock => {
                let Some(h) = self.pick_h(th, |h| h.hk == Hk::Hybrid) else { return };
                let c = if self.r.chance(self.user_faults) {
                    if h.ty == T_BOMB && self.r.chance(60) { 3 + self.r.below(2) as u32 } else { 1 }
                } else if self.r.chance(20) {
                    2
                } else {
                    0
                };
                self.op(ph, th, k, h.uid, 0, c);
            }
            K::LockBegin => {
                let Some(h) = self.pick_h(th, |h| h.hk == Hk::Hybrid) else { return };
                let uid = self.op(ph, th, k, h.uid, 0, 0);
                self.locks.push((th, uid));
            }
            K::Unlock => {
                let Some(i) = self.locks.iter().position(|l| l.0 == th) else { return };
                let l = self.locks.remove(i).1;
                let b = self.r.below(2) as u32;
                self.op(ph, th, k, l, b, 0);
            }
            K::RefCount | K::Meta => {
                let Some(h) = self.pick_h(th, |_| true) else { return };
                if self.r.chance(10) {
                    // the last owner goes, as far as this thread knows, and one without a share looks
                    let same: Vec<Hm> = self.hs.iter().filter(|x| x.al == h.al && x.vis.map_or(true, |v| v == th)).cloned().collect();
                    let k = *self.r.pick(&[K::Upgrade, K::Upgrade, K::RefCount]);
                    if let Some(weak) = same.iter().find(|x| !x.hk.strong() && (k == K::Upgrade || x.hk == Hk::WeakH)) {
                        for x in same.iter().filter(|x| x.hk.strong()) {
                            self.op(ph, th, K::Drop, x.uid, 0, 0);
                            self.hs.retain(|y| y.uid != x.uid);
                        }
                        self.op(ph, th, k, weak.uid, 0, 0);
                        return;
                    }
                }
                self.op(ph, th, k, h.uid, 0, 0);
            }
            K::Commit => {
                let b = self.r.chance(5) as u32;
                let c = if self.r.chance(self.rt_faults) { 1 + self.r.below(6) as u32 } else { 0 };
                let u = self.op(ph, th, k, 0, b, c);
                self.bufs.push(u);
            }
            K::GetBuffer => {
                let u = self.op(ph, th, k, 0, 0, 0);
                self.bufs.push(u);
            }
            K::BufClone | K::BufUpdate | K::BufCheck | K::BufDrop | K::Stale => {
                if self.bufs.is_empty() {
                    return;
                }
                let bs = self.bufs.clone();
                let a = *self.r.pick(&bs);
                let b = self.r.chance(10) as u32;
                let c = if k == K::Stale { self.r.below(42) as u32 } else { 0 };
                let u = self.op(ph, th, k, a, b, c);
                if k == K::BufClone {
                    self.bufs.push(u)
                }
                if k == K::BufDrop {
                    self.bufs.retain(|x| *x != a)
                }
            }
            K::HasQueued | K::GetIds | K::Defrag | K::Verify | K::CheckCpu => {
                self.op(ph, th, k, 0, 0, 0);
            }
            K::Chase => {
                let c = self.r.below(42) as u32;
                self.op(ph, th, k, 0, 0, c);
            }
            K::Poke => {
                let Some(h) = self.pick_h(th, |h| h.hk.strong()) else { return };
                let i = self.r.below(h.n.max(1) as usize) as u32;
                self.op(ph, th, k, h.uid, i, 0);
            }
            K::Read => {
                let mut mode = self.r.below(4) as u32;
                if mode >= 2 {
                    let n = if self.r.chance(50) { 9 } else { 36 };
                    mode |= (self.r.below(n) as u32) << 2;
                }
                let h = self.pick_h(th, |h| h.hk.strong()).map_or(0, |h| h.uid);
                let c = if self.r.chance(self.read_faults) { 1 + self.r.below(5) as u32 } else { 0 };
                let other = self.other();
                self.op(ph, th, k, h, mode | other << 8, c);
            }
            K::ReadArr => {
                let Some(h) = self.pick_h(th, |h| h.hk.strong()) else { return };
                let c = if self.r.chance(self.read_faults) { 1 + self.r.below(5) as u32 } else { 0 };
                let other = self.other();
                self.op(ph, th, k, h.uid, other << 8, c);
            }
            K::AllocDrop => {
                let a = self.r.chance(30) as u32;
                self.op(ph, th, k, a, 0, 0);
            }
            K::Link => {
                let Some(h) = self.pick_h(th, |_| true) else { return };
                let Some(o) = self.pick_h(th, |_| true) else { return };
                self.op(ph, th, k, h.uid, 0, o.uid);
            }
            K::WaitOthers | K::Reclaim | K::Churn | K::Other => {}
        }
    }
    /// what the thread does while its read is pending
    fn other(&mut self) -> u32 {
        if self.r.chance(50) {
            0
        } else {
            1 + self.r.below(6) as u32
        }
    }
    fn index(&mut self, h: &Hm) -> u32 {
        if !h.hk.array() {
            return 0;
        }
        if self.r.chance(5) {
            return h.n + self.r.below(3) as u32;
        }
        // a few items get most of the attention
        let m = if self.r.chance(60) { h.n.min(2) } else { h.n };
        self.r.below(m.max(1) as usize) as u32
    }
    fn setup(&mut self, threads: usize) {
        let n = match self.r.below(10) {
            0 => 0,
            1..=4 => 1,
            5..=7 => self.r.range(2, 3),
            _ => self.r.range(3, 6),
        };
        for _ in 0..n {
            let uni = self.p.epilogue & E_UNIFORM != 0;
            let k = *self.r.pick(if uni { &[K::NewVal, K::NewGpu][..] } else { &[K::NewVal, K::NewVal, K::NewGpu, K::NewGArr, K::NewArr] });
            self.create(0, 0, k, true);
        }
        let commit = self.r.chance(75);
        if commit {
            let u = self.op(0, 0, K::Commit, 0, 0, 0);
            self.bufs.push(u);
            // holes to be recycled
            if self.r.chance(40) {
                let m = self.r.range(1, 4);
                let mut tmp = vec![];
                for _ in 0..m {
                    let uni = self.p.epilogue & E_UNIFORM != 0;
                    let k = *self.r.pick(if uni { &[K::NewGpu, K::NewVal][..] } else { &[K::NewGpu, K::NewVal, K::NewGArr] });
                    tmp.push(self.create(0, 0, k, true));
                }
                if self.r.chance(50) {
                    self.op(0, 0, K::Commit, 0, 0, 0);
                }
                for t in tmp {
                    if self.r.chance(75) {
                        self.op(0, 0, K::Drop, t, 0, 0);
                        self.hs.retain(|h| h.uid != t);
                    }
                }
                if self.r.chance(80) {
                    let u = self.op(0, 0, K::Commit, 0, 0, 0);
                    self.bufs.push(u);
                }
            }
            if self.r.chance(30) {
                for _ in 0..self.r.range(1, 2) {
                    self.gen(0, 0, K::Set);
                }
            }
        }
        // some threads get their own clone, the only way a last owner can go away in a race
        let hs = self.hs.clone();
        for h in hs {
            if !self.r.chance(60) {
                continue;
            }
            let weak = self.r.chance(25);
            for t in 0..threads {
                if !self.r.chance(75) {
                    continue;
                }
                let (k, hk) = if weak && h.hk == Hk::Hybrid && self.r.chance(60) {
                    (K::Downgrade, Hk::WeakH)
                } else if weak && h.hk == Hk::Gpu && self.r.chance(60) {
                    (K::WeakGpu, Hk::WeakG)
                } else {
                    (K::Clone, h.hk)
                };
                let uid = self.op(0, 0, k, h.uid, 0, 0);
                self.hs.push(Hm { uid, hk, vis: Some(t), ..h });
            }
            if self.r.chance(60) {
                // the original goes, or belongs to one thread
                if self.r.chance(50) {
                    self.op(0, 0, K::Drop, h.uid, 0, 0);
                    self.hs.retain(|x| x.uid != h.uid);
                } else {
                    let t = self.r.below(threads);
                    for x in self.hs.iter_mut().filter(|x| x.uid == h.uid) {
                        x.vis = Some(t)
                    }
                }
            }
        }
    }
}
impl G {
    fn make(&mut self, k: K, ty: usize, n: u32) -> u32 {
        let uid = self.op(0, 0, k, ty as u32, n, 0);
        let hk = match k {
            K::NewVal => Hk::Hybrid,
            K::NewGpu => Hk::Gpu,
            K::NewArr => Hk::HArr,
            _ => Hk::GArr,
        };
        self.hs.push(Hm { uid, al: uid, hk, n, ty, vis: None });
        uid
    }
    fn commit0(&mut self) {
        let u = self.op(0, 0, K::Commit, 0, 0, 0);
        self.bufs.push(u);
    }
    /// A long history or a large slab before the threads start: whatever is bounded, batched or counted
    /// in too few bits shows only here.
    fn bulk(&mut self) {
        let uni = self.p.epilogue & E_UNIFORM != 0;
        let kept = self.hs.len();
        let top = *self.r.pick(&[40, 150, 300, 700, 1300, 2200]);
        let m = self.r.range(top / 2, top);
        let kinds: Vec<K> = if uni {
            vec![K::NewVal, K::NewGpu]
        } else {
            match self.r.below(4) {
                0 => vec![K::NewGpu],
                1 => vec![K::NewVal, K::NewGpu],
                2 => vec![K::NewArr, K::NewGArr],
                _ => vec![K::NewVal, K::NewGpu, K::NewArr, K::NewGArr],
            }
        };
        let every = *self.r.pick(&[1, 7, 64, usize::MAX]);
        match self.r.below(if uni { 5 } else { 7 }) {
            0 | 1 => {
                // many allocations, of which a pattern goes away again, and is made anew
                let mut made = vec![];
                for i in 0..m / 2 {
                    let k = *self.r.pick(&kinds);
                    let (ty, n) = (self.ty(), if matches!(k, K::NewArr | K::NewGArr) { self.n() } else { 1 });
                    made.push(self.make(k, ty, n));
                    if every != usize::MAX && i % (every * 8) == every * 8 - 1 {
                        self.commit0()
                    }
                }
                if self.r.chance(80) {
                    self.commit0()
                }
                match self.r.below(6) {
                    0 => made.reverse(),
                    1 => made = made.iter().step_by(2).chain(made.iter().skip(1).step_by(2)).cloned().collect(),
                    2 => {
                        for i in (1..made.len()).rev() {
                            let j = self.r.below(i + 1);
                            made.swap(i, j)
                        }
                    }
                    3 => made = made.iter().step_by(2).cloned().collect(),
                    _ => {}
                }
                let gone = if self.r.chance(40) { made.len() } else { self.r.below(made.len() + 1) };
                for (i, u) in made[..gone].iter().enumerate() {
                    self.op(0, 0, K::Drop, *u, 0, 0);
                    self.hs.retain(|h| h.uid != *u);
                    if every != usize::MAX && i % (every * 8) == every * 8 - 1 {
                        self.commit0()
                    }
                }
                if self.r.chance(80) {
                    self.commit0()
                }
                let again = if self.r.chance(50) { self.r.below(m / 4 + 1) } else { 0 };
                for _ in 0..again {
                    let k = *self.r.pick(&kinds);
                    let (ty, n) = (self.ty(), if matches!(k, K::NewArr | K::NewGArr) { self.n() } else { 1 });
                    self.make(k, ty, n);
                }
            }
            2 => {
                // many writes to few values
                if !self.hs.iter().any(|h| h.hk.strong()) {
                    let ty = self.ty();
                    self.make(K::NewVal, ty, 1);
                }
                // or to a large array, item after item
                let large = if !uni && self.r.chance(40) {
                    let (k, ty, n) = (*self.r.pick(&[K::NewArr, K::NewGArr]), self.ty(), *self.r.pick(&[20, 300, 3000]));
                    Some((self.make(k, ty, n), n))
                } else {
                    None
                };
                if self.r.chance(50) {
                    self.commit0()
                }
                for i in 0..m {
                    if let Some((u, n)) = large {
                        self.op(0, 0, K::Set, u, i as u32 % n, 0);
                        if every != usize::MAX && i % every == every - 1 {
                            self.commit0()
                        }
                        continue;
                    }
                    let k = if self.r.chance(90) { K::Set } else { K::Modify };
                    let Some(h) = self.pick_h(0, |h| if k == K::Set { h.hk.strong() } else { h.hk.cpu() }) else { continue };
                    let at = self.index(&h);
                    self.op(0, 0, k, h.uid, at, 0);
                    if every != usize::MAX && i % every == every - 1 {
                        self.commit0()
                    }
                }
            }
            3 => {
                // one value after the other
                for i in 0..m / 2 {
                    let k = *self.r.pick(&kinds);
                    let (ty, n) = (self.ty(), if matches!(k, K::NewArr | K::NewGArr) { self.n() } else { 1 });
                    let u = self.make(k, ty, n);
                    self.op(0, 0, K::Drop, u, 0, 0);
                    self.hs.pop();
                    if every != usize::MAX && i % every == every - 1 {
                        self.commit0()
                    }
                }
            }
            4 => {
                // many owners
                if self.hs.is_empty() {
                    let ty = self.ty();
                    self.make(K::NewVal, ty, 1);
                }
                let mut cl = vec![];
                for _ in 0..m / 2 {
                    let Some(h) = self.pick_h(0, |_| true) else { break };
                    let k = if h.hk == Hk::Hybrid && self.r.chance(30) { K::Downgrade } else { K::Clone };
                    cl.push(self.op(0, 0, k, h.uid, 0, 0));
                }
                let gone = if self.r.chance(50) { cl.len() } else { self.r.below(cl.len() + 1) };
                for u in &cl[..gone] {
                    self.op(0, 0, K::Drop, *u, 0, 0);
                }
            }
            5 => {
                // one array larger than anything else, with writes at its far end
                let ty = if self.r.chance(70) { T_U32 } else { self.ty() };
                let n = *self.r.pick(&[255, 256, 1000, 1024, 4096, 5000, 16384, 20000]) + self.r.below(3) as u32;
                let n = if self.r.chance(6) { 65530 + self.r.below(12) as u32 } else { n };
                let k = *self.r.pick(&[K::NewArr, K::NewGArr]);
                let u = self.make(k, ty, n);
                if self.r.chance(50) {
                    self.commit0()
                }
                for _ in 0..self.r.below(6) {
                    let i = match self.r.below(3) {
                        0 => n - 1,
                        1 => self.r.below(n as usize) as u32,
                        _ => n - 1 - self.r.below(3) as u32,
                    };
                    self.op(0, 0, K::Set, u, i, 0);
                }
                let t2 = self.ty();
                self.make(K::NewGpu, t2, 1);
                if self.r.chance(60) {
                    self.commit0();
                    if self.r.chance(50) {
                        self.op(0, 0, K::Drop, u, 0, 0);
                        self.hs.retain(|h| h.uid != u);
                        if self.r.chance(60) {
                            self.commit0()
                        }
                    }
                }
            }
            _ => {
                // allocations that double each time
                let mut n = 1;
                for _ in 0..self.r.range(6, 12) {
                    let k = *self.r.pick(&[K::NewArr, K::NewGArr]);
                    let ty = if self.r.chance(70) { T_U32 } else { self.ty() };
                    let more = self.r.below(2) as u32;
                    self.make(k, ty, n + more);
                    if self.r.chance(60) {
                        self.commit0()
                    }
                    if self.r.chance(30) {
                        let i = self.r.below(self.hs.len());
                        let u = self.hs.remove(i).uid;
                        self.op(0, 0, K::Drop, u, 0, 0);
                    }
                    n *= 2;
                }
            }
        }
        if self.r.chance(60) {
            self.op(0, 0, K::Verify, 0, 0, 0);
        }
        // the threads go on with a few of them
        while self.hs.len() > kept.min(4) + 8 {
            let i = self.r.below(self.hs.len());
            self.hs.swap_remove(i);
        }
        self.bufs.truncate(4);
    }
}
const WORDS_POOL: [usize; 6] = [T_U32, T_U32, T_U32X2, T_U32X3, T_NODE, T_ZST];

pub fn generate(prop: &str, base: u64, index: u64, thorough: bool) -> Program {
    let pi = PROPS.iter().position(|p| *p == prop).unwrap_or(0);
    let seed = mix(mix(base, 0xC0FFEE + pi as u64), index);
    let mut r = Rng::new(seed);
    let mut w = BASE.to_vec();
    let mut backends = [60, 20, 20];
    let mut threads = *r.pick(&[2, 2, 2, 3, 3, 4]);
    let mut nops = (1, 5);
    let mut phases = if r.chance(25) { 2 } else { 1 };
    let mut bigarr = 8;
    let (mut uf, mut rf, mut readf) = (0, 0, 0);
    let mut epilogue = E_FINAL | E_LIN | E_RELEASE | E_READ;
    if r.chance(60) {
        epilogue |= E_RECLAIM
    }
    let mut types: Vec<usize> = match r.below(10) {
        0..=3 => vec![T_U32],
        4..=6 => vec![T_U32, T_U32X2, T_U32X3],
        7 => vec![T_U32X2],
        _ => (0..3).map(|_| r.below(NTYPES - 1)).collect(),
    };
    let focus = r.below(100);
    match prop {
        "C01" => {
            if focus < 60 {
                only(&mut w, &[(K::Set, 10), (K::NewVal, 6), (K::NewGpu, 6), (K::NewGArr, 3), (K::NewArr, 3), (K::Commit, 14), (K::GetIds, 4), (K::Modify, 3), (K::Lock, 3), (K::Drop, 4), (K::HasQueued, 1), (K::Defrag, 1), (K::LockBegin, 1), (K::Unlock, 1), (K::Verify, 1), (K::GetBuffer, 1), (K::Clone, 2), (K::Upgrade, 2), (K::Poke, 1)])
            }
            if focus < 8 {
                threads = 1;
                nops = (6, 24);
            }
        }
        "C02" => {
            only(&mut w, &[(K::Set, 12), (K::Verify, 8), (K::Commit, 12), (K::NewVal, 4), (K::NewGpu, 4), (K::NewGArr, 3), (K::NewArr, 2), (K::Modify, 3), (K::Lock, 3), (K::Drop, 5), (K::Clone, 1), (K::GetBuffer, 1), (K::Read, 1)]);
            types = match r.below(6) {
                0..=1 => vec![T_U32],
                2..=3 => vec![T_U32X2, T_U32X3],
                _ => (0..4).map(|_| r.below(NTYPES - 1)).collect(),
            };
        }
        "C03" => {
            types = (0..r.range(2, 6)).map(|_| r.below(NTYPES - 1)).collect();
            if r.chance(40) {
                types.push(T_NODE)
            }
            set(&mut w, K::Chase, 8);
            set(&mut w, K::Stale, 5);
            set(&mut w, K::Verify, 8);
            set(&mut w, K::NewArr, 6);
            set(&mut w, K::NewGArr, 6);
            set(&mut w, K::Meta, 4);
            set(&mut w, K::ReadArr, 3);
            if focus < 60 {
                threads = 1;
                nops = (8, 30);
            }
        }
        "C04" => {
            only(&mut w, &[(K::NewVal, 8), (K::NewGpu, 8), (K::NewArr, 4), (K::NewGArr, 6), (K::Drop, 16), (K::Commit, 14), (K::Set, 5), (K::Upgrade, 4), (K::Clone, 2), (K::Defrag, 3), (K::Verify, 2), (K::Meta, 2), (K::WeakGpu, 2), (K::Downgrade, 2), (K::GetIds, 2)]);
            types = match r.below(5) {
                0 => vec![T_U32],
                1..=2 => WORDS_POOL.to_vec(),
                _ => (0..4).map(|_| r.below(NTYPES - 1)).collect(),
            };
            if focus < 20 {
                threads = 1;
                nops = (10, 60);
                bigarr = 20;
            }
        }
        "C05" => {
            only(&mut w, &[(K::NewVal, 8), (K::NewGpu, 8), (K::NewArr, 3), (K::NewGArr, 5), (K::Drop, 20), (K::Commit, 14), (K::Set, 4), (K::Upgrade, 4), (K::Clone, 4), (K::Defrag, 3), (K::WeakGpu, 2), (K::Downgrade, 2), (K::IntoGpu, 2), (K::GetIds, 2)]);
            epilogue |= E_RECLAIM;
            types = match r.below(5) {
                0 => vec![T_U32],
                1..=2 => WORDS_POOL.to_vec(),
                _ => (0..4).map(|_| r.below(NTYPES - 1)).collect(),
            };
            if focus < 30 {
                types = vec![*r.pick(&[T_U32, T_U32X2, T_U32X3])];
                set(&mut w, K::NewArr, 0);
                set(&mut w, K::NewGArr, 0);
                epilogue |= E_UNIFORM;
            }
            if focus % 10 < 3 {
                threads = 1;
                nops = (10, 60);
                bigarr = 20;
            }
        }
        "C06" => {
            set(&mut w, K::NewVal, 14);
            set(&mut w, K::NewGpu, 10);
            set(&mut w, K::NewArr, 8);
            set(&mut w, K::NewGArr, 12);
            set(&mut w, K::Commit, 18);
            set(&mut w, K::Verify, 6);
            set(&mut w, K::Poke, 3);
            bigarr = *r.pick(&[4, 16, 64]);
            if focus < 20 {
                threads = 1;
                nops = (6, 40);
            }
        }
        "C07" => {
            only(&mut w, &[(K::Set, 12), (K::Verify, 14), (K::Commit, 10), (K::NewVal, 4), (K::NewGpu, 4), (K::NewGArr, 4), (K::NewArr, 3), (K::Modify, 3), (K::Lock, 3), (K::Drop, 6), (K::Poke, 6), (K::Get, 1), (K::GetIds, 2), (K::HasQueued, 2), (K::Defrag, 2), (K::Upgrade, 1), (K::Clone, 1), (K::Nested, 1), (K::BufUpdate, 1)]);
            if focus < 40 {
                threads = 1;
                nops = (8, 30);
            }
        }
        "C08" => {
            only(&mut w, &[(K::Commit, 16), (K::GetBuffer, 6), (K::BufClone, 3), (K::BufUpdate, 10), (K::BufCheck, 10), (K::BufDrop, 1), (K::NewGpu, 8), (K::NewVal, 4), (K::NewGArr, 4), (K::Set, 3), (K::Drop, 2), (K::Verify, 1)]);
            bigarr = *r.pick(&[4, 32]);
            if focus % 4 == 1 {
                backends = [100, 0, 0];
                rf = *r.pick(&[10, 25]);
            }
            if focus < 20 {
                threads = 1;
                nops = (8, 30);
            }
        }
        "C09" => {
            only(&mut w, &[(K::Set, 12), (K::Commit, 12), (K::GetIds, 10), (K::HasQueued, 10), (K::NewVal, 5), (K::NewGpu, 5), (K::NewArr, 2), (K::NewGArr, 3), (K::Modify, 3), (K::Lock, 3), (K::Drop, 6), (K::Clone, 2), (K::Get, 1), (K::Defrag, 1), (K::Upgrade, 2), (K::LockBegin, 1), (K::Unlock, 1)]);
            if focus < 35 {
                threads = 1;
                nops = (6, 30);
            }
        }
        "C10" => {
            only(&mut w, &[(K::Set, 10), (K::Get, 10), (K::GetVec, 3), (K::Modify, 8), (K::Lock, 8), (K::LockBegin, 2), (K::Unlock, 3), (K::Nested, 3), (K::Commit, 5), (K::Clone, 2), (K::Upgrade, 2), (K::Downgrade, 1), (K::IntoGpu, 1), (K::Drop, 2), (K::NewArr, 1), (K::NewVal, 1), (K::Poke, 2)]);
            nops = (2, 6);
            epilogue &= !E_RECLAIM;
        }
        "C11" => {
            only(&mut w, &[(K::Clone, 10), (K::Drop, 14), (K::Downgrade, 6), (K::WeakGpu, 6), (K::Upgrade, 12), (K::IntoGpu, 4), (K::RefCount, 6), (K::Meta, 5), (K::NewVal, 4), (K::NewGpu, 3), (K::NewArr, 2), (K::NewGArr, 2), (K::Commit, 8), (K::Set, 4), (K::Lock, 2), (K::AllocDrop, 1), (K::BufClone, 1), (K::BufDrop, 1), (K::GetBuffer, 1)]);
            if focus < 30 {
                threads = 1;
                nops = (8, 30);
            }
            epilogue |= E_RECLAIM;
        }
        "C12" => {
            backends = [10, 10, 80];
            only(&mut w, &[(K::Read, 14), (K::ReadArr, 10), (K::Commit, 10), (K::Set, 8), (K::NewVal, 4), (K::NewGpu, 3), (K::NewArr, 4), (K::NewGArr, 4), (K::Drop, 5), (K::Poke, 2), (K::Modify, 2), (K::Verify, 2)]);
            readf = *r.pick(&[0, 20, 50]);
            if focus < 30 {
                threads = 1;
                nops = (6, 20);
            }
            if r.chance(40) {
                types = (0..3).map(|_| r.below(NTYPES - 1)).collect();
            }
        }
        "C13" => {
            set(&mut w, K::Nested, 8);
            set(&mut w, K::LockBegin, 6);
            set(&mut w, K::Unlock, 6);
            set(&mut w, K::Lock, 6);
            set(&mut w, K::Modify, 6);
            set(&mut w, K::Read, 4);
            set(&mut w, K::NewArr, 6);
            set(&mut w, K::AllocDrop, 1);
            if r.chance(20) {
                backends = [10, 5, 85];
                set(&mut w, K::Read, 10);
                set(&mut w, K::ReadArr, 4);
            }
            threads = *r.pick(&[2, 3, 3, 4, 5]);
            uf = *r.pick(&[0, 0, 15]);
            readf = *r.pick(&[0, 30]);
            if uf > 0 {
                types.push(T_BOMB)
            }
        }
        "C14" => {
            types = match r.below(4) {
                0 => vec![T_BOMB],
                1 => vec![T_BOMB, T_BOMB, T_U32],
                2 => vec![T_BOMB, T_U32X2, T_U32],
                _ => vec![T_BOMB, T_BOMB, r.below(NTYPES)],
            };
            uf = *r.pick(&[15, 30, 60]);
            set(&mut w, K::Modify, 12);
            set(&mut w, K::Lock, 10);
            set(&mut w, K::Verify, 5);
            set(&mut w, K::NewArr, 5);
            set(&mut w, K::NewGArr, 5);
            epilogue |= E_RECLAIM;
            if focus < 50 {
                threads = 1;
                nops = (6, 30);
            }
        }
        "C15" => {
            backends = [100, 0, 0];
            rf = *r.pick(&[10, 25, 50]);
            set(&mut w, K::Commit, 24);
            set(&mut w, K::NewGpu, 8);
            set(&mut w, K::NewGArr, 6);
            set(&mut w, K::Verify, 6);
            set(&mut w, K::BufUpdate, 6);
            set(&mut w, K::BufCheck, 6);
            set(&mut w, K::GetBuffer, 6);
            if focus < 50 {
                threads = 1;
                nops = (6, 30);
            }
            if focus % 3 == 0 {
                // space changes hands from one failing commit to the next
                rf = 60;
                set(&mut w, K::Drop, 20);
                set(&mut w, K::Verify, 12);
                set(&mut w, K::NewArr, 8);
            }
        }
        "C16" => {
            backends = [34, 33, 33];
            types = match r.below(3) {
                0 => WORDS_POOL.to_vec(),
                _ => (0..4).map(|_| r.below(NTYPES - 1)).collect(),
            };
            set(&mut w, K::Verify, 8);
            set(&mut w, K::Commit, 14);
            set(&mut w, K::NewArr, 6);
            set(&mut w, K::NewGArr, 8);
            set(&mut w, K::Defrag, 3);
            if focus < 40 {
                threads = 1;
                nops = (8, 30);
            }
        }
        _ => {}
    }
    // swarm: leave out some kinds altogether
    if r.chance(50) {
        let out = r.range(1, w.len() / 2);
        for _ in 0..out {
            let k = r.pick(&w).0;
            if !matches!(k, K::Commit | K::NewVal | K::NewGpu) || r.chance(10) {
                if w.len() > 3 {
                    set(&mut w, k, 0)
                }
            }
        }
    }
    if thorough && r.chance(40) {
        nops.1 *= 3;
        if r.chance(30) {
            phases = 3;
        }
    }
    let tot: usize = backends.iter().sum();
    let mut x = r.below(tot);
    let mut backend = 0;
    for (i, b) in backends.iter().enumerate() {
        if x < *b {
            backend = i;
            break;
        }
        x -= b;
    }
    let vseed = r.next();
    let label = r.below(4) as u8;
    let p = Program {
        prop: prop.to_string(),
        seed: index,
        backend,
        threads,
        phases: phases + 1,
        vseed,
        label,
        epilogue,
        ops: vec![],
        strat: ds::RANDOM,
        sseed: r.next(),
        psw: 0,
        pop: 0,
        pspur: 0,
        cps: vec![],
        targets: vec![],
        decs: vec![],
    };
    let mut g = G { r, p, uid: 0, hs: vec![], bufs: vec![], locks: vec![], types, bigarr, w, user_faults: uf, rt_faults: rf, read_faults: readf };
    g.setup(threads);
    let mut b = Rng::new(mix(seed, 0xB01C));
    if std::env::var_os("BULK").is_some() || b.below(if thorough { 64 } else { 128 }) == 0 {
        g.bulk();
    }
    if std::env::var_os("CHURN").is_some() || b.below(if thorough { 500 } else { 1500 }) == 0 {
        let n = *b.pick(&[300, 5000, 33000, 66000, 70000]) + b.below(300) as u32;
        let each = *b.pick(&[100, 1000, 10000, 100000]);
        let kind = b.below(6).min(4) as u32;
        g.op(0, 0, K::Churn, n, kind, each);
    }
    if prop == "C13" && g.r.chance(30) && threads > 1 {
        waiting(&mut g, threads);
    } else {
        for ph in 1..=phases {
            // threads draw in turns, so that what one makes another may use
            let mut left: Vec<usize> = (0..threads).map(|_| g.r.range(nops.0, nops.1)).collect();
            g.locks.clear();
            while left.iter().any(|x| *x > 0) {
                let t = g.r.below(threads);
                if left[t] > 0 {
                    left[t] -= 1;
                    g.draw(ph, t);
                }
            }
        }
    }
    let mut o = Rng::new(mix(seed, 0x07E5));
    if o.chance(15) {
        for th in 0..threads {
            for _ in 0..o.range(0, if threads == 1 { 16 } else { 5 }) {
                let i = o.below(g.p.ops.len() + 1);
                let ph = g.p.ops[..i].iter().rev().find(|x| x.th as usize == th).map_or(0, |x| x.ph);
                g.uid += 1;
                let a = *o.pick(&[0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 5, 5, 5, 6, 7, 8]);
                let op = Op { ph, th: th as u8, uid: g.uid, k: K::Other, a, b: o.below(1 << 10) as u32, c: 0, u: 0 };
                g.p.ops.insert(i, op);
            }
        }
    }
    let mut u = Rng::new(mix(seed, 0xDE57));
    if u.chance(if matches!(prop, "C05" | "C11" | "C14") { 30 } else { 8 }) {
        let p = *u.pick(&[10, 30, 80]);
        for o in g.p.ops.iter_mut() {
            o.u = (destructor(o) && u.chance(p)) as u8;
        }
    }
    if u.chance(20) {
        for o in g.p.ops.iter_mut().filter(|o| matches!(o.k, K::Set | K::Modify | K::Lock)) {
            if u.chance(40) {
                o.b |= AGAIN;
            }
        }
    }
    // a GPU program writes to an item, and then the CPU side does, maybe what it had there already
    let mut c = Rng::new(mix(seed, 0xBACC));
    if c.chance(25) {
        let mut i = 0;
        while i < g.p.ops.len() {
            let x = g.p.ops[i].clone();
            i += 1;
            if x.k != K::Poke || !c.chance(60) {
                continue;
            }
            let k = *c.pick(&[K::Set, K::Set, K::Set, K::Modify, K::Lock]);
            g.uid += 1;
            let b = x.b | if c.chance(60) { AGAIN } else { 0 };
            g.p.ops.insert(i, Op { uid: g.uid, k, b, c: 0, u: 0, ..x });
            i += 1;
        }
    }
    schedule(&mut g);
    g.p
}
/// What destructors may do while a panic unwinds: everything that leaves no guard behind and has no
/// panic of its own.
fn destructor(o: &Op) -> bool {
    match o.k {
        K::LockBegin | K::Unlock | K::WaitOthers | K::CheckCpu | K::Reclaim | K::Churn => false,
        K::NewVal | K::NewGpu => o.a as usize % NTYPES != T_BOMB,
        K::NewArr | K::NewGArr => o.a as usize % NTYPES != T_BOMB,
        K::Set | K::Modify | K::Lock => o.c == 0,
        _ => true,
    }
}
/// One thread keeps a write guard until all the others are through; they do whatever needs no lock of
/// that value, commits above all.
fn waiting(g: &mut G, threads: usize) {
    let h = g.create(0, 0, K::NewVal, true);
    g.hs.retain(|x| x.uid != h);
    if g.r.chance(50) {
        g.op(0, 0, K::Commit, 0, 0, 0);
    }
    let l = g.op(1, 0, K::LockBegin, h, 0, 0);
    g.op(1, 0, K::WaitOthers, ((1u32 << threads) - 1) & !1, 0, 0);
    g.op(1, 0, K::Unlock, l, 1, 0);
    let c = g.op(0, 0, K::Clone, h, 0, 0);
    let keep: Vec<(K, u32)> = g.w.iter().filter(|x| !matches!(x.0, K::LockBegin | K::Unlock | K::CheckCpu)).cloned().collect();
    g.w = keep;
    // the others may own handles to the locked value, but not lock it
    g.hs.retain(|x| x.uid != h && x.uid != c);
    for t in 1..threads {
        for _ in 0..g.r.range(1, 4) {
            match g.r.below(6) {
                0 => {
                    let k = *g.r.pick(&[K::Clone, K::Downgrade, K::WeakGpu, K::RefCount]);
                    let u = g.op(1, t, k, c, 0, 0);
                    if k == K::Clone && g.r.chance(50) {
                        g.op(1, t, K::Drop, u, 0, 0);
                    }
                }
                1 | 2 => {
                    g.op(1, t, K::Commit, 0, 0, 0);
                }
                _ => g.draw(1, t),
            }
        }
    }
}
fn schedule(g: &mut G) {
    let conc: Vec<(u8, u32)> = g.p.ops.iter().filter(|o| o.ph > 0).map(|o| (o.th, o.uid)).collect();
    if g.p.threads == 1 {
        g.p.strat = ds::SERIAL;
        if g.p.prop == "C16" && g.r.chance(70) {
            g.p.strat = ds::OPS;
            g.p.psw = 0;
        }
        return;
    }
    let r = &mut g.r;
    let x = r.below(100);
    if g.p.prop == "C16" && x < 35 {
        g.p.strat = ds::OPS;
        g.p.pop = *r.pick(&[16000, 40000]);
        return;
    }
    if x < 45 {
        g.p.strat = ds::RANDOM;
        g.p.psw = *r.pick(&[20000, 8000, 3000, 1200, 500]);
        g.p.pop = *r.pick(&[8000, 24000, 40000]);
    } else if x < 65 {
        g.p.strat = ds::PCT;
        let est = (conc.len() as u64 * 30).max(40);
        let pre = (g.p.ops.len() - conc.len()) as u64 * 25;
        for _ in 0..r.range(1, 4) {
            let at = pre + r.next() % est;
            g.p.cps.push(at);
        }
    } else if x < 90 {
        g.p.strat = ds::TARGET;
        g.p.pop = *r.pick(&[4000, 16000, 40000]);
        for _ in 0..r.range(1, 4) {
            if conc.is_empty() {
                break;
            }
            let (t, u) = *r.pick(&conc);
            let s = if r.chance(60) { r.range(1, 16) } else { r.range(1, 70) } as u32;
            g.p.targets.push((t as u32, u, s));
        }
    } else {
        g.p.strat = ds::OPS;
        g.p.psw = 1;
        g.p.pop = *r.pick(&[16000, 32000, 60000]);
    }
    g.p.pspur = *r.pick(&[0, 0, 0, 3000]);
}
