//! Linearizability of the CPU side of one allocation against a vector of values (Wing & Gong, with the
//! memory of Lowe).
use crate::exec::{LinK, LinOp};
use crate::types::Enc;
use std::collections::{HashMap, HashSet};

pub enum Lin {
    Ok,
    Bad,
    Unknown,
}
pub fn check(init: &[Enc], ops: &[LinOp]) -> Lin {
    if ops.len() > 64 {
        return Lin::Unknown;
    }
    let mut ids: HashMap<&Enc, u32> = HashMap::new();
    let mut id = |e| {
        let n = ids.len() as u32;
        *ids.entry(e).or_insert(n)
    };
    enum O {
        Get(usize, u32),
        Vec(Vec<u32>),
        Swap(usize, u32, Option<u32>),
    }
    let st: Vec<u32> = init.iter().map(&mut id).collect();
    let mut os: Vec<(u64, u64, O)> = ops
        .iter()
        .map(|o| {
            let k = match &o.k {
                LinK::Get(c, e) => O::Get(*c, id(e)),
                LinK::Vec(v) => O::Vec(v.iter().map(&mut id).collect()),
                LinK::Swap(c, e, old) => O::Swap(*c, id(e), old.as_ref().map(&mut id)),
            };
            (o.inv, o.ret, k)
        })
        .collect();
    os.sort_by_key(|o| o.0);
    let n = os.len();
    let full: u64 = if n == 64 { u64::MAX } else { (1 << n) - 1 };
    let mut seen: HashSet<(u64, Vec<u32>)> = HashSet::new();
    let mut stack = vec![(0u64, st)];
    let mut nodes = 0;
    while let Some((done, st)) = stack.pop() {
        if done == full {
            return Lin::Ok;
        }
        nodes += 1;
        if nodes > 100_000 {
            return Lin::Unknown;
        }
        // an operation may come next if nothing undone returned before it began
        let min_ret = (0..n).filter(|i| done >> i & 1 == 0).map(|i| os[i].1).min().unwrap();
        for i in (0..n).rev() {
            if done >> i & 1 == 1 || os[i].0 > min_ret {
                continue;
            }
            let mut next = None;
            match &os[i].2 {
                O::Get(c, e) => {
                    if st[*c] == *e {
                        next = Some(st.clone())
                    }
                }
                O::Vec(v) => {
                    if st == *v {
                        next = Some(st.clone())
                    }
                }
                O::Swap(c, e, old) => {
                    if old.is_none_or(|o| st[*c] == o) {
                        let mut s = st.clone();
                        s[*c] = *e;
                        next = Some(s)
                    }
                }
            }
            if let Some(s) = next {
                let d = done | 1 << i;
                if seen.insert((d, s.clone())) {
                    stack.push((d, s));
                }
            }
        }
    }
    Lin::Bad
}
