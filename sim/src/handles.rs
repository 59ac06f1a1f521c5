//! Type-erased handles to allocated values.
use crate::ds;
use crate::types::*;
use craballoc::prelude::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hk {
    Hybrid,
    Gpu,
    WeakH,
    WeakG,
    HArr,
    GArr,
}
impl Hk {
    pub fn strong(self) -> bool {
        !matches!(self, Hk::WeakH | Hk::WeakG)
    }
    pub fn cpu(self) -> bool {
        matches!(self, Hk::Hybrid | Hk::HArr)
    }
    pub fn array(self) -> bool {
        matches!(self, Hk::HArr | Hk::GArr)
    }
}
pub enum H<T: SimVal> {
    Hy(Hybrid<T>),
    Gp(Gpu<T>),
    Wh(WeakHybrid<T>),
    Wg(WeakGpu<T>),
    Ha(HybridArray<T>),
    Ga(GpuArray<T>),
}
pub struct Meta {
    pub base: u32,
    pub n: Option<u32>,
    pub notifier: usize,
    pub ids: Vec<u32>,
    pub oob_none: bool,
}
/// Every method runs the code under test with scheduling on, and calls back with scheduling off.
pub trait AnyHandle {
    fn kind(&self) -> Hk;
    fn meta(&self) -> Meta;
    fn clone_box(&self) -> Box<dyn AnyHandle>;
    fn downgrade(&self) -> Option<Box<dyn AnyHandle>>;
    fn weak_gpu(&self) -> Option<Box<dyn AnyHandle>>;
    fn upgrade(&self) -> Option<Box<dyn AnyHandle>>;
    fn into_gpu(self: Box<Self>) -> Box<dyn AnyHandle>;
    /// (did the item exist, its old value if the call tells)
    fn set(&self, i: usize, seed: u64) -> (bool, Option<Enc>);
    /// The closure gets the old value; the new one is stored after the callback returns.
    fn modify(&self, i: usize, seed: u64, before: &mut dyn FnMut(&Enc), after: &mut dyn FnMut()) -> (bool, bool);
    fn get(&self, i: usize) -> Option<Enc>;
    fn get_vec(&self) -> Vec<Enc>;
    fn lock(&self) -> Option<Box<dyn AnyGuard>>;
    fn ref_count(&self) -> usize;
    fn external(&self) -> Option<bool>;
    fn debug(&self) -> String;
}
pub trait AnyGuard {
    fn read(&self) -> Enc;
    fn write(&mut self, seed: u64);
}
struct Guard<T: SimVal>(Option<HybridWriteGuard<'static, T>>);
impl<T: SimVal> AnyGuard for Guard<T> {
    fn read(&self) -> Enc {
        enc_of::<T>(self.0.as_ref().unwrap())
    }
    fn write(&mut self, seed: u64) {
        **self.0.as_mut().unwrap() = make::<T>(seed);
    }
}
impl<T: SimVal> Drop for Guard<T> {
    fn drop(&mut self) {
        let _m = ds::on();
        let g = self.0.take();
        drop(g);
    }
}
impl<T: SimVal> AnyHandle for H<T> {
    fn kind(&self) -> Hk {
        match self {
            H::Hy(_) => Hk::Hybrid,
            H::Gp(_) => Hk::Gpu,
            H::Wh(_) => Hk::WeakH,
            H::Wg(_) => Hk::WeakG,
            H::Ha(_) => Hk::HArr,
            H::Ga(_) => Hk::GArr,
        }
    }
    fn meta(&self) -> Meta {
        let _m = ds::on();
        let one = |b: u32, k: usize| Meta { base: b, n: None, notifier: k, ids: vec![b], oob_none: true };
        match self {
            H::Hy(h) => one(h.id().inner(), h.notifier_index()),
            H::Gp(h) => one(h.id().inner(), h.notifier_index()),
            H::Wh(h) => one(h.id().inner(), h.notifier_index()),
            H::Wg(h) => one(u32::MAX, h.notifier_index()),
            H::Ha(h) => Meta {
                base: h.array().starting_index() as u32,
                n: Some(h.len() as u32),
                notifier: h.notifier_index(),
                ids: (0..h.len()).map(|i| h.get_id(i).inner()).collect(),
                oob_none: h.get_id(h.len()).is_none() && h.is_empty() == (h.len() == 0) && h.array().len() == h.len(),
            },
            H::Ga(h) => Meta {
                base: h.array().starting_index() as u32,
                n: Some(h.len() as u32),
                notifier: h.notifier_index(),
                ids: (0..h.len()).map(|i| h.get_id(i).inner()).collect(),
                oob_none: h.get_id(h.len()).is_none() && h.is_empty() == (h.len() == 0) && h.array().len() == h.len(),
            },
        }
    }
    fn clone_box(&self) -> Box<dyn AnyHandle> {
        let _m = ds::on();
        Box::new(match self {
            H::Hy(h) => H::Hy(h.clone()),
            H::Gp(h) => H::Gp(h.clone()),
            H::Wh(h) => H::Wh(h.clone()),
            H::Wg(h) => H::Wg(h.clone()),
            H::Ha(h) => H::Ha(h.clone()),
            H::Ga(h) => H::Ga(h.clone()),
        })
    }
    fn downgrade(&self) -> Option<Box<dyn AnyHandle>> {
        let _m = ds::on();
        Some(Box::new(match self {
            H::Hy(h) => H::Wh(WeakHybrid::from_hybrid(h)),
            H::Gp(h) => H::<T>::Wg(WeakGpu::from_gpu(h)),
            _ => return None,
        }))
    }
    fn weak_gpu(&self) -> Option<Box<dyn AnyHandle>> {
        let _m = ds::on();
        match self {
            H::Wh(h) => Some(Box::new(H::Wg(h.weak_gpu().clone()))),
            H::Gp(h) => Some(Box::new(H::<T>::Wg(WeakGpu::from_gpu(h)))),
            H::Hy(h) => Some(Box::new(H::<T>::Wg(WeakHybrid::from_hybrid(h).weak_gpu().clone()))),
            _ => None,
        }
    }
    fn upgrade(&self) -> Option<Box<dyn AnyHandle>> {
        let _m = ds::on();
        match self {
            H::Wh(h) => h.upgrade().map(|h| Box::new(H::Hy(h)) as _),
            H::Wg(h) => h.upgrade().map(|h| Box::new(H::Gp(h)) as _),
            _ => None,
        }
    }
    fn into_gpu(self: Box<Self>) -> Box<dyn AnyHandle> {
        let _m = ds::on();
        match *self {
            H::Hy(h) => Box::new(H::Gp(h.into_gpu_only())),
            H::Ha(h) => Box::new(H::Ga(h.into_gpu_only())),
            other => Box::new(other),
        }
    }
    fn set(&self, i: usize, seed: u64) -> (bool, Option<Enc>) {
        let v = make::<T>(seed);
        let _m = ds::on();
        match self {
            H::Hy(h) => {
                h.set(v);
                (true, None)
            }
            H::Gp(h) => {
                h.set(v);
                (true, None)
            }
            H::Ha(h) => match h.set_item(i, v) {
                Some(o) => (true, Some(enc_of(&o))),
                None => (false, None),
            },
            H::Ga(h) => {
                h.set_item(i, &v);
                (i < h.len(), None)
            }
            _ => (false, None),
        }
    }
    fn modify(&self, i: usize, seed: u64, before: &mut dyn FnMut(&Enc), after: &mut dyn FnMut()) -> (bool, bool) {
        let v = make::<T>(seed);
        let _m = ds::on();
        let tag = seed ^ 0x55;
        let f = move |t: &mut T| {
            let _q = ds::off();
            before(&enc_of(t));
            *t = v;
            after();
            tag
        };
        match self {
            H::Hy(h) => (true, h.modify(f) == tag),
            H::Ha(h) => match h.modify(i, f) {
                Some(x) => (true, x == tag),
                None => (false, true),
            },
            _ => (false, true),
        }
    }
    fn get(&self, i: usize) -> Option<Enc> {
        let _m = ds::on();
        match self {
            H::Hy(h) => Some(enc_of(&h.get())),
            H::Ha(h) => h.get(i).map(|v| enc_of(&v)),
            _ => None,
        }
    }
    fn get_vec(&self) -> Vec<Enc> {
        let _m = ds::on();
        match self {
            H::Hy(h) => vec![enc_of(&h.get())],
            H::Ha(h) => h.get_vec().iter().map(enc_of).collect(),
            _ => vec![],
        }
    }
    fn lock(&self) -> Option<Box<dyn AnyGuard>> {
        match self {
            H::Hy(h) => {
                let _m = ds::on();
                let g = h.lock();
                // SAFETY: the handle is pinned (its `users` count is raised) until the guard is gone.
                let g: HybridWriteGuard<'static, T> = unsafe { std::mem::transmute(g) };
                Some(Box::new(Guard(Some(g))))
            }
            _ => None,
        }
    }
    fn ref_count(&self) -> usize {
        let _m = ds::on();
        match self {
            H::Hy(h) => h.ref_count(),
            H::Ha(h) => h.ref_count(),
            H::Wh(h) => h.strong_count(),
            _ => usize::MAX,
        }
    }
    fn external(&self) -> Option<bool> {
        let _m = ds::on();
        match self {
            H::Wh(h) => Some(h.has_external_references()),
            _ => None,
        }
    }
    fn debug(&self) -> String {
        let _m = ds::on();
        match self {
            H::Wg(h) => format!("{}", h.notifier_index()),
            _ => String::new(),
        }
    }
}
pub fn new_value<R: crate::backend::Backend>(a: &SlabAllocator<R>, ty: usize, seed: u64, gpu_only: bool) -> Box<dyn AnyHandle> {
    crate::with_type!(ty, T => {
        let v = make::<T>(seed);
        let _m = ds::on();
        if gpu_only { Box::new(H::Gp(Gpu::new(a, v))) as Box<dyn AnyHandle> } else { Box::new(H::Hy(a.new_value(v))) }
    })
}
/// `hook` runs in the middle of the iterator the array is made of.
pub fn new_array<R: crate::backend::Backend>(a: &SlabAllocator<R>, ty: usize, seeds: &[u64], gpu_only: bool, hook: &mut dyn FnMut()) -> Box<dyn AnyHandle> {
    crate::with_type!(ty, T => {
        if gpu_only {
            let v: Vec<T> = seeds.iter().map(|s| make::<T>(*s)).collect();
            let _m = ds::on();
            return Box::new(H::Ga(GpuArray::new(a, &v)));
        }
        let mid = seeds.len() / 2;
        let items = seeds.iter().enumerate().map(|(i, s)| {
            let _m = ds::off();
            if i == mid {
                hook()
            }
            make::<T>(*s)
        });
        let _m = ds::on();
        Box::new(H::Ha(a.new_array(items))) as Box<dyn AnyHandle>
    })
}
