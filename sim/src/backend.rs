//! The runtimes the allocator is simulated on: the real `CpuRuntime`, the real `WgpuRuntime` over the
//! stand-in wgpu, and `SimRuntime`, our own implementation of the `IsRuntime` seam that checks every call
//! it gets and injects failures.
use crate::ds;
use crate::types::SimVal;
use craballoc::prelude::*;
use crabslab::Array;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::future::Future;
use std::ops::Bound;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};

pub type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
pub type ReadRes<T> = Result<T, SlabAllocatorError>;
pub type Bounds = (Bound<usize>, Bound<usize>);

pub trait Backend: IsRuntime + AsRef<Self> + 'static {
    const ID: usize;
    fn fresh() -> Self;
    fn usages(seed: u64) -> Self::BufferUsages;
    fn snapshot(&self, b: &Self::Buffer) -> Vec<u32>;
    /// `ok` is asked right before the words land; nothing happens if it declines.
    fn poke(&self, b: &Self::Buffer, at: usize, words: &[u32], ok: &mut dyn FnMut() -> bool);
    fn buf_id(b: &Self::Buffer) -> u64;
    fn size(b: &Self::Buffer) -> usize;
    /// buffers alive on the device, if it can tell
    fn live() -> Option<usize>;
    /// label and usages of a slab buffer are what the allocator was made with
    fn described(b: &Self::Buffer, label: Option<&str>, seed: u64) -> Result<(), String>;
    fn read<'a>(a: &'a SlabAllocator<Self>, buf: &'a SlabBuffer<Self::Buffer>, r: Bounds) -> Fut<'a, ReadRes<Vec<u32>>>;
    /// through the allocator's own `read`/`read_array` where the runtime has them
    fn alloc_read<'a>(_a: &'a SlabAllocator<Self>, _r: Bounds) -> Option<Fut<'a, ReadRes<Vec<u32>>>> {
        None
    }
    fn alloc_read_array<'a, T: SimVal>(_a: &'a SlabAllocator<Self>, _arr: Array<T>) -> Option<Fut<'a, ReadRes<Vec<T>>>> {
        None
    }
    fn finish() {}
}

// ---- CpuRuntime ----------------------------------------------------------------------------------
impl Backend for CpuRuntime {
    const ID: usize = 1;
    fn fresh() -> Self {
        CpuRuntime
    }
    fn usages(_: u64) {}
    fn snapshot(&self, b: &VecSlab) -> Vec<u32> {
        let _m = ds::on();
        b.as_vec().clone()
    }
    fn poke(&self, b: &VecSlab, at: usize, words: &[u32], ok: &mut dyn FnMut() -> bool) {
        let _m = ds::on();
        let g = b.as_vec();
        let _q = ds::off();
        if ok() && at + words.len() <= g.len() {
            // SAFETY: we hold the buffer's lock, and one thread runs at a time
            unsafe { std::ptr::copy_nonoverlapping(words.as_ptr(), (g.as_ptr() as *mut u32).add(at), words.len()) };
        }
        drop(_q);
    }
    fn buf_id(b: &VecSlab) -> u64 {
        b as *const VecSlab as u64
    }
    fn size(b: &VecSlab) -> usize {
        let _m = ds::on();
        b.as_vec().len()
    }
    fn live() -> Option<usize> {
        None
    }
    fn described(_: &VecSlab, _: Option<&str>, _: u64) -> Result<(), String> {
        Ok(())
    }
    fn read<'a>(a: &'a SlabAllocator<Self>, buf: &'a SlabBuffer<VecSlab>, r: Bounds) -> Fut<'a, ReadRes<Vec<u32>>> {
        let n = Self::size(buf);
        Box::pin(a.runtime().buffer_read(buf, n, r))
    }
}

// ---- WgpuRuntime over the stand-in wgpu ------------------------------------------------------------
fn wusages(seed: u64) -> wgpu::BufferUsages {
    match seed % 8 {
        3 => wgpu::BufferUsages::STORAGE,
        4 => wgpu::BufferUsages::COPY_SRC,
        5 => wgpu::BufferUsages::COPY_DST | wgpu::BufferUsages::STORAGE,
        6 => wgpu::BufferUsages::all() & wgpu::BufferUsages::from_bits_truncate(!3),
        0 => wgpu::BufferUsages::empty(),
        1 => wgpu::BufferUsages::INDEX,
        2 => wgpu::BufferUsages::VERTEX | wgpu::BufferUsages::INDIRECT,
        _ => wgpu::BufferUsages::UNIFORM,
    }
}
impl Backend for WgpuRuntime {
    const ID: usize = 2;
    fn fresh() -> Self {
        let (d, q) = wgpu::sim::new_device();
        WgpuRuntime { device: d.into(), queue: q.into() }
    }
    fn usages(seed: u64) -> wgpu::BufferUsages {
        wusages(seed)
    }
    fn snapshot(&self, b: &wgpu::Buffer) -> Vec<u32> {
        wgpu::sim::dispatch_read(&self.queue, b)
    }
    fn poke(&self, b: &wgpu::Buffer, at: usize, words: &[u32], ok: &mut dyn FnMut() -> bool) {
        if !ok() {
            return;
        }
        wgpu::sim::dispatch_write(&self.queue, b, at, words)
    }
    fn buf_id(b: &wgpu::Buffer) -> u64 {
        wgpu::sim::id(b)
    }
    fn size(b: &wgpu::Buffer) -> usize {
        b.size() as usize / 4
    }
    fn live() -> Option<usize> {
        Some(wgpu::sim::LIVE.load(SeqCst))
    }
    fn described(b: &wgpu::Buffer, label: Option<&str>, seed: u64) -> Result<(), String> {
        if wgpu::sim::label(b).as_deref() != label {
            return Err(format!("label {:?}, expected {label:?}", wgpu::sim::label(b)));
        }
        let want = wusages(seed) | wgpu::BufferUsages::STORAGE;
        if !b.usage().contains(want) {
            return Err(format!("usages {:?} lack {want:?}", b.usage()));
        }
        Ok(())
    }
    fn read<'a>(a: &'a SlabAllocator<Self>, buf: &'a SlabBuffer<wgpu::Buffer>, r: Bounds) -> Fut<'a, ReadRes<Vec<u32>>> {
        let n = Self::size(buf);
        Box::pin(a.runtime().buffer_read(buf, n, r))
    }
    fn alloc_read<'a>(a: &'a SlabAllocator<Self>, r: Bounds) -> Option<Fut<'a, ReadRes<Vec<u32>>>> {
        Some(Box::pin(a.read(r)))
    }
    fn alloc_read_array<'a, T: SimVal>(a: &'a SlabAllocator<Self>, arr: Array<T>) -> Option<Fut<'a, ReadRes<Vec<T>>>> {
        Some(Box::pin(a.read_array(arr)))
    }
    fn finish() {
        wgpu::sim::reset_device();
    }
}

// ---- SimRuntime ------------------------------------------------------------------------------------
#[derive(Clone)]
pub struct SimRuntime;
impl AsRef<SimRuntime> for SimRuntime {
    fn as_ref(&self) -> &SimRuntime {
        self
    }
}
pub struct SimBuf {
    id: u64,
    label: Option<String>,
    usages: u64,
    data: UnsafeCell<Vec<u32>>,
}
unsafe impl Sync for SimBuf {}
unsafe impl Send for SimBuf {}
impl Drop for SimBuf {
    fn drop(&mut self) {
        SIM_LIVE.fetch_sub(1, SeqCst);
    }
}
impl SimBuf {
    #[allow(clippy::mut_from_ref)]
    fn d(&self) -> &mut Vec<u32> {
        // SAFETY: exactly one thread runs at a time
        unsafe { &mut *self.data.get() }
    }
}
static SIM_LIVE: AtomicUsize = AtomicUsize::new(0);
static SIM_NEXT: AtomicU64 = AtomicU64::new(1);
pub static C_CREATE: AtomicU64 = AtomicU64::new(0);
pub static C_COPY: AtomicU64 = AtomicU64::new(0);
pub static C_WRITE: AtomicU64 = AtomicU64::new(0);
std::thread_local! {
    /// the fault armed for this thread's next runtime call:
    /// 1 create, 2 copy before, 3 copy after, 4 write before, 5 write after the first update, 6 write after all, 7 read error
    static FAULT: Cell<u8> = const { Cell::new(0) };
    static FIRED: Cell<u8> = const { Cell::new(0) };
    /// set while this thread executes `commit`
    pub static IN_COMMIT: Cell<bool> = const { Cell::new(false) };
    pub static IN_READ: Cell<bool> = const { Cell::new(false) };
    pub static BAD_CALL: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn arm(k: u8) {
    FAULT.with(|f| f.set(k));
    FIRED.with(|f| f.set(0));
}
pub fn fired() -> u8 {
    FAULT.with(|f| f.set(0));
    FIRED.with(|f| f.replace(0))
}
fn fault(k: u8) -> bool {
    FAULT.with(|f| {
        if f.get() == k {
            f.set(0);
            FIRED.with(|x| x.set(k));
            true
        } else {
            false
        }
    })
}
fn bad(msg: String) {
    crate::exec::runtime_violation(msg);
}
/// As in the stand-in wgpu: scheduling points around the call, none inside except where stated.
struct Quiet(#[allow(dead_code)] ds::Mode);
impl Quiet {
    fn new() -> Quiet {
        let m = ds::off();
        ds::point(ds::K_HARNESS);
        Quiet(m)
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        ds::point(ds::K_HARNESS);
    }
}
impl IsRuntime for SimRuntime {
    type Buffer = SimBuf;
    type BufferUsages = u64;
    fn buffer_create(&self, capacity: usize, label: Option<&str>, usages: u64) -> SimBuf {
        let _q = Quiet::new();
        C_CREATE.fetch_add(1, SeqCst);
        if !IN_COMMIT.with(|c| c.get()) {
            bad("buffer_create outside of a commit".into())
        }
        if fault(1) {
            panic!("injected: buffer_create")
        }
        if capacity > 1 << 24 {
            bad(format!("buffer_create with capacity {capacity}"))
        }
        if capacity == 0 {
            bad("buffer_create with capacity 0".into())
        }
        SIM_LIVE.fetch_add(1, SeqCst);
        SimBuf { id: SIM_NEXT.fetch_add(1, SeqCst), label: label.map(|s| s.into()), usages, data: UnsafeCell::new(vec![0; capacity]) }
    }
    fn buffer_copy(&self, s: &SimBuf, d: &SimBuf, label: Option<&str>) {
        let _q = Quiet::new();
        C_COPY.fetch_add(1, SeqCst);
        if fault(2) {
            panic!("injected: buffer_copy")
        }
        let _ = label;
        if !IN_COMMIT.with(|c| c.get()) {
            bad("buffer_copy outside of a commit".into())
        }
        if s.id == d.id {
            bad("buffer_copy onto itself".into())
        } else if d.d().len() < s.d().len() {
            bad(format!("buffer_copy from {} words into {}", s.d().len(), d.d().len()))
        } else {
            d.d()[..s.d().len()].copy_from_slice(s.d());
        }
        if fault(3) {
            panic!("injected: buffer_copy")
        }
    }
    fn buffer_write<U: Iterator<Item = SlabUpdate>>(&self, updates: U, b: &SimBuf) {
        let _q = Quiet::new();
        C_WRITE.fetch_add(1, SeqCst);
        if !IN_COMMIT.with(|c| c.get()) {
            bad("buffer_write outside of a commit".into())
        }
        if fault(4) {
            panic!("injected: buffer_write")
        }
        for u in updates {
            let (at, n) = (u.array.starting_index(), u.array.len());
            if u.elements.len() != n {
                bad(format!("buffer_write of {} words for a range of {n}", u.elements.len()));
                continue;
            }
            if n == 0 {
                continue;
            }
            if at + n > b.d().len() {
                bad(format!("buffer_write of {at}..{} into a buffer of {} words", at + n, b.d().len()));
                continue;
            }
            b.d()[at..at + n].copy_from_slice(&u.elements);
            if fault(5) {
                panic!("injected: buffer_write")
            }
            ds::point(ds::K_HARNESS);
        }
        if fault(6) {
            panic!("injected: buffer_write")
        }
    }
    async fn buffer_read(&self, b: &SimBuf, _len: usize, r: impl std::ops::RangeBounds<usize>) -> Result<Vec<u32>, SlabAllocatorError> {
        let s = match r.start_bound() {
            Bound::Included(s) => *s,
            Bound::Excluded(s) => *s + 1,
            Bound::Unbounded => 0,
        };
        let e = match r.end_bound() {
            Bound::Included(s) => *s + 1,
            Bound::Excluded(s) => *s,
            Bound::Unbounded => b.d().len(),
        };
        Ok(b.d()[s..e].to_vec())
    }
}
impl Backend for SimRuntime {
    const ID: usize = 0;
    fn fresh() -> Self {
        SimRuntime
    }
    fn usages(seed: u64) -> u64 {
        seed
    }
    fn snapshot(&self, b: &SimBuf) -> Vec<u32> {
        b.d().clone()
    }
    fn poke(&self, b: &SimBuf, at: usize, words: &[u32], ok: &mut dyn FnMut() -> bool) {
        if !ok() {
            return;
        }
        b.d()[at..at + words.len()].copy_from_slice(words)
    }
    fn buf_id(b: &SimBuf) -> u64 {
        b.id
    }
    fn size(b: &SimBuf) -> usize {
        b.d().len()
    }
    fn live() -> Option<usize> {
        Some(SIM_LIVE.load(SeqCst))
    }
    fn described(b: &SimBuf, label: Option<&str>, seed: u64) -> Result<(), String> {
        if b.label.as_deref() != label {
            return Err(format!("label {:?}, expected {label:?}", b.label));
        }
        if b.usages != seed {
            return Err(format!("usages {:#x}, expected {seed:#x}", b.usages));
        }
        Ok(())
    }
    fn read<'a>(a: &'a SlabAllocator<Self>, buf: &'a SlabBuffer<SimBuf>, r: Bounds) -> Fut<'a, ReadRes<Vec<u32>>> {
        let n = Self::size(buf);
        Box::pin(a.runtime().buffer_read(buf, n, r))
    }
}
