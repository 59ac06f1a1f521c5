//! A deterministic stand-in for wgpu 24 used by the simulator in /verif/sim (never by /repo itself).
//!
//! It keeps wgpu's *observable* contract for the calls `craballoc::runtime::WgpuRuntime` makes:
//! * the validation rules of buffer creation, `write_buffer`, `copy_buffer_to_buffer` and mapping; a
//!   validation error panics, which is what wgpu's default uncaptured-error handler does;
//! * `write_buffer` data is staged and lands at the start of the next submission by *any* thread;
//! * map callbacks are collected by whichever thread polls or submits next and are fired outside of the
//!   device's lock, possibly later than another thread's `poll` has returned;
//! * on some runs, as in a browser, `poll` calls nothing back and the event loop does, between polls of a future;
//! * faults: mapping fails, the callback is dropped unfired (device lost).
//!
//! Every entry point has scheduling points of the simulator before and after its effect.
#![allow(clippy::all)]
use std::collections::VecDeque;
use std::ops::{Bound, Deref, DerefMut, RangeBounds};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, MutexGuard};

extern "C" {
    fn ds_point(kind: i32);
    fn ds_suspend() -> i32;
    fn ds_resume(s: i32);
}
/// No scheduling inside; a scheduling point on entry and on exit.
struct Quiet(i32);
impl Quiet {
    fn new() -> Quiet {
        unsafe {
            let s = ds_suspend();
            ds_point(6);
            Quiet(s)
        }
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        unsafe {
            ds_point(6);
            ds_resume(self.0)
        }
    }
}
fn lk<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}
fn validation(msg: String) -> ! {
    panic!("wgpu error: Validation Error: {msg}")
}

pub type BufferAddress = u64;
pub type BufferSize = std::num::NonZeroU64;
pub type Label<'a> = Option<&'a str>;
pub const COPY_BUFFER_ALIGNMENT: u64 = 4;
pub const MAP_ALIGNMENT: u64 = 8;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct BufferUsages(u32);
#[allow(non_upper_case_globals)]
impl BufferUsages {
    pub const MAP_READ: Self = Self(1);
    pub const MAP_WRITE: Self = Self(2);
    pub const COPY_SRC: Self = Self(4);
    pub const COPY_DST: Self = Self(8);
    pub const INDEX: Self = Self(16);
    pub const VERTEX: Self = Self(32);
    pub const UNIFORM: Self = Self(64);
    pub const STORAGE: Self = Self(128);
    pub const INDIRECT: Self = Self(256);
    pub const QUERY_RESOLVE: Self = Self(512);
    pub const fn bits(&self) -> u32 { self.0 }
    pub const fn empty() -> Self { Self(0) }
    pub const fn all() -> Self { Self(0x3ff) }
    pub const fn is_empty(&self) -> bool { self.0 == 0 }
    pub const fn contains(&self, o: Self) -> bool { self.0 & o.0 == o.0 }
    pub const fn intersects(&self, o: Self) -> bool { self.0 & o.0 != 0 }
    pub const fn union(self, o: Self) -> Self { Self(self.0 | o.0) }
    pub fn insert(&mut self, o: Self) { self.0 |= o.0 }
    pub fn remove(&mut self, o: Self) { self.0 &= !o.0 }
    pub const fn from_bits_truncate(b: u32) -> Self { Self(b & 0x3ff) }
}
impl std::fmt::Debug for BufferUsages {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "BufferUsages({:#x})", self.0) }
}
impl std::ops::BitOr for BufferUsages { type Output = Self; fn bitor(self, o: Self) -> Self { Self(self.0 | o.0) } }
impl std::ops::BitOrAssign for BufferUsages { fn bitor_assign(&mut self, o: Self) { self.0 |= o.0 } }
impl std::ops::BitAnd for BufferUsages { type Output = Self; fn bitand(self, o: Self) -> Self { Self(self.0 & o.0) } }

#[derive(Clone, Debug)]
pub struct BufferDescriptor<'a> {
    pub label: Label<'a>,
    pub size: BufferAddress,
    pub usage: BufferUsages,
    pub mapped_at_creation: bool,
}
#[derive(Clone, Debug, Default)]
pub struct CommandEncoderDescriptor<'a> {
    pub label: Label<'a>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MapMode { Read, Write }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct BufferAsyncError;
impl std::fmt::Display for BufferAsyncError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Error occurred when trying to async map a buffer") }
}
impl std::error::Error for BufferAsyncError {}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SubmissionIndex(u64);
#[derive(Clone, Debug)]
pub enum Maintain { WaitForSubmissionIndex(SubmissionIndex), Wait, Poll }
impl Maintain {
    pub fn wait() -> Self { Maintain::Wait }
    pub fn poll() -> Self { Maintain::Poll }
    pub fn wait_for(i: SubmissionIndex) -> Self { Maintain::WaitForSubmissionIndex(i) }
    pub fn is_wait(&self) -> bool { !matches!(self, Maintain::Poll) }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MaintainResult { SubmissionQueueEmpty, Ok }
impl MaintainResult {
    pub fn is_queue_empty(&self) -> bool { matches!(self, MaintainResult::SubmissionQueueEmpty) }
    pub fn panic_on_timeout(self) {}
}

type MapCb = Box<dyn FnOnce(Result<(), BufferAsyncError>) + Send + 'static>;
struct BufInner {
    id: u64,
    label: Option<String>,
    size: u64,
    usage: BufferUsages,
    data: Mutex<Vec<u32>>,
    map: Mutex<MapState>,
    /// the last submission that used it, which a mapping waits for
    used: AtomicU64,
}
#[derive(Clone, Copy, PartialEq)]
enum MapState { Unmapped, Pending, Mapped, Destroyed }
impl Drop for BufInner {
    fn drop(&mut self) { sim::LIVE.fetch_sub(1, SeqCst); }
}
#[derive(Clone)]
pub struct Buffer(Arc<BufInner>);
impl std::fmt::Debug for Buffer {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Buffer({})", self.0.id) }
}
impl PartialEq for Buffer { fn eq(&self, o: &Self) -> bool { Arc::ptr_eq(&self.0, &o.0) } }
impl Eq for Buffer {}

struct PendingMap { buf: Option<Buffer>, cb: MapCb, fault: u8, after: u64 }
struct Dev {
    pending_writes: Vec<(Buffer, u64, Vec<u8>)>,
    maps: VecDeque<PendingMap>,
    submitted: u64,
    /// how many of the submissions have been carried out, as far as a poll can tell
    done: u64,
    polls: u64,
}
struct DevInner { st: Mutex<Dev> }
#[derive(Clone)]
pub struct Device(Arc<DevInner>);
#[derive(Clone)]
pub struct Queue(Arc<DevInner>);
impl std::fmt::Debug for Device { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Device") } }
impl std::fmt::Debug for Queue { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Queue") } }

impl DevInner {
    fn flush_writes(d: &mut Dev) {
        for (b, off, bytes) in std::mem::take(&mut d.pending_writes) {
            let mut data = lk(&b.0.data);
            for (k, c) in bytes.chunks_exact(4).enumerate() {
                data[(off / 4) as usize + k] = u32::from_ne_bytes([c[0], c[1], c[2], c[3]]);
            }
        }
    }
    /// Take every map request whose submission has completed; the caller fires them outside of the lock.
    fn collect(d: &mut Dev) -> Vec<PendingMap> {
        if d.maps.is_empty() { return vec![] }
        if !sim::SLOW.load(SeqCst) { d.done = d.submitted }
        let sub = d.done;
        let (ready, rest): (Vec<_>, Vec<_>) = std::mem::take(&mut d.maps).into_iter().partition(|m| m.after <= sub);
        d.maps = rest.into();
        ready
    }
}
fn fire(maps: Vec<PendingMap>, s: i32) {
    for m in maps {
        unsafe { ds_point(6) };
        let Some(buf) = m.buf else {
            call(m.cb, Ok(()), s);
            continue;
        };
        match m.fault {
            1 => {
                sim::MAP_ERR.fetch_add(1, SeqCst);
                *lk(&buf.0.map) = MapState::Unmapped;
                call(m.cb, Err(BufferAsyncError), s)
            }
            2 => {
                sim::MAP_DROP.fetch_add(1, SeqCst);
                *lk(&buf.0.map) = MapState::Unmapped;
                unsafe { ds_resume(s) };
                drop(m.cb);
                unsafe { ds_suspend() };
            }
            _ => {
                *lk(&buf.0.map) = MapState::Mapped;
                call(m.cb, Ok(()), s)
            }
        }
    }
}
// the callback is code under test: it runs with scheduling on
fn call(cb: MapCb, r: Result<(), BufferAsyncError>, s: i32) {
    unsafe { ds_resume(s) };
    cb(r);
    unsafe { ds_suspend() };
}

impl Device {
    pub fn create_buffer(&self, desc: &BufferDescriptor<'_>) -> Buffer {
        let _q = Quiet::new();
        if desc.usage.is_empty() { validation(format!("In Device::create_buffer, label = {:?}: Buffer usages cannot be empty", desc.label)) }
        let u = desc.usage;
        let bad = (u.contains(BufferUsages::MAP_READ) && u.0 & !(1 | 8) != 0) || (u.contains(BufferUsages::MAP_WRITE) && u.0 & !(2 | 4) != 0);
        if bad { validation(format!("In Device::create_buffer: usage {u:?} combines MAP_* with other usages")) }
        if desc.mapped_at_creation && desc.size % 4 != 0 { validation(format!("Buffers that are mapped at creation have to be aligned to 4: {}", desc.size)) }
        if desc.size > 268435456 { validation(format!("Buffer size {} is greater than the maximum buffer size (268435456)", desc.size)) }
        if desc.size % 4 != 0 { validation(format!("simulated device: size {} is no multiple of 4", desc.size)) }
        sim::LIVE.fetch_add(1, SeqCst);
        sim::CREATED.fetch_add(1, SeqCst);
        Buffer(Arc::new(BufInner {
            id: sim::NEXT.fetch_add(1, SeqCst),
            label: desc.label.map(|s| s.to_owned()),
            size: desc.size,
            usage: desc.usage,
            data: Mutex::new(vec![0; (desc.size / 4) as usize]),
            used: AtomicU64::new(0),
            map: Mutex::new(if desc.mapped_at_creation { MapState::Mapped } else { MapState::Unmapped }),
        }))
    }
    pub fn create_command_encoder(&self, desc: &CommandEncoderDescriptor<'_>) -> CommandEncoder {
        let _q = Quiet::new();
        CommandEncoder { label: desc.label.map(|s| s.to_owned()), cmds: vec![] }
    }
    pub fn poll(&self, m: Maintain) -> MaintainResult {
        let q = Quiet::new();
        if let Maintain::WaitForSubmissionIndex(SubmissionIndex(i)) = &m {
            if *i > lk(&self.0.st).submitted { validation(format!("Maintain::wait_for an index {i} that was never submitted")) }
        }
        if !sim::LAZY.load(SeqCst) {
            let maps = {
                let mut d = lk(&self.0.st);
                // a wait is over when the work is; without one, it takes some polls
                match m {
                    Maintain::Poll => {
                        d.polls += 1;
                        if d.polls % 3 == 0 && d.done < d.submitted { d.done += 1 }
                    }
                    Maintain::Wait => d.done = d.submitted,
                    Maintain::WaitForSubmissionIndex(SubmissionIndex(i)) => d.done = d.done.max(i),
                }
                DevInner::collect(&mut d)
            };
            fire(maps, q.0);
        }
        MaintainResult::SubmissionQueueEmpty
    }
}
impl Queue {
    pub fn write_buffer(&self, buffer: &Buffer, offset: BufferAddress, data: &[u8]) {
        let _q = Quiet::new();
        sim::WRITES.fetch_add(1, SeqCst);
        if data.is_empty() { return }
        if *lk(&buffer.0.map) == MapState::Destroyed { validation(format!("In Queue::write_buffer: Buffer {:?} has been destroyed", buffer.0.label)) }
        if !buffer.0.usage.contains(BufferUsages::COPY_DST) { validation("In Queue::write_buffer: usage COPY_DST required".into()) }
        if data.len() % 4 != 0 { validation(format!("In Queue::write_buffer: Copy size {} does not respect COPY_BUFFER_ALIGNMENT", data.len())) }
        if offset % 4 != 0 { validation(format!("In Queue::write_buffer: Buffer offset {offset} is not aligned")) }
        if offset + data.len() as u64 > buffer.0.size {
            validation(format!("In Queue::write_buffer: Copy of {}..{} would end up overrunning the bounds of the Destination buffer of size {}", offset, offset + data.len() as u64, buffer.0.size))
        }
        lk(&self.0.st).pending_writes.push((buffer.clone(), offset, data.to_vec()));
    }
    pub fn submit<I: IntoIterator<Item = CommandBuffer>>(&self, cbs: I) -> SubmissionIndex {
        let s = unsafe { ds_suspend() };
        unsafe { ds_point(6); ds_resume(s) };
        // the iterator is the caller's code
        let cbs: Vec<CommandBuffer> = cbs.into_iter().collect();
        let q = Quiet::new();
        sim::SUBMITS.fetch_add(1, SeqCst);
        for cb in &cbs {
            for c in &cb.cmds {
                let both = match c {
                    Cmd::Copy { src, dst, .. } => [src, dst],
                    Cmd::Clear { dst, .. } => [dst, dst],
                };
                for b in both {
                    match *lk(&b.0.map) {
                        MapState::Unmapped => {}
                        MapState::Destroyed => validation(format!("In Queue::submit: Buffer {:?} has been destroyed", b.0.label)),
                        _ => validation(format!("In Queue::submit: Buffer {:?} is still mapped", b.0.label)),
                    }
                }
            }
        }
        let (idx, maps) = {
            let mut d = lk(&self.0.st);
            DevInner::flush_writes(&mut d);
            for cb in cbs {
                for c in cb.cmds {
                    let (src, so, dst, d_o, n) = match c {
                        Cmd::Copy { src, so, dst, d_o, n } => (src, so, dst, d_o, n),
                        Cmd::Clear { dst, from, n } => {
                            dst.0.used.store(d.submitted + 1, SeqCst);
                            lk(&dst.0.data)[(from / 4) as usize..((from + n) / 4) as usize].fill(0);
                            continue;
                        }
                    };
                    src.0.used.store(d.submitted + 1, SeqCst);
                    dst.0.used.store(d.submitted + 1, SeqCst);
                    let from: Vec<u32> = lk(&src.0.data)[(so / 4) as usize..((so + n) / 4) as usize].to_vec();
                    lk(&dst.0.data)[(d_o / 4) as usize..((d_o + n) / 4) as usize].copy_from_slice(&from);
                }
            }
            d.submitted += 1;
            (d.submitted, if sim::LAZY.load(SeqCst) { vec![] } else { DevInner::collect(&mut d) })
        };
        fire(maps, q.0);
        SubmissionIndex(idx)
    }
}
/// A part of a staging buffer: dropping it schedules the copy.
pub struct QueueWriteBufferView<'a> { queue: &'a Queue, buffer: &'a Buffer, offset: u64, data: Vec<u32> }
impl Deref for QueueWriteBufferView<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] { bytes(&self.data) }
}
impl DerefMut for QueueWriteBufferView<'_> {
    fn deref_mut(&mut self) -> &mut [u8] { bytes_mut(&mut self.data) }
}
impl AsMut<[u8]> for QueueWriteBufferView<'_> { fn as_mut(&mut self) -> &mut [u8] { self } }
impl Drop for QueueWriteBufferView<'_> {
    fn drop(&mut self) { self.queue.write_buffer(self.buffer, self.offset, bytes(&self.data)) }
}
fn bytes(w: &[u32]) -> &[u8] { unsafe { std::slice::from_raw_parts(w.as_ptr() as *const u8, w.len() * 4) } }
fn bytes_mut(w: &mut [u32]) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(w.as_mut_ptr() as *mut u8, w.len() * 4) } }
impl Queue {
    pub fn write_buffer_with<'a>(&'a self, buffer: &'a Buffer, offset: BufferAddress, size: BufferSize) -> Option<QueueWriteBufferView<'a>> {
        if size.get() % 4 != 0 { validation(format!("In Queue::write_buffer_with: Copy size {size} does not respect COPY_BUFFER_ALIGNMENT")) }
        Some(QueueWriteBufferView { queue: self, buffer, offset, data: vec![0; size.get() as usize / 4] })
    }
    /// The callback runs once everything submitted so far is done.
    pub fn on_submitted_work_done(&self, callback: impl FnOnce() + Send + 'static) {
        let _q = Quiet::new();
        let mut st = lk(&self.0.st);
        let after = st.submitted;
        st.maps.push_back(PendingMap { buf: None, cb: Box::new(move |_| callback()), fault: 0, after });
    }
    pub fn get_timestamp_period(&self) -> f32 { 1.0 }
}
enum Cmd { Copy { src: Buffer, so: u64, dst: Buffer, d_o: u64, n: u64 }, Clear { dst: Buffer, from: u64, n: u64 } }
pub struct CommandEncoder { #[allow(dead_code)] label: Option<String>, cmds: Vec<Cmd> }
pub struct CommandBuffer { cmds: Vec<Cmd> }
impl CommandEncoder {
    pub fn copy_buffer_to_buffer(&mut self, src: &Buffer, so: BufferAddress, dst: &Buffer, d_o: BufferAddress, n: BufferAddress) {
        let _q = Quiet::new();
        let e = |m: String| -> ! { validation(format!("In CommandEncoder::copy_buffer_to_buffer: {m}")) };
        if src == dst { e("Source and destination cannot be the same buffer".into()) }
        if !src.0.usage.contains(BufferUsages::COPY_SRC) { e("COPY_SRC missing".into()) }
        if !dst.0.usage.contains(BufferUsages::COPY_DST) { e("COPY_DST missing".into()) }
        if n % 4 != 0 || so % 4 != 0 || d_o % 4 != 0 { e(format!("size {n} or offsets {so}, {d_o} not aligned to 4")) }
        if so + n > src.0.size { e(format!("Copy of {}..{} would end up overrunning the bounds of the Source buffer of size {}", so, so + n, src.0.size)) }
        if d_o + n > dst.0.size { e(format!("Copy of {}..{} would end up overrunning the bounds of the Destination buffer of size {}", d_o, d_o + n, dst.0.size)) }
        if n == 0 { return }
        self.cmds.push(Cmd::Copy { src: src.clone(), so, dst: dst.clone(), d_o, n });
    }
    pub fn clear_buffer(&mut self, dst: &Buffer, offset: BufferAddress, size: Option<BufferAddress>) {
        let _q = Quiet::new();
        let n = size.unwrap_or(dst.0.size.saturating_sub(offset));
        let e = |m: String| -> ! { validation(format!("In CommandEncoder::clear_buffer: {m}")) };
        if !dst.0.usage.contains(BufferUsages::COPY_DST) { e("COPY_DST missing".into()) }
        if n % 4 != 0 || offset % 4 != 0 { e(format!("size {n} or offset {offset} not aligned to 4")) }
        if offset + n > dst.0.size { e(format!("Clear of {}..{} would end up overrunning the bounds of the buffer of size {}", offset, offset + n, dst.0.size)) }
        self.cmds.push(Cmd::Clear { dst: dst.clone(), from: offset, n });
    }
    pub fn insert_debug_marker(&mut self, _label: &str) {}
    pub fn push_debug_group(&mut self, _label: &str) {}
    pub fn pop_debug_group(&mut self) {}
    pub fn finish(self) -> CommandBuffer { CommandBuffer { cmds: self.cmds } }
}
impl Buffer {
    pub fn size(&self) -> BufferAddress { self.0.size }
    pub fn usage(&self) -> BufferUsages { self.0.usage }
    pub fn slice<S: RangeBounds<BufferAddress>>(&self, b: S) -> BufferSlice<'_> {
        let start = match b.start_bound() { Bound::Included(s) => *s, Bound::Excluded(s) => *s + 1, Bound::Unbounded => 0 };
        let end = match b.end_bound() { Bound::Included(s) => *s + 1, Bound::Excluded(s) => *s, Bound::Unbounded => self.0.size };
        if end > self.0.size || start > end { panic!("slice {start}..{end} is out of range for buffer of size {}", self.0.size) }
        if start == end && b.end_bound() != Bound::Unbounded { panic!("buffer slices can not be empty") }
        BufferSlice { buf: self, start, end }
    }
    pub fn unmap(&self) {
        let _q = Quiet::new();
        let mut m = lk(&self.0.map);
        if *m == MapState::Pending {
            // the mapping is given up
            *m = MapState::Unmapped;
            drop(m);
            let g = lk(&sim::DEV).clone().expect("device");
            let gone: Vec<PendingMap> = {
                let mut st = lk(&g.st);
                let (gone, rest): (Vec<_>, Vec<_>) = std::mem::take(&mut st.maps).into_iter().partition(|p| p.buf.as_ref() == Some(self));
                st.maps = rest.into();
                gone
            };
            for p in gone {
                call(p.cb, Err(BufferAsyncError), _q.0)
            }
            return;
        }
        if *m != MapState::Mapped { drop(m); validation("In Buffer::unmap: Buffer is not mapped".into()) }
        *m = MapState::Unmapped;
    }
    pub fn destroy(&self) {
        let _q = Quiet::new();
        *lk(&self.0.map) = MapState::Destroyed;
    }
}
#[derive(Clone, Copy, Debug)]
pub struct BufferSlice<'a> { buf: &'a Buffer, start: u64, end: u64 }
impl<'a> BufferSlice<'a> {
    pub fn map_async(&self, mode: MapMode, cb: impl FnOnce(Result<(), BufferAsyncError>) + Send + 'static) {
        let _q = Quiet::new();
        let need = match mode { MapMode::Read => BufferUsages::MAP_READ, MapMode::Write => BufferUsages::MAP_WRITE };
        if !self.buf.0.usage.contains(need) { validation("In Buffer::map_async: usage flags lack MAP_*".into()) }
        if self.start % 8 != 0 || (self.end - self.start) % 4 != 0 { validation("In Buffer::map_async: unaligned range".into()) }
        {
            let mut m = lk(&self.buf.0.map);
            if *m != MapState::Unmapped { drop(m); validation("In Buffer::map_async: Buffer is already mapped or destroyed".into()) }
            *m = MapState::Pending;
        }
        let mut g = lk(&sim::DEV);
        let d = g.as_mut().expect("device");
        let mut st = lk(&d.st);
        let after = self.buf.0.used.load(SeqCst);
        let fault = sim::next_map_fault();
        st.maps.push_back(PendingMap { buf: Some(self.buf.clone()), cb: Box::new(cb), fault, after });
        sim::MAPS.fetch_add(1, SeqCst);
    }
    pub fn get_mapped_range(&self) -> BufferView<'a> {
        let _q = Quiet::new();
        if *lk(&self.buf.0.map) != MapState::Mapped { panic!("tried to call get_mapped_range(Range) on an unmapped buffer") }
        BufferView { data: lk(&self.buf.0.data)[(self.start / 4) as usize..(self.end / 4) as usize].to_vec(), _p: std::marker::PhantomData }
    }
}
impl<'a> BufferSlice<'a> {
    pub fn get_mapped_range_mut(&self) -> BufferViewMut<'a> {
        let v = self.get_mapped_range();
        BufferViewMut { buf: self.buf, start: self.start, data: v.data }
    }
}
pub struct BufferViewMut<'a> { buf: &'a Buffer, start: u64, data: Vec<u32> }
impl Deref for BufferViewMut<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] { bytes(&self.data) }
}
impl DerefMut for BufferViewMut<'_> {
    fn deref_mut(&mut self) -> &mut [u8] { bytes_mut(&mut self.data) }
}
impl AsMut<[u8]> for BufferViewMut<'_> { fn as_mut(&mut self) -> &mut [u8] { self } }
impl Drop for BufferViewMut<'_> {
    fn drop(&mut self) {
        let _q = Quiet::new();
        let at = (self.start / 4) as usize;
        lk(&self.buf.0.data)[at..at + self.data.len()].copy_from_slice(&self.data);
    }
}
pub struct BufferView<'a> { data: Vec<u32>, _p: std::marker::PhantomData<&'a ()> }
impl Deref for BufferView<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.data.as_ptr() as *const u8, self.data.len() * 4) } }
}
impl AsRef<[u8]> for BufferView<'_> { fn as_ref(&self) -> &[u8] { self } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Limits {
    pub max_buffer_size: u64,
    pub max_storage_buffer_binding_size: u32,
    pub max_uniform_buffer_binding_size: u32,
    pub min_storage_buffer_offset_alignment: u32,
    pub min_uniform_buffer_offset_alignment: u32,
}
impl Device {
    pub fn limits(&self) -> Limits {
        Limits { max_buffer_size: 256 << 20, max_storage_buffer_binding_size: 128 << 20, max_uniform_buffer_binding_size: 64 << 10, min_storage_buffer_offset_alignment: 256, min_uniform_buffer_offset_alignment: 256 }
    }
}
pub mod util {
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct BufferInitDescriptor<'a> {
        pub label: crate::Label<'a>,
        pub contents: &'a [u8],
        pub usage: crate::BufferUsages,
    }
    pub trait DeviceExt {
        fn create_buffer_init(&self, desc: &BufferInitDescriptor<'_>) -> crate::Buffer;
    }
    impl DeviceExt for crate::Device {
        fn create_buffer_init(&self, d: &BufferInitDescriptor<'_>) -> crate::Buffer {
            let n = d.contents.len() as u64;
            let size = if n == 0 { 0 } else { n.next_multiple_of(4) };
            let b = self.create_buffer(&crate::BufferDescriptor { label: d.label, size, usage: d.usage, mapped_at_creation: n > 0 });
            if n > 0 {
                b.slice(..).get_mapped_range_mut()[..n as usize].copy_from_slice(d.contents);
                b.unmap();
            }
            b
        }
    }
}

/// What the simulator itself uses; not part of wgpu.
pub mod sim {
    use super::*;
    pub static LIVE: AtomicUsize = AtomicUsize::new(0);
    pub static CREATED: AtomicU64 = AtomicU64::new(0);
    pub static NEXT: AtomicU64 = AtomicU64::new(1);
    pub static WRITES: AtomicU64 = AtomicU64::new(0);
    pub static SUBMITS: AtomicU64 = AtomicU64::new(0);
    pub static MAPS: AtomicU64 = AtomicU64::new(0);
    pub static MAP_ERR: AtomicU64 = AtomicU64::new(0);
    pub static MAP_DROP: AtomicU64 = AtomicU64::new(0);
    pub(crate) static DEV: Mutex<Option<Arc<DevInnerPub>>> = Mutex::new(None);
    pub(crate) type DevInnerPub = super::DevInner;
    std::thread_local! { static FAULT: std::cell::Cell<u8> = const { std::cell::Cell::new(0) }; }
    pub(crate) fn next_map_fault() -> u8 { FAULT.with(|f| f.replace(0)) }
    /// The next `map_async` of this thread: 1 fails, 2 has its callback dropped.
    pub fn arm_map_fault(k: u8) { FAULT.with(|f| f.set(k)) }
    /// As in a browser: neither `poll` nor `submit` call anything back, only the event loop does.
    pub static LAZY: AtomicBool = AtomicBool::new(false);
    /// The device takes its time: its work is done when someone waits for it, or after some polls.
    pub static SLOW: AtomicBool = AtomicBool::new(false);
    pub fn event_loop() {
        let q = Quiet::new();
        let Some(d) = lk(&DEV).clone() else { return };
        let maps = {
            let mut d = lk(&d.st);
            d.done = d.submitted;
            DevInner::collect(&mut d)
        };
        fire(maps, q.0);
    }
    /// A fresh device, and the default one for mapping.
    pub fn new_device() -> (Device, Queue) {
        let d = Arc::new(DevInner { st: Mutex::new(Dev { pending_writes: vec![], maps: VecDeque::new(), submitted: 0, done: 0, polls: 0 }) });
        *lk(&DEV) = Some(d.clone());
        (Device(d.clone()), Queue(d))
    }
    /// What a shader dispatched now would see in the buffer (a submission of its own).
    pub fn dispatch_read(q: &Queue, b: &Buffer) -> Vec<u32> {
        let mut d = lk(&q.0.st);
        DevInner::flush_writes(&mut d);
        d.submitted += 1;
        drop(d);
        lk(&b.0.data).clone()
    }
    /// A shader writes these words.
    pub fn dispatch_write(q: &Queue, b: &Buffer, at: usize, words: &[u32]) {
        let mut d = lk(&q.0.st);
        DevInner::flush_writes(&mut d);
        d.submitted += 1;
        drop(d);
        lk(&b.0.data)[at..at + words.len()].copy_from_slice(words);
    }
    pub fn label(b: &Buffer) -> Option<String> { b.0.label.clone() }
    pub fn id(b: &Buffer) -> u64 { b.0.id }
    pub fn reset_device() {
        let d = lk(&DEV).take();
        drop(d);
    }
}
