//! The value types stored on the slab, with an encoding of their own (`enc`) that is independent of the
//! slab layout under test: two values are the same exactly if their encodings are.
use crate::ds::Rng;
use crabslab::{Array, Id, Slab, SlabItem};
use std::cell::Cell;
use std::marker::PhantomData;

pub type Enc = Vec<u32>;

pub trait SimVal: SlabItem + Clone + Default + Send + Sync + 'static {
    const NAME: &'static str;
    /// What is read can be written back and reads the same.
    const FAITHFUL: bool = true;
    /// The value is one word and that word is its encoding.
    const WORD: bool = false;
    fn make(r: &mut Rng) -> Self;
    fn enc(&self, o: &mut Enc);
    /// A second way to read the value at `id`: fields through their offsets, arrays through their ids.
    fn by_parts(_slab: &[u32], _id: Id<Self>) -> Option<Enc> {
        None
    }
}
pub fn enc_of<T: SimVal>(t: &T) -> Enc {
    let mut o = vec![];
    t.enc(&mut o);
    o
}
pub fn make<T: SimVal>(seed: u64) -> T {
    T::make(&mut match seed {
        0 | u64::MAX => Rng(0, Some(seed)),
        _ => Rng::new(seed),
    })
}

macro_rules! int {
    ($($t:ty),*) => {$(impl SimVal for $t {
        const NAME: &'static str = stringify!($t);
        fn make(r: &mut Rng) -> Self { let x = (r.next() as u128) << 64 | r.next() as u128; match r.below(12) { 0 => 0, 1 => <$t>::MIN, 3 => <$t>::MAX, _ => x as $t } }
        fn enc(&self, o: &mut Enc) { let x = *self as i128 as u128; for i in 0..(std::mem::size_of::<$t>() + 3) / 4 { o.push((x >> (32 * i)) as u32); } }
    })*};
}
int!(u8, i8, u16, i16, i32, u64, i64, u128, i128);
impl SimVal for u32 {
    const NAME: &'static str = "u32";
    const WORD: bool = true;
    fn make(r: &mut Rng) -> Self {
        r.next() as u32
    }
    fn enc(&self, o: &mut Enc) {
        o.push(*self);
    }
}
fn f(r: &mut Rng) -> f32 {
    match r.below(12) {
        0 => 0.0,
        1 => -0.0,
        2 => f32::INFINITY,
        3 => f32::MIN_POSITIVE / 2.0,
        _ => (r.next() as i32) as f32 / 1024.0,
    }
}
impl SimVal for f32 {
    const NAME: &'static str = "f32";
    fn make(r: &mut Rng) -> Self {
        f(r)
    }
    fn enc(&self, o: &mut Enc) {
        o.push(self.to_bits());
    }
}
impl SimVal for f64 {
    const NAME: &'static str = "f64";
    fn make(r: &mut Rng) -> Self {
        r.next() as i64 as f64 / 65536.0
    }
    fn enc(&self, o: &mut Enc) {
        o.push(self.to_bits() as u32);
        o.push((self.to_bits() >> 32) as u32);
    }
}
impl SimVal for bool {
    const NAME: &'static str = "bool";
    fn make(r: &mut Rng) -> Self {
        r.chance(50)
    }
    fn enc(&self, o: &mut Enc) {
        o.push(*self as u32);
    }
}
macro_rules! glams {
    ($($t:ty, $n:expr, $mk:expr, $arr:ident);*) => {$(impl SimVal for $t {
        const NAME: &'static str = stringify!($t);
        fn make(r: &mut Rng) -> Self { $mk(r) }
        fn enc(&self, o: &mut Enc) { for x in self.$arr() { o.push(x.to_bits()); } }
    })*};
}
glams!(glam::Vec2, 2, |r: &mut Rng| glam::Vec2::new(f(r), f(r)), to_array;
       glam::Vec3, 3, |r: &mut Rng| glam::Vec3::new(f(r), f(r), f(r)), to_array;
       glam::Vec4, 4, |r: &mut Rng| glam::Vec4::new(f(r), f(r), f(r), f(r)), to_array;
       glam::Quat, 4, |r: &mut Rng| glam::Quat::from_xyzw(f(r), f(r), f(r), f(r)), to_array;
       glam::Mat4, 16, |r: &mut Rng| glam::Mat4::from_cols_array(&[0; 16].map(|_| f(r))), to_cols_array);
macro_rules! uglams {
    ($($t:ty, $mk:expr);*) => {$(impl SimVal for $t {
        const NAME: &'static str = stringify!($t);
        fn make(r: &mut Rng) -> Self { $mk(r) }
        fn enc(&self, o: &mut Enc) { for x in self.to_array() { o.push(x); } }
    })*};
}
uglams!(glam::UVec2, |r: &mut Rng| glam::UVec2::new(r.next() as u32, r.next() as u32);
        glam::UVec3, |r: &mut Rng| glam::UVec3::new(r.next() as u32, r.next() as u32, r.next() as u32);
        glam::UVec4, |r: &mut Rng| glam::UVec4::new(r.next() as u32, r.next() as u32, r.next() as u32, r.next() as u32));
macro_rules! tup {
    ($name:expr; $($t:ident $i:tt),*) => { impl<$($t: SimVal),*> SimVal for ($($t,)*) {
        const NAME: &'static str = $name;
        fn make(r: &mut Rng) -> Self { ($($t::make(r),)*) }
        fn enc(&self, o: &mut Enc) { $(self.$i.enc(o);)* }
    } };
}
tup!("(A,)"; A 0);
tup!("(A,B)"; A 0, B 1);
tup!("(A,B,C)"; A 0, B 1, C 2);
tup!("(A..D)"; A 0, B 1, C 2, D 3);
tup!("(A..F)"; A 0, B 1, C 2, D 3, E 4, F 5);
tup!("(A..G)"; A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tup!("(A..H)"; A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tup!("(A..I)"; A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tup!("(A..J)"; A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tup!("(A..K)"; A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
tup!("(A..E)"; A 0, B 1, C 2, D 3, E 4);
tup!("(A..L)"; A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
impl<T: SimVal + Copy, const N: usize> SimVal for [T; N]
where
    [T; N]: Default,
{
    const NAME: &'static str = "[T;N]";
    fn make(r: &mut Rng) -> Self {
        [(); N].map(|_| T::make(r))
    }
    fn enc(&self, o: &mut Enc) {
        for x in self {
            x.enc(o);
        }
    }
}
impl<T: SimVal> SimVal for Option<T> {
    const NAME: &'static str = "Option<T>";
    fn make(r: &mut Rng) -> Self {
        if r.chance(30) {
            None
        } else {
            Some(T::make(r))
        }
    }
    fn enc(&self, o: &mut Enc) {
        match self {
            None => o.push(7),
            Some(t) => {
                o.push(9);
                t.enc(o)
            }
        }
    }
}
impl SimVal for PhantomData<u32> {
    const NAME: &'static str = "PhantomData<u32>";
    fn make(_: &mut Rng) -> Self {
        PhantomData
    }
    fn enc(&self, o: &mut Enc) {
        o.push(1);
    }
}

/// A struct with named fields and derived offsets.
#[derive(Clone, Default, SlabItem)]
#[offsets]
pub struct Named {
    pub a: u32,
    pub b: glam::Vec3,
    pub c: bool,
    pub d: (u16, u64),
    pub e: [i16; 3],
}
impl SimVal for Named {
    const NAME: &'static str = "struct Named";
    fn make(r: &mut Rng) -> Self {
        Named { a: SimVal::make(r), b: SimVal::make(r), c: SimVal::make(r), d: SimVal::make(r), e: SimVal::make(r) }
    }
    fn enc(&self, o: &mut Enc) {
        self.a.enc(o);
        self.b.enc(o);
        self.c.enc(o);
        self.d.enc(o);
        self.e.enc(o);
    }
    fn by_parts(slab: &[u32], id: Id<Self>) -> Option<Enc> {
        let mut o = vec![];
        slab.read(id + Named::OFFSET_OF_A).enc(&mut o);
        slab.read(id + Named::OFFSET_OF_B).enc(&mut o);
        slab.read(id + Named::OFFSET_OF_C).enc(&mut o);
        slab.read(id + Named::OFFSET_OF_D).enc(&mut o);
        slab.read(id + Named::OFFSET_OF_E).enc(&mut o);
        Some(o)
    }
}
/// A tuple struct nesting a struct with offsets.
#[derive(Clone, Default, SlabItem)]
#[offsets]
pub struct Outer {
    pub head: u64,
    pub inner: Named,
    pub tail: Option<u32>,
}
impl SimVal for Outer {
    const NAME: &'static str = "struct Outer";
    fn make(r: &mut Rng) -> Self {
        Outer { head: SimVal::make(r), inner: SimVal::make(r), tail: SimVal::make(r) }
    }
    fn enc(&self, o: &mut Enc) {
        self.head.enc(o);
        self.inner.enc(o);
        self.tail.enc(o);
    }
    fn by_parts(slab: &[u32], id: Id<Self>) -> Option<Enc> {
        let mut o = vec![];
        slab.read(id + Outer::OFFSET_OF_HEAD).enc(&mut o);
        let inner = id + Outer::OFFSET_OF_INNER;
        o.extend(Named::by_parts(slab, inner)?);
        slab.read(id + Outer::OFFSET_OF_TAIL).enc(&mut o);
        Some(o)
    }
}
#[derive(Clone, Default, SlabItem)]
pub struct Tuple(pub u8, pub i64, pub glam::Quat);
impl SimVal for Tuple {
    const NAME: &'static str = "struct Tuple";
    fn make(r: &mut Rng) -> Self {
        Tuple(SimVal::make(r), SimVal::make(r), SimVal::make(r))
    }
    fn enc(&self, o: &mut Enc) {
        self.0.enc(o);
        self.1.enc(o);
        self.2.enc(o);
    }
}
#[derive(Clone, Default, SlabItem)]
pub struct Gen<T: Default> {
    pub t: T,
    pub p: PhantomData<T>,
    pub n: u16,
}
impl<T: SimVal> SimVal for Gen<T> {
    const NAME: &'static str = "struct Gen<T>";
    fn make(r: &mut Rng) -> Self {
        Gen { t: T::make(r), p: PhantomData, n: SimVal::make(r) }
    }
    fn enc(&self, o: &mut Enc) {
        self.t.enc(o);
        self.n.enc(o);
    }
}
/// A tuple struct with derived offsets.
#[derive(Clone, Default, SlabItem)]
#[offsets]
pub struct TupOff(pub u64, pub [u8; 2], pub glam::Vec2, pub Option<i8>);
impl SimVal for TupOff {
    const NAME: &'static str = "struct TupOff";
    fn make(r: &mut Rng) -> Self {
        TupOff(SimVal::make(r), SimVal::make(r), SimVal::make(r), SimVal::make(r))
    }
    fn enc(&self, o: &mut Enc) {
        self.0.enc(o);
        self.1.enc(o);
        self.2.enc(o);
        self.3.enc(o);
    }
    fn by_parts(slab: &[u32], id: Id<Self>) -> Option<Enc> {
        let mut o = vec![];
        slab.read(id + TupOff::OFFSET_OF_0).enc(&mut o);
        slab.read(id + TupOff::OFFSET_OF_1).enc(&mut o);
        slab.read(id + TupOff::OFFSET_OF_2).enc(&mut o);
        slab.read(id + TupOff::OFFSET_OF_3).enc(&mut o);
        Some(o)
    }
}
/// An enum whose largest variant is its first, and which nests another one.
#[derive(Clone, SlabItem)]
pub enum Wide {
    Big { m: glam::Mat4, k: u8 },
    Pair(Option<Choice>, [u16; 3]),
    Small(bool),
}
impl Default for Wide {
    fn default() -> Self {
        Wide::Small(true)
    }
}
impl SimVal for Wide {
    const NAME: &'static str = "enum Wide";
    fn make(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => Wide::Big { m: SimVal::make(r), k: SimVal::make(r) },
            1 => Wide::Pair(SimVal::make(r), SimVal::make(r)),
            _ => Wide::Small(SimVal::make(r)),
        }
    }
    fn enc(&self, o: &mut Enc) {
        match self {
            Wide::Big { m, k } => {
                o.push(200);
                m.enc(o);
                k.enc(o)
            }
            Wide::Pair(a, b) => {
                o.push(201);
                a.enc(o);
                b.enc(o)
            }
            Wide::Small(b) => {
                o.push(202);
                b.enc(o)
            }
        }
    }
}
/// Variants of different sizes: unit, named, tuple, nested, optional.
#[derive(Clone, Default, SlabItem)]
pub enum Choice {
    #[default]
    Unit,
    One {
        a: u32,
    },
    Three(u32, bool, u64),
    Nest(Tuple),
    Opt(Option<glam::Vec2>, i8),
}
impl SimVal for Choice {
    const NAME: &'static str = "enum Choice";
    fn make(r: &mut Rng) -> Self {
        match r.below(5) {
            0 => Choice::Unit,
            1 => Choice::One { a: SimVal::make(r) },
            2 => Choice::Three(SimVal::make(r), SimVal::make(r), SimVal::make(r)),
            3 => Choice::Nest(SimVal::make(r)),
            _ => Choice::Opt(SimVal::make(r), SimVal::make(r)),
        }
    }
    fn enc(&self, o: &mut Enc) {
        match self {
            Choice::Unit => o.push(100),
            Choice::One { a } => {
                o.push(101);
                a.enc(o)
            }
            Choice::Three(a, b, c) => {
                o.push(102);
                a.enc(o);
                b.enc(o);
                c.enc(o)
            }
            Choice::Nest(t) => {
                o.push(103);
                t.enc(o)
            }
            Choice::Opt(a, b) => {
                o.push(104);
                a.enc(o);
                b.enc(o)
            }
        }
    }
}
/// Offsets of a generic struct's fields; arrays of structs.
#[derive(Clone, Default, SlabItem)]
#[offsets]
pub struct GenOff<T: Default + SlabItem> {
    pub first: Option<Option<T>>,
    pub many: [Small; 3],
    pub last: T,
}
#[derive(Clone, Copy, Default, SlabItem)]
pub struct Small {
    pub a: u8,
    pub b: Option<u64>,
}
impl SimVal for Small {
    const NAME: &'static str = "struct Small";
    fn make(r: &mut Rng) -> Self {
        Small { a: SimVal::make(r), b: SimVal::make(r) }
    }
    fn enc(&self, o: &mut Enc) {
        self.a.enc(o);
        self.b.enc(o);
    }
}
impl<T: SimVal> SimVal for GenOff<T> {
    const NAME: &'static str = "struct GenOff<T>";
    fn make(r: &mut Rng) -> Self {
        GenOff { first: SimVal::make(r), many: SimVal::make(r), last: SimVal::make(r) }
    }
    fn enc(&self, o: &mut Enc) {
        self.first.enc(o);
        self.many.enc(o);
        self.last.enc(o);
    }
    fn by_parts(slab: &[u32], id: Id<Self>) -> Option<Enc> {
        let mut o = vec![];
        slab.read(id + GenOff::<T>::OFFSET_OF_FIRST).enc(&mut o);
        slab.read(id + GenOff::<T>::OFFSET_OF_MANY).enc(&mut o);
        slab.read(id + GenOff::<T>::OFFSET_OF_LAST).enc(&mut o);
        Some(o)
    }
}
/// One variant only.
#[derive(Clone, SlabItem)]
pub enum Solo {
    Only(u32, bool),
}
impl Default for Solo {
    fn default() -> Self {
        Solo::Only(3, true)
    }
}
impl SimVal for Solo {
    const NAME: &'static str = "enum Solo";
    fn make(r: &mut Rng) -> Self {
        Solo::Only(SimVal::make(r), SimVal::make(r))
    }
    fn enc(&self, o: &mut Enc) {
        let Solo::Only(a, b) = self;
        a.enc(o);
        b.enc(o);
    }
}
/// Ids and arrays stored as values, the way linked GPU data is built.
#[derive(Clone, Default, SlabItem)]
pub struct Node {
    pub tag: u32,
    pub id: Id<u32>,
    pub arr: Array<u32>,
    pub next: Id<Node>,
}
impl SimVal for Node {
    const NAME: &'static str = "struct Node";
    fn make(r: &mut Rng) -> Self {
        let n = r.chance(20);
        Node {
            tag: r.next() as u32,
            id: if n { Id::NONE } else { Id::new(r.below(64) as u32) },
            arr: if r.chance(20) { Array::NONE } else { Array::new(r.below(64) as u32, r.below(5) as u32) },
            next: if r.chance(20) { Id::NONE } else { Id::new(r.below(64) as u32) },
        }
    }
    fn enc(&self, o: &mut Enc) {
        o.extend([self.tag, self.id.inner(), self.arr.starting_index() as u32, self.arr.len() as u32, self.next.inner()]);
    }
}

std::thread_local! {
    /// 1: the next encode of a `Bomb` on this thread panics; 2: the next clone does
    pub static BOMB: Cell<u8> = const { Cell::new(0) };
}
/// A user type whose encoding or `Clone` may panic.
#[derive(Default)]
pub struct Bomb {
    pub a: u32,
    pub b: u32,
}
impl Clone for Bomb {
    fn clone(&self) -> Self {
        if BOMB.with(|b| b.get()) == 2 {
            BOMB.with(|b| b.set(0));
            panic!("injected: clone");
        }
        Bomb { a: self.a, b: self.b }
    }
}
impl SlabItem for Bomb {
    const SLAB_SIZE: usize = 2;
    fn read_slab(index: usize, slab: &[u32]) -> Self {
        Bomb { a: slab[index], b: slab[index + 1] }
    }
    fn write_slab(&self, index: usize, slab: &mut [u32]) -> usize {
        slab[index] = self.a;
        if BOMB.with(|b| b.get()) == 1 {
            BOMB.with(|b| b.set(0));
            panic!("injected: encode");
        }
        slab[index + 1] = self.b;
        index + 2
    }
}
impl SimVal for Bomb {
    const NAME: &'static str = "Bomb";
    const FAITHFUL: bool = false;
    fn make(r: &mut Rng) -> Self {
        Bomb { a: r.next() as u32, b: r.next() as u32 }
    }
    fn enc(&self, o: &mut Enc) {
        o.extend([self.a, self.b]);
    }
}

#[macro_export]
macro_rules! with_type {
    ($ty:expr, $T:ident => $e:expr) => {{
        use $crate::types::*;
        match $ty as usize % $crate::types::NTYPES {
            0 => { type $T = u32; $e }
            1 => { type $T = u8; $e }
            2 => { type $T = i8; $e }
            3 => { type $T = u16; $e }
            4 => { type $T = i16; $e }
            5 => { type $T = i32; $e }
            6 => { type $T = u64; $e }
            7 => { type $T = i64; $e }
            8 => { type $T = u128; $e }
            9 => { type $T = i128; $e }
            10 => { type $T = f32; $e }
            11 => { type $T = f64; $e }
            12 => { type $T = bool; $e }
            13 => { type $T = (u32,); $e }
            14 => { type $T = (u32, u32); $e }
            15 => { type $T = (u8, u64, bool); $e }
            16 => { type $T = (u8, u32, u16, i64, Option<u8>); $e }
            17 => { type $T = (u8, u8, u16, u32, bool, i8, u32, f32, u32, i16, u32, u32); $e }
            18 => { type $T = [u32; 3]; $e }
            19 => { type $T = [[u16; 2]; 2]; $e }
            20 => { type $T = Option<u32>; $e }
            21 => { type $T = Option<(u64, bool)>; $e }
            22 => { type $T = glam::Vec2; $e }
            23 => { type $T = glam::Vec3; $e }
            24 => { type $T = glam::Vec4; $e }
            25 => { type $T = glam::Quat; $e }
            26 => { type $T = glam::Mat4; $e }
            27 => { type $T = glam::UVec2; $e }
            28 => { type $T = glam::UVec3; $e }
            29 => { type $T = glam::UVec4; $e }
            30 => { type $T = Named; $e }
            31 => { type $T = Outer; $e }
            32 => { type $T = Tuple; $e }
            33 => { type $T = Gen<u64>; $e }
            34 => { type $T = Choice; $e }
            35 => { type $T = Option<Choice>; $e }
            36 => { type $T = TupOff; $e }
            37 => { type $T = Wide; $e }
            38 => { type $T = (i32, bool, u8, f32); $e }
            39 => { type $T = (u16, u64, u8, i8, u32, bool); $e }
            40 => { type $T = (u8, i16, u32, f64, u8, u8, u32); $e }
            41 => { type $T = (u32, u32, u8, u16, bool, i64, u8, i32); $e }
            42 => { type $T = (u8, u8, u8, u8, [u8; 2], u8, u8, u8, u32); $e }
            43 => { type $T = (u32, u8, u32, u8, u32, u8, u64, u8, u32, bool); $e }
            44 => { type $T = (u8, u32, f32, i8, u16, i32, u32, bool, u128, u8, i16); $e }
            45 => { type $T = Node; $e }
            46 => { type $T = std::marker::PhantomData<u32>; $e }
            47 => { type $T = (Small, u8); $e }
            48 => { type $T = GenOff<i16>; $e }
            49 => { type $T = Solo; $e }
            50 => { type $T = Option<Option<u16>>; $e }
            _ => { type $T = Bomb; $e }
        }
    }};
}
pub const NTYPES: usize = 52;
pub const T_U32: usize = 0;
pub const T_U32X2: usize = 14;
pub const T_U32X3: usize = 18;
pub const T_NODE: usize = 45;
pub const T_ZST: usize = 46;
pub const T_BOMB: usize = 51;

/// What the oracles need to know of a type.
pub struct TyVt {
    pub name: &'static str,
    pub words: usize,
    pub word: bool,
    pub enc_seed: fn(u64) -> Enc,
    pub words_seed: fn(u64) -> Vec<u32>,
    pub read: fn(&[u32], u32) -> Enc,
    pub read_unchecked: fn(&[u32], u32) -> Enc,
    pub parts: fn(&[u32], u32) -> Option<Enc>,
    pub read_vec: fn(&[u32], u32, u32) -> Vec<Enc>,
    /// The other ways to the items of an array: an error if they disagree with reading each by its id.
    pub ways: fn(&[u32], u32, u32) -> Result<(), String>,
    pub default: fn() -> Enc,
}
fn t_enc<T: SimVal>(s: u64) -> Enc {
    enc_of(&make::<T>(s))
}
fn t_words<T: SimVal>(s: u64) -> Vec<u32> {
    let mut v = vec![0u32; T::SLAB_SIZE];
    make::<T>(s).write_slab(0, &mut v);
    v
}
fn t_read<T: SimVal>(slab: &[u32], at: u32) -> Enc {
    enc_of(&slab.read(Id::<T>::new(at)))
}
fn t_readu<T: SimVal>(slab: &[u32], at: u32) -> Enc {
    enc_of(&slab.read_unchecked(Id::<T>::new(at)))
}
fn t_parts<T: SimVal>(slab: &[u32], at: u32) -> Option<Enc> {
    T::by_parts(slab, Id::<T>::new(at))
}
fn t_ways<T: SimVal>(slab: &[u32], at: u32, n: u32) -> Result<(), String> {
    let a = Array::<T>::new(at, n);
    let none = enc_of(&T::default());
    let mut count = 0;
    for (i, id) in a.iter().enumerate() {
        count += 1;
        let want = Id::<T>::new(at + i as u32 * T::SLAB_SIZE as u32);
        if id != want || a.at(i) != want {
            return Err(format!("item {i}: iteration gives {id:?}, at {:?}, expected {want:?}", a.at(i)));
        }
        let whole = enc_of(&slab.read(id));
        let inside = at as usize + (i + 1) * T::SLAB_SIZE <= slab.len();
        if Slab::contains(slab, id) != inside {
            return Err(format!("item {i}: contains {id:?} is {}", !inside));
        }
        if inside {
            let mut t = T::default();
            slab.read_into_if_some(id, &mut t);
            if enc_of(&t) != whole {
                return Err(format!("item {i}: read_into_if_some gives {:?}, read {whole:?}", enc_of(&t)));
            }
            // no id, no change
            slab.read_into_if_some(Id::NONE, &mut t);
            if enc_of(&t) != whole {
                return Err(format!("item {i}: read_into_if_some of no id changes it to {:?}", enc_of(&t)));
            }
        }
    }
    // the same item by index arithmetic, as a reader with a base id does it
    if n > 0 {
        let first = a.at(0);
        let (u, z) = ((n - 1) * T::SLAB_SIZE as u32, (n as usize - 1) * T::SLAB_SIZE);
        let last = a.at(n as usize - 1);
        if first + u != last || first + z != last || u + first != last || z + first != last || Id::<T>::from(u32::from(last)) != last || Id::<T>::from(last.index()) != last {
            return Err(format!("{u} words after {first:?} is not {last:?}"));
        }
        if T::SLAB_SIZE > 0 && (last.is_none() || !last.is_some()) {
            return Err(format!("{last:?} counts as no id"));
        }
        let one = Array::<T>::from(last);
        if one.len() != 1 || one.is_empty() || one.is_null() || one.at(0) != last || slab.read_vec(one).iter().map(enc_of).collect::<Vec<_>>() != [enc_of(&slab.read(last))] {
            return Err(format!("{last:?} as an array reads differently"));
        }
    }
    // writing back what was read changes nothing, and more items than there is data are not written
    let end = at as usize + n as usize * T::SLAB_SIZE;
    if n > 0 && n < 40 && slab.len() < 3000 && end <= slab.len() && T::FAITHFUL {
        let items: Vec<T> = slab.read_vec(a);
        let mut copy = slab.to_vec();
        copy[at as usize..end].fill(0);
        copy.write_array(a, &items[1..]);
        if copy[at as usize..end].iter().any(|w| *w != 0) {
            return Err("an array was written with fewer items than it has".into());
        }
        copy.write_array(a, &items);
        if slab.read_vec(a).iter().map(enc_of).collect::<Vec<_>>() != copy.read_vec(a).iter().map(enc_of).collect::<Vec<_>>() {
            return Err("items written as an array read differently".into());
        }
        if copy[..at as usize] != slab[..at as usize] || copy[end..] != slab[end..] {
            return Err("writing an array changes words next to it".into());
        }
    }
    if count != n || a.at(n as usize) != Id::NONE {
        return Err(format!("{count} items of {n}, and {:?} after them", a.at(n as usize)));
    }
    let (from, to) = (at as usize, at as usize + n as usize * T::SLAB_SIZE);
    if to <= slab.len() && a.sub_slab(slab) != &slab[from..to] {
        return Err("its part of the slab is not its items' words".into());
    }
    if T::SLAB_SIZE > 0 && (Slab::contains(slab, Id::<T>::NONE) || enc_of(&slab.read(a.at(n as usize))) != none) {
        return Err("reading no id is not the default".into());
    }
    Ok(())
}
fn t_vec<T: SimVal>(slab: &[u32], at: u32, n: u32) -> Vec<Enc> {
    slab.read_vec(Array::<T>::new(at, n)).iter().map(enc_of).collect()
}
fn t_def<T: SimVal>() -> Enc {
    enc_of(&T::default())
}
pub fn vt(ty: usize) -> TyVt {
    with_type!(ty, T => TyVt {
        name: <T as SimVal>::NAME,
        words: <T as SlabItem>::SLAB_SIZE,
        word: <T as SimVal>::WORD,
        enc_seed: t_enc::<T>,
        words_seed: t_words::<T>,
        read: t_read::<T>,
        read_unchecked: t_readu::<T>,
        parts: t_parts::<T>,
        read_vec: t_vec::<T>,
        ways: t_ways::<T>,
        default: t_def::<T>,
    })
}
