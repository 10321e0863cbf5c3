//! A small user-defined key universe and user-defined components (summary, sub-tree, collection)
//! plugged into the crate's generic code. They are straightforward reference implementations of
//! the crate's public traits; the code under test is everything above them.
//!
//! `K<B>` has two digits of `B` bits. `Leaf` is a set of digits with values. `Coll` is an array of
//! leaves. While `HAVOC` is armed, the collection and summary that the tree builds when its third
//! entry arrives start out with arbitrary content instead of one entry: this is how a harness puts
//! a tree in an arbitrary valid state through the public API.

#![allow(static_mut_refs)]

use crate::nd::*;
use crate::suite::{Key, Oracle, Val};
use core::borrow::Borrow;
use veb_tree::collection::*;
use veb_tree::key::*;
use veb_tree::tree::*;
use veb_tree::*;

/// One digit of `B` bits.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct D<const B: u32>(pub u8);
/// A key of two digits.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct K<const B: u32>(pub u8);

impl<const B: u32> Key for D<B> {
    fn nd() -> Self {
        D(below(1 << B))
    }
}
impl<const B: u32> Key for K<B> {
    fn nd() -> Self {
        K(below(1 << (2 * B)))
    }
}
impl<const B: u32> VebKey for K<B> {
    type Hi = D<B>;
    type Lo = D<B>;
    fn split_val(self) -> (D<B>, D<B>) {
        (D(self.0 >> B), D(self.0 & ((1 << B) - 1)))
    }
    fn join<'a>(hi: MaybeBorrowed<'a, D<B>>, lo: MaybeBorrowed<'a, D<B>>) -> Self {
        K((*hi).0 << B | (*lo).0)
    }
}
impl<const B: u32> VebKeyRef<D<B>, D<B>> for K<B> {
    fn split_ref<F, R>(&self, f: F) -> R
    where
        F: FnOnce(&D<B>, &D<B>) -> R,
    {
        let (hi, lo) = self.split_val();
        f(&hi, &lo)
    }
}
impl SizedVebKey for D<2> {
    const CARDINALITY: usize = 4;
    type Cardinality = typenum::U4;
    fn index(&self) -> usize {
        self.0 as usize
    }
}

/// Value storage; a scalar for `()` because CBMC does not like arrays of empty elements.
pub trait Tok: Val {
    type A<const N: usize>: Copy;
    fn zero<const N: usize>() -> Self::A<N>;
    fn g<const N: usize>(a: &Self::A<N>, i: usize) -> &Self;
    fn gm<const N: usize>(a: &mut Self::A<N>, i: usize) -> &mut Self;
    fn tag(k: u8) -> Self;
}
impl Tok for () {
    type A<const N: usize> = ();
    fn zero<const N: usize>() {}
    fn g<const N: usize>(a: &(), _: usize) -> &() {
        a
    }
    fn gm<const N: usize>(a: &mut (), _: usize) -> &mut () {
        a
    }
    fn tag(_: u8) {}
}
macro_rules! tok { ($($t:ty)*) => { $( impl Tok for $t {
    type A<const N: usize> = [$t; N];
    fn zero<const N: usize>() -> [$t; N] { [0; N] }
    fn g<const N: usize>(a: &[$t; N], i: usize) -> &$t { &a[i] }
    fn gm<const N: usize>(a: &mut [$t; N], i: usize) -> &mut $t { &mut a[i] }
    fn tag(k: u8) -> $t { k as $t ^ 0x55 }
} )* } }
tok! { u8 u16 }

pub static mut HAVOC: bool = false;
pub static mut HC: [u16; 16] = [0; 16];
/// How far the size bounds of a leaf are off (below; above, if there is an upper bound).
pub static mut SLACK: (usize, Option<usize>) = (0, Some(0));
/// Non-constant-time operations performed on sub-trees and summaries.
pub static mut HEAVY: u32 = 0;
/// All operations performed on sub-trees, summaries and collections.
pub static mut CALLS: u32 = 0;

fn heavy(c: bool) {
    unsafe {
        if c {
            HEAVY += 1;
        }
    }
}
fn call() {
    unsafe { CALLS += 1 }
}

pub fn lowest(b: u16) -> u8 {
    b.trailing_zeros() as u8
}
pub fn highest(b: u16) -> u8 {
    15 - b.leading_zeros() as u8
}
pub fn bit(i: u8) -> u16 {
    1u16 << i
}
/// Bits strictly below / above `i`.
pub fn lower(i: u8) -> u16 {
    bit(i) - 1
}
pub fn upper(i: u8) -> u16 {
    !(bit(i) | lower(i))
}

pub struct Leaf<V: Tok, const B: u32, const N: usize> {
    pub bits: u16,
    pub vals: V::A<N>,
}
impl<V: Tok, const B: u32, const N: usize> Clone for Leaf<V, B, N> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<V: Tok, const B: u32, const N: usize> Copy for Leaf<V, B, N> {}

type KV<'a, V, const B: u32> = (MaybeBorrowed<'a, D<B>>, &'a V);
type KVM<'a, V, const B: u32> = (MaybeBorrowed<'a, D<B>>, &'a mut V);

impl<V: Tok, const B: u32, const N: usize> Leaf<V, B, N> {
    pub fn empty() -> Self {
        Leaf { bits: 0, vals: V::zero::<N>() }
    }
    /// Arbitrary non-empty content.
    pub fn nd() -> Self {
        let mut vals = V::zero::<N>();
        let mut i = 0;
        while i < N {
            *V::gm::<N>(&mut vals, i) = V::nd();
            i += 1;
        }
        Leaf { bits: Self::nd_bits(), vals }
    }
    pub fn nd_bits() -> u16 {
        let bits: u16 = any();
        let bits = if N < 16 { bits & ((1u32 << N) - 1) as u16 } else { bits };
        assume(bits != 0);
        bits
    }
    pub fn has(&self, i: u8) -> bool {
        self.bits >> i & 1 == 1
    }
    pub fn at(&self, i: u8) -> KV<'_, V, B> {
        (MaybeBorrowed::Owned(D(i)), V::g::<N>(&self.vals, i as usize))
    }
    pub fn at_mut(&mut self, i: u8) -> KVM<'_, V, B> {
        (MaybeBorrowed::Owned(D(i)), V::gm::<N>(&mut self.vals, i as usize))
    }
    fn take(mut self, i: u8) -> RemoveResult<Self> {
        let v = *V::g::<N>(&self.vals, i as usize);
        self.bits &= !bit(i);
        (if self.bits == 0 { None } else { Some(self) }, (D(i), v))
    }
    pub fn count(&self) -> usize {
        let mut n = 0;
        let mut i = 0;
        while i < N as u8 {
            if self.has(i) {
                n += 1;
            }
            i += 1;
        }
        n
    }
    fn one(&self) -> bool {
        self.bits & self.bits.wrapping_sub(1) == 0
    }
}

impl<V: Tok, const B: u32, const N: usize> VebTree for Leaf<V, B, N> {
    type Key = D<B>;
    type Value = V;
    fn from_monad(k: D<B>, v: V) -> Self {
        call();
        let mut vals = V::zero::<N>();
        *V::gm::<N>(&mut vals, k.0 as usize) = v;
        let mut bits = bit(k.0);
        unsafe {
            if HAVOC && core::mem::size_of::<V>() == 0 {
                bits = 0;
                let mut i = 0;
                while i < N {
                    if HC[i] != 0 {
                        bits |= bit(i as u8)
                    }
                    i += 1;
                }
            }
        }
        Leaf { bits, vals }
    }
    fn is_monad(&self) -> bool {
        call();
        self.one()
    }
    fn len_hint(&self) -> (usize, Option<usize>) {
        call();
        let n = self.count();
        let (lo, hi) = unsafe { SLACK };
        (n - lo, hi.map(|h| n + h))
    }
    fn into_monad(self) -> Result<TreeKV<Self>, Self> {
        call();
        if self.one() {
            let i = lowest(self.bits);
            Ok((D(i), *V::g::<N>(&self.vals, i as usize)))
        } else {
            Err(self)
        }
    }
    fn min_val(&self) -> KV<'_, V, B> {
        call();
        self.at(lowest(self.bits))
    }
    fn min_val_mut(&mut self) -> KVM<'_, V, B> {
        call();
        self.at_mut(lowest(self.bits))
    }
    fn max_val(&self) -> KV<'_, V, B> {
        call();
        self.at(highest(self.bits))
    }
    fn max_val_mut(&mut self) -> KVM<'_, V, B> {
        call();
        self.at_mut(highest(self.bits))
    }
    fn find<Q: Borrow<D<B>>>(&self, k: Q) -> Option<KV<'_, V, B>> {
        let k = k.borrow().0;
        call();
        heavy(true);
        if self.has(k) {
            Some(self.at(k))
        } else {
            None
        }
    }
    fn find_mut<Q: Borrow<D<B>>>(&mut self, k: Q) -> Option<KVM<'_, V, B>> {
        let k = k.borrow().0;
        call();
        heavy(true);
        if self.has(k) {
            Some(self.at_mut(k))
        } else {
            None
        }
    }
    // nothing below the query: the query is at most the minimum, which is O(1) to see
    fn predecessor<Q: Borrow<D<B>>>(&self, k: Q) -> Option<KV<'_, V, B>> {
        let b = self.bits & lower(k.borrow().0);
        call();
        heavy(b != 0);
        if b == 0 {
            None
        } else {
            Some(self.at(highest(b)))
        }
    }
    fn predecessor_mut<Q: Borrow<D<B>>>(&mut self, k: Q) -> Option<KVM<'_, V, B>> {
        let b = self.bits & lower(k.borrow().0);
        call();
        heavy(b != 0);
        if b == 0 {
            None
        } else {
            Some(self.at_mut(highest(b)))
        }
    }
    fn successor<Q: Borrow<D<B>>>(&self, k: Q) -> Option<KV<'_, V, B>> {
        let b = self.bits & upper(k.borrow().0);
        call();
        heavy(b != 0);
        if b == 0 {
            None
        } else {
            Some(self.at(lowest(b)))
        }
    }
    fn successor_mut<Q: Borrow<D<B>>>(&mut self, k: Q) -> Option<KVM<'_, V, B>> {
        let b = self.bits & upper(k.borrow().0);
        call();
        heavy(b != 0);
        if b == 0 {
            None
        } else {
            Some(self.at_mut(lowest(b)))
        }
    }
    fn insert(&mut self, k: D<B>, v: V) -> Option<TreeKV<Self>> {
        call();
        heavy(true);
        let old = *V::g::<N>(&self.vals, k.0 as usize);
        let was = self.has(k.0);
        *V::gm::<N>(&mut self.vals, k.0 as usize) = v;
        self.bits |= bit(k.0);
        if was {
            Some((k, old))
        } else {
            None
        }
    }
    // removing from a single element is O(1)
    fn remove<Q: Borrow<D<B>>>(self, k: Q) -> MaybeRemoveResult<Self> {
        let k = k.borrow().0;
        call();
        heavy(!self.one());
        if self.has(k) {
            Ok(self.take(k))
        } else {
            Err(self)
        }
    }
    fn remove_min(self) -> RemoveResult<Self> {
        call();
        heavy(!self.one());
        let i = lowest(self.bits);
        self.take(i)
    }
    fn remove_max(self) -> RemoveResult<Self> {
        call();
        heavy(!self.one());
        let i = highest(self.bits);
        self.take(i)
    }
}
impl<V: Tok, const B: u32, const N: usize> Oracle for Leaf<V, B, N> {
    type K = D<B>;
    type V = V;
    fn has(&self, k: D<B>) -> bool {
        self.bits >> k.0 & 1 == 1
    }
    fn val(&self, k: D<B>) -> V {
        *V::g::<N>(&self.vals, k.0 as usize)
    }
}

/// A collection holding one leaf per high digit (an empty leaf stands for "none").
#[derive(Clone)]
pub struct Coll<V: Tok, const B: u32, const N: usize> {
    pub ch: [Leaf<V, B, N>; N],
}
impl<V: Tok, const B: u32, const N: usize> Coll<V, B, N> {
    fn none(&self) -> bool {
        let mut i = 0;
        let mut b = 0;
        while i < N {
            b |= self.ch[i].bits;
            i += 1
        }
        b == 0
    }
}
impl<V: Tok, const B: u32, const N: usize> TreeCollection for Coll<V, B, N> {
    type Hi = D<B>;
    type Tree = Leaf<V, B, N>;
    fn create(h: &D<B>, t: Leaf<V, B, N>) -> Self {
        call();
        let mut c = Coll { ch: [Leaf::empty(); N] };
        unsafe {
            if HAVOC {
                let mut i = 0;
                while i < N {
                    let mut j = 0;
                    while j < N {
                        *V::gm::<N>(&mut c.ch[i].vals, j) = V::tag(((i as u8) << B) + j as u8);
                        j += 1;
                    }
                    c.ch[i].bits = HC[i];
                    i += 1;
                }
                return c;
            }
        }
        c.ch[h.0 as usize] = t;
        c
    }
    fn get(&self, h: &D<B>) -> Option<&Leaf<V, B, N>> {
        call();
        let l = &self.ch[h.0 as usize];
        if l.bits != 0 {
            Some(l)
        } else {
            None
        }
    }
    fn get_mut(&mut self, h: &D<B>) -> Option<&mut Leaf<V, B, N>> {
        call();
        let l = &mut self.ch[h.0 as usize];
        if l.bits != 0 {
            Some(l)
        } else {
            None
        }
    }
    fn insert_key(&mut self, h: D<B>, (l, v): (D<B>, V)) -> TreeInsertResult<Self> {
        call();
        let c = &mut self.ch[h.0 as usize];
        if c.bits == 0 {
            *c = Leaf::from_monad(l, v);
            Ok(h)
        } else {
            Err((h, c.insert(l, v)))
        }
    }
    fn remove_key<Q, R>(mut self, h: Q, r: R) -> TreeRemoveResult<Self>
    where
        Q: Borrow<D<B>>,
        R: FnOnce(Leaf<V, B, N>) -> RemoveResult<Leaf<V, B, N>>,
    {
        call();
        let i = h.borrow().0 as usize;
        assert!(self.ch[i].bits != 0, "tree removes from a sub-tree that does not exist");
        let (t, kv) = r(self.ch[i]);
        let e = t.is_none();
        self.ch[i] = match t {
            Some(t) => t,
            None => Leaf::empty(),
        };
        (if self.none() { None } else { Some((self, e)) }, kv)
    }
    fn maybe_remove_key<Q, R>(mut self, h: Q, r: R) -> TreeMaybeRemoveResult<Self>
    where
        Q: Borrow<D<B>>,
        R: FnOnce(Leaf<V, B, N>) -> MaybeRemoveResult<Leaf<V, B, N>>,
    {
        call();
        let i = h.borrow().0 as usize;
        if self.ch[i].bits == 0 {
            return Err(self);
        }
        match r(self.ch[i]) {
            Err(t) => {
                self.ch[i] = t;
                Err(self)
            }
            Ok((t, kv)) => {
                let e = t.is_none();
                self.ch[i] = match t {
                    Some(t) => t,
                    None => Leaf::empty(),
                };
                Ok((if self.none() { None } else { Some((self, e)) }, kv))
            }
        }
    }
}

pub struct LeafMk<const B: u32, const N: usize>;
impl<V: Tok, const B: u32, const N: usize> VebTreeMarker<D<B>, V> for LeafMk<B, N> {
    type Tree = Leaf<V, B, N>;
}
pub struct CollMk<const B: u32, const N: usize>;
impl<V: Tok, const B: u32, const N: usize> VebTreeCollectionMarker<K<B>, V> for CollMk<B, N> {
    type TreeCollection = Coll<V, B, N>;
}
/// The tree under test: the crate's `Tree` over the components above.
pub type T<V, const B: u32, const N: usize> = Tree<K<B>, V, LeafMk<B, N>, CollMk<B, N>>;

/// The content of such a tree: value of key k is `tag(k)`.
pub struct M<V, const B: u32, const N: usize> {
    pub bits: [u16; N],
    pub p: core::marker::PhantomData<V>,
}
impl<V: Tok, const B: u32, const N: usize> M<V, B, N> {
    pub fn none() -> Self {
        M { bits: [0; N], p: core::marker::PhantomData }
    }
    pub fn add(&mut self, k: u8) {
        self.bits[(k >> B) as usize] |= bit(k & ((1 << B) - 1));
    }
    pub fn count(&self) -> usize {
        let mut n = 0;
        let mut i = 0u32;
        while i < (N * N) as u32 {
            if self.has(K(i as u8)) {
                n += 1;
            }
            i += 1;
        }
        n
    }
}
impl<V: Tok, const B: u32, const N: usize> Oracle for M<V, B, N> {
    type K = K<B>;
    type V = V;
    fn has(&self, k: K<B>) -> bool {
        self.bits[(k.0 >> B) as usize] >> (k.0 & ((1 << B) - 1)) & 1 == 1
    }
    fn val(&self, k: K<B>) -> V {
        V::tag(k.0)
    }
}

/// A tree with arbitrary non-empty content over the whole key universe.
pub fn arb<V: Tok, const B: u32, const N: usize>() -> (T<V, B, N>, M<V, B, N>) {
    let kind = below(3);
    arb_kind(kind)
}
/// `kind`: 0 one entry, 1 two entries, 2 at least three.
pub fn arb_kind<V: Tok, const B: u32, const N: usize>(kind: u8) -> (T<V, B, N>, M<V, B, N>) {
    let K(a) = K::<B>::nd();
    let mut t = T::<V, B, N>::from_monad(K(a), V::tag(a));
    let mut m = M::none();
    m.add(a);
    if kind > 0 {
        let K(b) = K::<B>::nd();
        assume(a < b);
        t.insert(K(b), V::tag(b));
        m.add(b);
        if kind > 1 {
            let K(x) = K::<B>::nd();
            assume(a < x && x < b);
            let mut hc = [0u16; 16];
            let mut i = 0;
            while i < N {
                let mut c: u16 = any();
                let mut mask = 0u16;
                let mut j = 0;
                while j < N {
                    let k = (i << B) + j;
                    if k > a as usize && k < b as usize {
                        mask |= bit(j as u8)
                    }
                    j += 1;
                }
                c &= mask;
                hc[i] = c;
                m.bits[i] |= c;
                i += 1;
            }
            assume(hc[(x >> B) as usize] >> (x & ((1 << B) - 1)) & 1 == 1);
            #[cfg(kani)]
            {
                unsafe {
                    HC = hc;
                    HAVOC = true;
                }
                t.insert(K(x), V::tag(x));
                unsafe {
                    HAVOC = false;
                }
            }
            // natively (replay), the same content is reached by plain insertions
            #[cfg(not(kani))]
            for i in 0..(N * N) as u32 {
                let k = i as u8;
                if k != a && k != b && m.has(K(k)) {
                    t.insert(K(k), V::tag(k));
                }
            }
        }
    }
    unsafe {
        HEAVY = 0;
        CALLS = 0;
    }
    (t, m)
}
