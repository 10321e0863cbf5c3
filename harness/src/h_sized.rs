//! The size-remembering wrapper.
#![allow(static_mut_refs)]
use crate::nd::*;
use crate::suite::*;
use crate::uni::*;
use core::borrow::Borrow;
use veb_tree::key::MaybeBorrowed;
use veb_tree::*;

type L = Leaf<u8, 2, 4>;
type S = SizedVebTree<L>;
pub fn state() -> (S, L) {
    let l = L::nd();
    let k = below(4);
    assume(l.has(k));
    let mut s = S::from_monad(D(k), l.vals[k as usize]);
    let mut i = 0;
    while i < 4 {
        if i != k && l.has(i) {
            s.insert(D(i), l.vals[i as usize]);
        }
        i += 1;
    }
    (s, l)
}
crate::tree_suite! { 10, S, state(), true }
pub mod chain {
    use super::*;
    crate::chain_suite! { 10, S, state(), &[0, 0, 4] }
}

fn sized<V: VebTree>(s: &SizedVebTree<V>, n: usize) {
    assert!(s.len().get() == n, "len is wrong");
    assert!(s.len_hint() == (n, Some(n)), "size bounds are not exact");
    assert!(s.is_monad() == (n == 1), "single-element test is wrong");
}
fn size_of(o: &impl Oracle<K = D<2>>) -> usize {
    (0..4).filter(|i| o.has(D(*i))).count()
}

/// The size after one and after two mutations.
pub mod len {
    use super::*;
    fn two(first: u8) {
        let (s, l) = state();
        sized(&s, l.count());
        if let Some((s, c)) = step(s, &l, first) {
            let o = Over { base: &l, ins: c.ins, del: c.del };
            sized(&s, size_of(&o));
            if let Some((s, c)) = step(s, &o, below(4)) {
                let o = Over { base: &o, ins: c.ins, del: c.del };
                sized(&s, size_of(&o));
            }
        }
    }
    crate::harness! {
        fresh[10] { sized(&S::from_monad(D(below(4)), any()), 1) }
        insert[10] { two(0) }
        remove[10] { two(1) }
        remove_min[10] { two(2) }
        remove_max[10] { two(3) }
        monad[10] {
            let (s, l) = state();
            match s.into_monad() {
                Ok(_) => assert!(l.count() == 1, "several elements converted into one"),
                Err(s) => sized(&s, l.count()),
            }
        }
        writes[10] {
            let (mut s, l) = state();
            let q = D::<2>::nd();
            match below(5) {
                0 => { if let Some((_, v)) = s.find_mut(q) { *v = any() } }
                1 => { if let Some((_, v)) = s.predecessor_mut(q) { *v = any() } }
                2 => { if let Some((_, v)) = s.successor_mut(q) { *v = any() } }
                3 => { *s.min_val_mut().1 = any() }
                _ => { *s.max_val_mut().1 = any() }
            }
            sized(&s, l.count());
        }
    }
}

/// A tree of which only the number of elements is modelled; it is not stored anywhere in the
/// tree, so that a wrapper of any size can be put together. Keys: the number itself tells whether
/// an operation hits a stored key.
pub struct Huge;
pub static mut COUNT: usize = 0;
static mut UNIT: () = ();
fn hit() -> bool {
    any()
}
impl VebTree for Huge {
    type Key = u8;
    type Value = ();
    fn from_monad(_: u8, _: ()) -> Self {
        unsafe { COUNT = 1 };
        Huge
    }
    fn is_monad(&self) -> bool {
        unsafe { COUNT == 1 }
    }
    fn len_hint(&self) -> (usize, Option<usize>) {
        (1, None)
    }
    fn into_monad(self) -> Result<(u8, ()), Self> {
        if self.is_monad() { Ok((0, ())) } else { Err(self) }
    }
    fn min_val(&self) -> (MaybeBorrowed<'_, u8>, &()) {
        (MaybeBorrowed::Owned(0), &())
    }
    fn min_val_mut(&mut self) -> (MaybeBorrowed<'_, u8>, &mut ()) {
        (MaybeBorrowed::Owned(0), unsafe { &mut UNIT })
    }
    fn max_val(&self) -> (MaybeBorrowed<'_, u8>, &()) {
        (MaybeBorrowed::Owned(0), &())
    }
    fn max_val_mut(&mut self) -> (MaybeBorrowed<'_, u8>, &mut ()) {
        (MaybeBorrowed::Owned(0), unsafe { &mut UNIT })
    }
    fn find<Q: Borrow<u8>>(&self, _: Q) -> Option<(MaybeBorrowed<'_, u8>, &())> {
        None
    }
    fn find_mut<Q: Borrow<u8>>(&mut self, _: Q) -> Option<(MaybeBorrowed<'_, u8>, &mut ())> {
        None
    }
    fn predecessor<Q: Borrow<u8>>(&self, _: Q) -> Option<(MaybeBorrowed<'_, u8>, &())> {
        None
    }
    fn predecessor_mut<Q: Borrow<u8>>(&mut self, _: Q) -> Option<(MaybeBorrowed<'_, u8>, &mut ())> {
        None
    }
    fn successor<Q: Borrow<u8>>(&self, _: Q) -> Option<(MaybeBorrowed<'_, u8>, &())> {
        None
    }
    fn successor_mut<Q: Borrow<u8>>(&mut self, _: Q) -> Option<(MaybeBorrowed<'_, u8>, &mut ())> {
        None
    }
    fn insert(&mut self, k: u8, _: ()) -> Option<(u8, ())> {
        if FILL.with_flag() || !hit() {
            unsafe { COUNT += 1 };
            None
        } else {
            Some((k, ()))
        }
    }
    fn remove<Q: Borrow<u8>>(self, k: Q) -> MaybeRemoveResult<Self> {
        if hit() {
            Ok(take(*k.borrow()))
        } else {
            Err(self)
        }
    }
    fn remove_min(self) -> RemoveResult<Self> {
        take(0)
    }
    fn remove_max(self) -> RemoveResult<Self> {
        take(255)
    }
}
fn take(k: u8) -> RemoveResult<Huge> {
    unsafe {
        COUNT -= 1;
        (if COUNT == 0 { None } else { Some(Huge) }, (k, ()))
    }
}
struct Fill;
/// While set, every insertion is of a new key.
static mut FILLING: bool = false;
const FILL: Fill = Fill;
impl Fill {
    fn with_flag(&self) -> bool {
        unsafe { FILLING }
    }
}
fn fill(n: usize) -> SizedVebTree<Huge> {
    let mut s = SizedVebTree::<Huge>::from_monad(0, ());
    unsafe { FILLING = true };
    let mut i = 1;
    while i < n {
        s.insert(0, ());
        i += 1;
    }
    unsafe { FILLING = false };
    s
}
const MOST: usize = 100_000;
/// A wrapper around any number of elements up to `MOST`.
fn huge() -> SizedVebTree<Huge> {
    #[cfg(kani)]
    if core::mem::size_of::<SizedVebTree<Huge>>() == core::mem::size_of::<usize>() {
        let n: usize = any();
        assume(n >= 1 && n <= MOST);
        unsafe {
            COUNT = n;
            let s: SizedVebTree<Huge> = core::mem::transmute_copy(&n);
            return s;
        }
    }
    // replay, or a wrapper of another shape
    let n: usize = any();
    #[cfg(kani)]
    assume(n >= 1 && n <= 8);
    #[cfg(not(kani))]
    let n = if queue::seeded() { 1 + n % 1000 } else { n };
    assume(n >= 1 && n <= MOST);
    fill(n)
}
pub mod many {
    use super::*;
    fn left(s: Option<SizedVebTree<Huge>>) {
        match s {
            Some(s) => sized(&s, unsafe { COUNT }),
            None => assert!(unsafe { COUNT } == 0, "tree vanished with elements left"),
        }
    }
    crate::harness! {
        kept[10] { sized(&huge(), unsafe { COUNT }) }
        insert[10] { let mut s = huge(); s.insert(any(), ()); left(Some(s)) }
        remove[10] {
            left(match huge().remove(any::<u8>()) { Ok((s, _)) => s, Err(s) => Some(s) })
        }
        remove_min[10] { left(huge().remove_min().0) }
        remove_max[10] { left(huge().remove_max().0) }
        monad[10] {
            match huge().into_monad() {
                Ok(_) => assert!(unsafe { COUNT } == 1, "several elements converted into one"),
                Err(s) => left(Some(s)),
            }
        }
        // concrete number of insertions by public calls only
        filled[302] { left(Some(fill(300))) }
    }
}
