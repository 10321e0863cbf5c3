//! Iteration: every interleaving of steps from the front and from the back.
#![allow(static_mut_refs)]
use crate::h_set::{set, Bits};
use crate::nd::*;
use crate::suite::*;
use crate::uni::*;
use core::borrow::Borrow;
use veb_tree::key::MaybeBorrowed;
use veb_tree::*;

type L16 = Leaf<u8, 4, 16>;
type L8 = Leaf<u8, 3, 8>;

/// `steps` arbitrary steps; each must yield the smallest / largest entry not yet yielded.
fn walk<V, O, F, B>(v: &V, o: &O, steps: usize, mut front: F, mut back: B)
where
    O: Oracle,
    V: VebTree<Key = O::K, Value = O::V>,
    F: FnMut() -> Option<O::K>,
    B: FnMut() -> Option<O::K>,
{
    let mut it = Iter::from(v);
    let mut i = 0;
    while i < steps {
        let is_front: bool = any();
        let (got, want) = if is_front { (it.next(), front()) } else { (it.next_back(), back()) };
        match (got, want) {
            (Some((k, x)), Some(w)) => assert!(*k == w && *x == o.val(w), "iteration is out of order"),
            (None, None) => {}
            (Some(_), None) => panic!("iteration yields an entry twice or one that is not stored"),
            (None, Some(_)) => panic!("iteration ended early"),
        }
        i += 1;
    }
}
/// Schedules over a small key universe, with a bit mask of what is left to yield.
fn walk_leaf<const B: u32, const N: usize>(steps: usize) {
    let l = Leaf::<u8, B, N>::nd();
    let left = core::cell::Cell::new(l.bits);
    let pop = |front: bool| {
        let b = left.get();
        if b == 0 {
            return None;
        }
        let k = if front { lowest(b) } else { highest(b) };
        left.set(b & !bit(k));
        Some(D(k))
    };
    walk(&l, &l, steps, || pop(true), || pop(false));
}
/// The bounds on the number of remaining entries hold before every step.
fn hints<V: VebTree>(v: &V, count: usize, exact: bool, steps: usize)
where
    V::Key: Clone,
{
    let mut it = Iter::from(v);
    let mut left = count;
    let mut i = 0;
    while i < steps {
        let (lo, hi) = it.size_hint();
        assert!(lo <= left, "lower bound of the size hint is too high");
        if let Some(hi) = hi {
            assert!(hi >= left, "upper bound of the size hint is too low");
        }
        if exact {
            assert!(lo == left && hi == Some(left), "size hint is not exact");
        }
        let got = if any() { it.next().is_some() } else { it.next_back().is_some() };
        if got {
            assert!(left > 0, "iteration yields too many entries");
            left -= 1;
        }
        i += 1;
    }
}
fn slack(count: usize) {
    let lo: bool = any();
    let hi = below(4);
    unsafe { SLACK = (lo as usize * (count - 1), if hi == 3 { None } else { Some(hi as usize * 5) }) }
}

/// The tree of the keys `0..n`, read only: long traversals at little cost.
pub struct Run(u16);
impl Run {
    fn at<T>(&self, k: i32, v: T) -> Option<(MaybeBorrowed<'_, u16>, T)> {
        if k >= 0 && k < self.0 as i32 {
            Some((MaybeBorrowed::Owned(k as u16), v))
        } else {
            None
        }
    }
}
static UNIT: () = ();
impl VebTree for Run {
    type Key = u16;
    type Value = ();
    fn from_monad(_: u16, _: ()) -> Self {
        Run(1)
    }
    fn is_monad(&self) -> bool {
        self.0 == 1
    }
    fn len_hint(&self) -> (usize, Option<usize>) {
        (self.0 as usize, Some(self.0 as usize))
    }
    fn into_monad(self) -> Result<(u16, ()), Self> {
        Err(self)
    }
    fn min_val(&self) -> (MaybeBorrowed<'_, u16>, &()) {
        (MaybeBorrowed::Owned(0), &UNIT)
    }
    fn min_val_mut(&mut self) -> (MaybeBorrowed<'_, u16>, &mut ()) {
        unreachable!()
    }
    fn max_val(&self) -> (MaybeBorrowed<'_, u16>, &()) {
        (MaybeBorrowed::Owned(self.0 - 1), &UNIT)
    }
    fn max_val_mut(&mut self) -> (MaybeBorrowed<'_, u16>, &mut ()) {
        unreachable!()
    }
    fn find<Q: Borrow<u16>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, u16>, &())> {
        self.at(*k.borrow() as i32, &UNIT)
    }
    fn find_mut<Q: Borrow<u16>>(&mut self, _: Q) -> Option<(MaybeBorrowed<'_, u16>, &mut ())> {
        unreachable!()
    }
    fn predecessor<Q: Borrow<u16>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, u16>, &())> {
        self.at(*k.borrow() as i32 - 1, &UNIT)
    }
    fn predecessor_mut<Q: Borrow<u16>>(&mut self, _: Q) -> Option<(MaybeBorrowed<'_, u16>, &mut ())> {
        unreachable!()
    }
    fn successor<Q: Borrow<u16>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, u16>, &())> {
        self.at(*k.borrow() as i32 + 1, &UNIT)
    }
    fn successor_mut<Q: Borrow<u16>>(&mut self, _: Q) -> Option<(MaybeBorrowed<'_, u16>, &mut ())> {
        unreachable!()
    }
    fn insert(&mut self, _: u16, _: ()) -> Option<(u16, ())> {
        unreachable!()
    }
    fn remove<Q: Borrow<u16>>(self, _: Q) -> MaybeRemoveResult<Self> {
        unreachable!()
    }
    fn remove_min(self) -> RemoveResult<Self> {
        unreachable!()
    }
    fn remove_max(self) -> RemoveResult<Self> {
        unreachable!()
    }
}
/// A traversal of 260 entries: 257 steps from one end, then four arbitrary ones.
fn long(mostly_front: bool) {
    let n = 260;
    let t = Run(n);
    let mut it = Iter::from(&t);
    let (mut lo, mut hi) = (0, n);
    let mut i = 0;
    while i < 261 {
        if i > 254 {
            assert!(it.size_hint() == ((hi - lo) as usize, Some((hi - lo) as usize)), "size hint is not exact");
        }
        let front = if i < 257 { mostly_front } else { any() };
        let want = if lo == hi {
            None
        } else if front {
            lo += 1;
            Some(lo - 1)
        } else {
            hi -= 1;
            Some(hi)
        };
        let got = if front { it.next() } else { it.next_back() };
        assert!(got.map(|e| *e.0) == want, "long iteration is out of order");
        i += 1;
    }
}

pub mod order {
    use super::*;
    crate::harness! {
        leaf8[12] { walk_leaf::<3, 8>(10) }
        leaf16[20] { walk_leaf::<4, 16>(6) }
        leaf16_all[20] { walk_leaf::<4, 16>(18) }
        bytes[34] {
            let b = Bits::frame(false);
            let s = set(&b);
            let left = core::cell::Cell::new(b);
            let pop = |front: bool| {
                let b = left.get();
                if b.0 == [0, 0] {
                    return None;
                }
                let k = match (front, b.0[0] != 0, b.0[1] != 0) {
                    (true, true, _) => b.0[0].trailing_zeros() as u8,
                    (true, false, _) => 128 + b.0[1].trailing_zeros() as u8,
                    (false, _, true) => 255 - b.0[1].leading_zeros() as u8,
                    (false, _, false) => 127 - b.0[0].leading_zeros() as u8,
                };
                let mut b = b;
                b.0[(k >> 7) as usize] &= !(1 << (k & 127));
                left.set(b);
                Some(k)
            };
            walk(&s, &b, 3, || pop(true), || pop(false));
        }
        tree[18] {
            let (t, m) = arb::<u8, 2, 4>();
            let left = core::cell::Cell::new(bits16(&m));
            let pop = |front: bool| {
                let b = left.get();
                if b == 0 {
                    return None;
                }
                let k = if front { lowest(b) } else { highest(b) };
                left.set(b & !bit(k));
                Some(K(k))
            };
            walk(&t, &m, 4, || pop(true), || pop(false));
            core::mem::forget(t);
        }
        long_front[266] { long(true) }
        long_back[266] { long(false) }
        // starting over gives the same entries
        restart[12] {
            let l = L8::nd();
            let mut a = Iter::from(&l);
            let mut i = below(10);
            while i > 0 {
                if any() { a.next(); } else { a.next_back(); }
                i -= 1;
            }
            let mut b = Iter::from(&l);
            assert!(*b.next().unwrap().0 == D(lowest(l.bits)), "a new iterator does not start at the minimum");
        }
    }
    fn bits16(m: &M<u8, 2, 4>) -> u16 {
        m.bits[0] | m.bits[1] << 4 | m.bits[2] << 8 | m.bits[3] << 12
    }
}
pub mod hint {
    use super::*;
    crate::harness! {
        loose8[12] { let l = L8::nd(); let n = l.count(); slack(n); hints(&l, n, false, 10) }
        loose16[20] { let l = L16::nd(); let n = l.count(); slack(n); hints(&l, n, false, 6) }
        sized[12] {
            let (s, l) = crate::h_sized::state();
            hints(&s, l.count(), true, 6);
        }
        exact_len[12] {
            let (s, l) = crate::h_sized::state();
            let mut it = Iter::from(&s);
            let mut n = l.count();
            let mut i = 0;
            while i < 5 {
                assert!(it.len() == n, "length of the iterator is wrong");
                let got = if any() { it.next().is_some() } else { it.next_back().is_some() };
                assert!(got == (n > 0), "iteration yields too many or too few entries");
                n = n.saturating_sub(1);
                i += 1;
            }
        }
        bytes[34] { let b = Bits::frame(false); let s = set(&b); hints(&s, b.len(), true, 3) }
        tree[18] { let (t, m) = arb::<u8, 2, 4>(); hints(&t, m.count(), false, 4); core::mem::forget(t) }
    }
}
