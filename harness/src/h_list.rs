//! Rank-indexed lists: of values (`List`) and of sub-trees (`TreeList`).
use crate::nd::*;
use crate::uni::*;
use veb_tree::bitset::{List, ListMarker, TreeList, TreeListMarker, VecDequeMarker};
use veb_tree::VebTree;

/// Longest list before the operation; the container model holds six.
const MAX: usize = 4;
type L = Leaf<u8, 2, 4>;

pub mod values {
    use super::*;
    type V = <VecDequeMarker as ListMarker<u8>>::List;
    fn state() -> (V, [u8; 6], usize) {
        let mut a = [0; 6];
        a[0] = any();
        let mut l = <V as List>::from_monad(a[0]);
        let n = 1 + below(MAX as u16) as usize;
        let mut i = 1;
        while i < MAX {
            if i < n {
                a[i] = any();
                List::insert_value(&mut l, i, a[i]);
            }
            i += 1;
        }
        (l, a, n)
    }
    fn agree(l: &V, a: &[u8; 6], n: usize) {
        assert!(List::len(l) == n, "list length is wrong");
        assert!(!List::is_empty(l), "non-empty list says it is empty");
        let i = below(6) as usize;
        if i < n {
            assert!(*List::get(l, i) == a[i], "list element is wrong");
        }
    }
    fn put(a: &mut [u8; 6], n: usize, at: usize, v: u8) {
        let mut i = n;
        while i > at {
            a[i] = a[i - 1];
            i -= 1;
        }
        a[at] = v;
    }
    fn cut(a: &mut [u8; 6], n: usize, at: usize) {
        let mut i = at;
        while i + 1 < n {
            a[i] = a[i + 1];
            i += 1;
        }
    }
    fn step(mut l: V, a: &mut [u8; 6], n: usize, op: u8) -> Option<(V, usize)> {
        match op {
            0 => {
                let (at, v) = (below(n as u16 + 1) as usize, any());
                List::insert_value(&mut l, at, v);
                put(a, n, at, v);
                Some((l, n + 1))
            }
            1 => {
                let at = below(n as u16) as usize;
                let (r, v) = List::remove_value(l, at);
                assert!(v == a[at], "removed another element");
                cut(a, n, at);
                assert!(r.is_none() == (n == 1), "list vanished or stayed wrongly");
                r.map(|l| (l, n - 1))
            }
            _ => {
                let (at, v) = (below(n as u16) as usize, any());
                let s = List::get_mut(&mut l, at);
                assert!(*s == a[at], "list element is wrong");
                *s = v;
                a[at] = v;
                Some((l, n))
            }
        }
    }
    fn op(op: u8, twice: bool) {
        let (l, mut a, n) = state();
        if let Some((l, n)) = step(l, &mut a, n, op) {
            if twice {
                if let Some((l, n)) = step(l, &mut a, n, below(3)) {
                    agree(&l, &a, n);
                }
            } else {
                agree(&l, &a, n);
            }
        }
    }
    crate::harness! {
        get[8] { let (l, a, n) = state(); agree(&l, &a, n) }
        insert[8] { op(0, false) }
        remove[8] { op(1, false) }
        get_mut[8] { op(2, false) }
        insert_any[8] { op(0, true) }
        remove_any[8] { op(1, true) }
    }
}

pub mod trees {
    use super::*;
    use crate::h_coll::same;
    type V = <VecDequeMarker as TreeListMarker<L>>::List;
    fn state() -> (V, [L; 6], usize) {
        let mut a = [L::empty(); 6];
        a[0] = L::nd();
        let mut l = <V as TreeList>::from_monad(a[0]);
        let n = 1 + below(MAX as u16) as usize;
        let mut i = 1;
        while i < MAX {
            if i < n {
                a[i] = L::nd();
                TreeList::insert_tree(&mut l, i, a[i]);
            }
            i += 1;
        }
        (l, a, n)
    }
    fn agree(l: &V, a: &[L; 6], n: usize) {
        assert!(TreeList::len(l).get() == n, "list length is wrong");
        let i = below(6) as usize;
        if i < n {
            assert!(same(TreeList::get(l, i), &a[i]), "list element is wrong");
        }
    }
    /// `t` is what is left of the element at `at`.
    fn left(a: &mut [L; 6], n: usize, at: usize, t: L) -> usize {
        a[at] = t;
        if t.bits != 0 {
            return n;
        }
        let mut i = at;
        while i + 1 < n {
            a[i] = a[i + 1];
            i += 1;
        }
        n - 1
    }
    fn step(mut l: V, a: &mut [L; 6], n: usize, op: u8) -> Option<(V, usize)> {
        if op == 0 {
            let (at, t) = (below(n as u16 + 1) as usize, L::nd());
            TreeList::insert_tree(&mut l, at, t);
            let mut i = n;
            while i > at {
                a[i] = a[i - 1];
                i -= 1;
            }
            a[at] = t;
            return Some((l, n + 1));
        }
        let at = below(n as u16) as usize;
        let was = a[at];
        if op == 3 {
            let t = L::nd();
            let s = TreeList::get_mut(&mut l, at);
            assert!(same(s, &was), "list element is wrong");
            *s = t;
            a[at] = t;
            return Some((l, n));
        }
        let (r, (k, v), d) = if op == 1 {
            if any() {
                let (r, e) = TreeList::remove_key(l, at, |t| t.remove_min());
                (r, e, lowest(was.bits))
            } else {
                let (r, e) = TreeList::remove_key(l, at, |t| t.remove_max());
                (r, e, highest(was.bits))
            }
        } else {
            let d = below(4);
            match TreeList::maybe_remove_key(l, at, |t| t.remove(D(d))) {
                Err(l) => {
                    assert!(!was.has(d), "stored entry was not removed");
                    return Some((l, n));
                }
                Ok((r, e)) => (r, e, d),
            }
        };
        assert!(was.has(d) && k == D(d) && v == was.vals[d as usize], "removed entry is wrong");
        let mut t = was;
        t.bits &= !bit(d);
        let m = left(a, n, at, t);
        match r {
            None => {
                assert!(m == 0, "list vanished with elements left");
                None
            }
            Some((l, gone)) => {
                assert!(m > 0, "empty list was kept");
                assert!(gone == (t.bits == 0), "dropped flag is wrong");
                Some((l, m))
            }
        }
    }
    fn op(op: u8, twice: bool) {
        let (l, mut a, n) = state();
        if let Some((l, n)) = step(l, &mut a, n, op) {
            if twice {
                if let Some((l, n)) = step(l, &mut a, n, below(4)) {
                    agree(&l, &a, n);
                }
            } else {
                agree(&l, &a, n);
            }
        }
    }
    crate::harness! {
        get[8] { let (l, a, n) = state(); agree(&l, &a, n) }
        insert[8] { op(0, false) }
        remove[8] { op(1, false) }
        maybe_remove[8] { op(2, false) }
        get_mut[8] { op(3, false) }
        insert_any[8] { op(0, true) }
        remove_any[8] { op(1, true) }
        maybe_remove_any[8] { op(2, true) }
    }
}
