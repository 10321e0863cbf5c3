//! Collections of sub-trees: the contract of `TreeCollection`, for every implementation.
use crate::nd::*;
use crate::suite::Key;
use crate::uni::*;
use veb_tree::collection::array::*;
use veb_tree::collection::*;
use veb_tree::key::*;
use veb_tree::*;

/// Sub-trees: sets of 2-bit digits with values.
pub type L = Leaf<u8, 2, 4>;

/// What a collection holds: up to `N` keys with their sub-trees; no bits stands for no sub-tree.
pub struct A<H, const N: usize> {
    pub k: [H; N],
    pub t: [L; N],
}
impl<H: Key, const N: usize> A<H, N> {
    pub fn at(&self, h: H) -> L {
        let mut i = 0;
        while i < N {
            if self.k[i] == h {
                return self.t[i];
            }
            i += 1;
        }
        L::empty()
    }
    /// The entry of `h`, or a free one (every harness leaves enough room).
    pub fn set(&mut self, h: H, t: L) {
        let mut free = N;
        let mut i = 0;
        while i < N {
            if self.k[i] == h {
                self.t[i] = t;
                return;
            }
            if self.t[i].bits == 0 {
                free = i;
            }
            i += 1;
        }
        self.k[free] = h;
        self.t[free] = t;
    }
    pub fn none(&self) -> bool {
        let mut i = 0;
        while i < N {
            if self.t[i].bits != 0 {
                return false;
            }
            i += 1;
        }
        true
    }
}
pub fn same(a: &L, b: &L) -> bool {
    let mut r = a.bits == b.bits;
    let mut i = 0;
    while i < 4 {
        if a.bits >> i & 1 == 1 && a.vals[i] != b.vals[i] {
            r = false;
        }
        i += 1;
    }
    r
}
pub fn agree<H: Key, C: TreeCollection<Hi = H, Tree = L>, const N: usize>(c: &C, a: &A<H, N>) {
    let x = H::nd();
    let want = a.at(x);
    match c.get(&x) {
        Some(t) => {
            assert!(want.bits != 0, "collection returned a sub-tree for an absent key");
            assert!(same(t, &want), "collection returned a wrong sub-tree");
        }
        None => assert!(want.bits == 0, "collection lost a sub-tree"),
    }
}
/// Up to `used` keys (at least one), arbitrary sub-trees, by public calls only.
pub fn state<H: Key, C: TreeCollection<Hi = H, Tree = L>, const N: usize>(used: usize) -> (C, A<H, N>) {
    let k0 = H::nd();
    let t0 = L::nd();
    let mut a = A { k: [k0; N], t: [L::empty(); N] };
    a.t[0] = t0;
    let mut c = C::create(&k0, t0);
    let mut i = 1;
    while i < used {
        if any() {
            let k = H::nd();
            assume(a.at(k).bits == 0);
            let t = L::nd();
            a.k[i] = k;
            a.t[i] = t;
            let l = lowest(t.bits);
            match c.insert_key(k, (D(l), t.vals[l as usize])) {
                Ok(h) => assert!(h == k, "insert reports another key"),
                Err(_) => panic!("insert reports a sub-tree that does not exist"),
            }
            match c.get_mut(&k) {
                Some(s) => *s = t,
                None => panic!("inserted sub-tree is missing"),
            }
        }
        i += 1;
    }
    (c, a)
}
/// One operation with arbitrary arguments: 0 insert_key, 1 remove_key, 2 maybe_remove_key,
/// 3 write through get_mut.
pub fn cstep<H: Key, C: TreeCollection<Hi = H, Tree = L>, const N: usize>(mut c: C, a: &mut A<H, N>, op: u8) -> Option<C> {
    let h = H::nd();
    let was = a.at(h);
    match op {
        0 => {
            let (l, v): (u8, u8) = (below(4), any());
            match c.insert_key(h, (D(l), v)) {
                Ok(k) => assert!(was.bits == 0 && k == h, "insert reports a new sub-tree wrongly"),
                Err((k, old)) => {
                    assert!(was.bits != 0 && k == h, "insert reports an existing sub-tree wrongly");
                    match old {
                        Some((d, ov)) => assert!(was.has(l) && d == D(l) && ov == was.vals[l as usize], "insert returned a wrong old entry"),
                        None => assert!(!was.has(l), "insert did not report the replaced entry"),
                    }
                }
            }
            let mut t = was;
            t.bits |= bit(l);
            t.vals[l as usize] = v;
            a.set(h, t);
            Some(c)
        }
        3 => {
            let t = L::nd();
            match c.get_mut(&h) {
                Some(s) => {
                    assert!(was.bits != 0 && same(s, &was), "collection returned a wrong sub-tree");
                    *s = t;
                    a.set(h, t);
                }
                None => assert!(was.bits == 0, "collection lost a sub-tree"),
            }
            Some(c)
        }
        _ => {
            let (r, l, (d, v)) = if op == 1 {
                assume(was.bits != 0);
                if any() {
                    let (r, kv) = c.remove_key(h, |t| t.remove_min());
                    (r, lowest(was.bits), kv)
                } else {
                    let (r, kv) = c.remove_key(&h, |t| t.remove_max());
                    (r, highest(was.bits), kv)
                }
            } else {
                let l = below(4);
                match c.maybe_remove_key(&h, |t| t.remove(D(l))) {
                    Err(c) => {
                        assert!(!was.has(l), "stored entry was not removed");
                        return Some(c);
                    }
                    Ok((r, kv)) => (r, l, kv),
                }
            };
            assert!(was.has(l) && d == D(l) && v == was.vals[l as usize], "removed entry is wrong");
            let mut t = was;
            t.bits &= !bit(l);
            if was.bits != 0 {
                a.set(h, t);
            }
            match r {
                None => {
                    assert!(a.none(), "collection vanished with sub-trees left");
                    None
                }
                Some((c, emptied)) => {
                    assert!(emptied == (t.bits == 0), "emptied flag is wrong");
                    assert!(!a.none(), "empty collection was kept");
                    Some(c)
                }
            }
        }
    }
}
pub fn contract<H: Key, C: TreeCollection<Hi = H, Tree = L>, const N: usize>(used: usize, op: u8, twice: bool) {
    let (c, mut a) = state::<H, C, N>(used);
    if let Some(c) = cstep(c, &mut a, op) {
        if twice {
            if let Some(c) = cstep(c, &mut a, below(4)) {
                agree(&c, &a);
                core::mem::forget(c);
            }
        } else {
            agree(&c, &a);
            core::mem::forget(c);
        }
    }
}
/// All four slots of a two-bit key, boxed slice.
pub mod boxed4 {
    use super::*;
    type C = ArrayTreeCollection<U2, Box<[Option<L>]>>;
    crate::coll_suite! { 10, U2, C, 4, 4 }
    pub mod chain {
        use super::*;
        crate::coll_chain! { 10, U2, C, 4, 4 }
    }
}
pub mod own4 {
    use super::*;
    type C = ArrayTreeCollection<D<2>, Box<[Option<L>]>>;
    crate::coll_suite! { 10, D<2>, C, 4, 4 }
    pub mod chain {
        use super::*;
        crate::coll_chain! { 10, D<2>, C, 4, 4 }
    }
}
pub mod generic4 {
    use super::*;
    type C = ArrayTreeCollection<U2, generic_array::GenericArray<Option<L>, typenum::U4>>;
    crate::coll_suite! { 10, U2, C, 4, 4 }
    pub mod chain {
        use super::*;
        crate::coll_chain! { 10, U2, C, 4, 4 }
    }
}
pub mod generic16 {
    use super::*;
    type C = ArrayTreeCollection<U4, generic_array::GenericArray<Option<L>, typenum::U16>>;
    crate::coll_suite! { 18, U4, C, 4, 2 }
    pub mod chain {
        use super::*;
        crate::coll_chain! { 18, U4, C, 4, 2 }
    }
}
/// A boxed collection.
pub mod boxed {
    use super::*;
    type C = Box<ArrayTreeCollection<U2, generic_array::GenericArray<Option<L>, typenum::U4>>>;
    crate::coll_suite! { 10, U2, C, 4, 4 }
}
pub mod boxed_own {
    use super::*;
    type C = Box<Coll<u8, 2, 4>>;
    crate::coll_suite! { 10, D<2>, C, 4, 4 }
}
/// The 256 slots of a byte and of a signed byte.
pub mod bytes {
    use super::*;
    type C = ArrayTreeCollection<u8, Box<[Option<L>]>>;
    crate::coll_suite! { 258, u8, C, 4, 2 }
}
pub mod signed {
    use super::*;
    type C = ArrayTreeCollection<i8, Box<[Option<L>]>>;
    crate::coll_suite! { 258, i8, C, 4, 2 }
}
/// Every slot of a byte in use.
pub mod full {
    use super::*;
    type C = ArrayTreeCollection<u8, Box<[Option<L>]>>;
    fn all() -> C {
        let mut c = C::create(&0, L::from_monad(D(0), 7));
        let mut i = 1;
        while i < 256 {
            let r = c.insert_key(i as u8, (D(0), 7));
            assert!(r.is_ok(), "insert reports a sub-tree that does not exist");
            i += 1;
        }
        c
    }
    crate::harness! {
        remove[258] {
            let h: u8 = any();
            let x: u8 = any();
            match all().remove_key(h, |t| t.remove_min()) {
                (Some((c, true)), _) => {
                    assert!(c.get(&x).is_some() == (x != h), "collection lost a sub-tree");
                    core::mem::forget(c);
                }
                _ => panic!("collection vanished with sub-trees left"),
            }
        }
    }
}
