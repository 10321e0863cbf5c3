//! The byte-indexed map, both as a tree (values in a list) and as a collection of sub-trees.
//!
//! Under Kani the list is a zero-sized reference list whose content lives in statics, so that a
//! map with an arbitrary key set can be put together directly; its i-th element is recognisable as
//! the i-th. Natively the list is the real `VecDeque` and the map is filled by plain insertions.
#![allow(static_mut_refs)]

use crate::h_set::{build, Bits};
use crate::nd::*;
use crate::suite::*;
use crate::uni::*;
use veb_tree::bitset::*;
use veb_tree::collection::TreeCollection;
use veb_tree::VebTree;

#[cfg(kani)]
pub mod zl {
    use super::*;
    use core::num::NonZeroUsize;
    use veb_tree::{MaybeRemoveResult, RemoveResult};
    pub const CAP: usize = 260;
    #[derive(Clone, Copy)]
    pub enum Edit {
        No,
        Ins(usize, usize),
        Rem(usize),
    }
    pub static mut LEN: usize = 0;
    pub static mut EDITS: [Edit; 4] = [Edit::No; 4];
    pub static mut NEDITS: usize = 0;
    pub static mut NEW: usize = 0;
    const fn ids() -> [u8; CAP] {
        let mut a = [0; CAP];
        let mut i = 0;
        while i < CAP {
            a[i] = i as u8 ^ 0x55;
            i += 1;
        }
        a
    }
    const fn trees() -> [Tr; CAP] {
        let mut a = [Leaf { bits: 0, vals: [0; 4] }; CAP];
        let mut i = 0;
        while i < CAP {
            a[i] = Leaf { bits: 15, vals: [i as u16; 4] };
            i += 1;
        }
        a
    }
    pub static mut VALS: [u8; CAP] = ids();
    pub static mut TREES: [Tr; CAP] = trees();

    fn edit(e: Edit) {
        unsafe {
            EDITS[NEDITS] = e;
            NEDITS += 1;
        }
    }
    /// Which stored element is at position `i` now.
    pub fn id(mut i: usize) -> usize {
        unsafe {
            assert!(i < LEN, "list accessed past its end");
            let mut n = NEDITS;
            while n > 0 {
                n -= 1;
                match EDITS[n] {
                    Edit::No => {}
                    Edit::Ins(p, id) => {
                        if i == p {
                            return id;
                        }
                        if i > p {
                            i -= 1;
                        }
                    }
                    Edit::Rem(p) => {
                        if i >= p {
                            i += 1;
                        }
                    }
                }
            }
            i
        }
    }
    fn insert(i: usize) -> usize {
        unsafe {
            assert!(i <= LEN, "list insertion past its end");
            let id = CAP - 4 + NEW;
            NEW += 1;
            edit(Edit::Ins(i, id));
            LEN += 1;
            id
        }
    }
    fn delete(i: usize) -> usize {
        let id = id(i);
        unsafe {
            edit(Edit::Rem(i));
            LEN -= 1;
        }
        id
    }
    fn fresh() {
        unsafe {
            LEN = 0;
            NEDITS = 0;
        }
    }
    pub struct ZList;
    impl List for ZList {
        type Value = u8;
        fn from_monad(v: u8) -> Self {
            fresh();
            ZList.insert_value(0, v);
            ZList
        }
        fn len(&self) -> usize {
            unsafe { LEN }
        }
        fn get(&self, i: usize) -> &u8 {
            unsafe { &VALS[id(i)] }
        }
        fn get_mut(&mut self, i: usize) -> &mut u8 {
            unsafe { &mut VALS[id(i)] }
        }
        fn insert_value(&mut self, i: usize, v: u8) {
            let n = insert(i);
            unsafe { VALS[n] = v }
        }
        fn remove_value(self, i: usize) -> (Option<Self>, u8) {
            let n = delete(i);
            unsafe { (if LEN == 0 { None } else { Some(self) }, VALS[n]) }
        }
    }
    pub struct ZTrees;
    impl TreeList for ZTrees {
        type Tree = Tr;
        fn from_monad(v: Tr) -> Self {
            fresh();
            ZTrees.insert_tree(0, v);
            ZTrees
        }
        fn len(&self) -> NonZeroUsize {
            unsafe { NonZeroUsize::new(LEN).unwrap() }
        }
        fn get(&self, i: usize) -> &Tr {
            unsafe { &TREES[id(i)] }
        }
        fn get_mut(&mut self, i: usize) -> &mut Tr {
            unsafe { &mut TREES[id(i)] }
        }
        fn insert_tree(&mut self, i: usize, v: Tr) {
            let n = insert(i);
            unsafe { TREES[n] = v }
        }
        fn remove_key<F>(self, i: usize, f: F) -> (Option<(Self, bool)>, (D<2>, u16))
        where
            F: FnOnce(Tr) -> RemoveResult<Tr>,
        {
            let n = id(i);
            let (t, kv) = f(unsafe { TREES[n] });
            match t {
                Some(t) => {
                    unsafe { TREES[n] = t }
                    (Some((self, false)), kv)
                }
                None => {
                    delete(i);
                    (if unsafe { LEN } == 0 { None } else { Some((self, true)) }, kv)
                }
            }
        }
        fn maybe_remove_key<F>(self, i: usize, f: F) -> Result<(Option<(Self, bool)>, (D<2>, u16)), Self>
        where
            F: FnOnce(Tr) -> MaybeRemoveResult<Tr>,
        {
            let n = id(i);
            match f(unsafe { TREES[n] }) {
                Err(t) => {
                    unsafe { TREES[n] = t }
                    Err(self)
                }
                Ok((Some(t), kv)) => {
                    unsafe { TREES[n] = t }
                    Ok((Some((self, false)), kv))
                }
                Ok((None, kv)) => {
                    delete(i);
                    Ok((if unsafe { LEN } == 0 { None } else { Some((self, true)) }, kv))
                }
            }
        }
    }
}

/// Sub-trees of the collection view: sets of 2-bit digits with 16-bit values.
pub type Tr = Leaf<u16, 2, 4>;
#[cfg(kani)]
pub type VL = zl::ZList;
#[cfg(kani)]
pub type TL = zl::ZTrees;
#[cfg(not(kani))]
pub type VL = std::collections::VecDeque<u8>;
#[cfg(not(kani))]
pub type TL = std::collections::VecDeque<Tr>;

/// Contents of a byte map: the i-th smallest key carries value `i ^ 0x55`.
pub struct MapO(pub Bits);
impl Oracle for MapO {
    type K = u8;
    type V = u8;
    fn has(&self, k: u8) -> bool {
        self.0.get(k)
    }
    fn val(&self, k: u8) -> u8 {
        self.0.rank(k) as u8 ^ 0x55
    }
}
pub fn map(dense: bool) -> (ByteMap<VL>, MapO) {
    let o = MapO(Bits::frame(dense));
    #[cfg(kani)]
    if core::mem::size_of::<ByteMap<VL>>() == 32 {
        unsafe {
            zl::LEN = o.0.len();
            zl::NEDITS = 0;
            return (core::mem::transmute_copy(&o.0 .0), o);
        }
    }
    let m = build(&o.0, |k| ByteMap::from_monad(k, o.val(k)), |m: &mut ByteMap<VL>, k| {
        m.insert(k, o.val(k));
    });
    (m, o)
}

impl MapO {
    pub fn count(&self) -> usize {
        self.0.len()
    }
}
/// Key sets sparse in / dense outside the frame.
pub mod sparse {
    use super::*;
    crate::tree_suite! { 34, ByteMap<VL>, map(false), false }
}
pub mod dense {
    use super::*;
    crate::tree_suite! { 34, ByteMap<VL>, map(true), false }
}

/// The byte map as a collection of sub-trees.
macro_rules! colls { ($m:ident, $dense:literal) => {
pub mod $m {
    use super::*;
    type C = ByteMap<TL>;
    /// Sub-tree of rank `i`: all four digits present, every value `i`, except that the sub-tree of
    /// the key under test has arbitrary digits.
    pub struct CO {
        pub b: Bits,
        pub h: u8,
        pub bits: u16,
    }
    impl CO {
        pub fn tree(&self, h: u8) -> Tr {
            Leaf { bits: if h == self.h { self.bits } else { 15 }, vals: [self.b.rank(h) as u16; 4] }
        }
        pub fn check(&self, h: u8, t: Option<&Tr>) {
            match t {
                Some(t) => {
                    assert!(self.b.get(h), "collection returned a sub-tree for an absent key");
                    let e = self.tree(h);
                    assert!(t.bits == e.bits && t.vals == e.vals, "collection returned another key's sub-tree");
                }
                None => assert!(!self.b.get(h), "collection lost a sub-tree"),
            }
        }
    }
    /// An arbitrary collection, and an arbitrary key to operate on.
    pub fn coll(dense: bool) -> (C, CO) {
        let o = CO { b: Bits::frame(dense), h: any(), bits: 1 + below(15) as u16 };
        #[cfg(kani)]
        if core::mem::size_of::<C>() == 32 {
            unsafe {
                zl::LEN = o.b.len();
                zl::NEDITS = 0;
                if o.b.get(o.h) {
                    zl::TREES[o.b.rank(o.h)].bits = o.bits;
                }
                return (core::mem::transmute_copy(&o.b.0), o);
            }
        }
        let c = build(&o.b, |h| C::create(&h, o.tree(h)), |c: &mut C, h| {
            let _ = c.insert_key(h, (D(0), 0));
            *c.get_mut(&h).unwrap() = o.tree(h);
        });
        (c, o)
    }
    fn with(mut b: Bits, h: u8, on: bool) -> Bits {
        let w = (h >> 7) as usize;
        b.0[w] &= !(1u128 << (h & 127));
        if on {
            b.0[w] |= 1u128 << (h & 127);
        }
        b
    }
    /// All other keys still have their own sub-tree.
    fn others(c: &C, o: &CO, x: u8) {
        assume(x != o.h);
        o.check(x, c.get(&x));
    }
    crate::harness! {
        create[34] {
            let (h, x): (u8, u8) = (any(), any());
            let t = Leaf { bits: 1 + below(15) as u16, vals: [any(), any(), any(), any()] };
            let c = C::create(&h, t);
            match c.get(&x) {
                Some(g) => assert!(x == h && g.bits == t.bits && g.vals == t.vals, "created collection is wrong"),
                None => assert!(x != h, "created collection lost its sub-tree"),
            }
        }
        get[34] {
            let (c, o) = coll($dense);
            let x: u8 = any();
            o.check(x, c.get(&x));
        }
        get_mut[34] {
            let (mut c, o) = coll($dense);
            let (x, v): (u8, u16) = (any(), any());
            match c.get_mut(&o.h) {
                Some(t) => { o.check(o.h, Some(t)); t.vals[0] = v }
                None => assert!(!o.b.get(o.h), "collection lost a sub-tree"),
            }
            match c.get(&x) {
                Some(t) if x == o.h => assert!(t.vals[0] == v, "write to a sub-tree was lost"),
                g => o.check(x, g),
            }
        }
        insert_key[34] {
            let (mut c, o) = coll($dense);
            let (l, v, x): (u8, u16, u8) = (below(4), any(), any());
            let was = o.b.get(o.h);
            let e = o.tree(o.h);
            match c.insert_key(o.h, (D(l), v)) {
                Ok(h) => assert!(!was && h == o.h, "insert reports a new sub-tree wrongly"),
                Err((h, old)) => {
                    assert!(was && h == o.h, "insert reports an existing sub-tree wrongly");
                    match old {
                        Some((k, ov)) => assert!(e.has(l) && k == D(l) && ov == e.vals[l as usize], "insert returned a wrong old entry"),
                        None => assert!(!e.has(l), "insert did not report the replaced entry"),
                    }
                }
            }
            match c.get(&o.h) {
                Some(t) => {
                    assert!(t.bits == if was { e.bits | bit(l) } else { bit(l) }, "inserted into a wrong sub-tree");
                    assert!(t.vals[l as usize] == v, "inserted value is wrong");
                }
                None => panic!("inserted sub-tree is missing"),
            }
            others(&c, &o, x);
        }
        remove_key[34] {
            let (c, mut o) = coll($dense);
            assume(o.b.get(o.h));
            let (x, min): (u8, bool) = (any(), any());
            let e = o.tree(o.h);
            let l = if min { lowest(e.bits) } else { highest(e.bits) };
            let (r, (k, v)) = if min { c.remove_key(o.h, |t| t.remove_min()) } else { c.remove_key(&o.h, |t| t.remove_max()) };
            assert!(k == D(l) && v == e.vals[l as usize], "removed entry is wrong");
            after(r, &mut o, x, e.bits & !bit(l));
        }
        maybe_remove_key[34] {
            let (c, mut o) = coll($dense);
            let (x, l): (u8, u8) = (any(), below(4));
            let was = o.b.get(o.h);
            let e = o.tree(o.h);
            match c.maybe_remove_key(o.h, |t| t.remove(D(l))) {
                Err(c) => {
                    assert!(!was || !e.has(l), "stored entry was not removed");
                    o.check(o.h, c.get(&o.h));
                    others(&c, &o, x);
                }
                Ok((r, (k, v))) => {
                    assert!(was && e.has(l), "removed an absent entry");
                    assert!(k == D(l) && v == e.vals[l as usize], "removed entry is wrong");
                    after(r, &mut o, x, e.bits & !bit(l));
                }
            }
        }
    }
    fn after(r: Option<(C, bool)>, o: &mut CO, x: u8, bits: u16) {
        match r {
            None => {
                let left = with(o.b, o.h, bits != 0);
                assert!(left.0[0] == 0 && left.0[1] == 0, "collection vanished with sub-trees left");
            }
            Some((c, emptied)) => {
                assert!(emptied == (bits == 0), "emptied flag is wrong");
                match c.get(&o.h) {
                    Some(t) => assert!(t.bits == bits && bits != 0, "sub-tree is wrong after removal"),
                    None => assert!(bits == 0, "sub-tree vanished"),
                }
                let left = with(o.b, o.h, bits != 0);
                assert!(left.0[0] != 0 || left.0[1] != 0, "empty collection was kept");
                others(&c, o, x);
            }
        }
    }
}
} }
colls!(coll, false);
colls!(coll_dense, true);
