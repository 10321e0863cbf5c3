//! The documented behaviour of a `VebTree`, written once as assertions over symbolic queries and
//! applied to every implementation. `Oracle` is the mathematical map the tree is supposed to be.

use crate::nd::*;
use veb_tree::key::{MaybeBorrowed, U2, U4};
use veb_tree::VebTree;

pub trait Key: Copy + Ord {
    fn nd() -> Self;
}
macro_rules! keys { ($($t:ty)*) => { $( impl Key for $t { fn nd() -> Self { any() } } )* } }
keys! { u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 }
impl Key for U2 {
    fn nd() -> Self {
        U2::from(below(4))
    }
}
impl Key for U4 {
    fn nd() -> Self {
        U4::from(below(16))
    }
}
impl Key for () {
    fn nd() {}
}
impl<A: Key, const N: usize> Key for [A; N] {
    fn nd() -> Self {
        core::array::from_fn(|_| A::nd())
    }
}

pub trait Val: Copy + PartialEq {
    fn nd() -> Self;
}
impl Val for () {
    fn nd() {}
}
impl Val for u8 {
    fn nd() -> u8 {
        any()
    }
}
impl Val for u16 {
    fn nd() -> u16 {
        any()
    }
}

/// The map a tree must behave like.
pub trait Oracle {
    type K: Key;
    type V: Val;
    fn has(&self, k: Self::K) -> bool;
    fn val(&self, k: Self::K) -> Self::V;
}

/// `base` with at most one key (re)bound and at most one key dropped.
pub struct Over<'a, O: Oracle> {
    pub base: &'a O,
    pub ins: Option<(O::K, O::V)>,
    pub del: Option<O::K>,
}
impl<'a, O: Oracle> Oracle for Over<'a, O> {
    type K = O::K;
    type V = O::V;
    fn has(&self, k: O::K) -> bool {
        if let Some((i, _)) = self.ins {
            if i == k {
                return true;
            }
        }
        if let Some(d) = self.del {
            if d == k {
                return false;
            }
        }
        self.base.has(k)
    }
    fn val(&self, k: O::K) -> O::V {
        if let Some((i, v)) = self.ins {
            if i == k {
                return v;
            }
        }
        self.base.val(k)
    }
}

type E<K, V> = Option<(K, V)>;

fn ent<K: Copy, V: Copy>(r: Option<(MaybeBorrowed<'_, K>, &V)>) -> E<K, V> {
    match r {
        Some((k, v)) => Some((*k, *v)),
        None => None,
    }
}

/// `r` is the entry stored under `k`.
pub fn is_find<O: Oracle>(o: &O, k: O::K, r: E<O::K, O::V>) {
    match r {
        Some((kk, v)) => {
            assert!(o.has(k), "lookup found a key that is not stored");
            assert!(kk == k, "lookup returned another key");
            assert!(v == o.val(k), "lookup returned a wrong value");
        }
        None => assert!(!o.has(k), "lookup missed a stored key"),
    }
}
/// `r` is the entry of the smallest key.
pub fn is_min<O: Oracle>(o: &O, w: O::K, (k, v): (O::K, O::V)) {
    assert!(o.has(k), "minimum is not stored");
    assert!(!(o.has(w) && w < k), "minimum is not the smallest key");
    assert!(v == o.val(k), "minimum has a wrong value");
}
/// `r` is the entry of the largest key.
pub fn is_max<O: Oracle>(o: &O, w: O::K, (k, v): (O::K, O::V)) {
    assert!(o.has(k), "maximum is not stored");
    assert!(!(o.has(w) && w > k), "maximum is not the largest key");
    assert!(v == o.val(k), "maximum has a wrong value");
}
/// `r` is the entry of the largest key below `q`.
pub fn is_pred<O: Oracle>(o: &O, q: O::K, w: O::K, r: E<O::K, O::V>) {
    match r {
        Some((k, v)) => {
            assert!(k < q, "predecessor is not below the query");
            assert!(o.has(k), "predecessor is not stored");
            assert!(!(o.has(w) && k < w && w < q), "predecessor skipped a key");
            assert!(v == o.val(k), "predecessor has a wrong value");
        }
        None => assert!(!(o.has(w) && w < q), "predecessor missed a key"),
    }
}
/// `r` is the entry of the smallest key above `q`.
pub fn is_succ<O: Oracle>(o: &O, q: O::K, w: O::K, r: E<O::K, O::V>) {
    match r {
        Some((k, v)) => {
            assert!(k > q, "successor is not above the query");
            assert!(o.has(k), "successor is not stored");
            assert!(!(o.has(w) && q < w && w < k), "successor skipped a key");
            assert!(v == o.val(k), "successor has a wrong value");
        }
        None => assert!(!(o.has(w) && w > q), "successor missed a key"),
    }
}

pub fn obs_find<T, O>(t: &T, o: &O)
where
    O: Oracle,
    T: VebTree<Key = O::K, Value = O::V>,
{
    let q = O::K::nd();
    is_find(o, q, ent(t.find(q)));
}

/// Every ordered query, for all query keys `q` and all witnesses `w`.
pub fn obs_order<T, O>(t: &T, o: &O)
where
    O: Oracle,
    T: VebTree<Key = O::K, Value = O::V>,
{
    let q = O::K::nd();
    let w = O::K::nd();
    let (k, v) = t.min_val();
    is_min(o, w, (*k, *v));
    let (k, v) = t.max_val();
    is_max(o, w, (*k, *v));
    is_pred(o, q, w, ent(t.predecessor(&q)));
    is_succ(o, q, w, ent(t.successor(MaybeBorrowed::Borrowed(&q))));
}

/// Every read-only query: `t` is exactly the map `o`.
pub fn obs<T, O>(t: &T, o: &O)
where
    O: Oracle,
    T: VebTree<Key = O::K, Value = O::V>,
{
    obs_find(t, o);
    obs_order(t, o);
}

/// Which observers follow a mutation.
#[derive(Clone, Copy, PartialEq)]
pub enum See {
    Find,
    Order,
    All,
}
pub fn see<T, O>(t: &T, o: &O, s: See)
where
    O: Oracle,
    T: VebTree<Key = O::K, Value = O::V>,
{
    if s != See::Order {
        obs_find(t, o);
    }
    if s != See::Find {
        obs_order(t, o);
    }
}

fn empty<O: Oracle>(o: &O) {
    let w = O::K::nd();
    assert!(!o.has(w), "tree reported empty but a key is left");
}

/// How a mutation changed the contents.
#[derive(Clone, Copy)]
pub struct Change<K, V> {
    pub ins: Option<(K, V)>,
    pub del: Option<K>,
}

/// One mutation with arbitrary arguments: 0 insert, 1 remove, 2 remove_min, 3 remove_max. Checks
/// its result; returns the tree and the change, or `None` once the tree is gone.
pub fn step<T, O>(mut t: T, o: &O, op: u8) -> Option<(T, Change<O::K, O::V>)>
where
    O: Oracle,
    T: VebTree<Key = O::K, Value = O::V>,
{
    let (r, e) = match op {
        0 => {
            let k = O::K::nd();
            let v = O::V::nd();
            match t.insert(k, v) {
                Some((ok, ov)) => {
                    assert!(o.has(k), "insert claims to replace an absent key");
                    assert!(ok == k && ov == o.val(k), "insert returned a wrong old entry");
                }
                None => assert!(!o.has(k), "insert did not report the replaced entry"),
            }
            return Some((t, Change { ins: Some((k, v)), del: None }));
        }
        1 => {
            let k = O::K::nd();
            match t.remove(&k) {
                Err(t) => {
                    assert!(!o.has(k), "remove missed a stored key");
                    return Some((t, Change { ins: None, del: None }));
                }
                Ok(r) => {
                    assert!(o.has(k), "remove found an absent key");
                    assert!(r.1 .0 == k && r.1 .1 == o.val(k), "remove returned a wrong entry");
                    r
                }
            }
        }
        2 => {
            let r = t.remove_min();
            is_min(o, O::K::nd(), r.1);
            r
        }
        _ => {
            let r = t.remove_max();
            is_max(o, O::K::nd(), r.1);
            r
        }
    };
    match r {
        Some(t) => Some((t, Change { ins: None, del: Some(e.0) })),
        None => {
            empty(&Over { base: o, ins: None, del: Some(e.0) });
            None
        }
    }
}

pub fn op_step<T, O>(t: T, o: &O, op: u8, s: See)
where
    O: Oracle,
    T: VebTree<Key = O::K, Value = O::V>,
{
    if let Some((t, c)) = step(t, o, op) {
        see(&t, &Over { base: o, ins: c.ins, del: c.del }, s);
        core::mem::forget(t);
    }
}
pub fn op_insert<T: VebTree<Key = O::K, Value = O::V>, O: Oracle>(t: T, o: &O, s: See) {
    op_step(t, o, 0, s)
}
pub fn op_remove<T: VebTree<Key = O::K, Value = O::V>, O: Oracle>(t: T, o: &O, s: See) {
    op_step(t, o, 1, s)
}
pub fn op_remove_min<T: VebTree<Key = O::K, Value = O::V>, O: Oracle>(t: T, o: &O, s: See) {
    op_step(t, o, 2, s)
}
pub fn op_remove_max<T: VebTree<Key = O::K, Value = O::V>, O: Oracle>(t: T, o: &O, s: See) {
    op_step(t, o, 3, s)
}

/// A given mutation followed by an arbitrary one, then queries: finds damage to the internal
/// structure that the queries after the first mutation cannot see yet.
pub fn op_twice<T, O>(t: T, o: &O, first: u8, s: See)
where
    O: Oracle,
    T: VebTree<Key = O::K, Value = O::V>,
{
    if let Some((t, c)) = step(t, o, first) {
        let o = Over { base: o, ins: c.ins, del: c.del };
        if let Some((t, c)) = step(t, &o, below(4)) {
            see(&t, &Over { base: &o, ins: c.ins, del: c.del }, s);
            core::mem::forget(t);
        }
    }
}

/// The contents after a history: the last record about a key counts.
pub struct Log<K, V> {
    pub log: [(K, Option<V>); 10],
    pub n: usize,
}
impl<K: Key, V: Val> Oracle for Log<K, V> {
    type K = K;
    type V = V;
    fn has(&self, k: K) -> bool {
        let mut r = false;
        let mut i = 0;
        while i < self.n {
            if self.log[i].0 == k {
                r = self.log[i].1.is_some();
            }
            i += 1;
        }
        r
    }
    fn val(&self, k: K) -> V {
        let mut r = None;
        let mut i = 0;
        while i < self.n {
            if self.log[i].0 == k {
                r = self.log[i].1;
            }
            i += 1;
        }
        r.unwrap()
    }
}
impl<K: Key, V: Val> Log<K, V> {
    pub fn one(k: K, v: V) -> Self {
        Log { log: [(k, Some(v)); 10], n: 1 }
    }
    pub fn push(&mut self, c: Change<K, V>) {
        if let Some((k, v)) = c.ins {
            self.log[self.n] = (k, Some(v));
            self.n += 1;
        } else if let Some(k) = c.del {
            self.log[self.n] = (k, None);
            self.n += 1;
        }
    }
    pub fn count(&self) -> usize {
        let mut c = 0;
        let mut i = 0;
        while i < self.n {
            let mut last = true;
            let mut j = i + 1;
            while j < self.n {
                if self.log[j].0 == self.log[i].0 {
                    last = false;
                }
                j += 1;
            }
            if last && self.log[i].1.is_some() {
                c += 1;
            }
            i += 1;
        }
        c
    }
}

/// A history of the given mutations (4: any of them) with arbitrary arguments, starting from an
/// arbitrary single entry, by public calls only. Ends early when the tree is gone.
pub fn run<T>(ops: &[u8]) -> Option<(T, Log<T::Key, T::Value>)>
where
    T: VebTree,
    T::Key: Key,
    T::Value: Val,
{
    let k = <T::Key as Key>::nd();
    let v = <T::Value as Val>::nd();
    let mut t = T::from_monad(k, v);
    let mut o = Log::one(k, v);
    let mut i = 0;
    while i < ops.len() {
        let op = if ops[i] == 4 { below(4) } else { ops[i] };
        let (t2, c) = step(t, &o, op)?;
        t = t2;
        o.push(c);
        i += 1;
    }
    Some((t, o))
}
pub fn op_history<T>(ops: &[u8], s: See)
where
    T: VebTree,
    T::Key: Key,
    T::Value: Val,
{
    if let Some((t, o)) = run::<T>(ops) {
        see(&t, &o, s);
        core::mem::forget(t);
    }
}

/// Entries under the given keys, inserted in this order with arbitrary values, then the given
/// mutations (4: any of them) with arbitrary arguments.
pub fn op_pattern<T>(keys: &[T::Key], ops: &[u8], s: See)
where
    T: VebTree,
    T::Key: Key,
    T::Value: Val,
{
    let v = <T::Value as Val>::nd();
    let mut t = T::from_monad(keys[0], v);
    let mut o = Log::one(keys[0], v);
    let mut i = 1;
    while i < keys.len() {
        let v = <T::Value as Val>::nd();
        let r = t.insert(keys[i], v);
        assert!(r.is_none(), "insert replaced an entry under a new key");
        o.push(Change { ins: Some((keys[i], v)), del: None });
        i += 1;
    }
    i = 0;
    while i < ops.len() {
        let op = if ops[i] == 4 { below(4) } else { ops[i] };
        let Some((t2, c)) = step(t, &o, op) else { return };
        t = t2;
        o.push(c);
        i += 1;
    }
    see(&t, &o, s);
    core::mem::forget(t);
}

/// Mutable access names the same entry as shared access, and a write through it changes that
/// entry and nothing else. `which`: 0 find, 1 predecessor, 2 successor, 3 min, 4 max.
pub fn op_mut<T, O>(mut t: T, o: &O, which: u8)
where
    O: Oracle,
    T: VebTree<Key = O::K, Value = O::V>,
{
    let q = O::K::nd();
    let w = O::K::nd();
    let x = O::V::nd();
    let r = match which {
        0 => t.find_mut(q),
        1 => t.predecessor_mut(&q),
        2 => t.successor_mut(&q),
        3 => Some(t.min_val_mut()),
        _ => Some(t.max_val_mut()),
    };
    let e = match r {
        Some((k, v)) => {
            let e = (*k, *v);
            *v = x;
            Some(e)
        }
        None => None,
    };
    match which {
        0 => is_find(o, q, e),
        1 => is_pred(o, q, w, e),
        2 => is_succ(o, q, w, e),
        3 => is_min(o, w, e.unwrap()),
        _ => is_max(o, w, e.unwrap()),
    }
    let ins = match e {
        Some((k, _)) => Some((k, x)),
        None => None,
    };
    obs_find(&t, &Over { base: o, ins, del: None });
    core::mem::forget(t);
}

/// Single-element tests and conversions, and the size bounds, agree with the contents.
pub fn op_monad<T, O>(t: T, o: &O, count: usize, exact: bool)
where
    O: Oracle,
    T: VebTree<Key = O::K, Value = O::V>,
{
    let (lo, hi) = t.len_hint();
    assert!(lo >= 1 && lo <= count, "lower size bound is wrong");
    if let Some(hi) = hi {
        assert!(hi >= count, "upper size bound is wrong");
    }
    if exact {
        assert!(lo == count && hi == Some(count), "size bounds are not exact");
    }
    let m = t.is_monad();
    assert!(m == (count == 1), "single-element test is wrong");
    match t.into_monad() {
        Ok((k, v)) => {
            assert!(m, "several elements converted into one");
            assert!(o.has(k) && v == o.val(k), "single element is wrong");
        }
        Err(t) => {
            assert!(!m, "single element not converted");
            obs(&t, o);
            core::mem::forget(t);
        }
    }
}

/// Exactly one key.
pub struct One<K, V>(pub K, pub V);
impl<K: Key, V: Val> Oracle for One<K, V> {
    type K = K;
    type V = V;
    fn has(&self, k: K) -> bool {
        k == self.0
    }
    fn val(&self, _: K) -> V {
        self.1
    }
}

/// A tree built from one entry holds exactly that entry.
pub fn op_from_monad<T>()
where
    T: VebTree,
    T::Key: Key,
    T::Value: Val,
{
    let k = <T::Key as Key>::nd();
    let v = <T::Value as Val>::nd();
    let t = T::from_monad(k, v);
    assert!(t.is_monad(), "fresh tree is not a single element");
    obs(&t, &One(k, v));
    match t.into_monad() {
        Ok((kk, vv)) => assert!(kk == k && vv == v, "single element changed"),
        Err(_) => panic!("single element not converted"),
    }
}
