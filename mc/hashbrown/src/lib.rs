//! Stands in for `hashbrown` while harnesses are encoded: the documented behaviour of `HashMap`
//! over a fixed-capacity array of entries in insertion order. Hashes are not modelled (keys with
//! equal values have equal hashes; a harness of its own checks that for the crate's key types);
//! exceeding the capacity fails an assertion.
#![no_std]
#![allow(clippy::all)]
use core::borrow::Borrow;
use core::hash::{BuildHasher, Hash, Hasher};
use core::ops::Index;

pub const CAP: usize = 5;

#[derive(Clone, Copy, Default, Debug)]
pub struct DefaultHashBuilder;
pub struct NoHasher;
impl Hasher for NoHasher {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, _: &[u8]) {}
}
impl BuildHasher for DefaultHashBuilder {
    type Hasher = NoHasher;
    fn build_hasher(&self) -> NoHasher {
        NoHasher
    }
}
pub trait Equivalent<K: ?Sized> {
    fn equivalent(&self, k: &K) -> bool;
}
impl<Q: Eq + ?Sized, K: Borrow<Q> + ?Sized> Equivalent<K> for Q {
    fn equivalent(&self, k: &K) -> bool {
        self == k.borrow()
    }
}

pub struct HashMap<K, V, S = DefaultHashBuilder> {
    buf: [Slot<(K, V)>; CAP],
    len: usize,
    s: S,
}
/// `Option` with a tag of its own: Kani 0.68 cannot read the discriminant of an option that lives
/// in the spare values of a 128-bit tag.
#[derive(Clone)]
#[repr(u8)]
enum Slot<T> {
    No,
    Yes(T),
}
impl<T> Slot<T> {
    fn take(&mut self) -> Option<T> {
        match core::mem::replace(self, Slot::No) {
            Slot::No => None,
            Slot::Yes(t) => Some(t),
        }
    }
}
pub mod hash_map {
    pub use crate::{
        DefaultHashBuilder, Entry, HashMap, IntoIter, Iter, IterMut, OccupiedEntry, RawEntryBuilder,
        RawEntryBuilderMut, RawEntryMut, RawOccupiedEntryMut, RawVacantEntryMut, VacantEntry,
    };
}

impl<K, V> HashMap<K, V, DefaultHashBuilder> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
}
impl<K, V, S> HashMap<K, V, S> {
    pub const fn with_hasher(s: S) -> Self {
        HashMap { buf: [const { Slot::No }; CAP], len: 0, s }
    }
    pub fn with_capacity_and_hasher(_: usize, s: S) -> Self {
        Self::with_hasher(s)
    }
    pub fn hasher(&self) -> &S {
        &self.s
    }
    pub fn capacity(&self) -> usize {
        CAP
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn clear(&mut self) {
        self.buf = [const { Slot::No }; CAP];
        self.len = 0;
    }
    pub fn iter(&self) -> Iter<'_, K, V> {
        Iter(self.buf[..self.len].iter())
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
        IterMut(self.buf[..self.len].iter_mut())
    }
    pub fn keys(&self) -> impl ExactSizeIterator<Item = &K> {
        self.iter().map(|e| e.0)
    }
    pub fn values(&self) -> impl ExactSizeIterator<Item = &V> {
        self.iter().map(|e| e.1)
    }
    pub fn values_mut(&mut self) -> impl ExactSizeIterator<Item = &mut V> {
        self.iter_mut().map(|e| e.1)
    }
    pub fn into_keys(self) -> impl Iterator<Item = K> {
        self.into_iter().map(|e| e.0)
    }
    pub fn into_values(self) -> impl Iterator<Item = V> {
        self.into_iter().map(|e| e.1)
    }
    pub fn drain(&mut self) -> IntoIter<K, V> {
        let buf = core::mem::replace(&mut self.buf, [const { Slot::No }; CAP]);
        let len = core::mem::replace(&mut self.len, 0);
        IntoIter { buf, i: 0, len }
    }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        let mut i = 0;
        while i < self.len {
            let e = self.at_mut(i);
            if f(&e.0, &mut e.1) {
                i += 1;
            } else {
                self.take(i);
            }
        }
    }
    fn at(&self, i: usize) -> &(K, V) {
        match &self.buf[i] {
            Slot::Yes(e) => e,
            Slot::No => panic!("model: empty slot"),
        }
    }
    fn at_mut(&mut self, i: usize) -> &mut (K, V) {
        match &mut self.buf[i] {
            Slot::Yes(e) => e,
            Slot::No => panic!("model: empty slot"),
        }
    }
    fn pos(&self, mut f: impl FnMut(&K) -> bool) -> Option<usize> {
        let mut r = None;
        let mut i = 0;
        while i < CAP {
            if i < self.len && r.is_none() && f(&self.at(i).0) {
                r = Some(i);
            }
            i += 1;
        }
        r
    }
    fn put(&mut self, k: K, v: V) -> usize {
        assert!(self.len < CAP, "model: capacity exceeded");
        let i = self.len;
        core::mem::forget(core::mem::replace(&mut self.buf[i], Slot::Yes((k, v))));
        self.len += 1;
        i
    }
    fn take(&mut self, at: usize) -> (K, V) {
        let mut v = Slot::No;
        let mut i = CAP;
        while i > 0 {
            i -= 1;
            if i >= at && i < self.len {
                v = core::mem::replace(&mut self.buf[i], v);
            }
        }
        self.len -= 1;
        match v {
            Slot::Yes(e) => e,
            Slot::No => panic!("model: empty slot"),
        }
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> HashMap<K, V, S> {
    fn find<Q: Hash + Equivalent<K> + ?Sized>(&self, k: &Q) -> Option<usize> {
        self.pos(|x| k.equivalent(x))
    }
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn get<Q: Hash + Equivalent<K> + ?Sized>(&self, k: &Q) -> Option<&V> {
        self.get_key_value(k).map(|e| e.1)
    }
    pub fn get_key_value<Q: Hash + Equivalent<K> + ?Sized>(&self, k: &Q) -> Option<(&K, &V)> {
        match self.find(k) {
            Some(i) => {
                let e = self.at(i);
                Some((&e.0, &e.1))
            }
            None => None,
        }
    }
    pub fn get_key_value_mut<Q: Hash + Equivalent<K> + ?Sized>(&mut self, k: &Q) -> Option<(&K, &mut V)> {
        match self.find(k) {
            Some(i) => {
                let e = self.at_mut(i);
                Some((&e.0, &mut e.1))
            }
            None => None,
        }
    }
    pub fn contains_key<Q: Hash + Equivalent<K> + ?Sized>(&self, k: &Q) -> bool {
        self.find(k).is_some()
    }
    pub fn get_mut<Q: Hash + Equivalent<K> + ?Sized>(&mut self, k: &Q) -> Option<&mut V> {
        match self.find(k) {
            Some(i) => Some(&mut self.at_mut(i).1),
            None => None,
        }
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.find(&k) {
            Some(i) => Some(core::mem::replace(&mut self.at_mut(i).1, v)),
            None => {
                self.put(k, v);
                None
            }
        }
    }
    pub fn remove<Q: Hash + Equivalent<K> + ?Sized>(&mut self, k: &Q) -> Option<V> {
        self.remove_entry(k).map(|e| e.1)
    }
    pub fn remove_entry<Q: Hash + Equivalent<K> + ?Sized>(&mut self, k: &Q) -> Option<(K, V)> {
        match self.find(k) {
            Some(i) => Some(self.take(i)),
            None => None,
        }
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V, S> {
        match self.find(&k) {
            Some(i) => Entry::Occupied(OccupiedEntry { map: self, i }),
            None => Entry::Vacant(VacantEntry { map: self, k }),
        }
    }
}
impl<K, V, S: BuildHasher> HashMap<K, V, S> {
    pub fn raw_entry_mut(&mut self) -> RawEntryBuilderMut<'_, K, V, S> {
        RawEntryBuilderMut { map: self }
    }
    pub fn raw_entry(&self) -> RawEntryBuilder<'_, K, V, S> {
        RawEntryBuilder { map: self }
    }
}
pub struct RawEntryBuilder<'a, K, V, S> {
    map: &'a HashMap<K, V, S>,
}
impl<'a, K, V, S: BuildHasher> RawEntryBuilder<'a, K, V, S> {
    pub fn from_key<Q: Hash + Equivalent<K> + ?Sized>(self, k: &Q) -> Option<(&'a K, &'a V)> {
        match self.map.pos(|x| k.equivalent(x)) {
            Some(i) => {
                let e = self.map.at(i);
                Some((&e.0, &e.1))
            }
            None => None,
        }
    }
}
pub struct RawEntryBuilderMut<'a, K, V, S> {
    map: &'a mut HashMap<K, V, S>,
}
impl<'a, K, V, S: BuildHasher> RawEntryBuilderMut<'a, K, V, S> {
    pub fn from_key<Q: Hash + Equivalent<K> + ?Sized>(self, k: &Q) -> RawEntryMut<'a, K, V, S> {
        self.from_hash(0, |x| k.equivalent(x))
    }
    pub fn from_key_hashed_nocheck<Q: Equivalent<K> + ?Sized>(self, _: u64, k: &Q) -> RawEntryMut<'a, K, V, S> {
        self.from_hash(0, |x| k.equivalent(x))
    }
    pub fn from_hash<F: FnMut(&K) -> bool>(self, _: u64, f: F) -> RawEntryMut<'a, K, V, S> {
        match self.map.pos(f) {
            Some(i) => RawEntryMut::Occupied(RawOccupiedEntryMut { map: self.map, i }),
            None => RawEntryMut::Vacant(RawVacantEntryMut { map: self.map }),
        }
    }
}
pub enum RawEntryMut<'a, K, V, S> {
    Occupied(RawOccupiedEntryMut<'a, K, V, S>),
    Vacant(RawVacantEntryMut<'a, K, V, S>),
}
pub enum Entry<'a, K, V, S> {
    Occupied(OccupiedEntry<'a, K, V, S>),
    Vacant(VacantEntry<'a, K, V, S>),
}
pub struct OccupiedEntry<'a, K, V, S> {
    map: &'a mut HashMap<K, V, S>,
    i: usize,
}
pub struct RawOccupiedEntryMut<'a, K, V, S> {
    map: &'a mut HashMap<K, V, S>,
    i: usize,
}
pub struct RawVacantEntryMut<'a, K, V, S> {
    map: &'a mut HashMap<K, V, S>,
}
pub struct VacantEntry<'a, K, V, S> {
    map: &'a mut HashMap<K, V, S>,
    k: K,
}
macro_rules! occupied { ($t:ident) => {
impl<'a, K, V, S> $t<'a, K, V, S> {
    pub fn key(&self) -> &K {
        &self.map.at(self.i).0
    }
    pub fn get(&self) -> &V {
        &self.map.at(self.i).1
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut self.map.at_mut(self.i).1
    }
    pub fn get_key_value(&self) -> (&K, &V) {
        let e = self.map.at(self.i);
        (&e.0, &e.1)
    }
    pub fn get_key_value_mut(&mut self) -> (&mut K, &mut V) {
        let e = self.map.at_mut(self.i);
        (&mut e.0, &mut e.1)
    }
    pub fn into_mut(self) -> &'a mut V {
        &mut self.map.at_mut(self.i).1
    }
    pub fn into_key(self) -> &'a mut K {
        &mut self.map.at_mut(self.i).0
    }
    pub fn into_key_value(self) -> (&'a mut K, &'a mut V) {
        let e = self.map.at_mut(self.i);
        (&mut e.0, &mut e.1)
    }
    pub fn insert(&mut self, v: V) -> V {
        core::mem::replace(self.get_mut(), v)
    }
    pub fn remove(self) -> V {
        self.map.take(self.i).1
    }
    pub fn remove_entry(self) -> (K, V) {
        self.map.take(self.i)
    }
    /// Replaces or removes; the map if removed.
    fn replace<F>(self, f: F) -> (Result<Self, &'a mut HashMap<K, V, S>>, Option<K>)
    where
        F: FnOnce(&K, V) -> Option<V>,
    {
        let i = self.i;
        let (k, v) = match self.map.buf[i].take() {
            Some(e) => e,
            None => panic!("model: empty slot"),
        };
        match f(&k, v) {
            Some(v) => {
                core::mem::forget(core::mem::replace(&mut self.map.buf[i], Slot::Yes((k, v))));
                (Ok(self), None)
            }
            None => {
                // close the gap
                let mut v = Slot::No;
                let mut j = CAP;
                while j > 0 {
                    j -= 1;
                    if j >= i && j < self.map.len {
                        v = core::mem::replace(&mut self.map.buf[j], v);
                    }
                }
                core::mem::forget(v);
                self.map.len -= 1;
                (Err(self.map), Some(k))
            }
        }
    }
}
} }
occupied! { OccupiedEntry }
occupied! { RawOccupiedEntryMut }
impl<'a, K, V, S> RawOccupiedEntryMut<'a, K, V, S> {
    pub fn replace_entry_with<F>(self, f: F) -> RawEntryMut<'a, K, V, S>
    where
        F: FnOnce(&K, V) -> Option<V>,
    {
        match self.replace(f) {
            (Ok(e), _) => RawEntryMut::Occupied(e),
            (Err(map), _) => RawEntryMut::Vacant(RawVacantEntryMut { map }),
        }
    }
    pub fn insert_key(&mut self, k: K) -> K {
        core::mem::replace(&mut self.map.at_mut(self.i).0, k)
    }
}
impl<'a, K, V, S> OccupiedEntry<'a, K, V, S> {
    pub fn replace_entry_with<F>(self, f: F) -> Entry<'a, K, V, S>
    where
        F: FnOnce(&K, V) -> Option<V>,
    {
        match self.replace(f) {
            (Ok(e), _) => Entry::Occupied(e),
            (Err(map), Some(k)) => Entry::Vacant(VacantEntry { map, k }),
            (Err(_), None) => panic!("model: no key"),
        }
    }
}
impl<'a, K, V, S> RawEntryMut<'a, K, V, S> {
    pub fn or_insert(self, k: K, v: V) -> (&'a mut K, &'a mut V)
    where
        K: Hash,
        S: BuildHasher,
    {
        self.or_insert_with(|| (k, v))
    }
    pub fn or_insert_with<F: FnOnce() -> (K, V)>(self, f: F) -> (&'a mut K, &'a mut V)
    where
        K: Hash,
        S: BuildHasher,
    {
        match self {
            RawEntryMut::Occupied(e) => e.into_key_value(),
            RawEntryMut::Vacant(e) => {
                let (k, v) = f();
                e.insert(k, v)
            }
        }
    }
    pub fn insert(self, k: K, v: V) -> RawOccupiedEntryMut<'a, K, V, S>
    where
        K: Hash,
        S: BuildHasher,
    {
        match self {
            RawEntryMut::Occupied(mut e) => {
                e.insert(v);
                e
            }
            RawEntryMut::Vacant(e) => {
                let i = e.map.put(k, v);
                RawOccupiedEntryMut { map: e.map, i }
            }
        }
    }
    pub fn and_modify<F: FnOnce(&mut K, &mut V)>(mut self, f: F) -> Self {
        if let RawEntryMut::Occupied(e) = &mut self {
            let (k, v) = e.get_key_value_mut();
            f(k, v)
        }
        self
    }
}
impl<'a, K, V, S> RawVacantEntryMut<'a, K, V, S> {
    pub fn insert(self, k: K, v: V) -> (&'a mut K, &'a mut V)
    where
        K: Hash,
        S: BuildHasher,
    {
        let i = self.map.put(k, v);
        let e = self.map.at_mut(i);
        (&mut e.0, &mut e.1)
    }
    pub fn insert_hashed_nocheck(self, _: u64, k: K, v: V) -> (&'a mut K, &'a mut V)
    where
        K: Hash,
        S: BuildHasher,
    {
        self.insert(k, v)
    }
}
impl<'a, K, V, S> VacantEntry<'a, K, V, S> {
    pub fn key(&self) -> &K {
        &self.k
    }
    pub fn into_key(self) -> K {
        self.k
    }
    pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V, S> {
        let i = self.map.put(self.k, v);
        OccupiedEntry { map: self.map, i }
    }
    pub fn insert(self, v: V) -> &'a mut V {
        let i = self.map.put(self.k, v);
        &mut self.map.at_mut(i).1
    }
}
impl<'a, K, V, S> Entry<'a, K, V, S> {
    pub fn key(&self) -> &K {
        match self {
            Entry::Occupied(e) => e.key(),
            Entry::Vacant(e) => e.key(),
        }
    }
    pub fn or_insert(self, v: V) -> &'a mut V {
        self.or_insert_with(|| v)
    }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => e.insert(f()),
        }
    }
    pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => {
                let v = f(e.key());
                e.insert(v)
            }
        }
    }
    pub fn insert(self, v: V) -> OccupiedEntry<'a, K, V, S> {
        match self {
            Entry::Occupied(mut e) => {
                e.insert(v);
                e
            }
            Entry::Vacant(e) => e.insert_entry(v),
        }
    }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
        if let Entry::Occupied(e) = &mut self {
            f(e.get_mut())
        }
        self
    }
}
pub struct Iter<'a, K, V>(core::slice::Iter<'a, Slot<(K, V)>>);
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        match self.0.next() {
            Some(Slot::Yes((k, v))) => Some((k, v)),
            _ => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<K, V> ExactSizeIterator for Iter<'_, K, V> {}
pub struct IterMut<'a, K, V>(core::slice::IterMut<'a, Slot<(K, V)>>);
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    fn next(&mut self) -> Option<Self::Item> {
        match self.0.next() {
            Some(Slot::Yes((k, v))) => Some((&*k, v)),
            _ => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<K, V> ExactSizeIterator for IterMut<'_, K, V> {}
pub struct IntoIter<K, V> {
    buf: [Slot<(K, V)>; CAP],
    i: usize,
    len: usize,
}
impl<K, V> Iterator for IntoIter<K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        if self.i < self.len {
            self.i += 1;
            self.buf[self.i - 1].take()
        } else {
            None
        }
    }
}
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = IntoIter<K, V>;
    fn into_iter(mut self) -> IntoIter<K, V> {
        self.drain()
    }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Iter<'a, K, V> {
        self.iter()
    }
}
impl<K, V, S: Default> Default for HashMap<K, V, S> {
    fn default() -> Self {
        Self::with_hasher(S::default())
    }
}
impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> {
    fn clone(&self) -> Self {
        let mut r = Self::with_hasher(self.s.clone());
        let mut i = 0;
        while i < CAP {
            if i < self.len {
                r.buf[i] = self.buf[i].clone();
            }
            i += 1;
        }
        r.len = self.len;
        r
    }
}
impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        self.len == o.len && self.iter().all(|(k, v)| o.get(k) == Some(v))
    }
}
impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
impl<K: core::fmt::Debug, V: core::fmt::Debug, S> core::fmt::Debug for HashMap<K, V, S> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.debug_map().entries(self.iter()).finish()
    }
}
impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut r = Self::default();
        r.extend(it);
        r
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, DefaultHashBuilder> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Eq + Hash, Q: Hash + Equivalent<K> + ?Sized, V, S: BuildHasher> Index<&Q> for HashMap<K, V, S> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        self.get(k).expect("no entry found for key")
    }
}
