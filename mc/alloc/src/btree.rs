//! `BTreeMap` over a sorted fixed-capacity array.
use core::borrow::Borrow;
use core::cmp::Ordering;
use core::ops::{Bound, Index, RangeBounds};

pub const CAP: usize = 5;

pub struct BTreeMap<K, V> {
    buf: [Option<(K, V)>; CAP],
    len: usize,
    /// Gives the layout spare values of its own, so that an option of a map is not encoded in a slot.
    _spare: char,
}

impl<K, V> BTreeMap<K, V> {
    pub const fn new() -> Self {
        BTreeMap { buf: [const { None }; CAP], len: 0, _spare: ' ' }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn clear(&mut self) {
        *self = Self::new()
    }
    pub fn iter(&self) -> Iter<'_, K, V> {
        Iter(self.buf[..self.len].iter())
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
        IterMut(self.buf[..self.len].iter_mut())
    }
    pub fn keys(&self) -> impl DoubleEndedIterator<Item = &K> + ExactSizeIterator {
        self.iter().map(|e| e.0)
    }
    pub fn values(&self) -> impl DoubleEndedIterator<Item = &V> + ExactSizeIterator {
        self.iter().map(|e| e.1)
    }
    pub fn values_mut(&mut self) -> impl DoubleEndedIterator<Item = &mut V> + ExactSizeIterator {
        self.iter_mut().map(|e| e.1)
    }
    pub fn into_keys(self) -> impl DoubleEndedIterator<Item = K> {
        self.into_iter().map(|e| e.0)
    }
    pub fn into_values(self) -> impl DoubleEndedIterator<Item = V> {
        self.into_iter().map(|e| e.1)
    }
    /// Number of keys below (`or_equal`: at most) `k`.
    fn rank<Q: Ord + ?Sized>(&self, k: &Q, or_equal: bool) -> usize
    where
        K: Borrow<Q>,
    {
        let mut n = 0;
        let mut i = 0;
        while i < CAP {
            if i < self.len {
                match self.at(i).0.borrow().cmp(k) {
                    Ordering::Less => n += 1,
                    Ordering::Equal if or_equal => n += 1,
                    _ => {}
                }
            }
            i += 1;
        }
        n
    }
    fn at(&self, i: usize) -> &(K, V) {
        match &self.buf[i] {
            Some(e) => e,
            None => panic!("model: empty slot"),
        }
    }
    fn at_mut(&mut self, i: usize) -> &mut (K, V) {
        match &mut self.buf[i] {
            Some(e) => e,
            None => panic!("model: empty slot"),
        }
    }
    fn pos<Q: Ord + ?Sized>(&self, k: &Q) -> Result<usize, usize>
    where
        K: Borrow<Q>,
    {
        let i = self.rank(k, false);
        if i < self.len && self.at(i).0.borrow().cmp(k) == Ordering::Equal {
            Ok(i)
        } else {
            Err(i)
        }
    }
    fn put(&mut self, at: usize, e: (K, V)) {
        assert!(self.len < CAP, "model: capacity exceeded");
        let mut v = Some(e);
        let mut i = 0;
        while i < CAP {
            if i >= at && i <= self.len {
                v = core::mem::replace(&mut self.buf[i], v);
            }
            i += 1;
        }
        core::mem::forget(v);
        self.len += 1;
    }
    fn take(&mut self, at: usize) -> (K, V) {
        let mut v = None;
        let mut i = CAP;
        while i > 0 {
            i -= 1;
            if i >= at && i < self.len {
                v = core::mem::replace(&mut self.buf[i], v);
            }
        }
        self.len -= 1;
        match v {
            Some(e) => e,
            None => panic!("model: empty slot"),
        }
    }
    pub fn get<Q: Ord + ?Sized>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.get_key_value(k).map(|e| e.1)
    }
    pub fn get_key_value<Q: Ord + ?Sized>(&self, k: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
    {
        match self.pos(k) {
            Ok(i) => {
                let e = self.at(i);
                Some((&e.0, &e.1))
            }
            Err(_) => None,
        }
    }
    pub fn get_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        match self.pos(k) {
            Ok(i) => Some(&mut self.at_mut(i).1),
            Err(_) => None,
        }
    }
    pub fn contains_key<Q: Ord + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.pos(k).is_ok()
    }
    pub fn first_key_value(&self) -> Option<(&K, &V)> {
        self.iter().next()
    }
    pub fn last_key_value(&self) -> Option<(&K, &V)> {
        self.iter().next_back()
    }
    pub fn first_entry(&mut self) -> Option<OccupiedEntry<'_, K, V>> {
        if self.len == 0 {
            None
        } else {
            Some(OccupiedEntry { map: self, i: 0 })
        }
    }
    pub fn last_entry(&mut self) -> Option<OccupiedEntry<'_, K, V>> {
        if self.len == 0 {
            None
        } else {
            let i = self.len - 1;
            Some(OccupiedEntry { map: self, i })
        }
    }
    pub fn pop_first(&mut self) -> Option<(K, V)> {
        if self.len == 0 {
            None
        } else {
            Some(self.take(0))
        }
    }
    pub fn pop_last(&mut self) -> Option<(K, V)> {
        if self.len == 0 {
            None
        } else {
            Some(self.take(self.len - 1))
        }
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V>
    where
        K: Ord,
    {
        match self.pos(&k) {
            Ok(i) => Some(core::mem::replace(&mut self.at_mut(i).1, v)),
            Err(i) => {
                self.put(i, (k, v));
                None
            }
        }
    }
    pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.remove_entry(k).map(|e| e.1)
    }
    pub fn remove_entry<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        match self.pos(k) {
            Ok(i) => Some(self.take(i)),
            Err(_) => None,
        }
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V>
    where
        K: Ord,
    {
        match self.pos(&k) {
            Ok(i) => Entry::Occupied(OccupiedEntry { map: self, i }),
            Err(i) => Entry::Vacant(VacantEntry { map: self, i, k }),
        }
    }
    fn bounds<T: Ord + ?Sized, R: RangeBounds<T>>(&self, r: R) -> (usize, usize)
    where
        K: Borrow<T>,
    {
        match (r.start_bound(), r.end_bound()) {
            (Bound::Excluded(s), Bound::Excluded(e)) if s == e => {
                panic!("range start and end are equal and excluded in BTreeMap")
            }
            (Bound::Included(s) | Bound::Excluded(s), Bound::Included(e) | Bound::Excluded(e)) if s > e => {
                panic!("range start is greater than range end in BTreeMap")
            }
            _ => {}
        }
        let lo = match r.start_bound() {
            Bound::Unbounded => 0,
            Bound::Included(k) => self.rank(k, false),
            Bound::Excluded(k) => self.rank(k, true),
        };
        let hi = match r.end_bound() {
            Bound::Unbounded => self.len,
            Bound::Included(k) => self.rank(k, true),
            Bound::Excluded(k) => self.rank(k, false),
        };
        (lo, hi)
    }
    pub fn range<T: Ord + ?Sized, R: RangeBounds<T>>(&self, r: R) -> Range<'_, K, V>
    where
        K: Borrow<T> + Ord,
    {
        let (lo, hi) = self.bounds(r);
        Iter(self.buf[lo..hi].iter())
    }
    pub fn range_mut<T: Ord + ?Sized, R: RangeBounds<T>>(&mut self, r: R) -> RangeMut<'_, K, V>
    where
        K: Borrow<T> + Ord,
    {
        let (lo, hi) = self.bounds(r);
        IterMut(self.buf[lo..hi].iter_mut())
    }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F)
    where
        K: Ord,
    {
        let mut r = Self::new();
        while let Some((k, mut v)) = self.pop_first() {
            if f(&k, &mut v) {
                r.put(r.len, (k, v))
            }
        }
        *self = r;
    }
    pub fn split_off<Q: Ord + ?Sized>(&mut self, k: &Q) -> Self
    where
        K: Borrow<Q> + Ord,
    {
        let at = self.rank(k, false);
        let mut r = Self::new();
        while self.len > at {
            let e = self.take(self.len - 1);
            r.put(0, e)
        }
        r
    }
    pub fn append(&mut self, o: &mut Self)
    where
        K: Ord,
    {
        while let Some((k, v)) = o.pop_first() {
            self.insert(k, v);
        }
    }
}

pub enum Entry<'a, K, V> {
    Vacant(VacantEntry<'a, K, V>),
    Occupied(OccupiedEntry<'a, K, V>),
}
pub struct VacantEntry<'a, K, V> {
    map: &'a mut BTreeMap<K, V>,
    i: usize,
    k: K,
}
pub struct OccupiedEntry<'a, K, V> {
    map: &'a mut BTreeMap<K, V>,
    i: usize,
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        &self.k
    }
    pub fn into_key(self) -> K {
        self.k
    }
    pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> {
        self.map.put(self.i, (self.k, v));
        OccupiedEntry { map: self.map, i: self.i }
    }
    pub fn insert(self, v: V) -> &'a mut V {
        self.map.put(self.i, (self.k, v));
        &mut self.map.at_mut(self.i).1
    }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        &self.map.at(self.i).0
    }
    pub fn get(&self) -> &V {
        &self.map.at(self.i).1
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut self.map.at_mut(self.i).1
    }
    pub fn into_mut(self) -> &'a mut V {
        &mut self.map.at_mut(self.i).1
    }
    pub fn insert(&mut self, v: V) -> V {
        core::mem::replace(self.get_mut(), v)
    }
    pub fn remove(self) -> V {
        self.map.take(self.i).1
    }
    pub fn remove_entry(self) -> (K, V) {
        self.map.take(self.i)
    }
}
impl<'a, K: Ord, V> Entry<'a, K, V> {
    pub fn key(&self) -> &K {
        match self {
            Entry::Vacant(e) => e.key(),
            Entry::Occupied(e) => e.key(),
        }
    }
    pub fn or_insert(self, v: V) -> &'a mut V {
        self.or_insert_with(|| v)
    }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Vacant(e) => e.insert(f()),
            Entry::Occupied(e) => e.into_mut(),
        }
    }
    pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Vacant(e) => {
                let v = f(e.key());
                e.insert(v)
            }
            Entry::Occupied(e) => e.into_mut(),
        }
    }
    pub fn or_default(self) -> &'a mut V
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
    pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> {
        match self {
            Entry::Vacant(e) => e.insert_entry(v),
            Entry::Occupied(mut e) => {
                e.insert(v);
                e
            }
        }
    }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
        if let Entry::Occupied(e) = &mut self {
            f(e.get_mut())
        }
        self
    }
}

pub struct Iter<'a, K, V>(core::slice::Iter<'a, Option<(K, V)>>);
pub type Range<'a, K, V> = Iter<'a, K, V>;
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        match self.0.next() {
            Some(Some((k, v))) => Some((k, v)),
            _ => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<K, V> DoubleEndedIterator for Iter<'_, K, V> {
    fn next_back(&mut self) -> Option<Self::Item> {
        match self.0.next_back() {
            Some(Some((k, v))) => Some((k, v)),
            _ => None,
        }
    }
}
impl<K, V> ExactSizeIterator for Iter<'_, K, V> {}
pub struct IterMut<'a, K, V>(core::slice::IterMut<'a, Option<(K, V)>>);
pub type RangeMut<'a, K, V> = IterMut<'a, K, V>;
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    fn next(&mut self) -> Option<Self::Item> {
        match self.0.next() {
            Some(Some((k, v))) => Some((k, v)),
            _ => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<K, V> DoubleEndedIterator for IterMut<'_, K, V> {
    fn next_back(&mut self) -> Option<Self::Item> {
        match self.0.next_back() {
            Some(Some((k, v))) => Some((k, v)),
            _ => None,
        }
    }
}
impl<K, V> ExactSizeIterator for IterMut<'_, K, V> {}
pub struct IntoIter<K, V>(BTreeMap<K, V>);
impl<K, V> Iterator for IntoIter<K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        self.0.pop_first()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.0.len, Some(self.0.len))
    }
}
impl<K, V> DoubleEndedIterator for IntoIter<K, V> {
    fn next_back(&mut self) -> Option<(K, V)> {
        self.0.pop_last()
    }
}
impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
impl<K, V> IntoIterator for BTreeMap<K, V> {
    type Item = (K, V);
    type IntoIter = IntoIter<K, V>;
    fn into_iter(self) -> IntoIter<K, V> {
        IntoIter(self)
    }
}
impl<'a, K, V> IntoIterator for &'a BTreeMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Iter<'a, K, V> {
        self.iter()
    }
}
impl<'a, K, V> IntoIterator for &'a mut BTreeMap<K, V> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = IterMut<'a, K, V>;
    fn into_iter(self) -> IterMut<'a, K, V> {
        self.iter_mut()
    }
}
impl<K, V> Default for BTreeMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Clone, V: Clone> Clone for BTreeMap<K, V> {
    fn clone(&self) -> Self {
        let mut r = Self::new();
        let mut i = 0;
        while i < CAP {
            if i < self.len {
                r.buf[i] = self.buf[i].clone();
            }
            i += 1;
        }
        r.len = self.len;
        r
    }
}
impl<K: PartialEq, V: PartialEq> PartialEq for BTreeMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.len == o.len && self.iter().zip(o.iter()).all(|(a, b)| a == b)
    }
}
impl<K: Eq, V: Eq> Eq for BTreeMap<K, V> {}
impl<K: core::fmt::Debug, V: core::fmt::Debug> core::fmt::Debug for BTreeMap<K, V> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.debug_map().entries(self.iter()).finish()
    }
}
impl<K: Ord, V> FromIterator<(K, V)> for BTreeMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut r = Self::new();
        r.extend(it);
        r
    }
}
impl<K: Ord, V> Extend<(K, V)> for BTreeMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<K: Ord, V, const N: usize> From<[(K, V); N]> for BTreeMap<K, V> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Borrow<Q> + Ord, Q: Ord + ?Sized, V> Index<&Q> for BTreeMap<K, V> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        self.get(k).expect("no entry found for key")
    }
}
