//! `VecDeque` over a fixed-capacity array; element `i` is in slot `i`.
use core::cmp::Ordering;
use core::ops::{Bound, Index, IndexMut, RangeBounds};

pub const CAP: usize = 6;

pub struct VecDeque<T> {
    buf: [Option<T>; CAP],
    len: usize,
}

fn some<T>(o: Option<T>) -> T {
    match o {
        Some(t) => t,
        None => panic!("model: empty slot"),
    }
}

impl<T> VecDeque<T> {
    pub const fn new() -> Self {
        VecDeque { buf: [const { None }; CAP], len: 0 }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn capacity(&self) -> usize {
        CAP
    }
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn clear(&mut self) {
        self.truncate(0)
    }
    pub fn truncate(&mut self, n: usize) {
        let mut i = 0;
        while i < CAP {
            if i >= n {
                self.buf[i] = None;
            }
            i += 1;
        }
        if self.len > n {
            self.len = n;
        }
    }
    pub fn get(&self, i: usize) -> Option<&T> {
        if i < self.len {
            self.buf[i].as_ref()
        } else {
            None
        }
    }
    pub fn get_mut(&mut self, i: usize) -> Option<&mut T> {
        if i < self.len {
            self.buf[i].as_mut()
        } else {
            None
        }
    }
    pub fn front(&self) -> Option<&T> {
        self.get(0)
    }
    pub fn front_mut(&mut self) -> Option<&mut T> {
        self.get_mut(0)
    }
    pub fn back(&self) -> Option<&T> {
        self.get(self.len.wrapping_sub(1))
    }
    pub fn back_mut(&mut self) -> Option<&mut T> {
        self.get_mut(self.len.wrapping_sub(1))
    }
    pub fn insert(&mut self, at: usize, v: T) {
        assert!(at <= self.len, "index out of bounds");
        assert!(self.len < CAP, "model: capacity exceeded");
        let mut v = Some(v);
        let mut i = 0;
        while i < CAP {
            if i >= at && i <= self.len {
                v = core::mem::replace(&mut self.buf[i], v);
            }
            i += 1;
        }
        core::mem::forget(v);
        self.len += 1;
    }
    pub fn remove(&mut self, at: usize) -> Option<T> {
        if at >= self.len {
            return None;
        }
        let mut v = None;
        let mut i = CAP;
        while i > 0 {
            i -= 1;
            if i >= at && i < self.len {
                v = core::mem::replace(&mut self.buf[i], v);
            }
        }
        self.len -= 1;
        v
    }
    pub fn push_back(&mut self, v: T) {
        self.insert(self.len, v)
    }
    pub fn push_front(&mut self, v: T) {
        self.insert(0, v)
    }
    pub fn pop_back(&mut self) -> Option<T> {
        self.remove(self.len.wrapping_sub(1))
    }
    pub fn pop_front(&mut self) -> Option<T> {
        self.remove(0)
    }
    pub fn swap(&mut self, i: usize, j: usize) {
        assert!(i < self.len && j < self.len, "index out of bounds");
        self.buf.swap(i, j)
    }
    pub fn swap_remove_back(&mut self, i: usize) -> Option<T> {
        if i >= self.len {
            return None;
        }
        self.swap(i, self.len - 1);
        self.pop_back()
    }
    pub fn swap_remove_front(&mut self, i: usize) -> Option<T> {
        if i >= self.len {
            return None;
        }
        self.swap(i, 0);
        self.pop_front()
    }
    pub fn append(&mut self, o: &mut Self) {
        while let Some(t) = o.pop_front() {
            self.push_back(t)
        }
    }
    pub fn split_off(&mut self, at: usize) -> Self {
        assert!(at <= self.len, "index out of bounds");
        let mut r = Self::new();
        while self.len > at {
            r.push_front(some(self.pop_back()));
        }
        r
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self.buf[..self.len].iter())
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, T> {
        IterMut(self.buf[..self.len].iter_mut())
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
        let mut r = Self::new();
        while let Some(t) = self.pop_front() {
            if f(&t) {
                r.push_back(t)
            }
        }
        *self = r;
    }
    pub fn retain_mut<F: FnMut(&mut T) -> bool>(&mut self, mut f: F) {
        let mut r = Self::new();
        while let Some(mut t) = self.pop_front() {
            if f(&mut t) {
                r.push_back(t)
            }
        }
        *self = r;
    }
    fn bounds<R: RangeBounds<usize>>(&self, r: R) -> (usize, usize) {
        let lo = match r.start_bound() {
            Bound::Unbounded => 0,
            Bound::Included(i) => *i,
            Bound::Excluded(i) => *i + 1,
        };
        let hi = match r.end_bound() {
            Bound::Unbounded => self.len,
            Bound::Included(i) => *i + 1,
            Bound::Excluded(i) => *i,
        };
        assert!(lo <= hi && hi <= self.len, "range out of bounds");
        (lo, hi)
    }
    pub fn range<R: RangeBounds<usize>>(&self, r: R) -> Iter<'_, T> {
        let (lo, hi) = self.bounds(r);
        Iter(self.buf[lo..hi].iter())
    }
    pub fn range_mut<R: RangeBounds<usize>>(&mut self, r: R) -> IterMut<'_, T> {
        let (lo, hi) = self.bounds(r);
        IterMut(self.buf[lo..hi].iter_mut())
    }
    pub fn drain<R: RangeBounds<usize>>(&mut self, r: R) -> IntoIter<T> {
        let (lo, hi) = self.bounds(r);
        let mut tail = self.split_off(hi);
        let mid = self.split_off(lo);
        self.append(&mut tail);
        IntoIter(mid)
    }
    pub fn rotate_left(&mut self, n: usize) {
        assert!(n <= self.len, "index out of bounds");
        let mut i = 0;
        while i < n {
            let t = some(self.pop_front());
            self.push_back(t);
            i += 1;
        }
    }
    pub fn rotate_right(&mut self, n: usize) {
        assert!(n <= self.len, "index out of bounds");
        let mut i = 0;
        while i < n {
            let t = some(self.pop_back());
            self.push_front(t);
            i += 1;
        }
    }
    pub fn contains(&self, t: &T) -> bool
    where
        T: PartialEq,
    {
        self.iter().any(|x| x == t)
    }
    pub fn partition_point<P: FnMut(&T) -> bool>(&self, mut p: P) -> usize {
        let mut n = 0;
        while n < self.len && p(&self[n]) {
            n += 1;
        }
        n
    }
    pub fn resize(&mut self, n: usize, t: T)
    where
        T: Clone,
    {
        self.resize_with(n, || t.clone())
    }
    pub fn resize_with(&mut self, n: usize, mut f: impl FnMut() -> T) {
        self.truncate(n);
        while self.len < n {
            self.push_back(f())
        }
    }
}
impl<T> Index<usize> for VecDeque<T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        self.get(i).expect("Out of bounds access")
    }
}
impl<T> IndexMut<usize> for VecDeque<T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        self.get_mut(i).expect("Out of bounds access")
    }
}
impl<T> Default for VecDeque<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Clone> Clone for VecDeque<T> {
    fn clone(&self) -> Self {
        let mut r = Self::new();
        let mut i = 0;
        while i < CAP {
            if i < self.len {
                r.buf[i] = self.buf[i].clone();
            }
            i += 1;
        }
        r.len = self.len;
        r
    }
}
impl<T: PartialEq> PartialEq for VecDeque<T> {
    fn eq(&self, o: &Self) -> bool {
        self.len == o.len && self.iter().zip(o.iter()).all(|(a, b)| a == b)
    }
}
impl<T: Eq> Eq for VecDeque<T> {}
impl<T: PartialOrd> PartialOrd for VecDeque<T> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        self.iter().partial_cmp(o.iter())
    }
}
impl<T: Ord> Ord for VecDeque<T> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.iter().cmp(o.iter())
    }
}
impl<T: core::fmt::Debug> core::fmt::Debug for VecDeque<T> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.debug_list().entries(self.iter()).finish()
    }
}
impl<T> FromIterator<T> for VecDeque<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut r = Self::new();
        r.extend(it);
        r
    }
}
impl<T> Extend<T> for VecDeque<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for t in it {
            self.push_back(t)
        }
    }
}
impl<T, const N: usize> From<[T; N]> for VecDeque<T> {
    fn from(a: [T; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<T> From<real::vec::Vec<T>> for VecDeque<T> {
    fn from(a: real::vec::Vec<T>) -> Self {
        a.into_iter().collect()
    }
}

pub struct Iter<'a, T>(core::slice::Iter<'a, Option<T>>);
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        self.0.next().and_then(|o| o.as_ref())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<T> DoubleEndedIterator for Iter<'_, T> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.0.next_back().and_then(|o| o.as_ref())
    }
}
impl<T> ExactSizeIterator for Iter<'_, T> {}
pub struct IterMut<'a, T>(core::slice::IterMut<'a, Option<T>>);
impl<'a, T> Iterator for IterMut<'a, T> {
    type Item = &'a mut T;
    fn next(&mut self) -> Option<&'a mut T> {
        self.0.next().and_then(|o| o.as_mut())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<T> DoubleEndedIterator for IterMut<'_, T> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.0.next_back().and_then(|o| o.as_mut())
    }
}
impl<T> ExactSizeIterator for IterMut<'_, T> {}
pub struct IntoIter<T>(VecDeque<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.pop_front()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.0.len, Some(self.0.len))
    }
}
impl<T> DoubleEndedIterator for IntoIter<T> {
    fn next_back(&mut self) -> Option<T> {
        self.0.pop_back()
    }
}
impl<T> ExactSizeIterator for IntoIter<T> {}
impl<T> IntoIterator for VecDeque<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a VecDeque<T> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<'a, T> IntoIterator for &'a mut VecDeque<T> {
    type Item = &'a mut T;
    type IntoIter = IterMut<'a, T>;
    fn into_iter(self) -> IterMut<'a, T> {
        self.iter_mut()
    }
}
