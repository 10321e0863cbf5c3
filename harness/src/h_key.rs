//! Keys: splitting, slot indices, small integers, possibly borrowed keys.
use crate::nd::*;
use crate::suite::Key;
use core::borrow::Borrow;
use core::cmp::Ordering;
use typenum::Unsigned;
use veb_tree::key::*;

/// Lossless and order preserving, by value and by reference, for all pairs of keys and halves.
pub fn split_join<K>()
where
    K: Key + VebKey + VebKeyRef<<K as VebKey>::Hi, <K as VebKey>::Lo> + core::fmt::Debug,
    K::Hi: Copy + Half,
    K::Lo: Copy + Half,
{
    let (a, b) = (<K as Key>::nd(), <K as Key>::nd());
    let (ah, al) = a.split_val();
    let (bh, bl) = b.split_val();
    // join . split = id, for owned and borrowed halves
    let j = match below(4) {
        0 => K::join(MaybeBorrowed::Owned(ah), MaybeBorrowed::Owned(al)),
        1 => K::join(MaybeBorrowed::Borrowed(&ah), MaybeBorrowed::Owned(al)),
        2 => K::join(MaybeBorrowed::Owned(ah), MaybeBorrowed::Borrowed(&al)),
        _ => K::join(MaybeBorrowed::Borrowed(&ah), MaybeBorrowed::Borrowed(&al)),
    };
    assert!(j == a, "joining the halves does not give the key back");
    // order
    let halves = match ah.cmp(&bh) {
        Ordering::Equal => al.cmp(&bl),
        o => o,
    };
    assert!(a.cmp(&b) == halves, "keys and halves compare differently");
    // split_ref
    let mut calls = 0u8;
    let same = a.split_ref(|h, l| {
        calls += 1;
        *h == ah && *l == al
    });
    assert!(same && calls == 1, "splitting by reference gives other halves");
    // split . join = id, for halves that need not come from a key
    let (h, l) = (<K::Hi as Half>::nd(), <K::Lo as Half>::nd());
    let (h2, l2) = K::join(MaybeBorrowed::Owned(h), MaybeBorrowed::Owned(l)).split_val();
    assert!(h2 == h && l2 == l, "splitting does not give the halves back");
}

/// Values a key can be split into.
pub trait Half: Ord {
    fn nd() -> Self;
}
macro_rules! halves { ($($t:ty)*) => { $( impl Half for $t { fn nd() -> Self { any() } } )* } }
halves! { u8 i8 u16 i16 u32 i32 u64 i64 bool }
impl Half for () {
    fn nd() {}
}
impl Half for U2 {
    fn nd() -> U2 {
        <U2 as Key>::nd()
    }
}
impl Half for U4 {
    fn nd() -> U4 {
        <U4 as Key>::nd()
    }
}
impl<A: Half, const N: usize> Half for [A; N] {
    fn nd() -> Self {
        core::array::from_fn(|_| A::nd())
    }
}

pub mod split {
    use super::*;
    crate::harness! {
        k_u8[20] { split_join::<u8>() }
        k_u16[20] { split_join::<u16>() }
        k_u32[20] { split_join::<u32>() }
        k_u64[20] { split_join::<u64>() }
        k_u128[20] { split_join::<u128>() }
        k_i8[20] { split_join::<i8>() }
        k_i16[20] { split_join::<i16>() }
        k_i32[20] { split_join::<i32>() }
        k_i64[20] { split_join::<i64>() }
        k_i128[20] { split_join::<i128>() }
        k_unit[20] { split_join::<()>() }
        k_u4[20] { split_join::<U4>() }
        k_u2[20] { split_join::<U2>() }
        k_a2[20] { split_join::<[u8; 2]>() }
        k_a2i[20] { split_join::<[i16; 2]>() }
    }
}

fn index<K: Key + SizedVebKey>() {
    let (a, b) = (<K as Key>::nd(), <K as Key>::nd());
    let (i, j) = (a.index(), b.index());
    // 2^64 slots wrap to 0: every usize is then below the number of slots
    let n = <K::Cardinality as Unsigned>::U64;
    if n == 0 {
        assert!(core::mem::size_of::<K>() >= 8, "no slots");
    } else {
        assert!((i as u64) < n && (j as u64) < n, "slot index out of range");
    }
    assert!((i == j) == (a == b), "slot index is not injective");
}

pub mod idx {
    use super::*;
    crate::harness! {
        k_u8[4] { index::<u8>() }
        k_u16[4] { index::<u16>() }
        k_u32[4] { index::<u32>() }
        k_u64[4] { index::<u64>() }
        k_i8[4] { index::<i8>() }
        k_i16[4] { index::<i16>() }
        k_i32[4] { index::<i32>() }
        k_i64[4] { index::<i64>() }
        k_unit[4] { index::<()>() }
        k_u4[4] { index::<U4>() }
        k_u2[4] { index::<U2>() }
    }
}

pub mod small {
    use super::*;
    macro_rules! small {
        ($m:ident, $t:ident, $bits:literal) => {
            pub mod $m {
                use super::*;
                const MAX: u8 = (1 << $bits) - 1;
                fn nd() -> ($t, u8) {
                    let v: u8 = any();
                    ($t::from(v), v & MAX)
                }
                crate::harness! {
                    consts[4] {
                        assert!($t::BITS == $bits && $t::MAX == MAX);
                    }
                    convert[4] {
                        let (a, v) = nd();
                        assert!(raw(a) == v, "conversion does not keep the low bits");
                    }
                    or[4] {
                        let ((a, v), (b, w)) = (nd(), nd());
                        assert!(raw(a | b) == v | w, "or is wrong");
                    }
                    shl[4] {
                        let (a, v) = nd();
                        let s = below(8);
                        assert!(raw(a << s as usize) == (((v as u32) << s) as u8) & MAX, "shift left is wrong");
                    }
                    shr[4] {
                        let (a, v) = nd();
                        let s = below(8);
                        assert!(raw(a >> s as usize) == v >> s, "shift right is wrong");
                    }
                    order[4] {
                        let ((a, v), (b, w)) = (nd(), nd());
                        assert!(a.cmp(&b) == v.cmp(&w) && (a == b) == (v == w), "order is wrong");
                        assert!((a < b) == (v < w) && (a <= b) == (v <= w), "order is wrong");
                    }
                    hash[4] {
                        let ((a, _), (b, _)) = (nd(), nd());
                        let (mut x, mut y) = (Fold(7), Fold(7));
                        core::hash::Hash::hash(&a, &mut x);
                        core::hash::Hash::hash(&b, &mut y);
                        assert!(a != b || x.0 == y.0, "equal values hash differently");
                    }
                    halves[4] {
                        let (a, v) = nd();
                        let (h, l) = a.split_val();
                        assert!(half(h) == v >> ($bits / 2) && half(l) == v & ((1 << ($bits / 2)) - 1), "halves are wrong");
                    }
                }
            }
        };
    }
    /// Tells apart everything a value feeds it.
    struct Fold(u64);
    impl core::hash::Hasher for Fold {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = self.0.rotate_left(9) ^ *x as u64 ^ 0x100;
            }
        }
    }
    trait Raw {
        fn raw(self) -> u8;
    }
    impl Raw for U4 {
        fn raw(self) -> u8 {
            u8::from(self)
        }
    }
    // U2 converts out through U4
    impl Raw for U2 {
        fn raw(self) -> u8 {
            u8::from(U4::from(self))
        }
    }
    fn raw<T: Raw>(t: T) -> u8 {
        t.raw()
    }
    trait HalfRaw {
        fn half(self) -> u8;
    }
    impl HalfRaw for U2 {
        fn half(self) -> u8 {
            u8::from(U4::from(self))
        }
    }
    impl HalfRaw for bool {
        fn half(self) -> u8 {
            self as u8
        }
    }
    fn half<T: HalfRaw>(t: T) -> u8 {
        t.half()
    }
    small!(u4, U4, 4);
    small!(u2, U2, 2);
    pub mod between {
        use super::*;
        crate::harness! {
            u2_from_u4[4] {
                let v: u8 = any();
                assert!(raw(U2::from(U4::from(v))) == v & 3, "U2 from U4 is wrong");
            }
            bool_from_u2[4] {
                let v: u8 = any();
                assert!(bool::from(U2::from(v)) == (v & 1 == 1), "bool from U2 is wrong");
            }
            byte_halves[4] {
                let v: u8 = any();
                let (h, l) = v.split_val();
                assert!(raw(h) == v >> 4 && raw(l) == v & 15, "halves of a byte are wrong");
            }
            // values made from any byte stay in range through any chain of two operations
            chain[4] {
                let mut a = U4::from(any::<u8>());
                let mut b = U2::from(any::<u8>());
                for _ in 0..2 {
                    let s = below(8) as usize;
                    match below(4) {
                        0 => { a = a << s; b = b << s }
                        1 => { a = a >> s; b = b >> s }
                        2 => { a = a | U4::from(any::<u8>()); b = b | U2::from(any::<u8>()) }
                        _ => { b = U2::from(a); a = U4::from(b) }
                    }
                }
                assert!(u8::from(a) <= U4::MAX && u8::from(U4::from(b)) <= U2::MAX, "value out of range");
                assert!(a.index() < 16 && b.index() < 4, "slot out of range");
            }
        }
    }
}

/// A key that can be cloned but not copied, to notice a clone that is not the value.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct NC(u8);

pub mod mb {
    use super::*;
    fn form<'a, T: Clone>(k: &'a T) -> MaybeBorrowed<'a, T> {
        if any() {
            MaybeBorrowed::Owned(k.clone())
        } else {
            MaybeBorrowed::Borrowed(k)
        }
    }
    crate::harness! {
        deref[4] {
            let k = NC(any());
            let m = form(&k);
            assert!(*m == k, "deref gives another key");
            let b: &NC = Borrow::borrow(&m);
            assert!(*b == k, "borrow gives another key");
        }
        reborrow[4] {
            let k = NC(any());
            let m = form(&k);
            let r = m.borrow();
            assert!(matches!(r, MaybeBorrowed::Borrowed(_)) && *r == k, "reborrow gives another key");
        }
        into_or_clone[4] {
            let k = NC(any());
            assert!(form(&k).into_or_clone() == k, "owned key differs");
        }
        eq[4] {
            let (a, b) = (NC(any()), NC(any()));
            assert!((form(&a) == form(&b)) == (a == b), "equality depends on the form");
            assert!((form(&a) != form(&b)) == (a != b), "inequality depends on the form");
        }
        eq_same[4] {
            // the two sides share, or do not share, the value itself
            let k = NC(any());
            let (o, b) = (form(&k), MaybeBorrowed::Borrowed(&k));
            assert!(o == o.borrow() && o.borrow() == o, "a key differs from its own reborrow");
            assert!(o == b && b == o && !(o != b), "a key differs from its own reference");
            let other = NC(any());
            let o = form(&other);
            assert!((o.borrow() == b) == (other == k), "equality of reborrows is wrong");
        }
        from[4] {
            let k = NC(any());
            let o: MaybeBorrowed<'_, NC> = k.clone().into();
            let b: MaybeBorrowed<'_, NC> = (&k).into();
            assert!(matches!(o, MaybeBorrowed::Owned(_)) && *o == k, "conversion from an owned key is wrong");
            assert!(matches!(b, MaybeBorrowed::Borrowed(_)) && *b == k, "conversion from a reference is wrong");
        }
        clone[4] {
            let k = NC(any());
            let m = form(&k);
            assert!(m.clone() == m, "clone differs");
            let c = *form(&k.0);
            assert!(c == k.0);
        }
    }
}
