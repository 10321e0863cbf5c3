//! The byte set, from every one of its 2^256 - 1 states.
use crate::nd::*;
use crate::suite::*;
use veb_tree::bitset::ByteSet;
use veb_tree::VebTree;

/// Oracle: bit `i % 128` of word `i / 128`.
#[derive(Clone, Copy)]
pub struct Bits(pub [u128; 2]);
impl Bits {
    pub fn get(&self, k: u8) -> bool {
        let w = if k < 128 { self.0[0] } else { self.0[1] };
        w >> (k & 127) & 1 == 1
    }
    pub fn nd() -> Self {
        let b = Bits([any(), any()]);
        assume(b.0[0] != 0 || b.0[1] != 0);
        b
    }
    /// An arbitrary subset of `FRAME`; or (`dense`) every byte except an arbitrary subset of every
    /// other element of `FRAME`.
    pub fn frame(dense: bool) -> Self {
        let mut f: u32 = any();
        if dense {
            f |= 0x9696;
        }
        let mut b = if dense { [!0, !0] } else { [0, 0] };
        let mut i = 0;
        while i < FRAME.len() {
            let (w, m) = ((FRAME[i] >> 7) as usize, 1u128 << (FRAME[i] & 127));
            b[w] &= !m;
            if f >> i & 1 == 1 {
                b[w] |= m;
            }
            i += 1;
        }
        assume(b[0] != 0 || b[1] != 0);
        Bits(b)
    }
    pub fn len(&self) -> usize {
        (self.0[0].count_ones() + self.0[1].count_ones()) as usize
    }
    /// Number of keys below `k`.
    pub fn rank(&self, k: u8) -> usize {
        let (lo, hi) = if k < 128 {
            (self.0[0] & ((1u128 << k) - 1), 0)
        } else {
            (self.0[0], self.0[1] & ((1u128 << (k - 128)) - 1))
        };
        (lo.count_ones() + hi.count_ones()) as usize
    }
}
/// Bytes on both sides of every 64-bit lane boundary and inside every lane.
pub const FRAME: [u8; 16] = [0, 1, 37, 63, 64, 65, 90, 126, 127, 128, 129, 170, 191, 192, 254, 255];
impl Oracle for Bits {
    type K = u8;
    type V = ();
    fn has(&self, k: u8) -> bool {
        self.get(k)
    }
    fn val(&self, _: u8) {}
}

/// Calls `first` for one stored key, then `rest` for the others.
pub fn build<T>(b: &Bits, mut first: impl FnMut(u8) -> T, mut rest: impl FnMut(&mut T, u8)) -> T {
    let mut t: Option<T> = None;
    let mut k = 0u16;
    while k < 256 {
        if b.get(k as u8) {
            match t.as_mut() {
                None => t = Some(first(k as u8)),
                Some(t) => rest(t, k as u8),
            }
        }
        k += 1;
    }
    t.unwrap()
}

/// The byte set with exactly these elements. Under Kani its bits are placed directly (it is
/// documented as 32 bytes holding all possible bytes, and `layout` checks bit k is key k);
/// natively they are inserted one by one.
pub fn set(b: &Bits) -> ByteSet {
    #[cfg(kani)]
    if core::mem::size_of::<ByteSet>() == 32 {
        return unsafe { core::mem::transmute_copy(&b.0) };
    }
    build(b, |k| ByteSet::from_monad(k, ()), |s, k| {
        s.insert(k, ());
    })
}

impl Bits {
    pub fn count(&self) -> usize {
        self.len()
    }
}
fn state() -> (ByteSet, Bits) {
    let b = Bits::nd();
    (set(&b), b)
}
crate::tree_suite! { 34, ByteSet, state(), true }
pub mod more {
    use super::*;
    crate::harness! {
    inherent[34] {
            let b = Bits::nd();
            let s = set(&b);
            assert!(s.len().get() == b.len(), "len is wrong");
            let w: u8 = any();
            let (lo, hi) = (s.lowest(), s.highest());
            assert!(b.get(lo) && b.get(hi), "lowest or highest is not stored");
            assert!(!b.get(w) || (lo <= w && w <= hi), "lowest or highest is not extreme");
        }
        // a set reached by public calls only: ties the directly placed bits to the public API
        history[34] {
            let (a, b, c): (u8, u8, u8) = (any(), any(), any());
            let mut s = ByteSet::from_monad(a, ());
            s.insert(b, ());
            s.insert(c, ());
            let mut m = Bits([0; 2]);
            for k in [a, b, c] { m.0[(k >> 7) as usize] |= 1u128 << (k & 127); }
            obs(&s, &m);
            let e = set(&m);
            assert!(s == e, "equal contents are not equal sets");
            op_remove(s, &m, See::All);
        }
        clone[34] {
            let b = Bits::nd();
            let s = set(&b);
            let c = s.clone();
            if any() { op_insert(c, &b, See::All) } else { op_remove(c, &b, See::All) }
            obs(&s, &b);
        }
}
}
