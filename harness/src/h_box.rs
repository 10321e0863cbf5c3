//! A boxed tree behaves like the tree.
use crate::nd::*;
use crate::suite::*;
use crate::uni::*;
use veb_tree::VebTree;

type L = Leaf<u8, 3, 8>;
type B = Box<L>;
fn state() -> (B, L) {
    let l = L::nd();
    (Box::new(l), l)
}
crate::tree_suite! { 10, B, state(), true }
pub mod chain {
    use super::*;
    crate::chain_suite! { 10, B, state(), &[0, 0, 4] }
}
/// A box around the crate's own tree: the whole content travels through every move.
pub mod tree {
    use super::*;
    type T2 = Box<T<u8, 2, 4>>;
    fn state() -> (T2, M<u8, 2, 4>) {
        let (t, m) = arb::<u8, 2, 4>();
        (Box::new(t), m)
    }
    crate::tree_suite! { 18, T2, state(), false }
}
/// Boxed size bounds are the tree's own.
pub mod bounds {
    use super::*;
    crate::harness! {
        hint[10] {
            let (b, l) = state();
            let (lo, hi): (bool, u8) = (any(), below(4));
            unsafe { SLACK = (lo as usize * (l.count() - 1), if hi == 3 { None } else { Some(hi as usize) }) };
            assert!(b.len_hint() == l.len_hint(), "boxed size bounds differ");
        }
    }
}
