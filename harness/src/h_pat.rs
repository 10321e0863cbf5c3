//! Assembled trees with several clusters: entries under fixed keys with arbitrary values, then
//! mutations with arbitrary arguments, then every query; by public calls only.
use crate::parts::*;
use crate::suite::*;
use veb_tree::bitset::*;
use veb_tree::collection::array::*;
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::markers::*;
use veb_tree::tree::*;
use veb_tree::{SizedVebTree, VebTree};

fn nibbles(h: u8, l: u8) -> u8 {
    h << 4 | l
}
fn signed_nibbles(h: u8, l: u8) -> i8 {
    (nibbles(h, l) as i8).wrapping_add(-128)
}
fn bytes(h: u8, l: u8) -> u16 {
    // spread over both halves of the byte sets
    (h as u16 * 17) << 8 | l as u16 * 37
}
/// Clusters are opened below, between and above each other, and one of them holds two entries.
macro_rules! patterns {
    ($u:literal, $n:literal, $t:ty, $f:expr) => {
        fn keys() -> [<$t as VebTree>::Key; $n] {
            let f = $f;
            let k = [f(5, 5), f(9, 0), f(7, 3), f(3, 2), f(7, 1), f(12, 6)];
            core::array::from_fn(|i| k[i])
        }
        crate::harness! {
            see_f[$u] { op_pattern::<$t>(&keys(), &[], See::Find) }
            see_o[$u] { op_pattern::<$t>(&keys(), &[], See::Order) }
            ins_f[$u] { op_pattern::<$t>(&keys(), &[0], See::Find) }
            ins_o[$u] { op_pattern::<$t>(&keys(), &[0], See::Order) }
            rem_f[$u] { op_pattern::<$t>(&keys(), &[1], See::Find) }
            rem_o[$u] { op_pattern::<$t>(&keys(), &[1], See::Order) }
            min_f[$u] { op_pattern::<$t>(&keys(), &[2], See::Find) }
            min_o[$u] { op_pattern::<$t>(&keys(), &[2], See::Order) }
            max_f[$u] { op_pattern::<$t>(&keys(), &[3], See::Find) }
            max_o[$u] { op_pattern::<$t>(&keys(), &[3], See::Order) }
            min_max_f[$u] { op_pattern::<$t>(&keys(), &[2, 3], See::Find) }
            min_max_o[$u] { op_pattern::<$t>(&keys(), &[2, 3], See::Order) }
            min3_o[$u] { op_pattern::<$t>(&keys(), &[2, 2, 2], See::Order) }
            max3_f[$u] { op_pattern::<$t>(&keys(), &[3, 3, 3], See::Find) }
            max_rem_f[$u] { op_pattern::<$t>(&keys(), &[3, 1], See::Find) }
            max_ins_f[$u] { op_pattern::<$t>(&keys(), &[3, 3, 0], See::Find) }
            max_ins_o[$u] { op_pattern::<$t>(&keys(), &[3, 3, 0], See::Order) }
            rem_ins_f[$u] { op_pattern::<$t>(&keys(), &[1, 0], See::Find) }
            rem_ins_o[$u] { op_pattern::<$t>(&keys(), &[1, 0], See::Order) }
            rem_rem_f[$u] { op_pattern::<$t>(&keys(), &[1, 1], See::Find) }
            rem_rem_o[$u] { op_pattern::<$t>(&keys(), &[1, 1], See::Order) }
        }
    };
}
pub mod m8 {
    use super::*;
    type T = VebTreeType<u8, u8, Marker8>;
    patterns! { 10, 4, T, nibbles }
}
pub mod m8e {
    use super::*;
    type T = VebTreeType<u8, (), Marker8Empty>;
    patterns! { 10, 6, T, nibbles }
}
pub mod hash_bt {
    use super::*;
    type T = Tree<u8, u8, BtMk, HashMapMarker<BtMk>>;
    patterns! { 10, 6, T, nibbles }
}
pub mod slots {
    use super::*;
    type T = Tree<u8, u8, BtMk, ArrayTreeCollectionMarker<BoxMarker<BtMk>>>;
    patterns! { 18, 6, T, nibbles }
}
pub mod signed {
    use super::*;
    type T = Tree<i8, u8, BtMk, ArrayTreeCollectionMarker<BoxMarker<BtMk>>>;
    patterns! { 18, 6, T, signed_nibbles }
}
pub mod sized_box {
    use super::*;
    type T = SizedVebTree<VebTreeType<u8, u8, BoxMarker<TreeMarker<BtMk, HashMapMarker<BoxMarker<BtMk>>>>>>;
    patterns! { 10, 6, T, nibbles }
}
pub mod pair {
    use super::*;
    type T = Tree<[u8; 2], u8, BtMk, HashMapMarker<BtMk>>;
    patterns! { 10, 6, T, |h: u8, l: u8| [h, l] }
}
pub mod byte_bt {
    use super::*;
    type T = Tree<u16, u8, BtMk, ByteCollectionMarker<VecDequeMarker, BtMk>>;
    patterns! { 10, 6, T, bytes }
}
pub mod byte_set {
    use super::*;
    type T = Tree<u16, u8, Marker8Empty, ByteCollectionMarker<VecDequeMarker, BtMk>>;
    patterns! { 10, 6, T, bytes }
}
/// Trees of trees: a 32-bit key is split twice.
pub mod nested {
    use super::*;
    type Mk16 = TreeMarker<BtMk, HashMapMarker<BtMk>>;
    type T = VebTreeType<u32, u8, TreeMarker<Mk16, HashMapMarker<Mk16>>>;
    fn four(h: u8, l: u8) -> u32 {
        // three entries share the upper half, two of them the upper three bytes
        (h as u32 / 2) << 24 | (h as u32 * 3) << 8 | l as u32
    }
    patterns! { 10, 4, T, four }
}
