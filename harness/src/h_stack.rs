//! Trees assembled from the crate's own parts, driven through public calls only: histories of
//! mutations with arbitrary arguments from an arbitrary single entry, then every query.
use crate::parts::*;
use crate::suite::*;
use veb_tree::bitset::*;
use veb_tree::collection::array::*;
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::markers::*;
use veb_tree::tree::*;
use veb_tree::SizedVebTree;

macro_rules! short_histories {
    ($u:literal, $t:ty) => {
        crate::harness! {
            ins[$u] { op_history::<$t>(&[0], See::All) }
            ins_rem[$u] { op_history::<$t>(&[0, 1], See::All) }
            ins2_f[$u] { op_history::<$t>(&[0, 0], See::Find) }
            ins2_o[$u] { op_history::<$t>(&[0, 0], See::Order) }
            ins2_rem_f[$u] { op_history::<$t>(&[0, 0, 1], See::Find) }
            ins2_rem_o[$u] { op_history::<$t>(&[0, 0, 1], See::Order) }
            ins2_min_f[$u] { op_history::<$t>(&[0, 0, 2], See::Find) }
            ins2_min_o[$u] { op_history::<$t>(&[0, 0, 2], See::Order) }
            ins2_max_f[$u] { op_history::<$t>(&[0, 0, 3], See::Find) }
            ins2_max_o[$u] { op_history::<$t>(&[0, 0, 3], See::Order) }
            ins3_f[$u] { op_history::<$t>(&[0, 0, 0], See::Find) }
            ins3_o[$u] { op_history::<$t>(&[0, 0, 0], See::Order) }
            ins3_rem_f[$u] { op_history::<$t>(&[0, 0, 0, 1], See::Find) }
            ins3_rem_o[$u] { op_history::<$t>(&[0, 0, 0, 1], See::Order) }
            refill[$u] { op_history::<$t>(&[0, 0, 1, 0], See::All) }
        }
    };
}
/// 8-bit keys, values in a list.
pub mod m8 {
    use super::*;
    type T = VebTreeType<u8, u8, Marker8>;
    short_histories! { 10, T }
}
pub mod m8e {
    use super::*;
    type T = VebTreeType<u8, (), Marker8Empty>;
    short_histories! { 10, T }
}
/// Nibble keys' worth of everything: hash-backed children that are standard maps.
pub mod hash_bt {
    use super::*;
    type T = Tree<u8, u8, BtMk, HashMapMarker<BtMk>>;
    short_histories! { 10, T }
}
/// Signed keys, array-backed children.
pub mod signed {
    use super::*;
    type T = Tree<i8, u8, BtMk, HashMapMarker<BtMk>>;
    short_histories! { 10, T }
}
/// 16-bit keys: the crate's byte tree as summary and as children, hash-backed.
pub mod hash16 {
    use super::*;
    type T = Tree<u16, u8, Marker8Empty, HashMapMarker<Marker8>>;
    short_histories! { 10, T }
}
pub mod hash16e {
    use super::*;
    type T = Tree<u16, (), Marker8Empty, HashMapMarker<Marker8Empty>>;
    short_histories! { 10, T }
}
/// 16-bit keys, byte-indexed children.
pub mod byte16 {
    use super::*;
    type T = Tree<u16, u8, Marker8Empty, ByteCollectionMarker<VecDequeMarker, Marker8>>;
    short_histories! { 10, T }
}
/// The ready-made 16-bit trees.
pub mod m16 {
    use super::*;
    type T = Tree<u16, u8, Marker8Empty, ArrayTreeCollectionMarker<SlotsMk<Marker8>>>;
    crate::harness! {
        ins[258] { op_history::<T>(&[0], See::All) }
        ins_rem[258] { op_history::<T>(&[0, 1], See::All) }
    }
}
pub mod m16e {
    use super::*;
    type T = Tree<u16, (), Marker8Empty, ArrayTreeCollectionMarker<SlotsMk<Marker8Empty>>>;
    crate::harness! {
        ins[258] { op_history::<T>(&[0], See::All) }
        ins_rem[258] { op_history::<T>(&[0, 1], See::All) }
    }
}
/// Boxed and size-tracked.
pub mod sized_box {
    use super::*;
    type T = SizedVebTree<VebTreeType<u8, u8, BoxMarker<TreeMarker<BtMk, HashMapMarker<BoxMarker<BtMk>>>>>>;
    short_histories! { 10, T }
}
/// Keys that are pairs.
pub mod pair {
    use super::*;
    type T = Tree<[u8; 2], u8, BtMk, HashMapMarker<BtMk>>;
    short_histories! { 10, T }
}
/// Array-backed children with inline slots.
pub mod inline {
    use super::*;
    type T = Tree<u8, u8, BtMk, ArrayTreeCollectionMarker<GenericArrayMarker<BtMk>>>;
    crate::harness! {
        ins[18] { op_history::<T>(&[0], See::All) }
    }
}
pub mod slots {
    use super::*;
    type T = Tree<u8, u8, BtMk, ArrayTreeCollectionMarker<BoxMarker<BtMk>>>;
    short_histories! { 18, T }
}
