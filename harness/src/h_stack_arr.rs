//! Trees keyed by longer arrays.
use crate::env::BTreeMap;
use crate::suite::*;
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::tree::*;

pub struct BtMk;
impl<K: Ord + Clone, V> VebTreeMarker<K, V> for BtMk {
    type Tree = BTreeMap<K, V>;
}
macro_rules! few {
    ($n:ident $k:ty) => {
        pub mod $n {
            use super::*;
            type T = Tree<$k, u8, BtMk, HashMapMarker<BtMk>>;
            crate::harness! {
                ins2_find[10] { op_history::<T>(&[0, 0], See::Find) }
                ins2_order[10] { op_history::<T>(&[0, 0], See::Order) }
                ins3_rem_find[10] { op_history::<T>(&[0, 0, 1], See::Find) }
                ins3_rem_order[10] { op_history::<T>(&[0, 0, 1], See::Order) }
            }
        }
    };
}
few! { three [u8; 3] }
few! { four [u8; 4] }
few! { five [u8; 5] }
