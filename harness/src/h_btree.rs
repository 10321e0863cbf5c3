//! The standard ordered map as a tree.
use crate::env::BTreeMap;
use crate::nd::*;
use crate::suite::*;
use veb_tree::VebTree;

/// Up to three entries.
fn state<K: Key>() -> (BTreeMap<K, u8>, Log<K, u8>) {
    let (k, v) = (K::nd(), any());
    let mut t = <BTreeMap<K, u8> as VebTree>::from_monad(k, v);
    let mut o = Log::one(k, v);
    let mut i = 0;
    while i < 2 {
        if any() {
            let (k, v) = (K::nd(), any());
            assume(!o.has(k));
            // the container's own insertion, not the one under test
            BTreeMap::insert(&mut t, k, v);
            o.push(Change { ins: Some((k, v)), del: None });
        }
        i += 1;
    }
    (t, o)
}
pub mod byte {
    use super::*;
    type T = BTreeMap<u8, u8>;
    crate::tree_suite! { 9, T, state::<u8>(), true }
    pub mod chain {
        use super::*;
        crate::chain_suite! { 9, T, state::<u8>(), &[0, 0, 4] }
    }
}
pub mod signed {
    use super::*;
    type T = BTreeMap<i32, u8>;
    crate::tree_suite! { 9, T, state::<i32>(), true }
}
