//! Hash-backed collections of sub-trees.
use crate::env::HashMap;
use crate::h_coll::*;
use crate::uni::*;
use veb_tree::key::U4;

pub mod own {
    use super::*;
    type C = HashMap<D<2>, L>;
    crate::coll_suite! { 8, D<2>, C, 4, 4 }
    pub mod chain {
        use super::*;
        crate::coll_chain! { 8, D<2>, C, 4, 3 }
    }
}
pub mod byte {
    use super::*;
    type C = HashMap<u8, L>;
    crate::coll_suite! { 8, u8, C, 4, 3 }
}
pub mod nibble {
    use super::*;
    type C = HashMap<U4, L>;
    crate::coll_suite! { 8, U4, C, 4, 3 }
}
pub mod signed {
    use super::*;
    type C = HashMap<i32, L>;
    crate::coll_suite! { 8, i32, C, 4, 3 }
}
pub mod wide {
    use super::*;
    type C = HashMap<[u16; 2], L>;
    crate::coll_suite! { 8, [u16; 2], C, 4, 3 }
}
