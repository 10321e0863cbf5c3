//! Harnesses over the real crate.
#[macro_use]
#[path = "../../harness/src/macros.rs"]
mod macros;
#[path = "../../harness/src/nd.rs"]
pub mod nd;
#[path = "../../harness/src/suite.rs"]
pub mod suite;
#[path = "../../harness/src/uni.rs"]
pub mod uni;
#[path = "../../harness/src/h_tree.rs"]
pub mod h_tree;
#[path = "../../harness/src/h_set.rs"]
pub mod h_set;
#[path = "../../harness/src/h_map.rs"]
pub mod h_map;
#[path = "../../harness/src/h_key.rs"]
pub mod h_key;
#[path = "../../harness/src/h_box.rs"]
pub mod h_box;
#[path = "../../harness/src/h_sized.rs"]
pub mod h_sized;
#[path = "../../harness/src/h_iter.rs"]
pub mod h_iter;
#[path = "../../harness/src/h_coll.rs"]
pub mod h_coll;
