//! Stands in for the sysroot `alloc` while harnesses are encoded: everything is re-exported except
//! `VecDeque` and `BTreeMap`, whose growable, pointer-linked storage the solver cannot carry with
//! symbolic content. The models keep the documented behaviour over a fixed-capacity array;
//! exceeding the capacity fails an assertion.
#![no_std]
#![allow(clippy::all)]
extern crate alloc as real;

pub use real::*;

mod btree;
mod deque;

pub mod collections {
    pub use real::collections::*;

    pub use crate::btree::BTreeMap;
    pub use crate::deque::VecDeque;
    pub mod vec_deque {
        pub use crate::deque::{IntoIter, Iter, IterMut, VecDeque};
    }
    pub mod btree_map {
        pub use crate::btree::{
            BTreeMap, Entry, IntoIter, Iter, IterMut, OccupiedEntry, Range, RangeMut, VacantEntry,
        };
    }
}
