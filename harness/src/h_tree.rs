//! The crate's `Tree` over user-supplied components, from an arbitrary valid state.
use crate::nd::*;
use crate::suite::*;
use crate::uni::*;
use veb_tree::VebTree;

macro_rules! suite {
    ($m:ident, $b:literal, $n:literal, $u:literal) => {
        pub mod $m {
            use super::*;
            pub type TT = T<u8, $b, $n>;
            pub fn state() -> (TT, M<u8, $b, $n>) {
                arb::<u8, $b, $n>()
            }
            crate::tree_suite! { $u, TT, state(), false }
            pub mod chain {
                use super::*;
                crate::chain_suite! { $u, TT, state(), &[0, 0, 0, 4, 4] }
            }
            /// Work done on summary and sub-trees.
            pub mod cost {
                use super::*;
                fn spent(ops: u32) {
                    unsafe {
                        assert!(HEAVY <= ops, "more than one non-constant-time sub-operation");
                        assert!(CALLS <= 14, "work on sub-trees is not constant");
                    }
                }
                crate::harness! {
                    min_max[$u] {
                        let (mut t, _) = state();
                        match below(4) {
                            0 => { t.min_val(); }
                            1 => { t.max_val(); }
                            2 => { t.min_val_mut(); }
                            _ => { t.max_val_mut(); }
                        }
                        spent(0);
                        core::mem::forget(t);
                    }
                    monad[$u] {
                        let (t, _) = state();
                        let _ = t.is_monad();
                        let _ = t.len_hint();
                        let r = t.into_monad();
                        spent(0);
                        core::mem::forget(r);
                    }
                    find[$u] { let (t, _) = state(); t.find(K::nd()); spent(1); core::mem::forget(t); }
                    pred[$u] { let (t, _) = state(); t.predecessor(K::nd()); spent(1); core::mem::forget(t); }
                    succ[$u] { let (t, _) = state(); t.successor(K::nd()); spent(1); core::mem::forget(t); }
                    find_mut[$u] { let (mut t, _) = state(); t.find_mut(K::nd()); spent(1); core::mem::forget(t); }
                    pred_mut[$u] { let (mut t, _) = state(); t.predecessor_mut(K::nd()); spent(1); core::mem::forget(t); }
                    succ_mut[$u] { let (mut t, _) = state(); t.successor_mut(K::nd()); spent(1); core::mem::forget(t); }
                    insert[$u] { let (mut t, _) = state(); t.insert(K::nd(), any::<u8>()); spent(1); core::mem::forget(t); }
                    remove[$u] { let (t, _) = state(); let r = t.remove(K::nd()); spent(1); core::mem::forget(r); }
                    remove_min[$u] { let (t, _) = state(); let r = t.remove_min(); spent(1); core::mem::forget(r); }
                    remove_max[$u] { let (t, _) = state(); let r = t.remove_max(); spent(1); core::mem::forget(r); }
                }
            }
            pub mod clone {
                use super::*;
                crate::harness! {
                    equal[$u] {
                        let (t, m) = state();
                        let c = t.clone();
                        core::mem::forget(t);
                        obs(&c, &m);
                        core::mem::forget(c);
                    }
                    original_kept[$u] {
                        let (t, m) = state();
                        let c = t.clone();
                        let r = step(c, &m, below(4));
                        obs(&t, &m);
                        core::mem::forget((r, t));
                    }
                    clone_kept[$u] {
                        let (t, m) = state();
                        let c = t.clone();
                        let r = step(t, &m, below(4));
                        obs(&c, &m);
                        core::mem::forget((r, c));
                    }
                    // the clone keeps working
                    clone_works[$u] {
                        let (t, m) = state();
                        let c = t.clone();
                        core::mem::forget(t);
                        op_step(c, &m, below(4), See::All);
                    }
                }
            }
            /// The form in which the key is passed makes no difference.
            pub mod forms {
                use super::*;
                use veb_tree::key::MaybeBorrowed;
                type E = Option<(u8, u8)>;
                fn e<const B: u32>(r: Option<(MaybeBorrowed<'_, K<B>>, &u8)>) -> E {
                    match r { Some((k, v)) => Some(((*k).0, *v)), None => None }
                }
                fn em<const B: u32>(r: Option<(MaybeBorrowed<'_, K<B>>, &mut u8)>) -> E {
                    match r { Some((k, v)) => Some(((*k).0, *v)), None => None }
                }
                crate::harness! {
                    shared[$u] {
                        let (t, _) = state();
                        let q = K::<$b>::nd();
                        let form = below(3);
                        let (f, p, s) = (e(t.find(q)), e(t.predecessor(q)), e(t.successor(q)));
                        let (f2, p2, s2) = match form {
                            0 => (e(t.find(&q)), e(t.predecessor(&q)), e(t.successor(&q))),
                            1 => (e(t.find(MaybeBorrowed::Owned(q))), e(t.predecessor(MaybeBorrowed::Owned(q))), e(t.successor(MaybeBorrowed::Owned(q)))),
                            _ => (e(t.find(MaybeBorrowed::Borrowed(&q))), e(t.predecessor(MaybeBorrowed::Borrowed(&q))), e(t.successor(MaybeBorrowed::Borrowed(&q)))),
                        };
                        assert!(f == f2 && p == p2 && s == s2, "result depends on the form of the key");
                        core::mem::forget(t);
                    }
                    mutable[$u] {
                        let (mut t, _) = state();
                        let q = K::<$b>::nd();
                        let form = below(3);
                        let (f, p, s) = (em(t.find_mut(q)), em(t.predecessor_mut(q)), em(t.successor_mut(q)));
                        let (f2, p2, s2) = match form {
                            0 => (em(t.find_mut(&q)), em(t.predecessor_mut(&q)), em(t.successor_mut(&q))),
                            1 => (em(t.find_mut(MaybeBorrowed::Owned(q))), em(t.predecessor_mut(MaybeBorrowed::Owned(q))), em(t.successor_mut(MaybeBorrowed::Owned(q)))),
                            _ => (em(t.find_mut(MaybeBorrowed::Borrowed(&q))), em(t.predecessor_mut(MaybeBorrowed::Borrowed(&q))), em(t.successor_mut(MaybeBorrowed::Borrowed(&q)))),
                        };
                        assert!(f == f2 && p == p2 && s == s2, "result depends on the form of the key");
                        core::mem::forget(t);
                    }
                    remove[$u] {
                        let (t, m) = state();
                        let q = K::<$b>::nd();
                        let r = match below(4) {
                            0 => t.remove(q),
                            1 => t.remove(&q),
                            2 => t.remove(MaybeBorrowed::Owned(q)),
                            _ => t.remove(MaybeBorrowed::Borrowed(&q)),
                        };
                        match &r {
                            Ok((_, (k, v))) => assert!(m.has(q) && *k == q && *v == m.val(q), "removal depends on the form of the key"),
                            Err(_) => assert!(!m.has(q), "removal depends on the form of the key"),
                        }
                        core::mem::forget(r);
                    }
                }
            }
        }
    };
}
suite!(u16keys, 2, 4, 18);
suite!(u64keys, 3, 8, 66);
suite!(u256keys, 4, 16, 258);
