/// Declares harnesses. Under Kani each becomes a proof harness `name::check` that ends in a cover
/// statement (its reachability is the vacuity witness); natively each is a plain function that
/// replays a counterexample.
#[macro_export]
macro_rules! harness {
    ($( $name:ident [$unwind:literal] $body:block )*) => {
        $( pub mod $name {
            #[allow(unused_imports)]
            use super::*;
            pub fn body() $body
            #[cfg(kani)]
            #[kani::proof]
            #[kani::unwind($unwind)]
            pub fn check() {
                body();
                kani::cover!(true, "harness end");
            }
            // the replayer's registry is the content of this section
            #[cfg(not(kani))]
            #[used]
            #[link_section = "vk_harness"]
            static ENTRY: $crate::nd::Entry = $crate::nd::Entry { name: module_path!(), run: body };
        } )*
    };
}

/// The harnesses every tree implementation gets: each operation, with lookups (`_f`) or ordered
/// queries (`_o`) afterwards. `$arb` yields an arbitrary (tree, oracle) pair.
#[macro_export]
macro_rules! tree_suite {
    ($u:literal, $t:ty, $arb:expr, $exact:expr) => {
        $crate::harness! {
            from_monad[$u] { op_from_monad::<$t>() }
            find[$u] { let (t, o) = $arb; obs_find(&t, &o); core::mem::forget(t) }
            order[$u] { let (t, o) = $arb; obs_order(&t, &o); core::mem::forget(t) }
            insert_f[$u] { let (t, o) = $arb; op_insert(t, &o, See::Find) }
            insert_o[$u] { let (t, o) = $arb; op_insert(t, &o, See::Order) }
            remove_f[$u] { let (t, o) = $arb; op_remove(t, &o, See::Find) }
            remove_o[$u] { let (t, o) = $arb; op_remove(t, &o, See::Order) }
            remove_min_f[$u] { let (t, o) = $arb; op_remove_min(t, &o, See::Find) }
            remove_min_o[$u] { let (t, o) = $arb; op_remove_min(t, &o, See::Order) }
            remove_max_f[$u] { let (t, o) = $arb; op_remove_max(t, &o, See::Find) }
            remove_max_o[$u] { let (t, o) = $arb; op_remove_max(t, &o, See::Order) }
            find_mut[$u] { let (t, o) = $arb; op_mut(t, &o, 0) }
            pred_mut[$u] { let (t, o) = $arb; op_mut(t, &o, 1) }
            succ_mut[$u] { let (t, o) = $arb; op_mut(t, &o, 2) }
            min_mut[$u] { let (t, o) = $arb; op_mut(t, &o, 3) }
            max_mut[$u] { let (t, o) = $arb; op_mut(t, &o, 4) }
            monad[$u] { let (t, o) = $arb; let n = o.count(); op_monad(t, &o, n, $exact) }
        }
    };
}
/// Two mutations in a row from an arbitrary state, and short histories from a single entry.
#[macro_export]
macro_rules! chain_suite {
    ($u:literal, $t:ty, $arb:expr, $h:expr) => {
        $crate::harness! {
            insert_any_f[$u] { let (t, o) = $arb; op_twice(t, &o, 0, See::Find) }
            insert_any_o[$u] { let (t, o) = $arb; op_twice(t, &o, 0, See::Order) }
            remove_any_f[$u] { let (t, o) = $arb; op_twice(t, &o, 1, See::Find) }
            remove_any_o[$u] { let (t, o) = $arb; op_twice(t, &o, 1, See::Order) }
            remove_min_any_f[$u] { let (t, o) = $arb; op_twice(t, &o, 2, See::Find) }
            remove_min_any_o[$u] { let (t, o) = $arb; op_twice(t, &o, 2, See::Order) }
            remove_max_any_f[$u] { let (t, o) = $arb; op_twice(t, &o, 3, See::Find) }
            remove_max_any_o[$u] { let (t, o) = $arb; op_twice(t, &o, 3, See::Order) }
            history_f[$u] { op_history::<$t>($h, See::Find) }
            history_o[$u] { op_history::<$t>($h, See::Order) }
        }
    };
}
/// The contract of `TreeCollection`: key type, collection type, room for keys, number of keys.
#[macro_export]
macro_rules! coll_suite {
    ($u:literal, $h:ty, $c:ty, $n:literal, $used:literal) => {
        $crate::harness! {
            create[$u] { let (c, a) = state::<$h, $c, $n>(1); agree(&c, &a); core::mem::forget(c) }
            get[$u] { let (c, a) = state::<$h, $c, $n>($used); agree(&c, &a); core::mem::forget(c) }
            insert_key[$u] { contract::<$h, $c, $n>($used, 0, false) }
            remove_key[$u] { contract::<$h, $c, $n>($used, 1, false) }
            maybe_remove_key[$u] { contract::<$h, $c, $n>($used, 2, false) }
            get_mut[$u] { contract::<$h, $c, $n>($used, 3, false) }
        }
    };
}
/// Two operations in a row.
#[macro_export]
macro_rules! coll_chain {
    ($u:literal, $h:ty, $c:ty, $n:literal, $used:literal) => {
        $crate::harness! {
            insert_key_any[$u] { contract::<$h, $c, $n>($used, 0, true) }
            remove_key_any[$u] { contract::<$h, $c, $n>($used, 1, true) }
            maybe_remove_key_any[$u] { contract::<$h, $c, $n>($used, 2, true) }
        }
    };
}
