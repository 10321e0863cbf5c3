//! Runs a harness natively, against the real crate and the real containers.
//!   replay --list                      names of all harnesses
//!   replay --replay FILE               re-executes a counterexample; exit 3 if it fails there
//!   replay --self-test NAME ROUNDS     pseudo-random inputs; tests the harnesses, decides nothing
#![allow(dropping_copy_types, forgetting_copy_types)]
#[macro_use]
#[path = "../../harness/src/macros.rs"]
mod macros;
macro_rules! mods { ($($m:ident $f:literal)*) => { $( #[path = $f] pub mod $m; )* } }
mods! {
    nd "../../harness/src/nd.rs"
    suite "../../harness/src/suite.rs"
    uni "../../harness/src/uni.rs"
    h_tree "../../harness/src/h_tree.rs"
    h_set "../../harness/src/h_set.rs"
    h_map "../../harness/src/h_map.rs"
    h_key "../../harness/src/h_key.rs"
    h_box "../../harness/src/h_box.rs"
    h_sized "../../harness/src/h_sized.rs"
    h_iter "../../harness/src/h_iter.rs"
    h_coll "../../harness/src/h_coll.rs"
    h_arr "../../harness/src/h_arr.rs"
    h_list "../../harness/src/h_list.rs"
    h_hash "../../harness/src/h_hash.rs"
    h_btree "../../harness/src/h_btree.rs"
    parts "../../harness/src/parts.rs"
    h_stack "../../harness/src/h_stack.rs"
    h_pat "../../harness/src/h_pat.rs"
    h_stack_arr "../../harness/src/h_stack_arr.rs"
}

pub mod env {
    pub use hashbrown::HashMap;
    pub use std::collections::BTreeMap;
}

use std::panic::{catch_unwind, AssertUnwindSafe};

fn run(f: fn()) -> Result<bool, String> {
    // a run before this one must not show through
    unsafe { uni::SLACK = (0, Some(0)) };
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Ok(true),
        Err(e) => {
            if e.downcast_ref::<nd::queue::Unmet>().is_some() {
                Ok(false)
            } else if let Some(s) = e.downcast_ref::<&str>() {
                Err(s.to_string())
            } else if let Some(s) = e.downcast_ref::<String>() {
                Err(s.clone())
            } else {
                Err("panic".into())
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let all = nd::all();
    let name = |n: &str| n.strip_prefix("replay::").unwrap_or(n).to_string();
    match a.get(1).map(|s| s.as_str()) {
        Some("--list") => {
            for e in all {
                println!("{}", name(e.name));
            }
        }
        Some("--replay") => {
            // one line "harness NAME", then one line of hexadecimal bytes per symbolic value
            let text = std::fs::read_to_string(&a[2]).unwrap();
            let mut f = None;
            let mut vals = vec![];
            for l in text.lines() {
                if let Some(n) = l.strip_prefix("harness ") {
                    f = all.iter().find(|x| name(x.name) == n).map(|x| x.run);
                } else if let Some(h) = l.strip_prefix("value") {
                    let h = h.trim();
                    vals.push((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect());
                }
            }
            let Some(f) = f else {
                println!("unknown harness");
                std::process::exit(4)
            };
            nd::queue::load(vals);
            match run(f) {
                Ok(true) => println!("NOT REPRODUCED: the harness passes on these values"),
                Ok(false) => println!("NOT REPRODUCED: these values do not satisfy the harness's assumptions"),
                Err(m) => {
                    println!("REPRODUCED: {m}");
                    std::process::exit(3)
                }
            }
        }
        Some("--self-test") => {
            std::panic::set_hook(Box::new(|_| {}));
            let rounds: u64 = a[3].parse().unwrap();
            let mut bad = 0;
            for nd::Entry { name: n, run: f } in all.iter().filter(|x| name(x.name).contains(&a[2])) {
                let (mut ran, mut fail) = (0u64, None);
                for s in 0..rounds {
                    nd::queue::seed((s + 1).wrapping_mul(0x9E3779B97F4A7C15));
                    match run(*f) {
                        Ok(true) => ran += 1,
                        Ok(false) => {}
                        Err(m) => fail = Some((s, m)),
                    }
                }
                if ran == 0 || fail.is_some() {
                    println!("{} ran {ran} {fail:?}", name(n));
                    bad += fail.is_some() as u32;
                }
            }
            println!("{} harnesses, {bad} failing", all.len());
            std::process::exit((bad > 0) as i32);
        }
        _ => std::process::exit(2),
    }
}
