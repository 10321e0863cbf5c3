//! Source of symbolic values. Under Kani every `nd()` is a fresh solver variable; natively the
//! values come from a replay file (one byte string per call, in call order), so that the very same
//! harness body re-executes a solver counterexample against the real build.

pub trait Nd: Sized {
    fn nd() -> Self;
}

#[cfg(kani)]
macro_rules! prim {
    ($($t:ty)*) => { $( impl Nd for $t { #[inline] fn nd() -> Self { kani::any() } } )* };
}
#[cfg(not(kani))]
macro_rules! prim {
    ($($t:ty)*) => { $( impl Nd for $t { fn nd() -> Self {
        let b = queue::next(core::mem::size_of::<$t>());
        let mut a = [0u8; core::mem::size_of::<$t>()];
        a.copy_from_slice(&b);
        <$t>::from_le_bytes(a)
    } } )* };
}
prim! { u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 }

#[cfg(kani)]
impl Nd for bool {
    fn nd() -> Self {
        kani::any()
    }
}
#[cfg(not(kani))]
impl Nd for bool {
    fn nd() -> Self {
        queue::next(1)[0] & 1 == 1
    }
}

pub fn any<T: Nd>() -> T {
    T::nd()
}

/// A value in `0..n`.
pub fn below(n: u16) -> u8 {
    let v: u8 = any();
    #[cfg(not(kani))]
    let v = if queue::seeded() { (v as u16 % n) as u8 } else { v };
    assume((v as u16) < n);
    v
}

#[cfg(kani)]
#[inline]
pub fn assume(c: bool) {
    kani::assume(c)
}
#[cfg(not(kani))]
pub fn assume(c: bool) {
    if !c {
        queue::unmet();
    }
}

#[macro_export]
macro_rules! reach {
    ($msg:literal) => {
        #[cfg(kani)]
        kani::cover!(true, $msg);
    };
}

/// A harness, as the replayer sees it.
#[cfg(not(kani))]
#[repr(C)]
pub struct Entry {
    pub name: &'static str,
    pub run: fn(),
}
#[cfg(not(kani))]
pub fn all() -> &'static [Entry] {
    #[allow(improper_ctypes)]
    extern "C" {
        #[link_name = "__start_vk_harness"]
        static START: Entry;
        #[link_name = "__stop_vk_harness"]
        static STOP: Entry;
    }
    unsafe {
        let (a, b) = (&raw const START, &raw const STOP);
        core::slice::from_raw_parts(a, b.offset_from(a) as usize)
    }
}

#[cfg(not(kani))]
pub mod queue {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! {
        static Q: RefCell<(VecDeque<Vec<u8>>, Option<u64>)> = const { RefCell::new((VecDeque::new(), None)) };
    }
    /// Replay these values.
    pub fn load(vals: Vec<Vec<u8>>) {
        Q.with(|q| *q.borrow_mut() = (vals.into(), None));
    }
    /// Pseudo-random values instead (self-test of the harnesses only; never decides a property).
    pub fn seed(s: u64) {
        Q.with(|q| *q.borrow_mut() = (VecDeque::new(), Some(s | 1)));
    }
    pub fn seeded() -> bool {
        Q.with(|q| q.borrow().1.is_some())
    }
    /// Marker payload: an assumption does not hold on this input.
    pub struct Unmet;
    pub fn unmet() -> ! {
        std::panic::panic_any(Unmet)
    }
    pub fn next(n: usize) -> Vec<u8> {
        Q.with(|q| {
            let mut q = q.borrow_mut();
            if let Some(s) = q.1.as_mut() {
                let mut out = vec![];
                let mut step = || {
                    *s ^= *s << 13;
                    *s ^= *s >> 7;
                    *s ^= *s << 17;
                    (*s >> 24) as u8
                };
                // favour small and dense values now and then
                let mode = step() % 4;
                for i in 0..n {
                    let b = step();
                    out.push(match mode {
                        0 => b,
                        1 => {
                            if i == 0 { b % 8 } else { 0 }
                        }
                        2 => {
                            if i == 0 { b | 0xf0 } else { 0xff }
                        }
                        _ => b & step(),
                    });
                }
                return out;
            }
            match q.0.pop_front() {
                Some(v) if v.len() == n => v,
                // values the solver left out of the trace are irrelevant to it
                Some(mut v) => {
                    v.resize(n, 0);
                    v
                }
                None => vec![0; n],
            }
        })
    }
}
