//! What the pattern `[a, b, name @ .., c]` means, as a function: Kani 0.68 cannot compile such
//! patterns, so the copy of the source that is encoded calls this instead.
#![no_std]
use core::mem::ManuallyDrop;

/// Splits into the first `PRE`, the middle `M` and the last `POST` elements.
pub trait Sub<const PRE: usize, const POST: usize, Mid> {
    type Pre;
    type Post;
    fn sub(self) -> (Self::Pre, Mid, Self::Post);
}
impl<T, const N: usize, const PRE: usize, const M: usize, const POST: usize> Sub<PRE, POST, [T; M]> for [T; N] {
    type Pre = [T; PRE];
    type Post = [T; POST];
    fn sub(self) -> ([T; PRE], [T; M], [T; POST]) {
        const { assert!(PRE + M + POST == N) };
        let a = ManuallyDrop::new(self);
        let p = a.as_ptr();
        // SAFETY: the three ranges partition the array, which is not used or dropped afterwards
        unsafe { (p.cast::<[T; PRE]>().read(), p.add(PRE).cast::<[T; M]>().read(), p.add(PRE + M).cast::<[T; POST]>().read()) }
    }
}
impl<'a, T, const N: usize, const PRE: usize, const M: usize, const POST: usize> Sub<PRE, POST, &'a [T; M]> for &'a [T; N] {
    type Pre = [&'a T; PRE];
    type Post = [&'a T; POST];
    fn sub(self) -> ([&'a T; PRE], &'a [T; M], [&'a T; POST]) {
        const { assert!(PRE + M + POST == N) };
        // SAFETY: the middle range lies within the array
        let m = unsafe { &*self.as_ptr().add(PRE).cast::<[T; M]>() };
        (core::array::from_fn(|i| &self[i]), m, core::array::from_fn(|i| &self[PRE + M + i]))
    }
}
pub fn sub<const PRE: usize, const POST: usize, Mid, S: Sub<PRE, POST, Mid>>(s: S) -> (S::Pre, Mid, S::Post) {
    s.sub()
}
