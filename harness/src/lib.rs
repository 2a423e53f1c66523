//! Verification harnesses. Every `h_*` function is an entry point: the symbolic executor runs its
//! LLVM IR with the `symapi` inputs symbolic, the `replay` binary runs the very same function
//! natively on recorded inputs.
#![allow(clippy::all)]
pub mod common;
macro_rules! modules {
    ($($m:ident $f:literal),* $(,)?) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn entries() -> Vec<Entry> {
            let mut v: Vec<Entry> = Vec::new();
            $(#[cfg(feature = $f)] v.extend_from_slice($m::ENTRIES);)*
            v
        }
    };
}
pub type Entry = (&'static str, fn());
modules!(eval "eval", moves "moves", split "split", ls "ls", sched "sched", rr "rr", models "models", ga "ga", decomp "decomp", files "files", prog "prog");
/// Declares harness entry points and the table of them.
#[macro_export]
macro_rules! entries {
    ($($name:ident),* $(,)?) => {
        pub const ENTRIES: &[$crate::Entry] = &[$((stringify!($name), $name as fn())),*];
    };
}
