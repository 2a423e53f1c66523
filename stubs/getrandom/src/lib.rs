//! Stand-in for the OS entropy source: bytes come from a counter the harness can move, so that a
//! harness can model "another process run with other entropy".
use std::cell::Cell;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("getrandom") } }
impl std::error::Error for Error {}
thread_local! { static STATE: Cell<u64> = const { Cell::new(0x1234_5678_9abc_def1) }; }
pub fn set_entropy(s: u64) { STATE.with(|c| c.set(s)); }
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    STATE.with(|c| {
        let mut s = c.get();
        for b in dest.iter_mut() {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            *b = (s >> 33) as u8;
        }
        c.set(s);
    });
    Ok(())
}
