//! Simulation stand-in for `getrandom`: every thread has a stream that the simulator seeds.
use std::cell::Cell;
use std::fmt;

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct Error(());

impl Error {
    pub const fn raw_os_error(self) -> Option<i32> {
        None
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("simulated")
    }
}
impl std::error::Error for Error {}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e)
    }
}

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0x9E37_79B9_7F4A_7C15) };
    static DRAWS: Cell<u64> = const { Cell::new(0) };
}

/// Seeds the stream of the current thread.
pub fn sim_seed(seed: u64) {
    STATE.with(|s| s.set(seed));
}
/// Position of the stream, to let twins draw the same values.
pub fn sim_state() -> u64 {
    STATE.with(|s| s.get())
}
/// Number of calls on this thread.
pub fn sim_draws() -> u64 {
    DRAWS.with(|s| s.get())
}

fn next() -> u64 {
    STATE.with(|s| {
        let x = s.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
        s.set(x);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    })
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    DRAWS.with(|d| d.set(d.get() + 1));
    for c in dest.chunks_mut(8) {
        let v = next().to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
    Ok(())
}
