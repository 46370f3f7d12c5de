//! The randomness seam. Every crate of the system under test that asks the operating system for random
//! bytes (in practice: `rand::thread_rng`, which seeds itself through `rand_core::OsRng`) is linked to this
//! crate instead of the real `getrandom`. The bytes come from a source the simulator installs for the running
//! OS thread, and the simulator can make the source fail.

use std::cell::RefCell;
use std::fmt;
use std::num::NonZeroU32;

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub struct Error(NonZeroU32);

impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const UNSUPPORTED: Error = Error(match NonZeroU32::new(Self::INTERNAL_START) {
        Some(v) => v,
        None => unreachable!(),
    });

    pub const fn raw_os_error(self) -> Option<i32> {
        if self.0.get() < Self::INTERNAL_START { Some(self.0.get() as i32) } else { None }
    }

    pub const fn code(self) -> NonZeroU32 { self.0 }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "simulated randomness failure {}", self.0) }
}

impl From<NonZeroU32> for Error {
    fn from(code: NonZeroU32) -> Self { Error(code) }
}

impl std::error::Error for Error {}

impl From<Error> for std::io::Error {
    fn from(err: Error) -> Self { std::io::Error::new(std::io::ErrorKind::Other, err) }
}

/// State of the simulated randomness device of one OS thread.
#[derive(Clone, Debug, Default)]
pub struct Source {
    /// State of the generator of the bytes (splitmix64).
    pub state: u64,
    /// Number of requests served.
    pub served: u64,
    /// Number of requests failed.
    pub failed: u64,
    /// All requests from the n-th on (counting from 0) fail, if set.
    pub fail_from: Option<u64>,
    /// The device repeats the same byte for ever, if set.
    pub stuck: Option<u8>,
}

thread_local! {
    static SOURCE: RefCell<Source> = RefCell::new(Source { state: 0x5eed, ..Source::default() });
}

/// Replaces the randomness device of the current thread.
pub fn install(source: Source) { SOURCE.with(|s| *s.borrow_mut() = source) }

/// Reads the state of the randomness device of the current thread.
pub fn inspect() -> Source { SOURCE.with(|s| s.borrow().clone()) }

/// Sets whether the device works from now on.
pub fn set_failing(fail: bool) {
    SOURCE.with(|s| {
        let mut s = s.borrow_mut();
        s.fail_from = if fail { Some(0) } else { None };
    })
}

fn next(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    SOURCE.with(|s| {
        let mut s = s.borrow_mut();
        let n = s.served + s.failed;
        if s.fail_from.is_some_and(|from| n >= from) {
            s.failed += 1;
            return Err(Error(NonZeroU32::new(5).expect("EIO is not zero")));
        }
        s.served += 1;
        for chunk in dest.chunks_mut(8) {
            let word = next(&mut s.state).to_le_bytes();
            chunk.copy_from_slice(&word[..chunk.len()]);
        }
        if let Some(byte) = s.stuck {
            dest.fill(byte);
        }
        Ok(())
    })
}
