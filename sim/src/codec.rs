//! Encoding and decoding through the code under test.

use std::io;

use amplify::{Bytes32, Wrapper};
use commit_verify::mpc;
use strict_encoding::{StreamReader, StreamWriter, StrictDecode, StrictEncode, StrictReader};

use crate::refm::H;

pub fn enc<T: StrictEncode>(v: &T) -> io::Result<Vec<u8>> {
    let mut w = StreamWriter::in_memory::<{ usize::MAX }>();
    v.strict_write(&mut w)?;
    Ok(w.unconfine())
}

/// Decodes a value that must take all of the bytes.
pub fn dec<T: StrictDecode>(b: &[u8]) -> Result<T, String> {
    let (v, used) = dec_prefix::<T>(b)?;
    if used != b.len() {
        return Err(format!("{} bytes left over", b.len() - used));
    }
    Ok(v)
}

/// Decodes a value from the beginning of the bytes; also returns how many it took.
pub fn dec_prefix<T: StrictDecode>(b: &[u8]) -> Result<(T, usize), String> {
    let mut r = StrictReader::with(StreamReader::in_memory::<{ usize::MAX }>(b));
    let v = T::strict_decode(&mut r).map_err(|e| e.to_string())?;
    let used = r.into_cursor().position() as usize;
    Ok((v, used))
}

pub fn pid(h: &H) -> mpc::ProtocolId { mpc::ProtocolId::from(*h) }
pub fn msg(h: &H) -> mpc::Message { mpc::Message::from(*h) }

pub fn raw<T: Wrapper<Inner = Bytes32>>(v: T) -> H { v.into_inner().to_byte_array() }
