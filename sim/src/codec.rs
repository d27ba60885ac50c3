//! Wire and disk encodings: the library's own (de)serialisers in all the forms it ships.
use crate::core::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use serde::{de::DeserializeOwned, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Compressed,
    Uncompressed,
    Json,
    Bincode,
}
pub const MODES: [Mode; 4] = [Mode::Compressed, Mode::Uncompressed, Mode::Json, Mode::Bincode];

pub trait Obj: CanonicalSerialize + CanonicalDeserialize + Serialize + DeserializeOwned {}
impl<T: CanonicalSerialize + CanonicalDeserialize + Serialize + DeserializeOwned> Obj for T {}

pub fn enc_raw<T: Obj>(m: Mode, t: &T) -> Result<Vec<u8>, String> {
    match m {
        Mode::Compressed => {
            let mut v = vec![];
            t.serialize_compressed(&mut v).map_err(|e| format!("{:?}", e))?;
            Ok(v)
        }
        Mode::Uncompressed => {
            let mut v = vec![];
            t.serialize_uncompressed(&mut v).map_err(|e| format!("{:?}", e))?;
            Ok(v)
        }
        Mode::Json => serde_json::to_vec(t).map_err(|e| e.to_string()),
        Mode::Bincode => bincode::serialize(t).map_err(|e| e.to_string()),
    }
}
pub fn dec_raw<T: Obj>(m: Mode, b: &[u8]) -> Result<T, String> {
    match m {
        Mode::Compressed => T::deserialize_compressed(b).map_err(|e| format!("{:?}", e)),
        Mode::Uncompressed => T::deserialize_uncompressed(b).map_err(|e| format!("{:?}", e)),
        Mode::Json => serde_json::from_slice(b).map_err(|e| e.to_string()),
        Mode::Bincode => bincode::deserialize(b).map_err(|e| e.to_string()),
    }
}
pub fn enc<T: Obj>(cx: &mut Cx, m: Mode, t: &T) -> R<Vec<u8>> {
    cx.ok("serialize", || enc_raw(m, t))
}
pub fn dec<T: Obj>(cx: &mut Cx, m: Mode, b: &[u8]) -> R<T> {
    cx.ok("deserialize", || dec_raw(m, b))
}
/// encode, then decode: what the other end of a transport sees
pub fn ship<T: Obj + PartialEq + std::fmt::Debug>(cx: &mut Cx, m: Mode, t: &T) -> R<T> {
    let b = enc(cx, m, t)?;
    let u: T = dec(cx, m, &b)?;
    cx.check();
    if &u != t {
        return viol("codec:roundtrip", format!("{:?} round trip changed a value", m));
    }
    Ok(u)
}
