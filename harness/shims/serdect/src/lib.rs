//! Offline stand-in for `serdect` 0.1: hex for human-readable formats, bytes otherwise.
pub use serde;
fn hexup(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02X}", x)).collect()
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
pub mod slice {
    use super::*;
    use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize_hex_upper_or_bin<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() {
            hexup(v.as_ref()).serialize(s)
        } else {
            v.as_ref().serialize(s)
        }
    }
    pub fn deserialize_hex_or_bin_vec<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        if d.is_human_readable() {
            let st = <String>::deserialize(d)?;
            unhex(&st).ok_or_else(|| D::Error::custom("bad hex"))
        } else {
            Vec::deserialize(d)
        }
    }
}
pub mod array {
    use super::*;
    use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize_hex_upper_or_bin<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        super::slice::serialize_hex_upper_or_bin(&v.as_ref(), s)
    }
    pub fn deserialize_hex_or_bin<'de, D: Deserializer<'de>>(buf: &mut [u8], d: D) -> Result<(), D::Error> {
        let v = if d.is_human_readable() {
            let st = <String>::deserialize(d)?;
            unhex(&st).ok_or_else(|| D::Error::custom("bad hex"))?
        } else {
            Vec::<u8>::deserialize(d)?
        };
        if v.len() != buf.len() {
            return Err(D::Error::custom("bad length"));
        }
        buf.copy_from_slice(&v);
        Ok(())
    }
    #[allow(unused)]
    fn _u<T: Serialize>(_: T) {}
}
