//! Offline stand-in: k256's ECDSA signing needs it to link, nothing here signs.
use crypto_bigint::{ArrayEncoding, ByteArray, Integer};
use zeroize::{Zeroize, Zeroizing};
pub fn generate_k<D, I>(_x: &I, _n: &I, _h: &ByteArray<I>, _data: &[u8]) -> Zeroizing<I>
where
    I: ArrayEncoding + Integer + Zeroize,
{
    unimplemented!("signing is not part of this harness")
}
