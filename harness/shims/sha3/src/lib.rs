//! Offline stand-in for `sha3` 0.8: SHAKE256.
pub use digest::{ExtendableOutput, Input};
const RATE: usize = 136;
#[derive(Clone, Default)]
pub struct Shake256 {
    buf: Vec<u8>,
}
pub struct Sha3XofReader {
    st: [u8; 200],
    pos: usize,
}
impl Input for Shake256 {
    fn input<B: AsRef<[u8]>>(&mut self, data: B) {
        self.buf.extend_from_slice(data.as_ref());
    }
}
impl ExtendableOutput for Shake256 {
    type Reader = Sha3XofReader;
    fn xof_result(self) -> Sha3XofReader {
        let mut msg = self.buf;
        msg.push(0x1f);
        while msg.len() % RATE != 0 {
            msg.push(0);
        }
        *msg.last_mut().unwrap() |= 0x80;
        let mut st = [0u8; 200];
        for blk in msg.chunks(RATE) {
            for (i, b) in blk.iter().enumerate() {
                st[i] ^= b;
            }
            keccakf::f1600(&mut st);
        }
        Sha3XofReader { st, pos: 0 }
    }
}
impl std::io::Read for Sha3XofReader {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        for o in out.iter_mut() {
            if self.pos == RATE {
                keccakf::f1600(&mut self.st);
                self.pos = 0;
            }
            *o = self.st[self.pos];
            self.pos += 1;
        }
        Ok(out.len())
    }
}
#[cfg(test)]
mod tests {
    use super::*;
    use std::io::Read;
    #[test]
    fn empty() {
        let mut r = Shake256::default().xof_result();
        let mut b = [0u8; 16];
        r.read_exact(&mut b).unwrap();
        let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
        assert_eq!(h, "46b9dd2b0ba88d13233b3feb743eeb24");
    }
}
