//! Offline stand-in for `merlin` 3.0 (STROBE-128 transcripts), with an event recorder: every
//! transcript created while `log::start()` is active reports what it absorbed and squeezed.
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub mod log {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Event {
        New { id: u64, label: Vec<u8> },
        Absorb { id: u64, label: Vec<u8>, data: Vec<u8> },
        Challenge { id: u64, label: Vec<u8>, data: Vec<u8> },
    }
    static LOG: Mutex<Option<Vec<Event>>> = Mutex::new(None);
    pub fn start() {
        *LOG.lock().unwrap_or_else(|e| e.into_inner()) = Some(Vec::new());
    }
    pub fn take() -> Vec<Event> {
        LOG.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default()
    }
    pub(crate) fn push(e: Event) {
        if let Some(v) = LOG.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
            v.push(e);
        }
    }
}
use log::Event;

static NEXT: AtomicU64 = AtomicU64::new(0);

const R: u8 = 166;
const FLAG_I: u8 = 1;
const FLAG_A: u8 = 2;
const FLAG_C: u8 = 4;
const FLAG_M: u8 = 16;
const FLAG_K: u8 = 32;

#[derive(Clone)]
struct Strobe128 {
    state: [u8; 200],
    pos: u8,
    pos_begin: u8,
    cur_flags: u8,
}

impl Strobe128 {
    fn new(label: &[u8]) -> Self {
        let mut st = [0u8; 200];
        st[0..6].copy_from_slice(&[1, R + 2, 1, 0, 1, 96]);
        st[6..18].copy_from_slice(b"STROBEv1.0.2");
        keccakf::f1600(&mut st);
        let mut s = Strobe128 { state: st, pos: 0, pos_begin: 0, cur_flags: 0 };
        s.meta_ad(label, false);
        s
    }
    fn run_f(&mut self) {
        self.state[self.pos as usize] ^= self.pos_begin;
        self.state[self.pos as usize + 1] ^= 0x04;
        self.state[R as usize + 1] ^= 0x80;
        keccakf::f1600(&mut self.state);
        self.pos = 0;
        self.pos_begin = 0;
    }
    fn absorb(&mut self, data: &[u8]) {
        for b in data {
            self.state[self.pos as usize] ^= b;
            self.pos += 1;
            if self.pos == R {
                self.run_f();
            }
        }
    }
    fn squeeze(&mut self, data: &mut [u8]) {
        for b in data {
            *b = self.state[self.pos as usize];
            self.state[self.pos as usize] = 0;
            self.pos += 1;
            if self.pos == R {
                self.run_f();
            }
        }
    }
    fn begin_op(&mut self, flags: u8, more: bool) {
        if more {
            assert_eq!(self.cur_flags, flags);
            return;
        }
        let old_begin = self.pos_begin;
        self.pos_begin = self.pos + 1;
        self.cur_flags = flags;
        self.absorb(&[old_begin, flags]);
        if flags & (FLAG_C | FLAG_K) != 0 && self.pos != 0 {
            self.run_f();
        }
    }
    fn meta_ad(&mut self, data: &[u8], more: bool) {
        self.begin_op(FLAG_M | FLAG_A, more);
        self.absorb(data);
    }
    fn ad(&mut self, data: &[u8], more: bool) {
        self.begin_op(FLAG_A, more);
        self.absorb(data);
    }
    fn prf(&mut self, data: &mut [u8], more: bool) {
        self.begin_op(FLAG_I | FLAG_A | FLAG_C, more);
        self.squeeze(data);
    }
}

#[derive(Clone)]
pub struct Transcript {
    strobe: Strobe128,
    id: u64,
}

impl Transcript {
    pub fn new(label: &'static [u8]) -> Transcript {
        let id = NEXT.fetch_add(1, Ordering::SeqCst);
        log::push(Event::New { id, label: label.to_vec() });
        let mut t = Transcript { strobe: Strobe128::new(b"Merlin v1.0"), id };
        t.raw_append(b"dom-sep", label);
        t
    }
    pub fn id(&self) -> u64 {
        self.id
    }
    fn raw_append(&mut self, label: &[u8], message: &[u8]) {
        let len = (message.len() as u32).to_le_bytes();
        self.strobe.meta_ad(label, false);
        self.strobe.meta_ad(&len, true);
        self.strobe.ad(message, false);
    }
    pub fn append_message(&mut self, label: &'static [u8], message: &[u8]) {
        log::push(Event::Absorb { id: self.id, label: label.to_vec(), data: message.to_vec() });
        self.raw_append(label, message);
    }
    pub fn append_u64(&mut self, label: &'static [u8], x: u64) {
        self.append_message(label, &x.to_le_bytes());
    }
    pub fn challenge_bytes(&mut self, label: &'static [u8], dest: &mut [u8]) {
        let len = (dest.len() as u32).to_le_bytes();
        self.strobe.meta_ad(label, false);
        self.strobe.meta_ad(&len, true);
        self.strobe.prf(dest, false);
        log::push(Event::Challenge { id: self.id, label: label.to_vec(), data: dest.to_vec() });
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn vector() {
        let mut t = Transcript::new(b"test protocol");
        t.append_message(b"some label", b"some data");
        let mut b = [0u8; 32];
        t.challenge_bytes(b"challenge", &mut b);
        let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
        assert_eq!(h, "d5a21972d0d5fe320c0d263fac7fffb8145aa640af6e9bca177c03c7efcf0615");
    }
}
