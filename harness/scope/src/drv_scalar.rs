//! Runs register-machine programs over the repository's `Scalar` (spec/ScalarMachine.tla).
#![allow(dead_code, unused_imports)]
mod repo {
    #[path = "/repo/packages/Spartan-secq/src/scalar/scalar.rs"]
    pub mod scalar;
}
use rand_core::{CryptoRng, RngCore};
use repo::scalar::Scalar;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use vt_common::*;

/// an RNG that hands out a given byte string
struct Stream(Vec<u8>, usize);
impl RngCore for Stream {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.0[self.1 % self.0.len()];
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Stream {}

fn o(s: &Scalar) -> String {
    num_le(&s.to_bytes())
}

/// every observation of a value: its bytes, its identity with the value decoded from these bytes,
/// and its textual and serialised forms
fn seen(s: &Scalar) -> Value {
    let b = s.to_bytes();
    let again = Scalar::from_bytes(&b);
    let canon = bool::from(again.is_some()) && again.unwrap() == *s && bool::from(again.unwrap().ct_eq(s)) && !(again.unwrap() != *s);
    let arr2: [u8; 32] = s.into();
    let dbg = format!("{:?}", s);
    let ser = bincode::serialize(s).map(|v| hex(&v)).unwrap_or_default();
    json!({"out": num_le(&b), "canon": canon, "arr": arr2 == b, "dbg": dbg, "ser": ser})
}

fn main() {
    let mut regs = [Scalar::zero(); 8];
    serve(|r| {
        let op = st(r, "op");
        let a = || regs[us(r, "a")];
        let b = || regs[us(r, "b")];
        let form = r["form"].as_u64().unwrap_or(0);
        let v: Scalar = match op {
            "reset" => {
                regs = [Scalar::zero(); 8];
                return json!({});
            }
            "zero" => if form == 0 { Scalar::zero() } else { Scalar::default() },
            "one" => Scalar::one(),
            "raw" => Scalar::from_raw(limbs::<4>(st(r, "v"))),
            "u64" => Scalar::from(limbs::<1>(st(r, "v"))[0]),
            "wide" => Scalar::from_bytes_wide(&arr(&le_bytes(st(r, "v"), 64))),
            "random" => Scalar::random(&mut Stream(le_bytes(st(r, "v"), 64), 0)),
            "bytes" => {
                let t = Scalar::from_bytes(&arr(&le_bytes(st(r, "v"), 32)));
                if !bool::from(t.is_some()) {
                    return json!({"none": true});
                }
                let x = t.unwrap();
                regs[us(r, "d")] = x;
                let mut s = seen(&x);
                s["none"] = json!(false);
                return s;
            }
            "deser" => {
                let bytes = le_bytes(st(r, "v"), 32);
                let mut enc = 32u64.to_le_bytes().to_vec();
                enc.extend(bytes);
                match bincode::deserialize::<Scalar>(&enc) {
                    Ok(x) => {
                        regs[us(r, "d")] = x;
                        let mut s = seen(&x);
                        s["none"] = json!(false);
                        return s;
                    }
                    Err(_) => return json!({"none": true}),
                }
            }
            "add" => match form { 0 => a() + b(), 1 => &a() + &b(), 2 => a() + &b(), 3 => &a() + b(), 4 => { let mut x = a(); x += b(); x } 5 => { let mut x = a(); x += &b(); x } _ => Scalar::add(&a(), &b()) },
            "sub" => match form { 0 => a() - b(), 1 => &a() - &b(), 2 => a() - &b(), 3 => &a() - b(), 4 => { let mut x = a(); x -= b(); x } 5 => { let mut x = a(); x -= &b(); x } _ => Scalar::sub(&a(), &b()) },
            "mul" => match form { 0 => a() * b(), 1 => &a() * &b(), 2 => a() * &b(), 3 => &a() * b(), 4 => { let mut x = a(); x *= b(); x } 5 => { let mut x = a(); x *= &b(); x } _ => Scalar::mul(&a(), &b()) },
            "neg" => match form { 0 => -a(), 1 => -&a(), _ => Scalar::neg(&a()) },
            "double" => a().double(),
            "square" => a().square(),
            "pow" => a().pow(&limbs::<4>(st(r, "e"))),
            "powv" => a().pow_vartime(&limbs::<4>(st(r, "e"))),
            "invert" => {
                let t = a().invert();
                if !bool::from(t.is_some()) {
                    return json!({"none": true});
                }
                let x = t.unwrap();
                regs[us(r, "d")] = x;
                let mut s = seen(&x);
                s["none"] = json!(false);
                return s;
            }
            "batch" => {
                let rs = uss(r, "rs");
                let mut v: Vec<Scalar> = rs.iter().map(|i| regs[*i]).collect();
                let ret = Scalar::batch_invert(&mut v);
                for (k, i) in rs.iter().enumerate() {
                    regs[*i] = v[k];
                }
                return json!({"ret": o(&ret), "outs": v.iter().map(o).collect::<Vec<_>>()});
            }
            "sum" => { let v: Vec<Scalar> = uss(r, "rs").iter().map(|i| regs[*i]).collect(); if form == 0 { v.iter().sum() } else { v.into_iter().sum() } }
            "product" => { let v: Vec<Scalar> = uss(r, "rs").iter().map(|i| regs[*i]).collect(); if form == 0 { v.iter().product() } else { v.into_iter().product() } }
            "select" => Scalar::conditional_select(&a(), &b(), Choice::from(us(r, "bit") as u8)),
            "eq" => return json!({"res": a() == b(), "ct": bool::from(a().ct_eq(&b())), "ne": a() != b()}),
            _ => panic!("driver: unknown op {}", op),
        };
        regs[us(r, "d")] = v;
        seen(&v)
    });
}
