//! Runs register-machine programs over the field types of the curve crate (spec/FieldMachine.tla).
//! Each program starts with {"op":"reset","f":"secp"|"secq"|"scalar"}.
#![allow(unused_imports)]
use ff::{Field, PrimeField, PrimeFieldBits};
use rand_core::{CryptoRng, RngCore};
use secq256k1::elliptic_curve::{ops::Reduce, IsHigh};
use secq256k1::field::{field_secp, field_secq, BaseField, SqrtRatio};
use secq256k1::{FieldBytes, Scalar, U256};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use vt_common::*;

struct Stream(Vec<u8>, usize);
impl RngCore for Stream {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.0[self.1 % self.0.len()];
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Stream {}

macro_rules! field_machine {
    ($name:ident, $T:ty, $powv:ident) => {
        mod $name {
            use super::*;
            pub type T = $T;
            pub fn o(s: &T) -> String {
                num_le(&BaseField::to_bytes(s))
            }
            pub fn seen(s: &T) -> Value {
                let b = BaseField::to_bytes(s);
                let again = <T as BaseField>::from_bytes(&b);
                let canon = bool::from(again.is_some()) && again.unwrap() == *s && bool::from(again.unwrap().ct_eq(s));
                let be = BaseField::to_be_bytes(s);
                let repr: [u8; 32] = s.to_repr().into();
                let sec1: [u8; 32] = s.to_sec1().into();
                let arr2: [u8; 32] = s.into();
                let back = T::from_repr(s.to_repr());
                let back2 = T::from_sec1(s.to_sec1());
                let serde = bincode::serialize(s).ok().and_then(|v| bincode::deserialize::<T>(&v).ok()).map(|x| x == *s).unwrap_or(false);
                json!({"out": num_le(&b), "canon": canon, "arr": arr2 == b, "be": hex(&be), "repr": repr == be && sec1 == be,
                       "back": bool::from(back.is_some()) && back.unwrap() == *s && bool::from(back2.is_some()) && back2.unwrap() == *s,
                       "odd": bool::from(s.is_odd()), "even": bool::from(s.is_even()), "zero": bool::from(Field::is_zero(s)), "dbg": format!("{:?}", s), "serde": serde})
            }
            pub fn opt(t: subtle::CtOption<T>, regs: &mut [T; 8], d: usize) -> Value {
                if !bool::from(t.is_some()) {
                    return json!({"none": true});
                }
                let x = t.unwrap();
                regs[d] = x;
                let mut s = seen(&x);
                s["none"] = json!(false);
                s
            }
            pub fn step(r: &Value, regs: &mut [T; 8]) -> Value {
                let op = st(r, "op");
                let rr = *regs;
                let a = || rr[us(r, "a")];
                let b = || rr[us(r, "b")];
                let form = r["form"].as_u64().unwrap_or(0);
                let v: T = match op {
                    "zero" => match form { 0 => T::zero(), 1 => T::default(), 2 => T::ZERO, _ => <T as Field>::zero() },
                    "one" => match form { 0 => T::one(), 1 => T::ONE, _ => <T as Field>::one() },
                    "raw" => T::from_raw(limbs::<4>(st(r, "v"))),
                    "u64" => T::from(limbs::<1>(st(r, "v"))[0]),
                    "wide" => T::from_bytes_wide(&arr(&le_bytes(st(r, "v"), 64))),
                    "random" => T::random(&mut Stream(le_bytes(st(r, "v"), 64), 0)),
                    "bytes" => return opt(<T as BaseField>::from_bytes(&arr(&le_bytes(st(r, "v"), 32))), regs, us(r, "d")),
                    "repr" => {
                        let mut v = le_bytes(st(r, "v"), 32);
                        v.reverse();
                        let fb = FieldBytes::clone_from_slice(&v);
                        return opt(if form == 0 { T::from_repr(fb) } else { T::from_sec1(fb) }, regs, us(r, "d"));
                    }
                    "dec" => match T::from_str_vartime(st(r, "t")) {
                        None => return json!({"none": true}),
                        Some(x) => {
                            regs[us(r, "d")] = x;
                            let mut s = seen(&x);
                            s["none"] = json!(false);
                            return s;
                        }
                    },
                    "add" => match form { 0 => a() + b(), 1 => &a() + &b(), 2 => a() + &b(), 3 => &a() + b(), 4 => { let mut x = a(); x += b(); x } 5 => { let mut x = a(); x += &b(); x } _ => T::add(&a(), &b()) },
                    "sub" => match form { 0 => a() - b(), 1 => &a() - &b(), 2 => a() - &b(), 3 => &a() - b(), 4 => { let mut x = a(); x -= b(); x } 5 => { let mut x = a(); x -= &b(); x } _ => T::sub(&a(), &b()) },
                    "mul" => match form { 0 => a() * b(), 1 => &a() * &b(), 2 => a() * &b(), 3 => &a() * b(), 4 => { let mut x = a(); x *= b(); x } 5 => { let mut x = a(); x *= &b(); x } _ => T::mul(&a(), &b()) },
                    "neg" => match form { 0 => -a(), 1 => -&a(), _ => T::neg(&a()) },
                    "double" => if form == 0 { T::double(&a()) } else { <T as Field>::double(&a()) },
                    "square" => if form == 0 { T::square(&a()) } else { <T as Field>::square(&a()) },
                    "cube" => Field::cube(&a()),
                    "pow" => a().pow(&limbs::<4>(st(r, "e"))),
                    "powv" => if form == 0 { a().$powv(&limbs::<4>(st(r, "e"))) } else { Field::pow_vartime(&a(), &limbs::<4>(st(r, "e"))) },
                    "pows" => a().pow_by_self(&b()),
                    "invert" => return opt(if form == 0 { T::invert(&a()) } else { <T as Field>::invert(&a()) }, regs, us(r, "d")),
                    "sqrt" => return opt(Field::sqrt(&a()), regs, us(r, "d")),
                    "sqrt_ratio" => {
                        let (q, y) = <T as SqrtRatio>::sqrt_ratio(&a(), &b());
                        regs[us(r, "d")] = y;
                        let mut s = seen(&y);
                        s["qr"] = json!(bool::from(q));
                        return s;
                    }
                    "batch" => {
                        let rs = uss(r, "rs");
                        let mut v: Vec<T> = rs.iter().map(|i| regs[*i]).collect();
                        let ret = T::batch_invert(&mut v);
                        for (k, i) in rs.iter().enumerate() {
                            regs[*i] = v[k];
                        }
                        return json!({"ret": o(&ret), "outs": v.iter().map(o).collect::<Vec<_>>()});
                    }
                    "sum" => { let v: Vec<T> = uss(r, "rs").iter().map(|i| regs[*i]).collect(); if form == 0 { v.iter().sum() } else { v.into_iter().sum() } }
                    "product" => { let v: Vec<T> = uss(r, "rs").iter().map(|i| regs[*i]).collect(); if form == 0 { v.iter().product() } else { v.into_iter().product() } }
                    "select" => T::conditional_select(&a(), &b(), Choice::from(us(r, "bit") as u8)),
                    "eq" => return json!({"res": a() == b(), "ct": bool::from(a().ct_eq(&b())), "ne": a() != b()}),
                    _ => panic!("driver: unknown op {}", op),
                };
                regs[us(r, "d")] = v;
                seen(&v)
            }
        }
    };
}
field_machine!(secp, field_secp::FieldElement, pow_vartime);
field_machine!(secq, field_secq::FieldElement, pow);

mod scalar {
    use super::*;
    pub type T = Scalar;
    pub fn seen(s: &T) -> Value {
        let b = s.to_bytes();
        let be: [u8; 32] = s.to_repr().into();
        let fb: [u8; 32] = FieldBytes::from(s).into();
        let back = T::from_repr(s.to_repr());
        let again = T::try_from(U256::from(*s));
        let bits: Vec<bool> = s.to_le_bits().iter().by_vals().collect();
        let nb: Vec<u8> = (0..32).map(|i| (0..8).fold(0u8, |x, k| x | ((bits[8 * i + k] as u8) << k))).collect();
        json!({"out": num_le(&b), "canon": again.is_ok() && again.unwrap() == *s, "arr": fb == be && nb == b, "be": hex(&be), "repr": true,
               "back": bool::from(back.is_some()) && back.unwrap() == *s && bool::from(back.unwrap().ct_eq(s)),
               "odd": bool::from(s.is_odd()), "even": bool::from(s.is_even()), "zero": bool::from(Field::is_zero(s)), "high": bool::from(s.is_high())})
    }
    pub fn step(r: &Value, regs: &mut [T; 8]) -> Value {
        let op = st(r, "op");
        let rr = *regs;
        let a = || rr[us(r, "a")];
        let b = || rr[us(r, "b")];
        let form = r["form"].as_u64().unwrap_or(0);
        let some = |x: Option<T>, regs: &mut [T; 8]| match x {
            None => json!({"none": true}),
            Some(x) => {
                regs[us(r, "d")] = x;
                let mut s = seen(&x);
                s["none"] = json!(false);
                s
            }
        };
        let v: T = match op {
            "zero" => match form { 0 => T::ZERO, 1 => T::default(), _ => T::zero() },
            "one" => match form { 0 => T::ONE, _ => T::one() },
            "raw" => T::from_uint_reduced(U256::from_le_slice(&le_bytes(st(r, "v"), 32))),
            "u64" => { let l = limbs::<1>(st(r, "v"))[0]; if l < 1 << 32 && form == 1 { T::from(l as u32) } else { T::from(l) } }
            "bytes" => return some(T::try_from(U256::from_le_slice(&le_bytes(st(r, "v"), 32))).ok(), regs),
            "repr" => {
                let mut v = le_bytes(st(r, "v"), 32);
                v.reverse();
                return some(Option::from(T::from_repr(FieldBytes::clone_from_slice(&v))), regs);
            }
            "dec" => return some(T::from_str_vartime(st(r, "t")), regs),
            "add" => match form { 0 => a() + b(), 1 => a() + &b(), 2 => { let mut x = a(); x += b(); x } _ => { let mut x = a(); x += &b(); x } },
            "sub" => match form { 0 => a() - b(), 1 => a() - &b(), 2 => { let mut x = a(); x -= b(); x } _ => { let mut x = a(); x -= &b(); x } },
            "mul" => match form { 0 => a() * b(), 1 => a() * &b(), 2 => { let mut x = a(); x *= b(); x } _ => { let mut x = a(); x *= &b(); x } },
            "neg" => -a(),
            "double" => Field::double(&a()),
            "select" => T::conditional_select(&a(), &b(), Choice::from(us(r, "bit") as u8)),
            "eq" => return json!({"res": a() == b(), "ct": bool::from(a().ct_eq(&b())), "ne": a() != b()}),
            "char" => {
                let bits: Vec<bool> = T::char_le_bits().iter().by_vals().collect();
                let nb: Vec<u8> = (0..32).map(|i| (0..8).fold(0u8, |x, k| x | ((bits[8 * i + k] as u8) << k))).collect();
                return json!({"out": num_le(&nb)});
            }
            _ => panic!("driver: unknown op {}", op),
        };
        regs[us(r, "d")] = v;
        seen(&v)
    }
}

fn main() {
    let mut f = String::new();
    let mut r1 = [secp::T::zero(); 8];
    let mut r2 = [secq::T::zero(); 8];
    let mut r3 = [Scalar::zero(); 8];
    serve(|r| {
        if st(r, "op") == "reset" {
            f = r["f"].as_str().unwrap_or("secp").to_string();
            r1 = [secp::T::zero(); 8];
            r2 = [secq::T::zero(); 8];
            r3 = [Scalar::zero(); 8];
            return json!({});
        }
        match f.as_str() {
            "secp" => secp::step(r, &mut r1),
            "secq" => secq::step(r, &mut r2),
            "scalar" => scalar::step(r, &mut r3),
            x => panic!("driver: field {}", x),
        }
    });
}
