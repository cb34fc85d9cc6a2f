//! Runs register-machine programs over the curve's points (spec/Curve.tla, TraceCurve.tla).
use libspartan::verif::commitments::{Commitments, MultiCommitGens};
use libspartan::verif::group::{CompressedGroupExt, DecompressEncodedPoint, GroupElement, VartimeMultiscalarMul};
use libspartan::verif::scalar::Scalar;
use secq256k1::affine::Group;
use secq256k1::{AffinePoint, EncodedPoint, ProjectivePoint};
use vt_common::*;

fn sc(s: &str) -> Scalar {
    Scalar::from_raw(limbs::<4>(s))
}
/// the scalar type of the curve crate
fn core(s: &str) -> secq256k1::Scalar {
    use secq256k1::elliptic_curve::ops::Reduce;
    secq256k1::Scalar::from_uint_reduced(secq256k1::U256::from_le_slice(&le_bytes(s, 32)))
}
fn enc(b: &[u8]) -> Option<EncodedPoint> {
    EncodedPoint::from_bytes(b).ok()
}
fn coords(p: &AffinePoint) -> Value {
    use secq256k1::elliptic_curve::sec1::ToEncodedPoint;
    let e = p.0.to_encoded_point(false);
    match (e.x(), e.y()) {
        (Some(x), Some(y)) => json!([num_be(x), num_be(y)]),
        _ => json!([]),
    }
}
fn seen(p: &AffinePoint) -> Value {
    let c = p.compress();
    let back = AffinePoint::decompress(c);
    let back = bool::from(back.is_some()) && back.unwrap() == *p;
    let un = c.unpack().map(|q| q == *p).unwrap_or(false);
    let de = DecompressEncodedPoint::decompress(&c).map(|q| q == *p).unwrap_or(false);
    let proj = AffinePoint::from(ProjectivePoint::from(p.0)) == *p;
    let ser = bincode::serialize(&c).ok().and_then(|v| bincode::deserialize::<EncodedPoint>(&v).ok()).map(|x| x == c).unwrap_or(false);
    json!({"out": coords(p), "enc": hex(c.as_bytes()), "back": back && un && de, "proj": proj, "ser": ser, "id": bool::from(Group::is_identity(p))})
}
fn main() {
    let mut r = [AffinePoint::identity(); 8];
    let mut gens: Option<MultiCommitGens> = None;
    serve(|q| {
        let op = st(q, "op");
        let form = q["form"].as_u64().unwrap_or(0);
        let (a, b, d) = (q["a"].as_u64().unwrap_or(0) as usize, q["b"].as_u64().unwrap_or(0) as usize, q["d"].as_u64().unwrap_or(0) as usize);
        macro_rules! set {
            ($e:expr) => {{
                let v = $e;
                r[d] = v;
                seen(&v)
            }};
        }
        macro_rules! opt {
            ($e:expr) => {{
                let v: Option<AffinePoint> = $e;
                match v {
                    Some(p) => {
                        r[d] = p;
                        let mut j = seen(&p);
                        j["none"] = json!(false);
                        j
                    }
                    None => json!({"none": true}),
                }
            }};
        }
        let ct = |t: secq256k1::elliptic_curve::subtle::CtOption<AffinePoint>| if bool::from(t.is_some()) { Some(t.unwrap()) } else { None };
        match op {
            "reset" => {
                r = [AffinePoint::identity(); 8];
                gens = None;
                json!({})
            }
            "id" => set!(match form % 3 {
                0 => AffinePoint::identity(),
                1 => <AffinePoint as Group>::identity(),
                _ => AffinePoint::default(),
            }),
            "gen" => set!(match form % 2 {
                0 => AffinePoint::generator(),
                _ => <AffinePoint as Group>::generator(),
            }),
            // any byte string of a SEC1 form
            "dec" => {
                let bytes = unhex(st(q, "h"));
                opt!(match enc(&bytes) {
                    None => None,
                    Some(e) => match form % 2 {
                        0 => ct(AffinePoint::decompress(e)),
                        _ => e.unpack().ok(),
                    },
                })
            }
            "add" => set!(match form % 4 {
                0 => r[a] + r[b],
                1 => r[a] + &r[b],
                2 => {
                    let mut t = r[a];
                    t += r[b];
                    t
                }
                _ => {
                    let mut t = r[a];
                    t += &r[b];
                    t
                }
            }),
            "sub" => set!(match form % 4 {
                0 => r[a] - r[b],
                1 => r[a] - &r[b],
                2 => {
                    let mut t = r[a];
                    t -= r[b];
                    t
                }
                _ => {
                    let mut t = r[a];
                    t -= &r[b];
                    t
                }
            }),
            "neg" => set!(-r[a]),
            "double" => set!(r[a].double()),
            "mul" => {
                let (s, c) = (sc(st(q, "k")), core(st(q, "k")));
                set!(match form % 15 {
                    0 => &r[a] * &s,
                    1 => r[a] * &s,
                    2 => &r[a] * s,
                    3 => r[a] * s,
                    4 => &s * &r[a],
                    5 => s * &r[a],
                    6 => &s * r[a],
                    7 => s * r[a],
                    8 => {
                        let mut t = r[a];
                        t *= &s;
                        t
                    }
                    9 => {
                        let mut t = r[a];
                        t *= s;
                        t
                    }
                    10 => r[a] * c,
                    11 => &r[a] * c,
                    12 => r[a] * &c,
                    13 => {
                        let mut t = r[a];
                        t *= &c;
                        t
                    }
                    _ => {
                        let mut t = r[a];
                        t *= c;
                        t
                    }
                })
            }
            "sum" => {
                let v: Vec<AffinePoint> = uss(q, "rs").iter().map(|i| r[*i]).collect();
                set!(if form % 2 == 0 { v.iter().sum() } else { v.into_iter().sum() })
            }
            "msm" => {
                let v: Vec<AffinePoint> = uss(q, "rs").iter().map(|i| r[*i]).collect();
                let k: Vec<Scalar> = strs(q, "ks").iter().map(|s| sc(s)).collect();
                set!(GroupElement::vartime_multiscalar_mul(k, v))
            }
            "eq" => json!({"res": r[a] == r[b], "ne": r[a] != r[b]}),
            "uniform" => set!(AffinePoint::from_uniform_bytes(&arr::<128>(&unhex(st(q, "h"))))),
            "gens" => {
                let g = MultiCommitGens::new(us(q, "n"), &unhex(st(q, "label")));
                let j = json!({"G": g.G.iter().map(coords).collect::<Vec<_>>(), "H": coords(&g.h), "len": g.n});
                gens = Some(g);
                j
            }
            // derived families: scaled, split, cloned
            "family" => {
                let g = gens.as_ref().unwrap();
                let show = |g: &MultiCommitGens| json!({"G": g.G.iter().map(coords).collect::<Vec<_>>(), "H": coords(&g.h), "len": g.n});
                match st(q, "how") {
                    "scale" => json!({"fam": [show(&g.scale(&sc(st(q, "k"))))]}),
                    "split" => {
                        let (x, y) = g.split_at(us(q, "mid"));
                        json!({"fam": [show(&x), show(&y)]})
                    }
                    _ => json!({"fam": [show(&g.clone())]}),
                }
            }
            "commit" => {
                let g = gens.as_ref().unwrap();
                let v: Vec<Scalar> = strs(q, "vs").iter().map(|s| sc(s)).collect();
                let bl = sc(st(q, "blind"));
                set!(match form % 3 {
                    0 => v.commit(&bl, g),
                    1 => v[..].commit(&bl, g),
                    _ if v.len() == 1 => v[0].commit(&bl, g),
                    _ => v.commit(&bl, g),
                })
            }
            _ => panic!("driver: unknown op {}", op),
        }
    })
}
