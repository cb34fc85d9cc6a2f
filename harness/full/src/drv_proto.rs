//! The zero-knowledge building blocks, the committed sum-check, polynomial openings and the two proof
//! systems (spec/Sigma.tla, ZkSumcheck.tla, R1csProof.tla, Snark.tla).
use libspartan::verif::commitments::{Commitments, MultiCommitGens};
use libspartan::verif::dense_mlpoly::{DensePolynomial, PolyCommitment, PolyCommitmentGens, PolyEvalProof};
use libspartan::verif::errors::ProofVerifyError;
use libspartan::verif::group::{CompressedGroup, GroupElement};
use libspartan::verif::nizk::*;
use libspartan::verif::r1csinstance::{R1CSCommitment, R1CSCommitmentGens, R1CSEvalProof};
use libspartan::verif::random::RandomTape;
use libspartan::verif::scalar::Scalar;
use libspartan::verif::sumcheck::ZKSumcheckInstanceProof;
use libspartan::verif::transcript::{AppendToTranscript, ProofTranscript};
use libspartan::verif::unipoly::UniPoly;
use libspartan::{Assignment, ComputationCommitment, ComputationDecommitment, Instance, NIZKGens, SNARKGens, NIZK, SNARK};
use merlin::log::Event;
use merlin::Transcript;
use serde::{de::DeserializeOwned, Serialize};
use vt_common::*;
mod forge;

fn one(s: &str) -> Scalar {
    Scalar::from_raw(limbs::<4>(s))
}
fn get(q: &Value, k: &str) -> Scalar {
    one(st(q, k))
}
fn many(v: &Value) -> Vec<Scalar> {
    v.as_array().expect("driver: list").iter().map(|x| one(x.as_str().expect("driver: number"))).collect()
}
fn n(s: &Scalar) -> String {
    num_le(&s.to_bytes())
}
fn ns(v: &[Scalar]) -> Vec<String> {
    v.iter().map(n).collect()
}
fn cp(c: &CompressedGroup) -> String {
    hex(c.as_bytes())
}
fn pt(g: &GroupElement) -> String {
    cp(&g.compress())
}
fn pc(s: &str) -> CompressedGroup {
    CompressedGroup::from_bytes(unhex(s)).expect("driver: encoding")
}
fn put<T: Serialize>(t: &T) -> String {
    hex(&bincode::serialize(t).expect("driver: serialise"))
}
fn take<T: DeserializeOwned>(q: &Value, k: &str) -> Result<T, String> {
    bincode::deserialize(&unhex(st(q, k))).map_err(|e| e.to_string())
}
fn label(q: &Value) -> &'static [u8] {
    Box::leak(st(q, "label").as_bytes().to_vec().into_boxed_slice())
}
fn gens(g: &MultiCommitGens) -> Value {
    json!({"G": g.G.iter().map(pt).collect::<Vec<_>>(), "h": pt(&g.h)})
}
fn poly(v: &Value) -> DensePolynomial {
    DensePolynomial::new(many(v))
}
fn entries(v: &Value, k: &str) -> Vec<(usize, usize, [u8; 32])> {
    v[k].as_array()
        .unwrap_or_else(|| panic!("driver: matrix {}", k))
        .iter()
        .map(|t| (t[0].as_u64().unwrap() as usize, t[1].as_u64().unwrap() as usize, one(t[2].as_str().unwrap()).to_bytes()))
        .collect()
}
fn assign(v: &Value, k: &str) -> Assignment {
    Assignment::new(&many(&v[k]).iter().map(|s| s.to_bytes()).collect::<Vec<[u8; 32]>>()).expect("driver: assignment")
}
fn instance(q: &Value) -> Instance {
    Instance::new(us(q, "nc"), us(q, "nv"), us(q, "ni"), &entries(q, "A"), &entries(q, "B"), &entries(q, "C")).expect("driver: instance")
}

struct Run {
    t: Transcript,
    id: u64,
}
/// starts recording; the operation's own transcript
/// the sizes generators are made from: those of the system as it is kept, or as it was given
fn sized(q: &Value, kept: (usize, usize, usize)) -> (usize, usize, usize) {
    if q["given"].as_bool() == Some(true) { (us(q, "nc"), us(q, "nv"), us(q, "ni")) } else { kept }
}
fn kept(i: &Instance) -> (usize, usize, usize) {
    (i.inst.get_num_cons(), i.inst.get_num_vars(), i.inst.get_num_inputs())
}
fn start(q: &Value) -> Run {
    let mut t = Transcript::new(b"vt");
    if q["seed"].is_string() {
        t.append_scalar(b"seed", &one(st(q, "seed")));
    }
    merlin::log::start();
    let id = t.id();
    Run { t, id }
}
fn item(e: &Event) -> Option<(u64, Value)> {
    match e {
        Event::New { .. } => None,
        Event::Absorb { id, label, data } => Some((*id, json!(["a", String::from_utf8_lossy(label), hex(data)]))),
        Event::Challenge { id, label, data } => Some((*id, json!(["c", String::from_utf8_lossy(label), hex(data)]))),
    }
}
/// the operation's transcript, and the other ones that it made (random tapes)
fn finish(r: Result<Value, String>, id: u64) -> Value {
    let mut o = match r {
        Ok(v) => v,
        Err(e) => {
            if e.starts_with("driver:") {
                panic!("{}", e)
            }
            json!({"ok": false, "err": e})
        }
    };
    let ev = merlin::log::take();
    let all: Vec<(u64, Value)> = ev.iter().filter_map(item).collect();
    o["log"] = json!(all.iter().filter(|x| x.0 == id).map(|x| x.1.clone()).collect::<Vec<_>>());
    let mut ids: Vec<u64> = all.iter().map(|x| x.0).filter(|i| *i != id).collect();
    ids.sort();
    ids.dedup();
    o["tapes"] = json!(ids.iter().map(|i| all.iter().filter(|x| x.0 == *i).map(|x| x.1.clone()).collect::<Vec<_>>()).collect::<Vec<_>>());
    o
}
fn verdict(r: Result<(), ProofVerifyError>) -> Value {
    match r {
        Ok(()) => json!({"ok": true}),
        Err(e) => json!({"ok": false, "err": format!("{:?}", e)}),
    }
}
/// a verification: `f` gets the proof; bytes that are not a proof are refused before that
fn check<T: DeserializeOwned>(q: &Value, f: impl FnOnce(T, &mut Transcript) -> Value) -> Value {
    let mut run = start(q);
    let id = run.id;
    let r = match guarded(|| take::<T>(q, "proof")) {
        Ok(Ok(p)) => guarded(|| f(p, &mut run.t)),
        Ok(Err(e)) => Ok(json!({"ok": false, "err": e})),
        Err(e) => Err(e),
    };
    finish(r, id)
}
fn make(q: &Value, f: impl FnOnce(&mut Transcript, &mut RandomTape) -> Value) -> Value {
    let mut run = start(q);
    let id = run.id;
    let r = guarded(|| {
        let mut tape = RandomTape::new(b"proof");
        f(&mut run.t, &mut tape)
    });
    finish(r, id)
}
fn quad(f: &str) -> fn(&Scalar, &Scalar) -> Scalar {
    match f {
        "ab" => |a, b| a * b,
        "a(b+1)" => |a, b| a * (b + Scalar::one()),
        _ => panic!("driver: function"),
    }
}
fn cubic(f: &str) -> fn(&Scalar, &Scalar, &Scalar, &Scalar) -> Scalar {
    match f {
        "a(bc-d)" => |a, b, c, d| a * (b * c - d),
        "abc+d" => |a, b, c, d| a * b * c + d,
        _ => panic!("driver: function"),
    }
}

fn main() {
    let mut comms: std::collections::HashMap<String, (ComputationCommitment, ComputationDecommitment)> = Default::default();
    serve(|q| {
        let one_gen = || MultiCommitGens::new(1, label(q));
        let o = match st(q, "op") {
            "reset" => {
                comms.clear();
                json!({})
            }
            // ---- sigma protocols
            "know_p" => make(q, |t, tape| {
                let (p, c) = KnowledgeProof::prove(&one_gen(), t, tape, &get(q, "x"), &get(q, "r"));
                json!({"ok": true, "proof": put(&p), "C": cp(&c)})
            }),
            "know_v" => check::<KnowledgeProof>(q, |p, t| verdict(p.verify(&one_gen(), t, &pc(st(q, "C"))))),
            "eq_p" => make(q, |t, tape| {
                let (p, a, b) = EqualityProof::prove(&one_gen(), t, tape, &get(q, "v1"), &get(q, "s1"), &get(q, "v2"), &get(q, "s2"));
                json!({"ok": true, "proof": put(&p), "C1": cp(&a), "C2": cp(&b)})
            }),
            "eq_v" => check::<EqualityProof>(q, |p, t| verdict(p.verify(&one_gen(), t, &pc(st(q, "C1")), &pc(st(q, "C2"))))),
            "prod_p" => make(q, |t, tape| {
                let (p, x, y, z) = ProductProof::prove(&one_gen(), t, tape, &get(q, "x"), &get(q, "rx"), &get(q, "y"), &get(q, "ry"), &get(q, "z"), &get(q, "rz"));
                json!({"ok": true, "proof": put(&p), "X": cp(&x), "Y": cp(&y), "Z": cp(&z)})
            }),
            "prod_v" => check::<ProductProof>(q, |p, t| verdict(p.verify(&one_gen(), t, &pc(st(q, "X")), &pc(st(q, "Y")), &pc(st(q, "Z"))))),
            "dot_p" => make(q, |t, tape| {
                let x = many(&q["x"]);
                let (p, a, b) = DotProductProof::prove(&one_gen(), &MultiCommitGens::new(x.len(), b"vt-n"), t, tape, &x, &get(q, "rx"), &many(&q["a"]), &get(q, "y"), &get(q, "ry"));
                json!({"ok": true, "proof": put(&p), "Cx": cp(&a), "Cy": cp(&b)})
            }),
            "dot_v" => check::<DotProductProof>(q, |p, t| {
                verdict(p.verify(&one_gen(), &MultiCommitGens::new(us(q, "n"), b"vt-n"), t, &many(&q["a"]), &pc(st(q, "Cx")), &pc(st(q, "Cy"))))
            }),
            "log_p" => make(q, |t, tape| {
                let x = many(&q["x"]);
                let (p, a, b) = DotProductProofLog::prove(&DotProductProofGens::new(x.len(), label(q)), t, tape, &x, &get(q, "rx"), &many(&q["a"]), &get(q, "y"), &get(q, "ry"));
                json!({"ok": true, "proof": put(&p), "Cx": cp(&a), "Cy": cp(&b)})
            }),
            "log_v" => check::<DotProductProofLog>(q, |p, t| {
                verdict(p.verify(us(q, "n"), &DotProductProofGens::new(us(q, "n"), label(q)), t, &many(&q["a"]), &pc(st(q, "Cx")), &pc(st(q, "Cy"))))
            }),
            // the generators of an operation: "one", "n" (linear inner product), "log" (inner product and commitments)
            "gens" => json!({"one": gens(&one_gen()), "n": gens(&MultiCommitGens::new(us(q, "n"), b"vt-n")),
                             "log": gens(&MultiCommitGens::new(us(q, "n") + 1, label(q))),
                             "three": gens(&MultiCommitGens::new(3, label(q))), "four": gens(&MultiCommitGens::new(4, label(q)))}),
            "points" => {
                // sums of multiples of encoded points, for building statements
                let v: Vec<Value> = q["sums"].as_array().unwrap().iter().map(|s| {
                    let mut a = GroupElement::identity();
                    for t in s.as_array().unwrap() {
                        a = a + GroupElement::decompress(pc(t[1].as_str().unwrap())).expect("driver: point") * one(t[0].as_str().unwrap());
                    }
                    json!(pt(&a))
                }).collect();
                json!({"out": v})
            }
            // ---- polynomial openings
            "open_p" => make(q, |t, tape| {
                let z = poly(&q["z"]);
                let g = PolyCommitmentGens::new(z.get_num_vars(), label(q));
                let blind = q["blind"].as_bool().unwrap();
                let (c, b) = if blind { z.commit(&g, Some(tape)) } else { z.commit(&g, None) };
                let br = get(q, "br");
                let (p, czr) = PolyEvalProof::prove(&z, Some(&b), &many(&q["r"]), &get(q, "zr"), Some(&br), &g, t, tape);
                json!({"ok": true, "proof": put(&p), "comm": put(&c), "czr": cp(&czr)})
            }),
            "open_v" => check::<PolyEvalProof>(q, |p, t| {
                let r = many(&q["r"]);
                let g = PolyCommitmentGens::new(r.len(), label(q));
                let c: PolyCommitment = take(q, "comm").expect("driver: commitment");
                if q["plain"].is_string() {
                    verdict(p.verify_plain(&g, t, &r, &get(q, "plain"), &c))
                } else {
                    verdict(p.verify(&g, t, &r, &pc(st(q, "czr")), &c))
                }
            }),
            // ---- committed sum-check
            "zkq_p" => make(q, |t, tape| {
                let (mut a, mut b) = (poly(&q["A"]), poly(&q["B"]));
                let g = MultiCommitGens::new(3, label(q));
                let k = a.get_num_vars();
                let (p, r, f, bl) = ZKSumcheckInstanceProof::prove_quad(&get(q, "claim"), &get(q, "bclaim"), k, &mut a, &mut b, quad(st(q, "f")), &one_gen(), &g, t, tape);
                json!({"ok": true, "proof": put(&p), "r": ns(&r), "finals": ns(&f), "blind": n(&bl), "cclaim": pt(&get(q, "claim").commit(&get(q, "bclaim"), &one_gen()))})
            }),
            "zkc_p" => make(q, |t, tape| {
                let (mut a, mut b, mut c, mut d) = (poly(&q["A"]), poly(&q["B"]), poly(&q["C"]), poly(&q["D"]));
                let g = MultiCommitGens::new(4, label(q));
                let k = a.get_num_vars();
                let (p, r, f, bl) = ZKSumcheckInstanceProof::prove_cubic_with_additive_term(&get(q, "claim"), &get(q, "bclaim"), k, &mut a, &mut b, &mut c, &mut d, cubic(st(q, "f")), &one_gen(), &g, t, tape);
                json!({"ok": true, "proof": put(&p), "r": ns(&r), "finals": ns(&f), "blind": n(&bl), "cclaim": pt(&get(q, "claim").commit(&get(q, "bclaim"), &one_gen()))})
            }),
            "zk_v" => check::<ZKSumcheckInstanceProof>(q, |p, t| {
                let d = us(q, "degree");
                match p.verify(&pc(st(q, "cclaim")), us(q, "rounds"), d, &one_gen(), &MultiCommitGens::new(us(q, "ng"), label(q)), t) {
                    Ok((c, r)) => json!({"ok": true, "ceval": cp(&c), "r": ns(&r)}),
                    Err(e) => json!({"ok": false, "err": format!("{:?}", e)}),
                }
            }),
            // ---- proofs of satisfaction
            "nizk_p" => {
                let i = instance(q);
                let z = sized(q, kept(&i));
                let g = NIZKGens::new(z.0, z.1, z.2);
                let (v, x) = (assign(q, "vars"), assign(q, "inputs"));
                let mut run = start(q);
                let id = run.id;
                let r = guarded(|| {
                    let p = NIZK::prove(&i, v, &x, &g, &mut run.t);
                    json!({"ok": true, "proof": put(&p)})
                });
                let mut o = finish(r, id);
                o["digest"] = json!(hex(&i.inst.get_digest()));
                o
            }
            "nizk_v" => {
                let i = instance(q);
                let z = sized(q, kept(&i));
                let g = NIZKGens::new(z.0, z.1, z.2);
                let x = assign(q, "inputs");
                let mut o = check::<NIZK>(q, |p, t| verdict(p.verify(&i, &x, t, &g)));
                o["digest"] = json!(hex(&i.inst.get_digest()));
                o
            }
            // through the WebAssembly entry points; the transcript there is their own
            "wasm_p" => {
                let i = instance(q);
                let c = bincode::serialize(&i).expect("driver: serialise");
                let w = unhex(st(q, "witness"));
                let x: Vec<u8> = many(&q["inputs"]).iter().flat_map(|s| s.to_bytes().into_iter().rev()).collect();
                merlin::log::start();
                let r = guarded(|| match spartan_wasm::wasm::prove(&c, &w, &x) {
                    Ok(p) => json!({"ok": true, "proof": hex(&p)}),
                    Err(_) => json!({"ok": false}),
                });
                let mut o = finish(r, u64::MAX);
                o["digest"] = json!(hex(&i.inst.get_digest()));
                o
            }
            "wasm_v" => {
                let i = instance(q);
                let c = bincode::serialize(&i).expect("driver: serialise");
                let x: Vec<u8> = many(&q["inputs"]).iter().flat_map(|s| s.to_bytes().into_iter().rev()).collect();
                let b = unhex(st(q, "proof"));
                merlin::log::start();
                let r = guarded(|| match spartan_wasm::wasm::verify(&c, &b, &x) {
                    Ok(v) => json!({"ok": v}),
                    Err(_) => json!({"ok": false}),
                });
                let mut o = finish(r, u64::MAX);
                o["digest"] = json!(hex(&i.inst.get_digest()));
                o
            }
            // sequences of typed items and challenges; the challenges the code derives from them
            "tr" => {
                let mut run = start(q);
                let id = run.id;
                let r = guarded(|| {
                    let t = &mut run.t;
                    let mut out: Vec<String> = vec![];
                    for i in q["items"].as_array().expect("driver: items") {
                        let l: &'static [u8] = Box::leak(st(i, "l").as_bytes().to_vec().into_boxed_slice());
                        match st(i, "k") {
                            "name" => t.append_protocol_name(l),
                            "scalar" => t.append_scalar(l, &get(i, "v")),
                            "item" => get(i, "v").append_to_transcript(l, t),
                            "vector" => many(&i["v"])[..].append_to_transcript(l, t),
                            "point" => t.append_point(l, &pc(st(i, "v"))),
                            "pitem" => pc(st(i, "v")).append_to_transcript(l, t),
                            "poly" => UniPoly::from_evals(&many(&i["v"])).append_to_transcript(l, t),
                            "shares" => bincode::deserialize::<PolyCommitment>(&unhex(st(i, "b"))).expect("driver: commitment").append_to_transcript(l, t),
                            "u64" => t.append_u64(l, us(i, "v") as u64),
                            "ch" => out.push(n(&t.challenge_scalar(l))),
                            "chs" => out.extend(ns(&t.challenge_vector(l, us(i, "v")))),
                            x => panic!("driver: item {}", x),
                        }
                    }
                    json!({"ok": true, "chs": out})
                });
                finish(r, id)
            }
            "digest" => {
                let i = instance(q);
                json!({"digest": hex(&i.inst.get_digest())})
            }
            "snark_e" => {
                let i = instance(q);
                let (nc, nv, ni) = (i.inst.get_num_cons(), i.inst.get_num_vars(), i.inst.get_num_inputs());
                let z = sized(q, (nc, nv, ni));
                let g = SNARKGens::new(z.0, z.1, z.2, us(q, "nnz"));
                match guarded(|| SNARK::encode(&i, &g)) {
                    Ok((c, d)) => {
                        // the same function, for its bytes (a commitment is otherwise opaque)
                        let (h, _) = i.inst.commit(&R1CSCommitmentGens::new(b"gens_r1cs_eval", nc, nv, ni, us(q, "nnz")));
                        comms.insert(st(q, "d").to_string(), (c, d));
                        json!({"ok": true, "comm": put(&h), "psizes": [nc, nv, ni]})
                    }
                    Err(e) => {
                        comms.remove(st(q, "d"));
                        json!({"ok": false, "err": e})
                    }
                }
            }
            "snark_p" => {
                let i = instance(q);
                let z = sized(q, kept(&i));
                let g = SNARKGens::new(z.0, z.1, z.2, us(q, "nnz"));
                let (v, x) = (assign(q, "vars"), assign(q, "inputs"));
                match comms.get(st(q, "d")) {
                    None => json!({"ok": false, "err": "no commitment", "log": [], "tapes": []}),
                    Some((c, d)) => {
                        let mut run = start(q);
                        let id = run.id;
                        let r = guarded(|| {
                            let p = SNARK::prove(&i, c, d, v, &x, &g, &mut run.t);
                            json!({"ok": true, "proof": put(&p)})
                        });
                        finish(r, id)
                    }
                }
            }
            "snark_v" => {
                let z = uss(q, "psizes");
                let z = sized(q, (z[0], z[1], z[2]));
                let g = SNARKGens::new(z.0, z.1, z.2, us(q, "nnz"));
                let (c, _) = comms.get(st(q, "d")).expect("driver: no commitment");
                let x = assign(q, "inputs");
                check::<SNARK>(q, |p, t| verdict(p.verify(c, &x, t, &g)))
            }
            // ---- evaluation of committed matrices
            "eval_p" => {
                let i = instance(q);
                let g = R1CSCommitmentGens::new(b"gens_r1cs_eval", i.inst.get_num_cons(), i.inst.get_num_vars(), i.inst.get_num_inputs(), us(q, "nnz"));
                let (c, d) = match guarded(|| i.inst.commit(&g)) {
                    Ok(x) => x,
                    Err(e) => return json!({"ok": false, "err": e, "log": [], "tapes": []}),
                };
                let (rx, ry) = (many(&q["rx"]), many(&q["ry"]));
                let e = match q["evals"].as_array() {
                    Some(_) => {
                        let v = many(&q["evals"]);
                        (v[0], v[1], v[2])
                    }
                    None => i.inst.evaluate(&rx, &ry),
                };
                let mut o = make(q, |t, tape| {
                    let p = R1CSEvalProof::prove(&d, &rx, &ry, &e, &g, t, tape);
                    json!({"ok": true, "proof": put(&p)})
                });
                o["comm"] = json!(put(&c));
                o["evals"] = json!([n(&e.0), n(&e.1), n(&e.2)]);
                o["psizes"] = json!([i.inst.get_num_cons(), i.inst.get_num_vars(), i.inst.get_num_inputs()]);
                o
            }
            // a prover that deviates (forge.rs); "M": the matrices as committed to
            "forge_p" => {
                let ms: Vec<Vec<(usize, usize, Scalar)>> = q["M"].as_array().unwrap().iter().map(|m| {
                    m.as_array().unwrap().iter().map(|t| (t[0].as_u64().unwrap() as usize, t[1].as_u64().unwrap() as usize, one(t[2].as_str().unwrap()))).collect()
                }).collect();
                make(q, |t, tape| {
                    let p = forge::evaluation(&ms, us(q, "n"), us(q, "cells"), &many(&q["rx"]), &many(&q["ry"]), b"gens_r1cs_eval", &forge::Bend(&q["bend"]), t, tape);
                    json!({"ok": true, "proof": put(&p), "evals": ns(&p.evals())})
                })
            }
            "eval_v" => {
                let z = uss(q, "psizes");
                let g = R1CSCommitmentGens::new(b"gens_r1cs_eval", z[0], z[1], z[2], us(q, "nnz"));
                let c: R1CSCommitment = take(q, "comm").expect("driver: commitment");
                let v = many(&q["evals"]);
                check::<R1CSEvalProof>(q, |p, t| verdict(p.verify(&c, &many(&q["rx"]), &many(&q["ry"]), &(v[0], v[1], v[2]), &g, t)))
            }
            x => panic!("driver: op {}", x),
        };
        o
    });
}
