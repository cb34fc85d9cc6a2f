//! Files and constraint systems: the circuit file reader, the witness reader, the WebAssembly entry
//! points, building and testing constraint systems (spec/R1csFile.tla, Wtns.tla, R1CS.tla).
use circuit_reader::circom_reader::{from_reader, load_r1cs_from_bin};
use ff::PrimeField;
use libspartan::verif::errors::R1CSError;
use libspartan::verif::scalar::Scalar;
use libspartan::{Assignment, Instance};
use spartan_wasm::wasm;
use std::io::Cursor;
use vt_common::*;

type G1 = secq256k1::AffinePoint;

fn num<F: PrimeField<Repr = secq256k1::FieldBytes>>(f: &F) -> String {
    num_be(f.to_repr().as_slice())
}
fn entries(v: &Value, k: &str) -> Vec<(usize, usize, [u8; 32])> {
    v[k].as_array()
        .unwrap_or_else(|| panic!("driver: matrix {}", k))
        .iter()
        .map(|t| (t[0].as_u64().unwrap() as usize, t[1].as_u64().unwrap() as usize, arr(&unhex(t[2].as_str().unwrap()))))
        .collect()
}
fn assign(v: &Value, k: &str) -> Result<Assignment, R1CSError> {
    Assignment::new(&strs(v, k).iter().map(|s| arr(&unhex(s))).collect::<Vec<[u8; 32]>>())
}
fn sizes(i: &Instance) -> Value {
    json!([i.inst.get_num_cons(), i.inst.get_num_vars(), i.inst.get_num_inputs()])
}
fn scalars(v: &Value, k: &str) -> Vec<Scalar> {
    strs(v, k).iter().map(|s| Scalar::from_raw(limbs::<4>(s))).collect()
}
fn sc(s: &Scalar) -> String {
    num_le(&s.to_bytes())
}
fn scratch() -> std::path::PathBuf {
    std::env::temp_dir().join(format!("vt-drv-io-{}", std::process::id()))
}

fn main() {
    let mut inst: Option<Instance> = None;
    let mut proof: Vec<u8> = vec![];
    let mut circuit: Vec<u8> = vec![];
    let mut made: (Vec<Scalar>, Vec<Scalar>) = (vec![], vec![]);
    serve(|q| match st(q, "op") {
        "sat" | "near" | "eval" | "multiply" | "prove" | "verify" if inst.is_none() => json!({"noinst": true, "ok": false}),
        "reset" => {
            inst = None;
            proof.clear();
            circuit.clear();
            json!({})
        }
        "r1cs" => {
            let b = unhex(st(q, "h"));
            match from_reader::<G1, _>(Cursor::new(&b)) {
                Err(e) => json!({"ok": false, "err": e.to_string()}),
                Ok(f) => {
                    let lc = |v: &Vec<(usize, _)>| v.iter().map(|(w, c)| json!([format!("{:x}", w), num(c)])).collect::<Vec<Value>>();
                    let cons: Vec<Value> = f.constraints.iter().map(|(a, b, c)| json!([lc(a), lc(b), lc(c)])).collect();
                    let h = &f.header;
                    let x = |n: u64| format!("{:x}", n);
                    let mut o = json!({"ok": true, "circuit": {
                        "prime": num_le(&h.prime_size), "wires": x(h.n_wires as u64), "pubOut": x(h.n_pub_out as u64),
                        "pubIn": x(h.n_pub_in as u64), "prvIn": x(h.n_prv_in as u64), "labels": x(h.n_labels),
                        "cons": cons, "map": f.wire_mapping.iter().map(|l| x(*l)).collect::<Vec<_>>()}});
                    if (h.n_pub_in as u64) + (h.n_pub_out as u64) + 1 <= h.n_wires as u64 {
                        let (s, m) = load_r1cs_from_bin::<G1, _>(Cursor::new(&b));
                        let same = s.constraints == f.constraints && m.iter().map(|e| *e as u64).collect::<Vec<_>>() == f.wire_mapping;
                        o["sys"] = json!({"inputs": x(s.num_inputs as u64), "aux": x(s.num_aux as u64), "vars": x(s.num_variables as u64), "same": same});
                    }
                    o
                }
            }
        }
        "wtns" => {
            let b = unhex(st(q, "h"));
            match wasm::load_witness_from_bin_reader::<wasm::F1, _>(Cursor::new(&b)) {
                Err(e) => json!({"ok": false, "err": e.to_string()}),
                Ok(v) => json!({"ok": true, "vals": v.iter().map(num).collect::<Vec<_>>()}),
            }
        }
        "poseidon" => match wasm::poseidon(&unhex(st(q, "h"))) {
            Err(_) => json!({"ok": false}),
            Ok(v) => json!({"ok": true, "out": hex(&v)}),
        },
        "hash" => {
            use poseidon::poseidon_k256::{hash, FieldElement};
            use secq256k1::field::BaseField;
            let f = |s: &str| Option::<FieldElement>::from(FieldElement::from_bytes(&arr(&le_bytes(s, 32)))).expect("driver: field element");
            let y = hash(&[f(st(q, "a")), f(st(q, "b"))]);
            let canon = Option::<FieldElement>::from(FieldElement::from_bytes(&y.to_bytes())).map(|z| z == y).unwrap_or(false);
            json!({"out": num_le(&y.to_bytes()), "canon": canon})
        }
        // several hashes with one object over parameters of the caller's choice
        "generic" => {
            use poseidon::{poseidon_k256::FieldElement, Poseidon, PoseidonConstants};
            use secq256k1::field::BaseField;
            let f = |s: &str| Option::<FieldElement>::from(FieldElement::from_bytes(&arr(&le_bytes(s, 32)))).expect("driver: field element");
            let fs = |k: &str| strs(q, k).iter().map(|s| f(s)).collect::<Vec<_>>();
            let (k, m, x) = (fs("keys"), fs("mds"), fs("ins"));
            let mut h = Poseidon::new(PoseidonConstants::new(k, m.chunks(3).map(|r| r.to_vec()).collect(), us(q, "full"), us(q, "partial")));
            let outs = x.chunks(2).map(|p| num_le(&h.hash(&[p[0], p[1]]).to_bytes())).collect::<Vec<_>>();
            json!({"outs": outs})
        }
        // a constraint system given by its matrices
        "inst" => {
            inst = None;
            match Instance::new(us(q, "nc"), us(q, "nv"), us(q, "ni"), &entries(q, "A"), &entries(q, "B"), &entries(q, "C")) {
                Err(e) => json!({"ok": false, "err": format!("{:?}", e)}),
                Ok(i) => {
                    let s = sizes(&i);
                    circuit = bincode::serialize(&i).expect("driver: serialise");
                    let again: Instance = bincode::deserialize(&circuit).expect("driver: deserialise");
                    inst = Some(again);
                    json!({"ok": true, "sizes": s})
                }
            }
        }
        // a system and an assignment made up for it; the matrices are read off column by column
        "synth" => {
            inst = None;
            let (i, v, w) = Instance::produce_synthetic_r1cs(us(q, "nc"), us(q, "nv"), us(q, "ni"));
            let list = |a: &Assignment| bincode::deserialize::<Vec<Scalar>>(&bincode::serialize(a).expect("driver: serialise")).expect("driver: deserialise");
            made = (list(&v), list(&w));
            let (s, n) = (sizes(&i), 2 * i.inst.get_num_vars());
            let mut mats = [vec![], vec![], vec![]];
            for col in 0..n {
                let unit: Vec<Scalar> = (0..n).map(|k| if k == col { Scalar::one() } else { Scalar::zero() }).collect();
                let (a, b, c) = i.inst.multiply_vec(i.inst.get_num_cons(), n, &unit);
                for (m, p) in mats.iter_mut().zip([a, b, c]) {
                    m.extend((0..p.len()).filter(|r| p[*r] != Scalar::zero()).map(|r| json!([r, col, hex(&p[r].to_bytes())])));
                }
            }
            let res = if i.is_sat(&v, &w).unwrap_or(false) { "yes" } else { "no" };
            let xs = |v: &Vec<Scalar>| v.iter().map(|s| hex(&s.to_bytes())).collect::<Vec<_>>();
            let o = json!({"ok": true, "sizes": s, "A": mats[0], "B": mats[1], "C": mats[2], "vars": xs(&made.0), "inputs": xs(&made.1), "res": res});
            circuit = bincode::serialize(&i).expect("driver: serialise");
            inst = Some(i);
            o
        }
        // the made up assignment with one added to an entry
        "near" => {
            let i = inst.as_ref().unwrap();
            let (mut v, mut w) = made.clone();
            let k = us(q, "k") % (v.len() + w.len());
            let x = if k < v.len() { &mut v[k] } else { &mut w[k - v.len()] };
            *x = *x + Scalar::one();
            let bytes = |v: &Vec<Scalar>| v.iter().map(|s| s.to_bytes()).collect::<Vec<_>>();
            let res = i.is_sat(&Assignment::new(&bytes(&v)).unwrap(), &Assignment::new(&bytes(&w)).unwrap());
            let xs = |v: &Vec<Scalar>| v.iter().map(|s| hex(&s.to_bytes())).collect::<Vec<_>>();
            json!({"vars": xs(&v), "inputs": xs(&w), "res": match res { Ok(true) => "yes", Ok(false) => "no", Err(_) => "error" }})
        }
        // a constraint system converted from a circuit file
        "conv" => {
            inst = None;
            let p = scratch();
            std::fs::write(&p, unhex(st(q, "h"))).expect("driver: scratch file");
            let r = guarded(|| circuit_reader::load_as_spartan_inst(p.clone(), us(q, "npub")));
            let _ = std::fs::remove_file(&p);
            match r {
                Err(e) => json!({"ok": false, "err": e}),
                Ok(i) => {
                    circuit = bincode::serialize(&i).expect("driver: serialise");
                    let again: Instance = bincode::deserialize(&circuit).expect("driver: deserialise");
                    let s = sizes(&i);
                    inst = Some(again);
                    json!({"ok": true, "sizes": s})
                }
            }
        }
        "sat" => {
            let i = inst.as_ref().unwrap();
            match (assign(q, "vars"), assign(q, "inputs")) {
                (Ok(v), Ok(w)) => match i.is_sat(&v, &w) {
                    Ok(b) => json!({"res": if b { "yes" } else { "no" }}),
                    Err(e) => json!({"res": "error", "err": format!("{:?}", e)}),
                },
                (Err(e), _) | (_, Err(e)) => json!({"res": "error", "err": format!("{:?}", e)}),
            }
        }
        "eval" => {
            let i = inst.as_ref().unwrap();
            let (a, b, c) = i.inst.evaluate(&scalars(q, "rx"), &scalars(q, "ry"));
            json!({"abc": [sc(&a), sc(&b), sc(&c)]})
        }
        "multiply" => {
            let i = inst.as_ref().unwrap();
            let z = scalars(q, "z");
            let (a, b, c) = i.inst.multiply_vec(i.inst.get_num_cons(), z.len(), &z);
            let f = |p: &libspartan::verif::dense_mlpoly::DensePolynomial| (0..p.len()).map(|k| sc(&p[k])).collect::<Vec<_>>();
            json!({"a": f(&a), "b": f(&b), "c": f(&c)})
        }
        // the exported entry points, on bytes
        "prove" => {
            proof.clear();
            match guarded(|| wasm::prove(&circuit, &unhex(st(q, "wtns")), &unhex(st(q, "inputs")))) {
                Ok(Ok(p)) => {
                    proof = p;
                    json!({"ok": true})
                }
                _ => json!({"ok": false}),
            }
        }
        "verify" => {
            if proof.is_empty() {
                return json!({"ok": false, "noproof": true});
            }
            match guarded(|| wasm::verify(&circuit, &proof, &unhex(st(q, "inputs")))) {
                Ok(Ok(b)) => json!({"ok": b}),
                _ => json!({"ok": false}),
            }
        }
        o => panic!("driver: unknown operation {}", o),
    })
}
