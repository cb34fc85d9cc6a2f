//! Polynomials, the plain sum-check protocol and the product circuits (spec/Poly.tla, Sumcheck.tla).
use libspartan::verif::dense_mlpoly::{DensePolynomial, EqPolynomial, IdentityPolynomial};
use libspartan::verif::nizk::DotProductProofLog;
use libspartan::verif::product_tree::*;
use libspartan::verif::scalar::Scalar;
use libspartan::verif::sparse_mlpoly::{SparseMatEntry, SparseMatPolynomial, SparsePolyEntry, SparsePolynomial};
use libspartan::verif::sumcheck::SumcheckInstanceProof;
use libspartan::verif::transcript::ProofTranscript;
use libspartan::verif::unipoly::{CompressedUniPoly, UniPoly};
use merlin::log::Event;
use merlin::Transcript;
use vt_common::*;
mod forge;

fn one(s: &str) -> Scalar {
    Scalar::from_raw(limbs::<4>(s))
}
fn many(v: &Value) -> Vec<Scalar> {
    v.as_array().expect("driver: list").iter().map(|x| one(x.as_str().expect("driver: number"))).collect()
}
fn lists(v: &Value) -> Vec<Vec<Scalar>> {
    v.as_array().expect("driver: lists").iter().map(many).collect()
}
fn n(s: &Scalar) -> String {
    num_le(&s.to_bytes())
}
fn ns(v: &[Scalar]) -> Vec<String> {
    v.iter().map(n).collect()
}
fn poly(v: &Value) -> DensePolynomial {
    DensePolynomial::new(many(v))
}
fn table(p: &DensePolynomial) -> Value {
    json!({"vars": p.get_num_vars(), "len": p.len(), "z": (0..p.len()).map(|i| n(&p[i])).collect::<Vec<_>>()})
}
fn mat(v: &Value, nx: usize, ny: usize) -> SparseMatPolynomial {
    let m = v.as_array().expect("driver: matrix").iter()
        .map(|t| SparseMatEntry::new(t[0].as_u64().unwrap() as usize, t[1].as_u64().unwrap() as usize, one(t[2].as_str().unwrap())))
        .collect();
    SparseMatPolynomial::new(nx, ny, m)
}
/// the transcript of an operation: everything absorbed and squeezed, in order
fn seeded(q: &Value) -> Transcript {
    let mut t = Transcript::new(b"vt");
    t.append_scalar(b"seed", &one(st(q, "seed")));
    merlin::log::start();
    t
}
fn log(id: u64) -> Vec<Value> {
    merlin::log::take().into_iter()
        .filter_map(|e| match e {
            Event::Absorb { id: i, label, data } if i == id => Some(json!(["a", String::from_utf8_lossy(&label), hex(&data)])),
            Event::Challenge { id: i, label, data } if i == id => Some(json!(["c", String::from_utf8_lossy(&label), hex(&data)])),
            _ => None,
        })
        .collect()
}
fn comb(f: &str) -> fn(&Scalar, &Scalar, &Scalar) -> Scalar {
    match f {
        "abc" => |a, b, c| a * b * c,
        "ab-c" => |a, b, c| a * b - c,
        "a(b-c)" => |a, b, c| a * (b - c),
        _ => panic!("driver: function"),
    }
}
fn answer(r: Result<Value, String>, id: u64) -> Value {
    let mut o = match r {
        Ok(v) => v,
        Err(e) => {
            if e.starts_with("driver:") {
                panic!("{}", e)
            }
            json!({"ok": false, "err": e})
        }
    };
    o["log"] = json!(log(id));
    o
}

fn main() {
    let mut reg: Vec<DensePolynomial> = vec![];
    serve(|q| {
        let mut touched: Vec<usize> = vec![];
        let mut o = json!({});
        match st(q, "op") {
            "reset" => reg = (0..16).map(|_| DensePolynomial::new(vec![Scalar::zero()])).collect(),
            "new" => {
                reg[us(q, "d")] = poly(&q["z"]);
                touched.push(us(q, "d"))
            }
            "ints" => {
                reg[us(q, "d")] = DensePolynomial::from_usize(&uss(q, "z"));
                touched.push(us(q, "d"))
            }
            "clone" => {
                reg[us(q, "d")] = reg[us(q, "a")].clone();
                touched.push(us(q, "d"))
            }
            "top" => {
                reg[us(q, "d")].bound_poly_var_top(&one(st(q, "r")));
                touched.push(us(q, "d"))
            }
            "bot" => {
                reg[us(q, "d")].bound_poly_var_bot(&one(st(q, "r")));
                touched.push(us(q, "d"))
            }
            "split" => {
                let (a, b) = reg[us(q, "a")].split(us(q, "k"));
                reg[us(q, "d")] = a;
                reg[us(q, "d2")] = b;
                touched.push(us(q, "d"));
                touched.push(us(q, "d2"))
            }
            "extend" => {
                let a = reg[us(q, "a")].clone();
                reg[us(q, "d")].extend(&a);
                touched.push(us(q, "d"))
            }
            "merge" => {
                let m = DensePolynomial::merge(uss(q, "as").iter().map(|i| &reg[*i]));
                reg[us(q, "d")] = m;
                touched.push(us(q, "d"))
            }
            "eval" => o["out"] = json!(n(&reg[us(q, "a")].evaluate(&many(&q["r"])))),
            "bound" => o["out"] = json!(ns(&reg[us(q, "a")].bound(&many(&q["L"])))),
            "eqtable" => o["out"] = json!(ns(&EqPolynomial::new(many(&q["r"])).evals())),
            "eqat" => o["out"] = json!(n(&EqPolynomial::new(many(&q["r"])).evaluate(&many(&q["x"])))),
            "factored" => {
                let r = many(&q["r"]);
                let (l, k) = EqPolynomial::compute_factored_lens(r.len());
                let (a, b) = EqPolynomial::new(r).compute_factored_evals();
                o = json!({"left": ns(&a), "right": ns(&b), "lens": [l, k]})
            }
            "identity" => {
                let r = many(&q["r"]);
                o["out"] = json!(n(&IdentityPolynomial::new(r.len()).evaluate(&r)))
            }
            "sparse" => {
                let r = many(&q["r"]);
                let s = q["s"].as_array().unwrap().iter().map(|t| SparsePolyEntry::new(t[0].as_u64().unwrap() as usize, one(t[1].as_str().unwrap()))).collect();
                o["out"] = json!(n(&SparsePolynomial::new(r.len(), s).evaluate(&r)))
            }
            "mats" => {
                let (rx, ry, z, x) = (many(&q["rx"]), many(&q["ry"]), many(&q["z"]), many(&q["x"]));
                let ms: Vec<SparseMatPolynomial> = q["M"].as_array().unwrap().iter().map(|m| mat(m, rx.len(), ry.len())).collect();
                let refs: Vec<&SparseMatPolynomial> = ms.iter().collect();
                let (nr, nc) = (1 << rx.len(), 1 << ry.len());
                o = json!({"evals": ns(&SparseMatPolynomial::multi_evaluate(&refs, &rx, &ry)),
                    "mul": ms.iter().map(|m| ns(&m.multiply_vec(nr, nc, &z))).collect::<Vec<_>>(),
                    "rows": ms.iter().map(|m| ns(&m.compute_eval_table_sparse(&x, nr, nc))).collect::<Vec<_>>(),
                    "nnz": ms.iter().map(|m| m.get_num_nz_entries()).collect::<Vec<_>>()})
            }
            "uni" => {
                let u = UniPoly::from_evals(&many(&q["evals"]));
                let c: CompressedUniPoly = u.compress();
                let short: Vec<Scalar> = bincode::deserialize(&bincode::serialize(&c).expect("driver: serialise")).expect("driver: deserialise");
                o = json!({"coeffs": ns(&u.as_vec()), "degree": u.degree(), "zero": n(&u.eval_at_zero()), "one": n(&u.eval_at_one()),
                    "at": many(&q["xs"]).iter().map(|x| n(&u.evaluate(x))).collect::<Vec<_>>(),
                    "short": ns(&short), "back": ns(&c.decompress(&one(st(q, "hint"))).as_vec())})
            }
            "dot" => o["out"] = json!(n(&DotProductProofLog::compute_dotproduct(&many(&q["a"]), &many(&q["b"])))),
            "prodcircuit" => o["out"] = json!(n(&ProductCircuit::new(&poly(&q["z"])).evaluate())),
            "dotcircuit" => {
                let mut d = DotProductCircuit::new(poly(&q["a"]), poly(&q["b"]), poly(&q["w"]));
                let out = n(&d.evaluate());
                let (x, y) = d.split();
                o = json!({"out": out, "parts": [n(&x.evaluate()), n(&y.evaluate())]})
            }
            // ---- sum-check
            "sc_prove" => {
                let (mut a, mut b, mut c) = (poly(&q["A"]), poly(&q["B"]), poly(&q["C"]));
                let rounds = a.get_num_vars();
                let mut t = seeded(q);
                let id = t.id();
                let r = guarded(|| {
                    let (p, r, f) = SumcheckInstanceProof::prove_cubic(&one(st(q, "claim")), rounds, &mut a, &mut b, &mut c, comb(st(q, "f")), &mut t);
                    json!({"ok": true, "proof": hex(&bincode::serialize(&p).unwrap()), "r": ns(&r), "finals": ns(&f)})
                });
                o = answer(r, id)
            }
            "sc_batch" => {
                let (pa, pb, sq) = (lists(&q["PA"]), lists(&q["PB"]), [lists(&q["SA"]), lists(&q["SB"]), lists(&q["SC"])]);
                let mk = |v: &Vec<Vec<Scalar>>| v.iter().map(|z| DensePolynomial::new(z.clone())).collect::<Vec<_>>();
                let (mut pa, mut pb, mut c) = (mk(&pa), mk(&pb), poly(&q["C"]));
                let (mut sa, mut sb, mut sc) = (mk(&sq[0]), mk(&sq[1]), mk(&sq[2]));
                let rounds = c.get_num_vars();
                let mut t = seeded(q);
                let id = t.id();
                let r = guarded(|| {
                    let (p, r, x, y) = SumcheckInstanceProof::prove_cubic_batched(
                        &one(st(q, "claim")), rounds,
                        (&mut pa.iter_mut().collect(), &mut pb.iter_mut().collect(), &mut c),
                        (&mut sa.iter_mut().collect(), &mut sb.iter_mut().collect(), &mut sc.iter_mut().collect()),
                        &many(&q["coeffs"]), comb(st(q, "f")), &mut t);
                    json!({"ok": true, "proof": hex(&bincode::serialize(&p).unwrap()), "r": ns(&r),
                        "fp": [ns(&x.0), ns(&x.1), [n(&x.2)]], "fs": [ns(&y.0), ns(&y.1), ns(&y.2)]})
                });
                o = answer(r, id)
            }
            "sc_verify" => {
                let p: SumcheckInstanceProof = bincode::deserialize(&unhex(st(q, "proof"))).expect("driver: proof");
                let mut t = seeded(q);
                let id = t.id();
                let r = guarded(|| match p.verify(one(st(q, "claim")), us(q, "rounds"), us(q, "degree"), &mut t) {
                    Ok((e, r)) => json!({"ok": true, "e": n(&e), "r": ns(&r)}),
                    Err(e) => json!({"ok": false, "err": format!("{:?}", e)}),
                });
                o = answer(r, id)
            }
            // ---- product circuits
            "pc_prove" => {
                let mut c = ProductCircuit::new(&poly(&q["z"]));
                let mut t = seeded(q);
                let id = t.id();
                let r = guarded(|| {
                    let (p, claim, rand) = ProductCircuitEvalProof::prove(&mut c, &mut t);
                    json!({"ok": true, "proof": hex(&bincode::serialize(&p).unwrap()), "claim": n(&claim), "rand": ns(&rand)})
                });
                o = answer(r, id)
            }
            "pc_verify" => {
                let p: ProductCircuitEvalProof = bincode::deserialize(&unhex(st(q, "proof"))).expect("driver: proof");
                let mut t = seeded(q);
                let id = t.id();
                let r = guarded(|| {
                    let (e, r) = p.verify(one(st(q, "eval")), us(q, "len"), &mut t);
                    json!({"ok": true, "claim": n(&e), "rand": ns(&r)})
                });
                o = answer(r, id)
            }
            "pb_prove" => {
                let mut cs: Vec<ProductCircuit> = lists(&q["zs"]).into_iter().map(|z| ProductCircuit::new(&DensePolynomial::new(z))).collect();
                let mut ds: Vec<DotProductCircuit> = q["dots"].as_array().unwrap().iter().map(|d| DotProductCircuit::new(poly(&d[0]), poly(&d[1]), poly(&d[2]))).collect();
                let mut t = seeded(q);
                let id = t.id();
                let r = guarded(|| {
                    let (p, rand) = ProductCircuitEvalProofBatched::prove(&mut cs.iter_mut().collect(), &mut ds.iter_mut().collect(), &mut t);
                    json!({"ok": true, "proof": hex(&bincode::serialize(&p).unwrap()), "rand": ns(&rand)})
                });
                o = answer(r, id)
            }
            // a prover that deviates (forge.rs)
            "pb_forge" => {
                let zs = lists(&q["zs"]);
                let ds: Vec<[Vec<Scalar>; 3]> = q["dots"].as_array().unwrap().iter().map(|d| [many(&d[0]), many(&d[1]), many(&d[2])]).collect();
                let mut t = seeded(q);
                let id = t.id();
                let r = guarded(|| {
                    let (p, _) = forge::batched("pb", &zs, &ds, many(&q["claims"]), many(&q["dclaims"]), &forge::Bend(&q["bend"]), &mut t);
                    json!({"ok": true, "proof": hex(&bincode::serialize(&p).unwrap())})
                });
                o = answer(r, id)
            }
            "pb_verify" => {
                let p: ProductCircuitEvalProofBatched = bincode::deserialize(&unhex(st(q, "proof"))).expect("driver: proof");
                let mut t = seeded(q);
                let id = t.id();
                let r = guarded(|| {
                    let (a, b, r) = p.verify(&many(&q["claims"]), &many(&q["dclaims"]), us(q, "len"), &mut t);
                    json!({"ok": true, "prods": ns(&a), "dots3": ns(&b), "rand": ns(&r)})
                });
                o = answer(r, id)
            }
            x => panic!("driver: op {}", x),
        }
        if !touched.is_empty() {
            let mut m = Map::new();
            for i in touched {
                m.insert(i.to_string(), table(&reg[i]));
            }
            o["seen"] = Value::Object(m);
        }
        o
    });
}
