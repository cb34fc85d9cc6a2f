//! Provers that follow the protocols except where they are told to deviate.  They are written against the
//! same building blocks as the real ones and produce the same bytes, so that for each of a verifier's
//! equations there are proofs in which everything else is in order.
//!
//! A deviation is {"site", "i", "how", "v"}: at that site the list of numbers at hand is changed in place
//! `i`: "add" adds v, "set" sets it to v, "mul" multiplies it by v, "move" multiplies it by v and divides the
//! one at "k" by it, "shift" adds v and subtracts it at "k".
#![allow(dead_code)]
use libspartan::verif::commitments::MultiCommitGens;
use libspartan::verif::dense_mlpoly::{DensePolynomial, EqPolynomial, PolyCommitment, PolyCommitmentGens, PolyEvalProof};
use libspartan::verif::random::RandomTape;
use libspartan::verif::scalar::Scalar;
use libspartan::verif::sumcheck::SumcheckInstanceProof;
use libspartan::verif::transcript::{AppendToTranscript, ProofTranscript};
use merlin::Transcript;
use serde::Serialize;
use vt_common::*;

fn one(s: &str) -> Scalar {
    Scalar::from_raw(limbs::<4>(s))
}
fn inv(s: &Scalar) -> Scalar {
    s.invert().unwrap()
}

pub struct Bend<'a>(pub &'a Value);
impl Bend<'_> {
    pub fn at(&self, site: &str, v: &mut [Scalar]) {
        for t in self.0.as_array().map(|x| x.as_slice()).unwrap_or(&[]) {
            if st(t, "site") != site {
                continue;
            }
            let i = us(t, "i") % v.len().max(1);
            let x = one(st(t, "v"));
            if v.is_empty() {
                continue;
            }
            let k = t["k"].as_u64().unwrap_or(0) as usize % v.len();
            match st(t, "how") {
                "add" => v[i] += x,
                "set" => v[i] = x,
                "mul" => v[i] *= x,
                "move" => {
                    v[i] *= x;
                    v[k] *= inv(&x)
                }
                "shift" => {
                    v[i] += x;
                    v[k] -= x
                }
                y => panic!("driver: deviation {}", y),
            }
        }
    }
}

#[derive(Serialize)]
pub struct Layer {
    proof: SumcheckInstanceProof,
    left: Vec<Scalar>,
    right: Vec<Scalar>,
}
#[derive(Serialize)]
pub struct Batched {
    layers: Vec<Layer>,
    dots: (Vec<Scalar>, Vec<Scalar>, Vec<Scalar>),
}

/// the layers of a tree of products, from the leaves
fn tree(z: &[Scalar]) -> Vec<(Vec<Scalar>, Vec<Scalar>)> {
    let mut out = vec![];
    let mut z = z.to_vec();
    while z.len() > 1 {
        let h = z.len() / 2;
        let (l, r) = (z[..h].to_vec(), z[h..].to_vec());
        z = (0..h).map(|i| l[i] * r[i]).collect();
        out.push((l, r));
    }
    out
}
pub fn product(z: &[Scalar]) -> Scalar {
    z.iter().fold(Scalar::one(), |a, b| a * b)
}
pub fn dot3(d: &[Vec<Scalar>; 3]) -> Scalar {
    (0..d[0].len()).map(|i| d[0][i] * d[1][i] * d[2][i]).sum()
}

/// the batched product argument; sites "<name>.<layer>" (lefts, then rights) and "<name>.dots"
pub fn batched(name: &str, zs: &[Vec<Scalar>], dots: &[[Vec<Scalar>; 3]], claims: Vec<Scalar>, dclaims: Vec<Scalar>, bend: &Bend, t: &mut Transcript) -> (Batched, Vec<Scalar>) {
    let trees: Vec<_> = zs.iter().map(|z| tree(z)).collect();
    let n = trees[0].len();
    let (np, nd) = (zs.len(), dots.len());
    let mut claims = claims;
    let mut rand: Vec<Scalar> = vec![];
    let mut out = Batched { layers: vec![], dots: (vec![], vec![], vec![]) };
    for layer in 0..n {
        let last = layer + 1 == n;
        let mut c = DensePolynomial::new(EqPolynomial::new(rand.clone()).evals());
        let mut ls: Vec<DensePolynomial> = trees.iter().map(|x| DensePolynomial::new(x[n - 1 - layer].0.clone())).collect();
        let mut rs: Vec<DensePolynomial> = trees.iter().map(|x| DensePolynomial::new(x[n - 1 - layer].1.clone())).collect();
        let mut ds: Vec<Vec<DensePolynomial>> = (0..3).map(|k| if last { dots.iter().map(|d| DensePolynomial::new(d[k].clone())).collect() } else { vec![] }).collect();
        if last {
            claims.extend(&dclaims);
        }
        let w = t.challenge_vector(b"rand_coeffs_next_layer", claims.len());
        let claim: Scalar = (0..claims.len()).map(|i| claims[i] * w[i]).sum();
        let (d0, d12) = ds.split_at_mut(1);
        let (d1, d2) = d12.split_at_mut(1);
        let (proof, r, (l, rr, _), (a, b, g)) = SumcheckInstanceProof::prove_cubic_batched(
            &claim,
            layer,
            (&mut ls.iter_mut().collect(), &mut rs.iter_mut().collect(), &mut c),
            (&mut d0[0].iter_mut().collect(), &mut d1[0].iter_mut().collect(), &mut d2[0].iter_mut().collect()),
            &w,
            |a: &Scalar, b: &Scalar, c: &Scalar| a * b * c,
            t,
        );
        let mut v: Vec<Scalar> = l.into_iter().chain(rr).collect();
        bend.at(&format!("{}.{}", name, layer), &mut v);
        if last {
            bend.at(&format!("{}.last", name), &mut v);
        }
        let (l, rr) = (v[..np].to_vec(), v[np..].to_vec());
        for i in 0..np {
            t.append_scalar(b"claim_prod_left", &l[i]);
            t.append_scalar(b"claim_prod_right", &rr[i]);
        }
        if last && nd > 0 {
            let mut v: Vec<Scalar> = a.into_iter().chain(b).chain(g).collect();
            bend.at(&format!("{}.dots", name), &mut v);
            for i in 0..nd {
                t.append_scalar(b"claim_dotp_left", &v[i]);
                t.append_scalar(b"claim_dotp_right", &v[nd + i]);
                t.append_scalar(b"claim_dotp_weight", &v[2 * nd + i]);
            }
            out.dots = (v[..nd].to_vec(), v[nd..2 * nd].to_vec(), v[2 * nd..].to_vec());
        }
        let r_layer = t.challenge_scalar(b"challenge_r_layer");
        claims = (0..np).map(|i| l[i] + r_layer * (rr[i] - l[i])).collect();
        let mut x = vec![r_layer];
        x.extend(r);
        rand = x;
        out.layers.push(Layer { proof, left: l, right: rr });
    }
    (out, rand)
}

// ------------------------------------------------------------------ values of committed matrices
type Pair = (Vec<Scalar>, Vec<Scalar>);
#[derive(Serialize)]
struct Products {
    row: (Scalar, Vec<Scalar>, Vec<Scalar>, Scalar),
    col: (Scalar, Vec<Scalar>, Vec<Scalar>, Scalar),
    val: Pair,
    mem: Batched,
    ops: Batched,
}
#[derive(Serialize)]
struct Hashes {
    row: (Vec<Scalar>, Vec<Scalar>, Scalar),
    col: (Vec<Scalar>, Vec<Scalar>, Scalar),
    val: Vec<Scalar>,
    derefs: Pair,
    ops: PolyEvalProof,
    mem: PolyEvalProof,
    der: PolyEvalProof,
}
#[derive(Serialize)]
pub struct Evaluation {
    comm: PolyCommitment,
    prod: Products,
    hash: Hashes,
}

impl Evaluation {
    /// what the proof claims the matrices' values to be
    pub fn evals(&self) -> Vec<Scalar> {
        (0..3).map(|j| self.prod.val.0[j] + self.prod.val.1[j]).collect()
    }
}

struct Memory {
    addr: Vec<Vec<usize>>,
    reads: Vec<Vec<Scalar>>,
    audit: Vec<Scalar>,
}
fn memory(addr: Vec<Vec<usize>>, cells: usize) -> Memory {
    let mut count = vec![0u64; cells];
    let reads = addr
        .iter()
        .map(|a| {
            a.iter()
                .map(|x| {
                    count[*x] += 1;
                    Scalar::from(count[*x] - 1)
                })
                .collect()
        })
        .collect();
    Memory { addr, reads, audit: count.into_iter().map(Scalar::from).collect() }
}
fn nums(v: &[usize]) -> Vec<Scalar> {
    v.iter().map(|x| Scalar::from(*x as u64)).collect()
}
fn at(z: &[Scalar], r: &[Scalar]) -> Scalar {
    DensePolynomial::new(z.to_vec()).evaluate(r)
}
fn merge<'a>(v: impl Iterator<Item = &'a Vec<Scalar>>) -> Vec<Scalar> {
    let mut z: Vec<Scalar> = v.flatten().cloned().collect();
    z.resize(z.len().next_power_of_two(), Scalar::zero());
    z
}
/// opens several values of a joint table at once
fn joint(site: &str, table: &[Scalar], mut evals: Vec<Scalar>, labels: [&'static [u8]; 3], r: &[Scalar], gens: &PolyCommitmentGens, bend: &Bend, t: &mut Transcript, tape: &mut RandomTape) -> (PolyEvalProof, Vec<Scalar>) {
    bend.at(site, &mut evals);
    let shown = evals.clone();
    evals.resize(evals.len().next_power_of_two(), Scalar::zero());
    evals.append_to_transcript(labels[0], t);
    let c = t.challenge_vector(labels[1], evals.len().trailing_zeros() as usize);
    let mut claim = [at(&evals, &c)];
    bend.at(&format!("{}.claim", site), &mut claim);
    let mut rj = c;
    rj.extend(r);
    claim[0].append_to_transcript(labels[2], t);
    let (p, _) = PolyEvalProof::prove(&DensePolynomial::new(table.to_vec()), None, &rj, &claim[0], None, gens, t, tape);
    (p, shown)
}

/// ms: the matrices, entries (row, column, value) within `cells`, as committed to; n entries each
pub fn evaluation(ms: &[Vec<(usize, usize, Scalar)>], n: usize, cells: usize, rx: &[Scalar], ry: &[Scalar], label: &'static [u8], bend: &Bend, t: &mut Transcript, tape: &mut RandomTape) -> Evaluation {
    t.append_protocol_name(b"Sparse polynomial evaluation proof");
    let log = |k: usize| k.trailing_zeros() as usize;
    let pad = |r: &[Scalar]| -> Vec<Scalar> {
        let mut v = vec![Scalar::zero(); log(cells) - r.len()];
        v.extend(r);
        v
    };
    let tables = [EqPolynomial::new(pad(rx)).evals(), EqPolynomial::new(pad(ry)).evals()];
    let places = |f: fn(&(usize, usize, Scalar)) -> usize| -> Vec<Vec<usize>> { ms.iter().map(|m| (0..n).map(|i| m.get(i).map_or(0, f)).collect()).collect() };
    let mems = [memory(places(|e| e.0), cells), memory(places(|e| e.1), cells)];
    let vals: Vec<Vec<Scalar>> = ms.iter().map(|m| (0..n).map(|i| m.get(i).map_or(Scalar::zero(), |e| e.2)).collect()).collect();
    let mut looked: Vec<Vec<Vec<Scalar>>> = (0..2).map(|k| mems[k].addr.iter().map(|a| a.iter().map(|x| tables[k][*x]).collect()).collect()).collect();
    for (k, site) in ["looked.row", "looked.col"].iter().enumerate() {
        let mut v: Vec<Scalar> = looked[k].concat();
        bend.at(site, &mut v);
        looked[k] = v.chunks(n).map(|c| c.to_vec()).collect();
    }
    let der = merge(looked[0].iter().chain(looked[1].iter()));
    let g_der = PolyCommitmentGens::new(log(der.len()), label);
    let comm = DensePolynomial::new(der.clone()).commit(&g_der, None).0;
    t.append_message(b"derefs_commitment", b"begin_derefs_commitment");
    comm.append_to_transcript(b"comm_poly_row_col_ops_val", t);
    t.append_message(b"derefs_commitment", b"end_derefs_commitment");
    let g = t.challenge_vector(b"challenge_r_hash", 2);
    let hash = |a: Scalar, v: Scalar, s: Scalar| s * g[0] * g[0] + v * g[0] + a - g[1];

    t.append_protocol_name(b"Sparse polynomial evaluation proof");
    t.append_protocol_name(b"Sparse polynomial product layer proof");
    let mut leaves = vec![]; // per memory: init, reads, writes, audit
    let mut claims = vec![];
    for k in 0..2 {
        let m = &mems[k];
        let read = |w: Scalar| -> Vec<Vec<Scalar>> { (0..3).map(|j| (0..n).map(|i| hash(Scalar::from(m.addr[j][i] as u64), looked[k][j][i], m.reads[j][i] + w)).collect()).collect() };
        let cell = |ts: bool| -> Vec<Scalar> { (0..cells).map(|i| hash(Scalar::from(i as u64), tables[k][i], if ts { m.audit[i] } else { Scalar::zero() })).collect() };
        let l = (cell(false), read(Scalar::zero()), read(Scalar::one()), cell(true));
        let mut c = vec![product(&l.0)];
        c.extend(l.1.iter().map(|z| product(z)));
        c.extend(l.2.iter().map(|z| product(z)));
        c.push(product(&l.3));
        // "balance": one of the claims is made to fit the others
        bend.at(["claims.row", "claims.col"][k], &mut c);
        for b in bend.0.as_array().map(|x| x.as_slice()).unwrap_or(&[]) {
            if st(b, "site") == ["balance.row", "balance.col"][k] {
                let i = us(b, "i") % 8;
                let up = |j: usize| j == 0 || (4..7).contains(&j);
                let (mut mine, mut other) = (Scalar::one(), Scalar::one());
                for j in 0..8 {
                    if j != i {
                        if up(j) == up(i) {
                            mine *= c[j]
                        } else {
                            other *= c[j]
                        }
                    }
                }
                c[i] = other * inv(&mine);
            }
        }
        c[0].append_to_transcript(if k == 0 { b"claim_row_eval_init" } else { b"claim_col_eval_init" }, t);
        c[1..4].append_to_transcript(if k == 0 { b"claim_row_eval_read" } else { b"claim_col_eval_read" }, t);
        c[4..7].append_to_transcript(if k == 0 { b"claim_row_eval_write" } else { b"claim_col_eval_write" }, t);
        c[7].append_to_transcript(if k == 0 { b"claim_row_eval_audit" } else { b"claim_col_eval_audit" }, t);
        leaves.push(l);
        claims.push(c);
    }
    let mut dots: Vec<[Vec<Scalar>; 3]> = vec![];
    for j in 0..3 {
        for h in 0..2 {
            let s = h * (n / 2)..(h + 1) * (n / 2);
            dots.push([looked[0][j][s.clone()].to_vec(), looked[1][j][s.clone()].to_vec(), vals[j][s].to_vec()]);
        }
    }
    let mut d: Vec<Scalar> = dots.iter().map(dot3).collect();
    bend.at("halves", &mut d);
    for j in 0..3 {
        d[2 * j].append_to_transcript(b"claim_eval_dotp_left", t);
        d[2 * j + 1].append_to_transcript(b"claim_eval_dotp_right", t);
    }
    let mut zs = vec![];
    let mut cs = vec![];
    for k in 0..2 {
        zs.extend(leaves[k].1.iter().chain(leaves[k].2.iter()).cloned());
        cs.extend(&claims[k][1..7]);
    }
    let (ops, r_ops) = batched("ops", &zs, &dots, cs, d.clone(), bend, t);
    let zs: Vec<Vec<Scalar>> = (0..2).flat_map(|k| vec![leaves[k].0.clone(), leaves[k].3.clone()]).collect();
    let cs = (0..2).flat_map(|k| vec![claims[k][0], claims[k][7]]).collect();
    let (mem, r_mem) = batched("mem", &zs, &[], cs, vec![], bend, t);

    t.append_protocol_name(b"Sparse polynomial hash layer proof");
    let shown: Vec<Scalar> = looked[0].iter().chain(looked[1].iter()).map(|z| at(z, &r_ops)).collect();
    t.append_protocol_name(b"Derefs evaluation proof");
    let (p_der, e_der) = joint("open.looked", &der, shown, [b"evals_ops_val", b"challenge_combine_n_to_one", b"joint_claim_eval"], &r_ops, &g_der, bend, t, tape);
    let parts: Vec<Vec<Scalar>> = (0..2)
        .flat_map(|k| mems[k].addr.iter().map(|a| nums(a)).chain(mems[k].reads.iter().cloned()).collect::<Vec<_>>())
        .chain(vals.iter().cloned())
        .collect();
    let table = merge(parts.iter());
    let (p_ops, e_ops) = joint(
        "open.ops",
        &table,
        parts.iter().map(|z| at(z, &r_ops)).collect(),
        [b"claim_evals_ops", b"challenge_combine_n_to_one", b"joint_claim_eval_ops"],
        &r_ops,
        &PolyCommitmentGens::new(log(table.len()), label),
        bend,
        t,
        tape,
    );
    let table: Vec<Scalar> = mems[0].audit.iter().chain(mems[1].audit.iter()).cloned().collect();
    let (p_mem, e_mem) = joint(
        "open.mem",
        &table,
        vec![at(&mems[0].audit, &r_mem), at(&mems[1].audit, &r_mem)],
        [b"claim_evals_mem", b"challenge_combine_two_to_one", b"joint_claim_eval_mem"],
        &r_mem,
        &PolyCommitmentGens::new(log(table.len()), label),
        bend,
        t,
        tape,
    );
    let four = |c: &Vec<Scalar>| (c[0], c[1..4].to_vec(), c[4..7].to_vec(), c[7]);
    Evaluation {
        comm,
        prod: Products { row: four(&claims[0]), col: four(&claims[1]), val: ((0..3).map(|j| d[2 * j]).collect(), (0..3).map(|j| d[2 * j + 1]).collect()), mem, ops },
        hash: Hashes {
            row: (e_ops[..3].to_vec(), e_ops[3..6].to_vec(), e_mem[0]),
            col: (e_ops[6..9].to_vec(), e_ops[9..12].to_vec(), e_mem[1]),
            val: e_ops[12..15].to_vec(),
            derefs: (e_der[..3].to_vec(), e_der[3..].to_vec()),
            ops: p_ops,
            mem: p_mem,
            der: p_der,
        },
    }
}
