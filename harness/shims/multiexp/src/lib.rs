//! Offline stand-in for `multiexp` 0.2: variable-time multi-scalar multiplication over any group,
//! reading the scalars through `PrimeFieldBits::to_le_bits` exactly as the original does.
use ff::PrimeFieldBits;
use group::Group;
use zeroize::Zeroize;

fn nibbles<S: PrimeFieldBits>(s: &S) -> Vec<u8> {
    let bits: Vec<bool> = s.to_le_bits().into_iter().collect();
    bits.chunks(4)
        .map(|c| c.iter().enumerate().map(|(i, b)| (*b as u8) << i).sum())
        .collect()
}

pub fn multiexp<G: Group>(pairs: &[(G::Scalar, G)]) -> G
where
    G::Scalar: PrimeFieldBits + Zeroize,
{
    if pairs.is_empty() {
        return G::identity();
    }
    if pairs.len() == 1 {
        return pairs[0].1 * pairs[0].0;
    }
    let digits: Vec<Vec<u8>> = pairs.iter().map(|(s, _)| nibbles(s)).collect();
    let n = digits.iter().map(|d| d.len()).max().unwrap();
    let mut acc = G::identity();
    let mut started = false;
    for w in (0..n).rev() {
        if started {
            for _ in 0..4 {
                acc = acc.double();
            }
        }
        let mut buckets: [Option<G>; 16] = [None; 16];
        for (i, d) in digits.iter().enumerate() {
            let v = *d.get(w).unwrap_or(&0) as usize;
            if v != 0 {
                buckets[v] = Some(match buckets[v] {
                    None => pairs[i].1,
                    Some(b) => b + pairs[i].1,
                });
            }
        }
        let mut run: Option<G> = None;
        let mut sum: Option<G> = None;
        for v in (1..16).rev() {
            if let Some(b) = buckets[v] {
                run = Some(match run { None => b, Some(r) => r + b });
            }
            if let Some(r) = run {
                sum = Some(match sum { None => r, Some(s) => s + r });
            }
        }
        if let Some(s) = sum {
            acc += s;
            started = true;
        }
    }
    acc
}
