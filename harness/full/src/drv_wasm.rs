//! What the compiled module does for the TypeScript library (harness/lib/run.js): requests over a pipe are
//! answered by the entry points of packages/spartan_wasm.
use spartan_wasm::wasm;
use std::fs::{File, OpenOptions};
use std::io::{Read, Write};
use vt_common::*;

fn take(r: &mut File, n: usize) -> Option<Vec<u8>> {
    let mut b = vec![0u8; n];
    r.read_exact(&mut b).ok()?;
    Some(b)
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "circuit" {
        // the circuit file, as packages/circuit_reader's gen_spartan_inst writes it
        let r = guarded(|| {
            let inst = circuit_reader::load_as_spartan_inst(a[2].clone().into(), a[4].parse().unwrap());
            std::fs::write(&a[3], bincode::serialize(&inst).unwrap()).unwrap();
        });
        std::process::exit(if r.is_err() { 1 } else { 0 });
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut from = File::open(&a[1]).unwrap();
    let mut to = OpenOptions::new().write(true).open(&a[2]).unwrap();
    while let Some(op) = take(&mut from, 1) {
        let n = [0, 1, 3, 3, 2][op[0] as usize];
        let h = take(&mut from, 4 * n).unwrap();
        let len = |i: usize| u32::from_le_bytes([h[4 * i], h[4 * i + 1], h[4 * i + 2], h[4 * i + 3]]) as usize;
        let b: Vec<Vec<u8>> = (0..n).map(|i| take(&mut from, len(i)).unwrap()).collect();
        let r = std::panic::catch_unwind(|| match op[0] {
            1 => wasm::poseidon(&b[0]).map_err(|_| ()),
            2 => wasm::prove(&b[0], &b[1], &b[2]).map_err(|_| ()),
            3 => wasm::verify(&b[0], &b[1], &b[2]).map(|v| vec![v as u8]).map_err(|_| ()),
            // are these two encodings of one proof?
            4 => {
                let canon = |x: &[u8]| bincode::deserialize::<libspartan::NIZK>(x).ok().map(|p| bincode::serialize(&p).unwrap());
                Ok(vec![(canon(&b[0]).is_some() && canon(&b[0]) == canon(&b[1])) as u8])
            }
            _ => Err(()),
        });
        let (s, d) = match r {
            Ok(Ok(d)) => (0u8, d),
            Ok(Err(_)) => (1, vec![]),
            Err(_) => (2, vec![]),
        };
        let mut o = vec![s];
        o.extend_from_slice(&(d.len() as u32).to_le_bytes());
        o.extend_from_slice(&d);
        to.write_all(&o).unwrap();
    }
}
