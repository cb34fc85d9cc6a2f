//! What every driver shares: read one JSON request per line, run it against the code under test,
//! write the request back with the observed results added.  A panic of the code under test is an
//! observation ("panic": message), never a crash of the driver.
pub use serde_json::{json, Map, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}
/// big-endian canonical number string without leading zeros
pub fn num_be(b: &[u8]) -> String {
    let h = hex(b);
    let t = h.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.into() }
}
pub fn num_le(b: &[u8]) -> String {
    let mut v = b.to_vec();
    v.reverse();
    num_be(&v)
}
/// number string -> n bytes, little endian (the number is reduced mod 2^(8n))
pub fn le_bytes(s: &str, n: usize) -> Vec<u8> {
    let s = if s.len() % 2 == 1 { format!("0{}", s) } else { s.to_string() };
    let mut v = unhex(&s);
    v.reverse();
    v.resize(n, 0);
    v
}
pub fn arr<const N: usize>(v: &[u8]) -> [u8; N] {
    v.try_into().expect("length")
}
pub fn limbs<const N: usize>(s: &str) -> [u64; N] {
    let b = le_bytes(s, 8 * N);
    let mut r = [0u64; N];
    for i in 0..N {
        r[i] = u64::from_le_bytes(arr(&b[8 * i..8 * i + 8]));
    }
    r
}
pub fn st<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("driver: field {} missing in {}", k, v))
}
pub fn us(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap_or_else(|| panic!("driver: field {} missing in {}", k, v)) as usize
}
pub fn uss(v: &Value, k: &str) -> Vec<usize> {
    v[k].as_array().unwrap_or_else(|| panic!("driver: field {} missing in {}", k, v)).iter().map(|x| x.as_u64().unwrap() as usize).collect()
}
pub fn strs(v: &Value, k: &str) -> Vec<String> {
    v[k].as_array().unwrap_or_else(|| panic!("driver: field {} missing in {}", k, v)).iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
/// Runs `f`, turning a panic into Err(text).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}
/// Main loop: `f(request)` returns the fields to add.
pub fn serve(mut f: impl FnMut(&Value) -> Value) {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::with_capacity(1 << 20, stdout.lock());
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.trim().is_empty() {
            continue;
        }
        let req: Value = serde_json::from_str(&line).expect("request");
        let mut o: Map<String, Value> = req.as_object().expect("object").clone();
        match guarded(|| f(&req)) {
            Ok(Value::Object(m)) => {
                for (k, v) in m {
                    o.insert(k, v);
                }
            }
            Ok(_) => {}
            Err(t) => {
                if t.starts_with("driver:") {
                    eprintln!("{}", t);
                    std::process::exit(2);
                }
                o.insert("panic".into(), json!(t));
            }
        }
        writeln!(out, "{}", Value::Object(o)).expect("stdout");
        // the next request may take the process down
        out.flush().expect("stdout");
    }
    out.flush().expect("stdout");
}
