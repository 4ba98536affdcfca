use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::cairo::{cairo_mem::CairoMemory, errors::CairoImportError, register_states::RegisterStates};
use replay::*;
use std::collections::HashMap;
fn main() {
    let mut c = Ctx::new("C02");
    c.rule("random files of 0..=40 records (with repeated addresses, values at and above the field's modulus), truncated and extended by every number of bytes up to a record, read through bytes and through files; compared with a reference reader");
    let dir = std::env::temp_dir().join(format!("replay-c02-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    for k in 0..c.n(6000, 200000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let mem = r.bool();
        let rec = if mem { 40 } else { 24 };
        let mut bytes = vec![];
        let n = r.below(41) as usize;
        for _ in 0..n {
            if mem {
                let a = if r.chance(1, 3) { r.below(6) } else { r.u64() };
                bytes.extend(a.to_le_bytes());
                let mut v = r.bytes(32);
                match r.below(4) {
                    0 => v[31] = 0,
                    1 => v = { let mut x = FE::zero().to_bytes_be(); x.reverse(); x },
                    2 => v[8..].fill(0),
                    _ => {}
                }
                bytes.extend(v);
            } else {
                for _ in 0..3 {
                    let v = if r.bool() { r.u64() } else { r.below(300) };
                    bytes.extend(v.to_le_bytes());
                }
            }
        }
        match r.below(4) {
            0 => bytes.truncate(bytes.len() - r.below(rec as u64 + 1).min(bytes.len() as u64) as usize),
            1 => {
                let k = r.below(rec as u64 + 1) as usize;
                bytes.extend(r.bytes(k))
            }
            _ => {}
        }
        let file = r.chance(1, 20);
        let txt = || format!("{} file={file} bytes={}", if mem { "memory" } else { "trace" }, hex(&bytes));
        c.case(hash_of(&(mem, &bytes)), txt);
        let path = dir.join("f");
        if file {
            std::fs::write(&path, &bytes).unwrap();
        }
        let p = path.to_str().unwrap();
        let whole = bytes.len() % rec == 0;
        if mem {
            let Some(got) = c.guard("memory-panics", txt, || if file { CairoMemory::from_file(p) } else { CairoMemory::from_bytes_le(&bytes) }) else { continue };
            match got {
                Ok(m) => {
                    c.check("partial-record-accepted", whole, txt);
                    if !whole {
                        continue;
                    }
                    let mut want: HashMap<u64, FE> = HashMap::new();
                    for ch in bytes.chunks(40) {
                        let two8 = FE::from(256);
                        let v = ch[8..].iter().rev().fold(FE::zero(), |a, b| a * two8 + FE::from(*b as u64));
                        want.insert(u64::from_le_bytes(ch[..8].try_into().unwrap()), v);
                    }
                    c.check("memory-content", m.data == want, || format!("{}\n got {:?}", txt(), m.data.iter().map(|(a, v)| (*a, fhex(v))).collect::<Vec<_>>()));
                    for (a, v) in &want {
                        c.check("memory-get", m.get(a) == Some(v), txt);
                    }
                    c.check("memory-len", m.len() == want.len(), txt);
                }
                Err(e) => {
                    c.check("whole-file-refused", !whole && matches!(e, CairoImportError::IncorrectNumberOfBytes), txt);
                }
            }
        } else {
            let Some(got) = c.guard("trace-panics", txt, || if file { RegisterStates::from_file(p) } else { RegisterStates::from_bytes_le(&bytes) }) else { continue };
            match got {
                Ok(s) => {
                    c.check("partial-record-accepted", whole, txt);
                    if !whole {
                        continue;
                    }
                    let w = |ch: &[u8], i: usize| u64::from_le_bytes(ch[8 * i..8 * i + 8].try_into().unwrap());
                    let want: Vec<(u64, u64, u64)> = bytes.chunks(24).map(|ch| (w(ch, 0), w(ch, 1), w(ch, 2))).collect();
                    let got: Vec<(u64, u64, u64)> = s.rows.iter().map(|x| (x.ap, x.fp, x.pc)).collect();
                    c.check_eq("trace-content", &got, &want, txt);
                    c.check_eq("steps", &s.steps(), &want.len(), txt);
                }
                Err(e) => {
                    c.check("whole-file-refused", !whole && matches!(e, CairoImportError::IncorrectNumberOfBytes), txt);
                }
            }
        }
    }
    let missing = dir.join("missing");
    let m = missing.to_str().unwrap();
    c.check("missing-file", quiet(|| CairoMemory::from_file(m).is_err() && RegisterStates::from_file(m).is_err()) == Ok(true), || "missing file".into());
    let _ = std::fs::remove_dir_all(&dir);
    c.finish()
}
