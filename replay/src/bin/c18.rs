use lambdaworks_math::traits::{Deserializable, Serializable};
use lambdaworks_stark::cairo::air::PublicInputs;
use lambdaworks_stark::starks::{
    frame::Frame,
    fri::fri_decommit::FriDecommitment,
    proof::stark::{DeepPolynomialOpenings, StarkProof},
    utils::{deserialize_proof, serialize_proof},
};
use replay::{stark::*, values::*, *};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct Watch;
static LARGEST: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LARGEST.fetch_max(l.size(), Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LARGEST.fetch_max(n, Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Watch = Watch;

fn base(r: &mut Rng, kind: usize) -> Vec<u8> {
    match kind {
        0 => proof(r).serialize(),
        1 => decommitment(r).serialize(),
        2 => opening(r).serialize(),
        3 => frame(r).serialize(),
        4 => serialize_proof(&path(r)),
        _ => public(r).serialize(),
    }
}
const HOSTILE: [u64; 16] = [
    0, 1, 7, 8, 31, 32, 33, 255, 1 << 16, 1 << 31, 1 << 32, 1 << 40, 1 << 59, 1 << 63, u64::MAX - 7, u64::MAX,
];
fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    match r.below(7) {
        0 => { let n = r.below(b.len() as u64 + 1) as usize; b.truncate(n) }
        1 => { let n = r.below(50) as usize; b.extend(r.bytes(n)) }
        2 if b.len() >= 8 => {
            // a hostile value where a length may be: lengths start at multiples of 8 from either end
            let i = if r.bool() { r.usize(0, b.len() - 7) } else { r.usize(0, b.len() / 8) * 8 };
            let v = if r.bool() { *r.pick(&HOSTILE) } else { b.len() as u64 + r.below(9) - 4 };
            if i + 8 <= b.len() {
                b[i..i + 8].copy_from_slice(&v.to_be_bytes());
            }
        }
        3 if !b.is_empty() => { let i = r.usize(0, b.len()); b[i] = r.u64() as u8 }
        4 if !b.is_empty() => { let i = r.usize(0, b.len()); let j = r.usize(i, b.len()); b.drain(i..j); }
        5 if !b.is_empty() => { let i = r.usize(0, b.len()); b[i] ^= 1 << r.below(8) }
        _ => { let i = r.usize(0, b.len() + 1); let n = r.below(9) as usize; let x = r.bytes(n); b.splice(i..i, x); }
    }
}
fn main() {
    let mut c = Ctx::new("C18");
    c.rule("valid encodings of every type with 0..=4 mutations (truncation at every kind of place, extension, hostile 8-byte lengths at every offset, byte flips, deletions, insertions), every prefix of a valid encoding, and random bytes; each deserialization must return, without a panic and without an allocation out of proportion to the input");
    let names = ["proof", "decommitment", "opening", "frame", "path", "public-inputs"];
    let mut ok = [0u64; 6];
    let total = c.n(150_000, 3_000_000);
    let mut k = 0;
    while k < total {
        if k % 256 < 8 && c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let kind = r.usize(0, 6);
        let mut batch: Vec<Vec<u8>> = vec![];
        let b = base(&mut r, kind);
        match r.below(40) {
            0 => { let n = r.below(80) as usize; batch.push(r.bytes(n)) }
            1 if b.len() < 1500 => for n in 0..=b.len() { batch.push(b[..n].to_vec()) },
            2 if b.len() < 1500 => for i in 0..b.len().saturating_sub(7) {
                let mut x = b.clone();
                x[i..i + 8].copy_from_slice(&r.pick(&HOSTILE).to_be_bytes());
                batch.push(x);
            },
            _ => {
                let mut x = b;
                for _ in 0..r.below(5) {
                    mutate(&mut r, &mut x);
                }
                batch.push(x);
            }
        }
        for b in batch {
            k += 1;
            if k % 64 == 0 {
                c.announce(format!("{} from {}", names[kind], hex(&b)));
            }
            let txt = || format!("{} from {} bytes {}", names[kind], b.len(), hex(&b));
            c.case(hash_of(&(kind, &b)), txt);
            LARGEST.store(0, Relaxed);
            let t = std::time::Instant::now();
            let got = c.guard(&format!("{}-panics", names[kind]), txt, || match kind {
                0 => StarkProof::<F>::deserialize(&b).is_ok(),
                1 => FriDecommitment::<F>::deserialize(&b).is_ok(),
                2 => DeepPolynomialOpenings::<F>::deserialize(&b).is_ok(),
                3 => Frame::<F>::deserialize(&b).is_ok(),
                4 => deserialize_proof(&b).is_ok(),
                _ => PublicInputs::deserialize(&b).is_ok(),
            });
            let el = t.elapsed();
            if got == Some(true) {
                ok[kind] += 1;
            }
            let big = LARGEST.load(Relaxed);
            c.check(&format!("{}-allocates-without-bound", names[kind]), got.is_none() || big <= 4096 + 16 * b.len(), || format!("{big} bytes at once: {}", txt()));
            c.check(&format!("{}-slow", names[kind]), el.as_secs() < 5, txt);
        }
    }
    c.rule(&format!("accepted: {}", names.iter().zip(ok).map(|(n, k)| format!("{n} {k}")).collect::<Vec<_>>().join(", ")));
    c.finish()
}
