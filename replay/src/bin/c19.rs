use lambdaworks_stark::starks::grinding::{generate_nonce_with_grinding, hash_transcript_with_int_and_get_leading_zeros};
use replay::{stark::measure, *};
fn main() {
    let mut c = Ctx::new("C19");
    c.rule("random 32-byte states with random nonces (difficulty compared with the reference hash measure) and with difficulties 0..=14 (nonce compared with a reference search); corner nonces near 2^8k boundaries");
    for k in 0..c.n(20000, 400000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let s: [u8; 32] = match r.below(6) {
            0 => [r.u64() as u8; 32],
            _ => r.bytes(32).try_into().unwrap(),
        };
        let n = match r.below(4) {
            0 => r.below(70000),
            1 => (1u64 << (8 * r.below(8))).wrapping_add(r.below(3)).wrapping_sub(1),
            2 => u64::MAX - r.below(3),
            _ => r.u64(),
        };
        let txt = || format!("state {} nonce {n}", hex(&s));
        c.case(hash_of(&(s, n)), txt);
        if let Some(g) = c.guard("measure-panics", txt, || hash_transcript_with_int_and_get_leading_zeros(&s, n)) {
            c.check_eq("measure", &(g as u32), &measure(&s, n), txt);
        }
        if k % 10 == 0 {
            let d = r.below(c.n(11, 15) as u64) as u8;
            let txt = || format!("state {} difficulty {d}", hex(&s));
            if let Some(g) = c.guard("search-panics", txt, || generate_nonce_with_grinding(&s, d)) {
                let want = (0..u64::MAX).find(|n| measure(&s, *n) >= d as u32);
                c.check_eq("least-nonce", &g, &want, txt);
            }
        }
    }
    c.finish()
}
