use lambdaworks_stark::starks::{prover::prove, verifier::verify};
use replay::{stark::*, *};
fn main() {
    let mut c = Ctx::new("C16");
    c.rule("random AIRs (columns, offsets, exemptions, degrees, auxiliary columns, boundary steps) with satisfying traces and random options: the prover's proof equals the protocol's, part by part, and is accepted; the protocol's own proof is accepted");
    for k in 0..c.n(250, 6000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let (cfg, cols) = gen_air(&mut r, 5);
        let txt = || format!("{} trace={}", cfg.describe(), cols_text(&cols));
        c.announce(txt());
        c.case(case_hash(&cfg, &cols), txt);
        let s = spec_prove(&cfg, &cols, &Cheat::None);
        assert!(s.low_degree, "generator made an unsatisfied AIR: {}", txt());
        let p = match c.guard("prove-panics", txt, || prove::<F, TestAir>(&table_of(&cols), &cfg, &cfg.options())) {
            Some(Ok(p)) => p,
            Some(Err(_)) => {
                c.check("prove-refuses", false, txt);
                continue;
            }
            None => continue,
        };
        if let Some(d) = first_difference(&p, &s.proof) {
            c.check(&format!("proof-differs-in-{d}"), false, txt);
        }
        let v = c.guard("verify-panics", txt, || verify::<F, TestAir>(&p, &cfg, &cfg.options()));
        c.check("honest-proof-rejected", v != Some(false), txt);
        let v = c.guard("verify-panics", txt, || verify::<F, TestAir>(&s.proof, &cfg, &cfg.options()));
        c.check("protocol-proof-rejected", v != Some(false), txt);
    }
    c.finish()
}
