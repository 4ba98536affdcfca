use lambdaworks_stark::starks::{constraints::evaluator::ConstraintEvaluator, domain::Domain, prover::prove, traits::AIR, verifier::verify};
use replay::{stark::*, *};
fn main() {
    let mut c = Ctx::new("C10");
    c.rule("random AIRs (columns, offsets, exemptions, degrees, auxiliary columns, boundary steps) with satisfying and with arbitrary traces: the table of evaluations on the extended domain equals the protocol's composition pointwise, interpolates to the declared degree when the trace satisfies the constraints; the verifier accepts the composition the protocol prescribes and refuses another one");
    for k in 0..c.n(500, 12000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let (cfg, mut cols) = gen_air(&mut r, 5);
        let honest = r.chance(1, 3);
        if !honest {
            for _ in 0..r.usize(1, 4) {
                let (a, b) = (r.usize(0, cols.len()), r.usize(0, cfg.n));
                cols[a][b] = r.fe();
            }
        }
        let ch: Vec<FE> = (0..cfg.n_chal).map(|_| r.fe_uniform()).collect();
        let mut all = cols.clone();
        all.extend(cfg.aux_columns(&cols, &ch));
        let txt = || format!("{} trace={} challenges={}", cfg.describe(), cols_text(&all), fhexs(&ch));
        c.announce(txt());
        c.case(case_hash(&cfg, &all), txt);
        let l = cfg.lde();
        let lde: Vec<Vec<FE>> = polys_of(&all).iter().map(|p| coset_evals(p, l, cfg.h())).collect();
        let mut d = Drawn { rap: ch.clone(), ..Default::default() };
        d.b = cfg.boundary.iter().map(|_| (r.fe(), r.fe())).collect();
        d.t = cfg.constraints.iter().map(|_| (r.fe(), r.fe())).collect();
        let air = TestAir::new(cfg.n, &cfg, &cfg.options());
        let got = c.guard("evaluation-panics", txt, || {
            let domain = Domain::new(&air);
            let ev = ConstraintEvaluator::new(&air, &ch);
            let table = ev.evaluate(&table_of(&lde), &domain, &d.t, &d.b, &ch);
            let h = table.compute_composition_poly(&cfg.h());
            (table.evaluations_acc, h.coefficients().to_vec())
        });
        let Some((got, h)) = got else { continue };
        let w = root(l.trailing_zeros());
        let b = cfg.blowup as usize;
        let want: Vec<FE> = (0..l).map(|i| composition_at(&cfg, &d, cfg.h() * pow(w, i as u64), &|rr, cc| lde[cc][(i + cfg.offsets[rr] * b) % l])).collect();
        c.check("composition-evaluations", got == want, || {
            let i = got.iter().zip(&want).position(|(a, b)| a != b);
            format!("first difference at index {i:?}; coefficients {:?} {:?}; {}", d.b.iter().map(|(a, b)| (fhex(a), fhex(b))).collect::<Vec<_>>(), d.t.iter().map(|(a, b)| (fhex(a), fhex(b))).collect::<Vec<_>>(), txt())
        });
        c.check("composition-polynomial", trim(&h) == trim(&interpolate_coset(&want, cfg.h())), txt);
        if honest {
            c.check("composition-degree", trim(&h).len() <= 2 * cfg.n, txt);
        }
        if k % 4 == 0 {
            // the verifier's side
            let (cfg, cols) = gen_air(&mut r, 4);
            let txt = || format!("{} trace={}", cfg.describe(), cols_text(&cols));
            c.announce(txt());
            let s = spec_prove(&cfg, &cols, &Cheat::None);
            let v = c.guard("verify-panics", txt, || verify::<F, TestAir>(&s.proof, &cfg, &cfg.options()));
            c.check("prescribed-composition-refused", v != Some(false), txt);
            let seed = r.u64();
            let s = spec_prove(&cfg, &cols, &Cheat::RandomH(seed));
            let txt = || format!("composition replaced (seed {seed}) in {} trace={}", cfg.describe(), cols_text(&cols));
            let v = c.guard("verify-panics", txt, || verify::<F, TestAir>(&s.proof, &cfg, &cfg.options()));
            c.check("other-composition-accepted", v != Some(true), txt);
            let p = c.guard("prove-panics", txt, || prove::<F, TestAir>(&table_of(&cols), &cfg, &cfg.options()).ok());
            if let Some(Some(p)) = p {
                let dr = draw(&cfg, &p);
                let z = dr.z.0;
                let rows: Vec<Vec<FE>> = (0..cfg.offsets.len()).map(|i| frame_row(&p, i)).collect();
                let want = composition_at(&cfg, &dr, z, &|a, b| rows[a][b]);
                c.check("claimed-composition", p.composition_poly_even_ood_evaluation + z * p.composition_poly_odd_ood_evaluation == want, txt);
            }
        }
    }
    c.finish()
}
