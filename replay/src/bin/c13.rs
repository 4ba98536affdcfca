use lambdaworks_crypto::merkle_tree::backends::types::BatchKeccak256Tree;
use lambdaworks_stark::starks::{prover::prove, verifier::verify};
use replay::{stark::*, *};
fn main() {
    let mut c = Ctx::new("C13");
    c.rule("proofs of random AIRs: the prover's first FRI layer is the DEEP polynomial of the opened columns at the drawn challenges, each opening is the table row at the drawn index and its path authenticates it; the verifier accepts the prescribed combination and refuses another first layer or openings from another row");
    for k in 0..c.n(400, 10000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let (cfg, cols) = gen_air(&mut r, 4);
        let txt = || format!("{} trace={}", cfg.describe(), cols_text(&cols));
        c.announce(txt());
        c.case(case_hash(&cfg, &cols), txt);
        if let Some(Some(p)) = c.guard("prove-panics", txt, || prove::<F, TestAir>(&table_of(&cols), &cfg, &cfg.options()).ok()) {
            let d = draw(&cfg, &p);
            let mut all = cols.clone();
            all.extend(cfg.aux_columns(&cols, &d.rap));
            let polys = polys_of(&all);
            let (z, l) = (d.z.0, cfg.lde());
            // claimed values are true
            let want = poly_frame(&cfg, &polys, z);
            let got: Option<Vec<Vec<FE>>> = quiet(|| (0..cfg.offsets.len()).map(|i| frame_row(&p, i)).collect()).ok();
            c.check("claimed-frame", got == Some(want), txt);
            // the composition's halves, recovered from its true evaluations
            let lde: Vec<Vec<FE>> = polys.iter().map(|q| coset_evals(q, l, cfg.h())).collect();
            let w = root(l.trailing_zeros());
            let ev_: Vec<FE> = (0..l)
                .map(|i| composition_at(&cfg, &d, cfg.h() * pow(w, i as u64), &|a, b| lde[b][(i + cfg.offsets[a] * cfg.blowup as usize) % l]))
                .collect();
            let full = interpolate_coset(&ev_, cfg.h());
            let h: [Poly; 2] = [full.iter().step_by(2).copied().collect(), full.iter().skip(1).step_by(2).copied().collect()];
            c.check("claimed-halves", p.composition_poly_even_ood_evaluation == ev(&h[0], z * z) && p.composition_poly_odd_ood_evaluation == ev(&h[1], z * z), txt);
            let deep = deep_poly(&cfg, &d, &polys, &h);
            c.check("queries", p.query_list.len() == cfg.queries && p.deep_poly_openings.len() == cfg.queries, txt);
            for ((q, o), i) in p.query_list.iter().zip(&p.deep_poly_openings).zip(&d.iotas) {
                let x = cfg.h() * pow(w, *i as u64);
                let t = || format!("query index {i}: {}", txt());
                c.check("first-layer-is-deep", q.layers_evaluations.first() == Some(&ev(&deep, x)), t);
                c.check("first-layer-is-deep-sym", q.layers_evaluations_sym.first() == Some(&ev(&deep, FE::zero() - x)), t);
                let row: Vec<FE> = lde.iter().map(|v| v[*i]).collect();
                c.check("opened-row", o.lde_trace_evaluations == row, t);
                let hv = vec![ev(&h[0], x), ev(&h[1], x)];
                c.check("opened-halves", vec![o.lde_composition_poly_even_evaluation, o.lde_composition_poly_odd_evaluation] == hv, t);
                let ok = quiet(|| {
                    let mut ok = o.lde_composition_poly_proof.verify::<BatchKeccak256Tree<F>>(&p.composition_poly_root, *i, &hv);
                    let n_tables = if cfg.aux.is_empty() { 1 } else { 2 };
                    ok &= o.lde_trace_merkle_proofs.len() == n_tables && p.lde_trace_merkle_roots.len() == n_tables;
                    for (j, (pr, rt)) in o.lde_trace_merkle_proofs.iter().zip(&p.lde_trace_merkle_roots).enumerate() {
                        let part = if j == 0 { row[..cfg.main].to_vec() } else { row[cfg.main..].to_vec() };
                        ok &= pr.verify::<BatchKeccak256Tree<F>>(rt, *i, &part);
                        // and no other row
                        let other: Vec<FE> = lde.iter().map(|v| v[*i ^ 1]).collect();
                        let other = if j == 0 { other[..cfg.main].to_vec() } else { other[cfg.main..].to_vec() };
                        ok &= other == part || !pr.verify::<BatchKeccak256Tree<F>>(rt, *i ^ 1, &part);
                    }
                    ok
                });
                c.check("opening-authenticates", ok == Ok(true), t);
            }
        }
        let s = spec_prove(&cfg, &cols, &Cheat::None);
        let honest = s.proof;
        let v = c.guard("verify-panics", txt, || verify::<F, TestAir>(&honest, &cfg, &cfg.options()));
        c.check("prescribed-combination-refused", v != Some(false), txt);
        let seed = r.u64();
        for ch in [Cheat::OtherP0(seed), Cheat::ShiftedOpenings] {
            let s = spec_prove(&cfg, &cols, &ch);
            // a shifted opening may coincide with the right one when a table is constant
            if first_difference(&honest, &s.proof).is_none() {
                continue;
            }
            let t = || format!("{ch:?}: {}", txt());
            let v = c.guard("verify-panics", t, || verify::<F, TestAir>(&s.proof, &cfg, &cfg.options()));
            c.check("other-combination-accepted", v != Some(true), t);
        }
    }
    c.finish()
}
