use lambdaworks_stark::starks::{frame::Frame, proof::options::ProofOptions, prover::prove, verifier::verify};
use replay::{stark::*, *};
fn frame_with(p: &P, cfg: &Cfg, at: usize, v: FE) -> Frame<F> {
    let mut d: Vec<FE> = (0..cfg.offsets.len()).flat_map(|i| frame_row(p, i)).collect();
    d[at] = v;
    Frame::new(d, cfg.columns())
}
/// Every single-place alteration of a proof, as (name, altered proof).
fn alterations(p: &P, cfg: &Cfg, r: &mut Rng, all: bool) -> Vec<(String, P)> {
    let mut out: Vec<(String, P)> = vec![];
    let mut add = |n: String, f: &mut dyn FnMut(&mut P)| {
        let mut q = clone_proof(p);
        f(&mut q);
        if first_difference(p, &q).is_some() {
            out.push((n, q));
        }
    };
    let d = FE::from(1 + r.below(1000));
    let bit = |r: &mut Rng, h: &mut [u8; 32]| h[r.usize(0, 32)] ^= 1 << r.below(8);
    for i in 0..p.lde_trace_merkle_roots.len() {
        add(format!("trace root {i}"), &mut |q| bit(r, &mut q.lde_trace_merkle_roots[i]));
    }
    add("composition root".into(), &mut |q| bit(r, &mut q.composition_poly_root));
    add("composition even claim".into(), &mut |q| q.composition_poly_even_ood_evaluation = q.composition_poly_even_ood_evaluation + d);
    add("composition odd claim".into(), &mut |q| q.composition_poly_odd_ood_evaluation = q.composition_poly_odd_ood_evaluation + d);
    for i in 0..cfg.offsets.len() * cfg.columns() {
        let row = frame_row(p, i / cfg.columns());
        add(format!("claimed frame value {i}"), &mut |q| q.trace_ood_frame_evaluations = frame_with(p, cfg, i, row[i % cfg.columns()] + d));
    }
    for i in 0..p.fri_layers_merkle_roots.len() {
        add(format!("layer root {i}"), &mut |q| bit(r, &mut q.fri_layers_merkle_roots[i]));
    }
    add("final value".into(), &mut |q| q.fri_last_value = q.fri_last_value + d);
    for s in 0..p.query_list.len() {
        for k in 0..p.fri_layers_merkle_roots.len() {
            add(format!("query {s} layer {k} value"), &mut |q| q.query_list[s].layers_evaluations[k] = q.query_list[s].layers_evaluations[k] + d);
            add(format!("query {s} layer {k} symmetric value"), &mut |q| q.query_list[s].layers_evaluations_sym[k] = q.query_list[s].layers_evaluations_sym[k] + d);
            let (a, b) = (p.query_list[s].layers_auth_paths[k].merkle_path.len(), p.query_list[s].layers_auth_paths_sym[k].merkle_path.len());
            for j in 0..a {
                if all || j == 0 || j + 1 == a {
                    add(format!("query {s} layer {k} path entry {j}"), &mut |q| bit(r, &mut q.query_list[s].layers_auth_paths[k].merkle_path[j]));
                }
            }
            for j in 0..b {
                if all || j == 0 || j + 1 == b {
                    add(format!("query {s} layer {k} symmetric path entry {j}"), &mut |q| bit(r, &mut q.query_list[s].layers_auth_paths_sym[k].merkle_path[j]));
                }
            }
            // consistent value/symmetric exchange
            add(format!("query {s} layer {k} values exchanged"), &mut |q| {
                let (a, b) = (q.query_list[s].layers_evaluations[k], q.query_list[s].layers_evaluations_sym[k]);
                q.query_list[s].layers_evaluations[k] = b;
                q.query_list[s].layers_evaluations_sym[k] = a;
            });
        }
        let o = &p.deep_poly_openings[s];
        add(format!("opening {s} even value"), &mut |q| q.deep_poly_openings[s].lde_composition_poly_even_evaluation = o.lde_composition_poly_even_evaluation + d);
        add(format!("opening {s} odd value"), &mut |q| q.deep_poly_openings[s].lde_composition_poly_odd_evaluation = o.lde_composition_poly_odd_evaluation + d);
        for j in 0..o.lde_trace_evaluations.len() {
            add(format!("opening {s} trace value {j}"), &mut |q| q.deep_poly_openings[s].lde_trace_evaluations[j] = o.lde_trace_evaluations[j] + d);
        }
        let n = o.lde_composition_poly_proof.merkle_path.len();
        for j in 0..n {
            if all || j == 0 || j + 1 == n {
                add(format!("opening {s} composition path entry {j}"), &mut |q| bit(r, &mut q.deep_poly_openings[s].lde_composition_poly_proof.merkle_path[j]));
                for t in 0..o.lde_trace_merkle_proofs.len() {
                    add(format!("opening {s} trace path {t} entry {j}"), &mut |q| bit(r, &mut q.deep_poly_openings[s].lde_trace_merkle_proofs[t].merkle_path[j]));
                }
            }
        }
        if s + 1 < p.query_list.len() {
            add(format!("queries {s} and {} exchanged", s + 1), &mut |q| q.query_list.swap(s, s + 1));
            add(format!("openings {s} and {} exchanged", s + 1), &mut |q| q.deep_poly_openings.swap(s, s + 1));
        }
    }
    out
}
/// Openings compensated so that the reconstructed DEEP value is unchanged.
fn compensated(p: &P, cfg: &Cfg, d: &Drawn, r: &mut Rng) -> Vec<(String, P)> {
    let mut out = vec![];
    let g = root(cfg.n.trailing_zeros());
    let w = root(cfg.lde().trailing_zeros());
    let z = d.z.0;
    for s in 0..p.query_list.len() {
        let x = cfg.h() * pow(w, d.iotas[s] as u64);
        let den = (x - z * z).inv();
        let coeff = |j: usize| cfg.offsets.iter().enumerate().fold(FE::zero(), |a, (k, o)| a + d.trace_coeffs[j][k] * (x - z * pow(g, *o as u64)).inv());
        let e = FE::from(1 + r.below(100));
        // trace value j moved, odd half compensates; and even/odd against each other
        for j in 0..cfg.columns() {
            let mut q = clone_proof(p);
            let o = &mut q.deep_poly_openings[s];
            o.lde_trace_evaluations[j] = o.lde_trace_evaluations[j] + e;
            o.lde_composition_poly_odd_evaluation = o.lde_composition_poly_odd_evaluation - e * coeff(j) * (den * d.gamma[1]).inv();
            out.push((format!("opening {s}: trace value {j} and odd half moved together"), q));
            if j > 0 {
                let mut q = clone_proof(p);
                let o = &mut q.deep_poly_openings[s];
                o.lde_trace_evaluations[j] = o.lde_trace_evaluations[j] + e;
                o.lde_trace_evaluations[0] = o.lde_trace_evaluations[0] - e * coeff(j) * coeff(0).inv();
                out.push((format!("opening {s}: trace values {j} and 0 moved together"), q));
            }
        }
        let mut q = clone_proof(p);
        let o = &mut q.deep_poly_openings[s];
        o.lde_composition_poly_even_evaluation = o.lde_composition_poly_even_evaluation + e;
        o.lde_composition_poly_odd_evaluation = o.lde_composition_poly_odd_evaluation - e * d.gamma[0] * d.gamma[1].inv();
        out.push((format!("opening {s}: halves moved together"), q));
        // symmetric values moved so that the folding still holds
        let two_inv = FE::from(2).inv();
        for k in 0..p.fri_layers_merkle_roots.len() {
            let xk = pow(x, 1 << k);
            // v = (a+b)/2 + zeta (a-b)/(2x): moving b by e moves v by e(1/2 - zeta/(2x)); layer value a compensates
            let (ca, cb) = (two_inv + d.zetas[k] * two_inv * xk.inv(), two_inv - d.zetas[k] * two_inv * xk.inv());
            let mut q = clone_proof(p);
            q.query_list[s].layers_evaluations_sym[k] = q.query_list[s].layers_evaluations_sym[k] + e;
            q.query_list[s].layers_evaluations[k] = q.query_list[s].layers_evaluations[k] - e * cb * ca.inv();
            out.push((format!("query {s} layer {k}: both values moved together"), q));
        }
    }
    // claims moved so that the composition check still holds
    let e = FE::from(1 + r.below(100));
    let mut q = clone_proof(p);
    q.composition_poly_odd_ood_evaluation = q.composition_poly_odd_ood_evaluation + e;
    q.composition_poly_even_ood_evaluation = q.composition_poly_even_ood_evaluation - e * z;
    out.push(("claimed halves moved together".into(), q));
    out
}
fn main() {
    let mut c = Ctx::new("C14");
    c.rule("accepted proofs of random AIRs with every single part altered (all queries, layers, roots, claims, openings, path entries, nonce, public inputs, options), with parts altered together so that the other checks still pass, and proofs made by a prover that departs from the protocol in one place and stays consistent with it afterwards; all must be refused");
    let mut kinds = std::collections::HashMap::<String, u64>::new();
    for k in 0..c.n(60, 3000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let (mut cfg, cols) = gen_air(&mut r, 3);
        cfg.grinding = *r.pick(&[0u8, 1, 4]);
        cfg.queries = r.usize(1, 4);
        cfg.blowup = *r.pick(&[4u8, 8, 16]);
        if !cols.iter().any(|v| v.iter().any(|x| *x != v[0])) {
            continue; // every row is the same: openings at any index are genuine
        }
        let base = format!("{} trace={}", cfg.describe(), cols_text(&cols));
        let txt = || base.clone();
        c.announce(txt());
        // a proof accepted by the verifier: the prover's, or the protocol's when the prover fails
        let p = match quiet(|| prove::<F, TestAir>(&table_of(&cols), &cfg, &cfg.options())) {
            Ok(Ok(p)) if quiet(|| verify::<F, TestAir>(&p, &cfg, &cfg.options())) == Ok(true) => p,
            _ => {
                let s = spec_prove(&cfg, &cols, &Cheat::None);
                if quiet(|| verify::<F, TestAir>(&s.proof, &cfg, &cfg.options())) != Ok(true) {
                    // neither is accepted: nothing to alter (completeness is another property)
                    continue;
                }
                s.proof
            }
        };
        let d = draw(&cfg, &p);
        let mut cases = alterations(&p, &cfg, &mut r, c.thorough);
        cases.extend(compensated(&p, &cfg, &d, &mut r));
        for (what, q) in cases {
            let t = || format!("{what} altered: {base}");
            c.case(hash_of(&t()), t);
            *kinds.entry(what.chars().filter(|c| !c.is_ascii_digit()).collect()).or_default() += 1;
            // moving a claim changes the later challenges, so rejection is by some check or another
            let v = c.guard("verify-panics", t, || verify::<F, TestAir>(&q, &cfg, &cfg.options()));
            let key: String = what.chars().filter(|c| !c.is_ascii_digit()).collect();
            c.check(&format!("accepted: {key}"), v != Some(true), t);
        }
        // nonce: another nonce may be valid too, but then the drawn queries differ
        for e in [1u64, 2, 3, 1 << 40] {
            let mut q = clone_proof(&p);
            q.nonce = p.nonce.wrapping_add(e);
            let t = || format!("nonce + {e}: {base}");
            c.case(hash_of(&t()), t);
            let same = draw(&cfg, &q).iotas == d.iotas && measure(&d.grind_seed, q.nonce) >= cfg.grinding as u32;
            let v = c.guard("verify-panics", t, || verify::<F, TestAir>(&q, &cfg, &cfg.options()));
            c.check("accepted: nonce", v != Some(true) || same || measure(&d.grind_seed, q.nonce) >= cfg.grinding as u32 && draw(&cfg, &q).iotas.iter().zip(&d.iotas).all(|(a, b)| a == b), t);
        }
        // public inputs
        let mut alt: Vec<(String, Cfg)> = vec![];
        for i in 0..cfg.boundary.len() {
            let mut x = cfg.clone();
            x.boundary[i].2 = x.boundary[i].2 + FE::one();
            alt.push((format!("boundary value {i}"), x));
            let mut x = cfg.clone();
            x.boundary[i].1 = (x.boundary[i].1 + 1) % cfg.n;
            if x.boundary[i].1 != cfg.boundary[i].1 && x.boundary[i].0 < cfg.main && cols[x.boundary[i].0][x.boundary[i].1] != x.boundary[i].2 {
                alt.push((format!("boundary step {i}"), x));
            }
        }
        let mut x = cfg.clone();
        x.queries += 1;
        alt.push(("number of queries".into(), x));
        for b in [2u8, 4, 8, 16, 32] {
            if b != cfg.blowup {
                let mut x = cfg.clone();
                x.blowup = b;
                alt.push(("blowup".into(), x));
            }
        }
        let mut x = cfg.clone();
        x.coset += 2;
        alt.push(("coset offset".into(), x));
        let m = measure(&d.grind_seed, p.nonce);
        let mut x = cfg.clone();
        x.grinding = m as u8 + 1;
        alt.push(("grinding factor".into(), x));
        for (what, x) in alt {
            let t = || format!("{what} altered to {}: {base}", x.describe());
            c.case(hash_of(&t()), t);
            let same_points = what == "coset offset" && cfg.n == 0;
            let v = c.guard("verify-panics", t, || verify::<F, TestAir>(&p, &x, &x.options()));
            let key: String = what.chars().filter(|c| !c.is_ascii_digit()).collect();
            c.check(&format!("accepted: other {key}"), v != Some(true) || same_points, t);
        }
        // the options of the verifier count, not those in the public inputs
        let o = ProofOptions { grinding_factor: m as u8 + 1, ..cfg.options() };
        let v = c.guard("verify-panics", txt, || verify::<F, TestAir>(&p, &cfg, &o));
        c.check("accepted: weaker grinding", v != Some(true), txt);
        // provers that depart from the protocol in one place
        let sd = r.u64();
        let layers = cfg.n.trailing_zeros() as usize;
        let mut cheats = vec![
            Cheat::RandomH(sd),
            Cheat::FakeRoot(0),
            Cheat::FakeRoot(2),
            Cheat::OtherP0(sd),
            Cheat::OtherLast(sd),
            Cheat::HighDegreeP0,
            Cheat::ShiftedOpenings,
            Cheat::ShiftedFri,
        ];
        if !cfg.aux.is_empty() {
            cheats.push(Cheat::FakeRoot(1));
        }
        if cfg.grinding > 0 {
            cheats.push(Cheat::BadNonce);
        }
        for k in 0..layers {
            cheats.push(Cheat::FakeLayerRoot(k));
            if k > 0 {
                cheats.push(Cheat::OtherLayer(k, sd));
            }
        }
        for ch in cheats {
            let s = match quiet(|| spec_prove(&cfg, &cols, &ch)) {
                Ok(s) => s,
                Err(_) => continue,
            };
            let honest = spec_prove(&cfg, &cols, &Cheat::None);
            if first_difference(&honest.proof, &s.proof).is_none() {
                continue;
            }
            let t = || format!("{ch:?}: {base}");
            c.case(hash_of(&t()), t);
            let key: String = format!("{ch:?}").chars().filter(|c| !c.is_ascii_digit()).collect();
            *kinds.entry(key.clone()).or_default() += 1;
            let v = c.guard("verify-panics", t, || verify::<F, TestAir>(&s.proof, &cfg, &cfg.options()));
            c.check(&format!("accepted: {key}"), v != Some(true), t);
        }
    }
    c.rule(&format!("{} kinds of alteration", kinds.len()));
    c.finish()
}
