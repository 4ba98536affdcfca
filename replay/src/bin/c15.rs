use lambdaworks_crypto::merkle_tree::proof::Proof;
use lambdaworks_stark::starks::{frame::Frame, fri::fri_decommit::FriDecommitment, prover::prove, verifier::verify};
use replay::{stark::*, *};
fn resize<T: Clone>(v: &mut Vec<T>, how: u64, at: usize) -> bool {
    match how {
        0 => v.clear(),
        1 if !v.is_empty() => {
            v.pop();
        }
        2 if !v.is_empty() => {
            v.remove(0);
        }
        3 if !v.is_empty() => {
            let x = v[at % v.len()].clone();
            v.insert(at % v.len(), x);
        }
        4 if !v.is_empty() => {
            let x = v.clone();
            v.extend(x);
        }
        5 if !v.is_empty() => {
            let i = at % v.len();
            v.truncate(i);
        }
        6 if !v.is_empty() => {
            let x = v.last().unwrap().clone();
            v.push(x);
        }
        _ => return false,
    }
    true
}
const HOWS: u64 = 7;
fn path(v: &mut Proof<[u8; 32]>, how: u64, at: usize) -> bool {
    resize(&mut v.merkle_path, how, at)
}
fn main() {
    let mut c = Ctx::new("C15");
    c.rule("accepted proofs of random AIRs with each list cleared, shortened, lengthened, duplicated or truncated (every list of every query and opening), claimed frames of other shapes, every small and extreme claimed trace length, pairs of such changes, and random proofs; verification must return false");
    for k in 0..c.n(220, 6000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let (mut cfg, cols) = gen_air(&mut r, 4);
        cfg.queries = r.usize(1, 4);
        cfg.grinding = *r.pick(&[0u8, 0, 2]);
        let base = format!("{} trace={}", cfg.describe(), cols_text(&cols));
        let p = match quiet(|| prove::<F, TestAir>(&table_of(&cols), &cfg, &cfg.options())) {
            Ok(Ok(p)) => p,
            _ => spec_prove(&cfg, &cols, &Cheat::None).proof,
        };
        let mut cases: Vec<(String, P)> = vec![];
        {
            let mut add = |n: String, f: &mut dyn FnMut(&mut P) -> bool| {
                let mut q = clone_proof(&p);
                if f(&mut q) && first_difference(&p, &q).is_some() {
                    cases.push((n, q));
                }
            };
            let nq = p.query_list.len();
            for how in 0..HOWS {
                let at = r.u64() as usize;
                add(format!("trace roots resized {how}"), &mut |q| resize(&mut q.lde_trace_merkle_roots, how, at));
                add(format!("layer roots resized {how}"), &mut |q| resize(&mut q.fri_layers_merkle_roots, how, at));
                add(format!("queries resized {how}"), &mut |q| resize(&mut q.query_list, how, at));
                add(format!("openings resized {how}"), &mut |q| resize(&mut q.deep_poly_openings, how, at));
                add(format!("queries and openings resized {how}"), &mut |q| resize(&mut q.query_list, how, at) && resize(&mut q.deep_poly_openings, how, at));
                let s = at % nq.max(1);
                if nq > 0 {
                    add(format!("query {s} values resized {how}"), &mut |q| resize(&mut q.query_list[s].layers_evaluations, how, at));
                    add(format!("query {s} symmetric values resized {how}"), &mut |q| resize(&mut q.query_list[s].layers_evaluations_sym, how, at));
                    add(format!("query {s} paths resized {how}"), &mut |q| resize(&mut q.query_list[s].layers_auth_paths, how, at));
                    add(format!("query {s} symmetric paths resized {how}"), &mut |q| resize(&mut q.query_list[s].layers_auth_paths_sym, how, at));
                    add(format!("query {s} all lists resized {how}"), &mut |q| {
                        let d = &mut q.query_list[s];
                        resize(&mut d.layers_evaluations, how, at)
                            && resize(&mut d.layers_evaluations_sym, how, at)
                            && resize(&mut d.layers_auth_paths, how, at)
                            && resize(&mut d.layers_auth_paths_sym, how, at)
                    });
                    add(format!("all layers of all queries resized {how}"), &mut |q| {
                        resize(&mut q.fri_layers_merkle_roots, how, at)
                            && q.query_list.iter_mut().all(|d| {
                                resize(&mut d.layers_evaluations, how, at)
                                    && resize(&mut d.layers_evaluations_sym, how, at)
                                    && resize(&mut d.layers_auth_paths, how, at)
                                    && resize(&mut d.layers_auth_paths_sym, how, at)
                            })
                    });
                    for j in 0..p.fri_layers_merkle_roots.len() {
                        add(format!("query {s} layer {j} path resized {how}"), &mut |q| path(&mut q.query_list[s].layers_auth_paths[j], how, at));
                        add(format!("query {s} layer {j} symmetric path resized {how}"), &mut |q| path(&mut q.query_list[s].layers_auth_paths_sym[j], how, at));
                    }
                    add(format!("opening {s} values resized {how}"), &mut |q| resize(&mut q.deep_poly_openings[s].lde_trace_evaluations, how, at));
                    add(format!("opening {s} trace paths resized {how}"), &mut |q| resize(&mut q.deep_poly_openings[s].lde_trace_merkle_proofs, how, at));
                    add(format!("opening {s} composition path resized {how}"), &mut |q| path(&mut q.deep_poly_openings[s].lde_composition_poly_proof, how, at));
                    for j in 0..p.lde_trace_merkle_roots.len() {
                        add(format!("opening {s} trace path {j} resized {how}"), &mut |q| path(&mut q.deep_poly_openings[s].lde_trace_merkle_proofs[j], how, at));
                    }
                }
                let cells: Vec<FE> = (0..cfg.offsets.len()).flat_map(|i| frame_row(&p, i)).collect();
                add(format!("frame resized {how}"), &mut |q| {
                    let mut d = cells.clone();
                    let ok = resize(&mut d, how, at);
                    q.trace_ood_frame_evaluations = Frame::new(d, cfg.columns());
                    ok
                });
                let w = [0usize, 1, cfg.columns() + 1, cfg.columns().saturating_sub(1), cells.len(), usize::MAX, usize::MAX / 2 + 1][how as usize];
                add(format!("frame width {w}"), &mut |q| {
                    q.trace_ood_frame_evaluations = Frame::new(cells.clone(), w);
                    w != cfg.columns()
                });
                add(format!("frame resized {how} with width {w}"), &mut |q| {
                    let mut d = cells.clone();
                    let ok = resize(&mut d, how, at);
                    q.trace_ood_frame_evaluations = Frame::new(d, w);
                    ok
                });
            }
            // other claimed trace lengths (within a memory budget proportional to the claim)
            for n in 0..=40usize {
                add(format!("trace length {n}"), &mut |q| {
                    q.trace_length = n;
                    true
                });
            }
            for n in [64usize, 256, 1 << 12, usize::MAX, usize::MAX - 1, 1 << 63, (1 << 63) + 1, 1 << 62, 3 << 61, usize::MAX / cfg.blowup as usize + 1, (1 << 63) / cfg.blowup as usize * 2] {
                add(format!("trace length {n}"), &mut |q| {
                    q.trace_length = n;
                    true
                });
            }
            add("everything empty".into(), &mut |q| {
                q.lde_trace_merkle_roots.clear();
                q.fri_layers_merkle_roots.clear();
                q.query_list.clear();
                q.deep_poly_openings.clear();
                q.trace_ood_frame_evaluations = Frame::new(vec![], 0);
                true
            });
            add("empty parts, right number of queries".into(), &mut |q| {
                q.lde_trace_merkle_roots.clear();
                q.fri_layers_merkle_roots.clear();
                for d in q.query_list.iter_mut() {
                    *d = FriDecommitment { layers_auth_paths_sym: vec![], layers_evaluations_sym: vec![], layers_auth_paths: vec![], layers_evaluations: vec![] };
                }
                true
            });
        }
        // pairs of changes, composed from the same repertoire on an already changed proof
        for _ in 0..20 {
            if cases.is_empty() {
                break;
            }
            let i = r.usize(0, cases.len());
            let mut q = clone_proof(&cases[i].1);
            let how = r.below(HOWS);
            let at = r.u64() as usize;
            let what = match r.below(6) {
                0 => { resize(&mut q.lde_trace_merkle_roots, how, at); "trace roots" }
                1 => { resize(&mut q.fri_layers_merkle_roots, how, at); "layer roots" }
                2 => { resize(&mut q.query_list, how, at); "queries" }
                3 => { resize(&mut q.deep_poly_openings, how, at); "openings" }
                4 => { if let Some(d) = q.query_list.get_mut(0) { resize(&mut d.layers_evaluations, how, at); } "first query values" }
                _ => { if let Some(d) = q.deep_poly_openings.get_mut(0) { resize(&mut d.lde_trace_evaluations, how, at); } "first opening values" }
            };
            if first_difference(&p, &q).is_some() {
                let n = format!("{}, then {what} resized {how}", cases[i].0);
                cases.push((n, q));
            }
        }
        for (what, q) in cases {
            let t = || format!("{what}: {base}");
            c.announce(t());
            c.case(hash_of(&t()), t);
            let key: String = what.chars().filter(|c| !c.is_ascii_digit()).collect();
            let v = c.guard(&format!("verify-panics: {key}"), t, || verify::<F, TestAir>(&q, &cfg, &cfg.options()));
            c.check(&format!("accepted: {key}"), v != Some(true), t);
        }
        // other options on the same proof: more queries, other blowups (also useless ones)
        for b in [0u8, 1, 2, 3, 6, 8, 64, 128, 255] {
            let o = lambdaworks_stark::starks::proof::options::ProofOptions { blowup_factor: b, ..cfg.options() };
            if b == cfg.blowup {
                continue;
            }
            let t = || format!("verified with blowup {b}: {base}");
            c.announce(t());
            c.case(hash_of(&t()), t);
            let v = c.guard("verify-panics: blowup", t, || verify::<F, TestAir>(&p, &cfg, &o));
            c.check("accepted: blowup", v != Some(true), t);
        }
        for q in [cfg.queries + 1, cfg.queries - 1, 0] {
            let o = lambdaworks_stark::starks::proof::options::ProofOptions { fri_number_of_queries: q, ..cfg.options() };
            let t = || format!("verified with {q} queries: {base}");
            c.announce(t());
            let v = c.guard("verify-panics: number of queries", t, || verify::<F, TestAir>(&p, &cfg, &o));
            if q > cfg.queries {
                c.check("accepted: too few queries", v != Some(true), t);
            }
        }
    }
    c.finish()
}
