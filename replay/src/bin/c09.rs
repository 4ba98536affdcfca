use lambdaworks_stark::cairo::air::{CairoAIR, MemorySegment, MemorySegmentMap, PublicInputs};
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::constraints::boundary::{BoundaryConstraint, BoundaryConstraints};
use lambdaworks_stark::starks::traits::AIR;
use replay::{airx::*, cairo::*, stark, *};
use std::collections::{BTreeMap, BTreeSet, HashMap};
fn main() {
    let mut c = Ctx::new("C09");
    c.rule("random constraint sets (columns, steps, values, order, root of unity): steps, values, roots and zerofier of each column; random Cairo public inputs: the set of pinned cells; honest runs with one public input changed no longer satisfy the boundary");
    for k in 0..c.n(1500, 50000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let log = r.below(7) as u32;
        let n = 1usize << log;
        let g = stark::root(log);
        let ncols = r.usize(1, 6);
        let mut cells: Vec<(usize, usize, FE)> = vec![];
        for _ in 0..r.usize(0, 12) {
            let (col, step) = (r.usize(0, ncols), r.usize(0, n));
            if !cells.iter().any(|x| x.0 == col && x.1 == step) {
                cells.push((col, step, r.fe()));
            }
        }
        let d = || format!("domain {n}: cells (column, step, value) {:?}", cells.iter().map(|(a, b, v)| (a, b, fhex(v))).collect::<Vec<_>>());
        c.case(hash_of(&d()), d);
        let cs = BoundaryConstraints::from_constraints(cells.iter().map(|(a, b, v)| if *a == 0 && r.bool() { BoundaryConstraint::new_simple(*b, *v) } else { BoundaryConstraint::new(*a, *b, *v) }).collect());
        let cols: Vec<usize> = {
            let mut v: Vec<usize> = (0..ncols + 1).collect();
            r.shuffle(&mut v);
            v
        };
        let steps_of = |col: usize| cells.iter().filter(|x| x.0 == col).map(|x| x.1).collect::<Vec<_>>();
        let values = c.guard("values-panics", d, || cs.values(&cols)).unwrap_or_default();
        let roots = c.guard("roots-panics", d, || cs.generate_roots_of_unity(&g, &cols)).unwrap_or_default();
        for (i, col) in cols.iter().enumerate() {
            let want = steps_of(*col);
            let steps = c.guard("steps-panics", d, || cs.steps(*col)).unwrap_or_default();
            let set = |v: &Vec<usize>| v.iter().copied().collect::<BTreeSet<_>>();
            c.check("steps", steps.len() == want.len() && set(&steps) == set(&want), || format!("column {col}: {steps:?}; {}", d()));
            let pairs = |p: Vec<(FE, FE)>| {
                let mut v: Vec<_> = p.iter().map(|(a, b)| (fhex(a), fhex(b))).collect();
                v.sort();
                v
            };
            let got = roots.get(i).cloned().unwrap_or_default().into_iter().zip(values.get(i).cloned().unwrap_or_default()).collect();
            let wanted = cells.iter().filter(|x| x.0 == *col).map(|x| (stark::pow(g, x.1 as u64), x.2)).collect();
            c.check("points", pairs(got) == pairs(wanted), || format!("column {col}; {}", d()));
            if let Some(z) = c.guard("zerofier-panics", d, || cs.compute_zerofier(&g, *col)) {
                c.check("zerofier-degree", z.coefficients().len() == want.len() + 1, || format!("column {col}; {}", d()));
                for s in 0..n {
                    let v = z.evaluate(&stark::pow(g, s as u64));
                    c.check("zerofier", (v == FE::zero()) == want.contains(&s), || format!("column {col} step {s}; {}", d()));
                }
            }
        }
        let uniq = |f: &dyn Fn(&(usize, usize, FE)) -> usize| cells.iter().map(f).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>();
        let sorted = |mut v: Vec<usize>| {
            v.sort();
            v
        };
        c.check("columns", sorted(cs.cols_for_boundary()) == uniq(&|x| x.0), d);
        c.check("all-steps", sorted(cs.steps_for_boundary()) == uniq(&|x| x.1), d);
    }
    // Cairo boundary cells.
    for k in 0..c.n(1500, 50000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(7919).wrapping_add(k as u64));
        let mut segs = MemorySegmentMap::new();
        let rc = r.bool();
        if rc {
            segs.insert(MemorySegment::RangeCheck, 5..7);
        }
        if r.bool() {
            segs.insert(MemorySegment::Output, 3..6);
        }
        let n = 1usize << r.usize(1, 12);
        let pm: HashMap<FE, FE> = (0..r.below(9)).map(|_| (r.fe(), r.fe())).collect();
        let pi = PublicInputs {
            pc_init: r.fe(), ap_init: r.fe(), fp_init: r.fe(), pc_final: r.fe(), ap_final: r.fe(),
            range_check_min: Some(r.u64() as u16), range_check_max: Some(r.u64() as u16),
            memory_segments: segs, public_memory: pm, num_steps: r.usize(1, n + 1),
        };
        let ch = challenges(&mut r);
        let d = || format!("trace length {n} {pi:?} alpha={} z={}", fhex(&ch.alpha), fhex(&ch.z));
        c.case(hash_of(&d()), d);
        let got = c.guard("boundary-panics", d, || CairoAIR::new(n, &pi, &options()).boundary_constraints(&real(&ch)).constraints.into_iter().map(|b| (b.col, b.step, fhex(&b.value))).collect::<BTreeSet<_>>());
        let Some(got) = got else { continue };
        let o = if rc { 43 } else { 34 };
        let m = pi.public_memory.iter().fold(FE::one(), |p, (a, v)| p * ch.z * (ch.z - *a - ch.alpha * *v).inv());
        let l = pi.num_steps - 1;
        let want: BTreeSet<(usize, usize, String)> = vec![
            (col::PC, 0, pi.pc_init), (col::AP, 0, pi.ap_init), (col::FP, 0, pi.fp_init),
            (col::PC, l, pi.pc_final), (col::AP, l, pi.ap_final),
            (o + 14, n - 1, m), (o + 17, n - 1, FE::one()),
            (o, 0, FE::from(pi.range_check_min.unwrap() as u64)), (o + 2, n - 1, FE::from(pi.range_check_max.unwrap() as u64)),
        ].into_iter().map(|(a, b, v)| (a, b, fhex(&v))).collect();
        let missing: Vec<_> = want.difference(&got).collect();
        let extra: Vec<_> = got.difference(&want).collect();
        c.check("cairo-cell-missing", missing.is_empty(), || format!("not pinned {missing:?}; {}", d()));
        // A cell pinned in addition may be sound only where an honest trace holds it; those are
        // checked by C05. A conflicting value for a declared cell is a defect.
        let clash = extra.iter().find(|e| want.iter().any(|w| w.0 == e.0 && w.1 == e.1));
        c.check("cairo-cell-wrong", clash.is_none(), || format!("wrongly pinned {clash:?}; {}", d()));
    }
    // A run with one public input changed.
    for k in 0..c.n(120, 3000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(104729).wrapping_add(k as u64));
        let mut s = Shape::random(&mut r);
        s.wide_offsets = false;
        let e = gen(&mut r, &s);
        let ch = challenges(&mut r);
        let built = quiet(|| {
            let mut pi = e.public();
            let t = build_main_trace(&e.states(), &e.memory(), &mut pi);
            (build(&t, &pi, &ch), pi)
        });
        let Ok((b, pi)) = built else { continue };
        if broken(&b.rows, &pi, &ch).is_some() {
            continue; // C05's concern
        }
        let mut variants: BTreeMap<&str, PublicInputs> = BTreeMap::new();
        let add = FE::from(1 + r.below(9));
        let mut p = pi.clone();
        p.pc_init = p.pc_init + add;
        variants.insert("initial pc", p);
        let mut p = pi.clone();
        p.ap_init = p.ap_init + add;
        variants.insert("initial ap", p);
        let mut p = pi.clone();
        p.fp_init = p.fp_init + add;
        variants.insert("initial fp", p);
        let mut p = pi.clone();
        p.pc_final = p.pc_final + add;
        variants.insert("final pc", p);
        let mut p = pi.clone();
        p.ap_final = p.ap_final + add;
        variants.insert("final ap", p);
        let mut p = pi.clone();
        p.range_check_min = p.range_check_min.map(|x| x ^ 1);
        variants.insert("range-check minimum", p);
        let mut p = pi.clone();
        p.range_check_max = p.range_check_max.map(|x| x ^ 1);
        variants.insert("range-check maximum", p);
        let mut p = pi.clone();
        let mut keys: Vec<FE> = p.public_memory.keys().copied().collect();
        keys.sort_by_key(|x| fhex(x));
        let a = *r.pick(&keys);
        p.public_memory.insert(a, pi.public_memory[&a] + add);
        variants.insert("public memory value", p);
        let mut p = pi.clone();
        p.public_memory.remove(&a);
        variants.insert("public memory cell removed", p);
        let mut p = pi.clone();
        p.public_memory.insert(FE::from(1 << 40), add);
        variants.insert("public memory cell added", p);
        for (name, v) in variants {
            c.case(hash_of(&(name, format!("{e:?}"))), || format!("{name} changed: {}", e.describe()));
            let ok = quiet(|| broken(&b.rows, &v, &ch).is_some()).unwrap_or(true);
            c.check("changed-public-input-satisfied", ok, || format!("{name} changed by {}: {}", fhex(&add), e.describe()));
        }
        // Known: the running product's first entry is free.
        if k < 20 && !c.violated() {
            let mut v = pi.clone();
            v.public_memory.insert(a, pi.public_memory[&a] + add);
            let o = if has_rc(&pi) { 43 } else { 34 };
            let f = |p: &PublicInputs| p.public_memory.iter().fold(FE::one(), |q, (x, y)| q * ch.z * (ch.z - *x - ch.alpha * *y).inv());
            let scale = f(&v) * f(&pi).inv();
            let mut rows = b.rows.clone();
            for row in rows.iter_mut() {
                for j in o + 11..o + 15 {
                    row[j] = row[j] * scale;
                }
            }
            if quiet(|| broken(&rows, &v, &ch).is_none()) == Ok(true) {
                c.finding("memory-product-start-free", "the memory running product's first entry is not pinned: scaling its four columns makes a false public memory value satisfy every constraint");
            }
        }
    }
    c.finish()
}
