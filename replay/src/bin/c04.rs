use lambdaworks_stark::cairo::air::{generate_cairo_proof, verify_cairo_proof, CairoAIR, MemorySegment, MemorySegmentMap, PublicInputs};
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::{frame::Frame, trace::TraceTable, traits::AIR};
use replay::{airx::*, cairo::*, *};
fn public(rc: bool) -> PublicInputs {
    let mut m = MemorySegmentMap::new();
    if rc {
        m.insert(MemorySegment::RangeCheck, 20..22);
    }
    PublicInputs {
        pc_init: FE::one(), ap_init: FE::one(), fp_init: FE::one(), pc_final: FE::one(), ap_final: FE::one(),
        range_check_min: Some(0), range_check_max: Some(1), memory_segments: m,
        public_memory: Default::default(), num_steps: 4,
    }
}
fn main() {
    let mut c = Ctx::new("C04");
    c.rule("random pairs of rows (uniform, corner values, satisfying rows with one cell moved), random challenges, with and without the range-check builtin: every constraint value against the reference polynomial");
    for rc in [false, true] {
        let (count, width) = if rc { (50, 61) } else { (49, 52) };
        let air = CairoAIR::new(8, &public(rc), &options());
        let x = air.context();
        c.check_eq("constraint-count", &x.num_transition_constraints, &count, || format!("rc={rc}"));
        c.check_eq("column-count", &x.trace_columns, &width, || format!("rc={rc}"));
        c.check_eq("offsets", &x.transition_offsets, &vec![0, 1], || format!("rc={rc}"));
        c.check_eq("exemptions", &x.transition_exemptions, &(0..count).map(exempt).collect::<Vec<_>>(), || format!("rc={rc}"));
        for k in 0..count {
            let d = x.transition_degrees.get(k).copied().unwrap_or(0);
            c.check("degree", d >= true_degree(k) && d <= 3, || format!("rc={rc} constraint {k} declared degree {d}"));
        }
    }
    for k in 0..c.n(4000, 200000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let rc = r.bool();
        let width = if rc { 61 } else { 52 };
        let mode = r.below(3);
        let mut one = |r: &mut Rng| -> Vec<FE> {
            (0..width)
                .map(|j| match mode {
                    0 => r.fe_uniform(),
                    1 => r.fe(),
                    _ => {
                        if j < 15 {
                            FE::from(r.below(2))
                        } else if j == 33 {
                            FE::one()
                        } else {
                            FE::from(r.below(3))
                        }
                    }
                })
                .collect()
        };
        let (cur, nxt) = (one(&mut r), one(&mut r));
        let ch = challenges(&mut r);
        c.case(hash_of(&(fhexs(&cur), fhexs(&nxt))), || format!("rc={rc} row {} next {}", fhexs(&cur), fhexs(&nxt)));
        let d = || format!("rc={rc} alpha={} z={} zrc={} row={} next={}", fhex(&ch.alpha), fhex(&ch.z), fhex(&ch.zrc), fhexs(&cur), fhexs(&nxt));
        let got = c.guard("evaluation-panics", d, || {
            let air = CairoAIR::new(8, &public(rc), &options());
            air.compute_transition(&Frame::new(cur.iter().chain(&nxt).copied().collect(), width), &real(&ch))
        });
        let Some(got) = got else { continue };
        let want = polynomials(&cur, &nxt, &ch, rc);
        c.check_eq("length", &got.len(), &want.len(), d);
        for (i, w) in want.iter().enumerate() {
            c.check(&format!("constraint-{i}"), got.get(i) == Some(w), || format!("constraint {i}: got {} want {}\n{}", got.get(i).map(fhex).unwrap_or_default(), fhex(w), d()));
        }
    }
    // Rows of real runs, one cell moved.
    for k in 0..c.n(150, 3000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(7919).wrapping_add(k as u64));
        let mut s = Shape::random(&mut r);
        s.wide_offsets = false;
        let e = gen(&mut r, &s);
        let ch = challenges(&mut r);
        let b = quiet(|| {
            let mut pi = e.public();
            let t = build_main_trace(&e.states(), &e.memory(), &mut pi);
            (build(&t, &pi, &ch), pi)
        });
        let Ok((b, pi)) = b else { continue };
        let rc = has_rc(&pi);
        let n = b.rows.len();
        for _ in 0..20 {
            let i = if r.bool() { r.usize(0, e.rows.len()) } else { r.usize(0, n) };
            let (mut cur, mut nxt) = (b.rows[i].clone(), b.rows[(i + 1) % n].clone());
            let j = r.usize(0, b.width);
            let d = r.fe();
            if r.bool() {
                cur[j] = cur[j] + d
            } else {
                nxt[j] = nxt[j] + d
            }
            c.case(hash_of(&(fhexs(&cur), fhexs(&nxt))), || format!("run row {i} cell {j} moved by {}", fhex(&d)));
            let got = quiet(|| CairoAIR::new(n, &pi, &options()).compute_transition(&Frame::new(cur.iter().chain(&nxt).copied().collect(), b.width), &real(&ch)));
            let want = polynomials(&cur, &nxt, &ch, rc);
            c.check("moved-cell", got.as_ref().ok() == Some(&want), || format!("row {i} cell {j} moved by {}: row={} next={}", fhex(&d), fhexs(&cur), fhexs(&nxt)));
        }
    }
    // Known: the selector column is free, so a proof can switch the step equations off.
    let mut r = Rng::new(77);
    let e = loop {
        let e = gen(&mut r, &Shape { program: 8, zone: 10, max_steps: 6, rc: false, out: false, wide_offsets: false });
        if e.rows.len() > 3 {
            break e;
        }
    };
    let accepted = quiet(|| {
        let mut pi = e.public();
        let t = build_main_trace(&e.states(), &e.memory(), &mut pi);
        let mut rows = rows_of(&t);
        let last = e.rows.len() - 1;
        for row in rows.iter_mut() {
            row[col::SEL] = FE::zero();
        }
        rows[last][col::AP] = rows[last][col::AP] + FE::from(1000);
        pi.ap_final = rows[last][col::AP];
        let t = TraceTable::new(rows.concat(), t.n_cols);
        let p = generate_cairo_proof(&t, &pi, &options()).map_err(|_| ()).unwrap();
        verify_cairo_proof(&p, &pi, &options())
    });
    if accepted == Ok(true) {
        c.finding("selector-unconstrained", &format!("no constraint fixes the selector column (33): with it zero in every row the step equations (constraints 16..30) are off, and a proof of a false final ap verifies. Run: {}", e.describe()));
    }
    c.finish()
}
