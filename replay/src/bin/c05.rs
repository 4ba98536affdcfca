use lambdaworks_stark::cairo::air::{generate_cairo_proof, verify_cairo_proof, CairoAIR};
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::traits::AIR;
use replay::{airx::*, cairo::*, *};
fn main() {
    let mut c = Ctx::new("C05");
    c.rule("random valid executions (with and without range-check and output segments, holes, wide offsets), random challenges: every boundary cell and every transition constraint on every applicable row of the full table; some are proved and verified");
    for k in 0..c.n(500, 15000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let s = Shape::random(&mut r);
        let e = gen(&mut r, &s);
        let ch = challenges(&mut r);
        c.announce(e.describe());
        c.case(hash_of(&format!("{e:?}")), || e.describe());
        let out = c.guard("building-panics", || e.describe(), || {
            let mut pi = e.public();
            let t = build_main_trace(&e.states(), &e.memory(), &mut pi);
            let b = build(&t, &pi, &ch);
            (t, b, pi)
        });
        let Some((t, b, pi)) = out else { continue };
        let n = b.rows.len();
        let rc = has_rc(&pi);
        c.check("row-count", n.is_power_of_two() && n >= e.rows.len(), || format!("{n} rows\n{}", e.describe()));
        c.check_eq("width", &b.width, &if rc { 61 } else { 52 }, || e.describe());
        if b.width != if rc { 61 } else { 52 } {
            continue;
        }
        let d = |w: String| format!("{w}; alpha={} z={} zrc={}\n{}", fhex(&ch.alpha), fhex(&ch.z), fhex(&ch.zrc), e.describe());
        let bad = c.guard("constraints-panic", || e.describe(), || broken(&b.rows, &pi, &ch)).flatten();
        c.check("constraint", bad.is_none(), || d(bad.clone().unwrap_or_default()));
        // reference polynomials
        'o: for i in 0..n {
            for (q, v) in polynomials(&b.rows[i], &b.rows[(i + 1) % n], &ch, rc).iter().enumerate() {
                if i + exempt(q) < n && !c.check(&format!("reference-constraint-{q}"), *v == FE::zero(), || d(format!("reference constraint {q} at row {i} of {n}"))) {
                    break 'o;
                }
            }
        }
        // reference boundary
        let o = if rc { 43 } else { 34 };
        let l = e.rows.len() - 1;
        let (f, z) = (e.rows[0], e.rows[l]);
        let offs: Vec<u64> = e.steps().iter().flat_map(|s| s.ins.off.map(|x| (x + 0x8000) as u64)).collect();
        let want: Vec<(usize, usize, FE)> = vec![
            (0, col::PC, FE::from(f.pc)), (0, col::AP, FE::from(f.ap)), (0, col::FP, FE::from(f.fp)),
            (l, col::PC, FE::from(z.pc)), (l, col::AP, FE::from(z.ap)),
            (n - 1, o + 17, FE::one()),
            (0, o, FE::from(*offs.iter().min().unwrap())), (n - 1, o + 2, FE::from(*offs.iter().max().unwrap())),
        ];
        for (i, j, v) in want {
            c.check("reference-boundary", b.rows[i][j] == v, || d(format!("row {i} column {j} holds {} instead of {}", fhex(&b.rows[i][j]), fhex(&v))));
        }
        let mut public: std::collections::BTreeMap<u64, FE> = (1..=e.program).map(|a| (a, e.mem[&a])).collect();
        if let Some(o) = &e.out {
            public.extend(o.clone().map(|a| (a, e.mem[&a])));
        }
        let m = public.iter().fold(FE::one(), |p, (a, v)| p * ch.z * (ch.z - FE::from(*a) - ch.alpha * *v).inv());
        c.check("reference-boundary-memory", b.rows[n - 1][o + 14] == m, || d("final memory product".into()));
        if k % 100 == 7 && n <= 512 {
            let ok = c.guard("proof-panics", || e.describe(), || {
                let p = generate_cairo_proof(&t, &pi, &options()).ok()?;
                Some(verify_cairo_proof(&p, &pi, &options()))
            });
            c.check("honest-proof-rejected", ok == Some(Some(true)), || e.describe());
        }
        let _ = CairoAIR::new(n, &pi, &options()).context();
    }
    c.finish()
}
