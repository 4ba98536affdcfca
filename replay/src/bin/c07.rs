use lambdaworks_stark::cairo::air::CairoAIR;
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::{trace::TraceTable, traits::AIR};
use replay::{airx::*, cairo::*, *};
fn aux_checks(c: &mut Ctx, b: &Built, ch: &Ch, d: &dyn Fn(&str) -> String) {
    let orig: Vec<FE> = b.main.iter().flat_map(|r| r[27..30].to_vec()).collect();
    let sorted: Vec<FE> = b.aux.iter().flat_map(|r| r[0..3].to_vec()).collect();
    let prod: Vec<FE> = b.aux.iter().flat_map(|r| r[15..18].to_vec()).collect();
    let mut want: Vec<u64> = orig.iter().map(|x| u64_of(x).unwrap_or(u64::MAX)).collect();
    want.sort();
    let got: Vec<u64> = sorted.iter().map(|x| u64_of(x).unwrap_or(u64::MAX)).collect();
    c.check("sorted", got == want, || d("the sorted column is not the sorted rearrangement"));
    let mut p = FE::one();
    for i in 0..orig.len() {
        p = p * (ch.zrc - orig[i]) * (ch.zrc - sorted[i]).inv();
        if !c.check("running-product", prod[i] == p, || d(&format!("running product entry {i}"))) {
            break;
        }
    }
}
fn main() {
    let mut c = Ctx::new("C07");
    c.rule("random valid executions (narrow and wide offsets, with and without builtin values): every offset of every step present, the published bounds, no value between them missing, the sorted column and its product, the limbs; and hand-made offset tables");
    for k in 0..c.n(400, 12000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let mut s = Shape::random(&mut r);
        s.wide_offsets = k % 10 == 3;
        s.rc = r.chance(2, 3);
        let e = gen(&mut r, &s);
        let ch = challenges(&mut r);
        c.announce(e.describe());
        c.case(hash_of(&format!("{e:?}")), || e.describe());
        let out = c.guard("building-panics", || e.describe(), || {
            let mut pi = e.public();
            let t = build_main_trace(&e.states(), &e.memory(), &mut pi);
            (build(&t, &pi, &ch), pi)
        });
        let Some((b, pi)) = out else { continue };
        let d = |w: &str| format!("{w}; zrc={}\n{}", fhex(&ch.zrc), e.describe());
        let steps = e.steps();
        let offs: Vec<[u64; 3]> = steps.iter().map(|s| s.ins.off.map(|x| (x + 0x8000) as u64)).collect();
        for (i, o) in offs.iter().enumerate() {
            c.check("step-offsets", (0..3).all(|q| b.main[i][27 + q] == FE::from(o[q])), || d(&format!("row {i}")));
        }
        let lo = *offs.iter().flatten().min().unwrap();
        let hi = *offs.iter().flatten().max().unwrap();
        c.check("published-bounds", pi.range_check_min == Some(lo as u16) && pi.range_check_max == Some(hi as u16), || d(&format!("published {:?} {:?}, used {lo} {hi}", pi.range_check_min, pi.range_check_max)));
        let mut used = vec![0u32; 65536];
        let mut inside = true;
        for row in &b.main {
            for q in 27..30 {
                match u64_of(&row[q]) {
                    Some(v) if v >= lo && v <= hi => used[v as usize] += 1,
                    _ => inside = false,
                }
            }
        }
        c.check("inside-bounds", inside, || d("an offset entry lies outside the published bounds"));
        let missing = (lo..=hi).find(|v| used[*v as usize] == 0);
        c.check("continuous", missing.is_none(), || d(&format!("value {missing:?} missing")));
        let mut by_step = vec![false; 65536];
        offs.iter().flatten().for_each(|v| by_step[*v as usize] = true);
        let twice = (lo..hi).filter(|v| !by_step[*v as usize] && used[*v as usize] > 1).count();
        // the last filler row may be repeated by the padding rows; it then holds at most three values
        c.check("one-padding-entry", twice <= 3, || d(&format!("{twice} unused values occur more than once")));
        aux_checks(&mut c, &b, &ch, &d);
        if let Some(seg) = &e.rc {
            for (i, row) in b.main.iter().enumerate().take(steps.len()) {
                let v = seg.clone().nth(i).map(|a| e.mem[&a]).unwrap_or(FE::zero());
                let mut acc = FE::zero();
                for q in 0..8 {
                    let l = u64_of(&row[34 + q]).unwrap_or(u64::MAX);
                    c.check("limb-range", l < 65536, || d(&format!("row {i} limb {q} is {l}")));
                    acc = acc + row[34 + q] * two_pow(16 * q as u32);
                }
                c.check("builtin-value", row[42] == v, || d(&format!("row {i}: builtin value {} instead of {}", fhex(&row[42]), fhex(&v))));
                c.check("limbs-recompose", acc == v, || d(&format!("row {i}: limbs give {} for {}", fhex(&acc), fhex(&v))));
            }
        }
        // Known: nothing range-checks the limbs or ties the value column to memory.
        if has_rc(&pi) && k < 40 {
            let mut rows = b.rows.clone();
            let v = two_pow(128) + FE::from(5);
            for q in 0..8 {
                rows[0][34 + q] = if q == 0 { v } else { FE::zero() };
            }
            rows[0][42] = v;
            if broken(&rows, &pi, &ch).is_none() {
                c.finding("builtin-limbs-unconstrained", "a row with first limb and builtin value both 2^128+5 satisfies every constraint: the limb columns 34..41 are not range-checked and column 42 is not tied to memory");
            }
        }
    }
    // Hand-made offset columns through the auxiliary builder.
    for k in 0..c.n(300, 10000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(7919).wrapping_add(k as u64));
        let n = 1usize << r.below(6);
        let span = *r.pick(&[1u64, 3, 300, 65536]);
        let rows: Vec<Vec<FE>> = (0..n).map(|_| (0..34).map(|j| if (27..30).contains(&j) { FE::from(r.below(span)) } else { FE::from(r.below(50)) }).collect()).collect();
        let pi = {
            let e = gen(&mut r, &Shape { program: 3, zone: 8, max_steps: 2, rc: false, out: false, wide_offsets: false });
            let mut p = e.public();
            p.public_memory.clear();
            p
        };
        let ch = challenges(&mut r);
        let d = |w: &str| format!("{w}; zrc={} offsets={:?}", fhex(&ch.zrc), rows.iter().map(|x| fhexs(&x[27..30])).collect::<Vec<_>>());
        c.case(hash_of(&d("")), || d(""));
        let b = c.guard("auxiliary-panics", || d(""), || build(&TraceTable::new(rows.concat(), 34), &pi, &ch));
        if let Some(b) = b {
            aux_checks(&mut c, &b, &ch, &d);
        }
    }
    let _ = CairoAIR::number_auxiliary_rap_columns;
    c.finish()
}
