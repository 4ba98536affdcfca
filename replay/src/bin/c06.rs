use lambdaworks_stark::cairo::air::{CairoAIR, MemorySegment, MemorySegmentMap, PublicInputs};
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::{trace::TraceTable, traits::AIR};
use replay::{airx::*, cairo::*, *};
use std::collections::{BTreeMap, HashMap};
const A: [usize; 4] = [19, 20, 21, 22];
const V: [usize; 4] = [23, 24, 25, 26];
fn key(a: &FE, v: &FE) -> (String, String) {
    use lambdaworks_math::traits::ByteConversion;
    (hex(&a.to_bytes_be()), fhex(v))
}
/// Checks the auxiliary memory columns against the main accesses.
fn aux_checks(c: &mut Ctx, b: &Built, pi: &PublicInputs, public: &BTreeMap<u64, FE>, ch: &Ch, d: &dyn Fn(&str) -> String) {
    let n = b.rows.len();
    let orig: Vec<(FE, FE)> = b.main.iter().flat_map(|r| (0..4).map(|i| (r[A[i]], r[V[i]])).collect::<Vec<_>>()).collect();
    let sorted: Vec<(FE, FE)> = b.aux.iter().flat_map(|r| (0..4).map(|i| (r[3 + i], r[7 + i])).collect::<Vec<_>>()).collect();
    let prod: Vec<FE> = b.aux.iter().flat_map(|r| r[11..15].to_vec()).collect();
    let mut want: Vec<_> = orig.iter().map(|(a, v)| key(a, v)).collect();
    for (a, v) in public {
        let z = key(&FE::zero(), &FE::zero());
        match want.iter().position(|x| *x == z) {
            Some(i) => want[i] = key(&FE::from(*a), v),
            None => return,
        }
    }
    want.sort();
    let got: Vec<_> = sorted.iter().map(|(a, v)| key(a, v)).collect();
    c.check("sorted-order", got.windows(2).all(|w| w[0].0 <= w[1].0), || d("addresses not ascending"));
    let mut g2 = got.clone();
    g2.sort();
    c.check("sorted-multiset", g2 == want, || d("the sorted list is not the accesses with placeholders replaced by the public memory"));
    let term = |(a, v): &(FE, FE)| ch.z - *a - ch.alpha * *v;
    let mut p = FE::one();
    for i in 0..4 * n {
        p = p * term(&orig[i]) * term(&sorted[i]).inv();
        if !c.check("running-product", prod[i] == p, || d(&format!("running product entry {i}"))) {
            break;
        }
    }
    let fin = public.iter().fold(FE::one(), |p, (a, v)| p * ch.z * term(&(FE::from(*a), *v)).inv());
    c.check("final-product", prod[4 * n - 1] == fin, || d("final product against the public memory"));
    let o = if has_rc(pi) { 57 } else { 48 };
    let verifier = c.guard("boundary-panics", || d(""), || CairoAIR::new(n, pi, &options()).boundary_constraints(&real(ch)).constraints.into_iter().filter(|b| b.col == o).map(|b| (b.step, b.value)).collect::<Vec<_>>());
    c.check("verifier-product", verifier == Some(vec![(n - 1, fin)]), || d(&format!("verifier's final product {verifier:?} want {}", fhex(&fin))));
}
fn main() {
    let mut c = Ctx::new("C06");
    c.rule("random valid executions: contiguity with the public memory, the run's accesses in place, sorted copy, running product, verifier's product; and hand-made access tables with random accesses and trailing placeholders");
    for k in 0..c.n(400, 12000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let mut s = Shape::random(&mut r);
        s.wide_offsets = s.wide_offsets && k % 4 == 0;
        let e = gen(&mut r, &s);
        let ch = challenges(&mut r);
        c.announce(e.describe());
        c.case(hash_of(&format!("{e:?}")), || e.describe());
        let out = c.guard("building-panics", || e.describe(), || {
            let mut pi = e.public();
            let t = build_main_trace(&e.states(), &e.memory(), &mut pi);
            (build(&t, &pi, &ch), pi)
        });
        let Some((b, pi)) = out else { continue };
        let d = |w: &str| format!("{w}; alpha={} z={}\n{}", fhex(&ch.alpha), fhex(&ch.z), e.describe());
        let steps = e.steps();
        for (i, s) in steps.iter().enumerate() {
            let a = [s.regs.pc, s.dst_addr, s.op0_addr, s.op1_addr].map(FE::from);
            let v = [s.word, s.dst, s.op0, s.op1];
            let ok = (0..4).all(|q| b.main[i][A[q]] == a[q] && b.main[i][V[q]] == v[q]);
            c.check("run-accesses", ok, || d(&format!("row {i}")));
        }
        let mut public: BTreeMap<u64, FE> = (1..=e.program).map(|a| (a, e.mem[&a])).collect();
        if let Some(o) = &e.out {
            public.extend(o.clone().map(|a| (a, e.mem[&a])));
        }
        let mut seen: BTreeMap<u64, FE> = public.clone();
        let mut ok = true;
        for (i, row) in b.main.iter().enumerate() {
            for q in 0..4 {
                match u64_of(&row[A[q]]) {
                    Some(0) => ok &= c.check("placeholder-value", row[V[q]] == FE::zero(), || d(&format!("row {i}: access to address 0 with a value"))),
                    Some(a) => {
                        let v = *seen.entry(a).or_insert(row[V[q]]);
                        ok &= c.check("read-only", v == row[V[q]], || d(&format!("row {i}: address {a} holds two values")));
                    }
                    None => ok &= c.check("address-range", false, || d(&format!("row {i}: address {}", fhex(&row[A[q]])))),
                }
            }
        }
        let addrs: Vec<u64> = seen.keys().copied().collect();
        let gap = addrs.windows(2).find(|w| w[1] != w[0] + 1);
        ok &= c.check("contiguous", gap.is_none(), || d(&format!("gap {gap:?}")));
        if ok {
            let touched: std::collections::BTreeSet<u64> = steps.iter().flat_map(|s| [s.regs.pc, s.dst_addr, s.op0_addr, s.op1_addr]).chain(public.keys().copied()).collect();
            let span = (addrs.first().copied(), addrs.last().copied());
            c.check("span", span == (touched.first().copied(), touched.last().copied()), || d(&format!("addresses span {span:?}")));
        }
        aux_checks(&mut c, &b, &pi, &public, &ch, &d);
    }
    // Hand-made tables: arbitrary accesses, trailing placeholders.
    for k in 0..c.n(600, 20000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(7919).wrapping_add(k as u64));
        let prog = r.range(0, 9);
        let outlen = r.range(0, 5);
        let start = prog + 1 + r.below(6);
        let has_out = r.bool();
        let mut public: BTreeMap<u64, FE> = (1..=prog).map(|a| (a, r.fe())).collect();
        let mut segs = MemorySegmentMap::new();
        if has_out {
            for a in start..start + outlen {
                public.insert(a, r.fe());
            }
            segs.insert(MemorySegment::Output, start..start + outlen);
        }
        let rc = r.chance(1, 3);
        if rc {
            segs.insert(MemorySegment::RangeCheck, 90..92);
        }
        let width = if rc { 43 } else { 34 };
        let mut n = 1usize << r.below(6);
        while 4 * n < public.len() + 4 {
            n *= 2;
        }
        let mut rows: Vec<Vec<FE>> = (0..n).map(|_| (0..width).map(|j| if (27..30).contains(&j) { FE::from(r.below(10)) } else { r.fe() }).collect()).collect();
        let range = *r.pick(&[4u64, 30, 1 << 20]);
        for q in 0..4 * n {
            let (i, m) = (q / 4, q % 4);
            if q + public.len() >= 4 * n {
                rows[i][A[m]] = FE::zero();
                rows[i][V[m]] = FE::zero();
            } else {
                rows[i][A[m]] = if r.chance(1, 6) { r.fe() } else { FE::from(r.below(range)) };
            }
        }
        let map: HashMap<FE, FE> = public.iter().map(|(a, v)| (FE::from(*a), *v)).collect();
        let pi = PublicInputs {
            pc_init: FE::one(), ap_init: FE::one(), fp_init: FE::one(), pc_final: FE::one(), ap_final: FE::one(),
            range_check_min: Some(0), range_check_max: Some(9), memory_segments: segs, public_memory: map, num_steps: 1,
        };
        let ch = challenges(&mut r);
        let d = |w: &str| format!("{w}; alpha={} z={} public={:?} rows={:?}", fhex(&ch.alpha), fhex(&ch.z), public.iter().map(|(a, v)| (a, fhex(v))).collect::<Vec<_>>(), rows.iter().map(|x| (fhexs(&x[19..23]), fhexs(&x[23..27]))).collect::<Vec<_>>());
        c.announce(d(""));
        c.case(hash_of(&d("")), || d(""));
        let b = c.guard("auxiliary-panics", || d(""), || build(&TraceTable::new(rows.concat(), width), &pi, &ch));
        if let Some(b) = b {
            aux_checks(&mut c, &b, &pi, &public, &ch, &d);
        }
    }
    c.finish()
}
