//! Reference Cairo AIR: constraint polynomials, exemptions, and helpers that evaluate the
//! real AIR on whole tables.
use crate::{cairo::two_pow, FE, Rng};
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use lambdaworks_stark::cairo::air::{CairoAIR, CairoRAPChallenges, MemorySegment, PublicInputs};
use lambdaworks_stark::starks::{frame::Frame, proof::options::ProofOptions, trace::TraceTable, traits::AIR};

pub type F = Stark252PrimeField;
pub fn options() -> ProofOptions {
    ProofOptions { blowup_factor: 4, fri_number_of_queries: 3, coset_offset: 3, grinding_factor: 1 }
}
pub struct Ch {
    pub alpha: FE,
    pub z: FE,
    pub zrc: FE,
}
pub fn challenges(r: &mut Rng) -> Ch {
    Ch { alpha: r.fe_uniform(), z: r.fe_uniform(), zrc: r.fe_uniform() }
}
pub fn real(c: &Ch) -> CairoRAPChallenges {
    CairoRAPChallenges { alpha_memory: c.alpha, z_memory: c.z, z_range_check: c.zrc }
}
pub fn has_rc(p: &PublicInputs) -> bool {
    p.memory_segments.contains_key(&MemorySegment::RangeCheck)
}
/// Constraints that do not apply between the last row and the first.
pub fn exempt(k: usize) -> usize {
    matches!(k, 20 | 21 | 22 | 23 | 34 | 38 | 42 | 45) as usize
}
/// Degrees declared for the constraints, at least their true degrees.
pub fn true_degree(k: usize) -> usize {
    match k {
        15 | 49 => 1,
        16 => 2,
        17..=30 => 3,
        _ => 2,
    }
}
/// The Cairo whitepaper's constraint polynomials on two consecutive full rows.
pub fn polynomials(cur: &[FE], nxt: &[FE], c: &Ch, rc: bool) -> Vec<FE> {
    let one = FE::one();
    let two = FE::from(2);
    let f = |i: usize| cur[i];
    let (res, ap, fp, pc) = (cur[16], cur[17], cur[18], cur[19]);
    let (da, o0a, o1a) = (cur[20], cur[21], cur[22]);
    let (inst, dst, op0, op1) = (cur[23], cur[24], cur[25], cur[26]);
    let (od, o0, o1) = (cur[27], cur[28], cur[29]);
    let (t0, t1, mul, sel) = (cur[30], cur[31], cur[32], cur[33]);
    let b15 = two_pow(15);
    let mut v = vec![];
    for i in 0..15 {
        v.push(f(i) * f(i) - f(i));
    }
    v.push(f(15));
    let mut word = od + two_pow(16) * o0 + two_pow(32) * o1;
    for i in 0..15 {
        word = word + two_pow(48 + i as u32) * f(i);
    }
    let size = f(2) + one;
    let mut s = vec![word - inst];
    s.push(ap + f(0) * (fp - ap) + od - b15 - da);
    s.push(ap + f(1) * (fp - ap) + o0 - b15 - o0a);
    s.push(f(2) * (pc - op0) + f(4) * (ap - op0) + f(3) * (fp - op0) + op0 + o1 - b15 - o1a);
    s.push(ap + f(10) * res + f(11) + two * f(12) - nxt[17]);
    s.push(f(13) * dst + f(12) * (ap + two) + (one - f(13) - f(12)) * fp - nxt[18]);
    s.push((t1 - f(9)) * (nxt[19] - pc - size));
    s.push(
        t0 * (nxt[19] - pc - op1) + (one - f(9)) * nxt[19]
            - (one - f(7) - f(8) - f(9)) * (pc + size)
            - f(7) * res
            - f(8) * (pc + res),
    );
    s.push(f(9) * dst - t0);
    s.push(t0 * res - t1);
    s.push(mul - op0 * op1);
    s.push(f(5) * (op0 + op1) + f(6) * mul + (one - f(5) - f(6) - f(9)) * op1 - (one - f(9)) * res);
    s.push(f(12) * (dst - fp));
    s.push(f(12) * (op0 - pc - size));
    s.push(f(14) * (dst - res));
    v.extend(s.into_iter().map(|x| x * sel));
    let o = if rc { 43 } else { 34 };
    let a: Vec<FE> = vec![cur[o + 3], cur[o + 4], cur[o + 5], cur[o + 6], nxt[o + 3]];
    let w: Vec<FE> = vec![cur[o + 7], cur[o + 8], cur[o + 9], cur[o + 10], nxt[o + 7]];
    for i in 0..4 {
        v.push((a[i] - a[i + 1]) * (a[i + 1] - a[i] - one));
    }
    for i in 0..4 {
        v.push((w[i] - w[i + 1]) * (a[i + 1] - a[i] - one));
    }
    let p: Vec<FE> = vec![cur[o + 11], cur[o + 12], cur[o + 13], cur[o + 14], nxt[o + 11]];
    let oa = [cur[19], da, o0a, o1a, nxt[19]];
    let ov = [inst, dst, op0, op1, nxt[23]];
    for i in 0..4 {
        v.push((c.z - a[i + 1] - c.alpha * w[i + 1]) * p[i + 1] - (c.z - oa[i + 1] - c.alpha * ov[i + 1]) * p[i]);
    }
    let q = [cur[o], cur[o + 1], cur[o + 2], nxt[o]];
    for i in 0..3 {
        v.push((q[i] - q[i + 1]) * (q[i + 1] - q[i] - one));
    }
    let oo = [od, o0, o1, nxt[27]];
    let rp = [cur[o + 15], cur[o + 16], cur[o + 17], nxt[o + 15]];
    for i in 0..3 {
        v.push((c.zrc - q[i + 1]) * rp[i + 1] - (c.zrc - oo[i + 1]) * rp[i]);
    }
    if rc {
        let mut acc = FE::zero();
        for i in 0..8 {
            acc = acc + two_pow(16 * i as u32) * cur[34 + i];
        }
        v.push(acc - cur[42]);
    }
    v
}
pub struct Built {
    pub width: usize,
    pub rows: Vec<Vec<FE>>,
    pub aux: Vec<Vec<FE>>,
    pub main: Vec<Vec<FE>>,
}
pub fn rows_of(t: &TraceTable<F>) -> Vec<Vec<FE>> {
    t.table.chunks(t.n_cols).map(|r| r.to_vec()).collect()
}
/// Auxiliary columns the real AIR builds for `main`, joined to it.
pub fn build(main: &TraceTable<F>, pi: &PublicInputs, c: &Ch) -> Built {
    let m = rows_of(main);
    let air = CairoAIR::new(m.len(), pi, &options());
    let a = rows_of(&air.build_auxiliary_trace(main, &real(c)));
    let rows: Vec<Vec<FE>> = m.iter().zip(&a).map(|(x, y)| x.iter().chain(y).copied().collect()).collect();
    Built { width: rows[0].len(), rows, aux: a, main: m }
}
/// First constraint the real AIR finds violated on the table, as text.
pub fn broken(rows: &[Vec<FE>], pi: &PublicInputs, c: &Ch) -> Option<String> {
    let n = rows.len();
    let air = CairoAIR::new(n, pi, &options());
    for b in air.boundary_constraints(&real(c)).constraints {
        match rows.get(b.step).and_then(|r| r.get(b.col)) {
            Some(v) if *v == b.value => {}
            got => return Some(format!("boundary column {} step {}: {:?} instead of {}", b.col, b.step, got.map(crate::fhex), crate::fhex(&b.value))),
        }
    }
    for i in 0..n {
        let data: Vec<FE> = rows[i].iter().chain(&rows[(i + 1) % n]).copied().collect();
        let t = air.compute_transition(&Frame::new(data, rows[i].len()), &real(c));
        for (k, v) in t.iter().enumerate() {
            if *v != FE::zero() && i + air.context().transition_exemptions.get(k).copied().unwrap_or(0) < n {
                return Some(format!("transition constraint {k} at row {i} of {n} evaluates to {}", crate::fhex(v)));
            }
        }
    }
    None
}
