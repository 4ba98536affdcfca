//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include poly.rs
//@ include polyops.rs
//@ include field.rs
//@ include roots.rs
//@ include trans.rs
//@ include fri.rs
//@ include proto.rs
//@ config
{"rename": {"T": "VxTranscript", "A": "VxAir", "Proof": "Proof!", "ConstraintEvaluator": "ConstraintEvaluator!"}, "methods": {"to_be_bytes": "vx_to_be"}}
//@ item starks/proof/options.rs ProofOptions
//@ item starks/context.rs AirContext
//@ item starks/domain.rs Domain
//@ item starks/constraints/boundary.rs BoundaryConstraint
//@ item starks/constraints/boundary.rs BoundaryConstraints
//@ item starks/constraints/evaluator.rs ConstraintEvaluator
//@ item starks/constraints/evaluation_table.rs ConstraintEvaluationTable
//@ item starks/frame.rs Frame
//@ item starks/trace.rs TraceTable
//@ include table.rs
//@ include air.rs
//@ include airx.rs
//@ include dom.rs
//@ include comp.rs
//@ include eval.rs
//@ use c08 Frame::read_from_trace
//@ use c11 evaluate_polynomial_on_lde_domain
//@ fn starks/constraints/evaluator.rs evaluate_transition_exemptions {"types": {"vo_0": "Vec<Vec<FE>>"}}
requires is_pow2(domain.interpolation_domain_size as int), is_pow2(domain.blowup_factor as int), domain.interpolation_domain_size >= 2, domain.interpolation_domain_size * domain.blowup_factor <= 0x1000_0000_0000_0000,
    log2(domain.interpolation_domain_size * domain.blowup_factor) <= two_adicity(),
    forall|k: int| 0 <= k < transition_exemptions@.len() ==> (#[trigger] transition_exemptions@[k])@.len() <= domain.interpolation_domain_size,
ensures ret@.len() == transition_exemptions@.len(),
    forall|k: int| 0 <= k < ret@.len() ==> on_domain((#[trigger] ret@[k])@, transition_exemptions@[k]@, domain.coset_offset@, domain.interpolation_domain_size * domain.blowup_factor),
//@ bodystart
proof { let n = domain.interpolation_domain_size as int; let b = domain.blowup_factor as int; lemma_next_pow2(n); lemma_pow2_mul(n, b); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == transition_exemptions@.len(), vo_0@.len() == vi_0,
    forall|k: int| 0 <= k < vi_0 ==> on_domain((#[trigger] vo_0@[k])@, transition_exemptions@[k]@, domain.coset_offset@, domain.interpolation_domain_size * domain.blowup_factor),
decreases vn_0 - vi_0
//@ loopstart 0
proof { let l = transition_exemptions@[vi_0 as int]@.len(); let n = domain.interpolation_domain_size as int; assert(fft_len(l as int, n) == next_pow2(n)); }
//@ fn starks/traits.rs AIR::transition_exemptions {"rename": {"AIR": "VxAir"}, "types": {"vo_0": "Vec<Polynomial<FE>>", "vu_0": "Vec<&usize>"}}
requires is_pow2(self.s_trace_length()), 2 <= self.s_trace_length(), log2(self.s_trace_length()) <= two_adicity(),
    forall|i: int| 0 <= i < self.s_ctx().transition_exemptions@.len() ==> (#[trigger] self.s_ctx().transition_exemptions@[i]) < self.s_trace_length(),
ensures ({ let n = self.s_trace_length(); let u = used(self.s_ctx().transition_exemptions@, self.s_ctx().transition_exemptions@.len() as int);
    &&& ret@.len() == u.len()
    &&& forall|k: int| 0 <= k < u.len() ==> (#[trigger] ret@[k])@.len() <= n
    &&& forall|k: int, y: int| 0 <= k < u.len() ==> congr(#[trigger] peval(ret@[k]@, y), exempt(y, omega(log2(n)), n, u[k] as int)) }),
//@ bodystart
let ghost n = self.s_trace_length(); let ghost g = omega(log2(self.s_trace_length())); let ghost ex = self.s_ctx().transition_exemptions@;
proof { lemma_tz_log2(n); lemma_log2_bound(n); lemma_log2_bound(n / 2); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == ex.len(), vo_0@.len() == used(ex, vi_0 as int).len(),
    forall|e: usize| #[trigger] saw(vu_0@, ex, vi_0 as int, e),
    forall|k: int| 0 <= k < vo_0@.len() ==> (#[trigger] vo_0@[k])@.len() <= n,
    forall|k: int, y: int| 0 <= k < vo_0@.len() ==> congr(#[trigger] peval(vo_0@[k]@, y), exempt(y, g, n, used(ex, vi_0 as int)[k] as int)),
decreases vn_0 - vi_0
//@ loopstart 0
let ghost m = vi_0 as int; let ghost seen = vu_0@;
proof { lemma_used(ex, m, ex[m]); assert(saw(seen, ex, m, ex[m])); }
//@ loopend 0
proof { assert(vu_0@ == seen || vu_0@.drop_last() =~= seen); lemma_saw(seen, vu_0@, ex, m); }
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == *cant_take, va_1@.len() <= vi_1 + 1, forall|y: int| congr(#[trigger] peval(va_1@, y), exempt(y, g, n, vi_1 as int)),
decreases vn_1 - vi_1
//@ loopstart 1
let ghost pre = va_1@;
//@ loopend 1
proof {
    let e = vj_1 as int; let r = root@; let w = ipow(g, (n - (e + 1)) as nat);
    assert(congr(r, w));
    assert forall|p: Polynomial<FE>, y: int| congr(#[trigger] peval(p@, y), peval(x@, y) - r) implies congr(peval(pre, y) * peval(p@, y), exempt(y, g, n, e) * (y - w)) by {
        lemma_ipow_1(y); assert(1 * y == y); assert(congr(peval(x@, y), 1 * ipow(y, 1)));
        lemma_congr_add(peval(x@, y), y, r, w);
        assert(congr(peval(pre, y), exempt(y, g, n, e)));
        lemma_congr_mul(peval(pre, y), exempt(y, g, n, e), peval(p@, y), y - w);
    }
    assert(forall|y: int| #[trigger] exempt(y, g, n, e + 1) == exempt(y, g, n, e) * (y - w));
}
//@ fn starks/constraints/evaluation_table.rs ConstraintEvaluationTable::new
ensures ret.evaluations_acc@.len() == 0, ret.trace_length == domain@.len(),
//@ fn starks/context.rs AirContext::num_transition_constraints
ensures ret == self.num_transition_constraints,
//@ fn starks/traits.rs AIR::blowup_factor {"rename": {"AIR": "VxAir"}}
ensures ret == self.s_options().blowup_factor,
//@ fn starks/constraints/evaluator.rs ConstraintEvaluator::evaluate {"types": {"vo_0": "Vec<Vec<FE>>", "vo_1": "Vec<FE>", "vo_2": "Vec<FE>", "vo_3": "Vec<Vec<FE>>", "vo_4": "Vec<FE>", "vo_5": "Vec<FE>", "vo_7": "Vec<Vec<FE>>", "vo_8": "Vec<FE>", "vo_9": "Vec<FE>", "vo_10": "Vec<FE>", "vo_12": "Vec<usize>", "vu_12": "Vec<usize>", "va_13": "Option<usize>"}}
requires lawful(&self.air), prover_law(&self.air), domain_of(*domain, &self.air), self.boundary_constraints == self.air.s_boundary(*rap_challenges),
    sizes_ok(self.air.s_trace_length(), self.air.s_options().blowup_factor as int), coset_avoids(self.air.s_options().coset_offset as int, self.air.s_trace_length(), self.air.s_options().blowup_factor as int),
    lde_trace.wf(), lde_trace.nr() == domain.lde_roots_of_unity_coset@.len(), lde_trace.n_cols == self.air.s_ctx().trace_columns,
    alpha_and_beta_boundary_coefficients@.len() == self.boundary_constraints.constraints@.len(), alpha_and_beta_transition_coefficients@.len() == n_transition(&self.air),
ensures ret.evaluations_acc@.len() == domain.lde_roots_of_unity_coset@.len(),
    forall|i: int| 0 <= i < ret.evaluations_acc@.len() ==> congr((#[trigger] ret.evaluations_acc@[i])@, eval_at(&self.air, *rap_challenges, *lde_trace, *domain, i, alpha_and_beta_boundary_coefficients@, alpha_and_beta_transition_coefficients@)),
//@ bodystart
let ghost air = &self.air; let ghost n = self.air.s_trace_length(); let ghost b = self.air.s_options().blowup_factor as int; let ghost g = omega(log2(self.air.s_trace_length())); let ghost rap = *rap_challenges;
let ghost cs = self.boundary_constraints.constraints@; let ghost xs = domain.lde_roots_of_unity_coset@; let ghost h = self.air.s_options().coset_offset as int;
let ghost bcf = alpha_and_beta_boundary_coefficients@; let ghost tcf = alpha_and_beta_transition_coefficients@; let ghost nt = n_transition(&self.air); let ghost bound = self.air.s_bound(); let ghost ctx = self.air.s_ctx();
let ghost ex = self.air.s_ctx().transition_exemptions@; let ghost us = used(self.air.s_ctx().transition_exemptions@, self.air.s_ctx().transition_exemptions@.len() as int);
let ghost nc = lde_trace.n_cols as int; let ghost len = domain.lde_roots_of_unity_coset@.len() as int;
proof { lemma_pow2_mul(n, b); lemma_log2_bound(n); lemma_log2_bound(b); lemma_log2_bound(n / 2); lemma_log2_bound(b / 2); lemma_tz_log2(b); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == cs.len(), binv(vo_0@, cs, xs, g, vi_0 as int),
decreases vn_0 - vi_0
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == len, vo_1@.len() == vi_1, forall|k: int| 0 <= k < vi_1 ==> (#[trigger] vo_1@[k])@ == xs[k]@ - ipow(g, bc.step as nat),
decreases vn_1 - vi_1
//@ let evals
let ghost dens = evals@;
proof {
    assert forall|i: int| #![auto] 0 <= i < dens.len() implies !congr(dens[i]@, 0) by { lemma_coset_point(air, *domain, i, bc.step as int); assert(dens[i]@ == xs[i]@ - ipow(g, bc.step as nat)); }
}
//@ stmt inplace_batch_inverse
proof {
    assert forall|i: int| 0 <= i < len implies congr((#[trigger] evals@[i])@, finv(xs[i]@ - ipow(g, bc.step as nat))) by {
        let (a, f) = (dens[i]@, evals@[i]@); assert(congr(f * a, 1)); assert(f * a == a * f) by (nonlinear_arith); lemma_finv(a, f);
    }
}
//@ loop 2
invariant vi_2 <= vn_2, vn_2 == len, vo_2@.len() == vi_2, forall|k: int| 0 <= k < vi_2 ==> (#[trigger] vo_2@[k])@ == ipow(xs[k]@, (bound - n) as nat),
decreases vn_2 - vi_2
//@ loop 3
invariant vi_3 <= vn_3, vn_3 == cs.len(), bnum(vo_3@, cs, *lde_trace, len, vi_3 as int),
decreases vn_3 - vi_3
//@ before 4
proof {
    let r = len - 1; assert(lde_trace.table.len() as int == len * nc); let m = vt_4_1 as int; let l = vt_4_0 as int;
    assert(l == len * nc - col) by { assert(len * nc >= nc) by (nonlinear_arith) requires len >= 1, nc >= 0; }
    assert(m == len) by (nonlinear_arith) requires l == len * nc - col, 0 <= col < nc, m * nc >= l, l > 0 ==> (m - 1) * nc < l, len >= 1, l == 0 ==> m == 0;
}
//@ loop 4
invariant vi_4 <= vn_4, vn_4 == len, vo_4@.len() == vi_4, forall|k: int| 0 <= k < vi_4 ==> (#[trigger] vo_4@[k])@ == lde_trace.cell(k, col as int)@ - constraint.value@,
decreases vn_4 - vi_4
//@ loopstart 4
proof { lemma_idx(vi_4 as int, col as int, len, nc); assert(lde_trace.table.len() as int == len * nc); }
//@ loop 5
invariant vi_5 <= vn_5, vn_5 == len, vo_5@.len() == vi_5, forall|k: int| 0 <= k < vi_5 ==> congr((#[trigger] vo_5@[k])@, bsum(cs, reps(row_seq(*lde_trace, k)), xs[k]@, g, bound - n, bcf, cs.len() as int)),
decreases vn_5 - vi_5
//@ loop 6
invariant vi_6 <= vn_6, vn_6 == cs.len(), congr(va_6@, bsum(cs, reps(row_seq(*lde_trace, i as int)), xs[i as int]@, g, bound - n, bcf, vi_6 as int)),
decreases vn_6 - vi_6
//@ loopstart 6
proof {
    let k = vi_6 as int; let p = i as int; let row = reps(row_seq(*lde_trace, p)); let c = cs[k].col as int; let w = bcf[k].0@ * ipow(xs[p]@, (bound - n) as nat) + bcf[k].1@;
    let v = lde_trace.cell(p, c)@; assert(row[c] == v % P());
    broadcast use axiom_P; vstd::arithmetic::div_mod::lemma_mod_twice(v, P()); assert(congr(v, row[c]));
    lemma_congr_add(v, row[c], cs[k].value@, cs[k].value@);
    lemma_bterm2(va_6@, bsum(cs, row, xs[p]@, g, bound - n, bcf, k), boundary_zerofiers_inverse_evaluations@[k]@[p]@, finv(xs[p]@ - ipow(g, cs[k].step as nat)), w, boundary_polys_evaluations@[k]@[p]@, row[c] - cs[k].value@);
}
//@ let transition_exemptions_evaluations
proof {
    assert forall|k: int, i: int| 0 <= k < us.len() && 0 <= i < len implies congr((#[trigger] transition_exemptions_evaluations@[k]@[i])@, exempt(xs[i]@, g, n, us[k] as int)) by {
        let y = h * ipow(omega(log2(n * b)), i as nat);
        lemma_exempt_x(xs[i]@, y, g, n, us[k] as int);
    }
    assert(exev(transition_exemptions_evaluations@, xs, g, n, us));
}
//@ let max_transition_degree
proof { let m = max_transition_degree as int; assert(n * (m - 1) <= bound); assert(m - 1 <= bound / 2) by (nonlinear_arith) requires n * (m - 1) <= bound, n >= 2, m >= 1; }
//@ loop 7
invariant 1 <= vi_7 <= vn_7 + 1, vn_7 == max_transition_degree, dadj(vo_7@, xs, bound, n, vi_7 - 1),
decreases vn_7 + 1 - vi_7
//@ loopstart 7
proof { let m = max_transition_degree as int; let v = vi_7 as int; assert(n * (v - 1) <= n * (m - 1) && n * (v - 1) >= 0) by (nonlinear_arith) requires 1 <= v <= m, n >= 1; }
//@ loop 8
invariant vi_8 <= vn_8, vn_8 == len, vo_8@.len() == vi_8, forall|k: int| 0 <= k < vi_8 ==> (#[trigger] vo_8@[k])@ == ipow(xs[k]@, adjust(bound, n, transition_degree as int)),
decreases vn_8 - vi_8
//@ loop 9
invariant vi_9 <= vn_9, vn_9 == b, vo_9@.len() == vi_9, forall|j: int| 0 <= j < vi_9 ==> congr((#[trigger] vo_9@[j])@, zero_at(h, n, b, j)),
decreases vn_9 - vi_9
//@ loopstart 9
proof { let j = vi_9 as int; let p = ipow(h, n as nat) * ipow(omega(log2(b)), j as nat); assert(congr(vsrc_9_0@[j]@, p)); lemma_congr_add(vsrc_9_0@[j]@, p, 1, 1); }
//@ let zerofier_evaluations
let ghost zs = zerofier_evaluations@;
proof { assert forall|j: int| #![auto] 0 <= j < zs.len() implies !congr(zs[j]@, 0) by { assert(congr(zs[j]@, zero_at(h, n, b, j))); } }
//@ stmt inplace_batch_inverse#2
proof {
    assert forall|i: int| 0 <= i < len implies 0 <= i % b < b && congr(zerofier_evaluations@[#[trigger] (i % b)]@, finv(ipow(xs[i]@, n as nat) - 1)) by {
        lemma_coset_point(air, *domain, i, 0); let j = i % b; let (a, f, d) = (zs[j]@, zerofier_evaluations@[j]@, ipow(xs[i]@, n as nat) - 1);
        assert(congr(f * a, 1)); assert(f * a == a * f) by (nonlinear_arith); assert(congr(a, zero_at(h, n, b, j))); lemma_congr_mul(a, d, f, f); lemma_finv(d, f);
    }
}
//@ loop 10
invariant vi_10 <= vn_10, vn_10 == len, vo_10@.len() == vi_10,
    forall|i: int| 0 <= i < vi_10 ==> congr((#[trigger] vo_10@[i])@, eval_at(air, rap, *lde_trace, *domain, i, bcf, tcf)),
decreases vn_10 - vi_10
//@ loopstart 10
proof {
    let i = vi_10 as int; let offs = ctx.transition_offsets@;
    assert forall|k: int| 0 <= k < offs.len() implies i + (#[trigger] offs[k]) * blowup_factor <= usize::MAX by { assert(offs[k] * b <= n * b) by (nonlinear_arith) requires offs[k] <= n, b >= 1; }
    assert(0 <= i % b < b && congr(zerofier_evaluations@[i % b]@, finv(ipow(xs[i]@, n as nat) - 1)));
}
//@ let evaluations_transition
let ghost fr = reps(frame_seq(*lde_trace, i as int, b, ctx.transition_offsets@)); let ghost ev = self.air.s_transition(reps(frame_seq(*lde_trace, i as int, b, ctx.transition_offsets@)), rap); let ghost x = xs[i as int]@;
proof { lemma_frame_seq(frame.data@, *lde_trace, i as int, b, ctx.transition_offsets@); }
//@ loop 11
invariant vi_11 <= vn_11, vn_11 == nt, congr(va_11@, tsum(ctx, ev, x, g, n, bound, tcf, vi_11 as int)),
decreases vn_11 - vi_11
//@ loopstart 11
proof {
    let k = vi_11 as int; let d = ctx.transition_degrees@[k]; let e = ex[k] as int; assert(1 <= d && d <= max_transition_degree);
    let w = tcf[k].0@ * ipow(x, adjust(bound, n, d as int)) + tcf[k].1@; let (z, f, ek) = (zerofier@, finv(ipow(x, n as nat) - 1), evaluations_transition@[k]@);
    assert(congr(ek, ev[k]));
    lemma_used(ex, nt, ex[k]);
    if e == 0 { lemma_tterm2(va_11@, tsum(ctx, ev, x, g, n, bound, tcf, k), z, f, w, ek, ev[k], 1, exempt(x, g, n, e)); } else {
        assert forall|q: int| 0 <= q < us.len() && us[q] == ex[k] implies congr((#[trigger] transition_exemptions_evaluations@[q]@[i as int])@, exempt(x, g, n, e)) by {}
        assert forall|y: int| #[trigger] congr(y, exempt(x, g, n, e)) implies congr(va_11@ + z * w * ek * y, tsum(ctx, ev, x, g, n, bound, tcf, k + 1)) by { lemma_tterm2(va_11@, tsum(ctx, ev, x, g, n, bound, tcf, k), z, f, w, ek, ev[k], y, exempt(x, g, n, e)); }
        assert(us.contains(ex[k]));
        if num_exemptions == 1 { let q = choose|q: int| 0 <= q < us.len() && us[q] == ex[k]; assert(q == 0); }
    }
}
//@ loop 12
invariant vi_12 <= vn_12, vn_12 == ex.len(), vo_12@ == used(ex, vi_12 as int), vu_12@ == vo_12@,
decreases vn_12 - vi_12
//@ loop 13
invariant vi_13 <= vn_13, vn_13 == us.len(), va_13.is_none() ==> forall|j: int| 0 <= j < vi_13 ==> us[j] != *exemption,
    va_13.is_some() ==> va_13->Some_0 < us.len() && us[va_13->Some_0 as int] == *exemption,
decreases vn_13 - vi_13
//@ after 11
proof { lemma_congr_add(va_11@, tsum(ctx, ev, x, g, n, bound, tcf, nt), boundary@, bsum(cs, reps(row_seq(*lde_trace, i as int)), x, g, bound - n, bcf, cs.len() as int)); }
