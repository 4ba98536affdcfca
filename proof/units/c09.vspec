//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include poly.rs
//@ include polyops.rs
//@ include field.rs
//@ include roots.rs
//@ config
{"rename": {"T": "VxTranscript", "A": "VxAir"}}
//@ item starks/constraints/boundary.rs BoundaryConstraint
//@ item starks/constraints/boundary.rs BoundaryConstraints
//@ raw
/// Steps and values declared for one column by the first n constraints, in order.
pub open spec fn steps_of(cs: Seq<BoundaryConstraint>, col: int, n: int) -> Seq<usize> decreases n {
    if n <= 0 { Seq::empty() } else if cs[n - 1].col == col { steps_of(cs, col, n - 1).push(cs[n - 1].step) } else { steps_of(cs, col, n - 1) }
}
pub open spec fn values_of(cs: Seq<BoundaryConstraint>, col: int, n: int) -> Seq<FE> decreases n {
    if n <= 0 { Seq::empty() } else if cs[n - 1].col == col { values_of(cs, col, n - 1).push(cs[n - 1].value) } else { values_of(cs, col, n - 1) }
}
/// The product of (x - w^s) over the first n of these steps.
pub open spec fn vanishing(w: int, steps: Seq<usize>, x: int, n: int) -> int decreases n {
    if n <= 0 { 1 } else { vanishing(w, steps, x, n - 1) * (x - ipow(w, steps[n - 1] as nat)) }
}
pub open spec fn declared(cs: Seq<BoundaryConstraint>, col: int, step: int) -> bool { exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).col == col && cs[i].step == step }
proof fn lemma_binomial(a: int, x: int) ensures peval(seq![a, 1int], x) == x + a {
    let s = seq![a, 1int]; assert(s.drop_first() == seq![1int]); assert(seq![1int].drop_first() == Seq::<int>::empty()); assert(peval(Seq::<int>::empty(), x) == 0); assert(peval(seq![1int], x) == 1 + x * 0); assert(x * 0 == 0); assert(peval(s, x) == a + x * peval(seq![1int], x)); assert(x * 1 == x);
}
//@ fn starks/constraints/boundary.rs BoundaryConstraint::new
ensures ret == (BoundaryConstraint { col, step, value })
//@ fn starks/constraints/boundary.rs BoundaryConstraint::new_simple
ensures ret == (BoundaryConstraint { col: 0, step, value })
//@ fn starks/constraints/boundary.rs BoundaryConstraints::from_constraints
ensures ret.constraints@ == constraints@
//@ fn starks/constraints/boundary.rs BoundaryConstraints::steps {"types": {"vo_0": "Vec<usize>"}}
ensures ret@ == steps_of(self.constraints@, col as int, self.constraints@.len() as int)
//@ loop 0
invariant 0 <= vi_0 <= vn_0, vn_0 == self.constraints@.len(), vo_0@ == steps_of(self.constraints@, col as int, vi_0 as int)
decreases vn_0 - vi_0
//@ fn starks/constraints/boundary.rs BoundaryConstraints::steps_for_boundary {"types": {"vo_0": "Vec<usize>", "vu_0": "Vec<usize>"}}
ensures ret@.no_duplicates(), forall|s: usize| #[trigger] ret@.contains(s) <==> exists|i: int| 0 <= i < self.constraints@.len() && (#[trigger] self.constraints@[i]).step == s
//@ loop 0
invariant 0 <= vi_0 <= vn_0, vn_0 == self.constraints@.len(), vu_0@ == vo_0@, vo_0@.no_duplicates(),
    forall|i: int| 0 <= i < vi_0 ==> vo_0@.contains((#[trigger] self.constraints@[i]).step),
    forall|k: int| 0 <= k < vo_0@.len() ==> exists|i: int| 0 <= i < vi_0 && (#[trigger] self.constraints@[i]).step == #[trigger] vo_0@[k]
decreases vn_0 - vi_0
//@ loopstart 0
let ghost pre = vo_0@;
//@ loopend 0
proof {
    let c = self.constraints@[vj_0 as int];
    if pre.contains(c.step) { assert(vo_0@ == pre); } else {
        assert(vo_0@ == pre.push(c.step)); assert(vo_0@[pre.len() as int] == c.step);
        assert forall|i: int| 0 <= i < vi_0 implies vo_0@.contains((#[trigger] self.constraints@[i]).step) by { if i < vj_0 { assert(pre.contains(self.constraints@[i].step)); let k = choose|k: int| 0 <= k < pre.len() && pre[k] == self.constraints@[i].step; assert(vo_0@[k] == pre[k]); } }
        assert forall|k: int| 0 <= k < vo_0@.len() implies exists|i: int| 0 <= i < vi_0 && (#[trigger] self.constraints@[i]).step == #[trigger] vo_0@[k] by { if k < pre.len() { assert(vo_0@[k] == pre[k]); } else { assert(self.constraints@[vj_0 as int].step == vo_0@[k]); } }
    }
}
//@ fn starks/constraints/boundary.rs BoundaryConstraints::cols_for_boundary {"types": {"vo_0": "Vec<usize>", "vu_0": "Vec<usize>"}}
ensures ret@.no_duplicates(), forall|s: usize| #[trigger] ret@.contains(s) <==> exists|i: int| 0 <= i < self.constraints@.len() && (#[trigger] self.constraints@[i]).col == s
//@ loop 0
invariant 0 <= vi_0 <= vn_0, vn_0 == self.constraints@.len(), vu_0@ == vo_0@, vo_0@.no_duplicates(),
    forall|i: int| 0 <= i < vi_0 ==> vo_0@.contains((#[trigger] self.constraints@[i]).col),
    forall|k: int| 0 <= k < vo_0@.len() ==> exists|i: int| 0 <= i < vi_0 && (#[trigger] self.constraints@[i]).col == #[trigger] vo_0@[k]
decreases vn_0 - vi_0
//@ loopstart 0
let ghost pre = vo_0@;
//@ loopend 0
proof {
    let c = self.constraints@[vj_0 as int];
    if pre.contains(c.col) { assert(vo_0@ == pre); } else {
        assert(vo_0@ == pre.push(c.col)); assert(vo_0@[pre.len() as int] == c.col);
        assert forall|i: int| 0 <= i < vi_0 implies vo_0@.contains((#[trigger] self.constraints@[i]).col) by { if i < vj_0 { assert(pre.contains(self.constraints@[i].col)); let k = choose|k: int| 0 <= k < pre.len() && pre[k] == self.constraints@[i].col; assert(vo_0@[k] == pre[k]); } }
        assert forall|k: int| 0 <= k < vo_0@.len() implies exists|i: int| 0 <= i < vi_0 && (#[trigger] self.constraints@[i]).col == #[trigger] vo_0@[k] by { if k < pre.len() { assert(vo_0@[k] == pre[k]); } else { assert(self.constraints@[vj_0 as int].col == vo_0@[k]); } }
    }
}
//@ fn starks/constraints/boundary.rs BoundaryConstraints::generate_roots_of_unity {"types": {"vo_0": "Vec<Vec<FE>>", "vo_1": "Vec<FE>"}}
ensures ret@.len() == cols_trace@.len(),
    forall|k: int| 0 <= k < ret@.len() ==> ({ let s = steps_of(self.constraints@, cols_trace@[k] as int, self.constraints@.len() as int);
        (#[trigger] ret@[k])@.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> congr((#[trigger] ret@[k]@[j])@, ipow(primitive_root@, s[j] as nat)) })
//@ loop 0
invariant 0 <= vi_0 <= vn_0, vn_0 == cols_trace@.len(), vo_0@.len() == vi_0,
    forall|k: int| 0 <= k < vi_0 ==> ({ let s = steps_of(self.constraints@, cols_trace@[k] as int, self.constraints@.len() as int);
        (#[trigger] vo_0@[k])@.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> congr((#[trigger] vo_0@[k]@[j])@, ipow(primitive_root@, s[j] as nat)) })
decreases vn_0 - vi_0
//@ loop 1
invariant 0 <= vi_1 <= vn_1, vn_1 == vsrc_1_0@.len(), vo_1@.len() == vi_1, vsrc_1_0@ == steps_of(self.constraints@, cols_trace@[vj_0 as int] as int, self.constraints@.len() as int),
    forall|j: int| 0 <= j < vi_1 ==> congr((#[trigger] vo_1@[j])@, ipow(primitive_root@, vsrc_1_0@[j] as nat))
decreases vn_1 - vi_1
//@ fn starks/constraints/boundary.rs BoundaryConstraints::values {"types": {"vo_0": "Vec<Vec<FE>>", "vo_1": "Vec<FE>"}}
ensures ret@.len() == cols_trace@.len(), forall|k: int| 0 <= k < ret@.len() ==> (#[trigger] ret@[k])@ == values_of(self.constraints@, cols_trace@[k] as int, self.constraints@.len() as int)
//@ loop 0
invariant 0 <= vi_0 <= vn_0, vn_0 == cols_trace@.len(), vo_0@.len() == vi_0,
    forall|k: int| 0 <= k < vi_0 ==> (#[trigger] vo_0@[k])@ == values_of(self.constraints@, cols_trace@[k] as int, self.constraints@.len() as int)
decreases vn_0 - vi_0
//@ loop 1
invariant 0 <= vi_1 <= vn_1, vn_1 == self.constraints@.len(), vo_1@ == values_of(self.constraints@, cols_trace@[vj_0 as int] as int, vi_1 as int)
decreases vn_1 - vi_1
//@ fn starks/constraints/boundary.rs BoundaryConstraints::compute_zerofier
ensures forall|x: int| congr(#[trigger] peval(ret@, x), vanishing(primitive_root@, steps_of(self.constraints@, col as int, self.constraints@.len() as int), x, steps_of(self.constraints@, col as int, self.constraints@.len() as int).len() as int))
//@ loop 0
invariant 0 <= vi_0 <= vn_0, vn_0 == vsrc_0_0@.len(), vsrc_0_0@ == steps_of(self.constraints@, col as int, self.constraints@.len() as int),
    forall|x: int| congr(#[trigger] peval(va_0@, x), vanishing(primitive_root@, vsrc_0_0@, x, vi_0 as int))
decreases vn_0 - vi_0
//@ loopstart 0
let ghost old_z = va_0@; let ghost mut vx_b: Seq<int> = seq![];
//@ loopend 0
proof {
    let s = vsrc_0_0@;
    assert forall|x: int| congr(#[trigger] peval(va_0@, x), vanishing(primitive_root@, s, x, vi_0 as int)) by {
        lemma_binomial(-ipow(primitive_root@, s[vj_0 as int] as nat), x);
        lemma_peval_same(vx_b, seq![-ipow(primitive_root@, s[vj_0 as int] as nat), 1int], x);
        lemma_congr_mul(peval(old_z, x), vanishing(primitive_root@, s, x, vj_0 as int), peval(vx_b, x), x - ipow(primitive_root@, s[vj_0 as int] as nat));
        assert(vanishing(primitive_root@, s, x, vi_0 as int) == vanishing(primitive_root@, s, x, vj_0 as int) * (x - ipow(primitive_root@, s[vj_0 as int] as nat)));
    }
}
//@ let binomial
proof { vx_b = binomial@; assert forall|i: int| congr(#[trigger] co(vx_b, i), co(seq![-ipow(primitive_root@, step as nat), 1int], i)) by {} }
//@ raw
/// Some constraint among the first n declares this.
pub open spec fn declares(cs: Seq<BoundaryConstraint>, col: int, n: int, step: usize, value: FE) -> bool { exists|i: int| 0 <= i < n && (#[trigger] cs[i]).col == col && cs[i].step == step && cs[i].value == value }
/// This step and value are a pair of the lists.
pub open spec fn listed(cs: Seq<BoundaryConstraint>, col: int, n: int, step: usize, value: FE) -> bool { exists|k: int| 0 <= k < steps_of(cs, col, n).len() && #[trigger] steps_of(cs, col, n)[k] == step && values_of(cs, col, n)[k] == value }
pub proof fn lemma_steps_of(cs: Seq<BoundaryConstraint>, col: int, n: int) requires 0 <= n <= cs.len()
    ensures steps_of(cs, col, n).len() == values_of(cs, col, n).len(),
        forall|k: int| 0 <= k < steps_of(cs, col, n).len() ==> declares(cs, col, n, #[trigger] steps_of(cs, col, n)[k], values_of(cs, col, n)[k]),
        forall|i: int| 0 <= i < n && (#[trigger] cs[i]).col == col ==> listed(cs, col, n, cs[i].step, cs[i].value),
    decreases n
{
    if n > 0 {
        lemma_steps_of(cs, col, n - 1);
        let (a, b) = (steps_of(cs, col, n - 1), values_of(cs, col, n - 1));
        assert forall|k: int| 0 <= k < steps_of(cs, col, n).len() implies declares(cs, col, n, #[trigger] steps_of(cs, col, n)[k], values_of(cs, col, n)[k]) by {
            let (s, v) = (steps_of(cs, col, n), values_of(cs, col, n));
            if k < a.len() { assert(a[k] == s[k] && b[k] == v[k]); assert(declares(cs, col, n - 1, a[k], b[k])); let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] cs[i]).col == col && cs[i].step == a[k] && cs[i].value == b[k]; assert(cs[i].col == col); }
            else { assert(cs[n - 1].step == s[k] && cs[n - 1].value == v[k] && cs[n - 1].col == col); }
        }
        assert forall|i: int| 0 <= i < n && (#[trigger] cs[i]).col == col implies listed(cs, col, n, cs[i].step, cs[i].value) by {
            let (s, v) = (steps_of(cs, col, n), values_of(cs, col, n));
            if i < n - 1 { assert(listed(cs, col, n - 1, cs[i].step, cs[i].value)); let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k] == cs[i].step && b[k] == cs[i].value; assert(s[k] == a[k] && v[k] == b[k]); }
            else { assert(s[a.len() as int] == cs[i].step && v[a.len() as int] == cs[i].value); }
        }
    }
}
proof fn lemma_vanishing(w: int, k: int, steps: Seq<usize>, n: int, j: int)
    requires 1 <= k <= two_adicity(), w == omega(k), 0 <= n <= steps.len(), 0 <= j < ipow(2, k as nat), forall|i: int| 0 <= i < steps.len() ==> (#[trigger] steps[i]) < ipow(2, k as nat)
    ensures congr(vanishing(w, steps, ipow(w, j as nat), n), 0) == exists|i: int| 0 <= i < n && #[trigger] steps[i] == j
    decreases n
{
    lemma_congr_zero();
    let x = ipow(w, j as nat);
    if n > 0 {
        lemma_vanishing(w, k, steps, n - 1, j);
        let s = steps[n - 1] as int; let v = vanishing(w, steps, x, n - 1); let d = x - ipow(w, s as nat);
        assert(vanishing(w, steps, x, n) == v * d);
        if s == j { assert(d == 0); assert(v * 0 == 0); assert(steps[n - 1] == j); } else {
            if s < j { lemma_omega_distinct(k, s, j); } else { lemma_omega_distinct(k, j, s); }
            lemma_congr_sub_zero(x, ipow(w, s as nat));
            if congr(v, 0) { lemma_congr_mul(v, 0, d, d); assert(0 * d == 0); let i = choose|i: int| 0 <= i < n - 1 && #[trigger] steps[i] == j; assert(steps[i] == j); }
            if congr(v * d, 0) { axiom_field(v, d); }
            if exists|i: int| 0 <= i < n && #[trigger] steps[i] == j { let i = choose|i: int| 0 <= i < n && #[trigger] steps[i] == j; assert(i < n - 1); assert(steps[i] == j); }
        }
    } else { assert(vanishing(w, steps, x, n) == 1); }
}
/// The zerofier of a column vanishes on exactly the declared steps of the trace domain.
proof fn theorem_zerofier(cs: Seq<BoundaryConstraint>, col: int, k: int, z: Seq<int>, j: int)
    requires 1 <= k <= two_adicity(), 0 <= j < ipow(2, k as nat), forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).step < ipow(2, k as nat),
        forall|x: int| congr(#[trigger] peval(z, x), vanishing(omega(k), steps_of(cs, col, cs.len() as int), x, steps_of(cs, col, cs.len() as int).len() as int))
    ensures congr(peval(z, ipow(omega(k), j as nat)), 0) == declared(cs, col, j)
{
    let s = steps_of(cs, col, cs.len() as int);
    lemma_steps_of(cs, col, cs.len() as int);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) < ipow(2, k as nat) by { assert(declares(cs, col, cs.len() as int, s[i], values_of(cs, col, cs.len() as int)[i])); }
    lemma_vanishing(omega(k), k, s, s.len() as int, j);
    if exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == j { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == j; assert(declares(cs, col, cs.len() as int, s[i], values_of(cs, col, cs.len() as int)[i])); }
    if declared(cs, col, j) { let i = choose|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).col == col && cs[i].step == j; assert(cs[i].col == col); assert(listed(cs, col, cs.len() as int, cs[i].step, cs[i].value)); }
}
