// ---- prelude: the equations of a step hold on the row that records it -----------------------------------
/// Cell c of row r of the whole trace: the main columns, then the auxiliary ones.
pub open spec fn whole_cell(main: TraceTable, aux: TraceTable, r: int, c: int) -> int { (if c < main.n_cols { main.cell(r, c) } else { aux.cell(r, c - main.n_cols) })@ }
/// f shows row r and the row after it, wrapping round at the end.
pub open spec fn shows_rows(f: &Frame, main: TraceTable, aux: TraceTable, r: int) -> bool {
    f.wf(2, main.n_cols + aux.n_cols) && f.row_width == main.n_cols + aux.n_cols
    && forall|c: int| 0 <= c < f.row_width ==> #[trigger] cur(f, c) == whole_cell(main, aux, r, c) && nxt(f, c) == whole_cell(main, aux, (r + 1) % main.nr(), c)
}
/// The registers after the step from t are t2: what the Cairo machine does.
pub open spec fn follows(m: Map<int, FE>, t: RegistersState, t2: RegistersState) -> bool {
    let w = word(m[t.pc as int]); let dst = m[s_dst_addr(w, t)]@; let op0 = m[s_op0_addr(w, t)]@; let op1 = m[s_op1_addr(w, t, m[s_op0_addr(w, t)])]@; let res = s_res(w, op0, op1);
    let (up_pc, up_ap, code) = (fl(w, 7, 8), fl(w, 10, 4), fl(w, 12, 8)); let next = t.pc + s_size(w);
    &&& congr(t2.pc as int, if up_pc == 1 { res } else if up_pc == 2 { t.pc + res } else if up_pc == 4 && !congr(dst, 0) { t.pc + op1 } else { next })
    &&& congr(t2.ap as int, if code == 1 { t.ap + 2 } else if up_ap == 1 { t.ap + res } else if up_ap == 2 { t.ap + 1 } else { t.ap as int })
    &&& congr(t2.fp as int, if code == 1 { t.ap + 2 } else if code == 2 { dst } else { t.fp as int })
}
/// The instruction is a word of 63 bits, and a call leaves ap's update to the call.
pub open spec fn instruction_ok(m: Map<int, FE>, t: RegistersState) -> bool { let v = rep(m[t.pc as int]); v < 0x8000_0000_0000_0000 && (fl(word(m[t.pc as int]), 12, 8) == 1 ==> fl(word(m[t.pc as int]), 10, 4) == 0) }
pub open spec fn is_bit(x: int) -> bool { x == 0 || x == 1 }
proof fn lemma_zero(a: int, b: int) requires congr(a, b) ensures congr(a - b, 0) { lemma_congr_sub_zero(a, b); }
proof fn lemma_eq_ap(ap: int, f10: int, f11: int, f12: int, c16: int, res: int, nap: int)
    requires is_bit(f10), is_bit(f11), is_bit(f12), f10 + f11 <= 1, f12 == 1 ==> f10 == 0 && f11 == 0, f10 == 1 ==> congr(c16, res), congr(nap, if f12 == 1 { ap + 2 } else if f10 == 1 { ap + res } else if f11 == 1 { ap + 1 } else { ap })
    ensures congr(ap + f10 * c16 + f11 + f12 * 2 - nap, 0)
{
    assert(f10 * c16 == if f10 == 1 { c16 } else { 0 }) by (nonlinear_arith) requires is_bit(f10);
    if f10 == 1 { lemma_congr_add(ap, ap, c16, res); lemma_zero(ap + c16, nap); } else { lemma_zero(ap + f11 + f12 * 2, nap); }
}
proof fn lemma_eq_fp(ap: int, fp: int, f12: int, f13: int, c24: int, dst: int, nfp: int)
    requires is_bit(f12), is_bit(f13), f12 + f13 <= 1, congr(c24, dst), congr(nfp, if f12 == 1 { ap + 2 } else if f13 == 1 { dst } else { fp })
    ensures congr(f13 * c24 + f12 * (ap + 2) + (1 - f13 - f12) * fp - nfp, 0)
{
    let e = f13 * c24 + f12 * (ap + 2) + (1 - f13 - f12) * fp;
    assert(e == if f12 == 1 { ap + 2 } else if f13 == 1 { c24 } else { fp }) by (nonlinear_arith) requires is_bit(f12), is_bit(f13), f12 + f13 <= 1, e == f13 * c24 + f12 * (ap + 2) + (1 - f13 - f12) * fp;
    lemma_zero(e, nfp);
}
proof fn lemma_eq_jnz(f9: int, c24: int, c16: int, c30: int, c31: int, dst: int, y: int)
    requires is_bit(f9), c30 == f9 * c24, c31 == c30 * c16, congr(c24, dst), f9 == 1 && congr(dst, 0) ==> congr(y, 0), f9 == 1 && !congr(dst, 0) ==> congr(dst * c16, 1)
    ensures congr((c31 - f9) * y, 0)
{
    if f9 == 0 { assert(c30 == 0) by (nonlinear_arith) requires c30 == f9 * c24, f9 == 0; assert(c31 == 0) by (nonlinear_arith) requires c31 == c30 * c16, c30 == 0; assert(0 * y == 0); }
    else {
        assert(1 * c24 == c24); assert(c30 == c24); let x = c31 - f9;
        if congr(dst, 0) { lemma_congr_mul(x, x, y, 0); assert(x * 0 == 0); } else { lemma_congr_mul(c24, dst, c16, c16); lemma_zero(c31, 1); lemma_congr_mul(x, 0, y, y); assert(0 * y == 0); }
    }
}
proof fn lemma_eq_pc(f7: int, f8: int, f9: int, c16: int, c24: int, c26: int, c30: int, pc: int, size: int, npc: int, res: int, op1: int, dst: int)
    requires is_bit(f7), is_bit(f8), is_bit(f9), f7 + f8 + f9 <= 1, c30 == f9 * c24, congr(c24, dst), congr(c26, op1), f9 == 0 ==> congr(c16, res),
        congr(npc, if f7 == 1 { res } else if f8 == 1 { pc + res } else if f9 == 1 && !congr(dst, 0) { pc + op1 } else { pc + size })
    ensures congr(c30 * (npc - (pc + c26)) + (1 - f9) * npc - ((1 - f7 - f8 - f9) * (pc + size) + f7 * c16 + f8 * (pc + c16)), 0)
{
    let e = c30 * (npc - (pc + c26)) + (1 - f9) * npc - ((1 - f7 - f8 - f9) * (pc + size) + f7 * c16 + f8 * (pc + c16));
    if f9 == 1 {
        let y = npc - (pc + c26); assert(e == c24 * y) by (nonlinear_arith) requires f9 == 1, f7 == 0, f8 == 0, c30 == f9 * c24, y == npc - (pc + c26), e == c30 * (npc - (pc + c26)) + (1 - f9) * npc - ((1 - f7 - f8 - f9) * (pc + size) + f7 * c16 + f8 * (pc + c16));
        if congr(dst, 0) { lemma_congr_mul(c24, 0, y, y); assert(0 * y == 0); } else { lemma_congr_add(pc, pc, c26, op1); lemma_zero(npc, pc + c26); lemma_congr_mul(c24, c24, y, 0); assert(c24 * 0 == 0); }
    } else {
        let v = if f7 == 1 { c16 } else if f8 == 1 { pc + c16 } else { pc + size }; assert(c30 == 0) by (nonlinear_arith) requires c30 == f9 * c24, f9 == 0; let y = npc - (pc + c26); assert(0 * y == 0);
        let h = (1 - f7 - f8 - f9) * (pc + size) + f7 * c16 + f8 * (pc + c16);
        assert(h == v) by (nonlinear_arith) requires is_bit(f7), is_bit(f8), f9 == 0, f7 + f8 <= 1, v == (if f7 == 1 { c16 } else if f8 == 1 { pc + c16 } else { pc + size }), h == (1 - f7 - f8 - f9) * (pc + size) + f7 * c16 + f8 * (pc + c16);
        assert(c30 * y == 0); assert((1 - f9) * npc == npc) by (nonlinear_arith) requires f9 == 0; assert(e == c30 * y + (1 - f9) * npc - h); assert(e == npc - v); if f8 == 1 { lemma_congr_add(pc, pc, c16, res); } lemma_zero(npc, v);
    }
}
proof fn lemma_eq_res(f5: int, f6: int, f9: int, c16: int, c25: int, c26: int, c32: int, op0: int, op1: int)
    requires is_bit(f5), is_bit(f6), is_bit(f9), f5 + f6 <= 1, f9 == 1 ==> f5 == 0 && f6 == 0, c32 == c25 * c26, congr(c25, op0), congr(c26, op1), f9 == 0 ==> congr(c16, if f5 == 1 { op0 + op1 } else if f6 == 1 { op0 * op1 } else { op1 })
    ensures congr(f5 * (c25 + c26) + f6 * c32 + (1 - f5 - f6 - f9) * c26 - (1 - f9) * c16, 0)
{
    let e = f5 * (c25 + c26) + f6 * c32 + (1 - f5 - f6 - f9) * c26 - (1 - f9) * c16; let v = if f5 == 1 { c25 + c26 } else if f6 == 1 { c32 } else { c26 };
    assert(e == if f9 == 1 { 0 } else { v - c16 }) by (nonlinear_arith) requires is_bit(f5), is_bit(f6), is_bit(f9), f5 + f6 <= 1, f9 == 1 ==> f5 == 0 && f6 == 0, v == (if f5 == 1 { c25 + c26 } else if f6 == 1 { c32 } else { c26 }), e == f5 * (c25 + c26) + f6 * c32 + (1 - f5 - f6 - f9) * c26 - (1 - f9) * c16;
    if f9 == 0 { lemma_congr_add(c25, op0, c26, op1); lemma_congr_mul(c25, op0, c26, op1); lemma_zero(v, c16); }
}
proof fn lemma_eq_op1(f2: int, f3: int, f4: int, pc: int, ap: int, fp: int, c25: int, op0: int, off: int, a: int)
    requires is_bit(f2), is_bit(f3), is_bit(f4), f2 + f3 + f4 <= 1, congr(c25, op0), a == (if f2 == 1 { pc } else if f3 == 1 { fp } else if f4 == 1 { ap } else { op0 % P() }) + off
    ensures congr(f2 * pc + f4 * ap + f3 * fp + (1 - f2 - f4 - f3) * c25 + off - a, 0)
{
    let e = f2 * pc + f4 * ap + f3 * fp + (1 - f2 - f4 - f3) * c25; let v = if f2 == 1 { pc } else if f3 == 1 { fp } else if f4 == 1 { ap } else { c25 };
    assert(e == v) by (nonlinear_arith) requires is_bit(f2), is_bit(f3), is_bit(f4), f2 + f3 + f4 <= 1, v == (if f2 == 1 { pc } else if f3 == 1 { fp } else if f4 == 1 { ap } else { c25 }), e == f2 * pc + f4 * ap + f3 * fp + (1 - f2 - f4 - f3) * c25;
    broadcast use axiom_P; vstd::arithmetic::div_mod::lemma_mod_twice(op0, P()); if f2 + f3 + f4 == 0 { assert(congr(c25, op0 % P())); } lemma_congr_add(v, a - off, off, off); lemma_zero(v + off, a);
}
proof fn lemma_eq_when(f: int, a: int, b: int) requires is_bit(f), f == 1 ==> congr(a, b) ensures congr(f * (a - b), 0) { let d = a - b; if f == 1 { lemma_zero(a, b); assert(1 * d == d); } else { assert(0 * d == 0); } }
proof fn lemma_eq_base(f: int, ap: int, fp: int, a: int, off: int) requires is_bit(f), a == (if f == 0 { ap } else { fp }) + off ensures pick(f, fp, ap) + off - a == 0 { assert(f * fp + (1 - f) * ap == if f == 0 { ap } else { fp }) by (nonlinear_arith) requires is_bit(f); }
/// Bit lo + j of a word, from the value of the field that starts at lo.
proof fn lemma_bit(w: int, lo: nat, j: int, m: int) requires 0 <= w, (m == 8 && 0 <= j <= 2) || (m == 4 && 0 <= j <= 1) ensures ({ let n = fl(w, lo, m); bit(w, lo + j) == (if j == 0 { n % 2 } else if j == 1 { n / 2 % 2 } else { n / 4 % 2 }) }) { rt(w, lo, j, fl(w, lo, m), m); assert((48 + (lo + j)) as nat == (48 + lo + j) as nat); }
/// The fifteen flags, from the seven fields.
proof fn lemma_flag_bits(w: int) requires 0 <= w, defined(w)
    ensures forall|k: int| 0 <= k < 15 ==> is_bit(#[trigger] bit(w, k)),
        bit(w, 0) == fl(w, 0, 2), bit(w, 1) == fl(w, 1, 2),
        bit(w, 2) == (if fl(w, 2, 8) == 1 { 1int } else { 0 }), bit(w, 3) == (if fl(w, 2, 8) == 2 { 1int } else { 0 }), bit(w, 4) == (if fl(w, 2, 8) == 4 { 1int } else { 0 }),
        bit(w, 5) == (if fl(w, 5, 4) == 1 { 1int } else { 0 }), bit(w, 6) == (if fl(w, 5, 4) == 2 { 1int } else { 0 }),
        bit(w, 7) == (if fl(w, 7, 8) == 1 { 1int } else { 0 }), bit(w, 8) == (if fl(w, 7, 8) == 2 { 1int } else { 0 }), bit(w, 9) == (if fl(w, 7, 8) == 4 { 1int } else { 0 }),
        bit(w, 10) == (if fl(w, 10, 4) == 1 { 1int } else { 0 }), bit(w, 11) == (if fl(w, 10, 4) == 2 { 1int } else { 0 }),
        bit(w, 12) == (if fl(w, 12, 8) == 1 { 1int } else { 0 }), bit(w, 13) == (if fl(w, 12, 8) == 2 { 1int } else { 0 }), bit(w, 14) == (if fl(w, 12, 8) == 4 { 1int } else { 0 })
{
    assert forall|k: int| 0 <= k < 15 implies is_bit(#[trigger] bit(w, k)) by { vstd::arithmetic::div_mod::lemma_mod_bound(w / ipow(2, (48 + k) as nat), 2); }
    lemma_bit(w, 2, 0, 8); lemma_bit(w, 2, 1, 8); lemma_bit(w, 2, 2, 8); lemma_bit(w, 5, 0, 4); lemma_bit(w, 5, 1, 4); lemma_bit(w, 7, 0, 8); lemma_bit(w, 7, 1, 8); lemma_bit(w, 7, 2, 8);
    lemma_bit(w, 10, 0, 4); lemma_bit(w, 10, 1, 4); lemma_bit(w, 12, 0, 8); lemma_bit(w, 12, 1, 8); lemma_bit(w, 12, 2, 8);
    lemma_fields(w);
}
proof fn lemma_fields(w: int) requires 0 <= w ensures 0 <= fl(w, 5, 4) < 4, 0 <= fl(w, 10, 4) < 4 { vstd::arithmetic::div_mod::lemma_mod_bound(w / ipow(2, 53), 4); vstd::arithmetic::div_mod::lemma_mod_bound(w / ipow(2, 58), 4); }
/// The flags of a 63-bit word spell its upper bits.
proof fn lemma_flags_sum(f: &Frame, w: int, k: int) requires 0 <= w < 0x8000_0000_0000_0000, 0 <= k <= 15, forall|j: int| 0 <= j < 15 ==> #[trigger] cur(f, j) == bit(w, j) ensures flags_from(f, k) == w / ipow(2, (48 + k) as nat) decreases 15 - k {
    let x = w / ipow(2, (48 + k) as nat);
    if k < 15 { lemma_flags_sum(f, w, k + 1); half(w, (48 + k) as nat, 1); assert((48 + k) as nat + 1 == (48 + (k + 1)) as nat); assert(cur(f, k) == bit(w, k)); assert(x == 2 * (x / 2) + x % 2); }
    else { assert(ipow(2, 63) == 0x8000_0000_0000_0000) by (compute); vstd::arithmetic::div_mod::lemma_basic_div(w, 0x8000_0000_0000_0000); }
}
proof fn lemma_word_split(w: int) requires 0 <= w ensures w == w % 0x1_0000 + 0x1_0000 * ((w / 0x1_0000) % 0x1_0000) + 0x1_0000_0000 * ((w / 0x1_0000_0000) % 0x1_0000) + 0x1_0000_0000_0000 * (w / 0x1_0000_0000_0000) {}
proof fn lemma_offsets(w: int) requires 0 <= w ensures off_of(w, 0) + 0x8000 == w % 0x1_0000, off_of(w, 1) + 0x8000 == (w / 0x1_0000) % 0x1_0000, off_of(w, 2) + 0x8000 == (w / 0x1_0000_0000) % 0x1_0000 {
    assert(ipow(2, 0) == 1); assert(ipow(2, 16) == 0x1_0000) by (compute); assert(ipow(2, 32) == 0x1_0000_0000) by (compute); assert(w / 1 == w);
}
/// The instruction equation.
proof fn lemma_eq_word(f: &Frame, v: FE, w: int) requires w == word(v), rep(v) < 0x8000_0000_0000_0000, forall|j: int| 0 <= j < 15 ==> #[trigger] cur(f, j) == bit(w, j), congr(cur(f, 23), v@), cur(f, 27) == off_of(w, 0) + 0x8000, cur(f, 28) == off_of(w, 1) + 0x8000, cur(f, 29) == off_of(w, 2) + 0x8000
    ensures congr(step_poly(f, 16), 0)
{
    broadcast use axiom_P; assert(rep(v) >= 0); assert(w == rep(v)); lemma_flags_sum(f, w, 0); lemma_offsets(w); lemma_word_split(w); assert(ipow(2, 48) == 0x1_0000_0000_0000) by (compute);
    vstd::arithmetic::div_mod::lemma_mod_twice(v@, P()); assert(congr(w, cur(f, 23))); lemma_zero(w, cur(f, 23));
}
/// Frame f shows a row that records the step from t; where it is not the run's last, the next row records t2, which follows.
pub open spec fn records(f: &Frame, m: Map<int, FE>, t: RegistersState, t2: RegistersState) -> bool {
    let w = word(m[t.pc as int]); let dst = m[s_dst_addr(w, t)]@; let op0 = m[s_op0_addr(w, t)]@; let op1 = m[s_op1_addr(w, t, m[s_op0_addr(w, t)])]@;
    &&& forall|k: int| 0 <= k < 15 ==> #[trigger] cur(f, k) == bit(w, k)
    &&& (if fl(w, 7, 8) == 4 { !congr(dst, 0) ==> congr(dst * cur(f, 16), 1) } else { congr(cur(f, 16), s_res(w, op0, op1)) })
    &&& cur(f, 17) == t.ap && cur(f, 18) == t.fp && cur(f, 19) == t.pc
    &&& cur(f, 20) == s_dst_addr(w, t) && cur(f, 21) == s_op0_addr(w, t) && cur(f, 22) == s_op1_addr(w, t, m[s_op0_addr(w, t)])
    &&& congr(cur(f, 23), m[t.pc as int]@) && congr(cur(f, 24), dst) && congr(cur(f, 25), op0) && congr(cur(f, 26), op1)
    &&& cur(f, 27) == off_of(w, 0) + 0x8000 && cur(f, 28) == off_of(w, 1) + 0x8000 && cur(f, 29) == off_of(w, 2) + 0x8000
    &&& cur(f, 30) == cur(f, 9) * cur(f, 24) && cur(f, 31) == cur(f, 30) * cur(f, 16) && cur(f, 32) == cur(f, 25) * cur(f, 26)
    &&& nxt(f, 17) == t2.ap && nxt(f, 18) == t2.fp && nxt(f, 19) == t2.pc
}
proof fn lemma_step_a(f: &Frame, m: Map<int, FE>, t: RegistersState, t2: RegistersState) requires records(f, m, t, t2), valid_step(m, t), instruction_ok(m, t), follows(m, t, t2)
    ensures forall|i: int| 16 <= i < 22 ==> congr(#[trigger] step_poly(f, i), 0)
{
    broadcast use axiom_P;
    let v = m[t.pc as int]; let w = word(v); assert(w >= 0); let op0f = m[s_op0_addr(w, t)]; let (op0, op1, dst) = (op0f@, m[s_op1_addr(w, t, op0f)]@, m[s_dst_addr(w, t)]@); let res = s_res(w, op0, op1); let ap = t.ap as int; let fp = t.fp as int; let pc = t.pc as int;
    lemma_flag_bits(w); let fk = |k: int| cur(f, k); assert forall|k: int| 0 <= k < 15 implies #[trigger] cur(f, k) == bit(w, k) && is_bit(cur(f, k)) by {}
    lemma_eq_word(f, v, w);
    lemma_eq_base(cur(f, 0), ap, fp, cur(f, 20), off_of(w, 0)); lemma_eq_base(cur(f, 1), ap, fp, cur(f, 21), off_of(w, 1));
    lemma_eq_op1(cur(f, 2), cur(f, 3), cur(f, 4), pc, ap, fp, cur(f, 25), op0, off_of(w, 2), cur(f, 22));
    lemma_eq_ap(ap, cur(f, 10), cur(f, 11), cur(f, 12), cur(f, 16), res, nxt(f, 17));
    lemma_eq_fp(ap, fp, cur(f, 12), cur(f, 13), cur(f, 24), dst, nxt(f, 18));
    assert forall|i: int| 16 <= i < 22 implies congr(#[trigger] step_poly(f, i), 0) by { if i == 16 {} else if i == 17 {} else if i == 18 {} else if i == 19 {} else if i == 20 {} else {} }
}
proof fn lemma_step_b(f: &Frame, m: Map<int, FE>, t: RegistersState, t2: RegistersState) requires records(f, m, t, t2), valid_step(m, t), instruction_ok(m, t), follows(m, t, t2)
    ensures forall|i: int| 22 <= i < 31 ==> congr(#[trigger] step_poly(f, i), 0)
{
    broadcast use axiom_P;
    let v = m[t.pc as int]; let w = word(v); assert(w >= 0); let op0f = m[s_op0_addr(w, t)]; let (op0, op1, dst) = (op0f@, m[s_op1_addr(w, t, op0f)]@, m[s_dst_addr(w, t)]@); let res = s_res(w, op0, op1); let ap = t.ap as int; let fp = t.fp as int; let pc = t.pc as int;
    lemma_flag_bits(w); assert forall|k: int| 0 <= k < 15 implies #[trigger] cur(f, k) == bit(w, k) && is_bit(cur(f, k)) by {}
    let size = isize_(f); assert(size == s_size(w)); let npc = nxt(f, 19); let (f5, f6, f7, f8, f9, f12, f14) = (cur(f, 5), cur(f, 6), cur(f, 7), cur(f, 8), cur(f, 9), cur(f, 12), cur(f, 14)); let (c16, c24, c25, c26, c30, c31) = (cur(f, 16), cur(f, 24), cur(f, 25), cur(f, 26), cur(f, 30), cur(f, 31));
    let y = npc - (pc + size); if f9 == 1 && congr(dst, 0) { lemma_zero(npc, pc + size); }
    lemma_eq_jnz(f9, c24, c16, c30, c31, dst, y);
    lemma_eq_pc(f7, f8, f9, c16, c24, c26, c30, pc, size, npc, res, op1, dst);
    lemma_eq_res(f5, f6, f9, c16, c25, c26, cur(f, 32), op0, op1);
    lemma_eq_when(f12, c24, fp); lemma_eq_when(f12, c25, pc + size); lemma_eq_when(f14, c24, c16);
    assert forall|i: int| 22 <= i < 31 implies congr(#[trigger] step_poly(f, i), 0) by { if i == 22 {} else if i == 23 {} else if i == 24 {} else if i == 25 {} else if i == 26 {} else if i == 27 {} else if i == 28 {} else if i == 29 {} else {} }
}
/// The flag equations and the fifteen step equations vanish on a row that records a step of the machine.
pub proof fn theorem_step(f: &Frame, m: Map<int, FE>, t: RegistersState, t2: RegistersState) requires records(f, m, t, t2), valid_step(m, t), instruction_ok(m, t), follows(m, t, t2)
    ensures forall|i: int| 0 <= i < 15 ==> #[trigger] cur(f, i) * (cur(f, i) - 1) == 0, forall|i: int| 16 <= i < 31 ==> congr(#[trigger] step_poly(f, i), 0)
{
    broadcast use axiom_P; let w = word(m[t.pc as int]); lemma_flag_bits(w);
    assert forall|i: int| 0 <= i < 15 implies #[trigger] cur(f, i) * (cur(f, i) - 1) == 0 by { assert(is_bit(bit(w, i))); let b = cur(f, i); assert(b == bit(w, i)); assert(b * (b - 1) == 0) by (nonlinear_arith) requires is_bit(b); }
    lemma_step_a(f, m, t, t2); lemma_step_b(f, m, t, t2);
}
