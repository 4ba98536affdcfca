// ---- shared: what the boundary constraints pin -----------------------------------------------------------
pub open spec fn pins(c: BoundaryConstraint, col: int, step: int, value: int) -> bool { c.col == col && c.step == step && congr(c.value@, value) }
pub open spec fn pinned(cs: Seq<BoundaryConstraint>, col: int, step: int, value: int) -> bool { exists|i: int| 0 <= i < cs.len() && pins(#[trigger] cs[i], col, step, value) }
/// Columns of the layout, from the second cell of the auxiliary columns on shifted when the builtin columns are absent.
pub open spec fn off(air: &CairoAIR) -> int { if air.has_rc_builtin { 0 } else { 9 } }
pub open spec fn last_row(air: &CairoAIR) -> int { air.trace_length - 1 }
pub open spec fn last_step(air: &CairoAIR) -> int { air.pub_inputs.num_steps - 1 }
/// The memory's final product v satisfies v * prod(z - (a + alpha value)) == z^cells.
pub open spec fn final_product(air: &CairoAIR, rap: CairoRAPChallenges, v: int) -> bool {
    congr(v * mem_product(air.pub_inputs.public_memory@, rap.z_memory@, rap.alpha_memory@), ipow(rap.z_memory@, air.pub_inputs.public_memory@.dom().len()))
}
pub open spec fn is_memory_pin(air: &CairoAIR, rap: CairoRAPChallenges, c: BoundaryConstraint) -> bool { c.col == 57 - off(air) && c.step == last_row(air) && final_product(air, rap, c.value@) }
pub open spec fn is_plain_pin(air: &CairoAIR, c: BoundaryConstraint) -> bool {
    let p = air.pub_inputs;
    ||| pins(c, 19, 0, p.pc_init@) ||| pins(c, 17, 0, p.ap_init@) ||| pins(c, 18, 0, p.fp_init@)
    ||| pins(c, 19, last_step(air), p.pc_final@) ||| pins(c, 17, last_step(air), p.ap_final@)
    ||| pins(c, 60 - off(air), last_row(air), 1)
    ||| pins(c, 43 - off(air), 0, p.range_check_min->Some_0 as int) ||| pins(c, 45 - off(air), last_row(air), p.range_check_max->Some_0 as int)
}
