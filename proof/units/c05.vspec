//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include poly.rs
//@ include map.rs
//@ include entries.rs
//@ include mapprod.rs
//@ include uint.rs
//@ consts cairo/air.rs
//@ consts cairo/execution_trace.rs
//@ config
{"rename": {"HashMap": "VxMap"}}
//@ item cairo/register_states.rs RegistersState
//@ item cairo/register_states.rs RegisterStates
//@ item cairo/cairo_mem.rs CairoMemory
//@ item cairo/decode/instruction_flags.rs DstReg eq
//@ item cairo/decode/instruction_flags.rs Op0Reg eq
//@ item cairo/decode/instruction_flags.rs Op1Src eq
//@ item cairo/decode/instruction_flags.rs ResLogic eq
//@ item cairo/decode/instruction_flags.rs PcUpdate eq
//@ item cairo/decode/instruction_flags.rs ApUpdate eq
//@ item cairo/decode/instruction_flags.rs CairoOpcode eq
//@ item cairo/decode/instruction_flags.rs CairoInstructionFlags
//@ item cairo/decode/instruction_offsets.rs InstructionOffsets
//@ item cairo/air.rs MemorySegment
//@ raw
impl VxKey for MemorySegment { open spec fn k(&self) -> int { match *self { MemorySegment::RangeCheck => 0, MemorySegment::Output => 1 } } }
pub type MemorySegmentMap = VxMap<MemorySegment, std::ops::Range<u64>>;
use std::ops::Range;
//@ item cairo/air.rs PublicInputs
//@ item starks/proof/options.rs ProofOptions
//@ item starks/context.rs AirContext
//@ item cairo/air.rs CairoAIR
//@ item cairo/air.rs CairoRAPChallenges noclone
//@ item starks/trace.rs TraceTable
//@ item starks/frame.rs Frame noclone
//@ include field.rs
//@ include decode.rs
//@ include decode_lemmas.rs
//@ include step.rs
//@ include table.rs
//@ include record.rs
//@ include rc.rs
//@ include cairopoly.rs
//@ include hstep.rs
//@ include mainr.rs
//@ include mainspec.rs
//@ include auxt.rs
//@ include auxp.rs
//@ include hmem.rs
//@ include hrc.rs
//@ include pubin.rs
//@ include limbs.rs
//@ include hfin.rs
//@ item starks/constraints/boundary.rs BoundaryConstraint
//@ item starks/constraints/boundary.rs BoundaryConstraints
//@ include pins.rs
//@ include hcairo.rs
//@ use c06m build_main_trace
//@ use c08 TraceTable::n_rows
//@ use c06b AIR for CairoAIR::build_auxiliary_trace
//@ use c04 AIR for CairoAIR::new
//@ use c04 AIR for CairoAIR::compute_transition
//@ use c09b AIR for CairoAIR::boundary_constraints
//@ raw
/// No table this run can have makes a factor of the products zero, and all of them fit in memory.
pub open spec fn challenges_fit(rows: Seq<RegistersState>, m: Map<int, FE>, p0: PublicInputs, rap: CairoRAPChallenges) -> bool { forall|main: TraceTable, p: PublicInputs, lo: u16, hi: u16| #[trigger] main_built(main, m, rows, p0, p, lo, hi) ==> nonzero_factors(main, &p, rap) && main.nr() <= 0x0100_0000_0000_0000 }
/// The contracts of the prover's trace builders, of CairoAIR's constructor, transition constraints and boundary constraints, put together: on the tables built for a run
/// the transition constraints evaluate to 0 in the frame of every row they apply to, and every boundary constraint names a cell with its value.
pub fn vx_run(register_states: &RegisterStates, memory: &CairoMemory, public_input: &mut PublicInputs, options: &ProofOptions, rap: &CairoRAPChallenges, frame: &Frame, size: Ghost<int>) -> (ret: (TraceTable, TraceTable, CairoAIR, Vec<FE>, BoundaryConstraints))
    requires cairo_run(register_states.rows@, memory.data@, *old(public_input), size@), challenges_fit(register_states.rows@, memory.data@, *old(public_input), *rap), frame.wf(2, if rc_range(*old(public_input)) is Some { 61 } else { 52 })
    ensures ({ let (main, t, air, c, b) = ret;
        &&& c@.len() == air.context.num_transition_constraints && c@.len() == air.context.transition_exemptions@.len()
        &&& forall|r: int, i: int| #[trigger] shows_rows(frame, main, t, r) && 0 <= i < c@.len() && 0 <= r < air.trace_length - air.context.transition_exemptions@[i] ==> congr((#[trigger] c@[i])@, 0)
        &&& forall|j: int| 0 <= j < b.constraints@.len() ==> pin_holds(main, t, #[trigger] b.constraints@[j]) })
{
    let ghost (m, rows, p0) = (memory.data@, register_states.rows@, *public_input);
    let main = build_main_trace(register_states, memory, public_input);
    let n = main.n_rows();
    let ghost p = *public_input;
    let ghost (lo, hi) = (p.range_check_min->Some_0, p.range_check_max->Some_0);
    proof { assert(main_built(main, m, rows, p0, p, lo, hi)); assert(nonzero_factors(main, &p, *rap)); lemma_tables_fit(main, m, rows, p0, p, size@, lo, hi); }
    let air = CairoAIR::new(n, public_input, options);
    let t = air.build_auxiliary_trace(&main, rap);
    proof { theorem_complete(&air, main, t, m, rows, p0, p, size@, *rap, lo, hi); lemma_product_nonzero(main, t, m, rows, p, size@, *rap); }
    let c = air.compute_transition(frame, rap);
    let b = air.boundary_constraints(rap);
    proof {
        assert forall|r: int, i: int| #[trigger] shows_rows(frame, main, t, r) && 0 <= i < c@.len() && 0 <= r < air.trace_length - air.context.transition_exemptions@[i] implies congr((#[trigger] c@[i])@, 0) by { assert(holds_on(*frame, main, t, p, *rap, r, i)); }
        assert forall|j: int| 0 <= j < b.constraints@.len() implies pin_holds(main, t, #[trigger] b.constraints@[j]) by { assert(cairo_pin(&air, *rap, b.constraints@[j])); }
    }
    (main, t, air, c, b)
}
