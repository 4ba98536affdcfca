//@ include fe.rs
//@ include num.rs
//@ include map.rs
//@ include uint.rs
//@ consts cairo/air.rs
//@ consts cairo/execution_trace.rs
//@ config
{"rename": {"HashMap": "VxMap"}}
//@ item cairo/decode/instruction_flags.rs DstReg eq
//@ item cairo/decode/instruction_flags.rs Op0Reg eq
//@ item cairo/decode/instruction_flags.rs Op1Src eq
//@ item cairo/decode/instruction_flags.rs ResLogic eq
//@ item cairo/decode/instruction_flags.rs PcUpdate eq
//@ item cairo/decode/instruction_flags.rs ApUpdate eq
//@ item cairo/decode/instruction_flags.rs CairoOpcode eq
//@ item cairo/decode/instruction_flags.rs CairoInstructionFlags
//@ item cairo/decode/instruction_offsets.rs InstructionOffsets
//@ item cairo/register_states.rs RegistersState
//@ item cairo/register_states.rs RegisterStates
//@ item cairo/cairo_mem.rs CairoMemory
//@ item cairo/air.rs MemorySegment
//@ item starks/trace.rs TraceTable
//@ raw
impl VxKey for MemorySegment { open spec fn k(&self) -> int { match *self { MemorySegment::RangeCheck => 0, MemorySegment::Output => 1 } } }
pub type MemorySegmentMap = VxMap<MemorySegment, std::ops::Range<u64>>;
use std::ops::Range;
//@ item cairo/air.rs PublicInputs
//@ include decode.rs
//@ include step.rs
//@ include table.rs
//@ include record.rs
//@ include rc.rs
//@ include mainr.rs
//@ include mainspec.rs
//@ include pubin.rs
//@ item cairo/cairo_layout.rs CairoLayout
//@ item cairo/runner/run.rs CairoVersion
//@ raw
#[verifier::external_body]
pub struct Error { x: u8 }
pub assume_specification<I: Clone>[ <Range<I> as Clone>::clone ](r: &Range<I>) -> (o: Range<I>) ensures cloned(r.start, o.start), cloned(r.end, o.end);
/// What the virtual machine makes of a program: registers, memory, program size, range-check segment.
pub uninterp spec fn run_of(program: Seq<u8>, layout: CairoLayout, version: CairoVersion) -> (Seq<RegistersState>, Map<int, FE>, int, Option<Range<u64>>);
#[verifier::external_body]
pub fn run_program(entrypoint: Option<&str>, layout: CairoLayout, content: &[u8], version: &CairoVersion) -> (r: Result<(RegisterStates, CairoMemory, usize, Option<Range<u64>>), Error>)
    ensures entrypoint is None && r.is_ok() ==> (r->Ok_0.0.rows@, r->Ok_0.1.data@, r->Ok_0.2 as int, r->Ok_0.3) == run_of(content@, layout, *version) { unimplemented!() }
pub open spec fn segments_of(rc: Option<Range<u64>>, out: Option<Range<u64>>, s: Map<int, Range<u64>>) -> bool {
    (forall|k: int| #[trigger] s.dom().contains(k) == (k == 0 && rc is Some || k == 1 && out is Some)) && (rc is Some ==> s[0] == rc->Some_0) && (out is Some ==> s[1] == out->Some_0)
}
pub open spec fn layout_of(v: CairoVersion) -> CairoLayout { match v { CairoVersion::V0 => CairoLayout::Small, CairoVersion::V1 => CairoLayout::Plain } }
/// The run is one the trace can be built from, whatever public inputs state it.
pub open spec fn provable(program: Seq<u8>, v: CairoVersion, out: Option<Range<u64>>) -> bool {
    let (rows, m, size, rc) = run_of(program, layout_of(v), v);
    &&& forall|s: Map<int, Range<u64>>| segments_of(rc, out, s) ==> #[trigger] derivable(rows, m, size, s)
    &&& forall|p: PublicInputs, s: MemorySegmentMap| segments_of(rc, out, s@) && #[trigger] states(p, rows, m, size, s) ==> run_ok(rows, m, p)
}
/// The trace and the public inputs of the program's run.
pub open spec fn proves(t: TraceTable, p: PublicInputs, program: Seq<u8>, v: CairoVersion, out: Option<Range<u64>>) -> bool {
    let (rows, m, size, rc) = run_of(program, layout_of(v), v);
    &&& segments_of(rc, out, p.memory_segments@) && states(p, rows, m, size, p.memory_segments)
    &&& t.wf() && is_pow2(t.nr()) && all_recorded(t, m, rows) && t.n_cols == (if rc is Some { 43int } else { 34 })
    &&& rc is Some ==> limb_rows(t, m, rc.unwrap(), rows.len() as int)
    &&& p.range_check_min is Some && p.range_check_max is Some && continuous(t, p.range_check_min->Some_0 as int, p.range_check_max->Some_0 as int)
}
//@ use c06m build_main_trace
//@ use c21 PublicInputs::from_regs_and_mem
//@ fn cairo/runner/run.rs create_memory_segment_map
ensures segments_of(range_check_builtin_range, *output_range, ret@),
//@ fn cairo/runner/run.rs generate_prover_args
requires provable(program_content@, *cairo_version, *output_range),
ensures ret.is_ok() ==> proves(ret->Ok_0.0, ret->Ok_0.1, program_content@, *cairo_version, *output_range),
//@ let memory_segments
proof {
    let run = run_of(program_content@, layout_of(*cairo_version), *cairo_version);
    assert(cairo_layout == layout_of(*cairo_version));
    assert(register_states.rows@ == run.0 && memory.data@ == run.1 && program_size == run.2);
    assert(range_check_builtin_range == run.3);
    assert(segments_of(run.3, *output_range, memory_segments@));
    assert(derivable(run.0, run.1, run.2, memory_segments@));
}
