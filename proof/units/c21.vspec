//@ include fe.rs
//@ include num.rs
//@ include map.rs
//@ config
{"rename": {"HashMap": "VxMap"}}
//@ item cairo/register_states.rs RegistersState
//@ item cairo/register_states.rs RegisterStates
//@ item cairo/cairo_mem.rs CairoMemory
//@ item cairo/air.rs MemorySegment
//@ raw
impl VxKey for MemorySegment { open spec fn k(&self) -> int { match *self { MemorySegment::RangeCheck => 0, MemorySegment::Output => 1 } } }
pub type MemorySegmentMap = VxMap<MemorySegment, std::ops::Range<u64>>;
use std::ops::Range;
//@ item cairo/air.rs PublicInputs
//@ include pubin.rs
//@ raw
/// Part of the public memory: the program's first n cells and the output's cells below b.
pub open spec fn part(v: Map<int, FE>, m: Map<int, FE>, n: int, out: Option<Range<u64>>, b: int) -> bool {
    &&& forall|a: int| #[trigger] v.dom().contains(a) == (1 <= a <= n || within(out, a) && a < b)
    &&& forall|a: int| 1 <= a <= n || within(out, a) && a < b ==> #[trigger] v[a] == m[a]
}
//@ use c02 CairoMemory::get
//@ use c03 RegisterStates::steps
//@ fn cairo/air.rs PublicInputs::from_regs_and_mem {"ranges": ["output_range"]}
requires derivable(register_states.rows@, memory.data@, program_size as int, memory_segments@),
ensures states(ret, register_states.rows@, memory.data@, program_size as int, *memory_segments), ret.range_check_min is None, ret.range_check_max is None,
//@ loop 0
invariant 1 <= vi_0, vi_0 <= vn_0 + 1, vn_0 == program_size, program_size < u64::MAX, derivable(register_states.rows@, memory.data@, program_size as int, memory_segments@),
    part(vo_0@, memory.data@, vi_0 - 1, None, 0),
decreases vn_0 + 1 - vi_0
//@ loopstart 0
proof { broadcast use axiom_P; vstd::arithmetic::div_mod::lemma_small_mod(vi_0 as nat, P() as nat); assert(public_addr(program_size as int, out_of(memory_segments@), vi_0 as int)); assert(memory.data@.dom().contains(vi_0 as int)); }
//@ loop 1
invariant out_of(memory_segments@) == Some(*output_range), vn_1 == output_range.end, vi_1 >= output_range.start, derivable(register_states.rows@, memory.data@, program_size as int, memory_segments@),
    part(public_memory@, memory.data@, program_size as int, Some(*output_range), vi_1 as int),
decreases vn_1 - vi_1
//@ loopstart 1
proof { broadcast use axiom_P; vstd::arithmetic::div_mod::lemma_small_mod(vi_1 as nat, P() as nat); assert(public_addr(program_size as int, out_of(memory_segments@), vi_1 as int)); assert(memory.data@.dom().contains(vi_1 as int)); }
