//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include poly.rs
//@ include map.rs
//@ include entries.rs
//@ include mapprod.rs
//@ include uint.rs
//@ consts cairo/air.rs
//@ config
{"rename": {"HashMap": "VxMap"}}
//@ item cairo/air.rs MemorySegment
//@ raw
impl VxKey for MemorySegment { open spec fn k(&self) -> int { match *self { MemorySegment::RangeCheck => 0, MemorySegment::Output => 1 } } }
pub type MemorySegmentMap = VxMap<MemorySegment, std::ops::Range<u64>>;
use std::ops::Range;
//@ item cairo/air.rs PublicInputs
//@ item starks/proof/options.rs ProofOptions
//@ item starks/context.rs AirContext
//@ item cairo/air.rs CairoAIR
//@ item cairo/air.rs CairoRAPChallenges noclone
//@ item starks/trace.rs TraceTable
//@ include table.rs
//@ include auxt.rs
//@ include rc.rs
//@ include field.rs
//@ include auxp.rs
