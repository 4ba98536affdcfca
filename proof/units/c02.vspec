//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include map.rs
//@ config
{"rename": {"HashMap": "VxMap"}, "methods": {"try_into": "fn vx_try_into"}, "paths": {"u64::from_le_bytes": "vx_u64_from_le", "u64::from_be_bytes": "vx_u64_from_be"}}
//@ raw
pub enum CairoImportError { IncorrectNumberOfBytes, FileError }
//@ item cairo/register_states.rs RegistersState
//@ item cairo/register_states.rs RegisterStates
//@ item cairo/cairo_mem.rs CairoMemory
//@ include recs.rs
//@ fn cairo/register_states.rs RegisterStates::from_bytes_le {"types": {"vo_0": "Vec<RegistersState>"}}
ensures
    ret.is_ok() == (bytes@.len() % 24 == 0),
    ret.is_ok() ==> ret->Ok_0.rows@.len() == bytes@.len() / 24
        && forall|i: int| 0 <= i < ret->Ok_0.rows@.len() ==> {
            &&& (#[trigger] ret->Ok_0.rows@[i]).ap == le(rec(bytes@, i, 24).subrange(0, 8))
            &&& ret->Ok_0.rows@[i].fp == le(rec(bytes@, i, 24).subrange(8, 16))
            &&& ret->Ok_0.rows@[i].pc == le(rec(bytes@, i, 24).subrange(16, 24)) },
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == bytes@.len() / 24, bytes@.len() % 24 == 0, vo_0@.len() == vi_0,
    forall|i: int| 0 <= i < vi_0 ==> {
            &&& (#[trigger] vo_0@[i]).ap == le(rec(bytes@, i, 24).subrange(0, 8))
            &&& vo_0@[i].fp == le(rec(bytes@, i, 24).subrange(8, 16))
            &&& vo_0@[i].pc == le(rec(bytes@, i, 24).subrange(16, 24)) },
decreases vn_0 - vi_0
//@ loopstart 0
proof {
    let i = vi_0 as int;
    assert(rec(bytes@, i, 24).subrange(0, 8) =~= bytes@.subrange(i * 24, i * 24 + 8));
    assert(rec(bytes@, i, 24).subrange(8, 16) =~= bytes@.subrange(i * 24 + 8, i * 24 + 16));
    assert(rec(bytes@, i, 24).subrange(16, 24) =~= bytes@.subrange(i * 24 + 16, i * 24 + 24));
}
//@ fn cairo/cairo_mem.rs CairoMemory::new
ensures ret.data == data,
//@ fn cairo/cairo_mem.rs CairoMemory::get
ensures ret.is_some() == self.data@.dom().contains(*addr as int), ret.is_some() ==> *ret.unwrap() == self.data@[*addr as int],
//@ fn cairo/cairo_mem.rs CairoMemory::from_bytes_le {"types": {"data": "VxMap<u64, FE>"}}
ensures
    ret.is_ok() == (bytes@.len() % 40 == 0),
    ret.is_ok() ==> forall|a: int| #![trigger ret->Ok_0.data@.dom().contains(a)] {
        let r = last_rec(bytes@, bytes@.len() as int / 40, a);
        &&& ret->Ok_0.data@.dom().contains(a) == (r >= 0)
        &&& r >= 0 ==> congr(ret->Ok_0.data@[a]@, le(rec(bytes@, r, 40).subrange(8, 40))) },
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == bytes@.len() / 40, bytes@.len() % 40 == 0,
    forall|a: int| #![trigger data@.dom().contains(a)] {
        let r = last_rec(bytes@, vi_0 as int, a);
        &&& data@.dom().contains(a) == (r >= 0)
        &&& r >= 0 ==> congr(data@[a]@, le(rec(bytes@, r, 40).subrange(8, 40))) },
decreases vn_0 - vi_0
//@ loopstart 0
proof {
    let i = vi_0 as int;
    assert(rec(bytes@, i, 40).subrange(0, 8) =~= bytes@.subrange(i * 40, i * 40 + 8));
    assert(rec(bytes@, i, 40).subrange(8, 40) =~= bytes@.subrange(i * 40 + 8, i * 40 + 40));
    assert(bytes@.subrange(i * 40 + 8, i * 40 + 40).subrange(0, 32) =~= bytes@.subrange(i * 40 + 8, i * 40 + 40));
}
