// ---- shared: the polynomials of a Cairo row ----------------------------------------------------------
impl Frame {
    pub open spec fn wf(&self, rows: int, cols: int) -> bool {
        self.row_width >= cols && self.data@.len() == rows * self.row_width && rows >= 0
    }
    /// Cell of a row, as an integer lift.
    pub open spec fn at(&self, r: int, c: int) -> int { self.data@[r * self.row_width + c]@ }
}
pub open spec fn row0(f: &Frame) -> Seq<FE> { f.data@.subrange(0, f.row_width as int) }
/// A row of the frame, by column.
pub open spec fn cur(f: &Frame, c: int) -> int { f.at(0, c) }
pub open spec fn nxt(f: &Frame, c: int) -> int { f.at(1, c) }

/// sum_{j >= k} 2^(j-k) f_j over the 15 flags
pub open spec fn flags_from(f: &Frame, k: int) -> int decreases 15 - k { if k >= 15 { 0 } else { cur(f, k) + 2 * flags_from(f, k + 1) } }
/// Next value of a sum of the two operand-address bases: flag*a + (1-flag)*b
pub open spec fn pick(flag: int, a: int, b: int) -> int { flag * a + (1 - flag) * b }
/// Size of the instruction: two words when the second operand is an immediate.
pub open spec fn isize_(f: &Frame) -> int { cur(f, 2) + 1 }
/// Sorted-address increment and value consistency between two neighbours (a, v), (a2, v2).
pub open spec fn climbs(a: int, a2: int) -> int { (a - a2) * (a2 - a - 1) }
pub open spec fn consistent(a: int, v: int, a2: int, v2: int) -> int { (v - v2) * (a2 - a - 1) }
/// Auxiliary column c (46 + c in the full layout), nine columns earlier without the range-check builtin.
pub open spec fn aux(f: &Frame, off: int, c: int) -> int { cur(f, c - off) }
pub open spec fn auxn(f: &Frame, off: int, c: int) -> int { nxt(f, c - off) }
/// One step of the memory product: (z - (a' + alpha v')) p' = (z - (a + alpha v)) p
pub open spec fn mem_step(z: int, alpha: int, pa: int, pv: int, p: int, a: int, v: int, q: int) -> int {
    (z - (pa + alpha * pv)) * p - (z - (a + alpha * v)) * q
}
pub open spec fn rc_step(z: int, pa: int, p: int, a: int, q: int) -> int { (z - pa) * p - (z - a) * q }
/// The eight limbs of the range-check builtin value, least significant first.
pub open spec fn limbs(c: Seq<FE>) -> int {
    c[34]@ + c[35]@ * 0x1_0000 + c[36]@ * 0x1_0000_0000 + c[37]@ * 0x1_0000_0000_0000 + c[38]@ * 0x1_0000_0000_0000_0000
        + c[39]@ * 0x1_0000_0000_0000_0000_0000 + c[40]@ * 0x1_0000_0000_0000_0000_0000_0000 + c[41]@ * 0x1_0000_0000_0000_0000_0000_0000_0000
}
/// The forty-nine polynomials of a Cairo row (fifty with the range-check builtin), position by position.
/// `off` is 0 with the builtin's columns present and 9 without.
pub open spec fn poly(f: &Frame, ch: &CairoRAPChallenges, off: int, i: int) -> int {
    if 0 <= i < 15 { cur(f, i) * (cur(f, i) - 1) }
    else if i == 15 { cur(f, 15) }
    else if 16 <= i < 31 { step_poly(f, i) * cur(f, 33) }
    else if 31 <= i < 34 { climbs(aux(f, off, 46 + (i - 31)), aux(f, off, 47 + (i - 31))) }
    else if i == 34 { climbs(aux(f, off, 49), auxn(f, off, 46)) }
    else if 35 <= i < 38 { consistent(aux(f, off, 46 + (i - 35)), aux(f, off, 50 + (i - 35)), aux(f, off, 47 + (i - 35)), aux(f, off, 51 + (i - 35))) }
    else if i == 38 { consistent(aux(f, off, 49), aux(f, off, 53), auxn(f, off, 46), auxn(f, off, 50)) }
    else if 39 <= i < 42 { mem_step(ch.z_memory@, ch.alpha_memory@, aux(f, off, 47 + (i - 39)), aux(f, off, 51 + (i - 39)), aux(f, off, 55 + (i - 39)), cur(f, 20 + (i - 39)), cur(f, 24 + (i - 39)), aux(f, off, 54 + (i - 39))) }
    else if i == 42 { mem_step(ch.z_memory@, ch.alpha_memory@, auxn(f, off, 46), auxn(f, off, 50), auxn(f, off, 54), nxt(f, 19), nxt(f, 23), aux(f, off, 57)) }
    else if 43 <= i < 45 { climbs(aux(f, off, 43 + (i - 43)), aux(f, off, 44 + (i - 43))) }
    else if i == 45 { climbs(aux(f, off, 45), auxn(f, off, 43)) }
    else if 46 <= i < 48 { rc_step(ch.z_range_check@, aux(f, off, 44 + (i - 46)), aux(f, off, 59 + (i - 46)), cur(f, 28 + (i - 46)), aux(f, off, 58 + (i - 46))) }
    else if i == 48 { rc_step(ch.z_range_check@, auxn(f, off, 43), auxn(f, off, 58), nxt(f, 27), aux(f, off, 60)) }
    else if i == 49 { limbs(row0(f)) - cur(f, 42) }
    else { 0 }
}
/// The fifteen equations of a step (before the selector).
pub open spec fn step_poly(f: &Frame, i: int) -> int {
    if i == 16 { cur(f, 27) + 0x1_0000 * cur(f, 28) + 0x1_0000_0000 * cur(f, 29) + 0x1_0000_0000_0000 * flags_from(f, 0) - cur(f, 23) }
    else if i == 17 { pick(cur(f, 0), cur(f, 18), cur(f, 17)) + (cur(f, 27) - 0x8000) - cur(f, 20) }
    else if i == 18 { pick(cur(f, 1), cur(f, 18), cur(f, 17)) + (cur(f, 28) - 0x8000) - cur(f, 21) }
    else if i == 19 { cur(f, 2) * cur(f, 19) + cur(f, 4) * cur(f, 17) + cur(f, 3) * cur(f, 18) + (1 - cur(f, 2) - cur(f, 4) - cur(f, 3)) * cur(f, 25) + (cur(f, 29) - 0x8000) - cur(f, 22) }
    else if i == 20 { cur(f, 17) + cur(f, 10) * cur(f, 16) + cur(f, 11) + cur(f, 12) * 2 - nxt(f, 17) }
    else if i == 21 { cur(f, 13) * cur(f, 24) + cur(f, 12) * (cur(f, 17) + 2) + (1 - cur(f, 13) - cur(f, 12)) * cur(f, 18) - nxt(f, 18) }
    else if i == 22 { (cur(f, 31) - cur(f, 9)) * (nxt(f, 19) - (cur(f, 19) + isize_(f))) }
    else if i == 23 { cur(f, 30) * (nxt(f, 19) - (cur(f, 19) + cur(f, 26))) + (1 - cur(f, 9)) * nxt(f, 19)
        - ((1 - cur(f, 7) - cur(f, 8) - cur(f, 9)) * (cur(f, 19) + isize_(f)) + cur(f, 7) * cur(f, 16) + cur(f, 8) * (cur(f, 19) + cur(f, 16))) }
    else if i == 24 { cur(f, 9) * cur(f, 24) - cur(f, 30) }
    else if i == 25 { cur(f, 30) * cur(f, 16) - cur(f, 31) }
    else if i == 26 { cur(f, 32) - cur(f, 25) * cur(f, 26) }
    else if i == 27 { cur(f, 5) * (cur(f, 25) + cur(f, 26)) + cur(f, 6) * cur(f, 32) + (1 - cur(f, 5) - cur(f, 6) - cur(f, 9)) * cur(f, 26) - (1 - cur(f, 9)) * cur(f, 16) }
    else if i == 28 { cur(f, 12) * (cur(f, 24) - cur(f, 18)) }
    else if i == 29 { cur(f, 12) * (cur(f, 25) - (cur(f, 19) + isize_(f))) }
    else if i == 30 { cur(f, 14) * (cur(f, 24) - cur(f, 16)) }
    else { 0 }
}
/// Last row exempt: the equations that read the next row, and only those, may skip the last row.
pub open spec fn reads_next(i: int) -> bool { 20 <= i <= 23 || i == 34 || i == 38 || i == 42 || i == 45 || i == 48 }
/// Degree in the trace columns.
pub open spec fn degree(i: int) -> int { if i == 15 || i == 49 { 1 } else if 16 <= i < 31 { 3 } else { 2 } }
