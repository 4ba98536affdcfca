//! Reference Cairo machine (whitepaper section 4.5) and a generator of valid executions.
use crate::{fhex, Rng, FE};
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::cairo::air::{MemorySegment, MemorySegmentMap, PublicInputs};
use lambdaworks_stark::cairo::cairo_mem::CairoMemory;
use lambdaworks_stark::cairo::register_states::{RegisterStates, RegistersState};
use std::collections::{BTreeMap, HashMap};
use std::ops::Range;

/// Column numbers of the documented layout (kept independent of the code's constants).
pub mod col {
    pub const RES: usize = 16;
    pub const AP: usize = 17;
    pub const FP: usize = 18;
    pub const PC: usize = 19;
    pub const DST_ADDR: usize = 20;
    pub const OP0_ADDR: usize = 21;
    pub const OP1_ADDR: usize = 22;
    pub const INST: usize = 23;
    pub const DST: usize = 24;
    pub const OP0: usize = 25;
    pub const OP1: usize = 26;
    pub const OFF_DST: usize = 27;
    pub const OFF_OP0: usize = 28;
    pub const OFF_OP1: usize = 29;
    pub const T0: usize = 30;
    pub const T1: usize = 31;
    pub const MUL: usize = 32;
    pub const SEL: usize = 33;
}

pub fn u64_of(x: &FE) -> Option<u64> {
    let b = x.to_bytes_be();
    if b[..24].iter().any(|v| *v != 0) {
        return None;
    }
    Some(u64::from_be_bytes(b[24..32].try_into().unwrap()))
}
pub fn low64(x: &FE) -> u64 {
    let b = x.to_bytes_be();
    u64::from_be_bytes(b[24..32].try_into().unwrap())
}
/// reg + off when both are small
pub fn fe_i(x: i64) -> FE {
    if x < 0 {
        FE::zero() - FE::from(x.unsigned_abs())
    } else {
        FE::from(x as u64)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Instr {
    pub off: [i64; 3],
    pub dst_fp: bool,
    pub op0_fp: bool,
    pub op1: u8,    // 0 op0, 1 imm, 2 fp, 4 ap
    pub res: u8,    // 0 op1, 1 add, 2 mul
    pub pc: u8,     // 0 regular, 1 abs, 2 rel, 4 jnz
    pub ap: u8,     // 0 regular, 1 add, 2 add1
    pub opcode: u8, // 0 nop, 1 call, 2 ret, 4 assert
}
impl Instr {
    pub fn flags(&self) -> u64 {
        self.dst_fp as u64
            | (self.op0_fp as u64) << 1
            | (self.op1 as u64) << 2
            | (self.res as u64) << 5
            | (self.pc as u64) << 7
            | (self.ap as u64) << 10
            | (self.opcode as u64) << 12
    }
    pub fn encode(&self) -> u64 {
        let b = |i: usize| (self.off[i] + 0x8000) as u64;
        b(0) | b(1) << 16 | b(2) << 32 | self.flags() << 48
    }
    /// None when a field has a value the encoding does not define.
    pub fn decode(w: u64) -> Option<Instr> {
        let o = |s: u32| ((w >> s) & 0xffff) as i64 - 0x8000;
        let f = w >> 48;
        let i = Instr {
            off: [o(0), o(16), o(32)],
            dst_fp: f & 1 == 1,
            op0_fp: f >> 1 & 1 == 1,
            op1: (f >> 2 & 7) as u8,
            res: (f >> 5 & 3) as u8,
            pc: (f >> 7 & 7) as u8,
            ap: (f >> 10 & 3) as u8,
            opcode: (f >> 12 & 7) as u8,
        };
        let one_hot3 = |x: u8| x == 0 || x == 1 || x == 2 || x == 4;
        if one_hot3(i.op1) && i.res < 3 && one_hot3(i.pc) && i.ap < 3 && one_hot3(i.opcode) {
            Some(i)
        } else {
            None
        }
    }
    pub fn size(&self) -> u64 {
        if self.op1 == 1 {
            2
        } else {
            1
        }
    }
    /// Combinations the machine leaves undefined.
    pub fn undefined(&self) -> bool {
        (self.pc == 4 && (self.res != 0 || self.opcode != 0 || self.ap == 1)) || (self.opcode == 1 && self.ap != 0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Regs {
    pub pc: u64,
    pub ap: u64,
    pub fp: u64,
}

/// Everything one step touches.
#[derive(Clone, Debug)]
pub struct Step {
    pub regs: Regs,
    pub ins: Instr,
    pub word: FE,
    pub dst_addr: u64,
    pub op0_addr: u64,
    pub op1_addr: u64,
    pub dst: FE,
    pub op0: FE,
    pub op1: FE,
    /// None for jnz (the machine leaves res unused).
    pub res: Option<FE>,
    pub next: (FE, FE, FE), // pc, ap, fp
}

fn add(base: u64, off: i64) -> Option<u64> {
    base.checked_add_signed(off)
}

/// One step of the machine on `regs`; None if it is not a valid step.
pub fn step(regs: Regs, mem: &dyn Fn(u64) -> Option<FE>) -> Option<Step> {
    let word = mem(regs.pc)?;
    let w = u64_of(&word)?;
    if w >> 63 != 0 {
        return None;
    }
    let i = Instr::decode(w)?;
    if i.undefined() {
        return None;
    }
    let dst_addr = add(if i.dst_fp { regs.fp } else { regs.ap }, i.off[0])?;
    let op0_addr = add(if i.op0_fp { regs.fp } else { regs.ap }, i.off[1])?;
    let dst = mem(dst_addr)?;
    let op0 = mem(op0_addr)?;
    let base = match i.op1 {
        0 => u64_of(&op0)?,
        1 => regs.pc,
        2 => regs.fp,
        _ => regs.ap,
    };
    let op1_addr = add(base, i.off[2])?;
    let op1 = mem(op1_addr)?;
    let res = if i.pc == 4 {
        None
    } else {
        Some(match i.res {
            0 => op1,
            1 => op0 + op1,
            _ => op0 * op1,
        })
    };
    let size = FE::from(i.size());
    let (fpc, fap, ffp) = (FE::from(regs.pc), FE::from(regs.ap), FE::from(regs.fp));
    let pc = match i.pc {
        0 => fpc + size,
        1 => res?,
        2 => fpc + res?,
        _ => {
            if dst == FE::zero() {
                fpc + size
            } else {
                fpc + op1
            }
        }
    };
    let mut ap = match i.ap {
        0 => fap,
        1 => fap + res?,
        _ => fap + FE::one(),
    };
    let mut fp = ffp;
    match i.opcode {
        1 => {
            if op0 != fpc + size || dst != ffp {
                return None;
            }
            ap = fap + FE::from(2);
            fp = fap + FE::from(2);
        }
        2 => fp = dst,
        4 => {
            if res? != dst {
                return None;
            }
        }
        _ => {}
    }
    Some(Step { regs, ins: i, word, dst_addr, op0_addr, op1_addr, dst, op0, op1, res, next: (pc, ap, fp) })
}

/// The 34 main-trace cells of a step.
pub fn row(s: &Step, last: bool) -> Vec<FE> {
    let f = s.ins.flags();
    let mut r: Vec<FE> = (0..16).map(|i| FE::from(if i < 15 { f >> i & 1 } else { 0 })).collect();
    let res = s.res.unwrap_or_else(|| if s.dst == FE::zero() { FE::zero() } else { s.dst.inv() });
    let t0 = if s.ins.pc == 4 { s.dst } else { FE::zero() };
    r.extend([
        res,
        FE::from(s.regs.ap),
        FE::from(s.regs.fp),
        FE::from(s.regs.pc),
        FE::from(s.dst_addr),
        FE::from(s.op0_addr),
        FE::from(s.op1_addr),
        s.word,
        s.dst,
        s.op0,
        s.op1,
        FE::from((s.ins.off[0] + 0x8000) as u64),
        FE::from((s.ins.off[1] + 0x8000) as u64),
        FE::from((s.ins.off[2] + 0x8000) as u64),
        t0,
        t0 * res,
        s.op0 * s.op1,
        FE::from(if last { 0 } else { 1 }),
    ]);
    r
}

#[derive(Clone, Debug)]
pub struct Exec {
    pub rows: Vec<Regs>,
    pub mem: BTreeMap<u64, FE>,
    pub program: u64,
    pub rc: Option<Range<u64>>,
    pub out: Option<Range<u64>>,
}

impl Exec {
    pub fn memory(&self) -> CairoMemory {
        CairoMemory::new(self.mem.iter().map(|(a, v)| (*a, *v)).collect::<HashMap<u64, FE>>())
    }
    pub fn states(&self) -> RegisterStates {
        RegisterStates { rows: self.rows.iter().map(|r| RegistersState { pc: r.pc, fp: r.fp, ap: r.ap }).collect() }
    }
    pub fn segments(&self) -> MemorySegmentMap {
        let mut m = MemorySegmentMap::new();
        if let Some(r) = &self.rc {
            m.insert(MemorySegment::RangeCheck, r.clone());
        }
        if let Some(r) = &self.out {
            m.insert(MemorySegment::Output, r.clone());
        }
        m
    }
    pub fn steps(&self) -> Vec<Step> {
        self.rows.iter().map(|r| step(*r, &|a| self.mem.get(&a).copied()).expect("generated execution is valid")).collect()
    }
    pub fn public(&self) -> PublicInputs {
        PublicInputs::from_regs_and_mem(&self.states(), &self.memory(), self.program as usize, &self.segments())
    }
    pub fn describe(&self) -> String {
        format!(
            "program_size={} rc={:?} out={:?} rows(pc,ap,fp)={:?} memory={{{}}}",
            self.program,
            self.rc,
            self.out,
            self.rows.iter().map(|r| (r.pc, r.ap, r.fp)).collect::<Vec<_>>(),
            self.mem.iter().map(|(a, v)| format!("{a}:{}", fhex(v))).collect::<Vec<_>>().join(" ")
        )
    }
}

#[derive(Clone, Debug)]
pub struct Shape {
    pub program: u64,
    pub zone: u64,
    pub max_steps: usize,
    pub rc: bool,
    pub out: bool,
    pub wide_offsets: bool,
}
impl Shape {
    pub fn random(r: &mut Rng) -> Self {
        Shape {
            program: r.range(3, 40),
            zone: r.range(6, 60),
            max_steps: r.usize(2, 60),
            rc: r.chance(1, 3),
            out: r.chance(1, 3),
            wide_offsets: r.chance(1, 40),
        }
    }
}

struct Gen<'a> {
    r: &'a mut Rng,
    mem: BTreeMap<u64, FE>,
    p: u64,
    lo: u64,
    hi: u64, // exec zone [lo, hi)
}

impl<'a> Gen<'a> {
    fn value(&mut self) -> FE {
        match self.r.below(6) {
            0 => FE::zero(),
            1 => FE::from(self.r.range(self.lo, self.hi)),
            2 => FE::from(self.r.range(1, self.p + 1)),
            3 => fe_i(self.r.below(20) as i64 - 10),
            _ => self.r.fe(),
        }
    }
    fn in_zone(&self, x: &FE) -> Option<u64> {
        u64_of(x).filter(|v| *v >= self.lo && *v < self.hi)
    }
    fn in_program(&self, x: &FE) -> Option<u64> {
        u64_of(x).filter(|v| *v >= 1 && *v <= self.p)
    }
    fn addr_ok(&self, a: u64) -> bool {
        a >= 1 && a < self.hi
    }
    fn fields(&mut self) -> Instr {
        let opcode = *self.r.pick(&[0u8, 0, 0, 4, 4, 4, 1, 2]);
        let mut pc = *self.r.pick(&[0u8, 0, 0, 0, 1, 2, 4, 4]);
        if opcode == 2 && self.r.chance(3, 4) {
            pc = 1;
        }
        if opcode == 1 && self.r.chance(3, 4) {
            pc = 2;
        }
        let mut i = Instr {
            off: [0; 3],
            dst_fp: self.r.bool(),
            op0_fp: self.r.bool(),
            op1: *self.r.pick(&[0u8, 1, 2, 4]),
            res: self.r.below(3) as u8,
            pc,
            ap: *self.r.pick(&[0u8, 2, 2, 1]),
            opcode,
        };
        if pc == 4 {
            i.res = 0;
            i.opcode = 0;
            if i.ap == 1 {
                i.ap = 2;
            }
        }
        if i.opcode == 1 {
            i.ap = 0;
        }
        i
    }
    fn target(&mut self) -> u64 {
        match self.r.below(8) {
            0 => self.r.range(1, self.p + 1),
            _ => self.r.range(self.lo, self.hi),
        }
    }
    fn off(base: u64, target: u64) -> Option<i64> {
        let d = target as i64 - base as i64;
        if (-0x8000..0x8000).contains(&d) {
            Some(d)
        } else {
            None
        }
    }
    /// Tries to execute at `regs`, inventing the instruction if the cell is still free and
    /// any operand cell that is still free. Commits only when the step is valid.
    fn try_step(&mut self, regs: Regs, wide: bool) -> Option<(Step, Regs)> {
        let mut new: BTreeMap<u64, FE> = BTreeMap::new();
        macro_rules! get {
            ($a:expr) => {
                new.get(&$a).or_else(|| self.mem.get(&$a)).copied()
            };
        }
        let ins = match self.mem.get(&regs.pc) {
            Some(w) => Instr::decode(u64_of(w)?)?,
            None => {
                let mut i = self.fields();
                if regs.pc + i.size() - 1 > self.p {
                    return None;
                }
                let db = if i.dst_fp { regs.fp } else { regs.ap };
                let ob = if i.op0_fp { regs.fp } else { regs.ap };
                let (mut dt, mut ot) = (self.target(), self.target());
                if i.opcode == 1 && self.r.chance(4, 5) {
                    i.dst_fp = false;
                    i.op0_fp = false;
                    dt = regs.ap;
                    ot = regs.ap + 1;
                    i.off[0] = 0;
                    i.off[1] = 1;
                } else {
                    i.off[0] = Self::off(db, dt)?;
                    i.off[1] = Self::off(ob, ot)?;
                }
                if !self.addr_ok(dt) || !self.addr_ok(ot) || (i.op1 == 0 && ot == regs.pc) {
                    return None;
                }
                let base = match i.op1 {
                    0 => {
                        let v = match get!(ot) {
                            Some(v) => v,
                            None => {
                                let v = if i.opcode == 1 {
                                    FE::from(regs.pc + i.size())
                                } else if wide {
                                    FE::from(self.r.range(1, 3000))
                                } else {
                                    FE::from(self.target())
                                };
                                new.insert(ot, v);
                                v
                            }
                        };
                        u64_of(&v)?
                    }
                    1 => regs.pc,
                    2 => regs.fp,
                    _ => regs.ap,
                };
                let t1 = if i.op1 == 1 && self.r.chance(7, 8) { regs.pc + 1 } else { self.target() };
                if base > u32::MAX as u64 {
                    return None;
                }
                i.off[2] = Self::off(base, t1)?;
                new.insert(regs.pc, FE::from(i.encode()));
                i
            }
        };
        let da = add(if ins.dst_fp { regs.fp } else { regs.ap }, ins.off[0])?;
        let oa = add(if ins.op0_fp { regs.fp } else { regs.ap }, ins.off[1])?;
        if !self.addr_ok(da) || !self.addr_ok(oa) {
            return None;
        }
        if ins.opcode == 1 {
            if get!(da).is_none() {
                new.insert(da, FE::from(regs.fp));
            }
            if get!(oa).is_none() {
                new.insert(oa, FE::from(regs.pc + ins.size()));
            }
        }
        if ins.opcode == 2 && get!(da).is_none() {
            let v = FE::from(self.r.range(self.lo, self.hi));
            new.insert(da, v);
        }
        let needs_addr = ins.op1 == 0;
        if get!(oa).is_none() {
            let v = if needs_addr { FE::from(self.target()) } else { self.value() };
            new.insert(oa, v);
        }
        let op0 = get!(oa)?;
        let base = match ins.op1 {
            0 => u64_of(&op0)?,
            1 => regs.pc,
            2 => regs.fp,
            _ => regs.ap,
        };
        let a1 = add(base, ins.off[2])?;
        if !self.addr_ok(a1) {
            return None;
        }
        if get!(a1).is_none() {
            // Wanted value of res (or of op1 for a taken jnz).
            let want = if ins.pc == 1 {
                Some(FE::from(self.r.range(1, self.p + 1)))
            } else if ins.pc == 2 || ins.pc == 4 {
                Some(fe_i(self.r.range(1, self.p + 1) as i64 - regs.pc as i64))
            } else if ins.ap == 1 {
                Some(fe_i((regs.ap + self.r.below(6)) as i64 - regs.ap as i64 - if self.r.chance(1, 8) { 2 } else { 0 }))
            } else if ins.opcode == 4 {
                get!(da)
            } else {
                None
            };
            let v = match want {
                Some(t) => match ins.res {
                    0 => t,
                    1 => t - op0,
                    _ => {
                        if op0 == FE::zero() {
                            self.value()
                        } else {
                            t * op0.inv()
                        }
                    }
                },
                None => self.value(),
            };
            new.insert(a1, v);
        }
        let op1 = get!(a1)?;
        if get!(da).is_none() {
            let v = if ins.opcode == 4 {
                match ins.res {
                    0 => op1,
                    1 => op0 + op1,
                    _ => op0 * op1,
                }
            } else {
                self.value()
            };
            new.insert(da, v);
        }
        let st = step(regs, &|a| new.get(&a).or_else(|| self.mem.get(&a)).copied())?;
        let n = Regs { pc: self.in_program(&st.next.0)?, ap: self.in_zone(&st.next.1)?, fp: self.in_zone(&st.next.2)? };
        self.mem.extend(new);
        Some((st, n))
    }
}

/// A valid execution of a randomly chosen program.
pub fn gen(r: &mut Rng, s: &Shape) -> Exec {
    loop {
        let p = s.program;
        let lo = p + 1;
        let hi = lo + s.zone;
        let mut g = Gen { r: &mut *r, mem: BTreeMap::new(), p, lo, hi };
        let ap = lo + g.r.below(s.zone.min(6));
        let mut regs = Regs { pc: if g.r.chance(3, 4) { 1 } else { g.r.range(1, p + 1) }, ap, fp: ap };
        let mut rows = vec![];
        'steps: while rows.len() < s.max_steps {
            for _ in 0..60 {
                if let Some((st, n)) = g.try_step(regs, s.wide_offsets) {
                    rows.push(st.regs);
                    regs = n;
                    continue 'steps;
                }
            }
            break;
        }
        if rows.is_empty() {
            continue;
        }
        let mut mem = std::mem::take(&mut g.mem);
        for a in 1..=p {
            if !mem.contains_key(&a) {
                let v = g.value();
                mem.insert(a, v);
            }
        }
        // Builtin segments follow the execution segment. An output cell may also be one the
        // program never touched.
        let mut next = hi;
        let out = if s.out {
            let n = r.range(0, 6);
            // sometimes the segment overlaps cells the program accessed
            let start = if r.chance(1, 3) { r.range(lo, hi) } else { next };
            for a in start..start + n {
                if !mem.contains_key(&a) {
                    let v = r.fe();
                    mem.insert(a, v);
                }
            }
            next = next.max(start + n);
            Some(start..start + n)
        } else {
            None
        };
        let rc = if s.rc {
            let n = r.below(rows.len() as u64 + 1).min(8);
            for a in next..next + n {
                let v = match r.below(4) {
                    0 => FE::from(r.below(3)),
                    1 => FE::from(r.u64()),
                    2 => FE::zero() + two_pow(128) - FE::from(1 + r.below(3)),
                    _ => FE::from(r.u64()) + FE::from(r.u64()) * two_pow(64),
                };
                mem.insert(a, v);
            }
            Some(next..next + n)
        } else {
            None
        };
        return Exec { rows, mem, program: p, rc, out };
    }
}

pub fn two_pow(n: u32) -> FE {
    let mut x = FE::one();
    for _ in 0..n {
        x = x + x;
    }
    x
}
