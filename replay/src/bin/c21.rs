use lambdaworks_stark::cairo::air::{MemorySegment, MemorySegmentMap, PublicInputs};
use lambdaworks_stark::cairo::execution_trace::build_cairo_execution_trace;
use lambdaworks_stark::cairo::register_states::{RegisterStates, RegistersState};
use replay::{airx::*, cairo::*, *};
use std::collections::HashMap;
fn public_checks(c: &mut Ctx, pi: &PublicInputs, first: Regs, last: Regs, steps: usize, mem: &dyn Fn(u64) -> Option<FE>, program: u64, segs: &MemorySegmentMap, d: &dyn Fn() -> String) {
    let f = FE::from;
    c.check("initial-registers", (pi.pc_init, pi.ap_init, pi.fp_init) == (f(first.pc), f(first.ap), f(first.fp)), || d());
    c.check("final-registers", (pi.pc_final, pi.ap_final) == (f(last.pc), f(last.ap)), || d());
    c.check_eq("number-of-steps", &pi.num_steps, &steps, || d());
    c.check_eq("segments", &pi.memory_segments, segs, || d());
    let mut want: HashMap<FE, FE> = HashMap::new();
    for a in (1..=program).chain(segs.get(&MemorySegment::Output).cloned().unwrap_or(0..0)) {
        if let Some(v) = mem(a) {
            want.insert(f(a), v);
        }
    }
    c.check("public-memory", pi.public_memory == want, || {
        let t = |m: &HashMap<FE, FE>| {
            let mut v: Vec<_> = m.iter().map(|(a, b)| (low64(a), fhex(b))).collect();
            v.sort();
            format!("{v:?}")
        };
        format!("got {} want {}\n{}", t(&pi.public_memory), t(&want), d())
    });
}
fn main() {
    let mut c = Ctx::new("C21");
    c.rule("random register histories, memories, program sizes and segment maps: every public input against the definition; and program files run through the runner (stand-in VM), compared with the reference machine run from the program's entry point");
    for k in 0..c.n(3000, 60000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let (e, d);
        if r.bool() {
            let s = Shape::random(&mut r);
            e = gen(&mut r, &s);
        } else {
            let program = r.range(0, 12);
            let top = program + r.range(2, 40);
            let v = |r: &mut Rng| if r.bool() { r.below(100) } else { r.u64() };
            let rows = (0..r.usize(1, 20)).map(|_| Regs { pc: v(&mut r), ap: v(&mut r), fp: v(&mut r) }).collect();
            let mem = (1..top).map(|a| (a, r.fe())).collect();
            let start = r.range(1, top);
            let out = if r.bool() { Some(start..r.range(start, top)) } else { None };
            let rc = if r.bool() { Some(top..top + r.below(5)) } else { None };
            e = Exec { rows, mem, program, rc, out };
        }
        d = e.describe();
        c.announce(d.clone());
        c.case(hash_of(&d), || d.clone());
        let Some(pi) = c.guard("public-inputs-panic", || d.clone(), || e.public()) else { continue };
        let (a, z) = (e.rows[0], e.rows[e.rows.len() - 1]);
        public_checks(&mut c, &pi, a, z, e.rows.len(), &|a| e.mem.get(&a).copied(), e.program, &e.segments(), &|| d.clone());
    }
    runner::check(&mut c);
    let _ = RegisterStates { rows: Vec::<RegistersState>::new() };
    let _ = (options(), build_cairo_execution_trace);
    c.finish()
}
#[cfg(not(norunner))]
mod runner {
    use super::*;
    use lambdaworks_stark::cairo::cairo_layout::CairoLayout;
    use lambdaworks_stark::cairo::execution_trace::build_main_trace;
    use lambdaworks_stark::cairo::runner::run::{generate_prover_args, run_program, CairoVersion};
    use std::collections::BTreeMap;
    const NOP: Instr = Instr { off: [-1, -1, 1], dst_fp: true, op0_fp: true, op1: 1, res: 0, pc: 0, ap: 0, opcode: 0 };
    struct Prog {
        cells: Vec<FE>,
        builtins: Vec<&'static str>,
        pc: usize,
    }
    impl Prog {
        fn one(&mut self, i: Instr) {
            self.cells.push(FE::from(i.encode()));
        }
        fn imm(&mut self, i: Instr, v: FE) {
            self.one(i);
            self.cells.push(v);
        }
        fn json(&self) -> String {
            serde_json::json!({
                "data": self.cells.iter().map(|x| format!("0x{}", fhex(x))).collect::<Vec<_>>(),
                "builtins": self.builtins,
                "identifiers": {"__main__.main": {"pc": self.pc, "type": "function"}},
            })
            .to_string()
        }
    }
    /// A straight program with optional builtin writes: `main(output_ptr?, range_check_ptr?)`.
    fn program(r: &mut Rng) -> (Prog, u64, u64) {
        let (use_out, use_rc) = (r.bool(), r.bool());
        let mut p = Prog { cells: vec![], builtins: vec![], pc: 0 };
        if use_out {
            p.builtins.push("output");
        }
        if use_rc {
            p.builtins.push("range_check");
        }
        for _ in 0..r.below(3) {
            p.one(Instr { off: [-1, -1, 1], opcode: 2, pc: 1, ..NOP }); // never executed
        }
        p.pc = p.cells.len();
        let nb = p.builtins.len() as i64;
        let n = r.range(1, 8);
        for _ in 0..n {
            p.imm(Instr { off: [0, -1, 1], dst_fp: false, op1: 1, ap: 2, opcode: 4, ..NOP }, r.fe());
        }
        let mut used = n as i64;
        for _ in 0..r.below(4) {
            // [ap] = [fp+i] op [fp+j]; ap++
            let (i, j) = (r.below(used as u64) as i64, r.below(used as u64) as i64);
            p.one(Instr { off: [0, i, j], dst_fp: false, op1: 2, res: 1 + r.below(2) as u8, ap: 2, opcode: 4, ..NOP });
            used += 1;
        }
        let (mut outs, mut rcs) = (0, 0);
        // builtin pointers are at fp-2-nb .. fp-3
        if use_out {
            outs = r.below(4);
            for k in 0..outs {
                let src = r.below(used as u64) as i64;
                p.one(Instr { off: [src, -2 - nb, k as i64], op1: 0, opcode: 4, ..NOP }); // [fp+src] = [[fp-2-nb]+k]
            }
        }
        if use_rc {
            rcs = r.below(4);
            for k in 0..rcs {
                let v = match r.below(3) {
                    0 => FE::from(r.below(5)),
                    1 => FE::from(r.u64()),
                    _ => two_pow(128) - FE::one(),
                };
                p.imm(Instr { off: [0, -1, 1], dst_fp: false, op1: 1, ap: 2, opcode: 4, ..NOP }, v);
                p.one(Instr { off: [used, -3, k as i64], op1: 0, opcode: 4, ..NOP });
                used += 1;
            }
        }
        // return pointers: [ap] = [fp-2-nb] + outs; ap++
        let mut at = -2 - nb;
        for b in p.builtins.clone() {
            let c = if b == "output" { outs } else { rcs };
            p.imm(Instr { off: [0, at, 1], dst_fp: false, op1: 1, res: 1, ap: 2, opcode: 4, ..NOP }, FE::from(c));
            at += 1;
        }
        p.one(Instr { off: [-2, -1, -1], dst_fp: true, op0_fp: true, op1: 2, pc: 1, opcode: 2, ..NOP });
        (p, outs, rcs)
    }
    pub fn check(c: &mut Ctx) {
        for k in 0..c.n(250, 8000) {
            if c.out_of_time() {
                break;
            }
            let mut r = Rng::new(c.seed.wrapping_mul(7919).wrapping_add(k as u64));
            let (p, outs, rcs) = program(&mut r);
            let json = p.json();
            let d = || json.clone();
            c.announce(d());
            c.case(hash_of(&json), d);
            let run = c.guard("runner-panics", d, || run_program(None, CairoLayout::Small, json.as_bytes(), &CairoVersion::V0));
            let Some(run) = run else { continue };
            let Ok((states, memory, size, range)) = run else {
                c.check("runner-refuses-valid-program", false, d);
                continue;
            };
            c.check_eq("program-size", &size, &p.cells.len(), d);
            // memory: program cells at 1.., and the machine's steps from the entry point
            for (i, v) in p.cells.iter().enumerate() {
                c.check("program-cell", memory.get(&(i as u64 + 1)) == Some(v), || format!("cell {}: {json}", i + 1));
            }
            let rows: Vec<Regs> = states.rows.iter().map(|s| Regs { pc: s.pc, ap: s.ap, fp: s.fp }).collect();
            let mem: BTreeMap<u64, FE> = memory.data.iter().map(|(a, v)| (*a, *v)).collect();
            if rows.is_empty() {
                c.check("empty-run", false, d);
                continue;
            }
            c.check("entry-point", rows[0].pc == 1 + p.pc as u64 && rows[0].ap == rows[0].fp, d);
            let mut at = rows[0];
            let mut ok = true;
            for (i, row) in rows.iter().enumerate() {
                ok &= c.check("step-order", *row == at, || format!("row {i} is {row:?} instead of {at:?}: {json}"));
                match step(*row, &|a| mem.get(&a).copied()) {
                    Some(s) => match (u64_of(&s.next.0), u64_of(&s.next.1), u64_of(&s.next.2)) {
                        (Some(pc), Some(ap), Some(fp)) => at = Regs { pc, ap, fp },
                        _ => ok = c.check("step-registers", false, || format!("row {i}: {json}")),
                    },
                    None => ok = c.check("invalid-step", false, || format!("row {i} {row:?}: {json}")),
                }
                if !ok {
                    break;
                }
            }
            // the run ends where main returns to: the final fp/pc sit in the cells below fp
            if ok {
                let f = rows[0].fp;
                c.check("complete-run", mem.get(&(f - 1)).and_then(u64_of) == Some(at.pc), || format!("stops at {at:?}: {json}"));
            }
            // segments: builtin pointers are the arguments below fp
            let nb = p.builtins.len() as u64;
            let arg = |i: u64| mem.get(&(rows[0].fp - 2 - nb + i)).and_then(u64_of);
            let wants_rc = p.builtins.contains(&"range_check");
            if wants_rc {
                let base = arg(nb - 1).unwrap_or(0);
                c.check("range-check-segment", range.as_ref().map(|x| (x.start, x.end)) == Some((base, base + rcs)), || format!("{range:?} instead of {base}..{}: {json}", base + rcs));
            }
            let output = (outs > 0).then(|| arg(0).unwrap_or(0)..arg(0).unwrap_or(0) + outs);
            let args = c.guard("prover-args-panic", d, || generate_prover_args(json.as_bytes(), &CairoVersion::V0, &output).ok());
            let Some(Some((table, pi))) = args else {
                c.check("prover-args-refused", false, d);
                continue;
            };
            let mut segs = MemorySegmentMap::new();
            if let Some(x) = &range {
                segs.insert(MemorySegment::RangeCheck, x.clone());
            }
            if let Some(x) = &output {
                segs.insert(MemorySegment::Output, x.clone());
            }
            public_checks(c, &pi, rows[0], rows[rows.len() - 1], rows.len(), &|a| mem.get(&a).copied(), p.cells.len() as u64, &segs, &d);
            let again = quiet(|| {
                let mut q = PublicInputs::from_regs_and_mem(&states, &memory, size, &segs);
                build_main_trace(&states, &memory, &mut q)
            });
            c.check("trace-of-run", again.map(|t| (t.n_cols, t.table)).ok() == Some((table.n_cols, table.table.clone())), d);
        }
    }
}
#[cfg(norunner)]
mod runner {
    pub fn check(c: &mut replay::Ctx) {
        c.rule("runner module not built");
    }
}
