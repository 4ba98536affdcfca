use lambdaworks_stark::cairo::execution_trace::build_cairo_execution_trace;
use replay::{cairo::*, *};
fn main() {
    let mut c = Ctx::new("C03");
    c.rule("random valid executions of random programs (all operand sources, result logics, pc/ap/fp updates, opcodes); every main-trace row is compared with the reference machine");
    let mut kinds = std::collections::HashMap::<(u8, u8, u8, u8, u8), u64>::new();
    for k in 0..c.n(2500, 60000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let s = Shape::random(&mut r);
        let e = gen(&mut r, &s);
        let steps = e.steps();
        for s in &steps {
            *kinds.entry((s.ins.opcode, s.ins.op1, s.ins.res, s.ins.pc, s.ins.ap)).or_default() += 1;
        }
        let n = steps.len();
        c.case(hash_of(&format!("{:?}", e)), || e.describe());
        let pi = match c.guard("public-inputs", || e.describe(), || e.public()) {
            Some(p) => p,
            None => continue,
        };
        let t = match c.guard("trace-panics-on-valid-run", || e.describe(), || build_cairo_execution_trace(&e.states(), &e.memory(), &pi)) {
            Some(t) => t,
            None => continue,
        };
        let cols = if e.rc.is_some() { 43 } else { 34 };
        c.check_eq("column-count", &t.n_cols, &cols, || e.describe());
        if t.n_cols != cols {
            continue;
        }
        c.check_eq("row-count", &(t.table.len() / t.n_cols), &n, || e.describe());
        for (i, s) in steps.iter().enumerate() {
            let want = row(s, i + 1 == n);
            for j in 0..34 {
                let got = t.table.get(i * cols + j).cloned().unwrap_or(FE::from(0xdead));
                c.check(&format!("cell-col{j}"), got == want[j], || {
                    format!("row {i} column {j}: got {} want {} step {:?}\n{}", fhex(&got), fhex(&want[j]), s, e.describe())
                });
            }
        }
    }
    // Undefined combinations are refused.
    for k in 0..c.n(400, 4000) {
        let mut r = Rng::new(c.seed.wrapping_mul(7919).wrapping_add(k as u64));
        let mut i = Instr { off: [0, -1, 1], dst_fp: r.bool(), op0_fp: true, op1: 1, res: 0, pc: 4, ap: 0, opcode: 0 };
        match r.below(3) {
            0 => i.res = 1 + r.below(2) as u8,
            1 => i.opcode = *r.pick(&[1u8, 2, 4]),
            _ => i.ap = 1,
        }
        let mut mem = std::collections::BTreeMap::new();
        for a in 1..20u64 {
            mem.insert(a, FE::from(a));
        }
        mem.insert(1, FE::from(i.encode()));
        let e = Exec { rows: vec![Regs { pc: 1, ap: 8, fp: 8 }], mem, program: 4, rc: None, out: None };
        c.case(hash_of(&i), || format!("{i:?}"));
        let res = quiet(|| build_cairo_execution_trace(&e.states(), &e.memory(), &e.public()));
        c.check("undefined-combination-recorded", res.is_err(), || format!("{i:?}"));
    }
    c.rule(&format!("{} distinct instruction variants executed", kinds.len()));
    c.finish()
}
