use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_stark::starks::{frame::Frame, trace::TraceTable};
use replay::{stark::*, *};
fn main() {
    let mut c = Ctx::new("C08");
    c.rule("random tables (1..=9 columns, 0..=32 rows) through every constructor and accessor, sub-tables, concatenations and frames at random steps, strides and offsets; compared with a plain matrix");
    for k in 0..c.n(6000, 200000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let w = r.usize(1, 10);
        let h = if r.chance(1, 12) { 0 } else if r.bool() { 1 << r.below(6) } else { r.usize(1, 33) };
        let m: Vec<Vec<FE>> = (0..h).map(|_| (0..w).map(|_| r.fe()).collect()).collect();
        let cols: Vec<Vec<FE>> = (0..w).map(|j| (0..h).map(|i| m[i][j]).collect()).collect();
        let txt = || format!("{h}x{w} rows {}", m.iter().map(|x| fhexs(x)).collect::<Vec<_>>().join(" "));
        c.case(hash_of(&txt()), txt);
        for from_cols in [false, true] {
            let Some(t) = c.guard("construct-panics", txt, || {
                if from_cols {
                    TraceTable::<F>::new_from_cols(&cols)
                } else {
                    TraceTable::new(m.concat(), w)
                }
            }) else {
                continue;
            };
            c.check_eq("n_rows", &t.n_rows(), &h, txt);
            c.check_eq("n_cols", &t.n_cols, &w, txt);
            c.check("is_empty", !t.is_empty(), txt);
            c.check("rows", quiet(|| t.rows()) == Ok(m.clone()), txt);
            c.check("cols", quiet(|| t.cols()) == Ok(cols.clone()), txt);
            for i in 0..h {
                c.check("get_row", quiet(|| t.get_row(i).to_vec()) == Ok(m[i].clone()), || format!("row {i} of {}", txt()));
                for j in 0..w {
                    c.check("get", quiet(|| t.get(i, j)) == Ok(m[i][j]), || format!("cell {i},{j} of {}", txt()));
                }
            }
            if h > 0 {
                c.check("last_row", quiet(|| t.last_row().to_vec()) == Ok(m[h - 1].clone()), txt);
            }
            // sub-table: any choice of columns, repeats allowed
            let pick: Vec<usize> = (0..r.usize(1, 6)).map(|_| r.usize(0, w)).collect();
            if let Some(s) = c.guard("get_cols-panics", txt, || t.get_cols(&pick)) {
                let want: Vec<FE> = m.iter().flat_map(|row| pick.iter().map(|j| row[*j]).collect::<Vec<_>>()).collect();
                c.check("get_cols", s.table == want && s.n_cols == pick.len(), || format!("columns {pick:?} of {}", txt()));
            }
            // concatenation
            let w2 = r.usize(0, 5);
            let extra: Vec<Vec<FE>> = (0..h).map(|_| (0..w2).map(|_| r.fe()).collect()).collect();
            if let Some(s) = c.guard("concatenate-panics", txt, || t.concatenate(extra.concat(), w2)) {
                let want: Vec<FE> = m.iter().zip(&extra).flat_map(|(a, b)| [a.clone(), b.clone()].concat()).collect();
                c.check("concatenate", s.table == want && s.n_cols == w + w2, || format!("with {w2} columns: {}", txt()));
            }
            // frames
            if h > 0 {
                let blow = 1u8 << r.below(4);
                let offs: Vec<usize> = (0..r.usize(1, 5)).map(|_| r.usize(0, 2 * h + 3)).collect();
                let step = r.usize(0, h);
                let ft = || format!("step {step} stride {blow} offsets {offs:?} of {}", txt());
                if let Some(f) = c.guard("frame-panics", ft, || Frame::read_from_trace(&t, step, blow, &offs)) {
                    c.check("frame-size", f.num_rows() == offs.len() && f.num_columns() == w, ft);
                    for (a, o) in offs.iter().enumerate() {
                        c.check("frame-row", quiet(|| f.get_row(a).to_vec()) == Ok(m[(step + o * blow as usize) % h].clone()), ft);
                    }
                    let mut g = f.clone();
                    let a = r.usize(0, offs.len());
                    let j = r.usize(0, w);
                    let nv = r.fe_uniform();
                    if c.guard("frame-row-mut-panics", ft, || g.get_row_mut(a)[j] = nv).is_some() {
                        for b in 0..offs.len() {
                            let mut want = f.get_row(b).to_vec();
                            if b == a {
                                want[j] = nv;
                            }
                            c.check("frame-row-mut", g.get_row(b) == &want[..], ft);
                        }
                    }
                }
            }
            // polynomials
            if h > 0 && h.is_power_of_two() {
                if let Some(ps) = c.guard("polys-panic", txt, || t.compute_trace_polys()) {
                    c.check("poly-count", ps.len() == w, txt);
                    let g = root(h.trailing_zeros());
                    for j in 0..w.min(ps.len()) {
                        for i in 0..h {
                            c.check("poly-value", ev(ps[j].coefficients(), pow(g, i as u64)) == m[i][j], || format!("column {j} row {i} of {}", txt()));
                        }
                        c.check("poly-degree", ps[j].coefficients().len() <= h, txt);
                    }
                }
            }
        }
        // out of domain
        let polys: Vec<Vec<FE>> = (0..r.usize(1, 5)).map(|_| { let n = r.usize(0, 9); (0..n).map(|_| r.fe()).collect() }).collect();
        let x = r.fe();
        let g = if r.bool() { root(r.range(1, 10) as u32) } else { r.fe() };
        let offs: Vec<usize> = (0..r.usize(1, 5)).map(|_| r.usize(0, 20)).collect();
        let ps: Vec<Polynomial<FE>> = polys.iter().map(|p| Polynomial::new(p)).collect();
        let ft = || format!("polys {} x={} g={} offsets={offs:?}", cols_text(&polys), fhex(&x), fhex(&g));
        if let Some(got) = c.guard("ood-panics", ft, || Frame::<F>::get_trace_evaluations(&ps, &x, &offs, &g)) {
            let want: Vec<Vec<FE>> = offs.iter().map(|o| polys.iter().map(|p| ev(p, x * pow(g, *o as u64))).collect()).collect();
            c.check("ood-frame", got == want, ft);
        }
    }
    let e = TraceTable::<F>::empty();
    c.check("empty", e.is_empty() && quiet(|| e.n_rows()) == Ok(0) && quiet(|| e.rows().len() + e.cols().len()) == Ok(0), || "the empty table".into());
    c.finish()
}
