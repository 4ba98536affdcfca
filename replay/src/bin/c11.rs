use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_stark::starks::{
    constraints::evaluator::ConstraintEvaluator, domain::Domain, prover::evaluate_polynomial_on_lde_domain, prover::prove, traits::AIR, transcript::*,
};
use replay::{stark::*, *};
/// Hands out the given challenges in turn.
struct Tape {
    q: Vec<[u8; 32]>,
    at: usize,
    appended: usize,
}
impl Transcript for Tape {
    fn append(&mut self, _: &[u8]) {
        self.appended += 1;
    }
    fn challenge(&mut self) -> [u8; 32] {
        self.at += 1;
        self.q[(self.at - 1) % self.q.len()]
    }
}
fn be(x: &FE) -> [u8; 32] {
    use lambdaworks_math::traits::ByteConversion;
    x.to_bytes_be().try_into().unwrap()
}
fn main() {
    let mut c = Ctx::new("C11");
    c.rule("random and corner transcript bytes through every sampling function; out-of-domain sampling over tapes that first offer points of both domains; domains for trace lengths 2..=512, blowups 1..=64 and random offsets, read back point by point; polynomials of every length evaluated on the extended domain");
    for k in 0..c.n(4000, 200000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        // bytes to field, bytes to index
        let n = r.usize(1, 6);
        let q: Vec<[u8; 32]> = (0..n)
            .map(|_| {
                let mut b: [u8; 32] = r.bytes(32).try_into().unwrap();
                match r.below(6) {
                    0 => b = [0xff; 32],
                    1 => b[1..].fill(0),
                    2 => b[..31].fill(0),
                    3 => b[0] = 1 << r.below(8),
                    _ => {}
                }
                b
            })
            .collect();
        let txt = || format!("transcript bytes {}", q.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" "));
        c.case(hash_of(&q), txt);
        let got = c.guard("sampling-panics", txt, || {
            let mut t = Tape { q: q.clone(), at: 0, appended: 0 };
            let v = (0..n).map(|_| transcript_to_field::<F, _>(&mut t)).collect::<Vec<_>>();
            (v, t.at, t.appended)
        });
        if let Some((v, at, ap)) = got {
            let want: Vec<FE> = q.iter().map(|b| to_field(*b)).collect();
            c.check("field-challenge", v == want, || format!("{} got {}", txt(), fhexs(&v)));
            c.check("field-challenge-draws", at == n && ap == 0, txt);
        }
        let got = c.guard("batch-panics", txt, || {
            let mut t = Tape { q: q.clone(), at: 0, appended: 0 };
            (batch_sample_challenges::<F, _>(n, &mut t), t.at)
        });
        if let Some((v, at)) = got {
            c.check("batch-challenges", v == q.iter().map(|b| to_field(*b)).collect::<Vec<_>>() && at == n, txt);
        }
        let got = c.guard("index-panics", txt, || transcript_to_usize(&mut Tape { q: q.clone(), at: 0, appended: 0 }));
        c.check("index-challenge", got.map_or(true, |g| g == u64::from_be_bytes(q[0][..8].try_into().unwrap()) as usize), txt);

        // out of domain
        let (tl, bl) = (r.range(1, 5) as u32, r.range(0, 4) as u32);
        let h = FE::from(*r.pick(&[1u64, 3, 5, 1 << 40]));
        let trace: Vec<FE> = (0..1u64 << tl).map(|i| pow(root(tl), i)).collect();
        let lde: Vec<FE> = (0..1u64 << (tl + bl)).map(|i| h * pow(root(tl + bl), i)).collect();
        let mut q: Vec<[u8; 32]> = vec![];
        for _ in 0..r.below(8) {
            let x = if r.bool() { *r.pick(&trace) } else { *r.pick(&lde) };
            let b = be(&x);
            if b[0] & 0xf8 == 0 {
                q.push(b);
            }
        }
        let fin = r.bytes(32).try_into().unwrap();
        q.push(fin);
        let txt = || format!("trace domain 2^{tl}, extended 2^{} offset {}, tape {}", tl + bl, fhex(&h), q.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" "));
        if let Some((z, at)) = c.guard("z-panics", txt, || {
            let mut t = Tape { q: q.clone(), at: 0, appended: 0 };
            (sample_z_ood::<F, _>(&lde, &trace, &mut t), t.at)
        }) {
            let first = q.iter().position(|b| { let v = to_field(*b); !trace.contains(&v) && !lde.contains(&v) });
            if let Some(f) = first {
                c.check("z-in-a-domain", !trace.contains(&z) && !lde.contains(&z), txt);
                c.check("z-not-first-outside", z == to_field(q[f]) && at == f + 1, txt);
            }
        }
        // polynomials on the extended domain
        let n = 1usize << r.below(6);
        let b = 1usize << r.below(4);
        let len = r.usize(0, n * b + 1);
        let len = if r.chance(2, 3) { len.min(n) } else { len };
        let p: Vec<FE> = (0..len).map(|_| r.fe()).collect();
        let h = if r.bool() { FE::from(3) } else { r.fe_uniform() };
        let txt = || format!("polynomial {} on {n}*{b} offset {}", fhexs(&p), fhex(&h));
        if let Some(v) = c.guard("lde-evaluation-panics", txt, || evaluate_polynomial_on_lde_domain(&Polynomial::new(&p), b, n, &h).ok()) {
            let want: Vec<FE> = (0..n * b).map(|i| ev(&p, h * pow(root((n * b).trailing_zeros()), i as u64))).collect();
            c.check("lde-evaluation", v == Some(want), txt);
        }
        // the domain itself: constant columns with boundary constraints read its points back
        if k % 8 == 0 {
            let n = 1usize << r.range(1, c.n(7, 9) as u64);
            let blowup = 2u8 << r.below(6);
            let coset = *r.pick(&[2u64, 3, 5, 7, 12345, u64::MAX]);
            let step = r.usize(0, n);
            let cfg = Cfg {
                n,
                main: 1,
                aux: vec![],
                n_chal: 0,
                offsets: vec![0],
                constraints: vec![Constraint { terms: vec![], degree: 1, exempt: 0 }],
                boundary: vec![(0, step, FE::zero())],
                bound: n,
                blowup,
                queries: 1,
                coset,
                grinding: 0,
            };
            let l = cfg.lde();
            let txt = || format!("n={n} blowup={blowup} offset={coset} step={step}");
            let air = TestAir::new(n, &cfg, &cfg.options());
            let got = c.guard("domain-panics", txt, || {
                let domain = Domain::new(&air);
                let ev = ConstraintEvaluator::new(&air, &vec![]);
                let col = vec![FE::one(); l];
                ev.evaluate(&table_of(&[col]), &domain, &[(FE::zero(), FE::zero())], &[(FE::zero(), FE::one())], &vec![]).evaluations_acc
            });
            if let Some(e) = got {
                // 1 / (x_i - g^step)
                let gs = pow(root(n.trailing_zeros()), step as u64);
                let want: Vec<FE> = (0..l).map(|i| (cfg.h() * pow(root(l.trailing_zeros()), i as u64) - gs).inv()).collect();
                c.check("domain-points", e == want, txt);
            }
        }
        // indices of an actual proof
        if k % 40 == 0 {
            let (cfg, cols) = gen_air(&mut r, 4);
            let txt = || format!("{} trace={}", cfg.describe(), cols_text(&cols));
            if let Some(Some(p)) = c.guard("prove-panics", txt, || prove::<F, TestAir>(&table_of(&cols), &cfg, &cfg.options()).ok()) {
                let d = draw(&cfg, &p);
                let lde: Vec<Vec<FE>> = polys_of(&cols).iter().map(|p| coset_evals(p, cfg.lde(), cfg.h())).collect();
                c.check("openings-per-query", p.deep_poly_openings.len() == d.iotas.len(), txt);
                for (o, i) in p.deep_poly_openings.iter().zip(&d.iotas) {
                    let want: Vec<FE> = lde.iter().map(|c| c[*i]).collect();
                    c.check("query-index", o.lde_trace_evaluations.get(..cfg.main) == Some(&want[..]), txt);
                }
            }
        }
    }
    c.finish()
}
