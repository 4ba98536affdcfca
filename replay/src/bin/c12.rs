use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::{fri::*, prover::prove, traits::AIR, verifier::verify};
use replay::{stark::*, *};
#[derive(Default)]
struct Rec {
    log: Vec<(bool, Vec<u8>)>,
    seed: u64,
}
impl Transcript for Rec {
    fn append(&mut self, d: &[u8]) {
        self.log.push((true, d.to_vec()));
    }
    fn challenge(&mut self) -> [u8; 32] {
        let mut r = Rng::new(self.seed ^ hash_of(&self.log));
        let b: [u8; 32] = r.bytes(32).try_into().unwrap();
        self.log.push((false, b.to_vec()));
        b
    }
}
fn main() {
    let mut c = Ctx::new("C12");
    c.rule("random polynomials (also zero, constant, short, sparse, longer than the layers fold) through the commit and query phases with random layer counts, offsets and domain sizes; every layer, root, transcript event and opening compared with direct folding; whole proofs replayed; proofs with one replaced layer or final value refused");
    for k in 0..c.n(3000, 100000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let layers = r.usize(1, 7);
        let dom = 1usize << (layers as u64 + r.below(4));
        let len = match r.below(4) {
            0 => r.usize(0, 4).min(1 << layers),
            1 => 1 << layers,
            _ => r.usize(0, (1 << layers) + 1),
        };
        let p: Vec<FE> = (0..len).map(|_| if r.chance(1, 3) { FE::zero() } else { r.fe() }).collect();
        let h = if r.bool() { FE::from(3) } else { r.fe_uniform() };
        let seed = r.u64();
        let txt = || format!("layers={layers} domain={dom} offset={} p0={} transcript seed {seed}", fhex(&h), fhexs(&p));
        c.announce(txt());
        c.case(hash_of(&txt()), txt);
        let got = c.guard("commit-panics", txt, || {
            let mut t = Rec { log: vec![], seed };
            let (last, ls) = fri_commit_phase(layers, Polynomial::new(&p), &mut t, &h, dom);
            (last, ls, t.log)
        });
        let Some((last, ls, log)) = got else { continue };
        let mut t = Rec { log: vec![], seed };
        let (mut q, mut size, mut off) = (p.clone(), dom, h);
        let mut want = vec![];
        for i in 0..layers {
            if i > 0 {
                let z = to_field(t.challenge());
                q = fold(&q, z);
                size /= 2;
                off = off * off;
            }
            let e = coset_evals(&q, size, off);
            let tree = FTree::build(&e);
            t.append(&tree.root);
            want.push((e, tree, off, size));
        }
        let z = to_field(t.challenge());
        q = fold(&q, z);
        let wl = q.first().copied().unwrap_or(FE::zero());
        t.append(&wl.to_bytes_be());
        c.check("final-value", last == wl, || format!("{} got {} want {}", txt(), fhex(&last), fhex(&wl)));
        c.check("transcript-order", log == t.log, txt);
        c.check("layer-count", ls.len() == layers, txt);
        for (i, (a, b)) in ls.iter().zip(&want).enumerate() {
            c.check("layer-evaluations", a.evaluation == b.0, || format!("layer {i}: {}", txt()));
            c.check("layer-root", a.merkle_tree.root == b.1.root, || format!("layer {i}: {}", txt()));
            c.check("layer-offset", a.coset_offset == b.2, || format!("layer {i}: {}", txt()));
            c.check("layer-domain", a.domain_size == b.3, || format!("layer {i}: {}", txt()));
        }
        // queries
        let (mut cfg, _) = gen_air(&mut r, 2);
        cfg.queries = r.usize(1, 6);
        let air = TestAir::new(cfg.n, &cfg, &cfg.options());
        let got = c.guard("query-panics", txt, || {
            let mut t = Rec { log: vec![], seed };
            (fri_query_phase(&air, dom, &ls, &mut t), t.log)
        });
        if let Some(((qs, iotas), qlog)) = got {
            let mut t = Rec { log: vec![], seed };
            let wi: Vec<usize> = (0..cfg.queries).map(|_| (u64::from_be_bytes(t.challenge()[..8].try_into().unwrap()) % dom as u64) as usize).collect();
            c.check("query-indices", iotas == wi && qlog == t.log, txt);
            c.check("query-count", qs.len() == wi.len(), txt);
            for (qq, i) in qs.iter().zip(&wi) {
                let ok = (0..layers).all(|k| {
                    let n = want[k].3;
                    let (a, b) = (i % n, (i + n / 2) % n);
                    qq.layers_evaluations.get(k) == Some(&want[k].0[a])
                        && qq.layers_evaluations_sym.get(k) == Some(&want[k].0[b])
                        && qq.layers_auth_paths.get(k).map(|p| &p.merkle_path) == Some(&want[k].1.get_proof_by_pos(a).unwrap().merkle_path)
                        && qq.layers_auth_paths_sym.get(k).map(|p| &p.merkle_path) == Some(&want[k].1.get_proof_by_pos(b).unwrap().merkle_path)
                });
                c.check("query-openings", ok, || format!("query {i}: {}", txt()));
            }
        }
        // both sides, on whole proofs
        if k % 12 == 0 {
            let (cfg, cols) = gen_air(&mut r, 4);
            let s = spec_prove(&cfg, &cols, &Cheat::None);
            let txt = || format!("{} trace={}", cfg.describe(), cols_text(&cols));
            c.announce(txt());
            let v = c.guard("verify-panics", txt, || verify::<F, TestAir>(&s.proof, &cfg, &cfg.options()));
            c.check("prescribed-layers-refused", v != Some(false), txt);
            if let Some(Some(p)) = c.guard("prove-panics", txt, || prove::<F, TestAir>(&table_of(&cols), &cfg, &cfg.options()).ok()) {
                // replay the folding on what the prover sent
                let d = draw(&cfg, &p);
                c.check("number-of-layers", p.fri_layers_merkle_roots.len() == cfg.n.trailing_zeros() as usize, txt);
                let two_inv = FE::from(2).inv();
                let w = root(cfg.lde().trailing_zeros());
                for (q, i) in p.query_list.iter().zip(&d.iotas) {
                    let mut x = cfg.h() * pow(w, *i as u64);
                    for k in 0..p.fri_layers_merkle_roots.len().min(q.layers_evaluations.len()).min(q.layers_evaluations_sym.len()) {
                        let (a, b) = (q.layers_evaluations[k], q.layers_evaluations_sym[k]);
                        let v = (a + b) * two_inv + d.zetas[k] * (a - b) * two_inv * x.inv();
                        let next = if k + 1 < q.layers_evaluations.len() { q.layers_evaluations[k + 1] } else { p.fri_last_value };
                        c.check("sent-layers-fold", v == next, || format!("query {i} layer {k}: {}", txt()));
                        x = x * x;
                    }
                }
            }
            let lay = r.usize(1, 4);
            let seed = r.u64();
            for ch in [Cheat::OtherLayer(lay, seed), Cheat::OtherLast(seed)] {
                if matches!(ch, Cheat::OtherLayer(k, _) if k >= cfg.n.trailing_zeros() as usize) {
                    continue;
                }
                let s = spec_prove(&cfg, &cols, &ch);
                let v = c.guard("verify-panics", txt, || verify::<F, TestAir>(&s.proof, &cfg, &cfg.options()));
                c.check("unfolded-layers-accepted", v != Some(true), || format!("{ch:?}: {}", txt()));
            }
        }
    }
    c.finish()
}
