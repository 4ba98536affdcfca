//! A configurable AIR, and an independent ("spec") prover for it written from the protocol
//! description, with naive arithmetic. It can also be told to cheat in one place, keeping
//! everything else consistent, to see that the verifier looks there.
use crate::{fhex, fhexs, hash_of, Rng, FE};
use lambdaworks_crypto::fiat_shamir::{default_transcript::DefaultTranscript, transcript::Transcript};
use lambdaworks_crypto::merkle_tree::backends::types::{BatchKeccak256Tree, Keccak256Tree};
use lambdaworks_crypto::merkle_tree::merkle::MerkleTree;
use lambdaworks_crypto::merkle_tree::proof::Proof;
use lambdaworks_math::field::traits::IsFFTField;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::constraints::boundary::{BoundaryConstraint, BoundaryConstraints};
use lambdaworks_stark::starks::context::AirContext;
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::fri::fri_decommit::FriDecommitment;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::proof::stark::{DeepPolynomialOpenings, StarkProof};
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::starks::transcript::transcript_to_field;
use lambdaworks_stark::PrimeField;
use sha3::{Digest, Keccak256};

pub type F = PrimeField;
pub type BTree = MerkleTree<BatchKeccak256Tree<F>>;
pub type FTree = MerkleTree<Keccak256Tree<F>>;
pub type P = StarkProof<F>;

// ---------------------------------------------------------------- field and polynomials
pub fn pow(x: FE, mut e: u64) -> FE {
    let (mut b, mut r) = (x, FE::one());
    while e > 0 {
        if e & 1 == 1 {
            r = r * b;
        }
        b = b * b;
        e >>= 1;
    }
    r
}
/// The 2^k-th primitive root the field designates.
pub fn root(k: u32) -> FE {
    let two_adic = FE::from_raw(&F::TWO_ADIC_PRIMITVE_ROOT_OF_UNITY_FE());
    let mut r = two_adic;
    for _ in k..F::TWO_ADICITY as u32 {
        r = r * r;
    }
    r
}
pub trait TwoAdic {
    #[allow(non_snake_case)]
    fn TWO_ADIC_PRIMITVE_ROOT_OF_UNITY_FE() -> <F as lambdaworks_math::field::traits::IsField>::BaseType;
}
impl TwoAdic for F {
    fn TWO_ADIC_PRIMITVE_ROOT_OF_UNITY_FE() -> <F as lambdaworks_math::field::traits::IsField>::BaseType {
        *F::get_primitive_root_of_unity(F::TWO_ADICITY).unwrap().value()
    }
}
/// coefficients, low to high
pub type Poly = Vec<FE>;
pub fn ev(p: &[FE], x: FE) -> FE {
    p.iter().rev().fold(FE::zero(), |a, c| a * x + *c)
}
pub fn padd(a: &[FE], b: &[FE]) -> Poly {
    (0..a.len().max(b.len()))
        .map(|i| a.get(i).copied().unwrap_or(FE::zero()) + b.get(i).copied().unwrap_or(FE::zero()))
        .collect()
}
pub fn pscale(a: &[FE], k: FE) -> Poly {
    a.iter().map(|c| *c * k).collect()
}
/// (p - p(c)) / (x - c)
pub fn quotient(p: &[FE], c: FE) -> Poly {
    let mut q = vec![FE::zero(); p.len()];
    let mut acc = FE::zero();
    for i in (1..p.len()).rev() {
        acc = acc * c + p[i];
        q[i - 1] = acc;
    }
    q
}
fn fft(a: &[FE], w: FE) -> Vec<FE> {
    let n = a.len();
    if n == 1 {
        return a.to_vec();
    }
    let e = fft(&a.iter().step_by(2).copied().collect::<Vec<_>>(), w * w);
    let o = fft(&a.iter().skip(1).step_by(2).copied().collect::<Vec<_>>(), w * w);
    let mut r = vec![FE::zero(); n];
    let mut x = FE::one();
    for i in 0..n / 2 {
        let t = x * o[i];
        r[i] = e[i] + t;
        r[i + n / 2] = e[i] - t;
        x = x * w;
    }
    r
}
/// values of p on h * <w_size>, natural order (size a power of two, p of any length)
pub fn coset_evals(p: &[FE], size: usize, h: FE) -> Vec<FE> {
    let mut a = vec![FE::zero(); size];
    let mut hp = FE::one();
    for (i, c) in p.iter().enumerate() {
        a[i % size] = a[i % size] + *c * hp;
        hp = hp * h;
        if (i + 1) % size == 0 { /* h^i keeps growing: x^size = h^size on the coset */ }
    }
    fft(&a, root(size.trailing_zeros()))
}
pub fn interpolate_coset(v: &[FE], h: FE) -> Poly {
    let n = v.len();
    let w = root(n.trailing_zeros());
    let mut a = fft(v, w.inv());
    let ni = FE::from(n as u64).inv();
    let hi = h.inv();
    let mut s = ni;
    for c in a.iter_mut() {
        *c = *c * s;
        s = s * hi;
    }
    a
}
pub fn trim(p: &[FE]) -> Poly {
    let mut v = p.to_vec();
    while v.last() == Some(&FE::zero()) {
        v.pop();
    }
    v
}

// ---------------------------------------------------------------- transcript
pub fn to_field(b: [u8; 32]) -> FE {
    let mut b = b;
    b[0] &= 0x07; // 251 of the 256 bits
    FE::from_bytes_be(&b).unwrap()
}
pub fn challenge(t: &mut DefaultTranscript) -> FE {
    to_field(t.challenge())
}
pub fn index(t: &mut DefaultTranscript, n: usize) -> usize {
    (u64::from_be_bytes(t.challenge()[..8].try_into().unwrap()) % n as u64) as usize
}
pub fn measure(seed: &[u8; 32], nonce: u64) -> u32 {
    let mut d = seed.to_vec();
    d.extend(nonce.to_le_bytes());
    let h = Keccak256::digest(&d);
    // trailing zero bits of the first eight bytes read big-endian: the scheme's measure
    u64::from_be_bytes(h[..8].try_into().unwrap()).trailing_zeros()
}

// ---------------------------------------------------------------- the AIR
/// coefficient * product of cells (frame row, column) * product of challenges
#[derive(Clone, Debug, PartialEq)]
pub struct Term {
    pub c: FE,
    pub cells: Vec<(usize, usize)>,
    pub chal: Vec<usize>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Constraint {
    pub terms: Vec<Term>,
    pub degree: usize,
    pub exempt: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Aux {
    /// z0 = 1, z_{i+1} = z_i * (t_a[i] + g)
    Product(usize, usize),
    /// z0 = 1, z_{i+1} = z_i * (t_a[i] + g) / (t_b[i] + g)
    Permutation(usize, usize, usize),
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub n: usize,
    pub main: usize,
    pub aux: Vec<Aux>,
    pub n_chal: usize,
    pub offsets: Vec<usize>,
    pub constraints: Vec<Constraint>,
    pub boundary: Vec<(usize, usize, FE)>,
    pub bound: usize, // composition degree bound
    pub blowup: u8,
    pub queries: usize,
    pub coset: u64,
    pub grinding: u8,
}
impl Cfg {
    pub fn options(&self) -> ProofOptions {
        ProofOptions { blowup_factor: self.blowup, fri_number_of_queries: self.queries, coset_offset: self.coset, grinding_factor: self.grinding }
    }
    pub fn columns(&self) -> usize {
        self.main + self.aux.len()
    }
    pub fn lde(&self) -> usize {
        self.n * self.blowup as usize
    }
    pub fn h(&self) -> FE {
        FE::from(self.coset)
    }
    pub fn describe(&self) -> String {
        format!(
            "n={} blowup={} queries={} coset={} grinding={} main={} aux={:?} offsets={:?} bound={} boundary={} constraints={}",
            self.n, self.blowup, self.queries, self.coset, self.grinding, self.main, self.aux, self.offsets, self.bound,
            self.boundary.iter().map(|(c, s, v)| format!("t{c}[{s}]={}", fhex(v))).collect::<Vec<_>>().join(","),
            self.constraints
                .iter()
                .map(|c| format!(
                    "{{deg {} exempt {}: {}}}", c.degree, c.exempt,
                    c.terms.iter().map(|t| format!("{}*{:?}*g{:?}", fhex(&t.c), t.cells, t.chal)).collect::<Vec<_>>().join("+")
                ))
                .collect::<Vec<_>>()
                .join(" ")
        )
    }
    pub fn eval_constraint(&self, k: usize, frame: &dyn Fn(usize, usize) -> FE, ch: &[FE]) -> FE {
        self.constraints[k].terms.iter().fold(FE::zero(), |a, t| {
            a + t.cells.iter().map(|(r, c)| frame(*r, *c)).chain(t.chal.iter().map(|i| ch[*i])).fold(t.c, |x, y| x * y)
        })
    }
    pub fn aux_columns(&self, main: &[Vec<FE>], ch: &[FE]) -> Vec<Vec<FE>> {
        self.aux
            .iter()
            .map(|a| {
                let mut z = vec![FE::one()];
                for i in 0..self.n - 1 {
                    let v = match a {
                        Aux::Product(c, g) => z[i] * (main[*c][i] + ch[*g]),
                        Aux::Permutation(c, d, g) => z[i] * (main[*c][i] + ch[*g]) * (main[*d][i] + ch[*g]).inv(),
                    };
                    z.push(v);
                }
                z
            })
            .collect()
    }
}

#[derive(Clone)]
pub struct TestAir {
    cfg: Cfg,
    context: AirContext,
}
impl AIR for TestAir {
    type Field = F;
    type RAPChallenges = Vec<FE>;
    type PublicInputs = Cfg;
    fn new(trace_length: usize, pi: &Cfg, po: &ProofOptions) -> Self {
        let mut cfg = pi.clone();
        if trace_length != cfg.n {
            // a claimed length other than the intended one keeps the bound's proportion
            cfg.bound = (cfg.bound / cfg.n).max(1).saturating_mul(trace_length);
            cfg.n = trace_length;
        }
        let mut ex: Vec<usize> = cfg.constraints.iter().map(|c| c.exempt).filter(|e| *e > 0).collect();
        ex.sort();
        ex.dedup();
        let context = AirContext {
            proof_options: po.clone(),
            trace_columns: cfg.columns(),
            transition_degrees: cfg.constraints.iter().map(|c| c.degree).collect(),
            transition_exemptions: cfg.constraints.iter().map(|c| c.exempt).collect(),
            transition_offsets: cfg.offsets.clone(),
            num_transition_constraints: cfg.constraints.len(),
            num_transition_exemptions: ex.len(),
        };
        TestAir { cfg, context }
    }
    fn build_auxiliary_trace(&self, main: &TraceTable<F>, ch: &Vec<FE>) -> TraceTable<F> {
        if self.cfg.aux.is_empty() {
            return TraceTable::empty();
        }
        let w = main.n_cols;
        let cols: Vec<Vec<FE>> = (0..w).map(|c| (0..main.table.len() / w).map(|r| main.table[r * w + c]).collect()).collect();
        let a = self.cfg.aux_columns(&cols, ch);
        let mut t = vec![];
        for r in 0..self.cfg.n {
            for c in &a {
                t.push(c[r]);
            }
        }
        TraceTable { table: t, n_cols: a.len() }
    }
    fn build_rap_challenges<T: Transcript>(&self, t: &mut T) -> Vec<FE> {
        (0..self.cfg.n_chal).map(|_| transcript_to_field(t)).collect()
    }
    fn number_auxiliary_rap_columns(&self) -> usize {
        self.cfg.aux.len()
    }
    fn composition_poly_degree_bound(&self) -> usize {
        self.cfg.bound
    }
    fn compute_transition(&self, f: &Frame<F>, ch: &Vec<FE>) -> Vec<FE> {
        let rows: Vec<Vec<FE>> = (0..self.cfg.offsets.len()).map(|r| f.get_row(r).to_vec()).collect();
        (0..self.cfg.constraints.len()).map(|k| self.cfg.eval_constraint(k, &|r, c| rows[r][c], ch)).collect()
    }
    fn boundary_constraints(&self, _: &Vec<FE>) -> BoundaryConstraints<F> {
        BoundaryConstraints { constraints: self.cfg.boundary.iter().map(|(c, s, v)| BoundaryConstraint { col: *c, step: *s, value: *v }).collect() }
    }
    fn context(&self) -> &AirContext {
        &self.context
    }
    fn trace_length(&self) -> usize {
        self.cfg.n
    }
    fn pub_inputs(&self) -> &Cfg {
        &self.cfg
    }
}

/// A random AIR with a main trace (columns) that satisfies it.
pub fn gen_air(r: &mut Rng, max_log: u32) -> (Cfg, Vec<Vec<FE>>) {
    let log = r.range(1, max_log as u64 + 1) as u32;
    let n = 1usize << log;
    let offsets: Vec<usize> = if n == 2 {
        vec![0, 1]
    } else {
        r.pick(&[vec![0, 1], vec![0, 1], vec![0, 1, 2], vec![0, 2], vec![0, 1, 3], vec![0, 3], vec![0]]).clone()
    };
    let offsets: Vec<usize> = offsets.into_iter().filter(|o| *o < n).collect();
    let last = *offsets.last().unwrap();
    let nb = 2 * n;
    // Exemptions must keep bound + exempt - degree < 2n.
    let max_degree = r.range(1, 4) as usize;
    let bound = if max_degree == 3 || r.bool() { nb } else { n };
    let room = |d: usize| (nb - 1 + d).saturating_sub(bound);
    let want = r.usize(1, 5);
    let mut cols: Vec<Vec<FE>> = vec![(0..n).map(|_| r.fe()).collect()];
    let mut constraints = vec![];
    while cols.len() < want {
        let c = cols.len();
        let d = r.usize(1, max_degree + 1);
        let prev = |r: &mut Rng| r.usize(0, c);
        match r.below(4) {
            0 => cols.push((0..n).map(|_| r.fe()).collect()),
            1 => {
                // same-row: t_c = k * product of d earlier cells + k2
                let src: Vec<usize> = (0..d).map(|_| prev(r)).collect();
                let (k, k2) = (r.fe(), r.fe());
                cols.push((0..n).map(|i| src.iter().fold(k, |a, s| a * cols[*s][i]) + k2).collect());
                let e = if r.bool() { 0 } else { r.usize(0, room(d).min(2).min(n) + 1) };
                constraints.push(Constraint {
                    terms: vec![
                        Term { c: FE::one(), cells: vec![(0, c)], chal: vec![] },
                        Term { c: -k, cells: src.iter().map(|s| (0, *s)).collect(), chal: vec![] },
                        Term { c: -k2, cells: vec![], chal: vec![] },
                    ],
                    degree: d,
                    exempt: e,
                });
                // exempt rows need not satisfy it
                for i in n - e..n {
                    cols[c][i] = r.fe();
                }
            }
            2 if last > 0 => {
                // recurrence over the frame
                let e = last + if r.chance(1, 4) { r.usize(0, 3) } else { 0 };
                if e > room(d) || e > n {
                    continue;
                }
                let lr = offsets.len() - 1;
                let mut src = vec![(r.usize(0, lr), c)];
                for _ in 1..d {
                    src.push((r.usize(0, lr + 1), prev(r)));
                }
                let extra = (r.usize(0, lr + 1), prev(r));
                let (k, k2) = (r.fe_uniform(), r.fe());
                let mut col: Vec<FE> = (0..n).map(|_| r.fe()).collect();
                for i in 0..n - e {
                    let cell = |(fr, cc): (usize, usize)| if cc == c { col[i + offsets[fr]] } else { cols[cc][(i + offsets[fr]) % n] };
                    let v = src.iter().fold(k, |a, s| a * cell(*s)) + k2 * cell(extra);
                    col[i + last] = v;
                }
                cols.push(col);
                constraints.push(Constraint {
                    terms: vec![
                        Term { c: FE::one(), cells: vec![(lr, c)], chal: vec![] },
                        Term { c: -k, cells: src, chal: vec![] },
                        Term { c: -k2, cells: vec![extra], chal: vec![] },
                    ],
                    degree: d,
                    exempt: e,
                });
            }
            _ if last > 0 => {
                // constant column, cyclic constraint
                let v = r.fe();
                cols.push(vec![v; n]);
                constraints.push(Constraint {
                    terms: vec![
                        Term { c: FE::one(), cells: vec![(offsets.len() - 1, c)], chal: vec![] },
                        Term { c: -FE::one(), cells: vec![(0, c)], chal: vec![] },
                    ],
                    degree: 1,
                    exempt: 0,
                });
            }
            _ => {}
        }
    }
    let mut aux = vec![];
    let mut n_chal = 0;
    if r.bool() && offsets.len() > 1 && offsets[1] == 1 && room(2) >= 1 && bound >= n {
        n_chal = r.usize(1, 3);
        for _ in 0..r.usize(1, 3) {
            let me = cols.len() + aux.len();
            let g = r.usize(0, n_chal);
            let a = r.usize(0, cols.len());
            if r.bool() {
                aux.push(Aux::Product(a, g));
                constraints.push(Constraint {
                    terms: vec![
                        Term { c: FE::one(), cells: vec![(1, me)], chal: vec![] },
                        Term { c: -FE::one(), cells: vec![(0, me), (0, a)], chal: vec![] },
                        Term { c: -FE::one(), cells: vec![(0, me)], chal: vec![g] },
                    ],
                    degree: 2,
                    exempt: 1,
                });
            } else {
                // a column that is a rearrangement of column a: find or use a itself
                let mut b = a;
                if cols.len() < 6 && aux.is_empty() {
                    let mut p = cols[a].clone();
                    r.shuffle(&mut p);
                    cols.push(p);
                    b = cols.len() - 1;
                }
                let me = cols.len() + aux.len();
                aux.push(Aux::Permutation(a, b, g));
                constraints.push(Constraint {
                    terms: vec![
                        Term { c: FE::one(), cells: vec![(1, me), (0, b)], chal: vec![] },
                        Term { c: FE::one(), cells: vec![(1, me)], chal: vec![g] },
                        Term { c: -FE::one(), cells: vec![(0, me), (0, a)], chal: vec![] },
                        Term { c: -FE::one(), cells: vec![(0, me)], chal: vec![g] },
                    ],
                    degree: 2,
                    exempt: 0,
                });
            }
        }
        // columns pushed after the first aux constraint would shift indices; they never are
    }
    if constraints.is_empty() {
        let k = r.fe();
        constraints.push(Constraint {
            terms: vec![
                Term { c: k, cells: vec![(0, 0)], chal: vec![] },
                Term { c: -k, cells: vec![(0, 0)], chal: vec![] },
            ],
            degree: 1,
            exempt: 0,
        });
    }
    // Sometimes the order of constraints differs from the order of columns.
    if r.bool() {
        r.shuffle(&mut constraints);
    }
    let mut boundary = vec![];
    for _ in 0..r.usize(1, 5) {
        let c = r.usize(0, cols.len());
        let s = *r.pick(&[0, n - 1, r.clone().usize(0, n)]);
        if !boundary.iter().any(|(a, b, _)| *a == c && *b == s) {
            boundary.push((c, s, cols[c][s]));
        }
    }
    for j in 0..aux.len() {
        if r.bool() {
            boundary.push((cols.len() + j, 0, FE::one()));
        }
    }
    let cfg = Cfg {
        n,
        main: cols.len(),
        aux,
        n_chal,
        offsets,
        constraints,
        boundary,
        bound,
        blowup: *r.pick(&[2u8, 2, 4, 4, 8, 16]),
        queries: r.usize(1, 6),
        coset: *r.pick(&[3u64, 3, 5, 7, 11, 1234567, u64::MAX - 4]),
        grinding: *r.pick(&[0u8, 0, 1, 3, 6]),
    };
    (cfg, cols)
}

pub fn table_of(cols: &[Vec<FE>]) -> TraceTable<F> {
    let n = cols[0].len();
    let mut t = vec![];
    for i in 0..n {
        for c in cols {
            t.push(c[i]);
        }
    }
    TraceTable { table: t, n_cols: cols.len() }
}

// ---------------------------------------------------------------- what the protocol says
/// Everything the verifier draws.
#[derive(Clone, Debug, Default)]
pub struct Drawn {
    pub rap: Vec<FE>,
    pub b: Vec<(FE, FE)>,
    pub t: Vec<(FE, FE)>,
    pub z: FE0,
    pub gamma: Vec<FE>,
    pub trace_coeffs: Vec<Vec<FE>>, // [column][offset]
    pub zetas: Vec<FE>,
    pub grind_seed: [u8; 32],
    pub iotas: Vec<usize>,
}
#[derive(Clone, Copy, Debug)]
pub struct FE0(pub FE);
impl Default for FE0 {
    fn default() -> Self {
        FE0(FE::zero())
    }
}
fn in_domains(cfg: &Cfg, z: FE) -> bool {
    let l = cfg.lde();
    pow(z, cfg.n as u64) == FE::one() || pow(z * cfg.h().inv(), l as u64) == FE::one()
}
pub fn frame_row(p: &P, i: usize) -> Vec<FE> {
    p.trace_ood_frame_evaluations.get_row(i).to_vec()
}
/// The challenges an honest verifier draws on `p`.
pub fn draw(cfg: &Cfg, p: &P) -> Drawn {
    let mut d = Drawn::default();
    let t = &mut DefaultTranscript::new();
    t.append(&p.lde_trace_merkle_roots[0]);
    d.rap = (0..cfg.n_chal).map(|_| challenge(t)).collect();
    if let Some(r) = p.lde_trace_merkle_roots.get(1) {
        t.append(r);
    }
    draw_coeffs(cfg, t, &mut d);
    t.append(&p.composition_poly_root);
    d.z = FE0(draw_z(cfg, t));
    t.append(&p.composition_poly_even_ood_evaluation.to_bytes_be());
    t.append(&p.composition_poly_odd_ood_evaluation.to_bytes_be());
    for i in 0..cfg.offsets.len() {
        for e in frame_row(p, i) {
            t.append(&e.to_bytes_be());
        }
    }
    draw_deep(cfg, t, &mut d);
    for r in &p.fri_layers_merkle_roots {
        t.append(r);
        d.zetas.push(challenge(t));
    }
    t.append(&p.fri_last_value.to_bytes_be());
    d.grind_seed = t.challenge();
    t.append(&p.nonce.to_be_bytes());
    d.iotas = (0..cfg.queries).map(|_| index(t, cfg.lde())).collect();
    d
}
fn draw_coeffs(cfg: &Cfg, t: &mut DefaultTranscript, d: &mut Drawn) {
    let mut v = |k: usize| (0..k).map(|_| challenge(t)).collect::<Vec<_>>();
    let (nb, nt) = (cfg.boundary.len(), cfg.constraints.len());
    let (ba, bb, ta, tb) = (v(nb), v(nb), v(nt), v(nt));
    d.b = ba.into_iter().zip(bb).collect();
    d.t = ta.into_iter().zip(tb).collect();
}
fn draw_z(cfg: &Cfg, t: &mut DefaultTranscript) -> FE {
    loop {
        let z = challenge(t);
        if !in_domains(cfg, z) {
            return z;
        }
    }
}
fn draw_deep(cfg: &Cfg, t: &mut DefaultTranscript, d: &mut Drawn) {
    d.gamma = vec![challenge(t), challenge(t)];
    d.trace_coeffs = (0..cfg.columns()).map(|_| (0..cfg.offsets.len()).map(|_| challenge(t)).collect()).collect();
}

/// Value of the composition at x, given the frame of trace values there.
pub fn composition_at(cfg: &Cfg, d: &Drawn, x: FE, frame: &dyn Fn(usize, usize) -> FE) -> FE {
    let g = root(cfg.n.trailing_zeros());
    let n = cfg.n as u64;
    let mut acc = FE::zero();
    for ((col, step, v), (a, b)) in cfg.boundary.iter().zip(&d.b) {
        let num = frame(0, *col) - *v;
        acc = acc + num * (x - pow(g, *step as u64)).inv() * (*a * pow(x, cfg.bound as u64 - n) + *b);
    }
    let zinv = (pow(x, n) - FE::one()).inv();
    for (k, (a, b)) in d.t.iter().enumerate() {
        let c = &cfg.constraints[k];
        // rows n-exempt .. n-1 are exempt
        let ex = (0..c.exempt).fold(FE::one(), |acc, j| acc * (x - pow(g, n - 1 - j as u64)));
        let adj = cfg.bound as u64 - n * (c.degree as u64 - 1);
        acc = acc + cfg.eval_constraint(k, frame, &d.rap) * ex * zinv * (*a * pow(x, adj) + *b);
    }
    acc
}
/// frame of polynomial values at x
pub fn poly_frame(cfg: &Cfg, polys: &[Poly], x: FE) -> Vec<Vec<FE>> {
    let g = root(cfg.n.trailing_zeros());
    cfg.offsets.iter().map(|o| polys.iter().map(|p| ev(p, x * pow(g, *o as u64))).collect()).collect()
}
pub fn polys_of(cols: &[Vec<FE>]) -> Vec<Poly> {
    cols.iter().map(|c| interpolate_coset(c, FE::one())).collect()
}
pub fn deep_poly(cfg: &Cfg, d: &Drawn, polys: &[Poly], h: &[Poly; 2]) -> Poly {
    let g = root(cfg.n.trailing_zeros());
    let z = d.z.0;
    let mut p = padd(&pscale(&quotient(&h[0], z * z), d.gamma[0]), &pscale(&quotient(&h[1], z * z), d.gamma[1]));
    for (j, t) in polys.iter().enumerate() {
        for (k, o) in cfg.offsets.iter().enumerate() {
            p = padd(&p, &pscale(&quotient(t, z * pow(g, *o as u64)), d.trace_coeffs[j][k]));
        }
    }
    p
}
pub fn fold(p: &[FE], zeta: FE) -> Poly {
    (0..(p.len() + 1) / 2).map(|i| p[2 * i] + zeta * p.get(2 * i + 1).copied().unwrap_or(FE::zero())).collect()
}

/// One departure from the protocol; everything after it stays consistent with it.
#[derive(Clone, Debug, PartialEq)]
pub enum Cheat {
    None,
    /// commit to these H halves (coefficients mod degree n) instead of the composition
    RandomH(u64),
    /// commit root of other rows for table i (0 main, 1 aux, 2 composition); openings keep claimed values
    FakeRoot(u8),
    /// FRI starts from another polynomial of low degree
    OtherP0(u64),
    /// FRI layer k (>=1) commits to another low-degree polynomial
    OtherLayer(usize, u64),
    /// send another final value
    OtherLast(u64),
    /// nonce that misses the difficulty
    BadNonce,
    /// a trace that breaks its constraints: H is computed as if it satisfied them (pointwise on the domain)
    HighDegreeP0,
    /// layer k's tree is built over other values than the ones opened
    FakeLayerRoot(usize),
    /// openings at the next index instead of the drawn one, for trace/composition
    ShiftedOpenings,
    /// FRI openings at another index than the drawn one
    ShiftedFri,
}

pub struct Spec {
    pub proof: P,
    pub polys: Vec<Poly>,
    pub h: [Poly; 2],
    pub p0: Poly,
    pub drawn: Drawn,
    pub low_degree: bool,
}

fn rows_tree(cols: &[Vec<FE>]) -> BTree {
    let rows: Vec<Vec<FE>> = (0..cols[0].len()).map(|i| cols.iter().map(|c| c[i]).collect()).collect();
    BTree::build(&rows)
}

/// The proof the protocol prescribes for these main columns.
pub fn spec_prove(cfg: &Cfg, main: &[Vec<FE>], cheat: &Cheat) -> Spec {
    let (n, l, hh) = (cfg.n, cfg.lde(), cfg.h());
    let mut d = Drawn::default();
    let t = &mut DefaultTranscript::new();
    let mut polys = polys_of(main);
    let mut lde: Vec<Vec<FE>> = polys.iter().map(|p| coset_evals(p, l, hh)).collect();
    let fake = |v: &[Vec<FE>]| v.iter().map(|c| c.iter().map(|x| *x + FE::one()).collect::<Vec<_>>()).collect::<Vec<_>>();
    let mut trees = vec![if *cheat == Cheat::FakeRoot(0) { rows_tree(&fake(&lde)) } else { rows_tree(&lde) }];
    t.append(&trees[0].root);
    d.rap = (0..cfg.n_chal).map(|_| challenge(t)).collect();
    if !cfg.aux.is_empty() {
        let aux = cfg.aux_columns(main, &d.rap);
        let ap = polys_of(&aux);
        let al: Vec<Vec<FE>> = ap.iter().map(|p| coset_evals(p, l, hh)).collect();
        trees.push(if *cheat == Cheat::FakeRoot(1) { rows_tree(&fake(&al)) } else { rows_tree(&al) });
        t.append(&trees[1].root);
        polys.extend(ap);
        lde.extend(al);
    }
    draw_coeffs(cfg, t, &mut d);
    // composition: evaluate on a coset large enough, interpolate
    let w = root(l.trailing_zeros());
    let evals: Vec<FE> = (0..l)
        .map(|i| {
            let b = cfg.blowup as usize;
            composition_at(cfg, &d, hh * pow(w, i as u64), &|r, c| lde[c][(i + cfg.offsets[r] * b) % l])
        })
        .collect();
    let hfull = interpolate_coset(&evals, hh);
    let low_degree = hfull.iter().skip(2 * n).all(|c| *c == FE::zero());
    let mut h: [Poly; 2] = [hfull.iter().step_by(2).copied().collect(), hfull.iter().skip(1).step_by(2).copied().collect()];
    for x in h.iter_mut() {
        *x = trim(x);
        x.resize(x.len().max(n), FE::zero());
    }
    if let Cheat::RandomH(s) = cheat {
        let mut r = Rng::new(*s);
        h = [(0..n).map(|_| r.fe_uniform()).collect(), (0..n).map(|_| r.fe_uniform()).collect()];
    }
    let hl: Vec<Vec<FE>> = h.iter().map(|p| coset_evals(p, l, hh)).collect();
    let htree = if *cheat == Cheat::FakeRoot(2) { rows_tree(&fake(&hl)) } else { rows_tree(&hl) };
    t.append(&htree.root);
    let z = draw_z(cfg, t);
    d.z = FE0(z);
    let (h1z, h2z) = (ev(&h[0], z * z), ev(&h[1], z * z));
    t.append(&h1z.to_bytes_be());
    t.append(&h2z.to_bytes_be());
    let ood = poly_frame(cfg, &polys, z);
    for r in &ood {
        for e in r {
            t.append(&e.to_bytes_be());
        }
    }
    draw_deep(cfg, t, &mut d);
    let mut p0 = deep_poly(cfg, &d, &polys, &h);
    p0.truncate(p0.len().max(1));
    match cheat {
        Cheat::OtherP0(s) => {
            let mut r = Rng::new(*s);
            p0 = (0..n).map(|_| r.fe_uniform()).collect();
        }
        Cheat::HighDegreeP0 => {
            p0.resize(n, FE::zero());
            p0.extend((0..n).map(|i| FE::from(i as u64 + 1)));
        }
        _ => {}
    }
    // FRI
    let k = n.trailing_zeros() as usize;
    let mut layers: Vec<(Vec<FE>, FTree)> = vec![];
    let mut p = p0.clone();
    let (mut size, mut off) = (l, hh);
    for i in 0..k {
        if i > 0 {
            let zeta = *d.zetas.last().unwrap();
            p = fold(&p, zeta);
            size /= 2;
            off = off * off;
        }
        if let Cheat::OtherLayer(j, s) = cheat {
            if *j == i && i > 0 {
                let mut r = Rng::new(*s);
                p = (0..(n >> i).max(1)).map(|_| r.fe_uniform()).collect();
            }
        }
        let e = coset_evals(&p, size, off);
        let tree = if *cheat == Cheat::FakeLayerRoot(i) { FTree::build(&e.iter().map(|x| *x + FE::one()).collect::<Vec<_>>()) } else { FTree::build(&e) };
        t.append(&tree.root);
        d.zetas.push(challenge(t));
        layers.push((e, tree));
    }
    p = fold(&p, *d.zetas.last().unwrap());
    let mut last = p.first().copied().unwrap_or(FE::zero());
    if let Cheat::OtherLast(s) = cheat {
        last = last + Rng::new(*s).fe_uniform();
    }
    t.append(&last.to_bytes_be());
    d.grind_seed = t.challenge();
    let nonce = (0..u64::MAX)
        .find(|c| {
            let ok = measure(&d.grind_seed, *c) >= cfg.grinding as u32;
            if *cheat == Cheat::BadNonce {
                !ok
            } else {
                ok
            }
        })
        .unwrap();
    t.append(&nonce.to_be_bytes());
    d.iotas = (0..cfg.queries).map(|_| index(t, l)).collect();
    let path = |p: Option<Proof<[u8; 32]>>| p.unwrap();
    let query_list = d
        .iotas
        .iter()
        .map(|i| {
            let i = if *cheat == Cheat::ShiftedFri { (*i + 1) % l } else { *i };
            let mut f = FriDecommitment { layers_auth_paths_sym: vec![], layers_evaluations_sym: vec![], layers_auth_paths: vec![], layers_evaluations: vec![] };
            for (e, tree) in &layers {
                let (a, b) = (i % e.len(), (i + e.len() / 2) % e.len());
                f.layers_evaluations.push(e[a]);
                f.layers_evaluations_sym.push(e[b]);
                f.layers_auth_paths.push(path(tree.get_proof_by_pos(a)));
                f.layers_auth_paths_sym.push(path(tree.get_proof_by_pos(b)));
            }
            f
        })
        .collect();
    let deep_poly_openings = d
        .iotas
        .iter()
        .map(|i| {
            let i = if *cheat == Cheat::ShiftedOpenings { (*i + 1) % l } else { *i };
            DeepPolynomialOpenings {
                lde_composition_poly_proof: path(htree.get_proof_by_pos(i)),
                lde_composition_poly_even_evaluation: hl[0][i],
                lde_composition_poly_odd_evaluation: hl[1][i],
                lde_trace_merkle_proofs: trees.iter().map(|t| path(t.get_proof_by_pos(i))).collect(),
                lde_trace_evaluations: lde.iter().map(|c| c[i]).collect(),
            }
        })
        .collect();
    let proof = StarkProof {
        trace_length: n,
        lde_trace_merkle_roots: trees.iter().map(|t| t.root).collect(),
        trace_ood_frame_evaluations: Frame::new(ood.concat(), cfg.columns()),
        composition_poly_root: htree.root,
        composition_poly_even_ood_evaluation: h1z,
        composition_poly_odd_ood_evaluation: h2z,
        fri_layers_merkle_roots: layers.iter().map(|(_, t)| t.root).collect(),
        fri_last_value: last,
        query_list,
        deep_poly_openings,
        nonce,
    };
    Spec { proof, polys, h, p0, drawn: d, low_degree }
}

// ---------------------------------------------------------------- comparing proofs
pub fn clone_proof(p: &P) -> P {
    StarkProof {
        trace_length: p.trace_length,
        lde_trace_merkle_roots: p.lde_trace_merkle_roots.clone(),
        trace_ood_frame_evaluations: p.trace_ood_frame_evaluations.clone(),
        composition_poly_root: p.composition_poly_root,
        composition_poly_even_ood_evaluation: p.composition_poly_even_ood_evaluation,
        composition_poly_odd_ood_evaluation: p.composition_poly_odd_ood_evaluation,
        fri_layers_merkle_roots: p.fri_layers_merkle_roots.clone(),
        fri_last_value: p.fri_last_value,
        query_list: p.query_list.clone(),
        deep_poly_openings: p.deep_poly_openings.clone(),
        nonce: p.nonce,
    }
}
fn q_eq(a: &FriDecommitment<F>, b: &FriDecommitment<F>) -> bool {
    let m = |x: &[Proof<[u8; 32]>], y: &[Proof<[u8; 32]>]| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.merkle_path == q.merkle_path);
    a.layers_evaluations == b.layers_evaluations
        && a.layers_evaluations_sym == b.layers_evaluations_sym
        && m(&a.layers_auth_paths, &b.layers_auth_paths)
        && m(&a.layers_auth_paths_sym, &b.layers_auth_paths_sym)
}
fn o_eq(a: &DeepPolynomialOpenings<F>, b: &DeepPolynomialOpenings<F>) -> bool {
    a.lde_composition_poly_proof.merkle_path == b.lde_composition_poly_proof.merkle_path
        && a.lde_composition_poly_even_evaluation == b.lde_composition_poly_even_evaluation
        && a.lde_composition_poly_odd_evaluation == b.lde_composition_poly_odd_evaluation
        && a.lde_trace_evaluations == b.lde_trace_evaluations
        && a.lde_trace_merkle_proofs.len() == b.lde_trace_merkle_proofs.len()
        && a.lde_trace_merkle_proofs.iter().zip(&b.lde_trace_merkle_proofs).all(|(p, q)| p.merkle_path == q.merkle_path)
}
/// Name of the first part in which two proofs differ.
pub fn first_difference(a: &P, b: &P) -> Option<&'static str> {
    if a.trace_length != b.trace_length {
        return Some("trace_length");
    }
    if a.lde_trace_merkle_roots != b.lde_trace_merkle_roots {
        return Some("lde_trace_merkle_roots");
    }
    if a.composition_poly_root != b.composition_poly_root {
        return Some("composition_poly_root");
    }
    if a.composition_poly_even_ood_evaluation != b.composition_poly_even_ood_evaluation {
        return Some("composition_poly_even_ood_evaluation");
    }
    if a.composition_poly_odd_ood_evaluation != b.composition_poly_odd_ood_evaluation {
        return Some("composition_poly_odd_ood_evaluation");
    }
    if a.trace_ood_frame_evaluations != b.trace_ood_frame_evaluations {
        return Some("trace_ood_frame_evaluations");
    }
    if a.fri_layers_merkle_roots != b.fri_layers_merkle_roots {
        return Some("fri_layers_merkle_roots");
    }
    if a.fri_last_value != b.fri_last_value {
        return Some("fri_last_value");
    }
    if a.nonce != b.nonce {
        return Some("nonce");
    }
    if a.query_list.len() != b.query_list.len() || !a.query_list.iter().zip(&b.query_list).all(|(x, y)| q_eq(x, y)) {
        return Some("query_list");
    }
    if a.deep_poly_openings.len() != b.deep_poly_openings.len() || !a.deep_poly_openings.iter().zip(&b.deep_poly_openings).all(|(x, y)| o_eq(x, y)) {
        return Some("deep_poly_openings");
    }
    None
}
pub fn cols_text(c: &[Vec<FE>]) -> String {
    c.iter().map(|v| fhexs(v)).collect::<Vec<_>>().join(" ")
}
pub fn case_hash(cfg: &Cfg, cols: &[Vec<FE>]) -> u64 {
    hash_of(&format!("{}{}", cfg.describe(), cols_text(cols)))
}
