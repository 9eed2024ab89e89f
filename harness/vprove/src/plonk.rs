//! K01–K03 PLONK.
use crate::r1cs::circom_root;
use ark_bls12_381::Bls12_381;
use ark_bn254::Bn254;
use ark_ec::pairing::Pairing;
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup, PrimeGroup};
use ark_ff::{BigInteger, FftField, Field, PrimeField, UniformRand};
use ark_poly::univariate::DensePolynomial;
use circom_types::Witness;
use circom_types::plonk::{Additions, CircomPolynomial, PlonkProof, VerificationKey, VerifyingKey, Zkey};
use circom_types::traits::CircomArkworksPairingBridge;
use co_circom_types::*;
use co_plonk::*;
use engine::*;
use rand_chacha::ChaCha12Rng;
use sha3::{Digest, Keccak256};
use std::sync::Arc;
use vkit::*;

/// Curves with a circom representation.
trait Curve: Pairing<G1 = Projective<Self::C1>, G1Affine = Affine<Self::C1>> + CircomArkworksPairingBridge {
    type C1: SWCurveConfig<ScalarField = Self::ScalarField>;
    /// Some verification key of the curve: the type has a private field.
    const VK: &'static str;
    const NAME: &'static str;
}
impl Curve for Bn254 {
    type C1 = ark_bn254::g1::Config;
    const VK: &'static str = include_str!("vk_bn254.json");
    const NAME: &'static str = "bn254";
}
impl Curve for Bls12_381 {
    type C1 = ark_bls12_381::g1::Config;
    const VK: &'static str = include_str!("vk_bls12_381.json");
    const NAME: &'static str = "bls12_381";
}
type S<P> = <P as Pairing>::ScalarField;

macro_rules! any_curve_k {
    ($s:expr, $f:ident) => {
        match $s.weighted(&[3, 1]) {
            0 => $f::<Bn254>($s),
            _ => $f::<Bls12_381>($s),
        }
    };
}

#[derive(Clone)]
struct Gate<F> {
    w: [usize; 3],
    /// m, l, r, o, c
    q: [F; 5],
}
#[derive(Clone)]
struct Circuit<F: PrimeField> {
    n_public: usize,
    additions: Vec<(usize, usize, F, F)>,
    gates: Vec<Gate<F>>,
    /// signals that are not additions; the first one is not used
    z: Vec<F>,
}
impl<F: PrimeField> Circuit<F> {
    fn n_vars(&self) -> usize {
        self.z.len() + self.additions.len()
    }
    fn n(&self) -> usize {
        self.gates.len().next_power_of_two().max(8)
    }
    /// Values of all signals for the given values of those that are not additions.
    fn signals(&self, z: &[F]) -> Vec<F> {
        let mut v = z.to_vec();
        v[0] = F::zero();
        for (i, j, a, b) in &self.additions {
            v.push(v[*i] * a + v[*j] * b);
        }
        v
    }
    fn satisfied(&self, z: &[F], wires: &[[usize; 3]]) -> bool {
        let v = self.signals(z);
        self.gates.iter().zip(wires).enumerate().all(|(i, (g, w))| {
            let [a, b, c] = w.map(|x| v[x]);
            // the public rows are balanced by the public input polynomial
            let pi = if i < self.n_public { a } else { F::zero() };
            g.q[0] * a * b + g.q[1] * a + g.q[2] * b + g.q[3] * c + g.q[4] == pi
        })
    }
    fn wires(&self) -> Vec<[usize; 3]> {
        self.gates.iter().map(|g| g.w).collect()
    }
}

fn random_circuit<F: PrimeField>(s: &mut Src, max: usize) -> Circuit<F> {
    const ADD: usize = 1 << 40;
    let n_public = 1 + s.weighted(&[4, 3, 2, 1]);
    let mut z = vec![F::zero()];
    let free = s.range(1, 4);
    for _ in 0..n_public + free {
        z.push(felt(s));
    }
    let mut r = s.rng();
    let mut additions: Vec<(usize, usize, F, F)> = vec![];
    let mut addv: Vec<F> = vec![];
    let mut gates = vec![];
    for i in 0..n_public {
        let (o, i0) = (F::one(), F::zero());
        gates.push(Gate { w: [i + 1, 0, 0], q: [i0, o, i0, i0, i0] });
    }
    let mut m = s.range(1, max);
    if s.chance(1, 3) {
        // fill the domain, or just exceed it
        let p = (m + n_public).next_power_of_two().max(8);
        m = p - n_public + s.below(2) as usize;
    }
    let coef = |s: &mut Src, r: &mut ChaCha12Rng| match s.below(5) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => F::from(s.below(5)),
        _ => F::rand(r),
    };
    for _ in 0..m {
        let pick = |s: &mut Src, z: &[F], addv: &[F]| -> (usize, F) {
            if !addv.is_empty() && s.chance(1, 3) {
                let i = s.below(addv.len() as u64) as usize;
                (ADD + i, addv[i])
            } else {
                let i = s.below(z.len() as u64) as usize;
                (i, z[i])
            }
        };
        if s.chance(1, 3) {
            let (i, x) = pick(s, &z, &addv);
            let (j, y) = pick(s, &z, &addv);
            let (a, b) = (coef(s, &mut r), coef(s, &mut r));
            additions.push((i, j, a, b));
            addv.push(x * a + y * b);
        }
        let (i, a) = pick(s, &z, &addv);
        let (j, b) = pick(s, &z, &addv);
        let mut q = [coef(s, &mut r), coef(s, &mut r), coef(s, &mut r), F::zero(), F::zero()];
        let part = q[0] * a * b + q[1] * a + q[2] * b;
        let k = match s.below(5) {
            0 => {
                // balanced by the constant
                let (k, c) = pick(s, &z, &addv);
                q[3] = coef(s, &mut r);
                q[4] = -(part + q[3] * c);
                k
            }
            1 => {
                // no selectors at all: only the wiring matters
                q = [F::zero(); 5];
                pick(s, &z, &addv).0
            }
            _ => {
                q[3] = if s.bool() { -F::one() } else { nonzero(s) };
                q[4] = coef(s, &mut r);
                z.push(-(part + q[4]) * q[3].inverse().unwrap());
                z.len() - 1
            }
        };
        gates.push(Gate { w: [i, j, k], q });
    }
    let base = z.len();
    let fix = |x: usize| if x >= ADD { base + x - ADD } else { x };
    for g in gates.iter_mut() {
        g.w = g.w.map(fix);
    }
    for a in additions.iter_mut() {
        (a.0, a.1) = (fix(a.0), fix(a.1));
    }
    Circuit { n_public, additions, gates, z }
}

struct Key<P: Curve> {
    zkey: Zkey<P>,
    vk: VerificationKey<P>,
    tau: S<P>,
    w: S<P>,
    k1: S<P>,
    k2: S<P>,
    sigma: Vec<S<P>>,
}
/// Horner
fn eval<F: Field>(c: &[F], x: F) -> F {
    c.iter().rev().fold(F::zero(), |acc, a| acc * x + a)
}
/// In-place FFT with generator w.
fn fft<F: Field>(v: &mut Vec<F>, w: F) {
    let n = v.len();
    if n == 1 {
        return;
    }
    let mut e: Vec<F> = v.iter().step_by(2).copied().collect();
    let mut o: Vec<F> = v.iter().skip(1).step_by(2).copied().collect();
    fft(&mut e, w * w);
    fft(&mut o, w * w);
    let mut x = F::one();
    for i in 0..n / 2 {
        v[i] = e[i] + x * o[i];
        v[i + n / 2] = e[i] - x * o[i];
        x *= w;
    }
}
fn ifft<F: PrimeField>(v: &mut Vec<F>, w: F) {
    fft(v, w.inverse().unwrap());
    let k = F::from(v.len() as u64).inverse().unwrap();
    for x in v {
        *x *= k;
    }
}

fn keygen<P: Curve>(c: &Circuit<S<P>>, r: &mut ChaCha12Rng) -> Key<P> {
    let zero = S::<P>::from(0u64);
    let n = c.n();
    let pow = n.ilog2() as usize;
    let (w, w4) = (circom_root::<S<P>>(pow), circom_root::<S<P>>(pow + 2));
    let tau = S::<P>::rand(r);
    let (k1, k2) = loop {
        let (a, b) = (S::<P>::rand(r), S::<P>::rand(r));
        let one = S::<P>::from(1u64);
        let e = [n as u64];
        if a.pow(e) != one && b.pow(e) != one && a.pow(e) != b.pow(e) {
            break (a, b);
        }
    };
    let g = P::G1::generator();
    let commit = |co: &[S<P>]| -> P::G1Affine { (g * eval(co, tau)).into_affine() };
    let poly = |mut rows: Vec<S<P>>| -> CircomPolynomial<S<P>> {
        rows.resize(n, zero);
        ifft(&mut rows, w);
        let mut e = rows.clone();
        e.resize(4 * n, zero);
        fft(&mut e, w4);
        CircomPolynomial { coeffs: DensePolynomial { coeffs: rows }, evaluations: e }
    };
    let sel = |k: usize| poly(c.gates.iter().map(|g| g.q[k]).collect());
    // copy constraints: the positions of a signal form a cycle
    let mut w_pow = vec![S::<P>::from(1u64)];
    for i in 1..n {
        w_pow.push(w_pow[i - 1] * w);
    }
    let name = |pos: usize| match pos / n {
        0 => w_pow[pos % n],
        1 => k1 * w_pow[pos % n],
        _ => k2 * w_pow[pos % n],
    };
    let mut places: Vec<Vec<usize>> = vec![vec![]; c.n_vars()];
    for col in 0..3 {
        for i in 0..n {
            let sig = if i < c.gates.len() { c.gates[i].w[col] } else { 0 };
            places[sig].push(col * n + i);
        }
    }
    let mut sigma = vec![zero; 3 * n];
    for p in &places {
        for (i, x) in p.iter().enumerate() {
            sigma[*x] = name(p[(i + 1) % p.len()]);
        }
    }
    let col = |k: usize| poly(sigma[k * n..(k + 1) * n].to_vec());
    let (qm, ql, qr, qo, qc) = (sel(0), sel(1), sel(2), sel(3), sel(4));
    let (s1, s2, s3) = (col(0), col(1), col(2));
    let lagrange = (0..c.n_public)
        .map(|i| {
            let mut v = vec![zero; n];
            v[i] = S::<P>::from(1u64);
            poly(v)
        })
        .collect();
    let mut p_tau = vec![];
    let mut x = S::<P>::from(1u64);
    for _ in 0..n + 6 {
        p_tau.push(g * x);
        x *= tau;
    }
    let vkey = VerifyingKey::<P> {
        k1,
        k2,
        qm: commit(&qm.coeffs),
        ql: commit(&ql.coeffs),
        qr: commit(&qr.coeffs),
        qo: commit(&qo.coeffs),
        qc: commit(&qc.coeffs),
        s1: commit(&s1.coeffs),
        s2: commit(&s2.coeffs),
        s3: commit(&s3.coeffs),
        x_2: (P::G2::generator() * tau).into_affine(),
    };
    let mut vk: VerificationKey<P> = serde_json::from_str(P::VK).expect("template");
    vk.n_public = c.n_public;
    vk.power = pow;
    (vk.k1, vk.k2) = (k1, k2);
    (vk.qm, vk.ql, vk.qr, vk.qo, vk.qc) = (vkey.qm, vkey.ql, vkey.qr, vkey.qo, vkey.qc);
    (vk.s1, vk.s2, vk.s3, vk.x2) = (vkey.s1, vkey.s2, vkey.s3, vkey.x_2);
    let zkey = Zkey {
        n_vars: c.n_vars(),
        n_public: c.n_public,
        domain_size: n,
        pow,
        n_additions: c.additions.len(),
        n_constraints: c.gates.len(),
        verifying_key: vkey,
        additions: c.additions.iter().map(|(i, j, a, b)| Additions { signal_id1: *i as u32, signal_id2: *j as u32, factor1: *a, factor2: *b }).collect(),
        map_a: c.gates.iter().map(|g| g.w[0]).collect(),
        map_b: c.gates.iter().map(|g| g.w[1]).collect(),
        map_c: c.gates.iter().map(|g| g.w[2]).collect(),
        qm_poly: qm,
        ql_poly: ql,
        qr_poly: qr,
        qo_poly: qo,
        qc_poly: qc,
        s1_poly: s1,
        s2_poly: s2,
        s3_poly: s3,
        lagrange,
        p_tau: P::G1::normalize_batch(&p_tau),
    };
    Key { zkey, vk, tau, w, k1, k2, sigma }
}

// ---- an independent verifier, as snarkjs specifies it ----
struct Hash(Keccak256);
impl Hash {
    fn new() -> Self {
        Hash(Keccak256::new())
    }
    fn f<F: PrimeField>(mut self, x: F) -> Self {
        // whole 64-bit words, most significant first
        let b = x.into_bigint().to_bytes_be();
        self.0.update(&b);
        self
    }
    fn p<C: SWCurveConfig>(mut self, x: Affine<C>) -> Self
    where
        C::BaseField: PrimeField,
    {
        let len = (C::BaseField::MODULUS_BIT_SIZE as usize).div_ceil(8);
        match x.xy() {
            Some((a, b)) => {
                for c in [a, b] {
                    let v = c.into_bigint().to_bytes_be();
                    self.0.update(&v[v.len() - len..]);
                }
            }
            None => self.0.update(vec![0u8; 2 * len]),
        }
        self
    }
    fn out<F: PrimeField>(self) -> F {
        F::from_be_bytes_mod_order(&self.0.finalize())
    }
}
struct Challenges<F> {
    beta: F,
    gamma: F,
    alpha: F,
    xi: F,
    v: F,
    u: F,
}

fn challenges<P: Curve>(vk: &VerificationKey<P>, p: &PlonkProof<P>, x: &[S<P>]) -> Challenges<S<P>>
where
    <P::C1 as ark_ec::CurveConfig>::BaseField: PrimeField,
{
    let mut h = Hash::new();
    for q in [vk.qm, vk.ql, vk.qr, vk.qo, vk.qc, vk.s1, vk.s2, vk.s3] {
        h = h.p(q);
    }
    for v in x {
        h = h.f(*v);
    }
    let beta: S<P> = h.p(p.a).p(p.b).p(p.c).out();
    let gamma: S<P> = Hash::new().f(beta).out();
    let alpha: S<P> = Hash::new().f(beta).f(gamma).p(p.z).out();
    let xi: S<P> = Hash::new().f(alpha).p(p.t1).p(p.t2).p(p.t3).out();
    let v = Hash::new().f(xi).f(p.eval_a).f(p.eval_b).f(p.eval_c).f(p.eval_s1).f(p.eval_s2).f(p.eval_zw).out();
    let u = Hash::new().p(p.wxi).p(p.wxiw).out();
    Challenges { beta, gamma, alpha, xi, v, u }
}
/// The linearised polynomial at xi as a commitment: [r], with r(xi) = 0 for a valid proof.
fn linearised<P: Curve>(vk: &VerificationKey<P>, p: &PlonkProof<P>, x: &[S<P>], ch: &Challenges<S<P>>) -> P::G1 {
    let n = 1u64 << vk.power;
    let w = circom_root::<S<P>>(vk.power);
    let one = S::<P>::from(1u64);
    let zh = ch.xi.pow([n]) - one;
    let ninv = S::<P>::from(n).inverse().unwrap();
    let mut l = vec![];
    let mut wi = one;
    for _ in 0..x.len().max(1) {
        l.push(wi * zh * ninv * (ch.xi - wi).inverse().unwrap());
        wi *= w;
    }
    let pi: S<P> = -x.iter().zip(&l).map(|(a, b)| *a * b).sum::<S<P>>();
    let (a, b, c) = (p.eval_a, p.eval_b, p.eval_c);
    let (bx, g) = (ch.beta * ch.xi, ch.gamma);
    let xn = zh + one;
    let gate = vk.qm * (a * b) + vk.ql * a + vk.qr * b + vk.qo * c + vk.qc + P::G1::generator() * pi;
    let num = (a + bx + g) * (b + bx * vk.k1 + g) * (c + bx * vk.k2 + g);
    let den = (a + ch.beta * p.eval_s1 + g) * (b + ch.beta * p.eval_s2 + g) * p.eval_zw;
    let perm = p.z * num - (vk.s3 * ch.beta + P::G1::generator() * (c + g)) * den;
    let start = (p.z.into_group() - P::G1::generator()) * l[0];
    let quot = (p.t1.into_group() + p.t2 * xn + p.t3 * (xn * xn)) * zh;
    gate + perm * ch.alpha + start * (ch.alpha * ch.alpha) - quot
}
/// What the opening at xi must be: [(r(X) + v(a(X) - a) + ...)].
fn opening<P: Curve>(vk: &VerificationKey<P>, p: &PlonkProof<P>, x: &[S<P>], ch: &Challenges<S<P>>) -> P::G1 {
    let g = P::G1::generator();
    let mut acc = linearised(vk, p, x, ch);
    let mut v = ch.v;
    for (com, val) in [(p.a, p.eval_a), (p.b, p.eval_b), (p.c, p.eval_c), (vk.s1, p.eval_s1), (vk.s2, p.eval_s2)] {
        acc += (com.into_group() - g * val) * v;
        v *= ch.v;
    }
    acc
}
fn independent<P: Curve>(vk: &VerificationKey<P>, p: &PlonkProof<P>, x: &[S<P>]) -> bool
where
    <P::C1 as ark_ec::CurveConfig>::BaseField: PrimeField,
{
    if x.len() != vk.n_public {
        return false;
    }
    let ch = challenges(vk, p, x);
    let o1 = opening(vk, p, x, &ch);
    let o2 = p.z.into_group() - P::G1::generator() * p.eval_zw;
    let xiw = ch.xi * circom_root::<S<P>>(vk.power);
    // e(W1, tau - xi) e(W2, tau - xi w)^u = e(o1 + u o2, 1)
    let h = P::G2::generator();
    let lhs = P::pairing(p.wxi, vk.x2.into_group() - h * ch.xi) + P::pairing(p.wxiw * ch.u, vk.x2.into_group() - h * xiw);
    lhs == P::pairing(o1 + o2 * ch.u, h)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Prover {
    Plain,
    Shamir(usize, usize),
    Rep3,
}
fn any_prover(s: &mut Src) -> Prover {
    match s.weighted(&[4, 3, 1]) {
        0 => Prover::Plain,
        1 => {
            let t = s.weighted(&[1, 6, 2]);
            let n = (2 * t + 1).max(3) + s.weighted(&[5, 1, 1]);
            Prover::Shamir(n, t)
        }
        _ => Prover::Rep3,
    }
}
fn outcomes<P: Curve>(prover: Prover, zkey: &Arc<Zkey<P>>, publics: &[S<P>], private: &[S<P>], r: &mut ChaCha12Rng) -> Vec<Out<PlonkProof<P>>> {
    let l = publics.len();
    let all = Witness { values: [publics, private].concat() };
    match prover {
        Prover::Plain => {
            run_with(vec![()], |_, _| Plonk::<P>::plain_prove(zkey.clone(), SharedWitness { public_inputs: publics.to_vec(), witness: private.to_vec() }))
        }
        Prover::Shamir(n, t) => {
            let ws = ShamirSharedWitness::share_shamir(all, l, t, n, r);
            run_nets(n, 8, None, ws, |_, nets, w| {
                let nets: &[TNet; 8] = nets.try_into().unwrap();
                ShamirCoPlonk::<P>::prove(nets, n, t, zkey.clone(), w)
            })
        }
        Prover::Rep3 => {
            let ws = Rep3SharedWitness::share_rep3(all, l, r).to_vec();
            run_nets(3, 8, None, ws, |_, nets, w| {
                let nets: &[TNet; 8] = nets.try_into().unwrap();
                Rep3CoPlonk::<P>::prove(nets, zkey.clone(), w)
            })
        }
    }
}
fn points<P: Curve>(p: &PlonkProof<P>) -> [P::G1Affine; 9] {
    [p.a, p.b, p.c, p.z, p.t1, p.t2, p.t3, p.wxi, p.wxiw]
}
fn evals<P: Curve>(p: &PlonkProof<P>) -> [S<P>; 6] {
    [p.eval_a, p.eval_b, p.eval_c, p.eval_s1, p.eval_s2, p.eval_zw]
}
fn copy<P: Curve>(k: &VerificationKey<P>) -> VerificationKey<P> {
    let mut v: VerificationKey<P> = serde_json::from_str(P::VK).expect("template");
    (v.n_public, v.power, v.k1, v.k2, v.x2) = (k.n_public, k.power, k.k1, k.k2, k.x2);
    (v.qm, v.ql, v.qr, v.qo, v.qc) = (k.qm, k.ql, k.qr, k.qo, k.qc);
    (v.s1, v.s2, v.s3) = (k.s1, k.s2, k.s3);
    v
}
fn point_mut<P: Curve>(p: &mut PlonkProof<P>, i: usize) -> &mut P::G1Affine {
    match i {
        0 => &mut p.a,
        1 => &mut p.b,
        2 => &mut p.c,
        3 => &mut p.z,
        4 => &mut p.t1,
        5 => &mut p.t2,
        6 => &mut p.t3,
        7 => &mut p.wxi,
        _ => &mut p.wxiw,
    }
}
fn eval_mut<P: Curve>(p: &mut PlonkProof<P>, i: usize) -> &mut S<P> {
    match i {
        0 => &mut p.eval_a,
        1 => &mut p.eval_b,
        2 => &mut p.eval_c,
        3 => &mut p.eval_s1,
        4 => &mut p.eval_s2,
        _ => &mut p.eval_zw,
    }
}
fn vk_point_mut<P: Curve>(p: &mut VerificationKey<P>, i: usize) -> &mut P::G1Affine {
    match i {
        0 => &mut p.qm,
        1 => &mut p.ql,
        2 => &mut p.qr,
        3 => &mut p.qo,
        4 => &mut p.qc,
        5 => &mut p.s1,
        6 => &mut p.s2,
        _ => &mut p.s3,
    }
}
fn one_proof<P: Curve>(prover: Prover, outs: Vec<Out<PlonkProof<P>>>) -> R<PlonkProof<P>> {
    let ps = all_ok(&format!("{prover:?} prover"), outs)?;
    for (i, p) in ps.iter().enumerate() {
        check!(points(p) == points(&ps[0]) && evals(p) == evals(&ps[0]), "{prover:?} prover: party {i} outputs another proof than party 0");
        check!(p.protocol == "plonk" && p.curve == P::get_circom_name(), "{prover:?} prover: protocol {:?}, curve {:?}", p.protocol, p.curve);
    }
    Ok(ps.into_iter().next().unwrap())
}
fn verify<P: Curve>(vk: &VerificationKey<P>, p: &PlonkProof<P>, x: &[S<P>]) -> R<bool> {
    match caught(|| Plonk::<P>::verify(vk, p, x)) {
        Err(e) => fail!("verifier panicked: {e}"),
        Ok(Ok(())) => Ok(true),
        Ok(Err(_)) => Ok(false),
    }
}

fn sizes(s: &mut Src) -> usize {
    *s.pick(&[3, 5, 8, 12, 20])
}

fn complete<P: Curve>(s: &mut Src) -> R
where
    <P::C1 as ark_ec::CurveConfig>::BaseField: PrimeField,
{
    let k = sizes(s);
    let c = random_circuit::<S<P>>(s, k);
    let mut r = s.rng();
    let key = keygen::<P>(&c, &mut r);
    let p = any_prover(s);
    // the first value is replaced by zero whatever it is
    let mut z = c.z.clone();
    z[0] = S::<P>::from(1u64);
    let (x, w) = z.split_at(c.n_public + 1);
    s.note(|| format!("{}, {} public inputs, {} gates in a domain of {}, {} additions, {p:?}", P::NAME, c.n_public, c.gates.len(), c.n(), c.additions.len()));
    s.label(match p {
        Prover::Shamir(..) => "Shamir".to_string(),
        p => format!("{p:?}"),
    });
    if c.gates.len() > c.n_public + 1 {
        s.nontrivial();
    }
    let zkey = Arc::new(key.zkey);
    let proof = one_proof(p, outcomes::<P>(p, &zkey, x, w, &mut r))?;
    check!(independent(&key.vk, &proof, &x[1..]), "{p:?} prover: the proof does not satisfy the verification equation");
    check!(verify(&key.vk, &proof, &x[1..])?, "{p:?} prover: the verifier rejects a proof that satisfies the equation");
    Ok(())
}

/// Circuits whose domain is large enough that parallel code splits its work.
fn large(s: &mut Src) -> R {
    type F = ark_bn254::Fr;
    let n = *s.pick(&[500usize, 512, 513, 1024]);
    let mut r = s.rng();
    let l = s.range(1, 4);
    let (o, i0) = (F::from(1u64), F::from(0u64));
    let mut z = vec![o];
    for _ in 0..l + 1 {
        z.push(F::rand(&mut r));
    }
    let mut gates: Vec<Gate<F>> = (0..l).map(|i| Gate { w: [i + 1, 0, 0], q: [i0, o, i0, i0, i0] }).collect();
    while gates.len() < n {
        let (i, j) = (z.len() - 1, 1 + gates.len() % (z.len() - 1));
        let k = F::rand(&mut r);
        gates.push(Gate { w: [i, j, z.len()], q: [o, k, i0, -o, i0] });
        z.push(z[i] * z[j] + k * z[i]);
    }
    let c = Circuit { n_public: l, additions: vec![], gates, z };
    let key = keygen::<Bn254>(&c, &mut r);
    let p = match s.below(3) {
        0 => Prover::Shamir(3, 1),
        1 => Prover::Rep3,
        _ => Prover::Plain,
    };
    s.note(|| format!("{n} gates, {p:?}"));
    s.label(format!("{p:?}"));
    s.nontrivial();
    let (x, w) = c.z.split_at(l + 1);
    let zkey = Arc::new(key.zkey);
    let proof = one_proof(p, outcomes::<Bn254>(p, &zkey, x, w, &mut r))?;
    check!(independent(&key.vk, &proof, &x[1..]), "{p:?} prover, {n} gates: the proof does not satisfy the verification equation");
    check!(verify(&key.vk, &proof, &x[1..])?, "{p:?} prover, {n} gates: the verifier rejects");
    Ok(())
}

struct Vector<P: Curve> {
    vk: VerificationKey<P>,
    proof: PlonkProof<P>,
    x: Vec<S<P>>,
    prove: Option<(Arc<Zkey<P>>, Vec<S<P>>)>,
}
fn load<P: Curve>() -> Result<Vec<Vector<P>>, String> {
    let mut out = vec![];
    for name in ["multiplier2", "poseidon"] {
        let d = format!("/repo/test_vectors/Plonk/{}/{name}", P::NAME);
        let f = |x: &str| std::fs::read(format!("{d}/{x}")).map_err(|e| format!("{d}/{x}: {e}"));
        let s = |e: serde_json::Error| e.to_string();
        let vk: VerificationKey<P> = serde_json::from_slice(&f("verification_key.json")?).map_err(s)?;
        let proof: PlonkProof<P> = serde_json::from_slice(&f("circom.proof")?).map_err(s)?;
        let x: Vec<String> = serde_json::from_slice(&f("public.json")?).map_err(s)?;
        let x = x.iter().map(|v| v.parse().map_err(|_| v.clone())).collect::<Result<Vec<S<P>>, String>>()?;
        let prove = match f("circuit.zkey") {
            Err(_) => None,
            Ok(b) => {
                let zkey = Zkey::<P>::from_reader(&b[..], circom_types::CheckElement::No).map_err(|e| e.to_string())?;
                let w = Witness::<S<P>>::from_reader(&f("witness.wtns")?[..]).map_err(|e| e.to_string())?;
                Some((Arc::new(zkey), w.values))
            }
        };
        out.push(Vector { vk, proof, x, prove });
    }
    Ok(out)
}
fn shipped<P: Curve>(s: &mut Src, v: &[Vector<P>]) -> R
where
    <P::C1 as ark_ec::CurveConfig>::BaseField: PrimeField,
{
    let i = s.below(v.len() as u64) as usize;
    let v = &v[i];
    s.label(format!("{} {i}", P::NAME));
    s.nontrivial();
    check!(independent(&v.vk, &v.proof, &v.x), "a proof made by snarkjs does not satisfy the verification equation");
    check!(verify(&v.vk, &v.proof, &v.x)?, "a proof made by snarkjs is rejected");
    if let Some((zkey, z)) = &v.prove {
        let p = any_prover(s);
        s.note(|| format!("{p:?}"));
        let mut r = s.rng();
        let (x, w) = z.split_at(zkey.n_public + 1);
        let proof = one_proof(p, outcomes::<P>(p, zkey, x, w, &mut r))?;
        check!(independent(&v.vk, &proof, &v.x), "{p:?} prover: the proof does not satisfy the verification equation");
        check!(verify(&v.vk, &proof, &v.x)?, "{p:?} prover: the verifier rejects");
    }
    Ok(())
}

/// A valid proof made without witness, from the secret of the key.
fn forge<P: Curve>(s: &mut Src, key: &Key<P>, x: &[S<P>], r: &mut ChaCha12Rng) -> PlonkProof<P>
where
    <P::C1 as ark_ec::CurveConfig>::BaseField: PrimeField,
{
    let g = P::G1::generator();
    let mut pt = |s: &mut Src| -> P::G1Affine { if s.chance(1, 12) { P::G1Affine::zero() } else { (g * S::<P>::rand(r)).into_affine() } };
    let mut p = PlonkProof {
        a: pt(s),
        b: pt(s),
        c: pt(s),
        z: pt(s),
        t1: pt(s),
        t2: pt(s),
        t3: pt(s),
        wxi: P::G1Affine::zero(),
        wxiw: P::G1Affine::zero(),
        eval_a: felt(s),
        eval_b: felt(s),
        eval_c: felt(s),
        eval_s1: felt(s),
        eval_s2: felt(s),
        eval_zw: felt(s),
        protocol: "plonk".into(),
        curve: P::get_circom_name(),
    };
    let ch = challenges(&key.vk, &p, x);
    let o1 = opening(&key.vk, &p, x, &ch);
    p.wxi = (o1 * (key.tau - ch.xi).inverse().unwrap()).into_affine();
    let o2 = p.z.into_group() - g * p.eval_zw;
    p.wxiw = (o2 * (key.tau - ch.xi * key.w).inverse().unwrap()).into_affine();
    p
}

fn sound<P: Curve>(s: &mut Src) -> R
where
    <P::C1 as ark_ec::CurveConfig>::BaseField: PrimeField,
{
    let c = random_circuit::<S<P>>(s, 6);
    let mut r = s.rng();
    let key = keygen::<P>(&c, &mut r);
    let (forged, x) = if s.bool() {
        let x: Vec<S<P>> = (0..c.n_public).map(|_| felt(s)).collect();
        (true, x)
    } else {
        (false, c.z[1..=c.n_public].to_vec())
    };
    let make = |s: &mut Src, r: &mut ChaCha12Rng, key: &Key<P>| -> R<PlonkProof<P>> {
        if forged {
            Ok(forge(s, key, &x, r))
        } else {
            let zk = Arc::new(key.zkey.clone());
            one_proof(Prover::Plain, outcomes::<P>(Prover::Plain, &zk, &c.z[..=c.n_public], &c.z[c.n_public + 1..], r))
        }
    };
    let proof = make(s, &mut r, &key)?;
    let kind = if forged { "simulated" } else { "honest" };
    s.note(|| format!("{kind} proof, {} public inputs, domain {}", x.len(), c.n()));
    s.label(kind);
    s.nontrivial();
    check!(independent(&key.vk, &proof, &x), "{kind} proof does not satisfy the equation");
    check!(verify(&key.vk, &proof, &x)?, "{kind} proof that satisfies the equation is rejected");
    let reject = |what: &str, vk: &VerificationKey<P>, p: &PlonkProof<P>, x: &[S<P>]| -> R {
        let ok = verify(vk, p, x)?;
        if forged && independent(vk, p, x) {
            // a simulated proof can leave parts of the key unused
            check!(ok, "rejected though the equation holds: {what} (simulated proof)");
            return Ok(());
        }
        check!(!ok, "accepted: {what} ({kind} proof)");
        Ok(())
    };
    let g1 = |s: &mut Src| -> P::G1 { P::G1::generator() * nonzero::<S<P>>(s) };
    for _ in 0..4 {
        match s.below(10) {
            0 | 1 => {
                let mut q = proof.clone();
                let i = s.below(9) as usize;
                let d = g1(s);
                let p = point_mut(&mut q, i);
                let old = *p;
                *p = match s.below(4) {
                    0 => (-p.into_group()).into_affine(),
                    1 => P::G1Affine::zero(),
                    _ => (p.into_group() + d).into_affine(),
                };
                if *p != old {
                    reject(&format!("commitment {i} changed"), &key.vk, &q, &x)?;
                }
            }
            2 => {
                let mut q = proof.clone();
                let i = s.below(6) as usize;
                *eval_mut(&mut q, i) += nonzero::<S<P>>(s);
                reject(&format!("evaluation {i} changed"), &key.vk, &q, &x)?;
            }
            3 => {
                let mut q = proof.clone();
                let v = s.subset(9, 2);
                let (a, b) = (points(&q)[v[0]], points(&q)[v[1]]);
                if a != b {
                    *point_mut(&mut q, v[0]) = b;
                    *point_mut(&mut q, v[1]) = a;
                    reject(&format!("commitments {v:?} swapped"), &key.vk, &q, &x)?;
                }
                let mut q = proof.clone();
                let v = s.subset(6, 2);
                let (a, b) = (evals(&q)[v[0]], evals(&q)[v[1]]);
                if a != b {
                    *eval_mut(&mut q, v[0]) = b;
                    *eval_mut(&mut q, v[1]) = a;
                    reject(&format!("evaluations {v:?} swapped"), &key.vk, &q, &x)?;
                }
            }
            4 => {
                let mut y = x.clone();
                let i = s.below(y.len() as u64) as usize;
                y[i] += nonzero::<S<P>>(s);
                reject(&format!("public input {i} changed"), &key.vk, &proof, &y)?;
                let mut y = x.clone();
                y.rotate_left(1);
                if y != x {
                    reject("public inputs rotated", &key.vk, &proof, &y)?;
                }
            }
            5 => {
                let mut y = x.clone();
                y.push(if s.bool() { S::<P>::from(0u64) } else { felt(s) });
                reject("a public input too many", &key.vk, &proof, &y)?;
                reject("a public input too few", &key.vk, &proof, &x[..x.len() - 1])?;
                reject("no public inputs", &key.vk, &proof, &[])?;
            }
            6 => {
                let mut vk = copy(&key.vk);
                let i = s.below(8) as usize;
                let d = g1(s);
                let p = vk_point_mut(&mut vk, i);
                *p = (p.into_group() + d).into_affine();
                reject(&format!("key commitment {i} changed"), &vk, &proof, &x)?;
            }
            7 => {
                let mut vk = copy(&key.vk);
                let d = nonzero::<S<P>>(s);
                let what = match s.below(6) {
                    0 => {
                        vk.k1 += d;
                        "k1"
                    }
                    1 => {
                        vk.k2 += d;
                        "k2"
                    }
                    2 => {
                        vk.x2 = (vk.x2.into_group() + P::G2::generator() * d).into_affine();
                        "x2"
                    }
                    3 => {
                        vk.power = s.below(40) as usize;
                        if vk.power == key.vk.power {
                            vk.power += 1;
                        }
                        "power"
                    }
                    4 => {
                        vk.n_public += 1;
                        "number of public inputs"
                    }
                    _ => {
                        (vk.k1, vk.k2) = (vk.k2, vk.k1);
                        "k1 and k2"
                    }
                };
                reject(&format!("{what} of the key changed"), &vk, &proof, &x)?;
            }
            8 => {
                let other = keygen::<P>(&c, &mut r);
                reject("another key", &other.vk, &proof, &x)?;
            }
            _ => {
                // parts of two valid proofs
                let other = make(s, &mut r, &key)?;
                let mut q = proof.clone();
                let i = s.below(15) as usize;
                if i < 9 {
                    *point_mut(&mut q, i) = points(&other)[i];
                } else {
                    *eval_mut(&mut q, i - 9) = evals(&other)[i - 9];
                }
                if points(&q) != points(&proof) || evals(&q) != evals(&proof) {
                    reject("parts of two proofs mixed", &key.vk, &q, &x)?;
                }
                // shifting weight between the two openings must need the challenge that ties them
                let d = g1(s);
                for k in [S::<P>::from(1u64), challenges(&key.vk, &proof, &x).u] {
                    let mut q = proof.clone();
                    q.wxi = (q.wxi.into_group() + d * k).into_affine();
                    q.wxiw = (q.wxiw.into_group() - d).into_affine();
                    reject("openings shifted against each other", &key.vk, &q, &x)?;
                }
            }
        }
    }
    Ok(())
}

/// Errors placed where a verifier that drops a term, a power of a challenge or an opening would not notice.
fn cancelling<P: Curve>(s: &mut Src) -> R
where
    <P::C1 as ark_ec::CurveConfig>::BaseField: PrimeField,
{
    let c = random_circuit::<S<P>>(s, 6);
    let mut r = s.rng();
    let key = keygen::<P>(&c, &mut r);
    let x: Vec<S<P>> = (0..c.n_public).map(|_| felt(s)).collect();
    let g = P::G1::generator();
    let proof = forge(s, &key, &x, &mut r);
    let mut q = proof.clone();
    let ch = challenges(&key.vk, &proof, &x);
    s.nontrivial();
    // one of the two openings is wrong, the other right
    match s.below(2) {
        0 => q.wxi = (q.wxi + g * nonzero::<S<P>>(s)).into_affine(),
        _ => q.wxiw = (q.wxiw + g * nonzero::<S<P>>(s)).into_affine(),
    }
    check!(!verify(&key.vk, &q, &x)?, "accepted: one wrong opening");
    // two evaluations wrong so that they cancel at equal or neighbouring weights
    let (i, j) = {
        let v = s.subset(5, 2);
        (v[0], v[1])
    };
    let d = nonzero::<S<P>>(s);
    for k in [S::<P>::from(1u64), ch.v, ch.v * ch.v] {
        let mut q = proof.clone();
        *eval_mut(&mut q, i) += d;
        *eval_mut(&mut q, j) -= d * k;
        // correct for everything that depends on the challenges except the batching itself
        let ch2 = challenges(&key.vk, &q, &x);
        let lin = linearised(&key.vk, &q, &x, &ch2);
        let mut acc = lin;
        let mut v = ch2.v;
        for (com, val) in [(q.a, proof.eval_a), (q.b, proof.eval_b), (q.c, proof.eval_c), (key.vk.s1, proof.eval_s1), (key.vk.s2, proof.eval_s2)] {
            acc += (com.into_group() - g * val) * v;
            v *= ch2.v;
        }
        q.wxi = (acc * (key.tau - ch2.xi).inverse().unwrap()).into_affine();
        check!(independent(&key.vk, &q, &x) == verify(&key.vk, &q, &x)?, "the verifier and the equation disagree");
        check!(!verify(&key.vk, &q, &x)?, "accepted: wrong evaluations that cancel");
    }
    // a first public input counted at another row
    let mut y = x.clone();
    y.push(felt(s));
    let mut vk = copy(&key.vk);
    vk.n_public += 1;
    let long = {
        let key2 = Key { zkey: key.zkey.clone(), vk: copy(&vk), tau: key.tau, w: key.w, k1: key.k1, k2: key.k2, sigma: vec![] };
        forge(s, &key2, &y, &mut r)
    };
    check!(verify(&vk, &long, &y)?, "simulated proof for {} public inputs rejected", y.len());
    let empty = {
        vk.n_public = 0;
        let key2 = Key { zkey: key.zkey, vk: copy(&vk), tau: key.tau, w: key.w, k1: key.k1, k2: key.k2, sigma: vec![] };
        forge(s, &key2, &[], &mut r)
    };
    check!(verify(&vk, &empty, &[])?, "simulated proof for no public inputs rejected");
    check!(!verify(&vk, &long, &[])?, "accepted: a proof for other public inputs");
    Ok(())
}

fn violated<P: Curve>(s: &mut Src) -> R
where
    <P::C1 as ark_ec::CurveConfig>::BaseField: PrimeField,
{
    let k = sizes(s);
    let c = random_circuit::<S<P>>(s, k);
    let mut r = s.rng();
    let key = keygen::<P>(&c, &mut r);
    let mut z = c.z.clone();
    let mut zkey = key.zkey.clone();
    let wires = c.wires();
    let p = if s.chance(1, 8) { Prover::Shamir(3, 1) } else { Prover::Plain };
    let what = if s.bool() {
        // one value does not fit its gates
        let i = 1 + s.below(z.len() as u64 - 1) as usize;
        z[i] += nonzero::<S<P>>(s);
        if c.satisfied(&z, &wires) {
            return Ok(());
        }
        "gate"
    } else {
        // a gate reads another signal than the wiring says
        let i = s.below(wires.len() as u64) as usize;
        let col = s.below(3) as usize;
        let v = c.signals(&z);
        let other: Vec<usize> = (0..v.len()).filter(|j| v[*j] != v[wires[i][col]]).collect();
        if other.is_empty() {
            return Ok(());
        }
        let j = *s.pick(&other);
        match col {
            0 => zkey.map_a[i] = j,
            1 => zkey.map_b[i] = j,
            _ => zkey.map_c[i] = j,
        }
        let was = wires[i][col];
        let places = wires.iter().flatten().filter(|x| **x == was).count() + if was == 0 { 3 * (c.n() - wires.len()) } else { 0 };
        let mut wires = wires.clone();
        wires[i][col] = j;
        if c.satisfied(&z, &wires) && places == 1 {
            // the signal occurs nowhere else: this satisfies the same circuit with another value for it
            return Ok(());
        }
        if c.satisfied(&z, &wires) { "copy constraint" } else { "gate and copy constraint" }
    };
    s.note(|| format!("{what} violated, {} gates, {p:?}", c.gates.len()));
    s.label(what);
    s.nontrivial();
    let (x, w) = z.split_at(c.n_public + 1);
    let zkey = Arc::new(zkey);
    for o in outcomes::<P>(p, &zkey, x, w, &mut r) {
        if let Out::Ok(proof) = o {
            check!(!verify(&key.vk, &proof, &x[1..])?, "{p:?} prover: proof from a witness that violates a {what} accepted");
            check!(!verify(&key.vk, &proof, &c.z[1..=c.n_public])?, "{p:?} prover: proof from a violating witness accepted for the original public inputs");
        }
    }
    Ok(())
}

fn fresh<P: Curve>(s: &mut Src) -> R
where
    <P::C1 as ark_ec::CurveConfig>::BaseField: PrimeField,
{
    let c = random_circuit::<S<P>>(s, 6);
    let mut r = s.rng();
    let key = keygen::<P>(&c, &mut r);
    let p = any_prover(s);
    s.note(|| format!("{} gates, {p:?}", c.gates.len()));
    s.label(format!("{p:?}").split('(').next().unwrap().to_string());
    s.nontrivial();
    let n = c.n();
    let zkey = Arc::new(key.zkey.clone());
    let (x, w) = c.z.split_at(c.n_public + 1);
    let v = c.signals(&c.z);
    // the wire columns without blinding
    let mut cols: Vec<Vec<S<P>>> = (0..3)
        .map(|k| {
            let mut col: Vec<S<P>> = c.gates.iter().map(|g| v[g.w[k]]).collect();
            col.resize(n, S::<P>::from(0u64));
            col
        })
        .collect();
    let values = cols.clone();
    for col in cols.iter_mut() {
        ifft(col, key.w);
    }
    let g = P::G1::generator();
    let one = S::<P>::from(1u64);
    let zt = (key.tau.pow([n as u64]) - one).inverse().unwrap();
    let small: Vec<P::G1> = (0..24u64).map(|k| g * S::<P>::from(k)).collect();
    // every blinding value times the generator, over two proofs
    let mut seen: Vec<(String, P::G1)> = vec![];
    for run in 0..2 {
        let proof = one_proof(p, outcomes::<P>(p, &zkey, x, w, &mut r))?;
        let ch = challenges(&key.vk, &proof, &x[1..]);
        let zx = (ch.xi.pow([n as u64]) - one).inverse().unwrap();
        let mut here: Vec<(String, P::G1)> = vec![];
        for (k, (com, val)) in [(proof.a, proof.eval_a), (proof.b, proof.eval_b), (proof.c, proof.eval_c)].into_iter().enumerate() {
            // commitment: hi tau + lo; evaluation: hi xi + lo
            let at_tau = (com.into_group() - g * eval(&cols[k], key.tau)) * zt;
            let at_xi = g * ((val - eval(&cols[k], ch.xi)) * zx);
            let hi = (at_tau - at_xi) * (key.tau - ch.xi).inverse().unwrap();
            let lo = at_xi - hi * ch.xi;
            here.push((format!("first blinding of wire {k}"), hi));
            here.push((format!("second blinding of wire {k}"), lo));
        }
        // the permutation polynomial without blinding
        let (mut num, mut den) = (one, one);
        let mut zv = vec![];
        let mut wi = one;
        for i in 0..n {
            zv.push(num * den.inverse().unwrap());
            let m = |x: S<P>, y: S<P>| x + ch.beta * y + ch.gamma;
            num *= m(values[0][i], wi) * m(values[1][i], wi * key.k1) * m(values[2][i], wi * key.k2);
            den *= m(values[0][i], key.sigma[i]) * m(values[1][i], key.sigma[n + i]) * m(values[2][i], key.sigma[2 * n + i]);
            wi *= key.w;
        }
        ifft(&mut zv, key.w);
        let xiw = ch.xi * key.w;
        here.push(("blinding of Z".into(), (proof.z.into_group() - g * eval(&zv, key.tau)) * zt));
        here.push(("blinding of the value of Z".into(), g * ((proof.eval_zw - eval(&zv, xiw)) * zx)));
        for (name, b) in &here {
            for (k, t) in small.iter().enumerate() {
                check!(b != t && *b != -*t, "{p:?} prover: {name} is ±{k}");
            }
        }
        for (i, t) in [proof.t1, proof.t2, proof.t3].into_iter().enumerate() {
            here.push((format!("commitment T{}", i + 1), t.into_group()));
        }
        here.push(("opening at xi".into(), proof.wxi.into_group()));
        here.push(("opening at xi w".into(), proof.wxiw.into_group()));
        for (i, (n1, b1)) in here.iter().enumerate() {
            for (n2, b2) in &here[..i] {
                check!(b1 != b2 && *b1 != -*b2, "{p:?} prover: {n1} and {n2} are the same");
            }
            for (n2, b2) in &seen {
                check!(b1 != b2 && *b1 != -*b2, "{p:?} prover: {n1} in run {run} and {n2} in an earlier run are the same");
            }
        }
        seen.extend(here);
    }
    Ok(())
}

fn malformed<P: Curve>(s: &mut Src) -> R
where
    <P::C1 as ark_ec::CurveConfig>::BaseField: PrimeField,
{
    let k = sizes(s);
    let c = random_circuit::<S<P>>(s, k);
    let mut r = s.rng();
    let key = keygen::<P>(&c, &mut r);
    let mut zkey = key.zkey.clone();
    let used: usize = c.wires().iter().flatten().copied().chain(c.additions.iter().flat_map(|a| [a.0, a.1])).filter(|x| *x < c.z.len()).max().unwrap();
    let mut l = c.n_public + 1;
    let mut m = c.z.len();
    let mut p = if s.chance(1, 3) { Prover::Shamir(3, 1) } else { Prover::Plain };
    let what = match s.below(6) {
        0 | 1 => {
            m = l + s.below((m - l) as u64 + 1) as usize;
            m = m.min(used);
            l = l.min(m);
            "values missing"
        }
        2 => {
            l = s.below(l as u64) as usize;
            "public values missing"
        }
        3 => {
            p = Prover::Plain;
            zkey.domain_size = match s.below(3) {
                0 => 0,
                1 => zkey.domain_size + 1 + s.below(3) as usize,
                _ => 3 * zkey.domain_size,
            };
            "domain size that is no power of two"
        }
        4 => {
            p = Prover::Plain;
            zkey.domain_size = 1usize << s.range(S::<P>::TWO_ADICITY as usize - 1, 61);
            "domain too large"
        }
        _ => {
            let i = s.below(zkey.map_a.len() as u64) as usize;
            let v = zkey.n_vars + s.below(3) as usize;
            match s.below(3) {
                0 => zkey.map_a[i] = v,
                1 => zkey.map_b[i] = v,
                _ => zkey.map_c[i] = v,
            }
            "signal that does not exist"
        }
    };
    s.note(|| format!("{what}: {l} public and {} private values, {} and {} needed; domain {}, {p:?}", m - l, c.n_public + 1, c.z.len() - c.n_public - 1, zkey.domain_size));
    s.label(what);
    s.nontrivial();
    let zkey = Arc::new(zkey);
    let public = &c.z[..l];
    // with public values missing, the private part keeps its length
    let private = if what == "public values missing" { &c.z[c.n_public + 1..] } else { &c.z[l..m] };
    for (i, o) in outcomes::<P>(p, &zkey, public, private, &mut r).iter().enumerate() {
        match o {
            Out::Ok(_) => fail!("{p:?} prover, party {i}: no error for {what}"),
            Out::Panic(e) => fail!("{p:?} prover, party {i}: panic instead of an error for {what}: {e}"),
            Out::Err(_) => {}
        }
    }
    Ok(())
}

fn bad_key<P: Curve>(s: &mut Src) -> R
where
    <P::C1 as ark_ec::CurveConfig>::BaseField: PrimeField,
{
    let c = random_circuit::<S<P>>(s, 4);
    let mut r = s.rng();
    let key = keygen::<P>(&c, &mut r);
    let x: Vec<S<P>> = (0..c.n_public).map(|_| felt(s)).collect();
    let proof = forge(s, &key, &x, &mut r);
    let mut vk = copy(&key.vk);
    let mut y = x.clone();
    match s.below(3) {
        0 => vk.power = s.range(S::<P>::TWO_ADICITY as usize - 1, 63),
        1 => y.truncate(s.below(x.len() as u64) as usize),
        _ => {
            for _ in 0..s.range(1, 40) {
                y.push(felt(s));
            }
        }
    }
    s.note(|| format!("power {}, {} public inputs for {}", vk.power, y.len(), vk.n_public));
    s.nontrivial();
    match caught(|| Plonk::<P>::verify(&vk, &proof, &y)) {
        Err(e) => fail!("verifier panicked: {e}"),
        Ok(Ok(())) => fail!("accepted"),
        Ok(Err(VerificationError::Malformed(_))) => Ok(()),
        Ok(Err(VerificationError::InvalidProof)) => fail!("reported as an invalid proof, not as malformed"),
    }
}

type Vectors = (Vec<Vector<Bn254>>, Vec<Vector<Bls12_381>>);
pub fn properties() -> Vec<Property> {
    let cell: Arc<std::sync::OnceLock<Result<Vectors, String>>> = Default::default();
    vec![
        Property {
            id: "K01",
            rule: "circuits with more than one gate besides the public inputs",
            assumptions: "Keys are made by the harness from secrets it knows, with at least one public input and a domain of at least 8 as snarkjs has.",
            subs: vec![
                Sub::new("complete", 2000, 40_000, |s| any_curve_k!(s, complete)),
                Sub::new("large-domains", 12, 100, large).workers(2),
                Sub::new("snarkjs-vectors", 30, 600, move |s| {
                    let v = cell
                        .get_or_init(|| Ok((load::<Bn254>()?, load::<Bls12_381>()?)))
                        .as_ref()
                        .map_err(|e| Fail::from(e.clone()))?;
                    if s.bool() { shipped(s, &v.1) } else { shipped(s, &v.0) }
                }),
            ],
        },
        Property {
            id: "K02",
            rule: "every valid proof, honest or simulated, with four changes; every violating witness",
            assumptions: "Simulated proofs are made with the secret of the key: they reach the verifier's whole input space.",
            subs: vec![
                Sub::new("altered", 800, 40_000, |s| any_curve_k!(s, sound)),
                Sub::new("cancelling", 300, 10_000, |s| any_curve_k!(s, cancelling)),
                Sub::new("violating-witness", 800, 40_000, |s| any_curve_k!(s, violated)),
            ],
        },
        Property {
            id: "K03",
            rule: "every pair of proofs; every malformed key or witness",
            assumptions: "The blinding of the quotient's parts is only seen to differ between runs, not to be uniform.",
            subs: vec![
                Sub::new("fresh", 900, 10_000, |s| any_curve_k!(s, fresh)),
                Sub::new("malformed", 4000, 40_000, |s| any_curve_k!(s, malformed)),
                Sub::new("verification-input", 3000, 30_000, |s| any_curve_k!(s, bad_key)),
            ],
        },
    ]
}
