//! S01-S06: Shamir sharing, computation, preprocessing, points, secrecy.
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{CurveConfig, CurveGroup, PrimeGroup};
use ark_ff::{Field, MontFp, PrimeField, Zero};
use ark_serialize::CanonicalDeserialize;
use engine::*;
use vkit::{any_curve, any_field};
use mpc_core::MpcState;
use mpc_core::protocols::shamir::{self, network::ShamirNetworkExt, *};
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha12Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use vkit::*;

type Sh<F> = ShamirPrimeFieldShare<F>;
type Pt<C> = ShamirPointShare<C>;

/// y^2 = x^3 + 3 over F_7: 13 points, so distributions over the group can be counted.
pub struct Tiny;
impl CurveConfig for Tiny {
    type BaseField = F7;
    type ScalarField = F13;
    const COFACTOR: &'static [u64] = &[1];
    const COFACTOR_INV: F13 = MontFp!("1");
}
impl SWCurveConfig for Tiny {
    type ZeroFlag = bool;
    const COEFF_A: F7 = MontFp!("0");
    const COEFF_B: F7 = MontFp!("3");
    const GENERATOR: Affine<Self> = Affine::new_unchecked(MontFp!("1"), MontFp!("2"));
}
pub type TinyG = Projective<Tiny>;
pub fn tiny_index(p: &TinyG) -> u64 {
    let mut q = TinyG::zero();
    for i in 0..13 {
        if q == *p {
            return i;
        }
        q += TinyG::generator();
    }
    99
}

fn small_or_any_field(src: &mut Src) -> R {
    match src.below(4) {
        0 => s01_field::<F31>(src),
        1 => s01_field::<F13>(src),
        _ => any_field!(src, s01_field),
    }
}

fn nt(src: &mut Src, max_n: usize) -> (usize, usize) {
    let n = src.range(1, max_n);
    let t = src.range(0, n - 1);
    (n, t)
}
/// n parties, threshold t with 2t < n
fn nt_mpc(src: &mut Src, max_n: usize) -> (usize, usize) {
    match src.weighted(&[4, 2, 2, 1, 3]) {
        0 => (3, 1),
        1 => (5, 2),
        2 => (4, 1),
        3 => (2, 0),
        _ => {
            let n = src.range(2, max_n);
            (n, src.range(0, (n - 1) / 2))
        }
    }
}

// ---------- S01

fn s01_field<F: PrimeField>(src: &mut Src) -> R {
    let (n, t) = nt(src, 12);
    let len = src.range(0, 4);
    let vals: Vec<F> = (0..len).map(|_| felt(src)).collect();
    let secret: F = felt(src);
    let mut rng = src.rng();
    src.note(|| format!("n={n} t={t} secret={secret} vals={vals:?}"));
    src.label(format!("n={n},t={t}"));
    if t >= 1 {
        src.nontrivial();
    }
    // single
    let shares = share_field_element(secret, t, n, &mut rng);
    check_eq!(shares.len(), n, "number of shares");
    let raw: Vec<F> = shares.iter().map(|s| s.inner()).collect();
    match on_poly(&raw, t) {
        Ok(v) => check_eq!(v, secret, "value of the sharing polynomial at 0"),
        Err(e) => fail!("{e}"),
    }
    let k = src.range(t + 1, n);
    let who = src.subset(n, k);
    let sel: Vec<Sh<F>> = who.iter().map(|i| shares[*i]).collect();
    let idx: Vec<usize> = who.iter().map(|i| i + 1).collect();
    src.note(|| format!("combining parties {idx:?}"));
    match combine_field_element(&sel, &idx, t) {
        Ok(v) => check_eq!(v, secret, "combined value"),
        Err(e) => fail!("combining {k} shares of degree {t}: {e}"),
    }
    check_eq!(reconstruct(&sel[..=t].iter().map(|s| s.inner()).collect::<Vec<_>>(), &lagrange_from_coeff::<F>(&idx[..=t])), secret, "reconstruct");
    // every coefficient but the secret is fresh
    if F::MODULUS_BIT_SIZE > 60 && t > 0 {
        let again: Vec<F> = share_field_element(secret, t, n, &mut rng).iter().map(|s| s.inner()).collect();
        let pre = precompute_interpolation_polys::<F>(&(1..=t + 1).collect::<Vec<_>>());
        let mut cs: Vec<F> = interpolate_poly_from_precomputed(&raw[..=t], &pre)[1..].to_vec();
        cs.extend(&interpolate_poly_from_precomputed(&again[..=t], &pre)[1..]);
        let set: BTreeSet<BigUint> = cs.iter().map(|c| to_big(*c)).collect();
        check!(set.len() == cs.len() && !set.contains(&BigUint::default()), "coefficients of sharing polynomials repeat: {cs:?}");
    }
    // raw share function
    let r = shamir::share(secret, n, t, &mut rng);
    match on_poly(&r, t) {
        Ok(v) => check_eq!(v, secret, "share()"),
        Err(e) => fail!("{e}"),
    }
    // too few
    if t > 0 {
        let few = src.range(0, t);
        check!(combine_field_element(&sel[..few.min(k)], &idx[..few.min(k)], t).is_err(), "{few} shares of degree {t} were combined");
    }
    // index list of other length
    check!(combine_field_element(&sel, &idx[..k - 1], t).is_err(), "shares and indices of different length accepted");
    // vector
    let vs = share_field_elements(&vals, t, n, &mut rng);
    check_eq!(vs.len(), n, "number of share vectors");
    for (j, v) in vals.iter().enumerate() {
        let raw: Vec<F> = vs.iter().map(|s| s[j].inner()).collect();
        match on_poly(&raw, t) {
            Ok(x) => check_eq!(x, *v, "element {j}"),
            Err(e) => fail!("element {j}: {e}"),
        }
    }
    let sel: Vec<Vec<Sh<F>>> = who.iter().map(|i| vs[*i].clone()).collect();
    match combine_field_elements(&sel, &idx, t) {
        Ok(v) => check_eq!(v, vals, "combined vector"),
        Err(e) => fail!("combining vectors: {e}"),
    }
    if t > 0 {
        let few = src.range(0, t);
        check!(combine_field_elements(&sel[..few.min(k)], &idx[..few.min(k)], t).is_err(), "{few} share vectors of degree {t} were combined");
    }
    if len > 0 && k > 1 {
        let mut bad = sel.clone();
        let at = src.range(0, k - 1);
        bad[at].pop();
        check!(combine_field_elements(&bad, &idx, t).is_err(), "share vectors of different length accepted");
    }
    Ok(())
}

fn s01_point<C: CurveGroup>(src: &mut Src) -> R {
    let (n, t) = nt(src, 8);
    let secret: C = point(src);
    let mut rng = src.rng();
    src.note(|| format!("n={n} t={t} secret={secret}"));
    if t >= 1 {
        src.nontrivial();
    }
    let shares = share_curve_point(secret, t, n, &mut rng);
    check_eq!(shares.len(), n, "number of shares");
    match on_poly_point(&Pt::convert_slice(&shares).to_vec(), t) {
        Ok(v) => check_eq!(v, secret, "value at 0"),
        Err(e) => fail!("{e}"),
    }
    let k = src.range(t + 1, n);
    let who = src.subset(n, k);
    let sel: Vec<Pt<C>> = who.iter().map(|i| shares[*i].clone()).collect();
    let idx: Vec<usize> = who.iter().map(|i| i + 1).collect();
    match combine_curve_point(&sel, &idx, t) {
        Ok(v) => check_eq!(v, secret, "combined point"),
        Err(e) => fail!("combining: {e}"),
    }
    if t > 0 {
        let few = src.range(0, t);
        check!(combine_curve_point(&sel[..few.min(k)], &idx[..few.min(k)], t).is_err(), "{few} point shares of degree {t} were combined");
    }
    check!(combine_curve_point(&sel, &idx[..k - 1], t).is_err(), "point shares and indices of different length accepted");
    Ok(())
}

fn s01_poly<F: PrimeField>(src: &mut Src) -> R {
    // helpers behind the sharing: interpolation, zero points, shared polynomial evaluation
    let k = src.range(1, 8);
    let mut ids = src.subset(12, k);
    let coeffs: Vec<F> = (0..k).map(|_| felt(src)).collect();
    let eval = |x: F| coeffs.iter().rev().fold(F::zero(), |a, c| a * x + c);
    src.nontrivial();
    src.note(|| format!("ids={ids:?} coeffs={coeffs:?}"));
    // ids may contain 0 for interpolation from the secret
    let ys: Vec<F> = ids.iter().map(|i| eval(F::from(*i as u64))).collect();
    let pre = precompute_interpolation_polys::<F>(&ids);
    check_eq!(interpolate_poly_from_precomputed(&ys, &pre), coeffs, "interpolated polynomial");
    let x: F = felt(src);
    check_eq!(evaluate_poly(&coeffs, x), eval(x), "evaluate_poly at {x}");
    ids.iter_mut().for_each(|i| *i += 1);
    let ys: Vec<F> = ids.iter().map(|i| eval(F::from(*i as u64))).collect();
    let lag = lagrange_from_coeff::<F>(&ids);
    check_eq!(reconstruct(&ys, &lag), coeffs[0], "reconstruct with coefficients {ids:?}");
    // zeros
    let secret: F = felt(src);
    let nz = src.range(0, k);
    let zeros = &ids[..nz];
    let all: Vec<usize> = (1..=13).collect();
    let sh = share_with_zeros(&secret, zeros, &all);
    for (i, s) in all.iter().zip(&sh) {
        let xs: Vec<F> = std::iter::once(F::zero()).chain(zeros.iter().map(|z| F::from(*z as u64))).collect();
        let mut ys = vec![F::zero(); xs.len()];
        ys[0] = secret;
        check_eq!(*s, interpolate(&xs, &ys, F::from(*i as u64)), "share_with_zeros at {i} (zeros at {zeros:?})");
    }
    // shared polynomial
    let (n, t) = nt(src, 5);
    let len = *src.pick(&[1usize, 2, 3, 15, 16, 17, 31, 33, 40, 100, 257]);
    let mut rng = src.rng();
    let cs: Vec<F> = (0..len).map(|_| F::rand(&mut rng)).collect();
    let shares = share_field_elements(&cs, t, n, &mut rng);
    let at: F = felt(src);
    let exp = cs.iter().rev().fold(F::zero(), |a, c| a * at + c);
    let evs: Vec<F> = shares.iter().map(|s| shamir::poly::eval_poly(s, at).inner()).collect();
    match on_poly(&evs, t) {
        Ok(v) => check_eq!(v, exp, "shared polynomial of {len} coefficients evaluated at {at}"),
        Err(e) => fail!("eval_poly: {e}"),
    }
    Ok(())
}

// ---------- S02

fn hist(it: impl Iterator<Item = u64>) -> BTreeMap<u64, u64> {
    let mut h = BTreeMap::new();
    for x in it {
        *h.entry(x).or_insert(0) += 1;
    }
    h
}
pub fn expect_uniform(what: &str, h: &BTreeMap<u64, u64>, cells: u64) -> R {
    let z = uniform_z(h, cells);
    check!(z < Z_LIMIT, "{what}: not uniform on {cells} values (score {z:.1}, {} samples on {} values)", h.values().sum::<u64>(), h.len());
    Ok(())
}
pub fn expect_same(what: &str, a: &BTreeMap<u64, u64>, b: &BTreeMap<u64, u64>) -> R {
    let z = two_sample_z(a, b);
    check!(z < Z_LIMIT, "{what}: distribution depends on the secret (score {z:.1}, {} samples)", a.values().sum::<u64>());
    Ok(())
}
pub fn small<F: PrimeField>(x: F) -> u64 {
    x.into_bigint().as_ref()[0]
}

fn s02_field<F: PrimeField>(src: &mut Src) -> R {
    let p = F::MODULUS.as_ref()[0];
    let n = src.range(2, 6.min(p as usize - 1));
    let t = src.range(1, n - 1);
    let k = t.min(if p < 10 { 3 } else { 2 });
    let who = src.subset(n, k);
    let secret: F = felt(src);
    let mut rng = src.rng();
    let m = 20000usize;
    src.units = m as u64;
    src.nontrivial();
    src.note(|| format!("n={n} t={t} secret={secret} coalition={who:?}, {m} sharings"));
    let cells = p.pow(k as u32);
    let vecs = share_field_elements(&vec![secret; m], t, n, &mut rng);
    let code = |s: &dyn Fn(usize) -> F| who.iter().fold(0, |a, i| a * p + small(s(*i)));
    expect_uniform("shares of a vector", &hist((0..m).map(|j| code(&|i| vecs[i][j].inner()))), cells)?;
    // consecutive elements of one vector are independent
    let w = who[0];
    expect_uniform("consecutive shares of one party", &hist((0..m - 1).map(|j| small(vecs[w][j].inner()) * p + small(vecs[w][j + 1].inner()))), p * p)?;
    let singles: Vec<Vec<Sh<F>>> = (0..m).map(|_| share_field_element(secret, t, n, &mut rng)).collect();
    expect_uniform("shares of an element", &hist(singles.iter().map(|s| code(&|i| s[i].inner()))), cells)?;
    Ok(())
}
/// Coefficients of the degree-t polynomial through the first t+1 shares, by solving with Lagrange basis polynomials.
fn coefficients<C: CurveGroup>(shares: &[C], t: usize) -> Vec<C> {
    let mut out = vec![C::zero(); t + 1];
    for i in 0..=t {
        // basis polynomial of point i+1
        let mut poly = vec![C::ScalarField::from(1u64)];
        let mut den = C::ScalarField::from(1u64);
        for j in 0..=t {
            if i != j {
                let xj = C::ScalarField::from(j as u64 + 1);
                let mut next = vec![C::ScalarField::from(0u64); poly.len() + 1];
                for (k, c) in poly.iter().enumerate() {
                    next[k + 1] += c;
                    next[k] -= *c * xj;
                }
                poly = next;
                den *= C::ScalarField::from(i as u64 + 1) - xj;
            }
        }
        let d = den.inverse().unwrap();
        for (o, c) in out.iter_mut().zip(poly) {
            *o += shares[i] * (c * d);
        }
    }
    out
}
fn s02_point(src: &mut Src) -> R {
    type C = ark_grumpkin::Projective;
    let n = src.range(2, 6);
    let t = src.range(1, n - 1);
    let secret: C = point(src);
    let mut rng = src.rng();
    let m = 1200usize;
    let who = src.subset(n, 2);
    src.units = m as u64;
    src.nontrivial();
    src.note(|| format!("n={n} t={t} secret={secret} parties={who:?}"));
    let bits = |p: C| small(p.into_affine().x) & 15;
    let mut h: Vec<BTreeMap<u64, u64>> = vec![BTreeMap::new(); 4 + t];
    let mut seen = BTreeSet::new();
    for _ in 0..m {
        let s: Vec<C> = Pt::convert_vec(share_curve_point(secret, t, n, &mut rng));
        let c = coefficients(&s, t);
        check!(c[0] == secret, "the first t+1 shares give another point");
        let mut put = |i: usize, p: C| *h[i].entry(bits(p)).or_insert(0) += 1;
        put(0, s[who[0]]);
        put(1, s[who[1]]);
        put(2, s[who[0]] - secret);
        put(3, if t > 1 { s[who[0]] - s[who[1]] } else { s[who[1]] });
        for i in 1..=t {
            put(3 + i, c[i]);
            let a = c[i].into_affine();
            check!(seen.insert((to_big(a.x), to_big(a.y))), "coefficient {i} of a sharing polynomial occurred before");
        }
    }
    for (i, h) in h.iter().enumerate() {
        expect_uniform(&format!("point statistic {i}"), h, 16)?;
    }
    Ok(())
}
fn s02_fresh<C: CurveGroup>(src: &mut Src) -> R {
    let n = src.range(2, 6);
    let t = src.range(1, n - 1);
    let secret: C = point(src);
    let s: C::ScalarField = felt(src);
    let mut rng = src.rng();
    src.nontrivial();
    let a = share_curve_point(secret, t, n, &mut rng);
    let b = share_curve_point(secret, t, n, &mut rng);
    let x = share_field_elements(&[s, s], t, n, &mut rng);
    for i in 0..n {
        check!(a[i].clone().inner() != b[i].clone().inner(), "two sharings of a point give party {i} the same share");
        check!(a[i].clone().inner() != secret, "party {i} holds the secret point");
        check!(x[i][0] != x[i][1], "two sharings of an element give party {i} the same share");
        check!(x[i][0].inner() != s, "party {i} holds the secret");
    }
    Ok(())
}

// ---------- S03

#[derive(Debug, Clone)]
enum Op {
    Add(usize, usize),
    Sub(usize, usize),
    Neg(usize),
    AddPub(usize, BigUint),
    MulPub(usize, BigUint),
    Trivial(BigUint),
    Mul(usize, usize),
    MulVec(Vec<usize>, Vec<usize>),
    LocalMulVec(Vec<usize>, Vec<usize>),
    Inner(Vec<usize>, Vec<usize>),
    AddVec(Vec<usize>, Vec<usize>),
    SubVec(Vec<usize>, Vec<usize>),
    Inv(usize),
    InvVec(Vec<usize>),
    Div(usize, usize),
    DivByPub(usize, BigUint),
    DivPub(BigUint, usize),
    Rand,
    Open(usize),
    OpenVec(Vec<usize>),
    MulOpenVec(Vec<usize>, Vec<usize>),
    EvalPoly(Vec<usize>, BigUint),
    Buffer(usize),
    Fork(usize),
    EndFork,
}

fn gen_op<F: PrimeField>(src: &mut Src, regs: usize, forked: bool) -> Op {
    use Op::*;
    let m = fmod::<F>();
    let r = |src: &mut Src| src.below(regs as u64) as usize;
    let lens: &[usize] = &[0, 1, 2, 3, 5, 8];
    let v2 = |src: &mut Src| {
        let l = *src.pick(lens);
        let a: Vec<usize> = (0..l).map(|_| src.below(regs as u64) as usize).collect();
        let b: Vec<usize> = (0..l).map(|_| src.below(regs as u64) as usize).collect();
        (a, b)
    };
    match src.weighted(&[2, 2, 1, 2, 2, 1, 4, 3, 2, 2, 1, 1, 2, 2, 2, 1, 1, 2, 2, 2, 2, 1, 1, 1, if forked { 2 } else { 0 }]) {
        0 => Add(r(src), r(src)),
        1 => Sub(r(src), r(src)),
        2 => Neg(r(src)),
        3 => AddPub(r(src), src.modular(&m)),
        4 => MulPub(r(src), src.modular(&m)),
        5 => Trivial(src.modular(&m)),
        6 => Mul(r(src), r(src)),
        7 => { let (a, b) = v2(src); MulVec(a, b) }
        8 => { let (a, b) = v2(src); LocalMulVec(a, b) }
        9 => { let (a, b) = v2(src); Inner(a, b) }
        10 => { let (a, b) = v2(src); AddVec(a, b) }
        11 => { let (a, b) = v2(src); SubVec(a, b) }
        12 => Inv(r(src)),
        13 => InvVec(v2(src).0),
        14 => Div(r(src), r(src)),
        15 => DivByPub(r(src), src.modular(&m)),
        16 => DivPub(src.modular(&m), r(src)),
        17 => Rand,
        18 => Open(r(src)),
        19 => OpenVec(v2(src).0),
        20 => { let (a, b) = v2(src); MulOpenVec(a, b) }
        21 => { let (mut a, _) = v2(src); if a.is_empty() { a.push(0) } EvalPoly(a, src.modular(&m)) }
        22 => Buffer(src.range(0, 12)),
        23 => Fork(src.range(0, 6)),
        _ => EndFork,
    }
}

/// What a party has after running a program: its registers, the values it opened, and the index of the operation that failed.
struct Ran<F: PrimeField> {
    regs: Vec<Sh<F>>,
    opened: Vec<F>,
    failed: Option<(usize, String)>,
}

fn run_prog<F: PrimeField>(id: usize, net: &TNet, n: usize, t: usize, prep: usize, mut regs: Vec<Sh<F>>, prog: &[Op]) -> eyre::Result<Ran<F>> {
    use shamir::arithmetic as ar;
    let mut main: ShamirState<F> = ShamirPreprocessing::new(n, t, prep, net)?.into();
    assert_eq!(main.id(), id);
    let mut forks: Vec<ShamirState<F>> = vec![];
    let mut opened = vec![];
    for (i, op) in prog.iter().enumerate() {
        let g = |v: &Vec<usize>, regs: &Vec<Sh<F>>| v.iter().map(|k| regs[*k]).collect::<Vec<_>>();
        let f = |b: &BigUint| F::from(b.clone());
        match op {
            Op::Fork(k) => {
                // only what is there can be handed to a fork
                let st = forks.last_mut().unwrap_or(&mut main);
                st.buffer_triples(net, *k)?;
                let s = st.fork(*k)?;
                forks.push(s);
                continue;
            }
            Op::EndFork => {
                forks.pop();
                continue;
            }
            _ => {}
        }
        let st = forks.last_mut().unwrap_or(&mut main);
        let mut one = |x: eyre::Result<Sh<F>>| x.map(|v| vec![v]);
        let alt = i % 2 == 0; // alternate between equivalent entry points
        let res: eyre::Result<Vec<Sh<F>>> = match op {
            Op::Add(a, b) => Ok(vec![if alt { ar::add(regs[*a], regs[*b]) } else { let mut x = regs[*a]; ar::add_assign(&mut x, regs[*b]); x }]),
            Op::Sub(a, b) => Ok(vec![if alt { ar::sub(regs[*a], regs[*b]) } else { let mut x = regs[*a]; ar::sub_assign(&mut x, regs[*b]); x }]),
            Op::Neg(a) => Ok(vec![if alt { ar::neg(regs[*a]) } else { -&regs[*a] }]),
            Op::AddPub(a, c) => Ok(vec![if alt { ar::add_public(regs[*a], f(c)) } else { let mut x = regs[*a]; ar::add_assign_public(&mut x, f(c)); x }]),
            Op::MulPub(a, c) => Ok(vec![if alt { ar::mul_public(regs[*a], f(c)) } else { let mut x = regs[*a]; ar::mul_assign_public(&mut x, f(c)); x }]),
            Op::Trivial(c) => Ok(if alt { vec![ar::promote_to_trivial_share(f(c))] } else { ar::promote_to_trivial_shares(&[f(c)]) }),
            Op::Mul(a, b) => one(ar::mul(regs[*a], regs[*b], net, st)),
            Op::MulVec(a, b) => ar::mul_vec(&g(a, &regs), &g(b, &regs), net, st),
            Op::LocalMulVec(a, b) => {
                let m = ar::local_mul_vec(&g(a, &regs), &g(b, &regs));
                net.degree_reduce_many(st, m)
            }
            Op::Inner(a, b) => {
                let s: F = ar::local_mul_vec(&g(a, &regs), &g(b, &regs)).iter().sum();
                one(net.degree_reduce(st, s))
            }
            Op::AddVec(a, b) => { let mut x = g(a, &regs); ar::add_vec_assign(&mut x, &g(b, &regs)); Ok(x) }
            Op::SubVec(a, b) => { let mut x = g(a, &regs); ar::sub_vec_assign(&mut x, &g(b, &regs)); Ok(x) }
            Op::Inv(a) => one(ar::inv(regs[*a], net, st)),
            Op::InvVec(a) => ar::inv_vec(&g(a, &regs), net, st),
            Op::Div(a, b) => one(ar::div(regs[*a], regs[*b], net, st)),
            Op::DivByPub(a, c) => one(ar::div_shared_by_public(regs[*a], f(c))),
            Op::DivPub(c, a) => one(ar::div_public_by_shared(f(c), regs[*a], net, st)),
            Op::Rand => one(st.rand(net)),
            Op::Open(a) => ar::open(regs[*a], net, st).map(|v| { opened.push(v); vec![] }),
            Op::OpenVec(a) => ar::open_vec(&g(a, &regs), net, st).map(|v| { opened.extend(v); vec![] }),
            Op::MulOpenVec(a, b) => ar::mul_open_vec(&g(a, &regs), &g(b, &regs), net, st).map(|v| { opened.extend(v); vec![] }),
            Op::EvalPoly(a, x) => Ok(vec![shamir::poly::eval_poly(&g(a, &regs), f(x))]),
            Op::Buffer(k) => st.buffer_triples(net, *k).map(|_| vec![]),
            Op::Fork(_) | Op::EndFork => unreachable!(),
        };
        match res {
            Ok(v) => regs.extend(v),
            Err(e) => return Ok(Ran { regs, opened, failed: Some((i, format!("{e:#}"))) }),
        }
    }
    Ok(Ran { regs, opened, failed: None })
}

/// Cleartext meaning; values of `Rand` registers are taken from the reconstructed shares.
fn model<F: PrimeField>(inputs: &[F], prog: &[Op], known: &[F]) -> (Vec<F>, Vec<F>, Option<usize>) {
    let mut regs = inputs.to_vec();
    let mut opened = vec![];
    for (i, op) in prog.iter().enumerate() {
        let f = |b: &BigUint| F::from(b.clone());
        let inv = |x: F| x.inverse();
        let zip = |a: &Vec<usize>, b: &Vec<usize>, regs: &Vec<F>, g: fn(F, F) -> F| a.iter().zip(b).map(|(x, y)| g(regs[*x], regs[*y])).collect::<Vec<F>>();
        let out: Option<Vec<F>> = match op {
            Op::Add(a, b) => Some(vec![regs[*a] + regs[*b]]),
            Op::Sub(a, b) => Some(vec![regs[*a] - regs[*b]]),
            Op::Neg(a) => Some(vec![-regs[*a]]),
            Op::AddPub(a, c) => Some(vec![regs[*a] + f(c)]),
            Op::MulPub(a, c) => Some(vec![regs[*a] * f(c)]),
            Op::Trivial(c) => Some(vec![f(c)]),
            Op::Mul(a, b) => Some(vec![regs[*a] * regs[*b]]),
            Op::MulVec(a, b) | Op::LocalMulVec(a, b) => Some(zip(a, b, &regs, |x, y| x * y)),
            Op::Inner(a, b) => Some(vec![zip(a, b, &regs, |x, y| x * y).iter().sum()]),
            Op::AddVec(a, b) => Some(zip(a, b, &regs, |x, y| x + y)),
            Op::SubVec(a, b) => Some(zip(a, b, &regs, |x, y| x - y)),
            Op::Inv(a) => inv(regs[*a]).map(|x| vec![x]),
            Op::InvVec(a) => a.iter().map(|k| inv(regs[*k])).collect(),
            Op::Div(a, b) => inv(regs[*b]).map(|x| vec![x * regs[*a]]),
            Op::DivByPub(a, c) => inv(f(c)).map(|x| vec![x * regs[*a]]),
            Op::DivPub(c, a) => inv(regs[*a]).map(|x| vec![x * f(c)]),
            Op::Rand => Some(vec![known.get(regs.len()).copied().unwrap_or(F::zero())]),
            Op::Open(a) => { opened.push(regs[*a]); Some(vec![]) }
            Op::OpenVec(a) => { opened.extend(a.iter().map(|k| regs[*k])); Some(vec![]) }
            Op::MulOpenVec(a, b) => { opened.extend(zip(a, b, &regs, |x, y| x * y)); Some(vec![]) }
            Op::EvalPoly(a, x) => Some(vec![a.iter().rev().fold(F::zero(), |acc, k| acc * f(x) + regs[*k])]),
            Op::Buffer(_) | Op::Fork(_) | Op::EndFork => Some(vec![]),
        };
        match out {
            Some(v) => regs.extend(v),
            None => return (regs, opened, Some(i)),
        }
    }
    (regs, opened, None)
}

fn op_regs(op: &Op) -> usize {
    use Op::*;
    match op {
        MulVec(a, _) | LocalMulVec(a, _) | AddVec(a, _) | SubVec(a, _) | InvVec(a) => a.len(),
        Open(_) | OpenVec(_) | MulOpenVec(..) | Buffer(_) | Fork(_) | EndFork => 0,
        _ => 1,
    }
}

fn s03<F: PrimeField>(src: &mut Src) -> R {
    let (n, t) = nt_mpc(src, 9);
    let k = src.range(1, 4);
    let inputs: Vec<F> = (0..k).map(|_| felt(src)).collect();
    let len = src.range(1, 14);
    let mut prog = vec![];
    let mut regs = k;
    let mut depth = 0;
    for _ in 0..len {
        let op = gen_op::<F>(src, regs, depth > 0);
        if matches!(op, Op::Fork(_)) {
            depth += 1
        }
        if matches!(op, Op::EndFork) {
            depth -= 1
        }
        regs += op_regs(&op);
        prog.push(op);
    }
    let prep = *src.pick(&[0usize, 1, 2, 3, 5, 10, 40]);
    let mut rng = src.rng();
    src.note(|| format!("{} n={n} t={t} preprocessed={prep} inputs={inputs:?}", std::any::type_name::<F>()));
    src.note(|| format!("program: {prog:?}"));
    src.label(format!("n={n},t={t}"));
    if t > 0 && prog.iter().any(|o| matches!(o, Op::Mul(..) | Op::MulVec(..) | Op::LocalMulVec(..) | Op::Inner(..) | Op::Inv(_) | Op::Div(..) | Op::DivPub(..))) {
        src.nontrivial();
    }
    let shares = share_field_elements(&inputs, t, n, &mut rng);
    let prog_ = &prog;
    let outs = run_parties("Shamir program", n, shares, |id, net, sh| run_prog(id, net, n, t, prep, sh, prog_))?;
    for (i, o) in outs.iter().enumerate() {
        check_eq!(o.failed.as_ref().map(|f| f.0), outs[0].failed.as_ref().map(|f| f.0), "operation that failed at party {i} (against party 0)");
        check_eq!(o.regs.len(), outs[0].regs.len(), "number of registers of party {i}");
        check_eq!(o.opened, outs[0].opened, "opened values of party {i} against party 0");
    }
    let mut vals = vec![];
    for r in 0..outs[0].regs.len() {
        let s: Vec<F> = outs.iter().map(|o| o.regs[r].inner()).collect();
        match on_poly(&s, t) {
            Ok(v) => vals.push(v),
            Err(e) => fail!("register {r}: {e}"),
        }
    }
    let (mr, mo, mf) = model(&inputs, &prog, &vals);
    check_eq!(outs[0].failed.as_ref().map(|f| f.0), mf, "operation that failed ({:?})", outs[0].failed);
    check_eq!(vals, mr, "values of the registers");
    check_eq!(outs[0].opened, mo, "opened values");
    Ok(())
}

/// Long vectors and many parties: batches larger than any internal chunk.
fn s03_bulk<F: PrimeField>(src: &mut Src) -> R {
    use shamir::arithmetic as ar;
    let (n, t) = nt_mpc(src, 11);
    let len = *src.pick(&[31usize, 64, 257, 1023, 1024, 1025, 1500, 3000]);
    let prep = *src.pick(&[0usize, 1, 7, 1000, 4000]);
    let mut rng = src.rng();
    let a: Vec<F> = (0..len).map(|_| F::rand(&mut rng)).collect();
    let b: Vec<F> = (0..len).map(|_| F::rand(&mut rng)).collect();
    src.nontrivial();
    src.note(|| format!("n={n} t={t} len={len} preprocessed={prep}"));
    let args: Vec<_> = share_field_elements(&a, t, n, &mut rng).into_iter().zip(share_field_elements(&b, t, n, &mut rng)).collect();
    let outs = run_parties("bulk", n, args, |_, net, (a, b): (Vec<Sh<F>>, Vec<Sh<F>>)| {
        let mut st: ShamirState<F> = ShamirPreprocessing::new(n, t, prep, net)?.into();
        let m = ar::mul_vec(&a, &b, net, &mut st)?;
        let l = net.degree_reduce_many(&mut st, ar::local_mul_vec(&m, &b))?;
        let inv = ar::inv_vec(&l, net, &mut st)?;
        let o = ar::open_vec(&inv, net, &mut st)?;
        let mo = ar::mul_open_vec(&a, &m, net, &mut st)?;
        Ok((m, o, mo))
    })?;
    let m: Vec<F> = a.iter().zip(&b).map(|(x, y)| *x * y).collect();
    let o: Vec<F> = m.iter().zip(&b).map(|(x, y)| (*x * y).inverse().unwrap()).collect();
    let mo: Vec<F> = m.iter().zip(&a).map(|(x, y)| *x * y).collect();
    for (i, x) in outs.iter().enumerate() {
        check!(x.1 == o, "party {i}: opened inverses differ from the cleartext");
        check!(x.2 == mo, "party {i}: opened products differ from the cleartext");
        check_eq!(x.0.len(), len, "party {i}: number of products");
    }
    for j in 0..len {
        let s: Vec<F> = outs.iter().map(|x| x.0[j].inner()).collect();
        match on_poly(&s, t) {
            Ok(v) => check_eq!(v, m[j], "product {j}"),
            Err(e) => fail!("product {j}: {e}"),
        }
    }
    Ok(())
}

// ---------- S04

fn s04_pairs<F: PrimeField>(src: &mut Src) -> R {
    let (n, t) = nt_mpc(src, 10);
    let prep = *src.pick(&[0usize, 1, 2, 3, 4, 7, 20, 50]);
    // history: draw k / rand k / buffer k / fork k and continue on the fork / return to the parent
    let steps: Vec<(usize, usize)> = (0..src.range(1, 10))
        .map(|_| (src.weighted(&[4, 2, 2, 3, 2]), src.range(0, 9)))
        .collect();
    src.note(|| format!("n={n} t={t} preprocessed={prep} steps={steps:?}"));
    src.label(format!("n={n},t={t}"));
    src.nontrivial();
    let steps_ = &steps;
    let outs = run_parties("preprocessing", n, vec![(); n], |_, net, ()| {
        let mut main: ShamirState<F> = ShamirPreprocessing::new(n, t, prep, net)?.into();
        let mut forks: Vec<ShamirState<F>> = vec![];
        let mut pairs: Vec<(F, Option<F>)> = vec![];
        for (k, x) in steps_ {
            let st = forks.last_mut().unwrap_or(&mut main);
            match k {
                0 => {
                    for _ in 0..*x {
                        let (a, b) = st.get_pair(net)?;
                        pairs.push((a, Some(b)));
                    }
                }
                1 => {
                    for _ in 0..*x {
                        pairs.push((st.rand(net)?.inner(), None));
                    }
                }
                2 => st.buffer_triples(net, *x)?,
                3 => {
                    st.buffer_triples(net, *x)?;
                    let f = st.fork(*x)?;
                    forks.push(f);
                }
                _ => {
                    if let Some(mut f) = forks.pop() {
                        // use up what the fork was given before dropping it
                        for _ in 0..x.min(&2).to_owned() {
                            let (a, b) = f.get_pair(net)?;
                            pairs.push((a, Some(b)));
                        }
                    }
                }
            }
        }
        for _ in 0..3 {
            let (a, b) = main.get_pair(net)?;
            pairs.push((a, Some(b)));
        }
        Ok(pairs)
    })?;
    let cnt = outs[0].len();
    let mut seen = BTreeSet::new();
    let mut seen_share = BTreeSet::new();
    for j in 0..cnt {
        let a: Vec<F> = outs.iter().map(|o| o[j].0).collect();
        let va = on_poly(&a, t).map_err(|e| Fail::from(format!("pair {j}, low-degree sharing: {e}")))?;
        if outs[0][j].1.is_some() {
            let b: Vec<F> = outs.iter().map(|o| o[j].1.unwrap()).collect();
            let vb = on_poly(&b, 2 * t).map_err(|e| Fail::from(format!("pair {j}, high-degree sharing: {e}")))?;
            check_eq!(va, vb, "pair {j}: value of the low-degree sharing against the high-degree sharing");
            if t > 0 {
                check!(on_poly(&b, t).is_err() || n == t + 1, "pair {j}: the high-degree sharing has low degree");
                for i in 0..n {
                    check!(a[i] != b[i], "pair {j}: both sharings give party {i} the same share");
                }
            }
        }
        check!(!va.is_zero(), "pair {j} is a sharing of zero");
        check!(seen.insert(to_big(va)), "random value {j} was handed out before");
        for (i, s) in a.iter().enumerate() {
            check!(t == 0 || seen_share.insert((i, to_big(*s))), "party {i} got one share twice (value {j})");
            check!(t == 0 || *s != va, "party {i} holds random value {j} in the clear");
        }
    }
    Ok(())
}

fn s04_refused<F: PrimeField>(src: &mut Src) -> R {
    // parameters with 2t >= n
    let n = src.range(2, 8);
    let t = src.range(n.div_ceil(2), n + 2);
    src.note(|| format!("n={n} t={t}"));
    src.nontrivial();
    let amount = src.range(0, 5);
    let outs = run_nets(n, 1, None, vec![(); n], |_, nets, ()| ShamirPreprocessing::<F>::new(n, t, amount, &nets[0]).map(|_| ()));
    for (i, o) in outs.iter().enumerate() {
        check!(matches!(o, Out::Err(_)), "party {i}: n={n} t={t} gave {o:?} instead of an error");
    }
    // forking off more pairs than there are
    let (n, t) = nt_mpc(src, 6);
    let prep = src.range(0, 8);
    let used = src.range(0, 3);
    let extra = src.range(1, 5);
    src.note(|| format!("then n={n} t={t} preprocessed={prep} used={used}"));
    let outs = run_nets(n, 1, None, vec![(); n], |_, nets, ()| {
        let net = &nets[0];
        let mut st: ShamirState<F> = ShamirPreprocessing::new(n, t, prep, net)?.into();
        let batch = t + 1;
        let have = prep.div_ceil(batch) * batch;
        let used = used.min(have);
        for _ in 0..used {
            st.get_pair(net)?;
        }
        let r = caught(|| st.fork(have - used + extra).map(|_| ()));
        let refused = !matches!(r, Ok(Ok(())));
        // what is there can be forked off
        let mut f = st.fork(have - used)?;
        let mut v = vec![];
        for _ in 0..have - used {
            v.push(f.get_pair(net)?);
        }
        Ok((refused, v))
    });
    let outs = all_ok("fork", outs)?;
    for (i, o) in outs.iter().enumerate() {
        check!(o.0, "party {i}: forking off more pairs than available was not refused");
    }
    for j in 0..outs[0].1.len() {
        let a: Vec<F> = outs.iter().map(|o| o.1[j].0).collect();
        let b: Vec<F> = outs.iter().map(|o| o.1[j].1).collect();
        let x = on_poly(&a, t).map_err(|e| Fail::from(format!("forked pair {j}: {e}")))?;
        let y = on_poly(&b, 2 * t).map_err(|e| Fail::from(format!("forked pair {j}: {e}")))?;
        check_eq!(x, y, "forked pair {j}");
    }
    Ok(())
}

fn s04_uniform(src: &mut Src) -> R {
    type F = F7;
    let (n, t) = *src.pick(&[(3usize, 1usize), (4, 1), (5, 1), (5, 2), (6, 2), (6, 1)]);
    let m = 12000usize;
    src.units = m as u64;
    src.nontrivial();
    src.note(|| format!("n={n} t={t}, {m} pairs over F_7"));
    let outs = run_parties("preprocessing", n, vec![(); n], |_, net, ()| {
        let mut st: ShamirState<F> = ShamirPreprocessing::new(n, t, m, net)?.into();
        (0..m).map(|_| st.get_pair(net)).collect::<eyre::Result<Vec<_>>>()
    })?;
    let val: Vec<F> = (0..m).map(|j| on_poly(&outs.iter().map(|o| o[j].0).collect::<Vec<_>>(), t)).collect::<Result<_, _>>().map_err(Fail::from)?;
    // value together with what one party holds
    for i in 0..n {
        let h = hist((0..m).map(|j| small(val[j]) * 49 + small(outs[i][j].0) * 7 + small(outs[i][j].1)));
        expect_uniform(&format!("(value, low share, high share) of party {i}"), &h, 343)?;
    }
    if t == 2 {
        for i in 0..n {
            let k = (i + 1 + src.below(n as u64 - 1) as usize) % n;
            let h = hist((0..m).map(|j| small(val[j]) * 49 + small(outs[i][j].0) * 7 + small(outs[k][j].0)));
            expect_uniform(&format!("(value, shares of parties {i} and {k})"), &h, 343)?;
            let h = hist((0..m).map(|j| small(val[j]) * 49 + small(outs[i][j].1) * 7 + small(outs[k][j].1)));
            expect_uniform(&format!("(value, high shares of parties {i} and {k})"), &h, 343)?;
        }
    }
    // values made from one batch are independent of each other
    for d in 1..=t {
        let h = hist((0..m - d).map(|j| small(val[j]) * 49 + small(val[j + d]) * 7 + small(outs[0][j].0)));
        expect_uniform(&format!("values at distance {d}"), &h, 343)?;
    }
    Ok(())
}

/// Large fields: the values of the pairs and what each party holds spread evenly over the field's range.
fn s04_range<F: PrimeField>(src: &mut Src) -> R {
    const CELLS: usize = 16;
    let (n, t) = *src.pick(&[(3usize, 1usize), (4, 1), (5, 2), (6, 2), (7, 3)]);
    let m = 2_000usize;
    src.units = m as u64;
    src.nontrivial();
    src.note(|| format!("n={n} t={t}, {m} pairs over {}", std::any::type_name::<F>()));
    let outs = run_parties("preprocessing", n, vec![(); n], |_, net, ()| {
        let mut st: ShamirState<F> = ShamirPreprocessing::new(n, t, m, net)?.into();
        (0..m).map(|_| st.get_pair(net)).collect::<eyre::Result<Vec<_>>>()
    })?;
    let mut h = vec![vec![0u64; CELLS]; 1 + 2 * n];
    for j in 0..m {
        let lo: Vec<F> = outs.iter().map(|o| o[j].0).collect();
        let v = on_poly(&lo, t).map_err(Fail::from)?;
        h[0][part(v, CELLS as u64)] += 1;
        for (i, o) in outs.iter().enumerate() {
            h[1 + i][part(o[j].0, CELLS as u64)] += 1;
            h[1 + n + i][part(o[j].1, CELLS as u64)] += 1;
        }
    }
    for (i, h) in h.iter().enumerate() {
        let z = uniform_z_many(std::slice::from_ref(h), CELLS);
        check!(z < Z_LIMIT, "coordinate {i} of the pairs (value, low shares, high shares) is not uniform over the field (score {z:.1}): {h:?}");
    }
    Ok(())
}

// ---------- S05

#[derive(Debug, Clone)]
enum POp {
    Add(usize, usize),
    Sub(usize, usize),
    AddPub(usize, usize),
    SubPub(usize, usize),
    MulPubScalar(usize, usize),
    PubPoint(usize, usize),
    ScalarMul(usize, usize),
    ScalarMulLocalOpen(usize, usize),
    Trivial(usize),
    Msm(Vec<usize>, Vec<usize>),
    Open(usize),
    OpenMany(Vec<usize>),
    OpenBoth(usize, usize),
    OpenBothMany(Vec<usize>, Vec<usize>),
}

fn s05<C, S>(src: &mut Src) -> R
where
    C: CurveGroup<Config = S, Affine = Affine<S>, ScalarField = <S as CurveConfig>::ScalarField>,
    S: SWCurveConfig,
{
    use shamir::pointshare as ps;
    let (n, t) = nt_mpc(src, 7);
    let np = src.range(1, 3);
    let nf = src.range(1, 3);
    let pts: Vec<C> = (0..np).map(|_| point(src)).collect();
    let fs: Vec<C::ScalarField> = (0..nf).map(|_| felt(src)).collect();
    let pubp: Vec<C> = (0..4).map(|_| point(src)).collect();
    let pubf: Vec<C::ScalarField> = (0..3).map(|_| felt(src)).collect();
    let mut prog = vec![];
    let mut regs = np;
    for _ in 0..src.range(1, 9) {
        let r = |s: &mut Src, m: usize| s.below(m as u64) as usize;
        let rv = |s: &mut Src, m: usize, l: usize| (0..l).map(|_| s.below(m as u64) as usize).collect::<Vec<_>>();
        let op = match src.below(14) {
            0 => POp::Add(r(src, regs), r(src, regs)),
            1 => POp::Sub(r(src, regs), r(src, regs)),
            2 => POp::AddPub(r(src, regs), r(src, 4)),
            3 => POp::SubPub(r(src, regs), r(src, 4)),
            4 => POp::MulPubScalar(r(src, regs), r(src, 3)),
            5 => POp::PubPoint(r(src, nf), r(src, 4)),
            6 | 7 => POp::ScalarMul(r(src, regs), r(src, nf)),
            8 => POp::ScalarMulLocalOpen(r(src, regs), r(src, nf)),
            9 => POp::Trivial(r(src, 4)),
            10 => {
                let l = *src.pick(&[0usize, 1, 2, 3, 8, 40]);
                POp::Msm(rv(src, 4, l), rv(src, nf, l))
            }
            11 => POp::Open(r(src, regs)),
            12 => {
                let l = src.range(0, 4);
                POp::OpenMany(rv(src, regs, l))
            }
            _ => {
                if src.bool() {
                    POp::OpenBoth(r(src, regs), r(src, nf))
                } else {
                    let l = src.range(0, 4);
                    POp::OpenBothMany(rv(src, regs, l), rv(src, nf, l))
                }
            }
        };
        if matches!(op, POp::Add(..) | POp::Sub(..) | POp::AddPub(..) | POp::SubPub(..) | POp::MulPubScalar(..) | POp::PubPoint(..) | POp::ScalarMul(..) | POp::Trivial(_) | POp::Msm(..)) {
            regs += 1;
        }
        prog.push(op);
    }
    let prep = *src.pick(&[0usize, 1, 5]);
    let mut rng = src.rng();
    src.note(|| format!("{} n={n} t={t} points={pts:?} scalars={fs:?} public={pubp:?} {pubf:?} program={prog:?}", std::any::type_name::<C>()));
    if t > 0 && prog.iter().any(|o| matches!(o, POp::ScalarMul(..) | POp::ScalarMulLocalOpen(..))) {
        src.nontrivial();
    }
    let mut psh: Vec<Vec<Pt<C>>> = vec![vec![]; n];
    for p in &pts {
        for (v, s) in psh.iter_mut().zip(share_curve_point(*p, t, n, &mut rng)) {
            v.push(s);
        }
    }
    let fsh = share_field_elements(&fs, t, n, &mut rng);
    let args: Vec<_> = psh.into_iter().zip(fsh).collect();
    let (prog_, pubp_, pubf_) = (&prog, &pubp, &pubf);
    let outs = run_parties("point program", n, args, |_, net, (mut regs, f): (Vec<Pt<C>>, Vec<Sh<C::ScalarField>>)| {
        let mut st: ShamirState<C::ScalarField> = ShamirPreprocessing::new(n, t, prep, net)?.into();
        let (mut op, mut of) = (vec![], vec![]);
        for (i, o) in prog_.iter().enumerate() {
            let alt = i % 2 == 0;
            match o {
                POp::Add(a, b) => regs.push(if alt { ps::add(&regs[*a], &regs[*b]) } else { let mut x = regs[*a].clone(); ps::add_assign(&mut x, &regs[*b]); x }),
                POp::Sub(a, b) => regs.push(if alt { ps::sub(&regs[*a], &regs[*b]) } else { let mut x = regs[*a].clone(); ps::sub_assign(&mut x, &regs[*b]); x }),
                POp::AddPub(a, b) => {
                    let mut x = regs[*a].clone();
                    if alt { ps::add_assign_public(&mut x, &pubp_[*b]) } else { ps::add_assign_public_affine(&mut x, &pubp_[*b].into_affine()) }
                    regs.push(x);
                }
                POp::SubPub(a, b) => {
                    let mut x = regs[*a].clone();
                    if alt { ps::sub_assign_public(&mut x, &pubp_[*b]) } else { ps::sub_assign_public_affine(&mut x, &pubp_[*b].into_affine()) }
                    regs.push(x);
                }
                POp::MulPubScalar(a, b) => regs.push(ps::scalar_mul_public_scalar(&regs[*a], &pubf_[*b])),
                POp::PubPoint(a, b) => regs.push(ps::scalar_mul_public_point(f[*a], &pubp_[*b])),
                POp::ScalarMul(a, b) => { let x = ps::scalar_mul(&regs[*a], f[*b], net, &mut st)?; regs.push(x) }
                POp::ScalarMulLocalOpen(a, b) => op.push(ps::open_half_point(ps::scalar_mul_local(&regs[*a], f[*b]), net, &mut st)?),
                POp::Trivial(a) => regs.push(ps::promote_to_trivial_share(&pubp_[*a])),
                POp::Msm(a, b) => {
                    let p: Vec<Affine<S>> = a.iter().map(|k| pubp_[*k].into_affine()).collect();
                    let s: Vec<_> = b.iter().map(|k| f[*k]).collect();
                    regs.push(ps::msm_public_points(&p, &s));
                }
                POp::Open(a) => op.push(ps::open_point(&regs[*a], net, &mut st)?),
                POp::OpenMany(a) => op.extend(ps::open_point_many(&a.iter().map(|k| regs[*k].clone()).collect::<Vec<_>>(), net, &mut st)?),
                POp::OpenBoth(a, b) => { let (p, x) = ps::open_point_and_field(&regs[*a], &f[*b], net, &mut st)?; op.push(p); of.push(x); }
                POp::OpenBothMany(a, b) => {
                    let (p, x) = ps::open_point_and_field_many(&a.iter().map(|k| regs[*k].clone()).collect::<Vec<_>>(), &b.iter().map(|k| f[*k]).collect::<Vec<_>>(), net, &mut st)?;
                    op.extend(p);
                    of.extend(x);
                }
            }
        }
        Ok((regs, op, of))
    })?;
    let mut regs = pts.clone();
    let (mut op, mut of) = (vec![], vec![]);
    for o in &prog {
        match o {
            POp::Add(a, b) => regs.push(regs[*a] + regs[*b]),
            POp::Sub(a, b) => regs.push(regs[*a] - regs[*b]),
            POp::AddPub(a, b) => regs.push(regs[*a] + pubp[*b]),
            POp::SubPub(a, b) => regs.push(regs[*a] - pubp[*b]),
            POp::MulPubScalar(a, b) => regs.push(regs[*a] * pubf[*b]),
            POp::PubPoint(a, b) => regs.push(pubp[*b] * fs[*a]),
            POp::ScalarMul(a, b) => regs.push(regs[*a] * fs[*b]),
            POp::ScalarMulLocalOpen(a, b) => op.push(regs[*a] * fs[*b]),
            POp::Trivial(a) => regs.push(pubp[*a]),
            POp::Msm(a, b) => regs.push(a.iter().zip(b).fold(C::zero(), |x, (p, s)| x + pubp[*p] * fs[*s])),
            POp::Open(a) => op.push(regs[*a]),
            POp::OpenMany(a) => op.extend(a.iter().map(|k| regs[*k])),
            POp::OpenBoth(a, b) => { op.push(regs[*a]); of.push(fs[*b]); }
            POp::OpenBothMany(a, b) => { op.extend(a.iter().map(|k| regs[*k])); of.extend(b.iter().map(|k| fs[*k])); }
        }
    }
    for (i, o) in outs.iter().enumerate() {
        check!(o.1 == op, "party {i}: opened points differ from the cleartext: {:?} instead of {:?}", o.1, op);
        check_eq!(o.2, of, "party {i}: opened field elements");
    }
    for r in 0..regs.len() {
        let s: Vec<C> = outs.iter().map(|o| o.0[r].clone().inner()).collect();
        match on_poly_point(&s, t) {
            Ok(v) => check!(v == regs[r], "point register {r}: got {v}, expected {}", regs[r]),
            Err(e) => fail!("point register {r}: {e}"),
        }
    }
    Ok(())
}

fn s05_any(src: &mut Src) -> R {
    match src.below(6) {
        0 => s05::<ark_bn254::G1Projective, ark_bn254::g1::Config>(src),
        1 => s05::<ark_bls12_381::G1Projective, ark_bls12_381::g1::Config>(src),
        2 => s05::<ark_bn254::G2Projective, ark_bn254::g2::Config>(src),
        3 => s05::<ark_bls12_381::G2Projective, ark_bls12_381::g2::Config>(src),
        4 => s05::<ark_grumpkin::Projective, ark_grumpkin::GrumpkinConfig>(src),
        _ => s05::<ark_bls12_377::G1Projective, ark_bls12_377::g1::Config>(src),
    }
}

// ---------- S06

/// Two degree-t sharings of a and b that agree on the coalition.
fn equal_for<F: PrimeField>(a: F, b: F, n: usize, t: usize, coalition: &[usize], rng: &mut ChaCha12Rng) -> (Vec<F>, Vec<F>) {
    let mut c = vec![a];
    c.extend((0..t).map(|_| F::rand(rng)));
    let f = |x: F| c.iter().rev().fold(F::zero(), |acc, k| acc * x + k);
    let z = |x: F| coalition.iter().fold(F::one(), |acc, i| acc * (x - F::from(*i as u64 + 1)));
    let k = (b - a) / z(F::zero());
    let pts: Vec<F> = (1..=n as u64).map(F::from).collect();
    (pts.iter().map(|x| f(*x)).collect(), pts.iter().map(|x| f(*x) + k * z(*x)).collect())
}

/// Field elements party q received from each sender during the logged run, in order.
fn received<F: PrimeField>(log: &Log, q: usize, n: usize) -> Vec<Vec<F>> {
    let l = log.lock().unwrap();
    let mut out = vec![];
    for from in 0..n {
        for (f, t, d) in l.iter() {
            if *f == from && *t == q {
                if let Ok(v) = Vec::<F>::deserialize_uncompressed_unchecked(&d[..]) {
                    out.push(v);
                }
            }
        }
    }
    out
}

fn s06_views(src: &mut Src) -> R {
    type F = F7;
    use shamir::arithmetic as ar;
    let (n, t) = *src.pick(&[(3usize, 1usize), (4, 1), (5, 1), (5, 2), (6, 2)]);
    let coalition = src.subset(n, t);
    let which = src.below(4);
    let m = if t == 1 { 12000usize } else { 20000 };
    let mut rng = src.rng();
    // nonzero inputs: for products that are opened the value itself is not secret
    let nz = |s: &mut Src| F::from(1 + s.below(6));
    let (x0, y0, x1, y1) = (nz(src), nz(src), nz(src), nz(src));
    src.units = 2 * m as u64;
    src.nontrivial();
    src.note(|| format!("n={n} t={t} coalition={coalition:?} operation {which} inputs ({x0},{y0}) against ({x1},{y1})"));
    let (xa, xb) = equal_for(x0, x1, n, t, &coalition, &mut rng);
    let (ya, yb) = equal_for(y0, y1, n, t, &coalition, &mut rng);
    let mut hists = vec![];
    for (xs, ys) in [(xa, ya), (xb, yb)] {
        let log: Log = Default::default();
        let args: Vec<(F, F)> = xs.into_iter().zip(ys).collect();
        let outs = run_nets(n, 2, Some(log.clone()), args, |_, nets, (x, y)| {
            // the prepared randomness comes over a network that is not looked at
            let mut st: ShamirState<F> = ShamirPreprocessing::new(n, t, 4 * m + 10, &nets[1])?.into();
            let (x, y) = (vec![Sh::new(x); m], vec![Sh::new(y); m]);
            let o: Vec<F> = match which {
                0 => Sh::convert_vec(ar::mul_vec(&x, &y, &nets[0], &mut st)?),
                1 => Sh::convert_vec(nets[0].degree_reduce_many(&mut st, ar::local_mul_vec(&x, &y))?),
                2 | 3 => {
                    // opening of a product with a random factor: only the product is revealed
                    let r: Vec<Sh<F>> = (0..m).map(|_| st.rand(&nets[1])).collect::<eyre::Result<_>>()?;
                    if which == 2 {
                        ar::mul_open_vec(&x, &r, &nets[0], &mut st)?;
                    } else {
                        ar::mul_open_vec(&r, &y, &nets[0], &mut st)?;
                    }
                    Sh::convert_vec(r)
                }
                _ => unreachable!(),
            };
            Ok(o)
        });
        let outs = all_ok("masked operation", outs)?;
        let views: Vec<(usize, Vec<Vec<F>>)> = coalition.iter().map(|q| (*q, received::<F>(&log, *q, n))).collect();
        for (q, v) in &views {
            for x in v {
                check_eq!(x.len(), m, "elements in a message to party {q}");
            }
        }
        // one view per element: all received elements of the coalition and its own output shares, three coordinates at a time
        let mut coords: Vec<Vec<F>> = vec![];
        for (q, v) in views {
            coords.extend(v);
            coords.push(outs[q].clone());
        }
        let mut hs = vec![];
        let c = coords.len();
        for i in 0..c {
            for j in i..c {
                for k in j..c {
                    if (i == j) != (j == k) && c >= 3 {
                        continue;
                    }
                    if i == j && c >= 3 {
                        continue;
                    }
                    hs.push(((i, j, k), hist((0..m).map(|e| small(coords[i][e]) * 49 + small(coords[j][e]) * 7 + small(coords[k][e])))));
                }
            }
        }
        hists.push(hs);
    }
    check_eq!(hists[0].len(), hists[1].len(), "number of messages to the coalition for two inputs");
    for ((ix, a), (_, b)) in hists[0].iter().zip(&hists[1]) {
        expect_same(&format!("messages and outputs {ix:?} of coalition {coalition:?}, operation {which}"), a, b)?;
    }
    Ok(())
}

/// In a large field no received element may repeat, appear in the clear, or divide into the secret's sharing polynomial.
fn s06_fresh<F: PrimeField>(src: &mut Src) -> R {
    use shamir::arithmetic as ar;
    let (n, t) = *src.pick(&[(3usize, 1usize), (4, 1), (5, 1), (5, 2), (6, 2), (7, 3), (7, 1)]);
    let len = src.range(1, 5);
    let which = src.below(7);
    let rounds = src.range(2, 3);
    let mut rng = src.rng();
    let (x, y): (F, F) = (nonzero(src), nonzero(src));
    src.nontrivial();
    src.note(|| format!("n={n} t={t} operation {which} x={x} y={y} len={len} rounds={rounds}"));
    let xs = share_field_element(x, t, n, &mut rng);
    let ys = share_field_element(y, t, n, &mut rng);
    let args: Vec<_> = xs.iter().copied().zip(ys.iter().copied()).collect();
    let log: Log = Default::default();
    let prep = *src.pick(&[0usize, 100]);
    let forked = src.bool();
    let outs = run_nets(n, 2, Some(log.clone()), args, |_, nets, (x, y)| {
        let mut st: ShamirState<F> = ShamirPreprocessing::new(n, t, prep, &nets[1])?.into();
        let mut other = None;
        st.buffer_triples(&nets[1], 100)?;
        if forked {
            other = Some(st.fork(40)?);
        }
        for i in 0..rounds {
            let st = if i % 2 == 1 { other.as_mut().unwrap_or(&mut st) } else { &mut st };
            let (vx, vy) = (vec![x; len], vec![y; len]);
            match which {
                0 => { for _ in 0..len { ar::mul(x, y, &nets[0], st)?; } }
                1 => { ar::mul_vec(&vx, &vy, &nets[0], st)?; }
                2 => { ar::inv(x, &nets[0], st)?; }
                3 => { ar::inv_vec(&vx, &nets[0], st)?; }
                4 => { ar::div(x, y, &nets[0], st)?; }
                5 => { nets[0].degree_reduce_many(st, ar::local_mul_vec(&vx, &vy))?; }
                _ => { ar::div_public_by_shared(F::from(5u64), x, &nets[0], st)?; }
            }
        }
        Ok(())
    });
    all_ok("operation", outs)?;
    let mut seen: BTreeMap<(usize, usize), BTreeSet<BigUint>> = BTreeMap::new();
    let l = log.lock().unwrap();
    let clear: Vec<BigUint> = [x, y, x * y, x.inverse().unwrap(), y.inverse().unwrap()].iter().chain(xs.iter().map(|s| s.inner()).collect::<Vec<_>>().iter()).chain(ys.iter().map(|s| s.inner()).collect::<Vec<_>>().iter()).map(|v| to_big(*v)).collect();
    for (f, q, d) in l.iter() {
        let els: Vec<F> = match Vec::<F>::deserialize_uncompressed_unchecked(&d[..]) {
            Ok(v) if v.len() * F::MODULUS_BIT_SIZE.div_ceil(8) as usize + 8 == d.len() => v,
            _ => match F::deserialize_uncompressed_unchecked(&d[..]) {
                Ok(v) => vec![v],
                Err(_) => fail!("message from {f} to {q} of {} bytes is not made of field elements", d.len()),
            },
        };
        for e in els {
            let b = to_big(e);
            check!(!clear.contains(&b), "party {f} sent party {q} an unmasked value");
            check!(seen.entry((*f, *q)).or_default().insert(b), "party {f} sent party {q} the same masked element twice");
        }
    }
    Ok(())
}

/// Opening a product reveals the product only: the opened polynomial must not vanish where a factor's sharing polynomial does.
fn s06_product_opening<F: PrimeField>(src: &mut Src) -> R {
    use shamir::arithmetic as ar;
    let n = src.range(3, 7);
    let t = 1;
    let which = src.below(3);
    let x: F = nonzero(src);
    let mut rng = src.rng();
    let slope: F = F::rand(&mut rng);
    if slope.is_zero() {
        return Ok(());
    }
    let q = src.range(0, n - 1);
    src.nontrivial();
    src.note(|| format!("n={n} t={t} x={x} operation {which} observer {q}"));
    let args: Vec<F> = (1..=n as u64).map(|i| x + slope * F::from(i)).collect();
    let log: Log = Default::default();
    let outs = run_nets(n, 2, Some(log.clone()), args, |_, nets, x| {
        let mut st: ShamirState<F> = ShamirPreprocessing::new(n, t, 20, &nets[1])?.into();
        let r = st.rand(&nets[1])?;
        match which {
            0 => { ar::inv(Sh::new(x), &nets[0], &mut st)?; }
            1 => { ar::inv_vec(&[Sh::new(x)], &nets[0], &mut st)?; }
            _ => { ar::mul_open_vec(&[Sh::new(x)], &[r], &nets[0], &mut st)?; }
        }
        Ok(())
    });
    all_ok("product opening", outs)?;
    let l = log.lock().unwrap();
    // any party's messages of the round are the opened polynomial at its point; parties send what they hold to all
    let mut at: BTreeMap<usize, F> = BTreeMap::new();
    for (f, _, d) in l.iter() {
        let v = match Vec::<F>::deserialize_uncompressed_unchecked(&d[..]) {
            Ok(v) if v.len() == 1 => v[0],
            _ => match F::deserialize_uncompressed_unchecked(&d[..]) {
                Ok(v) => v,
                Err(_) => fail!("message of party {f} is not a field element"),
            },
        };
        at.insert(*f, v);
    }
    if at.len() < 3 {
        return Ok(());
    }
    let ids: Vec<usize> = at.keys().copied().take(3).collect();
    let xs: Vec<F> = ids.iter().map(|i| F::from(*i as u64 + 1)).collect();
    let ys: Vec<F> = ids.iter().map(|i| at[i]).collect();
    let root = -x / slope;
    check!(!interpolate(&xs, &ys, root).is_zero(), "the shares sent in the opening of a product lie on a multiple of the factor's sharing polynomial: a single party can factor it and learns the secret up to two candidates");
    Ok(())
}

fn s06_point_product(src: &mut Src) -> R {
    use shamir::pointshare as ps;
    // points over a 13-element group: opening a locally multiplied point share
    type F = F13;
    let (n, t) = *src.pick(&[(3usize, 1usize), (4, 1), (5, 1)]);
    let q = src.range(0, n - 1);
    let open = src.bool();
    let m = 2500usize;
    let mut rng = src.rng();
    let nz = |s: &mut Src| F::from(1 + s.below(12));
    let (x0, x1) = (nz(src), nz(src));
    src.units = 2 * m as u64;
    src.nontrivial();
    src.note(|| format!("n={n} t={t} observer={q} open={open} x={x0} against {x1}"));
    let (xa, xb) = equal_for(x0, x1, n, t, &[q], &mut rng);
    let y = F::from(1 + src.below(12));
    let (ya, yb) = equal_for(y, y * x0 / x1, n, t, &[q], &mut rng);
    let mut hists = vec![];
    for (xs, ys) in [(xa, ya), (xb, yb)] {
        let log: Log = Default::default();
        let args: Vec<(F, F)> = xs.into_iter().zip(ys).collect();
        let outs = run_nets(n, 2, Some(log.clone()), args, |_, nets, (x, y)| {
            let mut st: ShamirState<F> = ShamirPreprocessing::new(n, t, 2 * m + 10, &nets[1])?.into();
            let p = Pt::new(TinyG::generator() * y);
            let mut o = vec![];
            for _ in 0..m {
                if open {
                    // the product x*y is the same in both runs; nothing else may show
                    ps::open_half_point(ps::scalar_mul_local(&p, Sh::new(x)), &nets[0], &mut st)?;
                    o.push(TinyG::zero());
                } else {
                    o.push(ps::scalar_mul(&p, Sh::new(x), &nets[0], &mut st)?.inner());
                }
            }
            Ok(o)
        });
        let outs = all_ok("point product", outs)?;
        let l = log.lock().unwrap();
        let mut per: BTreeMap<usize, Vec<u64>> = BTreeMap::new();
        for (f, to, d) in l.iter() {
            if *to == q {
                let p = match Vec::<TinyG>::deserialize_uncompressed_unchecked(&d[..]) {
                    Ok(v) if v.len() == 1 => v[0],
                    _ => match TinyG::deserialize_uncompressed_unchecked(&d[..]) {
                        Ok(p) => p,
                        Err(_) => fail!("message of party {f} is not a point"),
                    },
                };
                per.entry(*f).or_default().push(tiny_index(&p));
            }
        }
        per.insert(100 + q, outs[q].iter().map(tiny_index).collect());
        let cols: Vec<Vec<u64>> = per.into_values().collect();
        for c in &cols {
            check_eq!(c.len(), m, "messages");
        }
        let mut hs = vec![];
        for i in 0..cols.len() {
            for j in i + 1..cols.len() {
                hs.push(hist((0..m).map(|e| cols[i][e] * 13 + cols[j][e])));
            }
            hs.push(hist((0..m).map(|e| cols[i][e])));
        }
        hists.push(hs);
    }
    check_eq!(hists[0].len(), hists[1].len(), "number of messages");
    for (a, b) in hists[0].iter().zip(&hists[1]) {
        expect_same(&format!("messages to party {q} in a point product (opened: {open})"), a, b)?;
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    let _ = (Arc::new(Mutex::new(())), ChaCha12Rng::from_entropy().r#gen::<u8>());
    vec![
        Property {
            id: "S01",
            rule: "a case with degree at least 1 (a degree-0 sharing is a copy)",
            assumptions: "party indices are 1..=n, distinct, and n is below the field modulus",
            subs: vec![
                Sub::new("field", 150_000, 400_000, small_or_any_field),
                Sub::new("point", 15_000, 30_000, |s| any_curve!(s, s01_point)),
                Sub::new("polynomials", 60_000, 100_000, |s| any_field!(s, s01_poly)),
            ],
        },
        Property {
            id: "S02",
            rule: "every case: a distribution over thousands of sharings is compared with the uniform one",
            assumptions: "secrecy of field sharings is decided over small fields, where whole distributions can be counted (the code is generic in the field); of point sharings by low bits and freshness of the coefficients; wide rings and bit strings by windows of four bits",
            subs: vec![
                Sub::new("shamir-field", 600, 3_000, |s| if s.bool() { s02_field::<F7>(s) } else { s02_field::<F13>(s) }),
                Sub::new("shamir-point", 48, 1_000, s02_point),
                Sub::new("shamir-fresh", 5_000, 5_000, |s| any_curve!(s, s02_fresh)),
            ]
            .into_iter()
            .chain(crate::rep3sec::s02())
            .collect(),
        },
        Property {
            id: "S03",
            rule: "a program with threshold at least 1 that multiplies, divides or inverts shared values",
            assumptions: "the parties run the same program over lossless channels; fields of at least 61 bits (inversion fails by design with probability 1/p)",
            subs: vec![
                Sub::new("programs", 25_000, 120_000, |s| any_field!(s, s03)),
                Sub::new("bulk", 250, 2_000, |s| any_field!(s, s03_bulk)),
            ],
        },
        Property {
            id: "S04",
            rule: "every case draws at least three pairs or requests refused parameters",
            assumptions: "uniformity is decided over F_7; consistency and freshness over large fields",
            subs: vec![
                Sub::new("pairs", 8_000, 60_000, |s| any_field!(s, s04_pairs)),
                Sub::new("refused", 5_000, 10_000, |s| any_field!(s, s04_refused)),
                Sub::new("uniform", 200, 600, s04_uniform),
                Sub::new("range", 120, 1_200, |s| any_field!(s, s04_range)),
            ],
        },
        Property {
            id: "S05",
            rule: "a program (with threshold at least 1 for Shamir) that multiplies a shared point by a shared scalar or tests it for zero",
            assumptions: "the parties run the same program over lossless channels; replicated zero tests only of points whose shares have no zero component (documented domain)",
            subs: std::iter::once(Sub::new("shamir", 8_000, 30_000, s05_any)).chain(crate::rep3sec::s05_subs()).collect(),
        },
        Property {
            id: "S06",
            rule: "every case: messages of an interactive step are recorded and tested",
            assumptions: "joint distributions are compared up to three coordinates at a time over F_7 or a 13-element group; replicated messages are tested for dependence on randomness the receiver lacks, by running again with only that randomness changed",
            subs: vec![
                Sub::new("shamir-views", 250, 1_200, s06_views),
                Sub::new("shamir-fresh", 15_000, 40_000, |s| any_field!(s, s06_fresh)),
                Sub::new("shamir-product-opening", 3_000, 4_000, |s| any_field!(s, s06_product_opening)),
                Sub::new("shamir-point-product", 100, 400, s06_point_product),
            ]
            .into_iter()
            .chain(crate::rep3sec::s06())
            .collect(),
        },
    ]
}
