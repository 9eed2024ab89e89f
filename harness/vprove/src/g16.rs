//! G01–G03 Groth16.
use crate::r1cs::*;
use ark_bls12_377::Bls12_377;
use ark_bls12_381::Bls12_381;
use ark_bn254::Bn254;
use ark_ec::pairing::Pairing;
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup, PrimeGroup};
use ark_ff::PrimeField;
use circom_types::Witness;
use co_circom_types::*;
use co_groth16::*;
use engine::*;
use taceo_groth16::ConstraintMatrices;
use vkit::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Prover {
    Plain,
    Shamir(usize, usize),
    Rep3,
    Bridge,
}
pub fn any_prover(s: &mut Src) -> Prover {
    match s.weighted(&[3, 5, 1, 1]) {
        0 => Prover::Plain,
        1 => {
            let t = s.weighted(&[1, 6, 2, 1]);
            let n = (2 * t + 1).max(3) + s.weighted(&[5, 2, 1]);
            Prover::Shamir(n, t)
        }
        2 => Prover::Rep3,
        _ => Prover::Bridge,
    }
}

/// Runs a prover on the given public part and private values; the outcome of every party.
fn prove_parts<P, C1, C2, T: R1CSToQAP>(
    prover: Prover,
    pk: &ProvingKey<P>,
    m: &ConstraintMatrices<P::ScalarField>,
    publics: &[P::ScalarField],
    private: &[P::ScalarField],
    rng: &mut rand_chacha::ChaCha12Rng,
) -> Vec<Out<Proof<P>>>
where
    P: Pairing<G1 = Projective<C1>, G1Affine = Affine<C1>, G2 = Projective<C2>, G2Affine = Affine<C2>>,
    C1: SWCurveConfig<ScalarField = P::ScalarField>,
    C2: SWCurveConfig<ScalarField = P::ScalarField>,
{
    let all = Witness { values: [publics, private].concat() };
    match prover {
        Prover::Plain => run_with(vec![()], |_, _| Groth16::<P>::plain_prove::<T>(pk, m, SharedWitness { public_inputs: publics.to_vec(), witness: private.to_vec() })),
        Prover::Shamir(n, t) => {
            let ws = ShamirSharedWitness::share_shamir(all, publics.len(), t, n, rng);
            run_nets(n, 2, None, ws, |_, nets, w| ShamirCoGroth16::<P>::prove::<_, T>(&nets[0], &nets[1], n, t, pk, m, w))
        }
        Prover::Rep3 => {
            let ws = Rep3SharedWitness::share_rep3(all, publics.len(), rng).to_vec();
            run_nets(3, 2, None, ws, |_, nets, w| Rep3CoGroth16::<P>::prove::<_, T>(&nets[0], &nets[1], pk, m, w))
        }
        Prover::Bridge => {
            let ws = Rep3SharedWitness::share_rep3(all, publics.len(), rng).to_vec();
            run_nets(3, 2, None, ws, |_, nets, w| Rep3CoGroth16::<P>::prove_with_shamir_bridge::<_, T>(&nets[0], &nets[1], pk, m, w))
        }
    }
}
fn outcomes<P, C1, C2>(
    red: Red,
    prover: Prover,
    pk: &ProvingKey<P>,
    m: &ConstraintMatrices<P::ScalarField>,
    publics: &[P::ScalarField],
    private: &[P::ScalarField],
    rng: &mut rand_chacha::ChaCha12Rng,
) -> Vec<Out<Proof<P>>>
where
    P: Pairing<G1 = Projective<C1>, G1Affine = Affine<C1>, G2 = Projective<C2>, G2Affine = Affine<C2>>,
    C1: SWCurveConfig<ScalarField = P::ScalarField>,
    C2: SWCurveConfig<ScalarField = P::ScalarField>,
{
    match red {
        Red::Circom => prove_parts::<P, C1, C2, CircomReduction>(prover, pk, m, publics, private, rng),
        Red::LibSnark => prove_parts::<P, C1, C2, LibSnarkReduction>(prover, pk, m, publics, private, rng),
    }
}
/// The one proof all parties output.
fn one_proof<P: Pairing>(prover: Prover, outs: Vec<Out<Proof<P>>>) -> R<Proof<P>> {
    let ps = all_ok(&format!("{prover:?} prover"), outs)?;
    for (i, p) in ps.iter().enumerate() {
        check!(*p == ps[0], "{prover:?} prover: party {i} outputs another proof than party 0");
    }
    Ok(ps.into_iter().next().unwrap())
}
fn verify<P: Pairing>(vk: &VerifyingKey<P>, p: &Proof<P>, x: &[P::ScalarField]) -> R<bool> {
    match caught(|| Groth16::<P>::verify(vk, p, x)) {
        Err(e) => fail!("verifier panicked: {e}"),
        Ok(Ok(())) => Ok(true),
        Ok(Err(_)) => Ok(false),
    }
}

macro_rules! any_pairing {
    ($s:expr, $f:ident) => {
        match $s.weighted(&[6, 2, 2]) {
            0 => $f::<Bn254, _, _>($s),
            1 => $f::<Bls12_381, _, _>($s),
            _ => $f::<Bls12_377, _, _>($s),
        }
    };
}

fn any_red(s: &mut Src) -> Red {
    if s.bool() { Red::LibSnark } else { Red::Circom }
}
fn rows(s: &mut Src) -> usize {
    *s.pick(&[2, 6, 6, 12, 30])
}

fn complete<P, C1, C2>(s: &mut Src) -> R
where
    P: Pairing<G1 = Projective<C1>, G1Affine = Affine<C1>, G2 = Projective<C2>, G2Affine = Affine<C2>>,
    C1: SWCurveConfig<ScalarField = P::ScalarField>,
    C2: SWCurveConfig<ScalarField = P::ScalarField>,
{
    let k = rows(s);
    let r1cs = random_r1cs::<P::ScalarField>(s, k);
    let red = any_red(s);
    let mut r = s.rng();
    let key = keygen::<P, C1, C2>(&r1cs, red, &mut r);
    let m = r1cs.matrices();
    let (x, w) = r1cs.z.split_at(r1cs.l);
    let (p1, p2) = (any_prover(s), any_prover(s));
    s.note(|| format!("{} instance, {} witness variables, {} constraints, {red:?}, {p1:?} and {p2:?}", r1cs.l, w.len(), r1cs.rows.len()));
    s.label(format!("{red:?}"));
    if r1cs.rows.len() > 1 && w.len() > 1 {
        s.nontrivial();
    }
    for p in [p1, p2] {
        s.label(match p {
            Prover::Shamir(..) => "Shamir".to_string(),
            p => format!("{p:?}"),
        });
        let proof = one_proof(p, outcomes(red, p, &key.pk, &m, x, w, &mut r))?;
        check!(equation(&key.pk.vk, &proof, &x[1..]), "{p:?} prover, {red:?}: the proof does not satisfy the verification equation");
        check!(verify(&key.pk.vk, &proof, &x[1..])?, "{p:?} prover, {red:?}: the verifier rejects a proof that satisfies the equation");
    }
    Ok(())
}

/// Circuits whose domain is large enough that parallel code splits its work.
fn large(s: &mut Src) -> R {
    type F = ark_bn254::Fr;
    let red = any_red(s);
    let l = s.range(1, 4);
    let n = *s.pick(&[511usize, 512, 1024, 1500, 2048]);
    let m = n - s.below(3) as usize;
    let mut r = s.rng();
    use ark_ff::UniformRand;
    let mut z: Vec<F> = vec![F::from(1u64)];
    for _ in 0..l + 2 {
        z.push(F::rand(&mut r));
    }
    let mut rows = vec![];
    for j in 0..m {
        let a: Lc<F> = vec![(F::from(1u64), z.len() - 1), (F::from(j as u64 + 1), 0)];
        let b: Lc<F> = vec![(F::rand(&mut r), j % z.len())];
        let v = dot(&a, &z) * dot(&b, &z);
        rows.push([a, b, vec![(F::from(1u64), z.len())]]);
        z.push(v);
    }
    let r1cs = R1cs { l, rows, z };
    let key = keygen::<Bn254, _, _>(&r1cs, red, &mut r);
    let p = match s.below(3) {
        0 => Prover::Plain,
        1 => Prover::Shamir(3, 1),
        _ => Prover::Rep3,
    };
    s.note(|| format!("{m} constraints, {red:?}, {p:?}"));
    s.label(format!("{red:?} {p:?}"));
    s.nontrivial();
    let (x, w) = r1cs.z.split_at(r1cs.l);
    let proof = one_proof(p, outcomes(red, p, &key.pk, &r1cs.matrices(), x, w, &mut r))?;
    check!(equation(&key.pk.vk, &proof, &x[1..]), "{p:?} prover, {red:?}, {m} constraints: the proof does not satisfy the verification equation");
    check!(verify(&key.pk.vk, &proof, &x[1..])?, "{p:?} prover, {red:?}: the verifier rejects a proof that satisfies the equation");
    Ok(())
}

type Vector = (String, ProvingKey<Bn254>, ConstraintMatrices<ark_bn254::Fr>, Vec<ark_bn254::Fr>);
fn load_vectors() -> Result<Vec<Vector>, String> {
    let mut out = vec![];
    for name in ["multiplier2", "poseidon"] {
        let d = format!("/repo/test_vectors/Groth16/bn254/{name}");
        let f = |x: &str| std::fs::File::open(format!("{d}/{x}")).map_err(|e| e.to_string());
        let zkey = circom_types::groth16::Zkey::<Bn254>::from_reader(f("circuit.zkey")?, circom_types::CheckElement::No).map_err(|e| e.to_string())?;
        let w = Witness::from_reader(f("witness.wtns")?).map_err(|e| e.to_string())?;
        let (m, pk) = zkey.into();
        out.push((name.to_string(), pk, m, w.values));
    }
    Ok(out)
}

fn shipped(s: &mut Src, v: &[Vector]) -> R {
    let (name, pk, m, z) = s.pick(v);
    let p = any_prover(s);
    s.note(|| format!("{name} {p:?}"));
    s.label(name.clone());
    s.nontrivial();
    let mut r = s.rng();
    let (x, w) = z.split_at(m.num_instance_variables);
    let proof = one_proof(p, outcomes(Red::Circom, p, pk, m, x, w, &mut r))?;
    check!(equation(&pk.vk, &proof, &x[1..]), "{name}, {p:?} prover: the proof does not satisfy the verification equation");
    check!(verify(&pk.vk, &proof, &x[1..])?, "{name}, {p:?} prover: the verifier rejects");
    Ok(())
}

fn sound<P, C1, C2>(s: &mut Src) -> R
where
    P: Pairing<G1 = Projective<C1>, G1Affine = Affine<C1>, G2 = Projective<C2>, G2Affine = Affine<C2>>,
    C1: SWCurveConfig<ScalarField = P::ScalarField>,
    C2: SWCurveConfig<ScalarField = P::ScalarField>,
{
    let r1cs = random_r1cs::<P::ScalarField>(s, 6);
    let red = any_red(s);
    let mut r = s.rng();
    let key = keygen::<P, C1, C2>(&r1cs, red, &mut r);
    let vk = &key.pk.vk;
    let m = r1cs.matrices();
    let (x, w) = r1cs.z.split_at(r1cs.l);
    let p = if s.chance(1, 6) { Prover::Shamir(3, 1) } else { Prover::Plain };
    let proof = one_proof(p, outcomes(red, p, &key.pk, &m, x, w, &mut r))?;
    let x = &x[1..];
    check!(verify(vk, &proof, x)?, "honest proof rejected");
    s.note(|| format!("{} public inputs, {} constraints, {red:?}", x.len(), m.num_constraints));
    if !x.is_empty() {
        s.nontrivial();
    }
    let reject = |what: &str, vk: &VerifyingKey<P>, p: &Proof<P>, x: &[P::ScalarField]| -> R {
        check!(!verify(vk, p, x)?, "accepted: {what}");
        Ok(())
    };
    // other public inputs
    for _ in 0..2 {
        if x.is_empty() {
            break;
        }
        let mut y = x.to_vec();
        let i = s.below(y.len() as u64) as usize;
        y[i] += match s.below(3) {
            0 => P::ScalarField::from(1u64),
            1 => -P::ScalarField::from(1u64),
            _ => nonzero(s),
        };
        reject(&format!("public input {i} changed"), vk, &proof, &y)?;
    }
    if x.len() > 1 {
        let mut y = x.to_vec();
        let i = s.below(y.len() as u64 - 1) as usize;
        y.swap(i, i + 1);
        if y != x {
            reject("public inputs swapped", vk, &proof, &y)?;
        }
        let mut y = x.to_vec();
        y.rotate_left(1);
        if y != x {
            reject("public inputs rotated", vk, &proof, &y)?;
        }
    }
    // wrong number of public inputs
    let mut y = x.to_vec();
    y.push(if s.bool() { P::ScalarField::from(0u64) } else { felt(s) });
    reject("a public input too many", vk, &proof, &y)?;
    if !x.is_empty() {
        reject("a public input too few", vk, &proof, &x[..x.len() - 1])?;
        if *x.last().unwrap() == P::ScalarField::from(0u64) {
            s.label("last public input zero");
        }
        reject("no public inputs", vk, &proof, &[])?;
    }
    // proof elements
    let g1 = |s: &mut Src| -> P::G1Affine { (P::G1::generator() * nonzero::<P::ScalarField>(s)).into_affine() };
    let g2 = |s: &mut Src| -> P::G2Affine { (P::G2::generator() * nonzero::<P::ScalarField>(s)).into_affine() };
    let mut q = proof.clone();
    match s.below(12) {
        0 => q.a = (proof.a + g1(s)).into_affine(),
        1 => q.b = (proof.b + g2(s)).into_affine(),
        2 => q.c = (proof.c + g1(s)).into_affine(),
        3 => q.a = (-proof.a.into_group()).into_affine(),
        4 => q.b = (-proof.b.into_group()).into_affine(),
        5 => q.c = (-proof.c.into_group()).into_affine(),
        6 => std::mem::swap(&mut q.a, &mut q.c),
        7 => q.a = P::G1Affine::zero(),
        8 => q.b = P::G2Affine::zero(),
        9 => q.c = P::G1Affine::zero(),
        10 => q = Proof { a: P::G1Affine::zero(), b: P::G2Affine::zero(), c: P::G1Affine::zero() },
        _ => q = Proof { a: vk.alpha_g1, b: vk.beta_g2, c: P::G1Affine::zero() },
    }
    if q != proof {
        reject("a changed proof", vk, &q, x)?;
    }
    // mixing two proofs of one statement
    let other = one_proof(Prover::Plain, outcomes(red, Prover::Plain, &key.pk, &m, &r1cs.z[..r1cs.l], w, &mut r))?;
    for k in 0..3 {
        let mut q = proof.clone();
        match k {
            0 => q.a = other.a,
            1 => q.b = other.b,
            _ => q.c = other.c,
        }
        reject("elements of two proofs mixed", vk, &q, x)?;
    }
    // another key
    let key2 = keygen::<P, C1, C2>(&r1cs, red, &mut r);
    reject("another verification key", &key2.pk.vk, &proof, x)?;
    let mut vk2 = vk.clone();
    match s.below(5) {
        0 => vk2.alpha_g1 = key2.pk.vk.alpha_g1,
        1 => vk2.beta_g2 = key2.pk.vk.beta_g2,
        2 => vk2.gamma_g2 = key2.pk.vk.gamma_g2,
        3 => vk2.delta_g2 = key2.pk.vk.delta_g2,
        _ => vk2.gamma_abc_g1 = key2.pk.vk.gamma_abc_g1.clone(),
    }
    reject("a changed verification key", &vk2, &proof, x)?;
    let mut vk3 = vk.clone();
    if s.bool() && vk3.gamma_abc_g1.len() > 1 {
        vk3.gamma_abc_g1.pop();
    } else {
        vk3.gamma_abc_g1.push(g1(s));
    }
    reject("a verification key for another number of public inputs", &vk3, &proof, x)
}

fn violated<P, C1, C2>(s: &mut Src) -> R
where
    P: Pairing<G1 = Projective<C1>, G1Affine = Affine<C1>, G2 = Projective<C2>, G2Affine = Affine<C2>>,
    C1: SWCurveConfig<ScalarField = P::ScalarField>,
    C2: SWCurveConfig<ScalarField = P::ScalarField>,
{
    let k = rows(s);
    let r1cs = random_r1cs::<P::ScalarField>(s, k);
    let red = any_red(s);
    let mut r = s.rng();
    let key = keygen::<P, C1, C2>(&r1cs, red, &mut r);
    let m = r1cs.matrices();
    let mut z = r1cs.z.clone();
    let what = if s.chance(1, 12) && z.len() > 1 {
        // the constant is no longer one
        z[0] = felt(s);
        "constant"
    } else {
        let i = 1 + s.below(z.len() as u64 - 1) as usize;
        z[i] += nonzero::<P::ScalarField>(s);
        if i < r1cs.l { "public value" } else { "private value" }
    };
    let p = match s.weighted(&[4, 1, 1]) {
        0 => Prover::Plain,
        1 => Prover::Shamir(3, 1),
        _ => Prover::Rep3,
    };
    s.note(|| format!("{what} changed, {} constraints, {red:?}, {p:?}", m.num_constraints));
    if what == "constant" || r1cs.satisfied(&z) {
        return Ok(());
    }
    s.nontrivial();
    s.label(format!("{what} {red:?}"));
    let (x, w) = z.split_at(r1cs.l);
    for o in outcomes(red, p, &key.pk, &m, x, w, &mut r) {
        if let Out::Ok(proof) = o {
            check!(!verify(&key.pk.vk, &proof, &x[1..])?, "{p:?} prover, {red:?}: proof from a witness that violates a constraint accepted");
            check!(!verify(&key.pk.vk, &proof, &r1cs.z[1..r1cs.l])?, "{p:?} prover, {red:?}: proof from a violating witness accepted for the original public inputs");
        }
    }
    Ok(())
}

fn fresh<P, C1, C2>(s: &mut Src) -> R
where
    P: Pairing<G1 = Projective<C1>, G1Affine = Affine<C1>, G2 = Projective<C2>, G2Affine = Affine<C2>>,
    C1: SWCurveConfig<ScalarField = P::ScalarField>,
    C2: SWCurveConfig<ScalarField = P::ScalarField>,
{
    let r1cs = random_r1cs::<P::ScalarField>(s, 6);
    let red = any_red(s);
    let mut r = s.rng();
    let key = keygen::<P, C1, C2>(&r1cs, red, &mut r);
    let m = r1cs.matrices();
    let (x, w) = r1cs.z.split_at(r1cs.l);
    let p = any_prover(s);
    s.note(|| format!("{} constraints, {red:?}, {p:?}", m.num_constraints));
    s.nontrivial();
    s.label(format!("{p:?}").split('(').next().unwrap().to_string());
    let dinv = {
        use ark_ff::Field;
        key.delta.inverse().unwrap()
    };
    // what A and B are without blinding, as multiples of the generators of the key
    let dot = |u: &[P::ScalarField]| -> P::ScalarField { u.iter().zip(&r1cs.z).map(|(a, b)| *a * *b).sum() };
    let g1: P::G1 = key.pk.delta_g1 * dinv;
    let g2: P::G2 = key.pk.vk.delta_g2 * dinv;
    let a0: P::G1 = g1 * (key.alpha + dot(&key.u));
    let b0: P::G2 = g2 * (key.beta + dot(&key.v));
    let mut seen: Vec<(P::G1, P::G2, Proof<P>)> = vec![];
    for run in 0..2 {
        let proof = one_proof(p, outcomes(red, p, &key.pk, &m, x, w, &mut r))?;
        let ra = (proof.a.into_group() - a0) * dinv; // r G
        let sb = (proof.b.into_group() - b0) * dinv; // s H
        let (mut k1, mut k2) = (P::G1::default(), P::G2::default());
        for k in 0..32 {
            check!(ra != k1 && ra != -k1, "{p:?} prover: A is blinded by ±{k}");
            check!(sb != k2 && sb != -k2, "{p:?} prover: B is blinded by ±{k}");
            k1 += g1;
            k2 += g2;
        }
        check!(P::pairing(ra, g2) != P::pairing(g1, sb), "{p:?} prover: A and B have the same blinding");
        check!(P::pairing(ra, g2) != P::pairing(-g1, sb), "{p:?} prover: the blindings of A and B cancel");
        for (ra2, sb2, q) in &seen {
            check!(*ra2 != ra, "{p:?} prover: A has the same blinding in two runs");
            check!(*sb2 != sb, "{p:?} prover: B has the same blinding in two runs");
            check!(q.c != proof.c, "{p:?} prover: C is the same in two runs");
            check!(P::pairing(*ra2, g2) != P::pairing(g1, sb) && P::pairing(ra, g2) != P::pairing(g1, *sb2), "{p:?} prover: a blinding value is used again in run {run}");
        }
        seen.push((ra, sb, proof));
    }
    Ok(())
}

fn mismatched<P, C1, C2>(s: &mut Src) -> R
where
    P: Pairing<G1 = Projective<C1>, G1Affine = Affine<C1>, G2 = Projective<C2>, G2Affine = Affine<C2>>,
    C1: SWCurveConfig<ScalarField = P::ScalarField>,
    C2: SWCurveConfig<ScalarField = P::ScalarField>,
{
    let k = rows(s);
    let r1cs = random_r1cs::<P::ScalarField>(s, k);
    let red = any_red(s);
    let mut r = s.rng();
    let key = keygen::<P, C1, C2>(&r1cs, red, &mut r);
    let m = r1cs.matrices();
    let (mut l, mut n) = (r1cs.l, r1cs.z.len());
    match s.below(6) {
        0 => l -= 1,
        1 => l += 1,
        2 => n -= 1,
        3 => n += 1 + s.below(3) as usize,
        4 => {
            l = s.below(n as u64 + 1) as usize;
        }
        _ => n = l + s.below((n - l) as u64 + 2) as usize,
    }
    let mut z = r1cs.z.clone();
    while z.len() < n {
        z.push(felt(s));
    }
    z.truncate(n);
    let l = l.min(n);
    if (l, n) == (r1cs.l, r1cs.z.len()) {
        return Ok(());
    }
    let p = any_prover(s);
    s.nontrivial();
    s.note(|| format!("{l} public and {} private values for {} and {}, {red:?}, {p:?}", n - l, r1cs.l, r1cs.z.len() - r1cs.l));
    for (i, o) in outcomes(red, p, &key.pk, &m, &z[..l], &z[l..], &mut r).iter().enumerate() {
        match o {
            Out::Ok(_) => fail!("{p:?} prover, party {i}: {l} public and {} private values accepted where {} and {} are needed", n - l, r1cs.l, r1cs.z.len() - r1cs.l),
            Out::Panic(e) => fail!("{p:?} prover, party {i}: panic instead of an error: {e}"),
            Out::Err(_) => {}
        }
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    let cell: std::sync::Arc<std::sync::OnceLock<Result<Vec<Vector>, String>>> = Default::default();
    vec![
        Property {
            id: "G01",
            rule: "constraint systems with more than one constraint and more than one private value",
            assumptions: "Keys are made by the harness from trapdoors it knows, per reduction; a key fits its constraint system.",
            subs: vec![
                Sub::new("complete", 1200, 40_000, |s| any_pairing!(s, complete)),
                Sub::new("large-domains", 12, 300, large).workers(2),
                Sub::new("shipped-circuits", 60, 1000, move |s| {
                    let v = cell.get_or_init(load_vectors).as_ref().map_err(|e| Fail::from(e.clone()))?;
                    shipped(s, v)
                }),
            ],
        },
        Property {
            id: "G02",
            rule: "statements with at least one public input; witnesses that violate a constraint",
            assumptions: "Changes of a proof are of one element (jointly negating A and B gives another valid proof by design).",
            subs: vec![
                Sub::new("altered", 800, 40_000, |s| any_pairing!(s, sound)),
                Sub::new("violating-witness", 1500, 60_000, |s| any_pairing!(s, violated)),
            ],
        },
        Property {
            id: "G03",
            rule: "every pair of proofs of one statement; every witness of wrong length",
            assumptions: "That the blinding is unknown to a coalition is decided for its source, the shared randomness, in S04 and R06; here its freshness and independence are.",
            subs: vec![
                Sub::new("fresh", 600, 20_000, |s| any_pairing!(s, fresh)),
                Sub::new("mismatched", 1000, 50_000, |s| any_pairing!(s, mismatched)),
            ],
        },
    ]
}
