//! Random rank-1 constraint systems with satisfying assignments, and Groth16 keys made from known trapdoors.
use ark_ec::pairing::Pairing;
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{CurveGroup, PrimeGroup};
use ark_ff::{FftField, Field, PrimeField, UniformRand};
use ark_groth16::{Proof, ProvingKey, VerifyingKey};
use engine::*;
use taceo_groth16::ConstraintMatrices;
use vkit::*;

pub type Lc<F> = Vec<(F, usize)>;

#[derive(Clone)]
pub struct R1cs<F: PrimeField> {
    /// instance variables, with the leading one
    pub l: usize,
    pub rows: Vec<[Lc<F>; 3]>,
    pub z: Vec<F>,
}
pub fn dot<F: PrimeField>(lc: &Lc<F>, z: &[F]) -> F {
    lc.iter().map(|(c, i)| *c * z[*i]).sum()
}
impl<F: PrimeField> R1cs<F> {
    pub fn satisfied(&self, z: &[F]) -> bool {
        self.rows.iter().all(|[a, b, c]| dot(a, z) * dot(b, z) == dot(c, z))
    }
    pub fn matrices(&self) -> ConstraintMatrices<F> {
        let m = |k: usize| -> Vec<Lc<F>> { self.rows.iter().map(|r| r[k].clone()).collect() };
        let nz = |k: usize| self.rows.iter().map(|r| r[k].len()).sum();
        ConstraintMatrices {
            num_instance_variables: self.l,
            num_witness_variables: self.z.len() - self.l,
            num_constraints: self.rows.len(),
            a_num_non_zero: nz(0),
            b_num_non_zero: nz(1),
            c_num_non_zero: nz(2),
            a: m(0),
            b: m(1),
            c: m(2),
        }
    }
}

/// A system with a satisfying assignment whose values the generator biases to edges.
pub fn random_r1cs<F: PrimeField>(s: &mut Src, max_rows: usize) -> R1cs<F> {
    let l = 1 + s.weighted(&[1, 4, 3, 2, 1]);
    let free = s.range(1, 5);
    let mut m = s.range(1, max_rows);
    if s.chance(1, 4) {
        // fill the domain exactly, or just exceed it
        let p = (m + l).next_power_of_two();
        m = (p - l.min(p - 1)).min(max_rows * 2).max(1) + s.below(2) as usize;
    }
    let mut z: Vec<F> = vec![F::one()];
    for _ in 1..l + free {
        z.push(felt(s));
    }
    let mut rows: Vec<[Lc<F>; 3]> = vec![];
    let mut r = s.rng();
    for _ in 0..m {
        let lc = |s: &mut Src, z: &[F], r: &mut rand_chacha::ChaCha12Rng| -> Lc<F> {
            let n = s.weighted(&[1, 6, 5, 3, 1]);
            (0..n)
                .map(|_| {
                    let c = match s.below(5) {
                        0 | 1 => F::one(),
                        2 => -F::one(),
                        3 => F::from(s.below(4)),
                        _ => F::rand(r),
                    };
                    (c, s.below(z.len() as u64) as usize)
                })
                .collect()
        };
        if !rows.is_empty() && s.chance(1, 20) {
            let i = s.below(rows.len() as u64) as usize;
            let row = rows[i].clone();
            rows.push(row);
            continue;
        }
        let (a, b) = (lc(s, &z, &mut r), lc(s, &z, &mut r));
        let prod = dot(&a, &z) * dot(&b, &z);
        let mut c = if s.chance(1, 3) { lc(s, &z, &mut r) } else { vec![] };
        let rest = prod - dot(&c, &z);
        match s.below(6) {
            0 => c.push((rest, 0)),
            1 => {
                // through an existing non-zero variable
                let nz: Vec<usize> = (0..z.len()).filter(|i| !z[*i].is_zero()).collect();
                let i = *s.pick(&nz);
                c.push((rest * z[i].inverse().unwrap(), i));
            }
            _ => {
                let k = if s.chance(1, 3) { F::rand(&mut r) } else { F::one() };
                let k = if k.is_zero() { F::one() } else { k };
                c.push((k, z.len()));
                z.push(rest * k.inverse().unwrap());
            }
        }
        rows.push([a, b, c]);
    }
    R1cs { l, rows, z }
}

/// The generator of the domain of size 2^pow as snarkjs chooses it.
pub fn circom_root<F: PrimeField + FftField>(pow: usize) -> F {
    let half = {
        let p: num_bigint::BigUint = F::MODULUS.into();
        (p - 1u8) >> 1usize
    };
    let half = half.to_u64_digits();
    let mut q = F::one();
    while q.pow(&half) != -F::one() {
        q += F::one();
    }
    let mut t: num_bigint::BigUint = F::MODULUS.into();
    t -= 1u8;
    let adicity = F::TWO_ADICITY as usize;
    let mut z = q.pow((t >> adicity).to_u64_digits());
    for _ in pow..adicity {
        z.square_in_place();
    }
    z
}

/// All Lagrange basis polynomials of the subgroup generated by g (size n) at x.
fn basis<F: PrimeField>(g: F, n: usize, x: F) -> Vec<F> {
    let zx = x.pow([n as u64]) - F::one();
    let ninv = F::from(n as u64).inverse().unwrap();
    let mut w = F::one();
    (0..n)
        .map(|_| {
            let v = w * ninv * zx * (x - w).inverse().unwrap();
            w *= g;
            v
        })
        .collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Red {
    Circom,
    LibSnark,
}

pub struct Key<P: Pairing> {
    pub pk: ProvingKey<P>,
    /// discrete logs of the queries A and B
    pub u: Vec<P::ScalarField>,
    pub v: Vec<P::ScalarField>,
    pub alpha: P::ScalarField,
    pub beta: P::ScalarField,
    pub delta: P::ScalarField,
}

pub fn keygen<P, C1, C2>(r1cs: &R1cs<P::ScalarField>, red: Red, rng: &mut rand_chacha::ChaCha12Rng) -> Key<P>
where
    P: Pairing<G1 = Projective<C1>, G1Affine = Affine<C1>, G2 = Projective<C2>, G2Affine = Affine<C2>>,
    C1: SWCurveConfig<ScalarField = P::ScalarField>,
    C2: SWCurveConfig<ScalarField = P::ScalarField>,
{
    type S<P> = <P as Pairing>::ScalarField;
    let m = r1cs.rows.len();
    let n = (m + r1cs.l).next_power_of_two();
    let pow = n.ilog2() as usize;
    let (g, g2n) = match red {
        Red::Circom => (circom_root::<S<P>>(pow), circom_root::<S<P>>(pow + 1)),
        Red::LibSnark => {
            let g = S::<P>::get_root_of_unity(n as u64).unwrap();
            (g, g)
        }
    };
    let mut rnd = || loop {
        let x = S::<P>::rand(rng);
        if x != S::<P>::from(0u64) {
            return x;
        }
    };
    let (tau, alpha, beta, gamma, delta) = (rnd(), rnd(), rnd(), rnd(), rnd());
    // generators other than the standard ones
    let (g1, g2) = (P::G1::generator() * rnd(), P::G2::generator() * rnd());
    let lag = basis(g, n, tau);
    let nv = r1cs.z.len();
    let (mut u, mut v, mut w) = (vec![S::<P>::from(0u64); nv], vec![S::<P>::from(0u64); nv], vec![S::<P>::from(0u64); nv]);
    for (j, [a, b, c]) in r1cs.rows.iter().enumerate() {
        for (k, i) in a {
            u[*i] += *k * lag[j];
        }
        for (k, i) in b {
            v[*i] += *k * lag[j];
        }
        for (k, i) in c {
            w[*i] += *k * lag[j];
        }
    }
    for i in 0..r1cs.l {
        u[i] += lag[m + i];
    }
    let dinv = delta.inverse().unwrap();
    let ginv = gamma.inverse().unwrap();
    let h: Vec<S<P>> = match red {
        Red::Circom => {
            let big = basis(g2n, 2 * n, tau);
            (0..n).map(|j| big[2 * j + 1] * dinv).collect()
        }
        Red::LibSnark => {
            let zt = (tau.pow([n as u64]) - S::<P>::from(1u64)) * dinv;
            let mut p = zt;
            (0..n - 1)
                .map(|_| {
                    let x = p;
                    p *= tau;
                    x
                })
                .collect()
        }
    };
    let comb: Vec<S<P>> = (0..nv).map(|i| beta * u[i] + alpha * v[i] + w[i]).collect();
    let t1 = ark_ec::scalar_mul::BatchMulPreprocessing::new(g1, nv);
    let t2 = ark_ec::scalar_mul::BatchMulPreprocessing::new(g2, nv);
    let vk = VerifyingKey::<P> {
        alpha_g1: (g1 * alpha).into_affine(),
        beta_g2: (g2 * beta).into_affine(),
        gamma_g2: (g2 * gamma).into_affine(),
        delta_g2: (g2 * delta).into_affine(),
        gamma_abc_g1: t1.batch_mul(&comb[..r1cs.l].iter().map(|x| *x * ginv).collect::<Vec<_>>()),
    };
    let pk = ProvingKey::<P> {
        vk,
        beta_g1: (g1 * beta).into_affine(),
        delta_g1: (g1 * delta).into_affine(),
        a_query: t1.batch_mul(&u),
        b_g1_query: t1.batch_mul(&v),
        b_g2_query: t2.batch_mul(&v),
        h_query: t1.batch_mul(&h),
        l_query: t1.batch_mul(&comb[r1cs.l..].iter().map(|x| *x * dinv).collect::<Vec<_>>()),
    };
    Key { pk, u, v, alpha, beta, delta }
}

/// The verification equation, from its definition.
pub fn equation<P: Pairing>(vk: &VerifyingKey<P>, proof: &Proof<P>, publics: &[P::ScalarField]) -> bool {
    if publics.len() + 1 != vk.gamma_abc_g1.len() {
        return false;
    }
    let mut acc: P::G1 = vk.gamma_abc_g1[0].into();
    for (x, p) in publics.iter().zip(&vk.gamma_abc_g1[1..]) {
        acc += *p * *x;
    }
    let lhs = P::pairing(proof.a, proof.b);
    let rhs = P::pairing(vk.alpha_g1, vk.beta_g2) + P::pairing(acc, vk.gamma_g2) + P::pairing(proof.c, vk.delta_g2);
    lhs == rhs
}
