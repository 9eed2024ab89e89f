//! Replicated shares: sharing with chosen components, consistency, three-party runs.
use ark_ec::CurveGroup;
use ark_ff::PrimeField;
use engine::*;
use mpc_core::protocols::rep3::conversion::A2BType;
use mpc_core::protocols::rep3::id::PartyID;
use mpc_core::protocols::rep3::rngs::{Rep3CorrelatedRng, Rep3Rand, Rep3RandBitComp};
use mpc_core::protocols::rep3::{Rep3PointShare, Rep3PrimeFieldShare, Rep3State, Rep3UintShare};
use mpc_core::protocols::rep3_ring::Rep3RingShare;
use mpc_core::protocols::rep3_ring::ring::int_ring::IntRing2k;
use mpc_core::protocols::rep3_ring::ring::ring_impl::RingElement;
use mpc_core::uint::{FieldUint, U1024, UintBackend};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use rand::{Rng, SeedableRng};
use std::fmt::Debug;
use vkit::*;

pub type Fs<F> = Rep3PrimeFieldShare<F>;
pub type Bs<F> = Rep3UintShare<F>;
pub type Ps<C> = Rep3PointShare<C>;
pub type Rs<T> = Rep3RingShare<T>;
pub type Re<T> = RingElement<T>;

pub const IDS: [PartyID; 3] = [PartyID::ID0, PartyID::ID1, PartyID::ID2];

pub fn ub<U: UintBackend>(v: &BigUint) -> U {
    let mut l = v.to_u64_digits();
    l.resize(U::LIMBS, 0);
    U::from_limbs_truncating(&l)
}
pub fn bu<U: UintBackend>(u: &U) -> BigUint {
    let mut v = BigUint::zero();
    for x in u.as_limbs().iter().rev() {
        v = (v << 64) + x;
    }
    v
}
pub fn mask(bits: usize) -> BigUint {
    (BigUint::one() << bits) - 1u8
}
pub fn re<T: IntRing2k>(v: &BigUint) -> Re<T> {
    RingElement(T::cast_from_uint::<U1024>(&ub::<U1024>(v)))
}
pub fn br<T: IntRing2k>(r: Re<T>) -> BigUint {
    bu(&r.0.cast_to_uint::<U1024>())
}
pub fn ring<T: IntRing2k>(s: &mut Src) -> BigUint {
    s.big(T::K)
}
pub fn bits_of<F: PrimeField>() -> usize {
    F::MODULUS_BIT_SIZE as usize
}

// ---- consistency and value ----

fn cons<A: PartialEq + Debug>(what: &str, a: [A; 3], b: [A; 3]) -> R<[A; 3]> {
    for i in 0..3 {
        let p = (i + 2) % 3;
        check!(
            b[i] == a[p],
            "{what}: shares are not consistent: second component of party {i} is {:?}, first component of party {p} is {:?}",
            b[i],
            a[p]
        );
    }
    Ok(a)
}
pub fn fval<F: PrimeField>(what: &str, x: [Fs<F>; 3]) -> R<F> {
    let [a, b, c] = cons(what, x.map(|s| s.a), x.map(|s| s.b))?;
    Ok(a + b + c)
}
pub fn bval<F: FieldUint>(what: &str, x: [Bs<F>; 3]) -> R<BigUint> {
    let [a, b, c] = cons(what, x.map(|s| bu(&s.a)), x.map(|s| bu(&s.b)))?;
    Ok(a ^ b ^ c)
}
pub fn pval<C: CurveGroup>(what: &str, x: [Ps<C>; 3]) -> R<C> {
    let [a, b, c] = cons(what, x.map(|s| s.a), x.map(|s| s.b))?;
    Ok(a + b + c)
}
pub fn rval<T: IntRing2k>(what: &str, x: [Rs<T>; 3]) -> R<BigUint> {
    let [a, b, c] = cons(what, x.map(|s| br(s.a)), x.map(|s| br(s.b)))?;
    Ok((a + b + c) & mask(T::K))
}
pub fn rxval<T: IntRing2k>(what: &str, x: [Rs<T>; 3]) -> R<BigUint> {
    let [a, b, c] = cons(what, x.map(|s| br(s.a)), x.map(|s| br(s.b)))?;
    Ok(a ^ b ^ c)
}

/// From per-party vectors to per-value triples; the lengths must agree with `n`.
pub fn triples<S: Clone>(what: &str, per: &[Vec<S>], n: usize) -> R<Vec<[S; 3]>> {
    for (i, v) in per.iter().enumerate() {
        check_eq!(v.len(), n, "{what}: number of results at party {i}");
    }
    Ok((0..n).map(|k| [per[0][k].clone(), per[1][k].clone(), per[2][k].clone()]).collect())
}
pub fn parties<S: Clone>(ts: &[[S; 3]]) -> [Vec<S>; 3] {
    [0, 1, 2].map(|i| ts.iter().map(|t| t[i].clone()).collect())
}
pub fn arr<T>(v: Vec<T>) -> [T; 3] {
    v.try_into().unwrap_or_else(|_| panic!("three parties"))
}

// ---- sharing with components that are often special ----

pub fn fshare<F: PrimeField>(s: &mut Src, v: F) -> [Fs<F>; 3] {
    let (a, b): (F, F) = match s.weighted(&[3, 3, 1, 1]) {
        0 => {
            let mut r = s.rng();
            (F::rand(&mut r), F::rand(&mut r))
        }
        1 => (felt(s), felt(s)),
        2 => (v, felt(s)),
        _ => (-F::one(), -F::one()),
    };
    let mut x = [a, b, v - a - b];
    x.rotate_left(s.range(0, 2));
    [Fs::new(x[0], x[2]), Fs::new(x[1], x[0]), Fs::new(x[2], x[1])]
}
pub fn bshare<F: FieldUint>(s: &mut Src, v: &BigUint) -> [Bs<F>; 3] {
    let n = bits_of::<F>();
    let (a, b) = match s.weighted(&[3, 2, 1]) {
        0 => {
            let mut r = s.rng();
            let mut f = || BigUint::from_bytes_le(&(0..n.div_ceil(8)).map(|_| r.r#gen()).collect::<Vec<u8>>()) & mask(n);
            (f(), f())
        }
        1 => (s.big(n), s.big(n)),
        _ => (mask(n), s.big(n)),
    };
    let mut x = [ub::<F::Uint>(&a), ub(&b), ub(&(v ^ a ^ b))];
    x.rotate_left(s.range(0, 2));
    [Bs::new(x[0], x[2]), Bs::new(x[1], x[0]), Bs::new(x[2], x[1])]
}
pub fn pshare<C: CurveGroup>(s: &mut Src, v: C) -> [Ps<C>; 3] {
    let (a, b): (C, C) = match s.weighted(&[3, 2, 1]) {
        0 => {
            let mut r = s.rng();
            (C::rand(&mut r), C::rand(&mut r))
        }
        1 => (point(s), point(s)),
        _ => (v, point(s)),
    };
    let mut x = [a, b, v - a - b];
    x.rotate_left(s.range(0, 2));
    [Ps::new(x[0], x[2]), Ps::new(x[1], x[0]), Ps::new(x[2], x[1])]
}
fn ring_parts<T: IntRing2k>(s: &mut Src, v: &BigUint) -> (BigUint, BigUint) {
    match s.weighted(&[3, 3, 1, 1]) {
        0 => {
            let mut r = s.rng();
            let mut f =
                || BigUint::from_bytes_le(&(0..T::K.div_ceil(8)).map(|_| r.r#gen()).collect::<Vec<u8>>()) & mask(T::K);
            (f(), f())
        }
        1 => (ring::<T>(s), ring::<T>(s)),
        2 => (v.clone(), ring::<T>(s)),
        _ => (mask(T::K), mask(T::K)),
    }
}
fn rs3<T: IntRing2k>(s: &mut Src, x: [BigUint; 3]) -> [Rs<T>; 3] {
    let mut x = x.map(|v| re::<T>(&v));
    x.rotate_left(s.range(0, 2));
    [Rs::new_ring(x[0], x[2]), Rs::new_ring(x[1], x[0]), Rs::new_ring(x[2], x[1])]
}
pub fn rshare<T: IntRing2k>(s: &mut Src, v: &BigUint) -> [Rs<T>; 3] {
    let (a, b) = ring_parts::<T>(s, v);
    let m = BigUint::one() << T::K;
    let c = ((&m << 1) + v - &a - &b) % &m;
    rs3(s, [a, b, c])
}
pub fn rxshare<T: IntRing2k>(s: &mut Src, v: &BigUint) -> [Rs<T>; 3] {
    let (a, b) = ring_parts::<T>(s, v);
    let c = v ^ &a ^ &b;
    rs3(s, [a, b, c])
}

// ---- runs ----

/// The secret seeds of the three parties: common randomness of neighbours, of the two bit compositions, and of each party alone.
#[derive(Clone, Copy)]
pub struct Keys {
    s: [[u8; 32]; 3],
    k: [[u8; 32]; 3],
    l: [[u8; 32]; 3],
    own: [[u8; 32]; 3],
}
impl Keys {
    pub fn draw(r: &mut impl Rng) -> Self {
        Keys { s: r.r#gen(), k: r.r#gen(), l: r.r#gen(), own: r.r#gen() }
    }
    /// The same seeds at party `q`, and new ones wherever `q` does not know them.
    pub fn new_to_others(mut self, q: usize, r: &mut impl Rng) -> Self {
        let n = (q + 1) % 3;
        let o = Keys::draw(r);
        self.s[n] = o.s[n];
        if q == 0 {
            self.k[n] = o.k[n];
        }
        if q == 1 {
            self.l[n] = o.l[n];
        }
        for i in 0..3 {
            if i != q {
                self.own[i] = o.own[i];
            }
        }
        self
    }
}

/// How the three states of a run come about: replayable seeds, or the code's own setup.
#[derive(Clone, Copy)]
pub struct Setup {
    pub a2b: A2BType,
    pub keys: Option<Keys>,
}
impl Setup {
    pub fn draw(s: &mut Src) -> Self {
        let a2b = if s.chance(1, 3) { A2BType::Direct } else { A2BType::Yao };
        let seed = if s.chance(1, 8) { None } else { Some(s.word()) };
        Setup { a2b, keys: seed.map(|x| Keys::draw(&mut rand_chacha::ChaCha12Rng::seed_from_u64(x))) }
    }
    pub fn state(&self, net: &TNet) -> eyre::Result<Rep3State> {
        let mut st = Rep3State::new(net, self.a2b)?;
        if let Some(Keys { s, k, l, own }) = self.keys {
            let i = usize::from(st.id);
            let (n, p) = ((i + 1) % 3, (i + 2) % 3);
            let c1 = match i {
                0 => Rep3RandBitComp::new_2keys(k[i], k[p]),
                _ => Rep3RandBitComp::new_3keys(k[i], k[n], k[p]),
            };
            let c2 = match i {
                1 => Rep3RandBitComp::new_2keys(l[i], l[p]),
                _ => Rep3RandBitComp::new_3keys(l[i], l[n], l[p]),
            };
            st.rngs = Rep3CorrelatedRng::new(Rep3Rand::new(s[i], s[p]), c1, c2);
            st.rng = rand_chacha::ChaCha12Rng::from_seed(own[i]);
        }
        Ok(st)
    }
}

/// Outcome of every party.
pub fn outs3<T: Send, A: Send>(
    set: Setup,
    args: [A; 3],
    f: impl Fn(&[TNet], &mut Rep3State, A) -> eyre::Result<T> + Sync,
) -> Vec<Out<T>> {
    run_nets(3, 2, None, args.into(), |_, nets, a| {
        let mut st = set.state(&nets[0])?;
        f(nets, &mut st, a)
    })
}
/// All three parties succeed.
pub fn run3<T: Send, A: Send>(
    what: &str,
    set: Setup,
    args: [A; 3],
    f: impl Fn(&[TNet], &mut Rep3State, A) -> eyre::Result<T> + Sync,
) -> R<[T; 3]> {
    Ok(arr(all_ok(what, outs3(set, args, f))?))
}
/// Every party returns an error (no value, no panic).
pub fn errs3<T: Send + Debug, A: Send>(
    what: &str,
    set: Setup,
    args: [A; 3],
    f: impl Fn(&[TNet], &mut Rep3State, A) -> eyre::Result<T> + Sync,
) -> R {
    for (i, o) in outs3(set, args, f).into_iter().enumerate() {
        match o {
            Out::Err(e) => {
                if e.contains(TIMEOUT) {
                    return Err(Fail::suspect(format!("{what}: party {i} timed out")));
                }
            }
            Out::Ok(v) => fail!("{what}: party {i} returned {v:?} instead of an error"),
            Out::Panic(p) => fail!("{what}: party {i} panicked instead of returning an error: {p}"),
        }
    }
    Ok(())
}

#[macro_export]
macro_rules! any_rep_field {
    ($src:expr, $f:ident) => {
        match $src.below(8) {
            0 | 1 => $f::<ark_bn254::Fr>($src),
            2 => $f::<ark_bls12_381::Fr>($src),
            3 => $f::<ark_bn254::Fq>($src),
            4 => $f::<ark_bls12_381::Fq>($src),
            5 => $f::<ark_bls12_377::Fr>($src),
            6 => $f::<ark_bls12_377::Fq>($src),
            _ => $f::<ark_bn254::Fr>($src),
        }
    };
}
#[macro_export]
macro_rules! any_ring {
    ($src:expr, $f:ident) => {
        match $src.below(8) {
            0 => $f::<mpc_core::protocols::rep3_ring::ring::bit::Bit>($src),
            1 => $f::<u8>($src),
            2 => $f::<u16>($src),
            3 => $f::<u32>($src),
            4 => $f::<u64>($src),
            5 => $f::<u128>($src),
            6 => $f::<mpc_core::uint::U512>($src),
            _ => $f::<mpc_core::uint::U1024>($src),
        }
    };
}
