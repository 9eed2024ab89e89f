//! C05: Poseidon2, plain and over shares.
use ark_ff::{Field, PrimeField, UniformRand, Zero};
use engine::*;
use mpc_core::gadgets::poseidon2::*;
use mpc_core::protocols::rep3::conversion::A2BType;
use mpc_core::protocols::rep3::id::PartyID;
use mpc_core::protocols::rep3::{self, Rep3PrimeFieldShare, Rep3State};
use mpc_core::protocols::shamir::{self, *};
use std::collections::BTreeSet;
use std::ops::Deref;
use vkit::*;
use vkit::any_field;

type Bn = ark_bn254::Fr;
type Sh<F> = ShamirPrimeFieldShare<F>;
type Rs<F> = Rep3PrimeFieldShare<F>;

// ---------- the definition

/// The definition of Poseidon2 with explicit matrices.
#[derive(Clone)]
pub struct Spec<F> {
    pub t: usize,
    pub d: u64,
    pub me: Vec<Vec<F>>,
    pub mi: Vec<Vec<F>>,
    pub ext: Vec<Vec<F>>,
    pub int: Vec<F>,
    pub first: usize,
}

pub fn external_matrix<F: PrimeField>(t: usize) -> Vec<Vec<F>> {
    const M4: [[u64; 4]; 4] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];
    (0..t)
        .map(|i| {
            (0..t)
                .map(|j| {
                    if t < 4 {
                        F::from(if i == j { 2u64 } else { 1 })
                    } else {
                        F::from(M4[i % 4][j % 4] * if i / 4 == j / 4 && t > 4 { 2 } else { 1 })
                    }
                })
                .collect()
        })
        .collect()
}

fn apply<F: PrimeField>(m: &[Vec<F>], v: &[F]) -> Vec<F> {
    m.iter().map(|r| r.iter().zip(v).map(|(a, b)| *a * b).sum()).collect()
}

impl<F: PrimeField> Spec<F> {
    pub fn of<const T: usize, const D: u64>(p: &Poseidon2Params<F, T, D>) -> Self {
        Spec {
            t: T,
            d: D,
            me: external_matrix(T),
            mi: (0..T).map(|i| (0..T).map(|j| if i == j { p.mat_internal_diag_m_1[i] + F::one() } else { F::one() }).collect()).collect(),
            ext: p.round_constants_external.iter().map(|r| r.to_vec()).collect(),
            int: p.round_constants_internal.to_vec(),
            first: p.rounds_f_beginning,
        }
    }
    fn power(&self, x: F) -> F {
        let mut y = F::one();
        for _ in 0..self.d {
            y *= x;
        }
        y
    }
    /// Number of rounds; round `r` counts external and internal ones in order of execution.
    pub fn round(&self, v: &[F], external: bool, r: usize) -> Vec<F> {
        let mut v = v.to_vec();
        if external {
            for (x, c) in v.iter_mut().zip(&self.ext[r]) {
                *x = self.power(*x + c);
            }
            apply(&self.me, &v)
        } else {
            v[0] = self.power(v[0] + self.int[r]);
            apply(&self.mi, &v)
        }
    }
    pub fn permutation(&self, v: &[F]) -> Vec<F> {
        let mut v = apply(&self.me, v);
        for r in 0..self.first {
            v = self.round(&v, true, r);
        }
        for r in 0..self.int.len() {
            v = self.round(&v, false, r);
        }
        for r in self.first..self.ext.len() {
            v = self.round(&v, true, r);
        }
        v
    }
}

/// Parameters of any field and size, freed at the end.
pub struct Made<F: PrimeField, const T: usize, const D: u64> {
    params: *mut Poseidon2Params<F, T, D>,
    diag: *mut [F; T],
    ext: *mut Vec<[F; T]>,
    int: *mut Vec<F>,
}
impl<F: PrimeField, const T: usize, const D: u64> Made<F, T, D> {
    pub fn new(src: &mut Src, max_half: usize, max_p: usize) -> Self {
        let half = src.range(1, max_half);
        let p = src.range(1, max_p);
        let second = if src.chance(1, 4) { src.range(1, max_half) } else { half };
        let mut diag: [F; T] = std::array::from_fn(|_| felt(src));
        if T < 4 {
            diag = std::array::from_fn(|i| F::from(if i == T - 1 { 2u64 } else { 1 }));
        }
        let ext = (0..half + second).map(|_| std::array::from_fn(|_| felt(src))).collect();
        let int = (0..p).map(|_| felt(src)).collect();
        let (diag, ext, int) = (Box::into_raw(Box::new(diag)), Box::into_raw(Box::new(ext)), Box::into_raw(Box::new(int)));
        // SAFETY: freed when self is dropped, and nothing below outlives self
        let params = unsafe {
            Poseidon2Params { rounds_f_beginning: half, rounds_f_end: second, rounds_p: p, mat_internal_diag_m_1: &*diag, round_constants_external: &*ext, round_constants_internal: &*int }
        };
        Made { params: Box::into_raw(Box::new(params)), diag, ext, int }
    }
    pub fn hash(&self) -> Poseidon2<F, T, D> {
        // SAFETY: see `new`
        Poseidon2::new(unsafe { &*self.params })
    }
}
impl<F: PrimeField, const T: usize, const D: u64> Drop for Made<F, T, D> {
    fn drop(&mut self) {
        // SAFETY: made by Box::into_raw above
        unsafe {
            drop(Box::from_raw(self.params));
            drop(Box::from_raw(self.diag));
            drop(Box::from_raw(self.ext));
            drop(Box::from_raw(self.int));
        }
    }
}

// ---------- constants

/// The bit stream the published generation script uses (Grain LFSR in self-shrinking mode).
struct Grain([bool; 80]);
impl Grain {
    fn new(t: usize, rf: usize, rp: usize) -> Grain {
        let mut b = vec![];
        // prime field, x^alpha, 254 bits, state size, rounds, thirty ones
        for (v, w) in [(1u64, 2), (0, 4), (254, 12), (t as u64, 12), (rf as u64, 10), (rp as u64, 10), ((1 << 30) - 1, 30)] {
            b.extend((0..w).rev().map(|i| v >> i & 1 == 1));
        }
        let mut g = Grain(b.try_into().unwrap());
        for _ in 0..160 {
            g.clock();
        }
        g
    }
    fn clock(&mut self) -> bool {
        let b = [62, 51, 38, 23, 13, 0].iter().fold(false, |a, &i| a ^ self.0[i]);
        self.0.rotate_left(1);
        self.0[79] = b;
        b
    }
    fn bit(&mut self) -> bool {
        while !self.clock() {
            self.clock();
        }
        self.clock()
    }
    fn number(&mut self) -> BigUint {
        (0..254).fold(BigUint::zero(), |a, _| (a << 1) + self.bit() as u8)
    }
    fn element(&mut self) -> Bn {
        loop {
            let n = self.number();
            if n < fmod::<Bn>() {
                return Bn::from(n);
            }
        }
    }
}

/// `skip`: candidates for the internal diagonal that the script rejected.
fn constants<const T: usize>(p: &Poseidon2Params<Bn, T, 5>, rp: usize, skip: usize) -> R {
    check_eq!((p.rounds_f_beginning, p.rounds_f_end, p.rounds_p), (4, 4, rp), "rounds for state size {T}");
    check_eq!((p.round_constants_external.len(), p.round_constants_internal.len()), (8, rp), "number of constants for state size {T}");
    let mut g = Grain::new(T, 8, rp);
    for r in 0..4 {
        for i in 0..T {
            check_eq!(p.round_constants_external[r][i], g.element(), "state size {T}: external constant {r},{i}");
        }
    }
    for r in 0..rp {
        check_eq!(p.round_constants_internal[r], g.element(), "state size {T}: internal constant {r}");
    }
    for r in 4..8 {
        for i in 0..T {
            check_eq!(p.round_constants_external[r][i], g.element(), "state size {T}: external constant {r},{i}");
        }
    }
    if T < 4 {
        for i in 0..T {
            check_eq!(p.mat_internal_diag_m_1[i], Bn::from(if i == T - 1 { 2u64 } else { 1 }), "state size {T}: internal diagonal {i}");
        }
    } else {
        for _ in 0..skip * T {
            g.number();
        }
        for i in 0..T {
            check_eq!(p.mat_internal_diag_m_1[i] + Bn::from(1u64), Bn::from(g.number()), "state size {T}: internal diagonal {i}");
        }
    }
    Ok(())
}

fn published(src: &mut Src) -> R {
    src.nontrivial();
    constants::<2>(&POSEIDON2_BN254_T2_PARAMS, 56, 0)?;
    constants::<3>(&POSEIDON2_BN254_T3_PARAMS, 56, 0)?;
    constants::<4>(&POSEIDON2_BN254_T4_PARAMS, 56, 4)?;
    constants::<16>(&POSEIDON2_BN254_T16_PARAMS, 57, 6)?;
    fn default_is<const T: usize>(src: &mut Src, p: &'static Poseidon2Params<Bn, T, 5>) -> R {
        let v: [Bn; T] = std::array::from_fn(|_| felt(src));
        check_eq!(Poseidon2::<Bn, T, 5>::default().permutation(&v), Poseidon2::new(p).permutation(&v), "default parameters of state size {T}");
        check_eq!(Poseidon2::new(p).permutation(&v).to_vec(), Spec::of(p).permutation(&v), "published parameters of state size {T}");
        Ok(())
    }
    default_is(src, &POSEIDON2_BN254_T2_PARAMS)?;
    default_is(src, &POSEIDON2_BN254_T3_PARAMS)?;
    default_is(src, &POSEIDON2_BN254_T4_PARAMS)?;
    default_is(src, &POSEIDON2_BN254_T16_PARAMS)
}

// ---------- plain

fn plain<F: PrimeField>(src: &mut Src) -> R {
    fn go<F: PrimeField, const T: usize, const D: u64>(src: &mut Src) -> R {
        src.label(format!("T={T}"));
        src.nontrivial();
        let m = Made::<F, T, D>::new(src, 3, 4);
        let h = m.hash();
        let sp = Spec::of(h.params);
        let v: [F; T] = std::array::from_fn(|_| if src.chance(1, 5) { F::zero() } else { felt(src) });
        src.note(|| format!("T={T} D={D} rounds {}+{}+{} state {v:?}", h.params.rounds_f_beginning, h.params.rounds_p, h.params.rounds_f_end));
        check_eq!(h.num_rounds(), sp.ext.len() + sp.int.len(), "number of rounds");
        check_eq!(h.num_sbox(), sp.ext.len() * T + sp.int.len(), "number of s-boxes");
        let mut x = v;
        Poseidon2::<F, T, D>::matmul_external(&mut x);
        check_eq!(x.to_vec(), apply(&sp.me, &v), "external matrix");
        let mut x = v;
        h.matmul_internal(&mut x);
        check_eq!(x.to_vec(), apply(&sp.mi, &v), "internal matrix");
        let r = src.range(0, sp.ext.len() - 1);
        let mut x = v;
        h.add_rc_external(&mut x, r);
        check_eq!(x.to_vec(), v.iter().zip(&sp.ext[r]).map(|(a, b)| *a + b).collect::<Vec<_>>(), "external constants {r}");
        let mut x = v;
        h.external_round(&mut x, r);
        check_eq!(x.to_vec(), sp.round(&v, true, r), "external round {r}");
        let r = src.range(0, sp.int.len() - 1);
        let mut x = v;
        h.internal_round(&mut x, r);
        check_eq!(x.to_vec(), sp.round(&v, false, r), "internal round {r}");
        let want = sp.permutation(&v);
        check_eq!(h.permutation(&v).to_vec(), want, "permutation");
        let mut x = v;
        h.permutation_in_place(&mut x);
        check_eq!(x.to_vec(), want, "permutation in place");
        Ok(())
    }
    macro_rules! by_d {
        ($($t:literal)*) => {{
            let ts = [$($t),*];
            let t = *src.pick(&ts);
            let d = *src.pick(&[3u64, 5, 5, 7, 9, 11]);
            match (t, d) {
                $(($t, 3) => go::<F, $t, 3>(src), ($t, 5) => go::<F, $t, 5>(src), ($t, 7) => go::<F, $t, 7>(src), ($t, 9) => go::<F, $t, 9>(src), ($t, 11) => go::<F, $t, 11>(src),)*
                _ => unreachable!(),
            }
        }};
    }
    by_d!(2 3 4 8 12 16 20 24)
}

// ---------- shared states

#[derive(Clone, Debug)]
enum Step {
    /// one state without preprocessing
    One,
    /// one state with preprocessing
    Pre,
    /// several states at once with preprocessing
    Packed(usize),
    /// one state over additive shares (replicated only)
    Additive,
    /// more preprocessed material, for so many states; what is left of the old is thrown away
    Fill(usize),
    /// one external and one internal round with preprocessing
    Rounds,
}

fn script(src: &mut Src, rep: bool) -> (Vec<Step>, usize) {
    let mut v = vec![];
    let mut left = 0;
    let mut states = 0;
    for _ in 0..src.range(1, 4) {
        let s = match src.below(6) {
            0 => Step::One,
            1 if rep => Step::Additive,
            2 => Step::Rounds,
            3 | 4 => Step::Packed(src.range(0, 4)),
            _ => Step::Pre,
        };
        let need = match s {
            Step::Pre | Step::Rounds => 1,
            Step::Packed(k) => k,
            _ => 0,
        };
        if need > left {
            left = need + src.range(0, 4);
            v.push(Step::Fill(left));
        }
        // a round pair does not use up a whole state's material: start afresh after it
        left = if matches!(s, Step::Rounds) { 0 } else { left - need };
        states += match s {
            Step::Packed(k) => k,
            _ => 1,
        };
        v.push(s);
    }
    (v, states)
}

fn expected<F: PrimeField>(sp: &Spec<F>, steps: &[Step], rounds: (usize, usize), mut inputs: &[Vec<F>]) -> Vec<Vec<F>> {
    let mut out = vec![];
    for s in steps {
        let k = match s {
            Step::Fill(_) => 0,
            Step::Packed(k) => *k,
            _ => 1,
        };
        let (now, rest) = inputs.split_at(k);
        inputs = rest;
        for v in now {
            out.push(match s {
                Step::Rounds => sp.round(&sp.round(v, true, rounds.0), false, rounds.1),
                _ => sp.permutation(v),
            });
        }
    }
    out
}

fn shamir_run<F: PrimeField, const T: usize>(src: &mut Src, h: &Poseidon2<F, T, 5>) -> R {
    let (n, t) = *src.pick(&[(3usize, 1usize), (3, 1), (5, 2), (4, 1), (2, 0), (7, 3)]);
    let sp = Spec::of(h.params);
    let (steps, count) = script(src, false);
    let rounds = (src.range(0, sp.ext.len() - 1), src.range(0, sp.int.len() - 1));
    let inputs: Vec<Vec<F>> = (0..count).map(|_| (0..T).map(|_| felt(src)).collect()).collect();
    let buffer = src.chance(1, 3);
    let want = expected(&sp, &steps, rounds, &inputs);
    if count > 1 {
        src.nontrivial();
    }
    src.note(|| format!("shamir T={T} n={n} t={t} rounds {}+{} {steps:?}", sp.ext.len(), sp.int.len()));
    let flat: Vec<F> = inputs.concat();
    let mut rng = src.rng();
    let args = share_field_elements(&flat, t, n, &mut rng);
    let outs = run_parties("Poseidon2 over Shamir shares", n, args, |_, net, sh: Vec<Sh<F>>| {
        let mut st: ShamirState<F> = ShamirPreprocessing::new(n, t, 0, net)?.into();
        if buffer {
            st.buffer_triples(net, h.rand_required(count, true))?;
        }
        let mut pre = Poseidon2Precomputations::default();
        let mut at = 0;
        let mut out: Vec<Sh<F>> = vec![];
        for s in &steps {
            let mut cur: [Sh<F>; T] = std::array::from_fn(|i| sh.get(at * T + i).copied().unwrap_or_default());
            match s {
                Step::Fill(k) => {
                    pre = h.precompute_shamir(*k, net, &mut st)?;
                    continue;
                }
                Step::One => {
                    let r = h.shamir_permutation(&cur, net, &mut st)?;
                    h.shamir_permutation_in_place(&mut cur, net, &mut st)?;
                    let (a, b) = (shamir::arithmetic::open_vec(&r, net, &mut st)?, shamir::arithmetic::open_vec(&cur, net, &mut st)?);
                    eyre::ensure!(a == b, "the permutation and its in-place form open to different values");
                    out.extend(r);
                }
                Step::Pre => {
                    h.shamir_permutation_in_place_with_precomputation(&mut cur, &mut pre, net, &mut st)?;
                    out.extend(cur);
                }
                Step::Packed(k) => {
                    let r = h.shamir_permutation_with_precomputation_packed(&sh[at * T..(at + k) * T], &mut pre, net, &mut st)?;
                    out.extend(r);
                    at += k;
                    continue;
                }
                Step::Rounds => {
                    h.shamir_external_round_precomp(&mut cur, rounds.0, &mut pre, net, &mut st)?;
                    h.shamir_internal_round_precomp(&mut cur, rounds.1, &mut pre, net, &mut st)?;
                    out.extend(cur);
                }
                Step::Additive => unreachable!(),
            }
            at += 1;
        }
        let opened = shamir::arithmetic::open_vec(&out, net, &mut st)?;
        Ok((out, opened))
    })?;
    let want = want.concat();
    for (i, (_, o)) in outs.iter().enumerate() {
        check!(*o == want, "party {i} of {n}, T={T}, {steps:?}: the opened states differ from the plain permutation in element {:?}", first_diff(o, &want));
    }
    for j in 0..want.len() {
        let s: Vec<F> = outs.iter().map(|x| x.0[j].inner()).collect();
        match on_poly(&s, t) {
            Ok(v) => check_eq!(v, want[j], "element {j} of the output shares"),
            Err(e) => fail!("element {j} of the output shares: {e}"),
        }
    }
    Ok(())
}

fn first_diff<F: PartialEq>(a: &[F], b: &[F]) -> Option<usize> {
    if a.len() != b.len() {
        return Some(a.len().min(b.len()));
    }
    a.iter().zip(b).position(|(x, y)| x != y)
}

/// Consistency and value of replicated shares.
pub fn rep3_value<F: PrimeField>(what: &str, s: [Rs<F>; 3]) -> R<F> {
    for i in 0..3 {
        check!(s[i].b == s[(i + 2) % 3].a, "{what}: party {i}'s second component differs from its predecessor's first");
    }
    Ok(s[0].a + s[1].a + s[2].a)
}

fn rep3_run<F: PrimeField, const T: usize>(src: &mut Src, h: &Poseidon2<F, T, 5>) -> R {
    let sp = Spec::of(h.params);
    let (steps, count) = script(src, true);
    let rounds = (src.range(0, sp.ext.len() - 1), src.range(0, sp.int.len() - 1));
    let inputs: Vec<Vec<F>> = (0..count).map(|_| (0..T).map(|_| felt(src)).collect()).collect();
    let want = expected(&sp, &steps, rounds, &inputs).concat();
    if count > 1 {
        src.nontrivial();
    }
    src.note(|| format!("rep3 T={T} rounds {}+{} {steps:?}", sp.ext.len(), sp.int.len()));
    let flat: Vec<F> = inputs.concat();
    let mut rng = src.rng();
    let args = rep3::share_field_elements(&flat, &mut rng).to_vec();
    let outs = run_parties("Poseidon2 over replicated shares", 3, args, |_, net, sh: Vec<Rs<F>>| {
        let mut st = Rep3State::new(net, A2BType::default())?;
        let mut pre = Poseidon2Precomputations::default();
        let mut at = 0;
        let mut out: Vec<Rs<F>> = vec![];
        for s in &steps {
            let mut cur: [Rs<F>; T] = std::array::from_fn(|i| sh.get(at * T + i).copied().unwrap_or_default());
            match s {
                Step::Fill(k) => {
                    pre = h.precompute_rep3(*k, net, &mut st)?;
                    continue;
                }
                Step::One => {
                    let r = h.rep3_permutation(&cur, net, &mut st)?;
                    h.rep3_permutation_in_place(&mut cur, net, &mut st)?;
                    let (a, b) = (rep3::arithmetic::open_vec(&r, net)?, rep3::arithmetic::open_vec(&cur, net)?);
                    eyre::ensure!(a == b, "the permutation and its in-place form open to different values");
                    out.extend(r);
                }
                Step::Additive => {
                    let mut p = h.precompute_rep3_additive(1, net, &mut st)?;
                    out.extend(h.rep3_permutation_additive_with_precomputation(&cur, &mut p, net, &mut st)?);
                }
                Step::Pre => {
                    h.rep3_permutation_in_place_with_precomputation(&mut cur, &mut pre, net)?;
                    out.extend(cur);
                }
                Step::Packed(k) => {
                    out.extend(h.rep3_permutation_with_precomputation_packed(&sh[at * T..(at + k) * T], &mut pre, net)?);
                    at += k;
                    continue;
                }
                Step::Rounds => {
                    h.rep3_external_round_precomp(&mut cur, rounds.0, &mut pre, net)?;
                    h.rep3_internal_round_precomp(&mut cur, rounds.1, &mut pre, net)?;
                    out.extend(cur);
                }
            }
            at += 1;
        }
        let opened = rep3::arithmetic::open_vec(&out, net)?;
        Ok((out, opened))
    })?;
    for (i, (_, o)) in outs.iter().enumerate() {
        check!(*o == want, "party {i}, T={T}, {steps:?}: the opened states differ from the plain permutation in element {:?}", first_diff(o, &want));
    }
    for j in 0..want.len() {
        let v = rep3_value(&format!("element {j} of the output shares"), [outs[0].0[j], outs[1].0[j], outs[2].0[j]])?;
        check_eq!(v, want[j], "element {j} of the output shares");
    }
    Ok(())
}

fn shared<F: PrimeField>(src: &mut Src, rep: bool) -> R {
    macro_rules! go {
        ($t:literal) => {{
            let m = Made::<F, $t, 5>::new(src, 2, 4);
            src.label(concat!("T=", $t));
            if rep { rep3_run::<F, $t>(src, &m.hash()) } else { shamir_run::<F, $t>(src, &m.hash()) }
        }};
    }
    match src.weighted(&[3, 3, 4, 2, 1, 2, 1, 1]) {
        0 => go!(2),
        1 => go!(3),
        2 => go!(4),
        3 => go!(8),
        4 => go!(12),
        5 => go!(16),
        6 => go!(20),
        _ => go!(24),
    }
}
fn shared_shamir<F: PrimeField>(src: &mut Src) -> R {
    shared::<F>(src, false)
}
fn shared_rep3<F: PrimeField>(src: &mut Src) -> R {
    shared::<F>(src, true)
}
fn shared_published(src: &mut Src) -> R {
    let rep = src.bool();
    macro_rules! go {
        ($t:literal) => {{
            let h = Poseidon2::<Bn, $t, 5>::default();
            if rep { rep3_run(src, &h) } else { shamir_run(src, &h) }
        }};
    }
    match src.weighted(&[3, 3, 3, 1]) {
        0 => go!(2),
        1 => go!(3),
        2 => go!(4),
        _ => go!(16),
    }
}

/// Linear layers on shares, entry by entry.
fn layers<F: PrimeField>(src: &mut Src) -> R {
    fn go<F: PrimeField, const T: usize>(src: &mut Src) -> R {
        src.nontrivial();
        let m = Made::<F, T, 5>::new(src, 2, 3);
        let h = m.hash();
        let sp = Spec::of(h.params);
        let v: Vec<F> = (0..T).map(|_| felt(src)).collect();
        let mut rng = src.rng();
        let r = src.range(0, sp.ext.len() - 1);
        let sh = rep3::share_field_elements(&v, &mut rng);
        let mut me = vec![];
        let mut mi = vec![];
        let mut rc = vec![];
        for (i, s) in sh.iter().enumerate() {
            let id = PartyID::try_from(i).unwrap();
            let s: [Rs<F>; T] = s.clone().try_into().unwrap();
            let mut x = s;
            Poseidon2::<F, T, 5>::matmul_external_rep3(&mut x);
            me.push(x);
            let mut x = s;
            h.matmul_internal_rep3(&mut x);
            mi.push(x);
            let mut x = s;
            h.add_rc_external_rep3(&mut x, r, id);
            rc.push(x);
        }
        let rcw: Vec<F> = v.iter().zip(&sp.ext[r]).map(|(a, b)| *a + b).collect();
        for (what, got, want) in [("external matrix", me, apply(&sp.me, &v)), ("internal matrix", mi, apply(&sp.mi, &v)), ("external constants", rc, rcw)] {
            for j in 0..T {
                check_eq!(rep3_value(what, [got[0][j], got[1][j], got[2][j]])?, want[j], "{what} on replicated shares, T={T}, element {j}");
            }
        }
        let (n, t) = *src.pick(&[(3usize, 1usize), (5, 2), (6, 2)]);
        let sh = share_field_elements(&v, t, n, &mut rng);
        let got: Vec<Vec<F>> = sh
            .iter()
            .map(|s| {
                let mut x: [Sh<F>; T] = s.clone().try_into().unwrap();
                Poseidon2::<F, T, 5>::matmul_external_shamir(&mut x).to_vec()
            })
            .collect();
        let want = apply(&sp.me, &v);
        for j in 0..T {
            let s: Vec<F> = got.iter().map(|x| x[j]).collect();
            match on_poly(&s, t) {
                Ok(x) => check_eq!(x, want[j], "external matrix on Shamir shares, T={T}, element {j}"),
                Err(e) => fail!("external matrix on Shamir shares: {e}"),
            }
        }
        Ok(())
    }
    match src.below(8) {
        0 => go::<F, 2>(src),
        1 => go::<F, 3>(src),
        2 => go::<F, 4>(src),
        3 => go::<F, 8>(src),
        4 => go::<F, 12>(src),
        5 => go::<F, 16>(src),
        6 => go::<F, 20>(src),
        _ => go::<F, 24>(src),
    }
}

// ---------- traces for circom

/// Every value that occurs while the permutation is computed, with its name.
fn values(sp: &Spec<Bn>, v: &[Bn]) -> Vec<(String, Bn)> {
    let mut out = vec![];
    let lin = |out: &mut Vec<(String, Bn)>, at: &str, v: &[Bn], external: bool| -> Vec<Bn> {
        if external && sp.t > 4 {
            let m4 = external_matrix::<Bn>(4);
            let blocks: Vec<Bn> = v.chunks(4).flat_map(|c| apply(&m4, c)).collect();
            for (i, x) in blocks.iter().enumerate() {
                out.push((format!("{at} block {i}"), *x));
            }
        }
        if !external {
            out.push((format!("{at} sum"), v.iter().sum()));
        }
        let w = apply(if external { &sp.me } else { &sp.mi }, v);
        for (i, x) in w.iter().enumerate() {
            out.push((format!("{at} state {i}"), *x));
        }
        w
    };
    let mut w = lin(&mut out, "start", v, true);
    let half = sp.first;
    let order: Vec<(bool, usize)> = (0..half).map(|r| (true, r)).chain((0..sp.int.len()).map(|r| (false, r))).chain((half..sp.ext.len()).map(|r| (true, r))).collect();
    for (external, r) in order {
        let at = format!("{} {r}", if external { "external" } else { "internal" });
        for i in 0..if external { sp.t } else { 1 } {
            let x = w[i] + if external { sp.ext[r][i] } else { sp.int[r] };
            let (x2, x4) = (x * x, x * x * x * x);
            out.push((format!("{at} square {i}"), x2));
            out.push((format!("{at} fourth power {i}"), x4));
            out.push((format!("{at} fifth power {i}"), x4 * x));
            out.push((format!("{at} twice the fifth power {i}"), x4 * x + x4 * x));
            w[i] = x4 * x;
        }
        w = lin(&mut out, &at, &w, external);
    }
    out
}

/// Length of the trace, and a digest of which value stands where in the compiled circuit's witness.
fn layout(t: usize) -> (usize, u64) {
    match t {
        2 => (1498, 0x86b9de9a64bfcbe),
        3 => (2019, 0x4b5174c4a5286e18),
        4 => (2685, 0x31ef6e6a3303d7e1),
        _ => (9676, 0x23613b5cdbf48ca8),
    }
}

fn trace_plain(src: &mut Src) -> R {
    fn go<const T: usize>(src: &mut Src) -> R {
        let h = Poseidon2::<Bn, T, 5>::default();
        let sp = Spec::of(h.params);
        src.nontrivial();
        let mut runs = vec![];
        let mut rng = src.rng();
        for k in 0..2 {
            let v: [Bn; T] = std::array::from_fn(|_| if k == 0 { felt(src) } else { Bn::rand(&mut rng) });
            let (out, trace) = h.plain_permutation_intermediate(v).map_err(|e| Fail::from(format!("trace, T={T}: {e:#}")))?;
            check_eq!(out.to_vec(), sp.permutation(&v), "permutation with trace, T={T}");
            runs.push((values(&sp, &v), trace));
        }
        let len = runs[0].1.len();
        check_eq!(runs[1].1.len(), len, "length of the trace");
        // random inputs make all values different, so each place has one name
        let (vals, trace) = &runs[1];
        let mut by: std::collections::HashMap<Bn, &str> = Default::default();
        for (n, x) in vals.iter().rev() {
            by.insert(*x, n);
        }
        let first: std::collections::HashMap<&str, Bn> = runs[0].0.iter().map(|(n, x)| (&n[..], *x)).collect();
        let mut digest = 0xcbf29ce484222325u64;
        let mut filled = BTreeSet::new();
        for (i, x) in trace.iter().enumerate() {
            let name = if x.is_zero() {
                check!(runs[0].1[i].is_zero(), "T={T}: place {i} of the trace is empty in one run and filled in another");
                ""
            } else {
                let Some(name) = by.get(x) else { fail!("T={T}: place {i} of the trace holds a value that does not occur in the permutation") };
                check_eq!(runs[0].1[i], first[name], "T={T}: place {i} of the trace holds {name:?} in one run and something else in another; it");
                filled.insert(*name);
                name
            };
            for b in name.bytes().chain([b'\n']) {
                digest = (digest ^ b as u64).wrapping_mul(0x100000001b3);
            }
        }
        src.label(format!("T={T}: {} values at {len} places {digest:#x}", filled.len()));
        check_eq!((len, digest), layout(T), "T={T}: layout of the trace ({} values)", filled.len());
        Ok(())
    }
    match src.below(4) {
        0 => go::<2>(src),
        1 => go::<3>(src),
        2 => go::<4>(src),
        _ => go::<16>(src),
    }
}

/// Traces over shares equal the plain trace: one state, a fixed batch, any batch.
fn trace_shared(src: &mut Src, rep: bool) -> R {
    fn go<const T: usize, const T2: usize, const B: usize>(src: &mut Src, rep: bool) -> R {
        let h = Poseidon2::<Bn, T, 5>::default();
        let k = src.range(1, if T == 16 { 2 } else { 4 });
        src.nontrivial();
        src.label(format!("T={T} batches {B}, {k}"));
        // one state on its own, B in a fixed batch, k in a vector
        let all = 1 + B + k;
        let spare = src.range(0, 1);
        let inputs: Vec<[Bn; T]> = (0..all).map(|_| std::array::from_fn(|_| felt(src))).collect();
        let mut want: Vec<Bn> = vec![];
        for (i, v) in inputs.iter().enumerate() {
            let (out, tr) = h.plain_permutation_intermediate(*v).map_err(|e| Fail::from(e.to_string()))?;
            want.extend(tr);
            // the version for a single state gives no final state
            if i > 0 {
                want.extend(out);
            }
        }
        let flat: Vec<Bn> = inputs.concat();
        let mut rng = src.rng();
        let what = format!("trace over {} shares, T={T}, batches of {B} and {k}", if rep { "replicated" } else { "Shamir" });
        if rep {
            let args = rep3::share_field_elements(&flat, &mut rng).to_vec();
            let outs = run_parties(&what, 3, args, |_, net, sh: Vec<Rs<Bn>>| {
                let mut st = Rep3State::new(net, A2BType::default())?;
                let mut pre = h.precompute_rep3(all + spare, net, &mut st)?;
                let mut one: [Rs<Bn>; T] = sh[..T].try_into().unwrap();
                let mut out = h.rep3_permutation_in_place_with_precomputation_intermediate(&mut one, &mut pre, net)?;
                let (s, t) = h.rep3_permutation_in_place_with_precomputation_intermediate_packed::<_, T2, B>(sh[T..T + T2].try_into().unwrap(), &mut pre, net)?;
                for (s, t) in s.chunks(T).zip(t) {
                    out.extend(t);
                    out.extend(s);
                }
                let (s, t) = h.rep3_permutation_in_place_with_precomputation_intermediate_vec(sh[T + T2..].to_vec(), &mut pre, net)?;
                eyre::ensure!(t.len() == k, "{} traces for {k} states", t.len());
                for (s, t) in s.chunks(T).zip(t) {
                    out.extend(t);
                    out.extend(s);
                }
                Ok(out)
            })?;
            for o in &outs {
                check_eq!(o.len(), want.len(), "{what}: number of elements");
            }
            for j in 0..want.len() {
                check_eq!(rep3_value(&what, [outs[0][j], outs[1][j], outs[2][j]])?, want[j], "{what}: element {j}");
            }
        } else {
            let (n, t) = *src.pick(&[(3usize, 1usize), (4, 1), (5, 2)]);
            let args = share_field_elements(&flat, t, n, &mut rng);
            let outs = run_parties(&what, n, args, |_, net, sh: Vec<Sh<Bn>>| {
                let mut st: ShamirState<Bn> = ShamirPreprocessing::new(n, t, 0, net)?.into();
                let mut pre = h.precompute_shamir(all + spare, net, &mut st)?;
                let mut one: [Sh<Bn>; T] = sh[..T].try_into().unwrap();
                let mut out = h.shamir_permutation_in_place_with_precomputation_intermediate(&mut one, &mut pre, net, &mut st)?;
                let (s, t) = h.shamir_permutation_in_place_with_precomputation_intermediate_packed::<_, T2, B>(sh[T..T + T2].try_into().unwrap(), &mut pre, net, &mut st)?;
                for (s, t) in s.chunks(T).zip(t) {
                    out.extend(t);
                    out.extend(s);
                }
                let (s, t) = h.shamir_permutation_in_place_with_precomputation_intermediate_vec(sh[T + T2..].to_vec(), &mut pre, net, &mut st)?;
                eyre::ensure!(t.len() == k, "{} traces for {k} states", t.len());
                for (s, t) in s.chunks(T).zip(t) {
                    out.extend(t);
                    out.extend(s);
                }
                Ok(out)
            })?;
            for o in &outs {
                check_eq!(o.len(), want.len(), "{what}: number of elements");
            }
            for j in 0..want.len() {
                let s: Vec<Bn> = outs.iter().map(|x| x[j].inner()).collect();
                match on_poly(&s, t) {
                    Ok(v) => check_eq!(v, want[j], "{what}: element {j}"),
                    Err(e) => fail!("{what}: element {j}: {e}"),
                }
            }
        }
        Ok(())
    }
    match src.weighted(&[3, 3, 3, 3, 3, 3, 1, 1]) {
        0 => go::<2, 2, 1>(src, rep),
        1 => go::<2, 6, 3>(src, rep),
        2 => go::<3, 3, 1>(src, rep),
        3 => go::<3, 6, 2>(src, rep),
        4 => go::<4, 4, 1>(src, rep),
        5 => go::<4, 12, 3>(src, rep),
        6 => go::<16, 16, 1>(src, rep),
        _ => go::<16, 32, 2>(src, rep),
    }
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C05",
        rule: "every plain case; a shared run with more than one state",
        assumptions: "state sizes 2, 3, 4, 8, 12, 16, 20, 24; generated parameters have up to 3+4+3 rounds, the published ones are checked against the published generation procedure (Grain stream); up to 7 parties, 4 batches of up to 4 states; shared states need the exponent 5",
        subs: vec![
            Sub::new("published", 4, 20, published),
            Sub::new("plain", 60_000, 300_000, |s| any_field!(s, plain)),
            Sub::new("layers", 30_000, 100_000, |s| any_field!(s, layers)),
            Sub::new("shamir", 2_500, 30_000, |s| any_field!(s, shared_shamir)),
            Sub::new("rep3", 2_500, 30_000, |s| any_field!(s, shared_rep3)),
            Sub::new("full", 200, 2_000, shared_published),
            Sub::new("trace", 2_000, 5_000, trace_plain),
            Sub::new("trace_rep3", 200, 2_000, |s| trace_shared(s, true)),
            Sub::new("trace_shamir", 200, 2_000, |s| trace_shared(s, false)),
        ],
    }]
}
