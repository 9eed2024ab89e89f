//! Replicated sharing: what one party sees, and arithmetic on shared points.
use crate::kit::*;
use crate::shamir::{expect_uniform, small, tiny_index};
use ark_ec::{AffineRepr, CurveGroup, PrimeGroup};
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ff::{One, PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalSerialize, Compress};
use engine::*;
use mpc_core::protocols::rep3::conversion::A2BType;
use mpc_core::protocols::rep3::network::Rep3NetworkExt;
use mpc_core::protocols::rep3::id::PartyID;
use mpc_core::protocols::rep3::{self, Rep3State, SeedRng, arithmetic as ar, binary as bi, conversion as cv, pointshare as ps};
use mpc_core::protocols::rep3_ring::ring::bit::Bit;
use mpc_core::protocols::rep3_ring::ring::int_ring::IntRing2k;
use mpc_core::protocols::rep3_ring::{self, arithmetic as rar, binary as rbi};
use mpc_core::uint::{FieldUint, U512};
use num_bigint::BigUint;
use rand::distributions::{Distribution, Standard};
use std::collections::{BTreeMap, BTreeSet};
use vkit::*;

type TinyG = crate::shamir::TinyG;

fn hist(it: impl Iterator<Item = u64>) -> BTreeMap<u64, u64> {
    let mut h = BTreeMap::new();
    for x in it {
        *h.entry(x).or_insert(0) += 1;
    }
    h
}
/// Pairs (value, value) over `cells` values each are uniform and independent.
fn pairs(what: &str, x: &[(u64, u64)], cells: u64) -> R {
    expect_uniform(what, &hist(x.iter().map(|(a, b)| a * cells + b)), cells * cells)
}
/// The view of each party, element by element and between neighbouring elements.
fn views(what: &str, per: &[Vec<(u64, u64)>; 3], cells: u64) -> R {
    for (i, v) in per.iter().enumerate() {
        pairs(&format!("{what}: the two components at party {i}"), v, cells)?;
        for (n, f) in [("first", 0), ("second", 1)] {
            let sel = |x: &(u64, u64)| if f == 0 { x.0 } else { x.1 };
            let p: Vec<_> = v.windows(2).map(|w| (sel(&w[0]), sel(&w[1]))).collect();
            pairs(&format!("{what}: {n} components of neighbouring sharings at party {i}"), &p, cells)?;
        }
        let p: Vec<_> = v.windows(2).map(|w| (w[0].0, w[1].1)).collect();
        pairs(&format!("{what}: first and next second component at party {i}"), &p, cells)?;
    }
    Ok(())
}

fn views_field<F: PrimeField>(s: &mut Src) -> R {
    let p = F::MODULUS.as_ref()[0];
    let v: F = felt(s);
    let m = 20_000usize;
    let mut rng = s.rng();
    let kind = s.below(8);
    s.units = m as u64;
    s.nontrivial();
    s.note(|| format!("modulus {p} value {v} kind {kind}, {m} sharings"));
    let vals = vec![v; m];
    let two = |x: [Vec<Fs<F>>; 3]| x.map(|v| v.iter().map(|s| (small(s.a), small(s.b))).collect::<Vec<_>>());
    let transpose = |x: Vec<[Fs<F>; 3]>| [0, 1, 2].map(|i| x.iter().map(|s| s[i]).collect::<Vec<_>>());
    let per = match kind {
        0 => two(transpose((0..m).map(|_| rep3::share_field_element(v, &mut rng)).collect())),
        1 => two(rep3::share_field_elements(&vals, &mut rng)),
        2 => {
            let maybe: Vec<Option<F>> = vals.iter().map(|v| Some(*v)).collect();
            let x = rep3::share_maybe_field_elements(&maybe, &mut rng);
            let mut flat: Vec<Vec<Fs<F>>> = vec![];
            for (i, v) in x.into_iter().enumerate() {
                match v.into_iter().collect::<Option<Vec<_>>>() {
                    Some(v) => flat.push(v),
                    None => fail!("party {i} has no share of a known value"),
                }
            }
            two(arr(flat))
        }
        // additive shares: any two of the three
        3 | 4 => {
            let x: [Vec<F>; 3] = if kind == 3 {
                rep3::share_field_elements_additive(&vals, &mut rng)
            } else {
                let v: Vec<[F; 3]> = (0..m).map(|_| rep3::share_field_element_additive(v, &mut rng)).collect();
                [0, 1, 2].map(|i| v.iter().map(|s| s[i]).collect())
            };
            [0, 1, 2].map(|i| x[i].iter().zip(&x[(i + 1) % 3]).map(|(a, b)| (small(*a), small(*b))).collect())
        }
        5 => {
            let x = rep3::share_field_elements_seeded::<F, _, SeedRng>(&vals, &mut rng);
            let mut out = vec![];
            for (i, e) in x.into_iter().enumerate() {
                match e.expand_vec() {
                    Ok(v) => out.push(v),
                    Err(e) => fail!("seeded share of party {i}: {e}"),
                }
            }
            two(arr(out))
        }
        6 => two(transpose((0..m).map(|_| rep3::share_field_element_seeded::<F, _, SeedRng>(v, &mut rng).map(|s| s.expand())).collect())),
        _ => {
            let x = rep3::share_field_elements_additive_seeded::<F, _, SeedRng>(&vals, &mut rng).map(|s| s.expand_vec());
            [0, 1, 2].map(|i| x[i].iter().zip(&x[(i + 1) % 3]).map(|(a, b)| (small(*a), small(*b))).collect())
        }
    };
    views("shares of a field element", &per, p)
}
fn views_ring<T: IntRing2k>(s: &mut Src) -> R
where
    Standard: Distribution<T>,
{
    let v = ring::<T>(s);
    let m = 20_000usize;
    let mut rng = s.rng();
    let kind = s.below(4);
    // a window of at most four bits per component
    let w = T::K.min(4);
    let lo = s.range(0, T::K - w);
    s.units = m as u64;
    s.nontrivial();
    s.note(|| format!("{} bits value {v} kind {kind} window {lo}, {m} sharings", T::K));
    let x = re::<T>(&v);
    let transpose = |x: Vec<[Rs<T>; 3]>| [0, 1, 2].map(|i| x.iter().map(|s| s[i]).collect::<Vec<_>>());
    let sh = match kind {
        0 => transpose((0..m).map(|_| rep3_ring::share_ring_element(x, &mut rng)).collect()),
        1 => rep3_ring::share_ring_elements(&vec![x; m], &mut rng),
        2 => transpose((0..m).map(|_| rep3_ring::share_ring_element_binary(x, &mut rng)).collect()),
        _ => rep3_ring::share_ring_elements_binary(&vec![x; m], &mut rng),
    };
    let nib = |r: Re<T>| {
        let b = (br(r) >> lo) & mask(w);
        b.iter_u64_digits().next().unwrap_or(0)
    };
    let per = sh.map(|v| v.iter().map(|s| (nib(s.a), nib(s.b))).collect::<Vec<_>>());
    views("shares of a ring element", &per, 1 << w)
}
fn views_bits<F: FieldUint>(s: &mut Src) -> R {
    let n = bits_of::<F>();
    let v: F = felt(s);
    let m = 8_000usize;
    let lo = match s.below(3) {
        0 => 0,
        1 => n - 4,
        _ => s.range(0, n - 4),
    };
    let mut rng = s.rng();
    s.units = m as u64;
    s.nontrivial();
    s.note(|| format!("{n} bits value {v} window {lo}, {m} sharings"));
    let x: Vec<[Bs<F>; 3]> = (0..m).map(|_| rep3::share_binary(v, &mut rng)).collect();
    let nib = |u: &F::Uint| ((bu(u) >> lo) & mask(4)).iter_u64_digits().next().unwrap_or(0);
    let per = [0, 1, 2].map(|i| x.iter().map(|s| (nib(&s[i].a), nib(&s[i].b))).collect::<Vec<_>>());
    views("shares of a bit string", &per, 16)
}
/// Low bits of the coordinates of a party's components and of their sum and difference.
fn views_point(s: &mut Src) -> R {
    type C = ark_grumpkin::Projective;
    let v: C = point(s);
    let m = 4_000usize;
    let many = s.bool();
    let mut rng = s.rng();
    s.units = m as u64;
    s.nontrivial();
    s.note(|| format!("point {v} many {many}, {m} sharings"));
    let sh: [Vec<Ps<C>>; 3] = if many {
        rep3::share_curve_points(&vec![v; m], &mut rng)
    } else {
        let x: Vec<[Ps<C>; 3]> = (0..m).map(|_| rep3::share_curve_point(v, &mut rng)).collect();
        [0, 1, 2].map(|i| x.iter().map(|s| s[i]).collect())
    };
    let bits = |p: C| p.into_affine().x().map_or(0, |x| small(x) & 7);
    let per = [0, 1, 2].map(|i| sh[i].iter().map(|s| (bits(s.a), bits(s.b))).collect::<Vec<_>>());
    views("shares of a point", &per, 8)?;
    let per = [0, 1, 2].map(|i| sh[i].iter().map(|s| (bits(s.a + s.b), bits(s.a - s.b))).collect::<Vec<_>>());
    views("sums of a party's shares of a point", &per, 8)?;
    distinct("point sharings", sh.into_iter().flatten().map(|s| s.a), &v)
}
fn s02_views(s: &mut Src) -> R {
    match s.below(10) {
        0 | 1 => views_field::<F7>(s),
        2 => views_field::<F13>(s),
        3 | 4 => views_point(s),
        5 => views_ring::<Bit>(s),
        6 => views_ring::<u8>(s),
        7 => match s.below(4) {
            0 => views_ring::<u16>(s),
            1 => views_ring::<u32>(s),
            2 => views_ring::<u64>(s),
            _ => views_ring::<u128>(s),
        },
        8 => views_ring::<U512>(s),
        _ => any_rep_field!(s, views_bits),
    }
}

/// No component is used twice, and none shows the value.
fn distinct<T: CanonicalSerialize>(what: &str, per: impl Iterator<Item = T>, value: &T) -> R {
    let mut seen = BTreeSet::new();
    let bytes = |t: &T| {
        let mut v = vec![];
        t.serialize_compressed(&mut v).expect("bytes");
        v
    };
    let clear = bytes(value);
    for x in per {
        let b = bytes(&x);
        check!(b != clear, "{what}: a component is the value itself");
        check!(seen.insert(b), "{what}: two sharings have the same component");
    }
    Ok(())
}
fn fresh_field<F: PrimeField>(s: &mut Src) -> R {
    let v: F = felt(s);
    let mut rng = s.rng();
    s.nontrivial();
    s.note(|| format!("value {v} of {}", std::any::type_name::<F>()));
    let mut all = vec![];
    for _ in 0..2 {
        all.extend(rep3::share_field_element(v, &mut rng).map(|x| x.a));
        all.extend(rep3::share_field_elements(&[v, v], &mut rng).iter().flatten().map(|x| x.a));
        all.extend(rep3::share_field_element_additive(v, &mut rng));
        all.extend(rep3::share_field_elements_additive(&[v, v], &mut rng).iter().flatten());
        all.extend(rep3::share_field_element_seeded::<F, _, SeedRng>(v, &mut rng).map(|x| x.expand().a));
        all.extend(rep3::share_field_element_additive_seeded::<F, _, SeedRng>(v, &mut rng).map(|x| x.expand()));
        for x in rep3::share_field_elements_seeded::<F, _, SeedRng>(&[v, v], &mut rng) {
            match x.expand_vec() {
                Ok(x) => all.extend(x.iter().map(|x| x.a)),
                Err(e) => fail!("seeded shares do not expand: {e}"),
            }
        }
        for x in rep3::share_field_elements_additive_seeded::<F, _, SeedRng>(&[v, v], &mut rng) {
            all.extend(x.expand_vec());
        }
    }
    distinct("field sharings", all.into_iter(), &v)
}
fn fresh_bits<F: FieldUint>(s: &mut Src) -> R {
    let v: F = felt(s);
    let mut rng = s.rng();
    s.nontrivial();
    s.note(|| format!("bits of {v} of {}", std::any::type_name::<F>()));
    let n = bits_of::<F>();
    let sh: Vec<[Bs<F>; 3]> = (0..4).map(|_| rep3::share_binary(v, &mut rng)).collect();
    let mut seen = BTreeSet::new();
    for x in sh.iter().flatten() {
        let a = bu(&x.a);
        check!(a.bits() <= n as u64, "component {a} of a {n}-bit sharing is too long");
        check!(a != to_big(v), "a component is the value itself");
        check!(seen.insert(a), "two sharings have the same component");
    }
    Ok(())
}
fn fresh_point<C: CurveGroup>(s: &mut Src) -> R {
    let v: C = point(s);
    let mut rng = s.rng();
    s.nontrivial();
    s.note(|| format!("point {v} of {}", std::any::type_name::<C>()));
    let mut all: Vec<C> = vec![];
    all.extend(rep3::share_curve_point(v, &mut rng).map(|x| x.a));
    all.extend(rep3::share_curve_point(v, &mut rng).map(|x| x.a));
    all.extend(rep3::share_curve_points(&[v, v], &mut rng).iter().flatten().map(|x| x.a));
    distinct("point sharings", all.into_iter(), &v)
}
fn s02_fresh(s: &mut Src) -> R {
    match s.below(4) {
        0 | 1 => any_rep_field!(s, fresh_field),
        2 => any_rep_field!(s, fresh_bits),
        _ => any_curve!(s, fresh_point),
    }
}

// ---------- S05

#[derive(Clone, Debug)]
enum Op {
    Add(usize, usize),
    Sub(usize, usize),
    AddPub(usize, usize),
    SubPub(usize, usize),
    MulPubScalar(usize, usize),
    PubPoint(usize, usize),
    Mul(usize, usize),
    MulMany(Vec<usize>, Vec<usize>),
    MulOpen(usize, usize),
    Trivial(usize),
    Msm(Vec<usize>, Vec<usize>),
    Open(usize),
    OpenMany(Vec<usize>),
    OpenBoth(usize, usize),
    OpenBothMany(Vec<usize>, Vec<usize>),
    IsZero(Vec<usize>),
}

fn s05<C, S>(s: &mut Src, zero: Option<fn(&[Ps<C>], &TNet, &mut Rep3State) -> eyre::Result<Vec<(bool, bool)>>>) -> R
where
    C: CurveGroup<Config = S, Affine = Affine<S>>,
    S: SWCurveConfig<ScalarField = C::ScalarField>,
{
    let (np, nf) = (s.range(1, 3), s.range(1, 3));
    let pts: Vec<C> = (0..np).map(|_| point(s)).collect();
    let fs: Vec<C::ScalarField> = (0..nf).map(|_| felt(s)).collect();
    let pubp: Vec<C> = (0..4).map(|_| point(s)).collect();
    let pubf: Vec<C::ScalarField> = (0..3).map(|_| felt(s)).collect();
    let set = Setup::draw(s);
    let mut prog = vec![];
    // registers whose components are certainly not the identity: products are re-randomised
    let mut regs = np;
    let mut good: Vec<usize> = vec![];
    for _ in 0..s.range(1, 9) {
        let r = |s: &mut Src, m: usize| s.below(m as u64) as usize;
        let rv = |s: &mut Src, m: usize, l: usize| (0..l).map(|_| s.below(m as u64) as usize).collect::<Vec<_>>();
        let op = match s.below(17) {
            0 => Op::Add(r(s, regs), r(s, regs)),
            1 => Op::Sub(r(s, regs), r(s, regs)),
            2 => Op::AddPub(r(s, regs), r(s, 4)),
            3 => Op::SubPub(r(s, regs), r(s, 4)),
            4 => Op::MulPubScalar(r(s, regs), r(s, 3)),
            5 => Op::PubPoint(r(s, nf), r(s, 4)),
            6 => Op::Mul(r(s, regs), r(s, nf)),
            7 | 8 => {
                let l = *s.pick(&[0usize, 1, 2, 3, 5]);
                Op::MulMany(rv(s, regs, l), rv(s, nf, l))
            }
            9 => Op::MulOpen(r(s, regs), r(s, nf)),
            10 => Op::Trivial(r(s, 4)),
            11 => {
                let l = *s.pick(&[0usize, 1, 2, 3, 8, 40]);
                Op::Msm(rv(s, 4, l), rv(s, nf, l))
            }
            12 => Op::Open(r(s, regs)),
            13 => {
                let l = s.range(0, 4);
                Op::OpenMany(rv(s, regs, l))
            }
            14 => Op::OpenBoth(r(s, regs), r(s, nf)),
            15 => {
                let l = s.range(0, 4);
                Op::OpenBothMany(rv(s, regs, l), rv(s, nf, l))
            }
            _ => {
                if zero.is_none() || good.is_empty() {
                    continue;
                }
                let l = s.range(1, 3);
                Op::IsZero((0..l).map(|_| *s.pick(&good)).collect())
            }
        };
        match &op {
            Op::Mul(..) => {
                good.push(regs);
                regs += 1;
            }
            Op::MulMany(a, _) => {
                good.extend(regs..regs + a.len());
                regs += a.len();
            }
            Op::Add(..) | Op::Sub(..) | Op::AddPub(..) | Op::SubPub(..) | Op::MulPubScalar(..) | Op::PubPoint(..) | Op::Trivial(_) | Op::Msm(..) => regs += 1,
            _ => {}
        }
        prog.push(op);
    }
    if prog.iter().any(|o| matches!(o, Op::Mul(..) | Op::MulMany(..) | Op::MulOpen(..) | Op::IsZero(_))) {
        s.nontrivial();
    }
    for o in &prog {
        s.label(match o {
            Op::IsZero(_) => "is-zero",
            Op::Mul(..) | Op::MulMany(..) | Op::MulOpen(..) => "product",
            Op::Msm(..) => "msm",
            Op::Open(_) | Op::OpenMany(_) | Op::OpenBoth(..) | Op::OpenBothMany(..) => "opening",
            _ => "linear",
        });
    }
    s.note(|| format!("{} points={pts:?} scalars={fs:?} public={pubp:?} {pubf:?} program={prog:?}", std::any::type_name::<C>()));
    let psh: Vec<[Ps<C>; 3]> = pts.iter().map(|p| pshare(s, *p)).collect();
    let fsh: Vec<[Fs<C::ScalarField>; 3]> = fs.iter().map(|f| fshare(s, *f)).collect();
    let args: [(Vec<Ps<C>>, Vec<Fs<C::ScalarField>>); 3] = arr(parties(&psh).into_iter().zip(parties(&fsh)).collect());
    let outs = run3("replicated point program", set, args, |nets, st, (mut regs, f)| {
        let net = &nets[0];
        let id = st.id;
        let (mut op, mut of, mut oz) = (vec![], vec![], vec![]);
        let at = |regs: &[Ps<C>], v: &[usize]| v.iter().map(|k| regs[*k]).collect::<Vec<_>>();
        for (i, o) in prog.iter().enumerate() {
            let alt = i % 2 == 0;
            match o {
                Op::Add(a, b) => regs.push(if alt { ps::add(&regs[*a], &regs[*b]) } else { let mut x = regs[*a]; ps::add_assign(&mut x, &regs[*b]); x }),
                Op::Sub(a, b) => regs.push(if alt { ps::sub(&regs[*a], &regs[*b]) } else { let mut x = regs[*a]; ps::sub_assign(&mut x, &regs[*b]); x }),
                Op::AddPub(a, b) => { let mut x = regs[*a]; ps::add_assign_public(&mut x, &pubp[*b], id); regs.push(x) }
                Op::SubPub(a, b) => { let mut x = regs[*a]; ps::sub_assign_public(&mut x, &pubp[*b], id); regs.push(x) }
                Op::MulPubScalar(a, b) => regs.push(ps::scalar_mul_public_scalar(&regs[*a], pubf[*b])),
                Op::PubPoint(a, b) => regs.push(ps::scalar_mul_public_point(&pubp[*b], f[*a])),
                Op::Mul(a, b) => { let x = ps::scalar_mul(&regs[*a], f[*b], net, st)?; regs.push(x) }
                Op::MulMany(a, b) => {
                    let x = ps::scalar_mul_many(&at(&regs, a), &b.iter().map(|k| f[*k]).collect::<Vec<_>>(), net, st)?;
                    regs.extend(x);
                }
                Op::MulOpen(a, b) => op.push(ps::open_half_point(ps::scalar_mul_local(&regs[*a], f[*b], st), net)?),
                Op::Trivial(a) => regs.push(ps::promote_to_trivial_share(id, &pubp[*a])),
                Op::Msm(a, b) => {
                    let p: Vec<Affine<S>> = a.iter().map(|k| pubp[*k].into_affine()).collect();
                    let x: Vec<_> = b.iter().map(|k| f[*k]).collect();
                    regs.push(ps::msm_public_points(&p, &x));
                }
                Op::Open(a) => op.push(ps::open_point(&regs[*a], net)?),
                Op::OpenMany(a) => op.extend(ps::open_point_many(&at(&regs, a), net)?),
                Op::OpenBoth(a, b) => { let (p, x) = ps::open_point_and_field(&regs[*a], &f[*b], net)?; op.push(p); of.push(x); }
                Op::OpenBothMany(a, b) => {
                    let (p, x) = ps::open_point_and_field_many(&at(&regs, a), &b.iter().map(|k| f[*k]).collect::<Vec<_>>(), net)?;
                    op.extend(p);
                    of.extend(x);
                }
                Op::IsZero(a) => oz.extend(zero.unwrap()(&at(&regs, a), net, st)?),
            }
        }
        Ok((regs, op, of, oz))
    })?;
    let mut regs = pts.clone();
    let (mut op, mut of, mut oz) = (vec![], vec![], vec![]);
    for o in &prog {
        match o {
            Op::Add(a, b) => regs.push(regs[*a] + regs[*b]),
            Op::Sub(a, b) => regs.push(regs[*a] - regs[*b]),
            Op::AddPub(a, b) => regs.push(regs[*a] + pubp[*b]),
            Op::SubPub(a, b) => regs.push(regs[*a] - pubp[*b]),
            Op::MulPubScalar(a, b) => regs.push(regs[*a] * pubf[*b]),
            Op::PubPoint(a, b) => regs.push(pubp[*b] * fs[*a]),
            Op::Mul(a, b) => regs.push(regs[*a] * fs[*b]),
            Op::MulMany(a, b) => {
                let x: Vec<C> = a.iter().zip(b).map(|(a, b)| regs[*a] * fs[*b]).collect();
                regs.extend(x);
            }
            Op::MulOpen(a, b) => op.push(regs[*a] * fs[*b]),
            Op::Trivial(a) => regs.push(pubp[*a]),
            Op::Msm(a, b) => regs.push(a.iter().zip(b).fold(C::zero(), |x, (p, s)| x + pubp[*p] * fs[*s])),
            Op::Open(a) => op.push(regs[*a]),
            Op::OpenMany(a) => op.extend(a.iter().map(|k| regs[*k])),
            Op::OpenBoth(a, b) => { op.push(regs[*a]); of.push(fs[*b]); }
            Op::OpenBothMany(a, b) => { op.extend(a.iter().map(|k| regs[*k])); of.extend(b.iter().map(|k| fs[*k])); }
            Op::IsZero(a) => oz.extend(a.iter().map(|k| regs[*k].is_zero())),
        }
    }
    for (i, o) in outs.iter().enumerate() {
        check_eq!(o.0.len(), regs.len(), "party {i}: number of point registers");
        check!(o.1 == op, "party {i}: opened points differ from the cleartext: {:?} instead of {:?}", o.1, op);
        check_eq!(o.2, of, "party {i}: opened field elements");
        check_eq!(o.3.len(), oz.len(), "party {i}: number of zero tests");
    }
    for (r, want) in regs.iter().enumerate() {
        let v = pval(&format!("point register {r}"), [0, 1, 2].map(|i| outs[i].0[r]))?;
        check!(v == *want, "point register {r}: got {v}, expected {want}");
    }
    for (k, want) in oz.iter().enumerate() {
        for i in 0..3 {
            check!(outs[i].3[k].1 == outs[(i + 2) % 3].3[k].0, "zero test {k}: shares are not consistent at party {i}");
        }
        let got = (0..3).fold(false, |x, i| x ^ outs[i].3[k].0);
        check_eq!(got, *want, "zero test {k} of shared points");
    }
    Ok(())
}
fn zeros<C: CurveGroup>(x: &[Ps<C>], net: &TNet, st: &mut Rep3State) -> eyre::Result<Vec<(bool, bool)>>
where
    C::BaseField: FieldUint,
{
    if x.len() == 1 { Ok(vec![ps::is_zero(x[0], net, st)?]) } else { ps::is_zero_many(x, net, st) }
}
fn s05_any(s: &mut Src) -> R {
    match s.below(7) {
        0 | 1 => s05::<ark_bn254::G1Projective, ark_bn254::g1::Config>(s, Some(zeros)),
        2 => s05::<ark_bls12_381::G1Projective, ark_bls12_381::g1::Config>(s, Some(zeros)),
        3 => s05::<ark_bn254::G2Projective, ark_bn254::g2::Config>(s, None),
        4 => s05::<ark_bls12_381::G2Projective, ark_bls12_381::g2::Config>(s, None),
        5 => s05::<ark_grumpkin::Projective, ark_grumpkin::GrumpkinConfig>(s, Some(zeros)),
        _ => s05::<ark_bls12_377::G1Projective, ark_bls12_377::g1::Config>(s, Some(zeros)),
    }
}

// ---------- S06

/// What party q received, in order, per sender.
fn received(log: &Log, q: usize) -> Vec<(usize, Vec<u8>)> {
    let l = log.lock().unwrap();
    let mut v: Vec<_> = l.iter().filter(|(_, t, _)| *t == q).map(|(f, _, d)| (*f, d.to_vec())).collect();
    v.sort_by_key(|(f, _)| *f);
    v
}
/// One run of the three parties; everything sent over the first network after setup.
fn logged<T: Send, A: Send>(what: &str, set: Setup, args: [A; 3], f: impl Fn(&TNet, &mut Rep3State, A) -> eyre::Result<T> + Sync) -> R<(Vec<T>, Log)> {
    let log: Log = Default::default();
    let outs = run_nets(3, 2, Some(log.clone()), args.into(), |_, nets, a| {
        let mut st = set.state(&nets[1])?;
        f(&nets[0], &mut st, a)
    });
    Ok((all_ok(what, outs)?, log))
}
/// The elements of a message, each of `size` bytes, behind length prefixes (of a vector, or of a vector in a vector).
fn elements(what: &str, msg: &[u8], size: usize) -> R<Vec<Vec<u8>>> {
    let mut rest = msg;
    for _ in 0..2 {
        check!(rest.len() >= 8, "{what}: message of {} bytes does not hold elements of {size} bytes", msg.len());
        let n = u64::from_le_bytes(rest[..8].try_into().unwrap()) as usize;
        rest = &rest[8..];
        if n.checked_mul(size) == Some(rest.len()) {
            return Ok(rest.chunks(size).map(|c| c.to_vec()).collect());
        }
    }
    fail!("{what}: message of {} bytes does not hold elements of {size} bytes", msg.len())
}

struct Masked<'a, A> {
    what: String,
    /// inputs per party, the same in every round
    args: [A; 3],
    size: usize,
    /// bytes that must not be sent: the inputs and their components
    clear: Vec<Vec<u8>>,
    run: &'a (dyn Fn(&TNet, &mut Rep3State, A) -> eyre::Result<()> + Sync),
}
/// The masked messages of an operation: never repeated, and each depends on randomness its receiver lacks.
fn masked<A: Clone + Send>(s: &mut Src, m: Masked<A>) -> R {
    let rounds = s.range(2, 3);
    let forked = s.bool();
    let q = s.range(0, 2);
    let mut rng = s.rng();
    let a2b = if s.bool() { A2BType::Direct } else { A2BType::Yao };
    let keys = Keys::draw(&mut rng);
    let other = keys.new_to_others(q, &mut rng);
    s.nontrivial();
    s.note(|| format!("{} rounds={rounds} forked={forked} receiver {q}", m.what));
    let mut per = vec![];
    for k in [keys, other] {
        let set = Setup { a2b, keys: Some(k) };
        let (_, log) = logged(&m.what, set, m.args.clone(), |net, st, a| {
            use mpc_core::MpcState;
            let mut second = if forked { Some(st.fork(0)?) } else { None };
            for i in 0..rounds {
                let st = if i % 2 == 1 { second.as_mut().unwrap_or(st) } else { &mut *st };
                (m.run)(net, st, a.clone())?;
            }
            Ok(())
        })?;
        let mut seen = BTreeSet::new();
        for to in 0..3 {
            for (f, d) in received(&log, to) {
                for e in elements(&m.what, &d, m.size)? {
                    check!(!m.clear.contains(&e), "{}: party {f} sent party {to} an unmasked value", m.what);
                    check!(seen.insert((f, to, e)), "{}: party {f} sent party {to} the same masked element twice", m.what);
                }
            }
        }
        check!(!seen.is_empty(), "{}: no message was sent", m.what);
        per.push(received(&log, q));
    }
    check_eq!(per[0].len(), per[1].len(), "{}: number of messages to party {q} for other randomness", m.what);
    for ((f, a), (_, b)) in per[0].iter().zip(&per[1]) {
        let (a, b) = (elements(&m.what, a, m.size)?, elements(&m.what, b, m.size)?);
        check_eq!(a.len(), b.len(), "{}: elements in a message for other randomness", m.what);
        for (k, (x, y)) in a.iter().zip(&b).enumerate() {
            check!(x != y, "{}: element {k} of a message from party {f} to party {q} does not depend on randomness unknown to party {q}", m.what);
        }
    }
    Ok(())
}
fn ser<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_uncompressed(&mut v).expect("bytes");
    v
}

fn mask_field<F: FieldUint>(s: &mut Src) -> R {
    let (x, y): (F, F) = (nonzero(s), nonzero(s));
    let len = s.range(1, 4);
    let op = s.below(15);
    let mut rng = s.rng();
    let (xs, ys, cs) = (rep3::share_field_element(x, &mut rng), rep3::share_field_element(y, &mut rng), rep3::share_field_element(F::one(), &mut rng));
    let names = ["mul", "mul_vec", "local_mul_vec, reshare_vec", "mul_open", "mul_open_vec", "inv", "inv_vec", "div", "div_public_by_shared", "cmux", "arithmetic_xor", "arithmetic_xor_many", "pow_public", "sqrt", "reshare_from_2_to_3_parties"];
    let who = s.range(0, 2);
    let clear = [x, y].into_iter().chain(xs.iter().map(|s| s.a)).chain(ys.iter().map(|s| s.a)).map(|v| ser(&v)).collect();
    let run = move |net: &TNet, st: &mut Rep3State, (x, y, c): (Fs<F>, Fs<F>, Fs<F>)| {
        let (vx, vy) = (vec![x; len], vec![y; len]);
        match op {
            0 => { ar::mul(x, y, net, st)?; }
            1 => { ar::mul_vec(&vx, &vy, net, st)?; }
            2 => { let l = ar::local_mul_vec(&vx, &vy, st); ar::reshare_vec(l, net)?; }
            3 => { ar::mul_open(x, y, net, st)?; }
            4 => { ar::mul_open_vec(&vx, &vy, net, st)?; }
            5 => { ar::inv(x, net, st)?; }
            6 => { ar::inv_vec(&vx, net, st)?; }
            7 => { ar::div(x, y, net, st)?; }
            8 => { ar::div_public_by_shared(F::from(5u64), x, net, st)?; }
            9 => { ar::cmux(c, x, y, net, st)?; }
            10 => { ar::arithmetic_xor(c, c, net, st)?; }
            11 => { ar::arithmetic_xor_many(&vec![c; len], &vec![c; len], net, st)?; }
            12 => { ar::pow_public(x, F::from(13u64), net, st)?; }
            13 => { let y = ar::mul(x, x, net, st)?; ar::sqrt(y, net, st)?; }
            _ => {
                let r = IDS[who];
                let input = if st.id == r { None } else { Some(vx) };
                // the sharing among two: only the party after the recipient and the one before hold parts
                ar::reshare_from_2_to_3_parties(input, len, r, net, st)?;
            }
        }
        Ok(())
    };
    masked(s, Masked { what: format!("{} x={x} y={y} len={len}", names[op as usize]), args: [0, 1, 2].map(|i| (xs[i], ys[i], cs[i])), size: F::zero().serialized_size(Compress::No), clear, run: &run })
}
fn mask_bits<F: FieldUint>(s: &mut Src) -> R {
    let (x, y): (F, F) = (nonzero(s), nonzero(s));
    let len = s.range(1, 4);
    let op = s.below(6);
    let mut rng = s.rng();
    let (xs, ys) = (rep3::share_binary(x, &mut rng), rep3::share_binary(y, &mut rng));
    let c: u64 = s.below(2);
    let cs = rep3::share_binary(F::from(c), &mut rng);
    let names = ["and", "and_vec", "or", "cmux", "cmux_many", "and of a value with itself"];
    let clear = [x, y].into_iter().map(|v| ser(&v.to_uint())).chain(xs.iter().map(|s| ser(&s.a))).chain(ys.iter().map(|s| ser(&s.a))).collect();
    let run = move |net: &TNet, st: &mut Rep3State, (x, y, c): (Bs<F>, Bs<F>, Bs<F>)| {
        match op {
            0 => { bi::and(&x, &y, net, st)?; }
            1 => { bi::and_vec(&vec![x; len], &vec![y; len], net, st)?; }
            2 => { bi::or(&x, &y, net, st)?; }
            3 => { bi::cmux(&c, &x, &y, net, st)?; }
            4 => { bi::cmux_many(&vec![c; len], &vec![x; len], &vec![y; len], net, st)?; }
            _ => { bi::and(&x, &x, net, st)?; }
        }
        Ok(())
    };
    let size = xs[0].a.serialized_size(Compress::No);
    masked(s, Masked { what: format!("bits: {} x={x} y={y} len={len}", names[op as usize]), args: [0, 1, 2].map(|i| (xs[i].clone(), ys[i].clone(), cs[i].clone())), size, clear, run: &run })
}
fn mask_ring<T: IntRing2k>(s: &mut Src) -> R
where
    Standard: Distribution<T>,
{
    let (x, y) = (ring::<T>(s), ring::<T>(s));
    let len = s.range(1, 4);
    let op = s.below(9);
    let mut rng = s.rng();
    let (xs, ys) = (rep3_ring::share_ring_element(re::<T>(&x), &mut rng), rep3_ring::share_ring_element(re::<T>(&y), &mut rng));
    let names = ["mul", "mul_vec", "reshare_vec", "mul_open", "mul_open_vec", "and", "and_vec", "or", "pow_public"];
    let clear = xs.iter().chain(&ys).map(|s| ser(&s.a)).collect();
    let run = move |net: &TNet, st: &mut Rep3State, (x, y): (Rs<T>, Rs<T>)| {
        let (vx, vy) = (vec![x; len], vec![y; len]);
        match op {
            0 => { rar::mul(x, y, net, st)?; }
            1 => { rar::mul_vec(&vx, &vy, net, st)?; }
            2 => { let l = rar::local_mul_vec(&vx, &vy, st); rar::reshare_vec(l, net)?; }
            3 => { rar::mul_open(x, y, net, st)?; }
            4 => { rar::mul_open_vec(&vx, &vy, net, st)?; }
            5 => { rbi::and(&x, &y, net, st)?; }
            6 => { rbi::and_vec(&vx, &vy, net, st)?; }
            7 => { rbi::or(&x, &y, net, st)?; }
            _ => { rar::pow_public(x, re::<T>(&BigUint::from(5u8)), net, st)?; }
        }
        Ok(())
    };
    let size = xs[0].a.serialized_size(Compress::No);
    masked(s, Masked { what: format!("ring of {} bits: {} x={x} y={y} len={len}", T::K, names[op as usize]), args: [0, 1, 2].map(|i| (xs[i], ys[i])), size, clear, run: &run })
}
fn mask_point<C: CurveGroup>(s: &mut Src) -> R {
    let p: C = point(s);
    let k: C::ScalarField = felt(s);
    let len = s.range(1, 3);
    let op = s.below(3);
    let mut rng = s.rng();
    let (xs, ks) = (rep3::share_curve_point(p, &mut rng), rep3::share_field_element(k, &mut rng));
    let names = ["scalar_mul", "scalar_mul_many", "scalar_mul_local, open_half_point"];
    let clear = std::iter::once(p).chain(xs.iter().map(|s| s.a)).map(|v| ser(&v)).collect();
    let run = move |net: &TNet, st: &mut Rep3State, (x, k): (Ps<C>, Fs<C::ScalarField>)| {
        match op {
            0 => { ps::scalar_mul(&x, k, net, st)?; }
            1 => { ps::scalar_mul_many(&vec![x; len], &vec![k; len], net, st)?; }
            _ => { let l = ps::scalar_mul_local(&x, k, st); ps::open_half_point(l, net)?; }
        }
        Ok(())
    };
    masked(s, Masked { what: format!("points: {} of {p} and {k} len={len}", names[op as usize]), args: [0, 1, 2].map(|i| (xs[i], ks[i])), size: p.serialized_size(Compress::No), clear, run: &run })
}
/// The coordinates of a shared point, and the zero test: each message element has its own mask.
fn mask_coordinates<C: CurveGroup>(s: &mut Src) -> R
where
    C::BaseField: FieldUint,
{
    let mut rng = s.rng();
    let len = s.range(1, 3);
    let many = s.bool();
    let p: C = if s.chance(1, 4) { C::zero() } else { C::rand(&mut rng) };
    let q = s.range(0, 2);
    let keys = Keys::draw(&mut rng);
    let other = keys.new_to_others(q, &mut rng);
    let sh = rep3::share_curve_point(p, &mut rng);
    s.nontrivial();
    s.note(|| format!("coordinates of {p} of {} len={len} many={many} receiver {q}", std::any::type_name::<C>()));
    let size = C::BaseField::zero().serialized_size(Compress::No);
    // the point that party 1 splits into coordinates
    let (cx, cy) = match (sh[1].a + sh[1].b).into_affine().xy() {
        Some(c) => c,
        None => return Ok(()),
    };
    let diff = to_big(cx) + fmod::<C::BaseField>() - to_big(cy);
    let diff = C::BaseField::from(diff);
    let mut firsts = vec![];
    for k in [keys, other] {
        let set = Setup { a2b: A2BType::Direct, keys: Some(k) };
        let (_, log) = logged("coordinates", set, sh, |net, st, x| {
            if many {
                cv::point_share_to_fieldshares_many(&vec![x; len], net, st)?;
            } else {
                cv::point_share_to_fieldshares(x, net, st)?;
            }
            Ok(())
        })?;
        let n = if many { len } else { 1 };
        for to in 0..3 {
            let from = (to + 2) % 3;
            let first = received(&log, to).into_iter().find(|(f, _)| *f == from);
            let Some((_, d)) = first else { fail!("party {to} received nothing") };
            let e = elements("coordinates", &d, size)?;
            check_eq!(e.len(), 2 * n, "elements in the first message of the coordinate conversion");
            let v: Vec<C::BaseField> = e
                .iter()
                .map(|b| <C::BaseField as ark_serialize::CanonicalDeserialize>::deserialize_uncompressed(&b[..]).map_err(|e| Fail::from(format!("not a field element: {e}"))))
                .collect::<R<_>>()?;
            for i in 0..2 * n {
                check!(v[i] != cx && v[i] != cy, "party {from} sent party {to} a coordinate in the clear");
                for j in 0..i {
                    let d = v[j] - v[i];
                    check!(!d.is_zero() && d != diff && -d != diff, "elements {j} and {i} of the message from party {from} to party {to} have the same mask: their difference is the difference of the coordinates");
                }
            }
            if to == q {
                firsts.push(v);
            }
        }
    }
    for (k, (a, b)) in firsts[0].iter().zip(&firsts[1]).enumerate() {
        check!(a != b, "element {k} of the first message to party {q} does not depend on randomness unknown to party {q}");
    }
    Ok(())
}
/// Whole transcripts of larger protocols: the view of every party changes with the randomness it lacks.
fn mask_whole<F: FieldUint>(s: &mut Src) -> R {
    let (x, y): (F, F) = (felt(s), felt(s));
    let mut rng = s.rng();
    let op = s.below(8);
    let names = ["a2b", "b2a", "bit_inject", "is_zero", "eq", "lt", "a2b_many", "bit_inject_many"];
    let q = s.range(0, 2);
    let keys = Keys::draw(&mut rng);
    let other = keys.new_to_others(q, &mut rng);
    s.nontrivial();
    s.note(|| format!("{} x={x} y={y} receiver {q}", names[op as usize]));
    let (xs, ys, bs) = (rep3::share_field_element(x, &mut rng), rep3::share_field_element(y, &mut rng), rep3::share_binary(if matches!(op, 2 | 7) { F::one() } else { x }, &mut rng));
    let args = [0, 1, 2].map(|i| (xs[i], ys[i], bs[i].clone()));
    let mut seen: Vec<BTreeSet<(usize, Vec<u8>)>> = vec![];
    for k in [keys, other] {
        let set = Setup { a2b: A2BType::Direct, keys: Some(k) };
        let (_, log) = logged(names[op as usize], set, args.clone(), |net, st, (x, y, b)| {
            match op {
                0 => { cv::a2b(x, net, st)?; }
                1 => { cv::b2a(&b, net, st)?; }
                2 => { let b = Bs::<F>::new(b.a & <F::Uint as num_traits::One>::one(), b.b & <F::Uint as num_traits::One>::one()); cv::bit_inject(&b, net, st)?; }
                3 => { ar::is_zero(x, net, st)?; }
                4 => { ar::eq(x, y, net, st)?; }
                5 => { ar::lt(x, y, net, st)?; }
                6 => { cv::a2b_many(&[x, x], net, st)?; }
                _ => { let b = Bs::<F>::new(b.a & <F::Uint as num_traits::One>::one(), b.b & <F::Uint as num_traits::One>::one()); cv::bit_inject_many(&[b.clone(), b], net, st)?; }
            }
            Ok(())
        })?;
        let all: BTreeSet<_> = received(&log, q).into_iter().filter(|(_, d)| d.len() >= 8 + 32 && d[8..].iter().filter(|b| **b != 0).count() >= 16).collect();
        seen.push(all);
    }
    if let Some((f, _)) = seen[0].intersection(&seen[1]).next() {
        fail!("{}: a message from party {f} to party {q} does not depend on randomness unknown to party {q}", names[op as usize]);
    }
    Ok(())
}
fn s06_fresh(s: &mut Src) -> R {
    match s.below(16) {
        0..=3 => any_rep_field!(s, mask_field),
        4..=6 => any_rep_field!(s, mask_bits),
        7 | 8 => match s.below(3) {
            0 => mask_ring::<u64>(s),
            1 => mask_ring::<u128>(s),
            _ => mask_ring::<U512>(s),
        },
        9..=11 => any_curve!(s, mask_point),
        12 | 13 => any_rep_field!(s, mask_whole),
        14 => mask_coordinates::<ark_bn254::G1Projective>(s),
        _ => mask_coordinates::<ark_grumpkin::Projective>(s),
    }
}

/// Over tiny domains: the messages to a party are uniform given everything that party knows.
fn s06_uniform(s: &mut Src) -> R {
    type F = F7;
    let m = 8_000usize;
    let op = s.below(9);
    let names = ["mul_vec", "local_mul_vec, reshare_vec", "mul_open_vec", "cmux_vec", "ring mul_vec", "ring and_vec", "bit mul_vec", "bit and_vec", "scalar_mul_many"];
    let q = s.range(0, 2);
    let mut rng = s.rng();
    let keys = Keys::draw(&mut rng);
    let other = keys.new_to_others(q, &mut rng);
    let (x, y, c): (F, F, F) = (felt(s), felt(s), F::from(s.below(2)));
    let fsh = [x, y, c].map(|v| rep3::share_field_element(v, &mut rng));
    let (rx, ry) = (s.below(256) as u8, s.below(256) as u8);
    let rsh = [rx, ry].map(|v| rep3_ring::share_ring_element(Re::from(v), &mut rng));
    let bsh = [rx & 1 == 1, ry & 1 == 1].map(|v| rep3_ring::share_ring_element(Re::from(Bit::new(v)), &mut rng));
    let (g, k) = (TinyG::generator() * F13::from(s.below(13)), F13::from(s.below(13)));
    let (gs, ks) = (rep3::share_curve_point(g, &mut rng), rep3::share_field_element(k, &mut rng));
    let m = if op == 8 { 2_000 } else { m };
    s.units = 2 * m as u64;
    s.nontrivial();
    s.note(|| format!("{} receiver {q}: field {x} {y} {c}, ring {rx} {ry}, point {} times {k}", names[op as usize], tiny_index(&g)));
    let (cells, size) = match op {
        0..=3 => (7u64, F::zero().serialized_size(Compress::No)),
        4 | 5 => (256, 1),
        6 | 7 => (2, 0),
        _ => (13, g.serialized_size(Compress::No)),
    };
    let mut got: Vec<Vec<(usize, Vec<u64>)>> = vec![];
    for k in [keys, other] {
        let set = Setup { a2b: A2BType::Direct, keys: Some(k) };
        let (_, log) = logged(names[op as usize], set, [0usize, 1, 2], |net, st, i| {
            let v = |e: usize| vec![fsh[e][i]; m];
            let r = |e: usize| vec![rsh[e][i]; m];
            let b = |e: usize| vec![bsh[e][i]; m];
            match op {
                0 => { ar::mul_vec(&v(0), &v(1), net, st)?; }
                1 => { let l = ar::local_mul_vec(&v(0), &v(1), st); ar::reshare_vec(l, net)?; }
                2 => { ar::mul_open_vec(&v(0), &v(1), net, st)?; }
                3 => { ar::cmux_vec(fsh[2][i], &v(0), &v(1), net, st)?; }
                4 => { rar::mul_vec(&r(0), &r(1), net, st)?; }
                5 => { rbi::and_vec(&r(0), &r(1), net, st)?; }
                6 => { rar::mul_vec(&b(0), &b(1), net, st)?; }
                7 => { rbi::and_vec(&b(0), &b(1), net, st)?; }
                _ => { ps::scalar_mul_many(&vec![gs[i]; m], &vec![ks[i]; m], net, st)?; }
            }
            Ok(())
        })?;
        let mut out = vec![];
        for (f, d) in received(&log, q) {
            let v: Vec<u64> = if size == 0 {
                // bits, one per byte
                elements(names[op as usize], &d, 1)?.iter().map(|e| e[0] as u64).collect()
            } else {
                let mut v = vec![];
                for e in elements(names[op as usize], &d, size)? {
                    v.push(match op {
                        0..=3 => e[0] as u64,
                        8 => tiny_index(&<TinyG as ark_serialize::CanonicalDeserialize>::deserialize_uncompressed(&e[..]).map_err(|e| Fail::from(format!("not a point: {e}")))?),
                        _ => e[0] as u64,
                    });
                }
                v
            };
            check_eq!(v.len(), m, "{}: elements in a message", names[op as usize]);
            out.push((f, v));
        }
        check!(!out.is_empty(), "{}: party {q} received nothing", names[op as usize]);
        got.push(out);
    }
    check_eq!(got[0].len(), got[1].len(), "{}: number of messages", names[op as usize]);
    for ((f, a), (_, b)) in got[0].iter().zip(&got[1]) {
        let what = format!("{}: message from party {f} to party {q}", names[op as usize]);
        expect_uniform(&what, &hist(a.iter().copied()), cells)?;
        let d: Vec<u64> = a.iter().zip(b).map(|(x, y)| if cells.is_power_of_two() { x ^ y } else { (x + cells - y) % cells }).collect();
        expect_uniform(&format!("{what}, for other randomness unknown to the receiver"), &hist(d.iter().copied()), cells)?;
        if cells < 20 {
            pairs(&format!("{what}, neighbouring elements"), &d.windows(2).map(|w| (w[0], w[1])).collect::<Vec<_>>(), cells)?;
        }
    }
    Ok(())
}

/// Large fields: over many runs in which only the randomness the receiver lacks changes, each element it receives is uniform.
fn s06_one_sided<F: FieldUint>(s: &mut Src) -> R {
    const CELLS: usize = 16;
    let runs = 1_000usize;
    let len = 64usize;
    let op = s.below(6);
    let names = ["mul_vec", "local_mul_vec, reshare_vec", "mul_open_vec", "cmux_vec", "bits and_vec", "bits cmux_many"];
    let q = s.range(0, 2);
    let mut rng = s.rng();
    let keys = Keys::draw(&mut rng);
    let (x, y, c): (F, F, F) = (felt(s), felt(s), F::from(s.below(2)));
    let fsh = [x, y, c].map(|v| rep3::share_field_element(v, &mut rng));
    let bsh = [x, y, c].map(|v| rep3::share_binary(v, &mut rng));
    s.units = (runs * len) as u64;
    s.nontrivial();
    s.note(|| format!("{} over {} receiver {q}, x={x} y={y} c={c}", names[op as usize], std::any::type_name::<F>()));
    let size = if op < 4 { F::zero().serialized_size(Compress::No) } else { bsh[0][0].a.serialized_size(Compress::No) };
    let bits = bits_of::<F>();
    let mut hs: Vec<Vec<u64>> = vec![];
    for run in 0..runs {
        let set = Setup { a2b: A2BType::Direct, keys: Some(keys.new_to_others(q, &mut rng)) };
        let (_, log) = logged(names[op as usize], set, [0usize, 1, 2], |net, st, i| {
            let v = |e: usize| vec![fsh[e][i]; len];
            let b = |e: usize| vec![bsh[e][i].clone(); len];
            match op {
                0 => { ar::mul_vec(&v(0), &v(1), net, st)?; }
                1 => { let l = ar::local_mul_vec(&v(0), &v(1), st); ar::reshare_vec(l, net)?; }
                2 => { ar::mul_open_vec(&v(0), &v(1), net, st)?; }
                3 => { ar::cmux_vec(fsh[2][i], &v(0), &v(1), net, st)?; }
                4 => { bi::and_vec(&b(0), &b(1), net, st)?; }
                _ => { bi::cmux_many(&b(2), &b(0), &b(1), net, st)?; }
            }
            Ok(())
        })?;
        let mut k = 0;
        for (_, d) in received(&log, q) {
            for e in elements(names[op as usize], &d, size)? {
                let cell = if op < 4 {
                    let v = <F as ark_serialize::CanonicalDeserialize>::deserialize_uncompressed(&e[..]).map_err(|e| Fail::from(format!("not a field element: {e}")))?;
                    part(v, CELLS as u64)
                } else {
                    let v = BigUint::from_bytes_le(&e);
                    ((v >> (bits - 4)) & mask(4)).iter_u64_digits().next().unwrap_or(0) as usize
                };
                if run == 0 {
                    hs.push(vec![0; CELLS]);
                }
                check!(k < hs.len(), "{}: more elements than in the first run", names[op as usize]);
                hs[k][cell] += 1;
                k += 1;
            }
        }
        check_eq!(k, hs.len(), "{}: number of elements received", names[op as usize]);
    }
    let z = uniform_z_many(&hs, CELLS);
    check!(z < Z_LIMIT, "{}: elements sent to party {q} are not uniform for the randomness it lacks (score {z:.1}, {} elements in {runs} runs)", names[op as usize], hs.len());
    Ok(())
}

/// Sharings over large fields: components spread evenly over the field's range.
fn s02_range<F: FieldUint>(s: &mut Src) -> R {
    const CELLS: usize = 16;
    let v: F = felt(s);
    let m = 2_000usize;
    let kind = s.below(7);
    let mut rng = s.rng();
    s.units = m as u64;
    s.nontrivial();
    s.note(|| format!("value {v} of {} kind {kind}, {m} sharings", std::any::type_name::<F>()));
    let vals = vec![v; m];
    let comp: Vec<Vec<F>> = match kind {
        0 => rep3::share_field_elements(&vals, &mut rng).iter().map(|x| x.iter().map(|s| s.a).collect()).collect(),
        1 => (0..m).map(|_| rep3::share_field_element(v, &mut rng)).fold(vec![vec![]; 3], |mut o, x| { for (o, x) in o.iter_mut().zip(x) { o.push(x.a) } o }),
        2 => rep3::share_field_elements_additive(&vals, &mut rng).to_vec(),
        3 => rep3::share_field_elements_seeded::<F, _, SeedRng>(&vals, &mut rng).into_iter().map(|x| x.a.expand_vec()).collect(),
        4 => rep3::share_field_elements_additive_seeded::<F, _, SeedRng>(&vals, &mut rng).into_iter().map(|x| x.expand_vec()).collect(),
        5 => {
            let n = s.range(2, 5);
            let t = s.range(1, n - 1);
            mpc_core::protocols::shamir::share_field_elements(&vals, t, n, &mut rng).into_iter().map(|x| x.into_iter().map(|s| s.inner()).collect()).collect()
        }
        _ => {
            let n = s.range(2, 5);
            let t = s.range(1, n - 1);
            (0..m).map(|_| mpc_core::protocols::shamir::share_field_element(v, t, n, &mut rng)).fold(vec![vec![]; n], |mut o, x| { for (o, x) in o.iter_mut().zip(x) { o.push(x.inner()) } o })
        }
    };
    let hs: Vec<Vec<u64>> = comp
        .iter()
        .map(|c| {
            let mut h = vec![0; CELLS];
            for x in c {
                h[part(*x, CELLS as u64)] += 1;
            }
            h
        })
        .collect();
    for (i, h) in hs.iter().enumerate() {
        let z = uniform_z_many(std::slice::from_ref(h), CELLS);
        check!(z < Z_LIMIT, "component {i} is not uniform over the field (score {z:.1}): {h:?}");
    }
    Ok(())
}

pub fn s02() -> Vec<Sub> {
    vec![Sub::new("rep3-views", 120, 1_500, s02_views), Sub::new("rep3-fresh", 10_000, 60_000, s02_fresh), Sub::new("range", 600, 6_000, |s| any_rep_field!(s, s02_range))]
}
pub fn s05_subs() -> Vec<Sub> {
    vec![Sub::new("rep3", 3_000, 15_000, s05_any).workers(4)]
}
pub fn s06() -> Vec<Sub> {
    vec![Sub::new("rep3-fresh", 8_000, 40_000, s06_fresh).workers(4), Sub::new("rep3-uniform", 100, 800, s06_uniform).workers(4), Sub::new("rep3-one-sided", 40, 400, |s| any_rep_field!(s, s06_one_sided)).workers(4)]
}
