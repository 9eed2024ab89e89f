//! R04: conversions between arithmetic, binary and garbled sharings.
use crate::kit::*;
use crate::{any_rep_field, any_ring};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::PrimeField;
use engine::*;
use fancy_garbling::{BinaryBundle, WireLabel, WireMod2};
use mpc_core::protocols::rep3::conversion as cv;
use mpc_core::protocols::rep3_ring::conversion as rcv;
use mpc_core::protocols::rep3_ring::ring::bit::Bit;
use mpc_core::protocols::rep3_ring::ring::int_ring::IntRing2k;
use mpc_core::uint::FieldUint;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use rand::SeedableRng;
use rand::distributions::{Distribution, Standard};
use scuttlebutt::Block;
use vkit::*;

pub type Wires = Vec<WireMod2>;

// ---- garbled sharings ----

fn blk(w: &WireMod2) -> u128 {
    w.as_block().to_u128()
}
/// Value of wires held as (evaluator, garbler, garbler): both garblers hold the zero labels, the
/// evaluator the zero labels plus delta times the bits.
pub fn yval(what: &str, w: &[Wires; 3], delta: [Option<WireMod2>; 3], len: usize) -> R<BigUint> {
    for (i, x) in w.iter().enumerate() {
        check_eq!(x.len(), len, "{what}: number of wires at party {i}");
    }
    check!(delta[0].is_none(), "{what}: the evaluator has a delta");
    let (Some(d), Some(d2)) = (delta[1], delta[2]) else { fail!("{what}: a garbler has no delta") };
    check!(d == d2, "{what}: the garblers disagree on delta");
    check!(blk(&d) & 1 == 1, "{what}: delta does not flip the colour");
    let mut v = BigUint::zero();
    for k in 0..len {
        check!(w[1][k] == w[2][k], "{what}: the garblers disagree on the label of wire {k}");
        let e = blk(&w[0][k]) ^ blk(&w[1][k]);
        check!(e == 0 || e == blk(&d), "{what}: wire {k} of the evaluator is neither label");
        if e != 0 {
            v.set_bit(k as u64, true);
        }
    }
    Ok(v)
}
/// A garbled sharing of the low `len` bits of `v`, with labels and delta drawn here.
pub fn yshare(s: &mut Src, v: &BigUint, len: usize, delta: WireMod2) -> [Wires; 3] {
    let mut r = rand_chacha::ChaCha12Rng::seed_from_u64(s.word());
    let zero: Wires = (0..len).map(|_| WireMod2::rand(&mut r, 2)).collect();
    let ev = zero.iter().enumerate().map(|(k, w)| if v.bit(k as u64) { w.plus(&delta) } else { *w }).collect();
    [ev, zero.clone(), zero]
}
pub fn new_delta(s: &mut Src) -> WireMod2 {
    let mut r = rand_chacha::ChaCha12Rng::seed_from_u64(s.word());
    WireMod2::rand_delta(&mut r, 2)
}
fn bun(w: &Wires) -> BinaryBundle<WireMod2> {
    BinaryBundle::new(w.clone())
}
fn unbun(b: BinaryBundle<WireMod2>) -> Wires {
    b.wires().to_vec()
}
fn three<A: Clone, B: Clone>(a: [A; 3], b: [B; 3]) -> [(A, B); 3] {
    [0, 1, 2].map(|i| (a[i].clone(), b[i].clone()))
}

/// The number of elements of a batch.
fn count(s: &mut Src, many: bool) -> usize {
    if many { s.weighted(&[1, 2, 3, 2, 1, 1]) } else { 1 }
}

// ---- fields ----

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum F2b {
    Selector,
    Direct,
    Many,
    Yao,
    Streaming,
    YaoMany,
}
const F2BS: [F2b; 6] = [F2b::Selector, F2b::Direct, F2b::Many, F2b::Yao, F2b::Streaming, F2b::YaoMany];

/// Arithmetic to binary.
fn field_a2b<F: FieldUint>(s: &mut Src) -> R {
    let how = *s.pick(&F2BS);
    s.label(match how {
        F2b::Selector => "a2b_selector",
        F2b::Direct => "a2b",
        F2b::Many => "a2b_many",
        F2b::Yao => "a2y2b",
        F2b::Streaming => "a2y2b_streaming",
        F2b::YaoMany => "a2y2b_many",
    });
    let n = count(s, matches!(how, F2b::Many | F2b::YaoMany));
    let v: Vec<F> = s_vec(s, n, felt);
    let x: Vec<[Fs<F>; 3]> = v.iter().map(|v| fshare(s, *v)).collect();
    let set = Setup::draw(s);
    let what = format!("{how:?} a2b of {v:?} ({} bits, {:?})", bits_of::<F>(), set.a2b);
    if n > 0 {
        s.nontrivial();
    }
    s.note(|| what.clone());
    let o = run3(&what, set, parties(&x), |nets, st, x| {
        let net = &nets[0];
        let one = |x: &Vec<Fs<F>>| x[0];
        Ok(match how {
            F2b::Selector => vec![cv::a2b_selector(one(&x), net, st)?],
            F2b::Direct => vec![cv::a2b(one(&x), net, st)?],
            F2b::Many => cv::a2b_many(&x, net, st)?,
            F2b::Yao => vec![cv::a2y2b(one(&x), net, st)?],
            F2b::Streaming => vec![cv::a2y2b_streaming(one(&x), net, st)?],
            F2b::YaoMany => cv::a2y2b_many(&x, net, st)?,
        })
    })?;
    for (k, t) in triples(&what, &o, n)?.into_iter().enumerate() {
        check_eq!(bval(&what, t)?, to_big(v[k]), "{what}: value {k}");
    }
    Ok(())
}
pub fn s_vec<T>(s: &mut Src, n: usize, f: impl Fn(&mut Src) -> T) -> Vec<T> {
    (0..n).map(|_| f(s)).collect()
}
fn field_a2bs(s: &mut Src) -> R {
    any_rep_field!(s, field_a2b)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum B2f {
    Selector,
    Direct,
    Many,
    Yao,
    Streaming,
}
/// Binary (below the modulus) to arithmetic.
fn field_b2a<F: FieldUint>(s: &mut Src) -> R {
    let how = *s.pick(&[B2f::Selector, B2f::Direct, B2f::Many, B2f::Yao, B2f::Streaming]);
    s.label(match how {
        B2f::Selector => "b2a_selector",
        B2f::Direct => "b2a",
        B2f::Many => "b2a_many",
        B2f::Yao => "b2y2a",
        B2f::Streaming => "b2y2a_streaming",
    });
    let n = count(s, how == B2f::Many);
    let v: Vec<F> = s_vec(s, n, felt);
    let x: Vec<[Bs<F>; 3]> = v.iter().map(|v| bshare::<F>(s, &to_big(*v))).collect();
    let set = Setup::draw(s);
    let what = format!("{how:?} b2a of {v:?} ({} bits, {:?})", bits_of::<F>(), set.a2b);
    if n > 0 {
        s.nontrivial();
    }
    s.note(|| what.clone());
    let o = run3(&what, set, parties(&x), |nets, st, x| {
        let net = &nets[0];
        Ok(match how {
            B2f::Selector => vec![cv::b2a_selector(&x[0], net, st)?],
            B2f::Direct => vec![cv::b2a(&x[0], net, st)?],
            B2f::Many => cv::b2a_many(&x, net, st)?,
            B2f::Yao => vec![cv::b2y2a(&x[0], net, st)?],
            B2f::Streaming => vec![cv::b2y2a_streaming(&x[0], net, st)?],
        })
    })?;
    for (k, t) in triples(&what, &o, n)?.into_iter().enumerate() {
        check_eq!(fval(&what, t)?, v[k], "{what}: value {k}");
    }
    Ok(())
}
fn field_b2as(s: &mut Src) -> R {
    any_rep_field!(s, field_b2a)
}

/// Single bits into field shares.
fn field_inject<F: FieldUint>(s: &mut Src) -> R {
    let how = s.below(4);
    let name = ["bit_inject", "bit_inject_many", "bit_inject_from_bits", "bit_inject_from_bits_to_field_many"][how as usize];
    s.label(name);
    let n = count(s, how % 2 == 1);
    let v: Vec<bool> = s_vec(s, n, |s| s.bool());
    let x: Vec<[[bool; 2]; 3]> = v
        .iter()
        .map(|v| {
            let (a, b) = (s.bool(), s.bool());
            let c = a ^ b ^ v;
            [[a, c], [b, a], [c, b]]
        })
        .collect();
    let set = Setup::draw(s);
    let what = format!("{name} of {v:?} shared {x:?} ({} bits)", bits_of::<F>());
    if n > 0 {
        s.nontrivial();
    }
    s.note(|| what.clone());
    let o = run3(&what, set, parties(&x), |nets, st, x| {
        let net = &nets[0];
        let u = |b: bool| ub::<F::Uint>(&BigUint::from(b as u8));
        let us: Vec<Bs<F>> = x.iter().map(|[a, b]| Bs::new(u(*a), u(*b))).collect();
        let bs: Vec<Rs<Bit>> = x.iter().map(|[a, b]| Rs::new(Bit::new(*a), Bit::new(*b))).collect();
        Ok(match how {
            0 => vec![cv::bit_inject::<F, _>(&us[0], net, st)?],
            1 => cv::bit_inject_many::<F, _>(&us, net, st)?,
            2 => vec![cv::bit_inject_from_bits::<F, _>((x[0][0], x[0][1]), net, st)?],
            _ => rcv::bit_inject_from_bits_to_field_many::<F, _>(&bs, net, st)?,
        })
    })?;
    for (k, t) in triples(&what, &o, n)?.into_iter().enumerate() {
        check_eq!(fval(&what, t)?, F::from(v[k]), "{what}: bit {k}");
    }
    Ok(())
}
fn field_injects(s: &mut Src) -> R {
    any_rep_field!(s, field_inject)
}

/// Into garbled form: the labels themselves are looked at.
fn field_to_yao<F: FieldUint>(s: &mut Src) -> R {
    let how = s.below(4);
    let name = ["a2y", "a2y_streaming", "a2y_many", "b2y"][how as usize];
    s.label(name);
    let n = count(s, how == 2);
    let bl = bits_of::<F>();
    let v: Vec<BigUint> = s_vec(s, n, |s| if how == 3 { s.big(bl) } else { to_big(felt::<F>(s)) });
    let x: Vec<[Fs<F>; 3]> = v.iter().map(|v| fshare(s, F::from(v.clone()))).collect();
    let b: Vec<[Bs<F>; 3]> = v.iter().map(|v| bshare::<F>(s, v)).collect();
    let set = Setup::draw(s);
    let what = format!("{name} of {v:?} ({bl} bits)");
    if n > 0 {
        s.nontrivial();
    }
    s.note(|| what.clone());
    let o = run3(&what, set, three(parties(&x), parties(&b)), |nets, st, (x, b)| {
        let net = &nets[0];
        let d = st.rngs.generate_random_garbler_delta(st.id);
        Ok((
            d,
            match how {
                0 => vec![unbun(cv::a2y(x[0], d, net, st)?)],
                1 => vec![unbun(cv::a2y_streaming(x[0], d, net, st)?)],
                2 => cv::a2y_many(&x, d, net, st)?.into_iter().map(unbun).collect(),
                _ => vec![unbun(cv::b2y(&b[0], d, net, st)?)],
            },
        ))
    })?;
    let d = [o[0].0, o[1].0, o[2].0];
    for (k, t) in triples(&what, &o.map(|o| o.1), n)?.into_iter().enumerate() {
        check_eq!(yval(&what, &t, d, bl)?, v[k], "{what}: value {k}");
    }
    Ok(())
}
fn fields_to_yao(s: &mut Src) -> R {
    any_rep_field!(s, field_to_yao)
}

/// Out of garbled form, from labels drawn here.
fn field_from_yao<F: FieldUint>(s: &mut Src) -> R {
    let how = s.below(4);
    let name = ["y2a", "y2a_streaming", "y2b", "y2b_many"][how as usize];
    s.label(name);
    let n = count(s, how == 3);
    let bl = bits_of::<F>();
    let lens = s_vec(s, n, |s| if how > 1 && s.chance(1, 2) { s.range(1, bl) } else { bl });
    let v: Vec<BigUint> = lens.iter().map(|l| if how < 2 { to_big(felt::<F>(s)) } else { s.big(*l) }).collect();
    let d = new_delta(s);
    let x: Vec<[Wires; 3]> = v.iter().zip(&lens).map(|(v, l)| yshare(s, v, *l, d)).collect();
    let set = Setup::draw(s);
    let what = format!("{name} of {v:?} with {lens:?} wires ({bl} bits)");
    if n > 0 {
        s.nontrivial();
    }
    s.note(|| what.clone());
    let args = three(parties(&x), [None, Some(d), Some(d)]);
    let o = run3(&what, set, args, |nets, st, (x, d)| {
        let net = &nets[0];
        Ok(match how {
            0 => (vec![cv::y2a::<F, _>(bun(&x[0]), d, net, st)?], vec![]),
            1 => (vec![cv::y2a_streaming::<F, _>(bun(&x[0]), d, net, st)?], vec![]),
            2 => (vec![], vec![cv::y2b::<F, _>(bun(&x[0]), net, st)?]),
            _ => (vec![], cv::y2b_many::<F, _>(x.iter().map(bun).collect(), net, st)?),
        })
    })?;
    let [p, q, r] = o;
    if how < 2 {
        for (k, t) in triples(&what, &[p.0, q.0, r.0], n)?.into_iter().enumerate() {
            check_eq!(to_big(fval(&what, t)?), v[k], "{what}: value {k}");
        }
    } else {
        for (k, t) in triples(&what, &[p.1, q.1, r.1], n)?.into_iter().enumerate() {
            check_eq!(bval(&what, t)?, v[k], "{what}: value {k}");
        }
    }
    Ok(())
}
fn fields_from_yao(s: &mut Src) -> R {
    any_rep_field!(s, field_from_yao)
}

// ---- rings ----

fn ring_a2b<T: IntRing2k>(s: &mut Src) -> R
where
    Standard: Distribution<T>,
{
    let how = s.below(5);
    let name = ["a2b_selector", "a2b", "a2b_many", "a2y2b", "a2y2b_streaming"][how as usize];
    s.label(name);
    let n = count(s, how == 2);
    let v: Vec<BigUint> = s_vec(s, n, ring::<T>);
    let x: Vec<[Rs<T>; 3]> = v.iter().map(|v| rshare::<T>(s, v)).collect();
    let set = Setup::draw(s);
    let what = format!("ring {name} of {v:?} ({} bits, {:?})", T::K, set.a2b);
    if n > 0 {
        s.nontrivial();
    }
    s.note(|| what.clone());
    let o = run3(&what, set, parties(&x), |nets, st, x| {
        let net = &nets[0];
        Ok(match how {
            0 => vec![rcv::a2b_selector(x[0], net, st)?],
            1 => vec![rcv::a2b(x[0], net, st)?],
            2 => rcv::a2b_many(&x, net, st)?,
            3 => vec![rcv::a2y2b(x[0], net, st)?],
            _ => vec![rcv::a2y2b_streaming(x[0], net, st)?],
        })
    })?;
    for (k, t) in triples(&what, &o, n)?.into_iter().enumerate() {
        check_eq!(rxval(&what, t)?, v[k], "{what}: value {k}");
    }
    Ok(())
}
fn rings_a2b(s: &mut Src) -> R {
    any_ring!(s, ring_a2b)
}
fn ring_b2a<T: IntRing2k>(s: &mut Src) -> R
where
    Standard: Distribution<T>,
{
    let how = s.below(5);
    let name = ["b2a_selector", "b2a", "b2a_many", "b2y2a", "b2y2a_streaming"][how as usize];
    s.label(name);
    let n = count(s, how == 2);
    let v: Vec<BigUint> = s_vec(s, n, ring::<T>);
    let x: Vec<[Rs<T>; 3]> = v.iter().map(|v| rxshare::<T>(s, v)).collect();
    let set = Setup::draw(s);
    let what = format!("ring {name} of {v:?} ({} bits, {:?})", T::K, set.a2b);
    if n > 0 {
        s.nontrivial();
    }
    s.note(|| what.clone());
    let o = run3(&what, set, parties(&x), |nets, st, x| {
        let net = &nets[0];
        Ok(match how {
            0 => vec![rcv::b2a_selector(&x[0], net, st)?],
            1 => vec![rcv::b2a(&x[0], net, st)?],
            2 => rcv::b2a_many(&x, net, st)?,
            3 => vec![rcv::b2y2a(&x[0], net, st)?],
            _ => vec![rcv::b2y2a_streaming(&x[0], net, st)?],
        })
    })?;
    for (k, t) in triples(&what, &o, n)?.into_iter().enumerate() {
        check_eq!(rval(&what, t)?, v[k], "{what}: value {k}");
    }
    Ok(())
}
fn rings_b2a(s: &mut Src) -> R {
    any_ring!(s, ring_b2a)
}
fn ring_inject<T: IntRing2k>(s: &mut Src) -> R
where
    Standard: Distribution<T>,
{
    let how = s.below(4);
    let name = ["bit_inject", "bit_inject_many", "bit_inject_from_bit", "bit_inject_from_bits_many"][how as usize];
    s.label(name);
    let n = count(s, how % 2 == 1);
    let v: Vec<BigUint> = s_vec(s, n, |s| BigUint::from(s.bool() as u8));
    let x: Vec<[Rs<Bit>; 3]> = v.iter().map(|v| rxshare::<Bit>(s, v)).collect();
    let set = Setup::draw(s);
    let what = format!("ring {name} of {v:?} to {} bits", T::K);
    if n > 0 {
        s.nontrivial();
    }
    s.note(|| what.clone());
    let o = run3(&what, set, parties(&x), |nets, st, x| {
        let net = &nets[0];
        let wide: Vec<Rs<T>> = x.iter().map(|x| Rs::new_ring(re(&br(x.a)), re(&br(x.b)))).collect();
        Ok(match how {
            0 => vec![rcv::bit_inject::<T, _>(&wide[0], net, st)?],
            1 => rcv::bit_inject_many::<T, _>(&wide, net, st)?,
            2 => vec![rcv::bit_inject_from_bit::<T, _>(&x[0], net, st)?],
            _ => rcv::bit_inject_from_bits_many::<T, _>(&x, net, st)?,
        })
    })?;
    for (k, t) in triples(&what, &o, n)?.into_iter().enumerate() {
        check_eq!(rval(&what, t)?, v[k], "{what}: bit {k}");
    }
    Ok(())
}
fn rings_inject(s: &mut Src) -> R {
    any_ring!(s, ring_inject)
}
fn ring_yao<T: IntRing2k>(s: &mut Src) -> R
where
    Standard: Distribution<T>,
{
    if s.bool() {
        let how = s.below(4);
        let name = ["a2y", "a2y_streaming", "b2y", "b2y_many"][how as usize];
        s.label(name);
        let n = count(s, how == 3).max(1);
        let v: Vec<BigUint> = s_vec(s, n, ring::<T>);
        let x: Vec<[Rs<T>; 3]> = v.iter().map(|v| if how < 2 { rshare::<T>(s, v) } else { rxshare::<T>(s, v) }).collect();
        let set = Setup::draw(s);
        let what = format!("ring {name} of {v:?} ({} bits)", T::K);
        s.nontrivial();
        s.note(|| what.clone());
        let o = run3(&what, set, parties(&x), |nets, st, x| {
            let net = &nets[0];
            let d = st.rngs.generate_random_garbler_delta(st.id);
            let w = match how {
                0 => rcv::a2y(x[0], d, net, st)?,
                1 => rcv::a2y_streaming(x[0], d, net, st)?,
                2 => rcv::b2y(&x[0], d, net, st)?,
                _ => rcv::b2y_many(&x, d, net, st)?,
            };
            Ok((d, unbun(w)))
        })?;
        let d = [o[0].0, o[1].0, o[2].0];
        let want = v.iter().rev().fold(BigUint::zero(), |a, v| (a << T::K) + v);
        check_eq!(yval(&what, &o.map(|o| o.1), d, n * T::K)?, want, "{what}");
        return Ok(());
    }
    let how = s.below(4);
    let name = ["y2a", "y2a_streaming", "y2b", "y2b_many"][how as usize];
    s.label(name);
    let n = count(s, how == 3).max(1);
    let v: Vec<BigUint> = s_vec(s, n, ring::<T>);
    let cat = v.iter().rev().fold(BigUint::zero(), |a, v| (a << T::K) + v);
    let d = new_delta(s);
    let x = yshare(s, &cat, n * T::K, d);
    let set = Setup::draw(s);
    let what = format!("ring {name} of {v:?} ({} bits)", T::K);
    s.nontrivial();
    s.note(|| what.clone());
    let o = run3(&what, set, three(x, [None, Some(d), Some(d)]), |nets, st, (x, d)| {
        let net = &nets[0];
        Ok(match how {
            0 => vec![rcv::y2a::<T, _>(bun(&x), d, net, st)?],
            1 => vec![rcv::y2a_streaming::<T, _>(bun(&x), d, net, st)?],
            2 => vec![rcv::y2b::<T, _>(bun(&x), net, st)?],
            _ => rcv::y2b_many::<T, _>(bun(&x), net, st)?,
        })
    })?;
    for (k, t) in triples(&what, &o, n)?.into_iter().enumerate() {
        let got = if how < 2 { rval(&what, t)? } else { rxval(&what, t)? };
        check_eq!(got, v[k], "{what}: value {k}");
    }
    Ok(())
}
fn rings_yao(s: &mut Src) -> R {
    any_ring!(s, ring_yao)
}

// ---- points and coordinates ----

/// A point share without zero components and with a first pair that is not the third component:
/// the documented domain of the conversion.
fn odd_pshare<C: CurveGroup>(s: &mut Src, v: C) -> [Ps<C>; 3] {
    loop {
        let x = pshare(s, v);
        let c: Vec<C> = x.iter().map(|x| x.a).collect();
        // the conversion adds (x0 + x1) and x2 of some rotation
        let bad = (0..3).any(|i| c[i].is_zero() || (c[i] + c[(i + 1) % 3]).is_zero() || c[i] + c[(i + 1) % 3] == c[(i + 2) % 3]);
        let skip = c.iter().any(|c| c.is_zero()) || (bad && !v.is_zero());
        if !skip {
            return x;
        }
        // fully random shares always end this
        let mut r = s.rng();
        let (a, b) = (C::rand(&mut r), C::rand(&mut r));
        let c = v - a - b;
        return [Ps::new(a, c), Ps::new(b, a), Ps::new(c, b)];
    }
}
fn coords<C: CurveGroup>(what: &str, v: C, t: [C::BaseField; 3]) -> R
where
    C::BaseField: PrimeField,
{
    let [x, y, inf] = t;
    match v.into_affine().xy() {
        None => check_eq!(inf, C::BaseField::one(), "{what}: infinity flag of the point at infinity"),
        Some(p) => {
            check_eq!(inf, C::BaseField::zero(), "{what}: infinity flag of an ordinary point");
            check_eq!((x, y), p, "{what}: coordinates");
        }
    }
    Ok(())
}
fn points_conv<C: CurveGroup>(s: &mut Src) -> R
where
    C::BaseField: FieldUint,
{
    let how = s.below(4);
    let name = [
        "point_share_to_fieldshares",
        "point_share_to_fieldshares_many",
        "fieldshares_to_pointshare",
        "fieldshares_to_pointshare_many",
    ][how as usize];
    s.label(name);
    let n = count(s, how % 2 == 1);
    let v: Vec<C> = s_vec(s, n, |s| if s.chance(1, 4) { C::zero() } else { point(s) });
    let set = Setup::draw(s);
    let what = format!("{name} of {v:?} ({:?})", set.a2b);
    if n > 0 {
        s.nontrivial();
    }
    s.note(|| what.clone());
    if how < 2 {
        let x: Vec<[Ps<C>; 3]> = v.iter().map(|v| odd_pshare(s, *v)).collect();
        let o = run3(&what, set, parties(&x), |nets, st, x| {
            let net = &nets[0];
            Ok(if how == 0 {
                let (a, b, c) = cv::point_share_to_fieldshares(x[0], net, st)?;
                (vec![a], vec![b], vec![c])
            } else {
                cv::point_share_to_fieldshares_many(&x, net, st)?
            })
        })?;
        let [p, q, r] = o;
        let a = triples(&what, &[p.0, q.0, r.0], n)?;
        let b = triples(&what, &[p.1, q.1, r.1], n)?;
        let c = triples(&what, &[p.2, q.2, r.2], n)?;
        for k in 0..n {
            let t = [fval(&what, a[k])?, fval(&what, b[k])?, fval(&what, c[k])?];
            coords(&format!("{what}: point {k}"), v[k], t)?;
        }
        return Ok(());
    }
    // coordinates of the point at infinity are arbitrary
    type B<C> = <C as CurveGroup>::BaseField;
    let xyz: Vec<[B<C>; 3]> = v
        .iter()
        .map(|v| match v.into_affine().xy() {
            Some((x, y)) => [x, y, B::<C>::zero()],
            None => [felt(s), felt(s), B::<C>::one()],
        })
        .collect();
    let sh: [Vec<[Fs<B<C>>; 3]>; 3] = [0, 1, 2].map(|q| xyz.iter().map(|c| fshare(s, c[q])).collect());
    let [a, b, c] = sh.map(|v| parties(&v));
    let o = run3(&what, set, [0, 1, 2].map(|i| (a[i].clone(), b[i].clone(), c[i].clone())), |nets, st, (a, b, c)| {
        let net = &nets[0];
        Ok(if how == 2 {
            vec![cv::fieldshares_to_pointshare::<C, _>(a[0], b[0], c[0], net, st)?]
        } else {
            cv::fieldshares_to_pointshare_many::<C, _>(&a, &b, &c, net, st)?
        })
    })?;
    for (k, t) in triples(&what, &o, n)?.into_iter().enumerate() {
        check_eq!(pval(&what, t)?, v[k], "{what}: point {k}");
    }
    Ok(())
}
fn points(s: &mut Src) -> R {
    match s.below(2) {
        0 => points_conv::<ark_bn254::G1Projective>(s),
        _ => points_conv::<ark_grumpkin::Projective>(s),
    }
}

pub fn properties() -> Vec<Property> {
    let _ = Block::default();
    vec![Property {
        id: "R04",
        rule: "at least one value is converted",
        assumptions: "honest parties; labels are hashed with the stand-in of the garbling library; points are shared without zero components (documented domain)",
        subs: vec![
            Sub::new("field-a2b", 6000, 12000, field_a2bs).workers(4),
            Sub::new("field-b2a", 6000, 12000, field_b2as).workers(4),
            Sub::new("field-inject", 12000, 20000, field_injects).workers(4),
            Sub::new("field-to-yao", 4000, 8000, fields_to_yao).workers(4),
            Sub::new("field-from-yao", 4000, 8000, fields_from_yao).workers(4),
            Sub::new("ring-a2b", 12000, 20000, rings_a2b).workers(4),
            Sub::new("ring-b2a", 12000, 20000, rings_b2a).workers(4),
            Sub::new("ring-inject", 12000, 20000, rings_inject).workers(4),
            Sub::new("ring-yao", 12000, 20000, rings_yao).workers(4),
            Sub::new("points", 4000, 6000, points).workers(4),
        ],
    }]
}
