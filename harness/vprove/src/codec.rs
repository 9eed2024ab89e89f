//! C07 encodings of shares, witnesses and inputs.
use ark_ec::{AffineRepr, CurveGroup, short_weierstrass::{Affine, Projective, SWCurveConfig}};
use ark_ff::{BigInteger, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use circom_types::Witness;
use co_circom_types::*;
use engine::*;
use mpc_core::protocols::rep3::{
    self, Rep3PointShare, Rep3PrimeFieldShare, Rep3ShareVecType, SeededType, Rep3UintShare,
};
use mpc_core::protocols::rep3_ring::{Rep3RingShare, ring::{bit::Bit, int_ring::IntRing2k, ring_impl::RingElement}};
use mpc_core::protocols::shamir::{ShamirPointShare, ShamirPrimeFieldShare};
use mpc_core::uint::{FieldUint, U512, UintBackend};
use rand::distributions::{Distribution, Standard};
use rand::{Rng, RngCore};
use serde::{Serialize, de::DeserializeOwned};
use std::collections::BTreeMap;
use std::fmt::Debug;
use vkit::*;

fn short<T: Debug>(x: &T) -> String {
    let s = format!("{x:?}");
    if s.len() > 300 { format!("{}…", s.chars().take(300).collect::<String>()) } else { s }
}

/// Cut points of an encoding of n bytes: all of them when short, a spread of them otherwise.
fn cuts(s: &mut Src, n: usize) -> Vec<usize> {
    if n <= 40 {
        (0..n).collect()
    } else {
        let mut v = vec![0, 1, 7, 8, n / 2, n - 1];
        v.extend((0..6).map(|_| s.range(0, n - 1)));
        v
    }
}

/// Flat encodings: the decoded value, the length announced, prefixes, and neighbours in a stream.
fn canonical<T: CanonicalSerialize + CanonicalDeserialize + PartialEq + Debug>(s: &mut Src, what: &str, x: &T, next: &T) -> R {
    for c in [Compress::Yes, Compress::No] {
        let mode = if matches!(c, Compress::Yes) { "compressed" } else { "uncompressed" };
        let mut enc = vec![];
        x.serialize_with_mode(&mut enc, c).map_err(|e| Fail::from(format!("{what} {mode}: encoding {}: {e}", short(x))))?;
        check_eq!(enc.len(), x.serialized_size(c), "{what} {mode}: announced length of {}", short(x));
        let cut = cuts(s, enc.len());
        for v in [Validate::Yes, Validate::No] {
            match T::deserialize_with_mode(&enc[..], c, v) {
                Ok(y) => check!(y == *x, "{what} {mode}: {} came back as {}", short(x), short(&y)),
                Err(e) => fail!("{what} {mode}: {} does not decode: {e}", short(x)),
            }
            for &k in &cut {
                match caught(|| T::deserialize_with_mode(&enc[..k], c, v)) {
                    Ok(Err(_)) => {}
                    Ok(Ok(y)) => fail!("{what} {mode}: the first {k} of {} bytes of {} decode to {}", enc.len(), short(x), short(&y)),
                    Err(p) => fail!("{what} {mode}: decoding {k} of {} bytes panics: {p}", enc.len()),
                }
            }
        }
        let mut two = enc.clone();
        next.serialize_with_mode(&mut two, c).map_err(|e| Fail::from(e.to_string()))?;
        let mut r = &two[..];
        let a = T::deserialize_with_mode(&mut r, c, Validate::Yes).map_err(|e| Fail::from(format!("{what} {mode}: first of two: {e}")))?;
        let b = T::deserialize_with_mode(&mut r, c, Validate::Yes).map_err(|e| Fail::from(format!("{what} {mode}: second of two: {e}")))?;
        check!(a == *x && b == *next && r.is_empty(), "{what} {mode}: two values in a row: {} / {} ({} bytes left)", short(&a), short(&b), r.len());
    }
    Ok(())
}

/// Stored formats. `same` decides equality (not every type has one of its own).
fn stored_by<T: Serialize + DeserializeOwned + Debug>(s: &mut Src, what: &str, x: &T, same: impl Fn(&T, &T) -> bool) -> R {
    let enc = bincode::serialize(x).map_err(|e| Fail::from(format!("{what}: bincode of {}: {e}", short(x))))?;
    match bincode::deserialize::<T>(&enc) {
        Ok(y) => check!(same(&y, x), "{what} bincode: {} came back as {}", short(x), short(&y)),
        Err(e) => fail!("{what} bincode: {} does not decode: {e}", short(x)),
    }
    match bincode::deserialize_from::<_, T>(&enc[..]) {
        Ok(y) => check!(same(&y, x), "{what} bincode stream: {} came back as {}", short(x), short(&y)),
        Err(e) => fail!("{what} bincode stream: {} does not decode: {e}", short(x)),
    }
    for k in cuts(s, enc.len()) {
        match caught(|| bincode::deserialize::<T>(&enc[..k])) {
            Ok(Err(_)) => {}
            Ok(Ok(y)) => fail!("{what} bincode: the first {k} of {} bytes of {} decode to {}", enc.len(), short(x), short(&y)),
            Err(p) => fail!("{what} bincode: decoding {k} of {} bytes panics: {p}", enc.len()),
        }
    }
    let js = serde_json::to_vec(x).map_err(|e| Fail::from(format!("{what}: json of {}: {e}", short(x))))?;
    match serde_json::from_slice::<T>(&js) {
        Ok(y) => check!(same(&y, x), "{what} json: {} came back as {}", short(x), short(&y)),
        Err(e) => fail!("{what} json: {} does not decode: {e}", short(x)),
    }
    // a prefix of a bare number is a number: only structured texts are required to end
    if !js[0].is_ascii_digit() {
        for k in cuts(s, js.len()) {
            match caught(|| serde_json::from_slice::<T>(&js[..k])) {
                Ok(Err(_)) => {}
                Ok(Ok(y)) => fail!("{what} json: the first {k} of {} characters decode to {}", js.len(), short(&y)),
                Err(p) => fail!("{what} json: decoding a prefix panics: {p}"),
            }
        }
    }
    Ok(())
}
fn stored<T: Serialize + DeserializeOwned + Debug + PartialEq>(s: &mut Src, what: &str, x: &T) -> R {
    stored_by(s, what, x, |a, b| a == b)
}

fn len(s: &mut Src) -> usize {
    match s.weighted(&[200, 600, 100, 3]) {
        0 => 0,
        1 => s.range(1, 6),
        2 => s.range(7, 60),
        _ => s.range(61, 3000),
    }
}

fn fields<F: PrimeField>(s: &mut Src) -> R {
    let (x, y): (F, F) = (felt(s), felt(s));
    let (z, w): (F, F) = (felt(s), felt(s));
    if x != y && x > F::one() {
        s.nontrivial();
    }
    let sh = ShamirPrimeFieldShare::new(x);
    canonical(s, "Shamir share", &sh, &ShamirPrimeFieldShare::new(y))?;
    let r = Rep3PrimeFieldShare::new(x, y);
    canonical(s, "rep3 share", &r, &Rep3PrimeFieldShare::new(z, w))?;
    stored(s, "rep3 share", &r)?;
    let n = len(s);
    let shv: Vec<_> = (0..n).map(|_| ShamirPrimeFieldShare::new(felt::<F>(s))).collect();
    canonical(s, "Shamir shares", &shv, &vec![sh; 2])?;
    let rv: Vec<_> = (0..n).map(|_| Rep3PrimeFieldShare::new(felt::<F>(s), felt(s))).collect();
    canonical(s, "rep3 shares", &rv, &vec![r; 2])?;
    let nested: Vec<Vec<_>> = (0..n.min(4)).map(|k| rv[..k].to_vec()).collect();
    canonical(s, "batched rep3 shares", &nested, &vec![vec![r], vec![]])?;
    // out of range
    let m = fmod::<F>();
    let bytes = {
        let mut b = vec![];
        x.serialize_compressed(&mut b).unwrap();
        b.len()
    };
    let room = (num_bigint::BigUint::from(1u8) << F::MODULUS_BIT_SIZE) - &m;
    let over = m + s.big(F::MODULUS_BIT_SIZE as usize) % &room;
    let mut enc = over.to_bytes_le();
    enc.resize(bytes, 0);
    for v in [Validate::Yes, Validate::No] {
        check!(ShamirPrimeFieldShare::<F>::deserialize_with_mode(&enc[..], Compress::Yes, v).is_err(), "Shamir share of 0x{over:x}, not below the modulus, decodes");
        let mut two = vec![0; bytes];
        two.extend(&enc);
        check!(Rep3PrimeFieldShare::<F>::deserialize_with_mode(&two[..], Compress::Yes, v).is_err(), "rep3 share with second half 0x{over:x} decodes");
    }
    let bad = Rep3InputType::<F>::Public(x);
    let mut b = bincode::serialize(&bad).unwrap();
    let l = b.len();
    b[l - bytes..].copy_from_slice(&enc);
    check!(bincode::deserialize::<Rep3InputType<F>>(&b).is_err(), "stored input 0x{over:x}, not below the modulus, decodes");
    Ok(())
}

fn binary_share<F: FieldUint>(s: &mut Src) -> R {
    let mut u = || F::Uint::from_limbs_truncating(&s.big(F::Uint::BITS).to_u64_digits());
    let (a, b, c, d) = (u(), u(), u(), u());
    if a != b {
        s.nontrivial();
    }
    let x = Rep3UintShare::<F>::new(a, b);
    let y = Rep3UintShare::<F>::new(c, d);
    canonical(s, "binary share", &x, &y)?;
    canonical(s, "integer", &a, &c)?;
    stored(s, "integer", &a)?;
    let n = len(s);
    let v: Vec<_> = (0..n).map(|i| if i % 2 == 0 { x } else { y }).collect();
    canonical(s, "binary shares", &v, &vec![y])
}
fn binaries(s: &mut Src) -> R {
    match s.below(4) {
        0 => binary_share::<ark_bn254::Fr>(s),
        1 => binary_share::<ark_bls12_381::Fr>(s),
        2 => binary_share::<ark_bls12_381::Fq>(s),
        _ => binary_share::<ark_bn254::Fq>(s),
    }
}

fn ring<T: IntRing2k + Serialize + DeserializeOwned>(s: &mut Src) -> R
where
    Standard: Distribution<T>,
{
    let mut r = s.rng();
    let edge = [T::zero(), T::one(), T::zero().wrapping_sub(&T::one()), T::one().wrapping_neg()];
    let mut t = || RingElement(if r.gen_bool(0.3) { edge[(r.next_u32() % 4) as usize] } else { r.r#gen::<T>() });
    let (a, b, c, d) = (t(), t(), t(), t());
    let v: Vec<_> = (0..9).map(|_| Rep3RingShare::new_ring(t(), t())).collect();
    if a != b {
        s.nontrivial();
    }
    s.note(|| format!("k={} {a:?} {b:?}", T::K));
    let x = Rep3RingShare::new_ring(a, b);
    let y = Rep3RingShare::new_ring(c, d);
    canonical(s, "ring element", &a, &b)?;
    stored(s, "ring element", &a)?;
    canonical(s, "ring share", &x, &y)?;
    stored(s, "ring share", &x)?;
    let n = s.range(0, 9);
    let v = v[..n].to_vec();
    canonical(s, "ring shares", &v, &vec![y, x])?;
    stored(s, "ring shares", &v)
}
fn rings(s: &mut Src) -> R {
    match s.below(7) {
        0 => ring::<Bit>(s),
        1 => ring::<u8>(s),
        2 => ring::<u16>(s),
        3 => ring::<u32>(s),
        4 => ring::<u64>(s),
        5 => ring::<u128>(s),
        _ => ring::<U512>(s),
    }
}

fn points<C: CurveGroup>(s: &mut Src) -> R {
    let (a, b): (C, C) = (point(s), point(s));
    if !a.is_zero() && a != b {
        s.nontrivial();
    }
    let x = ShamirPointShare::new(a);
    canonical(s, "Shamir point share", &x, &ShamirPointShare::new(b))?;
    let r = Rep3PointShare::new(a, b);
    canonical(s, "rep3 point share", &r, &Rep3PointShare::new(b, a))?;
    let n = s.range(0, 4);
    let v: Vec<_> = (0..n).map(|i| if i % 2 == 0 { x } else { ShamirPointShare::new(b) }).collect();
    canonical(s, "Shamir point shares", &v, &vec![x])?;
    let v: Vec<_> = (0..n).map(|i| if i % 2 == 1 { r } else { Rep3PointShare::new(b, a) }).collect();
    canonical(s, "rep3 point shares", &v, &vec![r])
}
fn any_points(s: &mut Src) -> R {
    any_curve!(s, points)
}

/// Points off the curve, and on it but outside the prime-order group.
fn bad_points<P: SWCurveConfig>(s: &mut Src) -> R {
    let mut r = s.rng();
    let good: Projective<P> = point(s);
    let off = s.bool();
    let mut bad = None;
    for _ in 0..200 {
        let x = <P::BaseField as ark_ff::UniformRand>::rand(&mut r);
        if off {
            let y = <P::BaseField as ark_ff::UniformRand>::rand(&mut r);
            let p = Affine::<P>::new_unchecked(x, y);
            if !p.is_on_curve() {
                bad = Some(p);
                break;
            }
        } else if let Some(p) = Affine::<P>::get_point_from_x_unchecked(x, r.next_u32() % 2 == 0) {
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                bad = Some(p);
                break;
            }
        }
    }
    let Some(bad) = bad else { return Ok(()) };
    s.nontrivial();
    let kind = if off { "off the curve" } else { "outside the group" };
    s.label(kind);
    let bad: Projective<P> = bad.into_group();
    let sh = ShamirPointShare::new(bad);
    let (first, second) = (Rep3PointShare::new(bad, good), Rep3PointShare::new(good, bad));
    // off-curve points have no compressed form
    let modes: &[Compress] = if off { &[Compress::No] } else { &[Compress::Yes, Compress::No] };
    for &c in modes {
        let enc = |x: &dyn Fn(&mut Vec<u8>)| {
            let mut v = vec![];
            x(&mut v);
            v
        };
        let e = enc(&|v| sh.serialize_with_mode(v, c).unwrap());
        check!(ShamirPointShare::<Projective<P>>::deserialize_with_mode(&e[..], c, Validate::Yes).is_err(), "Shamir share of a point {kind} decodes");
        for (i, x) in [first, second].iter().enumerate() {
            let e = enc(&|v| x.serialize_with_mode(v, c).unwrap());
            check!(Rep3PointShare::<Projective<P>>::deserialize_with_mode(&e[..], c, Validate::Yes).is_err(), "rep3 point share with half {i} {kind} decodes");
        }
        let e = enc(&|v| vec![ShamirPointShare::new(good), sh].serialize_with_mode(v, c).unwrap());
        check!(Vec::<ShamirPointShare<Projective<P>>>::deserialize_with_mode(&e[..], c, Validate::Yes).is_err(), "list with a share of a point {kind} decodes");
        let e = enc(&|v| vec![first].serialize_with_mode(v, c).unwrap());
        check!(Vec::<Rep3PointShare<Projective<P>>>::deserialize_with_mode(&e[..], c, Validate::Yes).is_err(), "list with a rep3 share of a point {kind} decodes");
    }
    Ok(())
}
fn any_bad_point(s: &mut Src) -> R {
    match s.below(6) {
        0 => bad_points::<ark_bn254::g1::Config>(s),
        1 => bad_points::<ark_bn254::g2::Config>(s),
        2 => bad_points::<ark_bls12_381::g1::Config>(s),
        3 => bad_points::<ark_bls12_381::g2::Config>(s),
        4 => bad_points::<ark_bls12_377::g2::Config>(s),
        _ => bad_points::<ark_grumpkin::GrumpkinConfig>(s),
    }
}

fn seeded_same<F: PrimeField>(a: &SeededType<Vec<F>, rep3::SeedRng>, b: &SeededType<Vec<F>, rep3::SeedRng>) -> bool {
    let kind = matches!((a, b), (SeededType::Shares(_), SeededType::Shares(_)) | (SeededType::Seed(..), SeededType::Seed(..)));
    kind && a.length() == b.length() && a.clone().expand_vec() == b.clone().expand_vec()
}
fn vec_same<F: PrimeField>(a: &Rep3ShareVecType<F>, b: &Rep3ShareVecType<F>) -> bool {
    match (a, b) {
        (Rep3ShareVecType::Replicated(a), Rep3ShareVecType::Replicated(b)) => a == b,
        (Rep3ShareVecType::Additive(a), Rep3ShareVecType::Additive(b)) => a == b,
        (Rep3ShareVecType::SeededReplicated(a), Rep3ShareVecType::SeededReplicated(b)) => seeded_same(&a.a, &b.a) && seeded_same(&a.b, &b.b),
        (Rep3ShareVecType::SeededAdditive(a), Rep3ShareVecType::SeededAdditive(b)) => seeded_same(a, b),
        _ => false,
    }
}

fn witnesses<F: PrimeField>(s: &mut Src) -> R {
    let n = if s.chance(1, 150) { s.range(200, 2500) } else if s.chance(1, 10) { s.range(20, 120) } else { s.range(1, 10) };
    let k = s.range(1, n);
    if k < n {
        s.nontrivial();
    }
    s.note(|| format!("{n} values, {k} public"));
    let mut values: Vec<F> = (0..n).map(|_| felt(s)).collect();
    values[0] = F::one();
    let mut r = s.rng();
    let sh = Rep3SharedWitness::<F>::share_rep3(Witness { values: values.clone() }, k, &mut r);
    stored(s, "rep3 witness", &sh[s_party(k, n)])?;
    for c in [Compression::None, Compression::HalfShares, Compression::SeededShares, Compression::SeededHalfShares] {
        stored(s, "kind of compression", &c)?;
        let sh = CompressedRep3SharedWitness::<F>::share_rep3(Witness { values: values.clone() }, k, &mut r, c);
        for (i, w) in sh.iter().enumerate() {
            stored_by(s, &format!("{c:?} witness of party {i}"), w, |a, b| a.public_inputs == b.public_inputs && vec_same(&a.witness, &b.witness))?;
        }
    }
    let [t, parties] = *s.pick(&[[1, 3], [1, 4], [2, 5]]);
    for w in ShamirSharedWitness::<F>::share_shamir(Witness { values: values.clone() }, k, t, parties, &mut r) {
        stored(s, "Shamir witness", &w)?;
    }
    // batches: every signal holds one value per instance
    let b = s.range(1, 4);
    let batched = BatchedWitness::<F, Rep3PrimeFieldShare<F>> {
        public_inputs: (0..k).map(|_| (0..b).map(|_| F::rand(&mut r)).collect()).collect(),
        witness: (k..n).map(|_| (0..b).map(|_| Rep3PrimeFieldShare::new(F::rand(&mut r), F::rand(&mut r))).collect()).collect(),
    };
    stored(s, "batched witness", &batched)?;
    // a witness with a value not below the modulus is refused
    let w = SharedWitness::<F, F> { public_inputs: vec![], witness: vec![F::one()] };
    let mut enc = bincode::serialize(&w).unwrap();
    let mut m = F::MODULUS.to_bytes_le();
    let size = F::one().compressed_size();
    m.resize(size, 0);
    let l = enc.len();
    enc[l - size..].copy_from_slice(&m);
    check!(bincode::deserialize::<SharedWitness<F, F>>(&enc).is_err(), "witness holding the modulus itself decodes");
    Ok(())
}
fn s_party(k: usize, n: usize) -> usize {
    (k + n) % 3
}
fn any_witness(s: &mut Src) -> R {
    any_field!(s, witnesses)
}

fn inputs<F: PrimeField>(s: &mut Src) -> R {
    let n = if s.chance(1, 200) { s.range(50, 600) } else { s.range(0, 6) };
    let mut rep3 = Rep3SharedInput::<F>::new();
    let mut shamir = ShamirSharedInput::<F>::new();
    let mut batched = BatchedRep3SharedInput::<F>::new();
    if n > 1 {
        s.nontrivial();
    }
    for i in 0..n {
        let name = match s.below(4) {
            0 => format!("in[{i}]"),
            1 => format!("a.b[{i}][{}]", s.below(9)),
            2 => format!("\"ä\\\n{i}"),
            _ => format!("{i}"),
        };
        let r = if s.bool() { Rep3InputType::Public(felt(s)) } else { Rep3InputType::Shared(Rep3PrimeFieldShare::new(felt(s), felt(s))) };
        let h = if s.bool() { ShamirInputType::Public(felt(s)) } else { ShamirInputType::Shared(ShamirPrimeFieldShare::new(felt(s))) };
        stored(s, "rep3 input", &r)?;
        stored(s, "Shamir input", &h)?;
        rep3.insert(name.clone(), r);
        shamir.insert(name.clone(), h);
        batched.insert(name, (0..s.below(4)).map(|_| r).collect());
    }
    stored::<BTreeMap<_, _>>(s, "rep3 inputs", &rep3)?;
    stored::<BTreeMap<_, _>>(s, "Shamir inputs", &shamir)?;
    stored::<BTreeMap<_, _>>(s, "batched inputs", &batched)
}
fn any_input(s: &mut Src) -> R {
    any_field!(s, inputs)
}
fn any_share(s: &mut Src) -> R {
    any_field!(s, fields)
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C07",
        rule: "the encoded value is not trivial: distinct non-zero halves, a witness with a private part, more than one named input, or an invalid point that exists",
        assumptions: "fields and curves of the ark ecosystem plus two small fields; formats: ark canonical (both modes), bincode and JSON through serde",
        subs: vec![
            Sub::new("field_shares", 20_000, 1_000_000, any_share),
            Sub::new("binary_shares", 20_000, 1_000_000, binaries),
            Sub::new("ring_shares", 20_000, 1_000_000, rings),
            Sub::new("point_shares", 1_500, 60_000, any_points),
            Sub::new("invalid_points", 1_500, 60_000, any_bad_point),
            Sub::new("witnesses", 4_000, 200_000, any_witness),
            Sub::new("inputs", 5_000, 300_000, any_input),
        ],
    }]
}
