//! R05: garbled-circuit gadgets and the protocols made of them, against integer functions.
use crate::conv::*;
use crate::kit::*;
use ark_ff::PrimeField;
use engine::*;
use fancy_garbling::{BinaryBundle, WireMod2};
use mpc_core::protocols::rep3::yao as y;
use mpc_core::protocols::rep3::yao::circuits::{GarbledCircuits, SHA256Table};
use mpc_core::protocols::rep3::yao::evaluator::Rep3Evaluator;
use mpc_core::protocols::rep3::yao::garbler::Rep3Garbler;
use mpc_core::protocols::rep3::yao::streaming_evaluator::StreamingRep3Evaluator;
use mpc_core::protocols::rep3::yao::streaming_garbler::StreamingRep3Garbler;
use mpc_core::protocols::rep3_ring::ring::int_ring::IntRing2k;
use mpc_core::protocols::rep3_ring::yao as ry;
use mpc_core::uint::{FieldUint, U512};
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use rand::distributions::{Distribution, Standard};
use vkit::*;

type Fr = ark_bn254::Fr;
type Fq = ark_bn254::Fq;

macro_rules! yao_field {
    ($src:expr, $f:ident) => {
        match $src.below(8) {
            0 | 1 | 2 => $f::<ark_bn254::Fr>($src),
            3 => $f::<ark_bls12_381::Fr>($src),
            4 => $f::<ark_bn254::Fq>($src),
            5 => $f::<ark_bls12_377::Fr>($src),
            6 => $f::<ark_bls12_381::Fq>($src),
            _ => $f::<ark_bn254::Fr>($src),
        }
    };
}

fn ff<F: PrimeField>(v: &BigUint) -> F {
    F::from(v.clone())
}
/// A vector of results, every one consistent, equal to `want` as integers.
fn same<F: FieldUint>(what: &str, o: &[Vec<Fs<F>>; 3], want: &[BigUint]) -> R {
    for (k, t) in triples(what, o, want.len())?.into_iter().enumerate() {
        check_eq!(to_big(fval(what, t)?), want[k], "{what}: output {k}");
    }
    Ok(())
}
fn rsame<T: IntRing2k>(what: &str, o: &[Vec<Rs<T>>; 3], want: &[BigUint]) -> R {
    for (k, t) in triples(what, o, want.len())?.into_iter().enumerate() {
        check_eq!(rval(what, t)?, want[k], "{what}: output {k}");
    }
    Ok(())
}
fn chunks_of(v: &BigUint, total: usize, each: usize) -> Vec<BigUint> {
    let mut out = vec![];
    let mut at = 0;
    while at < total {
        let w = each.min(total - at);
        out.push((v >> at) & mask(w));
        at += w;
    }
    out
}
fn amount(s: &mut Src, many: bool) -> usize {
    if many { 1 + s.weighted(&[3, 3, 2, 1]) } else { 1 }
}
fn shares<F: FieldUint>(s: &mut Src, v: &[BigUint]) -> [Vec<Fs<F>>; 3] {
    let t: Vec<[Fs<F>; 3]> = v.iter().map(|v| fshare(s, ff::<F>(v))).collect();
    parties(&t)
}
/// A field value: any, near the modulus, or one of at most `bits` bits.
fn fbig<F: PrimeField>(s: &mut Src) -> BigUint {
    match s.weighted(&[4, 3]) {
        0 => to_big(felt::<F>(s)),
        _ => {
            let b = s.range(0, bits_of::<F>());
            s.big(b) % fmod::<F>()
        }
    }
}

// ---- field values: bits, chunks, slices ----

fn decompose<F: FieldUint>(s: &mut Src) -> R {
    let many = s.bool();
    let n = amount(s, many);
    let total = match s.weighted(&[2, 2, 1]) {
        0 => s.range(1, bits_of::<F>()),
        1 => *s.pick(&[1, 8, 32, 63, 64, 65, 128, 253]),
        _ => bits_of::<F>(),
    };
    let each = match s.weighted(&[3, 1, 1]) {
        0 => s.range(total.div_ceil(20), total),
        1 => total,
        _ => s.range(total.div_ceil(64), total),
    };
    let v = s_vec(s, n, fbig::<F>);
    let x = shares::<F>(s, &v);
    let set = Setup::draw(s);
    let what = format!("decompose {v:?} of {} bits: {total} bits by {each} (many {many})", bits_of::<F>());
    s.note(|| what.clone());
    if total % each != 0 {
        s.label("uneven");
    }
    s.nontrivial();
    let want: Vec<BigUint> = v.iter().flat_map(|v| chunks_of(&(v & mask(total)), total, each)).collect();
    let o = run3(&what, set, x, |nets, st, x| {
        if many {
            y::decompose_arithmetic_many(&x, &nets[0], st, total, each)
        } else {
            y::decompose_arithmetic(x[0], &nets[0], st, total, each)
        }
    })?;
    same(&what, &o, &want)
}
fn decompose_any(s: &mut Src) -> R {
    yao_field!(s, decompose)
}

fn decompose_other_in<F: FieldUint, K: FieldUint>(s: &mut Src) -> R {
    let many = s.bool();
    let n = amount(s, many);
    let total = s.range(1, bits_of::<F>());
    let each = s.range(total.div_ceil(16), total);
    let v = s_vec(s, n, fbig::<F>);
    let x = shares::<F>(s, &v);
    let set = Setup::draw(s);
    let what = format!("decompose {v:?} to the other field: {total} bits by {each} (many {many})");
    s.note(|| what.clone());
    s.nontrivial();
    // a chunk as wide as the field may exceed the other modulus
    let want: Vec<BigUint> = v
        .iter()
        .flat_map(|v| chunks_of(&(v & mask(total)), total, each))
        .map(|c| c % fmod::<K>())
        .collect();
    if want.iter().zip(v.iter().flat_map(|v| chunks_of(&(v & mask(total)), total, each))).any(|(a, b)| *a != b) {
        return Ok(());
    }
    let o = run3(&what, set, x, |nets, st, x| {
        if many {
            y::decompose_arithmetic_to_other_field_many::<F, K, _>(&x, &nets[0], st, total, each)
        } else {
            y::decompose_arithmetic_to_other_field::<F, K, _>(x[0], &nets[0], st, total, each)
        }
    })?;
    same(&what, &o, &want)
}
fn decompose_other(s: &mut Src) -> R {
    if s.bool() { decompose_other_in::<Fr, Fq>(s) } else { decompose_other_in::<Fq, Fr>(s) }
}

fn slice<F: FieldUint>(s: &mut Src) -> R {
    let many = s.bool();
    let n = amount(s, many);
    let nb = bits_of::<F>();
    let bits = if s.chance(1, 3) { nb } else { s.range(2, nb) };
    let mid = s.range(0, bits - 1);
    let lo = s.range(0, mid);
    let v = s_vec(s, n, fbig::<F>);
    let x = shares::<F>(s, &v);
    let set = Setup::draw(s);
    let what = format!("slice {v:?} at {lo}, {mid} of {bits} bits (many {many})");
    s.note(|| what.clone());
    s.nontrivial();
    let o = run3(&what, set, x, |nets, st, x| {
        if many {
            y::slice_arithmetic_many(&x, &nets[0], st, lo, mid, bits)
        } else {
            y::slice_arithmetic(x[0], &nets[0], st, lo, mid, bits)
        }
    })?;
    let want: Vec<BigUint> = v
        .iter()
        .flat_map(|v| {
            let v = v & mask(bits);
            slices(&v, lo, mid)
        })
        .collect();
    same(&what, &o, &want)
}
fn slices(v: &BigUint, lo: usize, mid: usize) -> Vec<BigUint> {
    vec![(v & mask(mid)) >> lo, v >> mid]
}
fn slice_any(s: &mut Src) -> R {
    yao_field!(s, slice)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Pow2 {
    Mod,
    Div,
    DivMany,
}
fn pow2<F: FieldUint>(s: &mut Src) -> R {
    let how = *s.pick(&[Pow2::Mod, Pow2::Div, Pow2::DivMany]);
    let n = amount(s, how == Pow2::DivMany);
    let nb = bits_of::<F>();
    let k = match (how, s.weighted(&[4, 1, 1])) {
        (Pow2::Mod, 0) => s.range(0, nb),
        (Pow2::Mod, _) => *s.pick(&[0, 1, 64, nb - 1, nb]),
        (_, 0) => s.range(0, nb + 5),
        (_, 1) => *s.pick(&[0, 1, nb - 1, nb, nb + 1]),
        (_, _) => *s.pick(&[1, 63, 64, 65, 128]),
    };
    let v = s_vec(s, n, fbig::<F>);
    let x = shares::<F>(s, &v);
    let set = Setup::draw(s);
    let what = format!("{how:?} of {v:?} by 2^{k}");
    s.note(|| what.clone());
    s.label(match how {
        Pow2::Mod => "mod_power_2",
        Pow2::Div => "div_power_2",
        Pow2::DivMany => "div_power_2_many",
    });
    s.nontrivial();
    let want: Vec<BigUint> = v.iter().map(|v| if how == Pow2::Mod { v & mask(k) } else { v >> k }).collect();
    let o = run3(&what, set, x, |nets, st, x| {
        Ok(match how {
            Pow2::Mod => vec![y::field_mod_power_2(x[0], &nets[0], st, k)?],
            Pow2::Div => vec![y::field_int_div_power_2(x[0], &nets[0], st, k)?],
            Pow2::DivMany => y::field_int_div_power_2_many(&x, &nets[0], st, k)?,
        })
    })?;
    same(&what, &o, &want)
}
fn pow2_any(s: &mut Src) -> R {
    yao_field!(s, pow2)
}

// ---- integer division ----

#[derive(Clone, Copy, Debug, PartialEq)]
enum Div {
    Both,
    Public,
    Shared,
}
const DIVS: [Div; 3] = [Div::Both, Div::Public, Div::Shared];
/// Dividend and nonzero divisor with every relation of their sizes.
fn operands(s: &mut Src, bits: usize, top: &BigUint) -> (BigUint, BigUint) {
    let b = s.range(1, bits);
    let mut y = match s.weighted(&[4, 1, 1, 1]) {
        0 => s.big(b),
        1 => BigUint::one(),
        2 => BigUint::one() << (b - 1),
        _ => top - 1u8,
    } % top;
    if y.is_zero() {
        y = BigUint::one();
    }
    let x = match s.weighted(&[4, 2, 1, 1]) {
        0 => s.big(bits),
        1 => {
            // a multiple, or next to one
            let q = s.big(bits - (y.bits() as usize).min(bits) + 1);
            match s.below(3) {
                0 => &y * q,
                1 => &y * q + (&y - 1u8),
                _ => {
                    let m = &y * q;
                    if m.is_zero() { m } else { m - 1u8 }
                }
            }
        }
        2 => y.clone(),
        _ => top - 1u8,
    } % top;
    (x, y)
}
fn int_div<F: FieldUint>(s: &mut Src) -> R {
    let how = *s.pick(&DIVS);
    let many = s.chance(1, 3);
    let n = if many { s.range(1, 2) } else { 1 };
    let xy: Vec<_> = (0..n).map(|_| operands(s, bits_of::<F>(), &fmod::<F>())).collect();
    let (v, d): (Vec<BigUint>, Vec<BigUint>) = xy.into_iter().unzip();
    let x = shares::<F>(s, &v);
    let dd = shares::<F>(s, &d);
    let set = Setup::draw(s);
    let what = format!("{how:?} division of {v:?} by {d:?} ({} bits, many {many})", bits_of::<F>());
    s.note(|| what.clone());
    s.label(match how {
        Div::Both => "shared_by_shared",
        Div::Public => "shared_by_public",
        Div::Shared => "public_by_shared",
    });
    s.nontrivial();
    let want: Vec<BigUint> = v.iter().zip(&d).map(|(a, b)| a / b).collect();
    let (pv, pd): (Vec<F>, Vec<F>) = (v.iter().map(ff).collect(), d.iter().map(ff).collect());
    let args = zip3(x, dd);
    let o = run3(&what, set, args, |nets, st, (x, d)| {
        let net = &nets[0];
        Ok(match (how, many) {
            (Div::Both, true) => y::field_int_div_many(&x, &d, net, st)?,
            (Div::Both, false) => vec![y::field_int_div(x[0], d[0], net, st)?],
            (Div::Public, true) => y::field_int_div_by_public_many(&x, &pd, net, st)?,
            (Div::Public, false) => vec![y::field_int_div_by_public(x[0], pd[0], net, st)?],
            (Div::Shared, true) => y::field_int_div_by_shared_many(&pv, &d, net, st)?,
            (Div::Shared, false) => vec![y::field_int_div_by_shared(pv[0], d[0], net, st)?],
        })
    })?;
    same(&what, &o, &want)
}
pub fn zip3<A, B>(a: [A; 3], b: [B; 3]) -> [(A, B); 3] {
    let mut b = b.into_iter();
    a.map(|a| (a, b.next().unwrap()))
}
fn int_div_any(s: &mut Src) -> R {
    if s.chance(1, 5) { int_div::<ark_bls12_381::Fr>(s) } else { int_div::<Fr>(s) }
}

// ---- slices with bit operations ----

#[derive(Clone, Copy, Debug, PartialEq)]
enum Bitop {
    Xor,
    And,
    Filter,
}
fn bitops(s: &mut Src) -> R {
    type F = Fr;
    let op = *s.pick(&[Bitop::Xor, Bitop::And, Bitop::Filter]);
    let many = s.bool();
    let n = amount(s, many);
    let set = Setup::draw(s);
    s.nontrivial();
    if op == Bitop::Filter {
        // every slice of the same width: the width of the results is that of the first
        let w = s.range(1, 32);
        let k = s.range(1, (250 / w).min(5));
        let rot: Vec<usize> = s_vec(s, k, |s| if s.chance(1, 3) { 0 } else { s.range(0, 31) });
        let filter: Vec<bool> = s_vec(s, k, |s| s.chance(1, 3));
        let base: Vec<u64> = vec![1 << w; k];
        let v = s_vec(s, n, |s| s.big(w * k));
        let u = s_vec(s, n, |s| s.big(w * k));
        let what = format!("xor with filter {v:?} {u:?}, {k} slices of {w} bits, rotations {rot:?}, filter {filter:?}");
        s.note(|| what.clone());
        s.label("filter");
        let mut want = vec![];
        for (a, b) in v.iter().zip(&u) {
            let (ca, cb) = (chunks_of(a, w * k, w), chunks_of(b, w * k, w));
            want.extend(ca.iter().cloned());
            want.extend(cb.iter().cloned());
            for i in 0..k {
                let (mut p, mut q) = (ca[i].clone(), cb[i].clone());
                if filter[i] {
                    p &= BigUint::from(3u8);
                    q &= BigUint::from(3u8);
                }
                let x = (p ^ q).to_u32().unwrap();
                want.push(BigUint::from(x.rotate_right(rot[i] as u32)));
            }
        }
        let args = zip3(shares::<F>(s, &v), shares::<F>(s, &u));
        let o = run3(&what, set, args, |nets, st, (x, z)| {
            if many {
                y::slice_xor_with_filter_many(&x, &z, &nets[0], st, &base, &rot, &filter)
            } else {
                y::slice_xor_with_filter(x[0], z[0], &nets[0], st, &base, &rot, &filter)
            }
        })?;
        return same(&what, &o, &want);
    }
    let w = s.range(1, 64);
    let total = s.range(w, (w * 8).min(253));
    let rot = if s.chance(1, 3) { 0 } else { s.range(0, 63) };
    let v = s_vec(s, n, |s| s.big(total));
    let u = s_vec(s, n, |s| s.big(total));
    let what = format!("{op:?} of slices of {v:?} {u:?}: {total} bits by {w}, rotation {rot} (many {many})");
    s.note(|| what.clone());
    s.label(if op == Bitop::Xor { "xor" } else { "and" });
    let mut want = vec![];
    for (a, b) in v.iter().zip(&u) {
        let (ca, cb) = (chunks_of(a, total, w), chunks_of(b, total, w));
        want.extend(ca.iter().cloned());
        want.extend(cb.iter().cloned());
        for (p, q) in ca.iter().zip(&cb) {
            let r = if op == Bitop::Xor { p ^ q } else { p & q };
            want.push(BigUint::from(r.to_u64().unwrap().rotate_right(rot as u32)));
        }
    }
    let args = zip3(shares::<F>(s, &v), shares::<F>(s, &u));
    let o = run3(&what, set, args, |nets, st, (x, z)| {
        let net = &nets[0];
        match (op, many) {
            (Bitop::Xor, true) => y::slice_xor_many(&x, &z, net, st, w, rot, total),
            (Bitop::Xor, false) => y::slice_xor(x[0], z[0], net, st, w, rot, total),
            (_, true) => y::slice_and_many(&x, &z, net, st, w, rot, total),
            (_, false) => y::slice_and(x[0], z[0], net, st, w, rot, total),
        }
    })?;
    same(&what, &o, &want)
}

// ---- sparse forms ----

fn digits(v: &BigUint, base: u64, n: usize) -> Vec<u64> {
    let mut v = v.clone();
    (0..n)
        .map(|_| {
            let d = (&v % base).to_u64().unwrap();
            v /= base;
            d
        })
        .collect()
}
/// A value below the product of the bases whose parts are often extreme.
fn mixed(s: &mut Src, bases: &[u64]) -> (BigUint, Vec<BigUint>) {
    let parts: Vec<BigUint> = bases
        .iter()
        .map(|b| match s.weighted(&[4, 1, 1]) {
            0 => BigUint::from(s.below(*b)),
            1 => BigUint::from(b - 1),
            _ => BigUint::zero(),
        })
        .collect();
    let mut v = BigUint::zero();
    for (p, b) in parts.iter().zip(bases).rev() {
        v = v * b + p;
    }
    (v, parts)
}
const CHOOSE: [u64; 28] = [0, 0, 0, 1, 0, 1, 1, 1, 1, 1, 2, 1, 2, 2, 0, 0, 0, 1, 0, 1, 1, 1, 1, 1, 2, 1, 2, 2];
const MAJORITY: [u64; 16] = [0, 0, 1, 1, 1, 1, 2, 2, 0, 0, 1, 1, 1, 1, 2, 2];
const WITNESS: [u64; 16] = [0, 1, 0, 1, 1, 2, 1, 2, 0, 1, 0, 1, 1, 2, 1, 2];

fn sparse_rotation(s: &mut Src) -> R {
    type F = Fr;
    let many = s.bool();
    let n = amount(s, many).min(2);
    let k = s.range(1, 4);
    let widths: Vec<usize> = s_vec(s, k, |s| s.range(1, 32));
    let total: usize = widths.iter().sum();
    let bases: Vec<u64> = widths.iter().map(|w| 1 << w).collect();
    let rot: Vec<u32> = s_vec(s, k, |s| if s.chance(1, 3) { 0 } else { s.below(32) as u32 });
    let set = Setup::draw(s);
    let vs: Vec<_> = (0..n).map(|_| mixed(s, &bases)).collect();
    let us: Vec<_> = (0..n).map(|_| mixed(s, &bases)).collect();
    let what = format!("sparse table with rotation {rot:?}, widths {widths:?}, of {vs:?} {us:?}");
    s.note(|| what.clone());
    s.nontrivial();
    let bits = |v: u32| (0..32).map(move |i| BigUint::from((v >> i) & 1));
    let mut want = vec![];
    for ((_, a), (_, b)) in vs.iter().zip(&us) {
        want.extend(a.iter().cloned());
        want.extend(b.iter().cloned());
        for i in 0..k {
            let x = a[i].to_u32().unwrap();
            want.extend(bits(x));
            want.extend(bits(x.rotate_right(rot[i])));
        }
    }
    let v: Vec<BigUint> = vs.into_iter().map(|v| v.0).collect();
    let u: Vec<BigUint> = us.into_iter().map(|v| v.0).collect();
    let args = zip3(shares::<F>(s, &v), shares::<F>(s, &u));
    let o = run3(&what, set, args, |nets, st, (x, z)| {
        if many {
            y::get_sparse_table_with_rotation_values_many(&x, &z, &nets[0], st, &bases, &rot, total)
        } else {
            y::get_sparse_table_with_rotation_values(x[0], z[0], &nets[0], st, &bases, &rot, total)
        }
    })?;
    same(&what, &o, &want)
}

fn sparse_normal(s: &mut Src) -> R {
    type F = Fr;
    let which = s.below(3);
    let (base, per, k, table, ty): (u64, u32, usize, &[u64], _) = match which {
        0 => (28, 2, 16, &CHOOSE, SHA256Table::Choose),
        1 => (16, 3, 11, &MAJORITY, SHA256Table::Majority),
        _ => (16, 3, 11, &WITNESS, SHA256Table::WitnessExtension),
    };
    s.label(["choose", "majority", "witness_extension"][which as usize]);
    let bases = vec![base.pow(per); k];
    let set = Setup::draw(s);
    let draw = |s: &mut Src| match s.weighted(&[3, 2]) {
        0 => s.big(128),
        _ => mixed(s, &bases).0 & mask(128),
    };
    let (v, u) = (draw(s), draw(s));
    let what = format!("sparse normalization table {which} of {v} {u}");
    s.note(|| what.clone());
    s.nontrivial();
    let part = |v: &BigUint| digits(v, bases[0], k);
    let mut want: Vec<BigUint> = part(&v).into_iter().chain(part(&u)).map(BigUint::from).collect();
    for p in part(&v) {
        let mut acc = 0u64;
        for (i, d) in digits(&BigUint::from(p), base, per as usize).into_iter().enumerate() {
            acc += table[d as usize] << i;
        }
        want.push(BigUint::from(acc));
    }
    let many = s.bool();
    let args = zip3(shares::<F>(s, &[v]), shares::<F>(s, &[u]));
    let o = run3(&what, set, args, |nets, st, (x, z)| {
        if many {
            y::get_sparse_normalization_values_many(&x, &z, &nets[0], st, &bases, base, 128, &ty)
        } else {
            y::get_sparse_normalization_values(x[0], z[0], &nets[0], st, &bases, base, 128, &ty)
        }
    })?;
    same(&what, &o, &want)
}

/// AES sparse forms (base 9): slices, then the lowest bit of every digit.
fn sparse_aes(s: &mut Src) -> R {
    type F = Fr;
    let sbox = s.bool();
    let (bases, total) = if sbox { (vec![9u64.pow(8)], 64) } else { (vec![9u64.pow(4); 2], 64) };
    let set = Setup::draw(s);
    let draw = |s: &mut Src| match s.weighted(&[2, 2]) {
        0 if !sbox => s.big(25),
        _ => mixed(s, &bases).0,
    };
    let (v, u) = (draw(s), draw(s));
    let what = format!("AES sparse forms (sbox {sbox}) of {v} {u}");
    s.note(|| what.clone());
    s.label(if sbox { "sbox" } else { "normal" });
    s.nontrivial();
    let part = |v: &BigUint| -> Vec<u64> {
        let mut v = v.clone();
        bases
            .iter()
            .map(|b| {
                let d = (&v % *b).to_u64().unwrap();
                v /= *b;
                d
            })
            .collect()
    };
    let mut want: Vec<BigUint> = part(&v).into_iter().chain(part(&u)).map(BigUint::from).collect();
    for p in part(&v) {
        let ds: Vec<u64> = digits(&BigUint::from(p), 9, 8).into_iter().map(|d| d & 1).collect();
        if sbox {
            want.push(BigUint::from(ds.iter().enumerate().map(|(i, b)| b << i).sum::<u64>()));
        } else {
            want.extend(ds.into_iter().map(BigUint::from));
        }
    }
    let many = s.bool();
    let args = zip3(shares::<F>(s, &[v]), shares::<F>(s, &[u]));
    let o = run3(&what, set, args, |nets, st, (x, z)| {
        let net = &nets[0];
        match (sbox, many) {
            (true, true) => y::slice_and_map_from_sparse_form_many_sbox(&x, &z, net, st, &bases, 9, total),
            (true, false) => y::slice_and_map_from_sparse_form_sbox(x[0], z[0], net, st, &bases, 9, total),
            (false, true) => y::slice_and_map_from_sparse_form_many(&x, &z, net, st, &bases, 9, total),
            (false, false) => y::slice_and_map_from_sparse_form(x[0], z[0], net, st, &bases, 9, total),
        }
    })?;
    same(&what, &o, &want)
}
fn sparse_bytes(s: &mut Src) -> R {
    type F = Fr;
    let n = s.range(1, 4);
    let v: Vec<BigUint> = s_vec(s, n, |s| if s.bool() { s.big(64) } else { mixed(s, &[9u64.pow(8)]).0 });
    let set = Setup::draw(s);
    let what = format!("accumulate from sparse bytes {v:?}");
    s.note(|| what.clone());
    s.nontrivial();
    let mut acc = BigUint::zero();
    for v in &v {
        let byte: u64 = digits(v, 9, 8).into_iter().enumerate().map(|(i, d)| (d & 1) << i).sum();
        acc = (acc << 8) + byte;
    }
    let x = shares::<F>(s, &v);
    let o = run3(&what, set, x, |nets, st, x| y::accumulate_from_sparse_bytes(&x, &nets[0], st, 64, 8, 9))?;
    same(&what, &o, &[acc])
}

// ---- wNAF ----

fn wnaf_want(x: &BigUint) -> Vec<BigUint> {
    // odd signed digits in -15..=15, most significant first
    let mut d = [0i64; 32];
    let mut even = false;
    for i in 0..32 {
        let part: BigUint = (x >> (4 * i)) & mask(4);
        let raw = part.to_i64().unwrap();
        d[i] = raw;
        if raw % 2 == 0 {
            d[i] += 1;
            if i == 0 {
                even = true;
            } else {
                d[i - 1] -= 16;
            }
        }
    }
    d.reverse();
    let big = |v: i64| BigUint::from(u64::try_from(v).expect("not negative"));
    let mut out = vec![big(even as i64)];
    for row in d.chunks(4) {
        for v in row {
            out.push(big((v + 15) / 2));
            out.push(big((*v > 0) as i64));
        }
        for v in row {
            let b = (v + 15) / 2;
            out.push(big(b >> 2));
            out.push(big(b & 3));
        }
        let c = row[3] + (row[2] << 4) + (row[1] << 8) + (row[0] << 12);
        out.push(big(c.abs()));
        out.push(big((c < 0) as i64));
    }
    out
}
fn wnaf(s: &mut Src) -> R {
    type F = Fr;
    let n = s.range(1, 2);
    let v = s_vec(s, n, |s| match s.weighted(&[3, 2, 1]) {
        0 => s.big(128),
        1 => {
            // digits from the edges
            let mut v = BigUint::zero();
            for _ in 0..32 {
                v = (v << 4) + *s.pick(&[0u8, 1, 14, 15, 0, 8, 7]);
            }
            v
        }
        _ => {
            let b = s.range(0, 128);
            s.big(b)
        }
    });
    let set = Setup::draw(s);
    let what = format!("wnaf digits and rows of {v:?}");
    s.note(|| what.clone());
    s.nontrivial();
    let want: Vec<BigUint> = v.iter().flat_map(wnaf_want).collect();
    let x = shares::<F>(s, &v);
    let o = run3(&what, set, x, |nets, st, x| y::compute_wnaf_digits_and_compute_rows_many(&x, &nets[0], st, 128))?;
    same(&what, &o, &want)
}

// ---- hashes and ciphers ----

fn bytes_shares<F: FieldUint>(s: &mut Src, v: &[u8]) -> [Vec<Fs<F>>; 3] {
    let v: Vec<BigUint> = v.iter().map(|b| BigUint::from(*b)).collect();
    shares::<F>(s, &v)
}
fn from_bytes(b: &[u8]) -> Vec<BigUint> {
    b.iter().map(|b| BigUint::from(*b)).collect()
}
fn sha256(s: &mut Src) -> R {
    type F = Fr;
    let word = |s: &mut Src| match s.weighted(&[4, 1, 1]) {
        0 => s.big(32).to_u32().unwrap(),
        1 => u32::MAX,
        _ => 0,
    };
    let st0: Vec<u32> = s_vec(s, 8, word);
    let msg: Vec<u32> = s_vec(s, 16, word);
    let set = Setup::draw(s);
    let what = format!("sha256 compression of {msg:x?} from {st0:x?}");
    s.note(|| what.clone());
    s.nontrivial();
    let mut st: [u32; 8] = st0.clone().try_into().unwrap();
    let block: Vec<u8> = msg.iter().flat_map(|w| w.to_be_bytes()).collect();
    let block: [u8; 64] = block.try_into().unwrap();
    sha2::compress256(&mut st, &[block.into()]);
    let want: Vec<BigUint> = st.iter().map(|w| BigUint::from(*w)).collect();
    let b = |v: &[u32]| v.iter().map(|w| BigUint::from(*w)).collect::<Vec<_>>();
    let args = zip3(shares::<F>(s, &b(&st0)), shares::<F>(s, &b(&msg)));
    let o = run3(&what, set, args, |nets, r, (x, m)| {
        let x: [Fs<F>; 8] = x.try_into().unwrap();
        let m: [Fs<F>; 16] = m.try_into().unwrap();
        y::sha256_from_bristol(&x, &m, &nets[0], r)
    })?;
    same(&what, &o, &want)
}
fn aes(s: &mut Src) -> R {
    type F = Fr;
    let n = match s.weighted(&[2, 2]) {
        0 => *s.pick(&[1, 15, 16, 17, 31, 32]),
        _ => s.range(1, 48),
    };
    let (pt, key, iv) = (s.bytes(n), s.bytes(16), s.bytes(16));
    let set = Setup::draw(s);
    let what = format!("aes of {} bytes {pt:x?} key {key:x?} iv {iv:x?}", n);
    s.note(|| what.clone());
    s.nontrivial();
    let k: [u8; 16] = key.clone().try_into().unwrap();
    let want = from_bytes(&libaes::Cipher::new_128(&k).cbc_encrypt(&iv, &pt));
    let args = zip3(zip3(bytes_shares::<F>(s, &pt), bytes_shares::<F>(s, &key)), bytes_shares::<F>(s, &iv));
    let o = run3(&what, set, args, |nets, st, ((p, k), v)| y::aes_from_bristol(&p, &k, &v, &nets[0], st))?;
    same(&what, &o, &want)
}
fn blake(s: &mut Src) -> R {
    type F = Fr;
    use blake2::Digest;
    let three = s.bool();
    let n = match s.weighted(&[12, 8, 4, 1]) {
        0 => *s.pick(&[1, 63, 64, 65, 128, 2, 55, 127, 129]),
        1 => s.range(1, 64),
        2 => s.range(65, 200),
        _ => *s.pick(&[1023, 1024, 1025, 2048, 2049, 3073]),
    };
    let bits = if s.chance(1, 4) { s.range(1, 8) } else { 8 };
    let v: Vec<u8> = s.bytes(n);
    let set = Setup::draw(s);
    let what = format!("{} of {n} bytes {v:x?} ({bits} bits each)", if three { "blake3" } else { "blake2s" });
    s.note(|| what.clone());
    s.label(if three { "blake3" } else { "blake2s" });
    s.nontrivial();
    let want: [u8; 32] = if three { blake3::hash(&v).into() } else { blake2::Blake2s256::digest(&v).into() };
    let x = bytes_shares::<F>(s, &v);
    let o = run3(&what, set, x, |nets, st, x| {
        if three { y::blake3(&x, &nets[0], st, bits) } else { y::blake2s(&x, &nets[0], st, bits) }
    })?;
    same(&what, &o, &from_bytes(&want))
}

// ---- single circuits, buffered and streaming ----

#[derive(Clone, Copy, Debug, PartialEq)]
enum Gate {
    AddP,
    AddPMany,
    Add2k,
    Sub,
    ModRed,
    Slicing,
}
type Pair = (BinaryBundle<WireMod2>, BinaryBundle<WireMod2>);
fn run_gate<F: FieldUint, G>(g: &mut G, gate: Gate, (a, b): &Pair, base: u64, k: usize) -> eyre::Result<Vec<WireMod2>>
where
    G: fancy_garbling::FancyBinary<Item = WireMod2> + mpc_core::protocols::rep3::yao::circuits::FancyBinaryConstant,
    G::Error: std::fmt::Debug,
{
    let e = |e: G::Error| eyre::eyre!("{e:?}");
    Ok(match gate {
        Gate::AddP => GarbledCircuits::adder_mod_p::<_, F>(g, a, b).map_err(e)?.wires().to_vec(),
        Gate::AddPMany => {
            let r = GarbledCircuits::adder_mod_p_many::<_, F>(g, a, b).map_err(e)?;
            r.iter().flat_map(|b| b.wires().to_vec()).collect()
        }
        Gate::Add2k => GarbledCircuits::adder_mod_2k(g, a, b).map_err(e)?.wires().to_vec(),
        Gate::Sub => {
            let (mut r, c) = GarbledCircuits::bin_subtraction(g, a.wires(), b.wires()).map_err(e)?;
            r.push(c);
            r
        }
        Gate::ModRed => {
            GarbledCircuits::bin_modulo_reduction(g, a.wires(), base).map_err(e)?.0
        }
        Gate::Slicing => GarbledCircuits::bin_slicing_using_arbitrary_base(g, a.wires(), base, k)
            .map_err(e)?
            .into_iter()
            .flatten()
            .collect(),
    })
}
fn gates<F: FieldUint>(s: &mut Src) -> R {
    let gate = *s.pick(&[Gate::AddP, Gate::AddPMany, Gate::Add2k, Gate::Sub, Gate::ModRed, Gate::Slicing]);
    let nb = bits_of::<F>();
    let m = fmod::<F>();
    let (mut base, mut k, mut n) = (2, 1, 1);
    let (a, b, len): (Vec<BigUint>, Vec<BigUint>, usize) = match gate {
        Gate::AddP | Gate::AddPMany => {
            n = if gate == Gate::AddP { 1 } else { s.range(1, 3) };
            let a: Vec<BigUint> = s_vec(s, n, fbig::<F>);
            let b = a
                .iter()
                .map(|a| match s.weighted(&[3, 1, 1]) {
                    0 => fbig::<F>(s),
                    1 => &m - 1u8 - a,
                    _ => (&m - a) % &m,
                })
                .collect();
            (a, b, nb)
        }
        Gate::Add2k | Gate::Sub => {
            let l = s.range(1, 130);
            let a = s.big(l);
            let b = match s.weighted(&[3, 1, 1]) {
                0 => s.big(l),
                1 => a.clone(),
                _ => mask(l) - &a,
            };
            (vec![a], vec![b], l)
        }
        _ => {
            let l = s.range(1, 64);
            let mut base_bits = s.range(1, 40);
            if base_bits > l {
                base_bits = l;
            }
            base = (s.big(base_bits).to_u64().unwrap()).max(2);
            let a = if s.bool() {
                s.big(l)
            } else {
                (BigUint::from(base) * s.big(l) + s.below(2) * (base - 1)) & mask(l)
            };
            k = s.range(1, 5);
            (vec![a], vec![BigUint::zero()], l)
        }
    };
    let set = Setup::draw(s);
    let seed = s.word();
    let join = |v: &[BigUint]| v.iter().rev().fold(BigUint::zero(), |acc, v| (acc << len) + v);
    let (ja, jb) = (join(&a), join(&b));
    let what = format!("{gate:?} of {a:?} and {b:?} ({len} bits), base {base}, {k} slices");
    s.note(|| what.clone());
    s.label(match gate {
        Gate::AddP => "adder_mod_p",
        Gate::AddPMany => "adder_mod_p_many",
        Gate::Add2k => "adder_mod_2k",
        Gate::Sub => "subtraction",
        Gate::ModRed => "modulo_reduction",
        Gate::Slicing => "slicing",
    });
    s.nontrivial();
    let wires = len * n;
    let bits = |v: &BigUint| (0..wires).map(|i| v.bit(i as u64)).collect::<Vec<bool>>();
    let (ba, bb) = (bits(&ja), bits(&jb));
    let mut outs: Vec<[Vec<bool>; 3]> = vec![];
    for streaming in [false, true] {
        let o = run3(&what, set, [0, 1, 2], |nets, st, i| {
            let net = &nets[0];
            let e = |e| eyre::eyre!("{e:?}");
            if i == 0 {
                if streaming {
                    let mut ev = StreamingRep3Evaluator::new(net);
                    let p = (ev.receive_bundle(wires)?, ev.receive_bundle(wires)?);
                    let o = run_gate::<F, _>(&mut ev, gate, &p, base, k)?;
                    ev.output_all_parties(&o)
                } else {
                    let mut ev = Rep3Evaluator::new(net);
                    ev.receive_circuit()?;
                    let p = (ev.receive_bundle_from_circuit(wires)?, ev.receive_bundle_from_circuit(wires)?);
                    let o = run_gate::<F, _>(&mut ev, gate, &p, base, k)?;
                    ev.output_all_parties(&o)
                }
            } else {
                use rand::SeedableRng;
                // both garblers draw the same labels from a common stream
                let mut r = rand_chacha::ChaCha12Rng::seed_from_u64(seed);
                let mut side = |bits: &[bool], delta: &WireMod2| {
                    let (mut z, mut ev) = (vec![], vec![]);
                    for b in bits {
                        let (l, v) = y::GCUtils::encode_wire(&mut r, delta, *b as u16);
                        z.push(l);
                        ev.push(v);
                    }
                    (BinaryBundle::new(z), BinaryBundle::new(ev))
                };
                let delta = st.rngs.generate_random_garbler_delta(st.id).ok_or_else(|| eyre::eyre!("no delta"))?;
                let (za, ea) = side(&ba, &delta);
                let (zb, eb) = side(&bb, &delta);
                let p = (za, zb);
                if streaming {
                    let mut g = StreamingRep3Garbler::new_with_delta(net, st, delta);
                    g.send_bundle(&ea).map_err(e)?;
                    g.send_bundle(&eb).map_err(e)?;
                    let o = run_gate::<F, _>(&mut g, gate, &p, base, k)?;
                    g.output_all_parties(&o)
                } else {
                    let mut g = Rep3Garbler::new_with_delta(net, st, delta);
                    g.add_bundle_to_circuit(&ea);
                    g.add_bundle_to_circuit(&eb);
                    let o = run_gate::<F, _>(&mut g, gate, &p, base, k)?;
                    g.output_all_parties(&o)
                }
            }
        })?;
        check!(o[0] == o[1] && o[1] == o[2], "{what}: the parties see different outputs (streaming {streaming})");
        outs.push(o);
    }
    check!(outs[0] == outs[1], "{what}: the streaming and the buffered garbler disagree");
    let got = &outs[0][0];
    let num = |b: &[bool]| b.iter().rev().fold(BigUint::zero(), |acc, b| (acc << 1) + *b as u8);
    match gate {
        Gate::AddP | Gate::AddPMany => {
            check_eq!(got.len(), wires, "{what}: output bits");
            for (i, c) in got.chunks(len).enumerate() {
                check_eq!(num(c), (&a[i] + &b[i]) % &m, "{what}: sum {i}");
                check_eq!(y::GCUtils::bits_to_field::<F>(c).map(to_big).ok(), Some((&a[i] + &b[i]) % &m), "{what}: as a field element");
            }
        }
        Gate::Add2k => check_eq!(num(got), (&a[0] + &b[0]) & mask(len), "{what}"),
        Gate::Sub => {
            let top = BigUint::one() << len;
            check_eq!(num(&got[..len]), (&top + &a[0] - &b[0]) & mask(len), "{what}: difference");
            check_eq!(got[len], a[0] >= b[0], "{what}: no borrow flag");
        }
        Gate::ModRed => check_eq!(num(got), &a[0] % base, "{what}"),
        Gate::Slicing => {
            let per = got.len() / k;
            check_eq!(per * k, got.len(), "{what}: output bits");
            let got: Vec<BigUint> = got.chunks(per).map(num).collect();
            let want: Vec<BigUint> = digits(&a[0], base, k).into_iter().map(BigUint::from).collect();
            check_eq!(got, want, "{what}");
        }
    }
    Ok(())
}
fn gates_any(s: &mut Src) -> R {
    yao_field!(s, gates)
}

// ---- rings ----

macro_rules! yao_ring {
    ($src:expr, $f:ident) => {
        match $src.below(7) {
            0 => $f::<u8>($src),
            1 => $f::<u16>($src),
            2 => $f::<u32>($src),
            3 => $f::<u64>($src),
            4 => $f::<u128>($src),
            5 => $f::<mpc_core::uint::U512>($src),
            _ => $f::<u32>($src),
        }
    };
}
fn rshares<T: IntRing2k>(s: &mut Src, v: &[BigUint]) -> [Vec<Rs<T>>; 3] {
    let t: Vec<[Rs<T>; 3]> = v.iter().map(|v| rshare::<T>(s, v)).collect();
    parties(&t)
}
fn ring_div<T: IntRing2k>(s: &mut Src) -> R
where
    Standard: Distribution<T>,
{
    let how = *s.pick(&DIVS);
    let many = s.chance(1, 3);
    let n = if many { s.range(1, 3) } else { 1 };
    let top = BigUint::one() << T::K;
    let xy: Vec<_> = (0..n).map(|_| operands(s, T::K, &top)).collect();
    let (v, d): (Vec<BigUint>, Vec<BigUint>) = xy.into_iter().unzip();
    let set = Setup::draw(s);
    let what = format!("{how:?} ring division of {v:?} by {d:?} ({} bits, many {many})", T::K);
    s.note(|| what.clone());
    s.label(match how {
        Div::Both => "shared_by_shared",
        Div::Public => "shared_by_public",
        Div::Shared => "public_by_shared",
    });
    s.nontrivial();
    let want: Vec<BigUint> = v.iter().zip(&d).map(|(a, b)| a / b).collect();
    let (pv, pd): (Vec<Re<T>>, Vec<Re<T>>) = (v.iter().map(re).collect(), d.iter().map(re).collect());
    let args = zip3(rshares::<T>(s, &v), rshares::<T>(s, &d));
    let o = run3(&what, set, args, |nets, st, (x, d)| {
        let net = &nets[0];
        Ok(match (how, many) {
            (Div::Both, true) => ry::ring_div_many(&x, &d, net, st)?,
            (Div::Both, false) => vec![ry::ring_div(x[0], d[0], net, st)?],
            (Div::Public, true) => ry::ring_div_by_public_many(&x, &pd, net, st)?,
            (Div::Public, false) => vec![ry::ring_div_by_public(x[0], pd[0], net, st)?],
            (Div::Shared, true) => ry::ring_div_by_shared_many(&pv, &d, net, st)?,
            (Div::Shared, false) => vec![ry::ring_div_by_shared(pv[0], d[0], net, st)?],
        })
    })?;
    rsame(&what, &o, &want)
}
fn ring_div_any(s: &mut Src) -> R {
    match s.below(6) {
        0 => ring_div::<u8>(s),
        1 => ring_div::<u16>(s),
        2 | 3 => ring_div::<u32>(s),
        4 => ring_div::<u64>(s),
        _ => ring_div::<u128>(s),
    }
}
fn ring_pow2<T: IntRing2k>(s: &mut Src) -> R
where
    Standard: Distribution<T>,
{
    let many = s.bool();
    let n = amount(s, many);
    let k = match s.weighted(&[3, 1]) {
        0 => s.range(0, T::K + 2),
        _ => *s.pick(&[0, 1, T::K - 1, T::K]),
    };
    let v = s_vec(s, n, ring::<T>);
    let set = Setup::draw(s);
    let what = format!("ring division of {v:?} ({} bits) by 2^{k} (many {many})", T::K);
    s.note(|| what.clone());
    s.nontrivial();
    let want: Vec<BigUint> = v.iter().map(|v| v >> k).collect();
    let x = rshares::<T>(s, &v);
    let o = run3(&what, set, x, |nets, st, x| {
        Ok(if many {
            ry::ring_div_power_2_many(&x, &nets[0], st, k)?
        } else {
            vec![ry::ring_div_power_2(x[0], &nets[0], st, k)?]
        })
    })?;
    rsame(&what, &o, &want)
}
fn ring_pow2_any(s: &mut Src) -> R {
    yao_ring!(s, ring_pow2)
}
fn field_to_rings<T: IntRing2k>(s: &mut Src) -> R
where
    Standard: Distribution<T>,
{
    type F = Fr;
    let many = s.bool();
    let n = amount(s, many).min(2);
    let each = s.range(1, T::K.min(254));
    let k = s.range(1, (254 / each).min(8));
    let v = s_vec(s, n, fbig::<F>);
    let set = Setup::draw(s);
    let what = format!("decompose {v:?} into {k} ring elements of {each} bits ({} bit ring, many {many})", T::K);
    s.note(|| what.clone());
    s.nontrivial();
    let want: Vec<BigUint> = v.iter().flat_map(|v| (0..k).map(move |i| (v >> (i * each)) & mask(each))).collect();
    let x = shares::<F>(s, &v);
    let o = run3(&what, set, x, |nets, st, x| {
        if many {
            ry::decompose_field_to_rings_many::<F, T, _>(&x, &nets[0], st, k, each)
        } else {
            ry::decompose_field_to_rings::<F, T, _>(x[0], &nets[0], st, k, each)
        }
    })?;
    rsame(&what, &o, &want)
}
fn field_to_rings_any(s: &mut Src) -> R {
    yao_ring!(s, field_to_rings)
}
fn widths<T: IntRing2k>(s: &mut Src) -> R
where
    Standard: Distribution<T>,
{
    type F = Fr;
    let n = s.range(1, 4);
    let set = Setup::draw(s);
    let v = s_vec(s, n, ring::<T>);
    s.nontrivial();
    match s.below(3) {
        0 => {
            s.label("ring_to_field");
            let what = format!("ring ({} bits) to field of {v:?}", T::K);
            s.note(|| what.clone());
            let x = rshares::<T>(s, &v);
            let want: Vec<BigUint> = v.iter().map(|v| v % fmod::<F>()).collect();
            if T::K > 253 {
                return Ok(());
            }
            let o = run3(&what, set, x, |nets, st, x| ry::ring_to_field_many::<T, F, _>(&x, &nets[0], st))?;
            same(&what, &o, &want)
        }
        1 => {
            s.label("field_to_ring");
            if T::K > 254 {
                return Ok(()); // documented as truncation
            }
            let v = s_vec(s, n, fbig::<F>);
            let what = format!("field to ring ({} bits) of {v:?}", T::K);
            s.note(|| what.clone());
            let x = shares::<F>(s, &v);
            let want: Vec<BigUint> = v.iter().map(|v| v & mask(T::K)).collect();
            let o = run3(&what, set, x, |nets, st, x| ry::field_to_ring_many::<F, T, _>(&x, &nets[0], st))?;
            rsame(&what, &o, &want)
        }
        _ => {
            s.label("upcast");
            if T::K > 128 {
                return Ok(());
            }
            let what = format!("upcast from {} to 512 bits of {v:?}", T::K);
            s.note(|| what.clone());
            let x = rshares::<T>(s, &v);
            if T::K < 64 && s.bool() {
                let o = run3(&what, set, x, |nets, st, x| ry::upcast_many::<T, u64, _>(&x, &nets[0], st))?;
                rsame(&what, &o, &v)
            } else {
                let o = run3(&what, set, x, |nets, st, x| ry::upcast_many::<T, U512, _>(&x, &nets[0], st))?;
                rsame(&what, &o, &v)
            }
        }
    }
}
fn widths_any(s: &mut Src) -> R {
    yao_ring!(s, widths)
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "R05",
        rule: "a case runs one gadget between three parties on at least one operand",
        assumptions: "honest parties over in-memory networks; garbling with the stand-in for the half-gate library in /verif/shims (its hash is not AES)",
        subs: vec![
            Sub::new("gates", 1200, 60_000, gates_any),
            Sub::new("decompose", 300, 20_000, decompose_any),
            Sub::new("decompose-other", 150, 8_000, decompose_other),
            Sub::new("slice", 300, 20_000, slice_any),
            Sub::new("pow2", 400, 30_000, pow2_any),
            Sub::new("int-div", 60, 3_000, int_div_any),
            Sub::new("bitops", 300, 20_000, bitops),
            Sub::new("sparse-rotation", 60, 4_000, sparse_rotation),
            Sub::new("sparse-normal", 40, 2_000, sparse_normal),
            Sub::new("sparse-aes", 100, 6_000, sparse_aes),
            Sub::new("sparse-bytes", 60, 4_000, sparse_bytes),
            Sub::new("wnaf", 60, 4_000, wnaf),
            Sub::new("sha256", 30, 1_500, sha256),
            Sub::new("aes", 40, 2_000, aes),
            Sub::new("blake", 40, 2_000, blake),
            Sub::new("ring-div", 400, 20_000, ring_div_any),
            Sub::new("ring-pow2", 600, 40_000, ring_pow2_any),
            Sub::new("field-to-rings", 300, 20_000, field_to_rings_any),
            Sub::new("widths", 600, 40_000, widths_any),
        ],
    }]
}
