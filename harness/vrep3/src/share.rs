//! R01 replicated sharing and its linear operators, R06 correlated randomness.
use crate::kit::*;
use crate::{any_rep_field, any_ring};
use ark_ec::CurveGroup;
use ark_ff::{PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use engine::*;
use mpc_core::MpcState;
use mpc_core::protocols::rep3::network::Rep3NetworkExt;
use mpc_core::protocols::rep3::{self, Rep3State, SeedRng, arithmetic, binary, pointshare, poly};
use mpc_core::protocols::rep3_ring::ring::{bit::Bit, int_ring::IntRing2k};
use mpc_core::protocols::rep3_ring::{self, arithmetic as rarith, binary as rbin};
use mpc_core::uint::{FieldUint, U256, UintBackend};
use num_bigint::BigUint;
use num_traits::One;
use rand::distributions::{Distribution, Standard};
use rand::Rng;
use std::collections::BTreeSet;
use vkit::*;

fn each<A: Copy, B>(x: [A; 3], f: impl Fn(usize, A) -> B) -> [B; 3] {
    [f(0, x[0]), f(1, x[1]), f(2, x[2])]
}
fn zip<A: Copy, B: Copy, C>(x: [A; 3], y: [B; 3], f: impl Fn(A, B) -> C) -> [C; 3] {
    [f(x[0], y[0]), f(x[1], y[1]), f(x[2], y[2])]
}
fn len_of(s: &mut Src) -> usize {
    match s.weighted(&[1, 2, 5, 1]) {
        0 => 0,
        1 => 1,
        2 => s.range(2, 9),
        _ => s.range(10, 200),
    }
}

// ---- sharing functions ----

fn field_sharing<F: PrimeField>(s: &mut Src) -> R {
    let n = len_of(s);
    let vals: Vec<F> = (0..n).map(|_| felt(s)).collect();
    let v: F = felt(s);
    s.label(format!("{} bits, {n} values", F::MODULUS_BIT_SIZE));
    if n > 1 {
        s.nontrivial();
    }
    let mut rng = s.rng();
    let sh = rep3::share_field_element(v, &mut rng);
    check_eq!(fval("share_field_element", sh)?, v, "share_field_element");
    check_eq!(rep3::combine_field_element(sh[0], sh[1], sh[2]), v, "combine_field_element");
    let again = rep3::share_field_element(v, &mut rng);
    if F::MODULUS_BIT_SIZE > 60 {
        for i in 0..3 {
            check!(sh[i].a != again[i].a, "two sharings of one value have the same share at party {i}");
        }
    }
    let [a, b, c] = rep3::share_field_element_additive(v, &mut rng);
    check_eq!(a + b + c, v, "share_field_element_additive");
    let sh = rep3::share_field_element_seeded::<F, _, SeedRng>(v, &mut rng).map(|x| x.expand());
    check_eq!(fval("share_field_element_seeded", sh)?, v, "share_field_element_seeded");
    let [a, b, c] = rep3::share_field_element_additive_seeded::<F, _, SeedRng>(v, &mut rng).map(|x| x.expand());
    check_eq!(a + b + c, v, "share_field_element_additive_seeded");

    let sh = rep3::share_field_elements(&vals, &mut rng);
    let t = triples("share_field_elements", &sh, n)?;
    for (k, t) in t.iter().enumerate() {
        check_eq!(fval("share_field_elements", *t)?, vals[k], "share_field_elements at {k}");
    }
    check_eq!(rep3::combine_field_elements(&sh[0], &sh[1], &sh[2]), vals, "combine_field_elements");
    if F::MODULUS_BIT_SIZE > 60 {
        for i in 0..3 {
            let d: BTreeSet<F> = sh[i].iter().map(|x| x.a).collect();
            check_eq!(d.len(), n, "share_field_elements: share components of party {i} repeat");
        }
    }
    if n > 0 {
        let cut = s.range(0, n - 1);
        let which = s.range(0, 2);
        let mut p = sh.clone();
        p[which].truncate(cut);
        let got = caught(|| rep3::combine_field_elements(&p[0], &p[1], &p[2]));
        check!(got.is_err(), "combine_field_elements accepted {cut} shares of party {which} against {n} of the others");
    }

    let some: Vec<Option<F>> = vals.iter().map(|v| if s.chance(1, 3) { None } else { Some(*v) }).collect();
    let sh = rep3::share_maybe_field_elements(&some, &mut rng);
    for (k, t) in triples("share_maybe_field_elements", &sh, n)?.into_iter().enumerate() {
        match (some[k], t) {
            (Some(v), [Some(a), Some(b), Some(c)]) => {
                check_eq!(fval("share_maybe_field_elements", [a, b, c])?, v, "share_maybe_field_elements at {k}")
            }
            (None, [None, None, None]) => {}
            (v, t) => fail!("share_maybe_field_elements at {k}: {v:?} became {t:?}"),
        }
    }
    let sh = rep3::share_maybe_field_elements_additive(&some, &mut rng);
    for (k, t) in triples("share_maybe_field_elements_additive", &sh, n)?.into_iter().enumerate() {
        match (some[k], t) {
            (Some(v), [Some(a), Some(b), Some(c)]) => {
                check_eq!(a + b + c, v, "share_maybe_field_elements_additive at {k}")
            }
            (None, [None, None, None]) => {}
            (v, t) => fail!("share_maybe_field_elements_additive at {k}: {v:?} became {t:?}"),
        }
    }
    let sh = rep3::share_field_elements_additive(&vals, &mut rng);
    for (k, [a, b, c]) in triples("share_field_elements_additive", &sh, n)?.into_iter().enumerate() {
        check_eq!(a + b + c, vals[k], "share_field_elements_additive at {k}");
    }
    let sh = rep3::share_field_elements_seeded::<F, _, SeedRng>(&vals, &mut rng);
    let mut out = vec![];
    for (i, x) in sh.into_iter().enumerate() {
        check_eq!(x.length().map_err(|e| Fail::from(format!("length at party {i}: {e}")))?, n, "length of seeded shares");
        // through the wire format
        let b = bincode::serialize(&x).map_err(|e| Fail::from(format!("serialize: {e}")))?;
        let y: rep3::ReplicatedSeedType<Vec<F>, SeedRng> =
            bincode::deserialize(&b).map_err(|e| Fail::from(format!("deserialize: {e}")))?;
        out.push(y.expand_vec().map_err(|e| Fail::from(format!("expand_vec at party {i}: {e}")))?);
    }
    for (k, t) in triples("share_field_elements_seeded", &out, n)?.into_iter().enumerate() {
        check_eq!(fval("share_field_elements_seeded", t)?, vals[k], "share_field_elements_seeded at {k}");
    }
    let sh = rep3::share_field_elements_additive_seeded::<F, _, SeedRng>(&vals, &mut rng);
    for x in &sh {
        check_eq!(x.length(), n, "length of additive seeded shares");
    }
    let out = sh.map(|x| x.expand_vec());
    for (k, [a, b, c]) in triples("share_field_elements_additive_seeded", &out, n)?.into_iter().enumerate() {
        check_eq!(a + b + c, vals[k], "share_field_elements_additive_seeded at {k}");
    }
    Ok(())
}
fn sharing_field(s: &mut Src) -> R {
    any_field!(s, field_sharing)
}

fn binary_sharing<F: FieldUint>(s: &mut Src) -> R {
    let n = s.range(0, 6);
    let vals: Vec<F> = (0..n).map(|_| felt(s)).collect();
    s.label(format!("{} bits", F::MODULUS_BIT_SIZE));
    if n > 0 {
        s.nontrivial();
    }
    let mut rng = s.rng();
    let mut per = [vec![], vec![], vec![]];
    for v in &vals {
        let sh = rep3::share_binary(*v, &mut rng);
        check_eq!(bval("share_binary", sh)?, to_big(*v), "share_binary");
        check_eq!(
            bu(&rep3::combine_binary_element(sh[0], sh[1], sh[2])),
            to_big(*v),
            "combine_binary_element"
        );
        for i in 0..3 {
            check!(bu(&sh[i].a).bits() <= bits_of::<F>() as u64, "binary share of party {i} is wider than the modulus");
            per[i].push(sh[i]);
        }
    }
    let got: Vec<BigUint> =
        rep3::combine_binary_elements(&per[0], &per[1], &per[2]).iter().map(|u| bu(u)).collect();
    check_eq!(got, vals.iter().map(|v| to_big(*v)).collect::<Vec<_>>(), "combine_binary_elements");
    if n > 0 {
        per[s.range(0, 2)].pop();
        check!(
            caught(|| rep3::combine_binary_elements(&per[0], &per[1], &per[2])).is_err(),
            "combine_binary_elements accepted vectors of different lengths"
        );
    }
    Ok(())
}
fn sharing_binary(s: &mut Src) -> R {
    any_rep_field!(s, binary_sharing)
}

fn point_sharing<C: CurveGroup>(s: &mut Src) -> R {
    let n = s.range(0, 5);
    let vals: Vec<C> = (0..n).map(|_| point(s)).collect();
    if n > 0 {
        s.nontrivial();
    }
    let mut rng = s.rng();
    for v in &vals {
        let sh = rep3::share_curve_point(*v, &mut rng);
        check_eq!(pval("share_curve_point", sh)?, *v, "share_curve_point");
        check_eq!(rep3::combine_curve_point(sh[0], sh[1], sh[2]), *v, "combine_curve_point");
    }
    let mut sh = rep3::share_curve_points(&vals, &mut rng);
    for (k, t) in triples("share_curve_points", &sh, n)?.into_iter().enumerate() {
        check_eq!(pval("share_curve_points", t)?, vals[k], "share_curve_points at {k}");
    }
    check_eq!(rep3::combine_curve_points(&sh[0], &sh[1], &sh[2]), vals, "combine_curve_points");
    for v in &vals {
        let t = IDS.map(|id| pointshare::promote_to_trivial_share(id, v));
        check_eq!(pval("point promote_to_trivial_share", t)?, *v, "point promote_to_trivial_share");
    }
    if n > 0 {
        sh[s.range(0, 2)].pop();
        check!(
            caught(|| rep3::combine_curve_points(&sh[0], &sh[1], &sh[2])).is_err(),
            "combine_curve_points accepted vectors of different lengths"
        );
    }
    Ok(())
}
fn sharing_point(s: &mut Src) -> R {
    any_curve!(s, point_sharing)
}

fn ring_sharing<T: IntRing2k>(s: &mut Src) -> R
where
    Standard: Distribution<T>,
{
    let n = len_of(s).min(20);
    let vals: Vec<BigUint> = (0..n).map(|_| ring::<T>(s)).collect();
    s.label(format!("ring {}", T::K));
    if n > 0 {
        s.nontrivial();
    }
    let rs: Vec<Re<T>> = vals.iter().map(re::<T>).collect();
    let mut rng = s.rng();
    for (v, r) in vals.iter().zip(&rs) {
        let sh = rep3_ring::share_ring_element(*r, &mut rng);
        check_eq!(rval("share_ring_element", sh)?, *v, "share_ring_element {}", T::K);
        check_eq!(br(rep3_ring::combine_ring_element(sh[0], sh[1], sh[2])), *v, "combine_ring_element");
        let sh = rep3_ring::share_ring_element_binary(*r, &mut rng);
        check_eq!(rxval("share_ring_element_binary", sh)?, *v, "share_ring_element_binary {}", T::K);
        check_eq!(br(rep3_ring::combine_ring_element_binary(sh[0], sh[1], sh[2])), *v, "combine_ring_element_binary");
        let t = IDS.map(|id| Rs::promote_from_trivial(r, id));
        check_eq!(rval("ring promote_from_trivial", t)?, *v, "ring promote_from_trivial");
        let t = IDS.map(|id| rarith::promote_to_trivial_share(id, *r));
        check_eq!(rval("ring promote_to_trivial_share", t)?, *v, "ring promote_to_trivial_share");
        let t = IDS.map(|id| rbin::promote_to_trivial_share(id, r));
        check_eq!(rxval("ring binary promote_to_trivial_share", t)?, *v, "ring binary promote_to_trivial_share");
    }
    let mut sh = rep3_ring::share_ring_elements(&rs, &mut rng);
    for (k, t) in triples("share_ring_elements", &sh, n)?.into_iter().enumerate() {
        check_eq!(rval("share_ring_elements", t)?, vals[k], "share_ring_elements at {k}");
    }
    check_eq!(rep3_ring::combine_ring_elements(&sh[0], &sh[1], &sh[2]), rs, "combine_ring_elements");
    let bx = rep3_ring::share_ring_elements_binary(&rs, &mut rng);
    for (k, t) in triples("share_ring_elements_binary", &bx, n)?.into_iter().enumerate() {
        check_eq!(rxval("share_ring_elements_binary", t)?, vals[k], "share_ring_elements_binary at {k}");
    }
    if n > 0 {
        sh[s.range(0, 2)].pop();
        check!(
            caught(|| rep3_ring::combine_ring_elements(&sh[0], &sh[1], &sh[2])).is_err(),
            "combine_ring_elements accepted vectors of different lengths"
        );
    }
    Ok(())
}
fn sharing_ring(s: &mut Src) -> R {
    any_ring!(s, ring_sharing)
}

// ---- operator programs ----

fn field_ops<F: PrimeField>(s: &mut Src) -> R {
    const N: usize = 4;
    let mut v: Vec<F> = (0..N).map(|_| felt(s)).collect();
    let mut x: Vec<[Fs<F>; 3]> = v.iter().map(|v| fshare(s, *v)).collect();
    let steps = s.range(1, 14);
    if steps > 2 {
        s.nontrivial();
    }
    let mut log = vec![];
    for _ in 0..steps {
        let (i, j, d) = (s.range(0, N - 1), s.range(0, N - 1), s.range(0, N - 1));
        let (p, q): (F, F) = (felt(s), felt(s));
        let op = s.below(34);
        let (a, b, va, vb) = (x[i], x[j], v[i], v[j]);
        let (name, r, want): (&str, [Fs<F>; 3], F) = match op {
            0 => ("a + b", zip(a, b, |a, b| a + b), va + vb),
            1 => ("&a + &b", zip(a, b, |a, b| &a + &b), va + vb),
            2 => ("a += b", zip(a, b, |mut a, b| { a += b; a }), va + vb),
            3 => ("a += &b", zip(a, b, |mut a, b| { a += &b; a }), va + vb),
            4 => ("a - b", zip(a, b, |a, b| a - b), va - vb),
            5 => ("&a - &b", zip(a, b, |a, b| &a - &b), va - vb),
            6 => ("a -= b", zip(a, b, |mut a, b| { a -= b; a }), va - vb),
            7 => ("a * p", each(a, |_, a| a * p), va * p),
            8 => ("&a * p", each(a, |_, a| &a * p), va * p),
            9 => ("a *= p", each(a, |_, mut a| { a *= p; a }), va * p),
            10 => ("-a", each(a, |_, a| -a), -va),
            11 => ("double", each(a, |_, a| a.double()), va.double()),
            12 => ("double_in_place", each(a, |_, mut a| { a.double_in_place(); a }), va.double()),
            13 => ("zero_share", each(a, |_, _| Fs::zero_share()), F::zero()),
            14 => ("default", each(a, |_, _| Fs::default()), F::zero()),
            15 => ("Zero::zero", each(a, |_, _| <Fs<F> as Zero>::zero()), F::zero()),
            16 => ("promote_from_trivial", IDS.map(|id| Fs::promote_from_trivial(&p, id)), p),
            17 => (
                "promote_from_trivial_with_scalar",
                IDS.map(|id| Fs::promote_from_trivial_with_scalar(&p, &q, id)),
                p,
            ),
            18 => ("promote_to_trivial_share", IDS.map(|id| arithmetic::promote_to_trivial_share(id, p)), p),
            19 => ("add", zip(a, b, |a, b| arithmetic::add(a, b)), va + vb),
            20 => ("add_assign", zip(a, b, |mut a, b| { arithmetic::add_assign(&mut a, b); a }), va + vb),
            21 => ("add_public", each(a, |k, a| arithmetic::add_public(a, p, IDS[k])), va + p),
            22 => (
                "add_assign_public",
                each(a, |k, mut a| { arithmetic::add_assign_public(&mut a, p, IDS[k]); a }),
                va + p,
            ),
            23 => ("sub", zip(a, b, |a, b| arithmetic::sub(a, b)), va - vb),
            24 => ("sub_assign", zip(a, b, |mut a, b| { arithmetic::sub_assign(&mut a, b); a }), va - vb),
            25 => ("sub_shared_by_public", each(a, |k, a| arithmetic::sub_shared_by_public(a, p, IDS[k])), va - p),
            26 => ("sub_public_by_shared", each(a, |k, a| arithmetic::sub_public_by_shared(p, a, IDS[k])), p - va),
            27 => ("mul_public", each(a, |_, a| arithmetic::mul_public(a, p)), va * p),
            28 => ("mul_assign_public", each(a, |_, mut a| { arithmetic::mul_assign_public(&mut a, p); a }), va * p),
            29 => ("neg", each(a, |_, a| arithmetic::neg(a)), -va),
            30 => ("add_mul_public", zip(a, b, |a, b| arithmetic::add_mul_public(a, b, p)), va + vb * p),
            31 => {
                if p.is_zero() {
                    check!(
                        arithmetic::div_shared_by_public(a[0], p).is_err(),
                        "division by the public value zero did not return an error"
                    );
                    continue;
                }
                let mut o = vec![];
                for k in 0..3 {
                    o.push(
                        arithmetic::div_shared_by_public(a[k], p)
                            .map_err(|e| Fail::from(format!("div_shared_by_public: {e}")))?,
                    );
                }
                ("div_shared_by_public", arr(o), va * p.inverse().unwrap())
            }
            32 => {
                // element-wise vector forms over the whole register file
                let (mut l, mut m) = (parties(&x), parties(&x));
                let mut y: Vec<[Fs<F>; 3]> = x.clone();
                let mut w = v.clone();
                y.reverse();
                w.reverse();
                let ys = parties(&y);
                for k in 0..3 {
                    arithmetic::add_vec_assign(&mut l[k], &ys[k]);
                    arithmetic::sub_vec_assign(&mut m[k], &ys[k]);
                }
                for k in 0..N {
                    let t = triples("add_vec_assign", &l, N)?[k];
                    check_eq!(fval("add_vec_assign", t)?, v[k] + w[k], "add_vec_assign at {k}");
                    let t = triples("sub_vec_assign", &m, N)?[k];
                    check_eq!(fval("sub_vec_assign", t)?, v[k] - w[k], "sub_vec_assign at {k}");
                }
                continue;
            }
            _ => {
                // local products: the three parts add up to the product
                let f: F = zip(a, b, |a, b| a * b).into_iter().sum();
                check_eq!(f, va * vb, "local product of shares");
                let f: F = zip(a, b, |a, b| &a * &b).into_iter().sum();
                check_eq!(f, va * vb, "local product of share references");
                let (l, m) = a[0].ab();
                check!(l == a[0].a && m == a[0].b, "ab() returns other components");
                let mut buf = vec![];
                a[1].serialize_uncompressed(&mut buf).map_err(|e| Fail::from(e.to_string()))?;
                let back = Fs::<F>::deserialize_uncompressed(&buf[..]).map_err(|e| Fail::from(e.to_string()))?;
                check_eq!(back, a[1], "share after serialization");
                continue;
            }
        };
        log.push(name);
        check_eq!(fval(name, r)?, want, "{name} (modulus of {} bits), after {log:?}", F::MODULUS_BIT_SIZE);
        x[d] = r;
        v[d] = want;
    }
    s.note(|| format!("{log:?}"));
    // shared polynomial at a public point
    let n = *s.pick(&[1usize, 2, 5, 15, 16, 17, 33, 100]);
    let c: Vec<F> = (0..n).map(|_| felt(s)).collect();
    let cs: Vec<[Fs<F>; 3]> = c.iter().map(|c| fshare(s, *c)).collect();
    let at: F = felt(s);
    let want = c.iter().rfold(F::zero(), |acc, c| acc * at + c);
    let ps = parties(&cs);
    let r = [0, 1, 2].map(|i| poly::eval_poly(&ps[i], at));
    check_eq!(fval("eval_poly", r)?, want, "eval_poly with {n} coefficients");
    Ok(())
}
fn ops_field(s: &mut Src) -> R {
    any_field!(s, field_ops)
}

fn point_ops<C: CurveGroup>(s: &mut Src) -> R {
    const N: usize = 3;
    let mut v: Vec<C> = (0..N).map(|_| point(s)).collect();
    let mut x: Vec<[Ps<C>; 3]> = v.iter().map(|v| pshare(s, *v)).collect();
    let steps = s.range(1, 8);
    if steps > 2 {
        s.nontrivial();
    }
    let mut log = vec![];
    for _ in 0..steps {
        let (i, j, d) = (s.range(0, N - 1), s.range(0, N - 1), s.range(0, N - 1));
        let k: C::ScalarField = felt(s);
        let p: C = point(s);
        let (a, b, va, vb) = (x[i], x[j], v[i], v[j]);
        let (name, r, want): (&str, [Ps<C>; 3], C) = match s.below(19) {
            0 => ("a + b", zip(a, b, |a, b| a + b), va + vb),
            1 => ("a + &b", zip(a, b, |a, b| a + &b), va + vb),
            2 => ("&a + &b", zip(a, b, |a, b| &a + &b), va + vb),
            3 => ("a += &b", zip(a, b, |mut a, b| { a += &b; a }), va + vb),
            4 => ("a - b", zip(a, b, |a, b| a - b), va - vb),
            5 => ("a - &b", zip(a, b, |a, b| a - &b), va - vb),
            6 => ("&a - &b", zip(a, b, |a, b| &a - &b), va - vb),
            7 => ("a -= &b", zip(a, b, |mut a, b| { a -= &b; a }), va - vb),
            8 => ("&a * k", each(a, |_, a| &a * k), va * k),
            9 => ("-a", each(a, |_, a| -a), -va),
            10 => ("zero_share", each(a, |_, _| Ps::zero_share()), C::zero()),
            11 => ("add", zip(a, b, |a, b| pointshare::add(&a, &b)), va + vb),
            12 => ("sub", zip(a, b, |a, b| pointshare::sub(&a, &b)), va - vb),
            13 => ("add_assign", zip(a, b, |mut a, b| { pointshare::add_assign(&mut a, &b); a }), va + vb),
            14 => ("sub_assign", zip(a, b, |mut a, b| { pointshare::sub_assign(&mut a, &b); a }), va - vb),
            15 => (
                "add_assign_public",
                each(a, |q, mut a| { pointshare::add_assign_public(&mut a, &p, IDS[q]); a }),
                va + p,
            ),
            16 => (
                "sub_assign_public",
                each(a, |q, mut a| { pointshare::sub_assign_public(&mut a, &p, IDS[q]); a }),
                va - p,
            ),
            17 => ("scalar_mul_public_scalar", each(a, |_, a| pointshare::scalar_mul_public_scalar(&a, k)), va * k),
            _ => {
                let ks = fshare(s, k);
                let sum: C = zip(a, ks, |a, k| k * &a).into_iter().sum();
                check_eq!(sum, va * k, "local product of shared scalar and shared point");
                ("scalar_mul_public_point", each(ks, |_, k| pointshare::scalar_mul_public_point(&p, k)), p * k)
            }
        };
        log.push(name);
        check_eq!(pval(name, r)?, want, "points: {name} after {log:?}");
        x[d] = r;
        v[d] = want;
    }
    Ok(())
}
fn ops_point(s: &mut Src) -> R {
    any_curve!(s, point_ops)
}

fn binary_ops<F: FieldUint>(s: &mut Src) -> R {
    const N: usize = 4;
    let bl = bits_of::<F>();
    // widths above the modulus are legal contents of a bit-shared integer
    let full = s.chance(1, 4);
    let width = if full { F::Uint::BITS } else { bl };
    let m = mask(F::Uint::BITS);
    let draw = |s: &mut Src| -> BigUint { if s.bool() { s.big(width) } else { to_big(felt::<F>(s)) } };
    let sh = |s: &mut Src, v: &BigUint| -> [Bs<F>; 3] {
        let (a, b) = (s.big(width), s.big(width));
        let x = [ub::<F::Uint>(&a), ub(&b), ub(&(v ^ &a ^ &b))];
        [Bs::new(x[0], x[2]), Bs::new(x[1], x[0]), Bs::new(x[2], x[1])]
    };
    let mut v: Vec<BigUint> = (0..N).map(|_| draw(s)).collect();
    let mut x: Vec<[Bs<F>; 3]> = v.iter().map(|v| sh(s, v)).collect();
    let steps = s.range(1, 14);
    if steps > 2 {
        s.nontrivial();
    }
    let mut log = vec![];
    for _ in 0..steps {
        let (i, j, d) = (s.range(0, N - 1), s.range(0, N - 1), s.range(0, N - 1));
        let p = draw(s);
        let pu: F::Uint = ub(&p);
        let k = match s.weighted(&[3, 1, 1]) {
            0 => s.range(0, bl),
            1 => s.range(0, 3) * 64,
            _ => s.range(0, F::Uint::BITS + 70),
        };
        let (a, b, va, vb) = (x[i], x[j], v[i].clone(), v[j].clone());
        let shl = |v: &BigUint| if k >= F::Uint::BITS { BigUint::default() } else { (v << k) & &m };
        let shr = |v: &BigUint| v >> k;
        let (name, r, want): (&str, [Bs<F>; 3], BigUint) = match s.below(23) {
            0 => ("a ^ b", zip(a, b, |a, b| a ^ b), va ^ vb),
            1 => ("&a ^ &b", zip(a, b, |a, b| &a ^ &b), va ^ vb),
            2 => ("a ^= b", zip(a, b, |mut a, b| { a ^= b; a }), va ^ vb),
            3 => ("a ^= &b", zip(a, b, |mut a, b| { a ^= &b; a }), va ^ vb),
            4 => ("a << k", each(a, |_, a| a << k), shl(&va)),
            5 => ("&a << k", each(a, |_, a| &a << k), shl(&va)),
            6 => ("a <<= k", each(a, |_, mut a| { a <<= k; a }), shl(&va)),
            7 => ("a >> k", each(a, |_, a| a >> k), shr(&va)),
            8 => ("&a >> k", each(a, |_, a| &a >> k), shr(&va)),
            9 => ("xor_mask", each(a, |_, a| a.xor_mask(&pu)), va ^ &p),
            10 => ("xor_mask_assign", each(a, |_, mut a| { a.xor_mask_assign(&pu); a }), va ^ &p),
            11 => ("and_mask", each(a, |_, a| a.and_mask(&pu)), va & &p),
            12 => ("and_mask_assign", each(a, |_, mut a| { a.and_mask_assign(&pu); a }), va & &p),
            13 => ("zero_share", each(a, |_, _| Bs::zero_share()), BigUint::default()),
            14 => ("default", each(a, |_, _| Bs::default()), BigUint::default()),
            15 => ("promote_to_trivial_share", IDS.map(|id| binary::promote_to_trivial_share(id, &pu)), p.clone()),
            16 => ("xor", zip(a, b, |a, b| binary::xor(&a, &b)), va ^ vb),
            17 => ("xor_public", each(a, |q, a| binary::xor_public(&a, &pu, IDS[q])), va ^ &p),
            18 => ("or_public", each(a, |q, a| binary::or_public(&a, &pu, IDS[q])), va | &p),
            19 => ("and_with_public", each(a, |_, a| binary::and_with_public(&a, &pu)), va & &p),
            20 => ("shift_r_public", each(a, |_, a| binary::shift_r_public(&a, F::from(k as u64))), shr(&va)),
            21 => {
                let f = F::from(k as u64);
                if k >= bl {
                    check!(
                        caught(|| binary::shift_l_public(&a[0], f)).is_err(),
                        "shift_l_public by {k} >= {bl} was accepted"
                    );
                    continue;
                }
                ("shift_l_public", each(a, |_, a| binary::shift_l_public(&a, f)), shl(&va))
            }
            _ => {
                let sum = zip(a, b, |a, b| bu(&(a & b))).into_iter().fold(BigUint::default(), |x, y| x ^ y);
                check_eq!(sum, &va & &vb, "local AND of bit shares");
                let sum = zip(a, b, |a, b| bu(&(&a & &b))).into_iter().fold(BigUint::default(), |x, y| x ^ y);
                check_eq!(sum, &va & &vb, "local AND of bit share references");
                let pv: Vec<BigUint> = (0..N).map(|_| draw(s)).collect();
                let pus: Vec<F::Uint> = pv.iter().map(ub).collect();
                let per = parties(&x);
                let o: Vec<Vec<Bs<F>>> = (0..3).map(|q| binary::xor_public_vec(&per[q], &pus, IDS[q])).collect();
                for (q, t) in triples("xor_public_vec", &o, N)?.into_iter().enumerate() {
                    check_eq!(bval("xor_public_vec", t)?, &v[q] ^ &pv[q], "xor_public_vec at {q}");
                }
                let mut buf = vec![];
                a[2].serialize_uncompressed(&mut buf).map_err(|e| Fail::from(e.to_string()))?;
                let back = Bs::<F>::deserialize_uncompressed(&buf[..]).map_err(|e| Fail::from(e.to_string()))?;
                check!(back == a[2] && a[2].ab() == (a[2].a, a[2].b), "bit share after serialization");
                continue;
            }
        };
        log.push(format!("{name} k={k}"));
        check_eq!(bval(name, r)?, want, "bit strings of {} bits: {name} after {log:?}", F::Uint::BITS);
        x[d] = r;
        v[d] = want;
    }
    Ok(())
}
fn ops_binary(s: &mut Src) -> R {
    any_rep_field!(s, binary_ops)
}

fn ring_ops<T: IntRing2k>(s: &mut Src) -> R {
    const N: usize = 4;
    let bin = s.bool();
    let m = BigUint::one() << T::K;
    let mut v: Vec<BigUint> = (0..N).map(|_| ring::<T>(s)).collect();
    let mut x: Vec<[Rs<T>; 3]> =
        v.iter().map(|v| if bin { rxshare(s, v) } else { rshare(s, v) }).collect();
    let steps = s.range(1, 14);
    if steps > 2 {
        s.nontrivial();
    }
    s.label(format!("ring {} {}", T::K, if bin { "binary" } else { "arithmetic" }));
    let mut log = vec![];
    for _ in 0..steps {
        let (i, j, d) = (s.range(0, N - 1), s.range(0, N - 1), s.range(0, N - 1));
        let p = ring::<T>(s);
        let pr = re::<T>(&p);
        let k = if s.chance(1, 4) { s.range(0, T::K + 70) } else { s.range(0, T::K) };
        let (a, b, va, vb) = (x[i], x[j], v[i].clone(), v[j].clone());
        let (name, r, want): (&str, [Rs<T>; 3], BigUint) = if !bin {
            match s.below(28) {
                0 => ("a + b", zip(a, b, |a, b| a + b), (va + vb) % &m),
                1 => ("&a + &b", zip(a, b, |a, b| &a + &b), (va + vb) % &m),
                2 => ("a += b", zip(a, b, |mut a, b| { a += b; a }), (va + vb) % &m),
                3 => ("a += &b", zip(a, b, |mut a, b| { a += &b; a }), (va + vb) % &m),
                4 => ("a - b", zip(a, b, |a, b| a - b), (va + &m - vb) % &m),
                5 => ("&a - &b", zip(a, b, |a, b| &a - &b), (va + &m - vb) % &m),
                6 => ("a -= b", zip(a, b, |mut a, b| { a -= b; a }), (va + &m - vb) % &m),
                7 => ("a * p", each(a, |_, a| a * pr), (va * &p) % &m),
                8 => ("&a * p", each(a, |_, a| &a * pr), (va * &p) % &m),
                9 => ("a *= p", each(a, |_, mut a| { a *= pr; a }), (va * &p) % &m),
                10 => ("-a", each(a, |_, a| -a), (&m - va) % &m),
                11 => ("double", each(a, |_, mut a| { a.double(); a }), (va << 1) % &m),
                12 => ("zero_share", each(a, |_, _| Rs::zero_share()), BigUint::default()),
                13 => ("default", each(a, |_, _| Rs::default()), BigUint::default()),
                14 => ("Zero::zero", each(a, |_, _| <Rs<T> as Zero>::zero()), BigUint::default()),
                15 => ("add", zip(a, b, |a, b| rarith::add(a, b)), (va + vb) % &m),
                16 => ("add_assign", zip(a, b, |mut a, b| { rarith::add_assign(&mut a, b); a }), (va + vb) % &m),
                17 => ("add_public", each(a, |q, a| rarith::add_public(a, pr, IDS[q])), (va + &p) % &m),
                18 => (
                    "add_assign_public",
                    each(a, |q, mut a| { rarith::add_assign_public(&mut a, pr, IDS[q]); a }),
                    (va + &p) % &m,
                ),
                19 => ("sub", zip(a, b, |a, b| rarith::sub(a, b)), (va + &m - vb) % &m),
                20 => ("sub_assign", zip(a, b, |mut a, b| { rarith::sub_assign(&mut a, b); a }), (va + &m - vb) % &m),
                21 => (
                    "sub_shared_by_public",
                    each(a, |q, a| rarith::sub_shared_by_public(a, pr, IDS[q])),
                    (va + &m - &p) % &m,
                ),
                22 => (
                    "sub_public_by_shared",
                    each(a, |q, a| rarith::sub_public_by_shared(pr, a, IDS[q])),
                    (&p + &m - va) % &m,
                ),
                23 => ("mul_public", each(a, |_, a| rarith::mul_public(a, pr)), (va * &p) % &m),
                24 => ("mul_assign_public", each(a, |_, mut a| { rarith::mul_assign_public(&mut a, pr); a }), (va * &p) % &m),
                25 => ("neg", each(a, |_, a| rarith::neg(a)), (&m - va) % &m),
                26 => ("add_mul_public", zip(a, b, |a, b| rarith::add_mul_public(a, b, pr)), (va + vb * &p) % &m),
                _ => {
                    let sum: BigUint = zip(a, b, |a, b| br(a * b)).into_iter().sum();
                    check_eq!(sum % &m, (&va * &vb) % &m, "local product of ring shares");
                    let sum: BigUint = zip(a, b, |a, b| br(&a * &b)).into_iter().sum();
                    check_eq!(sum % &m, (&va * &vb) % &m, "local product of ring share references");
                    let (mut l, mut n) = (parties(&x), parties(&x));
                    let mut y = x.clone();
                    y.reverse();
                    let ys = parties(&y);
                    for q in 0..3 {
                        rarith::add_vec_assign(&mut l[q], &ys[q]);
                        rarith::sub_vec_assign(&mut n[q], &ys[q]);
                    }
                    for q in 0..N {
                        let w = &v[N - 1 - q];
                        check_eq!(rval("add_vec_assign", triples("", &l, N)?[q])?, (&v[q] + w) % &m, "ring add_vec_assign");
                        check_eq!(rval("sub_vec_assign", triples("", &n, N)?[q])?, (&v[q] + &m - w) % &m, "ring sub_vec_assign");
                    }
                    continue;
                }
            }
        } else {
            let not = (&m - 1u8) ^ &va;
            let shl = if k >= T::K { BigUint::default() } else { (&va << k) % &m };
            match s.below(26) {
                0 => ("a ^ b", zip(a, b, |a, b| a ^ b), va ^ vb),
                1 => ("&a ^ &b", zip(a, b, |a, b| &a ^ &b), va ^ vb),
                2 => ("a ^= b", zip(a, b, |mut a, b| { a ^= b; a }), va ^ vb),
                3 => ("a ^= &b", zip(a, b, |mut a, b| { a ^= &b; a }), va ^ vb),
                4 => ("a ^ p", each(a, |_, a| a ^ pr), va ^ &p),
                5 => ("&a ^ &p", each(a, |_, a| &a ^ &pr), va ^ &p),
                6 => ("a ^= p", each(a, |_, mut a| { a ^= pr; a }), va ^ &p),
                7 => ("a ^= &p", each(a, |_, mut a| { a ^= &pr; a }), va ^ &p),
                8 => ("a & p", each(a, |_, a| a & pr), va & &p),
                9 => ("&a & &p", each(a, |_, a| &a & &pr), va & &p),
                10 => ("a &= p", each(a, |_, mut a| { a &= pr; a }), va & &p),
                11 => ("a &= &p", each(a, |_, mut a| { a &= &pr; a }), va & &p),
                12 => ("a << k", each(a, |_, a| a << k), shl),
                13 => ("&a << k", each(a, |_, a| &a << k), shl),
                14 => ("a <<= k", each(a, |_, mut a| { a <<= k; a }), shl),
                15 => ("a >> k", each(a, |_, a| a >> k), va >> k),
                16 => ("&a >> k", each(a, |_, a| &a >> k), va >> k),
                17 => ("!a", each(a, |_, a| !a), not),
                18 => ("!&a", each(a, |_, a| !&a), not),
                19 => ("xor", zip(a, b, |a, b| rbin::xor(&a, &b)), va ^ vb),
                20 => ("xor_public", each(a, |q, a| rbin::xor_public(&a, &pr, IDS[q])), va ^ &p),
                21 => ("or_public", each(a, |q, a| rbin::or_public(&a, &pr, IDS[q])), va | &p),
                22 => ("and_with_public", each(a, |_, a| rbin::and_with_public(&a, &pr)), va & &p),
                23 | 24 => {
                    // the amount is itself a ring element
                    let kk = BigUint::from(k) % &m;
                    let kr = re::<T>(&kk);
                    let k: usize = kk.try_into().unwrap();
                    if s.bool() {
                        ("shift_r_public", each(a, |_, a| rbin::shift_r_public(&a, kr)), va >> k)
                    } else {
                        let w = if k >= T::K { BigUint::default() } else { (va << k) % &m };
                        ("shift_l_public", each(a, |_, a| rbin::shift_l_public(&a, kr)), w)
                    }
                }
                _ => {
                    let sum = zip(a, b, |a, b| br(a & b)).into_iter().fold(BigUint::default(), |x, y| x ^ y);
                    check_eq!(sum, &va & &vb, "local AND of ring shares");
                    let sum = zip(a, b, |a, b| br(&a & &b)).into_iter().fold(BigUint::default(), |x, y| x ^ y);
                    check_eq!(sum, &va & &vb, "local AND of ring share references");
                    let q = s.range(0, T::K - 1);
                    let bit: [Rs<Bit>; 3] = each(a, |_, a| a.get_bit(q));
                    check_eq!(
                        rxval("get_bit", bit)?,
                        BigUint::from(va.bit(q as u64) as u8),
                        "get_bit {q} of a {}-bit ring share",
                        T::K
                    );
                    continue;
                }
            }
        };
        log.push(format!("{name} k={k} p={p:x}"));
        let got = if bin { rxval(name, r)? } else { rval(name, r)? };
        check_eq!(got, want, "ring of {} bits: {name} after {log:?}", T::K);
        x[d] = r;
        v[d] = want;
    }
    Ok(())
}
fn ops_ring(s: &mut Src) -> R {
    any_ring!(s, ring_ops)
}

// ---- party identities and the three-party network helpers ----

fn ids(s: &mut Src) -> R {
    let i = s.range(0, 2);
    let id = IDS[i];
    s.nontrivial();
    check_eq!(usize::from(id), i, "index of a party identity");
    check_eq!(usize::from(id.next()), (i + 1) % 3, "next party of {i}");
    check_eq!(usize::from(id.prev()), (i + 2) % 3, "previous party of {i}");
    check_eq!(id.to_string(), i.to_string(), "display of a party identity");
    let n = if s.bool() { s.range(0, 5) } else { s.word() as usize };
    match rep3::id::PartyID::try_from(n) {
        Ok(p) => check!(n < 3 && usize::from(p) == n, "index {n} became party {p:?}"),
        Err(_) => check!(n >= 3, "index {n} was refused"),
    }
    let b = n as u8;
    check_eq!(
        rep3::id::PartyID::try_from(b).ok().map(usize::from),
        if b < 3 { Some(b as usize) } else { None },
        "party identity from the byte {b}"
    );
    Ok(())
}

fn network(s: &mut Src) -> R {
    type F = ark_bn254::Fr;
    let n: Vec<usize> = (0..3).map(|_| if s.chance(1, 3) { 1 } else { s.range(0, 5) }).collect();
    let data: Vec<Vec<F>> = n.iter().map(|n| (0..*n).map(|_| felt(s)).collect()).collect();
    if n.iter().any(|n| *n > 1) {
        s.nontrivial();
    }
    let what = s.below(7);
    s.note(|| format!("helper {what} with {n:?} elements per party"));
    let d = &data;
    // every helper is followed by one more exchange, which must not see leftovers of it
    let outs = run_nets(3, 1, None, vec![0usize, 1, 2], |_, nets, i| {
        let net = &nets[0];
        let (nx, pv) = (IDS[i].next(), IDS[i].prev());
        let (mut got, single): (Vec<(usize, Vec<F>)>, bool) = match what {
            0 => (vec![((i + 2) % 3, net.reshare_many(&d[i])?)], false),
            1 => {
                let (p, q) = net.broadcast_many(&d[i])?;
                (vec![((i + 2) % 3, p), ((i + 1) % 3, q)], false)
            }
            2 => {
                net.send_next_many(&d[i])?;
                (vec![((i + 2) % 3, net.recv_prev_many()?)], false)
            }
            3 => {
                net.send_prev_many(&d[i])?;
                (vec![((i + 1) % 3, net.recv_next_many()?)], false)
            }
            4 => (vec![((i + 1) % 3, net.send_and_recv_many(pv, &d[i], nx)?)], false),
            5 => {
                net.send_both_many(&d[i])?;
                let a = net.recv_many(pv)?;
                let b = net.recv_many(nx)?;
                (vec![((i + 2) % 3, a), ((i + 1) % 3, b)], false)
            }
            _ => {
                // receivers of a single element
                net.send_many(nx, &d[i])?;
                let r: eyre::Result<F> = if i == 0 { net.recv_prev() } else { net.recv_from(pv) };
                match r {
                    Ok(v) => (vec![((i + 2) % 3, vec![v])], true),
                    Err(_) => (vec![], true),
                }
            }
        };
        let r = net.reshare(F::from(1000 + i as u64))?;
        eyre::ensure!(r == F::from(1000 + (i as u64 + 2) % 3), "leftover message after helper {what}");
        let (p, q) = net.broadcast(F::from(2000 + i as u64))?;
        eyre::ensure!(
            p == F::from(2000 + (i as u64 + 2) % 3) && q == F::from(2000 + (i as u64 + 1) % 3),
            "broadcast returned other data"
        );
        net.send_prev(F::from(i as u64))?;
        eyre::ensure!(net.recv_next::<F>()? == F::from((i as u64 + 1) % 3), "send_prev/recv_next");
        let x: F = net.send_and_recv(nx, F::from(7 + i as u64), pv)?;
        eyre::ensure!(x == F::from(7 + (i as u64 + 2) % 3), "send_and_recv");
        got.sort_by_key(|g| g.0);
        Ok((got, single))
    });
    for (i, (got, single)) in all_ok("network helpers", outs)?.into_iter().enumerate() {
        let from = (i + 2) % 3;
        if single {
            match got.first() {
                Some((_, v)) => {
                    check!(data[from].len() == 1, "party {i} took one element out of {} sent", data[from].len());
                    check_eq!(v, &data[from], "element received by party {i}");
                }
                None => check!(data[from].len() != 1, "party {i} refused the single element sent"),
            }
        } else {
            for (p, v) in got {
                check_eq!(v, data[p], "helper {what}: data party {i} received from party {p}");
            }
        }
    }
    Ok(())
}

// ---- R06 ----

#[derive(Clone, Debug)]
enum Draw {
    Mask,
    MaskVec(usize),
    Fes,
    Ring(u8),
    RingVec(u8, usize),
    Ec,
    Ecs,
    Uint(usize),
    Single(u8),
    Seeds,
    Perm(usize),
    Shared,
    Garbler,
    Delta,
    Rand,
    Fork,
    ForkUse(usize),
}
fn draw_op(s: &mut Src, forks: &mut usize) -> Draw {
    match s.below(17) {
        0 => Draw::Mask,
        1 => Draw::MaskVec(if s.chance(1, 6) { s.range(0, 1500) } else { s.range(0, 9) }),
        2 => Draw::Fes,
        3 => Draw::Ring(s.below(8) as u8),
        4 => Draw::RingVec(s.below(8) as u8, if s.chance(1, 6) { s.range(0, 1500) } else { s.range(0, 9) }),
        5 => Draw::Ec,
        6 => Draw::Ecs,
        7 => Draw::Uint(s.range(0, 256)),
        8 => Draw::Single(s.below(8) as u8),
        9 => Draw::Seeds,
        10 => Draw::Perm(s.range(0, 40)),
        11 => Draw::Shared,
        12 => Draw::Garbler,
        13 => Draw::Delta,
        14 => Draw::Rand,
        15 => {
            *forks += 1;
            Draw::Fork
        }
        _ => Draw::ForkUse(s.range(0, *forks)),
    }
}

/// What one party saw of one draw. `Zero`: summands of a zero sharing (arithmetic in the given group).
/// `Pair`: (drawn from the own generator, drawn from the generator shared with the previous party).
#[derive(Clone, Debug, PartialEq)]
enum Seen {
    ZeroF(Vec<ark_bn254::Fr>),
    ZeroC(ark_bn254::G1Projective),
    ZeroR(usize, Vec<BigUint>),
    Pair(Vec<u8>, Vec<u8>),
    All(Vec<u8>),
    Garbler(Option<Vec<u8>>),
    Own(usize, Vec<u8>),
    Nothing,
}
fn ser<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut b = vec![];
    x.serialize_uncompressed(&mut b).unwrap();
    b
}
fn ring_draw<T: IntRing2k>(st: &mut Rep3State, n: Option<usize>) -> Seen
where
    Standard: Distribution<T>,
{
    let v: Vec<Re<T>> = match n {
        Some(n) => st.rngs.rand.masking_elements_vec::<Re<T>>(n),
        None => vec![st.rngs.rand.masking_element::<Re<T>>()],
    };
    Seen::ZeroR(T::K, v.into_iter().map(br).collect())
}
fn ring_any(st: &mut Rep3State, k: u8, n: Option<usize>) -> Seen {
    use mpc_core::uint::{U512, U1024};
    match k {
        0 => ring_draw::<Bit>(st, n),
        1 => ring_draw::<u8>(st, n),
        2 => ring_draw::<u16>(st, n),
        3 => ring_draw::<u32>(st, n),
        4 => ring_draw::<u64>(st, n),
        5 => ring_draw::<u128>(st, n),
        6 => ring_draw::<U512>(st, n),
        _ => ring_draw::<U1024>(st, n),
    }
}
fn do_draw(st: &mut Rep3State, d: &Draw) -> eyre::Result<Seen> {
    type F = ark_bn254::Fr;
    type C = ark_bn254::G1Projective;
    let id = st.id;
    let r = &mut st.rngs.rand;
    let pair = |a: Vec<u8>, b: Vec<u8>| Seen::Pair(a, b);
    Ok(match d {
        Draw::Mask => Seen::ZeroF(vec![r.masking_field_element()]),
        Draw::MaskVec(n) => Seen::ZeroF(r.masking_field_elements_vec(*n)),
        Draw::Fes => {
            let (a, b) = r.random_fes::<F>();
            pair(ser(&a), ser(&b))
        }
        Draw::Ring(k) => ring_any(st, *k, None),
        Draw::RingVec(k, n) => ring_any(st, *k, Some(*n)),
        Draw::Ec => Seen::ZeroC(r.masking_ec_element()),
        Draw::Ecs => {
            let (a, b) = r.random_ecs::<C>();
            pair(ser(&a), ser(&b))
        }
        Draw::Uint(n) => {
            let (a, b) = r.random_uint::<U256>(*n);
            eyre::ensure!(bu(&a).bits() <= *n as u64 && bu(&b).bits() <= *n as u64, "more than {n} bits");
            pair(ser(&a), ser(&b))
        }
        Draw::Single(k) => {
            // one generator at a time; both must be advanced to stay in step
            match k % 3 {
                0 => {
                    let b: F = r.random_field_element_rng2();
                    let a: F = r.random_field_element_rng1();
                    pair(ser(&a), ser(&b))
                }
                1 => {
                    let a: u64 = r.random_element_rng1();
                    let b: u64 = r.random_element_rng2();
                    pair(ser(&a), ser(&b))
                }
                _ => {
                    let b = r.random_uint_rng2::<U256>(100);
                    let a = r.random_uint_rng1::<U256>(100);
                    pair(ser(&a), ser(&b))
                }
            }
        }
        Draw::Seeds => {
            let (a, b) = r.random_seeds();
            pair(a.to_vec(), b.to_vec())
        }
        Draw::Perm(n) => {
            let v: Vec<u32> = (0..*n as u32).collect();
            let (a, b) = r.random_perm(v.clone());
            for p in [&a, &b] {
                let mut q = p.clone();
                q.sort();
                eyre::ensure!(q == v, "random_perm is not a permutation: {p:?}");
            }
            pair(ser(&a), ser(&b))
        }
        Draw::Shared => Seen::All(ser(&(st.rngs.generate_shared::<u128>(id) as u64))),
        Draw::Garbler => {
            if usize::from(id) == 0 {
                eyre::ensure!(
                    caught(|| st.rngs.generate_garbler_randomness::<u64>(id)).is_err(),
                    "the evaluator obtained garbler randomness"
                );
                // the first party shares one generator with each garbler and draws nothing here
                Seen::Garbler(None)
            } else {
                Seen::Garbler(Some(ser(&st.rngs.generate_garbler_randomness::<u64>(id))))
            }
        }
        Draw::Delta => {
            let d = st.rngs.generate_random_garbler_delta(id);
            Seen::Garbler(d.map(|d| format!("{d:?}").into_bytes()))
        }
        Draw::Rand => {
            let x: Fs<F> = arithmetic::rand(st);
            pair(ser(&x.a), ser(&x.b))
        }
        Draw::Fork | Draw::ForkUse(_) => Seen::Nothing,
    })
}

fn history(s: &mut Src) -> R {
    let mut forks = 0;
    let ops: Vec<(Draw, usize)> = (0..s.range(1, 30))
        .map(|_| {
            let d = draw_op(s, &mut forks);
            (d, s.range(0, forks))
        })
        .collect();
    s.note(|| format!("{ops:?}"));
    if ops.len() > 4 {
        s.nontrivial();
    }
    if forks > 0 {
        s.label("with forks");
    }
    let set = Setup::draw(s);
    let ops = &ops;
    let seen = run3("draws", set, [0, 1, 2], |_, st, _| {
        let mut states: Vec<Rep3State> = vec![];
        let mut out = vec![];
        out.push(do_draw(st, &Draw::Seeds)?);
        for (d, at) in ops {
            // index 0 is the original state, the others are its forks in order of creation
            let cur = (*at).min(states.len());
            if let Draw::Fork = d {
                let f = if cur == 0 { st.fork(0)? } else { states[cur - 1].fork(0)? };
                eyre::ensure!(f.id == st.id, "fork of party {:?} is party {:?}", st.id, f.id);
                eyre::ensure!(f.id() == st.id, "id() of the fork");
                states.push(f);
                out.push(Seen::Nothing);
                continue;
            }
            let t = if cur == 0 { &mut *st } else { &mut states[cur - 1] };
            out.push(do_draw(t, d)?);
            // the party's own generator
            if let Draw::Mask = d {
                use rand::Rng;
                out.push(Seen::Own(usize::from(t.id), t.rng.r#gen::<[u8; 16]>().to_vec()));
            }
        }
        // every fork and the original end with a wide draw, to compare them for independence
        out.push(do_draw(st, &Draw::Seeds)?);
        for t in &mut states {
            out.push(do_draw(t, &Draw::Seeds)?);
            out.push(Seen::Own(usize::from(t.id), {
                use rand::Rng;
                t.rng.r#gen::<[u8; 16]>().to_vec()
            }));
        }
        for t in std::iter::once(&mut *st).chain(states.iter_mut()) {
            out.push(do_draw(t, &Draw::Shared)?);
            out.push(do_draw(t, &Draw::Garbler)?);
        }
        Ok(out)
    })?;
    let n = seen[0].len();
    check!(seen.iter().all(|x| x.len() == n), "parties made different numbers of draws");
    let mut fresh: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut once = |b: &Vec<u8>, what: &str, k: usize| -> R {
        if b.len() >= 8 {
            check!(fresh.insert(b.clone()), "{what} of draw {k} repeats an earlier value");
        }
        Ok(())
    };
    for k in 0..n {
        let t = [seen[0][k].clone(), seen[1][k].clone(), seen[2][k].clone()];
        let name = if k >= 1 && k <= ops.len() { format!("draw {k}") } else { "final draws".into() };
        match &t {
            [Seen::ZeroF(a), Seen::ZeroF(b), Seen::ZeroF(c)] => {
                check!(a.len() == b.len() && b.len() == c.len(), "{name}: mask vectors of different lengths");
                for q in 0..a.len() {
                    check!((a[q] + b[q] + c[q]).is_zero(), "{name}: field masks at {q} do not sum to zero");
                    for m in [a[q], b[q], c[q]] {
                        once(&ser(&m), "field mask", k)?;
                    }
                }
            }
            [Seen::ZeroC(a), Seen::ZeroC(b), Seen::ZeroC(c)] => {
                check!((*a + *b + *c).is_zero(), "{name}: point masks do not sum to zero");
                for m in [a, b, c] {
                    once(&ser(m), "point mask", k)?;
                }
            }
            [Seen::ZeroR(w, a), Seen::ZeroR(_, b), Seen::ZeroR(_, c)] => {
                check!(a.len() == b.len() && b.len() == c.len(), "{name}: mask vectors of different lengths");
                for q in 0..a.len() {
                    let sum = (&a[q] + &b[q] + &c[q]) & mask(*w);
                    check!(sum.is_zero(), "{name}: {w}-bit ring masks at {q} sum to {sum}");
                    if *w >= 128 {
                        for m in [&a[q], &b[q], &c[q]] {
                            once(&m.to_bytes_le(), "ring mask", k)?;
                        }
                    }
                }
            }
            [Seen::Pair(..), Seen::Pair(..), Seen::Pair(..)] => {
                for i in 0..3 {
                    let (Seen::Pair(a, _), Seen::Pair(_, b)) = (&t[i], &t[(i + 1) % 3]) else { unreachable!() };
                    check!(
                        a == b,
                        "{name}: party {i} and its successor drew different values from their common generator"
                    );
                    if a.len() >= 32 && a.iter().filter(|b| **b != 0).count() > 24 {
                        once(a, "value", k)?;
                    }
                }
            }
            [Seen::All(a), Seen::All(b), Seen::All(c)] => {
                check!(a == b && b == c, "{name}: the value common to all parties differs between them");
                once(a, "common value", k)?;
            }
            [Seen::Garbler(a), Seen::Garbler(b), Seen::Garbler(c)] => {
                check!(a.is_none(), "{name}: the evaluator got garbler randomness");
                check!(b.is_some() && b == c, "{name}: the garblers drew different values");
                once(b.as_ref().unwrap(), "garbler value", k)?;
            }
            [Seen::Own(_, a), Seen::Own(_, b), Seen::Own(_, c)] => {
                for m in [a, b, c] {
                    once(m, "value of a party's own generator", k)?;
                }
            }
            [Seen::Nothing, Seen::Nothing, Seen::Nothing] => {}
            t => fail!("{name}: parties saw different kinds of draws: {t:?}"),
        }
    }
    Ok(())
}

/// With one of the two seeds known, draws are uniform over the choice of the other.
fn one_sided<F: PrimeField>(s: &mut Src) -> R {
    const CELLS: usize = 16;
    type P = ark_grumpkin::Projective;
    use rep3::rngs::Rep3Rand;
    let kind = s.below(9);
    let (runs, len) = if kind == 6 { (400usize, 16usize) } else { (1500, 48) };
    let first = s.bool();
    let mut rng = s.rng();
    let known: [u8; 32] = rng.r#gen();
    let names = ["masking_field_elements_vec", "masking_field_element", "random_fes", "masking_elements_vec of 8 bits", "masking_elements_vec of 128 bits", "random_uint", "masking_ec_element", "random_perm", "masking_element of 64 bits"];
    s.units = (runs * len) as u64;
    s.nontrivial();
    s.note(|| format!("{} over {}, known seed first: {first}", names[kind as usize], std::any::type_name::<F>()));
    let cells = if kind == 7 { 4 } else { CELLS };
    let mut hs = vec![vec![0u64; cells]; len];
    for _ in 0..runs {
        let other: [u8; 32] = rng.r#gen();
        let mut r = if first { Rep3Rand::new(known, other) } else { Rep3Rand::new(other, known) };
        let v: Vec<usize> = match kind {
            0 => r.masking_field_elements_vec::<F>(len).into_iter().map(|x| part(x, 16)).collect(),
            1 => (0..len).map(|_| part(r.masking_field_element::<F>(), 16)).collect(),
            2 => (0..len).map(|_| { let (a, b) = r.random_fes::<F>(); part(if first { b } else { a }, 16) }).collect(),
            3 => r.masking_elements_vec::<Re<u8>>(len).into_iter().map(|x| (x.0 >> 4) as usize).collect(),
            4 => r.masking_elements_vec::<Re<u128>>(len).into_iter().map(|x| (x.0 >> 124) as usize).collect(),
            5 => (0..len).map(|_| { let (a, b) = r.random_uint::<U256>(200); (bu(&if first { b } else { a }) >> 196usize).iter_u64_digits().next().unwrap_or(0) as usize }).collect(),
            6 => (0..len).map(|_| { use ark_ec::AffineRepr; r.masking_ec_element::<P>().into_affine().x().map_or(0, |x| part(x, 16)) }).collect(),
            7 => (0..len).map(|_| { let (a, b) = r.random_perm(vec![0usize, 1, 2, 3]); (if first { b } else { a })[1] }).collect(),
            _ => (0..len).map(|_| (r.masking_element::<Re<u64>>().0 >> 60) as usize).collect(),
        };
        check_eq!(v.len(), len, "number of draws");
        for (h, v) in hs.iter_mut().zip(v) {
            check!(v < cells, "a draw is too large");
            h[v] += 1;
        }
    }
    let z = uniform_z_many(&hs, cells);
    check!(z < Z_LIMIT, "{}: not uniform over the choice of one seed (score {z:.1}, {} draws in {runs} runs)", names[kind as usize], len);
    Ok(())
}
fn one_sided_any(s: &mut Src) -> R {
    any_rep_field!(s, one_sided)
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "R01",
            rule: "a batch of at least two values, or a program of more than two operators",
            assumptions: "",
            subs: vec![
                Sub::new("field-sharing", 7500, 60000, sharing_field),
                Sub::new("bit-sharing", 7500, 60000, sharing_binary),
                Sub::new("point-sharing", 900, 8000, sharing_point),
                Sub::new("ring-sharing", 7500, 60000, sharing_ring),
                Sub::new("field-operators", 30000, 200000, ops_field),
                Sub::new("point-operators", 1800, 15000, ops_point),
                Sub::new("bit-operators", 30000, 200000, ops_binary),
                Sub::new("ring-operators", 60000, 400000, ops_ring),
                Sub::new("party-ids", 2500, 5000, ids),
                Sub::new("network-helpers", 7500, 40000, network).workers(4),
            ],
        },
        Property {
            id: "R06",
            rule: "a history of more than four draws",
            assumptions: "forks and draws happen in the same order at all three parties, as the protocols do",
            subs: vec![Sub::new("draw-histories", 7500, 60000, history).workers(4), Sub::new("one-sided", 60, 600, one_sided_any)],
        },
    ]
}
