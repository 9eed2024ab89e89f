//! C06: Merkle trees. C08: plain lookup tables.
use crate::poseidon::{Made, Spec, rep3_value};
use ark_ec::CurveGroup;
use ark_ff::PrimeField;
use engine::*;
use mpc_core::gadgets::poseidon2::Poseidon2;
use mpc_core::lut::*;
use mpc_core::protocols::rep3::conversion::A2BType;
use mpc_core::protocols::rep3::{self, Rep3PrimeFieldShare, Rep3State};
use mpc_core::protocols::shamir::*;
use std::collections::BTreeMap;
use vkit::*;
use vkit::{any_curve, any_field};

type Bn = ark_bn254::Fr;

/// Root of the tree, by its recursive definition.
fn node<F: PrimeField>(sp: &Spec<F>, sponge: bool, children: &[F]) -> F {
    let mut st = children.to_vec();
    st.resize(sp.t, F::zero());
    let out = sp.permutation(&st)[0];
    if sponge { out } else { out + st[0] }
}
fn root<F: PrimeField>(sp: &Spec<F>, sponge: bool, arity: usize, leaves: &[F]) -> F {
    if leaves.len() == 1 {
        return leaves[0];
    }
    let children: Vec<F> = leaves.chunks(leaves.len() / arity).map(|c| root(sp, sponge, arity, c)).collect();
    node(sp, sponge, &children)
}

fn leaves<F: PrimeField>(src: &mut Src, k: usize) -> Vec<F> {
    match src.below(4) {
        0 => {
            let pool: Vec<F> = (0..3).map(|_| felt(src)).collect();
            (0..k).map(|_| *src.pick(&pool)).collect()
        }
        1 => (0..k).map(|_| felt(src)).collect(),
        2 => {
            let mut v = vec![F::zero(); k];
            let i = src.range(0, k - 1);
            v[i] = felt(src);
            v
        }
        _ => {
            let mut rng = src.rng();
            (0..k).map(|_| F::rand(&mut rng)).collect()
        }
    }
}

fn plain_tree<F: PrimeField, const T: usize, const A: usize>(src: &mut Src, h: &Poseidon2<F, T, 5>, sponge: bool, max: usize, binding: bool) -> R {
    let sp = Spec::of(h.params);
    let mut height = 1;
    while A.pow(height + 1) <= max && src.chance(3, 4) {
        height += 1;
    }
    let k = A.pow(height);
    if height > 1 {
        src.nontrivial();
    }
    src.label(format!("T={T} arity {A} height {height} {}", if sponge { "sponge" } else { "compression" }));
    let lv: Vec<F> = leaves(src, k);
    let want = root(&sp, sponge, A, &lv);
    let what = format!("T={T}, arity {A}, {k} leaves, {}", if sponge { "sponge" } else { "compression" });
    src.note(|| format!("{what}: {lv:?}"));
    let got = if sponge { h.merkle_tree_sponge::<A>(lv.clone()) } else { h.merkle_tree_compression::<A>(lv.clone()) };
    check_eq!(got, want, "{what}: root");
    // the type of a path cannot be named or cloned from outside: it is computed again for each use
    let path = |i: usize| if sponge { h.merkle_tree_sponge_with_witness::<A>(lv.clone(), i) } else { h.merkle_tree_compression_with_witness::<A>(lv.clone(), i) };
    macro_rules! verify {
        ($r:expr, $l:expr, $w:expr) => {
            if sponge { h.verify_merkle_path_sponge($r, $l, $w) } else { h.verify_merkle_path_compression($r, $l, $w) }
        };
    }
    for _ in 0..2 {
        let i = match src.below(4) {
            0 => 0,
            1 => k - 1,
            _ => src.range(0, k - 1),
        };
        let (r, w) = path(i);
        check_eq!(r, want, "{what}: root with the path of leaf {i}");
        check_eq!(w.len(), height as usize, "{what}: length of the path of leaf {i}");
        // the path is made of the siblings on the way up
        let mut group = lv.clone();
        let mut at = i;
        for (l, e) in w.iter().enumerate() {
            check_eq!(e.position, at % A, "{what}: position {l} of the path of leaf {i}");
            let mut sib = group[at / A * A..at / A * A + A].to_vec();
            sib.remove(at % A);
            check_eq!(e.other, sib, "{what}: siblings {l} of the path of leaf {i}");
            group = group.chunks(A).map(|c| node(&sp, sponge, c)).collect();
            at /= A;
        }
        check!(verify!(want, lv[i], path(i).1), "{what}: the path of leaf {i} does not verify");
        if !binding {
            continue;
        }
        let d: F = nonzero(src);
        check!(!verify!(want, lv[i] + d, path(i).1), "{what}: the path of leaf {i} verifies for another leaf");
        check!(!verify!(want + d, lv[i], path(i).1), "{what}: the path of leaf {i} verifies against another root");
        let l = src.range(0, w.len() - 1);
        let j = src.range(0, A - 2);
        let mut x = path(i).1;
        x[l].other[j] += d;
        check!(!verify!(want, lv[i], x), "{what}: the path of leaf {i} verifies with sibling {j} of layer {l} changed");
        // the position: the same siblings in order, the element elsewhere among them
        let mut cur = lv[i];
        for (m, e) in w.iter().enumerate() {
            if m == l {
                break;
            }
            let mut c = e.other.clone();
            c.insert(e.position, cur);
            cur = node(&sp, sponge, &c);
        }
        for p in (0..A + 2).chain([usize::MAX, 1 << 32]) {
            if p == w[l].position {
                continue;
            }
            let mut x = path(i).1;
            x[l].position = p;
            let same = p < A && {
                let mut a = w[l].other.clone();
                a.insert(w[l].position, cur);
                let mut b = w[l].other.clone();
                b.insert(p, cur);
                a == b
            };
            let v = caught(|| verify!(want, lv[i], x)).map_err(|e| Fail::from(format!("{what}: position {p} crashes the verifier: {e}")))?;
            check!(v == same, "{what}: the path of leaf {i} with position {p} instead of {} in layer {l}: verifies {v}, expected {same}", w[l].position);
        }
        // layers missing, doubled or swapped
        if w.len() > 1 {
            let mut x = path(i).1;
            x.remove(l);
            check!(!verify!(want, lv[i], x), "{what}: the path of leaf {i} verifies without layer {l}");
        }
        let mut x = path(i).1;
        x.insert(l, path(i).1.swap_remove(l));
        check!(!verify!(want, lv[i], x), "{what}: the path of leaf {i} verifies with layer {l} doubled");
        // a sibling missing or one too many; in the first layer this changes the arity, which the hash cannot tell
        // from zeros
        let mut x = path(i).1;
        if l > 0 {
            if src.bool() {
                x[l].other.push(F::zero());
            } else {
                x[l].other.remove(j);
            }
            let v = caught(|| verify!(want, lv[i], x)).map_err(|e| Fail::from(format!("{what}: a wrong number of siblings crashes the verifier: {e}")))?;
            check!(!v, "{what}: the path of leaf {i} verifies with a wrong number of siblings in layer {l}");
        }
        // any other leaf value at any place gives another root
        let mut lv2 = lv.clone();
        let c = src.range(0, k - 1);
        lv2[c] += d;
        let r2 = if sponge { h.merkle_tree_sponge::<A>(lv2) } else { h.merkle_tree_compression::<A>(lv2) };
        check!(r2 != want, "{what}: changing leaf {c} does not change the root");
    }
    // a number of leaves that is no power of the arity is refused rather than some of them left out
    let bad = k + src.range(1, k * (A - 1) - 1);
    let mut more = lv.clone();
    more.resize(bad, F::one());
    let r = caught(|| if sponge { h.merkle_tree_sponge::<A>(more.clone()) } else { h.merkle_tree_compression::<A>(more.clone()) });
    check!(r.is_err(), "{what}: {bad} leaves are accepted");
    let r = caught(|| if sponge { h.merkle_tree_sponge_with_witness::<A>(more.clone(), 0).0 } else { h.merkle_tree_compression_with_witness::<A>(more.clone(), 0).0 });
    check!(r.is_err(), "{what}: {bad} leaves are accepted for a path");
    Ok(())
}

macro_rules! pairs {
    ($src:expr, $go:ident; $($w:literal: $t:literal $a:literal $sponge:literal),*) => {{
        let w = [$($w),*];
        let x = $src.weighted(&w);
        let mut i = 0;
        $(
            if i == x {
                return $go!($t, $a, $sponge);
            }
            i += 1;
        )*
        let _ = i;
        unreachable!()
    }};
}

/// Generated parameters.
fn any_params<F: PrimeField>(src: &mut Src, max: usize) -> R {
    macro_rules! go {
        ($t:literal, $a:literal, $sponge:literal) => {{
            let m = Made::<F, $t, 5>::new(src, 2, 3);
            plain_tree::<F, $t, $a>(src, &m.hash(), $sponge, max, false)
        }};
    }
    pairs!(src, go;
        2: 2 2 false, 2: 3 2 true, 1: 3 2 false, 2: 3 3 false, 2: 4 2 true, 2: 4 2 false, 2: 4 3 true, 2: 4 3 false, 2: 4 4 false,
        1: 8 4 true, 1: 8 8 false, 1: 8 7 true, 1: 12 12 false, 1: 12 5 true, 1: 16 15 true, 1: 16 16 false, 1: 16 8 false, 1: 24 20 true)
}
/// Published parameters.
fn published(src: &mut Src) -> R {
    macro_rules! go {
        ($t:literal, $a:literal, $sponge:literal) => {
            plain_tree::<Bn, $t, $a>(src, &Poseidon2::default(), $sponge, 100, true)
        };
    }
    pairs!(src, go;
        2: 2 2 false, 2: 3 2 true, 1: 3 2 false, 2: 3 3 false, 2: 4 2 true, 2: 4 2 false, 2: 4 3 true, 2: 4 3 false, 2: 4 4 false, 1: 16 15 true, 1: 16 16 false, 1: 16 4 true, 1: 16 2 false)
}

fn shared_tree<F: PrimeField, const T: usize, const A: usize>(src: &mut Src, h: &Poseidon2<F, T, 5>, sponge: bool, rep: bool, max: usize) -> R {
    let sp = Spec::of(h.params);
    let mut height = 1;
    while A.pow(height + 1) <= max && src.chance(3, 4) {
        height += 1;
    }
    let k = A.pow(height);
    if height > 1 {
        src.nontrivial();
    }
    src.label(format!("T={T} arity {A} height {height}"));
    let lv: Vec<F> = leaves(src, k);
    let want = root(&sp, sponge, A, &lv);
    let what = format!("T={T}, arity {A}, {k} leaves, {} over {} shares", if sponge { "sponge" } else { "compression" }, if rep { "replicated" } else { "Shamir" });
    let mut rng = src.rng();
    if rep {
        let args = rep3::share_field_elements(&lv, &mut rng).to_vec();
        let outs = run_parties(&what, 3, args, |_, net, sh: Vec<Rep3PrimeFieldShare<F>>| {
            let mut st = Rep3State::new(net, A2BType::default())?;
            let r = if sponge { h.merkle_tree_sponge_rep3::<A, _>(sh, net, &mut st)? } else { h.merkle_tree_compression_rep3::<A, _>(sh, net, &mut st)? };
            Ok((r, rep3::arithmetic::open(r, net)?))
        })?;
        check_eq!(rep3_value(&what, [outs[0].0, outs[1].0, outs[2].0])?, want, "{what}: root");
        for (i, o) in outs.iter().enumerate() {
            check_eq!(o.1, want, "{what}: root opened at party {i}");
        }
    } else {
        let (n, t) = *src.pick(&[(3usize, 1usize), (3, 1), (4, 1), (5, 2)]);
        let args = share_field_elements(&lv, t, n, &mut rng);
        let outs = run_parties(&what, n, args, |_, net, sh: Vec<ShamirPrimeFieldShare<F>>| {
            let mut st: ShamirState<F> = ShamirPreprocessing::new(n, t, 0, net)?.into();
            let r = if sponge { h.merkle_tree_sponge_shamir::<A, _>(sh, net, &mut st)? } else { h.merkle_tree_compression_shamir::<A, _>(sh, net, &mut st)? };
            Ok((r, arithmetic::open(r, net, &mut st)?))
        })?;
        let s: Vec<F> = outs.iter().map(|o| o.0.inner()).collect();
        match on_poly(&s, t) {
            Ok(v) => check_eq!(v, want, "{what}: root"),
            Err(e) => fail!("{what}: {e}"),
        }
        for (i, o) in outs.iter().enumerate() {
            check_eq!(o.1, want, "{what}: root opened at party {i}");
        }
    }
    Ok(())
}

fn shared<F: PrimeField>(src: &mut Src, max: usize) -> R {
    let rep = src.bool();
    macro_rules! go {
        ($t:literal, $a:literal, $sponge:literal) => {{
            let m = Made::<F, $t, 5>::new(src, 2, 2);
            shared_tree::<F, $t, $a>(src, &m.hash(), $sponge, rep, max)
        }};
    }
    pairs!(src, go;
        2: 2 2 false, 2: 3 2 true, 1: 3 2 false, 2: 3 3 false, 2: 4 2 true, 2: 4 2 false, 2: 4 3 true, 2: 4 3 false, 2: 4 4 false, 1: 8 4 true, 1: 8 8 false, 1: 12 5 true, 1: 16 16 false, 1: 16 7 true)
}
fn shared_published(src: &mut Src) -> R {
    let rep = src.bool();
    macro_rules! go {
        ($t:literal, $a:literal, $sponge:literal) => {
            shared_tree::<Bn, $t, $a>(src, &Poseidon2::default(), $sponge, rep, 17)
        };
    }
    pairs!(src, go; 2: 2 2 false, 2: 3 2 true, 2: 3 3 false, 2: 4 2 true, 2: 4 3 false, 2: 4 4 false)
}

// ---------- C08

fn table<F: PrimeField, V: Clone + PartialEq + std::fmt::Debug + Default, P>(src: &mut Src, value: impl Fn(&mut Src) -> V) -> R
where
    P: LookupTableProvider<V, SecretShare = V, IndexSecretShare = F, LutType = Vec<V>, State = ()>,
{
    let len = match src.below(4) {
        _ if src.chance(1, 400) => src.range(1000, 70_000),
        0 => src.range(0, 2),
        1 => src.range(200, 600),
        _ => src.range(1, 40),
    };
    let init: Vec<V> = (0..len).map(|_| value(src)).collect();
    let mut p = P::default();
    let public = src.bool();
    let mut lut = if public { p.init_public(init.clone()) } else { p.init_private(init.clone()) };
    check_eq!(P::get_lut_len(&lut), len, "length of a table");
    let mut model: BTreeMap<usize, V> = init.iter().cloned().enumerate().collect();
    let steps = src.range(1, 30);
    let mut writes = 0;
    src.note(|| format!("table of {len}, {steps} steps"));
    for step in 0..steps {
        let foreign = len == 0 || src.chance(1, 6);
        let idx: F = if foreign {
            // an index outside the table, often equal to one inside in its low bits
            let low = src.range(0, len) as u64;
            let bits = F::MODULUS_BIT_SIZE as usize;
            let big = match src.below(4) {
                0 => BigUint::from(len as u64 + low),
                1 => (BigUint::from(1u8) << src.range(32.min(bits - 2), bits - 2)) + low,
                2 => fmod::<F>() - 1u8 - low,
                _ => src.modular(&fmod::<F>()),
            };
            F::from(big)
        } else {
            F::from(match src.below(4) {
                0 => 0u64,
                1 => len as u64 - 1,
                _ => src.below(len as u64),
            })
        };
        let at = to_big(idx);
        let inside = at < BigUint::from(len);
        if foreign && inside {
            continue;
        }
        let fits = at <= BigUint::from(usize::MAX);
        if src.chance(2, 5) {
            let v = value(src);
            let r = caught(|| p.write_to_lut(idx, v.clone(), &mut lut, &(), &(), &mut (), &mut ()));
            match (inside, r) {
                (true, Ok(Ok(()))) => {
                    writes += 1;
                    model.insert(at.try_into().unwrap(), v);
                }
                (true, Ok(Err(e))) => fail!("step {step}: writing at {at} of {len}: {e}"),
                (true, Err(e)) => fail!("step {step}: writing at {at} of {len} panics: {e}"),
                // outside: refused, or documented to be ignored; the contents are compared below
                (false, Err(e)) if !fits => fail!("step {step}: writing at {at}, which is no machine index, panics: {e}"),
                (false, Ok(Ok(()))) if !fits => fail!("step {step}: writing at {at}, which is no machine index, succeeds"),
                (false, _) => {}
            }
        } else {
            let r = caught(|| p.get_from_lut(idx, &lut, &(), &(), &mut (), &mut ()));
            match (inside, r) {
                (true, Ok(Ok(v))) => {
                    let at: usize = at.try_into().unwrap();
                    check_eq!(v, model[&at], "step {step}: read at {at} of {len}");
                }
                (true, Ok(Err(e))) => fail!("step {step}: reading at {at} of {len}: {e}"),
                (true, Err(e)) => fail!("step {step}: reading at {at} of {len} panics: {e}"),
                (false, Err(e)) if !fits => fail!("step {step}: reading at {at}, which is no machine index, panics: {e}"),
                (false, Ok(Ok(v))) => fail!("step {step}: reading at {at} of {len} gives {v:?}"),
                (false, _) => {}
            }
        }
    }
    if writes > 0 {
        src.nontrivial();
    }
    check_eq!(P::get_lut_len(&lut), len, "length of a table at the end");
    let all: Vec<V> = model.into_values().collect();
    let got = P::get_public_lut(&lut).map_err(|e| Fail::from(format!("contents of a plain table: {e}")))?;
    check!(*got == all, "contents of the table at the end differ from the array");
    Ok(())
}
fn field_table<F: PrimeField>(src: &mut Src) -> R {
    table::<F, F, PlainLookupTableProvider<F>>(src, |s| felt(s))
}
fn curve_table<C: CurveGroup>(src: &mut Src) -> R {
    table::<C::ScalarField, C, PlainCurveLookupTableProvider<C>>(src, |s| C::generator() * C::ScalarField::from(s.below(50)))
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C06",
            rule: "a tree with more than one layer",
            assumptions: "1 to 130 leaves (some trees up to 5000), arities 2 to 20, all supported state sizes; change detection with the published parameters; a path's first layer decides the arity, and a layer of the wrong arity there is not part of the claim",
            subs: vec![
                Sub::new("any_params", 40_000, 200_000, |s| any_field!(s, any_params, 130)),
                Sub::new("large", 1_000, 10_000, |s| any_field!(s, any_params, 5_000)),
                Sub::new("published", 6_000, 100_000, published),
                Sub::new("shared", 8_000, 30_000, |s| any_field!(s, shared, 70)),
                Sub::new("large_shared", 500, 4_000, |s| any_field!(s, shared, 700)),
                Sub::new("shared_published", 400, 1_500, shared_published),
            ],
        },
        Property {
            id: "C08",
            rule: "a history with at least one write inside the table",
            assumptions: "tables up to 600 entries (some up to 70000), histories up to 30 steps; an index that is a machine index but outside the table may be refused in any way, but not read or write an element",
            subs: vec![
                Sub::new("field", 40_000, 1_500_000, |s| any_field!(s, field_table)),
                Sub::new("curve", 10_000, 200_000, |s| any_curve!(s, curve_table)),
            ],
        },
    ]
}
