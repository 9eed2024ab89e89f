//! Q02: oblivious sorting and lookups against plain arrays.
use crate::any_rep_field;
use crate::kit::*;
use engine::*;
use mpc_core::MpcState;
use mpc_core::lut::{LookupTableProvider, PlainCurveLookupTableProvider, PlainLookupTableProvider};
use mpc_core::protocols::rep3::gadgets::sort::batcher_odd_even_merge_sort_yao;
use mpc_core::protocols::rep3_ring::gadgets::{lut_curve as lc, lut_field as lf, ohv, sort};
use mpc_core::protocols::rep3_ring::lut_curve::{PublicPrivateLut as CLut, Rep3CurveLookupTable};
use mpc_core::protocols::rep3_ring::lut_field::{PublicPrivateLut as FLut, Rep3FieldLookupTable};
use mpc_core::protocols::rep3_ring::ring::bit::Bit;
use mpc_core::protocols::rep3_ring::ring::int_ring::IntRing2k;
use mpc_core::uint::FieldUint;
use ark_ec::CurveGroup;
use num_bigint::BigUint;
use num_traits::Zero;
use rand::distributions::{Distribution, Standard};
use vkit::*;

// ---- sorting ----

/// Values with many equal keys and differing upper bits.
fn sortable<F: FieldUint>(s: &mut Src, n: usize, bits: usize) -> Vec<F> {
    let pool: Vec<F> = (0..1 + s.below(4)).map(|_| felt::<F>(s)).collect();
    (0..n)
        .map(|_| match s.weighted(&[3, 2, 2, 1]) {
            0 => F::from(s.below(8)),
            1 => *s.pick(&pool),
            2 => {
                // equal to another key below `bits`, if there is room above
                let p = to_big(*s.pick(&pool)) & mask(bits.min(bits_of::<F>() - 1));
                let hi = BigUint::from(s.below(4)) << bits.min(bits_of::<F>() + 8);
                let v = p + hi;
                if v < fmod::<F>() { F::from(v) } else { felt(s) }
            }
            _ => felt(s),
        })
        .collect()
}
fn length(s: &mut Src) -> usize {
    match s.weighted(&[6, 2, 1]) {
        0 => s.range(1, 9),
        1 => s.range(1, 24),
        _ => s.range(1, 3),
    }
}
fn width<F: FieldUint>(s: &mut Src) -> usize {
    let nb = bits_of::<F>();
    match s.weighted(&[5, 2, 1, 1]) {
        0 => s.range(1, 8),
        1 => s.range(1, 40),
        2 => s.range(1, nb),
        _ => nb,
    }
}
/// Positions in stably sorted order of the low `bits` of the keys.
fn order_of<F: FieldUint>(keys: &[F], bits: usize) -> Vec<usize> {
    let mut ix: Vec<usize> = (0..keys.len()).collect();
    ix.sort_by_key(|i| to_big(keys[*i]) & mask(bits));
    ix
}

fn radix<F: FieldUint>(s: &mut Src) -> R {
    let set = Setup::draw(s);
    let bits = width::<F>(s);
    let mut n = length(s);
    if bits > 40 {
        n = n.min(5);
    }
    let vals = sortable::<F>(s, n, bits);
    let np = match s.below(3) {
        0 => n,
        1 => 0,
        _ => s.range(0, n),
    };
    let what = format!(
        "radix_sort_fields of {np} shared and {} public values by {bits} bits: {:?}",
        n - np,
        vals.iter().map(|v| to_big(*v)).collect::<Vec<_>>()
    );
    s.note(|| what.clone());
    if n > 1 {
        s.nontrivial();
    }
    s.label(if np == n { "all shared" } else if np == 0 { "all public" } else { "mixed" });
    let sh: Vec<[Fs<F>; 3]> = vals[..np].iter().map(|v| fshare(s, *v)).collect();
    let o = run3(&what, set, parties(&sh), |nets, st, x| {
        let mut st1 = st.fork(0)?;
        sort::radix_sort_fields(x, vals[np..].to_vec(), bits, &nets[0], &nets[1], st, &mut st1)
    })?;
    let want = order_of(&vals, bits);
    for (k, t) in triples(&what, &o, n)?.into_iter().enumerate() {
        check_eq!(fval::<F>(&what, t)?, vals[want[k]], "{what}: position {k}");
    }
    Ok(())
}
fn radix_any(s: &mut Src) -> R {
    any_rep_field!(s, radix)
}

fn radix_by<F: FieldUint>(s: &mut Src) -> R {
    let set = Setup::draw(s);
    let bits = width::<F>(s);
    let mut n = length(s);
    if bits > 40 {
        n = n.min(5);
    }
    let keys = sortable::<F>(s, n, bits);
    let ord: Vec<bool> = (0..n).map(|_| s.chance(2, 3)).collect();
    let cols = s.range(0, 3);
    let data: Vec<Vec<F>> = (0..cols).map(|_| (0..n).map(|_| felt(s)).collect()).collect();
    let what = format!(
        "radix_sort_fields_vec_by: keys {:?}, shared where {ord:?}, {bits} bits, {cols} payloads",
        keys.iter().map(|v| to_big(*v)).collect::<Vec<_>>()
    );
    s.note(|| what.clone());
    if n > 1 && cols > 0 {
        s.nontrivial();
    }
    let private: Vec<[Fs<F>; 3]> = (0..n).filter(|i| ord[*i]).map(|i| fshare(s, keys[i])).collect();
    let public: Vec<F> = (0..n).filter(|i| !ord[*i]).map(|i| keys[i]).collect();
    let shd: Vec<[Vec<Fs<F>>; 3]> = data
        .iter()
        .map(|c| parties(&c.iter().map(|v| fshare(s, *v)).collect::<Vec<_>>()))
        .collect();
    let pk = parties(&private);
    let args = [0, 1, 2].map(|i| (pk[i].clone(), shd.iter().map(|c| c[i].clone()).collect::<Vec<_>>()));
    let o = run3(&what, set, args, |nets, st, (k, d)| {
        let mut st1 = st.fork(0)?;
        let d: Vec<&[Fs<F>]> = d.iter().map(|c| c.as_slice()).collect();
        sort::radix_sort_fields_vec_by(&k, &public, &ord, d, bits, &nets[0], &nets[1], st, &mut st1)
    })?;
    let want = order_of(&keys, bits);
    for (c, t) in triples(&what, &o, cols)?.into_iter().enumerate() {
        for (k, t) in triples(&what, &t, n)?.into_iter().enumerate() {
            check_eq!(fval::<F>(&what, t)?, data[c][want[k]], "{what}: payload {c}, position {k}");
        }
    }
    Ok(())
}
fn radix_by_any(s: &mut Src) -> R {
    any_rep_field!(s, radix_by)
}

fn batcher<F: FieldUint>(s: &mut Src) -> R {
    let set = Setup::draw(s);
    let nb = bits_of::<F>();
    let bits = match s.below(6) {
        0 => nb,
        1 => s.range(1, nb),
        _ => s.range(1, 16),
    };
    let n = if s.chance(1, 6) { s.range(1, 17) } else { s.range(1, 6) };
    let vals = sortable::<F>(s, n, bits);
    let what = format!(
        "batcher_odd_even_merge_sort_yao by {bits} bits of {:?}",
        vals.iter().map(|v| to_big(*v)).collect::<Vec<_>>()
    );
    s.note(|| what.clone());
    if n > 1 {
        s.nontrivial();
    }
    let sh: Vec<[Fs<F>; 3]> = vals.iter().map(|v| fshare(s, *v)).collect();
    let o = run3(&what, set, parties(&sh), |nets, st, x| batcher_odd_even_merge_sort_yao(&x, &nets[0], st, bits))?;
    let mut want: Vec<BigUint> = vals.iter().map(|v| to_big(*v) & mask(bits)).collect();
    want.sort();
    for (k, t) in triples(&what, &o, n)?.into_iter().enumerate() {
        check_eq!(to_big(fval::<F>(&what, t)?), want[k], "{what}: position {k}");
    }
    Ok(())
}
fn batcher_any(s: &mut Src) -> R {
    any_rep_field!(s, batcher)
}

// ---- one-hot vectors ----

fn one_hot<T: IntRing2k>(s: &mut Src) -> R
where
    Standard: Distribution<T>,
{
    let set = Setup::draw(s);
    let top = T::K.min(10);
    let k = if s.chance(3, 4) { s.range(1, top.min(6)) } else { s.range(1, top) };
    let random = s.chance(1, 3);
    let v = s.big(k);
    let what = if random {
        format!("rand_ohv of {k} bits over the ring of {} bits", T::K)
    } else {
        format!("ohv of {v} in {k} bits over the ring of {} bits", T::K)
    };
    s.note(|| what.clone());
    s.nontrivial();
    s.label(if random { "random" } else { "given" });
    let sh = rxshare::<T>(s, &v);
    let o = run3(&what, set, sh, |nets, st, x| {
        if random {
            ohv::rand_ohv::<T, _>(k, &nets[0], st)
        } else {
            Ok((x, ohv::ohv::<T, _>(k, x, &nets[0], st)?))
        }
    })?;
    let [a, b, c] = o;
    let ix = rxval::<T>(&what, [a.0, b.0, c.0])?;
    check!(ix < BigUint::from(1u8) << k, "{what}: index {ix}");
    for (j, t) in triples(&what, &[a.1, b.1, c.1], 1 << k)?.into_iter().enumerate() {
        let want = BigUint::from(u8::from(BigUint::from(j) == ix));
        check_eq!(rxval::<Bit>(&what, t)?, want, "{what}: entry {j}, index {ix}");
    }
    Ok(())
}
fn one_hot_any(s: &mut Src) -> R {
    match s.below(6) {
        0 => one_hot::<Bit>(s),
        1 | 2 => one_hot::<u8>(s),
        3 => one_hot::<u16>(s),
        4 => one_hot::<u32>(s),
        _ => one_hot::<u64>(s),
    }
}

// ---- tables of field elements ----

fn table_len(s: &mut Src) -> usize {
    match s.weighted(&[4, 3, 2, 1]) {
        0 => s.range(1, 9),
        1 => 1 << s.range(0, 5),
        2 => s.range(1, 40),
        _ => *s.pick(&[255, 256, 257, 300, 130]),
    }
}
fn pow2(n: usize) -> usize {
    n.next_power_of_two().ilog2() as usize
}
/// Shares of `v` where the bits at and above `k` are arbitrary in each share but cancel, as
/// truncating a wider sharing produces them.
fn ixshare<T: IntRing2k>(s: &mut Src, v: usize) -> [Rs<T>; 3] {
    rxshare::<T>(s, &BigUint::from(v))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Raw {
    Public,
    PublicLow,
    Multi,
    Shared,
    Write,
}

fn raw_field<F: FieldUint, T: IntRing2k>(s: &mut Src) -> R
where
    Standard: Distribution<T>,
{
    let set = Setup::draw(s);
    let how = *s.pick(&[Raw::Public, Raw::PublicLow, Raw::Multi, Raw::Shared, Raw::Write]);
    let mut n = table_len(s);
    let low = matches!(how, Raw::PublicLow | Raw::Multi);
    // the index has to fit the ring; the low-depth reads round up to an even number of bits
    while (pow2(n) + usize::from(low && pow2(n) % 2 == 1)) > T::K {
        n /= 2;
    }
    let padded = 1usize << pow2(n);
    // the padding reads as zero for public tables, and a write there changes nothing
    let ix = if s.chance(1, 6) { s.range(0, padded - 1) } else { s.range(0, n - 1) };
    let nt = if how == Raw::Multi { s.range(1, 4) } else { 1 };
    let tables: Vec<Vec<F>> = (0..nt)
        .map(|t| {
            let len = if t == 0 { n } else { s.range(1, n) };
            (0..len).map(|_| felt(s)).collect()
        })
        .collect();
    let value: F = felt(s);
    let what = format!(
        "{how:?}: tables of {:?} entries, index {ix} in the ring of {} bits",
        tables.iter().map(|t| t.len()).collect::<Vec<_>>(),
        T::K
    );
    s.note(|| what.clone());
    s.label(format!("{how:?}"));
    s.nontrivial();
    let ixs = ixshare::<T>(s, ix);
    let tab = parties(&tables[0].iter().map(|v| fshare(s, *v)).collect::<Vec<_>>());
    let val = fshare(s, value);
    let at = |t: &Vec<F>| t.get(ix).copied().unwrap_or(F::zero());
    let args = [0, 1, 2].map(|i| (ixs[i], tab[i].clone(), val[i]));
    match how {
        Raw::Public => {
            let o = run3(&what, set, args, |nets, st, (ix, ..)| lf::read_public_lut::<F, T, _>(&tables[0], ix, &nets[0], st))?;
            check_eq!(bval::<F>(&what, o)?, to_big(at(&tables[0])), "{what}");
        }
        Raw::PublicLow | Raw::Multi => {
            let o = run3(&what, set, args, |nets, st, (ix, ..)| {
                let mut st1 = st.fork(0)?;
                let (a, b) = (&nets[0], &nets[1]);
                if how == Raw::Multi {
                    lf::read_multiple_public_lut_low_depth::<F, T, _>(&tables, ix, a, b, st, &mut st1)
                } else {
                    Ok(vec![lf::read_public_lut_low_depth::<F, T, _>(&tables[0], ix, a, b, st, &mut st1)?])
                }
            })?;
            for (k, [a, b, c]) in triples(&what, &o, nt)?.into_iter().enumerate() {
                check_eq!(bu(&a) ^ bu(&b) ^ bu(&c), to_big(at(&tables[k])), "{what}: table {k}");
            }
        }
        Raw::Shared => {
            let o = run3(&what, set, args, |nets, st, (ix, t, _)| lf::read_shared_lut::<F, T, _>(&t, ix, &nets[0], st))?;
            check_eq!(o[0] + o[1] + o[2], at(&tables[0]), "{what}");
        }
        Raw::Write => {
            let o = run3(&what, set, args, |nets, st, (ix, mut t, v)| {
                lf::write_lut::<F, T, _>(&v, &mut t, ix, &nets[0], st)?;
                Ok(t)
            })?;
            for (k, t) in triples(&what, &o, n)?.into_iter().enumerate() {
                let want = if k == ix { value } else { tables[0][k] };
                check_eq!(fval::<F>(&what, t)?, want, "{what}: entry {k}");
            }
        }
    }
    Ok(())
}
macro_rules! with_ring {
    ($s:expr, $f:ident, $t:ty) => {
        match $s.below(6) {
            0 => $f::<$t, Bit>($s),
            1 | 2 => $f::<$t, u8>($s),
            3 => $f::<$t, u16>($s),
            4 => $f::<$t, u32>($s),
            _ => $f::<$t, u64>($s),
        }
    };
}
fn raw_field_any(s: &mut Src) -> R {
    match s.below(4) {
        0 | 1 => with_ring!(s, raw_field, ark_bn254::Fr),
        2 => with_ring!(s, raw_field, ark_bls12_381::Fr),
        _ => with_ring!(s, raw_field, ark_bls12_377::Fq),
    }
}

// ---- histories on a table ----

#[derive(Clone, Debug)]
enum Step<V> {
    Get(usize),
    Put(usize, V),
    PutOhv(usize, V),
    GetMany(usize, Vec<Vec<V>>),
    GetBits(usize),
    IsPublic,
}
/// What the table does at one party.
#[derive(Clone, Debug, PartialEq)]
enum Got<S, B> {
    One(S),
    Many(Vec<S>),
    Bits(B),
    Flag(bool, usize, bool),
    Nothing,
}

fn steps<V: Clone>(s: &mut Src, n: usize, mut val: impl FnMut(&mut Src) -> V, public: bool, bits: bool) -> Vec<Step<V>> {
    let k = s.range(1, 5);
    let mut public = public;
    (0..k)
        .map(|_| {
            let ix = match s.weighted(&[3, 1, 1]) {
                0 => s.range(0, n - 1),
                1 => n - 1,
                _ => 0,
            };
            match s.weighted(&[5, 4, 2, 2, 1, 1]) {
                0 => Step::Get(ix),
                1 => {
                    public = false;
                    Step::Put(ix, val(s))
                }
                2 if !public => Step::PutOhv(ix, val(s)),
                3 => {
                    // the same index into several public tables, of which the longest has n entries
                    let m = s.range(1, 3);
                    let long = s.range(0, m - 1);
                    let same = s.chance(1, 2);
                    Step::GetMany(
                        ix,
                        (0..m)
                            .map(|t| {
                                let len = if same || t == long { n } else { s.range(ix + 1, n) };
                                (0..len).map(|_| val(s)).collect()
                            })
                            .collect(),
                    )
                }
                4 if public && bits => Step::GetBits(ix),
                5 => Step::IsPublic,
                _ => Step::Get(ix),
            }
        })
        .collect()
}

fn field_history<F: FieldUint>(s: &mut Src) -> R {
    type L<F> = Rep3FieldLookupTable<F>;
    let set = Setup::draw(s);
    let n = table_len(s);
    let public = s.bool();
    let init: Vec<F> = (0..n).map(|_| felt(s)).collect();
    let prog = steps(s, n, |s| felt::<F>(s), public, n > 1);
    let what = format!(
        "table of {n} {} entries ({:?}), {:?}",
        if public { "public" } else { "shared" },
        set.a2b,
        prog.iter()
            .map(|p| match p {
                Step::Get(i) => format!("get {i}"),
                Step::Put(i, _) => format!("put {i}"),
                Step::PutOhv(i, _) => format!("put via one-hot {i}"),
                Step::GetMany(i, t) => format!("get {i} of {:?}", t.iter().map(|t| t.len()).collect::<Vec<_>>()),
                Step::GetBits(i) => format!("get bits {i}"),
                Step::IsPublic => "is public".into(),
            })
            .collect::<Vec<_>>()
    );
    s.note(|| what.clone());
    if prog.len() > 1 {
        s.nontrivial();
    }
    let tab = parties(&init.iter().map(|v| fshare(s, *v)).collect::<Vec<_>>());
    // per step: shares of the index and of the value
    let sh: Vec<([Fs<F>; 3], [Fs<F>; 3], [Bs<F>; 3])> = prog
        .iter()
        .map(|p| {
            let (i, v) = match p {
                Step::Get(i) | Step::GetMany(i, _) | Step::GetBits(i) => (*i, F::zero()),
                Step::Put(i, v) | Step::PutOhv(i, v) => (*i, *v),
                Step::IsPublic => (0, F::zero()),
            };
            (fshare(s, F::from(i as u64)), fshare(s, v), bshare::<F>(s, &BigUint::from(i)))
        })
        .collect();
    let args = [0, 1, 2].map(|p| (tab[p].clone(), sh.iter().map(|(i, v, b)| (i[p], v[p], b[p].clone())).collect::<Vec<_>>()));
    let o = run3(&what, set, args, |nets, st, (tab, sh)| {
        let mut st1 = st.fork(0)?;
        let (n0, n1) = (&nets[0], &nets[1]);
        let mut p = L::<F>::new();
        let mut t = if public { p.init_public(init.clone()) } else { p.init_private(tab) };
        let mut out = vec![];
        for (step, (ix, v, bits)) in prog.iter().zip(sh) {
            out.push(match step {
                Step::Get(_) => Got::One(p.get_from_lut(ix, &t, n0, n1, st, &mut st1)?),
                Step::Put(..) => {
                    p.write_to_lut(ix, v, &mut t, n0, n1, st, &mut st1)?;
                    Got::Nothing
                }
                Step::PutOhv(..) => {
                    let e = L::<F>::ohv_from_index(ix, n, n0, n1, st, &mut st1)?;
                    let FLut::Shared(l) = &mut t else { eyre::bail!("the table is still public") };
                    L::<F>::write_to_shared_lut_from_ohv(&e, v, l, n0, st)?;
                    Got::Many(e)
                }
                Step::GetMany(_, ts) => Got::Many(L::<F>::get_from_public_luts(ix, ts, n0, n1, st, &mut st1)?),
                Step::GetBits(_) => {
                    let r = if pow2(n) <= 8 {
                        L::<F>::get_from_public_lut_no_b2a_conversion::<u8, _>(bits, &t, n0, n1, st, &mut st1)?
                    } else {
                        L::<F>::get_from_public_lut_no_b2a_conversion::<u32, _>(bits, &t, n0, n1, st, &mut st1)?
                    };
                    Got::Bits(r)
                }
                Step::IsPublic => Got::Flag(L::<F>::is_public_lut(&t), L::<F>::get_lut_len(&t), L::<F>::get_public_lut(&t).is_ok()),
            });
        }
        let rest = match t {
            FLut::Public(v) => (Some(v), None),
            FLut::Shared(v) => (None, Some(v)),
        };
        Ok((out, rest))
    })?;
    let mut model = init.clone();
    let mut is_public = public;
    let mut plain = PlainLookupTableProvider::<F>::default();
    for (k, step) in prog.iter().enumerate() {
        let w = format!("{what}: step {k}");
        let got = [&o[0].0[k], &o[1].0[k], &o[2].0[k]];
        let one = || -> R<F> {
            match got {
                [Got::One(a), Got::One(b), Got::One(c)] => fval(&w, [*a, *b, *c]),
                _ => fail!("{w}: {got:?}"),
            }
        };
        let many = |n: usize| -> R<Vec<F>> {
            match got {
                [Got::Many(a), Got::Many(b), Got::Many(c)] => {
                    triples(&w, &[a.clone(), b.clone(), c.clone()], n)?.into_iter().map(|t| fval(&w, t)).collect()
                }
                _ => fail!("{w}: {got:?}"),
            }
        };
        match step {
            Step::Get(i) => check_eq!(one()?, model[*i], "{w}: get {i}"),
            Step::Put(i, v) => {
                model[*i] = *v;
                is_public = false;
            }
            Step::PutOhv(i, v) => {
                let e = many(1 << pow2(n))?;
                for (j, e) in e.iter().enumerate() {
                    check_eq!(*e, F::from((j == *i) as u64), "{w}: one-hot vector at {j} for {i}");
                }
                model[*i] = *v;
            }
            Step::GetMany(i, ts) => {
                for (t, g) in many(ts.len())?.into_iter().enumerate() {
                    check_eq!(g, ts[t][*i], "{w}: table {t} at {i}");
                }
            }
            Step::GetBits(i) => match got {
                [Got::Bits(a), Got::Bits(b), Got::Bits(c)] => {
                    check_eq!(bval::<F>(&w, [a.clone(), b.clone(), c.clone()])?, to_big(model[*i]), "{w}: get bits {i}")
                }
                _ => fail!("{w}: {got:?}"),
            },
            Step::IsPublic => {
                for g in got {
                    check_eq!(*g, Got::Flag(is_public, n, is_public), "{w}: (public, length, public values available)");
                }
            }
        }
    }
    match (&o[0].1, &o[1].1, &o[2].1) {
        ((Some(a), _), (Some(b), _), (Some(c), _)) => {
            check!(is_public, "{what}: the table is public after a write");
            check!(*a == model && *b == model && *c == model, "{what}: public table changed");
        }
        ((_, Some(a)), (_, Some(b)), (_, Some(c))) => {
            for (k, t) in triples(&what, &[a.clone(), b.clone(), c.clone()], n)?.into_iter().enumerate() {
                check_eq!(fval(&what, t)?, model[k], "{what}: entry {k} at the end");
            }
        }
        _ => fail!("{what}: parties disagree about the table being public"),
    }
    // the plain provider follows the same history
    let net = TNet::new(1, None);
    let mut t = if public { plain.init_public(init.clone()) } else { plain.init_private(init.clone()) };
    let mut m = init;
    for (k, step) in prog.iter().enumerate() {
        match step {
            Step::Get(i) => {
                let r = plain.get_from_lut(F::from(*i as u64), &t, &net[0], &net[0], &mut (), &mut ());
                check_eq!(r.ok(), Some(m[*i]), "{what}: plain table, step {k}");
            }
            Step::Put(i, v) => {
                let r = plain.write_to_lut(F::from(*i as u64), *v, &mut t, &net[0], &net[0], &mut (), &mut ());
                check!(r.is_ok(), "{what}: plain table, step {k}");
                m[*i] = *v;
            }
            _ => {}
        }
    }
    check_eq!(t, m, "{what}: plain table at the end");
    Ok(())
}
fn field_history_any(s: &mut Src) -> R {
    any_rep_field!(s, field_history)
}

// ---- tables of points ----

#[derive(Clone, Copy, Debug, PartialEq)]
enum CRaw {
    Public,
    Multi,
    Shared,
    Write,
}
fn raw_curve<C: CurveGroup, T: IntRing2k>(s: &mut Src) -> R
where
    Standard: Distribution<T>,
    C::ScalarField: FieldUint,
{
    let set = Setup::draw(s);
    let how = *s.pick(&[CRaw::Public, CRaw::Multi, CRaw::Shared, CRaw::Write]);
    let mut n = if s.chance(1, 10) { s.range(1, 40) } else { s.range(1, 9) };
    while pow2(n) > T::K {
        n /= 2;
    }
    let ix = s.range(0, n - 1);
    let nt = if how == CRaw::Multi { s.range(1, 4) } else { 1 };
    let long = s.range(0, nt - 1);
    let tables: Vec<Vec<C>> = (0..nt)
        .map(|t| {
            let len = if t == long { n } else { s.range(ix + 1, n) };
            (0..len).map(|_| point(s)).collect()
        })
        .collect();
    let value: C = point(s);
    let what = format!(
        "points, {how:?}: tables of {:?} entries, index {ix} in the ring of {} bits",
        tables.iter().map(|t| t.len()).collect::<Vec<_>>(),
        T::K
    );
    s.note(|| what.clone());
    s.label(format!("{how:?}"));
    s.nontrivial();
    let ixs = ixshare::<T>(s, ix);
    let tab = parties(&tables[0].iter().map(|v| pshare(s, *v)).collect::<Vec<_>>());
    let val = pshare(s, value);
    let args = [0, 1, 2].map(|i| (ixs[i], tab[i].clone(), val[i]));
    match how {
        CRaw::Public => {
            let o = run3(&what, set, args, |nets, st, (ix, ..)| lc::read_public_lut::<C, T, _>(&tables[0], ix, &nets[0], st))?;
            check_eq!(pval(&what, o)?, tables[0][ix], "{what}");
        }
        CRaw::Multi => {
            let o = run3(&what, set, args, |nets, st, (ix, ..)| lc::read_public_luts::<C, T, _>(&tables, ix, &nets[0], st))?;
            for (k, t) in triples(&what, &o, nt)?.into_iter().enumerate() {
                check_eq!(pval(&what, t)?, tables[k][ix], "{what}: table {k}");
            }
        }
        CRaw::Shared => {
            let o = run3(&what, set, args, |nets, st, (ix, t, _)| lc::read_shared_lut::<C, T, _>(&t, ix, &nets[0], st))?;
            check_eq!(o[0] + o[1] + o[2], tables[0][ix], "{what}");
        }
        CRaw::Write => {
            let o = run3(&what, set, args, |nets, st, (ix, mut t, v)| {
                lc::write_lut::<C, T, _>(&v, &mut t, ix, &nets[0], st)?;
                Ok(t)
            })?;
            for (k, t) in triples(&what, &o, n)?.into_iter().enumerate() {
                let want = if k == ix { value } else { tables[0][k] };
                check_eq!(pval(&what, t)?, want, "{what}: entry {k}");
            }
        }
    }
    Ok(())
}
fn raw_curve_any(s: &mut Src) -> R {
    match s.below(4) {
        0 | 1 => with_ring!(s, raw_curve, ark_bn254::G1Projective),
        2 => with_ring!(s, raw_curve, ark_grumpkin::Projective),
        _ => with_ring!(s, raw_curve, ark_bls12_381::G1Projective),
    }
}

fn curve_history<C: CurveGroup>(s: &mut Src) -> R
where
    C::ScalarField: FieldUint,
{
    type L<C> = Rep3CurveLookupTable<C>;
    let set = Setup::draw(s);
    let n = if s.chance(1, 10) { s.range(1, 40) } else { s.range(1, 9) };
    let public = s.bool();
    let init: Vec<C> = (0..n).map(|_| point(s)).collect();
    let prog = steps(s, n, |s| point::<C>(s), public, false);
    let what = format!(
        "points: table of {n} {} entries ({:?}), {:?}",
        if public { "public" } else { "shared" },
        set.a2b,
        prog.iter()
            .map(|p| match p {
                Step::Get(i) => format!("get {i}"),
                Step::Put(i, _) => format!("put {i}"),
                Step::PutOhv(i, _) => format!("put via one-hot {i}"),
                Step::GetMany(i, t) => format!("get {i} of {:?}", t.iter().map(|t| t.len()).collect::<Vec<_>>()),
                Step::GetBits(i) => format!("get bits {i}"),
                Step::IsPublic => "is public".into(),
            })
            .collect::<Vec<_>>()
    );
    s.note(|| what.clone());
    if prog.len() > 1 {
        s.nontrivial();
    }
    let tab = parties(&init.iter().map(|v| pshare(s, *v)).collect::<Vec<_>>());
    let sh: Vec<([Fs<C::ScalarField>; 3], [Ps<C>; 3])> = prog
        .iter()
        .map(|p| {
            let (i, v) = match p {
                Step::Get(i) | Step::GetMany(i, _) | Step::GetBits(i) => (*i, C::zero()),
                Step::Put(i, v) | Step::PutOhv(i, v) => (*i, *v),
                Step::IsPublic => (0, C::zero()),
            };
            (fshare(s, C::ScalarField::from(i as u64)), pshare(s, v))
        })
        .collect();
    let args = [0, 1, 2].map(|p| (tab[p].clone(), sh.iter().map(|(i, v)| (i[p], v[p])).collect::<Vec<_>>()));
    let o = run3(&what, set, args, |nets, st, (tab, sh)| {
        let mut st1 = st.fork(0)?;
        let (n0, n1) = (&nets[0], &nets[1]);
        let mut p = L::<C>::new();
        let mut t = if public { p.init_public(init.clone()) } else { p.init_private(tab) };
        let mut out: Vec<Got<Ps<C>, ()>> = vec![];
        for (step, (ix, v)) in prog.iter().zip(sh) {
            out.push(match step {
                Step::Get(_) | Step::GetBits(_) => Got::One(p.get_from_lut(ix, &t, n0, n1, st, &mut st1)?),
                Step::Put(..) => {
                    p.write_to_lut(ix, v, &mut t, n0, n1, st, &mut st1)?;
                    Got::Nothing
                }
                Step::PutOhv(..) => {
                    let e = L::<C>::ohv_from_index(ix, n, n0, n1, st, &mut st1)?;
                    let CLut::Shared(l) = &mut t else { eyre::bail!("the table is still public") };
                    L::<C>::write_to_shared_lut_from_ohv(&e, v, l, n0, st)?;
                    Got::Nothing
                }
                Step::GetMany(_, ts) => Got::Many(L::<C>::get_from_public_luts(ix, ts, n0, st)?),
                Step::IsPublic => Got::Flag(L::<C>::is_public_lut(&t), L::<C>::get_lut_len(&t), L::<C>::get_public_lut(&t).is_ok()),
            });
        }
        let rest = match t {
            CLut::Public(v) => (Some(v), None),
            CLut::Shared(v) => (None, Some(v)),
        };
        Ok((out, rest))
    })?;
    let mut model = init.clone();
    let mut is_public = public;
    for (k, step) in prog.iter().enumerate() {
        let w = format!("{what}: step {k}");
        let got = [&o[0].0[k], &o[1].0[k], &o[2].0[k]];
        match step {
            Step::Get(i) | Step::GetBits(i) => match got {
                [Got::One(a), Got::One(b), Got::One(c)] => check_eq!(pval(&w, [*a, *b, *c])?, model[*i], "{w}: get {i}"),
                _ => fail!("{w}: {got:?}"),
            },
            Step::Put(i, v) | Step::PutOhv(i, v) => {
                model[*i] = *v;
                is_public = false;
            }
            Step::GetMany(i, ts) => match got {
                [Got::Many(a), Got::Many(b), Got::Many(c)] => {
                    for (t, g) in triples(&w, &[a.clone(), b.clone(), c.clone()], ts.len())?.into_iter().enumerate() {
                        check_eq!(pval(&w, g)?, ts[t][*i], "{w}: table {t} at {i}");
                    }
                }
                _ => fail!("{w}: {got:?}"),
            },
            Step::IsPublic => {
                for g in got {
                    check_eq!(*g, Got::Flag(is_public, n, is_public), "{w}: (public, length, public values available)");
                }
            }
        }
    }
    match (&o[0].1, &o[1].1, &o[2].1) {
        ((Some(a), _), (Some(b), _), (Some(c), _)) => {
            check!(is_public, "{what}: the table is public after a write");
            check!(*a == model && *b == model && *c == model, "{what}: public table changed");
        }
        ((_, Some(a)), (_, Some(b)), (_, Some(c))) => {
            for (k, t) in triples(&what, &[a.clone(), b.clone(), c.clone()], n)?.into_iter().enumerate() {
                check_eq!(pval(&what, t)?, model[k], "{what}: entry {k} at the end");
            }
        }
        _ => fail!("{what}: parties disagree about the table being public"),
    }
    let mut plain = PlainCurveLookupTableProvider::<C>::default();
    let net = TNet::new(1, None);
    let mut t = plain.init_public(init.clone());
    let mut m = init;
    for (k, step) in prog.iter().enumerate() {
        match step {
            Step::Get(i) => {
                let r = plain.get_from_lut(C::ScalarField::from(*i as u64), &t, &net[0], &net[0], &mut (), &mut ());
                check_eq!(r.ok(), Some(m[*i]), "{what}: plain table, step {k}");
            }
            Step::Put(i, v) => {
                let r = plain.write_to_lut(C::ScalarField::from(*i as u64), *v, &mut t, &net[0], &net[0], &mut (), &mut ());
                check!(r.is_ok(), "{what}: plain table, step {k}");
                m[*i] = *v;
            }
            _ => {}
        }
    }
    check_eq!(t, m, "{what}: plain table at the end");
    Ok(())
}
fn curve_history_any(s: &mut Src) -> R {
    match s.below(4) {
        0 | 1 => curve_history::<ark_bn254::G1Projective>(s),
        2 => curve_history::<ark_grumpkin::Projective>(s),
        _ => curve_history::<ark_bls12_381::G1Projective>(s),
    }
}

pub fn property() -> Property {
    Property {
        id: "Q02",
        rule: "a sort of at least two values (and one payload), a lookup, or a table history of at least two steps",
        assumptions: "honest parties over in-memory networks; indices inside the table (padding of public tables reads as zero); the garbled conversions use the stand-in garbling library in /verif/shims",
        subs: vec![
            Sub::new("radix", 1_500, 10_000, radix_any).workers(4),
            Sub::new("radix-by", 1_500, 10_000, radix_by_any).workers(4),
            Sub::new("batcher", 1_500, 4_000, batcher_any).workers(4),
            Sub::new("one-hot", 10_000, 30_000, one_hot_any).workers(4),
            Sub::new("field-lookups", 10_000, 30_000, raw_field_any).workers(4),
            Sub::new("field-tables", 3_000, 10_000, field_history_any).workers(4),
            Sub::new("point-lookups", 4_000, 10_000, raw_curve_any).workers(4),
            Sub::new("point-tables", 2_000, 6_000, curve_history_any).workers(4),
        ],
    }
}
