//! B01: replicated (and additive) shares translated to Shamir shares.
use crate::kit::*;
use ark_ec::CurveGroup;
use ark_ff::PrimeField;
use engine::*;
use mpc_core::protocols::shamir::{ShamirPointShare, ShamirPreprocessing, ShamirPrimeFieldShare, ShamirState, arithmetic as sa};
use vkit::*;

type Sh<F> = ShamirPrimeFieldShare<F>;

fn same_poly<F: PrimeField>(what: &str, shares: [F; 3], want: F) -> R {
    match on_poly(&shares, 1) {
        Ok(v) => check_eq!(v, want, "{what}: value"),
        Err(e) => fail!("{what}: {e}"),
    }
    Ok(())
}
fn inner<F: PrimeField>(s: Sh<F>) -> F {
    s.inner()
}

fn length(s: &mut Src) -> usize {
    match s.weighted(&[30, 10, 1]) {
        0 => s.range(0, 12),
        1 => s.range(0, 200),
        // around the length from which the batched translation is spread over threads
        _ => *s.pick(&[4095, 4096, 4097, 5000, 8192, 9001]),
    }
}
/// `n` values, drawn one by one while short and in bulk when long.
fn values<F: PrimeField>(s: &mut Src, n: usize) -> Vec<F> {
    if n < 64 {
        return (0..n).map(|_| felt(s)).collect();
    }
    let mut r = s.rng();
    let pool: Vec<F> = (0..8).map(|_| felt(s)).collect();
    (0..n).map(|i| if i % 3 == 0 { pool[i % 8] } else { F::rand(&mut r) }).collect()
}
fn shares_of<F: PrimeField>(s: &mut Src, v: &[F]) -> Vec<[Fs<F>; 3]> {
    if v.len() < 64 {
        return v.iter().map(|v| fshare(s, *v)).collect();
    }
    let mut r = s.rng();
    v.iter()
        .map(|v| {
            let (a, b) = (F::rand(&mut r), F::rand(&mut r));
            let c = *v - a - b;
            [Fs::new(a, c), Fs::new(b, a), Fs::new(c, b)]
        })
        .collect()
}

fn local<F: PrimeField>(s: &mut Src) -> R {
    let n = length(s);
    let v = values::<F>(s, n);
    let sh = shares_of(s, &v);
    let what = format!("translating {n} values");
    s.note(|| format!("{what}: {:?}", v.iter().take(6).map(|v| to_big(*v)).collect::<Vec<_>>()));
    if n > 0 {
        s.nontrivial();
    }
    s.label(if n >= 4096 { "long" } else { "short" });
    let per = parties(&sh);
    let vec: Vec<Vec<Sh<F>>> =
        (0..3).map(|i| ShamirState::<F>::translate_primefield_repshare_vec(per[i].clone(), IDS[i])).collect();
    let one: Vec<Vec<Sh<F>>> = (0..3)
        .map(|i| per[i].iter().take(64).map(|x| ShamirState::<F>::translate_primefield_repshare(*x, IDS[i])).collect())
        .collect();
    for (k, t) in triples(&what, &vec, n)?.into_iter().enumerate() {
        same_poly(&format!("{what}, batched, value {k}"), t.map(inner), v[k])?;
    }
    for (k, t) in triples(&what, &one, n.min(64))?.into_iter().enumerate() {
        same_poly(&format!("{what}, one by one, value {k}"), t.map(inner), v[k])?;
    }
    Ok(())
}
fn local_any(s: &mut Src) -> R {
    match s.below(12) {
        0 => local::<F7>(s),
        1 => local::<F13>(s),
        _ => any_field!(s, local),
    }
}

fn points<C: CurveGroup>(s: &mut Src) -> R {
    let n = s.range(1, 4);
    for k in 0..n {
        let v: C = point(s);
        let sh = pshare(s, v);
        let what = format!("translating point {k}: {:?}", v.into_affine());
        s.note(|| what.clone());
        s.nontrivial();
        let t: Vec<ShamirPointShare<C>> =
            (0..3).map(|i| ShamirState::<C::ScalarField>::translate_point_repshare(sh[i], IDS[i])).collect();
        let t: Vec<C> = t.into_iter().map(|t| t.inner()).collect();
        match on_poly_point(&t, 1) {
            Ok(p) => check_eq!(p, v, "{what}: value"),
            Err(e) => fail!("{what}: {e}"),
        }
    }
    Ok(())
}
fn points_any(s: &mut Src) -> R {
    any_curve!(s, points)
}

/// Additive shares over the network, and use of everything in further computation.
fn onward<F: PrimeField>(s: &mut Src) -> R {
    let n = match s.weighted(&[12, 1]) {
        0 => s.range(1, 8),
        _ => s.range(1, 150),
    };
    let (a, b): (Vec<F>, Vec<F>) = (values(s, n), values(s, n));
    let ash = shares_of(s, &a);
    // additive shares of b: the first components of a replicated sharing, or with zeros
    let bsh: Vec<[F; 3]> = shares_of(s, &b).into_iter().map(|t| t.map(|x| x.a)).collect();
    let single = s.chance(1, 3);
    let open_first = s.bool();
    let prep = s.range(0, 6);
    let what = format!(
        "translating {n} replicated and {n} additive shares{}, then multiplying",
        if single { " one by one" } else { "" }
    );
    s.note(|| format!("{what}: {:?}", b.iter().take(6).map(|v| to_big(*v)).collect::<Vec<_>>()));
    s.nontrivial();
    s.label(if single { "single" } else { "batched" });
    let per = parties(&ash);
    let args: Vec<_> = (0..3).map(|i| (per[i].clone(), bsh.iter().map(|t| t[i]).collect::<Vec<F>>())).collect();
    let outs = run_nets(3, 1, None, args, |i, nets, (a, b)| {
        let net = &nets[0];
        let mut st: ShamirState<F> = ShamirPreprocessing::new(3, 1, prep, net)?.into();
        let x = ShamirState::<F>::translate_primefield_repshare_vec(a, IDS[i]);
        let y = if single {
            b.into_iter().map(|b| st.translate_primefield_addshare(b, net)).collect::<eyre::Result<Vec<_>>>()?
        } else {
            st.translate_primefield_addshare_vec(b, net)?
        };
        let o = if open_first { sa::open_vec(&y, net, &mut st)? } else { vec![] };
        let z = sa::mul_vec(&x, &y, net, &mut st)?;
        let zo = sa::open_vec(&z, net, &mut st)?;
        Ok((x, y, o, z, zo))
    });
    let o = all_ok(&what, outs)?;
    let col = |f: &dyn Fn(usize) -> Vec<F>| -> R<Vec<[F; 3]>> { triples(&what, &[f(0), f(1), f(2)], n) };
    let un = |v: &Vec<Sh<F>>| v.iter().map(|x| x.inner()).collect::<Vec<F>>();
    let (x, y, z, zo) = (
        col(&|i| un(&o[i].0))?,
        col(&|i| un(&o[i].1))?,
        col(&|i| un(&o[i].3))?,
        col(&|i| o[i].4.clone())?,
    );
    for k in 0..n {
        same_poly(&format!("{what}: replicated value {k}"), x[k], a[k])?;
        same_poly(&format!("{what}: additive value {k}"), y[k], b[k])?;
        same_poly(&format!("{what}: product {k}"), z[k], a[k] * b[k])?;
        check_eq!(zo[k], [a[k] * b[k]; 3], "{what}: opened product {k}");
        if open_first {
            for i in 0..3 {
                check_eq!(o[i].2.get(k).copied(), Some(b[k]), "{what}: opened value {k} at party {i}");
            }
        }
    }
    Ok(())
}
fn onward_any(s: &mut Src) -> R {
    match s.below(12) {
        0 => onward::<F7>(s),
        1 => onward::<F13>(s),
        _ => any_field!(s, onward),
    }
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "B01",
        rule: "at least one value is translated",
        assumptions: "three honest parties, in-memory networks",
        subs: vec![
            Sub::new("values", 6_000, 60_000, local_any),
            Sub::new("points", 3_000, 30_000, points_any),
            Sub::new("onward", 4_000, 40_000, onward_any).workers(4),
        ],
    }]
}
