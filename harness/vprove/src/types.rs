//! T01 shared witnesses, T02 named inputs.
use ark_ff::PrimeField;
use circom_types::Witness;
use co_circom_types::*;
use engine::*;
use mpc_core::protocols::rep3::{Rep3PrimeFieldShare, Rep3ShareVecType, combine_field_elements};
use mpc_core::protocols::shamir;
use num_bigint::BigUint;
use serde_json::Value;
use std::collections::BTreeMap;
use vkit::*;

fn elements<F: PrimeField>(s: &mut Src, n: usize) -> Vec<F> {
    if n > 12 {
        let mut r = s.rng();
        (0..n).map(|_| F::rand(&mut r)).collect()
    } else {
        (0..n).map(|_| felt(s)).collect()
    }
}

/// x_0 + x_1 + x_2 = value, party i holds (x_i, x_{i-1})
pub fn rep3_values<F: PrimeField>(what: &str, sh: [&[Rep3PrimeFieldShare<F>]; 3]) -> R<Vec<F>> {
    check!(sh[0].len() == sh[1].len() && sh[1].len() == sh[2].len(), "{what}: parties hold {} / {} / {} values", sh[0].len(), sh[1].len(), sh[2].len());
    let mut out = vec![];
    for k in 0..sh[0].len() {
        for i in 0..3 {
            check!(sh[i][k].b == sh[(i + 2) % 3][k].a, "{what}: value {k}: party {i} disagrees with the previous party");
        }
        out.push(sh[0][k].a + sh[1][k].a + sh[2][k].a);
    }
    Ok(out)
}

fn witness_rep3<F: PrimeField>(s: &mut Src) -> R {
    let len = if s.chance(1, 3000) { s.range(1000, 40_000) } else if s.chance(1, 6) { s.range(13, 300) } else { s.range(1, 12) };
    let mut values: Vec<F> = elements(s, len);
    values[0] = F::one();
    let k = s.range(1, len);
    s.note(|| format!("{len} values, {k} public"));
    if k > 1 && k < len {
        s.nontrivial();
    }
    let mut r = s.rng();
    let sh = Rep3SharedWitness::<F>::share_rep3(Witness { values: values.clone() }, k, &mut r);
    for (i, w) in sh.iter().enumerate() {
        check!(w.public_inputs == values[..k], "party {i}: public part differs from the witness's first {k} values");
        check_eq!(w.public_inputs_for_verify(), values[1..k].to_vec(), "party {i}: inputs for verification");
    }
    let got = rep3_values("witness", [&sh[0].witness, &sh[1].witness, &sh[2].witness])?;
    check!(got == values[k..], "private part recombines to other values ({} of {})", got.len(), len - k);
    check!(combine_field_elements(&sh[0].witness, &sh[1].witness, &sh[2].witness) == values[k..], "combine_field_elements");
    // compressed forms of the same witness
    for c in [Compression::None, Compression::HalfShares, Compression::SeededShares, Compression::SeededHalfShares] {
        let sh = CompressedRep3SharedWitness::<F>::share_rep3(Witness { values: values.clone() }, k, &mut r, c);
        let mut half: Vec<SharedWitness<F, F>> = vec![];
        let mut full: Vec<Vec<Rep3PrimeFieldShare<F>>> = vec![];
        for (i, w) in sh.into_iter().enumerate() {
            check!(w.public_inputs == values[..k], "{c:?}, party {i}: public part differs");
            let kind = match &w.witness {
                Rep3ShareVecType::Replicated(_) => Compression::None,
                Rep3ShareVecType::Additive(_) => Compression::HalfShares,
                Rep3ShareVecType::SeededReplicated(_) => Compression::SeededShares,
                Rep3ShareVecType::SeededAdditive(_) => Compression::SeededHalfShares,
            };
            check_eq!(kind, c, "kind of compressed share of party {i}");
            match &w.witness {
                Rep3ShareVecType::Replicated(v) => full.push(v.clone()),
                Rep3ShareVecType::SeededReplicated(v) => {
                    check_eq!(v.length().map_err(|e| e.to_string())?, len - k, "length of the seeded share");
                    full.push(v.clone().expand_vec().map_err(|e| e.to_string())?)
                }
                Rep3ShareVecType::SeededAdditive(v) => check_eq!(v.length(), len - k, "length of the seeded share"),
                _ => {}
            }
            half.push(w.into());
        }
        if !full.is_empty() {
            let got = rep3_values(&format!("{c:?}"), [&full[0], &full[1], &full[2]])?;
            check!(got == values[k..], "{c:?}: expanded shares recombine to other values");
        }
        for w in &half {
            check!(w.public_inputs == values[..k], "{c:?}: public part lost when converting to half shares");
            check_eq!(w.witness.len(), len - k, "{c:?}: number of half shares");
        }
        for j in 0..len - k {
            let v = half[0].witness[j] + half[1].witness[j] + half[2].witness[j];
            check!(v == values[k + j], "{c:?}: half shares of value {j} do not add up to it");
        }
    }
    let w = sh[0].clone();
    let c = CompressedRep3SharedWitness::from(w.clone());
    check!(c.public_inputs == w.public_inputs && matches!(&c.witness, Rep3ShareVecType::Replicated(v) if *v == w.witness), "conversion to the compressed type changes the witness");
    Ok(())
}

fn witness_shamir<F: PrimeField>(s: &mut Src) -> R {
    let len = if s.chance(1, 3000) { s.range(1000, 10_000) } else if s.chance(1, 6) { s.range(13, 200) } else { s.range(1, 12) };
    let mut values: Vec<F> = elements(s, len);
    values[0] = F::one();
    let k = s.range(1, len);
    let n = s.range(1, 9);
    let t = s.range(0, n - 1);
    s.note(|| format!("{len} values, {k} public, n={n}, t={t}"));
    if k > 1 && k < len && t > 0 {
        s.nontrivial();
    }
    let mut r = s.rng();
    let sh = ShamirSharedWitness::<F>::share_shamir(Witness { values: values.clone() }, k, t, n, &mut r);
    check_eq!(sh.len(), n, "number of parties");
    for (i, w) in sh.iter().enumerate() {
        check!(w.public_inputs == values[..k], "party {i}: public part differs from the witness's first {k} values");
        check_eq!(w.public_inputs_for_verify(), values[1..k].to_vec(), "party {i}: inputs for verification");
        check_eq!(w.witness.len(), len - k, "party {i}: number of private values");
    }
    for j in 0..len - k {
        let ys: Vec<F> = sh.iter().map(|w| w.witness[j].inner()).collect();
        let v = on_poly(&ys, t).map_err(|e| Fail::from(format!("private value {j}: {e}")))?;
        check!(v == values[k + j], "private value {j} recombines to {v}, expected {}", values[k + j]);
    }
    // any t+1 parties with the library's own combination
    let sub = s.subset(n, t + 1);
    let vals: Vec<Vec<_>> = sub.iter().map(|i| sh[*i].witness.clone()).collect();
    let co: Vec<usize> = sub.iter().map(|i| i + 1).collect();
    let got = shamir::combine_field_elements(&vals, &co, t).map_err(|e| format!("combine: {e}"))?;
    check!(got == values[k..], "combining parties {co:?} gives other values");
    Ok(())
}

fn unbatch(s: &mut Src) -> R {
    type F = ark_bn254::Fr;
    let (b, p, w) = if s.chance(1, 500) { (s.range(8, 300), s.range(1, 40), s.range(0, 200)) } else { (s.range(1, 7), s.range(1, 8), s.range(0, 9)) };
    s.note(|| format!("batch {b}, {p} public, {w} private"));
    if b > 1 && w > 0 && p > 1 {
        s.nontrivial();
    }
    let mut r = s.rng();
    use ark_ff::UniformRand;
    let publics: Vec<Vec<F>> = (0..p).map(|_| (0..b).map(|_| F::rand(&mut r)).collect()).collect();
    let private: Vec<Vec<F>> = (0..w).map(|_| (0..b).map(|_| F::rand(&mut r)).collect()).collect();
    let got = BatchedWitness::<F, F> { public_inputs: publics.clone(), witness: private.clone() }.unbatch();
    check_eq!(got.len(), b, "number of witnesses");
    for (i, g) in got.iter().enumerate() {
        check!(g.public_inputs == publics.iter().map(|x| x[i]).collect::<Vec<_>>(), "public part of batch position {i}");
        check!(g.witness == private.iter().map(|x| x[i]).collect::<Vec<_>>(), "private part of batch position {i}");
    }
    Ok(())
}

/// An input value and the elements it stands for.
fn leaf<F: PrimeField>(s: &mut Src) -> (Value, F) {
    let p = fmod::<F>();
    let v: BigUint = match s.below(8) {
        0 => BigUint::from(s.below(3)),
        1 => &p - 1u8 + BigUint::from(s.below(3)),
        2 => s.big(p.bits() as usize * 2 + 8),
        _ => s.modular(&p),
    };
    let f = F::from(v.clone());
    match s.weighted(&[5, 2, 2, 2, 1, 1]) {
        0 => (Value::String(v.to_string()), f),
        1 => (Value::String(format!("-{v}")), -f),
        2 => (Value::String(format!("0x{v:x}")), f),
        3 => {
            let b = s.bool();
            (Value::Bool(b), if b { F::one() } else { F::zero() })
        }
        4 => (Value::String(format!("-0x{v:x}")), -f),
        _ => (Value::String(format!("0x{}{v:X}", "0".repeat(s.range(0, 70)))), f),
    }
}
fn tree<F: PrimeField>(s: &mut Src, depth: usize, out: &mut Vec<Option<F>>) -> Value {
    let n = if depth == 0 && s.chance(1, 150) { s.range(9, 400) } else { s.range(0, if depth == 0 { 5 } else { 3 }) };
    let mut v = vec![];
    for _ in 0..n {
        match s.weighted(&[5, 2, 1]) {
            1 if depth < 3 => v.push(tree(s, depth + 1, out)),
            2 => {
                v.push(Value::String("?".into()));
                out.push(None);
            }
            _ => {
                let (j, f) = leaf(s);
                v.push(j);
                out.push(Some(f));
            }
        }
    }
    Value::Array(v)
}
const NAMES: [&str; 9] = ["a", "in", "key", "data1", "data", "x_y", "b", "in2", "Σ"];

struct Named<F> {
    json: Input,
    want: BTreeMap<String, F>,
    public: Vec<String>,
}
fn named<F: PrimeField>(s: &mut Src, names: &[&str], public: &[String]) -> Named<F> {
    let (mut json, mut want) = (Input::new(), BTreeMap::new());
    for n in names {
        if s.chance(3, 5) {
            let mut out = vec![];
            json.insert(n.to_string(), tree::<F>(s, 0, &mut out));
            for (i, v) in out.into_iter().enumerate() {
                if let Some(v) = v {
                    want.insert(format!("{n}[{i}]"), v);
                }
            }
        } else {
            let (j, f) = leaf::<F>(s);
            json.insert(n.to_string(), j);
            want.insert(n.to_string(), f);
        }
    }
    Named { json, want, public: public.to_vec() }
}
fn base(n: &str) -> &str {
    n.split('[').next().unwrap()
}

fn check_rep3<F: PrimeField>(what: &str, sh: &[Rep3SharedInput<F>], want: &BTreeMap<String, F>, public: &[String]) -> R {
    let keys: Vec<&String> = want.keys().collect();
    for (i, m) in sh.iter().enumerate() {
        check_eq!(m.keys().collect::<Vec<_>>(), keys, "{what}: names at party {i}");
    }
    for (k, v) in want {
        let x: Vec<_> = sh.iter().map(|m| m[k]).collect();
        let p = public.iter().any(|p| p == base(k));
        for (i, e) in x.iter().enumerate() {
            check!(e.is_public() == p && e.as_public().is_some() == p && e.as_shared().is_some() != p, "{what}: {k} at party {i} is {} but should be {}", if p { "shared" } else { "public" }, if p { "public" } else { "shared" });
        }
        if p {
            check!(x.iter().all(|e| e.as_public() == Some(*v)), "{what}: public {k} is {x:?}, expected {v}");
        } else {
            let s: Vec<_> = x.iter().map(|e| e.as_shared().unwrap()).collect();
            let got = rep3_values(&format!("{what}: {k}"), [&s[0..1], &s[1..2], &s[2..3]])?;
            check!(got[0] == *v, "{what}: {k} is {}, expected {v}", got[0]);
        }
    }
    Ok(())
}

fn split<F: PrimeField>(s: &mut Src) -> R {
    let mut names = NAMES.to_vec();
    s.shuffle(&mut names);
    names.truncate(s.range(0, 5));
    let public: Vec<String> = NAMES.iter().filter(|_| s.chance(2, 5)).map(|x| x.to_string()).collect();
    let n = named::<F>(s, &names, &public);
    s.note(|| format!("{} public {:?}", serde_json::to_string(&n.json).unwrap(), n.public));
    if n.want.len() > 2 && n.want.keys().any(|k| k.contains('[')) {
        s.nontrivial();
    }
    let sh = split_input::<F>(n.json.clone(), &n.public).map_err(|e| format!("split_input: {e:#}"))?;
    check_rep3("split_input", &sh, &n.want, &n.public)?;
    let np = s.range(1, 7);
    let t = s.range(0, np - 1);
    let sh = split_input_shamir::<F>(n.json.clone(), &n.public, t, np).map_err(|e| format!("split_input_shamir: {e:#}"))?;
    check_eq!(sh.len(), np, "parties");
    let keys: Vec<&String> = n.want.keys().collect();
    for (i, m) in sh.iter().enumerate() {
        check_eq!(m.keys().collect::<Vec<_>>(), keys, "Shamir: names at party {i}");
    }
    for (k, v) in &n.want {
        let p = n.public.iter().any(|p| p == base(k));
        let x: Vec<_> = sh.iter().map(|m| m[k]).collect();
        check!(x.iter().all(|e| e.is_public() == p && e.as_shared().is_some() != p && e.as_public().is_some() == p), "Shamir: {k} should be {}", if p { "public" } else { "shared" });
        if p {
            check!(x.iter().all(|e| e.as_public() == Some(*v)), "Shamir: public {k} is {x:?}, expected {v}");
        } else {
            let ys: Vec<F> = x.iter().map(|e| e.as_shared().unwrap().inner()).collect();
            let got = on_poly(&ys, t).map_err(|e| Fail::from(format!("Shamir: {k}: {e}")))?;
            check!(got == *v, "Shamir: {k} is {got}, expected {v}");
        }
    }
    Ok(())
}

fn bad_input<F: PrimeField>(s: &mut Src) -> R {
    let n = named::<F>(s, &["a", "b"], &["b".to_string()]);
    let bad = match s.below(12) {
        0 => Value::Number(5.into()),
        1 => Value::Null,
        2 => serde_json::json!({"a": "1"}),
        3 => Value::String("".into()),
        4 => Value::String("12a".into()),
        5 => Value::String("0xfg".into()),
        6 => Value::String("1.5".into()),
        7 => Value::String("0x".into()),
        8 => Value::String("-".into()),
        9 => Value::String("abc".into()),
        10 => Value::String(" 5".into()),
        _ => Value::String("1e3".into()),
    };
    let mut json = n.json;
    let v = if s.bool() {
        let mut l = vec![];
        for _ in 0..s.range(0, 2) {
            l.push(leaf::<F>(s).0);
        }
        l.push(if s.bool() { Value::Array(vec![bad.clone()]) } else { bad.clone() });
        for _ in 0..s.range(0, 2) {
            l.push(leaf::<F>(s).0);
        }
        Value::Array(l)
    } else {
        bad.clone()
    };
    json.insert(if s.bool() { "b".into() } else { "c".into() }, v);
    s.note(|| serde_json::to_string(&json).unwrap());
    s.nontrivial();
    let public = vec!["b".to_string()];
    match caught(|| (split_input::<F>(json.clone(), &public).is_err(), split_input_shamir::<F>(json.clone(), &public, 1, 3).is_err())) {
        Err(p) => fail!("invalid input value {bad}: panic {p}"),
        Ok((true, true)) => Ok(()),
        Ok(_) => fail!("invalid input value {bad} accepted in {}", serde_json::to_string(&json).unwrap()),
    }
}

fn merge<F: PrimeField>(s: &mut Src) -> R {
    let k = s.range(1, 4);
    let public: Vec<String> = NAMES.iter().filter(|_| s.chance(1, 3)).map(|x| x.to_string()).collect();
    let mut provided: Vec<Vec<&str>> = vec![vec![]; k];
    for n in NAMES {
        if s.chance(2, 3) {
            let i = s.below(k as u64) as usize;
            provided[i].push(n);
        }
    }
    let mut sources: Vec<Named<F>> = provided.iter().map(|n| named::<F>(s, n, &public)).collect();
    let mut want: BTreeMap<String, F> = sources.iter().flat_map(|n| n.want.clone()).collect();
    // a name that two providers give
    let mut conflict = false;
    if k >= 2 && s.chance(1, 2) {
        let all: Vec<(usize, String)> =
            sources.iter().enumerate().flat_map(|(i, n)| n.json.iter().filter(|(_, v)| v.as_array().is_none_or(|a| a.iter().any(|x| x.is_boolean()))).map(move |(k, _)| (i, k.clone()))).collect();
        if !all.is_empty() {
            let (i, name) = s.pick(&all).clone();
            let j = (i + 1 + s.below(k as u64 - 1) as usize) % k;
            let is_pub = public.contains(&name);
            let same = s.bool();
            let v = sources[i].json[&name].clone();
            if is_pub && same {
                sources[j].json.insert(name, v);
            } else if !is_pub {
                sources[j].json.insert(name, v);
                conflict = true;
            } else if !v.is_array() {
                // a public value contradicting the other provider's
                let w = want[&name] + nonzero::<F>(s);
                sources[j].json.insert(name, Value::String(w.into_bigint().to_string()));
                conflict = true;
            }
        }
    }
    let split: Vec<[Rep3SharedInput<F>; 3]> =
        sources.iter().map(|n| split_input::<F>(n.json.clone(), &n.public).map_err(|e| Fail::from(format!("split_input: {e:#}")))).collect::<R<_>>()?;
    s.note(|| format!("{:?} public {public:?} conflict {conflict}", sources.iter().map(|n| serde_json::to_string(&n.json).unwrap()).collect::<Vec<_>>()));
    if k > 1 && want.len() > 2 {
        s.nontrivial();
    }
    s.label(if conflict { "duplicate" } else { "mergeable" });
    let merged: Vec<Result<Rep3SharedInput<F>, String>> =
        (0..3).map(|p| merge_input_shares(split.iter().map(|x| x[p].clone()).collect(), &public).map_err(|e| e.to_string())).collect();
    if conflict {
        check!(merged.iter().all(|m| m.is_err()), "a name provided twice was merged");
        return Ok(());
    }
    let merged: Vec<_> = merged.into_iter().collect::<Result<_, _>>().map_err(|e| Fail::from(format!("merge: {e}")))?;
    want.retain(|_, _| true);
    check_rep3("merged", &merged, &want, &public)
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "T01",
            rule: "witnesses with at least one private value and one public value besides the constant (t > 0 for Shamir; batch > 1 for batches)",
            assumptions: "A witness has its leading constant; batches are rectangular.",
            subs: vec![
                Sub::new("witness-rep3", 600_000, 1_500_000, |s| any_field!(s, witness_rep3)),
                Sub::new("witness-shamir", 300_000, 1_500_000, |s| any_field!(s, witness_shamir)),
                Sub::new("unbatch", 200_000, 1_000_000, unbatch),
            ],
        },
        Property {
            id: "T02",
            rule: "inputs with more than two values and an array; every invalid value; merges of at least two providers",
            assumptions: "Names are circuit identifiers (no brackets) and arrays do not collide with indexed names; the empty and the malformed number texts of the generator stand for all of them.",
            subs: vec![
                Sub::new("split", 700_000, 1_500_000, |s| any_field!(s, split)),
                Sub::new("invalid", 200_000, 600_000, |s| any_field!(s, bad_input)),
                Sub::new("merge", 400_000, 1_000_000, |s| any_field!(s, merge)),
            ],
        },
    ]
}
