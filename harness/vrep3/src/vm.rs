//! V01: the witness VM on shared inputs computes the witness of the plain run.
use crate::kit::*;
use crate::vmlang::*;
use ark_ff::PrimeField;
use circom_mpc_vm::mpc_vm::{BatchedRep3WitnessExtension, Rep3WitnessExtension, ShamirWitnessExtension, VMConfig};
use circom_mpc_vm::{ComponentAcceleratorOutput, BatchedRep3VmType, Rep3VmType, ShamirVmType};
use co_circom_types::SharedWitness;
use engine::*;
use mpc_core::gadgets::poseidon2::{CircomTracePlainHasher, Poseidon2};
use mpc_core::protocols::rep3::conversion::A2BType;
use mpc_core::protocols::shamir;
use mpc_core::uint::FieldUint;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use std::collections::BTreeMap;
use vkit::*;

fn poseidon<F: PrimeField>(x: &[BigUint]) -> (Vec<BigUint>, Vec<BigUint>) {
    fn go<F: PrimeField, const T: usize>(x: &[BigUint]) -> (Vec<BigUint>, Vec<BigUint>) {
        let st: [F; T] = std::array::from_fn(|i| F::from(x[i].clone()));
        let (o, tr) = Poseidon2::<F, T, 5>::default().plain_permutation_intermediate(st).expect("plain permutation");
        (o.into_iter().map(to_big).collect(), tr.into_iter().map(to_big).collect())
    }
    match x.len() {
        2 => go::<F, 2>(x),
        3 => go::<F, 3>(x),
        4 => go::<F, 4>(x),
        _ => go::<F, 16>(x),
    }
}
fn no_poseidon(_: &[BigUint]) -> (Vec<BigUint>, Vec<BigUint>) {
    unreachable!()
}

struct Plan {
    prog: Prog,
    /// per run of the batch: one value per input signal
    inputs: Vec<Vec<BigUint>>,
    shared: Vec<bool>,
    order: Vec<usize>,
    cfg: VMConfig,
    named: bool,
    features: Vec<&'static str>,
}
#[derive(Clone, Copy, PartialEq)]
enum Shape {
    /// operators only
    Flat,
    Control,
    Functions,
    Components,
    Asserts,
    /// permutations with traces given in advance
    Traced,
}

fn plan<F: PrimeField>(s: &mut Src, d: Dialect, shape: Shape, batch: usize, with_poseidon: bool) -> Plan {
    let p = fmod::<F>();
    let nin = s.range(1, 6);
    let n_public = s.range(0, nin.min(2));
    let mut shared = vec![];
    let mut kinds = vec![];
    for _ in 0..nin {
        match s.weighted(&[2, 4, 3]) {
            // given in public; the program may use it where a public value is needed
            0 => {
                shared.push(false);
                kinds.push(if d == Dialect::Batch { 's' } else { 'p' });
            }
            k => {
                shared.push(!s.chance(1, 5));
                kinds.push(if k == 1 { 's' } else { 'b' });
            }
        }
    }
    let mut g = Gen::new::<F>(s, d);
    if matches!(shape, Shape::Functions | Shape::Asserts) || g.s.chance(1, 3) {
        for _ in 0..g.s.range(1, 3) {
            match g.s.weighted(&[6, 1, 1, 1]) {
                1 if d != Dialect::Batch => g.recursion(),
                2 if d == Dialect::Full => g.guarded_inverse(),
                3 if d == Dialect::Full && !g.funs.iter().any(|f| f.name == "sqrt_0") => g.sqrt(),
                _ => g.function(),
            }
        }
    }
    g.asserts = shape == Shape::Asserts || g.s.chance(1, 10);
    if shape == Shape::Traced {
        let t = *g.s.pick(&[2usize, 3, 4, 16]);
        g.traced(t, poseidon::<F>(&vec![BigUint::zero(); t]).1.len());
        if g.s.chance(1, 3) {
            let k: Vec<char> = (0..g.s.range(1, 3)).map(|_| 's').collect();
            g.template(&k, 1, 1);
        }
    }
    if shape == Shape::Components {
        for _ in 0..g.s.range(1, 2) {
            if g.s.chance(1, 3) {
                g.accelerated(with_poseidon.then_some(poseidon::<F> as _));
            } else {
                let k: Vec<char> = (0..g.s.range(0, 4)).map(|_| 's').collect();
                let depth = if g.templs.is_empty() { 0 } else { g.s.range(0, 1) };
                let len = g.s.range(0, 2);
                g.template(&k, depth, len);
            }
        }
    }
    let (comps, len) = match shape {
        Shape::Flat => (0, 0),
        Shape::Components | Shape::Traced => (g.s.range(1, 2), g.s.range(0, 2)),
        _ => (0, g.s.range(2, 5)),
    };
    let main = g.template(&kinds, comps, len);
    let total = g.templs[main].total;
    let nout = g.templs[main].nout;
    // the inputs are named signals, some of them arrays
    let mut names = vec![];
    let mut left = nin;
    while left > 0 {
        let k = if g.s.bool() { 1 } else { g.s.range(1, left) };
        names.push((format!("in{}", names.len()), k));
        left -= k;
    }
    let features = g.features.clone();
    let mut prog = g.finish(main, n_public, names);
    prog.main = main;
    // witness: the constant, outputs and public inputs, then some of the others in any order
    let mut order: Vec<usize> = (0..1 + nout + n_public).collect();
    let mut rest: Vec<usize> = (1 + nout + n_public..1 + total).collect();
    if s.chance(1, 3) {
        s.shuffle(&mut rest);
        let keep = s.range(0, rest.len());
        rest.truncate(keep);
    }
    order.extend(rest);
    let inputs = (0..batch)
        .map(|_| {
            kinds
                .iter()
                .map(|k| match k {
                    'b' => BigUint::from(s.below(2)),
                    _ if s.chance(1, 3) => BigUint::from(s.below(5)),
                    _ => s.modular(&p),
                })
                .collect()
        })
        .collect();
    let mut cfg = VMConfig::new();
    cfg.a2b_type = if s.bool() { A2BType::Direct } else { A2BType::Yao };
    cfg.allow_leaky_logs = s.bool();
    let named = s.bool();
    Plan { prog, inputs, shared, order, cfg, named, features }
}
enum Want {
    Witness(Vec<BigUint>),
    Failure,
}
type Traces = Vec<(Vec<BigUint>, Vec<BigUint>)>;
fn expect<F: PrimeField>(s: &mut Src, pl: &Plan, run: usize, with_poseidon: bool) -> Option<(Want, Traces)> {
    let m = &pl.prog.templs[pl.prog.main];
    let mut ev = Eval {
        p: fmod::<F>(),
        prog: &pl.prog,
        signals: vec![BigUint::zero(); 1 + m.total],
        steps: 0,
        poseidon: if with_poseidon { poseidon::<F> } else { no_poseidon },
        executed_asserts: 0,
        taken: 0,
        untaken: 0,
        precomputed: vec![],
        marked: false,
    };
    ev.signals[0] = BigUint::one();
    ev.signals[1 + m.nout..1 + m.nout + m.nin].clone_from_slice(&pl.inputs[run]);
    let r = ev.comp(pl.prog.main, 1);
    if ev.taken > 0 && ev.untaken > 0 {
        s.label("branches both ways");
    }
    match r {
        Ok(()) => Some((Want::Witness(pl.order.iter().map(|i| ev.signals[*i].clone()).collect()), ev.precomputed)),
        Err(Stop::Assert) => Some((Want::Failure, ev.precomputed)),
        Err(Stop::Undefined(_)) => None,
    }
}
fn describe(s: &mut Src, pl: &Plan) {
    let (t, f, i, sh) = (&pl.prog.templs, &pl.prog.funs, &pl.inputs, &pl.shared);
    s.note(|| {
        let mut o = format!("inputs {i:?} shared {sh:?} public {} config {:?}\n", pl.prog.n_public, pl.cfg);
        for f in f {
            o += &format!("function {} params {:?} returns {}:\n{}", f.name, f.params, f.nret, show(&f.body, 1));
        }
        for t in t {
            o += &format!(
                "template {} outputs {} inputs {} mappings {:?}:\n{}",
                t.sym,
                t.nout,
                t.nin,
                t.mappings,
                show(&t.body, 1)
            );
        }
        o
    });
    let mut fs = pl.features.clone();
    fs.sort();
    fs.dedup();
    for f in fs {
        s.label(f);
    }
}
fn show(b: &[St], depth: usize) -> String {
    let ind = "  ".repeat(depth);
    let mut o = String::new();
    for st in b {
        match st {
            St::If(c, t, f) => {
                o += &format!("{ind}if {} {{\n{}", se(c), show(t, depth + 1));
                if !f.is_empty() {
                    o += &format!("{ind}}} else {{\n{}", show(f, depth + 1));
                }
                o += &format!("{ind}}}\n");
            }
            St::While(c, b) => o += &format!("{ind}while {} {{\n{}{ind}}}\n", se(c), show(b, depth + 1)),
            St::Set(d, r) => o += &format!("{ind}{} = {}\n", sd(d), sr(r)),
            St::Call(f, a, n, d) => {
                o += &format!("{ind}{} = fun#{f}({}) [{n}]\n", sd(d), a.iter().map(sr).collect::<Vec<_>>().join(", "))
            }
            St::Create(t, off, j, n) => o += &format!("{ind}create template#{t} at {off} jump {j} amount {n}\n"),
            St::Assert(e) => o += &format!("{ind}assert {}\n", se(e)),
            St::Log(e) => o += &format!("{ind}log {}\n", se(e)),
            St::Ret(r) => o += &format!("{ind}return {}\n", sr(r)),
        }
    }
    o
}
fn si(i: &Ix) -> String {
    match &i.dynamic {
        None => i.base.to_string(),
        Some((k, e)) => format!("{}+{k}*{}", i.base, se(e)),
    }
}
fn se(e: &E) -> String {
    match e {
        E::C(c) => c.to_string(),
        E::V(i) => format!("v[{}]", si(i)),
        E::S(i) => format!("s[{}]", si(i)),
        E::Out(c, i, m) => format!("c[{}].s[{}{}]", si(c), si(i), m.map(|m| format!(" code {m}")).unwrap_or_default()),
        E::Bin(op, a, b) => format!("({} {op:?} {})", se(a), se(b)),
        E::Neg(a) => format!("(-{})", se(a)),
        E::EqN(a, b) => format!("({} == {})", sr(a), sr(b)),
    }
}
fn sr(r: &Rg) -> String {
    match r {
        Rg::Vars(i, n) => format!("v[{};{n}]", si(i)),
        Rg::Sigs(i, n) => format!("s[{};{n}]", si(i)),
        Rg::Out(c, i, m, n) => format!("c[{}].s[{} {m:?};{n}]", si(c), si(i)),
        Rg::Consts(v) => format!("{v:?}"),
        Rg::One(e) => se(e),
    }
}
fn sd(d: &Dst) -> String {
    match d {
        Dst::Var(i) => format!("v[{}]", si(i)),
        Dst::Sig(i) => format!("s[{}]", si(i)),
        Dst::In(c, i, m) => format!("c[{}].in[{}{}]", si(c), si(i), m.map(|m| format!(" code {m}")).unwrap_or_default()),
    }
}
fn name_inputs<T: Clone>(prog: &Prog, vals: &[T]) -> BTreeMap<String, T> {
    let mut m = BTreeMap::new();
    let mut at = 0;
    for (n, k) in &prog.inputs {
        for i in 0..*k {
            let key = if *k == 1 { n.clone() } else { format!("{n}[{i}]") };
            m.insert(key, vals[at].clone());
            at += 1;
        }
    }
    m
}
fn compare(what: &str, got: &[BigUint], want: &[BigUint], pl: &Plan) -> R {
    check_eq!(got.len(), want.len(), "{what}: witness length");
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        check!(g == w, "{what}: witness entry {i} (signal {}) is {g}, the program assigns {w}", pl.order[i]);
    }
    Ok(())
}
fn plain<F: FieldUint>(pl: &Plan, want: &Want) -> R {
    let parsed = compile::<F>(&pl.prog, pl.order.clone());
    let vals: Vec<F> = pl.inputs[0].iter().map(|x| F::from(x.clone())).collect();
    let r = caught(|| {
        let vm = parsed.to_plain_vm(pl.cfg.clone());
        if pl.named { vm.run(name_inputs(&pl.prog, &vals), pl.prog.n_public) } else { vm.run_with_flat(vals.clone(), pl.prog.n_public) }
    });
    match (r, want) {
        (Err(p), _) => fail!("plain run panicked: {p}"),
        (Ok(Err(e)), Want::Witness(_)) => fail!("plain run failed: {e:#}"),
        (Ok(Ok(_)), Want::Failure) => fail!("plain run passes a failing assertion"),
        (Ok(Err(_)), Want::Failure) => {}
        (Ok(Ok(w)), Want::Witness(want)) => {
            let nout = pl.prog.templs[pl.prog.main].nout;
            let outs = w.get_output("out").unwrap();
            check_eq!(outs.len(), nout, "plain: length of the output array");
            check_eq!(w.get_output("out0"), Some(vec![outs[0]]), "plain: single output");
            check!(w.get_output("none").is_none(), "an unknown output has a value");
            let w = w.into_shared_witness();
            check_eq!(w.public_inputs.len(), 1 + nout + pl.prog.n_public, "plain: public part");
            check!(outs[..] == w.public_inputs[1..1 + nout], "plain: outputs by name differ from the public part");
            let got: Vec<BigUint> = w.public_inputs.into_iter().chain(w.witness).map(to_big).collect();
            compare("plain", &got, want, pl)?;
        }
    }
    Ok(())
}
/// Every party reports an error; none panics, none returns a witness.
fn all_fail<T>(what: &str, outs: Vec<Out<T>>) -> R {
    for (i, o) in outs.into_iter().enumerate() {
        match o {
            Out::Ok(_) => fail!("{what}: party {i} passes a failing assertion"),
            Out::Panic(p) => fail!("{what}: party {i} panicked at a failing assertion: {p}"),
            Out::Err(e) if e.contains(TIMEOUT) => return Err(Fail::suspect(format!("{what}: party {i} timed out"))),
            Out::Err(_) => {}
        }
    }
    Ok(())
}
fn rep3_inputs<F: FieldUint>(s: &mut Src, pl: &Plan) -> [Vec<Rep3VmType<F>>; 3] {
    let mut ins: [Vec<Rep3VmType<F>>; 3] = Default::default();
    for (v, sh) in pl.inputs[0].iter().zip(&pl.shared) {
        let v = F::from(v.clone());
        if *sh {
            for (i, x) in fshare(s, v).into_iter().enumerate() {
                ins[i].push(x.into());
            }
        } else {
            for x in ins.iter_mut() {
                x.push(v.into());
            }
        }
    }
    ins
}
fn rep3<F: FieldUint>(s: &mut Src, pl: &Plan, want: &Want) -> R {
    let parsed = compile::<F>(&pl.prog, pl.order.clone());
    let ins = rep3_inputs::<F>(s, pl);
    let outs = run_nets(3, 2, None, ins.into(), |_, nets, a| {
        let vm = Rep3WitnessExtension::new(&nets[0], &nets[1], &parsed, pl.cfg.clone())?;
        let w = if pl.named { vm.run(name_inputs(&pl.prog, &a), pl.prog.n_public)? } else { vm.run_with_flat(a, pl.prog.n_public)? };
        Ok((w.get_output("out"), w.into_shared_witness()))
    });
    rep3_check(pl, want, outs)
}
type Rep3Out<F> = (Option<Vec<F>>, SharedWitness<F, Fs<F>>);
fn rep3_check<F: FieldUint>(pl: &Plan, want: &Want, outs: Vec<Out<Rep3Out<F>>>) -> R {
    let want = match want {
        Want::Failure => return all_fail("replicated", outs),
        Want::Witness(w) => w,
    };
    let outs = all_ok("replicated", outs)?;
    let nout = pl.prog.templs[pl.prog.main].nout;
    for (i, (o, w)) in outs.iter().enumerate() {
        check_eq!(w.public_inputs.len(), 1 + nout + pl.prog.n_public, "party {i}: public part");
        check!(o.as_deref() == Some(&w.public_inputs[1..1 + nout]), "party {i}: outputs by name");
        check!(w.public_inputs == outs[0].1.public_inputs, "parties 0 and {i} open different public values");
    }
    let mut got: Vec<BigUint> = outs[0].1.public_inputs.iter().map(|x| to_big(*x)).collect();
    let per: Vec<Vec<Fs<F>>> = outs.into_iter().map(|o| o.1.witness).collect();
    for t in triples("witness", &per, want.len().saturating_sub(got.len()))? {
        got.push(to_big(fval("witness", t)?));
    }
    compare("replicated", &got, want, pl)
}
fn shamir_run<F: FieldUint>(s: &mut Src, pl: &Plan, want: &Want) -> R {
    let parsed = compile::<F>(&pl.prog, pl.order.clone());
    let t = s.range(1, 3);
    let n = s.range(2 * t + 1, 2 * t + 3).min(7);
    let amount = s.range(0, 40);
    let mut ins: Vec<Vec<ShamirVmType<F>>> = vec![vec![]; n];
    for (v, sh) in pl.inputs[0].iter().zip(&pl.shared) {
        let v = F::from(v.clone());
        if *sh {
            let mut r = s.rng();
            for (i, x) in shamir::share_field_element(v, t, n, &mut r).into_iter().enumerate() {
                ins[i].push(x.into());
            }
        } else {
            for x in ins.iter_mut() {
                x.push(v.into());
            }
        }
    }
    let outs = run_nets(n, 1, None, ins, |_, nets, a| {
        let vm = ShamirWitnessExtension::new(&nets[0], n, t, amount, &parsed, pl.cfg.clone())?;
        let w = if pl.named { vm.run(name_inputs(&pl.prog, &a), pl.prog.n_public)? } else { vm.run_with_flat(a, pl.prog.n_public)? };
        Ok(w.into_shared_witness())
    });
    let what = format!("Shamir {t} of {n}");
    let want = match want {
        Want::Failure => return all_fail(&what, outs),
        Want::Witness(w) => w,
    };
    let outs = all_ok(&what, outs)?;
    for (i, w) in outs.iter().enumerate() {
        check!(w.public_inputs == outs[0].public_inputs, "parties 0 and {i} open different public values");
        check_eq!(w.witness.len(), outs[0].witness.len(), "witness length of party {i}");
    }
    let mut got: Vec<BigUint> = outs[0].public_inputs.iter().map(|x| to_big(*x)).collect();
    for k in 0..outs[0].witness.len() {
        let sh: Vec<F> = outs.iter().map(|w| w.witness[k].inner()).collect();
        got.push(to_big(on_poly(&sh, t).map_err(|e| Fail::from(format!("{what}: entry {k}: {e}")))?));
    }
    compare(&what, &got, want, pl)
}
fn batched<F: FieldUint>(s: &mut Src, pl: &Plan, want: &[Want]) -> R {
    let n = pl.inputs.len();
    let parsed = compile::<F>(&pl.prog, pl.order.clone());
    let cols: Vec<Vec<F>> =
        (0..pl.inputs[0].len()).map(|k| pl.inputs.iter().map(|r| F::from(r[k].clone())).collect()).collect();
    let failing = want.iter().any(|w| matches!(w, Want::Failure));
    // plain
    let r = caught(|| {
        let vm = compile::<F>(&pl.prog, pl.order.clone()).to_batched_plain_vm(pl.cfg.clone(), n);
        if pl.named { vm.run(name_inputs(&pl.prog, &cols), pl.prog.n_public) } else { vm.run_with_flat(cols.clone(), pl.prog.n_public) }
    });
    match r {
        Err(p) => fail!("batched plain run panicked: {p}"),
        Ok(Err(e)) => check!(failing, "batched plain run failed: {e:#}"),
        Ok(Ok(_)) if failing => fail!("batched plain run passes a failing assertion"),
        Ok(Ok(w)) => {
            let all: Vec<Vec<F>> = {
                let w = w.into_shared_witness();
                w.public_inputs.into_iter().chain(w.witness).collect()
            };
            for (k, want) in want.iter().enumerate() {
                if let Want::Witness(want) = want {
                    let got: Vec<BigUint> = all.iter().map(|c| c.get(k).map(|x| to_big(*x)).unwrap_or_default()).collect();
                    compare(&format!("batched plain run {k} of {n}"), &got, want, pl)?;
                }
            }
        }
    }
    // shared
    let mut ins: [Vec<BatchedRep3VmType<F>>; 3] = Default::default();
    for (col, sh) in cols.iter().zip(&pl.shared) {
        if *sh {
            let sh: Vec<[Fs<F>; 3]> = col.iter().map(|v| fshare(s, *v)).collect();
            for i in 0..3 {
                ins[i].push(sh.iter().map(|t| t[i]).collect::<Vec<_>>().into());
            }
        } else {
            for x in ins.iter_mut() {
                x.push(col.clone().into());
            }
        }
    }
    let outs = run_nets(3, 2, None, ins.into(), |_, nets, a| {
        let vm = BatchedRep3WitnessExtension::new(&nets[0], &nets[1], &parsed, pl.cfg.clone(), n)?;
        let w = if pl.named { vm.run(name_inputs(&pl.prog, &a), pl.prog.n_public)? } else { vm.run_with_flat(a, pl.prog.n_public)? };
        Ok(w.into_shared_witness())
    });
    if failing {
        return all_fail("batched", outs);
    }
    let outs = all_ok("batched", outs)?;
    for (k, want) in want.iter().enumerate() {
        let Want::Witness(want) = want else { continue };
        let what = format!("batched run {k} of {n}");
        let mut got = vec![];
        for c in &outs[0].public_inputs {
            check_eq!(c.len(), n, "{what}: public entry");
            got.push(to_big(c[k]));
        }
        for e in 0..outs[0].witness.len() {
            for o in &outs {
                check_eq!(o.witness[e].len(), n, "{what}: witness entry {e}");
            }
            got.push(to_big(fval(&what, [outs[0].witness[e][k], outs[1].witness[e][k], outs[2].witness[e][k]])?));
        }
        compare(&what, &got, want, pl)?;
    }
    Ok(())
}
fn nontrivial(s: &mut Src, pl: &Plan) {
    if pl.shared.iter().any(|x| *x) {
        s.nontrivial();
    }
}
fn one<F: FieldUint>(s: &mut Src, d: Dialect, shape: Shape, with_poseidon: bool) -> R {
    let pl = plan::<F>(s, d, shape, 1, with_poseidon);
    describe(s, &pl);
    let Some((want, _)) = expect::<F>(s, &pl, 0, with_poseidon) else {
        s.label("undefined operation on the executed path: not run");
        return Ok(());
    };
    nontrivial(s, &pl);
    if matches!(want, Want::Failure) {
        s.label("failing assertion");
    }
    plain::<F>(&pl, &want)?;
    match d {
        Dialect::Full => rep3::<F>(s, &pl, &want),
        _ => shamir_run::<F>(s, &pl, &want),
    }
}
/// Traces of permutations given in advance take the place of running them.
fn traced(s: &mut Src) -> R {
    type F = ark_bn254::Fr;
    let pl = plan::<F>(s, Dialect::Full, Shape::Traced, 1, true);
    describe(s, &pl);
    let Some((want, traces)) = expect::<F>(s, &pl, 0, true) else { return Ok(()) };
    if !traces.is_empty() {
        nontrivial(s, &pl);
    }
    let nets_given = s.chance(5, 6);
    let parsed = compile::<F>(&pl.prog, pl.order.clone());
    let vals: Vec<F> = pl.inputs[0].iter().map(|x| F::from(x.clone())).collect();
    let plain: Vec<ComponentAcceleratorOutput<F>> = traces
        .iter()
        .map(|(o, t)| {
            let f = |v: &[BigUint]| v.iter().map(|x| F::from(x.clone())).collect();
            ComponentAcceleratorOutput::new(f(o), f(t))
        })
        .collect();
    let mut plain = nets_given.then_some(plain);
    let r = caught(|| {
        let w = compile::<F>(&pl.prog, pl.order.clone()).to_plain_vm(pl.cfg.clone()).run_with_helper_trace(name_inputs(&pl.prog, &vals), pl.prog.n_public, &mut plain)?;
        eyre::Ok(w.into_shared_witness())
    });
    match (r, &want) {
        (Err(p), _) => fail!("plain run with traces panicked: {p}"),
        (Ok(Ok(w)), Want::Witness(want)) => {
            let got: Vec<BigUint> = w.public_inputs.into_iter().chain(w.witness).map(to_big).collect();
            compare("plain with traces", &got, want, &pl)?;
            check!(plain.is_none_or(|p| p.is_empty()), "not every trace was used");
        }
        (Ok(Ok(_)), Want::Failure) => fail!("plain run with traces passes a failing assertion"),
        (Ok(Err(e)), Want::Witness(_)) => fail!("plain run with traces failed: {e:#}"),
        _ => {}
    }
    type Tr = Option<Vec<ComponentAcceleratorOutput<Rep3VmType<F>>>>;
    let mut tr: [Vec<ComponentAcceleratorOutput<Rep3VmType<F>>>; 3] = Default::default();
    for (o, t) in &traces {
        let mut share = |v: &[BigUint]| -> [Vec<Rep3VmType<F>>; 3] {
            let sh: Vec<[Fs<F>; 3]> = v.iter().map(|x| fshare(s, F::from(x.clone()))).collect();
            std::array::from_fn(|i| sh.iter().map(|x| x[i].into()).collect())
        };
        let (o, t) = (share(o), share(t));
        for (i, (o, t)) in o.into_iter().zip(t).enumerate() {
            tr[i].push(ComponentAcceleratorOutput::new(o, t));
        }
    }
    let args: Vec<(Vec<Rep3VmType<F>>, Tr)> =
        rep3_inputs::<F>(s, &pl).into_iter().zip(tr).map(|(a, t)| (a, nets_given.then_some(t))).collect();
    let outs = run_nets(3, 2, None, args, |_, nets, (a, mut t)| {
        let vm = Rep3WitnessExtension::new(&nets[0], &nets[1], &parsed, pl.cfg.clone())?;
        let w = vm.run_with_helper_trace(name_inputs(&pl.prog, &a), pl.prog.n_public, &mut t)?;
        if t.is_some_and(|t| !t.is_empty()) {
            eyre::bail!("not every trace was used");
        }
        Ok((w.get_output("out"), w.into_shared_witness()))
    });
    rep3_check(&pl, &want, outs)
}
/// A party does not run with a neighbour configured differently, nor without an input.
fn configs(s: &mut Src) -> R {
    type F = ark_bn254::Fr;
    let mut pl = plan::<F>(s, Dialect::Full, Shape::Flat, 1, false);
    pl.named = true;
    describe(s, &pl);
    let Some((want, _)) = expect::<F>(s, &pl, 0, false) else { return Ok(()) };
    let base = pl.cfg.clone();
    let cfgs: Vec<VMConfig> = (0..3)
        .map(|_| {
            let mut c = base.clone();
            if s.chance(1, 3) {
                match s.below(2) {
                    0 => c.allow_leaky_logs = !c.allow_leaky_logs,
                    _ => c.a2b_type = if c.a2b_type == A2BType::Direct { A2BType::Yao } else { A2BType::Direct },
                }
            }
            c
        })
        .collect();
    let same = cfgs.iter().all(|c| *c == cfgs[0]);
    let names: Vec<String> = name_inputs(&pl.prog, &pl.inputs[0]).into_keys().collect();
    let missing = s.chance(1, 4).then(|| s.pick(&names).clone());
    s.note(|| format!("configs {cfgs:?} missing {missing:?}"));
    if !same || missing.is_some() {
        s.nontrivial();
    }
    let parsed = compile::<F>(&pl.prog, pl.order.clone());
    let args: Vec<(VMConfig, Vec<Rep3VmType<F>>)> = cfgs.iter().cloned().zip(rep3_inputs::<F>(s, &pl)).collect();
    let outs = run_nets(3, 2, None, args, |_, nets, (cfg, a)| {
        let vm = Rep3WitnessExtension::new(&nets[0], &nets[1], &parsed, cfg)?;
        let mut a = name_inputs(&pl.prog, &a);
        if let Some(m) = &missing {
            a.remove(m);
        }
        let w = vm.run(a, pl.prog.n_public)?;
        Ok((w.get_output("out"), w.into_shared_witness()))
    });
    if same && missing.is_none() {
        return rep3_check(&pl, &want, outs);
    }
    for (i, o) in outs.into_iter().enumerate() {
        let differs = cfgs[i] != cfgs[(i + 2) % 3];
        match o {
            Out::Panic(p) => fail!("party {i} panicked: {p}"),
            Out::Ok(_) if missing.is_some() => fail!("party {i} ran without its input {missing:?}"),
            Out::Ok(_) if differs => fail!("party {i} ran although party {} is configured differently", (i + 2) % 3),
            Out::Err(e) if e.contains(TIMEOUT) => return Err(Fail::suspect(format!("party {i} timed out"))),
            _ => {}
        }
    }
    Ok(())
}
fn pick_field(s: &mut Src, d: Dialect, shape: Shape) -> R {
    match s.weighted(&[4, 1, 1]) {
        0 => one::<ark_bn254::Fr>(s, d, shape, true),
        1 => one::<ark_bls12_381::Fr>(s, d, shape, false),
        _ => one::<ark_bls12_377::Fr>(s, d, shape, false),
    }
}
fn shamir_case(s: &mut Src) -> R {
    let shape = *s.pick(&[Shape::Flat, Shape::Control, Shape::Control, Shape::Functions, Shape::Components, Shape::Asserts]);
    pick_field(s, Dialect::Linear, shape)
}
fn batch_case(s: &mut Src) -> R {
    fn go<F: FieldUint>(s: &mut Src) -> R {
        let shape = *s.pick(&[Shape::Flat, Shape::Control, Shape::Functions, Shape::Components, Shape::Asserts]);
        let n = s.range(1, 5);
        let pl = plan::<F>(s, Dialect::Batch, shape, n, false);
        describe(s, &pl);
        let mut want = vec![];
        for k in 0..n {
            match expect::<F>(s, &pl, k, false) {
                Some((w, _)) => want.push(w),
                None => return Ok(()),
            }
        }
        nontrivial(s, &pl);
        batched::<F>(s, &pl, &want)
    }
    match s.weighted(&[3, 1, 1]) {
        0 => go::<ark_bn254::Fr>(s),
        1 => go::<ark_bls12_381::Fr>(s),
        _ => go::<ark_bls12_377::Fr>(s),
    }
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "V01",
        rule: "at least one input is secret-shared and the program has a value on the inputs (no undefined operation on the executed path)",
        assumptions: "conditions and operands of Boolean connectives are 0 or 1; shift amounts and exponents are public or below the bit size; no loop depends on a secret; what a driver does not implement for shared values is not generated for it; reference evaluator on big integers, Poseidon2 traces against the plain permutation",
        subs: vec![
            Sub::new("operators", 6000, 30000, |s| pick_field(s, Dialect::Full, Shape::Flat)).workers(4).hang(40),
            Sub::new("branches", 3500, 15000, |s| pick_field(s, Dialect::Full, Shape::Control)).workers(4).hang(40),
            Sub::new("functions", 3500, 15000, |s| pick_field(s, Dialect::Full, Shape::Functions)).workers(4).hang(40),
            Sub::new("components", 2000, 8000, |s| pick_field(s, Dialect::Full, Shape::Components)).workers(4).hang(40),
            Sub::new("assertions", 2000, 8000, |s| pick_field(s, Dialect::Full, Shape::Asserts)).workers(4).hang(40),
            Sub::new("traces", 600, 10000, traced).workers(4).hang(40),
            Sub::new("configs", 600, 8000, configs).workers(4).hang(40),
            Sub::new("shamir", 4000, 20000, shamir_case).workers(4).hang(40),
            Sub::new("batched", 4000, 20000, batch_case).workers(4).hang(40),
        ],
    }]
}
