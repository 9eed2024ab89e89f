//! R02 replicated field arithmetic, R03 replicated bit strings.
use crate::any_rep_field;
use crate::kit::*;
use ark_ff::PrimeField;
use engine::*;
use mpc_core::protocols::rep3::{Rep3State, arithmetic as ar, binary as bi};
use mpc_core::uint::{FieldUint, UintBackend};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use vkit::*;

#[derive(Clone, Debug)]
enum Op<F> {
    Add(usize, usize),
    Sub(usize, usize),
    AddP(usize, F),
    PSub(F, usize),
    MulP(usize, F),
    Mul(usize, usize),
    MulVec(Vec<usize>, Vec<usize>),
    LocalMulVec(Vec<usize>, Vec<usize>),
    Div(usize, usize),
    DivPS(F, usize),
    Inv(usize),
    InvVec(Vec<usize>),
    Open(usize),
    OpenVec(Vec<usize>),
    Cmux(usize, usize, usize),
    CmuxVec(usize, Vec<usize>, Vec<usize>),
    AddMul(usize, usize, usize),
    MulOpen(usize, usize),
    MulOpenVec(Vec<usize>, Vec<usize>),
    Sqrt(usize),
    Pow(usize, F),
    Pow2(usize, u64),
    Xor(usize, usize),
    XorMany(Vec<usize>, Vec<usize>),
    Reshare(Vec<usize>, usize),
    Dot(Vec<usize>, Vec<usize>),
}
#[derive(Clone, Debug, PartialEq)]
enum Val<F: PrimeField> {
    S(Fs<F>),
    V(Vec<Fs<F>>),
    O(Vec<F>),
}

fn exec<F: FieldUint>(op: &Op<F>, x: &[Fs<F>], net: &TNet, st: &mut Rep3State) -> eyre::Result<Val<F>> {
    use Op::*;
    let g = |ix: &[usize]| -> Vec<Fs<F>> { ix.iter().map(|i| x[*i]).collect() };
    Ok(match op {
        Add(i, j) => Val::S(ar::add(x[*i], x[*j])),
        Sub(i, j) => Val::S(ar::sub(x[*i], x[*j])),
        AddP(i, p) => Val::S(ar::add_public(x[*i], *p, st.id)),
        PSub(p, i) => Val::S(ar::sub_public_by_shared(*p, x[*i], st.id)),
        MulP(i, p) => Val::S(ar::mul_public(x[*i], *p)),
        Mul(i, j) => Val::S(ar::mul(x[*i], x[*j], net, st)?),
        MulVec(a, b) => Val::V(ar::mul_vec(&g(a), &g(b), net, st)?),
        LocalMulVec(a, b) => Val::V(ar::reshare_vec(ar::local_mul_vec(&g(a), &g(b), st), net)?),
        Dot(a, b) => {
            let l: F = ar::local_mul_vec(&g(a), &g(b), st).into_iter().sum();
            Val::V(ar::reshare_vec(vec![l], net)?)
        }
        Div(i, j) => Val::S(ar::div(x[*i], x[*j], net, st)?),
        DivPS(p, i) => Val::S(ar::div_public_by_shared(*p, x[*i], net, st)?),
        Inv(i) => Val::S(ar::inv(x[*i], net, st)?),
        InvVec(a) => Val::V(ar::inv_vec(&g(a), net, st)?),
        Open(i) => Val::O(vec![ar::open(x[*i], net)?]),
        OpenVec(a) => Val::O(ar::open_vec(&g(a), net)?),
        Cmux(c, t, f) => Val::S(ar::cmux(x[*c], x[*t], x[*f], net, st)?),
        CmuxVec(c, t, f) => Val::V(ar::cmux_vec(x[*c], &g(t), &g(f), net, st)?),
        AddMul(a, b, c) => Val::S(ar::add_mul(x[*a], x[*b], x[*c], net, st)?),
        MulOpen(i, j) => Val::O(vec![ar::mul_open(x[*i], x[*j], net, st)?]),
        MulOpenVec(a, b) => Val::O(ar::mul_open_vec(&g(a), &g(b), net, st)?),
        Sqrt(i) => Val::S(ar::sqrt(x[*i], net, st)?),
        Pow(i, e) => Val::S(ar::pow_public(x[*i], *e, net, st)?),
        Pow2(i, k) => Val::S(ar::pow_2_public(x[*i], F::from(*k))),
        Xor(i, j) => Val::S(ar::arithmetic_xor(x[*i], x[*j], net, st)?),
        XorMany(a, b) => Val::V(ar::arithmetic_xor_many(&g(a), &g(b), net, st)?),
        Reshare(a, r) => {
            let mine = if st.id == IDS[*r] { None } else { Some(g(a)) };
            Val::V(ar::reshare_from_2_to_3_parties(mine, a.len(), IDS[*r], net, st)?)
        }
    })
}

fn program<F: FieldUint>(s: &mut Src) -> R {
    const N: usize = 6;
    // the last two registers stay bits
    let mut v: Vec<F> = (0..N).map(|i| if i >= N - 2 { F::from(s.bool()) } else { felt(s) }).collect();
    let x: Vec<[Fs<F>; 3]> = v.iter().map(|v| fshare(s, *v)).collect();
    let init = parties(&x);
    let mut ops: Vec<(Op<F>, usize)> = vec![];
    let mut wants: Vec<(Option<Vec<F>>, F)> = vec![]; // expected values; for square roots the square
    let steps = s.range(1, 16);
    for _ in 0..steps {
        let r = |s: &mut Src| s.range(0, N - 1);
        let (i, j, k, d) = (r(s), r(s), r(s), s.range(0, N - 3));
        let p: F = felt(s);
        let n = match s.weighted(&[1, 1, 6]) {
            0 => 0,
            1 => 1,
            _ => s.range(2, 8),
        };
        let (a, b): (Vec<usize>, Vec<usize>) = ((0..n).map(|_| r(s)).collect(), (0..n).map(|_| r(s)).collect());
        let bit = |s: &mut Src| s.range(N - 2, N - 1);
        let mul2 = |v: &[F]| a.iter().zip(&b).map(|(i, j)| v[*i] * v[*j]).collect::<Vec<F>>();
        let (op, w) = match s.below(26) {
            0 => (Op::Add(i, j), vec![v[i] + v[j]]),
            1 => (Op::Sub(i, j), vec![v[i] - v[j]]),
            2 => (Op::AddP(i, p), vec![v[i] + p]),
            3 => (Op::PSub(p, i), vec![p - v[i]]),
            4 => (Op::MulP(i, p), vec![v[i] * p]),
            5 => (Op::Mul(i, j), vec![v[i] * v[j]]),
            6 => (Op::MulVec(a.clone(), b.clone()), mul2(&v)),
            7 => (Op::LocalMulVec(a.clone(), b.clone()), mul2(&v)),
            8 => (Op::Dot(a.clone(), b.clone()), vec![mul2(&v).into_iter().sum()]),
            9 => match v[j].inverse() {
                Some(q) => (Op::Div(i, j), vec![v[i] * q]),
                None => continue,
            },
            10 => match v[i].inverse() {
                Some(q) => (Op::DivPS(p, i), vec![p * q]),
                None => continue,
            },
            11 => match v[i].inverse() {
                Some(q) => (Op::Inv(i), vec![q]),
                None => continue,
            },
            12 => {
                let a: Vec<usize> = a.into_iter().filter(|i| !v[*i].is_zero()).collect();
                let w = a.iter().map(|i| v[*i].inverse().unwrap()).collect();
                (Op::InvVec(a), w)
            }
            13 => (Op::Open(i), vec![v[i]]),
            14 => {
                let w = a.iter().map(|i| v[*i]).collect();
                (Op::OpenVec(a), w)
            }
            15 => {
                let c = bit(s);
                (Op::Cmux(c, i, j), vec![if v[c].is_one() { v[i] } else { v[j] }])
            }
            16 => {
                let c = bit(s);
                let w = a.iter().zip(&b).map(|(i, j)| if v[c].is_one() { v[*i] } else { v[*j] }).collect();
                (Op::CmuxVec(c, a, b), w)
            }
            17 => (Op::AddMul(i, j, k), vec![v[i] + v[j] * v[k]]),
            18 => (Op::MulOpen(i, j), vec![v[i] * v[j]]),
            19 => (Op::MulOpenVec(a.clone(), b.clone()), mul2(&v)),
            20 => {
                if v[i].sqrt().is_none() {
                    continue;
                }
                ops.push((Op::Sqrt(i), N));
                wants.push((None, v[i]));
                continue;
            }
            21 => {
                let e = match s.below(3) {
                    0 => F::from(s.below(20)),
                    1 => F::from(1u64 << s.below(60)),
                    _ => F::from(s.big(24)),
                };
                (Op::Pow(i, e), vec![v[i].pow(e.into_bigint())])
            }
            22 => {
                let k = *s.pick(&[0, 1, 2, 63, 64, bits_of::<F>() as u64 - 1]);
                (Op::Pow2(i, k), vec![v[i] * F::from(2u64).pow([k])])
            }
            23 => {
                let (i, j) = (bit(s), bit(s));
                (Op::Xor(i, j), vec![F::from(v[i] != v[j])])
            }
            24 => {
                let a: Vec<usize> = (0..n).map(|_| bit(s)).collect();
                let b: Vec<usize> = (0..n).map(|_| bit(s)).collect();
                let w = a.iter().zip(&b).map(|(i, j)| F::from(v[*i] != v[*j])).collect();
                (Op::XorMany(a, b), w)
            }
            _ => {
                let w = a.iter().map(|i| v[*i]).collect();
                (Op::Reshare(a, s.range(0, 2)), w)
            }
        };
        // a result goes into register d when there is one
        let dst = if w.is_empty() || matches!(op, Op::Open(_) | Op::OpenVec(_) | Op::MulOpen(..) | Op::MulOpenVec(..)) {
            N
        } else {
            v[d] = w[w.len() - 1];
            d
        };
        ops.push((op, dst));
        wants.push((Some(w), F::zero()));
    }
    s.note(|| format!("field of {} bits, {ops:?}", F::MODULUS_BIT_SIZE));
    if ops.len() > 2 {
        s.nontrivial();
    }
    let opsr = &ops;
    let outs = run3("program", Setup::draw(s), init, |nets, st, mut x| {
        let mut o = vec![];
        for (op, d) in opsr {
            let r = exec(op, &x, &nets[0], st).map_err(|e| eyre::eyre!("{op:?}: {e}"))?;
            if *d < N {
                match &r {
                    Val::S(a) => x[*d] = *a,
                    Val::V(a) => x[*d] = *a.last().ok_or(eyre::eyre!("{op:?} returned nothing"))?,
                    Val::O(_) => {}
                }
            }
            o.push(r);
        }
        Ok(o)
    })?;
    for (k, (op, _)) in ops.iter().enumerate() {
        let t = [&outs[0][k], &outs[1][k], &outs[2][k]];
        let what = format!("step {k} {op:?} of {ops:?}");
        let got: Vec<F> = match t {
            [Val::S(a), Val::S(b), Val::S(c)] => vec![fval(&what, [*a, *b, *c])?],
            [Val::V(a), Val::V(b), Val::V(c)] => {
                let mut g = vec![];
                for t in triples(&what, &[a.clone(), b.clone(), c.clone()], a.len())? {
                    g.push(fval(&what, t)?);
                }
                g
            }
            [Val::O(a), Val::O(b), Val::O(c)] => {
                check!(a == b && b == c, "{what}: parties opened different values");
                a.clone()
            }
            _ => fail!("{what}: kinds differ"),
        };
        match &wants[k] {
            (Some(w), _) => check_eq!(&got, w, "{what}"),
            (None, sq) => check_eq!(got[0].square(), *sq, "{what}: square of the square root"),
        }
    }
    Ok(())
}
fn programs(s: &mut Src) -> R {
    any_rep_field!(s, program)
}

/// Pairs that are equal, neighbours, or on both sides of the middle of the field.
fn cmp_pair<F: PrimeField>(s: &mut Src) -> (F, F) {
    let x: F = match s.below(4) {
        0 => F::from((fmod::<F>() - 1u8) / 2u8) + F::from(s.below(3)) - F::one(),
        1 => -F::from(s.below(3)),
        _ => felt(s),
    };
    let y = match s.below(6) {
        0 => x,
        1 => x + F::one(),
        2 => x - F::one(),
        3 => -x,
        4 => {
            // differs in one bit
            let b = to_big(x) ^ (BigUint::one() << s.range(0, bits_of::<F>() - 1));
            F::from(b % fmod::<F>())
        }
        _ => felt(s),
    };
    (x, y)
}

fn compare<F: FieldUint>(s: &mut Src) -> R {
    let (x, y): (F, F) = cmp_pair(s);
    let (sx, sy) = (fshare(s, x), fshare(s, y));
    let set = Setup::draw(s);
    let which = s.below(20);
    s.note(|| format!("comparison {which} ({:?}): {} and {}", set.a2b, to_big(x), to_big(y)));
    s.label(format!("{:?}", set.a2b));
    s.nontrivial();
    let (bx, by) = (to_big(x), to_big(y));
    let ops = ["lt", "le", "gt", "ge", "eq", "neq"];
    let sets = [bx < by, bx <= by, bx > by, bx >= by, bx == by, bx != by];
    let args = arr((0..3).map(|i| (sx[i], sy[i])).collect::<Vec<_>>());
    let what: String;
    match which {
        0..=11 => {
            let k = (which % 6) as usize;
            let public = which >= 6;
            what = format!("{}{} of {bx} and {by}", ops[k], if public { "_public" } else { "" });
            let o = run3(&what, set, args, |nets, st, (a, b)| {
                let n = &nets[0];
                match (k, public) {
                    (0, false) => ar::lt(a, b, n, st),
                    (1, false) => ar::le(a, b, n, st),
                    (2, false) => ar::gt(a, b, n, st),
                    (3, false) => ar::ge(a, b, n, st),
                    (4, false) => ar::eq(a, b, n, st),
                    (5, false) => ar::neq(a, b, n, st),
                    (0, true) => ar::lt_public(a, y, n, st),
                    (1, true) => ar::le_public(a, y, n, st),
                    (2, true) => ar::gt_public(a, y, n, st),
                    (3, true) => ar::ge_public(a, y, n, st),
                    (4, true) => ar::eq_public(a, y, n, st),
                    _ => ar::neq_public(a, y, n, st),
                }
            })?;
            check_eq!(fval(&what, o)?, F::from(sets[k]), "{what} ({} bits, {:?})", F::MODULUS_BIT_SIZE, set.a2b);
        }
        12..=16 => {
            let k = which - 12;
            what = ["ge_bit", "ge_public_bit", "le_public_bit", "eq_bit", "eq_bit_public"][k as usize].to_string();
            let want = [sets[3], sets[3], sets[1], sets[4], sets[4]][k as usize];
            let o = run3(&what, set, args, |nets, st, (a, b)| {
                let n = &nets[0];
                match k {
                    0 => ar::ge_bit(a, b, n, st),
                    1 => ar::ge_public_bit(a, y, n, st),
                    2 => ar::le_public_bit(a, y, n, st),
                    3 => ar::eq_bit(a, b, n, st),
                    _ => ar::eq_bit_public(a, y, n, st),
                }
            })?;
            check_eq!(bval(&what, o)?, BigUint::from(want as u8), "{what} of {bx} and {by} ({:?})", set.a2b);
        }
        17 => {
            let zero = if s.bool() { F::zero() } else { x };
            let sz = fshare(s, zero);
            let o = run3("is_zero", set, sz, |nets, st, a| ar::is_zero(a, &nets[0], st))?;
            for (i, o) in o.iter().enumerate() {
                check_eq!(*o, zero.is_zero(), "is_zero of {zero} at party {i}");
            }
        }
        _ => {
            // batches
            let n = s.range(0, 4);
            let ps: Vec<(F, F)> = (0..n).map(|_| cmp_pair(s)).collect();
            let a: Vec<[Fs<F>; 3]> = ps.iter().map(|p| fshare(s, p.0)).collect();
            let b: Vec<[Fs<F>; 3]> = ps.iter().map(|p| fshare(s, p.1)).collect();
            let pb: Vec<F> = ps.iter().map(|p| p.1).collect();
            let (a, b) = (parties(&a), parties(&b));
            let args = [0, 1, 2].map(|i| (a[i].clone(), b[i].clone()));
            let (public, bits, short) = (s.bool(), s.bool(), n > 0 && s.chance(1, 6));
            let f = |nets: &[TNet], st: &mut Rep3State, (a, mut b): (Vec<Fs<F>>, Vec<Fs<F>>)| {
                let net = &nets[0];
                let mut pb = pb.clone();
                if short {
                    b.pop();
                    pb.pop();
                }
                Ok(match (public, bits) {
                    (false, false) => (ar::eq_many(&a, &b, net, st)?, vec![]),
                    (true, false) => (ar::eq_public_many(&a, &pb, net, st)?, vec![]),
                    (false, true) => (vec![], ar::eq_bit_many(&a, &b, net, st)?),
                    (true, true) => (vec![], ar::eq_bit_public_many(&a, &pb, net, st)?),
                })
            };
            if short {
                return errs3("eq_many with operands of different lengths", set, args, f);
            }
            let o = run3("eq_many", set, args, f)?;
            let what = format!("eq_many (public {public}, bits {bits}) of {ps:?}");
            if bits {
                let o: Vec<Vec<Bs<F>>> = o.into_iter().map(|o| o.1).collect();
                for (k, t) in triples(&what, &o, n)?.into_iter().enumerate() {
                    check_eq!(bval(&what, t)?, BigUint::from((ps[k].0 == ps[k].1) as u8), "{what} at {k}");
                }
            } else {
                let o: Vec<Vec<Fs<F>>> = o.into_iter().map(|o| o.0).collect();
                for (k, t) in triples(&what, &o, n)?.into_iter().enumerate() {
                    check_eq!(fval(&what, t)?, F::from(ps[k].0 == ps[k].1), "{what} at {k}");
                }
            }
        }
    }
    Ok(())
}
fn comparisons(s: &mut Src) -> R {
    any_rep_field!(s, compare)
}

/// Undefined results are errors at every party, never values.
fn undefined<F: FieldUint>(s: &mut Src) -> R {
    let set = Setup::draw(s);
    let z = fshare(s, F::zero());
    let x: F = felt(s);
    let sx = fshare(s, x);
    s.nontrivial();
    let both = arr((0..3).map(|i| (z[i], sx[i])).collect::<Vec<_>>());
    match s.below(6) {
        0 => errs3("inv of zero", set, z, |nets, st, a| ar::inv(a, &nets[0], st)),
        1 => errs3("inv_vec with a zero", set, both, |nets, st, (z, x)| ar::inv_vec(&[x, z], &nets[0], st)),
        2 => errs3("div by zero", set, both, |nets, st, (z, x)| ar::div(x, z, &nets[0], st)),
        3 => errs3("div_public_by_shared by zero", set, z, |nets, st, a| ar::div_public_by_shared(x, a, &nets[0], st)),
        4 => {
            let mut q = nonzero::<F>(s);
            while q.sqrt().is_some() {
                q += F::one();
            }
            let sq = fshare(s, q);
            errs3("sqrt of a non-residue", set, sq, |nets, st, a| ar::sqrt(a, &nets[0], st))
        }
        _ => {
            let k = bits_of::<F>() as u64 + s.below(3) * 1000;
            check!(
                caught(|| ar::pow_2_public(sx[0], F::from(k))).is_err(),
                "pow_2_public by {k} for a modulus of {} bits was accepted",
                F::MODULUS_BIT_SIZE
            );
            Ok(())
        }
    }
}
fn undefineds(s: &mut Src) -> R {
    any_rep_field!(s, undefined)
}

// ---- R03 ----

#[derive(Clone, Debug)]
enum Bop {
    Xor(usize, usize),
    XorP(usize, BigUint),
    XorPV(Vec<usize>, Vec<BigUint>),
    And(usize, usize),
    AndVec(Vec<usize>, Vec<usize>),
    AndP(usize, BigUint),
    Or(usize, usize),
    OrP(usize, BigUint),
    Shr(usize, u64),
    Shl(usize, u64),
    Cmux(usize, usize, usize),
    CmuxMany(Vec<usize>, Vec<usize>, Vec<usize>),
    OrTree(Vec<usize>),
    IsZero(usize),
    IsZeroMany(Vec<usize>),
    Open(usize),
    Promote(BigUint),
}

fn bexec<F: FieldUint>(op: &Bop, x: &[Bs<F>], net: &TNet, st: &mut Rep3State) -> eyre::Result<(Vec<Bs<F>>, Option<BigUint>)> {
    use Bop::*;
    let g = |ix: &[usize]| -> Vec<Bs<F>> { ix.iter().map(|i| x[*i]).collect() };
    Ok((
        match op {
            Xor(i, j) => vec![bi::xor(&x[*i], &x[*j])],
            XorP(i, p) => vec![bi::xor_public(&x[*i], &ub(p), st.id)],
            XorPV(a, p) => bi::xor_public_vec(&g(a), &p.iter().map(ub).collect::<Vec<_>>(), st.id),
            And(i, j) => vec![bi::and(&x[*i], &x[*j], net, st)?],
            AndVec(a, b) => bi::and_vec(&g(a), &g(b), net, st)?,
            AndP(i, p) => vec![bi::and_with_public(&x[*i], &ub(p))],
            Or(i, j) => vec![bi::or(&x[*i], &x[*j], net, st)?],
            OrP(i, p) => vec![bi::or_public(&x[*i], &ub(p), st.id)],
            Shr(i, k) => vec![bi::shift_r_public(&x[*i], F::from(*k))],
            Shl(i, k) => vec![bi::shift_l_public(&x[*i], F::from(*k))],
            Cmux(c, t, f) => vec![bi::cmux(&x[*c], &x[*t], &x[*f], net, st)?],
            CmuxMany(c, t, f) => bi::cmux_many(&g(c), &g(t), &g(f), net, st)?,
            OrTree(a) => vec![bi::or_tree(g(a), net, st)?],
            IsZero(i) => vec![bi::is_zero(&x[*i], net, st)?],
            IsZeroMany(a) => bi::is_zero_many(g(a), net, st)?,
            Open(i) => return Ok((vec![], Some(bu(&bi::open(&x[*i], net)?)))),
            Promote(p) => vec![bi::promote_to_trivial_share(st.id, &ub(p))],
        },
        None,
    ))
}

fn bit_program<F: FieldUint>(s: &mut Src) -> R {
    const N: usize = 6;
    let bl = bits_of::<F>();
    let full = F::Uint::BITS;
    let val = |s: &mut Src| -> BigUint {
        match s.weighted(&[1, 1, 2, 2, 4]) {
            0 => BigUint::zero(),
            1 => mask(bl),
            2 => BigUint::one() << s.range(0, bl - 1),
            3 => to_big(felt::<F>(s)),
            _ => s.big(bl),
        }
    };
    let mut v: Vec<BigUint> = (0..N).map(|_| val(s)).collect();
    let x: Vec<[Bs<F>; 3]> = v.iter().map(|v| bshare::<F>(s, v)).collect();
    let init = parties(&x);
    let (mut ops, mut wants): (Vec<(Bop, usize)>, Vec<Vec<BigUint>>) = (vec![], vec![]);
    for _ in 0..s.range(1, 12) {
        let r = |s: &mut Src| s.range(0, N - 1);
        let (i, j, k, d) = (r(s), r(s), r(s), r(s));
        let p = val(s);
        let n = match s.weighted(&[1, 1, 6]) {
            0 => 0,
            1 => 1,
            _ => s.range(2, 7),
        };
        let ix = |s: &mut Src| (0..n).map(|_| r(s)).collect::<Vec<usize>>();
        let (a, b, c) = (ix(s), ix(s), ix(s));
        let sel = |c: &BigUint, t: &BigUint, f: &BigUint| (c & t) ^ (f ^ (c & f));
        let bit = |z: bool| BigUint::from(z as u8);
        let low = |v: &BigUint| (v & mask(bl)).is_zero();
        let (op, w) = match s.below(17) {
            0 => (Bop::Xor(i, j), vec![&v[i] ^ &v[j]]),
            1 => (Bop::XorP(i, p.clone()), vec![&v[i] ^ &p]),
            2 => {
                let ps: Vec<BigUint> = (0..n).map(|_| val(s)).collect();
                let w = a.iter().zip(&ps).map(|(i, p)| &v[*i] ^ p).collect();
                (Bop::XorPV(a, ps), w)
            }
            3 => (Bop::And(i, j), vec![&v[i] & &v[j]]),
            4 => {
                let w = a.iter().zip(&b).map(|(i, j)| &v[*i] & &v[*j]).collect();
                (Bop::AndVec(a, b), w)
            }
            5 => (Bop::AndP(i, p.clone()), vec![&v[i] & &p]),
            6 => (Bop::Or(i, j), vec![&v[i] | &v[j]]),
            7 => (Bop::OrP(i, p.clone()), vec![&v[i] | &p]),
            8 => {
                let k = if s.chance(1, 4) { s.range(0, full + 70) } else { s.range(0, bl) };
                (Bop::Shr(i, k as u64), vec![&v[i] >> k])
            }
            9 => {
                let k = s.range(0, bl - 1);
                (Bop::Shl(i, k as u64), vec![(&v[i] << k) & mask(full)])
            }
            10 => {
                // conditions are usually one bit wide or all ones; the selection is bit by bit
                (Bop::Cmux(i, j, k), vec![sel(&v[i], &v[j], &v[k])])
            }
            11 => {
                let w = (0..n).map(|q| sel(&v[c[q]], &v[a[q]], &v[b[q]])).collect();
                (Bop::CmuxMany(c, a, b), w)
            }
            12 => {
                if n == 0 {
                    continue;
                }
                let w = a.iter().fold(BigUint::zero(), |x, i| x | &v[*i]);
                (Bop::OrTree(a), vec![w])
            }
            13 => (Bop::IsZero(i), vec![bit(low(&v[i]))]),
            14 => {
                let w = a.iter().map(|i| bit(low(&v[*i]))).collect();
                (Bop::IsZeroMany(a), w)
            }
            15 => (Bop::Open(i), vec![v[i].clone()]),
            _ => (Bop::Promote(p.clone()), vec![p]),
        };
        let dst = if w.is_empty() || matches!(op, Bop::Open(_)) {
            N
        } else {
            v[d] = w[w.len() - 1].clone();
            d
        };
        ops.push((op, dst));
        wants.push(w);
    }
    s.note(|| format!("{bl} bits, {ops:?}"));
    if ops.len() > 2 {
        s.nontrivial();
    }
    let opsr = &ops;
    let outs = run3("bit program", Setup::draw(s), init, |nets, st, mut x| {
        let mut o = vec![];
        for (op, d) in opsr {
            let r = bexec(op, &x, &nets[0], st).map_err(|e| eyre::eyre!("{op:?}: {e}"))?;
            if *d < N {
                x[*d] = *r.0.last().ok_or(eyre::eyre!("{op:?} returned nothing"))?;
            }
            o.push(r);
        }
        Ok(o)
    })?;
    for (k, (op, _)) in ops.iter().enumerate() {
        let what = format!("step {k} {op:?} of {ops:?} ({bl} bits)");
        if let Bop::Open(_) = op {
            for i in 0..3 {
                check_eq!(outs[i][k].1.as_ref(), Some(&wants[k][0]), "{what}: opened at party {i}");
            }
            continue;
        }
        let per: Vec<Vec<Bs<F>>> = outs.iter().map(|o| o[k].0.clone()).collect();
        for (q, t) in triples(&what, &per, wants[k].len())?.into_iter().enumerate() {
            check_eq!(bval(&what, t)?, wants[k][q], "{what} at {q}");
        }
    }
    Ok(())
}
fn bit_programs(s: &mut Src) -> R {
    any_rep_field!(s, bit_program)
}

fn shl_shared<F: FieldUint>(s: &mut Src) -> R {
    let e = s.below(256);
    // only the low eight bits of the amount are looked at
    let hi = if s.chance(1, 3) { s.big(bits_of::<F>()) >> 8 << 8 } else { BigUint::zero() };
    let v = (hi & mask(bits_of::<F>())) | BigUint::from(e);
    let p: F = felt(s);
    let x = bshare::<F>(s, &v);
    let set = Setup::draw(s);
    s.nontrivial();
    s.note(|| format!("{p} shifted left by shared {v}"));
    let o = run3("shift_l_public_by_shared", set, x, |nets, st, x| {
        bi::shift_l_public_by_shared(p, &x, &nets[0], st)
    })?;
    check_eq!(
        fval("shift_l_public_by_shared", o)?,
        p * F::from(2u64).pow([e]),
        "shift_l_public_by_shared of {p} by {e} ({:?})",
        set.a2b
    );
    Ok(())
}
fn shl_shareds(s: &mut Src) -> R {
    any_rep_field!(s, shl_shared)
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "R02",
            rule: "a program of more than two operations, a comparison, or an undefined operation",
            assumptions: "honest parties; the chance that a random mask is zero (about 2^-253) is neglected",
            subs: vec![
                Sub::new("programs", 25000, 150000, programs).workers(4),
                Sub::new("comparisons", 6000, 20000, comparisons).workers(4),
                Sub::new("undefined", 4000, 20000, undefineds).workers(4),
            ],
        },
        Property {
            id: "R03",
            rule: "a program of more than two operations, or a shift by a shared amount",
            assumptions: "honest parties",
            subs: vec![
                Sub::new("programs", 25000, 120000, bit_programs).workers(4),
                Sub::new("shift-by-shared", 600, 2000, shl_shareds).workers(4),
            ],
        },
    ]
}
