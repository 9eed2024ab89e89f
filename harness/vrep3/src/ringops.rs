//! Q01: replicated ring arithmetic, comparisons and casts against machine integers.
use crate::any_ring;
use crate::kit::*;
use engine::*;
use mpc_core::protocols::rep3::Rep3State;
use mpc_core::protocols::rep3_ring::ring::bit::Bit;
use mpc_core::protocols::rep3_ring::ring::int_ring::IntRing2k;
use mpc_core::protocols::rep3_ring::{arithmetic as ar, binary as bi, casts};
use mpc_core::uint::{FieldUint, U512, U1024};
use num_bigint::BigUint;
use num_traits::{AsPrimitive, One, Zero};
use rand::distributions::{Distribution, Standard};
use vkit::*;

// ---- programs over one ring ----

/// Registers 0..6 are arithmetic (4 and 5 hold bits), 6..10 are binary.
const NA: usize = 6;
const N: usize = 10;

#[derive(Clone, Debug)]
enum Op {
    Add(usize, usize),
    AddAssign(usize, usize),
    AddP(usize, BigUint),
    AddAssignP(usize, BigUint),
    AddVec(Vec<usize>, Vec<usize>),
    Sub(usize, usize),
    SubAssign(usize, usize),
    SubVec(Vec<usize>, Vec<usize>),
    SubSP(usize, BigUint),
    SubPS(BigUint, usize),
    Mul(usize, usize),
    MulP(usize, BigUint),
    MulAssignP(usize, BigUint),
    MulVec(Vec<usize>, Vec<usize>),
    LocalMulVec(Vec<usize>, Vec<usize>),
    Dot(Vec<usize>, Vec<usize>),
    Neg(usize),
    Open(usize),
    OpenVec(Vec<usize>),
    Cmux(usize, usize, usize),
    AddMulP(usize, usize, BigUint),
    AddMul(usize, usize, usize),
    Promote(BigUint),
    MulOpen(usize, usize),
    MulOpenVec(Vec<usize>, Vec<usize>),
    Rand,
    Pow(usize, BigUint),
    Pow2(usize, usize),
    AXor(usize, usize),
    AXorMany(Vec<usize>, Vec<usize>),
    // binary
    Xor(usize, usize),
    XorP(usize, BigUint),
    Or(usize, usize),
    OrP(usize, BigUint),
    And(usize, usize),
    AndVec(Vec<usize>, Vec<usize>),
    AndP(usize, BigUint),
    ShR(usize, usize),
    ShL(usize, usize),
    BOpen(usize),
    OpenBit(usize),
    BPromote(BigUint),
    BCmux(usize, usize, usize),
    OrTree(Vec<usize>),
    GetBit(usize, usize),
}
#[derive(Clone, Debug, PartialEq)]
enum Val<T: IntRing2k> {
    S(Rs<T>),
    V(Vec<Rs<T>>),
    O(Vec<Re<T>>),
    B(Rs<Bit>),
}

fn exec<T: IntRing2k>(op: &Op, x: &[Rs<T>], net: &TNet, st: &mut Rep3State) -> eyre::Result<Val<T>>
where
    Standard: Distribution<T>,
{
    use Op::*;
    let g = |ix: &[usize]| -> Vec<Rs<T>> { ix.iter().map(|i| x[*i]).collect() };
    let p = |v: &BigUint| re::<T>(v);
    let id = st.id;
    Ok(match op {
        Add(i, j) => Val::S(ar::add(x[*i], x[*j])),
        AddAssign(i, j) => {
            let mut a = x[*i];
            ar::add_assign(&mut a, x[*j]);
            Val::S(a)
        }
        AddP(i, v) => Val::S(ar::add_public(x[*i], p(v), id)),
        AddAssignP(i, v) => {
            let mut a = x[*i];
            ar::add_assign_public(&mut a, p(v), id);
            Val::S(a)
        }
        AddVec(a, b) => {
            let mut l = g(a);
            ar::add_vec_assign(&mut l, &g(b));
            Val::V(l)
        }
        Sub(i, j) => Val::S(ar::sub(x[*i], x[*j])),
        SubAssign(i, j) => {
            let mut a = x[*i];
            ar::sub_assign(&mut a, x[*j]);
            Val::S(a)
        }
        SubVec(a, b) => {
            let mut l = g(a);
            ar::sub_vec_assign(&mut l, &g(b));
            Val::V(l)
        }
        SubSP(i, v) => Val::S(ar::sub_shared_by_public(x[*i], p(v), id)),
        SubPS(v, i) => Val::S(ar::sub_public_by_shared(p(v), x[*i], id)),
        Mul(i, j) => Val::S(ar::mul(x[*i], x[*j], net, st)?),
        MulP(i, v) => Val::S(ar::mul_public(x[*i], p(v))),
        MulAssignP(i, v) => {
            let mut a = x[*i];
            ar::mul_assign_public(&mut a, p(v));
            Val::S(a)
        }
        MulVec(a, b) => Val::V(ar::mul_vec(&g(a), &g(b), net, st)?),
        LocalMulVec(a, b) => Val::V(ar::reshare_vec(ar::local_mul_vec(&g(a), &g(b), st), net)?),
        Dot(a, b) => {
            let l = ar::local_mul_vec(&g(a), &g(b), st).into_iter().fold(Re::<T>::zero(), |a, b| a + b);
            Val::V(ar::reshare_vec(vec![l], net)?)
        }
        Neg(i) => Val::S(ar::neg(x[*i])),
        Open(i) => Val::O(vec![ar::open(x[*i], net)?]),
        OpenVec(a) => Val::O(ar::open_vec(&g(a), net)?),
        Cmux(c, t, f) => Val::S(ar::cmux(x[*c], x[*t], x[*f], net, st)?),
        AddMulP(a, b, c) => Val::S(ar::add_mul_public(x[*a], x[*b], p(c))),
        AddMul(a, b, c) => Val::S(ar::add_mul(x[*a], x[*b], x[*c], net, st)?),
        Promote(v) => Val::S(ar::promote_to_trivial_share(id, p(v))),
        MulOpen(i, j) => Val::O(vec![ar::mul_open(x[*i], x[*j], net, st)?]),
        MulOpenVec(a, b) => Val::O(ar::mul_open_vec(&g(a), &g(b), net, st)?),
        Rand => Val::S(ar::rand(st)),
        Pow(i, e) => Val::S(ar::pow_public(x[*i], p(e), net, st)?),
        Pow2(i, k) => Val::S(ar::pow_2_public(x[*i], p(&BigUint::from(*k)))),
        AXor(i, j) => Val::S(ar::arithmetic_xor(x[*i], x[*j], net, st)?),
        AXorMany(a, b) => Val::V(ar::arithmetic_xor_many(&g(a), &g(b), net, st)?),
        Xor(i, j) => Val::S(bi::xor(&x[*i], &x[*j])),
        XorP(i, v) => Val::S(bi::xor_public(&x[*i], &p(v), id)),
        Or(i, j) => Val::S(bi::or(&x[*i], &x[*j], net, st)?),
        OrP(i, v) => Val::S(bi::or_public(&x[*i], &p(v), id)),
        And(i, j) => Val::S(bi::and(&x[*i], &x[*j], net, st)?),
        AndVec(a, b) => Val::V(bi::and_vec(&g(a), &g(b), net, st)?),
        AndP(i, v) => Val::S(bi::and_with_public(&x[*i], &p(v))),
        ShR(i, k) => Val::S(bi::shift_r_public(&x[*i], p(&BigUint::from(*k)))),
        ShL(i, k) => Val::S(bi::shift_l_public(&x[*i], p(&BigUint::from(*k)))),
        BOpen(i) => Val::O(vec![bi::open(&x[*i], net)?]),
        OpenBit(i) => Val::O(vec![ar::open_bit(x[*i], net)?]),
        BPromote(v) => Val::S(bi::promote_to_trivial_share(id, &p(v))),
        BCmux(c, t, f) => Val::S(bi::cmux(&x[*c], &x[*t], &x[*f], net, st)?),
        OrTree(a) => Val::S(bi::or_tree(g(a), net, st)?),
        GetBit(i, k) => Val::B(x[*i].get_bit(*k)),
    })
}

fn program<T: IntRing2k>(s: &mut Src) -> R
where
    Standard: Distribution<T>,
{
    let m = mask(T::K);
    let top = BigUint::one() << T::K;
    let mut v: Vec<BigUint> = vec![];
    let mut x: Vec<[Rs<T>; 3]> = vec![];
    for i in 0..N {
        let w = if (4..6).contains(&i) { BigUint::from(s.bool() as u8) } else { ring::<T>(s) };
        x.push(if i < NA { rshare::<T>(s, &w) } else { rxshare::<T>(s, &w) });
        v.push(w);
    }
    let init = parties(&x);
    let mut ops: Vec<(Op, usize)> = vec![];
    let mut wants: Vec<Option<Vec<BigUint>>> = vec![];
    let steps = s.range(1, 20);
    for _ in 0..steps {
        let ra = |s: &mut Src| s.range(0, NA - 1);
        let rb = |s: &mut Src| s.range(NA, N - 1);
        let bit = |s: &mut Src| s.range(4, 5);
        let (i, j, k, d) = (ra(s), ra(s), ra(s), s.range(0, 3));
        let (bi_, bj, bd) = (rb(s), rb(s), rb(s));
        let p = ring::<T>(s);
        let n = match s.weighted(&[1, 1, 6]) {
            0 => 0,
            1 => 1,
            _ => s.range(2, 8),
        };
        let idx = |s: &mut Src, f: &dyn Fn(&mut Src) -> usize| -> Vec<usize> { (0..n).map(|_| f(s)).collect() };
        let (a, b) = (idx(s, &ra), idx(s, &ra));
        let (ba, bb) = (idx(s, &rb), idx(s, &rb));
        let add = |a: &BigUint, b: &BigUint| (a + b) & &m;
        let sub = |a: &BigUint, b: &BigUint| (&top + a - b) & &m;
        let mul = |a: &BigUint, b: &BigUint| (a * b) & &m;
        let zip = |a: &[usize], b: &[usize], f: &dyn Fn(&BigUint, &BigUint) -> BigUint| -> Vec<BigUint> {
            a.iter().zip(b).map(|(i, j)| f(&v[*i], &v[*j])).collect()
        };
        let xorbit = |a: &BigUint, b: &BigUint| BigUint::from((a != b) as u8);
        let mut open = false;
        let mut dst = d;
        let (op, w): (Op, Vec<BigUint>) = match s.below(45) {
            0 => (Op::Add(i, j), vec![add(&v[i], &v[j])]),
            1 => (Op::AddAssign(i, j), vec![add(&v[i], &v[j])]),
            2 => (Op::AddP(i, p.clone()), vec![add(&v[i], &p)]),
            3 => (Op::AddAssignP(i, p.clone()), vec![add(&v[i], &p)]),
            4 => (Op::AddVec(a.clone(), b.clone()), zip(&a, &b, &add)),
            5 => (Op::Sub(i, j), vec![sub(&v[i], &v[j])]),
            6 => (Op::SubAssign(i, j), vec![sub(&v[i], &v[j])]),
            7 => (Op::SubVec(a.clone(), b.clone()), zip(&a, &b, &sub)),
            8 => (Op::SubSP(i, p.clone()), vec![sub(&v[i], &p)]),
            9 => (Op::SubPS(p.clone(), i), vec![sub(&p, &v[i])]),
            10 => (Op::Mul(i, j), vec![mul(&v[i], &v[j])]),
            11 => (Op::MulP(i, p.clone()), vec![mul(&v[i], &p)]),
            12 => (Op::MulAssignP(i, p.clone()), vec![mul(&v[i], &p)]),
            13 => (Op::MulVec(a.clone(), b.clone()), zip(&a, &b, &mul)),
            14 => (Op::LocalMulVec(a.clone(), b.clone()), zip(&a, &b, &mul)),
            15 => {
                let sum = zip(&a, &b, &mul).into_iter().fold(BigUint::zero(), |x, y| (x + y) & &m);
                (Op::Dot(a, b), vec![sum])
            }
            16 => (Op::Neg(i), vec![sub(&BigUint::zero(), &v[i])]),
            17 => {
                open = true;
                (Op::Open(i), vec![v[i].clone()])
            }
            18 => {
                open = true;
                (Op::OpenVec(a.clone()), a.iter().map(|i| v[*i].clone()).collect())
            }
            19 => {
                let c = bit(s);
                (Op::Cmux(c, i, j), vec![if v[c].is_one() { v[i].clone() } else { v[j].clone() }])
            }
            20 => (Op::AddMulP(i, j, p.clone()), vec![add(&v[i], &mul(&v[j], &p))]),
            21 => (Op::AddMul(i, j, k), vec![add(&v[i], &mul(&v[j], &v[k]))]),
            22 => (Op::Promote(p.clone()), vec![p]),
            23 => {
                open = true;
                (Op::MulOpen(i, j), vec![mul(&v[i], &v[j])])
            }
            24 => {
                open = true;
                (Op::MulOpenVec(a.clone(), b.clone()), zip(&a, &b, &mul))
            }
            25 => {
                ops.push((Op::Rand, N));
                wants.push(None);
                continue;
            }
            26 => {
                let e = match s.below(3) {
                    0 => BigUint::from(s.below(20)),
                    1 => BigUint::one() << s.range(0, T::K.min(40) - 1),
                    _ => s.big(T::K.min(24)),
                } & &m;
                let w = v[i].modpow(&e, &top);
                (Op::Pow(i, e), vec![w])
            }
            27 => {
                let k = s.range(0, (T::K - 1).min(255));
                let k = if BigUint::from(k) > m { 0 } else { k };
                (Op::Pow2(i, k), vec![(&v[i] << k) & &m])
            }
            28 => {
                let (i, j) = (bit(s), bit(s));
                (Op::AXor(i, j), vec![xorbit(&v[i], &v[j])])
            }
            29 => {
                let (a, b) = (idx(s, &bit), idx(s, &bit));
                let w = zip(&a, &b, &xorbit);
                (Op::AXorMany(a, b), w)
            }
            o => {
                dst = bd;
                match o {
                    30 | 31 => (Op::Xor(bi_, bj), vec![&v[bi_] ^ &v[bj]]),
                    32 => (Op::XorP(bi_, p.clone()), vec![&v[bi_] ^ p]),
                    33 => (Op::Or(bi_, bj), vec![&v[bi_] | &v[bj]]),
                    34 => (Op::OrP(bi_, p.clone()), vec![&v[bi_] | p]),
                    35 => (Op::And(bi_, bj), vec![&v[bi_] & &v[bj]]),
                    36 => (Op::AndVec(ba.clone(), bb.clone()), zip(&ba, &bb, &|a, b| a & b)),
                    37 => (Op::AndP(bi_, p.clone()), vec![&v[bi_] & p]),
                    38 | 39 => {
                        let k = s.range(0, (T::K - 1).min(1023));
                        let k = if BigUint::from(k) > m { 0 } else { k };
                        if o == 38 {
                            (Op::ShR(bi_, k), vec![&v[bi_] >> k])
                        } else {
                            (Op::ShL(bi_, k), vec![(&v[bi_] << k) & &m])
                        }
                    }
                    40 => {
                        open = true;
                        if s.bool() {
                            (Op::BOpen(bi_), vec![v[bi_].clone()])
                        } else {
                            (Op::OpenBit(bi_), vec![v[bi_].clone()])
                        }
                    }
                    41 => (Op::BPromote(p.clone()), vec![p]),
                    42 => {
                        let c = rb(s);
                        let w = (&v[c] & &v[bi_]) | ((&v[c] ^ &m) & &v[bj]);
                        (Op::BCmux(c, bi_, bj), vec![w])
                    }
                    43 => {
                        let ba = if ba.is_empty() { vec![bi_] } else { ba };
                        let w = ba.iter().fold(BigUint::zero(), |x, i| x | &v[*i]);
                        (Op::OrTree(ba), vec![w])
                    }
                    _ => {
                        open = true;
                        let k = s.range(0, T::K - 1);
                        let i = s.range(NA, N - 1);
                        (Op::GetBit(i, k), vec![BigUint::from(v[i].bit(k as u64) as u8)])
                    }
                }
            }
        };
        if w.is_empty() || open {
            dst = N;
        } else {
            v[dst] = w[w.len() - 1].clone();
        }
        ops.push((op, dst));
        wants.push(Some(w));
    }
    s.note(|| format!("ring of {} bits, {ops:?}", T::K));
    if ops.len() > 2 {
        s.nontrivial();
    }
    let opsr = &ops;
    let outs = run3("program", Setup::draw(s), init, |nets, st, mut x| {
        let mut o = vec![];
        for (op, d) in opsr {
            let r = exec::<T>(op, &x, &nets[0], st).map_err(|e| eyre::eyre!("{op:?}: {e}"))?;
            if *d < N {
                match &r {
                    Val::S(a) => x[*d] = *a,
                    Val::V(a) => x[*d] = *a.last().ok_or(eyre::eyre!("{op:?} returned nothing"))?,
                    _ => {}
                }
            }
            o.push(r);
        }
        Ok(o)
    })?;
    for (k, (op, _)) in ops.iter().enumerate() {
        let t = [&outs[0][k], &outs[1][k], &outs[2][k]];
        let what = format!("step {k} {op:?} of {ops:?} (ring of {} bits)", T::K);
        use Op::*;
        let binary = matches!(
            op,
            Xor(..) | XorP(..) | Or(..) | OrP(..) | And(..) | AndVec(..) | AndP(..) | ShR(..) | ShL(..) | BPromote(..) | BCmux(..) | OrTree(..)
        );
        let val = |t| if binary { rxval::<T>(&what, t) } else { rval::<T>(&what, t) };
        let got: Vec<BigUint> = match t {
            [Val::S(a), Val::S(b), Val::S(c)] => vec![val([*a, *b, *c])?],
            [Val::V(a), Val::V(b), Val::V(c)] => {
                let mut g = vec![];
                for t in triples(&what, &[a.clone(), b.clone(), c.clone()], a.len())? {
                    g.push(val(t)?);
                }
                g
            }
            [Val::O(a), Val::O(b), Val::O(c)] => {
                check!(a == b && b == c, "{what}: parties opened different values");
                a.iter().map(|v| br(*v)).collect()
            }
            [Val::B(a), Val::B(b), Val::B(c)] => vec![rxval::<Bit>(&what, [*a, *b, *c])?],
            _ => fail!("{what}: kinds differ"),
        };
        if let Some(w) = &wants[k] {
            check_eq!(&got, w, "{what}");
        }
    }
    Ok(())
}
fn programs(s: &mut Src) -> R {
    any_ring!(s, program)
}

// ---- comparisons ----

fn pair<T: IntRing2k>(s: &mut Src) -> (BigUint, BigUint) {
    let m = mask(T::K);
    let x = match s.below(5) {
        0 => (BigUint::one() << (T::K - 1)) - BigUint::from(s.below(2) as u8),
        1 => &m - BigUint::from(s.below(2) as u8),
        _ => ring::<T>(s),
    };
    let y = match s.below(6) {
        0 => x.clone(),
        1 => (&x + 1u8) & &m,
        2 => (&x + &m) & &m,
        3 => ((&m ^ &x) + 1u8) & &m,
        4 => &x ^ (BigUint::one() << s.range(0, T::K - 1)),
        _ => ring::<T>(s),
    };
    (x, y)
}
fn compare<T: IntRing2k>(s: &mut Src) -> R
where
    Standard: Distribution<T>,
{
    let (x, y) = pair::<T>(s);
    let set = Setup::draw(s);
    let which = s.below(14);
    s.label(format!("{:?}", set.a2b));
    s.nontrivial();
    let ops = ["lt", "le", "gt", "ge", "eq", "neq"];
    let rel = [x < y, x <= y, x > y, x >= y, x == y, x != y];
    let (sx, sy) = (rshare::<T>(s, &x), rshare::<T>(s, &y));
    let args = arr((0..3).map(|i| (sx[i], sy[i])).collect::<Vec<_>>());
    let py = re::<T>(&y);
    if which < 12 {
        let k = (which % 6) as usize;
        let public = which >= 6;
        let what = format!("{}{} of {x} and {y} ({} bits, {:?})", ops[k], if public { "_public" } else { "" }, T::K, set.a2b);
        s.note(|| what.clone());
        let o = run3(&what, set, args, |nets, st, (a, b)| {
            let n = &nets[0];
            match (k, public) {
                (0, false) => ar::lt(a, b, n, st),
                (1, false) => ar::le(a, b, n, st),
                (2, false) => ar::gt(a, b, n, st),
                (3, false) => ar::ge(a, b, n, st),
                (4, false) => ar::eq(a, b, n, st),
                (5, false) => ar::neq(a, b, n, st),
                (0, true) => ar::lt_public(a, py, n, st),
                (1, true) => ar::le_public(a, py, n, st),
                (2, true) => ar::gt_public(a, py, n, st),
                (3, true) => ar::ge_public(a, py, n, st),
                (4, true) => ar::eq_public(a, py, n, st),
                _ => ar::neq_public(a, py, n, st),
            }
        })?;
        return Ok(check_eq!(rxval::<Bit>(&what, o)?, BigUint::from(rel[k] as u8), "{what}"));
    }
    let z = if s.bool() { BigUint::zero() } else { x };
    let what = format!("is_zero of {z} ({} bits, {:?})", T::K, set.a2b);
    s.note(|| what.clone());
    if which == 12 {
        let sz = rshare::<T>(s, &z);
        let o = run3(&what, set, sz, |nets, st, a| ar::is_zero(a, &nets[0], st))?;
        for (i, o) in o.iter().enumerate() {
            check_eq!(*o, z.is_zero(), "{what} at party {i}");
        }
    } else {
        let sz = rxshare::<T>(s, &z);
        let o = run3(&what, set, sz, |nets, st, a| bi::is_zero(&a, &nets[0], st))?;
        check_eq!(rxval::<Bit>(&what, o)?, BigUint::from(z.is_zero() as u8), "{what} (bits)");
    }
    Ok(())
}
fn comparisons(s: &mut Src) -> R {
    any_ring!(s, compare)
}

// ---- casts ----

fn cast<T, U>(s: &mut Src) -> R
where
    T: IntRing2k + AsPrimitive<U>,
    U: IntRing2k,
    Standard: Distribution<T> + Distribution<U>,
{
    let x = ring::<T>(s);
    let sx = rshare::<T>(s, &x);
    let set = Setup::draw(s);
    let how = s.below(4);
    let how = match how {
        1 if T::K < U::K => 1, // upcast
        1 => 2,
        h => h,
    };
    let what = format!(
        "{} of {x} from {} to {} bits ({:?})",
        ["ring_cast_selector", "upcast_a2b", "cast_a2b", "cast_gc"][how as usize],
        T::K,
        U::K,
        set.a2b
    );
    s.note(|| what.clone());
    s.nontrivial();
    let down = T::K >= U::K && s.chance(1, 4);
    let o = run3(&what, set, sx, |nets, st, a| {
        let n = &nets[0];
        if down {
            return Ok(casts::downcast::<T, U>(a));
        }
        match how {
            0 => casts::ring_cast_selector::<T, U, _>(a, n, st),
            1 => casts::upcast_a2b::<T, U, _>(a, n, st),
            2 => casts::cast_a2b::<T, U, _>(a, n, st),
            _ => casts::cast_gc::<T, U, _>(a, n, st),
        }
    })?;
    check_eq!(rval::<U>(&what, o)?, &x & mask(U::K), "{what} (downcast {down})");
    Ok(())
}
fn casting(s: &mut Src) -> R {
    macro_rules! to {
        ($t:ty) => {
            match s.below(6) {
                0 => cast::<$t, Bit>(s),
                1 => cast::<$t, u8>(s),
                2 => cast::<$t, u16>(s),
                3 => cast::<$t, u32>(s),
                4 => cast::<$t, u64>(s),
                _ => cast::<$t, u128>(s),
            }
        };
    }
    match s.below(6) {
        0 => to!(Bit),
        1 => to!(u8),
        2 => to!(u16),
        3 => to!(u32),
        4 => to!(u64),
        _ => to!(u128),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fc {
    ToField,
    ToFieldMany,
    ToFieldSel,
    BigRing,
    BigRingMany,
    ToRing,
    ToRingMany,
    ToRingSel,
}
fn field_cast<T: IntRing2k, F: FieldUint>(s: &mut Src) -> R
where
    Standard: Distribution<T>,
{
    let nb = bits_of::<F>();
    let mut how = *s.pick(&[Fc::ToField, Fc::ToFieldMany, Fc::ToFieldSel, Fc::ToRing, Fc::ToRingMany, Fc::ToRingSel]);
    let mut set = Setup::draw(s);
    if T::K > nb {
        how = match how {
            Fc::ToField | Fc::ToFieldSel => Fc::BigRing,
            Fc::ToFieldMany => Fc::BigRingMany,
            Fc::ToRingSel => {
                // the garbled variant only truncates
                set.a2b = mpc_core::protocols::rep3::conversion::A2BType::Direct;
                how
            }
            h => h,
        };
    }
    let n = if matches!(how, Fc::ToFieldMany | Fc::BigRingMany | Fc::ToRingMany) { s.weighted(&[1, 2, 2, 1]) } else { 1 };
    let to_ring = matches!(how, Fc::ToRing | Fc::ToRingMany | Fc::ToRingSel);
    let v: Vec<BigUint> = (0..n)
        .map(|_| {
            if to_ring {
                to_big(felt::<F>(s))
            } else if T::K > nb {
                to_big(felt::<F>(s))
            } else {
                ring::<T>(s)
            }
        })
        .collect();
    if !to_ring && v.iter().any(|v| *v >= fmod::<F>()) {
        return Ok(());
    }
    let what = format!("{how:?} of {v:?}, ring of {} bits, field of {nb} ({:?})", T::K, set.a2b);
    s.note(|| what.clone());
    s.label(format!("{how:?}"));
    if n > 0 {
        s.nontrivial();
    }
    if to_ring {
        let x: Vec<[Fs<F>; 3]> = v.iter().map(|v| fshare(s, F::from(v.clone()))).collect();
        let o = run3(&what, set, parties(&x), |nets, st, x| {
            let n = &nets[0];
            Ok(match how {
                Fc::ToRing => vec![casts::field_to_ring_a2b::<F, T, _>(x[0], n, st)?],
                Fc::ToRingMany => casts::field_to_ring_a2b_many::<F, T, _>(&x, n, st)?,
                _ => vec![casts::field_to_ring_selector::<F, T, _>(x[0], n, st)?],
            })
        })?;
        for (k, t) in triples(&what, &o, n)?.into_iter().enumerate() {
            check_eq!(rval::<T>(&what, t)?, &v[k] & mask(T::K), "{what}: value {k}");
        }
    } else {
        let x: Vec<[Rs<T>; 3]> = v.iter().map(|v| rshare::<T>(s, v)).collect();
        let o = run3(&what, set, parties(&x), |nets, st, x| {
            let n = &nets[0];
            Ok(match how {
                Fc::ToField => vec![casts::ring_to_field_a2b::<T, F, _>(x[0], n, st)?],
                Fc::ToFieldMany => casts::ring_to_field_a2b_many::<T, F, _>(&x, n, st)?,
                Fc::BigRing => vec![casts::ring_to_field_a2b_big_ring::<T, F, _>(x[0], n, st)?],
                Fc::BigRingMany => casts::ring_to_field_a2b_big_ring_many::<T, F, _>(&x, n, st)?,
                _ => vec![casts::ring_to_field_selector::<T, F, _>(x[0], n, st)?],
            })
        })?;
        for (k, t) in triples(&what, &o, n)?.into_iter().enumerate() {
            check_eq!(to_big(fval::<F>(&what, t)?), v[k], "{what}: value {k}");
        }
    }
    Ok(())
}
fn field_casting(s: &mut Src) -> R {
    macro_rules! ring_of {
        ($f:ty) => {
            match s.below(8) {
                0 => field_cast::<Bit, $f>(s),
                1 => field_cast::<u8, $f>(s),
                2 => field_cast::<u16, $f>(s),
                3 => field_cast::<u32, $f>(s),
                4 => field_cast::<u64, $f>(s),
                5 => field_cast::<u128, $f>(s),
                6 => field_cast::<U512, $f>(s),
                _ => field_cast::<U1024, $f>(s),
            }
        };
    }
    match s.below(4) {
        0 | 1 => ring_of!(ark_bn254::Fr),
        2 => ring_of!(ark_bls12_381::Fr),
        _ => ring_of!(ark_bls12_381::Fq),
    }
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "Q01",
        rule: "a program has at least three operations; a comparison or cast always counts (batches when not empty)",
        assumptions: "honest parties over in-memory networks; the garbled conversions use the stand-in garbling library in /verif/shims",
        subs: vec![
            Sub::new("programs", 40_000, 150_000, programs).workers(4),
            Sub::new("comparisons", 30_000, 60_000, comparisons).workers(4),
            Sub::new("casts", 30_000, 60_000, casting).workers(4),
            Sub::new("field-casts", 12_000, 20_000, field_casting).workers(4),
        ],
    }]
}
