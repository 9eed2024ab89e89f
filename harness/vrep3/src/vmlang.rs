//! A small circuit language: syntax, a reference evaluator over big integers, a compiler to the
//! bytecode of the witness VM (laid out as the circom compiler lays it out), and a generator.
use ark_ff::PrimeField;
use circom_mpc_vm::op_codes::MpcOpCode as I;
use circom_mpc_vm::types::{CoCircomCompilerParsed, FunDecl, TemplateDecl};
use engine::*;
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use std::collections::HashMap;
use vkit::fmod;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    IntDiv,
    Pow,
    Mod,
    Lt,
    Le,
    Gt,
    Ge,
    Eq,
    Neq,
    Or,
    And,
    BitOr,
    BitAnd,
    BitXor,
    Shr,
    Shl,
}
/// base + stride * e
#[derive(Clone, Debug)]
pub struct Ix {
    pub base: usize,
    pub dynamic: Option<(usize, Box<E>)>,
}
impl Ix {
    pub fn at(base: usize) -> Self {
        Ix { base, dynamic: None }
    }
}
#[derive(Clone, Debug)]
pub enum E {
    C(BigUint),
    V(Ix),
    S(Ix),
    /// component, signal in component, via mapping?
    Out(Ix, Ix, Option<usize>),
    Bin(Op, Box<E>, Box<E>),
    Neg(Box<E>),
    EqN(Box<Rg>, Box<Rg>),
}
#[derive(Clone, Debug)]
pub enum Rg {
    Vars(Ix, usize),
    Sigs(Ix, usize),
    Out(Ix, Ix, Option<usize>, usize),
    Consts(Vec<BigUint>),
    One(E),
}
impl Rg {
    pub fn len(&self) -> usize {
        match self {
            Rg::Vars(_, n) | Rg::Sigs(_, n) | Rg::Out(_, _, _, n) => *n,
            Rg::Consts(v) => v.len(),
            Rg::One(_) => 1,
        }
    }
}
#[derive(Clone, Debug)]
pub enum Dst {
    Var(Ix),
    Sig(Ix),
    In(Ix, Ix, Option<usize>),
}
#[derive(Clone, Debug)]
pub enum St {
    Set(Dst, Rg),
    If(E, Vec<St>, Vec<St>),
    /// while cond { body }
    While(E, Vec<St>),
    Call(usize, Vec<Rg>, usize, Dst),
    /// template, relative offset, jump, amount
    Create(usize, usize, usize, usize),
    Assert(E),
    Log(E),
    Ret(Rg),
}
#[derive(Clone, Debug)]
pub struct Fun {
    pub name: String,
    pub params: Vec<(usize, bool)>, // size, public
    pub nret: usize,
    pub vars: usize,
    pub body: Vec<St>,
    /// may be called where the path depends on a secret
    pub simple: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Accel {
    Num2Bits,
    AddBits,
    IsZero,
    Poseidon2,
}
#[derive(Clone, Debug)]
pub struct Templ {
    pub sym: String,
    pub comp: String,
    pub nin: usize,
    pub nout: usize,
    /// all signals, with those of the components inside
    pub total: usize,
    pub vars: usize,
    pub ncmps: usize,
    pub mappings: Vec<usize>,
    pub body: Vec<St>,
    pub accel: Option<Accel>,
}
#[derive(Clone, Debug)]
pub struct Prog {
    pub templs: Vec<Templ>,
    pub funs: Vec<Fun>,
    pub main: usize,
    pub inputs: Vec<(String, usize)>,
    pub n_public: usize,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Stop {
    Assert,
    /// the language gives the operation no value (division by zero, ...)
    Undefined(String),
}

// ---------------------------------------------------------------- evaluator
pub struct Eval<'a> {
    pub p: BigUint,
    pub prog: &'a Prog,
    pub signals: Vec<BigUint>,
    pub steps: usize,
    pub poseidon: fn(&[BigUint]) -> (Vec<BigUint>, Vec<BigUint>),
    pub executed_asserts: usize,
    pub taken: usize,
    pub untaken: usize,
    /// traces of the permutations run by a component marked as precomputed, in order
    pub precomputed: Vec<(Vec<BigUint>, Vec<BigUint>)>,
    pub marked: bool,
}
struct Inst {
    offset: usize,
    subs: Vec<(usize, usize, usize)>, // template, offset, inputs provided
}
impl<'a> Eval<'a> {
    fn red(&self, x: BigUint) -> BigUint {
        x % &self.p
    }
    fn signed(&self, x: &BigUint) -> BigUint {
        let h = (&self.p + 1u8) >> 1;
        (x + &self.p - h) % &self.p
    }
    fn inv(&self, x: &BigUint) -> Result<BigUint, Stop> {
        if x.is_zero() {
            return Err(Stop::Undefined("inverse of zero".into()));
        }
        Ok(x.modpow(&(&self.p - 2u8), &self.p))
    }
    fn ix(&mut self, me: &Inst, vars: &[BigUint], i: &Ix) -> Result<usize, Stop> {
        Ok(match &i.dynamic {
            None => i.base,
            Some((stride, e)) => {
                let v = self.e(me, vars, e)?;
                i.base + stride * v.to_usize().ok_or(Stop::Undefined("index".into()))?
            }
        })
    }
    pub fn bin(&self, op: Op, a: BigUint, b: BigUint) -> Result<BigUint, Stop> {
        let bit = |x: bool| BigUint::from(x as u8);
        Ok(match op {
            Op::Add => self.red(a + b),
            Op::Sub => self.red(a + &self.p - b),
            Op::Mul => self.red(a * b),
            Op::Div => self.red(a * self.inv(&b)?),
            Op::IntDiv | Op::Mod if b.is_zero() => return Err(Stop::Undefined("division by zero".into())),
            Op::IntDiv => a / b,
            Op::Mod => a % b,
            Op::Pow => a.modpow(&b, &self.p),
            Op::Lt => bit(self.signed(&a) < self.signed(&b)),
            Op::Le => bit(self.signed(&a) <= self.signed(&b)),
            Op::Gt => bit(self.signed(&a) > self.signed(&b)),
            Op::Ge => bit(self.signed(&a) >= self.signed(&b)),
            Op::Eq => bit(a == b),
            Op::Neq => bit(a != b),
            Op::Or => bit(!a.is_zero() || !b.is_zero()),
            Op::And => bit(!a.is_zero() && !b.is_zero()),
            Op::BitOr => self.red(a | b),
            Op::BitAnd => self.red(a & b),
            Op::BitXor => self.red(a ^ b),
            Op::Shr => match b.to_usize() {
                Some(k) if k < 100_000 => a >> k,
                _ => return Err(Stop::Undefined("shift amount".into())),
            },
            Op::Shl => match b.to_usize() {
                Some(k) if k < 100_000 => self.red(a << k),
                _ => return Err(Stop::Undefined("shift amount".into())),
            },
        })
    }
    fn e(&mut self, me: &Inst, vars: &[BigUint], e: &E) -> Result<BigUint, Stop> {
        Ok(match e {
            E::C(c) => c.clone(),
            E::V(i) => {
                let i = self.ix(me, vars, i)?;
                vars[i].clone()
            }
            E::S(i) => {
                let i = self.ix(me, vars, i)?;
                self.signals[me.offset + i].clone()
            }
            E::Out(c, i, m) => self.rg(me, vars, &Rg::Out(c.clone(), i.clone(), *m, 1))?[0].clone(),
            E::Bin(op, a, b) => {
                let a = self.e(me, vars, a)?;
                let b = self.e(me, vars, b)?;
                self.bin(*op, a, b)?
            }
            E::Neg(a) => {
                let a = self.e(me, vars, a)?;
                self.red(&self.p - a)
            }
            E::EqN(a, b) => {
                let a = self.rg(me, vars, a)?;
                let b = self.rg(me, vars, b)?;
                BigUint::from((a == b) as u8)
            }
        })
    }
    fn rg(&mut self, me: &Inst, vars: &[BigUint], r: &Rg) -> Result<Vec<BigUint>, Stop> {
        Ok(match r {
            Rg::Vars(i, n) => {
                let i = self.ix(me, vars, i)?;
                vars[i..i + n].to_vec()
            }
            Rg::Sigs(i, n) => {
                let i = me.offset + self.ix(me, vars, i)?;
                self.signals[i..i + n].to_vec()
            }
            Rg::Out(c, i, m, n) => {
                let c = self.ix(me, vars, c)?;
                let (t, off, _) = me.subs[c];
                let mut i = self.ix(me, vars, i)?;
                if let Some(m) = m {
                    i += self.prog.templs[t].mappings[*m];
                }
                self.signals[off + i..off + i + n].to_vec()
            }
            Rg::Consts(v) => v.clone(),
            Rg::One(e) => vec![self.e(me, vars, e)?],
        })
    }
    fn store(&mut self, me: &mut Inst, vars: &mut [BigUint], d: &Dst, vals: Vec<BigUint>) -> Result<(), Stop> {
        match d {
            Dst::Var(i) => {
                let i = self.ix(me, vars, i)?;
                vars[i..i + vals.len()].clone_from_slice(&vals);
            }
            Dst::Sig(i) => {
                let i = me.offset + self.ix(me, vars, i)?;
                self.signals[i..i + vals.len()].clone_from_slice(&vals);
            }
            Dst::In(c, i, m) => {
                let c = self.ix(me, vars, c)?;
                let mut i = self.ix(me, vars, i)?;
                let (t, off, _) = me.subs[c];
                let tm = &self.prog.templs[t];
                if let Some(m) = m {
                    i += tm.mappings[*m];
                }
                self.signals[off + i..off + i + vals.len()].clone_from_slice(&vals);
                me.subs[c].2 += vals.len();
                if me.subs[c].2 == tm.nin {
                    self.comp(t, off)?;
                }
            }
        }
        Ok(())
    }
    fn block(&mut self, me: &mut Inst, vars: &mut Vec<BigUint>, b: &[St], nret: usize) -> Result<Option<Vec<BigUint>>, Stop> {
        for st in b {
            self.steps += 1;
            if self.steps > 20_000 {
                return Err(Stop::Undefined("too long".into()));
            }
            match st {
                St::Set(d, r) => {
                    let v = self.rg(me, vars, r)?;
                    self.store(me, vars, d, v)?;
                }
                St::If(c, t, f) => {
                    let c = self.e(me, vars, c)?;
                    if c.is_zero() {
                        self.untaken += 1
                    } else {
                        self.taken += 1
                    }
                    if let Some(r) = self.block(me, vars, if c.is_zero() { f } else { t }, nret)? {
                        return Ok(Some(r));
                    }
                }
                St::While(c, body) => {
                    while !self.e(me, vars, c)?.is_zero() {
                        self.steps += 1;
                        if let Some(r) = self.block(me, vars, body, nret)? {
                            return Ok(Some(r));
                        }
                    }
                }
                St::Call(f, args, n, d) => {
                    let mut flat = Vec::new();
                    for a in args {
                        flat.extend(self.rg(me, vars, a)?);
                    }
                    let v = self.call(*f, flat, *n)?;
                    self.store(me, vars, d, v)?;
                }
                St::Create(t, off, jump, n) => {
                    for i in 0..*n {
                        let o = me.offset + off + i * jump;
                        if self.prog.templs[*t].nin == 0 {
                            self.comp(*t, o)?;
                        }
                        me.subs.push((*t, o, 0));
                    }
                }
                St::Assert(e) => {
                    self.executed_asserts += 1;
                    if self.e(me, vars, e)?.is_zero() {
                        return Err(Stop::Assert);
                    }
                }
                St::Log(e) => {
                    self.e(me, vars, e)?;
                }
                St::Ret(r) => {
                    return Ok(Some(match r {
                        Rg::Vars(i, _) if nret > 1 => {
                            let i = self.ix(me, vars, i)?;
                            if vars.len() < i + nret {
                                vars.resize(i + nret, BigUint::zero());
                            }
                            vars[i..i + nret].to_vec()
                        }
                        r => self.rg(me, vars, r)?,
                    }));
                }
            }
        }
        Ok(None)
    }
    fn call(&mut self, f: usize, args: Vec<BigUint>, nret: usize) -> Result<Vec<BigUint>, Stop> {
        let fun = &self.prog.funs[f];
        if fun.name == "sqrt_0" {
            let r = sqrt_mod(&args[0], &self.p).ok_or(Stop::Undefined("no square root".into()))?;
            let other = self.red(&self.p - &r);
            return Ok(vec![if r < other { r } else { other }]);
        }
        let mut vars = vec![BigUint::zero(); fun.vars];
        vars[..args.len()].clone_from_slice(&args);
        let mut me = Inst { offset: 0, subs: vec![] };
        Ok(self.block(&mut me, &mut vars, &fun.body, nret)?.expect("every function ends in a return"))
    }
    pub fn comp(&mut self, t: usize, offset: usize) -> Result<(), Stop> {
        let tm = &self.prog.templs[t];
        let ins = offset + tm.nout..offset + tm.nout + tm.nin;
        let mid = ins.end;
        let inputs = self.signals[ins].to_vec();
        match tm.accel {
            Some(Accel::Num2Bits) => {
                for i in 0..tm.nout {
                    self.signals[offset + i] = BigUint::from(inputs[0].bit(i as u64) as u8);
                }
                return Ok(());
            }
            Some(Accel::AddBits) => {
                let n = tm.nin / 2;
                let num = |v: &[BigUint]| v.iter().fold(BigUint::zero(), |a, b| (a << 1u8) + b);
                let sum = num(&inputs[..n]) + num(&inputs[n..]);
                for i in 0..n {
                    self.signals[offset + i] = BigUint::from(sum.bit((n - 1 - i) as u64) as u8);
                }
                self.signals[mid] = BigUint::from(sum.bit(n as u64) as u8);
                return Ok(());
            }
            Some(Accel::IsZero) => {
                self.signals[offset] = BigUint::from(inputs[0].is_zero() as u8);
                self.signals[mid] = if inputs[0].is_zero() { BigUint::zero() } else { self.inv(&inputs[0])? };
                return Ok(());
            }
            Some(Accel::Poseidon2) => {
                let (o, tr) = (self.poseidon)(&inputs);
                if self.marked {
                    self.precomputed.push((o.clone(), tr.clone()));
                }
                self.signals[offset..offset + o.len()].clone_from_slice(&o);
                self.signals[mid..mid + tr.len()].clone_from_slice(&tr);
                return Ok(());
            }
            None => {}
        }
        let mut vars = vec![BigUint::zero(); tm.vars];
        let mut me = Inst { offset, subs: vec![] };
        let body = &self.prog.templs[t].body;
        let outer = std::mem::replace(&mut self.marked, tm.comp.starts_with(PRECOMPUTED));
        let r = self.block(&mut me, &mut vars, body, 0);
        self.marked = outer;
        r.map(|_| ())
    }
}
pub const PRECOMPUTED: &str = "TACEO_PRECOMPUTATION";
/// Square root modulo a prime by Cipolla's method (the code under test uses Tonelli-Shanks).
pub fn sqrt_mod(a: &BigUint, p: &BigUint) -> Option<BigUint> {
    if a.is_zero() {
        return Some(BigUint::zero());
    }
    let half = (p - 1u8) >> 1;
    if !a.modpow(&half, p).is_one() {
        return None;
    }
    let mut t = BigUint::one();
    let w = loop {
        let w = (&t * &t + p - a) % p;
        if w.is_zero() {
            return Some(t);
        }
        if !w.modpow(&half, p).is_one() {
            break w;
        }
        t += 1u8;
    };
    let mul = |x: &(BigUint, BigUint), y: &(BigUint, BigUint)| {
        ((&x.0 * &y.0 + &x.1 * &y.1 % p * &w) % p, (&x.0 * &y.1 + &x.1 * &y.0) % p)
    };
    let mut r = (BigUint::one(), BigUint::zero());
    let mut b = (t, BigUint::one());
    let mut e: BigUint = (p + 1u8) >> 1;
    while !e.is_zero() {
        if e.bit(0) {
            r = mul(&r, &b);
        }
        b = mul(&b, &b);
        e >>= 1u8;
    }
    Some(r.0)
}

// ---------------------------------------------------------------- compiler
pub struct Comp<'a> {
    prog: &'a Prog,
    consts: Vec<BigUint>,
    code: Vec<I>,
    nret: usize,
}
impl Comp<'_> {
    fn c(&mut self, c: &BigUint) -> usize {
        if let Some(i) = self.consts.iter().position(|x| x == c) {
            return i;
        }
        self.consts.push(c.clone());
        self.consts.len() - 1
    }
    fn ix(&mut self, i: &Ix) {
        match &i.dynamic {
            None => self.code.push(I::PushIndex(i.base)),
            Some((stride, e)) => {
                self.code.push(I::PushIndex(*stride));
                self.e(e);
                self.code.push(I::ToIndex);
                self.code.push(I::MulIndex);
                self.code.push(I::PushIndex(i.base));
                self.code.push(I::AddIndex);
            }
        }
    }
    fn e(&mut self, e: &E) {
        match e {
            E::C(c) => {
                let c = self.c(c);
                self.code.push(I::PushConstant(c))
            }
            E::V(i) => {
                self.ix(i);
                self.code.push(I::LoadVars(1));
            }
            E::S(i) => {
                self.ix(i);
                self.code.push(I::LoadSignals(1));
            }
            E::Out(c, i, m) => {
                self.ix(i);
                self.ix(c);
                self.code.push(I::OutputSubComp(m.is_some(), m.unwrap_or(0), 1));
            }
            E::Bin(op, a, b) => {
                self.e(a);
                self.e(b);
                self.code.push(match op {
                    Op::Add => I::Add,
                    Op::Sub => I::Sub,
                    Op::Mul => I::Mul,
                    Op::Div => I::Div,
                    Op::IntDiv => I::IntDiv,
                    Op::Pow => I::Pow,
                    Op::Mod => I::Mod,
                    Op::Lt => I::Lt,
                    Op::Le => I::Le,
                    Op::Gt => I::Gt,
                    Op::Ge => I::Ge,
                    Op::Eq => I::Eq(1),
                    Op::Neq => I::Neq,
                    Op::Or => I::BoolOr,
                    Op::And => I::BoolAnd,
                    Op::BitOr => I::BitOr,
                    Op::BitAnd => I::BitAnd,
                    Op::BitXor => I::BitXOr,
                    Op::Shr => I::ShiftR,
                    Op::Shl => I::ShiftL,
                });
            }
            E::Neg(a) => {
                self.e(a);
                self.code.push(I::Neg);
            }
            E::EqN(a, b) => {
                self.rg(a);
                self.rg(b);
                self.code.push(I::Eq(a.len()));
            }
        }
    }
    fn rg(&mut self, r: &Rg) {
        match r {
            Rg::Vars(i, n) => {
                self.ix(i);
                self.code.push(I::LoadVars(*n));
            }
            Rg::Sigs(i, n) => {
                self.ix(i);
                self.code.push(I::LoadSignals(*n));
            }
            Rg::Out(c, i, m, n) => {
                self.ix(i);
                self.ix(c);
                self.code.push(I::OutputSubComp(m.is_some(), m.unwrap_or(0), *n));
            }
            Rg::Consts(v) => {
                for c in v {
                    let c = self.c(c);
                    self.code.push(I::PushConstant(c));
                }
            }
            Rg::One(e) => self.e(e),
        }
    }
    fn store(&mut self, d: &Dst, n: usize) {
        match d {
            Dst::Var(i) => {
                self.ix(i);
                self.code.push(I::StoreVars(n));
            }
            Dst::Sig(i) => {
                self.ix(i);
                self.code.push(I::StoreSignals(n));
            }
            Dst::In(c, i, m) => {
                self.ix(i);
                self.ix(c);
                self.code.push(I::InputSubComp(m.is_some(), m.unwrap_or(0), n));
            }
        }
    }
    fn inner(&mut self, b: &[St]) -> Vec<I> {
        let mut keep = std::mem::take(&mut self.code);
        self.block(b);
        std::mem::swap(&mut keep, &mut self.code);
        keep
    }
    fn block(&mut self, b: &[St]) {
        for st in b {
            match st {
                St::Set(d, r) => {
                    self.rg(r);
                    self.store(d, r.len());
                }
                St::If(c, t, f) => {
                    self.e(c);
                    let t = self.inner(t);
                    self.code.push(I::If(t.len() + 2));
                    self.code.extend(t);
                    if f.is_empty() {
                        self.code.push(I::EndTruthyBranch(0));
                    } else {
                        let f = self.inner(f);
                        self.code.push(I::EndTruthyBranch(f.len() + 2));
                        self.code.extend(f);
                        self.code.push(I::EndFalsyBranch);
                    }
                }
                St::While(c, body) => {
                    let start = self.code.len();
                    self.e(c);
                    let pred = self.code.len() - start;
                    let body = self.inner(body);
                    let n = body.len();
                    self.code.push(I::JumpIfFalse(n + 2));
                    self.code.extend(body);
                    self.code.push(I::JumpBack(n + pred + 1));
                }
                St::Call(f, args, n, d) => {
                    for a in args {
                        self.rg(a);
                    }
                    let name = self.prog.funs[*f].name.clone();
                    self.code.push(I::Call(name, *n));
                    self.store(d, *n);
                }
                St::Create(t, off, jump, n) => {
                    self.code.push(I::PushIndex(*off));
                    self.code.push(I::PushIndex(*jump));
                    self.code.push(I::CreateCmp(self.prog.templs[*t].sym.clone(), *n));
                }
                St::Assert(e) => {
                    self.e(e);
                    self.code.push(I::Assert(7));
                }
                St::Log(e) => {
                    self.code.push(I::LogString(0));
                    self.e(e);
                    self.code.push(I::Log);
                    self.code.push(I::LogFlush(7));
                }
                St::Ret(r) => match r {
                    Rg::Vars(i, _) if self.nret > 1 => {
                        self.ix(i);
                        self.code.push(I::ReturnFun);
                    }
                    r => {
                        self.rg(r);
                        self.code.push(I::ReturnFun);
                    }
                },
            }
        }
    }
}
/// `order` maps witness positions to signals.
pub fn compile<F: PrimeField>(prog: &Prog, order: Vec<usize>) -> CoCircomCompilerParsed<F> {
    let mut c = Comp { prog, consts: vec![BigUint::zero()], code: vec![], nret: 0 };
    let mut funs = HashMap::new();
    for f in &prog.funs {
        c.nret = f.nret;
        let mut code = c.inner(&f.body);
        code.push(I::ReturnSharedIfFun);
        funs.insert(f.name.clone(), FunDecl::new(f.params.iter().map(|p| p.0).sum(), f.vars, code));
    }
    let mut templs = HashMap::new();
    for t in &prog.templs {
        c.nret = 0;
        let mut code = c.inner(&t.body);
        code.push(I::Return);
        templs.insert(
            t.sym.clone(),
            TemplateDecl::new(t.sym.clone(), t.comp.clone(), t.nin, t.nout, t.ncmps, t.vars, t.mappings.clone(), code),
        );
    }
    let m = &prog.templs[prog.main];
    let mut list = vec![];
    let mut off = 1 + m.nout;
    for (n, k) in &prog.inputs {
        list.push((n.clone(), off, *k));
        off += k;
    }
    let mut outs = HashMap::new();
    // the outputs as one array and a name for each
    outs.insert("out".to_string(), (1, m.nout));
    for i in 0..m.nout {
        outs.insert(format!("out{i}"), (1 + i, 1));
    }
    CoCircomCompilerParsed::new(
        m.sym.clone(),
        1 + m.total,
        c.consts.iter().map(|x| F::from(x.clone())).collect(),
        vec!["value".into()],
        funs,
        templs,
        order,
        m.nin,
        m.nout,
        list,
        outs,
        prog.inputs.iter().map(|x| x.0.clone()).collect(),
    )
}

// ---------------------------------------------------------------- generator
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dialect {
    /// everything the replicated driver supports on shared values
    Full,
    /// what the Shamir driver supports on shared values: the field operations and Boolean connectives
    Linear,
    /// what the batched drivers support
    Batch,
}
#[derive(Clone, Debug)]
pub struct Scope {
    pub_vars: Vec<usize>,
    sec_vars: Vec<usize>,
    bool_vars: Vec<usize>,
    /// runs of at least two secret variables
    arrays: Vec<(usize, usize)>,
    pub_sigs: Vec<usize>,
    sec_sigs: Vec<usize>,
    bool_sigs: Vec<usize>,
    out_sigs: Vec<usize>,
    /// component, template, output
    outs: Vec<(Ix, usize, usize, bool)>,
    nvars: usize,
}
pub struct Gen<'s> {
    pub s: &'s mut Src,
    pub p: BigUint,
    pub d: Dialect,
    pub funs: Vec<Fun>,
    pub templs: Vec<Templ>,
    divs: usize,
    convs: usize,
    pub asserts: bool,
    secret: bool,
    pub features: Vec<&'static str>,
}
#[derive(Clone, Copy, PartialEq, Eq)]
struct Pos {
    /// inside a branch on a secret
    secret: bool,
    looped: bool,
    in_fun: bool,
    depth: usize,
    may_ret: usize,
}
fn b(x: E) -> Box<E> {
    Box::new(x)
}
fn c(x: impl Into<BigUint>) -> E {
    E::C(x.into())
}
impl Gen<'_> {
    pub fn new<'s, F: PrimeField>(s: &'s mut Src, d: Dialect) -> Gen<'s> {
        Gen { s, p: fmod::<F>(), d, funs: vec![], templs: vec![], divs: 2, convs: 14, asserts: false, secret: false, features: vec![] }
    }
    fn constant(&mut self) -> E {
        match self.s.weighted(&[4, 3]) {
            0 => c(self.s.below(6)),
            _ => {
                let p = self.p.clone();
                E::C(self.s.modular(&p))
            }
        }
    }
    fn pub_leaf(&mut self, sc: &Scope) -> E {
        let n = sc.pub_vars.len() + sc.pub_sigs.len();
        if n == 0 || self.s.chance(1, 3) {
            return self.constant();
        }
        let k = self.s.range(0, n - 1);
        if k < sc.pub_vars.len() { E::V(Ix::at(sc.pub_vars[k])) } else { E::S(Ix::at(sc.pub_sigs[k - sc.pub_vars.len()])) }
    }
    fn sec_leaf(&mut self, sc: &Scope, pos: Pos) -> E {
        let _ = pos;
        for _ in 0..3 {
            match self.s.weighted(&[4, 4, 2, 2, 1, 1]) {
                0 if !sc.sec_vars.is_empty() => return E::V(Ix::at(*self.s.pick(&sc.sec_vars))),
                1 if !sc.sec_sigs.is_empty() => return E::S(Ix::at(*self.s.pick(&sc.sec_sigs))),
                2 if !sc.outs.is_empty() => {
                    let (cm, t, i, _) = self.s.pick(&sc.outs).clone();
                    return self.out_leaf(cm, t, i);
                }
                3 if !sc.bool_sigs.is_empty() => return E::S(Ix::at(*self.s.pick(&sc.bool_sigs))),
                4 if !sc.arrays.is_empty() => {
                    let (base, n) = *self.s.pick(&sc.arrays);
                    // a public index kept in range
                    if self.d == Dialect::Batch && !sc.pub_sigs.is_empty() {
                        return E::V(Ix::at(base + self.s.range(0, n - 1)));
                    }
                    let e = self.pub_expr(sc, 1);
                    let ix = E::Bin(Op::Mod, b(e), b(c(n as u64)));
                    return E::V(Ix { base, dynamic: Some((1, b(ix))) });
                }
                5 => return self.pub_leaf(sc),
                _ => {}
            }
        }
        self.pub_leaf(sc)
    }
    fn out_leaf(&mut self, cm: Ix, t: usize, i: usize) -> E {
        let tm = &self.templs[t];
        // signal code k of a mapping sits at mappings[k]
        if !tm.mappings.is_empty() && self.s.chance(1, 3) {
            let code = self.s.range(0, tm.mappings.len() - 1);
            if tm.mappings[code] <= i {
                self.features.push("mapped");
                return E::Out(cm, Ix::at(i - tm.mappings[code]), Some(code));
            }
        }
        E::Out(cm, Ix::at(i), None)
    }
    fn pub_expr(&mut self, sc: &Scope, depth: usize) -> E {
        if depth == 0 || self.s.chance(1, 3) {
            return self.pub_leaf(sc);
        }
        let ops: &[Op] = match self.d {
            Dialect::Batch => &[Op::Add, Op::Sub, Op::Mul, Op::Lt],
            _ => &[
                Op::Add,
                Op::Sub,
                Op::Mul,
                Op::Div,
                Op::IntDiv,
                Op::Mod,
                Op::Pow,
                Op::Lt,
                Op::Le,
                Op::Gt,
                Op::Ge,
                Op::Eq,
                Op::Neq,
                Op::BitOr,
                Op::BitAnd,
                Op::BitXor,
                Op::Shr,
                Op::Shl,
            ],
        };
        let mut op = *self.s.pick(ops);
        if op == Op::Div && self.secret {
            // under a condition on a secret the divisor, and so the quotient, is shared
            op = Op::Mul;
        }
        let l = self.pub_expr(sc, depth - 1);
        let r = match op {
            Op::Div | Op::IntDiv | Op::Mod => self.nonzero_const(),
            Op::Shr | Op::Shl => self.amount(),
            _ => self.pub_expr(sc, depth - 1),
        };
        if self.d != Dialect::Batch && self.s.chance(1, 12) {
            return E::Neg(b(E::Bin(op, b(l), b(r))));
        }
        E::Bin(op, b(l), b(r))
    }
    fn nonzero_const(&mut self) -> E {
        match self.s.weighted(&[3, 3, 2]) {
            0 => c(self.s.below(9) + 1),
            1 => c(BigUint::one() << self.s.range(0, self.p.bits() as usize - 2)),
            _ => {
                let p = self.p.clone();
                let x = self.s.modular(&p);
                if x.is_zero() { c(3u8) } else { E::C(x) }
            }
        }
    }
    fn amount(&mut self) -> E {
        let bits = self.p.bits();
        c(match self.s.weighted(&[3, 3, 1]) {
            0 => self.s.below(9),
            1 => self.s.below(bits),
            _ => bits - 1,
        })
    }
    fn pub_bool(&mut self, sc: &Scope) -> E {
        let l = self.pub_expr(sc, 1);
        let r = if self.s.chance(1, 4) { l.clone() } else { self.pub_expr(sc, 1) };
        let ops: &[Op] = if self.d == Dialect::Batch { &[Op::Lt] } else { &[Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Neq] };
        E::Bin(*self.s.pick(ops), b(l), b(r))
    }
    fn sec_bool(&mut self, sc: &Scope, pos: Pos, depth: usize) -> E {
        if self.d == Dialect::Full && self.convs > 0 && self.s.chance(3, 5) {
            self.convs -= 1;
            if !sc.arrays.is_empty() && self.s.chance(1, 6) {
                let (base, n) = *self.s.pick(&sc.arrays);
                let k = self.s.range(1, n);
                let (base2, n2) = *self.s.pick(&sc.arrays);
                if n2 >= k {
                    let l = Rg::Vars(Ix::at(base), k);
                    let r = Rg::Vars(Ix::at(base2 + n2 - k), k);
                    self.features.push("array equality");
                    return E::EqN(Box::new(l), Box::new(r));
                }
            }
            let l = self.sec_expr(sc, pos, 1);
            let r = match self.s.weighted(&[4, 1, 1]) {
                0 => self.sec_expr(sc, pos, 1),
                1 => l.clone(),
                _ => E::Bin(Op::Add, b(l.clone()), b(c(self.s.below(2)))),
            };
            let (l, r) = if self.s.bool() { (l, r) } else { (r, l) };
            let op = *self.s.pick(&[Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Neq]);
            return E::Bin(op, b(l), b(r));
        }
        let nb = sc.bool_sigs.len() + sc.bool_vars.len();
        if depth == 0 || nb == 0 {
            if nb == 0 || self.s.chance(1, 6) {
                return self.pub_bool(sc);
            }
            let k = self.s.range(0, nb - 1);
            return if k < sc.bool_sigs.len() { E::S(Ix::at(sc.bool_sigs[k])) } else { E::V(Ix::at(sc.bool_vars[k - sc.bool_sigs.len()])) };
        }
        let l = self.sec_bool(sc, pos, depth - 1);
        match self.s.weighted(&[3, 3, 2, 2]) {
            0 => E::Bin(Op::And, b(l), b(self.sec_bool(sc, pos, depth - 1))),
            1 => E::Bin(Op::Or, b(l), b(self.sec_bool(sc, pos, depth - 1))),
            2 => E::Bin(Op::Sub, b(c(1u8)), b(l)),
            _ => l,
        }
    }
    fn sec_expr(&mut self, sc: &Scope, pos: Pos, depth: usize) -> E {
        if depth == 0 || self.s.chance(1, 4) {
            return self.sec_leaf(sc, pos);
        }
        let w: [u32; 9] = match self.d {
            Dialect::Batch => [6, 0, 0, 0, 0, 0, 0, 0, 0],
            Dialect::Linear => [6, 1, 1, 0, 0, 0, 1, 1, 1],
            Dialect::Full => [6, 1, 1, if self.divs > 0 { 1 } else { 0 }, if self.convs > 0 { 3 } else { 0 }, 1, 1, 1, 1],
        };
        match self.s.weighted(&w) {
            0 => {
                let op = *self.s.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Mul]);
                let l = self.sec_expr(sc, pos, depth - 1);
                let r = self.sec_expr(sc, pos, depth - 1);
                E::Bin(op, b(l), b(r))
            }
            // field division: by a nonzero constant, or by something that is rarely zero
            1 => {
                let l = self.sec_expr(sc, pos, depth - 1);
                let r = self.sec_expr(sc, pos, depth - 1);
                E::Bin(Op::Div, b(l), b(r))
            }
            2 => E::Neg(b(self.sec_expr(sc, pos, depth - 1))),
            3 => {
                let op = *self.s.pick(&[Op::IntDiv, Op::Mod]);
                let l = self.sec_expr(sc, pos, depth - 1);
                let r = match self.s.weighted(&[2, 2, 1]) {
                    0 => self.nonzero_const(),
                    1 if !pos.looped => {
                        self.divs -= 1;
                        self.sec_expr(sc, pos, depth - 1)
                    }
                    _ => c(BigUint::one() << self.s.range(0, self.p.bits() as usize - 2)),
                };
                if !matches!(&r, E::C(x) if x.count_ones() == 1) {
                    self.divs = self.divs.saturating_sub(1);
                }
                E::Bin(op, b(l), b(r))
            }
            4 => {
                self.convs -= 1;
                if self.s.chance(1, 8) {
                    let l = self.pub_expr(sc, 1);
                    let r = self.sec_expr(sc, pos, 1);
                    return E::Bin(Op::Shl, b(l), b(E::Bin(Op::BitAnd, b(r), b(c(255u8)))));
                }
                let op = *self.s.pick(&[Op::BitOr, Op::BitAnd, Op::BitXor, Op::Shr, Op::Shl]);
                let l = self.sec_expr(sc, pos, depth - 1);
                let r = match op {
                    Op::Shr | Op::Shl => self.amount(),
                    _ => self.sec_expr(sc, pos, depth - 1),
                };
                E::Bin(op, b(l), b(r))
            }
            5 => {
                let l = self.sec_expr(sc, pos, depth - 1);
                let r = match self.s.weighted(&[3, 1]) {
                    0 => c(self.s.below(7)),
                    _ => self.constant(),
                };
                E::Bin(Op::Pow, b(l), b(r))
            }
            6 => self.sec_bool(sc, pos, 1),
            7 => self.pub_expr(sc, depth),
            _ => {
                let l = self.sec_bool(sc, pos, 0);
                let r = self.sec_expr(sc, pos, depth - 1);
                E::Bin(Op::Mul, b(l), b(r))
            }
        }
    }
    fn sec_dst(&mut self, sc: &Scope, pos: Pos) -> Dst {
        if !pos.in_fun && !sc.out_sigs.is_empty() && (sc.sec_vars.is_empty() || self.s.bool()) {
            Dst::Sig(Ix::at(*self.s.pick(&sc.out_sigs)))
        } else if !sc.arrays.is_empty() && self.s.chance(1, 5) {
            let (base, n) = *self.s.pick(&sc.arrays);
            if self.d == Dialect::Batch {
                return Dst::Var(Ix::at(base + self.s.range(0, n - 1)));
            }
            let e = self.pub_expr(sc, 1);
            Dst::Var(Ix { base, dynamic: Some((1, b(E::Bin(Op::Mod, b(e), b(c(n as u64)))))) })
        } else {
            Dst::Var(Ix::at(*self.s.pick(&sc.sec_vars)))
        }
    }
    fn block(&mut self, sc: &mut Scope, pos: Pos, len: usize) -> Vec<St> {
        let mut v = vec![];
        for _ in 0..len {
            self.stmt(sc, pos, &mut v);
        }
        v
    }
    fn stmt(&mut self, sc: &mut Scope, pos: Pos, v: &mut Vec<St>) {
        let outer = std::mem::replace(&mut self.secret, pos.secret);
        self.stmt_in(sc, pos, v);
        self.secret = outer;
    }
    fn stmt_in(&mut self, sc: &mut Scope, pos: Pos, v: &mut Vec<St>) {
        let branch = pos.depth > 0 && self.d != Dialect::Batch;
        let w = [
            8,
            if pos.secret { 0 } else { 2 },
            2,
            if branch { 6 } else { 0 },
            if branch { 4 } else { 0 },
            if pos.depth > 0 && !pos.secret { 3 } else { 0 },
            if self.funs.is_empty() { 0 } else { 4 },
            // the Shamir driver tests no shared value for zero, so it cannot skip an assertion
            if self.asserts && !(pos.secret && self.d == Dialect::Linear) { 4 } else { 0 },
            1,
            if pos.in_fun && pos.may_ret > 0 { 2 } else { 0 },
            if self.d == Dialect::Batch { 0 } else { 2 },
        ];
        let inner = |pos: Pos| Pos { depth: pos.depth.saturating_sub(1), ..pos };
        match self.s.weighted(&w) {
            0 => {
                let e = self.sec_expr(sc, pos, 2);
                let d = self.sec_dst(sc, pos);
                v.push(St::Set(d, Rg::One(e)));
            }
            1 => {
                let e = self.pub_expr(sc, 2);
                if let Some(&x) = (!sc.pub_vars.is_empty()).then(|| self.s.pick(&sc.pub_vars)) {
                    // loop counters are not among the assignable ones
                    if x < sc.nvars {
                        v.push(St::Set(Dst::Var(Ix::at(x)), Rg::One(e)));
                    }
                }
            }
            2 => {
                // copy a run
                if let Some(&(base, n)) = (!sc.arrays.is_empty()).then(|| self.s.pick(&sc.arrays)) {
                    let k = self.s.range(1, n);
                    let from = match self.s.weighted(&[2, 2, 1]) {
                        0 => {
                            let (b2, n2) = *self.s.pick(&sc.arrays);
                            let k = k.min(n2);
                            Rg::Vars(Ix::at(b2 + self.s.range(0, n2 - k)), k)
                        }
                        1 if !pos.in_fun && sc.sec_sigs.len() >= k && sc.sec_sigs.windows(2).all(|w| w[1] == w[0] + 1) => {
                            let at = self.s.range(0, sc.sec_sigs.len() - k);
                            Rg::Sigs(Ix::at(sc.sec_sigs[at]), k)
                        }
                        _ => Rg::Consts((0..k).map(|i| BigUint::from(i as u64 + 5)).collect()),
                    };
                    let k = from.len();
                    let at = self.s.range(0, n - k);
                    v.push(St::Set(Dst::Var(Ix::at(base + at)), from));
                }
            }
            3 => {
                // branch on a secret
                let cond = self.sec_bool(sc, pos, 1);
                let p2 = Pos { secret: true, ..inner(pos) };
                let k = self.s.range(1, 3);
                let t = self.block(sc, p2, k);
                let f = if self.s.bool() {
                    let k = self.s.range(1, 3);
                    self.block(sc, p2, k)
                } else {
                    vec![]
                };
                self.features.push(if pos.secret { "nested secret branch" } else { "secret branch" });
                v.push(St::If(cond, t, f));
            }
            4 => {
                let cond = self.pub_bool(sc);
                let k = self.s.range(1, 3);
                let t = self.block(sc, inner(pos), k);
                let f = if self.s.bool() {
                    let k = self.s.range(1, 2);
                    self.block(sc, inner(pos), k)
                } else {
                    vec![]
                };
                self.features.push(if pos.secret { "public branch in secret branch" } else { "public branch" });
                v.push(St::If(cond, t, f));
            }
            5 => {
                // for (i = 0; i < k; i++)
                let i = sc.nvars;
                let i = i + sc.pub_vars.iter().filter(|x| **x >= sc.nvars).count();
                let k = self.s.range(0, 4) as u64;
                let mut sc2 = sc.clone();
                sc2.pub_vars.push(i);
                let n = self.s.range(1, 3);
                let mut body = self.block(&mut sc2, Pos { looped: true, ..inner(pos) }, n);
                body.push(St::Set(Dst::Var(Ix::at(i)), Rg::One(E::Bin(Op::Add, b(E::V(Ix::at(i))), b(c(1u8))))));
                v.push(St::Set(Dst::Var(Ix::at(i)), Rg::One(c(0u8))));
                v.push(St::While(E::Bin(Op::Lt, b(E::V(Ix::at(i))), b(c(k))), body));
                self.features.push("loop");
            }
            6 => self.call(sc, pos, v),
            7 => {
                let e = if self.d != Dialect::Full || self.s.chance(1, 4) {
                    self.pub_bool(sc)
                } else if self.s.chance(1, 3) {
                    let l = self.sec_expr(sc, pos, 1);
                    E::Bin(Op::Eq, b(l.clone()), b(l))
                } else {
                    self.sec_bool(sc, pos, 1)
                };
                if pos.secret {
                    self.features.push("assertion in secret branch");
                }
                v.push(St::Assert(e));
            }
            8 => {
                let e = self.sec_expr(sc, pos, 1);
                v.push(St::Log(e));
            }
            9 => {
                let r = self.ret(sc, pos);
                if pos.secret {
                    self.features.push("return in secret branch");
                }
                v.push(St::Ret(r));
            }
            _ => {
                if let Some(&x) = (!sc.bool_vars.is_empty()).then(|| self.s.pick(&sc.bool_vars)) {
                    let e = self.sec_bool(sc, pos, 1);
                    v.push(St::Set(Dst::Var(Ix::at(x)), Rg::One(e)));
                }
            }
        }
    }
    fn ret(&mut self, sc: &Scope, pos: Pos) -> Rg {
        if pos.may_ret == 1 {
            let e = self.sec_expr(sc, pos, 2);
            Rg::One(e)
        } else {
            // a run of variables, which may end beyond the last one
            let top = if self.s.chance(1, 5) { sc.nvars + 4 } else { sc.nvars.saturating_sub(pos.may_ret) };
            let lo = self.s.range(0, top);
            Rg::Vars(Ix::at(lo), pos.may_ret)
        }
    }
    fn args(&mut self, sc: &Scope, pos: Pos, f: usize) -> Vec<Rg> {
        let params = self.funs[f].params.clone();
        params
            .iter()
            .map(|&(n, public)| {
                if n > 1 {
                    if !sc.arrays.is_empty() && self.s.chance(3, 4) {
                        let (base, m) = *self.s.pick(&sc.arrays);
                        if m >= n {
                            return Rg::Vars(Ix::at(base + self.s.range(0, m - n)), n);
                        }
                    }
                    return Rg::Consts((0..n).map(|i| BigUint::from(3 * i as u64 + 1)).collect());
                }
                Rg::One(if public { self.pub_expr(sc, 1) } else { self.sec_expr(sc, pos, 1) })
            })
            .collect()
    }
    fn call(&mut self, sc: &mut Scope, pos: Pos, v: &mut Vec<St>) {
        let f = self.s.range(0, self.funs.len() - 1);
        let (nret, simple, name) = (self.funs[f].nret, self.funs[f].simple, self.funs[f].name.clone());
        if pos.secret && !simple {
            return;
        }
        if name == "sqrt_0" {
            let e = self.sec_leaf(sc, pos);
            let d = self.sec_dst(sc, pos);
            v.push(St::Call(f, vec![Rg::One(E::Bin(Op::Mul, b(e.clone()), b(e)))], 1, d));
            self.features.push("sqrt");
            return;
        }
        let args = self.args(sc, pos, f);
        self.features.push(if pos.secret { "call in secret branch" } else { "call" });
        if nret == 1 {
            let d = self.sec_dst(sc, pos);
            v.push(St::Call(f, args, 1, d));
        } else if let Some(&(base, n)) = sc.arrays.iter().find(|a| a.1 >= nret) {
            let at = self.s.range(0, n - nret);
            v.push(St::Call(f, args, nret, Dst::Var(Ix::at(base + at))));
        }
    }
    fn var_block(&mut self, first: usize, sc: &mut Scope) {
        let np = self.s.range(0, 2);
        let ns = self.s.range(1, 3);
        let nb = if self.d == Dialect::Batch { 0 } else { self.s.range(0, 2) };
        let na = self.s.range(0, 2);
        let mut at = first;
        for _ in 0..np {
            sc.pub_vars.push(at);
            at += 1;
        }
        for _ in 0..ns {
            sc.sec_vars.push(at);
            at += 1;
        }
        for _ in 0..nb {
            sc.bool_vars.push(at);
            at += 1;
        }
        for _ in 0..na {
            let n = self.s.range(2, 4);
            sc.arrays.push((at, n));
            at += n;
        }
        sc.nvars = at;
    }
    fn scope() -> Scope {
        Scope {
            pub_vars: vec![],
            sec_vars: vec![],
            bool_vars: vec![],
            arrays: vec![],
            pub_sigs: vec![],
            sec_sigs: vec![],
            bool_sigs: vec![],
            out_sigs: vec![],
            outs: vec![],
            nvars: 0,
        }
    }
    pub fn function(&mut self) {
        let i = self.funs.len();
        let np = self.s.range(0, 3);
        let mut sc = Self::scope();
        let mut params = vec![];
        let mut pubs = vec![];
        let mut at = 0;
        for _ in 0..np {
            match self.s.weighted(&[2, 4, 1]) {
                0 => {
                    params.push((1, true));
                    sc.pub_vars.push(at);
                    pubs.push(at);
                    at += 1;
                }
                1 => {
                    params.push((1, false));
                    sc.sec_vars.push(at);
                    at += 1;
                }
                _ => {
                    let n = self.s.range(2, 3);
                    params.push((n, false));
                    sc.arrays.push((at, n));
                    at += n;
                }
            }
        }
        self.var_block(at, &mut sc);
        let nret = if self.s.chance(1, 4) { self.s.range(2, 3) } else { 1 };
        let simple = self.s.chance(2, 3);
        let pos = Pos { secret: false, looped: false, in_fun: true, depth: 2, may_ret: nret };
        self.secret = simple;
        let len = self.s.range(1, 4);
        // in a simple function nothing public is assigned and there is no loop, so that it may
        // also run under a condition on a secret
        let mut sc2 = sc.clone();
        let mut body = vec![];
        for _ in 0..len {
            let mut piece = vec![];
            let p = if simple { Pos { secret: true, ..pos } } else { pos };
            self.stmt(&mut sc2, p, &mut piece);
            body.extend(piece);
        }
        // bring the public parameters in
        if let Some(&q) = (!pubs.is_empty()).then(|| self.s.pick(&pubs)) {
            let cond = E::Bin(*self.s.pick(if self.d == Dialect::Batch { &[Op::Lt] } else { &[Op::Lt, Op::Eq, Op::Ge] }), b(E::V(Ix::at(q))), b(c(self.s.below(4))));
            let r = self.ret(&sc2, pos);
            if self.d != Dialect::Batch {
                let at = self.s.range(0, body.len());
                body.insert(at, St::If(cond, vec![St::Ret(r)], vec![]));
            } else {
                let x = sc2.sec_vars[0];
                body.push(St::Set(Dst::Var(Ix::at(x)), Rg::One(E::Bin(Op::Add, b(cond), b(E::V(Ix::at(q)))))));
            }
        }
        let r = self.ret(&sc2, pos);
        body.push(St::Ret(r));
        self.secret = false;
        self.funs.push(Fun { name: format!("f_{i}"), params, nret, vars: sc.nvars + 4, body, simple });
    }
    /// f(n, x) = n == 0 ? x : g(f(n - 1, x * x + n))
    pub fn recursion(&mut self) {
        let i = self.funs.len();
        let (n, x, y) = (E::V(Ix::at(0)), E::V(Ix::at(1)), 2);
        let m = c(self.s.below(4) + 1);
        let body = vec![
            St::If(
                E::Bin(Op::Eq, b(E::Bin(Op::Mod, b(n.clone()), b(m))), b(c(0u8))),
                vec![St::Ret(Rg::One(E::Bin(Op::Add, b(x.clone()), b(c(self.s.below(3))))))],
                vec![],
            ),
            St::Call(
                i,
                vec![
                    Rg::One(E::Bin(Op::Sub, b(n.clone()), b(c(1u8)))),
                    Rg::One(E::Bin(Op::Add, b(E::Bin(Op::Mul, b(x.clone()), b(x))), b(n.clone()))),
                ],
                1,
                Dst::Var(Ix::at(y)),
            ),
            St::Ret(Rg::One(E::Bin(Op::Sub, b(E::V(Ix::at(y))), b(n)))),
        ];
        self.funs.push(Fun { name: format!("f_{i}"), params: vec![(1, true), (1, false)], nret: 1, vars: 3, body, simple: true });
        self.features.push("recursion");
    }
    /// f(x) = x == 0 ? k : 1 / x
    pub fn guarded_inverse(&mut self) {
        let i = self.funs.len();
        let x = E::V(Ix::at(0));
        let cond = E::Bin(Op::Eq, b(x.clone()), b(c(0u8)));
        let body = vec![
            St::If(cond, vec![St::Ret(Rg::One(c(self.s.below(5))))], vec![]),
            St::Ret(Rg::One(E::Bin(Op::Div, b(c(self.s.below(5) + 1)), b(x)))),
        ];
        self.funs.push(Fun { name: format!("f_{i}"), params: vec![(1, false)], nret: 1, vars: 1, body, simple: true });
        self.features.push("guarded inverse");
    }
    pub fn sqrt(&mut self) {
        let body = vec![St::Ret(Rg::One(E::V(Ix::at(0))))];
        self.funs.push(Fun { name: "sqrt_0".into(), params: vec![(1, false)], nret: 1, vars: 1, body, simple: false });
    }
    pub fn accelerated(&mut self, poseidon: Option<fn(&[BigUint]) -> (Vec<BigUint>, Vec<BigUint>)>) {
        let i = self.templs.len();
        let kinds: Vec<Accel> = match self.d {
            Dialect::Full if poseidon.is_some() => vec![Accel::Num2Bits, Accel::AddBits, Accel::IsZero, Accel::Poseidon2],
            Dialect::Full => vec![Accel::Num2Bits, Accel::AddBits, Accel::IsZero],
            Dialect::Linear if poseidon.is_some() => vec![Accel::Poseidon2],
            Dialect::Linear => return,
            Dialect::Batch => vec![Accel::AddBits],
        };
        let a = *self.s.pick(&kinds);
        let bits = self.p.bits() as usize;
        let (nin, nout, mid) = match a {
            Accel::Num2Bits => (1, if self.s.bool() { self.s.range(1, 20) } else { self.s.range(1, bits) }, 0),
            Accel::AddBits => {
                let n = if self.s.bool() { self.s.range(1, 8) } else { self.s.range(1, bits - 2) };
                (2 * n, n, 1)
            }
            Accel::IsZero => (1, 1, 1),
            Accel::Poseidon2 => {
                let t = *self.s.pick(&[2usize, 3, 4, 16]);
                (t, t, poseidon.map_or(0, |f| f(&vec![BigUint::zero(); t]).1.len()))
            }
        };
        self.templs.push(Templ {
            sym: format!("{a:?}_{i}"),
            comp: format!("{a:?}"),
            nin,
            nout,
            total: nin + nout + mid,
            vars: 0,
            ncmps: 0,
            mappings: vec![],
            body: vec![],
            accel: Some(a),
        });
        self.features.push(match a {
            Accel::Num2Bits => "Num2Bits",
            Accel::AddBits => "AddBits",
            Accel::IsZero => "IsZero",
            Accel::Poseidon2 => "Poseidon2",
        });
    }
    /// A permutation whose trace may be given in advance.
    pub fn traced(&mut self, t: usize, trace: usize) {
        let i = self.templs.len();
        self.templs.push(Templ {
            sym: format!("Poseidon2_{i}"),
            comp: "Poseidon2".into(),
            nin: t,
            nout: t,
            total: 2 * t + trace,
            vars: 0,
            ncmps: 0,
            mappings: vec![],
            body: vec![],
            accel: Some(Accel::Poseidon2),
        });
        let at = Ix::at(0);
        let sub = |ix: Ix, d: Rg| St::Set(Dst::In(at.clone(), ix, None), d);
        let mut body = vec![St::Create(i, 2 * t, 0, 1)];
        if self.s.bool() {
            body.push(sub(Ix::at(t), Rg::Sigs(Ix::at(t), t)));
        } else {
            body.extend((0..t).map(|k| sub(Ix::at(t + k), Rg::Sigs(Ix::at(t + k), 1))));
        }
        body.push(St::Set(Dst::Sig(Ix::at(0)), Rg::Out(at.clone(), Ix::at(0), None, t)));
        self.templs.push(Templ {
            sym: format!("{PRECOMPUTED}_Poseidon2_{}", i + 1),
            comp: format!("{PRECOMPUTED}_Poseidon2"),
            nin: t,
            nout: t,
            total: 4 * t + trace,
            vars: 0,
            ncmps: 1,
            mappings: vec![],
            body,
            accel: None,
        });
        self.features.push("precomputed trace");
    }
    /// A template over `kinds` of inputs ('p' public, 's' secret, 'b' secret bit); components are
    /// drawn among the templates that exist.
    pub fn template(&mut self, kinds: &[char], comps: usize, len: usize) -> usize {
        let i = self.templs.len();
        let nout = self.s.range(1, 3);
        let nmid = self.s.range(0, 3);
        let nin = kinds.len();
        let mut sc = Self::scope();
        self.var_block(0, &mut sc);
        for (k, kind) in kinds.iter().enumerate() {
            match kind {
                'p' => sc.pub_sigs.push(nout + k),
                'b' => sc.bool_sigs.push(nout + k),
                _ => sc.sec_sigs.push(nout + k),
            }
        }
        sc.out_sigs = (0..nout).chain(nout + nin..nout + nin + nmid).collect();
        let mut total = nout + nin + nmid;
        let pos = Pos { secret: false, looped: false, in_fun: false, depth: 3, may_ret: 0 };
        let mut body = self.block(&mut sc, pos, len);
        let mut ncmps = 0;
        for _ in 0..comps {
            if self.templs.is_empty() {
                break;
            }
            let t = self.s.range(0, self.templs.len() - 1);
            let tm = self.templs[t].clone();
            let amount = if tm.nin < 20 && self.s.chance(1, 3) { self.s.range(2, 3) } else { 1 };
            let jump = tm.total + self.s.range(0, 1);
            body.push(St::Create(t, total, jump, amount));
            total += jump * amount;
            let first = ncmps;
            ncmps += amount;
            self.features.push("component");
            if amount > 1 {
                self.features.push("array of components");
                // fed by a loop over the components
                let iv = sc.nvars + 3;
                let mut sc2 = sc.clone();
                sc2.pub_vars.push(iv);
                let cm = Ix { base: first, dynamic: Some((1, b(E::V(Ix::at(iv))))) };
                let mut inner = self.feed(&sc2, pos, &tm, cm);
                inner.push(St::Set(Dst::Var(Ix::at(iv)), Rg::One(E::Bin(Op::Add, b(E::V(Ix::at(iv))), b(c(1u8))))));
                body.push(St::Set(Dst::Var(Ix::at(iv)), Rg::One(c(0u8))));
                body.push(St::While(E::Bin(Op::Lt, b(E::V(Ix::at(iv))), b(c(amount as u64))), inner));
            } else {
                let f = self.feed(&sc, pos, &tm, Ix::at(first));
                body.extend(f);
            }
            let all = tm.nout.min(4);
            for k in 0..amount {
                for _ in 0..all {
                    let o = self.s.range(0, tm.nout - 1);
                    sc.outs.push((Ix::at(first + k), t, o, matches!(tm.accel, Some(Accel::Num2Bits | Accel::AddBits | Accel::IsZero))));
                }
            }
            if self.s.bool() {
                let n = self.s.range(1, 2);
                body.extend(self.block(&mut sc, pos, n));
            }
        }
        // every output is written at least once, with something
        for o in 0..nout {
            let e = self.sec_expr(&sc, pos, 2);
            let e = if self.s.bool() { E::Bin(Op::Add, b(E::S(Ix::at(o))), b(e)) } else { e };
            if self.s.chance(2, 3) {
                body.push(St::Set(Dst::Sig(Ix::at(o)), Rg::One(e)));
            }
        }
        let mappings = if self.s.bool() { vec![] } else { vec![0, nout, nout + nin / 2] };
        self.templs.push(Templ { sym: format!("T_{i}"), comp: format!("T{i}"), nin, nout, total, vars: sc.nvars + 4, ncmps, mappings, body, accel: None });
        i
    }
    fn feed(&mut self, sc: &Scope, pos: Pos, tm: &Templ, cm: Ix) -> Vec<St> {
        let mut v = vec![];
        let mut at = 0;
        let bits = matches!(tm.accel, Some(Accel::AddBits));
        let mut order = vec![];
        while at < tm.nin {
            // scalars, or runs where a run of variables is at hand
            let n = match sc.arrays.iter().find(|a| a.1 <= tm.nin - at) {
                Some(&(base, n)) if !bits && self.s.chance(1, 3) => {
                    order.push((at, Rg::Vars(Ix::at(base), n)));
                    n
                }
                _ => {
                    let e = if bits { self.bit(sc, pos) } else { self.sec_expr(sc, pos, 1) };
                    order.push((at, Rg::One(e)));
                    1
                }
            };
            at += n;
        }
        if self.s.bool() {
            self.s.shuffle(&mut order);
        }
        for (at, r) in order {
            let sig = tm.nout + at;
            let (i, m) = match tm.mappings.iter().enumerate().filter(|(_, m)| **m <= sig).next_back() {
                Some((code, m)) if code > 0 && self.s.bool() => (sig - m, Some(code)),
                _ => (sig, None),
            };
            v.push(St::Set(Dst::In(cm.clone(), Ix::at(i), m), r));
        }
        v
    }
    fn bit(&mut self, sc: &Scope, pos: Pos) -> E {
        let _ = pos;
        if !sc.bool_sigs.is_empty() && self.s.chance(2, 3) {
            let e = E::S(Ix::at(*self.s.pick(&sc.bool_sigs)));
            return if self.s.bool() { e } else { E::Bin(Op::Sub, b(c(1u8)), b(e)) };
        }
        c(self.s.below(2))
    }
    pub fn finish(self, main: usize, n_public: usize, inputs: Vec<(String, usize)>) -> Prog {
        Prog { templs: self.templs, funs: self.funs, main, inputs, n_public }
    }
}
