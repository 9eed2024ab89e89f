//! C04 Boolean circuit files.
use engine::*;
use mpc_core::protocols::rep3::yao::bristol_fashion::verif_hooks as h;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Xor,
    And,
    Inv,
    Eq,
    Eqw,
}
#[derive(Clone, Debug)]
struct Gate {
    op: Op,
    a: usize,
    b: usize,
    out: usize,
}
#[derive(Clone, Debug)]
struct Circuit {
    inputs: Vec<usize>,
    outputs: Vec<usize>,
    gates: Vec<Gate>,
    /// declared counts, normally the real ones
    ngates: usize,
    nwires: usize,
}

impl Circuit {
    fn nin(&self) -> usize {
        self.inputs.iter().sum()
    }
    fn text(&self, s: &mut Src, plain: bool) -> String {
        let nl = if !plain && s.chance(1, 8) { "\r\n" } else { "\n" };
        let mut t = format!("{} {}{nl}", self.ngates, self.nwires);
        for l in [&self.inputs, &self.outputs] {
            t += &l.len().to_string();
            for x in l {
                t += &format!(" {x}");
            }
            if !plain && s.chance(1, 3) {
                t += " ";
            }
            t += nl;
        }
        t += nl;
        for g in &self.gates {
            let sp = if !plain && s.chance(1, 20) { "  " } else { " " };
            t += &match g.op {
                Op::Xor => format!("2 1 {}{sp}{} {} XOR", g.a, g.b, g.out),
                Op::And => format!("2 1 {}{sp}{} {} AND", g.a, g.b, g.out),
                Op::Inv => format!("1 1 {}{sp}{} INV", g.a, g.out),
                Op::Eq => format!("1 1 {}{sp}{} EQ", g.a, g.out),
                Op::Eqw => format!("1 1 {}{sp}{} EQW", g.a, g.out),
            };
            t += nl;
        }
        if !plain {
            for _ in 0..s.weighted(&[4, 2, 1]) {
                t += nl;
            }
        }
        t
    }
    /// The value of the gates, by definition. None if it is not a valid circuit.
    fn eval(&self, input: &[bool]) -> Option<Vec<Vec<bool>>> {
        let mut w: Vec<Option<bool>> = vec![None; self.nwires];
        if self.nin() > self.nwires || self.gates.len() != self.ngates {
            return None;
        }
        for (i, v) in input.iter().enumerate() {
            w[i] = Some(*v);
        }
        for g in &self.gates {
            let get = |i: usize| w.get(i).copied().flatten();
            let v = match g.op {
                Op::Xor => get(g.a)? ^ get(g.b)?,
                Op::And => get(g.a)? & get(g.b)?,
                Op::Inv => !get(g.a)?,
                Op::Eq => g.a == 1,
                Op::Eqw => get(g.a)?,
            };
            let o = w.get_mut(g.out)?;
            if o.is_some() {
                return None;
            }
            *o = Some(v);
        }
        let all: Vec<bool> = w.into_iter().collect::<Option<_>>()?;
        let nout: usize = self.outputs.iter().sum();
        let mut at = self.nwires.checked_sub(nout)?;
        Some(
            self.outputs
                .iter()
                .map(|k| {
                    at += k;
                    all[at - k..at].to_vec()
                })
                .collect(),
        )
    }
    fn bundles(&self, bits: &[bool]) -> Vec<Vec<bool>> {
        let mut at = 0;
        self.inputs
            .iter()
            .map(|k| {
                at += k;
                bits[at - k..at].to_vec()
            })
            .collect()
    }
    /// Reads a text leniently; None if it cannot be a circuit.
    fn read(t: &str) -> Option<Circuit> {
        let mut toks = t.split_whitespace();
        let mut num = |toks: &mut std::str::SplitWhitespace| toks.next()?.parse::<usize>().ok();
        let ngates = num(&mut toks)?;
        let nwires = num(&mut toks)?;
        let mut lists = vec![];
        for _ in 0..2 {
            let k = num(&mut toks)?;
            lists.push((0..k).map(|_| num(&mut toks)).collect::<Option<Vec<_>>>()?);
        }
        let outputs = lists.pop()?;
        let inputs = lists.pop()?;
        let mut gates = vec![];
        while let Some(k) = toks.next() {
            let k: usize = k.parse().ok()?;
            if num(&mut toks)? != 1 {
                return None;
            }
            let a = num(&mut toks)?;
            let b = if k == 2 { num(&mut toks)? } else { 0 };
            let out = num(&mut toks)?;
            let op = match (k, toks.next()?) {
                (2, "XOR") => Op::Xor,
                (2, "AND") => Op::And,
                (1, "INV") => Op::Inv,
                (1, "EQ") if a < 2 => Op::Eq,
                (1, "EQW") => Op::Eqw,
                _ => return None,
            };
            gates.push(Gate { op, a, b, out });
        }
        Some(Circuit { inputs, outputs, gates, ngates, nwires })
    }
}

fn bits(s: &mut Src, n: usize) -> Vec<bool> {
    match s.below(6) {
        0 => vec![false; n],
        1 => vec![true; n],
        _ => {
            let b = s.bytes(n);
            b.iter().map(|x| x & 1 == 1).collect()
        }
    }
}

fn circuit(s: &mut Src, max_gates: usize) -> Circuit {
    let nb = s.range(1, 3);
    let mut inputs: Vec<usize> = (0..nb).map(|_| s.range(0, 4)).collect();
    inputs[0] = inputs[0].max(1);
    let nin: usize = inputs.iter().sum();
    let ng = s.range(1, max_gates);
    let mut ids: Vec<usize> = (nin..nin + ng).collect();
    if s.chance(3, 4) {
        s.shuffle(&mut ids);
    }
    let profile = *s.pick(&[[4u32, 4, 2, 1, 1], [1, 6, 0, 0, 0], [3, 3, 3, 3, 3], [0, 1, 1, 0, 0], [5, 2, 1, 0, 0]]);
    let mut defined: Vec<usize> = (0..nin).collect();
    let mut gates = vec![];
    for id in ids {
        let wire = |s: &mut Src| match s.below(4) {
            0 => defined[s.below(defined.len() as u64) as usize],
            1 => defined[s.below(2.min(defined.len()) as u64) as usize],
            _ => {
                let k = 4.min(defined.len());
                defined[defined.len() - 1 - s.below(k as u64) as usize]
            }
        };
        let (a, b) = (wire(s), wire(s));
        let op = [Op::Xor, Op::And, Op::Inv, Op::Eq, Op::Eqw][s.weighted(&profile)];
        let a = if op == Op::Eq { s.below(2) as usize } else { a };
        gates.push(Gate { op, a, b, out: id });
        defined.push(id);
    }
    let n = nin + ng;
    let mut outputs = vec![];
    let mut left = if s.chance(1, 6) { s.range(1, n) } else { s.range(1, ng.min(12)) };
    while left > 0 {
        let k = s.range(1, left);
        outputs.push(k);
        left -= k;
    }
    if s.chance(1, 12) {
        outputs.push(0);
    }
    Circuit { inputs, outputs, gates, ngates: ng, nwires: n }
}

fn agree(c: &Circuit, lib: &mpc_core::protocols::rep3::yao::bristol_fashion::BristolFashionCircuit, input: &[bool], what: &str) -> R {
    let want = match c.eval(input) {
        Some(v) => v,
        None => fail!("{what}: accepted a circuit that is not well formed"),
    };
    let b = c.bundles(input);
    check_eq!(h::evaluate(lib, &b).map_err(|e| e.to_string()), Ok(want.clone()), "{what}: evaluate on {input:?}");
    check_eq!(h::evaluate_leveled(lib, &b).map_err(|e| e.to_string()), Ok(want), "{what}: leveled evaluate on {input:?}");
    Ok(())
}

fn well_formed(s: &mut Src) -> R {
    let mg = if s.chance(1, 3000) { 5000 } else if s.chance(1, 10) { 150 } else { 24 };
    let c = circuit(s, mg);
    let text = c.text(s, false);
    s.note(|| text.clone());
    let ands = c.gates.iter().filter(|g| g.op == Op::And).count();
    s.label(format!("{} gates, {} and", c.gates.len().next_power_of_two(), ands.next_power_of_two()));
    if c.gates.len() >= 3 && ands > 0 {
        s.nontrivial();
    }
    let lib = h::from_reader(text.as_bytes()).map_err(|e| format!("well-formed circuit refused: {e}"))?;
    let n = c.nin() + c.gates.len();
    check_eq!(h::counts(&lib), [ands, c.nin(), n, ands, c.nin(), n], "counts (and, inputs, wires; leveled)");
    let (mut at, mut wi) = (0, vec![]);
    for k in &c.inputs {
        wi.push((at..at + k).collect::<Vec<_>>());
        at += k;
    }
    let (mut at, mut wo) = (n - c.outputs.iter().sum::<usize>(), vec![]);
    for k in &c.outputs {
        wo.push((at..at + k).collect::<Vec<_>>());
        at += k;
    }
    check_eq!(h::wires(&lib), (wi, wo), "input and output wires");
    let written = h::write(&lib).map_err(|e| e.to_string())?;
    let again = h::from_reader(&written[..]).map_err(|e| format!("written circuit refused: {e}\n{}", String::from_utf8_lossy(&written)))?;
    check_eq!(h::write(&again).map_err(|e| e.to_string())?, written, "writing twice");
    let nin = c.nin();
    let inputs: Vec<Vec<bool>> = if nin <= 5 {
        (0..1u32 << nin).map(|v| (0..nin).map(|i| v >> i & 1 == 1).collect()).collect()
    } else {
        (0..6).map(|_| bits(s, nin)).collect()
    };
    for i in &inputs {
        agree(&c, &lib, i, "parsed")?;
        agree(&c, &again, i, "written and parsed again")?;
    }
    // inputs of the wrong shape
    let mut b = c.bundles(&inputs[0]);
    let k = s.below(b.len() as u64) as usize;
    match s.below(4) {
        0 => b.push(vec![]),
        1 => {
            b.pop();
        }
        2 => b[k].push(true),
        _ => {
            if b[k].pop().is_none() {
                b[k].push(false);
            }
        }
    }
    check!(h::evaluate(&lib, &b).is_err(), "evaluate accepts input bundles of the wrong shape");
    check!(h::evaluate_leveled(&lib, &b).is_err(), "leveled evaluate accepts input bundles of the wrong shape");
    Ok(())
}

fn malformed(s: &mut Src) -> R {
    let mut c = circuit(s, 16);
    let n = c.nwires;
    let nin = c.nin();
    let k = s.below(c.gates.len() as u64) as usize;
    let mut text = None;
    let what = match s.below(11) {
        0 => {
            // a wire that is only defined later, or by the gate itself
            let later: Vec<usize> = c.gates[k..].iter().map(|g| g.out).collect();
            let w = *s.pick(&later);
            if c.gates[k].op == Op::Eq {
                c.gates[k].op = Op::Inv;
            }
            if s.bool() && matches!(c.gates[k].op, Op::Xor | Op::And) { c.gates[k].b = w } else { c.gates[k].a = w }
            "reads a wire before it is defined"
        }
        1 => {
            let w = n + s.below(5) as usize;
            if c.gates[k].op == Op::Eq {
                c.gates[k].op = Op::Eqw;
            }
            if s.bool() && matches!(c.gates[k].op, Op::Xor | Op::And) { c.gates[k].b = w } else { c.gates[k].a = w }
            "reads a wire beyond the wires"
        }
        2 => {
            let w = s.below(nin as u64) as usize;
            c.gates[k].out = w;
            "defines an input wire"
        }
        3 => {
            let g = Gate { op: c.gates[k].op, a: if c.gates[k].op == Op::Eq { 1 } else { 0 }, b: 0, out: c.gates[k].out };
            let at = s.range(k + 1, c.gates.len());
            c.gates.insert(at, g);
            c.ngates += 1;
            c.nwires += s.below(2) as usize;
            "defines a wire twice"
        }
        4 => {
            c.ngates = if s.bool() { c.ngates + 1 + s.below(3) as usize } else { c.ngates - 1 };
            "declares a wrong number of gates"
        }
        5 => {
            let nout: usize = c.outputs.iter().sum();
            c.nwires = if s.bool() || nout == n { c.nwires + 1 + s.below(3) as usize } else { c.nwires - 1 };
            "declares a wrong number of wires"
        }
        6 => {
            // the last gate defines a wire beyond the declared ones, leaving a hole
            let last = c.gates.len() - 1;
            let hole = c.gates[last].out;
            c.gates[last].out = n + s.below(100) as usize;
            // no output needs the hole
            let first_out = hole + 1;
            c.outputs = if first_out < n { vec![n - first_out] } else { vec![] };
            "defines a wire beyond the declared number"
        }
        7 => {
            c.outputs.push(n + 1 + s.below(3) as usize);
            "declares more outputs than wires"
        }
        8 => {
            let i = s.below(c.inputs.len() as u64) as usize;
            if s.bool() || c.inputs[i] == 0 { c.inputs[i] += 1 } else { c.inputs[i] -= 1 }
            "declares a wrong number of inputs"
        }
        9 => {
            // an operand or count missing, an unknown gate, trailing text
            let t = c.text(s, true);
            let mut lines: Vec<String> = t.lines().map(|l| l.to_string()).collect();
            let l = 4 + k;
            match s.below(6) {
                0 => lines[l] = lines[l].replace("XOR", "NAND").replace("AND", "OR").replace("INV", "NOT").replace("EQ", "QE"),
                1 => {
                    let mut w: Vec<&str> = lines[l].split(' ').collect();
                    let i = s.below(w.len() as u64) as usize;
                    w.remove(i);
                    lines[l] = w.join(" ");
                }
                2 => lines.push("0 1".into()),
                3 => lines[1] += " 1",
                4 => {
                    lines.remove(3);
                }
                _ => lines[l] = format!("1 1 2 {} EQ", c.gates[k].out),
            }
            text = Some(lines.join("\n") + "\n");
            "is not in the format"
        }
        _ => {
            c.outputs = vec![u32::MAX as usize, s.below(4) as usize + 1, u32::MAX as usize];
            "declares outputs whose number does not fit"
        }
    };
    s.label(what);
    s.nontrivial();
    let t = text.unwrap_or_else(|| c.text(s, true));
    s.note(|| format!("{what}\n{t}"));
    match caught(|| h::from_reader(t.as_bytes())) {
        Err(p) => fail!("circuit that {what}: panic {p}\n{t}"),
        Ok(Ok(_)) => fail!("circuit that {what} was accepted\n{t}"),
        Ok(Err(_)) => Ok(()),
    }
}

/// Arbitrary edits of a circuit text: refused, or a circuit with exactly the meaning of the text.
fn edited(s: &mut Src) -> R {
    let c = circuit(s, 10);
    let mut t = c.text(s, false).into_bytes();
    for _ in 0..s.range(1, 4) {
        let i = s.below(t.len() as u64) as usize;
        match s.below(5) {
            0 => {
                t.remove(i);
            }
            1 => t[i] = *s.pick(b"0123456789 \n\tEQWXORANDINV-+\r"),
            2 => t.insert(i, *s.pick(b"0123 \nW1")),
            3 => {
                let d: Vec<usize> = (0..t.len()).filter(|j| t[*j].is_ascii_digit()).collect();
                if let Some(j) = d.get(s.below(d.len().max(1) as u64) as usize) {
                    t[*j] = b'0' + s.below(10) as u8;
                }
            }
            _ => {
                // move a line
                let mut l: Vec<Vec<u8>> = t.split(|b| *b == b'\n').map(|x| x.to_vec()).collect();
                let a = s.below(l.len() as u64) as usize;
                let b = s.below(l.len() as u64) as usize;
                l.swap(a, b);
                t = l.join(&b'\n');
            }
        }
        if t.is_empty() {
            return Ok(());
        }
    }
    let t = String::from_utf8(t).map_err(|e| e.to_string())?;
    // huge declared counts only cost memory
    if t.split(|c: char| !c.is_ascii_digit()).any(|n| n.len() > 5) {
        return Ok(());
    }
    s.note(|| t.clone());
    let lib = match caught(|| h::from_reader(t.as_bytes())) {
        Err(p) => fail!("panic {p} while reading\n{t}"),
        Ok(Err(_)) => {
            s.label("refused");
            return Ok(());
        }
        Ok(Ok(l)) => l,
    };
    s.label("accepted");
    s.nontrivial();
    let Some(r) = Circuit::read(&t) else { fail!("accepted a text that is not a circuit\n{t}") };
    for _ in 0..3 {
        let i = bits(s, r.nin());
        agree(&r, &lib, &i, "edited")?;
    }
    Ok(())
}

const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be,
    0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa,
    0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85,
    0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3,
    0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f,
    0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];
fn sha_compress(st: [u32; 8], m: [u32; 16]) -> [u32; 8] {
    let mut w = [0u32; 64];
    w[..16].copy_from_slice(&m);
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = st;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let t2 = s0.wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    std::array::from_fn(|i| v[i].wrapping_add(st[i]))
}
// the whole message, first word first, as one big-endian number; wires from its lowest bit
fn to_bits(w: &[u32]) -> Vec<bool> {
    let mut v: Vec<bool> = w.iter().flat_map(|x| (0..32).rev().map(move |i| x >> i & 1 == 1)).collect();
    v.reverse();
    v
}

fn shipped(s: &mut Src, files: &[(String, mpc_core::protocols::rep3::yao::bristol_fashion::BristolFashionCircuit, Circuit)]) -> R {
    let (name, lib, c) = s.pick(files);
    s.label(name.rsplit('/').next().unwrap().to_string());
    s.nontrivial();
    let mut r = s.rng();
    use rand::Rng;
    if name.contains("sha256") {
        let m: [u32; 16] = r.r#gen();
        let st: [u32; 8] = r.r#gen();
        let want = to_bits(&sha_compress(st, m));
        let i = vec![to_bits(&m), to_bits(&st)];
        check_eq!(h::evaluate(lib, &i).map_err(|e| e.to_string()), Ok(vec![want.clone()]), "SHA-256 compression");
        check_eq!(h::evaluate_leveled(lib, &i).map_err(|e| e.to_string()), Ok(vec![want]), "SHA-256 compression, leveled");
    }
    let i: Vec<bool> = (0..c.nin()).map(|_| r.r#gen()).collect();
    agree(c, lib, &i, name)
}

pub fn properties() -> Vec<Property> {
    let dir = "/repo/mpc-core/src/protocols/rep3/yao/bristol_fashion/circuit_files";
    type F = Arc<std::sync::OnceLock<Result<Vec<(String, mpc_core::protocols::rep3::yao::bristol_fashion::BristolFashionCircuit, Circuit)>, String>>>;
    let cell: F = Default::default();
    let load = move || -> Result<Vec<_>, String> {
        let mut v = vec![];
        for n in ["aes_128.txt", "sha256.txt"] {
            let p = format!("{dir}/{n}");
            let lib = h::from_file(&p).map_err(|e| format!("{p}: {e}"))?;
            let c = Circuit::read(&std::fs::read_to_string(&p).map_err(|e| e.to_string())?).ok_or("unreadable")?;
            v.push((p, lib, c));
        }
        Ok(v)
    };
    vec![Property {
        id: "C04",
        rule: "well-formed circuits with at least three gates and one AND; every malformed circuit; edited texts that are still accepted; every evaluation of a shipped circuit",
        assumptions: "Declared counts stay below 10^5 (larger ones only cost memory). AND gates with several outputs (MAND) are outside the supported dialect.",
        subs: vec![
            Sub::new("well-formed", 400_000, 2_000_000, well_formed),
            Sub::new("malformed", 600_000, 6_000_000, malformed),
            Sub::new("edited", 1_000_000, 10_000_000, edited),
            Sub::new("shipped-circuits", 64, 3000, move |s| {
                let f = cell.get_or_init(&load).as_ref().map_err(|e| Fail::from(e.clone()))?;
                shipped(s, f)
            }),
        ],
    }]
}
