//! N01 delivery, N04 statistics: one history generator for all transports.
use crate::net::*;
use bytes::Bytes;
use engine::*;
use mpc_net::{ConnectionStats, Network};
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::Duration;

#[derive(Clone, Debug)]
enum Ev {
    Send { to: usize, data: Bytes },
    TooLong { to: usize, len: usize },
    Recv { from: usize, data: Bytes },
    Flush,
    Stats { want: Vec<(usize, (usize, usize))> },
    Pause(u64),
}
/// Events of one thread: on network k of party p.
type Prog = Vec<(usize, usize, Ev)>;

fn size(s: &mut Src, max: usize, small: bool) -> usize {
    let v = match s.weighted(if small { &[3, 6, 1, 0, 0, 0] } else { &[3, 6, 4, 3, 2, 1] }) {
        0 => s.range(0, 1),
        1 => s.range(2, 40),
        2 => s.range(41, 3000),
        3 => s.pick(&[65536 - 8, 65536, 131072 - 16, 131072]) + s.range(0, 4) - 2,
        4 => max - s.range(0, 1).min(max),
        _ => s.range(60_000, 300_000),
    };
    v.min(max).min(400_000)
}

fn run_prog(nets: &[Vec<Net>], prog: &Prog, stop: &AtomicBool, out: &Mutex<Vec<Fail>>) {
    for (p, k, ev) in prog {
        if stop.load(Ordering::Relaxed) {
            return;
        }
        let net = &nets[*p][*k];
        let r: R = (|| {
            match ev {
                Ev::Send { to, data } => net.send(*to, data.clone()).map_err(|e| Fail::suspect(format!("network {k}: send of {} bytes from {p} to {to}: {e:#}", data.len())))?,
                Ev::TooLong { to, len } => {
                    let d = Bytes::from(vec![0xEE; *len]);
                    check!(net.send(*to, d).is_err(), "network {k}: send of {len} bytes from {p} to {to}, above the limit, is accepted");
                }
                Ev::Recv { from, data } => {
                    let got = net.recv(*from).map_err(|e| Fail::suspect(format!("network {k}: receive at {p} from {from} of a message of {} bytes: {e:#}", data.len())))?;
                    check!(got == *data, "network {k}: receive at {p} from {from} returns another message than the one sent: {}", differ(&got, data));
                }
                Ev::Flush => net.flush().map_err(|e| Fail::suspect(format!("network {k}: flush at {p}: {e:#}")))?,
                Ev::Stats { want } => {
                    let st = net.get_connection_stats();
                    check_stats(&st, *p, want).map_err(|e| Fail::from(format!("network {k}, party {p}: {}", e.msg)))?;
                }
                Ev::Pause(us) => std::thread::sleep(Duration::from_micros(*us)),
            }
            Ok(())
        })();
        if let Err(e) = r {
            stop.store(true, Ordering::Relaxed);
            out.lock().unwrap().push(e);
            return;
        }
    }
}

fn check_stats(st: &ConnectionStats, me: usize, want: &[(usize, (usize, usize))]) -> R {
    let got: Vec<_> = st.iter().collect();
    check_eq!(got, want, "(peer, (bytes sent, bytes received))");
    for (p, v) in want {
        check_eq!(st.get(*p), Some(*v), "statistics for {p}");
    }
    check_eq!(st.get(me), None, "statistics for the party itself");
    check_eq!(st.get(1 << 40), None, "statistics for a stranger");
    Ok(())
}

fn history(s: &mut Src, kind: Kind, stats: bool) -> R {
    let n = match kind {
        Kind::Local => s.range(2, 7),
        Kind::Quic | Kind::Tls => [2, 3, 4, 5][s.weighted(&[6, 6, 2, 2])],
        _ => [2, 3, 4, 5, 6][s.weighted(&[5, 5, 5, 2, 1])],
    };
    let k = match kind {
        Kind::Quic | Kind::Tls => s.range(1, 3),
        _ => s.range(1, 4),
    };
    let mode = if stats { s.range(0, 1) } else { s.range(0, 2) };
    let max_frame = if kind == Kind::Local { None } else { *s.pick(&[None, None, Some(64), Some(1000), Some(65536), Some(200_000)]) };
    let max = max_frame.unwrap_or(400_000);
    let mut o = Opts::plain(n);
    o.max_frame = max_frame;
    // never reached when messages arrive
    o.timeout = if s.chance(1, 6) && kind == Kind::Local { None } else { Some(Duration::from_secs(8)) };
    for i in 0..n {
        if s.chance(1, 4) && kind != Kind::Local {
            o.delays[i] = Duration::from_millis(s.below(30));
        }
        let mut ord: Vec<usize> = (0..n).collect();
        if s.chance(1, 3) {
            s.shuffle(&mut ord);
        }
        o.order[i] = ord;
    }
    let seed = s.word();
    // sessions: sometimes differing in one half of the id only
    let sessions: Vec<u128> = match s.below(3) {
        0 => (0..k as u128).map(|i| ((seed as u128) << 64) + i).collect(),
        1 => (0..k as u128).map(|i| (i << 64) + seed as u128).collect(),
        _ => (0..k as u128).map(|i| (seed as u128).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835).wrapping_add(i)).collect(),
    };
    let total = match (mode, kind) {
        (2, _) => s.range(10, 260),
        (_, Kind::Local) => s.range(5, 300),
        _ => s.range(5, 120),
    };
    // with a thread for each direction the queues may overflow, otherwise the sender would wait for itself
    let cap = if mode == 2 { usize::MAX } else { 30 };
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).filter(move |j| *j != i).map(move |j| (i, j))).collect();
    let hot = *s.pick(&pairs);
    let skew = s.chance(1, 2);
    let mut queue: BTreeMap<(usize, usize, usize), Vec<Bytes>> = BTreeMap::new();
    let mut heads: BTreeMap<(usize, usize, usize), usize> = BTreeMap::new();
    let mut seq: BTreeMap<(usize, usize, usize), usize> = BTreeMap::new();
    let mut count: BTreeMap<(usize, usize, usize), (usize, usize)> = BTreeMap::new();
    let mut progs: BTreeMap<(usize, usize, usize, usize), Prog> = BTreeMap::new();
    let mut deepest = 0;
    let mut bytes = 0usize;
    let at = |p: usize, k: usize, peer: usize, sending: usize| match mode {
        0 => (p, 0, 0, 0),
        1 => (p, k, 0, 0),
        _ => (p, k, peer, 1 + sending),
    };
    let want = |count: &BTreeMap<(usize, usize, usize), (usize, usize)>, p: usize, kk: usize| Ev::Stats {
        want: (0..n).filter(|j| *j != p).map(|j| (j, count.get(&(kk, p, j)).copied().unwrap_or((0, 0)))).collect(),
    };
    for _ in 0..total {
        let kk = s.range(0, k - 1);
        let (i, j) = if skew && s.chance(2, 3) { hot } else { *s.pick(&pairs) };
        let open = queue.get(&(kk, i, j)).map_or(0, |q| q.len()) - heads.get(&(kk, i, j)).copied().unwrap_or(0);
        match s.weighted(&[8, 6, if max_frame.is_some() { 1 } else { 0 }, 1, if stats { 3 } else { 0 }, 1]) {
            0 if open < cap => {
                let q = seq.entry((kk, i, j)).or_default();
                let len = size(s, max, mode == 2 || bytes > 3_000_000);
                bytes += len;
                let data = payload(seed, kk, i, j, *q, len);
                *q += 1;
                queue.entry((kk, i, j)).or_default().push(data.clone());
                deepest = deepest.max(open + 1);
                progs.entry(at(i, kk, j, 1)).or_default().push((i, kk, Ev::Send { to: j, data }));
                count.entry((kk, i, j)).or_default().0 += len;
            }
            1 | 0 if open > 0 => {
                let h = heads.entry((kk, i, j)).or_default();
                let data = queue[&(kk, i, j)][*h].clone();
                *h += 1;
                count.entry((kk, j, i)).or_default().1 += data.len();
                progs.entry(at(j, kk, i, 0)).or_default().push((j, kk, Ev::Recv { from: i, data }));
            }
            2 => progs.entry(at(i, kk, j, 1)).or_default().push((i, kk, Ev::TooLong { to: j, len: max + 1 + s.range(0, 3) })),
            3 => progs.entry(at(i, kk, j, 1)).or_default().push((i, kk, Ev::Flush)),
            4 => {
                let w = want(&count, i, kk);
                progs.entry(at(i, kk, j, 1)).or_default().push((i, kk, w))
            }
            5 => progs.entry(at(i, kk, j, s.range(0, 1))).or_default().push((i, kk, Ev::Pause(s.below(1500)))),
            _ => {}
        }
    }
    // one last message on every channel shows whether anything was left over, then everything is received
    for kk in 0..k {
        for &(i, j) in &pairs {
            let q = seq.entry((kk, i, j)).or_default();
            let data = payload(seed, kk, i, j, *q, 24);
            queue.entry((kk, i, j)).or_default().push(data.clone());
            progs.entry(at(i, kk, j, 1)).or_default().push((i, kk, Ev::Send { to: j, data }));
            count.entry((kk, i, j)).or_default().0 += 24;
        }
    }
    let mut rest: Vec<(usize, usize, usize)> = queue.keys().copied().collect();
    s.shuffle(&mut rest);
    for (kk, i, j) in rest {
        for data in queue[&(kk, i, j)].iter().skip(heads.get(&(kk, i, j)).copied().unwrap_or(0)) {
            progs.entry(at(j, kk, i, 0)).or_default().push((j, kk, Ev::Recv { from: i, data: data.clone() }));
            count.entry((kk, j, i)).or_default().1 += data.len();
        }
    }
    let fin: Vec<(usize, usize, Ev)> = (0..n).flat_map(|p| (0..k).map(move |kk| (p, kk))).map(|(p, kk)| (p, kk, want(&count, p, kk))).collect();
    if (n > 2 || k > 1) && deepest > 1 {
        s.nontrivial();
    }
    s.label(format!("{} threads per party", ["1", "1 per network", "2 per peer and network"][mode]));
    s.note(|| format!("{kind:?}: {n} parties, {k} networks, {total} events, mode {mode}, limit {max_frame:?}, up to {deepest} messages under way, {bytes} bytes"));
    let c = cluster(kind, n, k, &o, &sessions)?;
    for (p, v) in c.nets.iter().enumerate() {
        check_eq!(v.len(), k, "number of networks of party {p}");
        for x in v {
            check_eq!(x.id(), p, "id of party {p}'s network");
        }
    }
    let stop = AtomicBool::new(false);
    let out = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for p in progs.values() {
            let (nets, stop, out) = (&c.nets, &stop, &out);
            sc.spawn(move || run_prog(nets, p, stop, out));
        }
    });
    let mut out = out.into_inner().unwrap();
    out.sort_by_key(|f| f.suspect);
    if let Some(f) = out.into_iter().next() {
        return Err(f);
    }
    let out = Mutex::new(vec![]);
    run_prog(&c.nets, &fin, &stop, &out);
    if let Some(f) = out.into_inner().unwrap().into_iter().next() {
        return Err(f);
    }
    Ok(())
}

/// Differences and listings of arbitrary statistics.
fn stats_model(s: &mut Src) -> R {
    let me = s.range(0, 5);
    let n = s.range(0, 6);
    let mut now = BTreeMap::new();
    let mut before = BTreeMap::new();
    let mut want = BTreeMap::new();
    for _ in 0..n {
        let id = s.range(0, 9);
        let (a, b) = (s.big(40).to_u64_digits().first().copied().unwrap_or(0) as usize, s.below(1 << 30) as usize);
        now.insert(id, (a, b));
        before.remove(&id);
        want.insert(id, (a, b));
        if s.bool() {
            let (c, d) = (s.below(a as u64 + 1) as usize, s.below(b as u64 + 1) as usize);
            before.insert(id, (c, d));
            want.insert(id, (a - c, b - d));
        }
    }
    // parties the later statistics do not list leave the others alone
    for id in 0..10 {
        if !now.contains_key(&id) && s.chance(1, 4) {
            before.insert(id, (s.below(1 << 30) as usize, s.below(1 << 30) as usize));
        }
    }
    if n > 1 {
        s.nontrivial();
    }
    let a = ConnectionStats::new(me, now.clone());
    let b = ConnectionStats::new(me, before.clone());
    let got: BTreeMap<_, _> = a.get_diff_to(&b).into_iter().collect();
    check_eq!(got, want, "traffic between {before:?} and {now:?}");
    check_eq!(a.iter().collect::<Vec<_>>(), now.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "listing");
    for id in 0..11 {
        check_eq!(a.get(id), now.get(&id).copied(), "entry {id}");
    }
    let text = a.to_string();
    let lines: Vec<&str> = text.lines().collect();
    check_eq!(lines.len(), now.len(), "lines of {text:?}");
    for (l, (id, (x, y))) in lines.iter().zip(&now) {
        let nums: Vec<usize> = l.split(|c: char| !c.is_ascii_digit()).filter(|t| !t.is_empty()).map(|t| t.parse().unwrap()).collect();
        check_eq!(nums, vec![me, *id, *x, *y], "numbers (party, peer, sent, received) in {l:?}");
    }
    Ok(())
}

/// Traffic between two snapshots of a live network.
fn live_diff(s: &mut Src) -> R {
    let n = s.range(2, 5);
    let nets = mpc_net::local::LocalNetwork::new(n);
    let me = s.range(0, n - 1);
    let mut since: BTreeMap<usize, (usize, usize)> = (0..n).filter(|j| *j != me).map(|j| (j, (0, 0))).collect();
    let rounds = s.range(1, 6);
    let mut last = nets[me].get_connection_stats();
    s.nontrivial();
    for _ in 0..rounds {
        for _ in 0..s.range(0, 8) {
            let j = (me + s.range(1, n - 1)) % n;
            let len = s.range(0, 300);
            let out = s.bool();
            let (a, b) = if out { (me, j) } else { (j, me) };
            nets[a].send(b, Bytes::from(vec![7; len])).map_err(|e| e.to_string())?;
            nets[b].recv(a).map_err(|e| e.to_string())?;
            let e = since.get_mut(&j).unwrap();
            if out { e.0 += len } else { e.1 += len }
        }
        let now = nets[me].get_connection_stats();
        let got: BTreeMap<_, _> = now.get_diff_to(&last).into_iter().collect();
        check_eq!(got, since, "party {me} of {n}: traffic since the last snapshot");
        last = now;
        since.values_mut().for_each(|v| *v = (0, 0));
    }
    Ok(())
}

/// The helpers that run networks in parallel return each closure's result in its place.
fn joins(s: &mut Src) -> R {
    use mpc_net::*;
    let d: Vec<u64> = (0..8).map(|_| s.below(300)).collect();
    let base = s.below(1000) as usize;
    s.nontrivial();
    let f = |i: usize| {
        let us = d[i];
        move || {
            std::thread::sleep(Duration::from_micros(us));
            base + i
        }
    };
    let b = base;
    check_eq!(join(f(0), f(1)), (b, b + 1), "join");
    check_eq!(join3(f(0), f(1), f(2)), (b, b + 1, b + 2), "join3");
    check_eq!(join4(f(0), f(1), f(2), f(3)), (b, b + 1, b + 2, b + 3), "join4");
    check_eq!(join5(f(0), f(1), f(2), f(3), f(4)), (b, b + 1, b + 2, b + 3, b + 4), "join5");
    check_eq!(join6(f(0), f(1), f(2), f(3), f(4), f(5)), (b, b + 1, b + 2, b + 3, b + 4, b + 5), "join6");
    check_eq!(join7(f(0), f(1), f(2), f(3), f(4), f(5), f(6)), (b, b + 1, b + 2, b + 3, b + 4, b + 5, b + 6), "join7");
    check_eq!(join8(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7)), (b, b + 1, b + 2, b + 3, b + 4, b + 5, b + 6, b + 7), "join8");
    // the closures really run side by side: each waits for a message of the next
    let nets = local::LocalNetwork::new_with_timeout(8, Some(Duration::from_secs(10)));
    let ring = |i: usize| {
        let net = &nets[i];
        move || -> eyre::Result<Bytes> {
            net.send((i + 1) % 8, Bytes::from(vec![i as u8]))?;
            net.recv((i + 7) % 8)
        }
    };
    let r = join8(ring(0), ring(1), ring(2), ring(3), ring(4), ring(5), ring(6), ring(7));
    for (i, x) in [r.0, r.1, r.2, r.3, r.4, r.5, r.6, r.7].into_iter().enumerate() {
        let x = x.map_err(|e| Fail::suspect(format!("join8: {e}")))?;
        check_eq!(x.to_vec(), vec![((i + 7) % 8) as u8], "join8 ring, position {i}");
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "N01",
            rule: "at least three parties or two parallel networks, and more than one message under way on a channel",
            assumptions: "loopback; up to 7 parties, 4 networks, 400 kB messages; timing chosen by the scheduler and random pauses",
            subs: vec![
                Sub::new("local", 3_000, 200_000, |s| history(s, Kind::Local, false)).hang(60),
                Sub::new("tcp", 300, 3_000, |s| history(s, Kind::Tcp, false)).hang(60),
                Sub::new("session_blocking", 600, 10_000, |s| history(s, Kind::SessionBlocking, false)).hang(60),
                Sub::new("session", 900, 10_000, |s| history(s, Kind::Session, false)).hang(60),
                Sub::new("tls", 200, 1_500, |s| history(s, Kind::Tls, false)).hang(60),
                Sub::new("quic", 64, 1_000, |s| history(s, Kind::Quic, false)).hang(90),
                Sub::new("joins", 600, 5_000, joins).hang(60),
            ],
        },
        Property {
            id: "N04",
            rule: "at least three parties or two parallel networks, and more than one message under way on a channel",
            assumptions: "snapshots are taken by the thread that sends and receives on that network",
            subs: vec![
                Sub::new("local", 3_000, 200_000, |s| history(s, Kind::Local, true)).hang(60),
                Sub::new("tcp", 200, 2_000, |s| history(s, Kind::Tcp, true)).hang(60),
                Sub::new("session_blocking", 400, 5_000, |s| history(s, Kind::SessionBlocking, true)).hang(60),
                Sub::new("session", 500, 5_000, |s| history(s, Kind::Session, true)).hang(60),
                Sub::new("tls", 120, 800, |s| history(s, Kind::Tls, true)).hang(60),
                Sub::new("quic", 16, 400, |s| history(s, Kind::Quic, true)).hang(90),
                Sub::new("model", 300_000, 2_000_000, stats_model),
                Sub::new("difference", 60_000, 300_000, live_diff),
            ],
        },
    ]
}
