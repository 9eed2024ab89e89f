//! N03: which connection joins what.
use crate::net::*;
use bytes::Bytes;
use engine::*;
use mpc_net::config::{Address, NetworkConfigBuilder, NetworkParty, TlsConfig};
use mpc_net::{Network, tcp_session, tcp_session_blocking};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::TcpStream;
use std::sync::Mutex;
use std::time::Duration;

/// Handlers of either session transport behind one face.
enum Side<'a> {
    Blocking(&'a tcp_session_blocking::TcpNetworkHandler),
    Async(&'a tcp_session::TcpNetworkHandler, &'a tokio::runtime::Runtime, Duration),
}
impl Side<'_> {
    fn init(&self, id: u128) -> eyre::Result<Net> {
        match self {
            Side::Blocking(h) => Ok(Box::new(h.init_session(id)?)),
            Side::Async(h, rt, t) => Ok(Box::new(rt.block_on(async { tokio::time::timeout(*t, h.init_session(id)).await })??)),
        }
    }
}

struct Party {
    blocking: Option<Handlers>,
    hs: Vec<tcp_session::TcpNetworkHandler>,
    rt: Option<tokio::runtime::Runtime>,
    ports: Vec<u16>,
    connect: Duration,
}
impl Party {
    fn new(kind: Kind, n: usize, o: &Opts) -> R<Party> {
        if kind == Kind::SessionBlocking {
            let h = handlers(n, o)?;
            let ports = h.ports.clone();
            return Ok(Party { blocking: Some(h), hs: vec![], rt: None, ports, connect: o.connect });
        }
        let rt = runtime();
        let mut last = String::new();
        for _ in 0..4 {
            let ports: Vec<u16> = (0..n).map(|_| free_port()).collect();
            let hs: eyre::Result<Vec<_>> = (0..n).map(|i| rt.block_on(tcp_session::TcpNetworkHandler::new(session_config(i, &ports, o)))).collect();
            match hs {
                Ok(hs) => return Ok(Party { blocking: None, hs, rt: Some(rt), ports, connect: o.connect }),
                Err(e) => last = format!("{e:#}"),
            }
        }
        Err(Fail::suspect(format!("session handlers: {last}")))
    }
    fn side(&self, i: usize) -> Side<'_> {
        match &self.blocking {
            Some(h) => Side::Blocking(&h.h[i]),
            None => Side::Async(&self.hs[i], self.rt.as_ref().unwrap(), self.connect),
        }
    }
}
impl Drop for Party {
    fn drop(&mut self) {
        self.hs.clear();
        if let Some(rt) = self.rt.take() {
            rt.shutdown_background();
        }
        match self.blocking.take() {
            Some(h) => give_back(h),
            None => close_connections(&self.ports),
        }
    }
}

fn tag(session: u128, from: usize, to: usize, round: usize) -> Bytes {
    Bytes::from([&session.to_be_bytes()[..], &[from as u8, to as u8, round as u8]].concat())
}

#[derive(Clone, Debug)]
enum Bogus {
    /// a session nobody asked for
    Stranger(u128, u64),
    /// a session that exists, under an id nobody waits for
    WrongParty(usize, u64),
    /// part of a handshake, then closed
    Partial(usize),
    /// part of a handshake (perhaps none), then silence with the connection open
    Stuck(usize),
    /// an answer after the handshake that nobody reads
    Chatter(u128),
}

fn ids(s: &mut Src, count: usize) -> Vec<u128> {
    let a = s.word() as u128;
    let b = s.word() as u128;
    let base = (a << 64) | b;
    let mut v = vec![];
    while v.len() < count {
        let i = v.len() as u128;
        let id = match s.below(5) {
            0 => base.wrapping_add(i + 1),
            1 => base.wrapping_add((i + 1) << 64),
            2 => (b << 64) | a | (i << 120),
            3 => base ^ (1 << s.below(128)),
            _ => (s.word() as u128) << 64 | s.word() as u128,
        };
        if !v.contains(&id) {
            v.push(id);
        }
    }
    v
}

/// Many sessions at once, in any order on each side, among bogus connections.
fn sessions(s: &mut Src, kind: Kind) -> R {
    let n = [2, 3, 4, 5, 6][s.weighted(&[5, 5, 5, 2, 1])];
    let count = s.range(1, 6);
    let ids = ids(s, count);
    let mut o = Opts::plain(n);
    // far above what the parties need, so that a wait is a wait for nothing
    o.connect = Duration::from_secs(4);
    o.timeout = Some(Duration::from_secs(4));
    // each party opens its sessions in an order of its own, all at once or one after another
    let together = s.bool();
    let mut plans: Vec<Vec<(usize, u64)>> = vec![];
    for _ in 0..n {
        let mut ord: Vec<usize> = (0..count).collect();
        if together {
            s.shuffle(&mut ord);
        }
        plans.push(ord.into_iter().map(|x| (x, if s.chance(1, 2) { s.below(8000) } else { 0 })).collect());
    }
    let stuck_allowed = s.chance(1, 2);
    let nb = if s.chance(3, 4) { s.range(0, 5) } else { 0 };
    let bogus: Vec<(usize, u64, Bogus)> = (0..nb)
        .map(|_| {
            let to = s.range(0, n - 1);
            let b = match s.below(if stuck_allowed { 5 } else { 4 }) {
                0 => Bogus::Stranger(ids[0] ^ (1 << s.below(128)) ^ (1 << 90), s.below(5)),
                // only higher ids are waited for
                1 => Bogus::WrongParty(s.range(0, count - 1), *s.pick(&[to as u64, 0, n as u64, n as u64 + 3, u64::MAX, (1 << 32) + to as u64 + 1])),
                2 => Bogus::Partial(s.range(0, 23)),
                3 => Bogus::Chatter(ids[0].wrapping_add(0x77 << 100)),
                _ => Bogus::Stuck(s.range(0, 23)),
            };
            let b = match b {
                Bogus::Stranger(i, p) if ids.contains(&i) => Bogus::Stranger(i ^ (0xABC << 100), p),
                Bogus::Chatter(i) if ids.contains(&i) => Bogus::Chatter(i ^ (0xABD << 100)),
                Bogus::WrongParty(i, p) if p as usize > to && (p as usize) < n => Bogus::WrongParty(i, to as u64),
                b => b,
            };
            (to, if s.bool() { 0 } else { s.below(6000) }, b)
        })
        .collect();
    let again = s.chance(1, 3);
    if count > 1 || nb > 0 {
        s.nontrivial();
    }
    for (_, _, b) in &bogus {
        s.label(format!("{b:?}").split('(').next().unwrap().to_string());
    }
    s.note(|| format!("{kind:?}: {n} parties, {count} sessions, together {together}, bogus {bogus:?}"));
    let p = Party::new(kind, n, &o)?;
    for round in 0..if again { 2 } else { 1 } {
        let got: Mutex<BTreeMap<(usize, usize), Net>> = Mutex::new(BTreeMap::new());
        let bad: Mutex<Vec<Fail>> = Mutex::new(vec![]);
        let keep: Mutex<Vec<TcpStream>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for (to, us, b) in &bogus {
                let (keep, port, ids) = (&keep, p.ports[*to], &ids);
                sc.spawn(move || {
                    std::thread::sleep(Duration::from_micros(*us));
                    let Ok(mut st) = TcpStream::connect(("127.0.0.1", port)) else { return };
                    let hello = |id: u128, party: u64| [&id.to_be_bytes()[..], &party.to_be_bytes()[..]].concat();
                    let frame = [&3u64.to_be_bytes()[..], b"bad"].concat();
                    let bytes = match b {
                        Bogus::Stranger(i, p) => [hello(*i, *p), frame].concat(),
                        Bogus::WrongParty(i, p) => [hello(ids[*i], *p), frame].concat(),
                        Bogus::Partial(k) | Bogus::Stuck(k) => hello(ids[0], 1)[..*k].to_vec(),
                        Bogus::Chatter(i) => [hello(*i, 1), vec![0xFF; 4000]].concat(),
                    };
                    let _ = st.write_all(&bytes);
                    if !matches!(b, Bogus::Partial(_)) {
                        keep.lock().unwrap().push(st);
                    }
                });
            }
            for i in 0..n {
                let (p, plan, got, bad, ids) = (&p, &plans[i], &got, &bad, &ids);
                let one = move |x: usize| match p.side(i).init(ids[x]) {
                    Ok(net) => {
                        got.lock().unwrap().insert((i, x), net);
                        true
                    }
                    Err(e) => {
                        bad.lock().unwrap().push(Fail::suspect(format!("{kind:?}, round {round}: party {i} of {n} cannot open session {x} of {count}: {e:#}")));
                        false
                    }
                };
                if together {
                    for &(x, us) in plan {
                        sc.spawn(move || {
                            std::thread::sleep(Duration::from_micros(us));
                            one(x);
                        });
                    }
                } else {
                    sc.spawn(move || {
                        for &(x, us) in plan {
                            std::thread::sleep(Duration::from_micros(us));
                            if !one(x) {
                                break;
                            }
                        }
                    });
                }
            }
        });
        if let Some(f) = bad.into_inner().unwrap().into_iter().next() {
            return Err(f);
        }
        let got = got.into_inner().unwrap();
        for (&(i, x), net) in &got {
            check_eq!(net.id(), i, "{kind:?}: id of party {i} in session {x}");
            for j in 0..n {
                if i != j {
                    net.send(j, tag(ids[x], i, j, round)).map_err(|e| Fail::suspect(format!("{kind:?}: send from {i} to {j} in session {x}: {e:#}")))?;
                }
            }
        }
        for (&(j, x), net) in &got {
            for i in 0..n {
                if i != j {
                    let g = net.recv(i).map_err(|e| Fail::suspect(format!("{kind:?}: receive at {j} from {i} in session {x} of {count}: {e:#}")))?;
                    check!(g == tag(ids[x], i, j, round), "{kind:?}: party {j} receives from {i} in session {x}: {:02x?}, that is not what {i} sent there", &g[..]);
                }
            }
        }
        // sessions end in any order; the ids can be used again
        std::thread::scope(|sc| {
            for (_, net) in got {
                sc.spawn(move || drop(net));
            }
        });
    }
    Ok(())
}

/// A session attempt that was given up does not spoil a later one.
fn given_up(s: &mut Src, kind: Kind) -> R {
    let n = s.range(2, 3);
    let mut o = Opts::plain(n);
    o.connect = Duration::from_millis(700);
    o.timeout = Some(Duration::from_secs(5));
    let id = (s.word() as u128) << 64 | s.word() as u128;
    let early = s.range(0, n - 2);
    s.nontrivial();
    s.label(format!("{kind:?} party {early} of {n} first"));
    let p = Party::new(kind, n, &o)?;
    // party `early` waits for higher ones who do not come in time
    check!(p.side(early).init(id).is_err(), "{kind:?}: party {early} opens a session alone");
    // then everyone comes; the highest ones first, as they have nobody to wait for
    let late_first = s.bool();
    let outs: Vec<(usize, eyre::Result<Net>)> = std::thread::scope(|sc| {
        let mut hs = vec![];
        for i in (0..n).rev() {
            let p = &p;
            hs.push((i, sc.spawn(move || p.side(i).init(id))));
            if late_first {
                std::thread::sleep(Duration::from_millis(30));
            }
        }
        hs.into_iter().map(|(i, h)| (i, h.join().unwrap())).collect()
    });
    let mut nets = BTreeMap::new();
    for (i, x) in outs {
        nets.insert(i, x.map_err(|e| Fail::suspect(format!("{kind:?}: party {early} of {n} gave up once; now all parties ask for the session, and party {i} fails: {e:#}")))?);
    }
    // with three parties an attempt of the middle one has already connected to party 0 and its connection may be
    // the one found first: only a pair of which neither gave up, or two parties, must be able to talk at once
    if early == 0 {
        for (i, net) in &nets {
            for j in 0..n {
                if j != *i {
                    net.send(j, tag(id, *i, j, 0)).map_err(|e| Fail::suspect(format!("{kind:?}: send after a session was given up: {e:#}")))?;
                }
            }
        }
        for (j, net) in &nets {
            for i in 0..n {
                if i != *j {
                    let g = net.recv(i).map_err(|e| Fail::suspect(format!("{kind:?}: receive at {j} from {i} after a session was given up: {e:#}")))?;
                    check!(g == tag(id, i, *j, 0), "{kind:?}: message after a session was given up");
                }
            }
        }
    }
    std::thread::scope(|sc| {
        for (_, net) in nets {
            sc.spawn(move || drop(net));
        }
    });
    Ok(())
}

/// Connections nobody claims are kept for a while and dropped after that.
fn unclaimed(s: &mut Src, kind: Kind) -> R {
    let mut o = Opts::plain(2);
    o.connect = Duration::from_secs(5);
    o.timeout = Some(Duration::from_secs(5));
    s.nontrivial();
    let idle = Duration::from_millis(1000);
    let port = free_port();
    let ports = [port, free_port()];
    let rt = runtime();
    enum H {
        A(tcp_session::TcpNetworkHandler),
        B(tcp_session_blocking::TcpNetworkHandler),
    }
    let h = if kind == Kind::Session {
        let mut c = session_config(0, &ports, &o);
        c.time_to_idle = idle;
        H::A(rt.block_on(tcp_session::TcpNetworkHandler::new(c)).map_err(|e| Fail::suspect(e.to_string()))?)
    } else {
        let mut c = blocking_config(0, &ports, &o);
        c.time_to_idle = idle;
        H::B(tcp_session_blocking::TcpNetworkHandler::new(c).map_err(|e| Fail::suspect(e.to_string()))?)
    };
    let t0 = std::time::Instant::now();
    let (old, new) = (s.word() as u128, (s.word() as u128) << 64 | 5);
    let open = |id: u128| -> R<TcpStream> {
        let mut st = TcpStream::connect(("127.0.0.1", port)).map_err(|e| Fail::suspect(e.to_string()))?;
        st.write_all(&[&id.to_be_bytes()[..], &1u64.to_be_bytes()[..], &2u64.to_be_bytes()[..], b"hi"].concat()).map_err(|e| Fail::suspect(e.to_string()))?;
        Ok(st)
    };
    let mut a = open(old)?;
    // the cleanup comes around every second idle time
    std::thread::sleep(Duration::from_millis(1750));
    let _b = open(new)?;
    std::thread::sleep(Duration::from_millis(500));
    let net: Net = match &h {
        H::A(h) => Box::new(
            rt.block_on(async { tokio::time::timeout(Duration::from_secs(5), h.init_session(new)).await })
                .map_err(|_| Fail::suspect(format!("{kind:?}: a connection made {:?} ago is not found", Duration::from_millis(500))))?
                .map_err(|e| Fail::suspect(format!("{kind:?}: a connection made half a second ago, idle time {idle:?}: {e:#}")))?,
        ),
        H::B(h) => Box::new(h.init_session(new).map_err(|e| Fail::suspect(format!("{kind:?}: a connection made half a second ago, idle time {idle:?}: {e:#}")))?),
    };
    let g = net.recv(1).map_err(|e| Fail::suspect(format!("{kind:?}: a connection made before the session was asked for: {e:#}")))?;
    check!(&g[..] == b"hi", "{kind:?}: message on it: {g:?}");
    let _ = a.set_read_timeout(Some(Duration::from_secs(4)));
    let mut buf = [0u8; 1];
    match a.read(&mut buf) {
        Ok(0) => {}
        Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => {}
        x => return Err(Fail::suspect(format!("{kind:?}: a connection unclaimed for {:?} is still open ({x:?}), idle time {idle:?}", t0.elapsed()))),
    }
    drop(net);
    close_connections(&ports);
    drop(h);
    rt.shutdown_background();
    Ok(())
}

/// Parallel networks and parties of the transports without sessions, from shuffled party lists and staggered starts.
fn indexed(s: &mut Src, kind: Kind) -> R {
    let n = [2, 3, 4, 5, 6][s.weighted(&[5, 5, 5, 2, 1])];
    let k = s.range(1, 4);
    let mut o = Opts::plain(n);
    for i in 0..n {
        o.delays[i] = Duration::from_millis(if s.bool() { 0 } else { s.below(25) });
        let mut ord: Vec<usize> = (0..n).collect();
        s.shuffle(&mut ord);
        o.order[i] = ord;
    }
    if k > 1 || n > 2 {
        s.nontrivial();
    }
    s.label(format!("{n} parties {k} networks"));
    let c = cluster(kind, n, k, &o, &[])?;
    let id = s.word() as u128;
    let order: Vec<usize> = {
        let mut v: Vec<usize> = (0..n * k).collect();
        s.shuffle(&mut v);
        v
    };
    for &x in &order {
        let (i, kk) = (x / k, x % k);
        check_eq!(c.nets[i][kk].id(), i, "{kind:?}: id");
        for j in 0..n {
            if i != j {
                c.nets[i][kk].send(j, tag(id + kk as u128, i, j, kk)).map_err(|e| Fail::suspect(format!("{kind:?}: send: {e:#}")))?;
            }
        }
    }
    for &x in order.iter().rev() {
        let (j, kk) = (x / k, x % k);
        for i in 0..n {
            if i != j {
                let g = c.nets[j][kk].recv(i).map_err(|e| Fail::suspect(format!("{kind:?}: network {kk}: receive at {j} from {i}: {e:#}")))?;
                check!(g == tag(id + kk as u128, i, j, kk), "{kind:?}: network {kk}: party {j} receives from {i} what was sent elsewhere: {:02x?}", &g[16.min(g.len())..]);
            }
        }
    }
    Ok(())
}

/// Over TLS and QUIC, a party that cannot show one of the configured certificates, for the name it was asked under,
/// is not joined.
fn imposter(s: &mut Src, kind: Kind) -> R {
    use rustls::pki_types::{PrivateKeyDer, PrivatePkcs8KeyDer};
    let n = s.range(2, 3);
    // over TLS parties with lower ids connect to those with higher ids, over QUIC the other way round
    let (me, server) = if kind == Kind::Tls { (s.range(0, n - 2), n - 1) } else { (n - 1, s.range(0, n - 2)) };
    let mut o = Opts::plain(n);
    o.connect = Duration::from_millis(1500);
    let ports: Vec<u16> = (0..n).map(|_| free_port()).collect();
    provider();
    let wrong_name = s.bool();
    let other = |name: &str| rcgen::generate_simple_self_signed([name.to_string()]).unwrap();
    let honest: Vec<_> = (0..n).map(|_| other("127.0.0.1")).collect();
    let false_key = other(if wrong_name { "127.0.0.2" } else { "127.0.0.1" });
    let mut certs: Vec<_> = honest.iter().map(|k| k.cert.der().clone()).collect();
    if wrong_name {
        certs[server] = false_key.cert.der().clone(); // known, but made out to somebody else
    }
    let config = |id: usize, key: &rcgen::CertifiedKey, certs: &[rustls::pki_types::CertificateDer<'static>]| {
        let parties = (0..n).map(|i| NetworkParty::new(i, Address::new("127.0.0.1".into(), ports[i]))).collect();
        NetworkConfigBuilder::new(id, std::net::SocketAddr::from(([127, 0, 0, 1], ports[id])), parties)
            .connect_timeout(o.connect)
            .flush_timeout(Duration::from_secs(5))
            .tls_config(TlsConfig::new(PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(key.key_pair.serialize_der())), certs.to_vec()))
            .build()
    };
    s.nontrivial();
    s.note(|| format!("{kind:?}: {n} parties, party {server} shows party {me} a certificate {}", if wrong_name { "made out to another host" } else { "nobody knows" }));
    let mut theirs = certs.clone();
    theirs[server] = false_key.cert.der().clone();
    let mine = config(me, &honest[me], &certs);
    let bad = config(server, &false_key, &theirs);
    std::thread::spawn(move || drop(nets(kind, 1, bad)));
    // the others in between come with what is configured
    for i in (0..n).filter(|i| *i != me && *i != server) {
        let c = config(i, &honest[i], &certs);
        std::thread::spawn(move || drop(nets(kind, 1, c)));
    }
    let got = nets(kind, 1, mine);
    check!(got.is_err(), "{kind:?}: party {me} joins a party {server} whose certificate is {}", if wrong_name { "made out to another host" } else { "not among the configured ones" });
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "N03",
        rule: "more than one session, network or pair of parties, or a bogus connection",
        assumptions: "loopback; up to 4 parties, 6 sessions at once, 5 bogus connections; no impersonation of a party that a session waits for (the protocol has no authentication without TLS)",
        subs: vec![
            Sub::new("sessions", 800, 15_000, |s| sessions(s, Kind::Session)).hang(60),
            Sub::new("sessions_blocking", 400, 15_000, |s| sessions(s, Kind::SessionBlocking)).hang(60),
            Sub::new("given_up", 24, 400, |s| given_up(s, Kind::Session)).hang(60),
            Sub::new("given_up_blocking", 24, 400, |s| given_up(s, Kind::SessionBlocking)).hang(60),
            Sub::new("unclaimed", 8, 32, |s| unclaimed(s, Kind::Session)).hang(60),
            Sub::new("unclaimed_blocking", 8, 32, |s| unclaimed(s, Kind::SessionBlocking)).hang(60),
            Sub::new("tcp", 300, 3_000, |s| indexed(s, Kind::Tcp)).hang(60),
            Sub::new("tls", 200, 1_500, |s| indexed(s, Kind::Tls)).hang(60),
            Sub::new("quic", 24, 400, |s| indexed(s, Kind::Quic)).hang(90),
            Sub::new("tls_imposter", 60, 300, |s| imposter(s, Kind::Tls)).hang(60),
            Sub::new("quic_imposter", 32, 200, |s| imposter(s, Kind::Quic)).hang(60),
        ],
    }]
}
