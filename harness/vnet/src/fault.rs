//! N02: peers that fragment, announce, cut, stay silent or vanish.
use crate::net::*;
use bytes::Bytes;
use engine::*;
use mpc_net::{Network, local::LocalNetwork, tcp, tcp_session, tcp_session_blocking};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    /// after the last complete frame
    Close,
    /// after this many bytes of a header
    CutHeader(usize),
    /// a header for `len` bytes and then this many of them
    CutPayload(usize, usize),
    /// a frame above the limit
    TooLong(u64),
    /// nothing more, connection open
    Silent,
    /// part of a frame, then nothing more, connection open
    SilentInside(usize, usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Target {
    SessionBlocking,
    Session,
    Tcp,
    Handler,
}

struct Made {
    net: Option<Box<dyn Network>>,
    raw: Option<TcpStream>,
    ports: Vec<u16>,
    rt: Option<tokio::runtime::Runtime>,
    handlers: Option<Handlers>,
}
impl Drop for Made {
    fn drop(&mut self) {
        if let Some(r) = self.raw.take() {
            let _ = r.shutdown(std::net::Shutdown::Both);
        }
        if let Some(h) = &self.handlers {
            close_connections(&h.ports);
        } else {
            close_connections(&self.ports);
        }
        self.net = None;
        if let Some(rt) = self.rt.take() {
            rt.shutdown_background();
        }
        if let Some(h) = self.handlers.take() {
            give_back(h);
        }
    }
}

fn io<T>(r: std::io::Result<T>) -> R<T> {
    r.map_err(|e| Fail::suspect(format!("harness: {e}")))
}

/// A network of party `me` with one peer played by this harness; `first` is what the peer writes together with
/// its handshake where there is one. Returns the network and the peer's end of the connection.
fn make(t: Target, me: usize, peer: usize, max: usize, timeout: Option<Duration>, start: Duration, first: &[u8]) -> R<Made> {
    let ft = Some(Duration::from_secs(12));
    match t {
        Target::SessionBlocking | Target::Session => {
            let l = io(TcpListener::bind("127.0.0.1:0"))?;
            let port = io(l.local_addr())?.port();
            let mut raw = io(TcpStream::connect(("127.0.0.1", port)))?;
            let (st, _) = io(l.accept())?;
            io(st.set_nodelay(true))?;
            io(st.set_write_timeout(timeout))?;
            io(raw.set_nodelay(true))?;
            io(raw.write_all(first))?;
            let mut rt = None;
            let net: Box<dyn Network> = if t == Target::SessionBlocking {
                Box::new(tcp_session_blocking::TcpNetwork::new(me, HashMap::from([(peer, st)]), max, timeout, ft).map_err(|e| e.to_string())?)
            } else {
                io(st.set_nonblocking(true))?;
                let r = runtime();
                let net = r.block_on(async {
                    let st = tokio::net::TcpStream::from_std(st).map_err(|e| e.to_string())?;
                    tcp_session::TcpNetwork::new(me, HashMap::from([(peer, st)]), max, timeout, ft).map_err(|e| e.to_string())
                })?;
                rt = Some(r);
                Box::new(net)
            };
            Ok(Made { net: Some(net), raw: Some(raw), ports: vec![port], rt, handlers: None })
        }
        Target::Tcp => {
            // two parties; the peer is party 0 and connects, or party 1 and is connected to
            let (me, peer) = (me.min(1), 1 - me.min(1));
            let ports = vec![free_port(), free_port()];
            let mut o = Opts::plain(2);
            o.max_frame = Some(max);
            o.timeout = timeout;
            o.connect = start;
            let c = configs(2, &ports, &o, false).swap_remove(me);
            let listener = if peer == 1 { Some(io(TcpListener::bind(SocketAddr::from(([127, 0, 0, 1], ports[1]))))?) } else { None };
            let h = std::thread::spawn(move || tcp::TcpNetwork::new(c));
            let raw = if let Some(l) = listener {
                let (mut raw, _) = io(l.accept())?;
                let mut hs = [0u8; 16];
                io(raw.read_exact(&mut hs))?;
                check_eq!(hs.to_vec(), [0u64.to_be_bytes(), 0u64.to_be_bytes()].concat(), "what party 0 says about itself");
                io(raw.set_nodelay(true))?;
                io(raw.write_all(first))?;
                raw
            } else {
                let t0 = Instant::now();
                let mut raw = loop {
                    match TcpStream::connect(("127.0.0.1", ports[me])) {
                        Ok(r) => break r,
                        Err(e) if t0.elapsed() > start => return Err(Fail::suspect(format!("harness: cannot connect: {e}"))),
                        Err(_) => std::thread::sleep(Duration::from_micros(300)),
                    }
                };
                io(raw.set_nodelay(true))?;
                let mut hello = [0u64.to_be_bytes(), 0u64.to_be_bytes()].concat();
                hello.extend(first);
                io(raw.write_all(&hello))?;
                raw
            };
            let net = h.join().map_err(|_| "setup panics".to_string())?.map_err(|e| Fail::suspect(format!("setup: {e:#}")))?;
            Ok(Made { net: Some(Box::new(net)), raw: Some(raw), ports, rt: None, handlers: None })
        }
        Target::Handler => {
            let mut o = Opts::plain(2);
            o.max_frame = Some(max);
            o.timeout = timeout;
            o.connect = start;
            let hs = handlers(2, &o)?;
            let mut raw = io(TcpStream::connect(("127.0.0.1", hs.ports[0])))?;
            io(raw.set_nodelay(true))?;
            let sid = (std::process::id() as u128) << 64 | free_port() as u128;
            let mut hello = [&sid.to_be_bytes()[..], &1u64.to_be_bytes()[..]].concat();
            hello.extend(first);
            io(raw.write_all(&hello))?;
            let net = hs.h[0].init_session(sid).map_err(|e| Fail::suspect(format!("init_session: {e:#}")))?;
            Ok(Made { net: Some(Box::new(net)), raw: Some(raw), ports: vec![], rt: None, handlers: Some(hs) })
        }
    }
}
fn peer_of(t: Target, me: usize, peer: usize) -> usize {
    match t {
        Target::Tcp => 1 - me.min(1),
        Target::Handler => 1,
        _ => peer,
    }
}

fn incoming(s: &mut Src) -> R {
    let t = *s.pick(&[Target::SessionBlocking, Target::SessionBlocking, Target::Session, Target::Tcp, Target::Handler]);
    let (me, peer) = *s.pick(&[(0, 1), (1, 0), (2, 7), (5, 0)]);
    let max = *s.pick(&[1usize, 20, 1000, 65536, 70_000, 150_000]);
    let nframes = s.range(0, if max > 10_000 { 5 } else { 12 });
    let seed = s.word();
    let frames: Vec<Bytes> = (0..nframes)
        .map(|q| {
            let len = match s.weighted(&[2, 4, 2, 2]) {
                0 => 0,
                1 => s.range(1, 30),
                2 => max - s.range(0, 1),
                _ => s.range(0, max),
            }
            .min(max);
            payload(seed, 0, 0, 1, q, len)
        })
        .collect();
    let end = match s.below(6) {
        0 => End::Close,
        1 => End::CutHeader(s.range(1, 7)),
        2 => {
            let l = s.range(1, max);
            End::CutPayload(l, s.range(0, l - 1))
        }
        3 => End::TooLong(match s.below(5) {
            0 => max as u64 + 1,
            1 => u64::MAX - s.below(10),
            2 => 1 << s.range(31, 63),
            3 => (max as u64 + 1) << s.range(8, 40),
            _ => (1 << 63) + s.below(100),
        }),
        4 => End::Silent,
        _ => {
            let l = s.range(1, max);
            End::SilentInside(l, s.range(0, l - 1))
        }
    };
    let silent = matches!(end, End::Silent | End::SilentInside(..));
    // pause of a live but slow peer, longer than the setup timeout and shorter than the receive timeout
    let slow = s.chance(1, 12);
    let start = if slow { Duration::from_millis(400) } else { Duration::from_secs(5) };
    let timeout = if silent && !slow {
        Some(Duration::from_millis(s.range(120, 300) as u64))
    } else if s.chance(1, 3) && !silent {
        None
    } else {
        Some(Duration::from_secs(6))
    };
    let silent = silent && !slow;
    let end = if slow && matches!(end, End::Silent | End::SilentInside(..)) { End::Close } else { end };
    let mut stream: Vec<u8> = vec![];
    for f in &frames {
        stream.extend((f.len() as u64).to_be_bytes());
        stream.extend(&f[..]);
    }
    let complete = stream.len();
    match end {
        End::CutHeader(k) => stream.extend(&(max as u64 / 2).to_be_bytes()[..k]),
        End::CutPayload(l, k) | End::SilentInside(l, k) => {
            stream.extend((l as u64).to_be_bytes());
            stream.extend(vec![0xAB; k]);
        }
        End::TooLong(l) => {
            stream.extend(l.to_be_bytes());
            // what follows looks like frames of its own
            for _ in 0..3 {
                stream.extend(1u64.to_be_bytes());
                stream.push(0xCC);
            }
        }
        _ => {}
    }
    // cut the stream into pieces
    let mut pieces: Vec<Vec<u8>> = vec![];
    let mut rest = &stream[..];
    let style = s.below(4);
    while !rest.is_empty() {
        let k = match style {
            0 => rest.len(),
            1 => s.range(1, 9),
            2 => s.range(1, 200),
            _ => s.range(1, 70_000),
        }
        .min(rest.len());
        let k = if pieces.len() > 200 { rest.len() } else { k };
        pieces.push(rest[..k].to_vec());
        rest = &rest[k..];
    }
    let with_hello = if s.bool() && !pieces.is_empty() && pieces[0].len() < 60_000 { pieces.remove(0) } else { vec![] };
    let pauses: Vec<u64> = pieces.iter().map(|_| if s.chance(1, 6) { s.below(1200) } else { 0 }).collect();
    if nframes > 0 && (pieces.len() > 1 || end != End::Close) {
        s.nontrivial();
    }
    s.label(format!("{t:?} {}", format!("{end:?}").split('(').next().unwrap()));
    s.note(|| format!("{t:?} limit {max}: {nframes} frames, {} bytes in {} pieces, end {end:?}, slow {slow}, timeout {timeout:?}", stream.len(), pieces.len() + 1));
    let m = make(t, me, peer, max, timeout, start, &with_hello)?;
    let peer = peer_of(t, me, peer);
    let mut w = io(m.raw.as_ref().unwrap().try_clone())?;
    let net = m.net.as_ref().unwrap();
    let res: R = std::thread::scope(|sc| {
        sc.spawn(move || {
            if slow {
                std::thread::sleep(Duration::from_millis(900));
            }
            for (p, us) in pieces.iter().zip(pauses) {
                if us > 0 {
                    std::thread::sleep(Duration::from_micros(us));
                }
                if w.write_all(p).is_err() {
                    return;
                }
            }
            if !silent && !matches!(end, End::TooLong(_)) {
                let _ = w.shutdown(std::net::Shutdown::Write);
            }
        });
        for (q, f) in frames.iter().enumerate() {
            match net.recv(peer) {
                Ok(g) => check!(g == *f, "message {q} of {nframes}: {} (sent {} bytes in pieces, then {end:?})", differ(&g, f), stream.len()),
                Err(e) if timeout.is_some_and(|t| t < Duration::from_secs(1)) => return Err(Fail::suspect(format!("message {q} of {nframes}, completely sent, is not received: {e:#}"))),
                Err(e) => fail!("message {q} of {nframes}, completely sent ({complete} bytes before {end:?}), is not received: {e:#}"),
            }
        }
        let t0 = Instant::now();
        match net.recv(peer) {
            Ok(g) => fail!("receive returns {} bytes although the peer sent no further complete message ({end:?})", g.len()),
            Err(_) => {
                let d = t0.elapsed();
                if silent {
                    let t = timeout.unwrap();
                    check!(d + Duration::from_millis(15) > t, "receive gives up after {d:?}, the timeout is {t:?}");
                    if d > t + Duration::from_secs(4) {
                        return Err(Fail::suspect(format!("receive gives up only after {d:?}, the timeout is {t:?}")));
                    }
                } else if d > Duration::from_secs(4) {
                    return Err(Fail::suspect(format!("{end:?} is noticed only after {d:?}")));
                }
            }
        }
        // and it stays an error
        if !silent {
            for _ in 0..2 {
                if let Ok(g) = net.recv(peer) {
                    fail!("after {end:?} was reported, receive returns {} bytes", g.len());
                }
            }
        }
        let st = net.get_connection_stats();
        check_eq!(st.get(peer), Some((0, frames.iter().map(|f| f.len()).sum())), "traffic counted after {end:?}");
        Ok(())
    });
    res
}

/// What arrives at the peer, sends above the limit, unknown parties.
fn outgoing(s: &mut Src) -> R {
    let t = *s.pick(&[Target::SessionBlocking, Target::SessionBlocking, Target::Session, Target::Tcp, Target::Handler]);
    let (me, peer) = *s.pick(&[(0, 1), (1, 0), (2, 7), (5, 0)]);
    let max = *s.pick(&[0usize, 1, 20, 1000, 65536, 300_000]);
    let n = s.range(1, 25);
    let seed = s.word();
    let mut want: Vec<Bytes> = vec![];
    let mut acts: Vec<Option<Bytes>> = vec![];
    let mut total = 0;
    for q in 0..n {
        let len = match s.weighted(&[2, 4, 2, 2]) {
            0 => 0,
            1 => s.range(0, 30).min(max),
            2 => max,
            _ => s.range(0, max),
        };
        let len = if total > 2_000_000 { len.min(100) } else { len };
        total += len;
        if s.chance(1, 5) {
            acts.push(None);
        } else {
            let d = payload(seed, 0, 0, 1, q, len);
            want.push(d.clone());
            acts.push(Some(d));
        }
    }
    let strangers: Vec<usize> = (0..3).map(|_| *s.pick(&[3usize, 4, 64, 1 << 20, usize::MAX, usize::MAX / 2])).collect();
    let over = s.range(1, 5);
    let slow = s.chance(1, 4);
    if want.len() > 1 {
        s.nontrivial();
    }
    s.label(format!("{t:?}"));
    s.note(|| format!("{t:?} limit {max}: {} messages, {total} bytes, slow reader {slow}", want.len()));
    let m = make(t, me, peer, max, Some(Duration::from_secs(6)), Duration::from_secs(5), &[])?;
    let peer = peer_of(t, me, peer);
    let net = m.net.as_ref().unwrap();
    let mut r = io(m.raw.as_ref().unwrap().try_clone())?;
    io(r.set_read_timeout(Some(Duration::from_secs(6))))?;
    let expect: Vec<u8> = want.iter().flat_map(|f| [&(f.len() as u64).to_be_bytes()[..], &f[..]].concat()).collect();
    std::thread::scope(|sc| {
        let want_len = expect.len();
        let h = sc.spawn(move || -> std::io::Result<Vec<u8>> {
            let mut got = vec![0; want_len];
            let mut at = 0;
            while at < want_len {
                if slow && at < 5000 {
                    std::thread::sleep(Duration::from_micros(300));
                }
                let end = if slow { (at + 700).min(want_len) } else { want_len };
                let k = r.read(&mut got[at..end])?;
                if k == 0 {
                    break;
                }
                at += k;
            }
            got.truncate(at);
            Ok(got)
        });
        for a in &acts {
            match a {
                Some(d) => net.send(peer, d.clone()).map_err(|e| Fail::suspect(format!("send of {} bytes, limit {max}: {e:#}", d.len())))?,
                None => check!(net.send(peer, Bytes::from(vec![0xEE; max + over])).is_err(), "send of {} bytes is accepted, the limit is {max}", max + over),
            }
        }
        for &x in &strangers {
            check!(net.send(x, Bytes::from(vec![])).is_err(), "send to unknown party {x} is accepted");
            check!(net.recv(x).is_err(), "receive from unknown party {x} succeeds");
        }
        let own = net.id();
        check!(net.send(own, Bytes::from(vec![])).is_err(), "send to oneself is accepted");
        check!(net.recv(own).is_err(), "receive from oneself succeeds");
        net.flush().map_err(|e| Fail::suspect(format!("flush: {e:#}")))?;
        let got = h.join().unwrap().map_err(|e| Fail::suspect(format!("the peer waits for data that was sent and flushed: {e}")))?;
        check!(got == expect, "the peer reads something else than the messages sent: {}", differ(&got, &expect));
        let st = net.get_connection_stats();
        check_eq!(st.iter().collect::<Vec<_>>(), vec![(peer, (want.iter().map(|f| f.len()).sum::<usize>(), 0))], "traffic counted");
        Ok(())
    })
}

/// A peer that vanishes: sends fail sooner or later, and flush says so; what was received before is still there.
fn vanished(s: &mut Src) -> R {
    let t = *s.pick(&[Target::SessionBlocking, Target::Session, Target::Tcp, Target::Handler]);
    let (me, peer) = *s.pick(&[(0, 1), (1, 0), (2, 7)]);
    let k = s.range(0, 20);
    let frames: Vec<Bytes> = (0..k).map(|q| payload(1, 0, 0, 1, q, s.range(0, 50))).collect();
    let enc: Vec<u8> = frames.iter().flat_map(|f| [&(f.len() as u64).to_be_bytes()[..], &f[..]].concat()).collect();
    s.nontrivial();
    s.label(format!("{t:?}"));
    s.note(|| format!("{t:?} {k} frames before the end"));
    let mut m = make(t, me, peer, 1000, Some(Duration::from_secs(4)), Duration::from_secs(5), &enc)?;
    let peer = peer_of(t, me, peer);
    let raw = m.raw.take();
    let net = m.net.as_ref().unwrap();
    // frames have arrived once the first is there
    let mut got = vec![];
    if k > 0 {
        got.push(net.recv(peer).map_err(|e| Fail::suspect(format!("first message: {e:#}")))?);
        std::thread::sleep(Duration::from_millis(5));
    }
    drop(raw);
    let t0 = Instant::now();
    let mut refused = false;
    while t0.elapsed() < Duration::from_secs(5) {
        if net.send(peer, Bytes::from(vec![1; 500])).is_err() || net.flush().is_err() {
            refused = true;
            break;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    if !refused {
        return Err(Fail::suspect("sends and flushes to a vanished peer succeed for 5 s"));
    }
    if t0.elapsed() > Duration::from_secs(6) {
        return Err(Fail::suspect(format!("{t:?}: send and flush to a vanished peer wait for {:?} (the flush timeout is 12 s or more) before they report it", t0.elapsed())));
    }
    check!(net.flush().is_err() || net.send(peer, Bytes::new()).is_err(), "after the failure was reported, send and flush succeed");
    while got.len() < k {
        match net.recv(peer) {
            Ok(f) => got.push(f),
            Err(e) => return Err(Fail::suspect(format!("message {} of {k}, received before the peer vanished, is gone: {e:#}", got.len()))),
        }
    }
    check!(got == frames, "messages received before the peer vanished differ");
    check!(net.recv(peer).is_err(), "receive from a vanished peer succeeds");
    Ok(())
}

/// The in-process network with vanished and silent parties and full queues.
fn in_process(s: &mut Src) -> R {
    let n = s.range(2, 5);
    let timeout = Duration::from_millis(s.range(40, 120) as u64);
    let bounded = s.chance(2, 3);
    let mut nets: Vec<Option<LocalNetwork>> = LocalNetwork::new_with_timeout(n, bounded.then_some(timeout)).into_iter().map(Some).collect();
    let me = s.range(0, n - 1);
    let peer = (me + s.range(1, n - 1)) % n;
    let k = s.range(0, 20);
    s.nontrivial();
    s.note(|| format!("{n} parties, timeout {timeout:?} {bounded}, {k} messages"));
    let msgs: Vec<Bytes> = (0..k).map(|q| payload(3, 0, peer, me, q, s.range(0, 30))).collect();
    for m in &msgs {
        nets[peer].as_ref().unwrap().send(me, m.clone()).map_err(|e| e.to_string())?;
    }
    let gone = s.bool() || !bounded;
    if gone {
        nets[peer] = None;
    }
    let net = nets[me].as_ref().unwrap();
    for (q, m) in msgs.iter().enumerate() {
        let g = net.recv(peer).map_err(|e| Fail::from(format!("message {q} of {k}, sent before, is not received: {e:#}")))?;
        check!(g == *m, "message {q}: {}", differ(&g, m));
    }
    let t0 = Instant::now();
    check!(net.recv(peer).is_err(), "receive without a message succeeds");
    let d = t0.elapsed();
    if !gone {
        check!(d + Duration::from_millis(5) > timeout, "receive gives up after {d:?}, the timeout is {timeout:?}");
    }
    if d > timeout + Duration::from_secs(3) {
        return Err(Fail::suspect(format!("receive gives up only after {d:?}")));
    }
    if gone {
        check!(net.send(peer, Bytes::from(vec![1])).is_err(), "send to a vanished party succeeds");
    } else {
        // nobody receives: the queue fills and then send is an error, and nothing accepted is lost
        let mut sent = 0usize;
        let t0 = Instant::now();
        while sent < 10_000 && net.send(peer, Bytes::from(vec![sent as u8; 3])).is_ok() {
            sent += 1;
        }
        check!(t0.elapsed() < Duration::from_secs(20), "send to a party that never receives takes {:?}", t0.elapsed());
        let other = nets[peer].as_ref().unwrap();
        for q in 0..sent.min(10_000) {
            let g = other.recv(me).map_err(|e| Fail::from(format!("message {q} of {sent} accepted is not received: {e:#}")))?;
            check!(g == vec![q as u8; 3], "message {q} of {sent} accepted: {:?}", &g[..]);
        }
        check!(other.recv(me).is_err(), "a message whose send failed arrives");
        // and the channel works on
        net.send(peer, Bytes::from(vec![9; 4])).map_err(|e| e.to_string())?;
        check!(other.recv(me).map_err(|e| e.to_string())? == vec![9; 4], "message after the queue was emptied");
    }
    for x in [me, n, n + 7, usize::MAX] {
        check!(net.send(x, Bytes::new()).is_err(), "send to party {x} of {n} from {me} succeeds");
        check!(net.recv(x).is_err(), "receive from party {x} of {n} at {me} succeeds");
    }
    Ok(())
}

/// Whole clusters: a pause longer than the setup timeout breaks nothing; a silent party is noticed; after one
/// party leaves, the others learn of it or time out, and go on among themselves.
fn quiet_cluster(s: &mut Src) -> R {
    let kind = *s.pick(&[Kind::Tcp, Kind::SessionBlocking, Kind::Session, Kind::Tls, Kind::Quic]);
    let n = s.range(2, 3);
    let mut o = Opts::plain(n);
    o.connect = Duration::from_millis(1300);
    let t = s.range(300, 600) as u64;
    // the silent party is waited for this long
    o.timeout = Some(Duration::from_millis(2000 + t));
    let sessions = [s.word() as u128 | (1 << 100)];
    s.nontrivial();
    s.label(format!("{kind:?}"));
    let c = cluster(kind, n, 1, &o, &sessions)?;
    std::thread::sleep(Duration::from_millis(1500));
    let ping = |tag: u8| -> R {
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    c.nets[i][0].send(j, Bytes::from(vec![tag, i as u8, j as u8])).map_err(|e| Fail::suspect(format!("{kind:?}: send after a pause: {e:#}")))?;
                }
            }
        }
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    let g = c.nets[j][0].recv(i).map_err(|e| Fail::suspect(format!("{kind:?}: receive after a pause: {e:#}")))?;
                    check!(g == vec![tag, i as u8, j as u8], "{kind:?}: message from {i} to {j} after a pause: {:?}", &g[..]);
                }
            }
        }
        Ok(())
    };
    ping(1)?;
    let t0 = Instant::now();
    let want = o.timeout.unwrap();
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let net = &c.nets[i][0];
                sc.spawn(move || (net.recv((i + 1) % n).is_err(), t0.elapsed()))
            })
            .collect();
        for (i, h) in hs.into_iter().enumerate() {
            let (err, d) = h.join().unwrap();
            check!(err, "{kind:?}: party {i} receives a message nobody sent");
            check!(d + Duration::from_millis(30) > want, "{kind:?}: party {i} gives up after {d:?}, the timeout is {want:?}");
            if d > want + Duration::from_secs(4) {
                return Err(Fail::suspect(format!("{kind:?}: party {i} gives up only after {d:?}, the timeout is {want:?}")));
            }
        }
        Ok(())
    })?;
    ping(2)
}

/// Setup with a party that never comes is an error, in time.
fn absent(s: &mut Src) -> R {
    let kind = *s.pick(&[Kind::Tcp, Kind::SessionBlocking, Kind::Tls, Kind::Quic]);
    let n = s.range(2, 3);
    let me = s.range(0, n - 1);
    let ports: Vec<u16> = (0..n).map(|_| free_port()).collect();
    let mut o = Opts::plain(n);
    o.connect = Duration::from_millis(s.range(150, 400) as u64);
    s.nontrivial();
    s.label(format!("{kind:?} party {me}"));
    let t0 = Instant::now();
    let ok = match kind {
        Kind::Tcp => tcp::TcpNetwork::new(configs(n, &ports, &o, false).swap_remove(me)).is_ok(),
        Kind::Tls => mpc_net::tls::TlsNetwork::new(configs(n, &ports, &o, true).swap_remove(me)).is_ok(),
        Kind::Quic => mpc_net::quic::QuicNetwork::new(configs(n, &ports, &o, true).swap_remove(me)).is_ok(),
        _ => {
            let hs = handlers(n, &o)?;
            let ok = hs.h[me].init_session(s.word() as u128 | (3 << 101)).is_ok();
            // the last party connects to everyone and waits for nobody
            let fine = ok == (me == n - 1);
            give_back(hs);
            check!(fine, "session of party {me} of {n} alone: {ok}");
            false
        }
    };
    check!(!ok, "{kind:?}: party {me} of {n} is set up although nobody else came");
    if t0.elapsed() > o.connect * 3 + Duration::from_secs(5) {
        return Err(Fail::suspect(format!("{kind:?}: party {me} gives up only after {:?}, the timeout is {:?}", t0.elapsed(), o.connect)));
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "N02",
        rule: "at least one complete message and a fragmented stream or an unclean end; for sends more than one message",
        assumptions: "loopback; faults are a peer's bytes, pauses, half closes and shutdowns; times are checked with seconds of slack",
        subs: vec![
            Sub::new("incoming", 900, 40_000, incoming).hang(60),
            Sub::new("outgoing", 500, 20_000, outgoing).hang(60),
            Sub::new("vanished", 200, 8_000, vanished).hang(60),
            Sub::new("in_process", 300, 10_000, in_process).hang(60),
            Sub::new("quiet_cluster", 16, 300, quiet_cluster).hang(60),
            Sub::new("absent", 40, 600, absent).hang(60),
        ],
    }]
}
