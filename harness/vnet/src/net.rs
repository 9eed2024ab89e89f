//! Clusters of real networks of every transport inside one process.
use bytes::Bytes;
use engine::*;
use mpc_net::config::{Address, NetworkConfig, NetworkConfigBuilder, NetworkParty, TlsConfig};
use mpc_net::{Network, local, quic, tcp, tcp_session, tcp_session_blocking, tls};
use rustls::pki_types::{PrivateKeyDer, PrivatePkcs8KeyDer};
use std::collections::HashSet;
use std::net::{SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::os::fd::{FromRawFd, IntoRawFd};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Local,
    Tcp,
    Tls,
    Quic,
    Session,
    SessionBlocking,
}
use Kind::*;
pub const KINDS: [Kind; 6] = [Local, Tcp, SessionBlocking, Session, Tls, Quic];

pub type Net = Box<dyn Network>;

#[derive(Clone, Debug)]
pub struct Opts {
    pub max_frame: Option<usize>,
    pub timeout: Option<Duration>,
    pub connect: Duration,
    /// delay of each party before it starts
    pub delays: Vec<Duration>,
    /// order in which each party lists the parties
    pub order: Vec<Vec<usize>>,
}
impl Opts {
    pub fn plain(n: usize) -> Self {
        Opts { max_frame: None, timeout: Some(Duration::from_secs(10)), connect: Duration::from_secs(10), delays: vec![Duration::ZERO; n], order: vec![(0..n).collect(); n] }
    }
}

static PORT: AtomicU32 = AtomicU32::new(0);

/// A port below the ephemeral range that nobody listens on.
pub fn free_port() -> u16 {
    loop {
        let k = PORT.fetch_add(1, Ordering::Relaxed);
        let p = 10_000 + ((std::process::id().wrapping_mul(7919) % 22_000) + k) % 22_000;
        let a = SocketAddr::from(([127, 0, 0, 1], p as u16));
        if TcpListener::bind(a).is_ok() && UdpSocket::bind(a).is_ok() {
            return p as u16;
        }
    }
}

/// Ends every TCP connection of this process that uses one of the ports: reader threads of dropped
/// blocking networks keep theirs open.
pub fn close_connections(ports: &[u16]) {
    let ports: HashSet<u16> = ports.iter().copied().collect();
    let Ok(dir) = std::fs::read_dir("/proc/self/fd") else { return };
    let fds: Vec<i32> = dir.filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok()).collect();
    for fd in fds {
        // only for its address and for shutdown: never closed here
        let st = unsafe { TcpStream::from_raw_fd(fd) };
        if let (Ok(l), Ok(p)) = (st.local_addr(), st.peer_addr())
            && (ports.contains(&l.port()) || ports.contains(&p.port()))
        {
            let _ = st.shutdown(std::net::Shutdown::Both);
        }
        let _ = st.into_raw_fd();
    }
}

pub fn provider() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let _ = rustls::crypto::aws_lc_rs::default_provider().install_default();
    });
}

pub fn configs(n: usize, ports: &[u16], o: &Opts, with_tls: bool) -> Vec<NetworkConfig> {
    let party = |id: usize| NetworkParty::new(id, Address::new("127.0.0.1".into(), ports[id]));
    let mut tls = vec![];
    if with_tls {
        provider();
        let keys: Vec<_> = (0..n).map(|_| rcgen::generate_simple_self_signed(["127.0.0.1".to_string()]).unwrap()).collect();
        let certs: Vec<_> = keys.iter().map(|k| k.cert.der().clone()).collect();
        for k in keys {
            tls.push(TlsConfig::new(PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(k.key_pair.serialize_der())), certs.clone()));
        }
    }
    (0..n)
        .map(|id| {
            let mut b = NetworkConfigBuilder::new(id, SocketAddr::from(([127, 0, 0, 1], ports[id])), o.order[id].iter().map(|&i| party(i)).collect()).connect_timeout(o.connect);
            if let Some(t) = o.timeout {
                b = b.timeout(t);
            }
            b = b.flush_timeout(Duration::from_secs(12));
            if let Some(m) = o.max_frame {
                b = b.max_frame_length(m);
            }
            if with_tls {
                b = b.tls_config(tls[id].clone());
            }
            b.build()
        })
        .collect()
}

pub fn session_config(id: usize, ports: &[u16], o: &Opts) -> tcp_session::NetworkConfig {
    tcp_session::NetworkConfig {
        party_id: id,
        bind_addr: SocketAddr::from(([127, 0, 0, 1], ports[id])),
        node_addrs: ports.iter().map(|p| format!("127.0.0.1:{p}")).collect(),
        init_session_timeout: Some(o.connect),
        timeout: o.timeout,
        flush_timeout: Some(Duration::from_secs(12)),
        time_to_idle: Duration::from_secs(30),
        max_frame_length: o.max_frame.unwrap_or(mpc_net::DEFAULT_MAX_FRAME_LENGTH),
    }
}
pub fn blocking_config(id: usize, ports: &[u16], o: &Opts) -> tcp_session_blocking::NetworkConfig {
    let c = session_config(id, ports, o);
    tcp_session_blocking::NetworkConfig {
        party_id: id,
        bind_addr: c.bind_addr,
        node_addrs: c.node_addrs,
        init_session_timeout: c.init_session_timeout,
        timeout: c.timeout,
        flush_timeout: c.flush_timeout,
        time_to_idle: c.time_to_idle,
        max_frame_length: c.max_frame_length,
    }
}

/// Handlers of the blocking session transport own threads that never end, so sets of them are used again.
pub struct Handlers {
    pub key: (usize, Option<usize>, Option<Duration>, Duration),
    pub ports: Vec<u16>,
    pub h: Vec<tcp_session_blocking::TcpNetworkHandler>,
}
static POOL: Mutex<Vec<Handlers>> = Mutex::new(vec![]);
pub fn handlers(n: usize, o: &Opts) -> R<Handlers> {
    let key = (n, o.max_frame, o.timeout, o.connect);
    {
        let mut p = POOL.lock().unwrap();
        if let Some(i) = p.iter().position(|h| h.key == key) {
            return Ok(p.swap_remove(i));
        }
    }
    for attempt in 0.. {
        let ports: Vec<u16> = (0..n).map(|_| free_port()).collect();
        let h: eyre::Result<Vec<_>> = (0..n).map(|i| tcp_session_blocking::TcpNetworkHandler::new(blocking_config(i, &ports, o))).collect();
        match h {
            Ok(h) => return Ok(Handlers { key, ports, h }),
            Err(_) if attempt < 3 => {}
            Err(e) => return Err(Fail::suspect(format!("session handlers: {e:#}"))),
        }
    }
    unreachable!()
}
pub fn give_back(h: Handlers) {
    close_connections(&h.ports);
    POOL.lock().unwrap().push(h);
}

pub struct Cluster {
    pub nets: Vec<Vec<Net>>,
    pub ports: Vec<u16>,
    rt: Option<tokio::runtime::Runtime>,
    pool: Option<Handlers>,
}
impl Drop for Cluster {
    fn drop(&mut self) {
        // some transports end together
        let nets = std::mem::take(&mut self.nets);
        std::thread::scope(|sc| {
            for n in nets {
                sc.spawn(move || drop(n));
            }
        });
        if let Some(rt) = self.rt.take() {
            rt.shutdown_background();
        }
        if let Some(p) = self.pool.take() {
            give_back(p);
        } else {
            close_connections(&self.ports);
        }
    }
}

pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().expect("runtime")
}

fn boxed<T: Network + 'static, const N: usize>(a: [T; N]) -> Vec<Net> {
    a.into_iter().map(|x| Box::new(x) as Net).collect()
}
fn tcp_nets(k: usize, c: NetworkConfig) -> eyre::Result<Vec<Net>> {
    Ok(match k {
        1 => boxed(tcp::TcpNetwork::networks::<1>(c)?),
        2 => boxed(tcp::TcpNetwork::networks::<2>(c)?),
        3 => boxed(tcp::TcpNetwork::networks::<3>(c)?),
        _ => boxed(tcp::TcpNetwork::networks::<4>(c)?),
    })
}
fn tls_nets(k: usize, c: NetworkConfig) -> eyre::Result<Vec<Net>> {
    Ok(match k {
        1 => boxed(tls::TlsNetwork::networks::<1>(c)?),
        2 => boxed(tls::TlsNetwork::networks::<2>(c)?),
        3 => boxed(tls::TlsNetwork::networks::<3>(c)?),
        _ => boxed(tls::TlsNetwork::networks::<4>(c)?),
    })
}
fn quic_nets(k: usize, c: NetworkConfig) -> eyre::Result<Vec<Net>> {
    let first = quic::QuicNetwork::new(c)?;
    let mut v: Vec<Net> = vec![];
    let mut more = vec![];
    for _ in 1..k {
        more.push(first.fork()?);
    }
    v.push(Box::new(first));
    v.extend(more.into_iter().map(|x| Box::new(x) as Net));
    Ok(v)
}

/// `k` parallel networks of one party of a transport without sessions.
pub fn nets(kind: Kind, k: usize, c: NetworkConfig) -> eyre::Result<Vec<Net>> {
    match kind {
        Tcp => tcp_nets(k, c),
        Tls => tls_nets(k, c),
        _ => quic_nets(k, c),
    }
}

/// [party][network]
pub fn cluster(kind: Kind, n: usize, k: usize, o: &Opts, sessions: &[u128]) -> R<Cluster> {
    if kind == Local {
        let mut nets: Vec<Vec<Net>> = (0..n).map(|_| vec![]).collect();
        for _ in 0..k {
            for (p, x) in local::LocalNetwork::new_with_timeout(n, o.timeout).into_iter().enumerate() {
                nets[p].push(Box::new(x));
            }
        }
        return Ok(Cluster { nets, ports: vec![], rt: None, pool: None });
    }
    if kind == SessionBlocking {
        let pool = handlers(n, o)?;
        let got: Vec<eyre::Result<Vec<Net>>> = std::thread::scope(|sc| {
            let v: Vec<_> = (0..n)
                .map(|i| {
                    let (h, d) = (&pool.h[i], o.delays[i]);
                    sc.spawn(move || {
                        std::thread::sleep(d);
                        sessions[..k].iter().map(|s| Ok(Box::new(h.init_session(*s)?) as Net)).collect()
                    })
                })
                .collect();
            v.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(eyre::eyre!("init_session panics")))).collect()
        });
        let ports = pool.ports.clone();
        let mut c = Cluster { nets: vec![], ports, rt: None, pool: Some(pool) };
        for (i, g) in got.into_iter().enumerate() {
            c.nets.push(g.map_err(|e| Fail::suspect(format!("{kind:?}: party {i} of {n} cannot set up {k} networks: {e:#}")))?);
        }
        return Ok(c);
    }
    let mut last = String::new();
    for _ in 0..3 {
        let ports: Vec<u16> = (0..n).map(|_| free_port()).collect();
        let rt = (kind == Session).then(runtime);
        let cfg = if kind == Session { vec![] } else { configs(n, &ports, o, kind != Tcp) };
        let hs: Vec<Option<eyre::Result<tcp_session::TcpNetworkHandler>>> =
            (0..n).map(|i| rt.as_ref().map(|rt| rt.block_on(tcp_session::TcpNetworkHandler::new(session_config(i, &ports, o))))).collect();
        let got: Vec<eyre::Result<Vec<Net>>> = std::thread::scope(|sc| {
            let v: Vec<_> = hs
                .into_iter()
                .enumerate()
                .map(|(i, h)| {
                    let c = cfg.get(i).cloned();
                    let rt = rt.as_ref();
                    let d = o.delays[i];
                    sc.spawn(move || {
                        std::thread::sleep(d);
                        match kind {
                            Tcp | Tls | Quic => nets(kind, k, c.unwrap()),
                            _ => {
                                let h = h.unwrap()?;
                                sessions[..k]
                                    .iter()
                                    .map(|s| Ok(Box::new(rt.unwrap().block_on(async { tokio::time::timeout(o.connect, h.init_session(*s)).await })??) as Net))
                                    .collect()
                            }
                        }
                    })
                })
                .collect();
            v.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(eyre::eyre!("setup panics")))).collect()
        });
        let mut c = Cluster { nets: vec![], ports, rt, pool: None };
        let mut bad = None;
        for (i, g) in got.into_iter().enumerate() {
            match g {
                Ok(g) => c.nets.push(g),
                Err(e) => bad = Some(format!("{kind:?}: party {i} of {n} cannot set up {k} networks: {e:#}")),
            }
        }
        match bad {
            None => return Ok(c),
            Some(b) if b.contains("in use") => last = b,
            Some(b) => return Err(Fail::suspect(b)),
        }
    }
    Err(Fail::suspect(last))
}

/// Payload number `seq` from i to j on network k.
pub fn payload(seed: u64, k: usize, i: usize, j: usize, seq: usize, len: usize) -> Bytes {
    let mut x = seed ^ ((k as u64) << 56 | (i as u64) << 48 | (j as u64) << 40 | seq as u64).wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.extend_from_slice(&x.wrapping_mul(0x2545F4914F6CDD1D).to_le_bytes());
    }
    v.truncate(len);
    Bytes::from(v)
}

pub fn differ(got: &[u8], want: &[u8]) -> String {
    if got.len() != want.len() {
        return format!("{} bytes instead of {} ({:02x?}… / {:02x?}…)", got.len(), want.len(), &got[..got.len().min(8)], &want[..want.len().min(8)]);
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(0);
    format!("{} bytes, first difference at {at}", got.len())
}
