//! N05: network configurations as text.
use engine::*;
use mpc_net::config::*;
use mpc_net::{tcp_session, tcp_session_blocking};
use std::net::{SocketAddr, ToSocketAddrs};
use std::path::PathBuf;
use std::str::FromStr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;

fn host(s: &mut Src) -> String {
    const A: &[&str] = &["a", "B", "z", "0", "9", "-", ".", "_", "é", "xn--", "10.0.0.1", "localhost", " ", "\"", "\\", "%", "[", "]", "/", "日"];
    (0..s.range(1, 8)).map(|_| *s.pick(A)).collect()
}
fn plain_host(s: &mut Src) -> String {
    const A: &[&str] = &["a", "b", "z", "0", "9", "-", ".", "node", "mpc"];
    (0..s.range(1, 6)).map(|_| *s.pick(A)).collect()
}
fn port(s: &mut Src) -> u16 {
    match s.below(4) {
        0 => *s.pick(&[0, 1, 9, 10, 80, 255, 256, 9999, 10000, 32767, 32768, 65535]),
        _ => s.word() as u16,
    }
}

/// What a text stands for: host and port; `None` is no address.
fn reference(t: &str) -> Option<(String, u16)> {
    if t.bytes().filter(|b| *b == b':').count() != 1 {
        return None;
    }
    let at = t.find(':').unwrap();
    let (h, p) = (&t[..at], &t[at + 1..]);
    let p = p.strip_prefix('+').unwrap_or(p);
    if p.is_empty() || !p.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v: u128 = 0;
    for b in p.bytes() {
        v = (v * 10 + (b - b'0') as u128).min(1 << 60);
    }
    (v <= 65535).then(|| (h.to_string(), v as u16))
}

fn agree(t: &str) -> R {
    let got = caught(|| Address::from_str(t)).map_err(|p| Fail::from(format!("parsing {t:?} panics: {p}")))?;
    // a host of no characters or a signed port may be taken or left, but not misread
    let lenient = t.starts_with(':') || t.contains('+');
    match (reference(t), &got) {
        (None, Err(_)) => {}
        (Some((h, p)), Ok(a)) => {
            check_eq!(a.hostname, h, "host of {t:?}");
            check_eq!(a.port, p, "port of {t:?}");
        }
        (Some(_), Err(_)) if lenient => {}
        (None, Ok(a)) => fail!("{t:?} is read as host {:?}, port {}, but is not host:port", a.hostname, a.port),
        (Some(_), Err(e)) => fail!("{t:?} is rejected: {e}"),
    }
    // the serialised form follows the same rule
    let js = serde_json::to_string(t).unwrap();
    let de: Result<Address, _> = serde_json::from_str(&js);
    check_eq!(de.ok(), got.ok(), "the JSON string {js} and the text {t:?}");
    Ok(())
}

fn address(s: &mut Src) -> R {
    s.nontrivial();
    let (h, p) = (host(s), port(s));
    let a = Address::new(h.clone(), p);
    let t = a.to_string();
    check_eq!(t, format!("{h}:{p}"), "text of {a:?}");
    check_eq!(Address::from_str(&t).ok(), Some(a.clone()), "{t:?} parsed");
    let js = serde_json::to_string(&a).map_err(|e| Fail::from(e.to_string()))?;
    check_eq!(serde_json::from_str::<String>(&js).ok(), Some(t.clone()), "JSON of {a:?}");
    check_eq!(serde_json::from_str::<Address>(&js).ok(), Some(a.clone()), "JSON {js} parsed");
    // zeros in front do not change a port
    agree(&format!("{h}:{:0w$}", p, w = s.range(1, 12)))?;
    // one edit away from an address, or text of the same letters
    let mut cs: Vec<char> = t.chars().collect();
    const X: &[char] = &[':', '0', '9', '-', '+', ' ', 'a', '.', '\t', '\n', 'é', '٣', '[', ']', '\0', '/'];
    for _ in 0..s.range(1, 3) {
        let c = *s.pick(X);
        let at = s.range(0, cs.len());
        match s.below(4) {
            0 => cs.insert(at, c),
            1 if at < cs.len() => {
                cs.remove(at);
            }
            2 if at < cs.len() => cs[at] = c,
            _ => cs.push(c),
        }
    }
    agree(&cs.iter().collect::<String>())?;
    let any: String = (0..s.range(0, 12)).map(|_| *s.pick(X)).collect();
    agree(&any)?;
    agree(&format!("{h}:{}", s.word() % 200_000))?;
    agree(&format!("{h}:{}", p as u64 + (1 << *s.pick(&[16, 17, 32, 48]))))?;
    agree(&h)?;
    agree(&format!("{h}:"))?;
    agree(&format!("{h}:{p}:{}", port(s)))?;
    // not a string at all
    for v in [format!("{p}"), "null".into(), format!("[{js}]"), format!("{{\"hostname\":{},\"port\":{p}}}", serde_json::to_string(&h).unwrap())] {
        check!(serde_json::from_str::<Address>(&v).is_err(), "the JSON {v} is read as an address");
    }
    // numeric hosts resolve to what they are
    let ip = [s.word() as u8, s.word() as u8, s.word() as u8, s.word() as u8];
    let a = Address::new(format!("{}.{}.{}.{}", ip[0], ip[1], ip[2], ip[3]), p);
    let got: Vec<SocketAddr> = a.to_socket_addrs().map_err(|e| Fail::from(format!("{a}: {e}")))?.collect();
    check_eq!(got, vec![SocketAddr::from((ip, p))], "{a} resolved");
    Ok(())
}

/// A duration and a way to spell it.
fn duration(s: &mut Src) -> (Duration, String) {
    let units: &[(&str, u64)] = &[("h", 3_600_000_000_000), ("min", 60_000_000_000), ("s", 1_000_000_000), ("ms", 1_000_000), ("us", 1000), ("ns", 1)];
    let k = s.range(1, 3);
    let mut ns = 0u64;
    let mut parts = vec![];
    for i in s.subset(units.len(), k) {
        let v = s.below(1000);
        ns += v * units[i].1;
        let name = match (units[i].0, s.bool()) {
            ("h", true) => "hours",
            ("min", true) => "m",
            ("s", true) => "sec",
            ("ms", true) => "msec",
            (x, _) => x,
        };
        parts.push(format!("{v}{name}"));
    }
    (Duration::from_nanos(ns), parts.join(if s.bool() { " " } else { "" }))
}

fn maybe<T>(s: &mut Src, f: impl FnOnce(&mut Src) -> T) -> Option<T> {
    if s.chance(2, 3) { Some(f(s)) } else { None }
}

fn bind(s: &mut Src) -> SocketAddr {
    let p = port(s);
    if s.chance(3, 4) {
        SocketAddr::from(([s.word() as u8, s.word() as u8, s.word() as u8, s.word() as u8], p))
    } else {
        let w: [u16; 8] = std::array::from_fn(|_| if s.bool() { 0 } else { s.word() as u16 });
        SocketAddr::from((w, p))
    }
}

struct Wanted {
    parties: Vec<(usize, String, u16)>,
    my_id: usize,
    bind: SocketAddr,
    tls: Option<(String, Vec<String>)>,
    timeouts: [Option<(Duration, String)>; 3],
    max: Option<usize>,
}
impl Wanted {
    fn new(s: &mut Src, dir: Option<&str>) -> Wanted {
        let n = s.range(1, 6);
        let mut ids: Vec<usize> = (0..n).collect();
        if s.bool() {
            s.shuffle(&mut ids);
        }
        if s.chance(1, 5) {
            ids[0] = (s.word() >> 1) as usize;
        }
        let parties = ids.into_iter().map(|i| (i, plain_host(s), port(s))).collect();
        let tls = maybe(s, |s| {
            let d = dir.map(str::to_string).unwrap_or_else(|| plain_host(s));
            (format!("{d}/key-{}.der", s.below(100)), (0..s.range(0, n)).map(|i| format!("{d}/cert{i}-{}.der", s.below(4))).collect())
        });
        Wanted { parties, my_id: s.range(0, n), bind: bind(s), tls, timeouts: std::array::from_fn(|_| maybe(s, duration)), max: maybe(s, |s| (s.word() >> s.range(1, 60)) as usize) }
    }
    fn toml(&self, s: &mut Src) -> String {
        let q = |x: &str| format!("\"{x}\"");
        let mut lines = vec![format!("my_id = {}", self.my_id), format!("bind_addr = {}", q(&self.bind.to_string()))];
        for (name, t) in ["timeout", "connect_timeout", "flush_timeout"].iter().zip(&self.timeouts) {
            if let Some((_, t)) = t {
                lines.push(format!("{name} = {}", q(t)));
            }
        }
        if let Some(m) = self.max {
            lines.push(format!("max_frame_length = {m}"));
        }
        s.shuffle(&mut lines);
        let mut tables: Vec<String> = vec![];
        let parties: Vec<String> = self.parties.iter().map(|(i, h, p)| format!("[[parties]]\nid = {i}\ndns_name = \"{h}:{p}\"")).collect();
        tables.push(parties.join("\n"));
        if let Some((k, c)) = &self.tls {
            let c: Vec<String> = c.iter().map(|x| q(x)).collect();
            tables.push(format!("[tls]\nkey = {}\ncerts = [{}]", q(k), c.join(", ")));
        }
        s.shuffle(&mut tables);
        format!("{}\n{}\n", lines.join("\n"), tables.join("\n"))
    }
    fn json(&self, s: &mut Src) -> serde_json::Value {
        let mut m = serde_json::Map::new();
        m.insert("parties".into(), self.parties.iter().map(|(i, h, p)| serde_json::json!({"dns_name": format!("{h}:{p}"), "id": i})).collect());
        m.insert("my_id".into(), self.my_id.into());
        m.insert("bind_addr".into(), self.bind.to_string().into());
        for (name, t) in ["timeout", "connect_timeout", "flush_timeout"].iter().zip(&self.timeouts) {
            if let Some((_, t)) = t {
                m.insert(name.to_string(), t.as_str().into());
            } else if s.bool() {
                m.insert(name.to_string(), serde_json::Value::Null);
            }
        }
        if let Some(x) = self.max {
            m.insert("max_frame_length".into(), x.into());
        }
        if let Some((k, c)) = &self.tls {
            m.insert("tls".into(), serde_json::json!({"key": k, "certs": c}));
        }
        serde_json::Value::Object(m)
    }
    fn same(&self, f: &NetworkConfigFile, what: &str) -> R {
        let got: Vec<_> = f.parties.iter().map(|p| (p.id, p.dns_name.hostname.clone(), p.dns_name.port)).collect();
        check_eq!(got, self.parties, "{what}: parties");
        check_eq!(f.my_id, self.my_id, "{what}: my_id");
        check_eq!(f.bind_addr, self.bind, "{what}: bind_addr");
        let tls = f.tls.as_ref().map(|t| (t.key.clone(), t.certs.clone()));
        let want = self.tls.as_ref().map(|(k, c)| (PathBuf::from(k), c.iter().map(PathBuf::from).collect::<Vec<_>>()));
        check_eq!(tls, want, "{what}: tls");
        for (name, (got, want)) in ["timeout", "connect_timeout", "flush_timeout"].iter().zip([f.timeout, f.connect_timeout, f.flush_timeout].iter().zip(&self.timeouts)) {
            check_eq!(*got, want.as_ref().map(|w| w.0), "{what}: {name} written {:?}", want.as_ref().map(|w| &w.1));
        }
        check_eq!(f.max_frame_length, self.max, "{what}: max_frame_length");
        Ok(())
    }
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!("vnet-n05-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        let _ = std::fs::create_dir_all(&p);
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn file(s: &mut Src) -> R {
    let d = Scratch::new();
    let w = Wanted::new(s, Some(d.0.to_str().unwrap()));
    let text = w.toml(s);
    if w.tls.is_some() || w.parties.len() > 1 {
        s.nontrivial();
    }
    s.note(|| text.clone());
    let f: NetworkConfigFile = toml::from_str(&text).map_err(|e| Fail::from(format!("configuration rejected: {e}\n{text}")))?;
    w.same(&f, "TOML")?;
    let v = w.json(s);
    let g: NetworkConfigFile = serde_json::from_str(&v.to_string()).map_err(|e| Fail::from(format!("configuration rejected: {e}\n{v}")))?;
    w.same(&g, "JSON")?;
    check_eq!(f, g, "TOML and JSON of the same configuration");
    // written and read again
    let t = toml::to_string(&f).map_err(|e| Fail::from(format!("{f:?} cannot be written: {e}")))?;
    check_eq!(toml::from_str::<NetworkConfigFile>(&t).ok(), Some(f.clone()), "configuration written as TOML and read again:\n{t}\n");
    let t = serde_json::to_string(&f).map_err(|e| Fail::from(format!("{f:?} cannot be written: {e}")))?;
    check_eq!(serde_json::from_str::<NetworkConfigFile>(&t).ok(), Some(f.clone()), "configuration written as JSON and read again: {t}");
    // the files it names are read
    let mut contents: Vec<Vec<u8>> = vec![];
    if let Some((k, c)) = &w.tls {
        let lens = [0, 1, 31, 32, 500];
        for p in std::iter::once(k).chain(c) {
            let l = *s.pick(&lens);
            std::fs::write(p, s.bytes(l)).map_err(|e| Fail::suspect(e.to_string()))?;
        }
        // two certificates may be the same file
        for p in std::iter::once(k).chain(c) {
            contents.push(std::fs::read(p).map_err(|e| Fail::suspect(e.to_string()))?);
        }
    }
    let c = NetworkConfig::try_from(f.clone()).map_err(|e| Fail::from(format!("configuration with all files present: {e:#}")))?;
    check_eq!(c.parties, f.parties, "parties after reading the files");
    check_eq!((c.my_id, c.bind_addr, c.timeout, c.connect_timeout, c.flush_timeout, c.max_frame_length), (f.my_id, f.bind_addr, f.timeout, f.connect_timeout, f.flush_timeout, f.max_frame_length), "fields after reading the files");
    check_eq!(c.tls.is_some(), w.tls.is_some(), "tls after reading the files");
    if let Some(t) = &c.tls {
        check!(t.key.secret_der() == &contents[0][..], "private key differs from its file");
        let got: Vec<&[u8]> = t.certs.iter().map(|c| c.as_ref()).collect();
        let want: Vec<&[u8]> = contents[1..].iter().map(|v| &v[..]).collect();
        check!(got == want, "certificates differ from their files: {got:02x?} for {want:02x?}");
        // a copy is the same
        check!(c.clone() == c, "a clone of the configuration differs");
        // and a missing one is an error
        let (k, cs) = w.tls.as_ref().unwrap();
        let all: Vec<&String> = std::iter::once(k).chain(cs).collect();
        let gone = *s.pick(&all);
        std::fs::remove_file(gone).map_err(|e| Fail::suspect(e.to_string()))?;
        check!(NetworkConfig::try_from(f.clone()).is_err(), "a configuration naming the missing file {gone} is accepted");
    }
    // the builder gives the same
    let mut b = NetworkConfig::builder(f.my_id, f.bind_addr, f.parties.clone());
    let mut steps: Vec<usize> = (0..5).collect();
    s.shuffle(&mut steps);
    for x in steps {
        b = match x {
            0 => c.tls.clone().into_iter().fold(b, |b, t| b.tls_config(t)),
            1 => f.timeout.into_iter().fold(b, |b, t| b.timeout(t)),
            2 => f.connect_timeout.into_iter().fold(b, |b, t| b.connect_timeout(t)),
            3 => f.flush_timeout.into_iter().fold(b, |b, t| b.flush_timeout(t)),
            _ => f.max_frame_length.into_iter().fold(b, |b, t| b.max_frame_length(t)),
        };
    }
    check!(b.build() == c, "the builder and the file give different configurations");
    Ok(())
}

/// Files with one thing wrong.
fn malformed(s: &mut Src) -> R {
    use serde_json::{Value, json};
    s.nontrivial();
    let w = Wanted::new(s, None);
    let mut v = w.json(s);
    let o = v.as_object_mut().unwrap();
    let what = match s.below(9) {
        0 => {
            let k = *s.pick(&["parties", "my_id", "bind_addr"]);
            o.remove(k);
            format!("without {k}")
        }
        1 => {
            let bad = s.pick(&[json!(""), json!("host"), json!("a:b"), json!("a:1:2"), json!("a:65536"), json!("a:-1"), json!(5), Value::Null]).clone();
            let i = s.range(0, w.parties.len() - 1);
            o["parties"][i]["dns_name"] = bad.clone();
            format!("party address {bad}")
        }
        2 => {
            let k = *s.pick(&["timeout", "connect_timeout", "flush_timeout"]);
            let bad = s.pick(&[json!(5), json!("5"), json!("5 parsecs"), json!(""), json!("-1s"), json!("1.5.s"), json!(true)]).clone();
            o.insert(k.into(), bad.clone());
            format!("{k} {bad}")
        }
        3 => {
            let bad = s.pick(&[json!(-1), json!("big"), json!(1.5), json!([1])]).clone();
            o.insert("max_frame_length".into(), bad.clone());
            format!("max_frame_length {bad}")
        }
        4 => {
            let bad = s.pick(&[json!("localhost"), json!("1.2.3.4"), json!("1.2.3:80"), json!("1.2.3.4:70000"), json!(80), json!("")]).clone();
            o["bind_addr"] = bad.clone();
            format!("bind_addr {bad}")
        }
        5 => {
            let bad = s.pick(&[json!(-1), json!("0"), json!(0.5), Value::Null]).clone();
            o["my_id"] = bad.clone();
            format!("my_id {bad}")
        }
        6 => {
            let bad = s.pick(&[json!(-1), json!("0"), Value::Null]).clone();
            let i = s.range(0, w.parties.len() - 1);
            o["parties"][i]["id"] = bad.clone();
            format!("party id {bad}")
        }
        7 => {
            let bad = s.pick(&[json!({"key": "k"}), json!({"certs": []}), json!({"key": "k", "certs": "c"}), json!("key"), json!({"key": 1, "certs": []})]).clone();
            o.insert("tls".into(), bad.clone());
            format!("tls {bad}")
        }
        _ => {
            let i = s.range(0, w.parties.len() - 1);
            let k = *s.pick(&["id", "dns_name"]);
            o["parties"][i].as_object_mut().unwrap().remove(k);
            format!("party without {k}")
        }
    };
    s.label(what.split(' ').next().unwrap().to_string());
    let t = v.to_string();
    let r = caught(|| serde_json::from_str::<NetworkConfigFile>(&t)).map_err(|p| Fail::from(format!("configuration {what} panics: {p}")))?;
    check!(r.is_err(), "a configuration with {what} is accepted: {t}");
    Ok(())
}

/// The configuration of the session transports.
fn session(s: &mut Src) -> R {
    s.nontrivial();
    let n = s.range(0, 5);
    let addrs: Vec<String> = (0..n).map(|_| format!("{}:{}", plain_host(s), port(s))).collect();
    let b = bind(s);
    let id = s.range(0, 9);
    let names = ["init_session_timeout", "timeout", "flush_timeout", "time_to_idle"];
    let t: [Option<(Duration, String)>; 4] = std::array::from_fn(|_| maybe(s, duration));
    let max = maybe(s, |s| (s.word() >> s.range(1, 60)) as usize);
    let mut lines = vec![format!("party_id = {id}"), format!("bind_addr = \"{b}\""), format!("node_addrs = {}", serde_json::to_string(&addrs).unwrap())];
    for (name, t) in names.iter().zip(&t) {
        if let Some((_, t)) = t {
            lines.push(format!("{name} = \"{t}\""));
        }
    }
    if let Some(m) = max {
        lines.push(format!("max_frame_length = {m}"));
    }
    s.shuffle(&mut lines);
    let text = lines.join("\n");
    let d = |i: usize| t[i].as_ref().map(|x| x.0);
    // documented defaults: half a minute, and frames of 64 MB
    let idle = d(3).unwrap_or(Duration::from_secs(30));
    let frame = max.unwrap_or(64 * 1024 * 1024);
    macro_rules! one {
        ($m:ident) => {{
            let c: $m::NetworkConfig = toml::from_str(&text).map_err(|e| Fail::from(format!("rejected: {e}\n{text}")))?;
            check_eq!((c.party_id, c.bind_addr, &c.node_addrs), (id, b, &addrs), "{text}");
            check_eq!((c.init_session_timeout, c.timeout, c.flush_timeout, c.time_to_idle, c.max_frame_length), (d(0), d(1), d(2), idle, frame), "{text}");
            let k = s.range(0, 2);
            let bad: String = lines.iter().filter(|l| !l.starts_with(["party_id", "bind_addr", "node_addrs"][k])).cloned().collect::<Vec<_>>().join("\n");
            check!(toml::from_str::<$m::NetworkConfig>(&bad).is_err(), "accepted: {bad}");
        }};
    }
    one!(tcp_session);
    one!(tcp_session_blocking);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "N05",
        rule: "every address case (one address, its text, its serialised form and nine near misses); a file with TLS files or more than one party",
        assumptions: "files up to 6 parties; durations up to 1000 of each unit; an empty host and a '+' before the port may be taken or rejected",
        subs: vec![
            Sub::new("address", 20_000, 1_000_000, address),
            Sub::new("file", 6_000, 200_000, file),
            Sub::new("malformed", 6_000, 200_000, malformed),
            Sub::new("session", 6_000, 200_000, session),
        ],
    }]
}
