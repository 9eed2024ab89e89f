//! Running several parties in one process over a recording in-memory network, small fields, statistics.
use ark_ec::CurveGroup;
use ark_ff::{Fp64, MontBackend, MontConfig, PrimeField};
use crossbeam_channel::{Receiver, Sender, unbounded};
use engine::{Fail, R, Src, caught};
use mpc_net::bytes::Bytes;
use mpc_net::{ConnectionStats, Network};
use num_bigint::BigUint;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

macro_rules! small_field {
    ($m:ident, $t:ident, $p:literal, $g:literal) => {
        #[derive(MontConfig)]
        #[modulus = $p]
        #[generator = $g]
        pub struct $m;
        pub type $t = Fp64<MontBackend<$m, 1>>;
    };
}
small_field!(M7, F7, "7", "3");
small_field!(M13, F13, "13", "2");
small_field!(M31, F31, "31", "3");
small_field!(M61, F61, "2305843009213693951", "37");
small_field!(MGold, FGold, "18446744069414584321", "7");

pub type Log = Arc<Mutex<Vec<(usize, usize, Bytes)>>>;

/// In-memory network with unbounded queues. Optionally records every message.
pub struct TNet {
    id: usize,
    tx: Vec<Option<Sender<Bytes>>>,
    rx: Vec<Option<Receiver<Bytes>>>,
    sent: Vec<AtomicUsize>,
    rcvd: Vec<AtomicUsize>,
    log: Option<Log>,
    timeout: Duration,
}

pub const DISCONNECTED: &str = "peer gone";
pub const TIMEOUT: &str = "no message in time";

impl TNet {
    pub fn new(n: usize, log: Option<Log>) -> Vec<TNet> {
        let mut txs: Vec<Vec<Option<Sender<Bytes>>>> = (0..n).map(|_| (0..n).map(|_| None).collect()).collect();
        let mut rxs: Vec<Vec<Option<Receiver<Bytes>>>> = (0..n).map(|_| (0..n).map(|_| None).collect()).collect();
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    let (t, r) = unbounded();
                    txs[i][j] = Some(t);
                    rxs[j][i] = Some(r);
                }
            }
        }
        txs.into_iter()
            .zip(rxs)
            .enumerate()
            .map(|(id, (tx, rx))| TNet {
                id,
                tx,
                rx,
                sent: (0..n).map(|_| AtomicUsize::new(0)).collect(),
                rcvd: (0..n).map(|_| AtomicUsize::new(0)).collect(),
                log: log.clone(),
                timeout: Duration::from_secs(30),
            })
            .collect()
    }
}

impl Network for TNet {
    fn id(&self) -> usize {
        self.id
    }
    fn send(&self, to: usize, data: Bytes) -> eyre::Result<()> {
        let Some(Some(tx)) = self.tx.get(to) else { eyre::bail!("no party {to}") };
        if let Some(l) = &self.log {
            l.lock().unwrap().push((self.id, to, data.clone()));
        }
        self.sent[to].fetch_add(data.len(), Ordering::Relaxed);
        tx.send(data).map_err(|_| eyre::eyre!(DISCONNECTED))
    }
    fn recv(&self, from: usize) -> eyre::Result<Bytes> {
        let Some(Some(rx)) = self.rx.get(from) else { eyre::bail!("no party {from}") };
        match rx.recv_timeout(self.timeout) {
            Ok(d) => {
                self.rcvd[from].fetch_add(d.len(), Ordering::Relaxed);
                Ok(d)
            }
            Err(crossbeam_channel::RecvTimeoutError::Timeout) => Err(eyre::eyre!(TIMEOUT)),
            Err(_) => Err(eyre::eyre!(DISCONNECTED)),
        }
    }
    fn get_connection_stats(&self) -> ConnectionStats {
        // only the interface is needed here; no caller under test looks at these
        ().get_connection_stats()
    }
}

/// Outcome of one party: its value, an error it returned, or a panic.
#[derive(Debug, Clone)]
pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Out<T> {
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(v) => Some(v),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn problem(&self) -> Option<String> {
        match self {
            Out::Ok(_) => None,
            Out::Err(e) => Some(format!("error: {e}")),
            Out::Panic(e) => Some(format!("panic: {e}")),
        }
    }
}

/// Runs one closure per party, each on its own thread with its own networks (`k` parallel networks per party).
pub fn run_nets<T: Send, A: Send>(
    n: usize,
    k: usize,
    log: Option<Log>,
    args: Vec<A>,
    f: impl Fn(usize, &[TNet], A) -> eyre::Result<T> + Sync,
) -> Vec<Out<T>> {
    let mut per: Vec<Vec<TNet>> = (0..n).map(|_| vec![]).collect();
    for i in 0..k {
        for (p, net) in per.iter_mut().zip(TNet::new(n, if i == 0 { log.clone() } else { None })) {
            p.push(net);
        }
    }
    run_with(per.into_iter().zip(args).collect(), |i, (nets, a)| f(i, &nets, a))
}

/// Runs one closure per element of `items` on its own thread.
pub fn run_with<T: Send, A: Send>(items: Vec<A>, f: impl Fn(usize, A) -> eyre::Result<T> + Sync) -> Vec<Out<T>> {
    std::thread::scope(|s| {
        let f = &f;
        let hs: Vec<_> = items
            .into_iter()
            .enumerate()
            .map(|(i, a)| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || match caught(|| f(i, a)) {
                        Ok(Ok(v)) => Out::Ok(v),
                        Ok(Err(e)) => Out::Err(format!("{e:#}")),
                        Err(p) => Out::Panic(p),
                    })
                    .expect("spawn")
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Out::Panic("thread died".into())))
            .collect()
    })
}

/// All parties must have succeeded; otherwise the most telling problem is reported.
pub fn all_ok<T>(what: &str, outs: Vec<Out<T>>) -> R<Vec<T>> {
    if outs.iter().all(|o| o.is_ok()) {
        return Ok(outs.into_iter().map(|o| o.ok().unwrap()).collect());
    }
    let probs: Vec<(usize, String)> =
        outs.iter().enumerate().filter_map(|(i, o)| o.problem().map(|p| (i, p))).collect();
    let mut main: Vec<&(usize, String)> =
        probs.iter().filter(|(_, p)| !p.contains(DISCONNECTED) && !p.contains(TIMEOUT)).collect();
    let timeout = main.is_empty();
    if main.is_empty() {
        main = probs.iter().collect();
    }
    let msg = format!("{what}: party {} failed with {}", main[0].0, main[0].1);
    if timeout { Err(Fail::suspect(msg)) } else { Err(Fail::from(msg)) }
}

pub fn run_parties<T: Send, A: Send>(
    what: &str,
    n: usize,
    args: Vec<A>,
    f: impl Fn(usize, &TNet, A) -> eyre::Result<T> + Sync,
) -> R<Vec<T>> {
    all_ok(what, run_nets(n, 1, None, args, |i, nets, a| f(i, &nets[0], a)))
}

pub fn to_big<F: PrimeField>(x: F) -> BigUint {
    x.into_bigint().into()
}
pub fn fmod<F: PrimeField>() -> BigUint {
    F::MODULUS.into()
}
/// Field element with bias to special values
pub fn felt<F: PrimeField>(src: &mut Src) -> F {
    F::from(src.modular(&fmod::<F>()))
}
pub fn nonzero<F: PrimeField>(src: &mut Src) -> F {
    let x: F = felt(src);
    if x.is_zero() { F::one() } else { x }
}
/// Curve point with bias to the identity and small multiples of the generator
pub fn point<C: CurveGroup>(src: &mut Src) -> C {
    match src.weighted(&[1, 2, 5]) {
        0 => C::zero(),
        1 => C::generator() * C::ScalarField::from(src.below(5)) - C::generator(),
        _ => C::generator() * felt::<C::ScalarField>(src),
    }
}

/// Lagrange interpolation at `at` of the points (xs, ys). Independent of the code under test.
pub fn interpolate<F: PrimeField>(xs: &[F], ys: &[F], at: F) -> F {
    let mut acc = F::zero();
    for (i, y) in ys.iter().enumerate() {
        acc += *y * lagrange_at(xs, i, at);
    }
    acc
}
pub fn lagrange_at<F: PrimeField>(xs: &[F], i: usize, at: F) -> F {
    let (mut num, mut den) = (F::one(), F::one());
    for (j, x) in xs.iter().enumerate() {
        if j != i {
            num *= at - x;
            den *= xs[i] - x;
        }
    }
    num * den.inverse().unwrap()
}
/// The value at 0 of the polynomial of degree at most `deg` through the shares of parties 1..=n; error if they do not lie on one.
pub fn on_poly<F: PrimeField>(shares: &[F], deg: usize) -> Result<F, String> {
    let xs: Vec<F> = (1..=deg as u64 + 1).map(F::from).collect();
    for i in deg + 1..shares.len() {
        let e = interpolate(&xs, &shares[..=deg], F::from(i as u64 + 1));
        if e != shares[i] {
            return Err(format!("share of party {i} is not on the degree-{deg} polynomial of the first shares"));
        }
    }
    Ok(interpolate(&xs, &shares[..=deg], F::zero()))
}
pub fn on_poly_point<C: CurveGroup>(shares: &[C], deg: usize) -> Result<C, String> {
    let xs: Vec<C::ScalarField> = (1..=deg as u64 + 1).map(C::ScalarField::from).collect();
    let at = |x: C::ScalarField| -> C {
        let mut acc = C::zero();
        for i in 0..=deg {
            acc += shares[i] * lagrange_at(&xs, i, x);
        }
        acc
    };
    for i in deg + 1..shares.len() {
        if at(C::ScalarField::from(i as u64 + 1)) != shares[i] {
            return Err(format!("point share of party {i} is not on the degree-{deg} polynomial of the first shares"));
        }
    }
    Ok(at(C::ScalarField::from(0u64)))
}

fn wilson_hilferty(chi2: f64, df: f64) -> f64 {
    let t = (chi2 / df).powf(1.0 / 3.0);
    let m = 1.0 - 2.0 / (9.0 * df);
    (t - m) / (2.0 / (9.0 * df)).sqrt()
}
/// Deviation score above which a distribution counts as different (about 1e-15 by chance).
pub const Z_LIMIT: f64 = 8.0;

/// Normal score of the two-sample chi-square statistic.
pub fn two_sample_z(a: &BTreeMap<u64, u64>, b: &BTreeMap<u64, u64>) -> f64 {
    let na: u64 = a.values().sum();
    let nb: u64 = b.values().sum();
    let (na, nb) = (na as f64, nb as f64);
    let mut chi = 0.0;
    let mut cells = 0.0;
    // pool rare cells
    let (mut ra, mut rb) = (0.0, 0.0);
    let keys: std::collections::BTreeSet<u64> = a.keys().chain(b.keys()).copied().collect();
    let mut add = |x: f64, y: f64| {
        let tot = x + y;
        let (ea, eb) = (tot * na / (na + nb), tot * nb / (na + nb));
        chi += (x - ea).powi(2) / ea + (y - eb).powi(2) / eb;
        cells += 1.0;
    };
    for k in keys {
        let (x, y) = (*a.get(&k).unwrap_or(&0) as f64, *b.get(&k).unwrap_or(&0) as f64);
        if x + y < 20.0 {
            ra += x;
            rb += y;
        } else {
            add(x, y);
        }
    }
    if ra + rb > 20.0 {
        add(ra, rb);
    }
    if cells < 2.0 { 0.0 } else { wilson_hilferty(chi, cells - 1.0) }
}
/// Normal score of the chi-square statistic against the uniform distribution on `cells` values.
pub fn uniform_z(h: &BTreeMap<u64, u64>, cells: u64) -> f64 {
    let n: u64 = h.values().sum();
    let e = n as f64 / cells as f64;
    let mut chi = 0.0;
    let mut seen = 0;
    for v in h.values() {
        chi += (*v as f64 - e).powi(2) / e;
        seen += 1;
    }
    chi += (cells - seen) as f64 * e;
    wilson_hilferty(chi, cells as f64 - 1.0)
}

/// Normal score of many independent histograms against the uniform distribution on `cells` values, taken together.
pub fn uniform_z_many(hs: &[Vec<u64>], cells: usize) -> f64 {
    let (mut chi, mut df) = (0.0, 0.0);
    for h in hs {
        let n: u64 = h.iter().sum();
        let e = n as f64 / cells as f64;
        chi += h.iter().map(|v| (*v as f64 - e).powi(2) / e).sum::<f64>();
        df += cells as f64 - 1.0;
    }
    wilson_hilferty(chi, df)
}
/// Which of `cells` equal parts of the field's range the value lies in.
pub fn part<F: PrimeField>(x: F, cells: u64) -> usize {
    let v = (to_big(x) * cells / fmod::<F>()).iter_u64_digits().next().unwrap_or(0);
    v as usize
}

#[macro_export]
macro_rules! any_field {
    ($src:expr, $f:ident $(, $a:expr)*) => {
        match $src.below(8) {
            0 => $f::<ark_bn254::Fr>($src $(, $a)*),
            1 => $f::<ark_bls12_381::Fr>($src $(, $a)*),
            2 => $f::<ark_bn254::Fq>($src $(, $a)*),
            3 => $f::<ark_bls12_381::Fq>($src $(, $a)*),
            4 => $f::<vkit::FGold>($src $(, $a)*),
            5 => $f::<vkit::F61>($src $(, $a)*),
            6 => $f::<ark_bls12_377::Fr>($src $(, $a)*),
            _ => $f::<ark_bls12_377::Fq>($src $(, $a)*),
        }
    };
}
#[macro_export]
macro_rules! any_curve {
    ($src:expr, $f:ident) => {
        match $src.below(7) {
            0 => $f::<ark_bn254::G1Projective>($src),
            1 => $f::<ark_bls12_381::G1Projective>($src),
            2 => $f::<ark_bn254::G2Projective>($src),
            3 => $f::<ark_bls12_381::G2Projective>($src),
            4 => $f::<ark_bls12_377::G1Projective>($src),
            5 => $f::<ark_grumpkin::Projective>($src),
            _ => $f::<ark_bls12_377::G2Projective>($src),
        }
    };
}
