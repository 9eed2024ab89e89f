//! Offline stand-in for the part of swanky's `fancy-garbling` used by co-snarks.
//!
//! Free-XOR labels over Z_2 with point-and-permute, the `Fancy` traits and `BinaryBundle`.
//! The hash is Blake3 instead of fixed-key AES; everything co-snarks itself implements on top
//! (half gates, garbler, evaluator, circuits) is untouched.
use rand::{CryptoRng, Rng, RngCore};
use scuttlebutt::Block;
use subtle::{Choice, ConditionallySelectable};

pub mod errors {
    use std::fmt;
    #[derive(Debug)]
    pub enum FancyError {
        UninitializedValue,
        InvalidArg(String),
        InvalidArgNum { got: usize, needed: usize },
        InvalidArgMod { got: u16, needed: u16 },
        ArgNotBinary,
        NoTruthTable,
        InvalidTruthTable,
        UnequalModuli,
    }
    impl fmt::Display for FancyError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for FancyError {}

    macro_rules! err {
        ($n:ident) => {
            #[derive(Debug)]
            pub enum $n {
                CommunicationError(String),
                FancyError(FancyError),
            }
            impl fmt::Display for $n {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    write!(f, "{self:?}")
                }
            }
            impl std::error::Error for $n {}
            impl From<FancyError> for $n {
                fn from(e: FancyError) -> Self {
                    $n::FancyError(e)
                }
            }
        };
    }
    #[derive(Debug)]
    pub enum EvaluatorError {
        CommunicationError(String),
        DecodingFailed,
        FancyError(FancyError),
    }
    impl fmt::Display for EvaluatorError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for EvaluatorError {}
    impl From<FancyError> for EvaluatorError {
        fn from(e: FancyError) -> Self {
            EvaluatorError::FancyError(e)
        }
    }
    err!(GarblerError);
}
pub use errors::FancyError;

pub mod util {
    use scuttlebutt::Block;
    pub fn tweak(i: usize) -> Block {
        Block::from_u128(i as u128)
    }
    pub fn tweak2(i: u64, j: u64) -> Block {
        Block::from_u128(((i as u128) << 64) | j as u128)
    }
    pub fn output_tweak(i: usize, k: u16) -> Block {
        let (left, _) = (i as u128).overflowing_shl(64);
        Block::from_u128(left.wrapping_add(k as u128).wrapping_add(1 << 127))
    }
}

/// Anything with a modulus.
pub trait HasModulus {
    fn modulus(&self) -> u16;
}

pub trait WireLabel: Clone + HasModulus + Sized {
    fn as_block(&self) -> Block;
    fn color(&self) -> u16;
    fn plus_eq<'a>(&'a mut self, other: &Self) -> &'a mut Self;
    fn cmul_eq(&mut self, c: u16) -> &mut Self;
    fn negate_eq(&mut self) -> &mut Self;
    fn from_block(inp: Block, q: u16) -> Self;
    fn zero(q: u16) -> Self;
    fn rand<R: CryptoRng + RngCore>(rng: &mut R, q: u16) -> Self;
    fn rand_delta<R: CryptoRng + Rng>(rng: &mut R, q: u16) -> Self;
    fn hash_to_mod(hash: Block, q: u16) -> Self;

    fn plus(&self, other: &Self) -> Self {
        self.clone().plus_mov(other)
    }
    fn plus_mov(mut self, other: &Self) -> Self {
        self.plus_eq(other);
        self
    }
    fn cmul(&self, c: u16) -> Self {
        let mut s = self.clone();
        s.cmul_eq(c);
        s
    }
    fn cmul_mov(mut self, c: u16) -> Self {
        self.cmul_eq(c);
        self
    }
    fn minus(&self, other: &Self) -> Self {
        let mut o = other.clone();
        o.negate_eq();
        o.plus_mov(self)
    }
    fn hash(&self, tweak: Block) -> Block {
        let mut h = blake3::Hasher::new();
        h.update(tweak.as_ref());
        h.update(self.as_block().as_ref());
        let mut out = Block::default();
        out.as_mut().copy_from_slice(&h.finalize().as_bytes()[..16]);
        out
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Default, Debug)]
pub struct WireMod2 {
    val: Block,
}
impl HasModulus for WireMod2 {
    fn modulus(&self) -> u16 {
        2
    }
}
impl ConditionallySelectable for WireMod2 {
    fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
        WireMod2 {
            val: Block::conditional_select(&a.val, &b.val, choice),
        }
    }
}
impl WireLabel for WireMod2 {
    fn as_block(&self) -> Block {
        self.val
    }
    fn color(&self) -> u16 {
        (self.val.to_u128() & 1) as u16
    }
    fn plus_eq<'a>(&'a mut self, other: &Self) -> &'a mut Self {
        self.val ^= other.val;
        self
    }
    fn cmul_eq(&mut self, c: u16) -> &mut Self {
        if c & 1 == 0 {
            self.val = Block::default();
        }
        self
    }
    fn negate_eq(&mut self) -> &mut Self {
        // -x = x mod 2 (labels are vectors over Z_2)
        self
    }
    fn from_block(inp: Block, q: u16) -> Self {
        assert_eq!(q, 2, "[WireMod2::from_block] expected modulus 2");
        WireMod2 { val: inp }
    }
    fn zero(q: u16) -> Self {
        assert_eq!(q, 2);
        WireMod2::default()
    }
    fn rand<R: CryptoRng + RngCore>(rng: &mut R, q: u16) -> Self {
        assert_eq!(q, 2);
        WireMod2 { val: rng.r#gen() }
    }
    fn rand_delta<R: CryptoRng + Rng>(rng: &mut R, q: u16) -> Self {
        let mut w = Self::rand(rng, q);
        w.val = Block::from_u128(w.val.to_u128() | 1);
        w
    }
    fn hash_to_mod(hash: Block, q: u16) -> Self {
        Self::from_block(hash, q)
    }
}

/// Hash a batch of wires with the same tweak.
pub fn hash_wires<const Q: usize, W: WireLabel>(wires: [&W; Q], tweak: Block) -> [Block; Q] {
    wires.map(|w| w.hash(tweak))
}

pub trait Fancy {
    type Item: Clone + HasModulus;
    type Error: std::fmt::Debug + std::fmt::Display + From<FancyError>;

    fn constant(&mut self, x: u16, q: u16) -> Result<Self::Item, Self::Error>;
    fn output(&mut self, x: &Self::Item) -> Result<Option<u16>, Self::Error>;
    fn outputs(&mut self, xs: &[Self::Item]) -> Result<Option<Vec<u16>>, Self::Error> {
        let mut zs = Vec::with_capacity(xs.len());
        for x in xs.iter() {
            zs.push(self.output(x)?);
        }
        Ok(zs.into_iter().collect())
    }
}

pub trait FancyBinary: Fancy {
    fn xor(&mut self, x: &Self::Item, y: &Self::Item) -> Result<Self::Item, Self::Error>;
    fn and(&mut self, x: &Self::Item, y: &Self::Item) -> Result<Self::Item, Self::Error>;
    fn negate(&mut self, x: &Self::Item) -> Result<Self::Item, Self::Error>;
    fn or(&mut self, x: &Self::Item, y: &Self::Item) -> Result<Self::Item, Self::Error> {
        let notx = self.negate(x)?;
        let noty = self.negate(y)?;
        let z = self.and(&notx, &noty)?;
        self.negate(&z)
    }
    /// `x` if `b` is 0, else `y`.
    fn mux(&mut self, b: &Self::Item, x: &Self::Item, y: &Self::Item) -> Result<Self::Item, Self::Error> {
        let d = self.xor(x, y)?;
        let s = self.and(b, &d)?;
        self.xor(&s, x)
    }
}

#[derive(Clone, Debug)]
pub struct BinaryBundle<W>(Vec<W>);

impl<W> BinaryBundle<W> {
    pub fn new(ws: Vec<W>) -> BinaryBundle<W> {
        BinaryBundle(ws)
    }
    pub fn wires(&self) -> &[W] {
        &self.0
    }
    pub fn size(&self) -> usize {
        self.0.len()
    }
    pub fn iter(&self) -> std::slice::Iter<'_, W> {
        self.0.iter()
    }
    pub fn extract(self) -> BinaryBundle<W> {
        self
    }
}
