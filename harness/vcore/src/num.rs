//! C01 fixed-width integers, C02 ring elements and bits, C03 field/integer conversion.
use ark_ff::{BigInteger, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use engine::*;
use mpc_core::protocols::rep3_ring::ring::{bit::Bit, int_ring::IntRing2k, ring_impl::RingElement};
use mpc_core::uint::{FieldUint, RUint, U256, U320, U384, U512, U1024, UintBackend};
use num_bigint::BigUint;
use num_traits::{AsPrimitive, One, ToPrimitive, WrappingAdd, WrappingMul, WrappingNeg, WrappingSub, Zero};

fn limbs_of(v: &BigUint, n: usize) -> Vec<u64> {
    let mut l = v.to_u64_digits();
    l.resize(n, 0);
    l
}
fn of_limbs(l: &[u64]) -> BigUint {
    let mut v = BigUint::zero();
    for x in l.iter().rev() {
        v = (v << 64) + x;
    }
    v
}

pub fn uint_from<U: UintBackend>(v: &BigUint) -> U {
    U::from_limbs_truncating(&limbs_of(v, U::LIMBS))
}
pub fn uint_to<U: UintBackend>(u: &U) -> BigUint {
    of_limbs(u.as_limbs())
}

fn shift_amount(s: &mut Src, bits: usize) -> usize {
    match s.weighted(&[4, 2, 2, 1]) {
        0 => s.range(0, bits - 1),
        1 => (s.range(0, bits / 64) * 64 + s.range(0, 2)).saturating_sub(1),
        2 => bits + s.range(0, 70),
        _ => *s.pick(&[bits, bits - 1, 2 * bits, 1 << 20, usize::MAX, usize::MAX / 2]),
    }
}
fn shl(v: &BigUint, k: usize, bits: usize) -> BigUint {
    if k >= bits { BigUint::zero() } else { (v << k) & ((BigUint::one() << bits) - 1u8) }
}
fn shr(v: &BigUint, k: usize, bits: usize) -> BigUint {
    if k >= bits { BigUint::zero() } else { v >> k }
}

fn uint_ops<const B: usize, const L: usize>(s: &mut Src) -> R {
    type T<const B: usize, const L: usize> = RUint<B, L>;
    let m = BigUint::one() << B;
    let (x, y) = (s.big(B), s.big(B));
    let y = match s.below(6) {
        0 => x.clone(),
        1 => (&x + 1u8) % &m,
        2 => (&m - &x) % &m,
        _ => y,
    };
    let k = shift_amount(s, B);
    s.note(|| format!("width {B}: x=0x{x:x} y=0x{y:x} k={k}"));
    s.label(format!("width {B}"));
    if x.bits() > 64 || y.bits() > 64 {
        s.nontrivial();
    }
    let (a, b): (T<B, L>, T<B, L>) = (uint_from(&x), uint_from(&y));
    check_eq!(uint_to(&a), x, "limbs round trip");
    let eq = |name: &str, got: T<B, L>, want: BigUint| -> R {
        check_eq!(uint_to(&got), want, "{name} (width {B}) x=0x{x:x} y=0x{y:x} k={k}");
        Ok(())
    };
    eq("+", a + b, (&x + &y) % &m)?;
    eq("wrapping_add", WrappingAdd::wrapping_add(&a, &b), (&x + &y) % &m)?;
    eq("-", a - b, (&x + &m - &y) % &m)?;
    eq("wrapping_sub", WrappingSub::wrapping_sub(&a, &b), (&x + &m - &y) % &m)?;
    eq("*", a * b, (&x * &y) % &m)?;
    eq("wrapping_mul", WrappingMul::wrapping_mul(&a, &b), (&x * &y) % &m)?;
    eq("neg", -a, (&m - &x) % &m)?;
    eq("wrapping_neg", WrappingNeg::wrapping_neg(&a), (&m - &x) % &m)?;
    eq("!", !a, &m - 1u8 - &x)?;
    eq("^", a ^ b, &x ^ &y)?;
    eq("&", a & b, &x & &y)?;
    eq("|", a | b, &x | &y)?;
    let mut t = a;
    t += b;
    eq("+=", t, (&x + &y) % &m)?;
    let mut t = a;
    t -= b;
    eq("-=", t, (&x + &m - &y) % &m)?;
    let mut t = a;
    t ^= b;
    eq("^=", t, &x ^ &y)?;
    let mut t = a;
    t &= b;
    eq("&=", t, &x & &y)?;
    let mut t = a;
    t |= b;
    eq("|=", t, &x | &y)?;
    eq("<<", a << k, shl(&x, k, B))?;
    eq(">>", a >> k, shr(&x, k, B))?;
    let mut t = a;
    t <<= k;
    eq("<<=", t, shl(&x, k, B))?;
    let mut t = a;
    t >>= k;
    eq(">>=", t, shr(&x, k, B))?;
    if !y.is_zero() {
        eq("/", a / b, &x / &y)?;
        eq("%", a % b, &x % &y)?;
        let mut t = a;
        t /= b;
        eq("/=", t, &x / &y)?;
        let mut t = a;
        t %= b;
        eq("%=", t, &x % &y)?;
    }
    check_eq!(a.cmp(&b), x.cmp(&y), "cmp x={x} y={y}");
    check_eq!(a.partial_cmp(&b), x.partial_cmp(&y), "partial_cmp");
    check_eq!(a == b, x == y, "eq");
    check_eq!(Zero::is_zero(&a), x.is_zero(), "is_zero");
    eq("zero", <T<B, L> as Zero>::zero(), BigUint::zero())?;
    eq("one", <T<B, L> as One>::one(), BigUint::one())?;
    // bits
    check_eq!(a.bit_len(), x.bits() as usize, "bit_len of 0x{x:x}");
    let i = s.range(0, B - 1);
    check_eq!(a.bit(i), x.bit(i as u64), "bit {i} of 0x{x:x}");
    let mut t = a;
    let v = s.bool();
    t.set_bit(i, v);
    let mut want = x.clone();
    want.set_bit(i as u64, v);
    eq("set_bit", t, want)?;
    let k2 = match s.below(3) {
        0 => s.range(0, B),
        1 => s.range(0, L) * 64,
        _ => (s.range(0, L) * 64 + s.range(0, 2)).clamp(1, B + 1) - 1,
    };
    eq("mask", T::<B, L>::mask(k2), (BigUint::one() << k2) - 1u8)?;
    let mut rng = s.rng();
    let r = uint_to(&T::<B, L>::random_bits(&mut rng, k2));
    check!(r.bits() as usize <= k2, "random_bits({k2}) gave {} bits", r.bits());
    // conversions
    let nl = s.range(0, L + 3);
    let raw: Vec<u64> = (0..nl).map(|_| s.word()).collect();
    eq("from_limbs_truncating", T::<B, L>::from_limbs_truncating(&raw), of_limbs(&raw) % &m)?;
    let mut bytes = vec![0u8; L * 8];
    a.to_le_bytes_into(&mut bytes);
    let mut xb = x.to_bytes_le();
    xb.resize(L * 8, 0);
    check_eq!(bytes, xb, "to_le_bytes_into");
    eq("from_le_bytes", T::<B, L>::from_le_bytes(&bytes), x.clone())?;
    check_eq!(a.to_u64_truncating(), (&x & BigUint::from(u64::MAX)).to_u64().unwrap(), "to_u64_truncating");
    check_eq!(a.try_to_usize(), x.to_usize(), "try_to_usize of 0x{x:x}");
    check_eq!(usize::try_from(a).ok(), x.to_usize(), "TryInto usize of 0x{x:x}");
    let big: BigUint = a.into();
    check_eq!(big, x, "into BigUint");
    let big: BigUint = (&a).into();
    check_eq!(big, x, "&into BigUint");
    let wide = match s.below(3) {
        0 => x.clone(),
        1 => &x + &m,
        _ => s.big(B + 64),
    };
    match T::<B, L>::try_from(&wide) {
        Ok(t) => {
            check!(wide < m, "0x{wide:x} does not fit {B} bits but was accepted");
            eq("try_from BigUint", t, wide)?;
        }
        Err(_) => check!(wide >= m, "0x{wide:x} fits {B} bits but was refused"),
    }
    let w = s.word();
    eq("from u64", T::<B, L>::from(w), BigUint::from(w))?;
    let w128 = ((s.word() as u128) << 64) | w as u128;
    eq("from u128", T::<B, L>::from(w128), BigUint::from(w128))?;
    eq("from bool", T::<B, L>::from(v), BigUint::from(v as u8))?;
    let trunc = |n: usize| &x & ((BigUint::one() << n) - 1u8);
    check_eq!(AsPrimitive::<u8>::as_(a), trunc(8).to_u8().unwrap(), "as u8 of 0x{x:x}");
    check_eq!(AsPrimitive::<u16>::as_(a), trunc(16).to_u16().unwrap(), "as u16 of 0x{x:x}");
    check_eq!(AsPrimitive::<u32>::as_(a), trunc(32).to_u32().unwrap(), "as u32 of 0x{x:x}");
    check_eq!(AsPrimitive::<u64>::as_(a), trunc(64).to_u64().unwrap(), "as u64 of 0x{x:x}");
    check_eq!(AsPrimitive::<u128>::as_(a), trunc(128).to_u128().unwrap(), "as u128 of 0x{x:x}");
    check_eq!(AsPrimitive::<Bit>::as_(a), Bit::new(x.bit(0)), "as Bit of 0x{x:x}");
    eq("u8 as", AsPrimitive::<T<B, L>>::as_(w as u8), BigUint::from(w as u8))?;
    eq("u16 as", AsPrimitive::<T<B, L>>::as_(w as u16), BigUint::from(w as u16))?;
    eq("u32 as", AsPrimitive::<T<B, L>>::as_(w as u32), BigUint::from(w as u32))?;
    eq("u64 as", AsPrimitive::<T<B, L>>::as_(w), BigUint::from(w))?;
    eq("u128 as", AsPrimitive::<T<B, L>>::as_(w128), BigUint::from(w128))?;
    eq("Bit as", AsPrimitive::<T<B, L>>::as_(Bit::new(v)), BigUint::from(v as u8))?;
    // text and encodings
    check_eq!(a.to_string(), format!("0x{:0>width$}", x.to_str_radix(16), width = L * 16), "Display");
    let mut ser = vec![];
    a.serialize_compressed(&mut ser).map_err(|e| e.to_string())?;
    check_eq!(ser, xb, "canonical bytes");
    check_eq!(a.compressed_size(), L * 8, "compressed size");
    check_eq!(a.uncompressed_size(), L * 8, "uncompressed size");
    let back = T::<B, L>::deserialize_compressed(&ser[..]).map_err(|e| e.to_string())?;
    eq("canonical round trip", back, x.clone())?;
    let cut = s.range(0, L * 8 - 1);
    check!(T::<B, L>::deserialize_compressed(&ser[..cut]).is_err(), "truncated canonical bytes accepted ({cut})");
    let enc = bincode::serialize(&a).map_err(|e| e.to_string())?;
    eq("bincode", bincode::deserialize(&enc).map_err(|e| e.to_string())?, x.clone())?;
    check!(bincode::deserialize::<T<B, L>>(&enc[..enc.len() - 1]).is_err(), "truncated bincode accepted");
    let js = serde_json::to_string(&a).map_err(|e| e.to_string())?;
    eq("json", serde_json::from_str(&js).map_err(|e| e.to_string())?, x.clone())?;
    Ok(())
}

/// Model view of a ring type.
trait Model: IntRing2k {
    fn of(v: &BigUint) -> Self;
    fn val(&self) -> BigUint;
}
macro_rules! model_prim {
    ($($t:ty, $to:ident);*) => {$(
        impl Model for $t {
            fn of(v: &BigUint) -> Self { v.$to().unwrap() }
            fn val(&self) -> BigUint { BigUint::from(*self) }
        }
    )*};
}
model_prim!(u8, to_u8; u16, to_u16; u32, to_u32; u64, to_u64; u128, to_u128);
impl Model for Bit {
    fn of(v: &BigUint) -> Self {
        Bit::new(!v.is_zero())
    }
    fn val(&self) -> BigUint {
        BigUint::from(self.convert() as u8)
    }
}
impl<const B: usize, const L: usize> Model for RUint<B, L> {
    fn of(v: &BigUint) -> Self {
        uint_from(v)
    }
    fn val(&self) -> BigUint {
        uint_to(self)
    }
}

fn ring_ops<T: Model + std::hash::Hash + Ord>(s: &mut Src) -> R {
    ring_ops_body::<T>(s)
}
fn ring_ops_body<T: Model>(s: &mut Src) -> R {
    let k = T::K;
    let m = BigUint::one() << k;
    let (x, mut y) = (s.big(k), s.big(k));
    match s.below(6) {
        0 => y = x.clone(),
        1 => y = (&m - &x) % &m,
        _ => {}
    }
    let n = if k == 1 { s.range(0, 3) } else { shift_amount(s, k) };
    s.note(|| format!("Z_2^{k}: x={x} y={y} shift={n}"));
    s.label(format!("k={k}"));
    s.nontrivial();
    let (a, b) = (RingElement(T::of(&x)), RingElement(T::of(&y)));
    let name = format!("Z_2^{k} x={x} y={y} shift={n}");
    let eq = |op: &str, got: RingElement<T>, want: BigUint| -> R {
        check_eq!(got.0.val(), want, "{op} in {name}");
        Ok(())
    };
    let sum = (&x + &y) % &m;
    let dif = (&x + &m - &y) % &m;
    let prod = (&x * &y) % &m;
    eq("+", a + b, sum.clone())?;
    eq("+&", a + &b, sum.clone())?;
    eq("-", a - b, dif.clone())?;
    eq("-&", a - &b, dif.clone())?;
    eq("*", a * b, prod.clone())?;
    eq("*&", a * &b, prod.clone())?;
    eq("*T", a * b.0, prod.clone())?;
    eq("*&T", a * &b.0, prod.clone())?;
    macro_rules! assign {
        ($op:tt, $rhs:expr, $want:expr) => {{
            let mut t = a;
            t $op $rhs;
            eq(stringify!($op), t, $want.clone())?;
        }};
    }
    assign!(+=, b, sum);
    assign!(+=, &b, sum);
    assign!(-=, b, dif);
    assign!(-=, &b, dif);
    assign!(*=, b, prod);
    assign!(*=, &b, prod);
    assign!(*=, b.0, prod);
    assign!(*=, &b.0, prod);
    let (xor, or, and) = (&x ^ &y, &x | &y, &x & &y);
    eq("^", a ^ b, xor.clone())?;
    eq("^&", a ^ &b, xor.clone())?;
    eq("|", a | b, or.clone())?;
    eq("|&", a | &b, or.clone())?;
    eq("&", a & b, and.clone())?;
    eq("&&", a & &b, and.clone())?;
    assign!(^=, b, xor);
    assign!(^=, &b, xor);
    assign!(|=, b, or);
    assign!(|=, &b, or);
    assign!(&=, b, and);
    assign!(&=, &b, and);
    eq("neg", -a, (&m - &x) % &m)?;
    eq("!", !a, &m - 1u8 - &x)?;
    eq("!&", !&a, &m - 1u8 - &x)?;
    eq("<<", a << n, shl(&x, n, k))?;
    eq(">>", a >> n, shr(&x, n, k))?;
    assign!(<<=, n, shl(&x, n, k));
    assign!(>>=, n, shr(&x, n, k));
    eq("zero", RingElement::zero(), BigUint::zero())?;
    eq("one", RingElement::one(), BigUint::one())?;
    check_eq!(a.is_zero(), x.is_zero(), "is_zero {name}");
    check_eq!(a == b, x == y, "== {name}");
    check_eq!(a.partial_cmp(&b), x.partial_cmp(&y), "order {name}");
    check_eq!(a.bits(), x.bits() as usize, "bits() {name}");
    let i = s.range(0, k - 1);
    eq("get_bit", a.get_bit(i), BigUint::from(x.bit(i as u64) as u8))?;
    check_eq!(a.convert().val(), x, "convert");
    eq("from", RingElement::from(T::of(&x)), x.clone())?;
    // the trait's own operations
    check_eq!(a.0.wrapping_add(&b.0).val(), sum, "wrapping_add {name}");
    check_eq!(a.0.wrapping_sub(&b.0).val(), dif, "wrapping_sub {name}");
    check_eq!(a.0.wrapping_mul(&b.0).val(), prod, "wrapping_mul {name}");
    check_eq!(a.0.wrapping_neg().val(), (&m - &x) % &m, "wrapping_neg {name}");
    let mut t = a.0;
    t.wrapping_add_assign(&b.0);
    check_eq!(t.val(), sum, "wrapping_add_assign {name}");
    let mut t = a.0;
    t.wrapping_sub_assign(&b.0);
    check_eq!(t.val(), dif, "wrapping_sub_assign {name}");
    let mut t = a.0;
    t.wrapping_mul_assign(&b.0);
    check_eq!(t.val(), prod, "wrapping_mul_assign {name}");
    let mut t = a.0;
    t.wrapping_neg_inplace();
    check_eq!(t.val(), (&m - &x) % &m, "wrapping_neg_inplace {name}");
    // conversions
    check_eq!(uint_to(&a.0.cast_to_uint::<U256>()), &x % (BigUint::one() << 256), "cast to 256 {name}");
    check_eq!(uint_to(&a.0.cast_to_uint::<U512>()), &x % (BigUint::one() << 512), "cast to 512 {name}");
    check_eq!(uint_to(&a.0.cast_to_uint::<U1024>()), x, "cast to 1024 {name}");
    let w = s.big(512);
    check_eq!(T::cast_from_uint(&uint_from::<U512>(&w)).val(), &w % &m, "cast from 512-bit 0x{w:x} to k={k}");
    let w = s.big(320);
    check_eq!(T::cast_from_uint(&uint_from::<U320>(&w)).val(), &w % &m, "cast from 320-bit 0x{w:x} to k={k}");
    check_eq!(TryInto::<usize>::try_into(a.0).ok(), x.to_usize(), "try_into usize {name}");
    let wd = match s.below(3) {
        0 => s.below(3),
        1 => s.word() & ((1u64 << k.min(63)) - 1),
        _ => s.word(),
    };
    match T::try_from(wd) {
        Ok(t) => check_eq!(t.val(), BigUint::from(wd), "try_from({wd}) k={k}"),
        Err(_) => check!(BigUint::from(wd) >= m, "try_from({wd}u64) refused for k={k}"),
    }
    let wd = wd as u128 | (if s.bool() { s.word() as u128 } else { 0 } << 64);
    match T::try_from(wd) {
        Ok(t) => check_eq!(t.val(), BigUint::from(wd), "try_from({wd}) k={k}"),
        Err(_) => check!(BigUint::from(wd) >= m, "try_from({wd}u128) refused for k={k}"),
    }
    let bo = s.bool();
    check_eq!(T::from(bo).val(), BigUint::from(bo as u8), "from bool");
    // encodings
    let mut raw = vec![];
    a.0.write(&mut raw).map_err(|e| e.to_string())?;
    check_eq!(raw.len(), T::BYTES, "written size k={k}");
    let mut xb = x.to_bytes_le();
    xb.resize(T::BYTES, 0);
    check_eq!(raw, xb, "written bytes {name}");
    check_eq!(T::from_reader(&raw[..]).map_err(|e| e.to_string())?.val(), x, "from_reader {name}");
    let mut ser = vec![];
    a.serialize_compressed(&mut ser).map_err(|e| e.to_string())?;
    check_eq!(ser, xb, "canonical bytes {name}");
    check_eq!(a.compressed_size(), T::BYTES, "compressed size");
    eq("canonical", RingElement::deserialize_compressed(&ser[..]).map_err(|e| e.to_string())?, x.clone())?;
    eq("canonical unchecked", RingElement::deserialize_uncompressed_unchecked(&ser[..]).map_err(|e| e.to_string())?, x.clone())?;
    let cut = s.range(0, T::BYTES - 1);
    check!(RingElement::<T>::deserialize_compressed(&ser[..cut]).is_err(), "truncated accepted k={k} cut={cut}");
    let enc = bincode::serialize(&a).map_err(|e| e.to_string())?;
    eq("bincode", bincode::deserialize(&enc).map_err(|e| e.to_string())?, x.clone())?;
    let js = serde_json::to_string(&a).map_err(|e| e.to_string())?;
    eq("json", serde_json::from_str(&js).map_err(|e| e.to_string())?, x.clone())?;
    // vectors
    let len = s.range(0, 6);
    let v: Vec<BigUint> = (0..len).map(|_| s.big(k)).collect();
    let tv: Vec<T> = v.iter().map(T::of).collect();
    let sl: Vec<BigUint> = RingElement::convert_slice_rev(&tv).iter().map(|e| e.0.val()).collect();
    check_eq!(sl, v, "convert_slice_rev");
    let cv: Vec<BigUint> = RingElement::convert_vec_rev(tv).iter().map(|e| e.0.val()).collect();
    check_eq!(cv, v, "convert_vec_rev");
    let sum_it = v.iter().fold(RingElement::<T>::zero(), |acc, e| acc + RingElement(T::of(e)));
    let want = v.iter().fold(BigUint::zero(), |acc, e| (acc + e) % &m);
    eq("fold", sum_it, want)?;
    Ok(())
}

fn cast<A: Model + AsPrimitive<B>, B: Model + Copy + 'static>(s: &mut Src) -> R {
    let x = s.big(A::K);
    let b: B = A::of(&x).as_();
    check_eq!(b.val(), &x & ((BigUint::one() << B::K) - 1u8), "cast of {x} from k={} to k={}", A::K, B::K);
    Ok(())
}

fn casts(s: &mut Src) -> R {
    s.nontrivial();
    macro_rules! all {
        ($($a:ty),*; $bs:tt) => {$( all!(@ $a, $bs); )*};
        (@ $a:ty, ($($b:ty),*)) => {$( cast::<$a, $b>(s)?; )*};
    }
    all!(Bit, u8, u16, u32, u64, u128, U512; (Bit, u8, u16, u32, u64, u128, U512));
    cast::<U1024, u64>(s)?;
    cast::<U1024, Bit>(s)?;
    cast::<U1024, u128>(s)?;
    s.units = 52;
    Ok(())
}

fn bits_special(s: &mut Src) -> R {
    s.nontrivial();
    let v = match s.below(3) {
        0 => s.below(4),
        1 => 1u64 << s.below(64),
        _ => s.word(),
    };
    macro_rules! tf {
        ($($t:ty),*) => {$(
            let w = v as $t;
            match Bit::try_from(w) {
                Ok(b) => check!(w <= 1 && b.convert() == (w == 1), "Bit from {w} ({}) gave {b:?}", stringify!($t)),
                Err(_) => check!(w > 1, "Bit from {w} ({}) refused", stringify!($t)),
            }
        )*};
    }
    tf!(u8, u16, u32, u64, u128, usize);
    let byte = v as u8;
    match <Bit as IntRing2k>::from_reader(&[byte][..]) {
        Ok(b) => check!(byte <= 1 && b.convert() == (byte == 1), "byte {byte} read as {b:?}"),
        Err(_) => check!(byte > 1, "byte {byte} refused"),
    }
    match RingElement::<Bit>::deserialize_compressed(&[byte][..]) {
        Ok(b) => check!(byte <= 1 && b.0.convert() == (byte == 1), "byte {byte} decoded as {b:?}"),
        Err(_) => check!(byte > 1, "byte {byte} not decoded"),
    }
    let b = Bit::new(v & 1 == 1);
    check_eq!(b.to_string(), if v & 1 == 1 { "1" } else { "0" }, "Display");
    check_eq!(u8::from(b), (v & 1) as u8, "u8 from");
    check_eq!(u128::from(b), (v & 1) as u128, "u128 from");
    check_eq!(bool::from(b), v & 1 == 1, "bool from");
    let n = s.range(0, 9);
    let bs: Vec<bool> = (0..n).map(|_| s.bool()).collect();
    check_eq!(Bit::convert_slice_rev(&bs).iter().map(|b| b.convert()).collect::<Vec<_>>(), bs, "bit slice");
    check_eq!(Bit::convert_vec_rev(bs.clone()).iter().map(|b| b.convert()).collect::<Vec<_>>(), bs, "bit vec");
    let (x, y) = (Bit::new(s.bool()), Bit::new(s.bool()));
    check_eq!((x + y).convert(), x.convert() ^ y.convert(), "bit +");
    check_eq!((x - y).convert(), x.convert() ^ y.convert(), "bit -");
    check_eq!((x * y).convert(), x.convert() & y.convert(), "bit *");
    check_eq!((x * &y).convert(), x.convert() & y.convert(), "bit *&");
    check_eq!((x + &y).convert(), x.convert() ^ y.convert(), "bit +&");
    check_eq!((x - &y).convert(), x.convert() ^ y.convert(), "bit -&");
    check_eq!((-x).convert(), x.convert(), "bit neg");
    Ok(())
}

pub fn fe<F: PrimeField>(v: &BigUint) -> F {
    F::from(v.clone())
}
pub fn fval<F: PrimeField>(f: &F) -> BigUint {
    BigUint::from_bytes_le(&f.into_bigint().to_bytes_le())
}

fn field_conv<F: FieldUint>(s: &mut Src) -> R {
    let p: BigUint = F::MODULUS.into();
    let bits = F::Uint::BITS;
    check_eq!(uint_to(&F::modulus_uint()), p, "modulus");
    check!(bits >= F::MODULUS_BIT_SIZE as usize + 2, "integer type too narrow: {bits} bits");
    let x = s.modular(&p);
    let w = match s.below(4) {
        0 => &x + &p,
        1 => (&p * BigUint::from(s.below(5)) + s.below(2)) % (BigUint::one() << bits),
        _ => s.big(bits),
    } % (BigUint::one() << bits);
    s.note(|| format!("p of {} bits: x=0x{x:x} w=0x{w:x}", p.bits()));
    s.label(format!("{}-bit field in {bits} bits", p.bits()));
    s.nontrivial();
    let f: F = fe(&x);
    check_eq!(fval(&f), x, "harness conversion");
    let u = f.to_uint();
    check_eq!(uint_to(&u), x, "to_uint");
    check!(u < F::modulus_uint(), "representative not below the modulus");
    check_eq!(F::from_uint_unchecked(&u), f, "from_uint_unchecked(to_uint) of {x}");
    check_eq!(F::from_uint_reduced(&u), f, "from_uint_reduced(to_uint) of {x}");
    let wu: F::Uint = uint_from(&w);
    check_eq!(fval(&F::from_uint_reduced(&wu)), &w % &p, "from_uint_reduced of 0x{w:x}");
    // linear: reduction is a ring homomorphism on integers
    let y = s.modular(&p);
    let fy: F = fe(&y);
    let sum: F::Uint = uint_from(&(&x + &y));
    check_eq!(F::from_uint_reduced(&sum), f + fy, "reduction of a sum");
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "operands drawn with bias to 0, small, all-ones, powers of two +-1, limb patterns; non-trivial: an operand spans more than one 64-bit limb; every case checks about 70 operations and conversions against num-bigint",
            assumptions: "num-bigint is the reference for integer arithmetic",
            subs: vec![
                Sub::new("uint256", 600_000, 60_000_000, uint_ops::<256, 4>),
                Sub::new("uint320", 400_000, 40_000_000, uint_ops::<320, 5>),
                Sub::new("uint384", 400_000, 40_000_000, uint_ops::<384, 6>),
                Sub::new("uint512", 400_000, 40_000_000, uint_ops::<512, 8>),
                Sub::new("uint1024", 300_000, 30_000_000, uint_ops::<1024, 16>),
                Sub::new("uint128", 200_000, 20_000_000, uint_ops::<128, 2>),
            ],
        },
        Property {
            id: "C02",
            rule: "operand pairs, shift amounts (also at and above the width), bit positions and encodings for each ring; every case is non-trivial and checks about 60 operations against integers mod 2^k",
            assumptions: "num-bigint is the reference; bit positions are below the ring width",
            subs: vec![
                Sub::new("ring_bit", 40_000, 2_000_000, ring_ops_body::<Bit>),
                Sub::new("ring_u8", 400_000, 40_000_000, ring_ops::<u8>),
                Sub::new("ring_u16", 400_000, 40_000_000, ring_ops::<u16>),
                Sub::new("ring_u32", 400_000, 40_000_000, ring_ops::<u32>),
                Sub::new("ring_u64", 400_000, 40_000_000, ring_ops::<u64>),
                Sub::new("ring_u128", 400_000, 40_000_000, ring_ops::<u128>),
                Sub::new("ring_u512", 200_000, 20_000_000, ring_ops::<U512>),
                Sub::new("ring_u1024", 100_000, 10_000_000, ring_ops::<U1024>),
                Sub::new("casts", 300_000, 20_000_000, casts),
                Sub::new("bit_conversions", 300_000, 10_000_000, bits_special),
            ],
        },
        Property {
            id: "C03",
            rule: "field elements biased to 0, 1, p-1, (p-1)/2, powers of two; integers biased to multiples of p, p +- 1 and the full width; every case is non-trivial",
            assumptions: "num-bigint and ark-ff's conversion from big integers are the reference",
            subs: vec![
                Sub::new("bn254_fr", 400_000, 40_000_000, field_conv::<ark_bn254::Fr>),
                Sub::new("bn254_fq", 400_000, 40_000_000, field_conv::<ark_bn254::Fq>),
                Sub::new("bls12_377_fr", 400_000, 40_000_000, field_conv::<ark_bls12_377::Fr>),
                Sub::new("bls12_377_fq", 400_000, 40_000_000, field_conv::<ark_bls12_377::Fq>),
                Sub::new("bls12_381_fr", 400_000, 40_000_000, field_conv::<ark_bls12_381::Fr>),
                Sub::new("bls12_381_fq", 400_000, 40_000_000, field_conv::<ark_bls12_381::Fq>),
                Sub::new("grumpkin_fr", 200_000, 20_000_000, field_conv::<ark_grumpkin::Fr>),
            ],
        },
    ]
}
