//! Offline stand-in for the part of swanky's `scuttlebutt` used by co-snarks: a 128-bit block.
use rand::distributions::{Distribution, Standard};
use rand::Rng;
use subtle::{Choice, ConditionallySelectable};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, Debug, PartialOrd, Ord)]
#[repr(C, align(16))]
pub struct Block(pub [u8; 16]);

impl Block {
    pub fn to_u128(self) -> u128 {
        u128::from_le_bytes(self.0)
    }
    pub fn from_u128(v: u128) -> Self {
        Block(v.to_le_bytes())
    }
}
impl AsRef<[u8]> for Block {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl AsMut<[u8]> for Block {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl std::ops::BitXor for Block {
    type Output = Block;
    fn bitxor(self, o: Block) -> Block {
        Block::from_u128(self.to_u128() ^ o.to_u128())
    }
}
impl std::ops::BitXorAssign for Block {
    fn bitxor_assign(&mut self, o: Block) {
        *self = *self ^ o;
    }
}
impl ConditionallySelectable for Block {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        Block::from_u128(u128::conditional_select(&a.to_u128(), &b.to_u128(), c))
    }
}
impl Distribution<Block> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Block {
        Block::from_u128(rng.r#gen())
    }
}
