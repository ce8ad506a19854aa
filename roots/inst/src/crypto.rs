//! Instances of the limb arithmetic, the prime fields and their conversions.
use openzeppelin_crypto::{
    arithmetic::{uint::{Uint, WideUint, from_str_hex, from_str_radix}, BigInteger},
    bits::BitIteratorBE,
    field::{fp::{Fp, FpParams}, group::AdditiveGroup, instance::*, prime::PrimeField, Field},
};
use core::cmp::Ordering;
macro_rules! uints {
    ($($m:ident $n:expr),*) => { $(pub mod $m {
        use super::*;
        type U = Uint<$n>;
        pub fn f1(a: &U, b: &U) -> (bool, bool, bool, bool, bool, bool, bool) { (a.ct_ge(b), a.ct_gt(b), a.ct_le(b), a.ct_lt(b), a.ct_eq(b), a.ct_ne(b), a.ct_is_zero()) }
        pub fn f2(a: &U, i: usize) -> (bool, bool, usize, bool) { (a.ct_is_odd(), a.ct_is_even(), a.ct_num_bits(), a.ct_get_bit(i)) }
        pub fn f3(a: &U, i: usize) -> (bool, bool, bool, usize, bool) { (a.is_odd(), a.is_even(), a.is_zero(), a.num_bits(), a.get_bit(i)) }
        pub fn f4(a: &mut U, b: &U) -> (bool, bool, bool) { a.div2_assign(); (a.checked_mul2_assign(), a.checked_add_assign(b), a.checked_sub_assign(b)) }
        pub fn f5(a: U, b: &U) -> ((U, bool), (U, bool), U, U) { (a.ct_checked_sub(b), a.ct_checked_add(b), a.ct_wrapping_sub(b), a.ct_wrapping_add(b)) }
        pub fn f6(a: &U, b: &U, c: u64) -> ((U, U), U, U, (U, u64)) { (a.ct_widening_mul(b), a.ct_mul(b), a.ct_add(b), a.ct_adc(b, c)) }
        pub fn f7(a: &[u8]) -> (U, U) { (U::ct_from_le_slice(a), U::from_bytes_le(a)) }
        pub fn f8(a: U) -> Vec<u8> { a.into_bytes_le() }
        pub fn f9(a: u8, b: u16, c: u32, d: u64, e: usize, f: u128) -> [U; 12] { [U::from_u8(a), U::from_u16(b), U::from_u32(c), U::from_u64(d), U::from_usize(e), U::from_u128(f), a.into(), b.into(), c.into(), d.into(), e.into(), f.into()] }
        pub fn g1(a: &U, b: &U) -> (Ordering, Option<Ordering>) { (a.cmp(b), a.partial_cmp(b)) }
        pub fn g2(mut a: U, b: U) -> (U, U, U, U) { let r = (a ^ b, a & b, a | b, !a); a ^= b; a &= b; a |= b; let _ = a; r }
        pub fn g3(a: &WideUint<$n>, b: &U, i: usize) -> (U, usize, bool) { (a.ct_rem(b), a.ct_num_bits(), a.ct_get_bit(i)) }
        pub fn g4(a: &str, r: u32) -> (U, U) { (from_str_radix(a, r), from_str_hex(a)) }
        pub fn g5(a: U) -> usize { a.bit_be_iter().count() }
    })* };
}
uints!(u1 1, u4 4);
macro_rules! fields {
    ($($m:ident $p:ty, $n:expr;)*) => { $(pub mod $m {
        use super::*;
        type F = Fp<$p, $n>;
        pub fn f1(mut a: F, b: &F) -> F {
            <$p as FpParams<$n>>::add_assign(&mut a, b); <$p as FpParams<$n>>::sub_assign(&mut a, b); <$p as FpParams<$n>>::mul_assign(&mut a, b);
            <$p as FpParams<$n>>::double_in_place(&mut a); <$p as FpParams<$n>>::neg_in_place(&mut a); <$p as FpParams<$n>>::square_in_place(&mut a); a
        }
        pub fn f2(a: &F) -> Option<F> { <$p as FpParams<$n>>::inverse(a) }
        pub fn f3(a: Uint<$n>) -> (F, F, F, F) { (<$p as FpParams<$n>>::from_bigint(a), F::new(a), F::from(a), <F as PrimeField>::from_bigint(a)) }
        pub fn f4(a: F) -> (Uint<$n>, Uint<$n>, Uint<$n>) { (<$p as FpParams<$n>>::into_bigint(a), PrimeField::into_bigint(a), a.into()) }
        pub fn f5(a: F, b: F) -> (F, F, F, F, F, F, F) { (a + b, a - b, a * b, a / b, -a, a.double(), a.square()) }
        pub fn f6(a: F, b: &F) -> (F, F, F, F) { (a + b, a - b, a * b, a / b) }
        pub fn f7(a: &F, b: &F) -> (F, F, F, F) { (a + b, a - b, a * b, a / b) }
        pub fn f8(mut a: F, b: F, c: &F) -> F { a += b; a -= b; a *= b; a /= b; a += c; a -= c; a *= c; a /= c; a }
        pub fn f9(a: &F, b: &F) -> (bool, bool, Ordering, bool) { (a == b, num_zero(a), a.cmp(b), num_one(a)) }
        pub fn g1(a: u8, b: u16, c: u32, d: u64, e: u128, f: bool) -> [F; 6] { [a.into(), b.into(), c.into(), d.into(), e.into(), f.into()] }
        pub fn g2(a: i8, b: i16, c: i32, d: i64, e: i128) -> [F; 5] { [a.into(), b.into(), c.into(), d.into(), e.into()] }
        pub fn g3(a: &F, e: u32, f: Uint<4>, g: u8, h: u64) -> (F, F, F, F) { (a.pow(e), a.pow(f), a.pow(g), a.pow(h)) }
        pub fn g4(a: &F) -> Option<F> { a.inverse() }
        pub fn g5(a: &[F; 3], b: &[F; 3]) -> F { F::sum_of_products(a, b) }
        pub fn g6(a: &mut F) -> bool { a.double_in_place(); a.neg_in_place(); a.square_in_place(); a.inverse_in_place().is_some() }
        pub fn g7() -> (F, F) { (F::ONE, F::ZERO) }
        pub fn g9(a: &[F], b: Vec<F>, c: Vec<F>) -> (F, F, F, F) { (a.iter().sum(), b.into_iter().sum(), a.iter().product(), c.into_iter().product()) }
        pub fn g8(a: &F) -> bool { a.is_ge_modulus() }
    })* };
}
fn num_zero<T: Field>(a: &T) -> bool { a.is_zero() }
fn num_one<T: Field>(a: &T) -> bool { a.is_one() }
use crate::curve::SecpFq;
fields!(secp SecpFq, 4; vesta VestaParam, 4; babybear BabyBearParam, 1; bls12 BLS12Param, 4; bn256 BN256Param, 4; goldilocks GoldiLocksParam, 1; pallas PallasParam, 4;);
pub mod small {
    use super::*;
    macro_rules! back { ($($f:ident $p:ty),*) => { $(pub fn $f(a: Fp<$p, 1>) -> (u128, u64, u32, u16, u8, i128, i64, i32, i16, i8) { (a.into(), a.into(), a.into(), a.into(), a.into(), a.into(), a.into(), a.into(), a.into(), a.into()) })* } }
    back!(babybear BabyBearParam, goldilocks GoldiLocksParam);
}
/// Hash helpers over the library's Keccak hasher.
pub mod hash {
    use openzeppelin_crypto::{hash::{commutative_hash_pair, hash_pair, BuildHasher, Hasher}, KeccakBuilder};
    pub fn one(a: [u8; 32]) -> [u8; 32] { KeccakBuilder.hash_one(a) }
    pub fn pair(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] { hash_pair(a, b, KeccakBuilder.build_hasher()) }
    pub fn commutative(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] { commutative_hash_pair(a, b, KeccakBuilder.build_hasher()) }
    pub fn bytes(a: &[u8], b: &[u8]) -> [u8; 32] { let mut h = KeccakBuilder.build_hasher(); h.update(a); h.update(b); h.finalize() }
}
