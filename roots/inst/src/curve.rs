//! Instances of the short-Weierstrass curve operations: one curve with a = 0 over a field without a spare bit, one with
//! a != 0 (and a cofactor) over a field with a spare bit.
use openzeppelin_crypto::{
    arithmetic::uint::U256,
    curve::{batch_inversion, sw::{Affine, Projective, SWCurveConfig}, AffineRepr, CurveConfig, CurveGroup, PrimeGroup},
    field::{fp::{Fp256, FpParams, LIMBS_256}, group::AdditiveGroup, instance::{FpPallas, FpVesta}},
    fp_from_num, from_num,
};
pub struct SecpFq;
impl FpParams<LIMBS_256> for SecpFq {
    const GENERATOR: Fp256<Self> = fp_from_num!("3");
    const MODULUS: U256 = from_num!("115792089237316195423570985008687907853269984665640564039457584007908834671663");
}
pub struct SecpFr;
impl FpParams<LIMBS_256> for SecpFr {
    const GENERATOR: Fp256<Self> = fp_from_num!("7");
    const MODULUS: U256 = from_num!("115792089237316195423570985008687907852837564279074904382605163141518161494337");
}
#[derive(Clone, Default, PartialEq, Eq)]
pub struct Secp;
impl CurveConfig for Secp {
    type BaseField = Fp256<SecpFq>;
    type ScalarField = Fp256<SecpFr>;
    const COFACTOR: &'static [u64] = &[1, 0];
    const COFACTOR_INV: Self::ScalarField = Fp256::<SecpFr>::ONE;
}
impl SWCurveConfig for Secp {
    const COEFF_A: Self::BaseField = Fp256::<SecpFq>::ZERO;
    const COEFF_B: Self::BaseField = fp_from_num!("7");
    const GENERATOR: Affine<Self> = Affine::new_unchecked(
        fp_from_num!("55066263022277343669578718895168534326250603453777594175500187360389116729240"),
        fp_from_num!("32670510020758816978083085130507043184471273380659243275938904335757337482424"));
}
#[derive(Clone, Default, PartialEq, Eq)]
pub struct Aff;
impl CurveConfig for Aff {
    type BaseField = FpVesta;
    type ScalarField = FpPallas;
    const COFACTOR: &'static [u64] = &[8];
    const COFACTOR_INV: Self::ScalarField = fp_from_num!("5");
}
impl SWCurveConfig for Aff {
    const COEFF_A: FpVesta = fp_from_num!("5");
    const COEFF_B: FpVesta = fp_from_num!("13");
    const GENERATOR: Affine<Self> = Affine::new_unchecked(fp_from_num!("1"), fp_from_num!("2"));
}
macro_rules! curves {
    ($($m:ident $p:ty;)*) => { $(pub mod $m {
        use super::*;
        type A = Affine<$p>; type G = Projective<$p>; type F = <$p as CurveConfig>::BaseField; type R = <$p as CurveConfig>::ScalarField;
        pub fn eqs(a: &A, b: &A, g: &G, h: &G) -> (bool, bool, bool, bool) { (a == b, g == h, a == g, g == a) }
        pub fn zero(a: &A, g: &G) -> (A, A, A, G, G, bool, bool) { (A::zero(), A::identity(), A::default(), gz::<G>(), G::default(), a.is_zero(), gi(g)) }
        pub fn double(g: &mut G) -> G { g.double_in_place(); g.double() }
        pub fn neg(g: &mut G, a: A) -> (G, A) { g.neg_in_place(); (-*g, -a) }
        pub fn add(g: G, h: G, k: &mut G) -> [G; 6] { [g + h, g + &h, g + &mut *k, &g + h, &g + &h, &g + k] }
        pub fn sub(g: G, h: G, k: &mut G) -> [G; 6] { [g - h, g - &h, g - &mut *k, &g - h, &g - &h, &g - k] }
        pub fn adda(g: &mut G, h: G, k: &mut G) { *g += h; *g += &h; *g += &mut *k; *g -= h; *g -= &h; *g -= k; }
        pub fn mixed(g: &mut G, a: A) -> [G; 4] { *g += a; *g += &a; *g -= a; *g -= &a; [*g + a, *g + &a, *g - a, *g - &a] }
        pub fn affine(a: A, b: A, g: G) -> [G; 8] { [a + b, a + &b, a - b, a - &b, a + g, a + &g, a - g, a - &g] }
        pub fn conv(a: A, g: G) -> (G, G, A, A) { (G::from(a), a.into_group(), A::from(g), g.into_affine()) }
        pub fn batch(v: &[G], z: &mut [F]) -> Vec<A> { batch_inversion(z); G::normalize_batch(v) }
        pub fn on(a: &A) -> (bool, bool, bool) { (a.is_on_curve(), a.is_in_correct_subgroup_assuming_on_curve(), <$p as CurveConfig>::cofactor_is_one()) }
        pub fn xy(a: &A) -> (Option<(F, F)>, Option<F>, Option<F>, A, G) { (a.xy(), a.x(), a.y(), A::generator(), G::generator()) }
        pub fn mk(x: F, y: F, z: F) -> (A, G) { (A::new(x, y), G::new(x, y, z)) }
        pub fn mul(g: &G, a: &A, k: U256, n: u32, r: R) -> [G; 7] { [g.mul_bigint(k), g.mul_bigint(n), a.mul_bigint(k), a.mul_bigint(n), *g * r, *a * r, *g * &r] }
        pub fn mula(g: &mut G, r: R) { *g *= r; *g *= &r; }
        pub fn muln(g: &G, a: &A, n: u8) -> (G, G) { (g.mul_bigint(n), a.mul_bigint(n)) }
        pub fn bits(g: &G, it: alloc::vec::IntoIter<bool>) -> G { g.mul_bits_be(it) }
        pub fn cof(a: &A) -> (A, G, A, A) { (a.clear_cofactor(), a.mul_by_cofactor_to_group(), a.mul_by_cofactor(), a.mul_by_cofactor_inv()) }
        pub fn sum(v: &[G], w: &[A]) -> (G, G) { (v.iter().sum(), w.iter().sum()) }
    })* };
}
curves! { secp Secp; aff Aff; }
fn gz<T: AdditiveGroup>() -> T { T::zero() }
fn gi<T: AdditiveGroup>(a: &T) -> bool { a.is_zero() }
