//! Instances of the Poseidon2 sponge: the shipped parameter sets, and small ones for the other supported state sizes.
use openzeppelin_crypto::{
    field::instance::*, fp_from_num,
    poseidon2::{instance::{babybear::BabyBear24Params, bls12::{BLS2Params, BLS3Params, BLS4Params}, bn256::BN256Params, goldilocks::Goldilocks12Params, pallas::PallasParams, vesta::VestaParams}, params::PoseidonParams, Poseidon2},
};
macro_rules! small {
    ($($n:ident $t:expr, $c:expr, [$($d:literal)*], [$([$($k:literal)*])*];)*) => { $(pub struct $n;
    impl PoseidonParams<FpBabyBear> for $n {
        const T: usize = $t; const D: u8 = 7; const CAPACITY: usize = $c; const ROUNDS_F: usize = 2; const ROUNDS_P: usize = 2;
        const MAT_INTERNAL_DIAG_M_1: &'static [FpBabyBear] = &[$(fp_from_num!($d)),*];
        const ROUND_CONSTANTS: &'static [&'static [FpBabyBear]] = &[$(&[$(fp_from_num!($k)),*]),*];
    })* };
}
small! {
    Small8 8, 2, ["11" "12" "13" "14" "15" "16" "17" "18"], [["101" "102" "103" "104" "105" "106" "107" "108"] ["201" "202" "203" "204" "205" "206" "207" "208"] ["301" "302" "303" "304" "305" "306" "307" "308"] ["401" "402" "403" "404" "405" "406" "407" "408"]];
    Small16 16, 3, ["11" "12" "13" "14" "15" "16" "17" "18" "19" "20" "21" "22" "23" "24" "25" "26"], [["101" "102" "103" "104" "105" "106" "107" "108" "109" "110" "111" "112" "113" "114" "115" "116"] ["201" "202" "203" "204" "205" "206" "207" "208" "209" "210" "211" "212" "213" "214" "215" "216"] ["301" "302" "303" "304" "305" "306" "307" "308" "309" "310" "311" "312" "313" "314" "315" "316"] ["401" "402" "403" "404" "405" "406" "407" "408" "409" "410" "411" "412" "413" "414" "415" "416"]];
    Small20 20, 4, ["11" "12" "13" "14" "15" "16" "17" "18" "19" "20" "21" "22" "23" "24" "25" "26" "27" "28" "29" "30"], [["101" "102" "103" "104" "105" "106" "107" "108" "109" "110" "111" "112" "113" "114" "115" "116" "117" "118" "119" "120"] ["201" "202" "203" "204" "205" "206" "207" "208" "209" "210" "211" "212" "213" "214" "215" "216" "217" "218" "219" "220"] ["301" "302" "303" "304" "305" "306" "307" "308" "309" "310" "311" "312" "313" "314" "315" "316" "317" "318" "319" "320"] ["401" "402" "403" "404" "405" "406" "407" "408" "409" "410" "411" "412" "413" "414" "415" "416" "417" "418" "419" "420"]];
}
macro_rules! sponges {
    ($($m:ident $p:ty, $f:ty;)*) => { $(pub mod $m {
        use super::*;
        type S = Poseidon2<$p, $f>;
        pub fn f1() -> (S, S, usize) { (S::new(), S::default(), S::state_size()) }
        pub fn f2(s: &mut S, e: &$f) { s.absorb(e) }
        pub fn f3(s: &mut S, e: &[$f]) { s.absorb_batch(e) }
        pub fn f4(s: &mut S) { s.permute() }
        pub fn f5(s: &mut S) -> $f { s.squeeze() }
        pub fn f6(s: &mut S, n: usize) -> Vec<$f> { s.squeeze_batch(n) }
    })* };
}
sponges! {
    babybear BabyBear24Params, FpBabyBear; bls2 BLS2Params, FpBLS12; bls3 BLS3Params, FpBLS12; bls4 BLS4Params, FpBLS12; bn256 BN256Params, FpBN256;
    goldilocks Goldilocks12Params, FpGoldiLocks; pallas PallasParams, FpPallas; vesta VestaParams, FpVesta;
    small8 Small8, FpBabyBear; small16 Small16, FpBabyBear; small20 Small20, FpBabyBear;
}
