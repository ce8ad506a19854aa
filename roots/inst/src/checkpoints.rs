//! Instances of the checkpoint history, for each of the three sizes.
use alloy_primitives::{Uint, U256, U32};
use openzeppelin_stylus::utils::structs::checkpoints::{Error, Trace, S160, S208, S224};
macro_rules! inst {
    ($m:ident, $s:ty, $k:ty, $v:ty) => {
        pub mod $m {
            use super::*;
            pub fn push(t: &mut Trace<$s>, k: $k, v: $v) -> Result<($v, $v), Error> { t.push(k, v) }
            pub fn lower_lookup(t: &Trace<$s>, k: $k) -> $v { t.lower_lookup(k) }
            pub fn upper_lookup(t: &Trace<$s>, k: $k) -> $v { t.upper_lookup(k) }
            pub fn upper_lookup_recent(t: &Trace<$s>, k: $k) -> $v { t.upper_lookup_recent(k) }
            pub fn latest(t: &Trace<$s>) -> $v { t.latest() }
            pub fn latest_checkpoint(t: &Trace<$s>) -> Option<($k, $v)> { t.latest_checkpoint() }
            pub fn length(t: &Trace<$s>) -> U256 { t.length() }
            pub fn at(t: &Trace<$s>, p: U32) -> ($k, $v) { t.at(p) }
        }
    };
}
inst!(s160, S160, Uint<96, 2>, Uint<160, 3>);
inst!(s224, S224, Uint<32, 1>, Uint<224, 4>);
inst!(s208, S208, Uint<48, 1>, Uint<208, 4>);
