#![allow(warnings)]
use vstd::prelude::*;
/// the text that a format with plain holes makes
macro_rules! cat {
    (@ $s:expr; d $e:expr $(; $($r:tt)*)?) => { cat!(@ $s.add($crate::VShow::v_to_string(&$e).as_bytes()); $($($r)*)?) };
    (@ $s:expr; b $e:literal $(; $($r:tt)*)?) => { cat!(@ $s.add($e); $($($r)*)?) };
    (@ $s:expr;) => { $s };
    ($($r:tt)*) => { cat!(@ $crate::String::empty(); $($r)*) };
}
