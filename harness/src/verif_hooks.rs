//! Stand-ins for the hooks of the crate (built only when those do not compile against the
//! working tree): the checks leave out the scenarios that need them.
use num_complex::Complex;
use std::iter::{empty, Empty};

pub fn bch_stream_encode<I: Iterator<Item = bool>>(_: I) -> Empty<bool> {
    empty()
}
pub fn bch_stream_decode<I: Iterator<Item = bool>>(_: I) -> Empty<bool> {
    empty()
}
pub fn rx_baseband_csk<I: Iterator<Item = f64>>(_: I) -> Empty<bool> {
    empty()
}
pub fn bool_to_u8(_: &[bool]) -> u8 {
    0
}
pub fn u8_to_bools(_: u8) -> [bool; 8] {
    [false; 8]
}
pub fn bools_to_u8s<I: Iterator<Item = bool>>(_: I) -> Empty<u8> {
    empty()
}
pub fn u8s_to_bools<I: Iterator<Item = u8>>(_: I) -> Empty<bool> {
    empty()
}
pub fn fftshift<T: Clone>(_: &[T]) -> Vec<T> {
    vec![]
}
pub fn fftshift_mut<T: Copy>(_: &mut [T]) {}
pub fn is_int(_: f64) -> bool {
    false
}
pub fn no_nans(_: &[f64]) -> bool {
    false
}
pub fn no_nans_complex(_: &[Complex<f64>]) -> bool {
    false
}
pub fn hop_table(_: f64, _: f64, _: usize, _: u64) -> Empty<f64> {
    empty()
}
