//! `SB<B>`: bit storage supplied by the *caller* through the public `Bits` trait. Every access is a
//! seam at which the simulator may panic (a caller's own bounds check, an EDC error, ...), or count.
//! All real work is delegated to the library's own implementation for `B`.
use crate::ctl::storage_point as p;
use morton_index::number::{Bits, Endianness};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::ops::Range;

#[derive(Clone, Copy, Default, Debug)]
#[repr(transparent)]
pub struct SB<B>(pub B);

impl<B: PartialEq> PartialEq for SB<B> {
    fn eq(&self, o: &Self) -> bool {
        p();
        self.0 == o.0
    }
}
impl<B: Eq> Eq for SB<B> {}
impl<B: Ord> PartialOrd for SB<B> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        p();
        Some(self.0.cmp(&o.0))
    }
}
impl<B: Ord> Ord for SB<B> {
    fn cmp(&self, o: &Self) -> Ordering {
        p();
        self.0.cmp(&o.0)
    }
}
impl<B: Hash> Hash for SB<B> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        p();
        self.0.hash(h)
    }
}

impl<B: Bits> Bits for SB<B> {
    const BITS: usize = B::BITS;
    unsafe fn get_bits(&self, r: Range<usize>) -> Self {
        p();
        SB(self.0.get_bits(r))
    }
    unsafe fn get_bits_as_usize(&self, r: Range<usize>) -> usize {
        p();
        self.0.get_bits_as_usize(r)
    }
    unsafe fn set_bits(&mut self, r: Range<usize>, v: Self) {
        p();
        self.0.set_bits(r, v.0)
    }
    unsafe fn set_bits_from_usize(&mut self, r: Range<usize>, v: usize) {
        p();
        self.0.set_bits_from_usize(r, v)
    }
    unsafe fn as_u8(self) -> u8 {
        p();
        self.0.as_u8()
    }
    unsafe fn as_u16(self) -> u16 {
        p();
        self.0.as_u16()
    }
    unsafe fn as_u32(self) -> u32 {
        p();
        self.0.as_u32()
    }
    unsafe fn as_u64(self) -> u64 {
        p();
        self.0.as_u64()
    }
    unsafe fn as_u128(self) -> u128 {
        p();
        self.0.as_u128()
    }
    unsafe fn as_usize(self) -> usize {
        p();
        self.0.as_usize()
    }
    unsafe fn as_u8_slice(&self) -> &[u8] {
        p();
        self.0.as_u8_slice()
    }
    unsafe fn as_u8_slice_mut(&mut self) -> &mut [u8] {
        p();
        self.0.as_u8_slice_mut()
    }
    unsafe fn from_u8(v: u8) -> Self {
        p();
        SB(B::from_u8(v))
    }
    unsafe fn from_u16(v: u16) -> Self {
        p();
        SB(B::from_u16(v))
    }
    unsafe fn from_u32(v: u32) -> Self {
        p();
        SB(B::from_u32(v))
    }
    unsafe fn from_u64(v: u64) -> Self {
        p();
        SB(B::from_u64(v))
    }
    unsafe fn from_u128(v: u128) -> Self {
        p();
        SB(B::from_u128(v))
    }
    unsafe fn from_usize(v: usize) -> Self {
        p();
        SB(B::from_usize(v))
    }
    unsafe fn from_u8_slice(b: &[u8], e: Endianness) -> Self {
        p();
        SB(B::from_u8_slice(b, e))
    }
    fn size(&self) -> usize {
        p();
        self.0.size()
    }
}
