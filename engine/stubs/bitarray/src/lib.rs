//! Assumed contract of `bitarray::BitArray`: B bytes, all zero at first.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct BitArray<const B: usize> {
    pub bytes: [u8; B],
}
impl<const B: usize> BitArray<B> {
    pub fn new(bytes: [u8; B]) -> Self {
        BitArray { bytes }
    }
    pub fn zeros() -> Self {
        BitArray { bytes: [0; B] }
    }
    pub fn bytes(&self) -> &[u8; B] {
        &self.bytes
    }
    pub fn bytes_mut(&mut self) -> &mut [u8; B] {
        &mut self.bytes
    }
}
impl<const B: usize> std::ops::Deref for BitArray<B> {
    type Target = [u8; B];
    fn deref(&self) -> &[u8; B] {
        &self.bytes
    }
}
impl<const B: usize> std::ops::DerefMut for BitArray<B> {
    fn deref_mut(&mut self) -> &mut [u8; B] {
        &mut self.bytes
    }
}
