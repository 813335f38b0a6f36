//! Assumed contract of `nshare`: an image is the array of its rows.
use image::{ImageBuffer, Luma};
use ndarray::{ArrayView2, ArrayViewMut2};
pub trait RefNdarray2 {
    type Out<'a>
    where
        Self: 'a;
    fn ref_ndarray2(&self) -> Self::Out<'_>;
}
pub trait MutNdarray2 {
    type Out<'a>
    where
        Self: 'a;
    fn mut_ndarray2(&mut self) -> Self::Out<'_>;
}
impl<T: Copy> RefNdarray2 for ImageBuffer<Luma<T>, Vec<T>> {
    type Out<'a> = ArrayView2<'a, T> where T: 'a;
    fn ref_ndarray2(&self) -> ArrayView2<'_, T> {
        let (w, h) = self.dimensions();
        ArrayView2::rows(self.as_raw(), h as usize, w as usize)
    }
}
impl<T: Copy> MutNdarray2 for ImageBuffer<Luma<T>, Vec<T>> {
    type Out<'a> = ArrayViewMut2<'a, T> where T: 'a;
    fn mut_ndarray2(&mut self) -> ArrayViewMut2<'_, T> {
        let (w, h) = self.dimensions();
        ArrayViewMut2::rows(self, h as usize, w as usize)
    }
}
