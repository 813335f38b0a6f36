//! Assumed contract of the parts of `image` that are used: row-major pixel buffers.
use std::ops::{Deref, DerefMut, Index, IndexMut};
macro_rules! pixel { ($($p:ident $n:expr),*) => { $(
    #[derive(Copy, Clone, Debug, PartialEq)]
    #[repr(transparent)]
    pub struct $p<T>(pub [T; $n]);
    impl<T> Index<usize> for $p<T> {
        type Output = T;
        fn index(&self, i: usize) -> &T {
            &self.0[i]
        }
    }
    impl<T> IndexMut<usize> for $p<T> {
        fn index_mut(&mut self, i: usize) -> &mut T {
            &mut self.0[i]
        }
    }
    impl<T: Copy> Pixel for $p<T> {
        type Subpixel = T;
        const CHANNEL_COUNT: u8 = $n;
        fn channels(&self) -> &[T] {
            &self.0
        }
        fn to_luma(&self) -> Luma<T> {
            // (only grey images are converted)
            Luma([self.0[0]])
        }
    }
)* } }
pub trait Pixel: Copy {
    type Subpixel: Copy;
    const CHANNEL_COUNT: u8;
    fn channels(&self) -> &[Self::Subpixel];
    fn to_luma(&self) -> Luma<Self::Subpixel>;
}
pixel!(Luma 1, LumaA 2, Rgb 3, Rgba 4);
#[derive(Clone, Debug)]
pub struct ImageBuffer<P: Pixel, C> {
    w: u32,
    h: u32,
    data: C,
    p: std::marker::PhantomData<P>,
}
impl<P: Pixel> ImageBuffer<P, Vec<P::Subpixel>> {
    const N: usize = P::CHANNEL_COUNT as usize;
    pub fn from_raw(w: u32, h: u32, data: Vec<P::Subpixel>) -> Option<Self> {
        if data.len() < w as usize * h as usize * Self::N {
            return None;
        }
        Some(ImageBuffer { w, h, data, p: std::marker::PhantomData })
    }
    pub fn from_fn(w: u32, h: u32, mut f: impl FnMut(u32, u32) -> P) -> Self {
        let mut data = vec![];
        for y in 0..h {
            for x in 0..w {
                data.extend_from_slice(f(x, y).channels());
            }
        }
        ImageBuffer { w, h, data, p: std::marker::PhantomData }
    }
    pub fn from_pixel(w: u32, h: u32, p: P) -> Self {
        Self::from_fn(w, h, |_, _| p)
    }
    pub fn width(&self) -> u32 {
        self.w
    }
    pub fn height(&self) -> u32 {
        self.h
    }
    pub fn new(w: u32, h: u32) -> Self
    where
        P::Subpixel: Default,
    {
        ImageBuffer { w, h, data: vec![Default::default(); w as usize * h as usize * Self::N], p: std::marker::PhantomData }
    }
    pub fn pixels(&self) -> std::vec::IntoIter<&P> {
        self.enumerate_pixels().map(|p| p.2).collect::<Vec<_>>().into_iter()
    }
    pub fn enumerate_pixels(&self) -> std::vec::IntoIter<(u32, u32, &P)> {
        let (w, h) = (self.w, self.h);
        (0..h).flat_map(|y| (0..w).map(move |x| (x, y, self.get_pixel(x, y)))).collect::<Vec<_>>().into_iter()
    }
    pub fn get_pixel_mut(&mut self, x: u32, y: u32) -> &mut P {
        let i = self.at(x, y);
        let v = &mut self.data[i..i + Self::N];
        assert!(std::mem::size_of::<P>() == std::mem::size_of_val(v));
        // as in get_pixel
        unsafe { &mut *(v.as_mut_ptr() as *mut P) }
    }
    pub fn dimensions(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    pub fn as_raw(&self) -> &Vec<P::Subpixel> {
        &self.data
    }
    pub fn into_raw(self) -> Vec<P::Subpixel> {
        self.data
    }
    fn at(&self, x: u32, y: u32) -> usize {
        assert!(x < self.w && y < self.h, "Image index out of bounds");
        (y as usize * self.w as usize + x as usize) * Self::N
    }
    pub fn put_pixel(&mut self, x: u32, y: u32, p: P) {
        let i = self.at(x, y);
        self.data[i..i + Self::N].copy_from_slice(p.channels());
    }
}
impl<P: Pixel> ImageBuffer<P, Vec<P::Subpixel>> {
    pub fn get_pixel(&self, x: u32, y: u32) -> &P {
        let i = self.at(x, y);
        let v = &self.data[i..i + Self::N];
        assert!(std::mem::size_of::<P>() == std::mem::size_of_val(v));
        // a pixel is a transparent wrapper of an array of its N channels
        unsafe { &*(v.as_ptr() as *const P) }
    }
}
impl<P: Pixel> Index<(u32, u32)> for ImageBuffer<P, Vec<P::Subpixel>> {
    type Output = P;
    fn index(&self, (x, y): (u32, u32)) -> &P {
        self.get_pixel(x, y)
    }
}
impl<P: Pixel> IndexMut<(u32, u32)> for ImageBuffer<P, Vec<P::Subpixel>> {
    fn index_mut(&mut self, (x, y): (u32, u32)) -> &mut P {
        self.get_pixel_mut(x, y)
    }
}
impl<P: Pixel> Deref for ImageBuffer<P, Vec<P::Subpixel>> {
    type Target = [P::Subpixel];
    fn deref(&self) -> &[P::Subpixel] {
        &self.data
    }
}
impl<P: Pixel> DerefMut for ImageBuffer<P, Vec<P::Subpixel>> {
    fn deref_mut(&mut self) -> &mut [P::Subpixel] {
        &mut self.data
    }
}
pub type ImageResult<T> = Result<T, String>;

/// The images a loader gives; only grey ones are met (the others are made grey by the crate itself).
pub mod dynamic {
    use super::*;
    type Buf<P> = ImageBuffer<P, Vec<<P as Pixel>::Subpixel>>;
    #[derive(Clone, Debug)]
    #[non_exhaustive]
    pub enum DynamicImage {
        ImageLuma8(Buf<Luma<u8>>),
        ImageLumaA8(Buf<LumaA<u8>>),
        ImageLuma16(Buf<Luma<u16>>),
        ImageLumaA16(Buf<LumaA<u16>>),
        ImageRgb32F(Buf<Rgb<F>>),
        ImageRgba32F(Buf<Rgba<F>>),
    }
    use DynamicImage::*;
    impl DynamicImage {
        pub fn grayscale(&self) -> DynamicImage {
            self.clone()
        }
        pub fn dimensions(&self) -> (u32, u32) {
            match self {
                ImageLuma8(i) => i.dimensions(),
                ImageLumaA8(i) => i.dimensions(),
                ImageLuma16(i) => i.dimensions(),
                ImageLumaA16(i) => i.dimensions(),
                ImageRgb32F(i) => i.dimensions(),
                ImageRgba32F(i) => i.dimensions(),
            }
        }
        pub fn width(&self) -> u32 {
            self.dimensions().0
        }
        pub fn height(&self) -> u32 {
            self.dimensions().1
        }
    }
}
/// the number type of float images
#[cfg(feature = "sym")]
pub type F = sym::Sym;
#[cfg(not(feature = "sym"))]
pub type F = f32;
pub use dynamic::DynamicImage;
pub fn open(_: impl AsRef<std::path::Path>) -> ImageResult<DynamicImage> {
    Err("no files".into())
}
