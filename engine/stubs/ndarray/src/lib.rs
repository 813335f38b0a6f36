//! Assumed contract of the parts of `ndarray` that are used: row-major matrices, their slices, and
//! element-by-element loops over operands of one shape.
use std::ops::{Add, Range, RangeFrom, RangeFull, RangeTo};
#[derive(Clone, Copy, PartialEq, Debug)]
struct Shape {
    off: usize,
    r: usize,
    c: usize,
    stride: usize,
}
impl Shape {
    fn at(&self, i: usize) -> Option<(usize, usize)> {
        let k = i.checked_sub(self.off)?;
        let (r, c) = if self.stride == 0 { (k, 0) } else { (k / self.stride, k % self.stride) };
        if r < self.r && c < self.c { Some((r, c)) } else { None }
    }
    fn slice(&self, s: (Sl, Sl)) -> Shape {
        let (a, b) = (s.0.of(self.r), s.1.of(self.c));
        Shape { off: self.off + a.start * self.stride + b.start, r: a.end - a.start, c: b.end - b.start, stride: self.stride }
    }
}
/// One axis of a slice; negative bounds count from the end.
#[derive(Clone, Copy)]
pub struct Sl(Option<isize>, Option<isize>);
impl Sl {
    fn of(&self, n: usize) -> Range<usize> {
        let f = |k: isize| if k < 0 { n as isize + k } else { k };
        let (a, b) = (self.0.map_or(0, f), self.1.map_or(n as isize, f));
        assert!(0 <= a && a <= b && b <= n as isize, "slice out of bounds");
        a as usize..b as usize
    }
}
impl From<RangeFull> for Sl {
    fn from(_: RangeFull) -> Sl {
        Sl(None, None)
    }
}
macro_rules! sl { ($($t:ty),*) => { $(
    impl From<Range<$t>> for Sl { fn from(r: Range<$t>) -> Sl { Sl(Some(r.start as isize), Some(r.end as isize)) } }
    impl From<RangeTo<$t>> for Sl { fn from(r: RangeTo<$t>) -> Sl { Sl(None, Some(r.end as isize)) } }
    impl From<RangeFrom<$t>> for Sl { fn from(r: RangeFrom<$t>) -> Sl { Sl(Some(r.start as isize), None) } }
)* } }
sl!(i32, usize, isize);
#[macro_export]
macro_rules! s { ($a:expr, $b:expr $(,)?) => { ($crate::Sl::from($a), $crate::Sl::from($b)) } }
#[derive(Clone, Debug, PartialEq)]
pub struct Array2<T> {
    s: (usize, usize),
    v: Vec<T>,
}
#[derive(Clone, Copy)]
pub struct ArrayView2<'a, T> {
    s: Shape,
    v: &'a [T],
}
pub struct ArrayViewMut2<'a, T> {
    s: Shape,
    v: &'a mut [T],
}
impl<T: Copy + Default> Array2<T> {
    pub fn zeros(s: (usize, usize)) -> Self {
        Array2 { s, v: vec![T::default(); s.0 * s.1] }
    }
}
impl<T: Copy> Array2<T> {
    pub fn from_elem(s: (usize, usize), x: T) -> Self {
        Array2 { s, v: vec![x; s.0 * s.1] }
    }
    pub fn from_shape_fn(s: (usize, usize), mut f: impl FnMut((usize, usize)) -> T) -> Self {
        Array2 { s, v: (0..s.0 * s.1).map(|i| f((i / s.1, i % s.1))).collect() }
    }
    pub fn dim(&self) -> (usize, usize) {
        self.s
    }
    pub fn into_raw_vec(self) -> Vec<T> {
        self.v
    }
    pub fn view(&self) -> ArrayView2<'_, T> {
        ArrayView2::rows(&self.v, self.s.0, self.s.1)
    }
    pub fn view_mut(&mut self) -> ArrayViewMut2<'_, T> {
        ArrayViewMut2::rows(&mut self.v, self.s.0, self.s.1)
    }
    pub fn slice(&self, s: (Sl, Sl)) -> ArrayView2<'_, T> {
        self.view().sliced(s)
    }
    pub fn slice_mut(&mut self, s: (Sl, Sl)) -> ArrayViewMut2<'_, T> {
        let x = self.view_mut();
        ArrayViewMut2 { s: x.s.slice(s), v: x.v }
    }
}
impl<T: Copy> Array2<T> {
    pub fn from_shape_vec((r, c): (usize, usize), v: Vec<T>) -> Result<Self, String> {
        if v.len() == r * c { Ok(Array2 { s: (r, c), v }) } else { Err("shape and size differ".into()) }
    }
    pub fn nrows(&self) -> usize {
        self.s.0
    }
    pub fn ncols(&self) -> usize {
        self.s.1
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn shape(&self) -> [usize; 2] {
        [self.s.0, self.s.1]
    }
    pub fn iter(&self) -> std::slice::Iter<'_, T> {
        self.v.iter()
    }
    pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> {
        self.v.iter_mut()
    }
    pub fn indexed_iter(&self) -> impl Iterator<Item = ((usize, usize), &T)> {
        let c = self.s.1;
        self.v.iter().enumerate().map(move |(i, x)| ((i / c, i % c), x))
    }
    pub fn indexed_iter_mut(&mut self) -> impl Iterator<Item = ((usize, usize), &mut T)> {
        let c = self.s.1;
        self.v.iter_mut().enumerate().map(move |(i, x)| ((i / c, i % c), x))
    }
    pub fn mapv<U: Copy>(&self, f: impl FnMut(T) -> U) -> Array2<U> {
        Array2 { s: self.s, v: self.v.iter().copied().map(f).collect() }
    }
    pub fn mapv_inplace(&mut self, mut f: impl FnMut(T) -> T) {
        self.v.iter_mut().for_each(|x| *x = f(*x))
    }
    pub fn get(&self, (r, c): (usize, usize)) -> Option<&T> {
        if r < self.s.0 && c < self.s.1 { self.v.get(r * self.s.1 + c) } else { None }
    }
    pub fn get_mut(&mut self, (r, c): (usize, usize)) -> Option<&mut T> {
        if r < self.s.0 && c < self.s.1 { self.v.get_mut(r * self.s.1 + c) } else { None }
    }
    pub fn fill(&mut self, x: T) {
        self.v.iter_mut().for_each(|y| *y = x)
    }
    pub fn as_slice(&self) -> Option<&[T]> {
        Some(&self.v)
    }
    pub fn zip_mut_with(&mut self, b: &Array2<T>, f: impl FnMut(&mut T, &T)) {
        self.view_mut().zip_mut_with(b, f)
    }
    pub fn exact_chunks(&self, k: (usize, usize)) -> Chunks<'_, T> {
        self.view().exact_chunks(k)
    }
}
impl<T: Copy + Default + Add<Output = T>> Array2<T> {
    pub fn sum(&self) -> T {
        self.v.iter().fold(T::default(), |a, b| a + *b)
    }
}
impl<T> std::ops::Index<(usize, usize)> for Array2<T> {
    type Output = T;
    fn index(&self, (r, c): (usize, usize)) -> &T {
        assert!(r < self.s.0 && c < self.s.1);
        &self.v[r * self.s.1 + c]
    }
}
impl<T> std::ops::IndexMut<(usize, usize)> for Array2<T> {
    fn index_mut(&mut self, (r, c): (usize, usize)) -> &mut T {
        assert!(r < self.s.0 && c < self.s.1);
        &mut self.v[r * self.s.1 + c]
    }
}
impl<T> std::ops::Index<(usize, usize)> for ArrayView2<'_, T> {
    type Output = T;
    fn index(&self, (r, c): (usize, usize)) -> &T {
        assert!(r < self.s.r && c < self.s.c);
        &self.v[self.s.off + r * self.s.stride + c]
    }
}
impl<T> std::ops::Index<(usize, usize)> for ArrayViewMut2<'_, T> {
    type Output = T;
    fn index(&self, (r, c): (usize, usize)) -> &T {
        assert!(r < self.s.r && c < self.s.c);
        &self.v[self.s.off + r * self.s.stride + c]
    }
}
impl<T> std::ops::IndexMut<(usize, usize)> for ArrayViewMut2<'_, T> {
    fn index_mut(&mut self, (r, c): (usize, usize)) -> &mut T {
        assert!(r < self.s.r && c < self.s.c);
        &mut self.v[self.s.off + r * self.s.stride + c]
    }
}
macro_rules! by_array { ($($t:ty),*) => { $(
    impl<T> std::ops::Index<[usize; 2]> for $t {
        type Output = T;
        fn index(&self, i: [usize; 2]) -> &T {
            &self[(i[0], i[1])]
        }
    }
)* } }
by_array!(Array2<T>, ArrayView2<'_, T>, ArrayViewMut2<'_, T>);
macro_rules! by_array_mut { ($($t:ty),*) => { $(
    impl<T> std::ops::IndexMut<[usize; 2]> for $t {
        fn index_mut(&mut self, i: [usize; 2]) -> &mut T {
            &mut self[(i[0], i[1])]
        }
    }
)* } }
by_array_mut!(Array2<T>, ArrayViewMut2<'_, T>);
impl<'a, T: Copy> ArrayView2<'a, T> {
    pub fn rows(v: &'a [T], r: usize, c: usize) -> Self {
        ArrayView2 { s: Shape { off: 0, r, c, stride: c }, v }
    }
    pub fn dim(&self) -> (usize, usize) {
        (self.s.r, self.s.c)
    }
    pub fn nrows(&self) -> usize {
        self.s.r
    }
    pub fn ncols(&self) -> usize {
        self.s.c
    }
    pub fn len(&self) -> usize {
        self.s.r * self.s.c
    }
    pub fn get(&self, (r, c): (usize, usize)) -> Option<&'a T> {
        if r < self.s.r && c < self.s.c { Some(&self.v[self.s.off + r * self.s.stride + c]) } else { None }
    }
    pub fn indexed_iter(&self) -> std::vec::IntoIter<((usize, usize), &'a T)> {
        let (s, v) = (self.s, self.v);
        (0..s.r).flat_map(|r| (0..s.c).map(move |c| ((r, c), &v[s.off + r * s.stride + c]))).collect::<Vec<_>>().into_iter()
    }
    pub fn to_owned(&self) -> Array2<T> {
        Array2 { s: self.dim(), v: self.iter().copied().collect() }
    }
    pub fn mapv<U: Copy>(&self, f: impl FnMut(T) -> U) -> Array2<U> {
        Array2 { s: self.dim(), v: self.iter().copied().map(f).collect() }
    }
    fn sliced(self, s: (Sl, Sl)) -> ArrayView2<'a, T> {
        ArrayView2 { s: self.s.slice(s), v: self.v }
    }
    pub fn slice(&self, s: (Sl, Sl)) -> ArrayView2<'a, T> {
        self.sliced(s)
    }
    pub fn exact_chunks(&self, k: (usize, usize)) -> Chunks<'a, T> {
        Chunks { a: *self, k }
    }
    pub fn iter(&self) -> std::vec::IntoIter<&'a T> {
        let (s, v) = (self.s, self.v);
        (0..s.r).flat_map(|r| (0..s.c).map(move |c| &v[s.off + r * s.stride + c])).collect::<Vec<_>>().into_iter()
    }
}
impl<'a, T: Copy + Default + Add<Output = T>> ArrayView2<'a, T> {
    pub fn sum(&self) -> T {
        self.iter().fold(T::default(), |a, b| a + *b)
    }
}
impl<'a, T: Copy> ArrayViewMut2<'a, T> {
    pub fn rows(v: &'a mut [T], r: usize, c: usize) -> Self {
        ArrayViewMut2 { s: Shape { off: 0, r, c, stride: c }, v }
    }
    pub fn dim(&self) -> (usize, usize) {
        (self.s.r, self.s.c)
    }
    pub fn slice(&self, s: (Sl, Sl)) -> ArrayView2<'_, T> {
        ArrayView2 { s: self.s.slice(s), v: self.v }
    }
    pub fn slice_mut(&mut self, s: (Sl, Sl)) -> ArrayViewMut2<'_, T> {
        ArrayViewMut2 { s: self.s.slice(s), v: self.v }
    }
    pub fn nrows(&self) -> usize {
        self.s.r
    }
    pub fn ncols(&self) -> usize {
        self.s.c
    }
    pub fn view(&self) -> ArrayView2<'_, T> {
        ArrayView2 { s: self.s, v: self.v }
    }
    pub fn iter(&self) -> std::vec::IntoIter<&T> {
        self.view().iter()
    }
    pub fn iter_mut(&mut self) -> std::vec::IntoIter<&mut T> {
        let s = self.s;
        self.v.iter_mut().enumerate().filter(|(i, _)| s.at(*i).is_some()).map(|x| x.1).collect::<Vec<_>>().into_iter()
    }
    pub fn indexed_iter_mut(&mut self) -> std::vec::IntoIter<((usize, usize), &mut T)> {
        let s = self.s;
        self.v.iter_mut().enumerate().filter_map(|(i, x)| s.at(i).map(|k| (k, x))).collect::<Vec<_>>().into_iter()
    }
    pub fn get_mut(&mut self, (r, c): (usize, usize)) -> Option<&mut T> {
        if r < self.s.r && c < self.s.c { Some(&mut self.v[self.s.off + r * self.s.stride + c]) } else { None }
    }
    pub fn zip_mut_with(&mut self, b: &Array2<T>, mut f: impl FnMut(&mut T, &T)) {
        assert!(self.dim() == b.dim(), "shapes differ");
        let s = self.s;
        for (i, x) in self.v.iter_mut().enumerate() {
            if let Some(k) = s.at(i) {
                f(x, &b[k]);
            }
        }
    }
}
pub struct Chunks<'a, T> {
    a: ArrayView2<'a, T>,
    k: (usize, usize),
}
/// An operand of an element-by-element loop.
pub trait Operand {
    type Item;
    fn shape(&self) -> (usize, usize);
    fn items(self) -> Vec<Self::Item>;
}
impl<'a, T: Copy> Operand for ArrayView2<'a, T> {
    type Item = &'a T;
    fn shape(&self) -> (usize, usize) {
        self.dim()
    }
    fn items(self) -> Vec<&'a T> {
        self.iter().collect()
    }
}
impl<'a, T: Copy> Operand for ArrayViewMut2<'a, T> {
    type Item = &'a mut T;
    fn shape(&self) -> (usize, usize) {
        self.dim()
    }
    fn items(self) -> Vec<&'a mut T> {
        let s = self.s;
        self.v.iter_mut().enumerate().filter(|(i, _)| s.at(*i).is_some()).map(|x| x.1).collect()
    }
}
impl<'a, T: Copy> Operand for &'a Array2<T> {
    type Item = &'a T;
    fn shape(&self) -> (usize, usize) {
        self.s
    }
    fn items(self) -> Vec<&'a T> {
        self.v.iter().collect()
    }
}
impl<'a, T: Copy> Operand for &'a mut Array2<T> {
    type Item = &'a mut T;
    fn shape(&self) -> (usize, usize) {
        self.s
    }
    fn items(self) -> Vec<&'a mut T> {
        self.v.iter_mut().collect()
    }
}
impl<'a, T: Copy> Operand for Chunks<'a, T> {
    type Item = ArrayView2<'a, T>;
    fn shape(&self) -> (usize, usize) {
        (self.a.s.r / self.k.0, self.a.s.c / self.k.1)
    }
    fn items(self) -> Vec<ArrayView2<'a, T>> {
        let ((r, c), k) = (self.shape(), self.k);
        let cut = |n: usize, k: usize| Sl(Some((n * k) as isize), Some(((n + 1) * k) as isize));
        (0..r * c).map(|i| self.a.sliced((cut(i / c, k.0), cut(i % c, k.1)))).collect()
    }
}
pub fn items_of<P: Operand>(p: P, shape: &mut Option<(usize, usize)>) -> std::vec::IntoIter<P::Item> {
    assert!(shape.map_or(true, |s| s == p.shape()), "shapes differ");
    *shape = Some(p.shape());
    p.items().into_iter()
}
#[macro_export]
macro_rules! azip {
    (@go $s:ident ($p:pat) ($i:expr) ($(,)?) $body:block) => { for $p in $i $body };
    (@go $s:ident ($p:pat) ($i:expr) ($q:pat in $e:expr $(, $($t:tt)*)?) $body:block) => {
        $crate::azip!(@go $s (($p, $q)) ($i.zip($crate::items_of($e, &mut $s))) ($($($t)*)?) $body)
    };
    (($q:pat in $e:expr, $($t:tt)*) $body:block) => {{
        let mut shape = None;
        $crate::azip!(@go shape ($q) ($crate::items_of($e, &mut shape)) ($($t)*) $body)
    }};
    (($q:pat in $e:expr) $body:block) => { $crate::azip!(($q in $e,) $body) };
}

/// `Zip::from(a).and(b).for_each(|x, y| ..)`
pub struct Zip<P> {
    p: P,
    s: (usize, usize),
}
impl Zip<()> {
    pub fn from<A: Operand>(a: A) -> Zip<(A,)> {
        let s = a.shape();
        Zip { p: (a,), s }
    }
}
macro_rules! zips { ($(($($n:ident $x:ident),*) $q:ident $y:ident;)*) => { $(
    impl<$($n: Operand),*> Zip<($($n,)*)> {
        pub fn and<$q: Operand>(self, b: $q) -> Zip<($($n,)* $q,)> {
            assert!(b.shape() == self.s, "shapes differ");
            let ($($x,)*) = self.p;
            Zip { p: ($($x,)* b,), s: self.s }
        }
        pub fn for_each(self, mut f: impl FnMut($($n::Item),*)) {
            let ($($x,)*) = self.p;
            $(let mut $x = $x.items().into_iter();)*
            for _ in 0..self.s.0 * self.s.1 {
                f($($x.next().unwrap()),*)
            }
        }
    }
)* } }
zips!((A a) Z z; (A a, B b) Z z; (A a, B b, C c) Z z; (A a, B b, C c, D d) Z z; (A a, B b, C c, D d, E e) Z z;);
