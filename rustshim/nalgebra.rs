//! Stand-in for the part of nalgebra that the extension uses: column-major dense matrices with plain loops.
use std::marker::PhantomData;
use std::ops::*;

pub trait RealField: Copy + PartialOrd + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + Neg<Output = Self> + std::fmt::Debug + 'static {
    fn zero() -> Self; fn one() -> Self; fn to64(self) -> f64; fn from64(x: f64) -> Self; fn absolute(self) -> Self;
}
impl RealField for f32 { fn zero() -> f32 { 0.0 } fn one() -> f32 { 1.0 } fn to64(self) -> f64 { self as f64 } fn from64(x: f64) -> f32 { x as f32 } fn absolute(self) -> f32 { self.abs() } }
impl RealField for f64 { fn zero() -> f64 { 0.0 } fn one() -> f64 { 1.0 } fn to64(self) -> f64 { self } fn from64(x: f64) -> f64 { x } fn absolute(self) -> f64 { self.abs() } }

#[derive(Clone, Copy, Debug, PartialEq)] pub struct Dyn;
#[derive(Clone, Copy, Debug, PartialEq)] pub struct U1;
pub type Dynamic = Dyn;

#[derive(Debug, PartialEq)]
pub struct OMatrix<T, R, C> { data: Vec<T>, r: usize, c: usize, p: PhantomData<(R, C)> }
impl<T: Clone, R, C> Clone for OMatrix<T, R, C> { fn clone(&self) -> Self { OMatrix { data: self.data.clone(), r: self.r, c: self.c, p: PhantomData } } }
pub type DMatrix<T> = OMatrix<T, Dyn, Dyn>;
pub type DVector<T> = OMatrix<T, Dyn, U1>;
pub type RowDVector<T> = OMatrix<T, U1, Dyn>;
pub type OVector<T, D> = OMatrix<T, D, U1>;

fn of<T, R, C>(data: Vec<T>, r: usize, c: usize) -> OMatrix<T, R, C> { assert_eq!(data.len(), r * c, "matrix dimensions mismatch"); OMatrix { data, r, c, p: PhantomData } }

impl<T: RealField> OMatrix<T, Dyn, Dyn> {
    pub fn from_vec(r: usize, c: usize, v: Vec<T>) -> Self { of(v, r, c) }
    pub fn from_column_slice(r: usize, c: usize, v: &[T]) -> Self { of(v.to_vec(), r, c) }
    pub fn from_row_slice(r: usize, c: usize, v: &[T]) -> Self { Self::from_fn(r, c, |i, j| v[i * c + j]) }
    pub fn from_iterator<I: IntoIterator<Item = T>>(r: usize, c: usize, it: I) -> Self { of(it.into_iter().take(r * c).collect(), r, c) }
    pub fn from_row_iterator<I: IntoIterator<Item = T>>(r: usize, c: usize, it: I) -> Self { let v: Vec<T> = it.into_iter().take(r * c).collect(); Self::from_row_slice(r, c, &v) }
    pub fn from_fn<F: FnMut(usize, usize) -> T>(r: usize, c: usize, mut f: F) -> Self { let mut v = Vec::with_capacity(r * c); for j in 0..c { for i in 0..r { v.push(f(i, j)); } } of(v, r, c) }
    pub fn zeros(r: usize, c: usize) -> Self { of(vec![T::zero(); r * c], r, c) }
    pub fn from_element(r: usize, c: usize, x: T) -> Self { of(vec![x; r * c], r, c) }
    pub fn repeat(r: usize, c: usize, x: T) -> Self { Self::from_element(r, c, x) }
    pub fn identity(r: usize, c: usize) -> Self { Self::from_fn(r, c, |i, j| if i == j { T::one() } else { T::zero() }) }
    pub fn from_diagonal(d: &DVector<T>) -> Self { let n = d.len(); Self::from_fn(n, n, |i, j| if i == j { d.data[i] } else { T::zero() }) }
    pub fn from_columns(v: &[DVector<T>]) -> Self { Self::from_fn(v[0].len(), v.len(), |i, j| v[j].data[i]) }
    pub fn from_rows(v: &[RowDVector<T>]) -> Self { Self::from_fn(v.len(), v[0].len(), |i, j| v[i].data[j]) }
    pub fn determinant(&self) -> T { T::from64(self.lu().1) }
    fn lu(&self) -> (Option<Vec<f64>>, f64) {
        assert_eq!(self.r, self.c, "Unable to invert a non-square matrix.");
        let n = self.r;
        let mut a: Vec<f64> = (0..n * n).map(|k| self[(k / n, k % n)].to64()).collect();
        let mut b: Vec<f64> = (0..n * n).map(|k| if k / n == k % n { 1.0 } else { 0.0 }).collect();
        let mut det = 1.0;
        for k in 0..n {
            let mut p = k;
            for i in k..n { if a[i * n + k].abs() > a[p * n + k].abs() { p = i; } }
            if !(a[p * n + k].abs() > 0.0) { return (None, if a[p * n + k].is_nan() { f64::NAN } else { 0.0 }); }
            if p != k { det = -det; for j in 0..n { a.swap(p * n + j, k * n + j); b.swap(p * n + j, k * n + j); } }
            let d = a[k * n + k];
            det *= d;
            for j in 0..n { a[k * n + j] /= d; b[k * n + j] /= d; }
            for i in 0..n { if i != k { let f = a[i * n + k]; for j in 0..n { a[i * n + j] -= f * a[k * n + j]; b[i * n + j] -= f * b[k * n + j]; } } }
        }
        (Some(b), det)
    }
    pub fn try_inverse(self) -> Option<Self> {
        let n = self.r;
        self.lu().0.map(|b| Self::from_fn(n, n, |i, j| T::from64(b[i * n + j])))
    }
    pub fn is_invertible(&self) -> bool { self.lu().0.is_some() }
    /// by the eigenvalues of the transpose times the matrix (Jacobi)
    pub fn pseudo_inverse(self, eps: T) -> Result<Self, &'static str> {
        let (m, n) = (self.r, self.c);
        let a = |i: usize, j: usize| self[(i, j)].to64();
        let mut s = vec![0.0; n * n];
        for i in 0..n { for j in 0..n { s[i * n + j] = (0..m).map(|k| a(k, i) * a(k, j)).sum(); } }
        let mut v: Vec<f64> = (0..n * n).map(|k| if k / n == k % n { 1.0 } else { 0.0 }).collect();
        for _ in 0..100 { for p in 0..n { for q in p + 1..n {
            if s[p * n + q].abs() < 1e-300 { continue; }
            let th = (s[q * n + q] - s[p * n + p]) / (2.0 * s[p * n + q]);
            let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
            let c = 1.0 / (t * t + 1.0).sqrt();
            let z = t * c;
            for k in 0..n { let (x, y) = (s[k * n + p], s[k * n + q]); s[k * n + p] = c * x - z * y; s[k * n + q] = z * x + c * y; }
            for k in 0..n { let (x, y) = (s[p * n + k], s[q * n + k]); s[p * n + k] = c * x - z * y; s[q * n + k] = z * x + c * y; }
            for k in 0..n { let (x, y) = (v[k * n + p], v[k * n + q]); v[k * n + p] = c * x - z * y; v[k * n + q] = z * x + c * y; }
        } } }
        let top = (0..n).map(|k| s[k * n + k]).fold(0.0, f64::max);
        let ok = |k: usize| s[k * n + k] > top * 1e-14 && s[k * n + k].max(0.0).sqrt() > eps.to64();
        Ok(Self::from_fn(n, m, |i, j| T::from64((0..n).filter(|k| ok(*k)).map(|k| v[i * n + k] / s[k * n + k] * (0..n).map(|l| v[l * n + k] * a(j, l)).sum::<f64>()).sum())))
    }
}
impl<T: RealField> OMatrix<T, Dyn, U1> {
    pub fn from_vec(v: Vec<T>) -> Self { let n = v.len(); of(v, n, 1) }
    pub fn from_row_slice(v: &[T]) -> Self { Self::from_vec(v.to_vec()) }
    pub fn from_column_slice(v: &[T]) -> Self { Self::from_vec(v.to_vec()) }
    pub fn from_iterator<I: IntoIterator<Item = T>>(n: usize, it: I) -> Self { Self::from_vec(it.into_iter().take(n).collect()) }
    pub fn from_fn<F: FnMut(usize, usize) -> T>(n: usize, mut f: F) -> Self { Self::from_vec((0..n).map(|i| f(i, 0)).collect()) }
    pub fn zeros(n: usize) -> Self { Self::from_vec(vec![T::zero(); n]) }
    pub fn from_element(n: usize, x: T) -> Self { Self::from_vec(vec![x; n]) }
}
impl<T: RealField> OMatrix<T, U1, Dyn> {
    pub fn from_vec(v: Vec<T>) -> Self { let n = v.len(); of(v, 1, n) }
    pub fn from_row_slice(v: &[T]) -> Self { Self::from_vec(v.to_vec()) }
    pub fn from_column_slice(v: &[T]) -> Self { Self::from_vec(v.to_vec()) }
    pub fn from_iterator<I: IntoIterator<Item = T>>(n: usize, it: I) -> Self { Self::from_vec(it.into_iter().take(n).collect()) }
    pub fn zeros(n: usize) -> Self { Self::from_vec(vec![T::zero(); n]) }
    pub fn from_element(n: usize, x: T) -> Self { Self::from_vec(vec![x; n]) }
}
impl<T: RealField, R, C> OMatrix<T, R, C> {
    pub fn shape(&self) -> (usize, usize) { (self.r, self.c) }
    pub fn nrows(&self) -> usize { self.r }
    pub fn ncols(&self) -> usize { self.c }
    pub fn len(&self) -> usize { self.data.len() }
    pub fn is_empty(&self) -> bool { self.data.is_empty() }
    pub fn is_square(&self) -> bool { self.r == self.c }
    /// column after column
    pub fn iter(&self) -> std::slice::Iter<'_, T> { self.data.iter() }
    pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> { self.data.iter_mut() }
    pub fn as_slice(&self) -> &[T] { &self.data }
    pub fn as_mut_slice(&mut self) -> &mut [T] { &mut self.data }
    pub fn clone_owned(&self) -> Self { self.clone() }
    pub fn into_owned(self) -> Self { self }
    pub fn get(&self, p: (usize, usize)) -> Option<&T> { if p.0 < self.r && p.1 < self.c { Some(&self.data[p.0 + p.1 * self.r]) } else { None } }
    pub fn transpose(&self) -> OMatrix<T, C, R> { let mut v = Vec::with_capacity(self.data.len()); for i in 0..self.r { for j in 0..self.c { v.push(self.data[i + j * self.r]); } } of(v, self.c, self.r) }
    pub fn map<B: RealField, F: FnMut(T) -> B>(&self, mut f: F) -> OMatrix<B, R, C> { of(self.data.iter().map(|x| f(*x)).collect(), self.r, self.c) }
    pub fn map_with_location<B: RealField, F: FnMut(usize, usize, T) -> B>(&self, mut f: F) -> OMatrix<B, R, C> { of(self.data.iter().enumerate().map(|(k, x)| f(k % self.r, k / self.r, *x)).collect(), self.r, self.c) }
    pub fn zip_map<R2, C2, B: RealField, F: FnMut(T, T) -> B>(&self, o: &OMatrix<T, R2, C2>, mut f: F) -> OMatrix<B, R, C> { assert_eq!(self.shape(), o.shape(), "matrix dimensions mismatch"); of(self.data.iter().zip(&o.data).map(|(a, b)| f(*a, *b)).collect(), self.r, self.c) }
    pub fn apply<F: FnMut(&mut T)>(&mut self, mut f: F) { for x in self.data.iter_mut() { f(x) } }
    pub fn component_mul<R2, C2>(&self, o: &OMatrix<T, R2, C2>) -> Self { self.zip_map(o, |a, b| a * b) }
    pub fn component_div<R2, C2>(&self, o: &OMatrix<T, R2, C2>) -> Self { self.zip_map(o, |a, b| a / b) }
    pub fn component_mul_assign<R2, C2>(&mut self, o: &OMatrix<T, R2, C2>) { *self = self.component_mul(o); }
    pub fn component_div_assign<R2, C2>(&mut self, o: &OMatrix<T, R2, C2>) { *self = self.component_div(o); }
    pub fn abs(&self) -> Self { self.map(|x| x.absolute()) }
    pub fn add_scalar(&self, s: T) -> Self { self.map(|x| x + s) }
    pub fn add_scalar_mut(&mut self, s: T) { self.apply(|x| *x = *x + s) }
    pub fn scale(&self, s: T) -> Self { self.map(|x| x * s) }
    pub fn unscale(&self, s: T) -> Self { self.map(|x| x / s) }
    pub fn sum(&self) -> T { self.data.iter().fold(T::zero(), |a, b| a + *b) }
    pub fn mean(&self) -> T { T::from64(self.sum().to64() / self.data.len() as f64) }
    pub fn min(&self) -> T { self.data.iter().cloned().fold(self.data[0], |a, b| if b < a { b } else { a }) }
    pub fn max(&self) -> T { self.data.iter().cloned().fold(self.data[0], |a, b| if b > a { b } else { a }) }
    pub fn norm_squared(&self) -> T { self.data.iter().fold(T::zero(), |a, b| a + *b * *b) }
    pub fn norm(&self) -> T { T::from64(self.norm_squared().to64().sqrt()) }
    pub fn trace(&self) -> T { (0..self.r.min(self.c)).fold(T::zero(), |a, k| a + self.data[k + k * self.r]) }
    pub fn diagonal(&self) -> DVector<T> { of((0..self.r.min(self.c)).map(|k| self.data[k + k * self.r]).collect(), self.r.min(self.c), 1) }
    pub fn dot<R2, C2>(&self, o: &OMatrix<T, R2, C2>) -> T { assert_eq!(self.data.len(), o.data.len()); self.data.iter().zip(&o.data).fold(T::zero(), |a, (x, y)| a + *x * *y) }
    pub fn fill(&mut self, x: T) { for y in self.data.iter_mut() { *y = x } }
    pub fn copy_from<R2, C2>(&mut self, o: &OMatrix<T, R2, C2>) { assert_eq!(self.shape(), o.shape()); self.data.copy_from_slice(&o.data) }
    pub fn row(&self, i: usize) -> OMatrix<T, U1, C> { assert!(i < self.r, "Matrix slicing out of bounds."); of((0..self.c).map(|j| self.data[i + j * self.r]).collect(), 1, self.c) }
    pub fn column(&self, j: usize) -> OMatrix<T, R, U1> { assert!(j < self.c, "Matrix slicing out of bounds."); of(self.data[j * self.r..(j + 1) * self.r].to_vec(), self.r, 1) }
    pub fn row_iter(&self) -> std::vec::IntoIter<OMatrix<T, U1, C>> { (0..self.r).map(|i| self.row(i)).collect::<Vec<_>>().into_iter() }
    pub fn column_iter(&self) -> std::vec::IntoIter<OMatrix<T, R, U1>> { (0..self.c).map(|j| self.column(j)).collect::<Vec<_>>().into_iter() }
    pub fn set_row<C2>(&mut self, i: usize, v: &OMatrix<T, U1, C2>) { assert!(i < self.r && v.data.len() == self.c, "matrix dimensions mismatch"); for j in 0..self.c { self.data[i + j * self.r] = v.data[j]; } }
    pub fn set_column<R2>(&mut self, j: usize, v: &OMatrix<T, R2, U1>) { assert!(j < self.c && v.data.len() == self.r, "matrix dimensions mismatch"); for i in 0..self.r { self.data[i + j * self.r] = v.data[i]; } }
    pub fn tr_mul<R2, C2>(&self, o: &OMatrix<T, R2, C2>) -> OMatrix<T, C, C2> { product(&self.transpose(), o) }
    pub fn row_sum(&self) -> RowDVector<T> { of((0..self.c).map(|j| self.column(j).sum()).collect(), 1, self.c) }
    pub fn column_sum(&self) -> DVector<T> { of((0..self.r).map(|i| self.row(i).sum()).collect(), self.r, 1) }
}
fn product<T: RealField, R1, C1, R2, C2>(a: &OMatrix<T, R1, C1>, b: &OMatrix<T, R2, C2>) -> OMatrix<T, R1, C2> {
    assert_eq!(a.c, b.r, "Matrix multiplication dimensions mismatch.");
    let mut v = Vec::with_capacity(a.r * b.c);
    for j in 0..b.c { for i in 0..a.r { let mut s = T::zero(); for k in 0..a.c { s = s + a.data[i + k * a.r] * b.data[k + j * b.r]; } v.push(s); } }
    of(v, a.r, b.c)
}
impl<T: RealField, R, C> Index<(usize, usize)> for OMatrix<T, R, C> { type Output = T; fn index(&self, p: (usize, usize)) -> &T { assert!(p.0 < self.r && p.1 < self.c, "Matrix index out of bounds."); &self.data[p.0 + p.1 * self.r] } }
impl<T: RealField, R, C> IndexMut<(usize, usize)> for OMatrix<T, R, C> { fn index_mut(&mut self, p: (usize, usize)) -> &mut T { assert!(p.0 < self.r && p.1 < self.c, "Matrix index out of bounds."); &mut self.data[p.0 + p.1 * self.r] } }
impl<T: RealField, R, C> Index<usize> for OMatrix<T, R, C> { type Output = T; fn index(&self, p: usize) -> &T { &self.data[p] } }
impl<T: RealField, R, C> IndexMut<usize> for OMatrix<T, R, C> { fn index_mut(&mut self, p: usize) -> &mut T { &mut self.data[p] } }

macro_rules! elementwise { ($($tr:ident $m:ident $op:tt;)*) => { $(
    impl<T: RealField, R, C> $tr<OMatrix<T, R, C>> for OMatrix<T, R, C> { type Output = OMatrix<T, R, C>; fn $m(self, o: OMatrix<T, R, C>) -> OMatrix<T, R, C> { self.zip_map(&o, |a, b| a $op b) } }
    impl<'a, T: RealField, R, C> $tr<&'a OMatrix<T, R, C>> for OMatrix<T, R, C> { type Output = OMatrix<T, R, C>; fn $m(self, o: &'a OMatrix<T, R, C>) -> OMatrix<T, R, C> { self.zip_map(o, |a, b| a $op b) } }
    impl<'a, T: RealField, R, C> $tr<OMatrix<T, R, C>> for &'a OMatrix<T, R, C> { type Output = OMatrix<T, R, C>; fn $m(self, o: OMatrix<T, R, C>) -> OMatrix<T, R, C> { self.zip_map(&o, |a, b| a $op b) } }
    impl<'a, 'b, T: RealField, R, C> $tr<&'b OMatrix<T, R, C>> for &'a OMatrix<T, R, C> { type Output = OMatrix<T, R, C>; fn $m(self, o: &'b OMatrix<T, R, C>) -> OMatrix<T, R, C> { self.zip_map(o, |a, b| a $op b) } }
)* } }
elementwise! { Add add +; Sub sub -; }
macro_rules! scalar { ($($t:ty),*) => { $(
    impl<R, C> Mul<$t> for OMatrix<$t, R, C> { type Output = Self; fn mul(self, s: $t) -> Self { self.map(|x| x * s) } }
    impl<'a, R, C> Mul<$t> for &'a OMatrix<$t, R, C> { type Output = OMatrix<$t, R, C>; fn mul(self, s: $t) -> OMatrix<$t, R, C> { self.map(|x| x * s) } }
    impl<R, C> Div<$t> for OMatrix<$t, R, C> { type Output = Self; fn div(self, s: $t) -> Self { self.map(|x| x / s) } }
    impl<'a, R, C> Div<$t> for &'a OMatrix<$t, R, C> { type Output = OMatrix<$t, R, C>; fn div(self, s: $t) -> OMatrix<$t, R, C> { self.map(|x| x / s) } }
    impl<R, C> MulAssign<$t> for OMatrix<$t, R, C> { fn mul_assign(&mut self, s: $t) { self.apply(|x| *x *= s) } }
    impl<R, C> DivAssign<$t> for OMatrix<$t, R, C> { fn div_assign(&mut self, s: $t) { self.apply(|x| *x /= s) } }
    impl<R, C> Mul<OMatrix<$t, R, C>> for $t { type Output = OMatrix<$t, R, C>; fn mul(self, m: OMatrix<$t, R, C>) -> OMatrix<$t, R, C> { m.map(|x| x * self) } }
    impl<'a, R, C> Mul<&'a OMatrix<$t, R, C>> for $t { type Output = OMatrix<$t, R, C>; fn mul(self, m: &'a OMatrix<$t, R, C>) -> OMatrix<$t, R, C> { m.map(|x| x * self) } }
)* } }
scalar!(f32, f64);
impl<T: RealField, R, C> Neg for OMatrix<T, R, C> { type Output = Self; fn neg(self) -> Self { self.map(|x| -x) } }
impl<'a, T: RealField, R, C> Neg for &'a OMatrix<T, R, C> { type Output = OMatrix<T, R, C>; fn neg(self) -> OMatrix<T, R, C> { self.map(|x| -x) } }
impl<T: RealField, R, C> AddAssign<OMatrix<T, R, C>> for OMatrix<T, R, C> { fn add_assign(&mut self, o: OMatrix<T, R, C>) { *self = self.zip_map(&o, |a, b| a + b) } }
impl<'a, T: RealField, R, C> AddAssign<&'a OMatrix<T, R, C>> for OMatrix<T, R, C> { fn add_assign(&mut self, o: &'a OMatrix<T, R, C>) { *self = self.zip_map(o, |a, b| a + b) } }
impl<'a, T: RealField, R, C> SubAssign<&'a OMatrix<T, R, C>> for OMatrix<T, R, C> { fn sub_assign(&mut self, o: &'a OMatrix<T, R, C>) { *self = self.zip_map(o, |a, b| a - b) } }
impl<T: RealField, R1, C1, R2, C2> Mul<OMatrix<T, R2, C2>> for OMatrix<T, R1, C1> { type Output = OMatrix<T, R1, C2>; fn mul(self, o: OMatrix<T, R2, C2>) -> OMatrix<T, R1, C2> { product(&self, &o) } }
impl<'a, T: RealField, R1, C1, R2, C2> Mul<&'a OMatrix<T, R2, C2>> for OMatrix<T, R1, C1> { type Output = OMatrix<T, R1, C2>; fn mul(self, o: &'a OMatrix<T, R2, C2>) -> OMatrix<T, R1, C2> { product(&self, o) } }
impl<'a, T: RealField, R1, C1, R2, C2> Mul<OMatrix<T, R2, C2>> for &'a OMatrix<T, R1, C1> { type Output = OMatrix<T, R1, C2>; fn mul(self, o: OMatrix<T, R2, C2>) -> OMatrix<T, R1, C2> { product(self, &o) } }
impl<'a, 'b, T: RealField, R1, C1, R2, C2> Mul<&'b OMatrix<T, R2, C2>> for &'a OMatrix<T, R1, C1> { type Output = OMatrix<T, R1, C2>; fn mul(self, o: &'b OMatrix<T, R2, C2>) -> OMatrix<T, R1, C2> { product(self, o) } }
