//! Stand-in for the part of ndarray that the extension uses.
use std::marker::PhantomData;
use std::ops::{Index, IndexMut};

#[derive(Clone, Debug, PartialEq)] pub struct Ix1;
#[derive(Clone, Debug, PartialEq)] pub struct Ix2;
/// a dimension of any length
#[derive(Clone, Debug, PartialEq)] pub struct IxDyn(pub Vec<usize>);
impl Index<usize> for IxDyn { type Output = usize; fn index(&self, i: usize) -> &usize { &self.0[i] } }
impl IxDyn { pub fn ndim(&self) -> usize { self.0.len() } }

#[derive(Debug, Clone)] pub struct ShapeError;
impl std::fmt::Display for ShapeError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "incompatible shapes") } }
impl std::error::Error for ShapeError {}

pub trait Shape { fn lengths(self) -> Vec<usize>; }
impl Shape for (usize, usize) { fn lengths(self) -> Vec<usize> { vec![self.0, self.1] } }
impl Shape for [usize; 2] { fn lengths(self) -> Vec<usize> { self.to_vec() } }
impl Shape for usize { fn lengths(self) -> Vec<usize> { vec![self] } }
impl Shape for IxDyn { fn lengths(self) -> Vec<usize> { self.0 } }

#[derive(Debug)]
pub struct Array<T, D> { pub data: Vec<T>, pub shape: Vec<usize>, pub strides: Vec<usize>, pub d: PhantomData<D> }
impl<T: Clone, D> Clone for Array<T, D> { fn clone(&self) -> Self { Array { data: self.data.clone(), shape: self.shape.clone(), strides: self.strides.clone(), d: PhantomData } } }
pub type Array1<T> = Array<T, Ix1>;
pub type Array2<T> = Array<T, Ix2>;
pub type ArrayD<T> = Array<T, IxDyn>;
pub type ArrayView2<'a, T> = Array<T, Ix2>;

pub fn c_strides(shape: &[usize]) -> Vec<usize> {
    let mut s = vec![1; shape.len()];
    for k in (0..shape.len().saturating_sub(1)).rev() { s[k] = s[k + 1] * shape[k + 1]; }
    s
}

impl<T: Clone, D> Array<T, D> {
    pub fn raw(data: Vec<T>, shape: Vec<usize>, strides: Vec<usize>) -> Self { Array { data, shape, strides, d: PhantomData } }
    pub fn from_shape_vec<S: Shape>(s: S, data: Vec<T>) -> Result<Self, ShapeError> {
        let shape = s.lengths();
        if shape.iter().product::<usize>() != data.len() { return Err(ShapeError); }
        let st = c_strides(&shape);
        Ok(Self::raw(data, shape, st))
    }
    pub fn from_elem<S: Shape>(s: S, x: T) -> Self { let shape = s.lengths(); let n = shape.iter().product(); let st = c_strides(&shape); Self::raw(vec![x; n], shape, st) }
    pub fn shape(&self) -> &[usize] { &self.shape }
    pub fn ndim(&self) -> usize { self.shape.len() }
    pub fn len(&self) -> usize { self.shape.iter().product() }
    fn logical(&self) -> Vec<usize> {
        let mut out = vec![0usize];
        for (n, s) in self.shape.iter().zip(&self.strides) {
            out = out.iter().flat_map(|o| (0..*n).map(move |k| o + k * s)).collect();
        }
        out
    }
    /// elements in logical order
    pub fn iter(&self) -> std::vec::IntoIter<&T> { self.logical().into_iter().map(|k| &self.data[k]).collect::<Vec<_>>().into_iter() }
    pub fn t(&self) -> Self { let (mut a, mut b) = (self.shape.clone(), self.strides.clone()); a.reverse(); b.reverse(); Self::raw(self.data.clone(), a, b) }
    pub fn reversed_axes(self) -> Self { self.t() }
    pub fn to_owned(&self) -> Self { self.clone() }
    pub fn view(&self) -> Self { self.clone() }
    pub fn mapv<B: Clone, F: Fn(T) -> B>(&self, f: F) -> Array<B, D> { Array::raw(self.data.iter().cloned().map(f).collect(), self.shape.clone(), self.strides.clone()) }
    pub fn is_standard_layout(&self) -> bool { self.strides == c_strides(&self.shape) }
    pub fn as_standard_layout(&self) -> Self { let d = self.iter().cloned().collect(); let st = c_strides(&self.shape); Self::raw(d, self.shape.clone(), st) }
    pub fn as_slice(&self) -> Option<&[T]> { if self.is_standard_layout() { Some(&self.data) } else { None } }
    pub fn into_dimensionality<E>(self) -> Result<Array<T, E>, ShapeError> where E: Fixed { if E::N == 0 || E::N == self.shape.len() { Ok(Array::raw(self.data, self.shape, self.strides)) } else { Err(ShapeError) } }
}
pub trait Fixed { const N: usize; }
impl Fixed for Ix1 { const N: usize = 1; }
impl Fixed for Ix2 { const N: usize = 2; }
impl Fixed for IxDyn { const N: usize = 0; }
impl<T: Clone> Array<T, Ix2> {
    pub fn dim(&self) -> (usize, usize) { (self.shape[0], self.shape[1]) }
    pub fn nrows(&self) -> usize { self.shape[0] }
    pub fn ncols(&self) -> usize { self.shape[1] }
    pub fn from_shape_fn<F: Fn((usize, usize)) -> T>(s: (usize, usize), f: F) -> Self {
        let d = (0..s.0).flat_map(|i| (0..s.1).map(move |j| (i, j))).map(|p| f(p)).collect();
        Self::from_shape_vec(s, d).unwrap()
    }
}
impl<T: Clone + Default, D> Array<T, D> { pub fn zeros<S: Shape>(s: S) -> Self { Self::from_elem(s, T::default()) } }
impl<T> Index<[usize; 2]> for Array<T, Ix2> { type Output = T; fn index(&self, p: [usize; 2]) -> &T { assert!(p[0] < self.shape[0] && p[1] < self.shape[1]); &self.data[p[0] * self.strides[0] + p[1] * self.strides[1]] } }
impl<T> IndexMut<[usize; 2]> for Array<T, Ix2> { fn index_mut(&mut self, p: [usize; 2]) -> &mut T { assert!(p[0] < self.shape[0] && p[1] < self.shape[1]); &mut self.data[p[0] * self.strides[0] + p[1] * self.strides[1]] } }
impl<T> Index<(usize, usize)> for Array<T, Ix2> { type Output = T; fn index(&self, p: (usize, usize)) -> &T { &self[[p.0, p.1]] } }
impl<T> IndexMut<(usize, usize)> for Array<T, Ix2> { fn index_mut(&mut self, p: (usize, usize)) -> &mut T { &mut self[[p.0, p.1]] } }
