//! Stand-in for the part of rust-numpy that the extension uses.
extern crate ndarray;
extern crate pyo3;
use ndarray::{c_strides, Array, IxDyn, Shape};
use pyo3::{Bound, CArg, FromArg, PyErr, PyResult, Python, ToVal, Val};
use std::marker::PhantomData;

pub trait Element: Copy { const NAME: &'static str; const KIND: i32; fn f(self) -> f64; }
impl Element for f32 { const NAME: &'static str = "float32"; const KIND: i32 = 4; fn f(self) -> f64 { self as f64 } }
impl Element for f64 { const NAME: &'static str = "float64"; const KIND: i32 = 7; fn f(self) -> f64 { self } }

#[derive(Debug)] pub struct NotContiguousError;
impl std::fmt::Display for NotContiguousError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "The given array is not contiguous") } }
impl std::error::Error for NotContiguousError {}

fn f_strides(shape: &[usize]) -> Vec<usize> { let mut r = shape.to_vec(); r.reverse(); let mut s = c_strides(&r); s.reverse(); s }
fn contiguous(shape: &[usize], strides: &[usize], want: &[usize]) -> bool {
    shape.iter().product::<usize>() == 0 || shape.iter().zip(strides.iter().zip(want)).all(|(n, (a, b))| *n == 1 || a == b)
}

/// an array: the elements in memory, its shape and its strides (in elements)
#[derive(Clone, Debug)]
pub struct PyArray<T, D> { pub a: Array<T, D> }
pub type PyArray1<T> = PyArray<T, ndarray::Ix1>;
pub type PyArray2<T> = PyArray<T, ndarray::Ix2>;
pub type PyArrayDyn<T> = PyArray<T, IxDyn>;
pub struct PyReadonlyArray<'py, T, D> { pub a: Array<T, D>, py: PhantomData<&'py ()> }
pub type PyReadonlyArrayDyn<'py, T> = PyReadonlyArray<'py, T, IxDyn>;
pub type PyReadonlyArray2<'py, T> = PyReadonlyArray<'py, T, ndarray::Ix2>;
pub type PyReadonlyArray1<'py, T> = PyReadonlyArray<'py, T, ndarray::Ix1>;

impl<'py, T: Element, D: ndarray::Fixed> FromArg for PyReadonlyArray<'py, T, D> {
    fn from_arg(a: &CArg, name: &str) -> PyResult<Self> {
        if a.kind != T::KIND || (D::N != 0 && D::N != a.ndim as usize) { return pyo3::type_err(name, "object cannot be converted to 'PyArray<T, D>'"); }
        let n = a.ndim as usize;
        let shape: Vec<usize> = a.shape[..n].iter().map(|x| *x as usize).collect();
        let strides: Vec<usize> = a.strides[..n].iter().map(|x| *x as usize).collect();
        let size = if shape.iter().product::<usize>() == 0 { 0 } else { 1 + shape.iter().zip(&strides).map(|(n, s)| (n - 1) * s).sum::<usize>() };
        let data = unsafe { std::slice::from_raw_parts(a.p as *const T, size) }.to_vec();
        Ok(PyReadonlyArray { a: Array::raw(data, shape, strides), py: PhantomData })
    }
}

pub trait PyArrayMethods<T, D> {
    fn arr(&self) -> &Array<T, D>;
    fn shape_(&self) -> Vec<usize> where T: Element, D: Clone { self.arr().shape.clone() }
    fn dims(&self) -> IxDyn where T: Element { IxDyn(self.arr().shape.clone()) }
    fn is_c_contiguous(&self) -> bool where T: Element { let a = self.arr(); contiguous(&a.shape, &a.strides, &c_strides(&a.shape)) }
    fn is_fortran_contiguous(&self) -> bool where T: Element { let a = self.arr(); contiguous(&a.shape, &a.strides, &f_strides(&a.shape)) }
    fn is_contiguous(&self) -> bool where T: Element { self.is_c_contiguous() || self.is_fortran_contiguous() }
    /// the elements in the order they have in memory
    fn to_vec(&self) -> Result<Vec<T>, NotContiguousError> where T: Element { if self.is_contiguous() { Ok(self.arr().data.clone()) } else { Err(NotContiguousError) } }
    fn to_owned_array(&self) -> Array<T, D> where T: Element, D: Clone { self.arr().clone() }
    /// keeps the order of memory (NPY_ANYORDER)
    fn reshape<'py, S: Shape>(&self, s: S) -> PyResult<Bound<'py, PyArray<T, IxDyn>>> where T: Element {
        let shape = s.lengths();
        let a = self.arr();
        if shape.iter().product::<usize>() != a.shape.iter().product::<usize>() { return Err(PyErr { kind: "ValueError".into(), msg: "cannot reshape array".into() }); }
        let fortran = self.is_fortran_contiguous() && !self.is_c_contiguous();
        let strides = if fortran { f_strides(&shape) } else { c_strides(&shape) };
        let data: Vec<T> = if fortran { a.data.clone() } else { Array::<T, D>::raw(a.data.clone(), a.shape.clone(), a.strides.clone()).iter().cloned().collect() };
        Ok(Bound::of(PyArray { a: Array::raw(data, shape, strides) }))
    }
}
impl<T, D> PyArrayMethods<T, D> for PyArray<T, D> { fn arr(&self) -> &Array<T, D> { &self.a } }
impl<'py, T, D> PyArrayMethods<T, D> for PyReadonlyArray<'py, T, D> { fn arr(&self) -> &Array<T, D> { &self.a } }
pub trait PyUntypedArrayMethods {}
impl<'py, T: Element, D: Clone> PyReadonlyArray<'py, T, D> {
    pub fn as_array(&self) -> Array<T, D> { self.a.clone() }
    pub fn as_slice(&self) -> Result<&[T], NotContiguousError> { if self.is_contiguous() { Ok(&self.a.data) } else { Err(NotContiguousError) } }
    pub fn shape(&self) -> &[usize] { &self.a.shape }
    pub fn len(&self) -> usize { self.a.len() }
}
impl<T: Element, D> ToVal for PyArray<T, D> {
    fn val(&self) -> Val { Val::Array { dtype: T::NAME, shape: self.a.shape.clone(), strides: self.a.strides.clone(), data: self.a.data.iter().map(|x| x.f()).collect() } }
}

pub trait ToPyArray { type Item; type Dim; fn to_pyarray<'py>(&self, py: Python<'py>) -> Bound<'py, PyArray<Self::Item, Self::Dim>>; }
impl<T: Element, D: Clone> ToPyArray for Array<T, D> {
    type Item = T; type Dim = D;
    /// keeps the layout of a contiguous array
    fn to_pyarray<'py>(&self, _py: Python<'py>) -> Bound<'py, PyArray<T, D>> { Bound::of(PyArray { a: self.clone() }) }
}
impl<T: Element> ToPyArray for [T] {
    type Item = T; type Dim = ndarray::Ix1;
    fn to_pyarray<'py>(&self, _py: Python<'py>) -> Bound<'py, PyArray<T, ndarray::Ix1>> { Bound::of(PyArray { a: Array::raw(self.to_vec(), vec![self.len()], vec![1]) }) }
}
impl<T: Element> ToPyArray for Vec<T> {
    type Item = T; type Dim = ndarray::Ix1;
    fn to_pyarray<'py>(&self, _py: Python<'py>) -> Bound<'py, PyArray<T, ndarray::Ix1>> { Bound::of(PyArray { a: Array::raw(self.clone(), vec![self.len()], vec![1]) }) }
}
pub trait IntoPyArray: ToPyArray + Sized { fn into_pyarray<'py>(self, py: Python<'py>) -> Bound<'py, PyArray<Self::Item, Self::Dim>> { self.to_pyarray(py) } }
impl<T: Element, D: Clone> IntoPyArray for Array<T, D> {}
impl<T: Element> IntoPyArray for Vec<T> {}
