//! Stand-in for candle-core without a GPU: the device is always the CPU, and every tensor operation is refused.
use std::ops::{Add, Div, Mul, Sub};
#[derive(Clone, Debug, PartialEq)] pub enum Device { Cpu, Cuda(usize), Metal(usize) }
impl Device {
    pub fn cuda_if_available(_n: usize) -> Result<Device> { Ok(Device::Cpu) }
    pub fn new_cuda(_n: usize) -> Result<Device> { Err(Error("no cuda".into())) }
    pub fn is_cuda(&self) -> bool { matches!(self, Device::Cuda(_)) }
    pub fn is_cpu(&self) -> bool { matches!(self, Device::Cpu) }
}
#[derive(Clone, Copy, Debug, PartialEq)] pub enum DType { U8, U32, I64, BF16, F16, F32, F64 }
#[derive(Debug)] pub struct Error(String);
pub type Result<T> = std::result::Result<T, Error>;
impl Error { pub fn msg<S: std::fmt::Display>(s: S) -> Error { Error(s.to_string()) } }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::error::Error for Error {}
pub trait WithDType {}
impl WithDType for f32 {} impl WithDType for f64 {} impl WithDType for u8 {} impl WithDType for u32 {} impl WithDType for i64 {}
#[derive(Clone, Debug)] pub struct Shape(Vec<usize>);
impl Shape {
    pub fn dims(&self) -> &[usize] { &self.0 }
    pub fn dims1(&self) -> Result<usize> { no() }
    pub fn dims2(&self) -> Result<(usize, usize)> { no() }
    pub fn elem_count(&self) -> usize { self.0.iter().product() }
}
impl From<usize> for Shape { fn from(a: usize) -> Self { Shape(vec![a]) } }
impl From<(usize,)> for Shape { fn from(a: (usize,)) -> Self { Shape(vec![a.0]) } }
impl From<(usize, usize)> for Shape { fn from(a: (usize, usize)) -> Self { Shape(vec![a.0, a.1]) } }
impl From<&[usize]> for Shape { fn from(a: &[usize]) -> Self { Shape(a.to_vec()) } }
#[derive(Clone, Debug)] pub struct Tensor(Shape, Device);
fn no<T>() -> Result<T> { Err(Error("there is no GPU".into())) }
macro_rules! unary { ($($n:ident),*) => { impl Tensor { $( pub fn $n(&self) -> Result<Tensor> { no() } )* } } }
unary!(t, abs, sqr, sqrt, sum_all, neg, exp, recip, contiguous, mean_all, detach, relu);
macro_rules! binary { ($($n:ident),*) => { impl Tensor { $( pub fn $n(&self, _o: &Tensor) -> Result<Tensor> { no() } )* } } }
binary!(add, sub, mul, div, matmul, lt, gt, le, ge, broadcast_add, broadcast_sub, broadcast_mul, broadcast_div, maximum, minimum);
impl Tensor {
    pub fn from_vec<S: Into<Shape>, D: WithDType>(_v: Vec<D>, s: S, d: &Device) -> Result<Tensor> { Ok(Tensor(s.into(), d.clone())) }
    pub fn eye(_n: usize, _t: DType, _d: &Device) -> Result<Tensor> { no() }
    pub fn zeros<S: Into<Shape>>(_s: S, _t: DType, _d: &Device) -> Result<Tensor> { no() }
    pub fn ones<S: Into<Shape>>(_s: S, _t: DType, _d: &Device) -> Result<Tensor> { no() }
    pub fn shape(&self) -> &Shape { &self.0 }
    pub fn dims(&self) -> &[usize] { &self.0.0 }
    pub fn device(&self) -> &Device { &self.1 }
    pub fn get(&self, _i: usize) -> Result<Tensor> { no() }
    pub fn get_on_dim(&self, _d: usize, _i: usize) -> Result<Tensor> { no() }
    pub fn to_dtype(&self, _t: DType) -> Result<Tensor> { no() }
    pub fn to_scalar<S: WithDType>(&self) -> Result<S> { no() }
    pub fn to_vec1<S: WithDType>(&self) -> Result<Vec<S>> { no() }
    pub fn to_vec2<S: WithDType>(&self) -> Result<Vec<Vec<S>>> { no() }
    pub fn sum<D>(&self, _d: D) -> Result<Tensor> { no() }
    pub fn where_cond(&self, _a: &Tensor, _b: &Tensor) -> Result<Tensor> { no() }
    pub fn slice_set(&self, _a: &Tensor, _d: usize, _o: usize) -> Result<()> { no() }
    pub fn affine(&self, _a: f64, _b: f64) -> Result<Tensor> { no() }
}
macro_rules! ops { ($($tr:ident $m:ident),*) => { $(
    impl $tr<Tensor> for Tensor { type Output = Result<Tensor>; fn $m(self, _o: Tensor) -> Result<Tensor> { no() } }
    impl $tr<&Tensor> for Tensor { type Output = Result<Tensor>; fn $m(self, _o: &Tensor) -> Result<Tensor> { no() } }
    impl $tr<Tensor> for &Tensor { type Output = Result<Tensor>; fn $m(self, _o: Tensor) -> Result<Tensor> { no() } }
    impl $tr<&Tensor> for &Tensor { type Output = Result<Tensor>; fn $m(self, _o: &Tensor) -> Result<Tensor> { no() } }
    impl $tr<f64> for Tensor { type Output = Result<Tensor>; fn $m(self, _o: f64) -> Result<Tensor> { no() } }
    impl $tr<f64> for &Tensor { type Output = Result<Tensor>; fn $m(self, _o: f64) -> Result<Tensor> { no() } }
)* } }
ops!(Add add, Sub sub, Mul mul, Div div);
