//! Stand-in for the part of pyo3 that the extension uses.  Values live in Rust and cross the border as JSON.
extern crate pyo3_macros;
pub use pyo3_macros::{pyfunction, pymodule};
use std::cell::RefCell;
use std::ffi::{CString, CStr};
use std::marker::PhantomData;
use std::ops::Deref;
use std::os::raw::{c_char, c_void};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    None, Bool(bool), Int(i64), Float(f64), Str(String),
    Array { dtype: &'static str, shape: Vec<usize>, strides: Vec<usize>, data: Vec<f64> },
    List(Vec<Val>),
    Dict(Rc<RefCell<Vec<(String, Val)>>>),
    Callable(*const c_void),
}

fn num(x: f64) -> String {
    if x.is_nan() { "NaN".into() } else if x.is_infinite() { if x > 0.0 { "Infinity".into() } else { "-Infinity".into() } }
    else { format!("{:?}", x) }
}

impl Val {
    pub fn json(&self) -> String {
        match self {
            Val::None | Val::Callable(_) => "null".into(),
            Val::Bool(b) => b.to_string(),
            Val::Int(i) => i.to_string(),
            Val::Float(f) => num(*f),
            Val::Str(s) => format!("{:?}", s),
            Val::List(l) => format!("[{}]", l.iter().map(|v| v.json()).collect::<Vec<_>>().join(",")),
            Val::Array { dtype, shape, strides, data } =>
                format!("{{\"dtype\":\"{}\",\"shape\":{:?},\"strides\":{:?},\"data\":[{}]}}", dtype, shape, strides,
                        data.iter().map(|x| num(*x)).collect::<Vec<_>>().join(",")),
            Val::Dict(d) => format!("{{\"dict\":{{{}}}}}", d.borrow().iter().map(|(k, v)| format!("{:?}:{}", k, v.json()))
                        .collect::<Vec<_>>().join(",")),
        }
    }
}

/// what the caller passes for one parameter
#[repr(C)]
pub struct CArg {
    pub kind: i32,              // 0 None, 1 bool, 2 int, 3 float, 4 float32 array, 5 callable, 6 string, 7 float64 array
    pub i: i64,
    pub f: f64,
    pub p: *const c_void,
    pub ndim: i32,
    pub shape: [i64; 4],
    pub strides: [i64; 4],      // in elements
}

pub fn cstr(s: &str) -> *mut c_char { CString::new(s.replace('\0', "")).unwrap().into_raw() }
#[no_mangle]
pub unsafe extern "C" fn shim_free(p: *mut c_char) { drop(CString::from_raw(p)); }

#[derive(Debug, Clone)]
pub struct PyErr { pub kind: String, pub msg: String }
pub type PyResult<T> = Result<T, PyErr>;
pub trait ErrArgs { fn text(self) -> String; }
impl ErrArgs for String { fn text(self) -> String { self } }
impl ErrArgs for &str { fn text(self) -> String { self.into() } }
impl PyErr {
    pub fn new<E: exceptions::Kind, A: ErrArgs>(a: A) -> PyErr { PyErr { kind: E::NAME.into(), msg: a.text() } }
}
impl std::fmt::Display for PyErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}: {}", self.kind, self.msg) } }
impl std::error::Error for PyErr {}

pub mod exceptions {
    use super::*;
    pub trait Kind { const NAME: &'static str; }
    macro_rules! kinds { ($($t:ident $n:expr),*) => { $(
        pub struct $t;
        impl Kind for $t { const NAME: &'static str = $n; }
        impl $t { pub fn new_err<A: ErrArgs>(a: A) -> PyErr { PyErr::new::<$t, A>(a) } }
    )* } }
    kinds!(PyRuntimeError "RuntimeError", PyValueError "ValueError", PyTypeError "TypeError", PyException "Exception",
           PyOverflowError "OverflowError", PyIndexError "IndexError", PyKeyError "KeyError", PyIOError "OSError");
}

#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<&'py ()>);
impl<'py> Python<'py> {
    pub fn stand_in() -> Python<'py> { Python(PhantomData) }
    pub fn allow_threads<T, F: FnOnce() -> T>(self, f: F) -> T { f() }
    pub fn with_gil<T, F: FnOnce(Python<'py>) -> T>(f: F) -> T { f(Python(PhantomData)) }
    pub fn check_signals(self) -> PyResult<()> { Ok(()) }
    #[allow(non_snake_case)]
    pub fn None(self) -> PyObject { Py { inner: PyAny(Val::None) } }
}

#[derive(Clone, Debug)]
pub struct PyAny(pub Val);
#[derive(Clone, Debug)]
pub struct Py<T> { pub inner: T }
pub type PyObject = Py<PyAny>;
pub struct Bound<'py, T> { pub inner: T, pub py: PhantomData<&'py ()> }
impl<'py, T: Clone> Clone for Bound<'py, T> { fn clone(&self) -> Self { Bound::of(self.inner.clone()) } }
impl<'py, T> Bound<'py, T> {
    pub fn of(inner: T) -> Self { Bound { inner, py: PhantomData } }
    pub fn py(&self) -> Python<'py> { Python::stand_in() }
}
impl<'py, T> Deref for Bound<'py, T> { type Target = T; fn deref(&self) -> &T { &self.inner } }
pub trait ToVal { fn val(&self) -> Val; }
impl<'py, T: ToVal> Bound<'py, T> {
    pub fn into_any(self) -> Bound<'py, PyAny> { Bound::of(PyAny(self.inner.val())) }
    pub fn unbind(self) -> Py<T> { Py { inner: self.inner } }
    pub fn to_owned(&self) -> Bound<'py, PyAny> { Bound::of(PyAny(self.inner.val())) }
}
impl<'py, T: ToVal> ToVal for Bound<'py, T> { fn val(&self) -> Val { self.inner.val() } }
impl<T: ToVal> ToVal for Py<T> { fn val(&self) -> Val { self.inner.val() } }
impl<T: ToVal> ToVal for &T { fn val(&self) -> Val { (*self).val() } }
impl ToVal for PyAny { fn val(&self) -> Val { self.0.clone() } }
impl ToVal for bool { fn val(&self) -> Val { Val::Bool(*self) } }
impl ToVal for f64 { fn val(&self) -> Val { Val::Float(*self) } }
impl ToVal for f32 { fn val(&self) -> Val { Val::Float(*self as f64) } }
impl ToVal for String { fn val(&self) -> Val { Val::Str(self.clone()) } }
impl ToVal for str { fn val(&self) -> Val { Val::Str(self.to_string()) } }
impl<T: ToVal> ToVal for Option<T> { fn val(&self) -> Val { self.as_ref().map(|x| x.val()).unwrap_or(Val::None) } }
impl<T: ToVal> ToVal for Vec<T> { fn val(&self) -> Val { Val::List(self.iter().map(|x| x.val()).collect()) } }
impl ToVal for () { fn val(&self) -> Val { Val::None } }
macro_rules! ints { ($($t:ty),*) => { $( impl ToVal for $t { fn val(&self) -> Val { Val::Int(*self as i64) } } )* } }
ints!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
impl<'py, T: ToVal> From<Bound<'py, T>> for Py<PyAny> { fn from(b: Bound<'py, T>) -> Self { Py { inner: PyAny(b.inner.val()) } } }
impl<T: ToVal> Py<T> {
    pub fn into_any(self) -> PyObject { Py { inner: PyAny(self.inner.val()) } }
    pub fn bind<'py>(&self, _py: Python<'py>) -> Bound<'py, PyAny> { Bound::of(PyAny(self.inner.val())) }
    pub fn is_none(&self, _py: Python) -> bool { matches!(self.inner.val(), Val::None) }
    pub fn clone_ref(&self, _py: Python) -> PyObject { Py { inner: PyAny(self.inner.val()) } }
}

pub trait CallArgs { fn list(self) -> Vec<Val>; }
macro_rules! tuples { ($($($t:ident)+;)*) => { $(
    #[allow(non_snake_case)]
    impl<$($t: ToVal),+> CallArgs for ($($t,)+) { fn list(self) -> Vec<Val> { let ($($t,)+) = self; vec![$($t.val()),+] } }
)* } }
tuples! { A; A B; A B C; A B C D; A B C D E; A B C D E F; A B C D E F G; A B C D E F G H; A B C D E F G H I; }
fn call(v: &Val, args: Vec<Val>) -> PyResult<PyObject> {
    match v {
        Val::Callable(p) => {
            let f: extern "C" fn(*const c_char) = unsafe { std::mem::transmute(*p) };
            let s = CString::new(Val::List(args).json()).unwrap();
            f(s.as_ptr());
            Ok(Py { inner: PyAny(Val::None) })
        }
        _ => Err(PyErr { kind: "TypeError".into(), msg: "object is not callable".into() }),
    }
}
impl Py<PyAny> {
    pub fn call1<A: CallArgs>(&self, _py: Python, a: A) -> PyResult<PyObject> { call(&self.inner.0, a.list()) }
    pub fn call0(&self, _py: Python) -> PyResult<PyObject> { call(&self.inner.0, vec![]) }
}
impl<'py> Bound<'py, PyAny> {
    pub fn call1<A: CallArgs>(&self, a: A) -> PyResult<PyObject> { call(&self.inner.0, a.list()) }
    pub fn is_none(&self) -> bool { matches!(self.inner.0, Val::None) }
}

pub mod types {
    use super::*;
    macro_rules! simple { ($($t:ident $a:ty;)*) => { $(
        #[derive(Clone, Debug)] pub struct $t(pub Val);
        impl $t { pub fn new<'py, X: Into<$a>>(_py: Python<'py>, x: X) -> Bound<'py, $t> { Bound::of($t(ToVal::val(&x.into()))) } }
        impl ToVal for $t { fn val(&self) -> Val { self.0.clone() } }
    )* } }
    simple! { PyFloat f64; PyBool bool; PyInt i64; PyString String; }
    #[derive(Clone, Debug)] pub struct PyDict(pub Rc<RefCell<Vec<(String, Val)>>>);
    impl PyDict { pub fn new<'py>(_py: Python<'py>) -> Bound<'py, PyDict> { Bound::of(PyDict(Rc::new(RefCell::new(vec![])))) } }
    impl ToVal for PyDict { fn val(&self) -> Val { Val::Dict(self.0.clone()) } }
    pub trait PyDictMethods { fn set_item<K: AsRef<str>, V: ToVal>(&self, k: K, v: V) -> PyResult<()>; fn len(&self) -> usize; }
    impl PyDictMethods for PyDict {
        fn set_item<K: AsRef<str>, V: ToVal>(&self, k: K, v: V) -> PyResult<()> {
            let mut d = self.0.borrow_mut();
            d.retain(|x| x.0 != k.as_ref());
            d.push((k.as_ref().to_string(), v.val()));
            Ok(())
        }
        fn len(&self) -> usize { self.0.borrow().len() }
    }
    #[derive(Clone, Debug)] pub struct PyCFunction(pub &'static str);
    #[derive(Clone, Debug)] pub struct PyModule(Rc<RefCell<Vec<String>>>);
    impl PyModule {
        pub fn stand_in<'py>() -> Bound<'py, PyModule> { Bound::of(PyModule(Rc::new(RefCell::new(vec![])))) }
        pub fn names(&self) -> String { self.0.borrow().join("|") }
        pub fn add_function(&self, f: PyCFunction) -> PyResult<()> { self.0.borrow_mut().push(f.0.to_string()); Ok(()) }
        pub fn add<K: AsRef<str>, V: ToVal>(&self, _k: K, _v: V) -> PyResult<()> { Ok(()) }
    }
    pub trait PyModuleMethods {}
    pub trait PyAnyMethods {}
    pub use super::PyAny;
}

#[macro_export]
macro_rules! wrap_pyfunction {
    ($f:ident, $m:expr) => {{ let _ = &$m; let r: $crate::PyResult<$crate::types::PyCFunction> = Ok($crate::types::PyCFunction(stringify!($f))); r }};
    ($f:ident) => {{ let r: $crate::PyResult<$crate::types::PyCFunction> = Ok($crate::types::PyCFunction(stringify!($f))); r }};
}

pub mod prelude {
    pub use super::{pyfunction, pymodule, Bound, Py, PyAny, PyErr, PyObject, PyResult, Python};
    pub use super::types::{PyAnyMethods, PyDictMethods, PyModule, PyModuleMethods};
    pub use super::wrap_pyfunction;
}

pub trait FromArg: Sized { fn from_arg(a: &CArg, name: &str) -> PyResult<Self>; }
pub fn type_err<T>(name: &str, what: &str) -> PyResult<T> { Err(PyErr { kind: "TypeError".into(), msg: format!("argument '{}': {}", name, what) }) }
macro_rules! int_args { ($($t:ty),*) => { $( impl FromArg for $t { fn from_arg(a: &CArg, name: &str) -> PyResult<Self> {
    match a.kind {
        1 | 2 => <$t>::try_from(a.i).map_err(|_| PyErr { kind: "OverflowError".into(), msg: format!("argument '{}': out of range integral type conversion attempted", name) }),
        _ => type_err(name, "cannot be interpreted as an integer"),
    } } } )* } }
int_args!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
macro_rules! float_args { ($($t:ty),*) => { $( impl FromArg for $t { fn from_arg(a: &CArg, name: &str) -> PyResult<Self> {
    match a.kind { 3 => Ok(a.f as $t), 1 | 2 => Ok(a.i as $t), _ => type_err(name, "must be real number") } } } )* } }
float_args!(f32, f64);
impl FromArg for bool { fn from_arg(a: &CArg, name: &str) -> PyResult<Self> { if a.kind == 1 { Ok(a.i != 0) } else { type_err(name, "cannot be converted to 'PyBool'") } } }
impl FromArg for String { fn from_arg(a: &CArg, name: &str) -> PyResult<Self> {
    if a.kind == 6 { Ok(unsafe { CStr::from_ptr(a.p as *const c_char) }.to_string_lossy().into_owned()) } else { type_err(name, "cannot be converted to 'PyString'") } } }
impl<T: FromArg> FromArg for Option<T> { fn from_arg(a: &CArg, name: &str) -> PyResult<Self> { if a.kind == 0 { Ok(None) } else { T::from_arg(a, name).map(Some) } } }
impl FromArg for Py<PyAny> { fn from_arg(a: &CArg, _name: &str) -> PyResult<Self> {
    Ok(Py { inner: PyAny(match a.kind { 0 => Val::None, 1 => Val::Bool(a.i != 0), 2 => Val::Int(a.i), 3 => Val::Float(a.f), _ => Val::Callable(a.p) }) }) } }

pub trait IntoRes { fn into_res(self) -> PyResult<Val>; }
impl<T: ToVal> IntoRes for PyResult<T> { fn into_res(self) -> PyResult<Val> { self.map(|x| x.val()) } }

pub fn run<F: FnOnce(&[CArg]) -> PyResult<Val>>(args: *const CArg, n: usize, want: usize, f: F) -> *mut c_char {
    if n != want { return cstr("{\"error\":\"TypeError\",\"msg\":\"wrong number of arguments\"}"); }
    let a = if n == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(args, n) } };
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(a))) {
        Ok(Ok(v)) => cstr(&format!("{{\"ok\":{}}}", v.json())),
        Ok(Err(e)) => cstr(&format!("{{\"error\":{:?},\"msg\":{:?}}}", e.kind, e.msg)),
        Err(p) => {
            let msg = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            cstr(&format!("{{\"error\":\"PanicException\",\"msg\":{:?}}}", msg))
        }
    }
}
