//! The unmodified source of the compiled extension (rust/lib.rs) built against stand-ins for the libraries that cannot be
//! fetched here, with a C entry point per algorithm. The stand-ins follow the documented behaviour of pyo3 0.25,
//! rust-numpy 0.25, ndarray 0.16 and nalgebra 0.33 for the operations the extension uses (memory orders included); candle (GPU)
//! reports that there is no device.
#![allow(dead_code, unused, non_camel_case_types, clippy::all)]

include!(env!("ESAT_RUST_SRC"));

#[repr(C)]
pub struct CArr { data: *const f32, rows: usize, cols: usize, fortran: i32 }

fn arr<'py>(a: &CArr) -> PyReadonlyArrayDyn<'py, f32> {
    let s = unsafe { std::slice::from_raw_parts(a.data, a.rows * a.cols) }.to_vec();
    PyReadonlyArrayDyn::stand_in(s, vec![a.rows, a.cols], a.fortran != 0)
}

#[repr(C)]
pub struct CSet { max_iter: i32, converge_delta: f32, converge_n: i32, robust_alpha: f32, model_i: i32, hold_h: i32, delay_h: i32, gpu: i32, has_cb: i32 }

/// which: 0 ls_nmf, 1 ws_nmf. Results go to w, h (row-major logical order), orders (1 when the array returned is column-major),
/// scalars [q, converged, converge_i, history length] and history (capacity max_iter + 1). Returns 0, or 1 for a runtime error,
/// 2 for a panic.
#[no_mangle]
pub extern "C" fn esat_call(which: i32, v: *const CArr, u: *const CArr, we: *const CArr, w0: *const CArr, h0: *const CArr,
                            set: *const CSet, cb: extern "C" fn(*const f64), w: *mut f64, h: *mut f64, orders: *mut i32,
                            scalars: *mut f64, history: *mut f32, cap: usize) -> i32 {
    let s = unsafe { &*set };
    let (v, u, we, w0, h0) = unsafe { (arr(&*v), arr(&*u), arr(&*we), arr(&*w0), arr(&*h0)) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let py = Python::stand_in();
        let cb = if s.has_cb != 0 { Some(PyObject::Callback(cb)) } else { None };
        let opt = |x: i32| if x < 0 { None } else { Some(x != 0) };
        // delay_h == i32::MIN stands for None
        let delay = if s.delay_h == i32::MIN { None } else { Some(s.delay_h) };
        let f = if which == 0 { ls_nmf } else { ws_nmf };
        f(py, v, u, we, w0, h0, s.max_iter, s.converge_delta, s.converge_n, s.robust_alpha, s.model_i.try_into().unwrap(),
          opt(s.hold_h), delay, cb, opt(s.gpu))
    }));
    let d = match r {
        Err(_) => return 2,
        Ok(Err(_)) => return 1,
        Ok(Ok(o)) => o.dict(),
    };
    for (i, (key, out)) in [("w", w), ("h", h)].into_iter().enumerate() {
        match &d[key] {
            pyo3::Value::Array { data, fortran, .. } => unsafe {
                std::slice::from_raw_parts_mut(out, data.len()).copy_from_slice(data);
                *orders.add(i) = *fortran as i32;
            },
            _ => return 3,
        }
    }
    let num = |k: &str| match &d[k] { pyo3::Value::Num(x) => *x, _ => f64::NAN };
    let hist = match &d["q_list"] { pyo3::Value::Array { data, .. } => data.clone(), _ => return 3 };
    unsafe {
        *scalars = num("q");
        *scalars.add(1) = num("converged");
        *scalars.add(2) = num("converge_i");
        *scalars.add(3) = hist.len() as f64;
        for (i, x) in hist.iter().take(cap).enumerate() { *history.add(i) = *x as f32; }
    }
    0
}

/// Smallest and largest model number the entry points take.
trait Bounds { const LO: i64; const HI: i64; }
macro_rules! bounds { ($($t:ty),*) => { $(impl Bounds for $t { const LO: i64 = <$t>::MIN as i64; const HI: i64 = <$t>::MAX as i64; })* } }
bounds!(i8, i16, i32, i64, u8, u16, u32);
impl Bounds for usize { const LO: i64 = 0; const HI: i64 = i64::MAX; }
impl Bounds for isize { const LO: i64 = i64::MIN; const HI: i64 = i64::MAX; }
impl Bounds for u64 { const LO: i64 = 0; const HI: i64 = i64::MAX; }
type Entry<'py, M> = fn(Python<'py>, PyReadonlyArrayDyn<'py, f32>, PyReadonlyArrayDyn<'py, f32>, PyReadonlyArrayDyn<'py, f32>,
                        PyReadonlyArrayDyn<'py, f32>, PyReadonlyArrayDyn<'py, f32>, i32, f32, i32, f32, M, Option<bool>, Option<i32>,
                        Option<PyObject>, Option<bool>) -> PyResult<PyObject>;
fn limits<'py, M: Bounds>(_: Entry<'py, M>) -> (i64, i64) { (M::LO, M::HI) }

#[no_mangle]
pub extern "C" fn esat_model_limits(which: i32, out: *mut i64) {
    let (a, b) = if which == 0 { limits(ls_nmf) } else { limits(ws_nmf) };
    unsafe { *out = a; *out.add(1) = b; }
}

pub mod pyo3 {
    use std::collections::HashMap;
    use std::cell::RefCell;
    use std::rc::Rc;
    use std::marker::PhantomData;

    pub mod prelude { pub use super::{Python, PyResult, PyErr, Bound, PyModule, PyModuleMethods}; pub use ::esat_attrs::{pyfunction, pymodule}; pub use super::types::PyDictMethods; }
    pub mod exceptions { pub struct PyRuntimeError; pub struct PyValueError; }
    pub mod types {
        use super::*;
        pub struct PyFloat; pub struct PyBool; pub struct PyInt; pub struct PyDict;
        pub trait PyDictMethods { fn set_item<V: IntoValue>(&self, k: &str, v: V) -> PyResult<()>; }
        impl PyFloat { pub fn new<'py>(_: Python<'py>, x: f64) -> Bound<'py, PyFloat> { Bound::of(Value::Num(x)) } }
        impl PyBool { pub fn new<'py>(_: Python<'py>, x: bool) -> Bound<'py, PyBool> { Bound::of(Value::Num(x as i32 as f64)) } }
        impl PyInt { pub fn new<'py, T: Into<i64>>(_: Python<'py>, x: T) -> Bound<'py, PyInt> { Bound::of(Value::Num(x.into() as f64)) } }
        impl PyDict { pub fn new<'py>(_: Python<'py>) -> Bound<'py, PyDict> { Bound::of(Value::None) } }
        impl<'py> PyDictMethods for Bound<'py, PyDict> {
            fn set_item<V: IntoValue>(&self, k: &str, v: V) -> PyResult<()> { self.map.borrow_mut().insert(k.to_string(), v.value()); Ok(()) }
        }
        impl<'py> Bound<'py, PyDict> { pub fn unbind(self) -> PyObject { self.into() } }
    }

    #[derive(Clone, Debug)]
    pub enum Value { None, Num(f64), Array { data: Vec<f64>, dims: Vec<usize>, fortran: bool } }
    pub trait IntoValue { fn value(self) -> Value; }
    impl<'py, T> IntoValue for Bound<'py, T> { fn value(self) -> Value { self.val } }
    impl IntoValue for f64 { fn value(self) -> Value { Value::Num(self) } }
    impl IntoValue for f32 { fn value(self) -> Value { Value::Num(self as f64) } }
    impl IntoValue for i32 { fn value(self) -> Value { Value::Num(self as f64) } }
    impl IntoValue for bool { fn value(self) -> Value { Value::Num(self as i32 as f64) } }

    #[derive(Clone, Copy)]
    pub struct Python<'py>(PhantomData<&'py ()>);
    impl<'py> Python<'py> { pub fn stand_in() -> Self { Python(PhantomData) } }

    pub struct Bound<'py, T> { pub val: Value, pub map: Rc<RefCell<HashMap<String, Value>>>, p: PhantomData<&'py T> }
    impl<'py, T> Bound<'py, T> {
        pub fn of(val: Value) -> Self { Bound { val, map: Default::default(), p: PhantomData } }
        pub fn into_any(self) -> Bound<'py, PyAny> { Bound { val: self.val, map: self.map, p: PhantomData } }
        pub fn to_owned(&self) -> Bound<'py, T> { Bound { val: self.val.clone(), map: self.map.clone(), p: PhantomData } }
    }
    impl<'py, T> From<Bound<'py, T>> for PyObject { fn from(b: Bound<'py, T>) -> PyObject { PyObject::Dict(b.map.borrow().clone()) } }
    pub struct PyAny; pub struct PyModule;
    pub trait PyModuleMethods { fn add_function(&self, _: ()) -> PyResult<()>; }
    impl<'py> PyModuleMethods for Bound<'py, PyModule> { fn add_function(&self, _: ()) -> PyResult<()> { Ok(()) } }
    pub enum PyObject { Dict(HashMap<String, Value>), Callback(extern "C" fn(*const f64)) }
    impl PyObject {
        pub fn dict(self) -> HashMap<String, Value> { match self { PyObject::Dict(d) => d, _ => panic!("not a dict") } }
        pub fn call1<'py, A: Args>(&self, _: Python<'py>, a: A) -> PyResult<PyObject> {
            if let PyObject::Callback(f) = self { let v = a.list(); f(v.as_ptr()); }
            Ok(PyObject::Dict(HashMap::new()))
        }
    }
    pub trait Args { fn list(self) -> Vec<f64>; }
    pub trait N { fn n(self) -> f64; }
    macro_rules! nums { ($($t:ty),*) => { $(impl N for $t { fn n(self) -> f64 { self as f64 } })* } }
    nums!(i8, i16, i32, i64, u8, u16, u32, u64, usize, f32, f64);
    impl N for bool { fn n(self) -> f64 { self as i32 as f64 } }
    impl<A: N, B: N, C: N, D: N, E: N, F: N, G: N> Args for (A, B, C, D, E, F, G) {
        fn list(self) -> Vec<f64> { vec![self.0.n(), self.1.n(), self.2.n(), self.3.n(), self.4.n(), self.5.n(), self.6.n()] }
    }
    #[derive(Debug)]
    pub struct PyErr(pub String);
    impl PyErr { pub fn new<E, A: std::fmt::Display>(a: A) -> PyErr { PyErr(a.to_string()) } }
    pub type PyResult<T> = Result<T, PyErr>;
    macro_rules! wrap_pyfunction { ($f:ident, $m:expr) => { { let _ = $f; Ok::<(), PyErr>(()) } } }
    pub(crate) use wrap_pyfunction;
}

pub mod numpy {
    use super::pyo3::{Bound, Value, PyResult, Python};
    use super::ndarray;
    use std::marker::PhantomData;

    pub struct PyArray;
    pub struct PyReadonlyArrayDyn<'py, T> { data: Vec<T>, dims: Vec<usize>, fortran: bool, p: PhantomData<&'py ()> }
    #[derive(Debug)]
    pub struct NotContiguousError;
    impl<'py, T: Copy + Default> PyReadonlyArrayDyn<'py, T> {
        pub fn stand_in(data: Vec<T>, dims: Vec<usize>, fortran: bool) -> Self { PyReadonlyArrayDyn { data, dims, fortran, p: PhantomData } }
        /// the elements in memory order
        pub fn to_vec(&self) -> Result<Vec<T>, NotContiguousError> { Ok(self.data.clone()) }
        pub fn as_slice(&self) -> Result<&[T], NotContiguousError> { Ok(&self.data) }
        pub fn dims(&self) -> Vec<usize> { self.dims.clone() }
        pub fn shape(&self) -> &[usize] { &self.dims }
        pub fn as_array(&self) -> ndarray::ViewDyn<T> {
            ndarray::ViewDyn(ndarray::Array2::stand_in(self.data.clone(), self.dims[0], self.dims[1], self.fortran))
        }
    }
    pub trait PyArrayMethods<'py> { fn reshape(&self, dims: Vec<usize>) -> PyResult<Bound<'py, PyArray>>; }
    impl<'py> PyArrayMethods<'py> for Bound<'py, PyArray> {
        /// NPY_ANYORDER: in column-major order if and only if the array is column-major and not row-major
        fn reshape(&self, dims: Vec<usize>) -> PyResult<Bound<'py, PyArray>> {
            if let Value::Array { data, dims: old, fortran } = &self.val {
                let f = *fortran && old.iter().all(|d| *d > 1);
                // data is kept in logical row-major order
                let (r, c) = (old[0], old[1]);
                let seq: Vec<f64> = if f { (0..r * c).map(|p| data[(p % r) * c + p / r]).collect() } else { data.clone() };
                let (r2, c2) = (dims[0], dims[1]);
                assert_eq!(r * c, r2 * c2);
                let out = if f { (0..r2 * c2).map(|p| seq[(p % c2) * r2 + p / c2]).collect() } else { seq };
                return Ok(Bound::of(Value::Array { data: out, dims, fortran: f }));
            }
            panic!("not an array")
        }
    }
    pub trait ToPyArray { fn to_pyarray<'py>(&self, py: Python<'py>) -> Bound<'py, PyArray>; }
    pub trait IntoPyArray { fn into_pyarray<'py>(self, py: Python<'py>) -> Bound<'py, PyArray>; }
    impl ToPyArray for ndarray::Array2<f64> {
        /// the memory order is kept
        fn to_pyarray<'py>(&self, _: Python<'py>) -> Bound<'py, PyArray> {
            Bound::of(Value::Array { data: self.iter().copied().collect(), dims: vec![self.nrows(), self.ncols()], fortran: self.is_fortran() })
        }
    }
    impl IntoPyArray for ndarray::Array2<f64> { fn into_pyarray<'py>(self, py: Python<'py>) -> Bound<'py, PyArray> { self.to_pyarray(py) } }
    impl ToPyArray for Vec<f32> {
        fn to_pyarray<'py>(&self, _: Python<'py>) -> Bound<'py, PyArray> {
            Bound::of(Value::Array { data: self.iter().map(|x| *x as f64).collect(), dims: vec![self.len()], fortran: false })
        }
    }
}

pub mod ndarray {
    pub struct Ix2;
    #[derive(Debug)]
    pub struct ShapeError;
    impl std::fmt::Display for ShapeError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "shape") } }
    impl std::error::Error for ShapeError {}
    pub struct ViewDyn<T>(pub Array2<T>);
    pub struct ArrayDyn<T>(pub Array2<T>);
    impl<T: Copy + Default> ViewDyn<T> {
        pub fn to_owned(&self) -> ArrayDyn<T> { ArrayDyn(self.0.clone()) }
        pub fn iter(&self) -> std::slice::Iter<'_, T> { self.0.iter() }
    }
    impl<T> ArrayDyn<T> { pub fn into_dimensionality<D>(self) -> Result<Array2<T>, ShapeError> { Ok(self.0) } }
    /// Two-dimensional array: the elements in logical (row-major) order and the order they have in memory.
    #[derive(Clone, Debug)]
    pub struct Array2<T> { logical: Vec<T>, rows: usize, cols: usize, fortran: bool }
    impl<T: Copy + Default> Array2<T> {
        pub fn stand_in(mem: Vec<T>, rows: usize, cols: usize, fortran: bool) -> Self {
            let logical = if fortran { (0..rows * cols).map(|p| mem[(p % cols) * rows + p / cols]).collect() } else { mem };
            Array2 { logical, rows, cols, fortran }
        }
        pub fn from_shape_vec(d: (usize, usize), v: Vec<T>) -> Result<Self, ShapeError> {
            if v.len() != d.0 * d.1 { return Err(ShapeError); }
            Ok(Array2 { logical: v, rows: d.0, cols: d.1, fortran: false })
        }
        pub fn from_shape_fn<F: Fn((usize, usize)) -> T>(d: (usize, usize), f: F) -> Self {
            Array2 { logical: (0..d.0 * d.1).map(|p| f((p / d.1, p % d.1))).collect(), rows: d.0, cols: d.1, fortran: false }
        }
        pub fn dim(&self) -> (usize, usize) { (self.rows, self.cols) }
        pub fn nrows(&self) -> usize { self.rows }
        pub fn ncols(&self) -> usize { self.cols }
        pub fn is_fortran(&self) -> bool { self.fortran }
        pub fn iter(&self) -> std::slice::Iter<'_, T> { self.logical.iter() }
        pub fn t(&self) -> Array2<T> {
            let (r, c) = (self.rows, self.cols);
            Array2 { logical: (0..r * c).map(|p| self.logical[(p % r) * c + p / r]).collect(), rows: c, cols: r, fortran: !self.fortran }
        }
    }
    impl<T> std::ops::Index<(usize, usize)> for Array2<T> { type Output = T; fn index(&self, i: (usize, usize)) -> &T { &self.logical[i.0 * self.cols + i.1] } }
    impl<T> std::ops::Index<[usize; 2]> for Array2<T> { type Output = T; fn index(&self, i: [usize; 2]) -> &T { &self.logical[i[0] * self.cols + i[1]] } }
}

pub mod nalgebra {
    use std::marker::PhantomData;
    use std::ops::*;

    #[derive(Clone, Copy, Debug)] pub struct Dyn;
    #[derive(Clone, Copy, Debug)] pub struct U1;
    /// Column-major matrix; the dimension types only keep vectors apart.
    #[derive(Clone, Debug)]
    pub struct OMatrix<T, R, C> { d: Vec<T>, r: usize, c: usize, p: PhantomData<(R, C)> }
    pub type DMatrix<T> = OMatrix<T, Dyn, Dyn>;
    pub type DVector<T> = OMatrix<T, Dyn, U1>;
    pub type RowDVector<T> = OMatrix<T, U1, Dyn>;

    fn mk<R, C>(d: Vec<f32>, r: usize, c: usize) -> OMatrix<f32, R, C> { assert_eq!(d.len(), r * c); OMatrix { d, r, c, p: PhantomData } }
    impl OMatrix<f32, Dyn, Dyn> {
        /// the vector is read in column-major order
        pub fn from_vec(r: usize, c: usize, v: Vec<f32>) -> Self { mk(v, r, c) }
        pub fn from_column_slice(r: usize, c: usize, v: &[f32]) -> Self { mk(v.to_vec(), r, c) }
        pub fn from_row_slice(r: usize, c: usize, v: &[f32]) -> Self { mk((0..r * c).map(|p| v[(p % r) * c + p / r]).collect(), r, c) }
        pub fn from_iterator<I: IntoIterator<Item = f32>>(r: usize, c: usize, it: I) -> Self { mk(it.into_iter().take(r * c).collect(), r, c) }
        pub fn from_row_iterator<I: IntoIterator<Item = f32>>(r: usize, c: usize, it: I) -> Self { let v: Vec<f32> = it.into_iter().take(r * c).collect(); Self::from_row_slice(r, c, &v) }
        pub fn from_fn<F: FnMut(usize, usize) -> f32>(r: usize, c: usize, mut f: F) -> Self { let mut d = vec![]; for j in 0..c { for i in 0..r { d.push(f(i, j)); } } mk(d, r, c) }
        pub fn zeros(r: usize, c: usize) -> Self { mk(vec![0.0; r * c], r, c) }
        pub fn from_element(r: usize, c: usize, x: f32) -> Self { mk(vec![x; r * c], r, c) }
        pub fn identity(r: usize, c: usize) -> Self { Self::from_fn(r, c, |i, j| if i == j { 1.0 } else { 0.0 }) }
        pub fn from_diagonal(v: &DVector<f32>) -> Self { let n = v.d.len(); Self::from_fn(n, n, |i, j| if i == j { v.d[i] } else { 0.0 }) }
        /// none for an exactly singular matrix
        pub fn try_inverse(self) -> Option<Self> {
            let n = self.r;
            let mut a = self.d.clone();
            let mut b = Self::identity(n, n).d;
            for k in 0..n {
                let mut p = k;
                for i in k..n { if a[k * n + i].abs() > a[k * n + p].abs() { p = i; } }
                if a[k * n + p] == 0.0 { return None; }
                for j in 0..n { a.swap(j * n + k, j * n + p); b.swap(j * n + k, j * n + p); }
                let d = a[k * n + k];
                for j in 0..n { a[j * n + k] /= d; b[j * n + k] /= d; }
                for i in 0..n {
                    if i != k {
                        let f = a[k * n + i];
                        for j in 0..n { let (x, y) = (a[j * n + k], b[j * n + k]); a[j * n + i] -= f * x; b[j * n + i] -= f * y; }
                    }
                }
            }
            Some(mk(b, n, n))
        }
        /// singular values up to eps count as zero
        pub fn pseudo_inverse(self, eps: f32) -> Result<Self, &'static str> {
            let (m, n) = (self.r, self.c);
            let mut u: Vec<f64> = self.d.iter().map(|x| *x as f64).collect();
            let mut v = vec![0.0f64; n * n];
            for i in 0..n { v[i * n + i] = 1.0; }
            for _ in 0..60 {
                for p in 0..n { for q in p + 1..n {
                    let (mut a, mut b, mut g) = (0.0, 0.0, 0.0);
                    for i in 0..m { a += u[p * m + i].powi(2); b += u[q * m + i].powi(2); g += u[p * m + i] * u[q * m + i]; }
                    if g.abs() <= 1e-300 || g.abs() < 1e-16 * (a * b).sqrt() { continue; }
                    let z = (b - a) / (2.0 * g);
                    let t = z.signum() / (z.abs() + (1.0 + z * z).sqrt());
                    let t = if z == 0.0 { 1.0 } else { t };
                    let c = 1.0 / (1.0 + t * t).sqrt();
                    let s = c * t;
                    for i in 0..m { let (x, y) = (u[p * m + i], u[q * m + i]); u[p * m + i] = c * x - s * y; u[q * m + i] = s * x + c * y; }
                    for i in 0..n { let (x, y) = (v[p * n + i], v[q * n + i]); v[p * n + i] = c * x - s * y; v[q * n + i] = s * x + c * y; }
                } }
            }
            let mut out = vec![0.0f64; n * m];          // n x m, column-major
            for k in 0..n {
                let s2: f64 = (0..m).map(|i| u[k * m + i].powi(2)).sum();
                if s2.sqrt() <= eps as f64 { continue; }
                for i in 0..n { for j in 0..m { out[j * n + i] += v[k * n + i] * u[k * m + j] / s2; } }
            }
            Ok(mk(out.into_iter().map(|x| x as f32).collect(), n, m))
        }
    }
    impl DVector<f32> {
        pub fn from_row_slice(v: &[f32]) -> Self { mk(v.to_vec(), v.len(), 1) }
        pub fn from_column_slice(v: &[f32]) -> Self { mk(v.to_vec(), v.len(), 1) }
        pub fn from_vec(v: Vec<f32>) -> Self { let n = v.len(); mk(v, n, 1) }
    }
    impl RowDVector<f32> {
        pub fn from_row_slice(v: &[f32]) -> Self { mk(v.to_vec(), 1, v.len()) }
        pub fn from_column_slice(v: &[f32]) -> Self { mk(v.to_vec(), 1, v.len()) }
        pub fn from_vec(v: Vec<f32>) -> Self { let n = v.len(); mk(v, 1, n) }
    }
    impl<R, C> OMatrix<f32, R, C> {
        pub fn shape(&self) -> (usize, usize) { (self.r, self.c) }
        pub fn nrows(&self) -> usize { self.r }
        pub fn ncols(&self) -> usize { self.c }
        pub fn len(&self) -> usize { self.d.len() }
        pub fn iter(&self) -> std::slice::Iter<'_, f32> { self.d.iter() }
        pub fn as_slice(&self) -> &[f32] { &self.d }
        pub fn clone_owned(&self) -> Self { mk(self.d.clone(), self.r, self.c) }
        pub fn transpose(&self) -> OMatrix<f32, C, R> { mk((0..self.r * self.c).map(|p| { let (i, j) = (p / self.c, p % self.c); self.d[j * self.r + i] }).collect(), self.c, self.r) }
        pub fn component_mul(&self, o: &Self) -> Self { self.zip(o, |a, b| a * b) }
        pub fn component_div(&self, o: &Self) -> Self { self.zip(o, |a, b| a / b) }
        pub fn zip_map<F: Fn(f32, f32) -> f32>(&self, o: &Self, f: F) -> Self { self.zip(o, f) }
        fn zip<F: Fn(f32, f32) -> f32>(&self, o: &Self, f: F) -> Self { assert_eq!(self.shape(), o.shape()); mk(self.d.iter().zip(&o.d).map(|(a, b)| f(*a, *b)).collect(), self.r, self.c) }
        pub fn map<F: FnMut(f32) -> f32>(&self, f: F) -> Self { mk(self.d.iter().copied().map(f).collect(), self.r, self.c) }
        pub fn abs(&self) -> Self { self.map(|x| x.abs()) }
        pub fn add_scalar(&self, x: f32) -> Self { self.map(|y| y + x) }
        pub fn scale(&self, x: f32) -> Self { self.map(|y| y * x) }
        pub fn sum(&self) -> f32 { self.d.iter().sum() }
        pub fn row(&self, i: usize) -> RowDVector<f32> { mk((0..self.c).map(|j| self.d[j * self.r + i]).collect(), 1, self.c) }
        pub fn column(&self, j: usize) -> DVector<f32> { mk(self.d[j * self.r..(j + 1) * self.r].to_vec(), self.r, 1) }
        pub fn set_row(&mut self, i: usize, v: &RowDVector<f32>) { assert_eq!(v.c, self.c); for j in 0..self.c { self.d[j * self.r + i] = v.d[j]; } }
        pub fn set_column(&mut self, j: usize, v: &DVector<f32>) { assert_eq!(v.r, self.r); for i in 0..self.r { self.d[j * self.r + i] = v.d[i]; } }
    }
    impl<R, C> Index<(usize, usize)> for OMatrix<f32, R, C> { type Output = f32; fn index(&self, i: (usize, usize)) -> &f32 { assert!(i.0 < self.r && i.1 < self.c); &self.d[i.1 * self.r + i.0] } }
    impl<R, C> IndexMut<(usize, usize)> for OMatrix<f32, R, C> { fn index_mut(&mut self, i: (usize, usize)) -> &mut f32 { assert!(i.0 < self.r && i.1 < self.c); &mut self.d[i.1 * self.r + i.0] } }
    fn prod<R, C, C2, K>(a: &OMatrix<f32, R, C>, b: &OMatrix<f32, C2, K>) -> OMatrix<f32, R, K> {
        assert_eq!(a.c, b.r, "matrix product of {}x{} and {}x{}", a.r, a.c, b.r, b.c);
        let mut d = vec![0.0f32; a.r * b.c];
        for j in 0..b.c { for l in 0..a.c { let x = b.d[j * b.r + l]; for i in 0..a.r { d[j * a.r + i] += a.d[l * a.r + i] * x; } } }
        mk(d, a.r, b.c)
    }
    macro_rules! mulop { ($($a:ty, $b:ty);*) => { $(impl<R, C, C2, K> Mul<$b> for $a { type Output = OMatrix<f32, R, K>; fn mul(self, o: $b) -> OMatrix<f32, R, K> { prod(&self, &o) } })* } }
    mulop!(OMatrix<f32, R, C>, OMatrix<f32, C2, K>; &OMatrix<f32, R, C>, OMatrix<f32, C2, K>; OMatrix<f32, R, C>, &OMatrix<f32, C2, K>; &OMatrix<f32, R, C>, &OMatrix<f32, C2, K>);
    macro_rules! binop { ($($t:ident $f:ident $o:tt),*) => { $(
        impl<R, C> $t<OMatrix<f32, R, C>> for OMatrix<f32, R, C> { type Output = Self; fn $f(self, o: OMatrix<f32, R, C>) -> Self { self.zip(&o, |a, b| a $o b) } }
        impl<R, C> $t<&OMatrix<f32, R, C>> for OMatrix<f32, R, C> { type Output = Self; fn $f(self, o: &OMatrix<f32, R, C>) -> Self { self.zip(o, |a, b| a $o b) } }
        impl<R, C> $t<OMatrix<f32, R, C>> for &OMatrix<f32, R, C> { type Output = OMatrix<f32, R, C>; fn $f(self, o: OMatrix<f32, R, C>) -> OMatrix<f32, R, C> { self.zip(&o, |a, b| a $o b) } }
        impl<R, C> $t<&OMatrix<f32, R, C>> for &OMatrix<f32, R, C> { type Output = OMatrix<f32, R, C>; fn $f(self, o: &OMatrix<f32, R, C>) -> OMatrix<f32, R, C> { self.zip(o, |a, b| a $o b) } } )* } }
    binop!(Add add +, Sub sub -);
    macro_rules! scal { ($($t:ident $f:ident $o:tt),*) => { $(
        impl<R, C> $t<f32> for OMatrix<f32, R, C> { type Output = Self; fn $f(self, x: f32) -> Self { self.map(|y| y $o x) } }
        impl<R, C> $t<f32> for &OMatrix<f32, R, C> { type Output = OMatrix<f32, R, C>; fn $f(self, x: f32) -> OMatrix<f32, R, C> { self.map(|y| y $o x) } } )* } }
    scal!(Mul mul *, Div div /);
}

pub mod console {
    #[derive(Clone)] pub struct Term;
    impl Term {
        pub fn buffered_stdout() -> Term { Term }
        pub fn stdout() -> Term { Term }
        pub fn move_cursor_to(&self, _x: usize, _y: usize) -> std::io::Result<()> { Ok(()) }
        pub fn flush(&self) -> std::io::Result<()> { Ok(()) }
    }
}

pub mod indicatif {
    pub struct ProgressBar; pub struct ProgressStyle; pub struct ProgressDrawTarget;
    #[derive(Debug)] pub struct TemplateError;
    impl ProgressDrawTarget { pub fn term(_: super::console::Term, _hz: u8) -> Self { Self } pub fn hidden() -> Self { Self } }
    impl ProgressStyle {
        pub fn with_template(_: &str) -> Result<Self, TemplateError> { Ok(Self) }
        pub fn progress_chars(self, _: &str) -> Self { self }
    }
    impl ProgressBar {
        pub fn with_draw_target(_: Option<u64>, _: ProgressDrawTarget) -> Self { Self }
        pub fn set_style(&self, _: ProgressStyle) {}
        pub fn set_position(&self, _: u64) {}
        pub fn inc(&self, _: u64) {}
        pub fn set_message(&self, _: String) {}
        pub fn abandon_with_message(&self, _: String) {}
        pub fn finish_with_message(&self, _: String) {}
    }
}

pub mod candle_core {
    use std::ops::*;
    #[derive(Debug)] pub struct Error(String);
    impl Error { pub fn msg<D: std::fmt::Display>(m: D) -> Error { Error(m.to_string()) } }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
    #[derive(Clone, Copy)] pub enum DType { F32, F64, U32 }
    #[derive(Clone)] pub enum Device { Cpu, Cuda }
    impl Device {
        pub fn cuda_if_available(_: usize) -> Result<Device> { Ok(Device::Cpu) }
        pub fn is_cuda(&self) -> bool { matches!(self, Device::Cuda) }
    }
    /// There is no device here: nothing below is ever reached.
    #[derive(Clone)] pub struct Tensor;
    pub struct Shape;
    impl Shape {
        pub fn dims1(&self) -> Result<usize> { unreachable!() }
        pub fn dims2(&self) -> Result<(usize, usize)> { unreachable!() }
        pub fn elem_count(&self) -> usize { unreachable!() }
    }
    pub trait AnyShape {} impl AnyShape for usize {} impl AnyShape for (usize,) {} impl AnyShape for (usize, usize) {}
    macro_rules! none { ($($f:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => { $(pub fn $f(&self $(, $a: $t)*) -> $r { unreachable!() })* } }
    impl Tensor {
        pub fn from_vec<T, S: AnyShape>(_: Vec<T>, _: S, _: &Device) -> Result<Tensor> { unreachable!() }
        pub fn eye(_: usize, _: DType, _: &Device) -> Result<Tensor> { unreachable!() }
        pub fn zeros<S: AnyShape>(_: S, _: DType, _: &Device) -> Result<Tensor> { unreachable!() }
        pub fn to_scalar<T>(&self) -> Result<T> { unreachable!() }
        pub fn to_vec1<T>(&self) -> Result<Vec<T>> { unreachable!() }
        pub fn to_vec2<T>(&self) -> Result<Vec<Vec<T>>> { unreachable!() }
        pub fn device(&self) -> &Device { unreachable!() }
        pub fn shape(&self) -> &Shape { unreachable!() }
        none! {
            get(_i: usize) -> Result<Tensor>; get_on_dim(_i: usize, _j: usize) -> Result<Tensor>; to_dtype(_d: DType) -> Result<Tensor>;
            matmul(_o: &Tensor) -> Result<Tensor>; mul(_o: &Tensor) -> Result<Tensor>; div(_o: &Tensor) -> Result<Tensor>;
            add(_o: &Tensor) -> Result<Tensor>; sub(_o: &Tensor) -> Result<Tensor>; t() -> Result<Tensor>; sqr() -> Result<Tensor>;
            sqrt() -> Result<Tensor>; abs() -> Result<Tensor>; sum(_d: usize) -> Result<Tensor>; sum_all() -> Result<Tensor>;
            lt(_o: &Tensor) -> Result<Tensor>; where_cond(_a: &Tensor, _b: &Tensor) -> Result<Tensor>;
            slice_set(_o: &Tensor, _a: usize, _b: usize) -> Result<()>;
        }
    }
    macro_rules! ops { ($($t:ident $f:ident),*) => { $(
        impl $t<&Tensor> for &Tensor { type Output = Result<Tensor>; fn $f(self, _: &Tensor) -> Result<Tensor> { unreachable!() } }
        impl $t<Tensor> for Tensor { type Output = Result<Tensor>; fn $f(self, _: Tensor) -> Result<Tensor> { unreachable!() } } )* } }
    ops!(Add add, Sub sub);
}
