//! Stand-in for rust-numpy, for hazma's crate: float64 arrays through the buffer protocol.
#![allow(clippy::all)]
use pyo3::ffi;
use pyo3::{Bound, FromPyObject, IntoPyObject, Py, PyAny, PyErr, PyResult, Python, TypeCheck};
use std::marker::PhantomData;
use std::ops::Deref;

pub mod ndarray {
    //! Row-major owned arrays, the few operations the crate needs and some it may come to need.
    use std::ops::{Deref, Index, IndexMut};
    #[derive(Debug)]
    pub struct ShapeError;
    #[derive(Clone, Debug)]
    pub struct Array1<T>(pub(crate) Vec<T>);
    #[derive(Clone, Debug)]
    pub struct Array2<T> {
        pub(crate) shape: (usize, usize),
        pub(crate) data: Vec<T>,
    }
    pub struct ArrayView1<'a, T>(pub(crate) &'a [T]);
    impl<'a, T> Clone for ArrayView1<'a, T> {
        fn clone(&self) -> Self {
            ArrayView1(self.0)
        }
    }
    impl<'a, T> Copy for ArrayView1<'a, T> {}
    impl<'a, T> Deref for ArrayView1<'a, T> {
        type Target = [T];
        fn deref(&self) -> &[T] {
            self.0
        }
    }
    impl<'a, T: Clone> ArrayView1<'a, T> {
        pub fn as_slice(&self) -> Option<&'a [T]> {
            Some(self.0)
        }
        pub fn to_owned(&self) -> Array1<T> {
            Array1(self.0.to_vec())
        }
        pub fn mapv<U, F: FnMut(T) -> U>(&self, f: F) -> Array1<U> {
            Array1(self.0.iter().cloned().map(f).collect())
        }
        pub fn into_iter(self) -> std::slice::Iter<'a, T> {
            self.0.iter()
        }
    }
    impl<'a, T> IntoIterator for &ArrayView1<'a, T> {
        type Item = &'a T;
        type IntoIter = std::slice::Iter<'a, T>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.iter()
        }
    }
    impl<T> Deref for Array1<T> {
        type Target = [T];
        fn deref(&self) -> &[T] {
            &self.0
        }
    }
    impl<T> From<Vec<T>> for Array1<T> {
        fn from(v: Vec<T>) -> Self {
            Array1(v)
        }
    }
    impl<T> FromIterator<T> for Array1<T> {
        fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
            Array1(i.into_iter().collect())
        }
    }
    impl<T: Clone + Default> Array1<T> {
        pub fn zeros(n: usize) -> Self {
            Array1(vec![T::default(); n])
        }
        pub fn from_vec(v: Vec<T>) -> Self {
            Array1(v)
        }
    }
    impl<T: Clone + Default> Array2<T> {
        pub fn zeros(shape: (usize, usize)) -> Self {
            Array2 { shape, data: vec![T::default(); shape.0 * shape.1] }
        }
        pub fn from_shape_fn<F: FnMut((usize, usize)) -> T>(shape: (usize, usize), mut f: F) -> Self {
            let mut data = Vec::with_capacity(shape.0 * shape.1);
            for i in 0..shape.0 {
                for j in 0..shape.1 {
                    data.push(f((i, j)));
                }
            }
            Array2 { shape, data }
        }
        pub fn from_shape_vec(shape: (usize, usize), data: Vec<T>) -> Result<Self, ShapeError> {
            if shape.0 * shape.1 == data.len() { Ok(Array2 { shape, data }) } else { Err(ShapeError) }
        }
    }
    impl<T> Index<[usize; 2]> for Array2<T> {
        type Output = T;
        fn index(&self, i: [usize; 2]) -> &T {
            assert!(i[0] < self.shape.0 && i[1] < self.shape.1);
            &self.data[i[0] * self.shape.1 + i[1]]
        }
    }
    impl<T> IndexMut<[usize; 2]> for Array2<T> {
        fn index_mut(&mut self, i: [usize; 2]) -> &mut T {
            assert!(i[0] < self.shape.0 && i[1] < self.shape.1);
            &mut self.data[i[0] * self.shape.1 + i[1]]
        }
    }
    impl<T> Index<(usize, usize)> for Array2<T> {
        type Output = T;
        fn index(&self, i: (usize, usize)) -> &T {
            &self[[i.0, i.1]]
        }
    }
    impl<T> IndexMut<(usize, usize)> for Array2<T> {
        fn index_mut(&mut self, i: (usize, usize)) -> &mut T {
            &mut self[[i.0, i.1]]
        }
    }
}
use ndarray::{Array1, Array2, ArrayView1};

pub struct PyUntypedArray(());
pub struct PyArray1<T>(PhantomData<T>);
pub struct PyArray2<T>(PhantomData<T>);
pub type PyArrayDyn<T> = PyArray1<T>;

fn is_ndarray(o: *mut ffi::PyObject) -> bool {
    unsafe {
        let py = Python::assume();
        let t = py.import("numpy").and_then(|m| m.getattr("ndarray"));
        match t {
            Ok(t) => ffi::PyObject_IsInstance(o, t.as_ptr()) == 1,
            Err(_) => panic!("numpy cannot be imported"),
        }
    }
}
fn is_f64(o: *mut ffi::PyObject, ndim: i64) -> bool {
    unsafe {
        if !is_ndarray(o) {
            return false;
        }
        let py = Python::assume();
        let b: Bound<'_, PyAny> = Bound::borrowed(py, o);
        let ok = || -> PyResult<bool> {
            let d = b.getattr("dtype")?;
            let s: String = d.getattr("str")?.extract()?;
            let n: i64 = b.getattr("ndim")?.extract()?;
            Ok(s == "<f8" && n == ndim)
        };
        ok().unwrap_or(false)
    }
}
impl TypeCheck for PyUntypedArray {
    fn check(o: *mut ffi::PyObject) -> bool {
        is_ndarray(o)
    }
}
impl TypeCheck for PyArray1<f64> {
    fn check(o: *mut ffi::PyObject) -> bool {
        is_f64(o, 1)
    }
}
impl TypeCheck for PyArray2<f64> {
    fn check(o: *mut ffi::PyObject) -> bool {
        is_f64(o, 2)
    }
}
pub trait PyUntypedArrayMethods<'py> {
    fn ndim(&self) -> usize;
    fn dtype(&self) -> Bound<'py, PyAny>;
    fn len(&self) -> usize;
    fn shape(&self) -> Vec<usize>;
}
macro_rules! untyped {
    ($($t:ty)*) => {$(impl<'py> PyUntypedArrayMethods<'py> for Bound<'py, $t> {
        fn ndim(&self) -> usize { self.getattr("ndim").and_then(|v| v.extract()).unwrap() }
        fn dtype(&self) -> Bound<'py, PyAny> { self.getattr("dtype").unwrap() }
        fn len(&self) -> usize { self.getattr("size").and_then(|v| v.extract()).unwrap() }
        fn shape(&self) -> Vec<usize> {
            let n = self.ndim();
            let s = self.getattr("shape").unwrap();
            (0..n).map(|i| s.get_item(i).unwrap().extract().unwrap()).collect()
        }
    })*};
}
untyped!(PyUntypedArray PyArray1<f64> PyArray2<f64>);

fn read(o: *mut ffi::PyObject) -> PyResult<(Vec<f64>, bool)> {
    unsafe {
        let mut b: ffi::Py_buffer = std::mem::zeroed();
        if ffi::PyObject_GetBuffer(o, &mut b, 0x0018 | 0x0004) != 0 {
            return Err(PyErr::fetch());
        }
        assert!(b.ndim == 1 && b.itemsize == 8);
        let (n, s) = (*b.shape, *b.strides);
        let p = b.buf as *const u8;
        let v = (0..n).map(|i| (p.offset(i * s) as *const f64).read_unaligned()).collect();
        ffi::PyBuffer_Release(&mut b);
        Ok((v, s == 8 || n <= 1))
    }
}

/// A read-only borrow; here a copy, which a reader cannot tell apart.
pub struct PyReadonlyArray1<'py, T> {
    obj: Bound<'py, PyAny>,
    data: Vec<T>,
    contiguous: bool,
}
#[derive(Debug)]
pub struct NotContiguousError;
impl From<NotContiguousError> for PyErr {
    fn from(_: NotContiguousError) -> PyErr {
        pyo3::exceptions::PyValueError::new_err("The given array is not contiguous")
    }
}
impl<'py> PyReadonlyArray1<'py, f64> {
    pub fn as_array(&self) -> ArrayView1<'_, f64> {
        ArrayView1(&self.data)
    }
    pub fn as_slice(&self) -> Result<&[f64], NotContiguousError> {
        if self.contiguous { Ok(&self.data) } else { Err(NotContiguousError) }
    }
    pub fn len(&self) -> usize {
        self.data.len()
    }
    pub fn to_vec(&self) -> PyResult<Vec<f64>> {
        Ok(self.data.clone())
    }
    pub fn py(&self) -> Python<'py> {
        self.obj.py()
    }
}
impl<'py> Deref for PyReadonlyArray1<'py, f64> {
    type Target = Bound<'py, PyAny>;
    fn deref(&self) -> &Self::Target {
        &self.obj
    }
}
impl<'a, 'py> FromPyObject<'a, 'py> for PyReadonlyArray1<'py, f64> {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<Self> {
        if !is_f64(o.as_ptr(), 1) {
            return Err(pyo3::exceptions::PyTypeError::new_err("not a 1-D float64 array"));
        }
        let (data, contiguous) = read(o.as_ptr())?;
        Ok(PyReadonlyArray1 { obj: o.clone(), data, contiguous })
    }
}
pub trait PyArrayMethods<'py> {
    fn readonly(&self) -> PyReadonlyArray1<'py, f64>;
}
impl<'py> PyArrayMethods<'py> for Bound<'py, PyArray1<f64>> {
    fn readonly(&self) -> PyReadonlyArray1<'py, f64> {
        self.as_any().clone().extract().unwrap()
    }
}

fn build<'py>(py: Python<'py>, shape: Bound<'py, PyAny>, data: &[f64]) -> PyResult<Bound<'py, PyAny>> {
    let a = py.import("numpy")?.call_method1("empty", (shape,))?;
    unsafe {
        let mut b: ffi::Py_buffer = std::mem::zeroed();
        if ffi::PyObject_GetBuffer(a.as_ptr(), &mut b, 0x0001) != 0 {
            return Err(PyErr::fetch());
        }
        assert!(b.len as usize == data.len() * 8);
        std::ptr::copy_nonoverlapping(data.as_ptr(), b.buf as *mut f64, data.len());
        ffi::PyBuffer_Release(&mut b);
    }
    Ok(a)
}
pub trait IntoPyArray: Sized {
    type Out;
    fn into_pyarray<'py>(self, py: Python<'py>) -> Bound<'py, Self::Out>;
}
fn retype<'py, T>(py: Python<'py>, b: Bound<'py, PyAny>) -> Bound<'py, T> {
    unsafe { Bound::from_owned(py, b.into_ptr()).ok().unwrap() }
}
impl IntoPyArray for Vec<f64> {
    type Out = PyArray1<f64>;
    fn into_pyarray<'py>(self, py: Python<'py>) -> Bound<'py, PyArray1<f64>> {
        let s = (self.len(),).into_py(py).ok().unwrap();
        retype(py, build(py, s, &self).ok().expect("array"))
    }
}
impl IntoPyArray for Box<[f64]> {
    type Out = PyArray1<f64>;
    fn into_pyarray<'py>(self, py: Python<'py>) -> Bound<'py, PyArray1<f64>> {
        self.into_vec().into_pyarray(py)
    }
}
impl IntoPyArray for Array1<f64> {
    type Out = PyArray1<f64>;
    fn into_pyarray<'py>(self, py: Python<'py>) -> Bound<'py, PyArray1<f64>> {
        self.0.into_pyarray(py)
    }
}
impl IntoPyArray for Array2<f64> {
    type Out = PyArray2<f64>;
    fn into_pyarray<'py>(self, py: Python<'py>) -> Bound<'py, PyArray2<f64>> {
        let s = (self.shape.0, self.shape.1).into_py(py).ok().unwrap();
        retype(py, build(py, s, &self.data).ok().expect("array"))
    }
}
pub trait ToPyArray {
    fn to_pyarray<'py>(&self, py: Python<'py>) -> Bound<'py, PyArray1<f64>>;
}
impl ToPyArray for [f64] {
    fn to_pyarray<'py>(&self, py: Python<'py>) -> Bound<'py, PyArray1<f64>> {
        self.to_vec().into_pyarray(py)
    }
}
impl PyArray1<f64> {
    pub fn from_vec<'py>(py: Python<'py>, v: Vec<f64>) -> Bound<'py, PyArray1<f64>> {
        v.into_pyarray(py)
    }
    pub fn from_slice<'py>(py: Python<'py>, v: &[f64]) -> Bound<'py, PyArray1<f64>> {
        v.to_vec().into_pyarray(py)
    }
    pub fn from_iter<'py, I: IntoIterator<Item = f64>>(py: Python<'py>, v: I) -> Bound<'py, PyArray1<f64>> {
        v.into_iter().collect::<Vec<f64>>().into_pyarray(py)
    }
}
pub type PyObjectAny = Py<PyAny>;
pub mod prelude {
    pub use super::{IntoPyArray, PyArrayMethods, PyUntypedArrayMethods, ToPyArray};
}
