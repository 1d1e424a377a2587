//! Stand-in for pyo3 over the stable CPython C API, for hazma's crate only.
#![allow(non_camel_case_types, non_snake_case, clippy::all)]
pub mod ffi {
    use std::os::raw::{c_char, c_double, c_int, c_long, c_longlong, c_void};
    #[repr(C)]
    pub struct PyObject {
        _p: [u8; 0],
    }
    #[repr(C)]
    pub struct Py_buffer {
        pub buf: *mut c_void,
        pub obj: *mut PyObject,
        pub len: isize,
        pub itemsize: isize,
        pub readonly: c_int,
        pub ndim: c_int,
        pub format: *mut c_char,
        pub shape: *mut isize,
        pub strides: *mut isize,
        pub suboffsets: *mut isize,
        pub internal: *mut c_void,
    }
    pub type PyCFunctionWithKeywords =
        unsafe extern "C" fn(*mut PyObject, *mut PyObject, *mut PyObject) -> *mut PyObject;
    #[repr(C)]
    pub struct PyMethodDef {
        pub ml_name: *const c_char,
        pub ml_meth: PyCFunctionWithKeywords,
        pub ml_flags: c_int,
        pub ml_doc: *const c_char,
    }
    #[repr(C)]
    pub struct PyModuleDef {
        pub ob_refcnt: isize,
        pub ob_type: *mut PyObject,
        pub m_init: *mut c_void,
        pub m_index: isize,
        pub m_copy: *mut c_void,
        pub m_name: *const c_char,
        pub m_doc: *const c_char,
        pub m_size: isize,
        pub m_methods: *mut c_void,
        pub m_slots: *mut c_void,
        pub m_traverse: *mut c_void,
        pub m_clear: *mut c_void,
        pub m_free: *mut c_void,
    }
    unsafe extern "C" {
        pub static mut PyExc_ValueError: *mut PyObject;
        pub static mut PyExc_TypeError: *mut PyObject;
        pub static mut PyExc_OverflowError: *mut PyObject;
        pub static mut PyExc_RuntimeError: *mut PyObject;
        pub static mut PyExc_IndexError: *mut PyObject;
        pub static mut PyExc_KeyError: *mut PyObject;
        pub static mut PyExc_AttributeError: *mut PyObject;
        pub static mut PyExc_ZeroDivisionError: *mut PyObject;
        pub static mut PyExc_ArithmeticError: *mut PyObject;
        pub static mut PyExc_AssertionError: *mut PyObject;
        pub static mut PyExc_NotImplementedError: *mut PyObject;
        pub static mut PyExc_FloatingPointError: *mut PyObject;
        pub static mut PyExc_Exception: *mut PyObject;
        pub static mut PyFloat_Type: PyObject;
        pub static mut PyTuple_Type: PyObject;
        pub static mut PyList_Type: PyObject;
        pub static mut PyDict_Type: PyObject;
        pub static mut PyUnicode_Type: PyObject;
        pub static mut _Py_NoneStruct: PyObject;
        pub static mut _Py_TrueStruct: PyObject;
        pub static mut _Py_FalseStruct: PyObject;
        pub fn Py_IncRef(o: *mut PyObject);
        pub fn Py_DecRef(o: *mut PyObject);
        pub fn PyErr_Occurred() -> *mut PyObject;
        pub fn PyErr_GetRaisedException() -> *mut PyObject;
        pub fn PyErr_SetRaisedException(e: *mut PyObject);
        pub fn PyErr_SetString(t: *mut PyObject, s: *const c_char);
        pub fn PyErr_Clear();
        pub fn PyObject_IsInstance(o: *mut PyObject, t: *mut PyObject) -> c_int;
        pub fn PyObject_GetAttrString(o: *mut PyObject, n: *const c_char) -> *mut PyObject;
        pub fn PyObject_SetAttrString(o: *mut PyObject, n: *const c_char, v: *mut PyObject) -> c_int;
        pub fn PyObject_SetItem(o: *mut PyObject, k: *mut PyObject, v: *mut PyObject) -> c_int;
        pub fn PyObject_GetItem(o: *mut PyObject, k: *mut PyObject) -> *mut PyObject;
        pub fn PyObject_Call(o: *mut PyObject, a: *mut PyObject, k: *mut PyObject) -> *mut PyObject;
        pub fn PyObject_Str(o: *mut PyObject) -> *mut PyObject;
        pub fn PyObject_Repr(o: *mut PyObject) -> *mut PyObject;
        pub fn PyObject_IsTrue(o: *mut PyObject) -> c_int;
        pub fn PyObject_Length(o: *mut PyObject) -> isize;
        pub fn PyFloat_AsDouble(o: *mut PyObject) -> c_double;
        pub fn PyFloat_FromDouble(v: c_double) -> *mut PyObject;
        pub fn PyLong_FromLongLong(v: c_longlong) -> *mut PyObject;
        pub fn PyLong_AsLongLong(o: *mut PyObject) -> c_longlong;
        pub fn PyBool_FromLong(v: c_long) -> *mut PyObject;
        pub fn PyNumber_Index(o: *mut PyObject) -> *mut PyObject;
        pub fn PyTuple_New(n: isize) -> *mut PyObject;
        pub fn PyTuple_SetItem(t: *mut PyObject, i: isize, v: *mut PyObject) -> c_int;
        pub fn PyTuple_GetItem(t: *mut PyObject, i: isize) -> *mut PyObject;
        pub fn PyTuple_Size(t: *mut PyObject) -> isize;
        pub fn PyList_New(n: isize) -> *mut PyObject;
        pub fn PyList_SetItem(t: *mut PyObject, i: isize, v: *mut PyObject) -> c_int;
        pub fn PyDict_Next(d: *mut PyObject, pos: *mut isize, k: *mut *mut PyObject, v: *mut *mut PyObject) -> c_int;
        pub fn PySequence_Check(o: *mut PyObject) -> c_int;
        pub fn PySequence_GetItem(o: *mut PyObject, i: isize) -> *mut PyObject;
        pub fn PySequence_Size(o: *mut PyObject) -> isize;
        pub fn PyUnicode_FromStringAndSize(s: *const c_char, n: isize) -> *mut PyObject;
        pub fn PyUnicode_AsUTF8AndSize(o: *mut PyObject, n: *mut isize) -> *const c_char;
        pub fn PyImport_ImportModule(n: *const c_char) -> *mut PyObject;
        pub fn PyModule_New(n: *const c_char) -> *mut PyObject;
        pub fn PyModule_GetNameObject(m: *mut PyObject) -> *mut PyObject;
        pub fn PyModule_Create2(d: *mut PyModuleDef, v: c_int) -> *mut PyObject;
        pub fn PyCFunction_NewEx(d: *mut PyMethodDef, s: *mut PyObject, m: *mut PyObject) -> *mut PyObject;
        pub fn PyObject_GetBuffer(o: *mut PyObject, b: *mut Py_buffer, f: c_int) -> c_int;
        pub fn PyBuffer_Release(b: *mut Py_buffer);
    }
}

use ffi::PyObject;
use std::marker::PhantomData;

#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<&'py ()>);
impl<'py> Python<'py> {
    #[doc(hidden)]
    pub unsafe fn assume() -> Self {
        Python(PhantomData)
    }
    pub fn import(self, name: &str) -> PyResult<Bound<'py, PyModule>> {
        let n = shim::cstr(name);
        unsafe { Bound::from_owned(self, ffi::PyImport_ImportModule(n.as_ptr())) }
    }
    #[allow(non_snake_case)]
    pub fn None(self) -> Py<PyAny> {
        unsafe {
            let p = &raw mut ffi::_Py_NoneStruct;
            ffi::Py_IncRef(p);
            Py(p, PhantomData)
        }
    }
    pub fn detach<T, F: FnOnce() -> T>(self, f: F) -> T {
        f()
    }
    pub fn allow_threads<T, F: FnOnce() -> T>(self, f: F) -> T {
        f()
    }
    pub fn check_signals(self) -> PyResult<()> {
        Ok(())
    }
}

pub struct PyAny(());
pub struct PyModule(());
pub mod types {
    pub use crate::{PyAny, PyModule};
    pub struct PyFloat(());
    pub struct PyTuple(());
    pub struct PyList(());
    pub struct PyDict(());
    pub struct PyString(());
    pub use crate::{PyAnyMethods, PyModuleMethods, PyTupleMethods, PyFloatMethods, PyListMethods, PyDictMethods, PyStringMethods};
}
/// The method traits of pyo3 exist so that they can be imported; the methods are inherent here.
pub trait PyAnyMethods {}
pub trait PyModuleMethods {}
pub trait PyTupleMethods {}
pub trait PyFloatMethods {}
pub trait PyListMethods {}
pub trait PyDictMethods {}
pub trait PyStringMethods {}
use types::*;

/// Which Python objects a typed handle may hold.
pub trait TypeCheck {
    fn check(o: *mut PyObject) -> bool;
}
macro_rules! check {
    ($t:ty, $s:ident) => {
        impl TypeCheck for $t {
            fn check(o: *mut PyObject) -> bool {
                unsafe { ffi::PyObject_IsInstance(o, &raw mut ffi::$s) == 1 }
            }
        }
    };
}
impl TypeCheck for PyAny {
    fn check(_: *mut PyObject) -> bool {
        true
    }
}
check!(PyFloat, PyFloat_Type);
check!(PyTuple, PyTuple_Type);
check!(PyList, PyList_Type);
check!(PyDict, PyDict_Type);
check!(PyString, PyUnicode_Type);

#[repr(transparent)]
pub struct Py<T>(*mut PyObject, PhantomData<T>);
unsafe impl<T> Send for Py<T> {}
unsafe impl<T> Sync for Py<T> {}
impl<T> Drop for Py<T> {
    fn drop(&mut self) {
        unsafe { ffi::Py_DecRef(self.0) }
    }
}
impl<T> Py<T> {
    pub fn bind<'a, 'py>(&'a self, _py: Python<'py>) -> &'a Bound<'py, T> {
        unsafe { &*(self as *const Py<T> as *const Bound<'py, T>) }
    }
    pub fn into_bound<'py>(self, py: Python<'py>) -> Bound<'py, T> {
        let b = unsafe { Bound::borrowed(py, self.0) };
        b
    }
    pub fn as_ptr(&self) -> *mut PyObject {
        self.0
    }
    pub fn clone_ref(&self, py: Python<'_>) -> Self {
        unsafe { Bound::<T>::borrowed(py, self.0) }.unbind()
    }
    pub fn into_any(self) -> Py<PyAny> {
        let p = self.0;
        std::mem::forget(self);
        Py(p, PhantomData)
    }
}

#[repr(transparent)]
pub struct Bound<'py, T>(*mut PyObject, PhantomData<(&'py (), T)>);
impl<'py, T> Drop for Bound<'py, T> {
    fn drop(&mut self) {
        unsafe { ffi::Py_DecRef(self.0) }
    }
}
impl<'py, T> Clone for Bound<'py, T> {
    fn clone(&self) -> Self {
        unsafe { Bound::borrowed(self.py(), self.0) }
    }
}
pub struct CastError;
impl From<CastError> for PyErr {
    fn from(_: CastError) -> PyErr {
        PyErr::msg(unsafe { ffi::PyExc_TypeError }, "cannot be cast to the wanted type".into())
    }
}
impl<'py, T> Bound<'py, T> {
    #[doc(hidden)]
    pub unsafe fn from_owned(_py: Python<'py>, p: *mut PyObject) -> PyResult<Self> {
        if p.is_null() { Err(PyErr::fetch()) } else { Ok(Bound(p, PhantomData)) }
    }
    #[doc(hidden)]
    pub unsafe fn borrowed(_py: Python<'py>, p: *mut PyObject) -> Self {
        unsafe { ffi::Py_IncRef(p) };
        Bound(p, PhantomData)
    }
    pub fn as_ptr(&self) -> *mut PyObject {
        self.0
    }
    pub fn into_ptr(self) -> *mut PyObject {
        let p = self.0;
        std::mem::forget(self);
        p
    }
    pub fn py(&self) -> Python<'py> {
        Python(PhantomData)
    }
    pub fn as_any(&self) -> &Bound<'py, PyAny> {
        unsafe { &*(self as *const Self as *const Bound<'py, PyAny>) }
    }
    pub fn into_any(self) -> Bound<'py, PyAny> {
        Bound(self.into_ptr(), PhantomData)
    }
    pub fn unbind(self) -> Py<T> {
        Py(self.into_ptr(), PhantomData)
    }
    pub fn hasattr(&self, name: impl AsRef<str>) -> PyResult<bool> {
        let n = shim::cstr(name.as_ref());
        unsafe {
            let p = ffi::PyObject_GetAttrString(self.0, n.as_ptr());
            if !p.is_null() {
                ffi::Py_DecRef(p);
                return Ok(true);
            }
            let e = PyErr::fetch();
            if e.is(ffi::PyExc_AttributeError) { Ok(false) } else { Err(e) }
        }
    }
    pub fn getattr(&self, name: impl AsRef<str>) -> PyResult<Bound<'py, PyAny>> {
        let n = shim::cstr(name.as_ref());
        unsafe { Bound::from_owned(self.py(), ffi::PyObject_GetAttrString(self.0, n.as_ptr())) }
    }
    pub fn setattr(&self, name: impl AsRef<str>, v: impl IntoPyObject) -> PyResult<()> {
        let n = shim::cstr(name.as_ref());
        let v = v.into_py(self.py())?;
        if unsafe { ffi::PyObject_SetAttrString(self.0, n.as_ptr(), v.as_ptr()) } < 0 { Err(PyErr::fetch()) } else { Ok(()) }
    }
    pub fn call1(&self, args: impl IntoPyObject) -> PyResult<Bound<'py, PyAny>> {
        let a = args.into_py(self.py())?;
        unsafe { Bound::from_owned(self.py(), ffi::PyObject_Call(self.0, a.as_ptr(), std::ptr::null_mut())) }
    }
    pub fn call0(&self) -> PyResult<Bound<'py, PyAny>> {
        self.call1(())
    }
    pub fn call_method1(&self, name: impl AsRef<str>, args: impl IntoPyObject) -> PyResult<Bound<'py, PyAny>> {
        self.getattr(name)?.call1(args)
    }
    pub fn call_method0(&self, name: impl AsRef<str>) -> PyResult<Bound<'py, PyAny>> {
        self.getattr(name)?.call1(())
    }
    pub fn set_item(&self, k: impl IntoPyObject, v: impl IntoPyObject) -> PyResult<()> {
        let (k, v) = (k.into_py(self.py())?, v.into_py(self.py())?);
        if unsafe { ffi::PyObject_SetItem(self.0, k.as_ptr(), v.as_ptr()) } < 0 { Err(PyErr::fetch()) } else { Ok(()) }
    }
    pub fn get_item(&self, k: impl IntoPyObject) -> PyResult<Bound<'py, PyAny>> {
        let k = k.into_py(self.py())?;
        unsafe { Bound::from_owned(self.py(), ffi::PyObject_GetItem(self.0, k.as_ptr())) }
    }
    pub fn len(&self) -> PyResult<usize> {
        let n = unsafe { ffi::PyObject_Length(self.0) };
        if n < 0 { Err(PyErr::fetch()) } else { Ok(n as usize) }
    }
    pub fn is_none(&self) -> bool {
        self.0 == &raw mut ffi::_Py_NoneStruct
    }
    pub fn is_truthy(&self) -> PyResult<bool> {
        let n = unsafe { ffi::PyObject_IsTrue(self.0) };
        if n < 0 { Err(PyErr::fetch()) } else { Ok(n != 0) }
    }
    pub fn is_instance_of<U: TypeCheck>(&self) -> bool {
        U::check(self.0)
    }
    pub fn extract<'a, U: FromPyObject<'a, 'py>>(&'a self) -> PyResult<U> {
        U::extract(self.as_any())
    }
    pub fn cast<U: TypeCheck>(&self) -> Result<&Bound<'py, U>, CastError> {
        if U::check(self.0) { Ok(unsafe { &*(self as *const Self as *const Bound<'py, U>) }) } else { Err(CastError) }
    }
    pub fn downcast<U: TypeCheck>(&self) -> Result<&Bound<'py, U>, CastError> {
        self.cast()
    }
    pub fn cast_into<U: TypeCheck>(self) -> Result<Bound<'py, U>, CastError> {
        if U::check(self.0) { Ok(Bound(self.into_ptr(), PhantomData)) } else { Err(CastError) }
    }
}
impl<'py, T> std::fmt::Display for Bound<'py, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let s = unsafe { Bound::<PyAny>::from_owned(self.py(), ffi::PyObject_Str(self.0)) };
        match s.and_then(|s| s.extract::<String>()) {
            Ok(s) => f.write_str(&s),
            Err(_) => f.write_str("<unprintable>"),
        }
    }
}
impl<'py, T> std::fmt::Debug for Bound<'py, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self}")
    }
}
impl<'py> Bound<'py, PyModule> {
    pub fn name(&self) -> PyResult<Bound<'py, PyString>> {
        unsafe { Bound::from_owned(self.py(), ffi::PyModule_GetNameObject(self.as_ptr())) }
    }
    pub fn add(&self, name: &str, v: impl IntoPyObject) -> PyResult<()> {
        self.setattr(name, v)
    }
    pub fn add_function(&self, f: Bound<'py, PyAny>) -> PyResult<()> {
        let name: String = f.getattr("__name__")?.extract()?;
        if let Ok(n) = self.name() {
            let _ = f.setattr("__module__", n);
        }
        self.setattr(name, f)
    }
    pub fn add_submodule(&self, m: &Bound<'py, PyModule>) -> PyResult<()> {
        let name: String = m.name()?.extract()?;
        self.setattr(name, m)
    }
}
impl PyModule {
    pub fn new<'py>(py: Python<'py>, name: &str) -> PyResult<Bound<'py, PyModule>> {
        let n = shim::cstr(name);
        unsafe { Bound::from_owned(py, ffi::PyModule_New(n.as_ptr())) }
    }
    pub fn import<'py>(py: Python<'py>, name: &str) -> PyResult<Bound<'py, PyModule>> {
        py.import(name)
    }
}
impl TypeCheck for PyModule {
    fn check(_: *mut PyObject) -> bool {
        true
    }
}
impl<'py> Bound<'py, PyFloat> {
    pub fn value(&self) -> f64 {
        unsafe { ffi::PyFloat_AsDouble(self.as_ptr()) }
    }
}
impl PyFloat {
    pub fn new<'py>(py: Python<'py>, v: f64) -> Bound<'py, PyFloat> {
        unsafe { Bound::from_owned(py, ffi::PyFloat_FromDouble(v)).ok().unwrap() }
    }
}
impl PyTuple {
    pub fn new<'py, I, E>(py: Python<'py>, items: I) -> PyResult<Bound<'py, PyTuple>>
    where
        I: IntoIterator<Item = E>,
        E: IntoPyObject,
    {
        let v = items.into_iter().map(|e| e.into_py(py)).collect::<PyResult<Vec<_>>>()?;
        Ok(shim::tuple(py, v))
    }
}
impl<'py> Bound<'py, PyString> {
    pub fn to_str(&self) -> PyResult<&str> {
        shim::utf8(self.as_any())
    }
}

pub struct PyErr(Kind);
enum Kind {
    Msg(*mut PyObject, String),
    Obj(*mut PyObject),
}
impl PyErr {
    #[doc(hidden)]
    pub fn msg(t: *mut PyObject, s: String) -> PyErr {
        PyErr(Kind::Msg(t, s))
    }
    pub fn new<E: exceptions::Exc, A: exceptions::ErrArg>(a: A) -> PyErr {
        PyErr::msg(E::ty(), a.text())
    }
    #[doc(hidden)]
    pub fn fetch() -> PyErr {
        let p = unsafe { ffi::PyErr_GetRaisedException() };
        if p.is_null() {
            return PyErr::msg(unsafe { ffi::PyExc_RuntimeError }, "no exception set".into());
        }
        PyErr(Kind::Obj(p))
    }
    #[doc(hidden)]
    pub fn is(&self, t: *mut PyObject) -> bool {
        match &self.0 {
            Kind::Msg(k, _) => *k == t,
            Kind::Obj(o) => unsafe { ffi::PyObject_IsInstance(*o, t) == 1 },
        }
    }
    pub fn is_instance_of<E: exceptions::Exc>(&self, _py: Python<'_>) -> bool {
        self.is(E::ty())
    }
    pub fn restore(self, _py: Python<'_>) {
        unsafe {
            match self.0 {
                Kind::Msg(t, s) => {
                    let c = shim::cstr(&s);
                    ffi::PyErr_SetString(t, c.as_ptr())
                }
                Kind::Obj(o) => ffi::PyErr_SetRaisedException(o),
            }
        }
    }
}
impl std::fmt::Debug for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self}")
    }
}
impl std::fmt::Display for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match &self.0 {
            Kind::Msg(_, s) => f.write_str(s),
            Kind::Obj(_) => f.write_str("python exception"),
        }
    }
}
impl std::error::Error for PyErr {}
pub type PyResult<T> = Result<T, PyErr>;

pub mod exceptions {
    use super::{ffi, PyErr};
    pub trait Exc {
        fn ty() -> *mut ffi::PyObject;
    }
    pub trait ErrArg {
        fn text(self) -> String;
    }
    impl ErrArg for &str {
        fn text(self) -> String {
            self.to_string()
        }
    }
    impl ErrArg for String {
        fn text(self) -> String {
            self
        }
    }
    impl ErrArg for &String {
        fn text(self) -> String {
            self.clone()
        }
    }
    impl ErrArg for std::borrow::Cow<'_, str> {
        fn text(self) -> String {
            self.into_owned()
        }
    }
    impl ErrArg for () {
        fn text(self) -> String {
            String::new()
        }
    }
    impl<A: ErrArg> ErrArg for (A,) {
        fn text(self) -> String {
            self.0.text()
        }
    }
    macro_rules! exc {
        ($($n:ident $g:ident;)*) => {$(
            pub struct $n(());
            impl $n { pub fn new_err<A: ErrArg>(a: A) -> PyErr { PyErr::msg(unsafe { ffi::$g }, a.text()) } }
            impl Exc for $n { fn ty() -> *mut ffi::PyObject { unsafe { ffi::$g } } }
        )*};
    }
    exc! {
        PyValueError PyExc_ValueError; PyTypeError PyExc_TypeError; PyOverflowError PyExc_OverflowError;
        PyRuntimeError PyExc_RuntimeError; PyIndexError PyExc_IndexError; PyKeyError PyExc_KeyError;
        PyAttributeError PyExc_AttributeError; PyZeroDivisionError PyExc_ZeroDivisionError;
        PyArithmeticError PyExc_ArithmeticError; PyAssertionError PyExc_AssertionError;
        PyNotImplementedError PyExc_NotImplementedError; PyFloatingPointError PyExc_FloatingPointError;
        PyException PyExc_Exception;
    }
}

// ---- Rust -> Python -------------------------------------------------------------------
pub trait IntoPyObject {
    fn into_py<'py>(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>>;
}
macro_rules! ints {
    ($($t:ty)*) => {$(impl IntoPyObject for $t {
        fn into_py<'py>(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
            unsafe { Bound::from_owned(py, ffi::PyLong_FromLongLong(self as i64)) }
        }
    })*};
}
ints!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
impl IntoPyObject for f64 {
    fn into_py<'py>(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        unsafe { Bound::from_owned(py, ffi::PyFloat_FromDouble(self)) }
    }
}
impl IntoPyObject for &f64 {
    fn into_py<'py>(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        (*self).into_py(py)
    }
}
impl IntoPyObject for bool {
    fn into_py<'py>(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        unsafe { Bound::from_owned(py, ffi::PyBool_FromLong(self as _)) }
    }
}
impl IntoPyObject for &str {
    fn into_py<'py>(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        unsafe { Bound::from_owned(py, ffi::PyUnicode_FromStringAndSize(self.as_ptr() as _, self.len() as isize)) }
    }
}
impl IntoPyObject for String {
    fn into_py<'py>(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        self.as_str().into_py(py)
    }
}
impl IntoPyObject for &String {
    fn into_py<'py>(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        self.as_str().into_py(py)
    }
}
impl<T> IntoPyObject for Py<T> {
    fn into_py<'py>(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        Ok(self.into_any().into_bound(py))
    }
}
impl<'q, T> IntoPyObject for Bound<'q, T> {
    fn into_py<'py>(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        Ok(unsafe { Bound::borrowed(py, self.as_ptr()) })
    }
}
impl<'a, 'q, T> IntoPyObject for &'a Bound<'q, T> {
    fn into_py<'py>(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        Ok(unsafe { Bound::borrowed(py, self.as_ptr()) })
    }
}
impl<T: IntoPyObject> IntoPyObject for Option<T> {
    fn into_py<'py>(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        match self {
            Some(v) => v.into_py(py),
            None => Ok(py.None().into_bound(py)),
        }
    }
}
fn list<'py>(py: Python<'py>, v: Vec<Bound<'py, PyAny>>) -> PyResult<Bound<'py, PyAny>> {
    unsafe {
        let l = ffi::PyList_New(v.len() as isize);
        for (i, x) in v.into_iter().enumerate() {
            ffi::PyList_SetItem(l, i as isize, x.into_ptr());
        }
        Bound::from_owned(py, l)
    }
}
impl<T: IntoPyObject> IntoPyObject for Vec<T> {
    fn into_py<'py>(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        let v = self.into_iter().map(|e| e.into_py(py)).collect::<PyResult<Vec<_>>>()?;
        list(py, v)
    }
}
impl<T: IntoPyObject, const N: usize> IntoPyObject for [T; N] {
    fn into_py<'py>(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        let v = self.into_iter().map(|e| e.into_py(py)).collect::<PyResult<Vec<_>>>()?;
        list(py, v)
    }
}
impl IntoPyObject for () {
    fn into_py<'py>(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        Ok(shim::tuple(py, vec![]).into_any())
    }
}
macro_rules! tuples {
    ($(($($t:ident $i:tt),+))*) => {$(impl<$($t: IntoPyObject),+> IntoPyObject for ($($t,)+) {
        fn into_py<'py>(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
            Ok(shim::tuple(py, vec![$(self.$i.into_py(py)?),+]).into_any())
        }
    })*};
}
tuples! {
    (A 0) (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4)
    (A 0, B 1, C 2, D 3, E 4, F 5) (A 0, B 1, C 2, D 3, E 4, F 5, G 6)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7)
}

// ---- Python -> Rust -------------------------------------------------------------------
pub trait FromPyObject<'a, 'py>: Sized {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<Self>;
}
impl<'a, 'py> FromPyObject<'a, 'py> for f64 {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<f64> {
        let v = unsafe { ffi::PyFloat_AsDouble(o.as_ptr()) };
        if v == -1.0 && !unsafe { ffi::PyErr_Occurred() }.is_null() { Err(PyErr::fetch()) } else { Ok(v) }
    }
}
macro_rules! from_ints {
    ($($t:ty)*) => {$(impl<'a, 'py> FromPyObject<'a, 'py> for $t {
        fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<$t> {
            let v = unsafe {
                let i = ffi::PyNumber_Index(o.as_ptr());
                if i.is_null() { return Err(PyErr::fetch()); }
                let v = ffi::PyLong_AsLongLong(i);
                ffi::Py_DecRef(i);
                if v == -1 && !ffi::PyErr_Occurred().is_null() { return Err(PyErr::fetch()); }
                v
            };
            <$t>::try_from(v).map_err(|e| exceptions::PyOverflowError::new_err(e.to_string()))
        }
    })*};
}
from_ints!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
impl<'a, 'py> FromPyObject<'a, 'py> for bool {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<bool> {
        let p = o.as_ptr();
        if p == &raw mut ffi::_Py_TrueStruct { Ok(true) }
        else if p == &raw mut ffi::_Py_FalseStruct { Ok(false) }
        else { Err(exceptions::PyTypeError::new_err("expected bool")) }
    }
}
impl<'a, 'py> FromPyObject<'a, 'py> for String {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<String> {
        shim::utf8(o).map(str::to_string)
    }
}
impl<'a, 'py> FromPyObject<'a, 'py> for &'a str {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<&'a str> {
        shim::utf8(o)
    }
}
impl<'a, 'py> FromPyObject<'a, 'py> for Bound<'py, PyAny> {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<Self> {
        Ok(o.clone())
    }
}
impl<'a, 'py> FromPyObject<'a, 'py> for Py<PyAny> {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<Self> {
        Ok(o.clone().unbind())
    }
}
impl<'a, 'py, T: TypeCheck> FromPyObject<'a, 'py> for &'a Bound<'py, T> {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<Self> {
        o.cast::<T>().map_err(|e| e.into())
    }
}
impl<'a, 'py, T: FromPyObject<'a, 'py>> FromPyObject<'a, 'py> for Option<T> {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<Self> {
        if o.is_none() { Ok(None) } else { T::extract(o).map(Some) }
    }
}
impl<'a, 'py, T: for<'b> FromPyObject<'b, 'py>> FromPyObject<'a, 'py> for Vec<T> {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<Self> {
        unsafe {
            if String::extract(o).is_ok() || ffi::PySequence_Check(o.as_ptr()) == 0 {
                return Err(exceptions::PyTypeError::new_err("not a sequence"));
            }
            let n = ffi::PySequence_Size(o.as_ptr());
            if n < 0 {
                return Err(PyErr::fetch());
            }
            let mut v = vec![];
            for i in 0..n {
                let it = Bound::<PyAny>::from_owned(o.py(), ffi::PySequence_GetItem(o.as_ptr(), i))?;
                let x = T::extract(&it)?;
                v.push(x);
            }
            Ok(v)
        }
    }
}
impl<'a, 'py, T: for<'b> FromPyObject<'b, 'py> + Copy + Default, const N: usize> FromPyObject<'a, 'py> for [T; N] {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<Self> {
        let v: Vec<T> = Vec::extract(o)?;
        <[T; N]>::try_from(v).map_err(|_| exceptions::PyValueError::new_err("wrong length"))
    }
}

#[doc(hidden)]
pub mod shim {
    use super::*;
    use std::ffi::CString;
    pub fn cstr(s: &str) -> CString {
        CString::new(s.replace('\0', "")).unwrap()
    }
    pub fn utf8<'a>(o: &'a Bound<'_, PyAny>) -> PyResult<&'a str> {
        unsafe {
            if ffi::PyObject_IsInstance(o.as_ptr(), &raw mut ffi::PyUnicode_Type) != 1 {
                return Err(exceptions::PyTypeError::new_err("expected str"));
            }
            let mut n = 0isize;
            let p = ffi::PyUnicode_AsUTF8AndSize(o.as_ptr(), &mut n);
            if p.is_null() {
                return Err(PyErr::fetch());
            }
            Ok(std::str::from_utf8_unchecked(std::slice::from_raw_parts(p as *const u8, n as usize)))
        }
    }
    pub fn tuple<'py>(py: Python<'py>, v: Vec<Bound<'py, PyAny>>) -> Bound<'py, PyTuple> {
        unsafe {
            let t = ffi::PyTuple_New(v.len() as isize);
            for (i, x) in v.into_iter().enumerate() {
                ffi::PyTuple_SetItem(t, i as isize, x.into_ptr());
            }
            Bound::from_owned(py, t).ok().unwrap()
        }
    }
    pub trait HasPy<'py> {
        fn get_py(&self) -> Python<'py>;
    }
    impl<'py, T> HasPy<'py> for Bound<'py, T> {
        fn get_py(&self) -> Python<'py> {
            self.py()
        }
    }
    impl<'py> HasPy<'py> for Python<'py> {
        fn get_py(&self) -> Python<'py> {
            *self
        }
    }
    impl<'py, X: HasPy<'py>> HasPy<'py> for &X {
        fn get_py(&self) -> Python<'py> {
            (**self).get_py()
        }
    }
    pub trait Ret {
        fn ret(self, py: Python<'_>) -> PyResult<*mut PyObject>;
    }
    pub struct Unit;
    impl<T: RetVal> Ret for T {
        fn ret(self, py: Python<'_>) -> PyResult<*mut PyObject> {
            self.val(py)
        }
    }
    pub trait RetVal {
        fn val(self, py: Python<'_>) -> PyResult<*mut PyObject>;
    }
    impl<T: IntoPyObject, E: Into<PyErr>> RetVal for Result<T, E> {
        fn val(self, py: Python<'_>) -> PyResult<*mut PyObject> {
            Ok(self.map_err(Into::into)?.into_py(py)?.into_ptr())
        }
    }
    macro_rules! plain {
        ($($t:ty)*) => {$(impl RetVal for $t {
            fn val(self, py: Python<'_>) -> PyResult<*mut PyObject> { Ok(self.into_py(py)?.into_ptr()) }
        })*};
    }
    plain!(f64 bool i32 i64 usize u32 u64 String Vec<f64> Py<PyAny> (f64,f64) (f64,f64,f64) (f64,f64,f64,f64));
    impl<T: IntoPyObject> RetVal for Option<T> {
        fn val(self, py: Python<'_>) -> PyResult<*mut PyObject> {
            Ok(self.into_py(py)?.into_ptr())
        }
    }
    impl<'q, T> RetVal for Bound<'q, T> {
        fn val(self, _py: Python<'_>) -> PyResult<*mut PyObject> {
            Ok(self.into_ptr())
        }
    }
    pub fn from_arg<'a, 'py, T: FromPyObject<'a, 'py>>(o: &'a Bound<'py, PyAny>, name: &str) -> PyResult<T> {
        T::extract(o).map_err(|e| {
            // pyo3 prefixes conversion failures of an argument with its name
            if e.is(unsafe { ffi::PyExc_TypeError }) {
                exceptions::PyTypeError::new_err(format!("argument '{name}': {e}"))
            } else {
                e
            }
        })
    }
    pub fn trampoline<F>(f: F) -> *mut PyObject
    where
        F: FnOnce(Python<'static>) -> PyResult<*mut PyObject>,
    {
        let py: Python<'static> = unsafe { Python::assume() };
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(py))) {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => {
                e.restore(py);
                std::ptr::null_mut()
            }
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                exceptions::PyRuntimeError::new_err(format!("PanicException: {m}")).restore(py);
                std::ptr::null_mut()
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    pub fn parse_args<'py>(
        py: Python<'py>,
        fname: &str,
        names: &[&str],
        required: &[bool],
        posonly: usize,
        kwstart: usize,
        args: *mut PyObject,
        kwargs: *mut PyObject,
    ) -> PyResult<Vec<Option<Bound<'py, PyAny>>>> {
        let err = |m: String| exceptions::PyTypeError::new_err(m);
        let mut slots: Vec<Option<Bound<'py, PyAny>>> = names.iter().map(|_| None).collect();
        unsafe {
            let n = ffi::PyTuple_Size(args) as usize;
            if n > kwstart {
                return Err(err(format!("{fname}() takes {kwstart} positional arguments but {n} were given")));
            }
            for i in 0..n {
                slots[i] = Some(Bound::borrowed(py, ffi::PyTuple_GetItem(args, i as isize)));
            }
            if !kwargs.is_null() {
                let (mut pos, mut k, mut v) = (0isize, std::ptr::null_mut(), std::ptr::null_mut());
                while ffi::PyDict_Next(kwargs, &mut pos, &mut k, &mut v) != 0 {
                    let key: Bound<'py, PyAny> = Bound::borrowed(py, k);
                    let key: String = key.extract()?;
                    match names.iter().position(|x| *x == key) {
                        Some(i) if i >= posonly => {
                            if slots[i].is_some() {
                                return Err(err(format!("{fname}() got multiple values for argument '{key}'")));
                            }
                            slots[i] = Some(Bound::borrowed(py, v));
                        }
                        _ => return Err(err(format!("{fname}() got an unexpected keyword argument '{key}'"))),
                    }
                }
            }
        }
        for (i, s) in slots.iter().enumerate() {
            if s.is_none() && required[i] {
                return Err(err(format!("{fname}() missing 1 required positional argument: '{}'", names[i])));
            }
        }
        Ok(slots)
    }
    pub fn make_function<'py>(
        py: Python<'py>,
        name: &'static str,
        doc: &'static str,
        f: ffi::PyCFunctionWithKeywords,
    ) -> PyResult<Bound<'py, PyAny>> {
        let def = Box::leak(Box::new(ffi::PyMethodDef {
            ml_name: name.as_ptr() as _,
            ml_meth: f,
            ml_flags: 0x0001 | 0x0002,
            ml_doc: doc.as_ptr() as _,
        }));
        unsafe { Bound::from_owned(py, ffi::PyCFunction_NewEx(def, std::ptr::null_mut(), std::ptr::null_mut())) }
    }
    pub fn init_module<F>(name: &'static str, f: F) -> *mut PyObject
    where
        F: FnOnce(Python<'static>, &Bound<'static, PyModule>) -> PyResult<()>,
    {
        let def = Box::leak(Box::new(ffi::PyModuleDef {
            ob_refcnt: 1,
            ob_type: std::ptr::null_mut(),
            m_init: std::ptr::null_mut(),
            m_index: 0,
            m_copy: std::ptr::null_mut(),
            m_name: name.as_ptr() as _,
            m_doc: std::ptr::null(),
            m_size: -1,
            m_methods: std::ptr::null_mut(),
            m_slots: std::ptr::null_mut(),
            m_traverse: std::ptr::null_mut(),
            m_clear: std::ptr::null_mut(),
            m_free: std::ptr::null_mut(),
        }));
        trampoline(|py| {
            let m: Bound<'static, PyModule> = unsafe { Bound::from_owned(py, ffi::PyModule_Create2(def, 1013))? };
            f(py, &m)?;
            Ok(m.into_ptr())
        })
    }
}

pub use pyo3_macros::{pyfunction, pymodule, wrap_pyfunction};
pub mod prelude {
    pub use crate::{Bound, IntoPyObject, Py, PyAny, PyErr, PyModule, PyResult, Python};
    pub use crate::{PyAnyMethods, PyModuleMethods, PyTupleMethods, PyFloatMethods, PyListMethods, PyDictMethods, PyStringMethods};
    pub use pyo3_macros::{pyfunction, pymodule, wrap_pyfunction};
}
