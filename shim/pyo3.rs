//! A stand-in for the part of the `pyo3` 0.29 API that hazma's `rust/src` uses, over the raw
//! CPython 3.12 C API. The real crate is not available offline; this lets the *unmodified*
//! hazma crate be compiled into an importable `hazma._core`. Written from PyO3's documented
//! behaviour; not a general replacement.
#![allow(non_camel_case_types, non_upper_case_globals, clippy::all)]

extern crate pyo3_macros;
pub use pyo3_macros::{pyfunction, pymodule};

pub mod ffi {
    use std::os::raw::{c_char, c_double, c_int, c_long, c_void};
    #[repr(C)]
    pub struct PyObject { _p: [u8; 0] }
    pub type PyCFunctionWithKeywords =
        unsafe extern "C" fn(*mut PyObject, *mut PyObject, *mut PyObject) -> *mut PyObject;
    #[repr(C)]
    pub struct PyMethodDef {
        pub ml_name: *const c_char,
        pub ml_meth: Option<PyCFunctionWithKeywords>,
        pub ml_flags: c_int,
        pub ml_doc: *const c_char,
    }
    #[repr(C)]
    pub struct PyModuleDef {
        pub ob_refcnt: isize,
        pub ob_type: *mut c_void,
        pub m_init: *mut c_void,
        pub m_index: isize,
        pub m_copy: *mut c_void,
        pub m_name: *const c_char,
        pub m_doc: *const c_char,
        pub m_size: isize,
        pub m_methods: *mut PyMethodDef,
        pub m_slots: *mut c_void,
        pub m_traverse: *mut c_void,
        pub m_clear: *mut c_void,
        pub m_free: *mut c_void,
    }
    #[repr(C)]
    pub struct Py_buffer {
        pub buf: *mut c_void,
        pub obj: *mut PyObject,
        pub len: isize,
        pub itemsize: isize,
        pub readonly: c_int,
        pub ndim: c_int,
        pub format: *mut c_char,
        pub shape: *mut isize,
        pub strides: *mut isize,
        pub suboffsets: *mut isize,
        pub internal: *mut c_void,
    }
    pub const METH_VARARGS: c_int = 1;
    pub const METH_KEYWORDS: c_int = 2;
    pub const PyBUF_WRITABLE: c_int = 1;
    pub const PyBUF_FORMAT: c_int = 4;
    pub const PyBUF_STRIDES: c_int = 0x10 | 0x08;
    pub const PyBUF_C: c_int = 0x20 | PyBUF_STRIDES;
    unsafe extern "C" {
        pub fn Py_IncRef(o: *mut PyObject);
        pub fn Py_DecRef(o: *mut PyObject);
        pub fn PyErr_SetString(t: *mut PyObject, m: *const c_char);
        pub fn PyErr_Occurred() -> *mut PyObject;
        pub fn PyErr_GetRaisedException() -> *mut PyObject;
        pub fn PyErr_SetRaisedException(e: *mut PyObject);
        pub fn PyObject_Str(o: *mut PyObject) -> *mut PyObject;
        pub fn PyObject_IsInstance(o: *mut PyObject, t: *mut PyObject) -> c_int;
        pub fn PyObject_GetAttrString(o: *mut PyObject, n: *const c_char) -> *mut PyObject;
        pub fn PyObject_SetAttrString(o: *mut PyObject, n: *const c_char, v: *mut PyObject) -> c_int;
        pub fn PyObject_SetItem(o: *mut PyObject, k: *mut PyObject, v: *mut PyObject) -> c_int;
        pub fn PyObject_CallObject(o: *mut PyObject, a: *mut PyObject) -> *mut PyObject;
        pub fn PyObject_GetBuffer(o: *mut PyObject, b: *mut Py_buffer, f: c_int) -> c_int;
        pub fn PyBuffer_Release(b: *mut Py_buffer);
        pub fn PyImport_ImportModule(n: *const c_char) -> *mut PyObject;
        pub fn PyFloat_FromDouble(x: c_double) -> *mut PyObject;
        pub fn PyFloat_AsDouble(o: *mut PyObject) -> c_double;
        pub fn PyLong_FromLong(x: c_long) -> *mut PyObject;
        pub fn PyNumber_Index(o: *mut PyObject) -> *mut PyObject;
        pub fn PyLong_AsLong(o: *mut PyObject) -> c_long;
        pub fn PyBool_FromLong(x: c_long) -> *mut PyObject;
        pub fn PyUnicode_FromStringAndSize(s: *const c_char, n: isize) -> *mut PyObject;
        pub fn PyUnicode_AsUTF8AndSize(o: *mut PyObject, n: *mut isize) -> *const c_char;
        pub fn PyTuple_New(n: isize) -> *mut PyObject;
        pub fn PyTuple_SetItem(t: *mut PyObject, i: isize, o: *mut PyObject) -> c_int;
        pub fn PyTuple_Size(t: *mut PyObject) -> isize;
        pub fn PyTuple_GetItem(t: *mut PyObject, i: isize) -> *mut PyObject;
        pub fn PyDict_Next(d: *mut PyObject, p: *mut isize, k: *mut *mut PyObject, v: *mut *mut PyObject) -> c_int;
        pub fn PySequence_Check(o: *mut PyObject) -> c_int;
        pub fn PySequence_Fast(o: *mut PyObject, m: *const c_char) -> *mut PyObject;
        pub fn PySequence_Size(o: *mut PyObject) -> isize;
        pub fn PySequence_GetItem(o: *mut PyObject, i: isize) -> *mut PyObject;
        pub fn PyCMethod_New(d: *mut PyMethodDef, s: *mut PyObject, m: *mut PyObject, c: *mut c_void) -> *mut PyObject;
        pub fn PyModule_Create2(d: *mut PyModuleDef, v: c_int) -> *mut PyObject;
        pub fn PyModule_New(n: *const c_char) -> *mut PyObject;
        pub fn PyModule_GetNameObject(m: *mut PyObject) -> *mut PyObject;
        pub fn PyGILState_Ensure() -> c_int;
        pub fn PyGILState_Release(s: c_int);
        pub static mut PyFloat_Type: PyObject;
        pub static mut PyUnicode_Type: PyObject;
        pub static mut PyTuple_Type: PyObject;
        pub static mut PyModule_Type: PyObject;
        pub static mut _Py_NoneStruct: PyObject;
        pub static mut PyExc_ValueError: *mut PyObject;
        pub static mut PyExc_TypeError: *mut PyObject;
        pub static mut PyExc_OverflowError: *mut PyObject;
        pub static mut PyExc_RuntimeError: *mut PyObject;
        pub static mut PyExc_SystemError: *mut PyObject;
        pub static mut PyExc_IndexError: *mut PyObject;
        pub static mut PyExc_KeyError: *mut PyObject;
        pub static mut PyExc_ArithmeticError: *mut PyObject;
        pub static mut PyExc_ZeroDivisionError: *mut PyObject;
        pub static mut PyExc_NotImplementedError: *mut PyObject;
        pub static mut PyExc_BaseException: *mut PyObject;
    }
}

use ffi::PyObject;
use std::ffi::CString;
use std::marker::PhantomData;

#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<&'py ()>);

pub struct PyAny;

#[repr(transparent)]
pub struct Bound<'py, T>(*mut PyObject, PhantomData<(&'py (), T)>);
#[repr(transparent)]
pub struct Py<T>(*mut PyObject, PhantomData<T>);
pub type PyObjectRef = Py<PyAny>;

impl<'py, T> Drop for Bound<'py, T> {
    fn drop(&mut self) { unsafe { ffi::Py_DecRef(self.0) } }
}
impl<'py, T> Clone for Bound<'py, T> {
    fn clone(&self) -> Self { unsafe { ffi::Py_IncRef(self.0) }; Bound(self.0, PhantomData) }
}
impl<T> Drop for Py<T> {
    fn drop(&mut self) { unsafe { ffi::Py_DecRef(self.0) } }
}

pub type PyResult<T> = Result<T, PyErr>;

pub enum PyErr {
    Lazy(*mut PyObject, String),
    Raised(*mut PyObject),
}
impl PyErr {
    pub fn fetch(_py: Python<'_>) -> PyErr {
        let e = unsafe { ffi::PyErr_GetRaisedException() };
        if e.is_null() {
            return PyErr::Lazy(unsafe { ffi::PyExc_SystemError }, "error return without exception set".into());
        }
        PyErr::Raised(e)
    }
    pub fn new<E: exceptions::ExcType, S: Into<String>>(msg: S) -> PyErr { PyErr::Lazy(E::ptr(), msg.into()) }
    fn restore(self) {
        match self {
            PyErr::Lazy(t, m) => {
                let c = CString::new(m.replace('\0', "\\0")).unwrap();
                unsafe { ffi::PyErr_SetString(t, c.as_ptr()) }
            }
            PyErr::Raised(e) => unsafe { ffi::PyErr_SetRaisedException(e) },
        }
    }
    fn describe(&self) -> String {
        match self {
            PyErr::Lazy(_, m) => m.clone(),
            PyErr::Raised(e) => unsafe {
                let s = ffi::PyObject_Str(*e);
                if s.is_null() { ffi::PyErr_GetRaisedException(); return "?".into(); }
                str_of(&Bound::<PyAny>(s, PhantomData)).unwrap_or_default()
            },
        }
    }
}
impl std::fmt::Display for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.describe()) }
}
impl std::fmt::Debug for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.describe()) }
}
impl std::error::Error for PyErr {}

/// The error of [`Bound::cast`].
#[derive(Debug)]
pub struct CastError;
impl From<CastError> for PyErr {
    fn from(_: CastError) -> PyErr { PyErr::Lazy(unsafe { ffi::PyExc_TypeError }, "cast failed".into()) }
}

fn cstr(s: &str) -> CString { CString::new(s).expect("no NUL") }

fn str_of<T>(b: &Bound<'_, T>) -> PyResult<String> {
    unsafe {
        let mut n = 0isize;
        let p = ffi::PyUnicode_AsUTF8AndSize(b.0, &mut n);
        if p.is_null() { return Err(PyErr::fetch(Python(PhantomData))); }
        Ok(String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n as usize)).into_owned())
    }
}

impl<'py> Python<'py> {
    #[doc(hidden)]
    pub unsafe fn assume() -> Self { Python(PhantomData) }
    pub fn import(self, name: &str) -> PyResult<Bound<'py, types::PyModule>> {
        unsafe { Bound::own(self, ffi::PyImport_ImportModule(cstr(name).as_ptr())) }
    }
    pub fn None(self) -> Py<PyAny> {
        unsafe { let p = std::ptr::addr_of_mut!(ffi::_Py_NoneStruct); ffi::Py_IncRef(p); Py(p, PhantomData) }
    }
    pub fn detach<R>(self, f: impl FnOnce() -> R) -> R { f() }
    pub fn allow_threads<R>(self, f: impl FnOnce() -> R) -> R { f() }
    pub fn attach<R>(f: impl for<'a> FnOnce(Python<'a>) -> R) -> R {
        unsafe { let s = ffi::PyGILState_Ensure(); let r = f(Python(PhantomData)); ffi::PyGILState_Release(s); r }
    }
}

impl<'py, T> Bound<'py, T> {
    #[doc(hidden)]
    pub unsafe fn own(py: Python<'py>, p: *mut PyObject) -> PyResult<Bound<'py, T>> {
        if p.is_null() { Err(PyErr::fetch(py)) } else { Ok(Bound(p, PhantomData)) }
    }
    #[doc(hidden)]
    pub unsafe fn borrowed(p: *mut PyObject) -> Bound<'py, T> { unsafe { ffi::Py_IncRef(p) }; Bound(p, PhantomData) }
    pub fn as_ptr(&self) -> *mut PyObject { self.0 }
    pub fn into_ptr(self) -> *mut PyObject { let p = self.0; std::mem::forget(self); p }
    pub fn py(&self) -> Python<'py> { Python(PhantomData) }
    pub fn as_any(&self) -> &Bound<'py, PyAny> { unsafe { &*(self as *const _ as *const Bound<'py, PyAny>) } }
    pub fn into_any(self) -> Bound<'py, PyAny> { Bound(self.into_ptr(), PhantomData) }
    pub fn unbind(self) -> Py<T> { Py(self.into_ptr(), PhantomData) }
    pub fn cast<U: PyTypeCheck>(&self) -> Result<&Bound<'py, U>, CastError> {
        if U::check(self.as_any()) { Ok(unsafe { &*(self as *const _ as *const Bound<'py, U>) }) } else { Err(CastError) }
    }
    pub fn downcast<U: PyTypeCheck>(&self) -> Result<&Bound<'py, U>, CastError> { self.cast() }
    pub fn cast_into<U: PyTypeCheck>(self) -> Result<Bound<'py, U>, CastError> {
        if U::check(self.as_any()) { Ok(Bound(self.into_ptr(), PhantomData)) } else { Err(CastError) }
    }
    pub fn is_instance_of<U: PyTypeCheck>(&self) -> bool { U::check(self.as_any()) }
    pub fn is_none(&self) -> bool { unsafe { self.0 == std::ptr::addr_of_mut!(ffi::_Py_NoneStruct) } }
    pub fn hasattr(&self, name: &str) -> PyResult<bool> {
        match self.getattr(name) {
            Ok(_) => Ok(true),
            Err(PyErr::Raised(e)) => unsafe {
                let b = Bound::<PyAny>(e, PhantomData);
                let builtins = self.py().import("builtins")?;
                let t = builtins.getattr("AttributeError")?;
                if ffi::PyObject_IsInstance(b.0, t.0) == 1 { Ok(false) } else { Err(PyErr::Raised(b.into_ptr())) }
            },
            Err(e) => Err(e),
        }
    }
    pub fn getattr(&self, name: &str) -> PyResult<Bound<'py, PyAny>> {
        unsafe { Bound::own(self.py(), ffi::PyObject_GetAttrString(self.0, cstr(name).as_ptr())) }
    }
    pub fn setattr<V: ToPy>(&self, name: &str, v: V) -> PyResult<()> {
        let v = v.to_py(self.py())?;
        if unsafe { ffi::PyObject_SetAttrString(self.0, cstr(name).as_ptr(), v.0) } < 0 { return Err(PyErr::fetch(self.py())); }
        Ok(())
    }
    pub fn set_item<K: ToPy, V: ToPy>(&self, k: K, v: V) -> PyResult<()> {
        let (k, v) = (k.to_py(self.py())?, v.to_py(self.py())?);
        if unsafe { ffi::PyObject_SetItem(self.0, k.0, v.0) } < 0 { return Err(PyErr::fetch(self.py())); }
        Ok(())
    }
    pub fn call1<A: ToPyTuple>(&self, args: A) -> PyResult<Bound<'py, PyAny>> {
        let t = args.to_tuple(self.py())?;
        unsafe { Bound::own(self.py(), ffi::PyObject_CallObject(self.0, t.0)) }
    }
    pub fn call0(&self) -> PyResult<Bound<'py, PyAny>> {
        unsafe { Bound::own(self.py(), ffi::PyObject_CallObject(self.0, std::ptr::null_mut())) }
    }
    pub fn call_method1<A: ToPyTuple>(&self, name: &str, args: A) -> PyResult<Bound<'py, PyAny>> { self.getattr(name)?.call1(args) }
    pub fn call_method0(&self, name: &str) -> PyResult<Bound<'py, PyAny>> { self.getattr(name)?.call0() }
    pub fn extract<D: FromPyObject<'py>>(&self) -> PyResult<D> { D::extract_bound(self.as_any()) }
    pub fn len(&self) -> PyResult<usize> {
        let n = unsafe { ffi::PySequence_Size(self.0) };
        if n < 0 { Err(PyErr::fetch(self.py())) } else { Ok(n as usize) }
    }
}
impl<'py, T> std::fmt::Display for Bound<'py, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let s: PyResult<Bound<'py, PyAny>> = unsafe { Bound::own(self.py(), ffi::PyObject_Str(self.0)) };
        match s.and_then(|s| str_of(&s)) { Ok(s) => f.write_str(&s), Err(_) => Err(std::fmt::Error) }
    }
}
impl<T> Py<T> {
    pub fn bind<'py>(&self, _py: Python<'py>) -> &Bound<'py, T> { unsafe { &*(self as *const _ as *const Bound<'py, T>) } }
    pub fn into_bound<'py>(self, _py: Python<'py>) -> Bound<'py, T> { Bound(self.into_ptr(), PhantomData) }
    pub fn into_any(self) -> Py<PyAny> { Py(self.into_ptr(), PhantomData) }
    pub fn into_ptr(self) -> *mut PyObject { let p = self.0; std::mem::forget(self); p }
}

pub trait PyTypeCheck { fn check(o: &Bound<'_, PyAny>) -> bool; }
impl PyTypeCheck for PyAny { fn check(_: &Bound<'_, PyAny>) -> bool { true } }
macro_rules! typecheck { ($t:ty, $s:ident) => {
    impl PyTypeCheck for $t { fn check(o: &Bound<'_, PyAny>) -> bool { unsafe { ffi::PyObject_IsInstance(o.0, std::ptr::addr_of_mut!(ffi::$s)) == 1 } } }
} }

pub mod types {
    use super::*;
    pub struct PyModule;
    pub struct PyCFunction;
    pub struct PyFloat;
    pub struct PyTuple;
    pub struct PyString;
    typecheck!(PyFloat, PyFloat_Type);
    typecheck!(PyTuple, PyTuple_Type);
    typecheck!(PyString, PyUnicode_Type);
    typecheck!(PyModule, PyModule_Type);
    impl PyFloat {
        pub fn new<'py>(py: Python<'py>, x: f64) -> Bound<'py, PyFloat> { unsafe { Bound::own(py, ffi::PyFloat_FromDouble(x)).expect("float") } }
    }
    impl<'py> Bound<'py, PyFloat> {
        pub fn value(&self) -> f64 { unsafe { ffi::PyFloat_AsDouble(self.0) } }
    }
    impl PyTuple {
        pub fn new<'py, I>(py: Python<'py>, it: I) -> PyResult<Bound<'py, PyTuple>>
        where I: IntoIterator, I::Item: ToPy {
            let items: Vec<_> = it.into_iter().map(|x| x.to_py(py)).collect::<PyResult<Vec<_>>>()?;
            tuple_of(py, items)
        }
    }
    impl PyModule {
        pub fn new<'py>(py: Python<'py>, name: &str) -> PyResult<Bound<'py, PyModule>> { unsafe { Bound::own(py, ffi::PyModule_New(cstr(name).as_ptr())) } }
    }
    impl<'py> Bound<'py, PyModule> {
        pub fn name(&self) -> PyResult<Bound<'py, PyString>> { unsafe { Bound::own(self.py(), ffi::PyModule_GetNameObject(self.0)) } }
        pub fn add<V: ToPy>(&self, name: &str, v: V) -> PyResult<()> { self.setattr(name, v) }
        pub fn add_function(&self, f: Bound<'py, PyCFunction>) -> PyResult<()> {
            let n: String = f.getattr("__name__")?.extract()?;
            self.setattr(&n, &f)
        }
        pub fn add_submodule(&self, m: &Bound<'py, PyModule>) -> PyResult<()> {
            let n: String = m.name()?.extract()?;
            self.setattr(n.rsplit('.').next().unwrap(), m)
        }
    }
    impl<'py> std::ops::Deref for Bound<'py, PyModule> { type Target = Bound<'py, PyAny>; fn deref(&self) -> &Self::Target { self.as_any() } }
    #[doc(hidden)]
    pub fn tuple_of<'py>(py: Python<'py>, items: Vec<Bound<'py, PyAny>>) -> PyResult<Bound<'py, PyTuple>> {
        unsafe {
            let t: Bound<'py, PyTuple> = Bound::own(py, ffi::PyTuple_New(items.len() as isize))?;
            for (i, x) in items.into_iter().enumerate() { ffi::PyTuple_SetItem(t.0, i as isize, x.into_ptr()); }
            Ok(t)
        }
    }
}

pub mod exceptions {
    use super::*;
    pub trait ExcType { fn ptr() -> *mut PyObject; }
    macro_rules! exc { ($($n:ident $s:ident),* $(,)?) => { $(
        pub struct $n;
        impl ExcType for $n { fn ptr() -> *mut PyObject { unsafe { ffi::$s } } }
        impl $n { pub fn new_err<S: Into<String>>(m: S) -> PyErr { PyErr::Lazy(unsafe { ffi::$s }, m.into()) } }
    )* } }
    exc!(PyValueError PyExc_ValueError, PyTypeError PyExc_TypeError, PyOverflowError PyExc_OverflowError,
         PyRuntimeError PyExc_RuntimeError, PyIndexError PyExc_IndexError, PyKeyError PyExc_KeyError,
         PyArithmeticError PyExc_ArithmeticError, PyZeroDivisionError PyExc_ZeroDivisionError,
         PyNotImplementedError PyExc_NotImplementedError);
}

// ---- conversions -----------------------------------------------------------------------

pub trait ToPy { fn to_py<'py>(&self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>>; }
impl<T: ToPy + ?Sized> ToPy for &T { fn to_py<'py>(&self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> { (**self).to_py(py) } }
impl<'a, T> ToPy for Bound<'a, T> { fn to_py<'py>(&self, _py: Python<'py>) -> PyResult<Bound<'py, PyAny>> { Ok(unsafe { Bound::borrowed(self.0) }) } }
impl<T> ToPy for Py<T> { fn to_py<'py>(&self, _py: Python<'py>) -> PyResult<Bound<'py, PyAny>> { Ok(unsafe { Bound::borrowed(self.0) }) } }
impl ToPy for f64 { fn to_py<'py>(&self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> { unsafe { Bound::own(py, ffi::PyFloat_FromDouble(*self)) } } }
impl ToPy for bool { fn to_py<'py>(&self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> { unsafe { Bound::own(py, ffi::PyBool_FromLong(*self as _)) } } }
impl ToPy for str { fn to_py<'py>(&self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> { unsafe { Bound::own(py, ffi::PyUnicode_FromStringAndSize(self.as_ptr() as _, self.len() as _)) } } }
impl ToPy for String { fn to_py<'py>(&self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> { self.as_str().to_py(py) } }
impl ToPy for () { fn to_py<'py>(&self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> { Ok(py.None().into_bound(py)) } }
impl<T: ToPy> ToPy for Option<T> { fn to_py<'py>(&self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> { match self { Some(x) => x.to_py(py), None => ().to_py(py) } } }
macro_rules! ints { ($($t:ty),*) => { $( impl ToPy for $t { fn to_py<'py>(&self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> { unsafe { Bound::own(py, ffi::PyLong_FromLong(*self as _)) } } } )* } }
ints!(i8, i16, i32, i64, u8, u16, u32, u64, usize, isize);

pub trait ToPyTuple { fn to_tuple<'py>(&self, py: Python<'py>) -> PyResult<Bound<'py, types::PyTuple>>; }
macro_rules! tuples { ($(($($n:ident $i:tt),+))*) => { $(
    impl<$($n: ToPy),+> ToPyTuple for ($($n,)+) {
        fn to_tuple<'py>(&self, py: Python<'py>) -> PyResult<Bound<'py, types::PyTuple>> { types::tuple_of(py, vec![$(self.$i.to_py(py)?),+]) }
    }
    impl<$($n: ToPy),+> ToPy for ($($n,)+) {
        fn to_py<'py>(&self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> { Ok(self.to_tuple(py)?.into_any()) }
    }
)* } }
tuples!((A 0)(A 0, B 1)(A 0, B 1, C 2)(A 0, B 1, C 2, D 3)(A 0, B 1, C 2, D 3, E 4)(A 0, B 1, C 2, D 3, E 4, F 5));

pub trait FromPyObject<'py>: Sized { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<Self>; }
impl<'py> FromPyObject<'py> for f64 {
    fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<f64> {
        let x = unsafe { ffi::PyFloat_AsDouble(o.0) };
        if x == -1.0 && unsafe { !ffi::PyErr_Occurred().is_null() } { return Err(PyErr::fetch(o.py())); }
        Ok(x)
    }
}
impl<'py> FromPyObject<'py> for i64 {
    fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<i64> {
        unsafe {
            let i: Bound<'py, PyAny> = Bound::own(o.py(), ffi::PyNumber_Index(o.0))?;
            let x = ffi::PyLong_AsLong(i.0);
            if x == -1 && !ffi::PyErr_Occurred().is_null() { return Err(PyErr::fetch(o.py())); }
            Ok(x)
        }
    }
}
macro_rules! from_ints { ($($t:ty),*) => { $( impl<'py> FromPyObject<'py> for $t {
    fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<$t> {
        <$t>::try_from(i64::extract_bound(o)?).map_err(|e| exceptions::PyOverflowError::new_err(e.to_string()))
    }
} )* } }
from_ints!(i32, u32, usize);
impl<'py> FromPyObject<'py> for String {
    fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<String> {
        if !types::PyString::check(o) { return Err(exceptions::PyTypeError::new_err(format!("'{o}' is not an instance of 'str'"))); }
        str_of(o)
    }
}
impl<'py> FromPyObject<'py> for bool {
    fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<bool> { Ok(i64::extract_bound(o)? != 0) }
}
impl<'py, T: FromPyObject<'py>> FromPyObject<'py> for Option<T> {
    fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<Self> { if o.is_none() { Ok(None) } else { T::extract_bound(o).map(Some) } }
}
impl<'py, T: FromPyObject<'py>> FromPyObject<'py> for Vec<T> {
    fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<Self> {
        if types::PyString::check(o) { return Err(exceptions::PyTypeError::new_err("Can't extract `str` to `Vec`")); }
        if unsafe { ffi::PySequence_Check(o.0) } == 0 { return Err(exceptions::PyTypeError::new_err("object is not a sequence")); }
        let n = o.len()?;
        (0..n).map(|i| { let x: Bound<'py, PyAny> = unsafe { Bound::own(o.py(), ffi::PySequence_GetItem(o.0, i as isize))? }; T::extract_bound(&x) }).collect()
    }
}
impl<'py, T: PyTypeCheck> FromPyObject<'py> for Bound<'py, T> {
    fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<Self> { Ok(o.cast::<T>()?.clone()) }
}

#[doc(hidden)]
pub mod impl_ {
    use super::*;

    pub trait FromArg<'a>: Sized { fn from_arg(o: &'a Bound<'a, PyAny>) -> PyResult<Self>; }
    impl<'a, T: FromPyObject<'a>> FromArg<'a> for T { fn from_arg(o: &'a Bound<'a, PyAny>) -> PyResult<Self> { T::extract_bound(o) } }
    impl<'a, T: PyTypeCheck> FromArg<'a> for &'a Bound<'a, T> {
        fn from_arg(o: &'a Bound<'a, PyAny>) -> PyResult<Self> { Ok(o.cast::<T>()?) }
    }
    impl<'a> FromArg<'a> for &'a str {
        fn from_arg(o: &'a Bound<'a, PyAny>) -> PyResult<Self> {
            if !types::PyString::check(o) { return Err(exceptions::PyTypeError::new_err("not an instance of 'str'")); }
            unsafe {
                let mut n = 0isize;
                let p = ffi::PyUnicode_AsUTF8AndSize(o.0, &mut n);
                if p.is_null() { return Err(PyErr::fetch(o.py())); }
                Ok(std::str::from_utf8_unchecked(std::slice::from_raw_parts(p as *const u8, n as usize)))
            }
        }
    }
    pub fn extract_arg<'a, T: FromArg<'a>>(o: &'a Bound<'a, PyAny>, name: &str) -> PyResult<T> {
        T::from_arg(o).map_err(|e| match e {
            // PyO3 prefixes TypeErrors of argument extraction with the argument's name.
            PyErr::Lazy(t, m) if unsafe { t == ffi::PyExc_TypeError } => PyErr::Lazy(t, format!("argument '{name}': {m}")),
            PyErr::Raised(x) => unsafe {
                let is = ffi::PyObject_IsInstance(x, ffi::PyExc_TypeError) == 1;
                if is {
                    let e = PyErr::Raised(x);
                    let m = e.describe();
                    ffi::Py_DecRef(x);
                    PyErr::Lazy(ffi::PyExc_TypeError, format!("argument '{name}': {m}"))
                } else { PyErr::Raised(x) }
            },
            e => e,
        })
    }

    pub trait RetVal { fn ret(self, py: Python<'_>) -> PyResult<*mut PyObject>; }
    impl<T: ToPy> RetVal for PyResult<T> { fn ret(self, py: Python<'_>) -> PyResult<*mut PyObject> { Ok(self?.to_py(py)?.into_ptr()) } }
    macro_rules! rets { ($($t:ty),*) => { $( impl RetVal for $t { fn ret(self, py: Python<'_>) -> PyResult<*mut PyObject> { Ok(self.to_py(py)?.into_ptr()) } } )* } }
    rets!(f64, i32, i64, usize, bool, String, (), (f64, f64), (f64, f64, f64));

    pub fn parse_args<'py>(
        py: Python<'py>, fname: &str, names: &[&str], required: &[bool],
        args: *mut PyObject, kw: *mut PyObject,
    ) -> PyResult<Vec<Option<Bound<'py, PyAny>>>> {
        let _ = py;
        let terr = |m: String| exceptions::PyTypeError::new_err(m);
        let mut slots: Vec<Option<Bound<'py, PyAny>>> = names.iter().map(|_| None).collect();
        unsafe {
            let n = ffi::PyTuple_Size(args) as usize;
            if n > names.len() {
                return Err(terr(format!("{fname}() takes {} positional arguments but {n} were given", names.len())));
            }
            for i in 0..n { slots[i] = Some(Bound::borrowed(ffi::PyTuple_GetItem(args, i as isize))); }
            if !kw.is_null() {
                let (mut pos, mut k, mut v) = (0isize, std::ptr::null_mut(), std::ptr::null_mut());
                while ffi::PyDict_Next(kw, &mut pos, &mut k, &mut v) != 0 {
                    let key = str_of(&Bound::<PyAny>::borrowed(k))?;
                    match names.iter().position(|x| *x == key) {
                        None => return Err(terr(format!("{fname}() got an unexpected keyword argument '{key}'"))),
                        Some(i) if slots[i].is_some() => return Err(terr(format!("{fname}() got multiple values for argument '{key}'"))),
                        Some(i) => slots[i] = Some(Bound::borrowed(v)),
                    }
                }
            }
        }
        let missing: Vec<String> = (0..names.len()).filter(|&i| required[i] && slots[i].is_none()).map(|i| format!("'{}'", names[i])).collect();
        if !missing.is_empty() {
            return Err(terr(format!("{fname}() missing {} required positional argument{}: {}", missing.len(), if missing.len() == 1 { "" } else { "s" }, missing.join(", "))));
        }
        Ok(slots)
    }

    pub fn trampoline(f: impl FnOnce(Python<'_>) -> PyResult<*mut PyObject>) -> *mut PyObject {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(Python(PhantomData))));
        match r {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => { e.restore(); std::ptr::null_mut() }
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                PyErr::Lazy(unsafe { ffi::PyExc_SystemError }, format!("PanicException: {m}")).restore();
                std::ptr::null_mut()
            }
        }
    }

    pub fn make_function<'py>(
        m: &Bound<'py, types::PyModule>, name: &str, sig: &str, doc: &str, f: ffi::PyCFunctionWithKeywords,
    ) -> PyResult<Bound<'py, types::PyCFunction>> {
        let doc: Vec<&str> = doc.split('\n').map(|l| l.strip_prefix(' ').unwrap_or(l)).collect();
        let full = CString::new(format!("{name}{sig}\n--\n\n{}", doc.join("\n"))).unwrap();
        let def = Box::leak(Box::new(ffi::PyMethodDef {
            ml_name: cstr(name).into_raw(),
            ml_meth: Some(f),
            ml_flags: ffi::METH_VARARGS | ffi::METH_KEYWORDS,
            ml_doc: full.into_raw(),
        }));
        unsafe {
            let n = ffi::PyModule_GetNameObject(m.0);
            if n.is_null() { return Err(PyErr::fetch(m.py())); }
            Bound::own(m.py(), ffi::PyCMethod_New(def, std::ptr::null_mut(), n, std::ptr::null_mut()))
        }
    }

    pub fn init_module(name: &'static str, f: impl FnOnce(&Bound<'_, types::PyModule>) -> PyResult<()>) -> *mut PyObject {
        std::panic::set_hook(Box::new(|_| {}));
        let def = Box::leak(Box::new(ffi::PyModuleDef {
            ob_refcnt: 1, ob_type: std::ptr::null_mut(), m_init: std::ptr::null_mut(), m_index: 0,
            m_copy: std::ptr::null_mut(), m_name: name.as_ptr() as _, m_doc: std::ptr::null(), m_size: -1,
            m_methods: std::ptr::null_mut(), m_slots: std::ptr::null_mut(), m_traverse: std::ptr::null_mut(),
            m_clear: std::ptr::null_mut(), m_free: std::ptr::null_mut(),
        }));
        trampoline(|py| unsafe {
            let m: Bound<'_, types::PyModule> = Bound::own(py, ffi::PyModule_Create2(def, 1013))?;
            f(&m)?;
            Ok(m.into_ptr())
        })
    }
}

#[macro_export]
macro_rules! wrap_pyfunction {
    ($f:path, $m:expr) => {{ use $f as __wrapped; __wrapped::__make($m) }};
}

pub mod prelude {
    pub use crate::types::PyModule;
    pub use crate::{wrap_pyfunction, Bound, Py, PyAny, PyErr, PyResult, Python, FromPyObject};
    pub use crate::{pyfunction, pymodule};
    pub use crate::types::PyModule as _PyModule;
}
