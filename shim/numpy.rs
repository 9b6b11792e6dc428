//! A stand-in for the part of the `numpy` 0.29 (rust-numpy) API that hazma uses.
#![allow(clippy::all)]
extern crate pyo3;
use pyo3::{ffi, Bound, FromPyObject, PyAny, PyErr, PyResult, PyTypeCheck, Python};
use std::marker::PhantomData;

pub struct PyUntypedArray;
pub struct PyArray<T, D>(PhantomData<(T, D)>);
pub struct Ix1;
pub struct Ix2;
pub type PyArray1<T> = PyArray<T, Ix1>;
pub type PyArray2<T> = PyArray<T, Ix2>;
pub struct PyArrayDescr;

fn np<'py>(py: Python<'py>, attr: &str) -> PyResult<Bound<'py, PyAny>> { py.import("numpy")?.getattr(attr) }

impl PyTypeCheck for PyUntypedArray {
    fn check(o: &Bound<'_, PyAny>) -> bool {
        let t = np(o.py(), "ndarray").expect("failed to access NumPy array API capsule");
        unsafe { ffi::PyObject_IsInstance(o.as_ptr(), t.as_ptr()) == 1 }
    }
}

pub trait PyUntypedArrayMethods<'py> {
    fn ndim(&self) -> usize;
    fn dtype(&self) -> Bound<'py, PyArrayDescr>;
}
impl<'py> PyUntypedArrayMethods<'py> for Bound<'py, PyUntypedArray> {
    fn ndim(&self) -> usize { self.getattr("ndim").and_then(|x| x.extract::<usize>()).expect("ndim") }
    fn dtype(&self) -> Bound<'py, PyArrayDescr> {
        let d = self.getattr("dtype").expect("dtype");
        unsafe { Bound::own(self.py(), d.into_ptr()).expect("dtype") }
    }
}

pub mod ndarray {
    pub struct Array2<T> { pub(crate) data: Vec<T>, pub(crate) shape: (usize, usize) }
    #[derive(Debug)]
    pub struct ShapeError;
    impl<T> Array2<T> {
        pub fn from_shape_vec(shape: (usize, usize), v: Vec<T>) -> Result<Self, ShapeError> {
            if shape.0 * shape.1 == v.len() { Ok(Array2 { data: v, shape }) } else { Err(ShapeError) }
        }
    }
    /// Elements in logical order, elements in memory order (when they are contiguous), C-contiguous?
    #[derive(Clone, Copy)]
    pub struct ArrayView1<'a, T>(pub(crate) &'a [T], pub(crate) Option<&'a [T]>, pub(crate) bool);
    impl<'a, T: Clone> ArrayView1<'a, T> {
        pub fn iter(&self) -> std::slice::Iter<'a, T> { self.0.iter() }
        pub fn to_vec(&self) -> Vec<T> { self.0.to_vec() }
        pub fn len(&self) -> usize { self.0.len() }
        pub fn len_of_axis0(&self) -> usize { self.0.len() }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
        pub fn as_slice(&self) -> Option<&'a [T]> { if self.2 { Some(self.0) } else { None } }
        pub fn as_slice_memory_order(&self) -> Option<&'a [T]> { self.1 }
        pub fn is_standard_layout(&self) -> bool { self.2 }
        pub fn get(&self, i: usize) -> Option<&'a T> { self.0.get(i) }
        pub fn first(&self) -> Option<&'a T> { self.0.first() }
        pub fn last(&self) -> Option<&'a T> { self.0.last() }
        pub fn view(&self) -> ArrayView1<'a, T> { ArrayView1(self.0, self.1, self.2) }
        pub fn dim(&self) -> usize { self.0.len() }
    }
    impl<'a, T> IntoIterator for ArrayView1<'a, T> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
    impl<'a, 'b, T> IntoIterator for &'b ArrayView1<'a, T> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
    impl<'a, T> std::ops::Index<usize> for ArrayView1<'a, T> { type Output = T; fn index(&self, i: usize) -> &T { &self.0[i] } }
}

#[derive(Debug, Clone, Copy)]
pub struct NotContiguousError;
impl From<NotContiguousError> for PyErr { fn from(_: NotContiguousError) -> PyErr { pyo3::exceptions::PyTypeError::new_err("The given array is not contiguous") } }

/// A 1-D float64 array, read through the buffer protocol at extraction time.
pub struct PyReadonlyArray1<'py, T> { data: Vec<T>, memory: Option<Vec<T>>, standard: bool, _p: PhantomData<&'py ()> }
impl<'py, T: Clone> PyReadonlyArray1<'py, T> {
    pub fn as_array(&self) -> ndarray::ArrayView1<'_, T> { ndarray::ArrayView1(&self.data, self.memory.as_deref(), self.standard) }
    pub fn as_slice(&self) -> Result<&[T], NotContiguousError> { if self.standard { Ok(&self.data) } else { Err(NotContiguousError) } }
    pub fn len(&self) -> usize { self.data.len() }
    pub fn is_empty(&self) -> bool { self.data.is_empty() }
    pub fn is_contiguous(&self) -> bool { self.standard }
    pub fn is_c_contiguous(&self) -> bool { self.standard }
    pub fn to_vec(&self) -> Result<Vec<T>, NotContiguousError> { self.as_slice().map(|s| s.to_vec()) }
    pub fn get(&self, i: usize) -> Option<&T> { self.data.get(i) }
}
impl<'py> FromPyObject<'py> for PyReadonlyArray1<'py, f64> {
    fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<Self> {
        let bad = |m: &str| Err(pyo3::exceptions::PyTypeError::new_err(m));
        let arr = match o.cast::<PyUntypedArray>() {
            Ok(a) => a,
            Err(_) => return bad("object cannot be cast as 'ndarray'"),
        };
        if arr.ndim() != 1 { return bad("dimensionality mismatch"); }
        let d = arr.dtype();
        let ch: String = d.getattr("char")?.extract()?;
        let native: bool = d.getattr("isnative")?.extract()?;
        if ch != "d" || !native { return bad("type mismatch: expected dtype float64"); }
        unsafe {
            let mut b: ffi::Py_buffer = std::mem::zeroed();
            if ffi::PyObject_GetBuffer(o.as_ptr(), &mut b, ffi::PyBUF_STRIDES | ffi::PyBUF_FORMAT) != 0 {
                return Err(PyErr::fetch(o.py()));
            }
            let (n, s) = (*b.shape, *b.strides);
            let data: Vec<f64> = (0..n).map(|i| std::ptr::read_unaligned((b.buf as *const u8).offset(i * s) as *const f64)).collect();
            ffi::PyBuffer_Release(&mut b);
            let standard = s == 8 || n <= 1;
            let memory = if standard { Some(data.clone()) } else if s == -8 { Some(data.iter().rev().copied().collect()) } else { None };
            Ok(PyReadonlyArray1 { data, memory, standard, _p: PhantomData })
        }
    }
}

fn fill<'py, T>(py: Python<'py>, shape: Bound<'py, PyAny>, data: &[f64]) -> PyResult<Bound<'py, T>> {
    let a = np(py, "empty")?.call1((shape, np(py, "float64")?))?;
    unsafe {
        let mut b: ffi::Py_buffer = std::mem::zeroed();
        if ffi::PyObject_GetBuffer(a.as_ptr(), &mut b, ffi::PyBUF_C | ffi::PyBUF_WRITABLE) != 0 { return Err(PyErr::fetch(py)); }
        std::ptr::copy_nonoverlapping(data.as_ptr(), b.buf as *mut f64, data.len());
        ffi::PyBuffer_Release(&mut b);
        Bound::own(py, a.into_ptr())
    }
}

pub trait IntoPyArray { type Dim; fn into_pyarray<'py>(self, py: Python<'py>) -> Bound<'py, PyArray<f64, Self::Dim>>; }
impl IntoPyArray for Vec<f64> {
    type Dim = Ix1;
    fn into_pyarray<'py>(self, py: Python<'py>) -> Bound<'py, PyArray<f64, Ix1>> {
        use pyo3::ToPy;
        fill(py, self.len().to_py(py).unwrap(), &self).expect("array")
    }
}
impl IntoPyArray for ndarray::Array2<f64> {
    type Dim = Ix2;
    fn into_pyarray<'py>(self, py: Python<'py>) -> Bound<'py, PyArray<f64, Ix2>> {
        use pyo3::ToPy;
        fill(py, self.shape.to_py(py).unwrap(), &self.data).expect("array")
    }
}
