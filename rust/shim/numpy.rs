//! stand-in for rust-numpy: arrays of f64, by the buffer protocol
use pyo3::{ffi::*, *};
use std::{ffi::c_char, marker::PhantomData};
pub use ndarray;
use ndarray::{Array2, ArrayView2};
pub struct PyArray1<T>(PhantomData<T>); pub struct PyArray2<T>(PhantomData<T>);
fn numpy() -> PyObject { unsafe { Py::own(PyImport_ImportModule(c"numpy".as_ptr())).unwrap() } }
struct Buf(Box<PyBuffer>);
impl Drop for Buf { fn drop(&mut self) { unsafe { PyBuffer_Release(&mut *self.0) } } }
impl Buf {
    /// only arrays of numpy, of the given number of dimensions, of f64
    fn get(o: &Bound<'_, PyAny>, ndim: i32) -> Option<Buf> {
        let cls = Python::with_gil(|py| numpy().getattr(py, "ndarray")).unwrap();
        unsafe {
            if PyObject_IsInstance(o.raw(), cls.raw()) != 1 { PyErr_Clear(); return None; }
            let mut b: Box<PyBuffer> = Box::new(std::mem::zeroed());
            if PyObject_GetBuffer(o.raw(), &mut *b, 0x18 | 0x4) != 0 { PyErr_Clear(); return None; }
            let b = Buf(b);
            if b.0.ndim != ndim || b.0.itemsize != 8 || *b.0.format as u8 != b'd' { return None; }
            for k in 0..ndim as usize { if *b.0.strides.add(k) < 0 { panic!("negative strides are not supported by the stand-in") } }
            Some(b)
        }
    }
    fn n(&self, k: usize) -> usize { unsafe { *self.0.shape.add(k) as usize } }
    fn s(&self, k: usize) -> usize { unsafe { *self.0.strides.add(k) as usize / 8 } }
}
impl Check for PyArray1<f64> { fn check(o: &Bound<'_, PyAny>) -> bool { Buf::get(o, 1).is_some() } }
impl Check for PyArray2<f64> { fn check(o: &Bound<'_, PyAny>) -> bool { Buf::get(o, 2).is_some() } }
pub struct PyReadonlyArray1<'py, T>(Buf, PhantomData<(&'py (), T)>);
pub struct PyReadonlyArray2<'py, T>(Buf, PhantomData<(&'py (), T)>);
#[derive(Debug)] pub struct NotContiguousError;
impl<'py> FromPyObject<'py> for PyReadonlyArray1<'py, f64> { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<Self> { Buf::get(o, 1).map(|b| PyReadonlyArray1(b, PhantomData)).ok_or(PyErr("TypeError: expected a 1d array of f64".into())) } }
impl<'py> FromPyObject<'py> for PyReadonlyArray2<'py, f64> { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<Self> { Buf::get(o, 2).map(|b| PyReadonlyArray2(b, PhantomData)).ok_or(PyErr("TypeError: expected a 2d array of f64".into())) } }
impl PyReadonlyArray1<'_, f64> { pub fn as_slice(&self) -> Result<&[f64], NotContiguousError> { if self.0.n(0) > 1 && self.0.s(0) != 1 { return Err(NotContiguousError); } Ok(unsafe { std::slice::from_raw_parts(self.0 .0.buf as *const f64, self.0.n(0)) }) } }
impl PyReadonlyArray2<'_, f64> { pub fn as_array(&self) -> ArrayView2<'_, f64> { ArrayView2 { p: self.0 .0.buf as *const f64, nr: self.0.n(0), nc: self.0.n(1), rs: self.0.s(0), cs: self.0.s(1), l: PhantomData } } }
fn flat<'py>(py: Python<'py>, d: &[f64]) -> PyObject {
    let b: PyObject = unsafe { Py::own(PyBytes_FromStringAndSize(d.as_ptr() as *const c_char, (d.len() * 8) as isize)).unwrap() };
    if d.is_empty() { return numpy().call_method(py, "zeros", (0usize,), None).unwrap(); }
    numpy().call_method(py, "frombuffer", (b, "f8"), None).unwrap().call_method(py, "copy", (), None).unwrap()
}
pub trait IntoPyArray { type Out; fn into_pyarray<'py>(self, py: Python<'py>) -> Bound<'py, Self::Out>; }
impl IntoPyArray for Vec<f64> { type Out = PyArray1<f64>; fn into_pyarray<'py>(self, py: Python<'py>) -> Bound<'py, PyArray1<f64>> { flat(py, &self).cast().into_bound(py) } }
impl IntoPyArray for Array2<f64> { type Out = PyArray2<f64>; fn into_pyarray<'py>(self, py: Python<'py>) -> Bound<'py, PyArray2<f64>> {
    let a = flat(py, &self.d);
    let a = if self.f { a.call_method(py, "reshape", (self.nc, self.nr), None).unwrap().getattr(py, "T").unwrap() } else { a.call_method(py, "reshape", (self.nr, self.nc), None).unwrap() };
    a.cast().into_bound(py)
} }
