//! stand-in for pyo3 on top of the C interface of the running interpreter
use std::{cell::RefCell, collections::HashMap, ffi::{c_char, c_int, c_void, CString}, fmt, marker::PhantomData};
pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule};
pub type Raw = *mut c_void;
pub mod ffi {
    use super::*;
    extern "C" {
        pub fn Py_IncRef(o: Raw); pub fn Py_DecRef(o: Raw);
        pub fn PyObject_GetAttrString(o: Raw, n: *const c_char) -> Raw;
        pub fn PyObject_Call(f: Raw, a: Raw, k: Raw) -> Raw;
        pub fn PyTuple_New(n: isize) -> Raw; pub fn PyTuple_SetItem(t: Raw, i: isize, o: Raw) -> c_int;
        pub fn PyList_New(n: isize) -> Raw; pub fn PyList_SetItem(t: Raw, i: isize, o: Raw) -> c_int;
        pub fn PyDict_New() -> Raw; pub fn PyDict_Next(d: Raw, p: *mut isize, k: *mut Raw, v: *mut Raw) -> c_int;
        pub fn PyFloat_FromDouble(x: f64) -> Raw; pub fn PyFloat_AsDouble(o: Raw) -> f64;
        pub fn PyLong_FromSize_t(x: usize) -> Raw; pub fn PyLong_AsSize_t(o: Raw) -> usize; pub fn PyNumber_Index(o: Raw) -> Raw;
        pub fn PyUnicode_FromStringAndSize(p: *const c_char, n: isize) -> Raw; pub fn PyUnicode_AsUTF8AndSize(o: Raw, n: *mut isize) -> *const c_char;
        pub fn PyBytes_FromStringAndSize(p: *const c_char, n: isize) -> Raw;
        pub fn PyErr_Occurred() -> Raw; pub fn PyErr_Clear(); pub fn PyErr_Print(); pub fn PyErr_SetString(t: Raw, m: *const c_char);
        pub fn PyErr_Fetch(a: *mut Raw, b: *mut Raw, c: *mut Raw); pub fn PyObject_Str(o: Raw) -> Raw;
        pub fn PyImport_ImportModule(n: *const c_char) -> Raw; pub fn PyObject_IsInstance(o: Raw, c: Raw) -> c_int;
        pub fn PyObject_GetBuffer(o: Raw, b: *mut PyBuffer, flags: c_int) -> c_int; pub fn PyBuffer_Release(b: *mut PyBuffer);
        pub static PyExc_RuntimeError: Raw; pub static PyExc_TypeError: Raw;
    }
    #[repr(C)] pub struct PyBuffer { pub buf: *mut c_void, pub obj: Raw, pub len: isize, pub itemsize: isize, pub readonly: c_int, pub ndim: c_int,
        pub format: *mut c_char, pub shape: *mut isize, pub strides: *mut isize, pub sub: *mut isize, pub internal: *mut c_void }
}
use ffi::*;
pub struct PyErr(pub String);
impl fmt::Debug for PyErr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "PyErr {}", self.0) } }
pub type PyResult<T> = Result<T, PyErr>;
/// the pending Python exception as an error value
pub fn taken() -> PyErr {
    unsafe {
        let (mut a, mut b, mut c) = (std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut());
        PyErr_Fetch(&mut a, &mut b, &mut c);
        if a.is_null() { return PyErr("error without exception".into()); }
        let mut s = String::new();
        for o in [a, b] { if !o.is_null() { let t = PyObject_Str(o); if t.is_null() { PyErr_Clear(); continue; } let mut n = 0; let p = PyUnicode_AsUTF8AndSize(t, &mut n); if !p.is_null() { s += &String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n as usize)); s += " "; } Py_DecRef(t); } }
        for o in [a, b, c] { if !o.is_null() { Py_DecRef(o); } }
        PyErr(s)
    }
}
#[derive(Clone, Copy)] pub struct Python<'py>(PhantomData<&'py ()>);
impl<'py> Python<'py> {
    /// the caller holds the lock of the interpreter (the library is loaded by ctypes.PyDLL)
    pub fn with_gil<R>(f: impl for<'a> FnOnce(Python<'a>) -> R) -> R { f(Python(PhantomData)) }
}
pub struct PyAny;
#[repr(transparent)] pub struct Py<T> { p: Raw, t: PhantomData<T> }
pub type PyObject = Py<PyAny>;
unsafe impl<T> Send for Py<T> {} unsafe impl<T> Sync for Py<T> {}
#[repr(transparent)] pub struct Bound<'py, T> { o: Py<T>, l: PhantomData<&'py ()> }
impl<T> Drop for Py<T> { fn drop(&mut self) { unsafe { Py_DecRef(self.p) } } }
impl<T> Clone for Py<T> { fn clone(&self) -> Self { unsafe { Py_IncRef(self.p) }; Py { p: self.p, t: PhantomData } } }
impl<T> Clone for Bound<'_, T> { fn clone(&self) -> Self { Bound { o: self.o.clone(), l: PhantomData } } }
impl<T> fmt::Debug for Py<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Py({:?})", self.p) } }
impl<T> From<Bound<'_, T>> for Py<T> { fn from(b: Bound<'_, T>) -> Self { b.o.clone() } }
impl<T> Py<T> {
    pub unsafe fn own(p: Raw) -> PyResult<Self> { if p.is_null() { Err(taken()) } else { Ok(Py { p, t: PhantomData }) } }
    pub unsafe fn borrow_raw(p: Raw) -> Self { Py_IncRef(p); Py { p, t: PhantomData } }
    pub fn raw(&self) -> Raw { self.p }
    pub fn leak(self) -> Raw { let p = self.p; std::mem::forget(self); p }
    pub fn cast<U>(self) -> Py<U> { Py { p: self.leak(), t: PhantomData } }
    pub fn getattr<'py>(&self, _py: Python<'py>, name: &str) -> PyResult<PyObject> { let n = CString::new(name).unwrap(); unsafe { Py::own(PyObject_GetAttrString(self.p, n.as_ptr())) } }
    pub fn call<'py, A: ToArgs>(&self, _py: Python<'py>, args: A, kw: Option<&Bound<'py, types::PyDict>>) -> PyResult<PyObject> {
        let a = args.objs();
        unsafe {
            let t: PyObject = Py::own(PyTuple_New(a.len() as isize))?;
            for (i, o) in a.into_iter().enumerate() { PyTuple_SetItem(t.p, i as isize, o.leak()); }
            Py::own(PyObject_Call(self.p, t.p, kw.map_or(std::ptr::null_mut(), |k| k.o.p)))
        }
    }
    pub fn call_method<'py, A: ToArgs>(&self, py: Python<'py>, name: &str, args: A, kw: Option<&Bound<'py, types::PyDict>>) -> PyResult<PyObject> { self.getattr(py, name)?.call(py, args, kw) }
    pub fn call_method1<'py, A: ToArgs>(&self, py: Python<'py>, name: &str, args: A) -> PyResult<PyObject> { self.call_method(py, name, args, None) }
    pub fn bind<'a, 'py>(&'a self, _py: Python<'py>) -> &'a Bound<'py, T> { unsafe { std::mem::transmute(self) } }
    pub fn into_bound<'py>(self, _py: Python<'py>) -> Bound<'py, T> { Bound { o: self, l: PhantomData } }
    pub fn clone_ref(&self, _py: Python<'_>) -> Self { self.clone() }
    pub fn extract<'py, D: FromPyObject<'py>>(&self, py: Python<'py>) -> PyResult<D> { self.bind(py).extract() }
    pub fn downcast_bound<'a, 'py, U: Check>(&'a self, py: Python<'py>) -> PyResult<&'a Bound<'py, U>> {
        if U::check(self.bind(py).as_any()) { Ok(unsafe { std::mem::transmute(self) }) } else { Err(PyErr("DowncastError".into())) }
    }
}
impl<'py, T> Bound<'py, T> {
    pub fn as_any(&self) -> &Bound<'py, PyAny> { unsafe { std::mem::transmute(self) } }
    pub fn raw(&self) -> Raw { self.o.p }
    pub fn py(&self) -> Python<'py> { Python(PhantomData) }
    pub fn unbind(self) -> Py<T> { self.o }
    pub fn extract<D: FromPyObject<'py>>(&self) -> PyResult<D> { D::extract_bound(self.as_any()) }
    pub fn downcast<U: Check>(&self) -> PyResult<&Bound<'py, U>> { if U::check(self.as_any()) { Ok(unsafe { std::mem::transmute(self) }) } else { Err(PyErr("DowncastError".into())) } }
}
pub trait Check { fn check(o: &Bound<'_, PyAny>) -> bool; }
pub trait FromPyObject<'py>: Sized { fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<Self>; }
impl FromPyObject<'_> for f64 { fn extract_bound(o: &Bound<'_, PyAny>) -> PyResult<Self> { unsafe { let x = PyFloat_AsDouble(o.raw()); if x == -1.0 && !PyErr_Occurred().is_null() { Err(taken()) } else { Ok(x) } } } }
impl FromPyObject<'_> for usize { fn extract_bound(o: &Bound<'_, PyAny>) -> PyResult<Self> { unsafe { let i: PyObject = Py::own(PyNumber_Index(o.raw()))?; let x = PyLong_AsSize_t(i.raw()); if !PyErr_Occurred().is_null() { Err(taken()) } else { Ok(x) } } } }
impl FromPyObject<'_> for String { fn extract_bound(o: &Bound<'_, PyAny>) -> PyResult<Self> { unsafe { let mut n = 0; let p = PyUnicode_AsUTF8AndSize(o.raw(), &mut n); if p.is_null() { return Err(taken()); } Ok(String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n as usize)).into_owned()) } } }
impl FromPyObject<'_> for bool { fn extract_bound(o: &Bound<'_, PyAny>) -> PyResult<Self> { usize::extract_bound(o).map(|x| x != 0) } }
impl FromPyObject<'_> for PyObject { fn extract_bound(o: &Bound<'_, PyAny>) -> PyResult<Self> { Ok(o.o.clone()) } }
impl<'py, V: FromPyObject<'py>> FromPyObject<'py> for HashMap<String, V> {
    fn extract_bound(o: &Bound<'py, PyAny>) -> PyResult<Self> {
        let (mut h, mut pos, mut k, mut v) = (HashMap::new(), 0isize, std::ptr::null_mut(), std::ptr::null_mut());
        unsafe { while PyDict_Next(o.raw(), &mut pos, &mut k, &mut v) != 0 {
            let (k, v): (PyObject, PyObject) = (Py::borrow_raw(k), Py::borrow_raw(v));
            h.insert(k.bind(o.py()).extract()?, v.bind(o.py()).extract()?);
        } }
        Ok(h)
    }
}
pub trait ToPy { fn to_py(self) -> PyObject; }
impl ToPy for f64 { fn to_py(self) -> PyObject { unsafe { Py::own(PyFloat_FromDouble(self)).unwrap() } } }
impl ToPy for usize { fn to_py(self) -> PyObject { unsafe { Py::own(PyLong_FromSize_t(self)).unwrap() } } }
impl ToPy for &str { fn to_py(self) -> PyObject { unsafe { Py::own(PyUnicode_FromStringAndSize(self.as_ptr() as *const c_char, self.len() as isize)).unwrap() } } }
impl<T> ToPy for Py<T> { fn to_py(self) -> PyObject { self.cast() } }
impl<T> ToPy for Bound<'_, T> { fn to_py(self) -> PyObject { self.unbind().cast() } }
impl<T> ToPy for &Py<T> { fn to_py(self) -> PyObject { self.clone().cast() } }
pub trait ToArgs { fn objs(self) -> Vec<PyObject>; }
impl ToArgs for () { fn objs(self) -> Vec<PyObject> { vec![] } }
impl<A: ToPy> ToArgs for (A,) { fn objs(self) -> Vec<PyObject> { vec![self.0.to_py()] } }
impl<A: ToPy, B: ToPy> ToArgs for (A, B) { fn objs(self) -> Vec<PyObject> { vec![self.0.to_py(), self.1.to_py()] } }
impl<A: ToPy, B: ToPy, C: ToPy> ToArgs for (A, B, C) { fn objs(self) -> Vec<PyObject> { vec![self.0.to_py(), self.1.to_py(), self.2.to_py()] } }
pub trait PyClassName { const NAME: &'static str; }
pub mod types {
    use super::*;
    pub struct PyDict; pub struct PyList;
    impl PyDict { pub fn new<'py>(py: Python<'py>) -> Bound<'py, PyDict> { unsafe { Py::own(PyDict_New()).unwrap().into_bound(py) } } }
    impl PyList { pub fn new<'py, T: ToPy>(py: Python<'py>, v: impl IntoIterator<Item = T>) -> PyResult<Bound<'py, PyList>> {
        let v: Vec<_> = v.into_iter().map(|x| x.to_py()).collect();
        unsafe { let l: Py<PyList> = Py::own(PyList_New(v.len() as isize))?; for (i, x) in v.into_iter().enumerate() { PyList_SetItem(l.raw(), i as isize, x.leak()); } Ok(l.into_bound(py)) }
    } }
    /// only records what is registered
    pub struct PyModule;
    thread_local!(pub static NAMES: RefCell<Vec<String>> = RefCell::new(vec![]));
    impl<'py> Bound<'py, PyModule> {
        pub fn add_class<T: PyClassName>(&self) -> PyResult<()> { NAMES.with(|n| n.borrow_mut().push(T::NAME.into())); Ok(()) }
        pub fn add_function(&self, f: &'static str) -> PyResult<()> { NAMES.with(|n| n.borrow_mut().push(f.into())); Ok(()) }
    }
}
#[macro_export] macro_rules! wrap_pyfunction { ($f:ident, $m:expr) => {{ let _ = $m; Ok::<&'static str, $crate::PyErr>(stringify!($f)) }} }
pub mod prelude { pub use super::{pyclass, pyfunction, pymethods, pymodule, types::PyModule, wrap_pyfunction, Bound, FromPyObject, Py, PyAny, PyErr, PyObject, PyResult, Python}; }
