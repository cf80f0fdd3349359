//! C interface to the Python bindings; compiled inside their module
pub mod entry {
    use super::*;
    use pyo3::{ffi::*, types::*, Py, Raw};
    use std::panic::{catch_unwind, AssertUnwindSafe};
    /// a panic becomes a Python exception, as with pyo3
    fn guard(f: impl for<'py> FnOnce(Python<'py>) -> PyResult<Raw>) -> Raw {
        let m = match catch_unwind(AssertUnwindSafe(|| Python::with_gil(f))) {
            Ok(Ok(p)) => return p,
            Ok(Err(e)) => e.0,
            Err(e) => format!("PanicException: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        };
        let m = std::ffi::CString::new(m.replace('\0', " ")).unwrap();
        unsafe { if PyErr_Occurred().is_null() { PyErr_SetString(PyExc_RuntimeError, m.as_ptr()); } }
        std::ptr::null_mut()
    }
    /// the functions may return a value or a result
    trait Res<T> { fn res(self) -> PyResult<T>; }
    impl<T> Res<T> for T { fn res(self) -> PyResult<T> { Ok(self) } }
    impl<T> Res<T> for Result<T, PyErr> { fn res(self) -> PyResult<T> { self } }
    unsafe fn arr<'py>(py: Python<'py>, o: Raw) -> PyResult<PyReadonlyArray2<'py, f64>> { Py::<pyo3::PyAny>::borrow_raw(o).extract(py) }
    fn list<'py>(py: Python<'py>, v: Vec<PyObject>) -> PyResult<Raw> { Ok(PyList::new(py, v)?.unbind().leak()) }
    #[no_mangle] pub extern "C" fn b_names() -> Raw { guard(|py| {
        NAMES.with(|n| n.borrow_mut().clear());
        let m: Bound<'_, PyModule> = unsafe { Py::borrow_raw(PyDict::new(py).raw()).into_bound(py) };
        ormatex(py, &m)?;
        let v: Vec<String> = NAMES.with(|n| n.borrow().clone());
        Ok(PyList::new(py, v.iter().map(|s| s.as_str()).collect::<Vec<_>>())?.unbind().leak())
    }) }
    #[no_mangle] pub unsafe extern "C" fn b_integrate(sys: Raw, y0: Raw, t0: f64, dt: f64, n: usize, kw: Raw) -> Raw { guard(|py| {
        let s = PySysWrapped::new(Py::borrow_raw(sys));
        let k: Bound<'_, PyDict> = Py::borrow_raw(kw).into_bound(py);
        let (y, t): (Bound<'_, PyList>, Bound<'_, PyList>) = integrate_wrapper_rs(py, &s, arr(py, y0)?, t0, dt, n, Some(k)).res()?;
        list(py, vec![y.unbind().cast(), t.unbind().cast()])
    }) }
    #[no_mangle] pub unsafe extern "C" fn b_phi(a: Raw, k: usize) -> Raw { guard(|py| { let r: Bound<'_, PyArray2<f64>> = phi_k_rs(py, arr(py, a)?, k).res()?; Ok(r.unbind().leak()) }) }
    #[no_mangle] pub unsafe extern "C" fn b_arnoldi(op: Raw, s: f64, b: Raw, m: usize, iom: usize) -> Raw { guard(|py| {
        let (q, h, n): (Bound<'_, PyArray2<f64>>, Bound<'_, PyArray2<f64>>, usize) = arnoldi_rs(py, Py::borrow_raw(op), s, arr(py, b)?, m, iom).res()?;
        let n: PyObject = Py::own(PyLong_FromSize_t(n))?;
        list(py, vec![q.unbind().cast(), h.unbind().cast(), n])
    }) }
    #[no_mangle] pub unsafe extern "C" fn b_eval_new(m: *const u8, len: usize, order: usize) -> *mut DensePhikvEvalRs {
        let m = String::from_utf8_lossy(std::slice::from_raw_parts(m, len)).into_owned();
        catch_unwind(|| { let r: PyResult<DensePhikvEvalRs> = DensePhikvEvalRs::new(m, order).res(); Box::into_raw(Box::new(r.unwrap())) }).unwrap_or(std::ptr::null_mut())
    }
    #[no_mangle] pub unsafe extern "C" fn b_eval_free(e: *mut DensePhikvEvalRs) { drop(Box::from_raw(e)) }
    #[no_mangle] pub unsafe extern "C" fn b_eval(e: *const DensePhikvEvalRs, a: Raw, dt: f64, v: Raw, k: usize) -> Raw { guard(|py| { let r: Py<PyArray2<f64>> = (*e).eval(py, arr(py, a)?, dt, arr(py, v)?, k).res()?; Ok(r.leak()) }) }
    #[no_mangle] pub extern "C" fn b_quiet() { std::panic::set_hook(Box::new(|_| {})); }
}
