//! C interface to the Rust part of ormatex; the modules are those of the repository, REPO is replaced when this file is built
#![allow(warnings)]
MODULES
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::collections::HashMap;
use std::cell::RefCell;
use faer::prelude::*;
use faer::matrix_free::LinOp;
use ode_sys::*;

unsafe fn inp(p: *const f64, r: usize, c: usize) -> Mat<f64> { Mat::from_fn(r, c, |i, j| *p.add(i * c + j)) }
unsafe fn outp(p: *mut f64, m: MatRef<f64>) { for i in 0..m.nrows() { for j in 0..m.ncols() { *p.add(i * m.ncols() + j) = m[(i, j)]; } } }
fn guard(f: impl FnOnce() -> i64) -> i64 { catch_unwind(AssertUnwindSafe(f)).unwrap_or(-1) }
#[no_mangle] pub extern "C" fn r_quiet() { std::panic::set_hook(Box::new(|_| {})); }

fn evaluator(kind: u32, order: usize) -> Box<dyn matexp_pade::DensePhikvEvaluator> {
    match kind {
        0 => Box::new(matexp_pade::PadeExpm::new(order)),
        1 => Box::new(matexp_cauchy::gen_cram_expm(order)),
        _ => Box::new(matexp_cauchy::gen_parabolic_expm(order)),
    }
}

// ------------------------------------------------------------ dense functions
/// what: 0 matexp(a, dt), 1 phi(a, k), 2 phi_ext(a, k), 3/4 exp / phi_k by the CRAM poles, 5/6 by the parabolic contour
#[no_mangle] pub unsafe extern "C" fn r_dense(what: u32, order: usize, n: usize, a: *const f64, dt: f64, k: usize, out: *mut f64) -> i64 {
    guard(|| {
        let a = inp(a, n, n);
        let m = match what {
            0 => matexp_pade::matexp(a.as_ref(), dt),
            1 => matexp_pade::phi(a.as_ref(), k),
            2 => matexp_pade::phi_ext(a.as_ref(), k),
            3 => matexp_cauchy::gen_cram_expm(order).matexp_dense_cauchy(a.as_ref(), dt),
            4 => matexp_cauchy::gen_cram_expm(order).phik_dense_cauchy(a.as_ref(), dt, k),
            5 => matexp_cauchy::gen_parabolic_expm(order).matexp_dense_cauchy(a.as_ref(), dt),
            _ => matexp_cauchy::gen_parabolic_expm(order).phik_dense_cauchy(a.as_ref(), dt, k),
        };
        outp(out, m.as_ref());
        (m.nrows() * 1000 + m.ncols()) as i64
    })
}
/// action on m vectors; kind 0 Pade, 1 CRAM, 2 parabolic, 11/12 exp only
#[no_mangle] pub unsafe extern "C" fn r_action(kind: u32, order: usize, n: usize, a: *const f64, dt: f64, m: usize, v: *const f64, k: usize, out: *mut f64) -> i64 {
    guard(|| {
        let (a, v) = (inp(a, n, n), inp(v, n, m));
        let r = match kind {
            11 => matexp_cauchy::gen_cram_expm(order).matexp_dense_apply_cauchy(a.as_ref(), dt, v.as_ref()),
            12 => matexp_cauchy::gen_parabolic_expm(order).matexp_dense_apply_cauchy(a.as_ref(), dt, v.as_ref()),
            _ => evaluator(kind, order).phik_apply(a.as_ref(), dt, v.as_ref(), k),
        };
        outp(out, r.as_ref());
        (r.nrows() * 1000 + r.ncols()) as i64
    })
}
// ------------------------------------------------------------ Krylov
/// how: 0 dense operator, 1 sparse operator, 2 mat_utils::arnoldi, 3 mat_utils::arnoldi_lo; returns the dimension
#[no_mangle] pub unsafe extern "C" fn r_arnoldi(how: u32, n: usize, a: *const f64, scale: f64, b: *const f64, m: usize, iom: usize, q: *mut f64, h: *mut f64) -> i64 {
    guard(|| {
        let (a, b) = (inp(a, n, n), inp(b, n, 1));
        let sp = mat_utils::dense_to_sprs(a.as_ref());
        let (qm, hm, dim) = match how {
            0 => arnoldi::arnoldi_lop(&a, scale, b.as_ref(), m, iom),
            1 => arnoldi::arnoldi_lop(&sp, scale, b.as_ref(), m, iom),
            2 => { let (q, h) = mat_utils::arnoldi(sp.as_ref(), b.as_ref(), m); let d = q.ncols(); (q, h.to_dense(), d) },
            _ => { let (q, h, _bk) = mat_utils::arnoldi_lo(&mat_utils::MatrixLinOp::MatLop(sp.as_ref()), 0., scale, b.as_ref(), m); let d = q.ncols(); (q, h.to_dense(), d) },
        };
        if qm.ncols() != dim || hm.nrows() != dim || hm.ncols() != dim || qm.nrows() != n { return -2 }
        outp(q, qm.as_ref());
        outp(h, hm.as_ref());
        dim as i64
    })
}
/// how: 0 apply_linop, 1 apply_phi_linop, 2 apply_phi_linop_3 (three results)
#[no_mangle] pub unsafe extern "C" fn r_krylov(how: u32, kind: u32, order: usize, m: usize, iom: i64, n: usize, a: *const f64, dt: f64, v: *const f64, k: usize, out: *mut f64) -> i64 {
    guard(|| {
        let (a, v) = (inp(a, n, n), inp(v, n, 1));
        let e = matexp_krylov::KrylovExpm::new(evaluator(kind, order), m, if iom < 0 { None } else { Some(iom as usize) });
        match how {
            0 => outp(out, e.apply_linop(&a, dt, v.as_ref()).as_ref()),
            1 => outp(out, e.apply_phi_linop(&a, dt, v.as_ref(), k).as_ref()),
            _ => {
                let (x, y, z) = e.apply_phi_linop_3(&a, dt, v.as_ref(), k);
                outp(out, x.as_ref()); outp(out.add(n), y.as_ref()); outp(out.add(2 * n), z.as_ref());
            }
        }
        0
    })
}
/// vectors: p+1 rows of length n; mode 0: combination, 1: the extended operator applied to the vector v of length n + p
#[no_mangle] pub unsafe extern "C" fn r_comb(mode: u32, kind: u32, order: usize, m: usize, iom: usize, n: usize, a: *const f64, dt: f64, p: usize, vb: *const f64, v: *const f64, out: *mut f64) -> i64 {
    guard(|| {
        let a = inp(a, n, n);
        let vs: Vec<Mat<f64>> = (0..=p).map(|i| inp(vb.add(i * n), n, 1)).collect();
        let rs: Vec<MatRef<f64>> = vs.iter().map(|x| x.as_ref()).collect();
        let ext = ExtendedLinOp::new(dt, Box::new(a), &rs);
        if mode == 1 {
            let r = apply_dyn(&ext, inp(v, n + p, 1));
            outp(out, r.as_ref());
            return 0
        }
        let e = matexp_krylov::KrylovExpm::new(evaluator(kind, order), m, Some(iom));
        outp(out, e.kiops_fixedsteps(&ext, 1.0, &rs).as_ref());
        0
    })
}
fn apply_dyn(l: &dyn LinOp<f64>, x: Mat<f64>) -> Mat<f64> {
    let mut o = Mat::zeros(x.nrows(), x.ncols());
    l.apply(o.as_mut(), x.as_ref(), faer::get_global_parallelism(), faer::dyn_stack::MemStack::new(&mut faer::dyn_stack::MemBuffer::new(faer::dyn_stack::StackReq::empty())));
    o
}

// ------------------------------------------------------------ systems and integrators
type Rhs = extern "C" fn(usize, f64, *const f64, *mut f64);
/// a system given by callbacks; jac fills the dense Jacobian
struct CbSys { id: usize, n: usize, fd: bool, rhs: Rhs, jac: Rhs }
impl<'a> OdeSys<'a> for CbSys {
    fn frhs(&self, t: f64, x: MatRef<f64>) -> Mat<f64> {
        let xs: Vec<f64> = (0..self.n).map(|i| x[(i, 0)]).collect();
        let mut o = vec![0.; self.n];
        (self.rhs)(self.id, t, xs.as_ptr(), o.as_mut_ptr());
        Mat::from_fn(self.n, 1, |i, _| o[i])
    }
    fn fjac<'b>(&'a self, t: f64, x: MatRef<'b, f64>) -> Box<dyn LinOp<f64> + 'a> {
        if self.fd { return Box::new(get_fd_jac(self, t, x)) }
        let xs: Vec<f64> = (0..self.n).map(|i| x[(i, 0)]).collect();
        let mut o = vec![0.; self.n * self.n];
        (self.jac)(self.id, t, xs.as_ptr(), o.as_mut_ptr());
        let n = self.n;
        Box::new(Mat::from_fn(n, n, |i, j| o[i * n + j]))
    }
}
struct Slot { it: Box<dyn IntegrateSys<'static, TimeType = f64, SysStateType = Mat<f64>>>, pend: Vec<StepResult<f64, Mat<f64>>>, n: usize }
thread_local!(static T: RefCell<HashMap<i64, Slot>> = RefCell::new(HashMap::new()); static N: RefCell<i64> = RefCell::new(0));

/// family 0 rk (order), 1 bdf (order 1, 2, 3=cn), 2.. exponential (2 epi2, 3 epi3, 4 exprb2, 5 exprb3)
#[no_mangle] pub unsafe extern "C" fn r_new(family: u32, order: usize, kind: u32, m: usize, iom: usize, tol_fdt: f64, sid: usize, n: usize, fd: u32, rhs: Rhs, jac: Rhs, t0: f64, y0: *const f64) -> i64 {
    guard(|| {
        let sys: &'static CbSys = Box::leak(Box::new(CbSys { id: sid, n, fd: fd != 0, rhs, jac }));
        let y0 = inp(y0, n, 1);
        let it: Box<dyn IntegrateSys<'static, TimeType = f64, SysStateType = Mat<f64>>> = match family {
            0 => Box::new(ode_rk::RkIntegrator::new(t0, y0.as_ref(), order, sys)),
            1 => Box::new(ode_bdf::BdfIntegrator::new(t0, y0.as_ref(), order, sys)),
            _ => {
                let e = matexp_krylov::KrylovExpm::new(evaluator(kind, order), m, Some(iom));
                let name = ["epi2", "epi3", "exprb2", "exprb3"][family as usize - 2];
                Box::new(ode_epirk::EpirkIntegrator::new(t0, y0.as_ref(), name.to_string(), sys, e).with_opt("tol_fdt".to_string(), tol_fdt))
            }
        };
        let h = N.with(|c| { *c.borrow_mut() += 1; *c.borrow() });
        T.with(|t| t.borrow_mut().insert(h, Slot { it, pend: vec![], n }));
        h
    })
}
fn with<R>(h: i64, f: impl FnOnce(&mut Slot) -> R) -> R {
    // the slot leaves the table while it is used: callbacks may use other integrators
    let mut s = T.with(|t| t.borrow_mut().remove(&h)).unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut s)));
    T.with(|t| t.borrow_mut().insert(h, s));
    match r { Ok(r) => r, Err(e) => std::panic::resume_unwind(e) }
}
/// returns the number of the pending result, -1 after a panic, -2 after an error; info: t, dt, err (NaN if none)
#[no_mangle] pub unsafe extern "C" fn r_step(h: i64, dt: f64, info: *mut f64, y: *mut f64) -> i64 {
    guard(|| with(h, |s| match s.it.step(dt) {
        Ok(r) => {
            *info = r.t; *info.add(1) = r.dt; *info.add(2) = r.err.unwrap_or(f64::NAN);
            outp(y, r.y.as_ref());
            s.pend.push(r);
            s.pend.len() as i64 - 1
        }
        Err(_) => -2,
    }))
}
#[no_mangle] pub unsafe extern "C" fn r_accept(h: i64, i: usize) -> i64 { guard(|| with(h, |s| { let r = s.pend[i].clone(); s.it.accept_step(r); 0 })) }
#[no_mangle] pub unsafe extern "C" fn r_reset(h: i64, t0: f64, y0: *const f64) -> i64 { guard(|| with(h, |s| { let y = inp(y0, s.n, 1); s.it.reset_ic(t0, y); 0 })) }
#[no_mangle] pub unsafe extern "C" fn r_state(h: i64, t: *mut f64, y: *mut f64) -> i64 { guard(|| with(h, |s| { *t = s.it.time(); let m = s.it.state(); outp(y, m.as_ref()); m.nrows() as i64 })) }
#[no_mangle] pub extern "C" fn r_drop(h: i64) { T.with(|t| { t.borrow_mut().remove(&h); }) }

// ------------------------------------------------------------ operators
/// what: 0 finite difference Jacobian with (scale, gamma), 1 shifted operator around the exact one, 2 shifted around the finite difference one
#[no_mangle] pub unsafe extern "C" fn r_jacop(what: u32, sid: usize, n: usize, rhs: Rhs, jac: Rhs, t: f64, x: *const f64, scale: f64, gamma: f64, has_gamma: u32, v: *const f64, out: *mut f64) -> i64 {
    guard(|| {
        let sys = CbSys { id: sid, n, fd: what == 2, rhs, jac };
        let (x, v) = (inp(x, n, 1), inp(v, n, 1));
        let g = if has_gamma != 0 { Some(gamma) } else { None };
        let r = if what == 0 { apply_dyn(&FdJacLinOp::new(t, x, &sys, scale, g), v) }
            else if what == 3 {
                let mut l = FdJacLinOp::new(t + 1., Mat::from_fn(n, 1, |i, _| i as f64 - 0.3), &sys, 3.0, Some(7.0));
                let _ = apply_dyn(&l, v.clone());
                l.set_op_x(t, x);
                l.set_scale(scale, g);
                apply_dyn(&l, v)
            } else { apply_dyn(&sys.fjac_shifted(t, x.as_ref(), scale, g), v) };
        outp(out, r.as_ref());
        0
    })
}
/// Newton iteration for rhs(t, x) = 0 from x0; which 0 jac_newton_sys, 1 jac_newton
#[no_mangle] pub unsafe extern "C" fn r_newton(which: u32, sid: usize, n: usize, fd: u32, rhs: Rhs, jac: Rhs, t: f64, x0: *const f64, tol: f64, tol_lin: f64, iters: usize, out: *mut f64) -> i64 {
    guard(|| {
        let sys: &'static CbSys = Box::leak(Box::new(CbSys { id: sid, n, fd: fd != 0, rhs, jac }));
        let x0: &'static Mat<f64> = Box::leak(Box::new(inp(x0, n, 1)));
        let r = if which == 0 { newton::jac_newton_sys(t, 1.0, 0.0, x0.as_ref(), sys, tol, tol_lin, iters, 1000) }
            else {
                let f = |t: f64, x: MatRef<f64>| sys.frhs(t, x);
                let j = |t: f64, x: MatRef<f64>| sys.fjac_shifted(t, x, 1.0, None);
                newton::jac_newton(t, x0.as_ref(), &f, &j, tol, tol_lin, iters, 1000)
            };
        match r { Ok(x) => { outp(out, x.as_ref()); 0 } Err(_) => -2 }
    })
}

/// a history of products of one operator of mat_utils: count times (t, x, w)
#[no_mangle] pub unsafe extern "C" fn r_rhsop(sid: usize, n: usize, rhs: Rhs, jac: Rhs, count: usize, ts: *const f64, xs: *const f64, ws: *const f64, scale: f64, out: *mut f64) -> i64 {
    guard(|| {
        use mat_utils::LinOp;
        let sys = CbSys { id: sid, n, fd: true, rhs, jac };
        let f = |t: f64, x: MatRef<f64>| sys.frhs(t, x);
        let op = mat_utils::JacobianRhsLinOp::new(&f, n);
        for i in 0..count {
            let r = op.apply_linop_to_vec(*ts.add(i), inp(xs.add(i * n), n, 1).as_ref(), inp(ws.add(i * n), n, 1).as_ref(), if scale == 1.0 { None } else { Some(scale) });
            outp(out.add(i * n), r.as_ref());
        }
        0
    })
}
