//! stand-in for faer_gmres: full GMRES with modified Gram-Schmidt and Givens rotations
use faer::prelude::*;
use faer::matrix_free::LinOp;
use faer::dyn_stack::*;

#[derive(Debug)]
pub struct GmresError { pub cur_iter: usize, pub error: f64, pub tolerance: f64 }

fn ap<L: LinOp<f64>>(a: &L, x: &Mat<f64>) -> Mat<f64> {
    let mut o = Mat::zeros(x.nrows(), 1);
    a.apply(o.as_mut(), x.as_ref(), faer::get_global_parallelism(), MemStack::new(&mut MemBuffer::new(StackReq::empty())));
    o
}

/// solves A x = b, starting from x
pub fn gmres<L: LinOp<f64>>(a: L, b: MatRef<f64>, mut x: MatMut<f64>, max_iter: usize, tol: f64, _m: Option<&dyn LinOp<f64>>)
    -> Result<(f64, usize), GmresError>
{
    let n = b.nrows();
    let nb = b.norm_l2();
    if nb == 0. {
        x.copy_from(Mat::<f64>::zeros(n, 1));
        return Ok((0., 0))
    }
    let x0 = x.rb().to_owned();
    let r = b - ap(&a, &x0);
    let beta = r.norm_l2();
    if beta / nb <= tol { return Ok((beta / nb, 0)) }
    let m = max_iter.min(n + 2);
    let mut q = vec![r * Scale(1. / beta)];
    let mut h: Vec<Vec<f64>> = vec![];
    let mut rot: Vec<(f64, f64)> = vec![];
    let mut g = vec![beta];
    let mut err = beta / nb;
    for k in 0..m {
        let mut w = ap(&a, &q[k]);
        let mut c = vec![0.; k + 2];
        for _twice in 0..2 {
            for i in 0..=k {
                let d: f64 = (0..n).map(|j| w[(j, 0)] * q[i][(j, 0)]).sum();
                c[i] += d;
                w = w - q[i].as_ref() * Scale(d);
            }
        }
        let last = w.norm_l2();
        c[k + 1] = last;
        let size: f64 = c.iter().map(|v| v.abs()).sum();
        for (j, (cs, sn)) in rot.iter().enumerate() {
            let (p, s) = (c[j], c[j + 1]);
            c[j] = cs * p + sn * s;
            c[j + 1] = cs * s - sn * p;
        }
        let d = c[k].hypot(c[k + 1]);
        let (cs, sn) = if d == 0. { (1., 0.) } else { (c[k] / d, c[k + 1] / d) };
        c[k] = d;
        c[k + 1] = 0.;
        rot.push((cs, sn));
        let p = g[k];
        g[k] = cs * p;
        g.push(-sn * p);
        h.push(c);
        err = g[k + 1].abs() / nb;
        if err <= tol || !(last > 1e-15 * size) { break }
        q.push(w * Scale(1. / last));
    }
    let k = h.len();
    let mut y = vec![0.; k];
    for i in (0..k).rev() {
        let mut s = g[i];
        for j in i + 1..k { s -= h[j][i] * y[j]; }
        y[i] = if h[i][i] == 0. { 0. } else { s / h[i][i] };
    }
    let mut xn = x0;
    for i in 0..k { xn = xn + q[i].as_ref() * Scale(y[i]); }
    x.copy_from(xn.as_ref());
    if err <= tol { Ok((err, k)) } else { Err(GmresError { cur_iter: k, error: err, tolerance: tol }) }
}
