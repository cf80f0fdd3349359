//! stand-in for the part of the faer linear algebra crate that ormatex uses (dense, column major, no parallelism)
pub use faer_traits::{c64, ComplexField, RealField};
use std::fmt::{self, Debug};
use std::marker::PhantomData;
use std::ops::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Scale<T>(pub T);
#[derive(Clone, Copy, Debug)]
pub enum Par { Seq }
pub fn get_global_parallelism() -> Par { Par::Seq }

// ---------------------------------------------------------------- matrices
#[derive(Clone, PartialEq)]
pub struct Mat<T> { nr: usize, nc: usize, d: Vec<T> }
pub struct MatRef<'a, T> { p: *const T, nr: usize, nc: usize, rs: usize, cs: usize, l: PhantomData<&'a T> }
pub struct MatMut<'a, T> { p: *mut T, nr: usize, nc: usize, rs: usize, cs: usize, l: PhantomData<&'a mut T> }
#[derive(Clone, Copy)]
pub struct ColRef<'a, T>(MatRef<'a, T>);
#[derive(Clone, Copy)]
pub struct RowRef<'a, T>(MatRef<'a, T>);
pub struct ColMut<'a, T>(MatMut<'a, T>);
unsafe impl<T: Sync> Sync for MatRef<'_, T> {}
unsafe impl<T: Sync> Send for MatRef<'_, T> {}
unsafe impl<T: Sync> Sync for MatMut<'_, T> {}
unsafe impl<T: Send> Send for MatMut<'_, T> {}
impl<T> Clone for MatRef<'_, T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for MatRef<'_, T> {}

/// anything that can be looked at as a matrix
pub trait AsMat<T> { fn v(&self) -> MatRef<'_, T>; }
impl<T> AsMat<T> for Mat<T> { fn v(&self) -> MatRef<'_, T> { MatRef { p: self.d.as_ptr(), nr: self.nr, nc: self.nc, rs: 1, cs: self.nr, l: PhantomData } } }
impl<T> AsMat<T> for MatRef<'_, T> { fn v(&self) -> MatRef<'_, T> { MatRef { p: self.p, nr: self.nr, nc: self.nc, rs: self.rs, cs: self.cs, l: PhantomData } } }
impl<T> AsMat<T> for MatMut<'_, T> { fn v(&self) -> MatRef<'_, T> { MatRef { p: self.p, nr: self.nr, nc: self.nc, rs: self.rs, cs: self.cs, l: PhantomData } } }
impl<T> AsMat<T> for ColRef<'_, T> { fn v(&self) -> MatRef<'_, T> { self.0.v() } }
impl<T> AsMat<T> for RowRef<'_, T> { fn v(&self) -> MatRef<'_, T> { self.0.v() } }
impl<T> AsMat<T> for ColMut<'_, T> { fn v(&self) -> MatRef<'_, T> { self.0.v() } }
impl<T, A: AsMat<T> + ?Sized> AsMat<T> for &A { fn v(&self) -> MatRef<'_, T> { (**self).v() } }

/// ranges accepted by get
pub trait Rng { fn lim(self, n: usize) -> (usize, usize); }
fn chk(a: usize, b: usize, n: usize) -> (usize, usize) { assert!(a <= b && b <= n, "range {}..{} of {}", a, b, n); (a, b - a) }
impl Rng for Range<usize> { fn lim(self, n: usize) -> (usize, usize) { chk(self.start, self.end, n) } }
impl Rng for RangeFrom<usize> { fn lim(self, n: usize) -> (usize, usize) { chk(self.start, n, n) } }
impl Rng for RangeTo<usize> { fn lim(self, n: usize) -> (usize, usize) { chk(0, self.end, n) } }
impl Rng for RangeInclusive<usize> { fn lim(self, n: usize) -> (usize, usize) { chk(*self.start(), *self.end() + 1, n) } }
impl Rng for RangeFull { fn lim(self, n: usize) -> (usize, usize) { (0, n) } }

/// what get returns: a part of the matrix, or one entry
pub trait Pick<'a, T> { type Out; fn pick(self, m: MatRef<'a, T>) -> Self::Out; }
impl<'a, T: 'a> Pick<'a, T> for (usize, usize) { type Out = &'a T; fn pick(self, m: MatRef<'a, T>) -> &'a T { m.at(self.0, self.1) } }
impl<'a, T: 'a, R: Rng, C: Rng> Pick<'a, T> for (R, C) { type Out = MatRef<'a, T>; fn pick(self, m: MatRef<'a, T>) -> MatRef<'a, T> { m.part(self.0, self.1) } }

impl<'a, T> MatRef<'a, T> {
    pub fn nrows(&self) -> usize { self.nr }
    pub fn ncols(&self) -> usize { self.nc }
    pub fn as_ref(&self) -> MatRef<'a, T> { *self }
    pub fn transpose(self) -> MatRef<'a, T> { MatRef { p: self.p, nr: self.nc, nc: self.nr, rs: self.cs, cs: self.rs, l: PhantomData } }
    pub fn get<R, C>(self, r: R, c: C) -> <(R, C) as Pick<'a, T>>::Out where (R, C): Pick<'a, T> { (r, c).pick(self) }
    fn part<R: Rng, C: Rng>(self, r: R, c: C) -> MatRef<'a, T> {
        let ((r0, nr), (c0, nc)) = (r.lim(self.nr), c.lim(self.nc));
        MatRef { p: self.p.wrapping_add(r0 * self.rs + c0 * self.cs), nr, nc, rs: self.rs, cs: self.cs, l: PhantomData }
    }
    pub fn submatrix(self, r: usize, c: usize, nr: usize, nc: usize) -> MatRef<'a, T> { self.part(r..r + nr, c..c + nc) }
    pub fn col(self, j: usize) -> ColRef<'a, T> { ColRef(self.part(.., j..j + 1)) }
    pub fn row(self, i: usize) -> RowRef<'a, T> { RowRef(self.part(i..i + 1, ..)) }
    pub fn at(&self, i: usize, j: usize) -> &'a T {
        assert!(i < self.nr && j < self.nc, "({}, {}) of {} x {}", i, j, self.nr, self.nc);
        unsafe { &*self.p.add(i * self.rs + j * self.cs) }
    }
}
impl<'a, T> MatRef<'a, T> {
    pub unsafe fn from_raw_parts(p: *const T, nr: usize, nc: usize, rs: usize, cs: usize) -> Self { MatRef { p, nr, nc, rs, cs, l: PhantomData } }
    pub fn as_ptr(&self) -> *const T { self.p }
    pub fn row_stride(&self) -> usize { self.rs }
    pub fn col_stride(&self) -> usize { self.cs }
}
impl<'a, T> ColRef<'a, T> {
    pub fn from_slice(s: &'a [T]) -> Self { ColRef(MatRef { p: s.as_ptr(), nr: s.len(), nc: 1, rs: 1, cs: s.len(), l: PhantomData }) }
    /// none if the entries are not adjacent
    pub fn try_as_col_major(self) -> Option<Adjacent<'a, T>> { if self.0.nr <= 1 || self.0.rs == 1 { Some(Adjacent(self.0)) } else { None } }
}
pub struct Adjacent<'a, T>(MatRef<'a, T>);
impl<'a, T> Adjacent<'a, T> { pub fn as_slice(self) -> &'a [T] { unsafe { std::slice::from_raw_parts(self.0.p, self.0.nr) } } }
impl<'a, T> MatMut<'a, T> {
    pub fn nrows(&self) -> usize { self.nr }
    pub fn ncols(&self) -> usize { self.nc }
    pub fn as_mut(&mut self) -> MatMut<'_, T> { MatMut { p: self.p, nr: self.nr, nc: self.nc, rs: self.rs, cs: self.cs, l: PhantomData } }
    pub fn as_ref(&self) -> MatRef<'_, T> { self.v() }
    pub fn get_mut<R: Rng, C: Rng>(self, r: R, c: C) -> MatMut<'a, T> {
        let ((r0, nr), (c0, nc)) = (r.lim(self.nr), c.lim(self.nc));
        MatMut { p: self.p.wrapping_add(r0 * self.rs + c0 * self.cs), nr, nc, rs: self.rs, cs: self.cs, l: PhantomData }
    }
    pub fn submatrix_mut(self, r: usize, c: usize, nr: usize, nc: usize) -> MatMut<'a, T> { self.get_mut(r..r + nr, c..c + nc) }
    pub fn into_const(self) -> MatRef<'a, T> { MatRef { p: self.p, nr: self.nr, nc: self.nc, rs: self.rs, cs: self.cs, l: PhantomData } }
    pub fn col(self, j: usize) -> ColRef<'a, T> { self.into_const().col(j) }
    pub fn col_mut(self, j: usize) -> ColMut<'a, T> { ColMut(self.get_mut(.., j..j + 1)) }
    fn put(&mut self, i: usize, j: usize) -> &mut T {
        assert!(i < self.nr && j < self.nc, "({}, {}) of {} x {}", i, j, self.nr, self.nc);
        unsafe { &mut *self.p.add(i * self.rs + j * self.cs) }
    }
    pub fn copy_from<A: AsMat<T>>(&mut self, a: A) where T: Copy {
        let a = a.v();
        assert!(a.nr == self.nr && a.nc == self.nc, "copy of {} x {} to {} x {}", a.nr, a.nc, self.nr, self.nc);
        for j in 0..a.nc { for i in 0..a.nr { *self.put(i, j) = *a.at(i, j); } }
    }
    pub fn fill(&mut self, x: T) where T: Copy { for j in 0..self.nc { for i in 0..self.nr { *self.put(i, j) = x; } } }
}
impl<T> Mat<T> {
    pub fn nrows(&self) -> usize { self.nr }
    pub fn ncols(&self) -> usize { self.nc }
    pub fn as_ref(&self) -> MatRef<'_, T> { self.v() }
    pub fn as_mut(&mut self) -> MatMut<'_, T> { MatMut { p: self.d.as_mut_ptr(), nr: self.nr, nc: self.nc, rs: 1, cs: self.nr, l: PhantomData } }
    pub fn transpose(&self) -> MatRef<'_, T> { self.v().transpose() }
    pub fn get<'a, R, C>(&'a self, r: R, c: C) -> <(R, C) as Pick<'a, T>>::Out where (R, C): Pick<'a, T> { (r, c).pick(self.v()) }
    pub fn submatrix(&self, r: usize, c: usize, nr: usize, nc: usize) -> MatRef<'_, T> { self.v().submatrix(r, c, nr, nc) }
    pub fn get_mut<R: Rng, C: Rng>(&mut self, r: R, c: C) -> MatMut<'_, T> { self.as_mut().get_mut(r, c) }
    pub fn submatrix_mut(&mut self, r: usize, c: usize, nr: usize, nc: usize) -> MatMut<'_, T> { self.as_mut().submatrix_mut(r, c, nr, nc) }
    pub fn col(&self, j: usize) -> ColRef<'_, T> { self.v().col(j) }
    pub fn row(&self, i: usize) -> RowRef<'_, T> { self.v().row(i) }
    pub fn col_mut(&mut self, j: usize) -> ColMut<'_, T> { self.as_mut().col_mut(j) }
    pub fn copy_from<A: AsMat<T>>(&mut self, a: A) where T: Copy {
        let a = a.v();
        let d = (0..a.nc).flat_map(|j| (0..a.nr).map(move |i| *a.at(i, j))).collect();
        *self = Mat { nr: a.nr, nc: a.nc, d };
    }
    pub fn from_fn(nr: usize, nc: usize, mut f: impl FnMut(usize, usize) -> T) -> Self {
        let mut d = Vec::with_capacity(nr * nc);
        for j in 0..nc { for i in 0..nr { d.push(f(i, j)); } }
        Mat { nr, nc, d }
    }
}
impl<T: ComplexField> Mat<T> {
    pub fn zeros(nr: usize, nc: usize) -> Self { Self::full(nr, nc, T::fld(0.)) }
    pub fn full(nr: usize, nc: usize, x: T) -> Self { Mat { nr, nc, d: vec![x; nr * nc] } }
    pub fn ones(nr: usize, nc: usize) -> Self { Self::full(nr, nc, T::fld(1.)) }
    pub fn identity(nr: usize, nc: usize) -> Self { Self::from_fn(nr, nc, |i, j| T::fld((i == j) as usize as f64)) }
}
impl<T> Default for Mat<T> { fn default() -> Self { Mat { nr: 0, nc: 0, d: vec![] } } }
impl<T> Index<(usize, usize)> for Mat<T> { type Output = T; fn index(&self, (i, j): (usize, usize)) -> &T { self.v().at(i, j) } }
impl<T> IndexMut<(usize, usize)> for Mat<T> { fn index_mut(&mut self, (i, j): (usize, usize)) -> &mut T { assert!(i < self.nr && j < self.nc); &mut self.d[i + j * self.nr] } }
impl<T> Index<(usize, usize)> for MatRef<'_, T> { type Output = T; fn index(&self, (i, j): (usize, usize)) -> &T { self.at(i, j) } }
impl<T> Index<(usize, usize)> for MatMut<'_, T> { type Output = T; fn index(&self, (i, j): (usize, usize)) -> &T { assert!(i < self.nr && j < self.nc); unsafe { &*self.p.add(i * self.rs + j * self.cs) } } }
impl<T> IndexMut<(usize, usize)> for MatMut<'_, T> { fn index_mut(&mut self, (i, j): (usize, usize)) -> &mut T { self.put(i, j) } }
impl<'a, T> ColRef<'a, T> {
    pub fn nrows(&self) -> usize { self.0.nr }
    pub fn as_mat(self) -> MatRef<'a, T> { self.0 }
    pub fn transpose(self) -> RowRef<'a, T> { RowRef(self.0.transpose()) }
}
impl<'a, T> RowRef<'a, T> { pub fn as_mat(self) -> MatRef<'a, T> { self.0 } pub fn ncols(&self) -> usize { self.0.nc } }
impl<'a, T> ColMut<'a, T> {
    pub fn nrows(&self) -> usize { self.0.nr }
    pub fn copy_from<A: AsMat<T>>(&mut self, a: A) where T: Copy { self.0.copy_from(a) }
}
impl<T> Index<usize> for ColRef<'_, T> { type Output = T; fn index(&self, i: usize) -> &T { self.0.at(i, 0) } }
impl<T> Index<usize> for ColMut<'_, T> { type Output = T; fn index(&self, i: usize) -> &T { &self.0[(i, 0)] } }
impl<T> IndexMut<usize> for ColMut<'_, T> { fn index_mut(&mut self, i: usize) -> &mut T { self.0.put(i, 0) } }
impl<'a, T: ComplexField> Mul<ColRef<'a, T>> for RowRef<'a, T> {
    type Output = T;
    fn mul(self, o: ColRef<'a, T>) -> T { assert!(self.0.nc == o.0.nr); (0..self.0.nc).fold(T::fld(0.), |s, i| s + *self.0.at(0, i) * *o.0.at(i, 0)) }
}

fn dbg<T: Debug>(a: MatRef<'_, T>, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    for i in 0..a.nr { f.debug_list().entries((0..a.nc).map(|j| a.at(i, j))).finish()?; }
    Ok(())
}
impl<T: Debug> Debug for Mat<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { dbg(self.v(), f) } }
impl<T: Debug> Debug for MatRef<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { dbg(*self, f) } }

macro_rules! views { ($([$($l:lifetime)?] $t:ty),*) => { $(
    impl<$($l,)? T: ComplexField> $t {
        pub fn to_owned(&self) -> Mat<T> { let a = self.v(); Mat::from_fn(a.nr, a.nc, |i, j| *a.at(i, j)) }
        fn mags(&self) -> Vec<f64> { let a = self.v(); (0..a.nc).flat_map(|j| (0..a.nr).map(move |i| a.at(i, j).mag())).collect() }
        /// largest absolute value
        pub fn norm_max(&self) -> f64 { self.mags().into_iter().fold(0., |s, x| if x.is_nan() || x > s { x } else { s }) }
    }
    impl<$($l,)? T: RealField> $t {
        /// Euclidean norm of all entries
        pub fn norm_l2(&self) -> T {
            let m = self.norm_max();
            if m == 0. || !m.is_finite() { return T::fld(m) }
            T::fld(self.mags().into_iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt() * m)
        }
        /// sum of the absolute values of all entries
        pub fn norm_l1(&self) -> T { T::fld(self.mags().into_iter().sum::<f64>()) }
    }
)* } }
views!([] Mat<T>, ['x] MatRef<'x, T>, ['x] MatMut<'x, T>);

// ---------------------------------------------------------------- arithmetic
fn zip<T: ComplexField>(a: MatRef<'_, T>, b: MatRef<'_, T>, f: impl Fn(T, T) -> T) -> Mat<T> {
    assert!(a.nr == b.nr && a.nc == b.nc, "{} x {} and {} x {}", a.nr, a.nc, b.nr, b.nc);
    Mat::from_fn(a.nr, a.nc, |i, j| f(*a.at(i, j), *b.at(i, j)))
}
fn mul<T: ComplexField>(a: MatRef<'_, T>, b: MatRef<'_, T>) -> Mat<T> {
    assert!(a.nc == b.nr, "{} x {} times {} x {}", a.nr, a.nc, b.nr, b.nc);
    Mat::from_fn(a.nr, b.nc, |i, j| (0..a.nc).fold(T::fld(0.), |s, k| s + *a.at(i, k) * *b.at(k, j)))
}
fn map<T: ComplexField>(a: MatRef<'_, T>, f: impl Fn(T) -> T) -> Mat<T> { Mat::from_fn(a.nr, a.nc, |i, j| f(*a.at(i, j))) }

macro_rules! bin { ([$($l:lifetime),*] $a:ty, $b:ty) => {
    impl<$($l,)* T: ComplexField> Add<$b> for $a { type Output = Mat<T>; fn add(self, o: $b) -> Mat<T> { zip(self.v(), o.v(), |x, y| x + y) } }
    impl<$($l,)* T: ComplexField> Sub<$b> for $a { type Output = Mat<T>; fn sub(self, o: $b) -> Mat<T> { zip(self.v(), o.v(), |x, y| x - y) } }
    impl<$($l,)* T: ComplexField> Mul<$b> for $a { type Output = Mat<T>; fn mul(self, o: $b) -> Mat<T> { mul(self.v(), o.v()) } }
} }
bin!([] Mat<T>, Mat<T>); bin!(['b] Mat<T>, &'b Mat<T>); bin!(['b] Mat<T>, MatRef<'b, T>);
bin!(['a] &'a Mat<T>, Mat<T>); bin!(['a, 'b] &'a Mat<T>, &'b Mat<T>); bin!(['a, 'b] &'a Mat<T>, MatRef<'b, T>);
bin!(['a] MatRef<'a, T>, Mat<T>); bin!(['a, 'b] MatRef<'a, T>, &'b Mat<T>); bin!(['a, 'b] MatRef<'a, T>, MatRef<'b, T>);

macro_rules! sca { ([$($l:lifetime),*] $a:ty, $f:ty) => {
    impl<$($l,)* T: ComplexField> Mul<Scale<T>> for $a { type Output = Mat<T>; fn mul(self, s: Scale<T>) -> Mat<T> { map(self.v(), |x| x * s.0) } }
    impl<$($l,)* T: ComplexField> Div<Scale<T>> for $a { type Output = Mat<T>; fn div(self, s: Scale<T>) -> Mat<T> { map(self.v(), |x| x / s.0) } }
    impl<$($l,)* T: ComplexField> Mul<$a> for Scale<T> { type Output = Mat<T>; fn mul(self, a: $a) -> Mat<T> { map(a.v(), |x| self.0 * x) } }
    impl<$($l,)* T: ComplexField> Neg for $a { type Output = Mat<T>; fn neg(self) -> Mat<T> { map(self.v(), |x| -x) } }
    impl<$($l),*> Mul<f64> for $f { type Output = Mat<f64>; fn mul(self, s: f64) -> Mat<f64> { map(self.v(), |x| x * s) } }
    impl<$($l),*> Div<f64> for $f { type Output = Mat<f64>; fn div(self, s: f64) -> Mat<f64> { map(self.v(), |x| x / s) } }
    impl<$($l),*> Mul<$f> for f64 { type Output = Mat<f64>; fn mul(self, a: $f) -> Mat<f64> { map(a.v(), |x| self * x) } }
} }
sca!([] Mat<T>, Mat<f64>); sca!(['a] &'a Mat<T>, &'a Mat<f64>); sca!(['a] MatRef<'a, T>, MatRef<'a, f64>);

macro_rules! asg { ($([$($l:lifetime)?] $t:ty, $f:ty),*) => { $(
    impl<$($l,)? T: ComplexField, A: AsMat<T>> AddAssign<A> for $t { fn add_assign(&mut self, a: A) { let r = zip(self.v(), a.v(), |x, y| x + y); self.copy_from(r) } }
    impl<$($l,)? T: ComplexField, A: AsMat<T>> SubAssign<A> for $t { fn sub_assign(&mut self, a: A) { let r = zip(self.v(), a.v(), |x, y| x - y); self.copy_from(r) } }
    impl<$($l,)? T: ComplexField> MulAssign<Scale<T>> for $t { fn mul_assign(&mut self, s: Scale<T>) { let r = map(self.v(), |x| x * s.0); self.copy_from(r) } }
    impl<$($l)?> MulAssign<f64> for $f { fn mul_assign(&mut self, s: f64) { let r = map(self.v(), |x| x * s); self.copy_from(r) } }
)* } }
asg!([] Mat<T>, Mat<f64>, ['a] MatMut<'a, T>, MatMut<'a, f64>);

#[macro_export]
macro_rules! mat {
    ($([$($x:expr),* $(,)?]),* $(,)?) => { { let rows = [$([$($x),*]),*]; $crate::Mat::from_fn(rows.len(), rows[0].len(), |i, j| rows[i][j]) } };
}

// ---------------------------------------------------------------- solvers
pub mod linalg { pub mod solvers { pub use crate::{DenseSolveCore, Lu as Qr, Lu as PartialPivLu, Solve}; } }
/// direct solution by Gaussian elimination with partial pivoting
pub struct Lu<T> { a: Mat<T> }
impl<T: ComplexField> Lu<T> { pub fn new(a: MatRef<'_, T>) -> Self { assert!(a.nr == a.nc); Lu { a: a.to_owned() } } }
pub trait Solve<T: ComplexField> { fn solve<A: AsMat<T>>(&self, b: A) -> Mat<T>; }
pub trait DenseSolveCore<T: ComplexField> { fn inverse(&self) -> Mat<T>; }
impl<T: ComplexField> Solve<T> for Lu<T> {
    fn solve<A: AsMat<T>>(&self, b: A) -> Mat<T> {
        let (n, mut a, mut x) = (self.a.nr, self.a.clone(), b.v().to_owned());
        assert!(x.nr == n);
        let m = x.nc;
        for k in 0..n {
            let mut p = k;
            for i in k + 1..n { if a[(i, k)].mag() > a[(p, k)].mag() { p = i } }
            for j in 0..n { let t = a[(k, j)]; a[(k, j)] = a[(p, j)]; a[(p, j)] = t; }
            for j in 0..m { let t = x[(k, j)]; x[(k, j)] = x[(p, j)]; x[(p, j)] = t; }
            for i in k + 1..n {
                let f = a[(i, k)] / a[(k, k)];
                for j in k..n { let t = a[(k, j)]; a[(i, j)] = a[(i, j)] - f * t; }
                for j in 0..m { let t = x[(k, j)]; x[(i, j)] = x[(i, j)] - f * t; }
            }
        }
        for k in (0..n).rev() {
            for j in 0..m {
                let mut s = x[(k, j)];
                for i in k + 1..n { s = s - a[(k, i)] * x[(i, j)]; }
                x[(k, j)] = s / a[(k, k)];
            }
        }
        x
    }
}
impl<T: ComplexField> DenseSolveCore<T> for Lu<T> { fn inverse(&self) -> Mat<T> { self.solve(Mat::<T>::identity(self.a.nr, self.a.nr)) } }
impl<T: ComplexField> Mat<T> {
    pub fn qr(&self) -> Lu<T> { Lu::new(self.v()) }
    pub fn partial_piv_lu(&self) -> Lu<T> { Lu::new(self.v()) }
}
impl<T: ComplexField> MatRef<'_, T> {
    pub fn qr(&self) -> Lu<T> { Lu::new(*self) }
    pub fn partial_piv_lu(&self) -> Lu<T> { Lu::new(*self) }
}

// ---------------------------------------------------------------- sparse matrices (stored densely)
pub mod sparse {
    use crate::*;
    pub struct Triplet<R, C, T> { pub row: R, pub col: C, pub val: T }
    impl<R, C, T> Triplet<R, C, T> { pub fn new(row: R, col: C, val: T) -> Self { Triplet { row, col, val } } }
    #[derive(Clone, Debug)]
    pub struct SparseColMat<I, T> { pub(crate) m: Mat<T>, i: PhantomData<I> }
    #[derive(Clone, Copy, Debug)]
    pub struct SparseColMatRef<'a, I, T> { pub(crate) m: MatRef<'a, T>, i: PhantomData<I> }
    #[derive(Debug)]
    pub struct CreationError;
    impl<T: ComplexField> SparseColMat<usize, T> {
        pub fn try_new_from_triplets(nr: usize, nc: usize, t: &[Triplet<usize, usize, T>]) -> Result<Self, CreationError> {
            let mut m = Mat::zeros(nr, nc);
            for e in t {
                if e.row >= nr || e.col >= nc { return Err(CreationError) }
                m[(e.row, e.col)] = m[(e.row, e.col)] + e.val;
            }
            Ok(SparseColMat { m, i: PhantomData })
        }
        pub fn as_ref(&self) -> SparseColMatRef<'_, usize, T> { SparseColMatRef { m: self.m.as_ref(), i: PhantomData } }
        pub fn to_dense(&self) -> Mat<T> { self.m.clone() }
        pub fn nrows(&self) -> usize { self.m.nrows() }
        pub fn ncols(&self) -> usize { self.m.ncols() }
    }
    impl<'a, T: ComplexField> SparseColMatRef<'a, usize, T> {
        pub fn as_ref(&self) -> SparseColMatRef<'a, usize, T> { *self }
        pub fn to_dense(&self) -> Mat<T> { self.m.to_owned() }
        pub fn nrows(&self) -> usize { self.m.nrows() }
        pub fn ncols(&self) -> usize { self.m.ncols() }
    }
    impl<'y, 'z, T: ComplexField> Mul<SparseColMatRef<'z, usize, T>> for MatRef<'y, T> { type Output = Mat<T>; fn mul(self, o: SparseColMatRef<'z, usize, T>) -> Mat<T> { super::mul(self, o.m) } }
    impl<'z, T: ComplexField> Mul<SparseColMatRef<'z, usize, T>> for Mat<T> { type Output = Mat<T>; fn mul(self, o: SparseColMatRef<'z, usize, T>) -> Mat<T> { super::mul(self.v(), o.m) } }
    macro_rules! sp { ($([$($l:lifetime)?] $t:ty),*) => { $(
        impl<'z, $($l,)? T: ComplexField> Mul<MatRef<'z, T>> for $t { type Output = Mat<T>; fn mul(self, o: MatRef<'z, T>) -> Mat<T> { super::mul(self.m.v(), o) } }
        impl<$($l,)? T: ComplexField> Mul<Mat<T>> for $t { type Output = Mat<T>; fn mul(self, o: Mat<T>) -> Mat<T> { super::mul(self.m.v(), o.v()) } }
    )* } }
    sp!([] SparseColMat<usize, T>, ['a] &'a SparseColMat<usize, T>, ['a] SparseColMatRef<'a, usize, T>);
    impl<'y, 'z, 'a, T: ComplexField> Mul<MatRef<'z, T>> for &'y SparseColMatRef<'a, usize, T> { type Output = Mat<T>; fn mul(self, o: MatRef<'z, T>) -> Mat<T> { super::mul(self.m.v(), o) } }
}

// ---------------------------------------------------------------- operators
pub mod dyn_stack {
    pub struct PodStack; pub struct MemStack; pub struct MemBuffer(MemStack); #[derive(Clone, Copy)] pub struct StackReq;
    impl StackReq { pub fn empty() -> Self { StackReq } }
    impl MemBuffer { pub fn new(_: StackReq) -> Self { MemBuffer(MemStack) } }
    impl MemStack { pub fn new(b: &mut MemBuffer) -> &mut MemStack { &mut b.0 } }
}
pub mod matrix_free {
    use crate::*; use crate::dyn_stack::*; use crate::sparse::*;
    pub trait LinOp<T: ComplexField>: Sync + Debug {
        fn apply_scratch(&self, rhs_ncols: usize, par: Par) -> StackReq;
        fn nrows(&self) -> usize;
        fn ncols(&self) -> usize;
        fn apply(&self, out: MatMut<'_, T>, rhs: MatRef<'_, T>, par: Par, stack: &mut MemStack);
        fn conj_apply(&self, out: MatMut<'_, T>, rhs: MatRef<'_, T>, par: Par, stack: &mut MemStack);
    }
    impl<T: ComplexField, L: LinOp<T> + ?Sized> LinOp<T> for &L {
        fn apply_scratch(&self, c: usize, p: Par) -> StackReq { (**self).apply_scratch(c, p) }
        fn nrows(&self) -> usize { (**self).nrows() }
        fn ncols(&self) -> usize { (**self).ncols() }
        fn apply(&self, o: MatMut<'_, T>, r: MatRef<'_, T>, p: Par, s: &mut MemStack) { (**self).apply(o, r, p, s) }
        fn conj_apply(&self, o: MatMut<'_, T>, r: MatRef<'_, T>, p: Par, s: &mut MemStack) { (**self).conj_apply(o, r, p, s) }
    }

    impl<T: ComplexField> LinOp<T> for Mat<T> {
        fn apply_scratch(&self, _c: usize, _p: Par) -> StackReq { StackReq }
        fn nrows(&self) -> usize { self.nr }
        fn ncols(&self) -> usize { self.nc }
        fn apply(&self, mut o: MatMut<'_, T>, r: MatRef<'_, T>, _p: Par, _s: &mut MemStack) { o.copy_from(super::mul(self.v(), r)) }
        fn conj_apply(&self, _o: MatMut<'_, T>, _r: MatRef<'_, T>, _p: Par, _s: &mut MemStack) { unimplemented!() }
    }
    impl<'a, T: ComplexField> LinOp<T> for SparseColMatRef<'a, usize, T> {
        fn apply_scratch(&self, _c: usize, _p: Par) -> StackReq { StackReq }
        fn nrows(&self) -> usize { self.m.nr }
        fn ncols(&self) -> usize { self.m.nc }
        fn apply(&self, mut o: MatMut<'_, T>, r: MatRef<'_, T>, _p: Par, _s: &mut MemStack) { o.copy_from(super::mul(self.m, r)) }
        fn conj_apply(&self, _o: MatMut<'_, T>, _r: MatRef<'_, T>, _p: Par, _s: &mut MemStack) { unimplemented!() }
    }
    impl<T: ComplexField> LinOp<T> for SparseColMat<usize, T> {
        fn apply_scratch(&self, _c: usize, _p: Par) -> StackReq { StackReq }
        fn nrows(&self) -> usize { self.m.nr }
        fn ncols(&self) -> usize { self.m.nc }
        fn apply(&self, mut o: MatMut<'_, T>, r: MatRef<'_, T>, _p: Par, _s: &mut MemStack) { o.copy_from(super::mul(self.m.v(), r)) }
        fn conj_apply(&self, _o: MatMut<'_, T>, _r: MatRef<'_, T>, _p: Par, _s: &mut MemStack) { unimplemented!() }
    }
}
pub mod reborrow {
    use crate::*;
    pub trait ReborrowMut { type Out<'s> where Self: 's; fn rb_mut(&mut self) -> Self::Out<'_>; }
    pub trait Reborrow { type Out<'s> where Self: 's; fn rb(&self) -> Self::Out<'_>; }
    impl<'a, T> ReborrowMut for MatMut<'a, T> { type Out<'s> = MatMut<'s, T> where Self: 's; fn rb_mut(&mut self) -> MatMut<'_, T> { self.as_mut() } }
    impl<'a, T> Reborrow for MatMut<'a, T> { type Out<'s> = MatRef<'s, T> where Self: 's; fn rb(&self) -> MatRef<'_, T> { self.v() } }
}
pub mod prelude { pub use crate::{c64, mat, ColMut, ColRef, Mat, MatMut, MatRef, RowRef, Scale}; pub use crate::reborrow::{Reborrow as _, ReborrowMut as _}; pub use crate::linalg::solvers::Solve as _; }
pub mod col { pub use crate::{ColMut, ColRef}; }

impl<'a, 'b, T: PartialEq> PartialEq<MatRef<'b, T>> for MatRef<'a, T> {
    fn eq(&self, o: &MatRef<'b, T>) -> bool {
        self.nr == o.nr && self.nc == o.nc && (0..self.nr).all(|i| (0..self.nc).all(|j| self[(i, j)] == o[(i, j)]))
    }
}

// ---------------------------------------------------------------- not used by the crate at present, offered for changes to it
#[derive(Clone, PartialEq)]
pub struct Col<T>(Mat<T>);
#[derive(Clone, PartialEq)]
pub struct Row<T>(Mat<T>);
impl<T> AsMat<T> for Col<T> { fn v(&self) -> MatRef<'_, T> { self.0.v() } }
impl<T> AsMat<T> for Row<T> { fn v(&self) -> MatRef<'_, T> { self.0.v() } }
impl<T: Debug> Debug for Col<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { dbg(self.v(), f) } }
impl<T: Debug> Debug for Row<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { dbg(self.v(), f) } }
impl<T: Debug> Debug for ColRef<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { dbg(self.v(), f) } }
impl<T: Debug> Debug for RowRef<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { dbg(self.v(), f) } }
impl<T> Col<T> {
    pub fn from_fn(n: usize, mut f: impl FnMut(usize) -> T) -> Self { Col(Mat::from_fn(n, 1, |i, _| f(i))) }
    pub fn as_ref(&self) -> ColRef<'_, T> { ColRef(self.0.as_ref()) }
    pub fn as_mut(&mut self) -> ColMut<'_, T> { ColMut(self.0.as_mut()) }
    pub fn as_mat(&self) -> MatRef<'_, T> { self.0.as_ref() }
    pub fn as_mat_mut(&mut self) -> MatMut<'_, T> { self.0.as_mut() }
    pub fn into_mat(self) -> Mat<T> { self.0 }
    pub fn as_slice(&self) -> &[T] { &self.0.d }
    pub fn transpose(&self) -> RowRef<'_, T> { RowRef(self.0.transpose()) }
    pub fn iter(&self) -> std::slice::Iter<'_, T> { self.0.d.iter() }
    pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> { self.0.d.iter_mut() }
    pub fn copy_from<A: AsMat<T>>(&mut self, a: A) where T: Copy { self.0.copy_from(a) }
}
impl<T: ComplexField> Col<T> {
    pub fn zeros(n: usize) -> Self { Col(Mat::zeros(n, 1)) }
    pub fn ones(n: usize) -> Self { Col(Mat::ones(n, 1)) }
    pub fn full(n: usize, x: T) -> Self { Col(Mat::full(n, 1, x)) }
}
impl<T> Index<usize> for Col<T> { type Output = T; fn index(&self, i: usize) -> &T { &self.0[(i, 0)] } }
impl<T> IndexMut<usize> for Col<T> { fn index_mut(&mut self, i: usize) -> &mut T { &mut self.0[(i, 0)] } }
impl<T> Index<usize> for RowRef<'_, T> { type Output = T; fn index(&self, i: usize) -> &T { self.0.at(0, i) } }
impl<T> Index<usize> for Row<T> { type Output = T; fn index(&self, i: usize) -> &T { &self.0[(0, i)] } }
impl<'a, T> ColRef<'a, T> {
    pub fn as_ref(&self) -> ColRef<'a, T> where T: Copy { ColRef(self.0) }
    pub fn iter(self) -> impl Iterator<Item = &'a T> where T: 'a { let m = self.0; (0..m.nr).map(move |i| m.at(i, 0)) }
    pub fn ncols(&self) -> usize { 1 }
    pub fn subrows(self, s: usize, n: usize) -> Self { ColRef(self.0.part(s..s + n, ..)) }
    pub fn get<R: Rng>(self, r: R) -> Self { ColRef(self.0.part(r, ..)) }
}
impl<'a, T> RowRef<'a, T> {
    pub fn iter(self) -> impl Iterator<Item = &'a T> where T: 'a { let m = self.0; (0..m.nc).map(move |i| m.at(0, i)) }
    pub fn transpose(self) -> ColRef<'a, T> { ColRef(self.0.transpose()) }
    pub fn nrows(&self) -> usize { 1 }
}
impl<'a, T> ColMut<'a, T> {
    pub fn as_mut(&mut self) -> ColMut<'_, T> { ColMut(self.0.as_mut()) }
    pub fn as_ref(&self) -> ColRef<'_, T> { ColRef(self.0.v()) }
    pub fn as_mat_mut(self) -> MatMut<'a, T> { self.0 }
    pub fn fill(&mut self, x: T) where T: Copy { self.0.fill(x) }
    pub fn iter_mut(self) -> impl Iterator<Item = &'a mut T> where T: 'a { let m = self.0; let (p, s) = (m.p, m.rs); (0..m.nr).map(move |i| unsafe { &mut *p.add(i * s) }) }
    pub fn get_mut<R: Rng>(self, r: R) -> Self { ColMut(self.0.get_mut(r, ..)) }
}
macro_rules! colv { ($([$($l:lifetime)?] $t:ident $(<$k:lifetime>)?),*) => { $(
    impl<$($l,)? T: ComplexField> $t<$($l,)? T> {
        pub fn to_owned(&self) -> Col<T> { Col(self.v().to_owned()) }
        pub fn cloned(&self) -> Col<T> { Col(self.v().to_owned()) }
        pub fn norm_max(&self) -> f64 { self.v().norm_max() }
        pub fn sum(&self) -> T { self.v().sum() }
    }
    impl<$($l,)? T: RealField> $t<$($l,)? T> {
        pub fn norm_l2(&self) -> T { self.v().norm_l2() }
        pub fn norm_l1(&self) -> T { self.v().norm_l1() }
        pub fn squared_norm_l2(&self) -> T { let x = self.v().norm_l2(); x * x }
    }
)* } }
colv!([] Col, ['x] ColRef, ['x] ColMut);
macro_rules! colb { ([$($l:lifetime),*] $a:ty, $b:ty) => {
    impl<$($l,)* T: ComplexField> Add<$b> for $a { type Output = Col<T>; fn add(self, o: $b) -> Col<T> { Col(zip(self.v(), o.v(), |x, y| x + y)) } }
    impl<$($l,)* T: ComplexField> Sub<$b> for $a { type Output = Col<T>; fn sub(self, o: $b) -> Col<T> { Col(zip(self.v(), o.v(), |x, y| x - y)) } }
} }
colb!([] Col<T>, Col<T>); colb!(['b] Col<T>, &'b Col<T>); colb!(['b] Col<T>, ColRef<'b, T>);
colb!(['a] &'a Col<T>, Col<T>); colb!(['a, 'b] &'a Col<T>, &'b Col<T>); colb!(['a, 'b] &'a Col<T>, ColRef<'b, T>);
colb!(['a] ColRef<'a, T>, Col<T>); colb!(['a, 'b] ColRef<'a, T>, &'b Col<T>); colb!(['a, 'b] ColRef<'a, T>, ColRef<'b, T>);
macro_rules! cols { ($([$($l:lifetime),*] $a:ty, $f:ty);*) => { $(
    impl<$($l,)* T: ComplexField> Mul<Scale<T>> for $a { type Output = Col<T>; fn mul(self, s: Scale<T>) -> Col<T> { Col(map(self.v(), |x| x * s.0)) } }
    impl<$($l,)* T: ComplexField> Mul<$a> for Scale<T> { type Output = Col<T>; fn mul(self, a: $a) -> Col<T> { Col(map(a.v(), |x| self.0 * x)) } }
    impl<$($l,)* T: ComplexField> Neg for $a { type Output = Col<T>; fn neg(self) -> Col<T> { Col(map(self.v(), |x| -x)) } }
    impl<$($l),*> Mul<f64> for $f { type Output = Col<f64>; fn mul(self, s: f64) -> Col<f64> { Col(map(self.v(), |x| x * s)) } }
    impl<$($l),*> Mul<$f> for f64 { type Output = Col<f64>; fn mul(self, a: $f) -> Col<f64> { Col(map(a.v(), |x| self * x)) } }
    impl<$($l,)* T: ComplexField> Mul<$a> for Mat<T> { type Output = Col<T>; fn mul(self, o: $a) -> Col<T> { Col(mul(self.v(), o.v())) } }
    impl<'m, $($l,)* T: ComplexField> Mul<$a> for &'m Mat<T> { type Output = Col<T>; fn mul(self, o: $a) -> Col<T> { Col(mul(self.v(), o.v())) } }
    impl<'m, $($l,)* T: ComplexField> Mul<$a> for MatRef<'m, T> { type Output = Col<T>; fn mul(self, o: $a) -> Col<T> { Col(mul(self.v(), o.v())) } }
)* } }
cols!([] Col<T>, Col<f64>; ['a] &'a Col<T>, &'a Col<f64>; ['a] ColRef<'a, T>, ColRef<'a, f64>);
impl<'a, 'b, T: ComplexField> Mul<&'b Col<T>> for RowRef<'a, T> { type Output = T; fn mul(self, o: &'b Col<T>) -> T { self * o.as_ref() } }
impl<'a, 'b, T: ComplexField> Mul<MatRef<'b, T>> for RowRef<'a, T> { type Output = Row<T>; fn mul(self, o: MatRef<'b, T>) -> Row<T> { Row(mul(self.v(), o)) } }
impl<'a, 'b, T: ComplexField> Mul<&'b Mat<T>> for RowRef<'a, T> { type Output = Row<T>; fn mul(self, o: &'b Mat<T>) -> Row<T> { Row(mul(self.v(), o.v())) } }
macro_rules! cola { ($([$($l:lifetime)?] $t:ty, $f:ty);*) => { $(
    impl<$($l,)? T: ComplexField, A: AsMat<T>> AddAssign<A> for $t { fn add_assign(&mut self, a: A) { let r = zip(self.v(), a.v(), |x, y| x + y); self.copy_from(r) } }
    impl<$($l,)? T: ComplexField, A: AsMat<T>> SubAssign<A> for $t { fn sub_assign(&mut self, a: A) { let r = zip(self.v(), a.v(), |x, y| x - y); self.copy_from(r) } }
    impl<$($l,)? T: ComplexField> MulAssign<Scale<T>> for $t { fn mul_assign(&mut self, s: Scale<T>) { let r = map(self.v(), |x| x * s.0); self.copy_from(r) } }
    impl<$($l)?> MulAssign<f64> for $f { fn mul_assign(&mut self, s: f64) { let r = map(self.v(), |x| x * s); self.copy_from(r) } }
)* } }
cola!([] Col<T>, Col<f64>; ['a] ColMut<'a, T>, ColMut<'a, f64>);
macro_rules! more { ($([$($l:lifetime)?] $t:ty),*) => { $(
    impl<$($l,)? T: ComplexField> $t {
        pub fn shape(&self) -> (usize, usize) { let a = self.v(); (a.nr, a.nc) }
        pub fn is_empty(&self) -> bool { let a = self.v(); a.nr == 0 || a.nc == 0 }
        pub fn cloned(&self) -> Mat<T> { self.to_owned() }
        pub fn sum(&self) -> T { let a = self.v(); (0..a.nc).flat_map(|j| (0..a.nr).map(move |i| *a.at(i, j))).fold(T::fld(0.), |s, x| s + x) }
        pub fn conjugate(&self) -> Mat<T> { map(self.v(), |x| x.cnj()) }
        pub fn adjoint(&self) -> Mat<T> { map(self.v().transpose(), |x| x.cnj()) }
        pub fn read(&self, i: usize, j: usize) -> T { *self.v().at(i, j) }
        pub fn full_piv_lu(&self) -> Lu<T> { Lu::new(self.v()) }
        pub fn col_piv_qr(&self) -> Lu<T> { Lu::new(self.v()) }
        pub fn has_nan(&self) -> bool { self.mags().iter().any(|x| x.is_nan()) }
        pub fn is_all_finite(&self) -> bool { self.mags().iter().all(|x| x.is_finite()) }
    }
    impl<$($l,)? T: RealField> $t { pub fn squared_norm_l2(&self) -> T { let x = self.norm_l2(); x * x } }
)* } }
more!([] Mat<T>, ['x] MatRef<'x, T>, ['x] MatMut<'x, T>);
impl<'a, T> MatRef<'a, T> {
    pub fn subrows(self, s: usize, n: usize) -> Self { self.part(s..s + n, ..) }
    pub fn subcols(self, s: usize, n: usize) -> Self { self.part(.., s..s + n) }
    pub fn split_at_row(self, i: usize) -> (Self, Self) { (self.part(..i, ..), self.part(i.., ..)) }
    pub fn split_at_col(self, i: usize) -> (Self, Self) { (self.part(.., ..i), self.part(.., i..)) }
    pub fn col_iter(self) -> impl Iterator<Item = ColRef<'a, T>> where T: 'a { (0..self.nc).map(move |j| ColRef(MatRef { p: self.p.wrapping_add(j * self.cs), nr: self.nr, nc: 1, rs: self.rs, cs: self.cs, l: PhantomData })) }
    pub fn row_iter(self) -> impl Iterator<Item = RowRef<'a, T>> where T: 'a { (0..self.nr).map(move |i| RowRef(MatRef { p: self.p.wrapping_add(i * self.rs), nr: 1, nc: self.nc, rs: self.rs, cs: self.cs, l: PhantomData })) }
}
impl<T> Mat<T> {
    pub fn subrows(&self, s: usize, n: usize) -> MatRef<'_, T> { self.v().subrows(s, n) }
    pub fn subcols(&self, s: usize, n: usize) -> MatRef<'_, T> { self.v().subcols(s, n) }
    pub fn subrows_mut(&mut self, s: usize, n: usize) -> MatMut<'_, T> { self.get_mut(s..s + n, ..) }
    pub fn subcols_mut(&mut self, s: usize, n: usize) -> MatMut<'_, T> { self.get_mut(.., s..s + n) }
    pub fn col_iter(&self) -> impl Iterator<Item = ColRef<'_, T>> { self.v().col_iter() }
    pub fn row_iter(&self) -> impl Iterator<Item = RowRef<'_, T>> { self.v().row_iter() }
    pub fn fill(&mut self, x: T) where T: Copy { self.as_mut().fill(x) }
    pub fn write(&mut self, i: usize, j: usize, x: T) { self[(i, j)] = x }
    pub fn col_as_slice(&self, j: usize) -> &[T] { &self.d[j * self.nr..(j + 1) * self.nr] }
    pub fn col_as_slice_mut(&mut self, j: usize) -> &mut [T] { &mut self.d[j * self.nr..(j + 1) * self.nr] }
}
impl<'a, T> MatMut<'a, T> {
    pub fn subrows_mut(self, s: usize, n: usize) -> MatMut<'a, T> { self.get_mut(s..s + n, ..) }
    pub fn subcols_mut(self, s: usize, n: usize) -> MatMut<'a, T> { self.get_mut(.., s..s + n) }
    pub fn split_at_row_mut(self, i: usize) -> (MatMut<'a, T>, MatMut<'a, T>) { let n = self.nr; let o = MatMut { p: self.p, nr: self.nr, nc: self.nc, rs: self.rs, cs: self.cs, l: PhantomData }; (self.get_mut(0..i, ..), o.get_mut(i..n, ..)) }
    pub fn write(&mut self, i: usize, j: usize, x: T) { *self.put(i, j) = x }
    pub fn submatrix(&self, r: usize, c: usize, nr: usize, nc: usize) -> MatRef<'_, T> { self.v().part(r..r + nr, c..c + nc) }
    pub fn get<'s, R, C>(&'s self, r: R, c: C) -> <(R, C) as Pick<'s, T>>::Out where (R, C): Pick<'s, T> { (r, c).pick(MatRef { p: self.p, nr: self.nr, nc: self.nc, rs: self.rs, cs: self.cs, l: PhantomData }) }
    pub fn transpose_mut(self) -> MatMut<'a, T> { MatMut { p: self.p, nr: self.nc, nc: self.nr, rs: self.cs, cs: self.rs, l: PhantomData } }
}
impl<'a, T> reborrow::ReborrowMut for Mat<T> { type Out<'s> = MatMut<'s, T> where Self: 's; fn rb_mut(&mut self) -> MatMut<'_, T> { self.as_mut() } }
impl<'a, T> reborrow::Reborrow for Mat<T> { type Out<'s> = MatRef<'s, T> where Self: 's; fn rb(&self) -> MatRef<'_, T> { self.v() } }
impl<'a, T> reborrow::ReborrowMut for ColMut<'a, T> { type Out<'s> = ColMut<'s, T> where Self: 's; fn rb_mut(&mut self) -> ColMut<'_, T> { self.as_mut() } }
impl<'a, T> reborrow::Reborrow for MatRef<'a, T> { type Out<'s> = MatRef<'s, T> where Self: 's; fn rb(&self) -> MatRef<'_, T> { *self } }
pub use Par as Parallelism;
pub mod mat_ns { pub use crate::{Mat, MatMut, MatRef}; }
/// element wise loops: zip!(a, b, ..).for_each(|unzip!(x, y, ..)| ..)
pub trait ZipArg { type Item; fn dims(&self) -> (usize, usize); unsafe fn item(&self, i: usize, j: usize) -> Self::Item; }
impl<'a, T> ZipArg for MatRef<'a, T> { type Item = &'a T; fn dims(&self) -> (usize, usize) { (self.nr, self.nc) } unsafe fn item(&self, i: usize, j: usize) -> &'a T { &*self.p.add(i * self.rs + j * self.cs) } }
impl<'a, T> ZipArg for &'a Mat<T> { type Item = &'a T; fn dims(&self) -> (usize, usize) { (self.nr, self.nc) } unsafe fn item(&self, i: usize, j: usize) -> &'a T { &*self.d.as_ptr().add(i + j * self.nr) } }
impl<'a, 'b, T> ZipArg for &'a MatRef<'b, T> { type Item = &'b T; fn dims(&self) -> (usize, usize) { (self.nr, self.nc) } unsafe fn item(&self, i: usize, j: usize) -> &'b T { &*self.p.add(i * self.rs + j * self.cs) } }
impl<'a, T> ZipArg for MatMut<'a, T> { type Item = &'a mut T; fn dims(&self) -> (usize, usize) { (self.nr, self.nc) } unsafe fn item(&self, i: usize, j: usize) -> &'a mut T { &mut *self.p.add(i * self.rs + j * self.cs) } }
impl<'a, 'b, T> ZipArg for &'a mut MatMut<'b, T> { type Item = &'a mut T; fn dims(&self) -> (usize, usize) { (self.nr, self.nc) } unsafe fn item(&self, i: usize, j: usize) -> &'a mut T { &mut *self.p.add(i * self.rs + j * self.cs) } }
impl<'a, T> ZipArg for &'a mut Mat<T> { type Item = &'a mut T; fn dims(&self) -> (usize, usize) { (self.nr, self.nc) } unsafe fn item(&self, i: usize, j: usize) -> &'a mut T { &mut *(self.d.as_ptr() as *mut T).add(i + j * self.nr) } }
pub struct Zip<A>(pub A);
macro_rules! zips { ($($n:ident $k:tt),*) => {
    impl<$($n: ZipArg),*> Zip<($($n,)*)> {
        pub fn for_each(self, mut f: impl FnMut(($($n::Item,)*))) {
            let (r, c) = self.0.0.dims();
            $( assert!(self.0.$k.dims() == (r, c)); )*
            for j in 0..c { for i in 0..r { f(unsafe { ($(self.0.$k.item(i, j),)*) }) } }
        }
        pub fn map<R>(self, mut f: impl FnMut(($($n::Item,)*)) -> R) -> Mat<R> {
            let (r, c) = self.0.0.dims();
            $( assert!(self.0.$k.dims() == (r, c)); )*
            Mat::from_fn(r, c, |i, j| f(unsafe { ($(self.0.$k.item(i, j),)*) }))
        }
    }
} }
zips!(A 0); zips!(A 0, B 1); zips!(A 0, B 1, C 2); zips!(A 0, B 1, C 2, D 3);
#[macro_export] macro_rules! zip { ($($x:expr),* $(,)?) => { $crate::Zip(($($x,)*)) }; }
#[macro_export] macro_rules! unzip { ($($x:pat),* $(,)?) => { ($($x,)*) }; }
