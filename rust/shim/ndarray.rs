//! stand-in for ndarray: two dimensional arrays
use std::marker::PhantomData;
#[derive(Clone, Copy)] pub struct ArrayView2<'a, T> { pub p: *const T, pub nr: usize, pub nc: usize, pub rs: usize, pub cs: usize, pub l: PhantomData<&'a T> }
/// column major if `f`, else row major
#[derive(Clone)] pub struct Array2<T> { pub d: Vec<T>, pub nr: usize, pub nc: usize, pub f: bool }
impl<'a, T: Copy> ArrayView2<'a, T> {
    pub fn view(&self) -> ArrayView2<'_, T> { ArrayView2 { p: self.p, nr: self.nr, nc: self.nc, rs: self.rs, cs: self.cs, l: PhantomData } }
    pub fn nrows(&self) -> usize { self.nr }
    pub fn ncols(&self) -> usize { self.nc }
    fn at(&self, i: usize, j: usize) -> T { unsafe { *self.p.add(i * self.rs + j * self.cs) } }
    pub fn to_owned(&self) -> Array2<T> {
        let f = self.rs == 1 && (self.cs == self.nr || self.nc <= 1) && !(self.cs == 1 && self.nc > 1);
        let mut d = Vec::with_capacity(self.nr * self.nc);
        if f { for j in 0..self.nc { for i in 0..self.nr { d.push(self.at(i, j)) } } } else { for i in 0..self.nr { for j in 0..self.nc { d.push(self.at(i, j)) } } }
        Array2 { d, nr: self.nr, nc: self.nc, f }
    }
}
impl<T: Copy> Array2<T> {
    pub fn view(&self) -> ArrayView2<'_, T> { let (rs, cs) = if self.f { (1, self.nr) } else { (self.nc, 1) }; ArrayView2 { p: self.d.as_ptr(), nr: self.nr, nc: self.nc, rs, cs, l: PhantomData } }
    pub fn nrows(&self) -> usize { self.nr }
    pub fn ncols(&self) -> usize { self.nc }
}
