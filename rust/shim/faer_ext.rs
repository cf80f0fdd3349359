//! stand-in for faer_ext
use faer::MatRef;
use ndarray::ArrayView2;
use std::marker::PhantomData;
pub trait IntoFaer { type Faer; fn into_faer(self) -> Self::Faer; }
impl<'a> IntoFaer for ArrayView2<'a, f64> { type Faer = MatRef<'a, f64>; fn into_faer(self) -> MatRef<'a, f64> { unsafe { MatRef::from_raw_parts(self.p, self.nr, self.nc, self.rs, self.cs) } } }
pub trait IntoNdarray { type Nd; fn into_ndarray(self) -> Self::Nd; }
impl<'a> IntoNdarray for MatRef<'a, f64> { type Nd = ArrayView2<'a, f64>; fn into_ndarray(self) -> ArrayView2<'a, f64> { ArrayView2 { p: self.as_ptr(), nr: self.nrows(), nc: self.ncols(), rs: self.row_stride(), cs: self.col_stride(), l: PhantomData } } }
