//! stand-in for rand_distr
#[derive(Clone, Copy)] pub struct StandardNormal;
#[derive(Clone, Copy)] pub struct Uniform { a: f64, b: f64 }
impl Uniform { pub fn new(a: f64, b: f64) -> Self { Uniform { a, b } } }
impl rand::Distribution<f64> for StandardNormal { fn draw(&self) -> f64 { (0..12).map(|_| rand::next()).sum::<f64>() - 6. } }
impl rand::Distribution<f64> for Uniform { fn draw(&self) -> f64 { self.a + (self.b - self.a) * rand::next() } }
