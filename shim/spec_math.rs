//! Stand-in for spec_math::Bessel: K0, K1, I0, I1 to double precision, by methods that
//! share nothing with cephes (a trapezoidal rule that converges doubly exponentially for
//! K, the ascending series for I). Compared with scipy.special when the core is set up.
pub trait Bessel {
    fn bessel_k0(&self) -> f64;
    fn bessel_k1(&self) -> f64;
    fn bessel_i0(&self) -> f64;
    fn bessel_i1(&self) -> f64;
}
/// K_n(x) = exp(-x) * int_0^inf exp(-2 x sinh^2(t/2)) cosh(n t) dt
fn k(n: f64, x: f64) -> f64 {
    if x.is_nan() || x < 0.0 {
        return f64::NAN;
    }
    if x == 0.0 {
        return f64::INFINITY;
    }
    if x > 745.2 {
        return 0.0;
    }
    if n == 1.0 && x < 1e-8 {
        return 1.0 / x; // the next term is x ln x / 2, below one part in 1e15
    }
    let h = (0.125f64).min(0.5 / x.sqrt());
    let mut sum = 0.5;
    let mut i = 1.0f64;
    loop {
        let t = i * h;
        let s = (0.5 * t).sinh();
        let e = 2.0 * x * s * s;
        if e > 50.0 + n * t {
            break;
        }
        sum += (-e).exp() * (n * t).cosh();
        i += 1.0;
    }
    (-x).exp() * sum * h
}
fn i(n: usize, x: f64) -> f64 {
    let q = 0.25 * x * x;
    let mut term = if n == 0 { 1.0 } else { 0.5 * x };
    let mut sum = term;
    let mut j = 1.0;
    while term.abs() > 1e-18 * sum.abs() && j < 1000.0 {
        term *= q / (j * (j + n as f64));
        sum += term;
        j += 1.0;
    }
    sum
}
impl Bessel for f64 {
    fn bessel_k0(&self) -> f64 {
        k(0.0, *self)
    }
    fn bessel_k1(&self) -> f64 {
        k(1.0, *self)
    }
    fn bessel_i0(&self) -> f64 {
        i(0, *self)
    }
    fn bessel_i1(&self) -> f64 {
        i(1, *self)
    }
}
