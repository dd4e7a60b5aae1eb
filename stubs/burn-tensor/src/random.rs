use crate::dtype::Val;
use crate::tensor::Distribution;
/// A deterministic stand-in: values inside the distribution's support.
pub fn draw(d: &Distribution, n: usize) -> Vec<Val> {
    (0..n)
        .map(|k| {
            let u = ((k * 37 + 11) % 101) as f64 / 101.0;
            Val::F(match d {
                Distribution::Default => u,
                Distribution::Bernoulli(p) => (u < *p) as i64 as f64,
                Distribution::Uniform(a, b) => a + (b - a) * u,
                Distribution::Normal(m, s) => m + s * (2.0 * u - 1.0),
            })
        })
        .collect()
}
