//! The published update rules of the optimizers, in double precision.
use prima_undine::optimizers::{Adam, MomentumSGD, SGD};
use prima_undine::Optimizer;

pub trait Rule: Optimizer {
    fn make(cfg: usize) -> Self;
    fn name() -> &'static str;
    /// one update: value, gradient, two statistics, scale, number of the step from one
    fn rule(cfg: usize, v: &mut f64, g: f64, s: &mut [f64; 2], scale: f64, t: u32);
    /// size of one step, for the tolerance
    fn size(cfg: usize, g: f64) -> f64;
}

pub const SGDS: [f32; 2] = [0.1, 1.];
impl Rule for SGD {
    fn make(cfg: usize) -> SGD {
        SGD::new(SGDS[cfg])
    }
    fn name() -> &'static str {
        "SGD"
    }
    fn rule(cfg: usize, v: &mut f64, g: f64, _s: &mut [f64; 2], scale: f64, _t: u32) {
        *v -= scale * SGDS[cfg] as f64 * g;
    }
    fn size(cfg: usize, g: f64) -> f64 {
        SGDS[cfg] as f64 * g
    }
}

pub const MOMS: [(f32, f32); 2] = [(0.1, 0.9), (0.5, 0.25)];
impl Rule for MomentumSGD {
    fn make(cfg: usize) -> MomentumSGD {
        MomentumSGD::new(MOMS[cfg].0, MOMS[cfg].1)
    }
    fn name() -> &'static str {
        "MomentumSGD"
    }
    fn rule(cfg: usize, v: &mut f64, g: f64, s: &mut [f64; 2], scale: f64, _t: u32) {
        s[0] = MOMS[cfg].1 as f64 * s[0] - scale * MOMS[cfg].0 as f64 * g;
        *v += s[0];
    }
    fn size(cfg: usize, g: f64) -> f64 {
        MOMS[cfg].0 as f64 * g * 4.
    }
}

pub const ADAMS: [(f32, f32, f32, f32); 2] = [(0.125, 0.9, 0.999, 1e-8), (0.5, 0.5, 0.75, 0.3)];
impl Rule for Adam {
    fn make(cfg: usize) -> Adam {
        let a = ADAMS[cfg];
        Adam::new(a.0, a.1, a.2, a.3)
    }
    fn name() -> &'static str {
        "Adam"
    }
    fn rule(cfg: usize, v: &mut f64, g: f64, s: &mut [f64; 2], scale: f64, t: u32) {
        let (alpha, b1, b2, eps) = ADAMS[cfg];
        let (b1, b2) = (b1 as f64, b2 as f64);
        s[0] = b1 * s[0] + (1. - b1) * g;
        s[1] = b2 * s[1] + (1. - b2) * g * g;
        let m = s[0] / (1. - b1.powi(t as i32));
        let n = s[1] / (1. - b2.powi(t as i32));
        *v -= scale * alpha as f64 * m / (n.sqrt() + eps as f64);
    }
    fn size(_cfg: usize, _g: f64) -> f64 {
        // normalised steps
        4.
    }
}

/// Values, gradients and statistics as the published rules give them.
pub struct M {
    pub v: Vec<Vec<f64>>,
    pub g: Vec<Vec<f64>>,
    pub s: Vec<Vec<[f64; 2]>>,
    pub epoch: u32,
    pub scale: f64,
    pub decay: f64,
    pub clip: f64,
    /// largest step so far, for the tolerance
    pub big: f64,
}

impl M {
    pub fn update<O: Rule>(&mut self, cfg: usize, which: &[usize]) {
        for &i in which {
            for e in 0..self.v[i].len() {
                self.g[i][e] += self.decay * self.v[i][e];
            }
        }
        if self.clip > 0. {
            let n: f64 = which.iter().flat_map(|&i| self.g[i].iter()).map(|x| x * x).sum::<f64>().sqrt();
            if n > self.clip {
                for &i in which {
                    for x in self.g[i].iter_mut() {
                        *x *= self.clip / n;
                    }
                }
            }
        }
        let t = self.epoch + 1;
        for &i in which {
            let scale = self.scale;
            self.one::<O>(cfg, i, scale, t);
            for x in self.g[i].iter_mut() {
                *x = 0.;
            }
        }
        self.epoch += 1;
    }
    pub fn one<O: Rule>(&mut self, cfg: usize, i: usize, scale: f64, t: u32) {
        for e in 0..self.v[i].len() {
            self.big = self.big.max(O::size(cfg, self.g[i][e]).abs());
            O::rule(cfg, &mut self.v[i][e], self.g[i][e], &mut self.s[i][e], scale, t);
        }
    }
}
