//! round SEED CASES FILE: computations in which floating point has to round, each of them
//! done several times over, in different places and at once with itself.
use crate::ctx;
use crate::rng::Rng;
use rust_light::nn::{Linear, Mlp, Module};
use rust_light::optim::sgd::sgd_step;
use rust_light::tensor::*;
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// data of a tensor, in order
fn data<T: Numeric>(t: &RcTensor<T>) -> Vec<T> {
    t.iter_indices().map(|i| t[&i]).collect()
}

fn tensor(v: &[i64], shape: Vec<usize>) -> RcTensor<f32> {
    RcTensor::new(v.iter().map(|&x| x as f32).collect(), shape)
}

/// whole numbers whose products fit f32 exactly, but not their sums
struct Product {
    b: usize,
    m: usize,
    k: usize,
    n: usize,
    left: Vec<i64>,
    right: Vec<i64>,
    seed: Vec<i64>,
}

impl Product {
    fn new(rng: &mut Rng) -> Product {
        let b = if rng.pct(30) { 2 } else { 0 };
        let wide = if rng.pct(30) { 30 } else { 7 };
        let mut dims = [0; 3].map(|_| 1 + rng.below(7));
        dims[rng.below(3)] = 3 + rng.below(wide);
        let [m, k, n] = dims;
        let lo = *rng.pick(&[-4095, 1, 3000]);
        let mut some = |c: usize| (0..c).map(|_| rng.range(lo, 4095)).collect::<Vec<_>>();
        let rows = m * b.max(1);
        Product { b, m, k, n, left: some(rows * k), right: some(k * n), seed: some(rows * n) }
    }
    fn run(&self) -> Value {
        let shape = |c: usize| if self.b == 0 { vec![self.m, c] } else { vec![self.b, self.m, c] };
        let a = tensor(&self.left, shape(self.k));
        let b = tensor(&self.right, vec![self.k, self.n]);
        let w = tensor(&self.seed, shape(self.n));
        let p = a.bmm(&b);
        functional::dot(&p, &w).backward();
        let ints = |t: &RcTensor<f32>| data(t).iter().map(|&x| if x.abs() < 2147483000.0 && x.fract() == 0.0 { x as i64 } else { crate::el::BAD }).collect::<Vec<_>>();
        json!([ints(&p), ints(&a.grad()), ints(&b.grad())])
    }
}

/// a few steps of gradient descent from random parameters
struct Train {
    dims: Vec<usize>,
    acts: Vec<usize>,
    params: Vec<Vec<f64>>,
    batches: Vec<(Vec<f64>, Vec<f64>)>,
    rows: usize,
    narrow: bool,
}

impl Train {
    fn new(rng: &mut Rng) -> Train {
        let rows = 1 + rng.below(4);
        let layers = 1 + rng.below(2);
        let dims: Vec<_> = (0..=layers).map(|_| 1 + rng.below(5)).collect();
        let acts = (0..layers).map(|_| rng.below(3)).collect();
        let mut some = |c: usize| (0..c).map(|_| rng.range(-1 << 40, 1 << 40) as f64 / (1u64 << 40) as f64).collect::<Vec<_>>();
        let mut params = vec![];
        for d in dims.windows(2) {
            params.push(some(d[0] * d[1]));
            params.push(some(d[1]));
        }
        let batches = (0..3).map(|_| (some(rows * dims[0]), some(rows * dims[layers]))).collect();
        let narrow = rng.pct(50);
        Train { dims, acts, params, batches, rows, narrow }
    }
    fn layer<T: Numeric + num::traits::real::Real>(&self, i: usize, cast: fn(f64) -> T) -> Linear<T> {
        let t = |v: &[f64], s: Vec<usize>| RcTensor::new(v.iter().map(|&x| cast(x)).collect(), s);
        let (r, c) = (self.dims[i], self.dims[i + 1]);
        Linear::new(
            t(&self.params[2 * i], vec![r, c]),
            t(&self.params[2 * i + 1], vec![1, c]),
            match self.acts[i] {
                0 => None,
                1 => Some(functional::tanh),
                _ => Some(functional::relu),
            },
        )
    }
    fn steps<T: Numeric + num::traits::real::Real, M: Module<T, InputType = RcTensor<T>, OutputType = RcTensor<T>>>(
        &self, mut model: M, cast: fn(f64) -> T, bits: fn(T) -> String) -> Value
    {
        let mut out = vec![];
        for (x, y) in &self.batches {
            let t = |v: &[f64], c: usize| RcTensor::new(v.iter().map(|&x| cast(x)).collect(), vec![self.rows, c]);
            let (x, y) = (t(x, self.dims[0]), t(y, *self.dims.last().unwrap()));
            let res = model.forward(x);
            let loss = functional::dot(&(&res - &y), &(&res - &y));
            loss.backward();
            sgd_step(&mut model, RcTensor::scalar(cast(0.03)));
            out.extend(data(&loss));
        }
        for p in model.params() {
            out.extend(data(&p));
        }
        json!(out.into_iter().map(bits).collect::<Vec<_>>())
    }
    fn typed<T: Numeric + num::traits::real::Real>(&self, cast: fn(f64) -> T, bits: fn(T) -> String) -> Value {
        if self.acts.len() == 1 {
            self.steps(self.layer(0, cast), cast, bits)
        } else {
            self.steps(Mlp::new([self.layer(0, cast), self.layer(1, cast)]), cast, bits)
        }
    }
    fn run(&self) -> Value {
        if self.narrow {
            self.typed::<f32>(|x| x as f32, |x| format!("{:08x}", x.to_bits()))
        } else {
            self.typed::<f64>(|x| x, |x| format!("{:016x}", x.to_bits()))
        }
    }
}

enum Case {
    P(Product),
    T(Train),
}

impl Case {
    /// what comes of it; nothing if the library panics
    fn run(&self) -> Value {
        catch_unwind(AssertUnwindSafe(|| match self {
            Case::P(p) => p.run(),
            Case::T(t) => t.run(),
        }))
        .unwrap_or_else(|_| match self {
            Case::P(_) => json!([[], [], []]),
            Case::T(_) => json!([]),
        })
    }
    fn what(&self) -> Value {
        match self {
            Case::P(p) => json!({"op": "product", "m": p.m * p.b.max(1), "k": p.k, "n": p.n, "a": p.left, "b": p.right, "w": p.seed}),
            Case::T(t) => json!({"op": "train", "dims": t.dims, "rows": t.rows, "type": if t.narrow {"f32"} else {"f64"}}),
        }
    }
}

pub fn main(seed: u64, cases: usize, file: &str) {
    let mut f = std::fs::File::create(file).unwrap();
    let mut lines = 0;
    for key in 0..cases {
        let mut rng = Rng::new(seed.wrapping_mul(7_000_003).wrapping_add(key as u64));
        let case = if key % 3 < 2 { Case::P(Product::new(&mut rng)) } else { Case::T(Train::new(&mut rng)) };
        let mut c = case.what();
        c["key"] = json!(key);
        for rep in 0..3 {
            let how = if rep == 2 { *rng.pick(ctx::MANY) } else { *rng.pick(ctx::HOWS) };
            let place = json!({"how": how, "n": rng.below(ctx::MAX + 1)});
            c["ctx"] = place.clone();
            write!(f, "{{\"c\":{c},\"r\":").unwrap();
            let outs = if rep == 2 { ctx::at_once(&place, 3, &|_| case.run()) } else { vec![ctx::run(&place, || case.run())] };
            writeln!(f, "{}}}", json!({"st": "ok", "outs": outs})).unwrap();
            lines += 1;
            c = json!({"op": "again", "key": key});
        }
    }
    println!("{}", json!({"programs": cases, "lines": lines}));
}
