//! Element types, and the operations only some of them have.
use rust_light::nn::{Linear, Mlp, Module};
use rust_light::optim::sgd::sgd_step;
use rust_light::tensor::*;
use std::any::Any;

// integers of the specification that stand for values which are not integers
pub const BAD: i64 = 2147483647;
pub const NAN: i64 = 2147483646;
pub const PINF: i64 = 2147483645;
pub const NINF: i64 = -2147483645;
pub const NZERO: i64 = 2147483644;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    Unsigned,
    Signed,
    Float,
}

/// A model (Linear or Mlp) whatever its type
pub trait Model<T: El>: Any + Send + Sync {
    fn fwd(&self, x: RcTensor<T>) -> RcTensor<T>;
    fn ps(&self) -> Vec<RcTensor<T>>;
    fn setp(&mut self, ps: Vec<RcTensor<T>>);
    /// assign a public field of a Linear
    fn setf(&mut self, field: &str, p: RcTensor<T>);
    fn sgd(&mut self, step: RcTensor<T>);
    fn any(self: Box<Self>) -> Box<dyn Any>;
    /// the parameters as told by Linear's own params method and its public fields
    fn inherent(&mut self) -> Option<Vec<RcTensor<T>>>;
    fn fields(&self) -> Option<Vec<RcTensor<T>>>;
}

/// Set: numbers in calls are in units of 1/64, those in replies of 1/4096, rounded
/// down (see spec/Smooth.tla).  Not set: both are whole.
pub static SMOOTH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn smooth() -> bool {
    SMOOTH.load(std::sync::atomic::Ordering::Relaxed)
}

/// Set: the zeros of floating point are told apart (see spec/SignedZero.tla)
pub static ZEROS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn zeros() -> bool {
    ZEROS.load(std::sync::atomic::Ordering::Relaxed)
}

/// Set: infinities and NaN are computed with (see spec/Ieee.tla)
pub static IEEE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn ieee() -> bool {
    IEEE.load(std::sync::atomic::Ordering::Relaxed)
}

/// Set: a number in calls and replies stands for the value of that place in a table, so
/// that values of any magnitude can be told (see spec/Dyadic.tla).  2: the range of f64.
pub static DYADIC: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn dyadic() -> usize {
    DYADIC.load(std::sync::atomic::Ordering::Relaxed)
}
static TABLE: std::sync::Mutex<(Vec<f64>, std::collections::BTreeMap<u64, i64>)> =
    std::sync::Mutex::new((vec![], std::collections::BTreeMap::new()));

/// the place of a value in the table; those of 0 and 1 are 0 and 1
pub fn place(v: f64) -> i64 {
    let v = if v == 0.0 { 0.0 } else if v.is_nan() { f64::NAN } else { v };
    let mut t = TABLE.lock().unwrap();
    if t.0.is_empty() {
        for (i, x) in [0.0f64, 1.0].into_iter().enumerate() {
            t.0.push(x);
            t.1.insert(x.to_bits(), i as i64);
        }
    }
    if let Some(&i) = t.1.get(&v.to_bits()) {
        return i;
    }
    let i = t.0.len() as i64;
    t.0.push(v);
    t.1.insert(v.to_bits(), i);
    i
}

pub fn placed(i: i64) -> f64 {
    place(0.0);
    TABLE.lock().unwrap().0.get(i as usize).copied().unwrap_or(f64::NAN)
}

/// m * 2^e as [m, e, number of bits of m] with m odd, [0, 2, 0] if not finite, [0, 3, 0] if m is too large
fn dyad(v: f64) -> [i64; 3] {
    if v == 0.0 {
        return [0, 0, 0];
    }
    if !v.is_finite() {
        return [0, 2, 0];
    }
    let bits = v.to_bits();
    let exp = ((bits >> 52) & 0x7ff) as i64;
    let frac = (bits & ((1 << 52) - 1)) as i64;
    let (m, e) = if exp == 0 { (frac, -1074) } else { (frac | 1 << 52, exp - 1075) };
    let z = m.trailing_zeros();
    let (m, e) = (m >> z, e + z as i64);
    if m >= 1 << 30 {
        return [0, 3, 0];
    }
    [if v < 0.0 { -m } else { m }, e, 64 - m.leading_zeros() as i64]
}

/// m * 2^e
pub fn scaled(m: f64, e: i32) -> f64 {
    // in two steps: 2^e itself may be out of range
    m * 2f64.powi(e / 2) * 2f64.powi(e - e / 2)
}

pub fn table() -> serde_json::Value {
    place(0.0);
    let t = TABLE.lock().unwrap();
    serde_json::json!({
        "dyads": t.0.iter().map(|&v| dyad(v)).collect::<Vec<_>>(),
        "bits": t.0.iter().map(|v| v.to_bits().to_string()).collect::<Vec<_>>()
    })
}

/// the table of an earlier run
pub fn load_table(v: &serde_json::Value) {
    for b in v.as_array().unwrap() {
        place(f64::from_bits(b.as_str().unwrap().parse().unwrap()));
    }
}

pub trait El: Numeric + std::str::FromStr + 'static {
    const NAME: &'static str;
    const CLASS: Class;
    /// largest magnitude the drivers let a value reach
    const LIMIT: f64;
    fn limit() -> f64 {
        if dyadic() > 0 {
            f64::INFINITY
        } else if smooth() {
            if Self::NAME == "f32" { 30.0 } else { 600.0 }
        } else {
            Self::LIMIT
        }
    }
    fn from_i(v: i64) -> Self;
    fn to_i(self) -> i64;
    /// one divided by it
    fn rec(self) -> Self {
        self
    }
    fn neg_rc(_: &RcTensor<Self>, _form: usize) -> RcTensor<Self> {
        panic!("harness: not for this element type")
    }
    fn neg_raw(_: &RawTensor<Self>) -> RawTensor<Self> {
        panic!("harness: not for this element type")
    }
    fn sub_rc(_: &RcTensor<Self>, _: &RcTensor<Self>, _form: usize) -> RcTensor<Self> {
        panic!("harness: not for this element type")
    }
    fn sub_owned(_: RcTensor<Self>, _: RcTensor<Self>) -> RcTensor<Self> {
        panic!("harness: not for this element type")
    }
    fn sub_raw(_: &RawTensor<Self>, _: &RawTensor<Self>) -> RawTensor<Self> {
        panic!("harness: not for this element type")
    }
    fn sub_raw_rc(_: &RawTensor<Self>, _: &RcTensor<Self>) -> RawTensor<Self> {
        panic!("harness: not for this element type")
    }
    fn map(_: &str, _: RcTensor<Self>) -> RcTensor<Self> {
        panic!("harness: not for this element type")
    }
    fn lin(_: RcTensor<Self>, _: RcTensor<Self>, _: &str) -> Box<dyn Model<Self>> {
        panic!("harness: not for this element type")
    }
    fn mlp(_: Vec<Box<dyn Model<Self>>>) -> Box<dyn Model<Self>> {
        panic!("harness: not for this element type")
    }
}

macro_rules! signed_ops {
    () => {
        fn neg_rc(a: &RcTensor<Self>, _form: usize) -> RcTensor<Self> {
            -a
        }
        fn neg_raw(a: &RawTensor<Self>) -> RawTensor<Self> {
            -a
        }
        fn sub_rc(a: &RcTensor<Self>, b: &RcTensor<Self>, form: usize) -> RcTensor<Self> {
            match form {
                0 => a - b,
                1 => a.clone() - b.clone(),
                _ => a.clone() - b,
            }
        }
        fn sub_owned(a: RcTensor<Self>, b: RcTensor<Self>) -> RcTensor<Self> {
            a - b
        }
        fn sub_raw(a: &RawTensor<Self>, b: &RawTensor<Self>) -> RawTensor<Self> {
            a - b
        }
        fn sub_raw_rc(a: &RawTensor<Self>, b: &RcTensor<Self>) -> RawTensor<Self> {
            a - b
        }
    };
}

macro_rules! int {
    ($t:ty, $limit:expr) => {
        impl El for $t {
            const NAME: &'static str = stringify!($t);
            const CLASS: Class = Class::Signed;
            const LIMIT: f64 = $limit;
            fn from_i(v: i64) -> Self {
                v as $t
            }
            fn to_i(self) -> i64 {
                let v = self as i128;
                if v.unsigned_abs() < NINF.unsigned_abs() as u128 {
                    v as i64
                } else {
                    BAD
                }
            }
            signed_ops!();
        }
    };
}
macro_rules! uint {
    ($t:ty, $limit:expr) => {
        impl El for $t {
            const NAME: &'static str = stringify!($t);
            const CLASS: Class = Class::Unsigned;
            const LIMIT: f64 = $limit;
            fn from_i(v: i64) -> Self {
                v as $t
            }
            fn to_i(self) -> i64 {
                if (self as u128) < PINF as u128 {
                    self as i64
                } else {
                    BAD
                }
            }
        }
    };
}


int!(i8, 120.0);
int!(i32, 4e6);
int!(i64, 4e6);
int!(i128, 4e6);
uint!(u8, 250.0);
uint!(usize, 4e6);
uint!(u32, 4e6);
uint!(u64, 4e6);
uint!(u128, 4e6);

type Fun<T> = fn(RcTensor<T>) -> RcTensor<T>;

fn function<T: El + num::traits::real::Real + std::ops::Neg<Output = T>>(f: &str) -> Fun<T> {
    match f {
        "relu" => functional::relu,
        "tanh" => functional::tanh,
        "abs" => |t| t.abs(),
        "neg" => |t| -&t,
        _ => panic!("no such function"),
    }
}

struct Lin<T: Numeric>(Linear<T>);
struct Net<T: Numeric, const N: usize>(Mlp<T, N>);

impl<T: El + num::traits::real::Real> Model<T> for Lin<T> {
    fn fwd(&self, x: RcTensor<T>) -> RcTensor<T> {
        self.0.forward(x)
    }
    fn ps(&self) -> Vec<RcTensor<T>> {
        Module::params(&self.0)
    }
    fn setp(&mut self, ps: Vec<RcTensor<T>>) {
        self.0.update_params(ps)
    }
    fn setf(&mut self, field: &str, p: RcTensor<T>) {
        match field {
            "w" => self.0.weights = p,
            _ => self.0.bias = p,
        }
    }
    fn sgd(&mut self, step: RcTensor<T>) {
        sgd_step(&mut self.0, step)
    }
    fn any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
    fn inherent(&mut self) -> Option<Vec<RcTensor<T>>> {
        Some(Linear::params(&mut self.0).collect())
    }
    fn fields(&self) -> Option<Vec<RcTensor<T>>> {
        Some(vec![self.0.weights.clone(), self.0.bias.clone()])
    }
}

impl<T: El + num::traits::real::Real, const N: usize> Model<T> for Net<T, N> {
    fn fwd(&self, x: RcTensor<T>) -> RcTensor<T> {
        self.0.forward(x)
    }
    fn ps(&self) -> Vec<RcTensor<T>> {
        self.0.params()
    }
    fn setp(&mut self, ps: Vec<RcTensor<T>>) {
        self.0.update_params(ps)
    }
    fn setf(&mut self, _: &str, _: RcTensor<T>) {
        panic!("harness: setf")
    }
    fn sgd(&mut self, step: RcTensor<T>) {
        sgd_step(&mut self.0, step)
    }
    fn any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
    fn inherent(&mut self) -> Option<Vec<RcTensor<T>>> {
        None
    }
    fn fields(&self) -> Option<Vec<RcTensor<T>>> {
        None
    }
}

fn net<T: El + num::traits::real::Real, const N: usize>(ls: Vec<Linear<T>>) -> Box<dyn Model<T>> {
    let ls: [Linear<T>; N] = ls.try_into().ok().unwrap();
    Box::new(Net(Mlp::new(ls)))
}

macro_rules! float {
    ($t:ty) => {
        impl El for $t {
            const NAME: &'static str = stringify!($t);
            const CLASS: Class = Class::Float;
            const LIMIT: f64 = 4e6;
            fn from_i(v: i64) -> Self {
                match v {
                    _ if dyadic() > 0 => placed(v) as $t,
                    NAN => <$t>::NAN,
                    PINF => <$t>::INFINITY,
                    NINF => <$t>::NEG_INFINITY,
                    NZERO => -0.0,
                    _ if smooth() => v as $t / 64.0,
                    _ => v as $t,
                }
            }
            fn to_i(self) -> i64 {
                if dyadic() > 0 {
                    return place(self as f64);
                }
                if smooth() {
                    let q = (self as f64 * 4096.0).floor();
                    return if q.abs() < 1e8 { q as i64 } else { BAD };
                }
                if self.is_nan() {
                    NAN
                } else if self.is_infinite() {
                    if self > 0.0 {
                        PINF
                    } else {
                        NINF
                    }
                } else if self == 0.0 && zeros() && self.is_sign_negative() {
                    NZERO
                } else if self == self.trunc() && self.abs() < 2e9 {
                    self as i64
                } else {
                    BAD
                }
            }
            signed_ops!();
            fn rec(self) -> Self {
                1.0 / self
            }
            fn map(f: &str, t: RcTensor<Self>) -> RcTensor<Self> {
                if f == "abs" {
                    return t.abs();
                }
                function::<$t>(f)(t)
            }
            fn lin(w: RcTensor<Self>, b: RcTensor<Self>, act: &str) -> Box<dyn Model<Self>> {
                let act = if act == "none" {
                    None
                } else {
                    Some(function::<$t>(act))
                };
                Box::new(Lin(Linear::new(w, b, act)))
            }
            fn mlp(ls: Vec<Box<dyn Model<Self>>>) -> Box<dyn Model<Self>> {
                let ls: Vec<Linear<$t>> = ls
                    .into_iter()
                    .map(|l| l.any().downcast::<Lin<$t>>().unwrap().0)
                    .collect();
                match ls.len() {
                    0 => net::<$t, 0>(ls),
                    1 => net::<$t, 1>(ls),
                    2 => net::<$t, 2>(ls),
                    3 => net::<$t, 3>(ls),
                    4 => net::<$t, 4>(ls),
                    5 => net::<$t, 5>(ls),
                    6 => net::<$t, 6>(ls),
                    7 => net::<$t, 7>(ls),
                    8 => net::<$t, 8>(ls),
                    _ => panic!("too many layers"),
                }
            }
        }
    };
}
float!(f32);
float!(f64);
