//! The variables of a program that uses rust_light, and the calls it makes.
//! Every call is one JSON object; so is its reply.  See spec/RustLight.tla.
use crate::ctx;
use crate::el::*;
use crate::mem;
use rust_light::tensor::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub enum Slot<T: El> {
    Rc(RcTensor<T>),
    Raw(RawTensor<T>),
    View(TensorView<T>),
    Mod(Box<dyn Model<T>>),
    Gone,
}
use Slot::*;

pub struct World<T: El> {
    pub slots: Vec<Slot<T>>,
    /// the calls made since the last reset, where they are asked for again
    pub past: Vec<Value>,
}

/// call $body with $x bound to the tensor, whatever its type
#[macro_export]
macro_rules! with_tensor {
    ($slot:expr, $x:ident, $body:expr) => {
        match $slot {
            Slot::Rc($x) => $body,
            Slot::Raw($x) => $body,
            Slot::View($x) => $body,
            _ => panic!("harness: not a tensor"),
        }
    };
}

/// the shape, with nothing in it the specification cannot read
pub fn shape_of<V: TensorLike>(t: &V) -> Vec<usize>
where
    V::Elem: El,
{
    t.shape().iter().map(|&d| d.min(BAD as usize)).collect()
}

/// all elements, in row-major order, read one by one
pub fn elems<V: TensorLike>(t: &V) -> (Vec<usize>, Vec<i64>)
where
    V::Elem: El,
{
    let sh = shape_of(t);
    let n = sh.iter().fold(1usize, |n, &d| n.saturating_mul(d));
    if n > 1 << 22 {
        return (sh, vec![BAD]);
    }
    let mut idx = vec![0; sh.len()];
    let mut val = Vec::with_capacity(n);
    for _ in 0..n {
        val.push(match t.get(&idx) {
            Ok(v) => v.to_i(),
            Err(_) => BAD,
        });
        for d in (0..sh.len()).rev() {
            idx[d] += 1;
            if idx[d] < sh[d] {
                break;
            }
            idx[d] = 0;
        }
    }
    (sh, val)
}

fn out<V: TensorLike>(t: &V) -> Value
where
    V::Elem: El,
{
    let (sh, val) = elems(t);
    json!({"st": "ok", "sh": sh, "val": val})
}

fn val(v: Value) -> Value {
    json!({"st": "ok", "v": v})
}

/// from here on, a number in a log stands for one that TLC has no integer for
pub const FAR: usize = 2_000_000_000;
pub const FARS: &[usize] = &[
    1 << 31, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, 1 << 33, 1 << 40, 1 << 62, 1 << 63, usize::MAX, usize::MAX - 1, usize::MAX / 2,
    (1 << 63) + 1, u32::MAX as usize, i32::MAX as usize,
];

fn usizes(v: &Value) -> Vec<usize> {
    let near = |x: usize| if x < FAR { x } else { FARS[x - FAR] };
    v.as_array().unwrap().iter().map(|x| near(x.as_u64().unwrap() as usize)).collect()
}

/// a shape from dimensions m * 2^e, and back
fn wide(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|d| (d[0].as_u64().unwrap() as usize) << d[1].as_u64().unwrap()).collect()
}

fn narrow(sh: &[usize]) -> Vec<[usize; 2]> {
    sh.iter().map(|&d| if d == 0 { [0, 0] } else { [d >> d.trailing_zeros(), d.trailing_zeros() as usize] }).collect()
}

fn far<T: El>(c: &Value) -> Value {
    fn tell<T: El>(t: &impl TensorLike<Elem = T>) -> Value {
        let n = elems(t).1.len();
        let again = elems(&t.to_tensor()).1.len();
        json!({"st": if n == t.count() && n == again { "ok" } else { "miscounted" }, "n": n, "ds": narrow(&t.shape().iter().copied().collect::<Vec<usize>>())})
    }
    let ds = wide(&c["ds"]);
    let n = c["n"].as_u64().unwrap_or(0) as usize;
    let zero = || T::from_i(0);
    let empty = |sh| RcTensor::new(Vec::<T>::new(), sh);
    match (c["how"].as_str().unwrap(), c["kind"].as_str().unwrap()) {
        ("new", "rc") => tell(&RcTensor::new(vec![zero(); n], ds)),
        ("new", _) => tell(&RawTensor::new(vec![zero(); n], ds)),
        ("fill", "rc") => tell(&RcTensor::new_with_filler(ds, zero())),
        ("fill", _) => tell(&RawTensor::new_with_filler(ds, zero())),
        ("reshape", _) => tell(&RcTensor::new(vec![zero(); n], vec![n]).view(vec![SliceRange::new(0, n)]).reshape(ds)),
        ("add", _) => tell(&(&empty(ds) + &empty(wide(&c["es"])))),
        ("bmm", _) => {
            let r = empty(vec![ds[0], 0]).bmm(&empty(vec![0, ds[1]]));
            tell(&r)
        }
        _ => panic!("harness: far"),
    }
}

fn ranges(v: &Value) -> Vec<SliceRange> {
    let rs: Vec<Vec<usize>> = v.as_array().unwrap().iter().map(usizes).collect();
    rs.into_iter().map(|r| SliceRange::new(r[0], r[1])).collect()
}

fn els<T: El>(v: &Value) -> Vec<T> {
    v.as_array().unwrap().iter().map(|x| T::from_i(x.as_i64().unwrap())).collect()
}

fn generic<T: El>(f: &str) -> fn(T) -> T {
    match f {
        "sq" => |x| x * x,
        "dbl" => |x| x + x,
        "one" => |_| T::one(),
        "rec" => |x| x.rec(),
        "inc" => |x| x + T::one(),
        _ => |x| x,
    }
}

fn nest2<T: El>(v: &Value) -> Vec<Vec<T>> {
    v.as_array().unwrap().iter().map(els).collect()
}
fn nest3<T: El>(v: &Value) -> Vec<Vec<Vec<T>>> {
    v.as_array().unwrap().iter().map(nest2).collect()
}
fn nest4<T: El>(v: &Value) -> Vec<Vec<Vec<Vec<T>>>> {
    v.as_array().unwrap().iter().map(nest3).collect()
}

/// `$R::from` nested data of depth d; as arrays when `form` asks for it and the shape is known here
macro_rules! nest {
    ($R:ident, $T:ty, $x:expr, $d:expr, $form:expr) => {{
        let x = $x;
        if $form == 1 {
            let f = |v: &Value| -> $T { <$T>::from_i(v.as_i64().unwrap()) };
            match ($d, x.as_array().map_or(0, |a| a.len())) {
                (1, 1) => return $R::from([f(&x[0])]),
                (1, 3) => return $R::from([f(&x[0]), f(&x[1]), f(&x[2])]),
                (2, 2) if x[0].as_array().unwrap().len() == 3 && x[1].as_array().unwrap().len() == 3 => {
                    return $R::from([
                        [f(&x[0][0]), f(&x[0][1]), f(&x[0][2])],
                        [f(&x[1][0]), f(&x[1][1]), f(&x[1][2])],
                    ])
                }
                (2, 3) if (0..3).all(|i| x[i].as_array().unwrap().len() == 1) => {
                    return $R::from([[f(&x[0][0])], [f(&x[1][0])], [f(&x[2][0])]])
                }
                (2, 2) => return $R::from([els::<$T>(&x[0]), els::<$T>(&x[1])]),
                (2, _) => {
                    if let Ok(v) = nest2::<$T>(x).into_iter().map(|r| r.try_into()).collect::<Result<Vec<[$T; 2]>, _>>() {
                        return $R::from(v);
                    }
                }
                _ => {}
            }
        }
        match $d {
            0 => $R::from(<$T>::from_i(x.as_i64().unwrap())),
            1 => $R::from(els::<$T>(x)),
            2 => $R::from(nest2::<$T>(x)),
            3 => $R::from(nest3::<$T>(x)),
            _ => $R::from(nest4::<$T>(x)),
        }
    }};
}
fn nest_rc<T: El>(x: &Value, d: u64, form: u64) -> RcTensor<T> {
    nest!(RcTensor, T, x, d, form)
}
fn nest_raw<T: El>(x: &Value, d: u64, form: u64) -> RawTensor<T> {
    nest!(RawTensor, T, x, d, form)
}

fn bmm_any<T: El, V: TensorLike<Elem = T>>(a: &Slot<T>, b: &V, rc: bool) -> Slot<T> {
    match a {
        Rc(a) => Rc(if rc { a.bmm_rc(b) } else { a.bmm(b) }),
        Raw(a) => {
            if rc {
                Rc(a.bmm_rc(b))
            } else {
                Raw(a.bmm(b))
            }
        }
        View(a) => Rc(if rc { a.bmm_rc(b) } else { a.bmm(b) }),
        _ => panic!("harness: not a tensor"),
    }
}

fn grad_of<T: El>(t: &RcTensor<T>) -> Option<RcTensor<T>> {
    catch_unwind(AssertUnwindSafe(|| t.grad())).ok()
}

pub fn see_rc<T: El>(t: &RcTensor<T>) -> Value {
    let (sh, val) = elems(t);
    match grad_of(t) {
        None => json!({"sh": sh, "val": val, "hg": false, "gsh": [], "gval": []}),
        Some(g) => {
            let (gsh, gval) = elems(&g);
            json!({"sh": sh, "val": val, "hg": true, "gsh": gsh, "gval": gval})
        }
    }
}

impl<T: El> World<T> {
    pub fn new() -> World<T> {
        World { slots: Vec::new(), past: Vec::new() }
    }

    pub fn rc(&self, i: usize) -> &RcTensor<T> {
        match &self.slots[i - 1] {
            Rc(t) => t,
            _ => panic!("harness: not an RcTensor"),
        }
    }

    /// the tensor in slot i, for a call that takes it by value: the slot's own handle if
    /// the call says so ("mv"), or else a clone
    fn own(&mut self, i: usize, c: &Value) -> RcTensor<T> {
        if c["mv"].as_array().is_some_and(|m| m.iter().any(|x| x.as_u64() == Some(i as u64))) {
            if let Rc(t) = std::mem::replace(&mut self.slots[i - 1], Gone) {
                return t;
            }
        }
        self.rc(i).clone()
    }

    fn give(&mut self, s: Slot<T>) -> Value {
        let r = with_tensor!(&s, t, out(t));
        self.slots.push(s);
        r
    }

    /// Make call c.  A call that panics is "reject", and has no effect on the slots.
    pub fn exec(&mut self, c: &Value) -> Value {
        if c["op"] == "mem" {
            return mem::again::<T>(&self.past, c);
        }
        if mem::REMEMBER.load(std::sync::atomic::Ordering::Relaxed) {
            if c["op"] == "reset" {
                self.past.clear();
            } else {
                self.past.push(c.clone());
            }
        }
        self.make(c)
    }

    pub fn make(&mut self, c: &Value) -> Value {
        let n = self.slots.len();
        let done = if c["op"] == "many" {
            catch_unwind(AssertUnwindSafe(|| self.many(c)))
        } else if let Some(x) = c.get("ctx") {
            catch_unwind(AssertUnwindSafe(|| ctx::run(x, || self.call(c))))
        } else {
            catch_unwind(AssertUnwindSafe(|| self.call(c)))
        };
        match done {
            Ok(r) => r,
            Err(e) => {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                if msg.starts_with("harness:") {
                    eprintln!("{msg}: {c}");
                    std::process::exit(2);
                }
                self.slots.truncate(n);
                json!({"st": "reject"})
            }
        }
    }

    /// several calls at once
    fn many(&mut self, c: &Value) -> Value {
        let cs = c["cs"].as_array().unwrap();
        let this = &*self;
        let rs = ctx::at_once(&c["ctx"], cs.len(), &|i| {
            catch_unwind(AssertUnwindSafe(|| this.shared_call(&cs[i]))).ok()
        });
        let rs: Vec<Value> = rs
            .into_iter()
            .map(|r| match r {
                None => json!({"st": "reject"}),
                Some(None) => json!({"st": "ok"}),
                Some(Some(s)) => self.give(s),
            })
            .collect();
        json!({"st": "ok", "rs": rs})
    }

    /// the calls that several threads may make at once
    fn shared_call(&self, c: &Value) -> Option<Slot<T>> {
        let slot = |k: &str| &self.slots[c[k].as_u64().unwrap() as usize - 1];
        match c["op"].as_str().unwrap() {
            "backward" => {
                self.rc(c["a"].as_u64().unwrap() as usize).backward();
                None
            }
            "bmm" => Some(with_tensor!(slot("b"), b, bmm_any(slot("a"), b, false))),
            op => panic!("harness: not at once: {op}"),
        }
    }

    pub fn see(&self) -> Value {
        self.slots
            .iter()
            .map(|s| match s {
                Rc(t) => see_rc(t),
                Raw(t) => {
                    let (sh, val) = elems(t);
                    json!({"sh": sh, "val": val})
                }
                View(t) => {
                    let (sh, val) = elems(t);
                    json!({"sh": sh, "val": val})
                }
                Mod(m) => json!({"ps": m.ps().iter().map(see_rc).collect::<Vec<_>>()}),
                Gone => json!({"gone": true}),
            })
            .collect::<Vec<_>>()
            .into()
    }

    fn call(&mut self, c: &Value) -> Value {
        if c.get("mv").is_some() {
            return self.moving(c);
        }
        let op = c["op"].as_str().unwrap_or_else(|| panic!("harness: no op"));
        let form = c["form"].as_u64().unwrap_or(0);
        let slot = |k: &str| -> usize { c[k].as_u64().unwrap_or_else(|| panic!("harness: no {k}")) as usize };
        let kind = c["kind"].as_str().unwrap_or("rc");
        let scalar = |k: &str| T::from_i(c[k].as_i64().unwrap());
        let s: Slot<T> = match op {
            "obs" => return val(self.see()),
            // slots at the end whose handles are gone can be used again
            "gc" => {
                while let Some(Gone) = self.slots.last() {
                    self.slots.pop();
                }
                return json!({"st": "ok"});
            }
            "reset" => {
                self.slots.clear();
                return json!({"st": "ok"});
            }
            "far" => return far::<T>(c),
            // -------------------------------------------------- making tensors
            "new" => {
                let (v, sh) = (els(&c["val"]), usizes(&c["sh"]));
                match kind {
                    "rc" => Rc(RcTensor::new(v, sh)),
                    _ => Raw(RawTensor::new(v, sh)),
                }
            }
            "fill" => match kind {
                "rc" => Rc(RcTensor::new_with_filler(usizes(&c["sh"]), scalar("v"))),
                _ => Raw(RawTensor::new_with_filler(usizes(&c["sh"]), scalar("v"))),
            },
            "scalar" => match (kind, form) {
                ("rc", 0) => Rc(RcTensor::scalar(scalar("v"))),
                ("rc", _) => Rc(RcTensor::from(scalar("v"))),
                (_, 0) => Raw(RawTensor::scalar(scalar("v"))),
                _ => Raw(RawTensor::from(scalar("v"))),
            },
            "nest" => {
                let d = c["d"].as_u64().unwrap();
                match kind {
                    "rc" => Rc(nest_rc(&c["x"], d, form)),
                    _ => Raw(nest_raw(&c["x"], d, form)),
                }
            }
            "clone" => match &self.slots[slot("a") - 1] {
                Rc(t) => Rc(t.clone()),
                Raw(t) => Raw(t.clone()),
                View(t) => View(t.clone()),
                _ => panic!("harness: not a tensor"),
            },
            "to_tensor" => Rc(with_tensor!(&self.slots[slot("a") - 1], t, t.to_tensor())),
            "deep_clone" => Rc(with_tensor!(&self.slots[slot("a") - 1], t, t.deep_clone())),
            "deref" => Raw((**self.rc(slot("a"))).clone()),
            "drop" => {
                self.slots[slot("a") - 1] = Gone;
                return json!({"st": "ok"});
            }
            "tensor" => Rc(match &self.slots[slot("a") - 1] {
                Rc(t) => t.tensor(),
                View(t) => t.tensor(),
                _ => panic!("harness: tensor"),
            }),
            // ------------------------------------------------ two operands
            "add" => match (&self.slots[slot("a") - 1], &self.slots[slot("b") - 1]) {
                (Rc(a), Rc(b)) => Rc(if form == 0 { a + b } else { a.clone() + b.clone() }),
                (Raw(a), b) => Raw(with_tensor!(b, b, a + b)),
                _ => panic!("harness: add"),
            },
            "sub" => match (&self.slots[slot("a") - 1], &self.slots[slot("b") - 1]) {
                (Rc(a), Rc(b)) => Rc(T::sub_rc(a, b, form as usize)),
                (Raw(a), Raw(b)) => Raw(T::sub_raw(a, b)),
                (Raw(a), Rc(b)) => Raw(T::sub_raw_rc(a, b)),
                _ => panic!("harness: sub"),
            },
            "mul" => match (&self.slots[slot("a") - 1], &self.slots[slot("b") - 1]) {
                (Rc(a), Rc(b)) if form == 2 => Rc(a * b.clone()),
                (Rc(a), Rc(b)) if form == 3 => Rc(a.clone() * b.clone()),
                (Rc(a), b) if form == 1 => Rc(with_tensor!(b, b, a.clone() * b)),
                (Rc(a), b) => Rc(with_tensor!(b, b, a * b)),
                (Raw(a), Rc(b)) if form == 2 => Raw(a * b.clone()),
                (Raw(a), b) => Raw(with_tensor!(b, b, a * b)),
                _ => panic!("harness: mul"),
            },
            "emul" => {
                let (a, b) = (&self.slots[slot("a") - 1], &self.slots[slot("b") - 1]);
                Raw(with_tensor!(a, a, with_tensor!(b, b, functional::element_wise_multiplication(a, b))))
            }
            "bmm" | "bmm_rc" => {
                let (a, b) = (&self.slots[slot("a") - 1], &self.slots[slot("b") - 1]);
                with_tensor!(b, b, bmm_any(a, b, op == "bmm_rc"))
            }
            "fdot" => Rc(functional::dot(self.rc(slot("a")), self.rc(slot("b")))),
            "fdotnd" => {
                let (a, b) = (&self.slots[slot("a") - 1], &self.slots[slot("b") - 1]);
                Rc(with_tensor!(a, a, with_tensor!(b, b, functional::dot_no_derivative(a, b))))
            }
            "rdot" => match (&self.slots[slot("a") - 1], &self.slots[slot("b") - 1]) {
                (Raw(a), b) => Rc(with_tensor!(b, b, a.dot(b))),
                _ => panic!("harness: rdot"),
            },
            "sshape" => {
                let (a, b) = (&self.slots[slot("a") - 1], &self.slots[slot("b") - 1]);
                return val(with_tensor!(a, a, with_tensor!(b, b, a.same_shape(&b))).into());
            }
            "eq" => {
                return val(match (&self.slots[slot("a") - 1], &self.slots[slot("b") - 1]) {
                    (Rc(a), Rc(b)) => if form == 0 { a == b } else { !(a != b) },
                    (Raw(a), Raw(b)) => if form == 0 { a == b } else { !(a != b) },
                    (Raw(a), Rc(b)) => *a == **b,
                    (Rc(a), Raw(b)) => **a == *b,
                    (View(a), b) => with_tensor!(b, b, if form == 0 { a == b } else { !(a != b) }),
                    _ => panic!("harness: eq"),
                }
                .into())
            }
            // --------------------------------------------------- one operand
            "neg" => match &self.slots[slot("a") - 1] {
                Rc(a) => Rc(T::neg_rc(a, form as usize)),
                Raw(a) => Raw(T::neg_raw(a)),
                _ => panic!("harness: neg"),
            },
            "smul" => {
                let v = scalar("v");
                Raw(with_tensor!(&self.slots[slot("a") - 1], a, if form == 0 {
                    a.left_scalar_multiplication(&v)
                } else {
                    a.right_scalar_multiplication(&v)
                }))
            }
            "sum" => match &self.slots[slot("a") - 1] {
                Rc(a) => Rc(a.sum()),
                Raw(a) => Raw(a.sum()),
                View(a) => Rc(a.sum()),
                _ => panic!("harness: sum"),
            },
            "chain" => {
                let (mut acc, b) = (self.rc(slot("a")).clone(), self.rc(slot("b")).clone());
                for _ in 0..slot("n") {
                    acc = if c["f"] == "neg" { T::neg_rc(&acc, 0) } else { &acc + &b };
                }
                Rc(acc)
            }
            "map" => Rc(T::map(c["f"].as_str().unwrap(), self.rc(slot("a")).clone())),
            "gun" => {
                let f = generic::<T>(c["f"].as_str().unwrap());
                Raw(with_tensor!(&self.slots[slot("a") - 1], a, functional::generic_unary_op(a, f)))
            }
            "view" => View(match &self.slots[slot("a") - 1] {
                Rc(a) if form == 0 => a.view(ranges(&c["rs"])),
                Rc(a) if form == 1 => a.slice(ranges(&c["rs"])),
                Rc(a) => TensorView::new(a.clone(), ranges(&c["rs"])),
                Raw(a) => a.slice(ranges(&c["rs"])),
                View(a) => a.slice(ranges(&c["rs"])),
                _ => panic!("harness: view"),
            }),
            "reshape" => match &self.slots[slot("a") - 1] {
                View(a) => View(a.reshape(usizes(&c["sh"]))),
                _ => panic!("harness: reshape"),
            },
            "get" => {
                let idx = usizes(&c["idx"]);
                return with_tensor!(&self.slots[slot("a") - 1], a, match a.get(&idx) {
                    Ok(v) => val(v.to_i().into()),
                    Err(_) => json!({"st": "err"}),
                });
            }
            "index" => {
                let idx = usizes(&c["idx"]);
                return val(match &self.slots[slot("a") - 1] {
                    Rc(a) => a[&idx],
                    Raw(a) => a[&idx],
                    View(a) => a[&idx],
                    _ => panic!("harness: index"),
                }
                .to_i()
                .into());
            }
            "first" => {
                return val(with_tensor!(&self.slots[slot("a") - 1], a, a.get_first_elem().to_i().into()))
            }
            "elem" => return val(with_tensor!(&self.slots[slot("a") - 1], a, a.elem().to_i().into())),
            "meta" => {
                return val(with_tensor!(
                    &self.slots[slot("a") - 1],
                    a,
                    json!({"sh": shape_of(a), "count": a.count().min(BAD as usize), "scalar": match &self.slots[slot("a") - 1] {
                        Rc(t) => t.is_scalar(),
                        Raw(t) => t.is_scalar(),
                        _ => a.shape().is_empty(),
                    }})
                ))
            }
            "bcast" => {
                let sh = usizes(&c["sh"]);
                return val(with_tensor!(&self.slots[slot("a") - 1], a, a.broadcastable(&sh)).into());
            }
            "iter" => {
                let (mut all, mut more) = (Vec::new(), 1 << 20);
                with_tensor!(&self.slots[slot("a") - 1], a, for i in a.iter_indices() {
                    more -= 1;
                    if more == 0 {
                        break;
                    }
                    all.push(i.iter().map(|&x| x.min(BAD as usize)).collect::<Vec<_>>());
                });
                return val(json!(all));
            }
            "show" => {
                let text = format!("{}", self.rc(slot("a")));
                let inside = text.strip_prefix('[').and_then(|t| t.strip_suffix(']')).unwrap_or("?");
                let all: Vec<i64> = inside
                    .split(", ")
                    .filter(|x| !x.is_empty())
                    .map(|x| x.parse::<T>().map_or(BAD, |v| v.to_i()))
                    .collect();
                return val(json!(all));
            }
            // ------------------------------------------------------ gradients
            "backward" => {
                self.rc(slot("a")).backward();
                return json!({"st": "ok"});
            }
            "zero" => {
                match &self.slots[slot("a") - 1] {
                    Rc(t) => t.zero_grad(),
                    Raw(t) => t.zero_grad(),
                    _ => panic!("harness: zero"),
                }
                return json!({"st": "ok"});
            }
            "upd" => {
                let g = self.rc(slot("b")).clone();
                match &self.slots[slot("a") - 1] {
                    Rc(t) => t.update_grad(g),
                    Raw(t) => t.update_grad(g),
                    _ => panic!("harness: upd"),
                }
                return json!({"st": "ok"});
            }
            "grad" => Rc(self.rc(slot("a")).grad()),
            // --------------------------------------------------------- models
            "lin" => {
                let (w, b) = (self.rc(slot("w")).clone(), self.rc(slot("b")).clone());
                let m = T::lin(w, b, c["act"].as_str().unwrap());
                self.slots.push(Mod(m));
                return json!({"st": "ok"});
            }
            "mlp" => {
                let ms = usizes(&c["ms"]);
                let ls = ms
                    .iter()
                    .map(|&i| match std::mem::replace(&mut self.slots[i - 1], Gone) {
                        Mod(m) => m,
                        _ => panic!("harness: mlp"),
                    })
                    .collect();
                let m = T::mlp(ls);
                self.slots.push(Mod(m));
                return json!({"st": "ok"});
            }
            "fwd" => {
                let x = self.rc(slot("x")).clone();
                Rc(self.model(slot("m")).fwd(x))
            }
            "params" => {
                let m = self.model(slot("m"));
                let ps = match form {
                    0 => m.ps(),
                    1 => m.inherent().unwrap_or_else(|| m.ps()),
                    _ => m.fields().unwrap_or_else(|| m.ps()),
                };
                let n = ps.len();
                self.slots.extend(ps.into_iter().map(Rc));
                return val(n.into());
            }
            "setf" => {
                let p = self.rc(slot("p")).clone();
                self.model(slot("m")).setf(c["f"].as_str().unwrap(), p);
                return json!({"st": "ok"});
            }
            "setp" => {
                let ps = usizes(&c["ps"]).iter().map(|&i| self.rc(i).clone()).collect();
                self.model(slot("m")).setp(ps);
                return json!({"st": "ok"});
            }
            "sgd" => {
                let lr = self.rc(slot("lr")).clone();
                self.model(slot("m")).sgd(lr);
                return json!({"st": "ok"});
            }
            _ => panic!("harness: unknown op {op}"),
        };
        self.give(s)
    }

    /// calls that some operands are moved into
    fn moving(&mut self, c: &Value) -> Value {
        let op = c["op"].as_str().unwrap();
        let form = c["form"].as_u64().unwrap_or(0);
        let slot = |k: &str| -> usize { c[k].as_u64().unwrap_or_else(|| panic!("harness: no {k}")) as usize };
        let s = match op {
            "add" | "sub" => {
                let (a, b) = (self.own(slot("a"), c), self.own(slot("b"), c));
                Rc(if op == "add" { a + b } else { T::sub_owned(a, b) })
            }
            "mul" => {
                let (a, b) = (self.own(slot("a"), c), self.own(slot("b"), c));
                Rc(if form == 2 { &a * b } else { a * b })
            }
            "map" => {
                let a = self.own(slot("a"), c);
                Rc(T::map(c["f"].as_str().unwrap(), a))
            }
            "view" => {
                let a = self.own(slot("a"), c);
                View(TensorView::new(a, ranges(&c["rs"])))
            }
            "upd" => {
                let g = self.own(slot("b"), c);
                match &self.slots[slot("a") - 1] {
                    Rc(t) => t.update_grad(g),
                    Raw(t) => t.update_grad(g),
                    _ => panic!("harness: upd"),
                }
                return json!({"st": "ok"});
            }
            "lin" => {
                let (w, b) = (self.own(slot("w"), c), self.own(slot("b"), c));
                let m = T::lin(w, b, c["act"].as_str().unwrap());
                self.slots.push(Mod(m));
                return json!({"st": "ok"});
            }
            "fwd" => {
                let x = self.own(slot("x"), c);
                Rc(self.model(slot("m")).fwd(x))
            }
            "setp" => {
                let ps = usizes(&c["ps"]).iter().map(|&i| self.own(i, c)).collect();
                self.model(slot("m")).setp(ps);
                return json!({"st": "ok"});
            }
            "sgd" => {
                let lr = self.own(slot("lr"), c);
                self.model(slot("m")).sgd(lr);
                return json!({"st": "ok"});
            }
            _ => panic!("harness: nothing to move into {op}"),
        };
        self.give(s)
    }

    pub fn model(&mut self, i: usize) -> &mut Box<dyn Model<T>> {
        match &mut self.slots[i - 1] {
            Mod(m) => m,
            _ => panic!("harness: not a model"),
        }
    }
}
