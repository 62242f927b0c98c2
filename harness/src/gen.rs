//! Random programs over the public interface of rust_light, run on the real code
//! and logged call by call.  Whether the replies are right is decided by TLC
//! (spec/Trace.tla); this module only tries to make interesting calls and keeps
//! all numbers small enough to be exact in every element type.
use crate::ctx;
use crate::el::*;
use crate::rng::Rng;
use crate::world::*;
use serde_json::{json, Value};
use std::io::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Rc,
    Raw,
    View,
    Lin,
    Mlp,
    Gone,
}
use Kind::*;

#[derive(Clone, Debug)]
struct Meta {
    kind: Kind,
    sh: Vec<usize>,
    /// bound on the value with every leaf element replaced by its magnitude (at least 1)
    b: f64,
    /// degree as a polynomial of leaf elements; b * deg bounds every derivative
    deg: f64,
    /// number of paths backward walks
    paths: f64,
    /// computed by a recorded operation
    op: bool,
    /// all elements where tanh is exact
    tanh_ok: bool,
    /// contains a value that is not an integer
    special: bool,
    layers: Vec<(Box<Meta>, Box<Meta>, String)>,
}

impl Meta {
    /// not for arithmetic
    fn odd(&self) -> bool {
        self.special && !ieee()
    }
}

#[derive(Clone)]
pub struct Shapes {
    pub max_rank: usize,
    pub max_size: usize,
    /// percent of dimensions that are 0 or 1
    pub zero: usize,
    pub one: usize,
    pub max_dim: usize,
}

#[derive(Clone)]
pub struct Profile {
    pub name: &'static str,
    pub types: &'static [&'static str],
    pub ops: &'static [(usize, &'static str)],
    pub shapes: Shapes,
    pub steps: usize,
    /// percent of calls after which everything is looked at
    pub obs: usize,
    /// percent of operands chosen without regard to whether they fit
    pub misfit: usize,
    /// percent of leaves with NaN and infinities
    pub special: usize,
}

pub struct Gen<'a, T: El> {
    pub w: World<T>,
    m: Vec<Meta>,
    rng: &'a mut Rng,
    p: &'a Profile,
    out: &'a mut dyn Write,
    pub lines: usize,
    gsum: f64,
    /// the order of magnitude of a program whose values are dyadic
    base: i32,
    tame: bool,
    /// programs that do not hold on to everything
    loose: bool,
    /// not to be moved
    keep: Vec<usize>,
    /// to be moved wherever they can be
    force: Vec<usize>,
    /// slots made before the part of the program that is repeated
    fixed: Option<usize>,
}

fn prod(sh: &[usize]) -> usize {
    sh.iter().product()
}

fn ints(v: &Value) -> Vec<i64> {
    v.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_i64().unwrap_or(BAD)).collect())
}

fn dims(v: &Value) -> Vec<usize> {
    v.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap_or(0) as usize).collect())
}

pub fn bshape(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let r = a.len().max(b.len());
    let at = |s: &[usize], e: usize| if e < s.len() { s[s.len() - 1 - e] } else { 1 };
    let mut out = vec![0; r];
    for e in 0..r {
        let (x, y) = (at(a, e), at(b, e));
        if x != y && x != 1 && y != 1 {
            return None;
        }
        out[r - 1 - e] = if x == 1 { y } else { x };
    }
    Some(out)
}

impl<'a, T: El> Gen<'a, T> {
    pub fn new(rng: &'a mut Rng, p: &'a Profile, out: &'a mut dyn Write) -> Gen<'a, T> {
        let base = match dyadic() {
            0 => 0,
            1 => *rng.pick(&[-148, -140, -100, -60, -40, -30, -24, -20, -10, -3, 0, 3, 10, 20, 24, 40, 60, 100]),
            _ => *rng.pick(&[-1072, -1040, -900, -500, -300, -140, -70, -52, -50, -40, -30, -10, 0, 10, 30, 40, 52, 70, 140, 300, 500, 900]),
        };
        // models add up numbers that are products of more and less factors
        let tame = dyadic() > 0 && ["sgd", "models", "train"].iter().any(|x| p.name.ends_with(x)) && rng.pct(60);
        let base = if tame { *rng.pick(&[-10, -7, -5, -4, -3, -2, 0, 0, 2, 3, 5, 8]) } else { base };
        Gen { w: World::new(), m: vec![], rng, p, out, lines: 0, gsum: 0.0, base, tame, loose: false, keep: vec![], force: vec![], fixed: None }
    }

    /// make the call, log it
    fn call(&mut self, mut c: Value) -> Value {
        if self.p.name.starts_with("par") && (c["op"] == "bmm" || c["op"] == "bmm_rc" || c["op"] == "backward") {
            let how = *self.rng.pick(ctx::HOWS);
            c["ctx"] = json!({"n": self.pool(), "how": how});
        }
        let moved = self.moved(&c);
        if !moved.is_empty() {
            c["mv"] = json!(moved);
        }
        // the call first: it can be told from the log if it never returns
        write!(self.out, "{{\"c\":{c}").unwrap();
        let r = self.w.exec(&c);
        self.lines += 1;
        writeln!(self.out, ",\"r\":{r}}}").unwrap();
        for i in moved {
            self.m[i - 1].kind = Gone;
        }
        r
    }

    /// which operands to move into the call, so that nothing else holds on to them
    fn moved(&mut self, c: &Value) -> Vec<usize> {
        if !self.loose && self.force.is_empty() {
            return vec![];
        }
        let form = c["form"].as_u64().unwrap_or(0);
        let fields: &[&str] = match c["op"].as_str().unwrap() {
            "add" => &["a", "b"],
            "sub" => &["a", "b"],
            "mul" => match form {
                2 => &["b"],
                3 => &["a", "b"],
                _ => &[],
            },
            "map" => &["a"],
            "view" if form == 2 => &["a"],
            "upd" => &["b"],
            "lin" => &["w", "b"],
            "fwd" => &["x"],
            "sgd" => &["lr"],
            "setp" => &["ps"],
            _ => &[],
        };
        let all: Vec<usize> = fields
            .iter()
            .flat_map(|&f| if c[f].is_array() { dims(&c[f]) } else { vec![c[f].as_u64().unwrap() as usize] })
            .collect();
        // by-value forms are for tensors only
        if all.iter().any(|&i| self.m[i - 1].kind != Rc) || c["op"] == "mul" && fields.len() == 1 && self.m[c["a"].as_u64().unwrap() as usize - 1].kind != Rc {
            return vec![];
        }
        let free = |i: &usize| {
            !self.keep.contains(i) && all.iter().filter(|&j| j == i).count() == 1 && (c["a"] != json!(i) || fields.contains(&"a"))
        };
        let free: Vec<usize> = all.iter().cloned().filter(free).collect();
        free.into_iter().filter(|i| self.force.contains(i) || self.loose && self.rng.pct(70)).collect()
    }

    /// let go of a handle
    fn let_go(&mut self, i: usize) {
        self.call(json!({"op": "drop", "a": i}));
        self.m[i - 1].kind = Gone;
    }

    /// how many threads; 0 stands for the global pool
    fn pool(&mut self) -> usize {
        *self.rng.pick(&[0, 1, 1, 2, 2, 3, 4, 5, 8])
    }

    fn leaf_meta(kind: Kind, sh: Vec<usize>, val: &[i64]) -> Meta {
        if dyadic() > 0 {
            return Meta { kind, sh, b: 1.0, deg: 1.0, paths: 0.0, op: false, tanh_ok: true, special: false, layers: vec![] };
        }
        let special = val.iter().any(|&v| v >= NZERO || v <= NINF);
        let counts = |v: &&i64| !ieee() || **v < NZERO && **v > NINF;
        let mx = val.iter().filter(counts).map(|v| v.unsigned_abs()).max().unwrap_or(1).max(1) as f64;
        let mx = if smooth() { (mx / 4096.0).max(1.0) } else { mx };
        Meta {
            kind,
            sh,
            b: mx,
            deg: 1.0,
            paths: 0.0,
            op: false,
            tanh_ok: val.iter().all(|&v| v == 0 || v == NZERO || v >= 24 || v <= -24) && !val.contains(&BAD),
            special,
            layers: vec![],
        }
    }

    /// a call that makes a tensor; register it as computed (Some) or fresh (None)
    fn make(&mut self, c: Value, kind: Kind, from: Option<(f64, f64, f64)>) -> Option<usize> {
        let r = self.call(c);
        if r["st"] != "ok" {
            return None;
        }
        let val = ints(&r["val"]);
        let mut m = Self::leaf_meta(kind, dims(&r["sh"]), &val);
        if let Some((b, deg, paths)) = from {
            m.b = m.b.max(b);
            m.deg = deg;
            m.paths = paths;
            m.op = true;
        }
        self.m.push(m);
        Some(self.m.len())
    }

    /// values of all magnitudes; within a tensor mostly such that their sums are exact
    fn dyads(&mut self, n: usize) -> Vec<i64> {
        let (lo, hi, wide) = if dyadic() == 1 { (-149, 120, 22) } else { (-1074, 1000, 29) };
        let b = self.base;
        let e = *self.rng.pick(&[b, b, b, b, -b, 0, b / 2]);
        let how = self.rng.below(if self.tame { 6 } else { 10 });
        let e = e.clamp(if how == 6 { lo + wide } else { lo }, hi - 30);
        (0..n)
            .map(|_| {
                let small = self.rng.range(-3, 3) as f64;
                let v = match how {
                    0..=3 => scaled(small, e),
                    4 => scaled(if self.rng.pct(30) { small } else { 0.0 }, e),
                    5 => small,
                    // close to one another
                    6 => scaled((1i64 << wide) as f64 + small, e - wide),
                    7 => 1.0 + scaled(small, -wide),
                    // anything
                    8 => scaled(if small < 0.0 { -1.0 } else { 1.0 }, self.rng.range(lo as i64, hi as i64) as i32),
                    _ if self.rng.pct(60) => 0.0,
                    _ => scaled(small, self.rng.range(lo as i64, hi as i64) as i32),
                };
                place(v)
            })
            .collect()
    }

    fn value(&mut self) -> i64 {
        if dyadic() > 0 {
            return self.dyads(1)[0];
        }
        if smooth() {
            return match self.rng.below(6) {
                0 => 0,
                1 => self.rng.range(-128, 128),
                _ => self.rng.range(-64, 64),
            };
        }
        if T::CLASS == Class::Unsigned {
            self.rng.range(0, 4)
        } else {
            match self.rng.below(10) {
                0 | 1 => 0,
                2 => *self.rng.pick(&[24, -24, 30, -31, 7]),
                _ => self.rng.range(-4, 4),
            }
        }
    }

    fn values(&mut self, n: usize) -> Vec<i64> {
        if dyadic() > 0 {
            return self.dyads(n);
        }
        if smooth() {
            let m = *self.rng.pick(&[0, 20, 64, 64, 64, 64, 128, 128]);
            return (0..n).map(|_| self.rng.range(-m, m)).collect();
        }
        let limit = if n > 300 { 2 } else { 4 };
        if T::CLASS == Class::Float && self.rng.pct(self.p.special) {
            return (0..n)
                .map(|_| {
                    if zeros() {
                        *self.rng.pick(&[NZERO, NZERO, 0, 1, -1, 24, PINF, NINF, NAN])
                    } else if ieee() {
                        *self.rng.pick(&[0, 0, 1, -1, 2, -3, 24, -30, PINF, PINF, NINF, NAN])
                    } else if self.rng.pct(30) {
                        *self.rng.pick(&[NAN, PINF, NINF])
                    } else {
                        *self.rng.pick(&[0, 0, 24, -24, 30, -40])
                    }
                })
                .collect();
        }
        match self.rng.below(6) {
            0 => (0..n).map(|_| self.value()).collect(),
            // distinct elements show any mix-up of positions
            1 if n <= 100 => (0..n as i64).map(|i| i + 1).collect(),
            2 if T::CLASS == Class::Float => {
                (0..n).map(|_| *self.rng.pick(&[0, 24, -24, 25, -30, 0, 100])).collect()
            }
            _ if T::CLASS == Class::Unsigned => (0..n).map(|_| self.rng.range(0, limit)).collect(),
            _ => (0..n).map(|_| self.rng.range(-limit, limit)).collect(),
        }
    }

    fn dim(&mut self) -> usize {
        let s = &self.p.shapes;
        let (z, o, mx) = (s.zero, s.one, s.max_dim);
        let r = self.rng.below(100);
        if r < z {
            0
        } else if r < z + o {
            1
        } else if mx > 8 && self.rng.pct(12) {
            // a round size, or one next to it
            let n = 8usize << self.rng.below((mx / 8).ilog2() as usize + 1);
            n + self.rng.below(10).saturating_sub(8) - self.rng.below(10).saturating_sub(8)
        } else if self.rng.pct(if mx >= 100 { 45 } else { 80 }) {
            2 + self.rng.below(mx.min(4).saturating_sub(1))
        } else {
            1 + self.rng.below(mx)
        }
    }

    fn fit(&mut self, mut sh: Vec<usize>) -> Vec<usize> {
        while prod(&sh) > self.p.shapes.max_size {
            let i = self.rng.below(sh.len());
            sh[i] = 1 + sh[i] / 3;
        }
        sh
    }

    fn shape_of_rank(&mut self, r: usize) -> Vec<usize> {
        let sh = (0..r).map(|_| self.dim()).collect();
        self.fit(sh)
    }

    fn shape(&mut self) -> Vec<usize> {
        if self.p.name.ends_with("_vast") {
            return self.vast_shape();
        }
        let r = self.rng.below(self.p.shapes.max_rank + 1);
        self.shape_of_rank(r)
    }

    /// one of thousands of elements
    fn vast_shape(&mut self) -> Vec<usize> {
        let n = *self.rng.pick(&[3_000, 3_000, 6_000, 6_000, 12_000, 12_000, 25_000, 38_000, 70_000]);
        let round = self.rng.pct(25);
        let mut n = if round { 1 << (12 + self.rng.below(5)) } else { n + self.rng.below(n / 20) };
        let mut sh = vec![];
        for _ in 1..1 + self.rng.below(self.p.shapes.max_rank) {
            let d = *self.rng.pick(if round { &[2, 4, 16, 32, 64, 128, 256, 1024, 4096] } else { &[2, 3, 5, 7, 16, 31, 64, 100, 257] });
            sh.push(d.min(n));
            n = if round { n / d.min(n) } else { n / d + 1 };
        }
        let i = self.rng.below(sh.len() + 1);
        sh.insert(i, n);
        self.fit(sh)
    }

    /// a shape that sh broadcasts with
    fn friend_shape(&mut self, sh: &[usize]) -> Vec<usize> {
        let mut out: Vec<usize> = sh
            .iter()
            .map(|&d| {
                if d == 1 && self.rng.pct(40) {
                    self.dim()
                } else if self.rng.pct(30) {
                    1
                } else {
                    d
                }
            })
            .collect();
        match self.rng.below(6) {
            0 => {
                let k = self.rng.below(out.len() + 1);
                out.drain(..k);
            }
            1 if out.len() < self.p.shapes.max_rank => {
                let d = self.dim();
                out.insert(0, d);
            }
            _ => {}
        }
        if bshape(sh, &out).map_or(true, |b| prod(&b) > self.p.shapes.max_size) {
            return sh.to_vec();
        }
        out
    }

    fn kind_name(&mut self, kind: &Kind) -> &'static str {
        if *kind == Raw {
            "raw"
        } else {
            "rc"
        }
    }

    /// a new tensor of that shape, made in one of the possible ways
    fn leaf(&mut self, sh: Vec<usize>, kind: Kind) -> Option<usize> {
        let k = self.kind_name(&kind);
        let n = prod(&sh);
        let form = self.rng.below(2);
        match self.rng.below(8) {
            0 => {
                let v = self.value();
                self.make(json!({"op": "fill", "kind": k, "sh": sh, "v": v}), kind, None)
            }
            1 if sh.is_empty() => {
                let v = self.value();
                self.make(json!({"op": "scalar", "kind": k, "v": v, "form": form}), kind, None)
            }
            2 if sh.len() <= 4 && n > 0 => {
                let v = self.values(n);
                let x = nested(&sh, &v);
                self.make(json!({"op": "nest", "kind": k, "d": sh.len(), "x": x, "form": form}), kind, None)
            }
            _ => {
                let v = self.values(n);
                self.make(json!({"op": "new", "kind": k, "sh": sh, "val": v}), kind, None)
            }
        }
    }

    fn slots(&self, f: impl Fn(&Meta) -> bool) -> Vec<usize> {
        self.m.iter().enumerate().filter(|(_, m)| f(m)).map(|(i, _)| i + 1).collect()
    }


    /// one of the slots that satisfy f; later ones are likelier
    fn pick(&mut self, f: impl Fn(&Meta) -> bool) -> Option<usize> {
        let c = self.slots(f);
        if c.is_empty() {
            return None;
        }
        if self.rng.pct(50) {
            let k = c.len().saturating_sub(3);
            return Some(*self.rng.pick(&c[k..]));
        }
        Some(*self.rng.pick(&c))
    }

    /// a tensor of one of these kinds: mostly an existing one
    fn tensor(&mut self, kinds: &[Kind]) -> Option<usize> {
        if self.rng.pct(80) {
            let ks = kinds.to_vec();
            if let Some(i) = self.pick(move |m| ks.contains(&m.kind)) {
                return Some(i);
            }
        }
        self.fresh(kinds)
    }

    fn fresh(&mut self, kinds: &[Kind]) -> Option<usize> {
        let sh = self.shape();
        self.fresh_of(sh, kinds)
    }

    fn fresh_of(&mut self, sh: Vec<usize>, kinds: &[Kind]) -> Option<usize> {
        let kind = self.rng.pick(kinds).clone();
        if kind == View {
            // part of something a little larger
            let big: Vec<usize> = sh
                .iter()
                .map(|&d| d + if prod(&sh) < 200 && self.rng.pct(50) { self.rng.below(3) } else { 0 })
                .collect();
            let of = if self.rng.pct(70) { Rc } else { Raw };
            let base = self.leaf(big.clone(), of)?;
            let rs: Vec<[usize; 2]> = (0..sh.len())
                .map(|d| {
                    let lo = self.rng.below(big[d] - sh[d] + 1);
                    [lo, lo + sh[d]]
                })
                .collect();
            let form = self.rng.below(3);
            return self.make(json!({"op": "view", "a": base, "rs": rs, "form": form}), View, None);
        }
        self.leaf(sh, kind)
    }

    /// an existing tensor with such a shape, or a fresh one of the shape given
    fn with_shape(&mut self, kinds: &[Kind], ok: impl Fn(&[usize]) -> bool, sh: Vec<usize>) -> Option<usize> {
        if self.rng.pct(self.p.misfit) {
            return self.tensor(kinds);
        }
        if self.rng.pct(60) {
            let ks = kinds.to_vec();
            if let Some(i) = self.pick(|m| ks.contains(&m.kind) && ok(&m.sh)) {
                return Some(i);
            }
        }
        self.fresh_of(sh, kinds)
    }

    fn lim(b: f64, deg: f64) -> bool {
        b * deg <= T::limit()
    }

    /// the bounds of a recorded operation on slots a and b
    fn rec(&self, b: f64, deg: f64, args: &[usize]) -> Option<(f64, f64, f64)> {
        let paths: f64 = args.iter().map(|&a| self.m[a - 1].paths + 1.0).sum();
        Some((b, deg, paths))
    }

    pub fn observe(&mut self) {
        self.call(json!({"op": "obs"}));
    }

    pub fn reset(&mut self) {
        self.call(json!({"op": "reset", "t": T::NAME}));
        self.m.clear();
        self.gsum = 0.0;
        self.loose = self.rng.pct(40);
        self.keep.clear();
        self.force.clear();
        self.fixed = None;
    }

    /// one random program
    pub fn program(&mut self) {
        self.reset();
        if self.p.name.contains("train") {
            self.training();
            return;
        }
        if self.p.name.ends_with("huge") {
            self.huge();
            return;
        }
        if self.p.name.starts_with("memory") {
            self.memory();
            return;
        }
        let life = self.p.name.starts_with("life");
        let steps = if life { self.p.steps } else { 3 + self.rng.below(self.p.steps) };
        for k in 0..steps {
            if life && (k % 40 == 39 || self.m.len() > 40) {
                self.move_on();
            }
            if self.m.len() > 60 {
                break;
            }
            let op = *self.rng.weighted(self.p.ops);
            self.step(op);
            if self.loose && self.rng.pct(20) {
                if let Some(i) = self.pick(|m| m.kind != Gone) {
                    self.let_go(i);
                }
            }
            if self.rng.pct(self.p.obs) {
                self.observe();
            }
        }
        if self.p.obs > 0 || self.p.ops.iter().any(|o| o.1 == "backward") {
            self.observe();
        }
        if self.p.name == "deep" {
            self.reset(); // giving up a long computation is a call, too
        }
    }

    /// a program, or a part of it, that is then repeated many times over
    fn memory(&mut self) {
        let whole = self.rng.pct(35);
        if !whole {
            for _ in 0..1 + self.rng.below(10) {
                let op = *self.rng.weighted(self.p.ops);
                self.step(op);
            }
        }
        let (from, base) = (self.w.past.len(), self.m.len());
        self.keep = (1..=base).collect();
        self.fixed = Some(base);
        for _ in 0..2 + self.rng.below(self.p.steps) {
            let op = *self.rng.weighted(self.p.ops);
            // what is not the same each time, or holds on to what the last time has made
            if !whole && ["setp", "setf", "mlp"].contains(&op) {
                continue;
            }
            self.step(op);
            if self.loose && self.rng.pct(20) {
                if let Some(i) = self.pick(|m| m.kind != Gone).filter(|&i| i > base) {
                    self.let_go(i);
                }
            }
        }
        self.observe();
        let n = (3000 / (1 + self.w.past.len() - from)).clamp(150, 500);
        self.call(json!({"op": "mem", "n": n, "from": from, "base": base}));
    }

    /// keep some tensors that were not computed, and nothing else
    fn move_on(&mut self) {
        for i in self.slots(|m| m.kind != Gone) {
            let m = &self.m[i - 1];
            if m.kind == Rc && !m.op && self.rng.pct(60) {
                self.call(json!({"op": "zero", "a": i}));
            } else {
                self.let_go(i);
            }
        }
        self.call(json!({"op": "gc"}));
        while self.m.last().is_some_and(|m| m.kind == Gone) {
            self.m.pop();
        }
        self.gsum = 0.0;
        if self.m.len() > 15 {
            for i in self.slots(|m| m.kind != Gone) {
                self.let_go(i);
            }
            self.call(json!({"op": "gc"}));
            self.m.clear();
        }
    }

    /// one product of large operands, and its gradients
    fn huge(&mut self) -> Option<()> {
        let work = *self.rng.pick(&[5_000, 20_000, 60_000]);
        let round = self.rng.pct(25);
        let mut d = [1usize; 3];
        while d.iter().product::<usize>() < work {
            let i = self.rng.below(3);
            d[i] = if round { d[i] * 2 } else { d[i] * (2 + self.rng.below(3)) + self.rng.below(3) };
        }
        let [m, k, n] = d;
        let batch = (2..7).find(|b| m % b == 0).filter(|_| self.rng.pct(50));
        let a = self.sparse(batch.map_or(vec![m, k], |b| vec![b, m / b, k]))?;
        let b = self.sparse(vec![k, n])?;
        let from = |x: f64| Some((x, 2.0, 2.0));
        let y = self.make(json!({"op": "bmm", "a": a, "b": b}), Rc, from(k as f64))?;
        let y = self.make(json!({"op": "sum", "a": y}), Rc, from((m * n * k) as f64))?;
        let times = 1 + self.rng.below(2);
        for _ in 0..times {
            self.call(json!({"op": "backward", "a": y}));
        }
        self.observe();
        Some(())
    }

    fn sparse(&mut self, sh: Vec<usize>) -> Option<usize> {
        let v: Vec<i64> = (0..prod(&sh)).map(|_| *self.rng.pick(&[0, 1, 1, 2, -1, -3])).collect();
        self.make(json!({"op": "new", "kind": "rc", "sh": sh, "val": v}), Rc, None)
    }

    fn step(&mut self, op: &'static str) {
        self.try_step(op);
    }

    fn try_step(&mut self, op: &'static str) -> Option<()> {
        let any = [Rc, Raw, View];
        let float = T::CLASS == Class::Float;
        match op {
            "leaf" => {
                self.fresh(&any)?;
            }
            "rcleaf" => {
                self.fresh(&[Rc])?;
            }
            "badnew" => {
                // shape and number of elements, or nested data, that do not match
                let k = if self.rng.pct(50) { "rc" } else { "raw" };
                let sh = self.shape();
                if self.rng.pct(25) {
                    // parts that have equally many elements but not the same shape
                    let deep = self.rng.pct(30) as usize;
                    let inner = self.factor_to(2 + deep);
                    let n = prod(&inner);
                    let outer = 2 + self.rng.below(2);
                    let odd = self.rng.below(outer);
                    let parts: Vec<Value> = (0..outer)
                        .map(|i| {
                            let v = self.values(n);
                            let mut s = inner.clone();
                            if i == odd {
                                let k = self.rng.below(s.len() - 1);
                                if self.rng.pct(50) {
                                    s.swap(k, k + 1);
                                } else {
                                    s[k + 1] *= s[k];
                                    s[k] = 1;
                                }
                            }
                            nested(&s, &v)
                        })
                        .collect();
                    self.make(json!({"op": "nest", "kind": k, "d": inner.len() + 1, "x": parts, "form": 0}), if k == "rc" { Rc } else { Raw }, None);
                } else if self.rng.pct(50) && prod(&sh) > 1 && sh.len() >= 2 && sh.len() <= 4 {
                    let v = self.values(prod(&sh));
                    let mut x = nested(&sh, &v);
                    // make one row longer or shorter
                    let mut y = &mut x;
                    for d in 0..sh.len() - 1 {
                        let i = self.rng.below(sh[d]);
                        y = &mut y[i];
                    }
                    if self.rng.pct(50) {
                        y.as_array_mut()?.push(json!(1));
                    } else {
                        y.as_array_mut()?.pop();
                    }
                    self.make(json!({"op": "nest", "kind": k, "d": sh.len(), "x": x, "form": 0}), if k == "rc" { Rc } else { Raw }, None);
                } else {
                    let n = prod(&sh);
                    let n2 = match self.rng.below(3) {
                        0 => n + 1,
                        1 => n.saturating_sub(1),
                        _ => self.rng.below(8),
                    };
                    let v = self.values(n2);
                    self.make(json!({"op": "new", "kind": k, "sh": sh, "val": v}), if k == "rc" { Rc } else { Raw }, None);
                }
            }
            "clone" | "to_tensor" | "deep_clone" => {
                let a = self.tensor(&any)?;
                let m = self.m[a - 1].clone();
                let kind = if op == "clone" { m.kind.clone() } else { Rc };
                let from = if op == "deep_clone" || m.kind == View { None } else { Some(m) };
                let i = self.make(json!({"op": op, "a": a}), kind.clone(), None)?;
                if let Some(m) = from {
                    self.m[i - 1] = Meta { kind, ..m };
                }
            }
            "deref" => {
                let a = self.tensor(&[Rc])?;
                let m = self.m[a - 1].clone();
                let i = self.make(json!({"op": op, "a": a}), Raw, None)?;
                self.m[i - 1] = Meta { kind: Raw, ..m };
            }
            "tensor" => {
                let a = self.tensor(&[View, View, Rc])?;
                let m = self.m[a - 1].clone();
                let i = self.make(json!({"op": op, "a": a}), Rc, None)?;
                if m.kind == Rc {
                    self.m[i - 1] = m;
                } else {
                    // history of the tensor behind the view is not tracked here
                    self.m[i - 1].op = false;
                    self.m[i - 1].paths = f64::INFINITY;
                }
            }
            "add" | "sub" => {
                if op == "sub" && T::CLASS == Class::Unsigned {
                    return None;
                }
                let a = self.tensor(&[Rc, Rc, Raw])?;
                let ma = self.m[a - 1].clone();
                let kinds: &[Kind] = match (&ma.kind, op) {
                    (Rc, _) => &[Rc],
                    (_, "add") => &[Rc, Raw, View],
                    _ => &[Rc, Raw],
                };
                let friend = self.friend_shape(&ma.sh);
                let mx = self.p.shapes.max_size * 2;
                let b = self.with_shape(kinds, |s| bshape(&ma.sh, s).map_or(false, |x| prod(&x) <= mx), friend)?;
                let mb = self.m[b - 1].clone();
                if ma.odd() || mb.odd() {
                    return None;
                }
                let (bb, deg) = (ma.b + mb.b, ma.deg.max(mb.deg));
                if !Self::lim(bb, deg) || bshape(&ma.sh, &mb.sh).map_or(0, |x| prod(&x)) > mx {
                    return None;
                }
                let form = self.rng.below(3);
                let from = if ma.kind == Rc { self.rec(bb, deg, &[a, b]) } else { None };
                self.make(json!({"op": op, "a": a, "b": b, "form": form}), ma.kind, from)?;
            }
            "mul" | "emul" => {
                let a = self.tensor(if op == "mul" { &[Rc, Raw] } else { &any })?;
                let ma = self.m[a - 1].clone();
                let sh = if op == "mul" && self.rng.pct(30) { vec![] } else { ma.sh.clone() };
                let b = self.with_shape(&any, |s| s == &ma.sh[..] || (op == "mul" && s.is_empty()), sh)?;
                let mb = self.m[b - 1].clone();
                if ma.odd() || mb.odd() || !Self::lim(ma.b * mb.b, 1.0) {
                    return None;
                }
                let form = self.rng.below(4);
                let kind = if op == "mul" && ma.kind == Rc { Rc } else { Raw };
                self.make(json!({"op": op, "a": a, "b": b, "form": form}), kind, None)?;
            }
            "smul" => {
                let a = self.tensor(&any)?;
                let v = if dyadic() > 0 { self.value() } else if T::CLASS == Class::Unsigned { self.rng.range(0, 3) } else { self.rng.range(-3, 3) };
                if self.m[a - 1].odd() || !Self::lim(self.m[a - 1].b * 3.0, 1.0) {
                    return None;
                }
                let form = self.rng.below(2);
                self.make(json!({"op": op, "a": a, "v": v, "form": form}), Raw, None)?;
            }
            "bmm" | "rcbmm" => {
                let kinds: &[Kind] = if op == "bmm" { &any } else { &[Rc] };
                let batch = self.rng.pct(35);
                // one dimension or two of them large
                let mut far = None;
                if self.p.name.ends_with("_vast") && self.rng.pct(70) {
                    let d = loop {
                        let d = [0; 4].map(|_| *self.rng.pick(&[1, 1, 2, 3, 5, 19, 40, 70, 129, 270, 520, 1030, 2100, 1, 16, 32, 64, 128, 256, 512, 1024, 2048]));
                        if (2_000..40_000).contains(&prod(&d)) {
                            break d;
                        }
                    };
                    far = Some(d[3]);
                    let sh = if batch { vec![d[0], d[1], d[2]] } else { vec![d[0] * d[1], d[2]] };
                    let kind = if op == "bmm" && self.rng.pct(30) { Raw } else { Rc };
                    self.leaf(sh, kind);
                }
                let a = if far.is_some() {
                    self.m.len()
                } else if self.rng.pct(self.p.misfit) {
                    self.tensor(kinds)?
                } else {
                    let sh = self.shape_of_rank(if batch { 3 } else { 2 });
                    self.with_shape(kinds, |s| s.len() == 2 || s.len() == 3, sh)?
                };
                let ma = self.m[a - 1].clone();
                let k = ma.sh.last().copied().unwrap_or(1);
                let rows = prod(&ma.sh) / k.max(1);
                let mut n = far.unwrap_or_else(|| self.dim());
                while rows * n > self.p.shapes.max_size * 2 || k * n > self.p.shapes.max_size * 2 {
                    n /= 2;
                }
                let mx = self.p.shapes.max_size * 2;
                let b = self.with_shape(kinds, |s| s.len() == 2 && s[0] == k && rows * s[1] <= mx, vec![k, n])?;
                let mb = self.m[b - 1].clone();
                let work = prod(&ma.sh) * mb.sh.last().copied().unwrap_or(1);
                let (bb, deg) = (ma.b * mb.b * k.max(1) as f64, ma.deg + mb.deg);
                let rec = ma.kind == Rc;
                if ma.odd() || mb.odd() || work > 40_000 || !Self::lim(bb, if rec { deg } else { 1.0 }) {
                    return None;
                }
                let from = if rec { self.rec(bb, deg, &[a, b]) } else { None };
                let name = if self.rng.pct(70) { "bmm" } else { "bmm_rc" };
                let kind = if ma.kind == Raw && name == "bmm" { Raw } else { Rc };
                let i = self.make(json!({"op": name, "a": a, "b": b}), kind, from)?;
                if mb.paths.is_infinite() {
                    self.m[i - 1].paths = f64::INFINITY;
                }
            }
            "fdot" | "fdotnd" | "rdot" => {
                let kinds: &[Kind] = match op {
                    "fdot" => &[Rc],
                    "rdot" => &[Raw],
                    _ => &any,
                };
                let a = self.tensor(kinds)?;
                let ma = self.m[a - 1].clone();
                let kb: &[Kind] = if op == "fdot" { &[Rc] } else { &any };
                let b = self.with_shape(kb, |s| s == &ma.sh[..], ma.sh.clone())?;
                let mb = self.m[b - 1].clone();
                let n = prod(&ma.sh).max(1) as f64;
                let (bb, deg) = (n * ma.b * mb.b, ma.deg + mb.deg);
                if ma.odd() || mb.odd() || !Self::lim(bb, if op == "fdot" { deg } else { 1.0 }) {
                    return None;
                }
                let from = if op == "fdot" { self.rec(bb, deg, &[a, b]) } else { None };
                self.make(json!({"op": op, "a": a, "b": b}), Rc, from)?;
            }
            "sum" | "rcsum" => {
                let a = self.tensor(if op == "sum" { &any } else { &[Rc] })?;
                let ma = self.m[a - 1].clone();
                let bb = ma.b * prod(&ma.sh).max(1) as f64;
                if ma.odd() || !Self::lim(bb, if ma.kind == Rc { ma.deg } else { 1.0 }) {
                    return None;
                }
                let from = if ma.kind == Rc { self.rec(bb, ma.deg, &[a]) } else { None };
                self.make(json!({"op": "sum", "a": a}), if ma.kind == Raw { Raw } else { Rc }, from)?;
            }
            "neg" => {
                if T::CLASS == Class::Unsigned {
                    return None;
                }
                let a = self.tensor(&[Rc, Rc, Raw])?;
                let ma = self.m[a - 1].clone();
                let from = if ma.kind == Rc { self.rec(ma.b, ma.deg, &[a]) } else { None };
                self.make(json!({"op": op, "a": a}), ma.kind, from)?;
            }
            "map" => {
                if !float {
                    return None;
                }
                let mut f = *self.rng.pick(&["relu", "abs", "tanh"]);
                let a = if f == "tanh" && !smooth() {
                    match self.pick(|m| m.kind == Rc && m.tanh_ok) {
                        Some(a) => a,
                        None => {
                            f = "relu";
                            self.tensor(&[Rc])?
                        }
                    }
                } else {
                    self.tensor(&[Rc])?
                };
                let ma = self.m[a - 1].clone();
                if f == "tanh" && !smooth() && !ma.tanh_ok {
                    return None;
                }
                // either zero will do as relu of -0
                if f == "relu" && zeros() && ma.special {
                    return None;
                }
                let from = self.rec(ma.b, ma.deg, &[a]);
                let i = self.make(json!({"op": op, "a": a, "f": f}), Rc, from)?;
                self.m[i - 1].special = ma.special;
            }
            "gun" => {
                let a = self.tensor(&any)?;
                let ma = self.m[a - 1].clone();
                let f = if zeros() {
                    let ok = |v: &i64| [0, 1, -1, NAN, PINF, NINF, NZERO].contains(v);
                    let v = self.elements(a);
                    *self.rng.pick(if v.iter().all(ok) { &["rec", "rec", "one", "id"] } else { &["one", "id"] })
                } else if ma.odd() {
                    "id"
                } else {
                    *self.rng.pick(&["sq", "dbl", "one", "inc", "id"])
                };
                if f != "id" && !zeros() && !Self::lim(ma.b * ma.b.max(2.0), 1.0) {
                    return None;
                }
                self.make(json!({"op": op, "a": a, "f": f}), Raw, None)?;
            }
            "view" => {
                let a = self.tensor(&any)?;
                let sh = self.m[a - 1].sh.clone();
                let bad = self.rng.pct(self.p.misfit);
                let mut rs: Vec<[usize; 2]> = sh
                    .iter()
                    .map(|&d| {
                        if self.rng.pct(if d > 1000 { 70 } else { 35 }) {
                            return [if d > 1000 && self.rng.pct(50) { 1 } else { 0 }, d];
                        }
                        let (x, y) = (self.rng.below(d + 1), self.rng.below(d + 1));
                        let (lo, hi) = (x.min(y), x.max(y));
                        if lo == hi && lo < d && self.rng.pct(70) {
                            [lo, lo + 1]
                        } else {
                            [lo, hi]
                        }
                    })
                    .collect();
                if bad {
                    match self.rng.below(4) {
                        0 => rs.push([0, 1]),
                        1 => {
                            rs.pop();
                        }
                        _ if !rs.is_empty() => {
                            let i = self.rng.below(rs.len());
                            let far = self.far();
                            rs[i] = *self.rng.pick(&[[0, far], [far, far], [sh[i], far], [0, sh[i] + 1], [sh[i], sh[i] + 1], [1, 0], [2, 1], [sh[i] + 1, sh[i] + 1]]);
                        }
                        _ => {}
                    }
                }
                let form = self.rng.below(3);
                let i = self.make(json!({"op": op, "a": a, "rs": rs, "form": form}), View, None)?;
                self.m[i - 1].special = self.m[a - 1].special;
            }
            "reshape" => {
                let a = self.pick(|m| m.kind == View).or_else(|| self.fresh(&[View]))?;
                let n = prod(&self.m[a - 1].sh);
                let sh = if self.rng.pct(self.p.misfit) { self.shape() } else { self.factor(n) };
                self.make(json!({"op": op, "a": a, "sh": sh}), View, None)?;
            }
            "get" | "index" => {
                let a = self.tensor(&any)?;
                let sh = self.m[a - 1].sh.clone();
                // on small tensors, now and then, every index vector up to a little too far
                let idx = self.index_for(&sh);
                let name = if self.rng.pct(75) { "get" } else { "index" };
                self.call(json!({"op": name, "a": a, "idx": idx}));
            }
            "sweep" => {
                let a = self.tensor(&any)?;
                let sh = self.m[a - 1].sh.clone();
                let total: usize = sh.iter().map(|d| d + 2).product();
                if total > 60 {
                    return None;
                }
                for n in 0..total {
                    let (mut r, mut idx) = (n, vec![0; sh.len()]);
                    for d in (0..sh.len()).rev() {
                        idx[d] = r % (sh[d] + 2);
                        r /= sh[d] + 2;
                    }
                    self.call(json!({"op": "get", "a": a, "idx": idx}));
                }
            }
            "show" => {
                if dyadic() > 0 || smooth() {
                    return None;
                }
                let a = self.tensor(&[Rc])?;
                self.call(json!({"op": op, "a": a}));
            }
            "first" | "elem" | "meta" | "iter" => {
                let a = self.tensor(&any)?;
                self.call(json!({"op": op, "a": a}));
            }
            "bcast" => {
                let a = self.tensor(&any)?;
                let sh = self.m[a - 1].sh.clone();
                let mut s2 = self.friend_shape(&sh);
                if self.rng.pct(40) && !s2.is_empty() {
                    let i = self.rng.below(s2.len());
                    s2[i] = self.dim();
                }
                self.call(json!({"op": op, "a": a, "sh": s2}));
            }
            "eq" | "sshape" => {
                let a = self.tensor(&any)?;
                let ma = self.m[a - 1].clone();
                let kinds: &[Kind] = match (&ma.kind, op) {
                    (View, _) | (_, "sshape") => &[Rc, Raw, View],
                    _ => &[Rc, Raw],
                };
                let b = match self.rng.below(10) {
                    0..=2 => self.with_shape(kinds, |s| s == &ma.sh[..], ma.sh.clone())?,
                    3 => self.with_shape(kinds, |s| prod(s) == prod(&ma.sh), ma.sh.clone())?,
                    4 => self.tensor(kinds)?,
                    5 if kinds.contains(&ma.kind) => a,
                    r => self.twin(a, kinds, r)?,
                };
                let form = self.rng.below(2);
                self.call(json!({"op": op, "a": a, "b": b, "form": form}));
            }
            // ---------------------------------------------------------- gradients
            "backward" => {
                let misfit = self.rng.pct(self.p.misfit);
                let a = if misfit {
                    self.tensor(&[Rc])?
                } else {
                    match self.pick(|m| m.kind == Rc && m.op && prod(&m.sh) == 1) {
                        Some(a) => a,
                        None => {
                            self.try_step("rcsum")?;
                            self.m.len()
                        }
                    }
                };
                let m = self.m[a - 1].clone();
                if m.kind != Rc || m.paths > 400.0 {
                    return None;
                }
                if m.op && prod(&m.sh) == 1 {
                    if self.gsum + m.b * m.deg > T::limit() {
                        return None;
                    }
                    self.gsum += m.b * m.deg;
                }
                self.call(json!({"op": op, "a": a}));
            }
            "many" => {
                let crowd = self.p.name.ends_with("crowd");
                let k = if crowd { 30 + self.rng.below(70) } else { 2 + self.rng.below(9) };
                let backward = crowd || self.rng.pct(60);
                let (mut cs, mut metas) = (vec![], vec![]);
                for _ in 0..k {
                    if backward {
                        let a = match self.pick(|m| m.kind == Rc && m.op && prod(&m.sh) == 1) {
                            Some(a) => a,
                            None => {
                                self.try_step("rcbmm")?;
                                self.try_step("rcsum")?;
                                self.m.len()
                            }
                        };
                        let m = self.m[a - 1].clone();
                        if !m.op || prod(&m.sh) != 1 || m.paths > 400.0 || self.gsum + m.b * m.deg > T::limit() {
                            continue;
                        }
                        self.gsum += m.b * m.deg;
                        cs.push(json!({"op": "backward", "a": a}));
                    } else {
                        let a = self.pick(|m| m.kind == Rc && (m.sh.len() == 2 || m.sh.len() == 3))?;
                        let ma = self.m[a - 1].clone();
                        let inner = *ma.sh.last().unwrap();
                        let Some(b) = self.pick(|m| m.kind == Rc && m.sh.len() == 2 && m.sh[0] == inner) else {
                            continue;
                        };
                        let mb = self.m[b - 1].clone();
                        let (bb, deg) = (ma.b * mb.b * inner.max(1) as f64, ma.deg + mb.deg);
                        let work = prod(&ma.sh) * mb.sh[1];
                        if work > 40_000 || !Self::lim(bb, deg) || prod(&ma.sh) / inner.max(1) * mb.sh[1] > 4 * self.p.shapes.max_size {
                            continue;
                        }
                        cs.push(json!({"op": "bmm", "a": a, "b": b}));
                        metas.push(self.rec(bb, deg, &[a, b]).unwrap());
                    }
                }
                if cs.is_empty() {
                    return None;
                }
                let (n, how) = (self.pool(), *self.rng.pick(ctx::MANY));
                let r = self.call(json!({"op": "many", "cs": cs, "ctx": {"n": n, "how": how}}));
                let rs = r["rs"].as_array().cloned().unwrap_or_default();
                let mut it = metas.into_iter();
                for r in rs {
                    if r.get("val").is_some() {
                        let mut m = Self::leaf_meta(Rc, dims(&r["sh"]), &ints(&r["val"]));
                        let (b, deg, paths) = it.next().unwrap();
                        m.b = m.b.max(b);
                        m.deg = deg;
                        m.paths = paths;
                        m.op = true;
                        self.m.push(m);
                    } else {
                        it.next();
                    }
                }
            }
            "zero" => {
                let a = self.tensor(&[Rc, Rc, Rc, Raw])?;
                self.call(json!({"op": op, "a": a}));
            }
            "upd" if self.p.name.starts_with("memory") => {
                // with nothing that has been computed: that could refer back to the tensor
                let a = self.tensor(&[Rc])?;
                let b = self.leaf(self.m[a - 1].sh.clone(), Rc)?;
                if self.m[b - 1].sh != self.m[a - 1].sh {
                    return None;
                }
                self.call(json!({"op": op, "a": a, "b": b}));
            }
            "upd" if self.rng.pct(15) => {
                // one that does not fit the gradient there is
                let fits = |i: &usize| match &self.w.slots[*i - 1] {
                    Slot::Rc(t) => {
                        let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.grad())).ok();
                        g.map_or(false, |g| elems(&g).0 == self.m[*i - 1].sh)
                    }
                    _ => false,
                };
                let with: Vec<usize> =
                    self.slots(|m| m.kind == Rc && m.sh.iter().any(|&d| d > 1)).into_iter().filter(fits).collect();
                if with.is_empty() {
                    return None;
                }
                let a = *self.rng.pick(&with);
                let sh = self.m[a - 1].sh.clone();
                let mut bad = sh.clone();
                let k = bad.iter().rposition(|&d| d > 1)?;
                bad[k] += 1;
                if self.rng.pct(30) {
                    bad.drain(..k);
                }
                let b = self.with_shape(&[Rc], |s| bshape(s, &sh).is_none(), bad)?;
                if bshape(&self.m[b - 1].sh, &sh).is_some() {
                    return None;
                }
                self.call(json!({"op": op, "a": a, "b": b}));
            }
            "upd" => {
                let a = self.tensor(&[Rc, Rc, Rc, Raw])?;
                let sh = self.m[a - 1].sh.clone();
                let b = self.pick(|m| m.kind == Rc && m.sh == sh).or_else(|| self.leaf(sh.clone(), Rc))?;
                let mb = &self.m[b - 1];
                if mb.sh != sh || self.gsum + mb.b > T::limit() {
                    return None;
                }
                self.gsum += mb.b;
                self.call(json!({"op": op, "a": a, "b": b}));
            }
            "grad" => {
                let a = self.tensor(&[Rc])?;
                if self.fixed.is_some_and(|n| a <= n) {
                    return None;
                }
                self.make(json!({"op": op, "a": a}), Rc, None)?;
            }
            // ------------------------------------------------------------- models
            "lin" => {
                if !float {
                    return None;
                }
                let (i, o) = (self.dim().max(1), self.dim().max(1));
                let w = self.with_shape(&[Rc], |s| s.len() == 2 && s[0] > 0 && s[1] > 0, vec![i, o])?;
                let o = self.m[w - 1].sh.last().copied().unwrap_or(1);
                // any shape that goes with the output for some number of rows
                let k = 1 + self.rng.below(3);
                let bsh = match self.rng.below(9) {
                    0 => vec![o],
                    1 => vec![1, 1],
                    2 => vec![],
                    3 => vec![k, 1],
                    4 => vec![k, o],
                    5 => vec![k, 1, o],
                    _ => vec![1, o],
                };
                let b = self.with_shape(&[Rc], |s| s == &bsh[..], bsh.clone())?;
                self.linear(w, b)?;
            }
            "mlp" => {
                if !float {
                    return None;
                }
                self.make_mlp()?;
            }
            "fwd" => {
                let m = self.pick(|m| matches!(m.kind, Lin | Mlp))?;
                let mm = self.m[m - 1].clone();
                let k = mm.layers.first().map_or(1, |l| l.0.sh.first().copied().unwrap_or(1));
                let rows = 1 + self.rng.below(3);
                let sh = if self.rng.pct(20) { vec![2, rows, k] } else { vec![rows, k] };
                let x = self.with_shape(&[Rc], |s| (s.len() == 2 || s.len() == 3) && s[s.len() - 1] == k, sh)?;
                self.forward(m, x)?;
            }
            "params" => {
                let m = self.pick(|m| matches!(m.kind, Lin | Mlp))?;
                let form = self.rng.below(3);
                self.params(m, form)?;
            }
            "setf" => {
                let m = self.pick(|m| matches!(m.kind, Lin))?;
                let mut l = self.m[m - 1].layers[0].clone();
                let w = self.rng.pct(60);
                let sh = if w { l.0.sh.clone() } else { l.1.sh.clone() };
                let p = self.with_shape(&[Rc], |s| s == &sh[..], sh.clone())?;
                let mp = Box::new(self.m[p - 1].clone());
                if mp.sh != sh {
                    return None;
                }
                self.call(json!({"op": op, "m": m, "p": p, "f": if w { "w" } else { "b" }}));
                if w {
                    l.0 = mp
                } else {
                    l.1 = mp
                }
                self.m[m - 1].layers[0] = l;
            }
            "chain" => {
                let a = self.tensor(&[Rc])?;
                let ma = self.m[a - 1].clone();
                let friend = self.friend_shape(&ma.sh);
                let mx = self.p.shapes.max_size;
                let b = self.with_shape(&[Rc], |s| bshape(&ma.sh, s).map_or(false, |x| prod(&x) <= mx), friend)?;
                let mb = self.m[b - 1].clone();
                let f = if self.rng.pct(25) && T::CLASS != Class::Unsigned { "neg" } else { "add" };
                // not through operands that were computed themselves: each path costs
                let n = if mb.op && f == "add" { 5 } else { *self.rng.pick(&[1, 2, 30, 31, 1500, 30_000, 40_001]) };
                let (bb, deg) = if f == "neg" { (ma.b, ma.deg) } else { (ma.b + n as f64 * mb.b, ma.deg.max(mb.deg)) };
                let sh = bshape(&ma.sh, &mb.sh).unwrap_or(vec![]);
                if !Self::lim(bb, deg) || prod(&sh) > if n > 100 { 4 } else { mx } || ma.paths > 10.0 && n > 100 {
                    return None;
                }
                let from = Some((bb, deg, ma.paths + 1.0 + if f == "add" { 5.0 * mb.paths } else { 0.0 }));
                self.make(json!({"op": op, "a": a, "b": b, "f": f, "n": n}), Rc, from)?;
            }
            "pipe" => {
                self.pipe();
                self.force.clear();
            }
            // a function of something, its elements weighted one by one
            "weighted" => {
                let a = self.fresh(&[Rc])?;
                let sh = self.m[a - 1].sh.clone();
                let f = *self.rng.pick(if self.m[a - 1].tanh_ok { &["tanh"] } else { &["relu", "abs"] });
                let from = self.rec(self.m[a - 1].b, self.m[a - 1].deg, &[a]);
                let t = self.make(json!({"op": "map", "a": a, "f": f}), Rc, from)?;
                let w = self.fresh_of(sh.clone(), &[Rc])?;
                let (mt, mw) = (self.m[t - 1].clone(), self.m[w - 1].clone());
                let (bb, deg) = (prod(&sh).max(1) as f64 * mt.b * mw.b, mt.deg + mw.deg);
                if !Self::lim(bb, deg) {
                    return None;
                }
                let from = self.rec(bb, deg, &[t, w]);
                let d = self.make(json!({"op": "fdot", "a": t, "b": w}), Rc, from)?;
                self.back(d);
                self.observe();
            }
            "setp" if self.rng.pct(self.p.misfit) => {
                let m = self.pick(|m| matches!(m.kind, Lin | Mlp))?;
                let n = 2 * self.m[m - 1].layers.len();
                let n = match self.m[m - 1].kind {
                    Mlp if self.rng.pct(50) => n + 1 + self.rng.below(2),
                    Mlp => self.rng.below(n),
                    _ => self.rng.below(2),
                };
                let ps: Vec<usize> = (0..n).map(|_| self.pick(|m| m.kind == Rc)).collect::<Option<_>>()?;
                if self.call(json!({"op": op, "m": m, "ps": ps}))["st"] == "ok" {
                    return None;
                }
            }
            "setp" => {
                let m = self.pick(|m| matches!(m.kind, Lin | Mlp))?;
                let mm = self.m[m - 1].clone();
                let mut ps = vec![];
                for l in &mm.layers {
                    for p in [&l.0, &l.1] {
                        ps.push(self.with_shape(&[Rc], |s| s == &p.sh[..], p.sh.clone())?);
                    }
                }
                let r = self.call(json!({"op": op, "m": m, "ps": ps}));
                if r["st"] == "ok" {
                    for (i, l) in mm.layers.iter().enumerate() {
                        let (w, b) = (ps[2 * i], ps[2 * i + 1]);
                        self.m[m - 1].layers[i] =
                            (Box::new(self.m[w - 1].clone()), Box::new(self.m[b - 1].clone()), l.2.clone());
                    }
                }
            }
            "sgd" => {
                let m = self.pick(|m| matches!(m.kind, Lin | Mlp))?;
                let v = *self.rng.pick(&[1, 1, 1, 2, -1, 0, 3]);
                self.sgd(m, v)?;
            }
            "fit" => {
                // a forward and a backward pass, so that there are gradients to use
                let m = self.pick(|m| matches!(m.kind, Lin | Mlp))?;
                let k = self.m[m - 1].layers.first().map_or(1, |l| l.0.sh.first().copied().unwrap_or(1));
                let rows = 1 + self.rng.below(2);
                let sh = vec![rows, k];
                let x = self.with_shape(&[Rc], |s| s.len() == 2 && s[1] == k, sh)?;
                let y = self.forward(m, x)?;
                self.loss_backward(y)?;
            }
            _ => panic!("harness: no such step {op}"),
        }
        Some(())
    }

    fn elements(&self, a: usize) -> Vec<i64> {
        match &self.w.slots[a - 1] {
            Slot::Rc(t) => elems(t).1,
            Slot::Raw(t) => elems(t).1,
            Slot::View(t) => elems(t).1,
            _ => vec![],
        }
    }

    /// a tensor with the same elements as a, or nearly
    fn twin(&mut self, a: usize, kinds: &[Kind], how: usize) -> Option<usize> {
        let sh = self.m[a - 1].sh.clone();
        let (_, mut v) = match &self.w.slots[a - 1] {
            Slot::Rc(t) => elems(t),
            Slot::Raw(t) => elems(t),
            Slot::View(t) => elems(t),
            _ => return None,
        };
        let mut sh2 = sh.clone();
        match how {
            6 => {}
            7 if !v.is_empty() => {
                // one element differs: often the last one
                let i = if self.rng.pct(40) { v.len() - 1 } else { self.rng.below(v.len()) };
                v[i] = if dyadic() > 0 {
                    let x = placed(v[i]);
                    let near = |k: i32| x * (1.0 + scaled(1.0, -k));
                    place(if T::NAME == "f32" { *self.rng.pick(&[near(20) as f32 as f64, 0.0, -x]) } else { *self.rng.pick(&[near(20), near(26), 0.0, -x]) })
                } else if v[i] == 1 {
                    0
                } else {
                    1
                };
            }
            8 => sh2 = self.factor(prod(&sh)),
            9 if sh.len() >= 1 && sh[0] > 0 => {
                // one row more or less
                let row = prod(&sh) / sh[0];
                if self.rng.pct(50) {
                    sh2[0] += 1;
                    v.extend_from_within(..row);
                } else {
                    sh2[0] -= 1;
                    v.truncate(row * sh2[0]);
                }
            }
            _ => {}
        }
        let kind = self.rng.pick(kinds).clone();
        let k = self.kind_name(&kind);
        let base_kind = if k == "raw" { Raw } else { Rc };
        let i = self.make(json!({"op": "new", "kind": k, "sh": sh2, "val": v}), base_kind, None)?;
        if kind == View {
            let rs: Vec<[usize; 2]> = sh2.iter().map(|&d| [0, d]).collect();
            return self.make(json!({"op": "view", "a": i, "rs": rs, "form": 0}), View, None);
        }
        Some(i)
    }

    /// a shape with n elements
    fn factor(&mut self, n: usize) -> Vec<usize> {
        let mut sh = vec![];
        let mut n = n;
        if n == 0 {
            sh = self.shape();
            if !sh.contains(&0) {
                sh.push(0);
            }
            return sh;
        }
        while n > 1 && sh.len() < 4 {
            let ds: Vec<usize> = (1..=n).filter(|d| n % d == 0).collect();
            let d = *self.rng.pick(&ds);
            sh.push(d);
            n /= d;
        }
        if n > 1 {
            sh.push(n);
        }
        if self.rng.pct(30) {
            let i = self.rng.below(sh.len() + 1);
            sh.insert(i, 1);
        }
        sh
    }

    /// a small shape of that rank without zeros
    fn factor_to(&mut self, r: usize) -> Vec<usize> {
        (0..r).map(|_| 1 + self.rng.below(3)).collect()
    }

    fn index_for(&mut self, sh: &[usize]) -> Vec<usize> {
        let mut idx: Vec<usize> = sh.iter().map(|&d| self.rng.below(d.max(1))).collect();
        match self.rng.below(10) {
            0 => {
                for _ in 0..1 + self.rng.below(3) {
                    let v = if self.rng.pct(20) { self.far() } else { self.rng.below(9) };
                    idx.insert(0, v);
                }
            }
            1 => {
                let k = self.rng.below(idx.len() + 1);
                idx.drain(..k);
            }
            2 | 3 if !idx.is_empty() => {
                let i = self.rng.below(idx.len());
                idx[i] = if self.rng.pct(25) { self.far() } else { *self.rng.pick(&[sh[i], sh[i] + 1, sh[i].saturating_sub(1), 1000, 5]) };
            }
            4 if !idx.is_empty() => {
                for (i, x) in idx.iter_mut().enumerate() {
                    if sh[i] == 1 {
                        *x = if self.rng.pct(20) { self.far() } else { self.rng.below(7) };
                    }
                }
            }
            _ => {}
        }
        idx
    }

    /// many iterations, of something whose numbers do not grow beyond all bounds
    fn long(&self) -> bool {
        self.p.name.starts_with("long")
    }

    fn far(&mut self) -> usize {
        crate::world::FAR + self.rng.below(crate::world::FARS.len())
    }

    fn linear(&mut self, w: usize, b: usize) -> Option<usize> {
        let act = *self.rng.pick(if smooth() {
            &["none", "tanh", "tanh", "tanh", "relu", "abs"]
        } else {
            &["none", "none", "relu", "relu", "abs", "neg"]
        });
        self.linear_act(w, b, act)
    }

    fn linear_act(&mut self, w: usize, b: usize, act: &str) -> Option<usize> {
        let r = self.call(json!({"op": "lin", "w": w, "b": b, "act": act}));
        if r["st"] != "ok" {
            return None;
        }
        let (mw, mb) = (self.m[w - 1].clone(), self.m[b - 1].clone());
        let mut m = mw.clone();
        m.kind = Lin;
        m.layers = vec![(Box::new(mw), Box::new(mb), act.to_string())];
        self.m.push(m);
        Some(self.m.len())
    }

    fn make_mlp(&mut self) -> Option<usize> {
        let n = match self.rng.below(20) {
            0 => 0,
            1 => 5 + self.rng.below(4),
            k => 1 + k % 4,
        };
        let mut d = self.dim().max(1);
        let mut ms = vec![];
        for _ in 0..n {
            // two layers may have a parameter in common
            if self.rng.pct(15) {
                let fits = |m: &Meta| m.kind == Rc && m.sh.len() == 2 && m.sh[0] == d && m.sh[1] > 0 && m.b <= 4.0;
                if let Some(w) = self.pick(fits) {
                    let o = self.m[w - 1].sh[1];
                    let b = match self.pick(|m| m.kind == Rc && (m.sh == [1, o] || m.sh == [o]) && m.b <= 4.0) {
                        Some(b) => b,
                        None => self.small(vec![1, o])?,
                    };
                    ms.push(self.linear(w, b)?);
                    d = o;
                    continue;
                }
            }
            // mostly new layers; sometimes existing ones
            if self.rng.pct(20) {
                if let Some(i) = self.pick(|m| m.kind == Lin && m.layers[0].0.sh.first() == Some(&d)) {
                    if !ms.contains(&i) {
                        d = self.m[i - 1].layers[0].0.sh.last().copied().unwrap_or(1);
                        ms.push(i);
                        continue;
                    }
                }
            }
            let o = if self.rng.pct(15) { self.dim().max(1) } else { 1 + self.rng.below(3) };
            let w = self.small(vec![d, o])?;
            let bsh = match self.rng.below(4) {
                0 => vec![o],
                1 => vec![1, 1],
                _ => vec![1, o],
            };
            let b = self.small(bsh)?;
            ms.push(self.linear(w, b)?);
            d = if self.rng.pct(self.p.misfit / 2) { o + 1 } else { o };
        }
        let r = self.call(json!({"op": "mlp", "ms": ms}));
        if r["st"] != "ok" {
            return None;
        }
        let mut m = Self::leaf_meta(Mlp, vec![], &[]);
        m.layers = ms.iter().map(|&i| self.m[i - 1].layers[0].clone()).collect();
        for i in ms {
            self.m[i - 1].kind = Gone;
        }
        self.m.push(m);
        Some(self.m.len())
    }

    /// a leaf with elements -1, 0, 1, 2
    fn small(&mut self, sh: Vec<usize>) -> Option<usize> {
        let v: Vec<i64> = if dyadic() > 0 {
            self.values(prod(&sh))
        } else if smooth() {
            (0..prod(&sh)).map(|_| self.rng.range(-64, 64)).collect()
        } else {
            (0..prod(&sh)).map(|_| self.rng.range(-1, 2)).collect()
        };
        self.make(json!({"op": "new", "kind": "rc", "sh": sh, "val": v}), Rc, None)
    }

    fn forward(&mut self, m: usize, x: usize) -> Option<usize> {
        let mm = self.m[m - 1].clone();
        let mx = self.m[x - 1].clone();
        let (mut b, mut deg, mut paths) = (mx.b, mx.deg, mx.paths);
        let mut sp = mx.special;
        for (w, bias, act) in &mm.layers {
            let k = w.sh.first().copied().unwrap_or(1).max(1) as f64;
            b = b * w.b * k + bias.b;
            deg = (deg + w.deg).max(bias.deg);
            paths += w.paths + bias.paths + 4.0 + (act != "none") as usize as f64;
            sp |= w.special | bias.special;
        }
        if sp || !Self::lim(b, deg) {
            return None;
        }
        let y = self.make(json!({"op": "fwd", "m": m, "x": x}), Rc, Some((b, deg, paths)))?;
        if mm.layers.is_empty() {
            self.m[y - 1] = mx; // the same tensor
        }
        Some(y)
    }

    fn params(&mut self, m: usize, form: usize) -> Option<Vec<usize>> {
        let mm = self.m[m - 1].clone();
        let r = self.call(json!({"op": "params", "m": m, "form": form}));
        if r["st"] != "ok" {
            return None;
        }
        let first = self.m.len() + 1;
        for l in &mm.layers {
            for p in [&l.0, &l.1] {
                self.m.push(Meta { kind: Rc, ..(**p).clone() });
            }
        }
        // what the real model returned decides which slots there are
        while self.m.len() > self.w.slots.len() {
            self.m.pop();
        }
        while self.m.len() < self.w.slots.len() {
            let mut x = mm.clone();
            x.kind = Gone;
            self.m.push(x);
        }
        Some((first..=self.m.len()).collect())
    }

    fn sgd(&mut self, m: usize, step: i64) -> Option<()> {
        let step = if dyadic() > 0 { self.value() } else { step };
        // stay within exact numbers: look at the gradients that will be used
        let ps = self.w.model(m).ps();
        let (mut mx, mut n) = (0.0f64, 0);
        for p in &ps {
            let unit = if smooth() { 4096.0 } else { 1.0 };
            let big = |v: Vec<i64>| v.iter().map(|x| x.unsigned_abs()).max().unwrap_or(0) as f64 / unit;
            let v = see_rc(p);
            if v["hg"] == true {
                n += 1;
            }
            mx = mx.max(big(ints(&v["val"])) + step.unsigned_abs() as f64 / if smooth() { 64.0 } else { 1.0 } * big(ints(&v["gval"])));
        }
        // a step without gradients is rejected: try that only rarely
        if n < ps.len() && !self.rng.pct(20) {
            return None;
        }
        if mx > T::limit() {
            return None;
        }
        let lr = match self.pick(|m| m.kind == Rc && m.sh.is_empty() && !m.op && m.b == if smooth() || dyadic() > 0 { 1.0 } else { step.unsigned_abs().max(1) as f64 }) {
            Some(i) if elems(self.w.rc(i)).1 == [if smooth() { step * 64 } else { step }] => i,
            _ => {
                // any tensor with one element will do, and others are refused or not as products are
                let mut lsh: Vec<usize> = vec![];
                if !self.long() && self.rng.pct(20) {
                    lsh = (*self.rng.pick(&[&[1][..], &[1, 1], &[1, 1, 1], &[1, 1], &[2], &[1, 2], &[0]])).to_vec();
                }
                self.make(json!({"op": "new", "kind": "rc", "sh": lsh, "val": vec![step; prod(&lsh)]}), Rc, None)?
            }
        };
        let r = self.call(json!({"op": "sgd", "m": m, "lr": lr}));
        if r["st"] == "ok" {
            let ps = self.w.model(m).ps();
            let layers = self.m[m - 1].layers.clone();
            let fresh = |i: usize| -> Box<Meta> {
                let (sh, v) = elems(&ps[i.min(ps.len() - 1)]);
                Box::new(Self::leaf_meta(Rc, sh, &v))
            };
            for (i, l) in layers.iter().enumerate() {
                self.m[m - 1].layers[i] = (fresh(2 * i), fresh(2 * i + 1), l.2.clone());
            }
        }
        Some(())
    }

    /// loss of the output y against a target, and backward
    fn loss_backward(&mut self, y: usize) -> Option<usize> {
        let ysh = self.m[y - 1].sh.clone();
        let mut z = y;
        if self.rng.pct(60) {
            let t = self.with_shape(&[Rc], |s| s == &ysh[..], ysh.clone())?;
            let (a, b) = (self.m[y - 1].clone(), self.m[t - 1].clone());
            if a.special || b.special || bshape(&a.sh, &b.sh).is_none() || !Self::lim(a.b + b.b, a.deg.max(b.deg)) {
                return None;
            }
            let from = self.rec(a.b + b.b, a.deg.max(b.deg), &[y, t]);
            let form = self.rng.below(3);
            z = self.make(json!({"op": "sub", "a": y, "b": t, "form": form}), Rc, from)?;
        }
        if self.rng.pct(60) {
            let f = *self.rng.pick(if smooth() { &["abs", "tanh"] } else { &["abs", "relu"] });
            let a = self.m[z - 1].clone();
            let from = self.rec(a.b, a.deg, &[z]);
            z = self.make(json!({"op": "map", "a": z, "f": f}), Rc, from)?;
        }
        let a = self.m[z - 1].clone();
        let n = prod(&a.sh).max(1) as f64;
        let squared = !self.long() && self.rng.pct(30) && Self::lim(a.b * a.b * n, a.deg * 2.0);
        if !squared && !Self::lim(a.b * n, a.deg) {
            return None;
        }
        let l = if squared {
            let from = self.rec(a.b * a.b * n, a.deg * 2.0, &[z, z]);
            self.make(json!({"op": "fdot", "a": z, "b": z}), Rc, from)?
        } else {
            let from = self.rec(a.b * n, a.deg, &[z]);
            self.make(json!({"op": "sum", "a": z}), Rc, from)?
        };
        self.back(l)?;
        Some(l)
    }

    fn back(&mut self, l: usize) -> Option<()> {
        let m = self.m[l - 1].clone();
        if m.paths > 400.0 || self.gsum + m.b * m.deg > T::limit() {
            return None;
        }
        self.gsum += m.b * m.deg;
        self.call(json!({"op": "backward", "a": l}));
        Some(())
    }

    /// how many units of a layer with d inputs, or rows of d elements: few, or very many
    fn units(&mut self, few: usize, d: usize) -> usize {
        if self.p.name.ends_with("_vast") && self.rng.pct(60) {
            let n = *self.rng.pick(&[17, 40, 66, 130, 270, 700, 1100, 2100, 16, 32, 64, 128, 256, 512, 1024, 2048]);
            if n * d <= 6000 {
                return n;
            }
        }
        1 + self.rng.below(few)
    }

    /// an expression such as relu(x + y - z).sum(): nothing holds on to what is computed on the way
    fn pipe(&mut self) -> Option<()> {
        let mut z = self.tensor(&[Rc])?;
        let mut own = false;
        for _ in 0..2 + self.rng.below(3) {
            let mz = self.m[z - 1].clone();
            if mz.odd() {
                return None;
            }
            let y = match self.rng.below(if T::CLASS == Class::Float { 8 } else { 5 }) {
                0 if T::CLASS != Class::Unsigned => {
                    let from = self.rec(mz.b, mz.deg, &[z]);
                    self.make(json!({"op": "neg", "a": z}), Rc, from)?
                }
                k @ 0..=4 => {
                    let friend = self.friend_shape(&mz.sh);
                    let mx = self.p.shapes.max_size * 2;
                    let t = self.with_shape(&[Rc], |s| bshape(&mz.sh, s).map_or(false, |x| prod(&x) <= mx), friend)?;
                    let mt = self.m[t - 1].clone();
                    let op = if k == 1 && T::CLASS != Class::Unsigned { "sub" } else { "add" };
                    let (bb, deg) = (mz.b + mt.b, mz.deg.max(mt.deg));
                    if mt.odd() || !Self::lim(bb, deg) || bshape(&mz.sh, &mt.sh).map_or(0, |x| prod(&x)) > mx {
                        return None;
                    }
                    let from = self.rec(bb, deg, &[z, t]);
                    let (a, b) = if op == "add" && self.rng.pct(30) { (t, z) } else { (z, t) };
                    self.make(json!({"op": op, "a": a, "b": b, "form": 1}), Rc, from)?
                }
                _ => {
                    let f = *self.rng.pick(if smooth() || mz.tanh_ok { &["relu", "abs", "tanh"] } else { &["relu", "abs", "relu"] });
                    let from = self.rec(mz.b, mz.deg, &[z]);
                    self.make(json!({"op": "map", "a": z, "f": f}), Rc, from)?
                }
            };
            if own && self.m[z - 1].kind != Gone {
                self.let_go(z);
            }
            z = y;
            own = true;
            self.force = vec![z];
        }
        let mz = self.m[z - 1].clone();
        let n = prod(&mz.sh).max(1) as f64;
        if !Self::lim(mz.b * n, mz.deg) {
            return None;
        }
        let from = self.rec(mz.b * n, mz.deg, &[z]);
        let l = self.make(json!({"op": "sum", "a": z}), Rc, from)?;
        self.let_go(z);
        self.back(l)?;
        self.let_go(l);
        Some(())
    }

    /// a training history
    fn training(&mut self) -> Option<()> {
        if T::CLASS != Class::Float {
            return None;
        }
        let long = self.long();
        let models = 1 + (!long && self.rng.pct(20)) as usize;
        let mut ms = vec![];
        let mut batches: Vec<usize> = vec![];
        let single = long && !(self.p.name.contains("life") && self.rng.pct(40)) || self.rng.pct(40);
        for _ in 0..models {
            let d = match ms.first() {
                Some(&m) => {
                    let m: usize = m;
                    self.m[m - 1].layers[0].0.sh.first().copied().unwrap_or(1)
                }
                None => self.units(3, 1),
            };
            let m = if single || self.rng.pct(30) {
                let o = self.units(3, d);
                let w = self.small(vec![d, o])?;
                let bsh = if self.rng.pct(30) { vec![o] } else { vec![1, o] };
                let b = self.small(bsh)?;
                self.linear(w, b)?
            } else {
                let layers = 2 + self.rng.below(2);
                let mut ls = vec![];
                let mut i = d;
                for _ in 0..layers {
                    let o = self.units(2, i);
                    // two layers may have a parameter in common
                    let tied = self.rng.pct(25);
                    let old = if tied { self.pick(|m| m.kind == Rc && m.sh == [i, o] && !m.op) } else { None };
                    let w = match old {
                        Some(w) => w,
                        None => self.small(vec![i, o])?,
                    };
                    let old = if self.rng.pct(10) { self.pick(|m| m.kind == Rc && m.sh == [1, o] && !m.op) } else { None };
                    let b = match old {
                        Some(b) => b,
                        None => self.small(vec![1, o])?,
                    };
                    let act = *self.rng.pick(if smooth() {
                        &["none", "tanh", "tanh", "relu"]
                    } else {
                        &["none", "relu", "relu", "abs"]
                    });
                    ls.push(self.linear_act(w, b, act)?);
                    i = o;
                }
                let r = self.call(json!({"op": "mlp", "ms": ls}));
                if r["st"] != "ok" {
                    return None;
                }
                let mut m = self.m[ls[0] - 1].clone();
                m.kind = Mlp;
                m.layers = ls.iter().map(|&i| self.m[i - 1].layers[0].clone()).collect();
                for i in ls {
                    self.m[i - 1].kind = Gone;
                }
                self.m.push(m);
                self.m.len()
            };
            ms.push(m);
            if batches.is_empty() {
                for _ in 0..1 + self.rng.below(3) {
                    let rows = self.units(2, d);
                    batches.push(self.small(vec![rows, d])?);
                    self.keep.push(batches[batches.len() - 1]);
                }
            }
        }
        // a life: a thousand steps and more, nothing but the model and the data kept
        let life = self.p.name.contains("life");
        let steps = if life { 600 + self.rng.below(self.p.steps) } else { 2 + self.rng.below(self.p.steps) };
        if life {
            self.keep.extend(&ms);
        }
        for _ in 0..steps {
            if self.m.len() > 90 && !long {
                break;
            }
            let m = *self.rng.pick(&ms);
            let x = *self.rng.pick(&batches);
            if life || self.rng.pct(30) {
                self.call(json!({"op": "zero", "a": x}));
            }
            if !life && self.rng.pct(15) {
                let form = self.rng.below(3);
                self.params(m, form)?;
            }
            let passes = 1 + self.rng.pct(20) as usize;
            for _ in 0..passes {
                let y = match self.forward(m, x) {
                    Some(y) => y,
                    None => {
                        self.observe();
                        return None;
                    }
                };
                if self.loss_backward(y).is_none() {
                    self.observe();
                    return None;
                }
            }
            let step = *self.rng.pick(if smooth() { &[4, 8, 16, -8, 32, 6] } else { &[1, 1, 1, -1, 0, 2] });
            if self.loose && self.rng.pct(60) {
                // nothing of the pass is kept
                for i in self.slots(|m| m.kind == Rc) {
                    if !self.keep.contains(&i) {
                        self.let_go(i);
                    }
                }
            }
            // gradients of parameters start afresh with each step
            self.sgd(m, step);
            if life {
                for i in self.slots(|m| m.kind == Rc) {
                    if !self.keep.contains(&i) {
                        self.let_go(i);
                    }
                }
                self.call(json!({"op": "gc"}));
                while self.m.last().is_some_and(|m| m.kind == Gone) {
                    self.m.pop();
                }
                self.gsum = 0.0;
            }
            if self.rng.pct(if long { 2 } else { 35 }) {
                self.observe();
            }
        }
        self.observe();
        Some(())
    }
}

/// v as nested arrays of shape sh
fn nested(sh: &[usize], v: &[i64]) -> Value {
    if sh.is_empty() {
        return json!(v[0]);
    }
    let row = v.len() / sh[0];
    (0..sh[0]).map(|i| nested(&sh[1..], &v[i * row..(i + 1) * row])).collect::<Vec<_>>().into()
}
