//! Threads that add to, reset and read the gradients of shared tensors at the same
//! time.  Only the histories of calls and replies are recorded here; whether they
//! can be explained is decided by TLC (spec/ConcTrace.tla).
use crate::el::*;
use crate::rng::Rng;
use crate::world::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Barrier, Mutex};

pub struct Scenario {
    pub setup: Vec<Value>,
    /// the calls of each thread
    pub threads: Vec<Vec<Value>>,
    /// slots of tensors to call backward on, and of one to add to others
    pub roots: Vec<usize>,
    pub spare: usize,
}

/// shapes and graphs are small: what matters is the order of things
pub fn scenario(rng: &mut Rng, small: bool) -> Scenario {
    let n = if rng.pct(60) { 1 } else { 2 };
    let mut setup = vec![];
    let val = |rng: &mut Rng, n: usize| -> Vec<i64> {
        (0..n).map(|_| *rng.pick(&[1, 2, 3, 5, -2, 7])).collect()
    };
    let leaves = 2;
    for _ in 0..leaves {
        setup.push(json!({"op": "new", "kind": "rc", "sh": [n], "val": val(rng, n)}));
    }
    // roots, as slots of tensors with one element
    let mut roots = vec![];
    let mut slots = leaves;
    // often the same with operands exchanged: who holds one thing and waits for another shows
    let mut last: Option<(usize, usize, usize)> = None;
    for _ in 0..1 + rng.below(3) {
        let (a, b) = (1 + rng.below(leaves), 1 + rng.below(leaves));
        let (kind, a, b) = match last {
            Some((k, a, b)) if rng.pct(50) => (k, b, a),
            _ => (rng.below(if small { 3 } else { 5 }), a, b),
        };
        last = Some((kind, a, b));
        match kind {
            0 => {
                setup.push(json!({"op": "fdot", "a": a, "b": b}));
                slots += 1;
            }
            1 => {
                setup.push(json!({"op": "sum", "a": a}));
                slots += 1;
            }
            2 => {
                setup.push(json!({"op": "add", "a": a, "b": b}));
                setup.push(json!({"op": "sum", "a": slots + 1}));
                slots += 2;
            }
            3 => {
                setup.push(json!({"op": "sub", "a": a, "b": b}));
                setup.push(json!({"op": "fdot", "a": slots + 1, "b": a}));
                slots += 2;
            }
            _ => {
                // a product: the gradients are computed in the pool
                setup.push(json!({"op": "new", "kind": "rc", "sh": [2, n], "val": val(rng, 2 * n)}));
                setup.push(json!({"op": "new", "kind": "rc", "sh": [n, 2], "val": val(rng, 2 * n)}));
                setup.push(json!({"op": "bmm", "a": slots + 1, "b": slots + 2}));
                setup.push(json!({"op": "sum", "a": slots + 3}));
                setup.push(json!({"op": "fdot", "a": a, "b": a}));
                setup.push(json!({"op": "add", "a": slots + 4, "b": slots + 5}));
                slots += 6;
            }
        }
        roots.push(slots);
    }
    let spare = slots + 1;
    setup.push(json!({"op": "new", "kind": "rc", "sh": [n], "val": val(rng, n)}));
    if rng.pct(30) {
        setup.push(json!({"op": "backward", "a": roots[0]}));
    }
    let k = if small { 2 + rng.below(2) } else { 2 + rng.below(3) };
    let threads = (0..k)
        .map(|_| {
            let m = if small { 1 + rng.below(2) } else { 1 + rng.below(3) };
            (0..m)
                .map(|_| match rng.below(10) {
                    0..=3 => json!({"op": "backward", "a": *rng.pick(&roots)}),
                    4 | 5 => json!({"op": "upd", "a": 1 + rng.below(leaves), "b": spare}),
                    6 => json!({"op": "zero", "a": 1 + rng.below(leaves)}),
                    7 => json!({"op": "read", "a": 1 + rng.below(leaves), "by": "deref"}),
                    _ => json!({"op": "read", "a": 1 + rng.below(leaves), "by": "grad"}),
                })
                .collect()
        })
        .collect();
    Scenario { setup, threads, roots, spare }
}

fn one<T: El>(w: &World<T>, c: &Value) -> Value {
    let a = c["a"].as_u64().unwrap() as usize;
    let r = catch_unwind(AssertUnwindSafe(|| match c["op"].as_str().unwrap() {
        "backward" => {
            w.rc(a).backward();
            json!({"st": "ok"})
        }
        "zero" => {
            use rust_light::tensor::TensorLike;
            w.rc(a).zero_grad();
            json!({"st": "ok"})
        }
        "upd" => {
            use rust_light::tensor::TensorLike;
            w.rc(a).update_grad(w.rc(c["b"].as_u64().unwrap() as usize).clone());
            json!({"st": "ok"})
        }
        _ => {
            // a plain copy of a tensor has the gradient the tensor had when it was copied
            let t = if c["by"] == "deref" { read_copy(w.rc(a)) } else { see_rc(w.rc(a)) };
            json!({"st": "ok", "hg": t["hg"], "gval": t["gval"]})
        }
    }));
    r.unwrap_or(json!({"st": "reject"}))
}

fn read_copy<T: El>(t: &rust_light::tensor::RcTensor<T>) -> Value {
    use rust_light::tensor::TensorLike;
    let raw = (**t).clone();
    see_rc(&raw.to_tensor())
}

fn prepare<T: El>(s: &Scenario) -> World<T> {
    let mut w = World::<T>::new();
    for c in &s.setup {
        w.exec(c);
    }
    w
}

fn history(s: &Scenario, ev: Vec<Value>, end: Value) -> Value {
    json!({"setup": s.setup, "ev": ev, "end": end})
}

/// all threads at once, as the machine will have it
pub fn free<T: El>(s: &Scenario, spins: &[usize]) -> Value {
    let w = prepare::<T>(s);
    let events = Mutex::new(vec![]);
    let go = Barrier::new(s.threads.len());
    std::thread::scope(|sc| {
        for (t, cs) in s.threads.iter().enumerate() {
            let (w, events, go) = (&w, &events, &go);
            let spin = spins[t % spins.len()];
            sc.spawn(move || {
                go.wait();
                for c in cs {
                    for _ in 0..spin {
                        std::hint::spin_loop();
                    }
                    events.lock().unwrap().push(json!({"t": t + 1, "k": "call", "c": c}));
                    let r = one(w, c);
                    events.lock().unwrap().push(json!({"t": t + 1, "k": "ret", "r": r}));
                }
            });
        }
    });
    history(s, events.into_inner().unwrap(), w.see())
}

/// many threads that only add: whatever the order, nothing may be missing at the end
pub fn flood<T: El>(rng: &mut Rng, threads: usize, times: usize) -> Value {
    let mut s = scenario(rng, true);
    s.threads = (0..threads)
        .map(|_| {
            (0..times)
                .map(|_| {
                    if rng.pct(50) {
                        json!({"op": "backward", "a": *rng.pick(&s.roots)})
                    } else {
                        json!({"op": "upd", "a": 1, "b": s.spare})
                    }
                })
                .collect()
        })
        .collect();
    free::<T>(&s, &[0])
}

#[cfg(vp_hooks)]
pub mod scheduled {
    //! The same under a scheduler: one thread runs at a time, and which one goes on
    //! is decided at every call and whenever a thread is about to take a lock.
    use super::*;
    use rust_light::vp_hooks::{set_observer, Event};
    use std::cell::Cell;
    use std::sync::{Condvar, MutexGuard, Once};

    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Status {
        Ready,
        Blocked(usize),
        Done,
    }

    #[derive(Default)]
    struct State {
        current: usize,
        status: Vec<Status>,
        prefix: Vec<usize>,
        /// (chosen, out of how many)
        taken: Vec<(usize, usize)>,
        rng: Option<Rng>,
        steps: usize,
        stuck: bool,
        over: bool,
    }

    static STATE: Mutex<Option<State>> = Mutex::new(None);
    static WAKE: Condvar = Condvar::new();
    thread_local!(static ME: Cell<Option<usize>> = const { Cell::new(None) });

    fn lock() -> MutexGuard<'static, Option<State>> {
        STATE.lock().unwrap_or_else(|e| e.into_inner())
    }

    impl State {
        /// decide who goes on; the thread that runs comes first among the choices
        fn choose(&mut self) {
            self.steps += 1;
            let mut ready: Vec<usize> =
                (0..self.status.len()).filter(|&t| self.status[t] == Status::Ready).collect();
            if ready.is_empty() {
                if self.status.iter().any(|s| *s != Status::Done) {
                    self.stuck = true;
                }
                self.over = true;
                return;
            }
            if let Some(p) = ready.iter().position(|&t| t == self.current) {
                ready.swap(0, p);
                ready[1..].sort();
            }
            let n = ready.len();
            let k = self.taken.len();
            let c = if k < self.prefix.len() {
                self.prefix[k].min(n - 1)
            } else {
                self.rng.as_mut().map_or(0, |r| r.below(n))
            };
            if n > 1 {
                self.taken.push((c, n));
            }
            self.current = ready[c];
        }
    }

    fn yield_here(me: usize, become_: Option<Status>) {
        let mut g = lock();
        {
            let Some(s) = g.as_mut() else {
                drop(g);
                loop {
                    std::thread::park();
                }
            };
            if let Some(b) = become_ {
                s.status[me] = b;
            }
            s.choose();
        }
        WAKE.notify_all();
        while let Some(s) = g.as_ref() {
            if s.stuck {
                // nobody can go on: the history ends here
                drop(g);
                loop {
                    std::thread::park();
                }
            }
            if s.current == me && s.status[me] != Status::Done {
                return;
            }
            if s.status[me] == Status::Done {
                return;
            }
            g = WAKE.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        if become_ != Some(Status::Done) {
            // the history has ended without this thread
            drop(g);
            loop {
                std::thread::park();
            }
        }
    }

    fn install() {
        static ONCE: Once = Once::new();
        ONCE.call_once(|| {
            set_observer(Box::new(|id, event| {
                let Some(me) = ME.with(|m| m.get()) else { 
                    // locks may be given back by threads of a pool, too
                    if event == Event::Released {
                        release(id);
                    }
                    return false;
                };
                match event {
                    Event::Before(_) => yield_here(me, None),
                    Event::Blocked(_) => yield_here(me, Some(Status::Blocked(id))),
                    Event::Released => release(id),
                }
                true
            }));
        });
    }

    fn release(id: usize) {
        if let Some(s) = lock().as_mut() {
            for st in s.status.iter_mut() {
                if *st == Status::Blocked(id) {
                    *st = Status::Ready;
                }
            }
        }
    }

    fn run<T: El>(s: &Scenario, prefix: Vec<usize>, rng: Option<Rng>) -> (Value, Vec<(usize, usize)>, bool) {
        install();
        let w = prepare::<T>(s);
        let n = s.threads.len();
        let events: &'static Mutex<Vec<Value>> = Box::leak(Box::new(Mutex::new(vec![])));
        let w: &'static World<T> = Box::leak(Box::new(w));
        *lock() = Some(State { current: usize::MAX, status: vec![Status::Ready; n], prefix, rng, ..State::default() });
        let hs: Vec<_> = s
            .threads
            .iter()
            .cloned()
            .enumerate()
            .map(|(t, cs)| {
                std::thread::spawn(move || {
                    // wait for the first turn
                    {
                        let mut g = lock();
                        while g.as_ref().map_or(false, |s| s.current != t) {
                            g = WAKE.wait(g).unwrap_or_else(|e| e.into_inner());
                        }
                    }
                    ME.with(|m| m.set(Some(t)));
                    for (i, c) in cs.iter().enumerate() {
                        if i > 0 {
                            yield_here(t, None);
                        }
                        events.lock().unwrap().push(json!({"t": t + 1, "k": "call", "c": c}));
                        let r = one(w, c);
                        events.lock().unwrap().push(json!({"t": t + 1, "k": "ret", "r": r}));
                    }
                    ME.with(|m| m.set(None));
                    yield_here(t, Some(Status::Done));
                })
            })
            .collect();
        {
            let mut g = lock();
            g.as_mut().unwrap().choose();
            WAKE.notify_all();
            let mut steps = usize::MAX;
            while !g.as_ref().unwrap().over {
                let (h, t) = WAKE
                    .wait_timeout(g, std::time::Duration::from_secs(30))
                    .unwrap_or_else(|e| e.into_inner());
                g = h;
                let now = g.as_ref().unwrap().steps;
                if t.timed_out() && now == steps {
                    // a thread waits for something that is not a lock we see
                    println!("{}", json!({"stalled": true}));
                    std::process::exit(3);
                }
                steps = now;
            }
        }
        let stuck = lock().as_ref().unwrap().stuck;
        if !stuck {
            for h in hs {
                h.join().unwrap();
            }
        }
        let st = lock().take().unwrap();
        let ev = events.lock().unwrap().clone();
        if stuck {
            return (json!({"setup": s.setup, "ev": ev, "end": [], "stuck": true}), st.taken, true);
        }
        let end = w.see();
        // SAFETY: all threads have ended
        unsafe {
            drop(Box::from_raw(w as *const World<T> as *mut World<T>));
            drop(Box::from_raw(events as *const _ as *mut Mutex<Vec<Value>>));
        }
        (history(s, ev, end), st.taken, false)
    }

    /// every order of the steps of the threads, up to `cap` of them; when there are
    /// more, random ones
    pub fn all<T: El>(s: &Scenario, cap: usize, rng: &mut Rng, out: &mut dyn FnMut(Value)) -> (usize, bool) {
        let mut prefix = vec![];
        let mut runs = 0;
        loop {
            let (h, taken, stuck) = run::<T>(s, prefix, None);
            runs += 1;
            out(h);
            if stuck {
                return (runs, false);
            }
            let Some(k) = taken.iter().rposition(|(c, n)| c + 1 < *n) else {
                return (runs, true);
            };
            if runs >= cap / 2 {
                break;
            }
            prefix = taken[..k].iter().map(|x| x.0).collect();
            prefix.push(taken[k].0 + 1);
        }
        while runs < cap {
            let r = Rng::new(rng.next());
            let (h, _, stuck) = run::<T>(s, vec![], Some(r));
            runs += 1;
            out(h);
            if stuck {
                break;
            }
        }
        (runs, false)
    }
}

fn write(out: &mut dyn std::io::Write, seen: &mut std::collections::HashSet<String>, h: Value) -> bool {
    let l = h.to_string();
    let new = !seen.contains(&l);
    if new {
        writeln!(out, "{l}").unwrap();
        out.flush().unwrap();
        seen.insert(l);
    }
    new
}

/// conc MODE SEED COUNT CAP OUT: histories, every one once.  One line of numbers at the end.
pub fn main<T: El>(mode: &str, seed: u64, count: usize, cap: usize, out: &str) {
    let mut out = std::fs::File::create(out).unwrap();
    let mut seen = Default::default();
    let (mut runs, mut new, mut complete) = (0, 0, 0);
    let _ = (&mut complete, cap);
    for i in 0..count {
        let mut rng = Rng::new(seed.wrapping_mul(7_368_787).wrapping_add(i as u64) ^ 0xc0c0);
        match mode {
            #[cfg(vp_hooks)]
            "scheduled" => {
                let s = scenario(&mut rng, i % 4 != 3);
                let mut n = 0;
                let (r, all) = scheduled::all::<T>(&s, cap, &mut rng, &mut |h| n += write(&mut out, &mut seen, h) as usize);
                runs += r;
                complete += all as usize;
                new += n;
            }
            "free" => {
                let s = scenario(&mut rng, i % 2 == 0);
                for k in 0..cap {
                    let spins: Vec<usize> = (0..4).map(|_| if k == 0 { 0 } else { rng.below(300) }).collect();
                    new += write(&mut out, &mut seen, free::<T>(&s, &spins)) as usize;
                    runs += 1;
                }
            }
            "flood" => {
                let (threads, times) = (2 + rng.below(7), cap / 2 + rng.below(cap));
                new += write(&mut out, &mut seen, flood::<T>(&mut rng, threads, times)) as usize;
                runs += 1;
            }
            _ => {
                eprintln!("conc: mode {mode}");
                std::process::exit(2);
            }
        }
    }
    println!("{}", json!({"runs": runs, "histories": new, "scenarios": count, "exhausted": complete}));
}
