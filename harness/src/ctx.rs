//! The places a computation can be called from: the main thread, other threads,
//! pools of any size, inside nested parallel calls.
use rayon::prelude::*;
use rayon::{ThreadPool, ThreadPoolBuilder};
use serde_json::Value;
use std::panic::resume_unwind;
use std::sync::OnceLock;

pub const HOWS: &[&str] = &[
    "main", "install", "thread", "join", "scope", "in_place", "spawn", "par_iter",
];
pub const MANY: &[&str] = &["threads", "par_iter", "scope", "join", "in_place"];
pub const MAX: usize = 8;

/// the pool of n threads; the global one for 0
fn pool(n: usize) -> &'static ThreadPool {
    static POOLS: OnceLock<Vec<OnceLock<ThreadPool>>> = OnceLock::new();
    POOLS.get_or_init(|| (0..=MAX).map(|_| OnceLock::new()).collect())[n]
        .get_or_init(|| ThreadPoolBuilder::new().num_threads(n).build().unwrap())
}

fn inside<R: Send>(n: usize, f: impl FnOnce() -> R + Send) -> R {
    if n == 0 {
        f()
    } else {
        pool(n).install(f)
    }
}

/// something for the other threads of a pool to do meanwhile
fn busy() -> u64 {
    let mut x = 1u64;
    for i in 0..2000 {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(i);
    }
    std::hint::black_box(x)
}

pub fn run<R: Send>(ctx: &Value, f: impl FnOnce() -> R + Send) -> R {
    let n = ctx["n"].as_u64().unwrap() as usize;
    match ctx["how"].as_str().unwrap() {
        "main" => f(),
        "install" => inside(n, f),
        "thread" => std::thread::scope(|s| s.spawn(|| inside(n, f)).join())
            .unwrap_or_else(|e| resume_unwind(e)),
        "join" => inside(n, || rayon::join(f, busy).0),
        "scope" => inside(n, || {
            let mut r = None;
            rayon::scope(|s| {
                s.spawn(|_| {
                    busy();
                });
                s.spawn(|_| r = Some(f()));
                s.spawn(|_| {
                    busy();
                });
            });
            r.unwrap()
        }),
        "in_place" => inside(n, || {
            rayon::in_place_scope(|s| {
                for _ in 0..4 {
                    s.spawn(|_| {
                        busy();
                    });
                }
                f()
            })
        }),
        "spawn" => {
            let mut r = None;
            if n == 0 {
                rayon::scope(|s| s.spawn(|_| r = Some(f())));
            } else {
                pool(n).scope(|s| s.spawn(|_| r = Some(f())));
            }
            r.unwrap()
        }
        "par_iter" => {
            let f = std::sync::Mutex::new(Some(f));
            inside(n, || {
                (0..5usize)
                    .into_par_iter()
                    .map(|i| {
                        busy();
                        if i == 2 {
                            let f = f.lock().unwrap().take().unwrap();
                            Some(f())
                        } else {
                            None
                        }
                    })
                    .collect::<Vec<_>>()
            })
            .into_iter()
            .flatten()
            .next()
            .unwrap()
        }
        h => panic!("harness: how {h}"),
    }
}

fn split<R: Send>(lo: usize, hi: usize, f: &(dyn Fn(usize) -> R + Sync)) -> Vec<R> {
    if hi - lo <= 1 {
        return (lo..hi).map(f).collect();
    }
    let mid = (lo + hi) / 2;
    let (mut a, b) = rayon::join(|| split(lo, mid, f), || split(mid, hi, f));
    a.extend(b);
    a
}

/// f(0) .. f(k - 1), all at once as far as the context goes
pub fn at_once<R: Send>(ctx: &Value, k: usize, f: &(dyn Fn(usize) -> R + Sync)) -> Vec<R> {
    let n = ctx["n"].as_u64().unwrap() as usize;
    match ctx["how"].as_str().unwrap() {
        "threads" => {
            let go = &std::sync::Barrier::new(k);
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..k)
                    .map(|i| {
                        s.spawn(move || {
                            go.wait();
                            inside(n, || f(i))
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            })
        }
        "par_iter" => inside(n, || (0..k).into_par_iter().map(f).collect()),
        "scope" => inside(n, || {
            let mut rs: Vec<Option<R>> = (0..k).map(|_| None).collect();
            rayon::scope(|s| {
                for (i, r) in rs.iter_mut().enumerate() {
                    s.spawn(move |_| *r = Some(f(i)));
                }
            });
            rs.into_iter().map(|r| r.unwrap()).collect()
        }),
        "in_place" => inside(n, || {
            let mut rs: Vec<Option<R>> = (0..k).map(|_| None).collect();
            rayon::in_place_scope(|s| {
                let (mine, others) = rs.split_at_mut(1);
                for (i, r) in others.iter_mut().enumerate() {
                    s.spawn(move |_| *r = Some(f(i + 1)));
                }
                mine[0] = Some(f(0));
            });
            rs.into_iter().map(|r| r.unwrap()).collect()
        }),
        "join" => inside(n, || split(0, k, f)),
        h => panic!("harness: how {h}"),
    }
}
