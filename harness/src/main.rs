#![allow(unexpected_cfgs)]
mod conc;
mod ctx;
mod el;
mod gen;
mod mem;
mod profiles;
mod rng;
mod round;
mod world;

use el::El;
use gen::{Gen, Profile};
use rng::Rng;
use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn with_type<R>(t: &str, f: impl FnOnce(&dyn Typed) -> R) -> R {
    f(match t {
        "f32" => &Of::<f32>(std::marker::PhantomData) as &dyn Typed,
        "f64" => &Of::<f64>(std::marker::PhantomData),
        "i32" => &Of::<i32>(std::marker::PhantomData),
        "i64" => &Of::<i64>(std::marker::PhantomData),
        "i8" => &Of::<i8>(std::marker::PhantomData),
        "u8" => &Of::<u8>(std::marker::PhantomData),
        "i128" => &Of::<i128>(std::marker::PhantomData),
        "u32" => &Of::<u32>(std::marker::PhantomData),
        "u64" => &Of::<u64>(std::marker::PhantomData),
        "u128" => &Of::<u128>(std::marker::PhantomData),
        "usize" => &Of::<usize>(std::marker::PhantomData),
        _ => panic!("harness: type {t}"),
    })
}

struct Of<T>(std::marker::PhantomData<T>);
trait Typed {
    fn program(&self, rng: &mut Rng, p: &Profile, out: &mut dyn Write) -> usize;
    fn run(&self, cs: &mut dyn Iterator<Item = Value>, out: &mut dyn FnMut(&Value, Value));
}
impl<T: El> Typed for Of<T> {
    fn program(&self, rng: &mut Rng, p: &Profile, out: &mut dyn Write) -> usize {
        let mut g = Gen::<T>::new(rng, p, out);
        g.program();
        g.lines
    }
    fn run(&self, cs: &mut dyn Iterator<Item = Value>, out: &mut dyn FnMut(&Value, Value)) {
        let mut w = world::World::<T>::new();
        for c in cs {
            let r = w.exec(&c);
            out(&c, r);
        }
    }
}

/// gen PROFILE SEED LINES CHUNKS PREFIX: random programs until LINES calls have been
/// logged, spread over files PREFIX0 .. ; each program whole
fn gen(a: &[String]) {
    let p = &profiles::find(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let lines: usize = a[2].parse().unwrap();
    let chunks: usize = a[3].parse().unwrap();
    let mut outs: Vec<_> = (0..chunks)
        .map(|i| std::fs::File::create(format!("{}{}", a[4], i)).unwrap())
        .collect();
    el::SMOOTH.store(a[0].starts_with("smooth"), std::sync::atomic::Ordering::Relaxed);
    el::ZEROS.store(a[0].starts_with("zeros"), std::sync::atomic::Ordering::Relaxed);
    el::IEEE.store(a[0].starts_with("ieee"), std::sync::atomic::Ordering::Relaxed);
    mem::REMEMBER.store(a[0].starts_with("memory"), std::sync::atomic::Ordering::Relaxed);
    let d = if a[0].starts_with("dyadic64") { 2 } else if a[0].starts_with("dyadic") { 1 } else { 0 };
    el::DYADIC.store(d, std::sync::atomic::Ordering::Relaxed);
    let (mut total, mut programs, mut abandoned) = (0, 0, 0);
    let h = a[0].bytes().fold(0u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
    while total < lines {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(programs as u64) ^ h);
        let t = p.types[(programs) % p.types.len()];
        let out = &mut outs[programs % chunks];
        // replies that make no sense may confuse the generator: the program ends there
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            with_type(t, |x| x.program(&mut rng, p, out))
        }));
        match r {
            Ok(n) => total += n,
            Err(_) => {
                abandoned += 1;
                total += 10;
            }
        }
        programs += 1;
    }
    if d > 0 {
        std::fs::write(format!("{}table", a[4]), el::table().to_string()).unwrap();
    }
    println!("{}", json!({"programs": programs, "lines": total, "abandoned": abandoned}));
}

fn stdin_values() -> impl Iterator<Item = Value> {
    std::io::stdin().lock().lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).map(|l| {
        // CSVWrite of TLC writes JSON as a quoted string
        let v: Value = serde_json::from_str(&l).unwrap();
        v.as_str().map(|s| serde_json::from_str(s).unwrap()).unwrap_or(v)
    })
}

/// exec: calls (or trace lines) from stdin, trace lines to stdout
fn exec() {
    // for programs that profiles named smooth.. or zeros.. have logged
    el::ZEROS.store(std::env::var("VP_ZEROS").is_ok(), std::sync::atomic::Ordering::Relaxed);
    el::SMOOTH.store(std::env::var("VP_SMOOTH").is_ok(), std::sync::atomic::Ordering::Relaxed);
    if let Ok(f) = std::env::var("VP_TABLE") {
        let t: Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        el::load_table(t.get("bits").unwrap_or(&t["table"]));
        el::DYADIC.store(1, std::sync::atomic::Ordering::Relaxed);
    }
    let mut programs: Vec<Vec<Value>> = vec![];
    for v in stdin_values() {
        let c = if v.get("c").is_some() { v["c"].clone() } else { v };
        if c["op"] == "mem" {
            mem::REMEMBER.store(true, std::sync::atomic::Ordering::Relaxed);
        }
        if c["op"] == "reset" || programs.is_empty() {
            programs.push(vec![]);
        }
        programs.last_mut().unwrap().push(c);
    }
    for p in programs {
        let t = p[0]["t"].as_str().unwrap_or("f64").to_string();
        with_type(&t, |x| x.run(&mut p.into_iter(), &mut |c, r| println!("{}", json!({"c": c, "r": r}))));
    }
}

/// replay TYPES PROGRESS: behaviours of the specification from stdin, one a line,
/// [{"c": call, "r": reply}, ..]; every reply of the real code must be the same.
/// PROGRESS holds the behaviour under way, should the process not survive it.
fn replay(a: &[String]) {
    use std::os::unix::fs::FileExt;
    let types: Vec<&str> = a[0].split(',').collect();
    let progress = std::fs::File::create(&a[1]).unwrap();
    let (mut behaviours, mut calls, mut bad) = (0u64, 0u64, 0u64);
    for b in stdin_values() {
        behaviours += 1;
        for t in &types {
            progress.write_at(format!("{behaviours:>12} {t:>6}\n").as_bytes(), 0).unwrap();
            let b = b.as_array().unwrap();
            let cs: Vec<Value> = b
                .iter()
                .enumerate()
                .map(|(k, e)| {
                    // every form of the operators gets its turn
                    let mut c = e["c"].clone();
                    if c.get("form").is_none() {
                        c["form"] = json!((behaviours as usize + k + t.len()) % 4);
                    }
                    c
                })
                .collect();
            // after a wrong reply the rest of the calls may make no sense
            mem::REMEMBER.store(cs.iter().any(|c| c["op"] == "mem"), std::sync::atomic::Ordering::Relaxed);
            let k = std::cell::Cell::new(0);
            let failed = std::cell::RefCell::new(None);
            with_type(t, |x| {
                x.run(&mut cs.clone().into_iter().take_while(|_| failed.borrow().is_none()), &mut |_, r| {
                    if !mem::agree(&r, &b[k.get()]["r"]) {
                        failed.replace(Some((k.get(), r)));
                    }
                    k.set(k.get() + 1);
                })
            });
            calls += k.get() as u64;
            if let Some((k, r)) = failed.into_inner() {
                bad += 1;
                if bad <= 20 {
                    println!("{}", json!({"type": t, "step": k, "calls": cs, "got": r, "want": b[k]["r"]}));
                }
            }
        }
    }
    println!("{}", json!({"behaviours": behaviours, "calls": calls, "bad": bad}));
}

/// half of what threads have by default, so that it shows when the depth of the
/// stack grows with the length of a computation
fn on_small_stack(f: impl FnOnce() + Send + 'static) {
    std::thread::Builder::new().stack_size(1 << 20).spawn(f).unwrap().join().unwrap()
}

fn main() {
    if std::env::var("VP_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("gen") if a[2].starts_with("deep") => on_small_stack(move || gen(&a[2..])),
        Some("gen") => gen(&a[2..]),
        Some("exec") if std::env::var("VP_DEEP").is_ok() => on_small_stack(exec),
        Some("exec") => exec(),
        Some("conc") => {
            let n = |i: usize| a[i].parse::<usize>().unwrap();
            conc::main::<f64>(&a[2], n(3) as u64, n(4), n(5), &a[6])
        }
        Some("round") => round::main(a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4]),
        Some("replay") => replay(&a[2..]),
        _ => {
            eprintln!("usage: vp_harness gen|exec ...");
            std::process::exit(2);
        }
    }
}
