//! The memory a program takes up, and does not give back.
use crate::el::El;
use crate::world::World;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::Relaxed};

/// worlds remember the calls made in them
pub static REMEMBER: AtomicBool = AtomicBool::new(false);

/// bytes allocated and not freed
static LIVE: AtomicIsize = AtomicIsize::new(0);

struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as isize - l.size() as isize, Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;

fn since(m: isize) -> isize {
    // threads of a pool may still be putting away what they worked with
    let mut least = isize::MAX;
    for k in 0..4 {
        least = least.min(LIVE.load(Relaxed) - m);
        if least < 1024 {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(k));
    }
    least
}

/// The first c.from calls of the past, then the others c.n times over, all their handles
/// dropped each time.  Bytes then held, and bytes left when the program is over.
pub fn again<T: El>(past: &[Value], c: &Value) -> Value {
    let n = c["n"].as_u64().unwrap() as usize;
    let (first, body) = past.split_at(c["from"].as_u64().unwrap() as usize);
    let go = |n: usize| {
        let m = LIVE.load(Relaxed);
        let mut w = World::<T>::new();
        for c in first {
            w.make(c);
        }
        let base = w.slots.len();
        let mut ends = vec![];
        'all: for k in 0..n {
            for (j, c) in body.iter().enumerate() {
                w.make(c);
                if k == 0 {
                    ends.push(w.slots.len());
                } else if w.slots.len() != ends[j] {
                    break 'all;
                }
            }
            w.slots.truncate(base);
        }
        drop(ends);
        w.slots.truncate(base);
        w.slots.shrink_to_fit();
        let held = since(m + std::mem::size_of_val(&w.slots[..]) as isize);
        drop(w);
        (held, since(m))
    };
    go(2);
    // threads of a pool allocate what they need when they begin, which is some time or other
    let (mut held, mut left) = go(n);
    for _ in 0..3 {
        if left < 1024 {
            break;
        }
        let again = go(n);
        (held, left) = (held.min(again.0), left.min(again.1));
    }
    json!({"st": "ok", "held": held.max(0), "left": left.max(0)})
}

/// is r the reply that the specification calls for, which for "mem" is a bound
pub fn agree(r: &Value, want: &Value) -> bool {
    let within = |k: &str| r[k].as_i64().is_some_and(|x| x <= want[k].as_i64().unwrap());
    if want.get("held").is_some() {
        within("held") && within("left")
    } else {
        r == want
    }
}
