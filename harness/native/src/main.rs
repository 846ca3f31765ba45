//! Native build: replays one concrete case of a harness against the real code.
//! usage: native ENTRY TIER CASEFILE ; CASEFILE has three lines: shard, inputs, rng words.
#[path = "../../props/mod.rs"]
mod props;
use std::cell::RefCell;
#[derive(Default)]
struct Script {
    shard: u64,
    tier: u32,
    inp: Vec<u64>,
    ip: usize,
    rng: Vec<u64>,
    rp: usize,
    obs: Vec<u64>,
    sweep: Option<(u64, String)>,
    hit: bool,
    lenient: bool,
}
thread_local!(static S: RefCell<Script> = RefCell::default());
struct Stop;
fn stop(m: &str) -> ! {
    if S.with(|s| s.borrow().sweep.is_some()) {
        std::panic::resume_unwind(Box::new(Stop));
    }
    println!("{m}");
    std::process::exit(4)
}
/// Sweep mode: a random word, biased towards small and boundary values.
fn random(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
fn next() -> u64 {
    S.with(|s| {
        let s = &mut *s.borrow_mut();
        if let Some((x, _)) = &mut s.sweep {
            return random(x);
        }
        s.ip += 1;
        match s.inp.get(s.ip - 1) {
            Some(v) => *v,
            None if s.lenient => 0,
            None => {
                println!("SCRIPT-END inputs");
                std::process::exit(4)
            }
        }
    })
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_u8() -> u8 {
    next() as u8
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_u32() -> u32 {
    next() as u32
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_u64() -> u64 {
    next()
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_choice(n: u32) -> u32 {
    let v = next() as u32;
    if S.with(|s| s.borrow().sweep.is_some()) {
        return v % n;
    }
    if v >= n {
        stop("SCRIPT-END choice out of range");
    }
    v
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_shard(n: u32) -> u32 {
    if S.with(|s| s.borrow().sweep.is_some()) {
        return next() as u32 % n;
    }
    S.with(|s| s.borrow().shard as u32)
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_tier() -> u32 {
    S.with(|s| s.borrow().tier)
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_assume(c: bool) {
    if !c {
        stop("ASSUME-FALSE");
    }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_check(c: bool, p: *const u8, n: usize) {
    if !c {
        let m = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
        println!("CHECKFAIL {m}");
        std::process::exit(3);
    }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_observe(v: u64) {
    S.with(|s| s.borrow_mut().obs.push(v));
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_reach(p: *const u8, n: usize) {
    let m = unsafe { std::slice::from_raw_parts(p, n) };
    S.with(|s| {
        let s = &mut *s.borrow_mut();
        if s.sweep.as_ref().is_some_and(|x| x.1.as_bytes() == m) {
            s.hit = true;
        }
    });
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_show(p: *const u8, n: usize) {
    if S.with(|s| s.borrow().sweep.is_some()) {
        return;
    }
    let m = unsafe { std::slice::from_raw_parts(p, n) };
    println!("SHOW {:?}", String::from_utf8_lossy(m));
}
#[unsafe(no_mangle)]
extern "C-unwind" fn rsym_rng(_: *const u8, _: usize, _: u64) -> u64 {
    S.with(|s| {
        let s = &mut *s.borrow_mut();
        if let Some((x, _)) = &mut s.sweep {
            return random(x);
        }
        s.rp += 1;
        match s.rng.get(s.rp - 1) {
            Some(v) => *v,
            None if s.lenient => {
                let mut x = s.rp as u64;
                random(&mut x)
            }
            None => {
                println!("SCRIPT-END rng");
                std::process::exit(4)
            }
        }
    })
}
fn run_one(entry: &str, tier: u32, case: &str, lenient: bool) {
    let mut l = case.lines();
    let nums = |s: Option<&str>| -> Vec<u64> { s.unwrap_or("").split_whitespace().map(|x| x.parse().unwrap()).collect() };
    let shard = nums(l.next())[0];
    let inp = nums(l.next());
    let rng = nums(l.next());
    S.with(|s| *s.borrow_mut() = Script { shard, tier, inp, rng, lenient, ..Default::default() });
    let f = props::ENTRIES.iter().find(|e| e.0 == entry).expect("entry").1;
    f();
    S.with(|s| {
        let s = s.borrow();
        println!("OBS {}", s.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        println!("DONE");
    });
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (entry, tier) = (a[1].as_str(), a[2].parse::<u32>().unwrap());
    if a.get(3).map(String::as_str) == Some("--sweep") {
        // exit 0: some run reaches the label; exit 5: none of N completed runs does
        let (label, n, mut seed) = (a[4].clone(), a[5].parse::<u64>().unwrap(), a[6].parse::<u64>().unwrap());
        let f = props::ENTRIES.iter().find(|e| e.0 == entry).expect("entry").1;
        let mut done = 0;
        for _ in 0..n * 50 {
            let x = random(&mut seed);
            S.with(|s| *s.borrow_mut() = Script { tier, sweep: Some((x, label.clone())), ..Default::default() });
            let r = std::panic::catch_unwind(|| f());
            if S.with(|s| s.borrow().hit) {
                println!("reached {label}");
                return;
            }
            match r {
                Ok(()) => done += 1,
                Err(e) if e.is::<Stop>() => {}
                Err(_) => std::process::exit(101),
            }
            if done >= n {
                break;
            }
        }
        println!("none of {done} completed runs reaches {label}");
        std::process::exit(5);
    }
    // --lenient: a case recorded in the middle of a path; inputs it has not asked for yet are made up
    let lenient = a.last().map(String::as_str) == Some("--lenient");
    for p in a[3..].iter().filter(|p| *p != "--lenient") {
        let case = std::fs::read_to_string(p).unwrap();
        run_one(entry, tier, &case, lenient);
    }
}
