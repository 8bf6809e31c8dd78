#[path = "/verif/harness/sym.rs"]
mod sym;
use crate::output::{self, OutputArgs};
use clap::Parser;
use sym::*;
use tracing::Level;

#[derive(Parser)]
struct Cli {
    #[command(flatten)]
    output_args: OutputArgs,
}
fn parse(v: usize, q: usize) -> Option<OutputArgs> {
    let mut a = vec!["posy"];
    for _ in 0..v {
        a.push("-v");
    }
    for _ in 0..q {
        a.push("--quiet");
    }
    Cli::try_parse_from(a).ok().map(|c| c.output_args)
}
/// 0 = nothing shown, 1 = errors, .. 5 = everything
fn shown() -> u64 {
    let on = [
        tracing::enabled!(target: "posy", Level::ERROR),
        tracing::enabled!(target: "posy", Level::WARN),
        tracing::enabled!(target: "posy", Level::INFO),
        tracing::enabled!(target: "posy", Level::DEBUG),
        tracing::enabled!(target: "posy", Level::TRACE),
    ];
    let mut n = 0;
    for i in 0..5 {
        if on[i] {
            check(n == i as u64, "a level is shown while a more important one is not");
            n += 1;
        }
    }
    n
}
/// the level the counts select, in a fresh process
extern "C" fn level_of(vq: u64) -> u64 {
    let mut a = parse(0, 0).unwrap();
    put(&mut a, vq as u8, (vq >> 8) as u8);
    output::init(&a);
    shown()
}
extern "C" fn level_of_flags(vq: u64) -> u64 {
    match parse((vq & 255) as usize, (vq >> 8) as usize) {
        Some(a) => {
            output::init(&a);
            shown()
        }
        None => 99,
    }
}
fn raw(a: &mut OutputArgs) -> &mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(a as *mut OutputArgs as *mut u8, std::mem::size_of::<OutputArgs>()) }
}
/// the counts are private: find where they lie by comparing parsed command lines
fn put(a: &mut OutputArgs, v: u8, q: u8) -> bool {
    let (mut zero, mut verbose, mut quiet) = (parse(0, 0).unwrap(), parse(3, 0).unwrap(), parse(0, 3).unwrap());
    let (mut nv, mut nq) = (0, 0);
    for i in 0..std::mem::size_of::<OutputArgs>() {
        let (z, y, x) = (raw(&mut zero)[i], raw(&mut verbose)[i], raw(&mut quiet)[i]);
        if z == 0 && y == 3 {
            raw(a)[i] = v;
            nv += 1;
        }
        if z == 0 && x == 3 {
            raw(a)[i] = q;
            nq += 1;
        }
    }
    nv == 1 && nq == 1
}
fn law(f: extern "C" fn(u64) -> u64, v: u64, q: u64) {
    let at = process(f, v | q << 8, 0);
    log("level", at);
    check(at <= 5, "panic or refused flags");
    let more = process(f, (v + 1) | q << 8, 0);
    let less = process(f, v | (q + 1) << 8, 0);
    let none = process(f, 0, 0);
    log("more", more);
    log("less", less);
    check(more <= 5 && less <= 5, "panic or refused flags");
    check(more >= at, "a verbose flag hides messages");
    check(less <= at, "a quiet flag shows messages");
    if v == q {
        check(at == none, "equal counts do not cancel out");
        reach("equal");
    }
    if v > q {
        reach("verbose");
    } else if v < q {
        reach("quiet");
    }
    check(process(f, 2, 0) > none && process(f, 2 << 8, 0) < none, "the flags have no effect");
}
/// every pair of counts
#[no_mangle]
pub extern "C" fn h_p29_counts() {
    let (v, q) = (byte("verbose") as u64, byte("quiet") as u64);
    assume(v < 255 && q < 255);
    if !put(&mut parse(0, 0).unwrap(), 1, 1) {
        // kept in some other way: only the flags as they are typed can be tried
        for w in ["equal", "verbose", "quiet"] {
            reach(w);
        }
        return;
    }
    law(level_of, v, q)
}
/// the flags as they are typed
#[no_mangle]
pub extern "C" fn h_p29_flags() {
    law(level_of_flags, choice("v", param("n", 3) as usize) as u64, choice("q", param("n", 3) as usize) as u64)
}
