//! Runs the harnesses natively, against the real crate and its real
//! dependencies, on concrete values for the symbolic inputs.
//!
//! Standard input: `R name arg..` starts a run, `I id value` gives an input,
//! `E` executes.  Standard output: `O tag value` per observation, `P id` per
//! point reached and `D` when the run ends.  An assertion that fails prints
//! `A id` and exits with 1, an assumption that fails exits with 77, a panic
//! aborts.
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Mutex;

#[allow(dead_code)]
#[path = "../../harness/src/latin.rs"]
mod latin;
#[allow(dead_code)]
#[path = "../../harness/src/props.rs"]
mod props;
#[allow(dead_code)]
#[path = "../../harness/src/spec.rs"]
mod spec;
#[allow(dead_code)]
#[path = "../../harness/src/sym.rs"]
mod sym;
#[allow(dead_code)]
#[path = "../../harness/src/util.rs"]
mod util;

/// A run whose name ends in `!` is about safety; it asserts nothing else.
static SAFETY_ONLY: AtomicBool = AtomicBool::new(false);

static INPUTS: Mutex<Option<HashMap<u64, u64>>> = Mutex::new(None);

fn out(s: String) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{s}");
}

fn leave(code: i32) -> ! {
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

#[no_mangle]
extern "C" fn sym_u(id: u64, bits: u64) -> u64 {
    let inputs = INPUTS.lock().unwrap();
    let v = inputs.as_ref().and_then(|m| m.get(&id)).copied().unwrap_or(0);
    if bits >= 64 {
        v
    } else {
        v & ((1 << bits) - 1)
    }
}

#[no_mangle]
extern "C" fn sym_assume(c: bool) {
    if !c {
        out("assumption does not hold".into());
        leave(77)
    }
}

#[no_mangle]
extern "C" fn sym_assert(c: bool, id: u64) {
    if !c {
        if SAFETY_ONLY.load(Relaxed) {
            leave(77)
        }
        out(format!("A {id}"));
        leave(1)
    }
}

#[no_mangle]
extern "C" fn sym_split(v: u64) -> u64 {
    v
}

#[no_mangle]
extern "C" fn sym_reach(id: u64) {
    out(format!("P {id}"));
}

#[no_mangle]
extern "C" fn sym_observe(tag: u64, v: u64) {
    out(format!("O {tag} {v}"));
}

fn main() {
    let mut run: Option<(String, Vec<u64>)> = None;
    let mut inputs = HashMap::new();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut w = line.split_whitespace();
        match w.next() {
            Some("R") => {
                let name = w.next().unwrap().to_string();
                run = Some((name, w.map(|a| a.parse().unwrap()).collect()));
                inputs = HashMap::new();
            },
            Some("I") => {
                let id = w.next().unwrap().parse().unwrap();
                inputs.insert(id, w.next().unwrap().parse().unwrap());
            },
            Some("E") => {
                let (name, mut a) = run.take().unwrap();
                *INPUTS.lock().unwrap() = Some(std::mem::take(&mut inputs));
                a.resize(6, 0);
                SAFETY_ONLY.store(name.ends_with('!'), Relaxed);
                if !props::call(name.trim_end_matches('!'), a.as_slice().try_into().unwrap()) {
                    out(format!("unknown harness {name}"));
                    leave(78)
                }
                out("D".into());
            },
            _ => {},
        }
    }
    leave(0)
}
