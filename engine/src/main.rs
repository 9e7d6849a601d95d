//! lsx: symbolic execution of rustc's LLVM IR with SAT-decided queries.
mod blast;
mod cfg;
mod exec;
mod expr;
mod ir;
mod sat;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
struct Totals {
    jobs: u64,
    st: Stats,
    cnf_vars: u64,
    cnf_clauses: u64,
    final_s: f64,
    final_unsat: u64,
    final_unknown: u64,
    trivial: u64,
    reaches: BTreeMap<u64, Vec<(u32, u128)>>,
    witnesses: Vec<(Vec<(u32, u128)>, Vec<(u64, u64)>)>,
    asserts: BTreeMap<u64, u64>,
    nodes: u64,
}

enum Verdict {
    Violation(String, Vec<String>, Vec<(u32, u128)>, Vec<u128>),
    Inconclusive(String, Vec<u128>),
}

struct Shared {
    q: Mutex<(Vec<(usize, Vec<u128>)>, usize)>,
    cv: Condvar,
    out: Mutex<(Vec<Totals>, Vec<(usize, Verdict)>)>,
    stop: Vec<std::sync::atomic::AtomicBool>,
    /// Milliseconds given to each run so far.
    spent: Vec<std::sync::atomic::AtomicU64>,
}

impl Shared {
    /// The next job: runs that have taken little time go first, so that what a
    /// time limit leaves unfinished is a few expensive runs.
    fn pick(&self, q: &mut Vec<(usize, Vec<u128>)>) -> Option<(usize, Vec<u128>)> {
        let level = |hi: usize| 64 - (self.spent[hi].load(std::sync::atomic::Ordering::Relaxed) / 5000).leading_zeros();
        let i = (0..q.len()).rev().min_by_key(|&i| (level(q[i].0), q[i].0))?;
        Some(q.remove(i))
    }
}

#[derive(Clone)]
struct Harness {
    func: String,
    args: Vec<u64>,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Opts {
    kissat: String,
    final_limit: u64,
    witnesses: usize,
    dump: Option<String>,
    second: Option<String>,
}

/// Re-discharge all obligations of a job with an external solver.
fn discharge(en: &Engine, tot: &mut Totals, o: &Opts) -> Result<(), String> {
    use blast::Sink;
    if en.obls.is_empty() {
        tot.trivial += 1;
        return Ok(());
    }
    let mut cnf = blast::Cnf::default();
    let mut bl = blast::Blaster::new(&mut cnf);
    let mut lits = vec![];
    for &q in &en.obls {
        lits.push(bl.lit(&en.cx, &mut cnf, q));
    }
    lits.sort();
    lits.dedup();
    lits.retain(|l| *l != sat::neg(bl.tru));
    if lits.is_empty() {
        tot.trivial += 1;
        return Ok(());
    }
    cnf.clause(&lits);
    tot.cnf_vars += cnf.nvars as u64;
    tot.cnf_clauses += cnf.ncl as u64;
    let d = cnf.dimacs();
    let t0 = Instant::now();
    let mut solvers = vec![o.kissat.clone()];
    if let Some(s) = &o.second {
        solvers.push(s.clone());
    }
    for s in solvers {
        let mut parts = s.split(' ');
        let bin = parts.next().unwrap();
        let mut cmd = Command::new("timeout");
        cmd.arg(format!("{}", o.final_limit)).arg(bin);
        for p in parts {
            cmd.arg(p);
        }
        let mut ch = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("{}: {}", s, e))?;
        let mut si = ch.stdin.take().unwrap();
        let dd = d.clone();
        let h = std::thread::spawn(move || {
            let _ = si.write_all(&dd);
        });
        let out = ch.wait_with_output().map_err(|e| e.to_string())?;
        let _ = h.join();
        let txt = String::from_utf8_lossy(&out.stdout);
        if txt.lines().any(|l| l.trim() == "s UNSATISFIABLE") {
            continue;
        } else if txt.lines().any(|l| l.trim() == "s SATISFIABLE") {
            return Err(format!("external solver {} disagrees: an obligation is satisfiable", s));
        }
        // No second verdict: the queries were decided by the built-in solver only.
        tot.final_s += t0.elapsed().as_secs_f64();
        tot.final_unknown += 1;
        return Ok(());
    }
    tot.final_s += t0.elapsed().as_secs_f64();
    tot.final_unsat += 1;
    Ok(())
}

fn model_of(en: &Engine, vals: &[u128]) -> Vec<(u32, u128)> {
    let mut memo = vec![];
    en.syms.iter().map(|(id, _, e)| (*id, en.cx.eval(*e, vals, &mut memo))).collect()
}

fn run_job(m: &Arc<ir::Module>, h: &Harness, prefix: Vec<u128>, deadline: Instant, o: &Opts) -> (Totals, Vec<Vec<u128>>, Option<Verdict>) {
    let mut en = Engine::new(m.clone(), prefix, deadline);
    let mut tot = Totals::default();
    tot.jobs = 1;
    en.safety_only = h.func.ends_with('!');
    let f = m.func(h.func.trim_end_matches('!')).unwrap_or_else(|| panic!("no function {}", h.func));
    let st = en.root();
    let args: Vec<Val> = h
        .args
        .iter()
        .enumerate()
        .map(|(i, a)| {
            let w = match f.params.get(i).map(|p| p.0.clone()) {
                Some(ir::Ty::Int(w)) => w,
                _ => 64,
            };
            Val::S(en.cx.k(*a as u128, w))
        })
        .collect();
    let r = en.exec_fn(&f, st, args);
    let mut verdict = None;
    match r {
        Ok(fin) => {
            if let Some((st, _)) = fin {
                // witness for replay validation
                if tot.witnesses.len() < o.witnesses {
                    if let Ok(true) = en.sat_now(st.pc.all) {
                        let vals = en.last_model();
                        let mut memo = vec![];
                        let obs = en
                            .observes
                            .iter()
                            .filter(|(pc, _, _)| en.cx.eval(*pc, &vals, &mut memo) == 1)
                            .map(|(_, t, v)| (*t, en.cx.eval(*v, &vals, &mut vec![]) as u64))
                            .collect();
                        tot.witnesses.push((model_of(&en, &vals), obs));
                    }
                }
            }
            for (id, md) in &en.reaches {
                if let Some(v) = md {
                    tot.reaches.insert(*id, model_of(&en, v));
                }
            }
            if let Err(e) = discharge(&en, &mut tot, o) {
                verdict = Some(Verdict::Inconclusive(e, en.prefix.clone()));
            }
        }
        Err(Stop::Violation { what, model, stack }) => {
            verdict = Some(Verdict::Violation(what, stack.iter().map(|s| demangle(s)).collect(), model_of(&en, &model), en.prefix.clone()));
        }
        Err(Stop::Inconclusive(s)) => verdict = Some(Verdict::Inconclusive(s, en.prefix.clone())),
    }
    if en.trace >= 1 {
        let mut p: Vec<_> = en.prof.iter().collect();
        p.sort_by(|a, b| b.1 .1.partial_cmp(&a.1 .1).unwrap());
        for (n, (c, t)) in p.iter().take(25) {
            eprintln!("{:8.3}s {:6} {}", t, c, demangle(n));
        }
        eprintln!("nodes {} obls {} queries {} (sat {}) model_hits {} merges {} insts {} symbr {} solver {:.2}s prefix {:?}", en.cx.nodes.len(), en.obls.len(), en.st.queries, en.st.queries_sat, en.st.model_hits, en.st.merges, en.st.insts, en.st.sym_branches, en.st.solver_s, en.prefix);
    }
    tot.nodes = en.cx.nodes.len() as u64;
    tot.asserts = en.asserts_seen.clone();
    tot.st = en.st.clone();
    (tot, std::mem::take(&mut en.new_jobs), verdict)
}

fn main() {
    let mut a = std::env::args().skip(1);
    let mut file = None;
    let mut hs: Vec<Harness> = vec![];
    let mut threads = 8usize;
    let mut limit = 600u64;
    let mut out = None;
    let mut first_only = false;
    let mut o = Opts { kissat: "/usr/local/bin/kissat -q".into(), final_limit: 600, witnesses: 1, dump: None, second: None };
    while let Some(x) = a.next() {
        match x.as_str() {
            "--threads" => threads = a.next().unwrap().parse().unwrap(),
            "--time" => limit = a.next().unwrap().parse().unwrap(),
            // stop at the first violation of any run
            "--first" => first_only = true,
            "--out" => out = Some(a.next().unwrap()),
            "--solver" => o.kissat = a.next().unwrap(),
            "--second" => o.second = Some(a.next().unwrap()),
            "--dump" => o.dump = Some(a.next().unwrap()),
            "--final-limit" => o.final_limit = a.next().unwrap().parse().unwrap(),
            // --run fn:arg,arg
            "--run" => {
                let s = a.next().unwrap();
                let (f, r) = s.split_once(':').unwrap_or((&s, ""));
                hs.push(Harness { func: f.into(), args: r.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() });
            }
            _ => file = Some(x),
        }
    }
    let t0 = Instant::now();
    exec::watch_memory();
    let text = std::fs::read_to_string(file.expect("IR file")).expect("read IR");
    let m = Arc::new(ir::Module::load(text));
    let deadline = t0 + Duration::from_secs(limit);
    let nh = hs.len();
    let sh = Arc::new(Shared {
        q: Mutex::new(((0..nh).rev().map(|i| (i, vec![])).collect(), 0)),
        cv: Condvar::new(),
        out: Mutex::new(((0..nh).map(|_| Totals::default()).collect(), vec![])),
        stop: (0..nh).map(|_| Default::default()).collect(),
        spent: (0..nh).map(|_| Default::default()).collect(),
    });
    let o = Arc::new(o);
    let hs = Arc::new(hs);
    let mut th = vec![];
    for _ in 0..threads {
        let (sh, m, hs, o) = (sh.clone(), m.clone(), hs.clone(), o.clone());
        th.push(
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || loop {
                    let job = {
                        let mut g = sh.q.lock().unwrap();
                        loop {
                            if let Some(j) = sh.pick(&mut g.0) {
                                g.1 += 1;
                                break Some(j);
                            }
                            if g.1 == 0 {
                                break None;
                            }
                            g = sh.cv.wait(g).unwrap();
                        }
                    };
                    let Some((hi, prefix)) = job else {
                        sh.cv.notify_all();
                        return;
                    };
                    let start = Instant::now();
                    let skip = sh.stop[hi].load(std::sync::atomic::Ordering::Relaxed);
                    let res = if skip {
                        None
                    } else {
                        let pf = prefix.clone();
                        let (m2, h2, o2) = (m.clone(), hs[hi].clone(), o.clone());
                        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || run_job(&m2, &h2, pf, deadline, &o2))) {
                            Ok(r) => Some(r),
                            Err(_) => Some((Totals::default(), vec![], Some(Verdict::Inconclusive("engine panic".into(), prefix.clone())))),
                        }
                    };
                    sh.spent[hi].fetch_add(start.elapsed().as_millis() as u64, std::sync::atomic::Ordering::Relaxed);
                    let mut newj = vec![];
                    if let Some((t, nj, v)) = res {
                        newj = nj;
                        let mut g = sh.out.lock().unwrap();
                        let x = &mut g.0[hi];
                        x.jobs += t.jobs;
                        x.cnf_vars += t.cnf_vars;
                        x.cnf_clauses += t.cnf_clauses;
                        x.final_s += t.final_s;
                        x.final_unsat += t.final_unsat;
                        x.final_unknown += t.final_unknown;
                        x.trivial += t.trivial;
                        x.nodes += t.nodes;
                        for (k, v) in t.reaches {
                            x.reaches.entry(k).or_insert(v);
                        }
                        x.witnesses.extend(t.witnesses);
                        for (k, v) in t.asserts {
                            *x.asserts.entry(k).or_insert(0) += v;
                        }
                        let s = &mut x.st;
                        s.insts += t.st.insts;
                        s.calls += t.st.calls;
                        s.branches += t.st.branches;
                        s.sym_branches += t.st.sym_branches;
                        s.merges += t.st.merges;
                        s.queries += t.st.queries;
                        s.queries_sat += t.st.queries_sat;
                        s.model_hits += t.st.model_hits;
                        s.solver_s += t.st.solver_s;
                        s.obligations += t.st.obligations;
                        s.asserts += t.st.asserts;
                        s.mem_checks += t.st.mem_checks;
                        s.fn_enc.extend(t.st.fn_enc);
                        if let Some(v) = v {
                            // one violation per harness is enough; a job without an
                            // answer does not keep the others from giving one
                            let n = g.1.iter().filter(|x| x.0 == hi).count();
                            if n >= 24 || matches!(v, Verdict::Violation(..)) {
                                sh.stop[hi].store(true, std::sync::atomic::Ordering::Relaxed);
                            }
                            if first_only && matches!(v, Verdict::Violation(..)) {
                                sh.stop.iter().for_each(|s| s.store(true, std::sync::atomic::Ordering::Relaxed));
                            }
                            g.1.push((hi, v));
                        }
                    }
                    let mut g = sh.q.lock().unwrap();
                    if !sh.stop[hi].load(std::sync::atomic::Ordering::Relaxed) {
                        for j in newj {
                            g.0.push((hi, j));
                        }
                    }
                    g.1 -= 1;
                    drop(g);
                    sh.cv.notify_all();
                })
                .unwrap(),
        );
    }
    for t in th {
        let _ = t.join();
    }
    let g = sh.out.lock().unwrap();
    let mut s = String::from("{\"harnesses\":[");
    let mut bad = 0;
    for i in 0..nh {
        let t = &g.0[i];
        if i > 0 {
            s.push(',');
        }
        let pm = |m: &Vec<(u32, u128)>| format!("{{{}}}", m.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
        s.push_str(&format!(
            "\n{{\"run\":{},\"jobs\":{},\"nodes\":{},\"insts\":{},\"calls\":{},\"branches\":{},\"sym_branches\":{},\"merges\":{},\"queries\":{},\"queries_sat\":{},\"model_hits\":{},\"obligations\":{},\"asserts\":{},\"mem_checks\":{},\"solver_s\":{:.3},\"final_s\":{:.3},\"final_unsat\":{},\"final_unknown\":{},\"trivial\":{},\"cnf_vars\":{},\"cnf_clauses\":{}",
            js(&format!("{}:{}", hs[i].func, hs[i].args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))),
            t.jobs, t.nodes, t.st.insts, t.st.calls, t.st.branches, t.st.sym_branches, t.st.merges, t.st.queries, t.st.queries_sat, t.st.model_hits, t.st.obligations, t.st.asserts, t.st.mem_checks, t.st.solver_s, t.final_s, t.final_unsat, t.final_unknown, t.trivial, t.cnf_vars, t.cnf_clauses
        ));
        s.push_str(&format!(",\"assert_ids\":[{}]", t.asserts.keys().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
        s.push_str(&format!(",\"reaches\":{{{}}}", t.reaches.iter().map(|(k, m)| format!("\"{}\":{}", k, pm(m))).collect::<Vec<_>>().join(",")));
        s.push_str(&format!(
            ",\"witnesses\":[{}]",
            t.witnesses.iter().map(|(m, ob)| format!("{{\"in\":{},\"out\":[{}]}}", pm(m), ob.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")
        ));
        s.push_str(",\"verdicts\":[");
        let mut first = true;
        for (hi, v) in g.1.iter() {
            if *hi != i {
                continue;
            }
            bad += 1;
            if !first {
                s.push(',');
            }
            first = false;
            match v {
                Verdict::Violation(w, st, m, p) => s.push_str(&format!(
                    "{{\"kind\":\"violation\",\"what\":{},\"stack\":[{}],\"model\":{},\"prefix\":{:?}}}",
                    js(w),
                    st.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                    pm(m),
                    p
                )),
                Verdict::Inconclusive(w, p) => s.push_str(&format!("{{\"kind\":\"inconclusive\",\"what\":{},\"prefix\":{:?}}}", js(w), p)),
            }
        }
        s.push_str("]}");
    }
    let mut fns: BTreeSet<String> = BTreeSet::new();
    for t in &g.0 {
        fns.extend(t.st.fn_enc.iter().cloned());
    }
    s.push_str(&format!("\n],\"functions\":[{}],\"wall_s\":{:.2}}}\n", fns.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), t0.elapsed().as_secs_f64()));
    match out {
        Some(f) => std::fs::write(f, s).unwrap(),
        None => print!("{}", s),
    }
    std::process::exit(if bad > 0 { 3 } else { 0 });
}
