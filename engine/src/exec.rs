//! Symbolic executor with state merging over parsed LLVM IR.
use crate::blast::*;
use crate::expr::*;
use crate::ir::*;
use crate::sat::Solver;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicU8, Ordering};
use std::sync::Arc;
use std::time::Instant;

pub const UNDEF: E = u32::MAX;

#[derive(Clone, Debug)]
pub enum Val {
    S(E),
    Agg(Rc<Vec<Val>>),
    U,
}

type Slot = (E, u8);

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<Slot>,
}

/// Iterations of one loop after which a call is taken not to terminate, and
/// undecided branches in one call.
const LOOP_LIMIT: u32 = 2_000_000;
const DECISION_LIMIT: u32 = 60_000;

pub struct PcNode {
    parent: Option<Pc>,
    cond: E,
    pub all: E,
    depth: u32,
}
pub type Pc = Rc<PcNode>;

#[derive(Clone)]
pub struct State {
    pub pc: Pc,
    mem: Rc<Vec<(u32, Rc<Obj>)>>,
}

#[derive(Clone)]
struct Frame {
    st: State,
    regs: Vec<Val>,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Violation { what: String, model: Vec<u128>, stack: Vec<String> },
    Inconclusive(String),
}
pub type R<T> = Result<T, Stop>;

struct Model {
    vals: Vec<u128>,
    memo: Vec<Option<u128>>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub insts: u64,
    pub calls: u64,
    pub branches: u64,
    pub sym_branches: u64,
    pub merges: u64,
    pub queries: u64,
    pub queries_sat: u64,
    pub model_hits: u64,
    pub solver_s: f64,
    pub obligations: u64,
    pub asserts: u64,
    pub mem_checks: u64,
    pub fn_enc: std::collections::BTreeSet<String>,
}

pub struct Engine {
    pub m: Arc<Module>,
    pub cx: Ctx,
    sat: Solver,
    bl: Blaster,
    models: Vec<Model>,
    pub obls: Vec<E>,
    oblset: FxMap<E, ()>,
    unsat: FxMap<E, bool>,
    pub prefix: Vec<u128>,
    pub split_pos: usize,
    pub new_jobs: Vec<Vec<u128>>,
    next_obj: u32,
    gcache: FxMap<u32, Rc<Obj>>,
    pub syms: Vec<(u32, u16, E)>,
    pub observes: Vec<(E, u64, E)>,
    pub reaches: BTreeMap<u64, Option<Vec<u128>>>,
    pub asserts_seen: BTreeMap<u64, u64>,
    pub st: Stats,
    pub stack: Vec<String>,
    pub deadline: Instant,
    fncache: FxMap<u32, ()>,
    fcache: std::collections::HashMap<String, Arc<Func>>,
    pub trace: u32,
    pub prof: std::collections::HashMap<String, (u64, f64)>,
    pub nvars_conc: u64,
    pub budget: u64,
    pub safety_only: bool,
    leafmemo: FxMap<E, u64>,
    visit: Vec<u32>,
    vstamp: u32,
}

fn u64v(v: u128) -> u64 {
    v as u64
}

/// 0: enough memory, 1: jobs that use much of it stop, 2: every job stops
static MEMORY: AtomicU8 = AtomicU8::new(0);
pub fn watch_memory() {
    std::thread::spawn(|| loop {
        let total = || -> Option<u64> {
            let s = std::fs::read_to_string("/proc/meminfo").ok()?;
            s.lines().find(|l| l.starts_with("MemTotal:"))?.split_whitespace().nth(1)?.parse().ok()
        };
        let rss = || -> Option<u64> {
            let s = std::fs::read_to_string("/proc/self/statm").ok()?;
            Some(s.split_whitespace().nth(1)?.parse::<u64>().ok()? * 4)
        };
        if let (Some(t), Some(r)) = (total(), rss()) {
            let level = if r > t / 100 * 80 { 2 } else if r > t / 100 * 60 { 1 } else { 0 };
            MEMORY.store(level, Ordering::Relaxed);
        }
        std::thread::sleep(std::time::Duration::from_millis(100));
    });
}

impl Engine {
    pub fn new(m: Arc<Module>, prefix: Vec<u128>, deadline: Instant) -> Self {
        let mut sat = Solver::new();
        let bl = Blaster::new(&mut sat);
        let n = m.globals.len() as u32 + 16;
        Engine {
            m,
            cx: Ctx::new(),
            sat,
            bl,
            safety_only: false,
            models: vec![],
            obls: vec![],
            oblset: Default::default(),
            unsat: Default::default(),
            prefix,
            split_pos: 0,
            new_jobs: vec![],
            next_obj: n,
            gcache: Default::default(),
            syms: vec![],
            observes: vec![],
            reaches: Default::default(),
            asserts_seen: Default::default(),
            st: Default::default(),
            stack: vec![],
            deadline,
            fncache: Default::default(),
            fcache: Default::default(),
            trace: std::env::var("LSX_TRACE").ok().and_then(|s| s.parse().ok()).unwrap_or(0),
            prof: Default::default(),
            nvars_conc: 0,
            budget: 200_000_000,
            leafmemo: Default::default(),
            visit: vec![],
            vstamp: 0,
        }
    }

    pub fn root(&mut self) -> State {
        let t = self.cx.t;
        State { pc: Rc::new(PcNode { parent: None, cond: t, all: t, depth: 0 }), mem: Rc::new(vec![]) }
    }

    fn inc<T>(&self, s: impl Into<String>) -> R<T> {
        let mut s = s.into();
        s.push_str(" in ");
        s.push_str(&self.stack.iter().rev().take(4).cloned().collect::<Vec<_>>().join(" < "));
        Err(Stop::Inconclusive(s))
    }

    // ---------- path conditions ----------
    fn pc_push(&mut self, pc: &Pc, c: E) -> Pc {
        if c == self.cx.t {
            return pc.clone();
        }
        let n = *self.cx.n(c);
        if n.op == Op::And {
            let p = self.pc_push(pc, n.a);
            return self.pc_push(&p, n.b);
        }
        let all = self.cx.and(pc.all, c);
        Rc::new(PcNode { parent: Some(pc.clone()), cond: c, all, depth: pc.depth + 1 })
    }
    /// Some(true) if c is a conjunct of the path condition, Some(false) if its negation is
    fn pc_knows(&mut self, pc: &Pc, c: E) -> Option<bool> {
        let nc = self.cx.not(c);
        let mut p = pc;
        let mut lim = 400;
        loop {
            if p.cond == c {
                return Some(true);
            }
            if p.cond == nc {
                return Some(false);
            }
            lim -= 1;
            match &p.parent {
                Some(q) if lim > 0 => p = q,
                _ => return None,
            }
        }
    }

    // ---------- solver ----------
    fn cone(&mut self, e: E) -> Vec<u32> {
        let mut out = vec![];
        if self.visit.len() < self.cx.nodes.len() {
            self.visit.resize(self.cx.nodes.len() + 1024, 0);
        }
        self.vstamp += 1;
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if self.visit[x as usize] == self.vstamp {
                continue;
            }
            self.visit[x as usize] = self.vstamp;
            if let Some(b) = self.bl.get(x) {
                for &l in b.iter() {
                    out.push(l >> 1);
                }
            }
            let n = self.cx.n(x);
            let (k, m) = kids(n);
            for &y in &k[..m] {
                st.push(y);
            }
        }
        out
    }

    /// Is `q` satisfiable? On success a model is remembered.
    fn sat_q(&mut self, q: E) -> R<bool> {
        if q == self.cx.f {
            return Ok(false);
        }
        if q == self.cx.t && !self.models.is_empty() {
            return Ok(true);
        }
        if let Some(&b) = self.unsat.get(&q) {
            if !b {
                return Ok(false);
            }
        }
        // cached models
        for i in (0..self.models.len()).rev() {
            let md = &mut self.models[i];
            if self.cx.eval(q, &md.vals, &mut md.memo) == 1 {
                self.st.model_hits += 1;
                if i + 1 != self.models.len() {
                    let x = self.models.remove(i);
                    self.models.push(x);
                }
                return Ok(true);
            }
        }
        let t0 = Instant::now();
        self.st.queries += 1;
        let l = self.bl.lit(&self.cx, &mut self.sat, q);
        let rel = self.cone(q);
        let r = self.sat.solve(&[l], &rel, self.budget);
        let r = match r {
            None => {
                self.st.solver_s += t0.elapsed().as_secs_f64();
                return self.inc("solver budget");
            }
            Some(true) => {
                let mut vals = vec![0u128; self.cx.nvars as usize];
                for (v, bits) in self.bl.var_bits.iter() {
                    let mut x = 0u128;
                    for (i, b) in bits.iter().enumerate() {
                        if self.sat.model(*b) {
                            x |= 1 << i;
                        }
                    }
                    vals[*v as usize] = x;
                }
                if self.models.len() >= 10 {
                    self.models.remove(0);
                }
                let mut md = Model { vals, memo: vec![] };
                let ok = self.cx.eval(q, &md.vals, &mut md.memo) == 1;
                if !ok {
                    // the model does not evaluate: internal inconsistency
                    return self.inc("internal: model does not satisfy query");
                }
                self.models.push(md);
                self.st.queries_sat += 1;
                true
            }
            Some(false) => {
                self.unsat.insert(q, false);
                false
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.st.solver_s += dt;
        if self.trace >= 1 && dt > 0.2 {
            eprintln!("slow query {:.2}s sat={} cone={} in {:?}", dt, r, rel.len(), self.stack.last());
        }
        if Instant::now() > self.deadline {
            return self.inc("time limit");
        }
        self.mem_ok()?;
        Ok(r)
    }
    pub fn last_model(&self) -> Vec<u128> {
        self.models.last().map(|m| m.vals.clone()).unwrap_or_default()
    }
    fn obl(&mut self, q: E) {
        if q != self.cx.f && self.oblset.insert(q, ()).is_none() {
            self.obls.push(q);
            self.st.obligations += 1;
        }
    }
    /// feasibility of pc ∧ c; an infeasible answer becomes an obligation
    fn feasible(&mut self, pc: &Pc, c: E) -> R<bool> {
        if c == self.cx.f {
            return Ok(false);
        }
        if c == self.cx.t {
            return Ok(true); // pc itself is maintained feasible
        }
        match self.pc_knows(pc, c) {
            Some(true) => return Ok(true),
            Some(false) => return Ok(false),
            None => {}
        }
        let q = self.cx.and(pc.all, c);
        let r = self.sat_q(q)?;
        if !r {
            self.obl(q);
        }
        Ok(r)
    }
    /// Does the path condition decide `c`? Used where a condition selects
    /// between values: a branch would ask the same.
    fn decide(&mut self, pc: &Pc, c: E) -> R<Option<bool>> {
        if c == self.cx.t || c == self.cx.f {
            return Ok(Some(c == self.cx.t));
        }
        if let Some(b) = self.pc_knows(pc, c) {
            return Ok(Some(b));
        }
        let nc = self.cx.not(c);
        let (qt, qf) = (self.cx.and(pc.all, c), self.cx.and(pc.all, nc));
        // an undecided answer costs at most one query: a model of the path
        // condition has shown one polarity already
        let mut seen = (false, false);
        for i in (0..self.models.len()).rev() {
            let md = &mut self.models[i];
            seen.0 |= self.cx.eval(qt, &md.vals, &mut md.memo) == 1;
            seen.1 |= self.cx.eval(qf, &md.vals, &mut md.memo) == 1;
            if seen == (true, true) {
                return Ok(None);
            }
        }
        if !seen.0 && !self.sat_q(qt)? {
            self.obl(qt);
            return Ok(Some(false));
        }
        if !seen.1 && !self.sat_q(qf)? {
            self.obl(qf);
            return Ok(Some(true));
        }
        Ok(None)
    }
    fn decided(&mut self, st: &State, c: E) -> R<E> {
        Ok(match self.decide(&st.pc, c)? {
            Some(true) => self.cx.t,
            Some(false) => self.cx.f,
            None => c,
        })
    }
    fn wide_scalar(&self, v: &Val) -> bool {
        matches!(v, Val::S(e) if self.cx.w(*e) == 64)
    }
    /// Give the job up when the process runs out of memory (see `watch_memory`).
    fn mem_ok(&self) -> R<()> {
        match MEMORY.load(Ordering::Relaxed) {
            0 => Ok(()),
            1 if self.cx.nodes.len() < 4_000_000 && self.sat.nvars() < 1_000_000 => Ok(()),
            _ => self.inc("memory limit"),
        }
    }
    fn violation<T>(&self, what: &str) -> R<T> {
        Err(Stop::Violation { what: what.to_string(), model: self.last_model(), stack: self.stack.clone() })
    }
    fn check_not(&mut self, st: &State, bad: E, what: &str) -> R<()> {
        if self.feasible(&st.pc, bad)? {
            let q = self.cx.and(st.pc.all, bad);
            self.sat_q(q)?; // make it the most recent model
            if bad == self.cx.t && !self.sat_q(st.pc.all)? {
                return self.inc("path condition unsatisfiable at violation");
            }
            return self.violation(what);
        }
        Ok(())
    }

    // ---------- merging ----------
    fn merge_e(&mut self, sel: E, a: E, b: E) -> E {
        if a == b {
            a
        } else {
            self.cx.ite(sel, a, b)
        }
    }
    fn merge_val(&mut self, sel: E, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::U, x) | (x, Val::U) => x.clone(),
            (Val::S(x), Val::S(y)) => Val::S(self.merge_e(sel, *x, *y)),
            (Val::Agg(x), Val::Agg(y)) => {
                if Rc::ptr_eq(x, y) {
                    return a.clone();
                }
                Val::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.merge_val(sel, p, q)).collect()))
            }
            _ => panic!("merge of scalar with aggregate"),
        }
    }
    fn byte(&mut self, s: Slot) -> E {
        self.cx.extract(s.0, s.1 as u16 * 8, 8)
    }
    fn full(&self, s: &[Slot], i: usize) -> usize {
        let (e, k) = s[i];
        if e == UNDEF || k != 0 {
            return 0;
        }
        let n = (self.cx.w(e) / 8) as usize;
        if i + n > s.len() {
            return 0;
        }
        for j in 0..n {
            if s[i + j] != (e, j as u8) {
                return 0;
            }
        }
        n
    }
    fn merge_slots(&mut self, sel: E, a: &[Slot], b: &[Slot]) -> Vec<Slot> {
        let mut o = Vec::with_capacity(a.len());
        let mut i = 0;
        while i < a.len() {
            if a[i] == b[i] || b[i].0 == UNDEF {
                o.push(a[i]);
                i += 1;
                continue;
            }
            if a[i].0 == UNDEF {
                o.push(b[i]);
                i += 1;
                continue;
            }
            let (na, nb) = (self.full(a, i), self.full(b, i));
            if na > 1 && na == nb {
                let e = self.cx.ite(sel, a[i].0, b[i].0);
                for j in 0..na {
                    o.push((e, j as u8));
                }
                i += na;
                continue;
            }
            if na > 1 || nb > 1 {
                // assemble the other side if it is fully defined
                let n = na.max(nb);
                if i + n <= a.len() && (i..i + n).all(|j| a[j].0 != UNDEF && b[j].0 != UNDEF) {
                    let x = self.assemble(&a[i..i + n]);
                    let y = self.assemble(&b[i..i + n]);
                    let e = self.cx.ite(sel, x, y);
                    for j in 0..n {
                        o.push((e, j as u8));
                    }
                    i += n;
                    continue;
                }
            }
            let x = self.byte(a[i]);
            let y = self.byte(b[i]);
            let e = self.cx.ite(sel, x, y);
            o.push((e, 0));
            i += 1;
        }
        o
    }
    fn assemble(&mut self, s: &[Slot]) -> E {
        let n = self.full(s, 0);
        if n == s.len() {
            return s[0].0;
        }
        // group consecutive bytes of one expression
        let mut parts: Vec<E> = vec![];
        let mut i = 0;
        while i < s.len() {
            let (e, k) = s[i];
            if e == UNDEF {
                let z = self.cx.k(0, 8);
                parts.push(z);
                i += 1;
                continue;
            }
            let mut j = 1;
            while i + j < s.len() && s[i + j].0 == e && s[i + j].1 == k + j as u8 {
                j += 1;
            }
            let x = self.cx.extract(e, k as u16 * 8, j as u16 * 8);
            parts.push(x);
            i += j;
        }
        let mut r = parts[0];
        for &p in &parts[1..] {
            r = self.cx.concat(p, r);
        }
        r
    }

    fn pc_merge(&mut self, a: &Pc, b: &Pc) -> (E, Pc) {
        let (mut x, mut y) = (a.clone(), b.clone());
        let (mut ra, mut rb) = (vec![], vec![]);
        while !Rc::ptr_eq(&x, &y) {
            if x.depth >= y.depth {
                ra.push(x.cond);
                let p = x.parent.clone().unwrap();
                x = p;
            } else {
                rb.push(y.cond);
                let p = y.parent.clone().unwrap();
                y = p;
            }
        }
        // same conjuncts pushed separately
        ra.reverse();
        rb.reverse();
        let common: Vec<E> = ra.iter().cloned().filter(|c| rb.contains(c)).collect();
        if !common.is_empty() {
            ra.retain(|c| !common.contains(c));
            rb.retain(|c| !common.contains(c));
        }
        let t = self.cx.t;
        let mut sel = None;
        'o: for &c in &ra {
            let n = self.cx.not(c);
            for &d in &rb {
                if d == n {
                    sel = Some(c);
                    break 'o;
                }
            }
        }
        let mut ea = t;
        for &c in &ra {
            ea = self.cx.and(ea, c);
        }
        let mut eb = t;
        for &c in &rb {
            eb = self.cx.and(eb, c);
        }
        let sel = match sel {
            Some(s) => s,
            None => {
                if ra.len() <= rb.len() {
                    ea
                } else {
                    self.cx.not(eb)
                }
            }
        };
        let o = self.cx.or(ea, eb);
        let mut p = x;
        for c in common {
            p = self.pc_push(&p, c);
        }
        let p = self.pc_push(&p, o);
        (sel, p)
    }
    fn common_depth(&self, a: &Pc, b: &Pc) -> u32 {
        let (mut x, mut y) = (a, b);
        while !Rc::ptr_eq(x, y) {
            if x.depth >= y.depth {
                x = x.parent.as_ref().unwrap();
            } else {
                y = y.parent.as_ref().unwrap();
            }
        }
        x.depth
    }
    fn merge_mem(&mut self, sel: E, a: &Rc<Vec<(u32, Rc<Obj>)>>, b: &Rc<Vec<(u32, Rc<Obj>)>>) -> Rc<Vec<(u32, Rc<Obj>)>> {
        if Rc::ptr_eq(a, b) {
            return a.clone();
        }
        let mut o = Vec::with_capacity(a.len().max(b.len()));
        let (mut i, mut j) = (0, 0);
        let ng = self.m.globals.len() as u32;
        while i < a.len() || j < b.len() {
            let ia = if i < a.len() { a[i].0 } else { u32::MAX };
            let ib = if j < b.len() { b[j].0 } else { u32::MAX };
            if ia == ib {
                if Rc::ptr_eq(&a[i].1, &b[j].1) {
                    o.push(a[i].clone());
                } else {
                    let d = self.merge_slots(sel, &a[i].1.data, &b[j].1.data);
                    o.push((ia, Rc::new(Obj { data: d })));
                }
                i += 1;
                j += 1;
            } else if ia < ib {
                if ia <= ng {
                    let g = self.gobj(ia).unwrap();
                    let d = self.merge_slots(sel, &a[i].1.data, &g.data);
                    o.push((ia, Rc::new(Obj { data: d })));
                } else {
                    o.push(a[i].clone());
                }
                i += 1;
            } else {
                if ib <= ng {
                    let g = self.gobj(ib).unwrap();
                    let d = self.merge_slots(sel, &g.data, &b[j].1.data);
                    o.push((ib, Rc::new(Obj { data: d })));
                } else {
                    o.push(b[j].clone());
                }
                j += 1;
            }
        }
        Rc::new(o)
    }
    fn merge_st(&mut self, a: &State, b: &State) -> (E, State) {
        self.st.merges += 1;
        let (sel, pc) = self.pc_merge(&a.pc, &b.pc);
        let mem = self.merge_mem(sel, &a.mem, &b.mem);
        (sel, State { pc, mem })
    }
    fn merge_frames(&mut self, mut v: Vec<Frame>, live: Option<&[u32]>) -> Frame {
        while v.len() > 1 {
            // choose the adjacent pair with the deepest common prefix
            let mut best = (0, 0);
            for i in 0..v.len() - 1 {
                let d = self.common_depth(&v[i].st.pc, &v[i + 1].st.pc);
                if i == 0 || d >= best.1 {
                    best = (i, d);
                }
            }
            let b = v.remove(best.0 + 1);
            let a = &v[best.0];
            let (sel, st) = self.merge_st(&a.st, &b.st);
            let mut regs = vec![Val::U; a.regs.len()];
            let a = v[best.0].clone();
            match live {
                Some(l) => {
                    for &r in l {
                        regs[r as usize] = self.merge_val(sel, &a.regs[r as usize], &b.regs[r as usize]);
                    }
                }
                None => {
                    for r in 0..regs.len() {
                        regs[r] = self.merge_val(sel, &a.regs[r], &b.regs[r]);
                    }
                }
            }
            v[best.0] = Frame { st, regs };
        }
        v.pop().unwrap()
    }

    // ---------- memory ----------
    fn gobj(&mut self, id: u32) -> Option<Rc<Obj>> {
        let i = id.wrapping_sub(1) as usize;
        if i >= self.m.globals.len() {
            return None;
        }
        if let Some(o) = self.gcache.get(&id) {
            return Some(o.clone());
        }
        let b = self.m.init_bytes(i);
        let data: Vec<Slot> = b.iter().map(|x| (self.cx.k(*x as u128, 8), 0)).collect();
        let o = Rc::new(Obj { data });
        self.gcache.insert(id, o.clone());
        Some(o)
    }
    fn obj(&mut self, st: &State, id: u32) -> Option<Rc<Obj>> {
        if let Ok(i) = st.mem.binary_search_by_key(&id, |x| x.0) {
            return Some(st.mem[i].1.clone());
        }
        self.gobj(id)
    }
    fn put(&mut self, st: &mut State, id: u32, o: Rc<Obj>) {
        let m = Rc::make_mut(&mut st.mem);
        match m.binary_search_by_key(&id, |x| x.0) {
            Ok(i) => m[i].1 = o,
            Err(i) => m.insert(i, (id, o)),
        }
    }
    fn remove(&mut self, st: &mut State, id: u32) -> bool {
        let m = Rc::make_mut(&mut st.mem);
        match m.binary_search_by_key(&id, |x| x.0) {
            Ok(i) => {
                m.remove(i);
                true
            }
            Err(_) => false,
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64, zero: bool) -> u64 {
        let id = self.next_obj;
        self.next_obj += 1;
        let s = if zero { (self.cx.k(0, 8), 0) } else { (UNDEF, 0) };
        self.put(st, id, Rc::new(Obj { data: vec![s; size as usize] }));
        (id as u64) << 32
    }

    /// Resolve an address to (condition, object, offset) candidates; out-of-bounds
    /// possibilities are checked to be infeasible.
    fn resolve(&mut self, st: &State, p: E, n: u64, what: &str) -> R<Vec<(E, u32, u64)>> {
        self.st.mem_checks += 1;
        let mut out = vec![];
        let t = self.cx.t;
        self.resolve_rec(st, p, n, t, what, &mut out, 0)?;
        if out.is_empty() {
            return self.inc("no address candidate");
        }
        Ok(out)
    }
    fn resolve_rec(&mut self, st: &State, p: E, n: u64, cond: E, what: &str, out: &mut Vec<(E, u32, u64)>, depth: u32) -> R<()> {
        if let Some(k) = self.cx.kv(p) {
            let k = u64v(k);
            let id = (k >> 32) as u32;
            let off = k & 0xffff_ffff;
            let ok = match self.obj(st, id) {
                Some(o) => off + n <= o.data.len() as u64,
                None => false,
            };
            if !ok {
                let w = format!("invalid memory access ({}) at {:#x} size {}", what, k, n);
                return self.check_not(st, cond, &w);
            }
            out.push((cond, id, off));
            return Ok(());
        }
        if let Some(vs) = self.cx.value_set(p, 64) {
            let mut bad = self.cx.f;
            let mut w = String::new();
            for &v in vs.iter() {
                let kv = self.cx.k(v, 64);
                let c = self.cx.eq(p, kv);
                let c = self.cx.and(cond, c);
                if c == self.cx.f || self.pc_knows(&st.pc, c) == Some(false) {
                    continue;
                }
                let v = u64v(v);
                let ok = match self.obj(st, (v >> 32) as u32) {
                    Some(o) => (v & 0xffff_ffff) + n <= o.data.len() as u64,
                    None => false,
                };
                if ok {
                    out.push((c, (v >> 32) as u32, v & 0xffff_ffff));
                } else {
                    bad = self.cx.or(bad, c);
                    w = format!("invalid memory access ({}) e.g. at {:#x} size {}", what, v, n);
                }
            }
            if bad != self.cx.f {
                self.check_not(st, bad, &w)?;
            }
            return Ok(());
        }
        // linear form: pointer base + index terms
        let (terms, k) = self.cx.linear(p);
        // Many terms that would each be split into cases (a loop that advances
        // a pointer by a condition): the solver finds the few sums there are.
        if depth == 0 && self.leaves(p) > 24 {
            if let Some(vs) = self.enum_vals(st, p, cond, 600)? {
                for v in vs {
                    let kv = self.cx.k(v, 64);
                    let c = self.cx.eq(p, kv);
                    let c = self.cx.and(cond, c);
                    self.resolve_rec(st, kv, n, c, what, out, depth + 1)?;
                }
                return Ok(());
            }
        }
        let mut base = u64v(k);
        // a term that carries (part of) the base: an ite over pointers
        for (i, (e, c)) in terms.iter().enumerate() {
            let inf = self.cx.info[*e as usize];
            if inf.umax - inf.umin < 1 << 31 || depth > 64 {
                if *c == 1 && inf.umin >> 32 != 0 && inf.umin >> 32 == inf.umax >> 32 {
                    // pointers into one object
                    base = base.wrapping_add(inf.umin);
                }
                continue;
            }
            let nd = *self.cx.n(*e);
            let vs = self.cx.value_set(*e, 64);
            if vs.is_none() && nd.op != Op::Ite {
                continue;
            }
            let mut rest = self.cx.k(k, 64);
            for (j, (e2, c2)) in terms.iter().enumerate() {
                if j != i {
                    let ck = self.cx.k(*c2, 64);
                    let m = self.cx.mul(*e2, ck);
                    rest = self.cx.add(rest, m);
                }
            }
            let ck = self.cx.k(*c, 64);
            let cases: Vec<(E, E)> = match vs {
                Some(vs) => vs
                    .iter()
                    .map(|v| {
                        let kv = self.cx.k(*v, 64);
                        (self.cx.eq(*e, kv), kv)
                    })
                    .collect(),
                None => {
                    let nc = self.cx.not(nd.a);
                    vec![(nd.a, nd.b), (nc, nd.c)]
                }
            };
            for (q, v) in cases {
                let c1 = self.cx.and(cond, q);
                if c1 == self.cx.f || self.pc_knows(&st.pc, q) == Some(false) {
                    continue;
                }
                let m1 = self.cx.mul(v, ck);
                let p1 = self.cx.add(m1, rest);
                self.resolve_rec(st, p1, n, c1, what, out, depth + 1)?;
            }
            return Ok(());
        }
        // The constant part is a base plus a (possibly negative) displacement.
        let id = (base.wrapping_add(1 << 31) >> 32) as u32;
        if let Some(o) = self.obj(st, id) {
            let size = o.data.len() as u64;
            let base = self.cx.k((id as u128) << 32, 64);
            let off = self.cx.sub(p, base);
            // bounds
            if n > size {
                return self.check_not(st, cond, "out-of-bounds access");
            }
            let lim = self.cx.k64(size - n + 1);
            let inb = self.cx.ult(off, lim);
            let oob = self.cx.not(inb);
            let bad = self.cx.and(cond, oob);
            if bad != self.cx.f {
                if self.trace >= 1 && self.feasible(&st.pc, bad)? {
                    eprintln!("OOB: p = {}", self.show(p, 9));
                }
                self.check_not(st, bad, &format!("out-of-bounds access ({}) object size {}", what, size))?;
            }
            // candidate offsets
            let mut cands: Vec<u64> = vec![];
            let lim = 2048;
            if let Some(vs) = self.cx.value_set(off, 64) {
                cands = vs.iter().map(|x| u64v(*x)).filter(|x| *x <= size - n).collect();
            } else {
                let mut g = 0u64;
                for (_, c) in &terms {
                    let c = u64v(*c);
                    let c = if (c as i64) < 0 { (c as i64).unsigned_abs() } else { c };
                    g = gcd(g, c);
                }
                let i = self.cx.info[off as usize];
                let start = k as u64 & 0xffff_ffff;
                let lo = i.umin;
                let hi = i.umax.min(size - n);
                let g = g.max(1);
                let r = start % g;
                let mut x = lo + (r + g - lo % g) % g;
                while x <= hi && cands.len() <= lim {
                    cands.push(x);
                    x += g;
                }
            }
            if cands.len() > lim {
                return self.inc("too many address candidates");
            }
            if cands.len() > 24 {
                // prune with the solver
                let mut keep = vec![];
                let vals = self.enum_vals(st, off, cond, 600)?;
                match vals {
                    Some(v) => keep.extend(v.into_iter().map(u64v).filter(|x| *x <= size - n)),
                    None => keep = cands,
                }
                cands = keep;
            }
            for x in cands {
                let kx = self.cx.k64(x);
                let c = self.cx.eq(off, kx);
                let c = self.cx.and(cond, c);
                if c != self.cx.f {
                    out.push((c, id, x));
                }
            }
            return Ok(());
        }
        // generic: enumerate with the solver
        let vals = match self.enum_vals(st, p, cond, 64)? {
            Some(v) => v,
            None => return self.inc(format!("cannot resolve address: {}", self.show(p, 6))),
        };
        for v in vals {
            let kv = self.cx.k(v, 64);
            let c = self.cx.eq(p, kv);
            let c = self.cx.and(cond, c);
            self.resolve_rec(st, kv, n, c, what, out, depth + 1)?;
        }
        Ok(())
    }

    /// Number of cases a split over the ites of `e` would make (saturating).
    fn leaves(&mut self, e: E) -> u64 {
        if let Some(&n) = self.leafmemo.get(&e) {
            return n;
        }
        let n = *self.cx.n(e);
        let r = match n.op {
            Op::Ite => self.leaves(n.b).saturating_add(self.leaves(n.c)),
            Op::Add | Op::Mul => self.leaves(n.a).saturating_mul(self.leaves(n.b)),
            _ => 1,
        }
        .min(1 << 20);
        self.leafmemo.insert(e, r);
        r
    }

    /// All feasible values of e under pc ∧ cond (None if more than lim).
    fn enum_vals(&mut self, st: &State, e: E, cond: E, lim: usize) -> R<Option<Vec<u128>>> {
        if let Some(k) = self.cx.kv(e) {
            return Ok(Some(vec![k]));
        }
        let mut vals: Vec<u128> = vec![];
        let mut q = self.cx.and(st.pc.all, cond);
        let w = self.cx.w(e);
        loop {
            if !self.sat_q(q)? {
                self.obl(q);
                break;
            }
            // the most recent model satisfies q
            let md = self.models.last_mut().unwrap();
            let v = self.cx.eval(e, &md.vals, &mut md.memo);
            vals.push(v);
            if vals.len() > lim {
                return Ok(None);
            }
            let k = self.cx.k(v, w);
            let eq = self.cx.eq(e, k);
            let ne = self.cx.not(eq);
            q = self.cx.and(q, ne);
        }
        vals.sort();
        self.nvars_conc += 1;
        Ok(Some(vals))
    }

    fn read(&mut self, st: &State, c: &[(E, u32, u64)], n: u64) -> Vec<Slot> {
        let mut r: Option<Vec<Slot>> = None;
        for (cond, id, off) in c.iter().rev() {
            let o = self.obj(st, *id).unwrap();
            let s = &o.data[*off as usize..(*off + n) as usize];
            r = Some(match r {
                None => s.to_vec(),
                Some(prev) => self.merge_slots(*cond, s, &prev),
            });
        }
        r.unwrap()
    }
    fn write(&mut self, st: &mut State, c: &[(E, u32, u64)], d: &[Slot]) -> R<()> {
        for (cond, id, off) in c {
            if self.m.globals.get(id.wrapping_sub(1) as usize).map(|g| g.constant).unwrap_or(false) {
                self.check_not(st, *cond, "write to constant")?;
                continue;
            }
            let mut o = self.obj(st, *id).unwrap();
            self.remove(st, *id);
            let ob = Rc::make_mut(&mut o);
            let rg = *off as usize..*off as usize + d.len();
            if c.len() == 1 {
                ob.data[rg].copy_from_slice(d);
            } else {
                let old = ob.data[rg.clone()].to_vec();
                // an undefined old value must not be replaced unconditionally by reads
                let m = self.merge_slots(*cond, d, &old);
                ob.data[rg].copy_from_slice(&m);
            }
            self.put(st, *id, o);
        }
        Ok(())
    }
    fn load_ty(&mut self, slots: &[Slot], ty: &Ty) -> Val {
        match ty {
            Ty::Int(_) | Ty::Ptr => {
                let w = if let Ty::Int(w) = ty { *w } else { 64 };
                let nb = ((w + 7) / 8) as usize;
                if slots[..nb].iter().all(|s| s.0 == UNDEF) {
                    return Val::U;
                }
                let e = self.assemble(&slots[..nb]);
                Val::S(self.cx.trunc(e, w))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, t) = ty.field_off(i as u64);
                    v.push(self.load_ty(&slots[o as usize..], &t));
                }
                Val::Agg(Rc::new(v))
            }
            Ty::Array(n, t) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(&slots[(i * t.size()) as usize..], t));
                }
                Val::Agg(Rc::new(v))
            }
            Ty::Vector(n, t) => {
                let tb = t.bits();
                if tb % 8 == 0 {
                    let mut v = vec![];
                    for i in 0..*n {
                        v.push(self.load_ty(&slots[(i * tb / 8) as usize..], t));
                    }
                    Val::Agg(Rc::new(v))
                } else {
                    let nb = ((n * tb + 7) / 8) as usize;
                    let e = self.assemble(&slots[..nb]);
                    let mut v = vec![];
                    for i in 0..*n {
                        v.push(Val::S(self.cx.extract(e, (i * tb) as u16, tb as u16)));
                    }
                    Val::Agg(Rc::new(v))
                }
            }
            _ => Val::U,
        }
    }
    fn store_ty(&mut self, v: &Val, ty: &Ty, out: &mut [Slot]) {
        match ty {
            Ty::Int(_) | Ty::Ptr => {
                let w = if let Ty::Int(w) = ty { *w } else { 64 };
                let nb = ((w + 7) / 8) as usize;
                match v {
                    Val::S(e) => {
                        let e = if w % 8 != 0 { self.cx.zext(*e, nb as u16 * 8) } else { *e };
                        if let Some(k) = self.cx.kv(e) {
                            let _ = k;
                        }
                        for i in 0..nb {
                            out[i] = (e, i as u8);
                        }
                    }
                    _ => {
                        for s in out[..nb].iter_mut() {
                            *s = (UNDEF, 0);
                        }
                    }
                }
            }
            Ty::Struct(f, _) => {
                for i in 0..f.len() {
                    let (o, t) = ty.field_off(i as u64);
                    let x = match v {
                        Val::Agg(a) => a[i].clone(),
                        _ => Val::U,
                    };
                    self.store_ty(&x, &t, &mut out[o as usize..]);
                }
            }
            Ty::Array(n, t) => {
                for i in 0..*n as usize {
                    let x = match v {
                        Val::Agg(a) => a[i].clone(),
                        _ => Val::U,
                    };
                    self.store_ty(&x, t, &mut out[i * t.size() as usize..]);
                }
            }
            Ty::Vector(n, t) => {
                let tb = t.bits();
                if tb % 8 == 0 {
                    for i in 0..*n as usize {
                        let x = match v {
                            Val::Agg(a) => a[i].clone(),
                            _ => Val::U,
                        };
                        self.store_ty(&x, t, &mut out[i * (tb / 8) as usize..]);
                    }
                } else {
                    let e = self.vec_bits(v, *n, tb);
                    let nb = ((n * tb + 7) / 8) as usize;
                    let e = self.cx.zext(e, nb as u16 * 8);
                    for i in 0..nb {
                        out[i] = (e, i as u8);
                    }
                }
            }
            _ => {}
        }
    }
    fn vec_bits(&mut self, v: &Val, n: u64, tb: u64) -> E {
        let mut r: Option<E> = None;
        for i in 0..n as usize {
            let x = match v {
                Val::Agg(a) => self.sc(&a[i].clone(), tb as u16),
                _ => self.cx.k(0, tb as u16),
            };
            r = Some(match r {
                None => x,
                Some(p) => self.cx.concat(x, p),
            });
        }
        r.unwrap()
    }

    // ---------- operands ----------
    fn ev(&mut self, fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::Reg(r) => fr.regs[*r as usize].clone(),
            Opd::Int(k, w) => Val::S(self.cx.k(*k, *w)),
            Opd::Undef(_) => Val::U,
            Opd::Agg(v) => Val::Agg(Rc::new(v.iter().map(|x| self.ev(fr, x)).collect())),
        }
    }
    fn sc(&mut self, v: &Val, w: u16) -> E {
        match v {
            Val::S(e) => *e,
            Val::U => self.cx.k(0, w),
            Val::Agg(_) => panic!("scalar expected in {:?}", self.stack.last()),
        }
    }
    fn evs(&mut self, fr: &Frame, o: &Opd, w: u16) -> E {
        let v = self.ev(fr, o);
        let e = self.sc(&v, w);
        debug_assert_eq!(self.cx.w(e), w);
        e
    }

    fn tyw(t: &Ty) -> u16 {
        match t {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        }
    }

    fn bin(&mut self, st: &State, op: &str, a: E, b: E) -> R<E> {
        Ok(match op {
            "add" => self.cx.add(a, b),
            "sub" => self.cx.sub(a, b),
            "mul" => self.cx.mul(a, b),
            "and" => self.cx.and(a, b),
            "or" => self.cx.or(a, b),
            "xor" => self.cx.xor(a, b),
            "shl" => self.cx.shl(a, b),
            "lshr" => self.cx.lshr(a, b),
            "ashr" => self.cx.ashr(a, b),
            "udiv" | "urem" | "sdiv" | "srem" => {
                let w = self.cx.w(b);
                let z = self.cx.k(0, w);
                let bad = self.cx.eq(b, z);
                self.check_not(st, bad, "division by zero")?;
                let o = match op {
                    "udiv" => Op::UDiv,
                    "urem" => Op::URem,
                    "sdiv" => Op::SDiv,
                    _ => Op::SRem,
                };
                self.cx.divlike(o, a, b)
            }
            _ => return self.inc(format!("binop {}", op)),
        })
    }
    fn icmp(&mut self, pred: &str, a: E, b: E) -> E {
        match pred {
            "eq" => self.cx.eq(a, b),
            "ne" => {
                let x = self.cx.eq(a, b);
                self.cx.not(x)
            }
            "ult" => self.cx.ult(a, b),
            "ule" => self.cx.ule(a, b),
            "ugt" => self.cx.ult(b, a),
            "uge" => self.cx.ule(b, a),
            "slt" => self.cx.slt(a, b),
            "sle" => self.cx.sle(a, b),
            "sgt" => self.cx.slt(b, a),
            "sge" => self.cx.sle(b, a),
            _ => panic!("icmp {}", pred),
        }
    }

    fn lanes(v: &Val, n: u64) -> Vec<Val> {
        match v {
            Val::Agg(a) => a.to_vec(),
            _ => vec![Val::U; n as usize],
        }
    }

    fn cast(&mut self, kind: &str, a: E, tw: u16) -> E {
        let w = self.cx.w(a);
        match kind {
            "trunc" => self.cx.trunc(a, tw),
            "zext" => self.cx.zext(a, tw),
            "sext" => self.cx.sext(a, tw),
            _ => {
                if w < tw {
                    self.cx.zext(a, tw)
                } else {
                    self.cx.trunc(a, tw)
                }
            }
        }
    }

    /// Fork over the concrete values of `e`, run `f` for each and merge.
    fn over<F>(&mut self, fr: Frame, e: E, lim: usize, what: &str, f: &mut F) -> R<Option<Frame>>
    where
        F: FnMut(&mut Engine, Frame, u128) -> R<Option<Frame>>,
    {
        if let Some(k) = self.cx.kv(e) {
            return f(self, fr, k);
        }
        let t = self.cx.t;
        let vals = match self.enum_vals(&fr.st, e, t, lim)? {
            Some(v) => v,
            None => return self.inc(format!("too many values for {}", what)),
        };
        let w = self.cx.w(e);
        let mut outs = vec![];
        for v in vals {
            let k = self.cx.k(v, w);
            let c = self.cx.eq(e, k);
            let mut f2 = fr.clone();
            f2.st.pc = self.pc_push(&fr.st.pc, c);
            if let Some(x) = f(self, f2, v)? {
                outs.push(x);
            }
        }
        if outs.is_empty() {
            return Ok(None);
        }
        Ok(Some(self.merge_frames(outs, None)))
    }

    fn copy(&mut self, fr: Frame, dst: E, src: E, len: E) -> R<Option<Frame>> {
        self.over(fr, len, 80, "memcpy length", &mut |me, mut fr, n| {
            let n = u64v(n);
            if n == 0 {
                return Ok(Some(fr));
            }
            let s = me.resolve(&fr.st, src, n, "memcpy source")?;
            let d = me.resolve(&fr.st, dst, n, "memcpy destination")?;
            let sl = me.read(&fr.st, &s, n);
            me.write(&mut fr.st, &d, &sl)?;
            Ok(Some(fr))
        })
    }

    fn inst(&mut self, mut fr: Frame, i: &Inst, locals: &mut Vec<u32>) -> R<Option<Frame>> {
        self.st.insts += 1;
        if self.st.insts & 0xfff == 0 {
            self.mem_ok()?;
        }
        match i {
            Inst::Bin { dst, op, ty, a, b } => {
                let (x, y) = (self.ev(&fr, a), self.ev(&fr, b));
                let r = if let Ty::Vector(n, t) = ty {
                    let (xs, ys) = (Self::lanes(&x, *n), Self::lanes(&y, *n));
                    let w = Self::tyw(t);
                    let mut v = vec![];
                    for (p, q) in xs.iter().zip(ys.iter()) {
                        let (p, q) = (self.sc(p, w), self.sc(q, w));
                        v.push(Val::S(self.bin(&fr.st, op, p, q)?));
                    }
                    Val::Agg(Rc::new(v))
                } else {
                    let w = Self::tyw(ty);
                    let (p, q) = (self.sc(&x, w), self.sc(&y, w));
                    Val::S(self.bin(&fr.st, op, p, q)?)
                };
                fr.regs[*dst as usize] = r;
            }
            Inst::ICmp { dst, pred, ty, a, b } => {
                let (x, y) = (self.ev(&fr, a), self.ev(&fr, b));
                let r = if let Ty::Vector(n, t) = ty {
                    let (xs, ys) = (Self::lanes(&x, *n), Self::lanes(&y, *n));
                    let w = Self::tyw(t);
                    let mut v = vec![];
                    for (p, q) in xs.iter().zip(ys.iter()) {
                        let (p, q) = (self.sc(p, w), self.sc(q, w));
                        v.push(Val::S(self.icmp(pred, p, q)));
                    }
                    Val::Agg(Rc::new(v))
                } else {
                    let w = Self::tyw(ty);
                    let (p, q) = (self.sc(&x, w), self.sc(&y, w));
                    Val::S(self.icmp(pred, p, q))
                };
                fr.regs[*dst as usize] = r;
            }
            Inst::Select { dst, c, a, b } => {
                let c = self.ev(&fr, c);
                let (x, y) = (self.ev(&fr, a), self.ev(&fr, b));
                let r = match c {
                    Val::Agg(cs) => {
                        let n = cs.len() as u64;
                        let (xs, ys) = (Self::lanes(&x, n), Self::lanes(&y, n));
                        let mut v = vec![];
                        for i in 0..cs.len() {
                            let ce = self.sc(&cs[i], 1);
                            v.push(self.sel_val(&fr.st, ce, &xs[i], &ys[i]));
                        }
                        Val::Agg(Rc::new(v))
                    }
                    c => {
                        let mut ce = self.sc(&c, 1);
                        if self.wide_scalar(&x) && self.wide_scalar(&y) {
                            ce = self.decided(&fr.st, ce)?;
                        }
                        self.sel_val(&fr.st, ce, &x, &y)
                    }
                };
                fr.regs[*dst as usize] = r;
            }
            Inst::Cast { dst, kind, from, a, to } => {
                let x = self.ev(&fr, a);
                let r = match (from, to) {
                    (Ty::Vector(n, f), Ty::Vector(m, t)) if n == m && *kind != "bitcast" => {
                        let w = Self::tyw(f);
                        let mut v = vec![];
                        for l in Self::lanes(&x, *n) {
                            let e = self.sc(&l, w);
                            v.push(Val::S(self.cast(kind, e, Self::tyw(t))));
                        }
                        Val::Agg(Rc::new(v))
                    }
                    (Ty::Vector(n, f), t) => {
                        let e = self.vec_bits(&x, *n, f.bits());
                        self.from_bits(e, t)
                    }
                    (f, Ty::Vector(..)) => {
                        let e = self.sc(&x, Self::tyw(f));
                        self.from_bits(e, to)
                    }
                    (f, t) => match x {
                        Val::U => Val::U,
                        x => {
                            let mut e = self.sc(&x, Self::tyw(f));
                            if Self::tyw(f) == 1 && Self::tyw(t) == 64 {
                                e = self.decided(&fr.st, e)?;
                            }
                            Val::S(self.cast(kind, e, Self::tyw(t)))
                        }
                    },
                };
                fr.regs[*dst as usize] = r;
            }
            Inst::Gep { dst, base, off, terms } => {
                let mut e = self.evs(&fr, base, 64);
                let k = self.cx.k64(*off as u64);
                e = self.cx.add(e, k);
                for (t, o, sc) in terms {
                    let x = self.evs(&fr, o, Self::tyw(t));
                    let x = self.cx.sext(x, 64);
                    let k = self.cx.k64(*sc as u64);
                    let m = self.cx.mul(x, k);
                    e = self.cx.add(e, m);
                }
                fr.regs[*dst as usize] = Val::S(e);
            }
            Inst::Load { dst, ty, p } => {
                let n = ty.ssize();
                if n == 0 {
                    fr.regs[*dst as usize] = Val::U;
                    return Ok(Some(fr));
                }
                let p = self.evs(&fr, p, 64);
                let c = self.resolve(&fr.st, p, n, "load")?;
                let s = self.read(&fr.st, &c, n);
                fr.regs[*dst as usize] = self.load_ty(&s, ty);
            }
            Inst::Store { ty, v, p } => {
                let n = ty.ssize();
                if n == 0 {
                    return Ok(Some(fr));
                }
                let p = self.evs(&fr, p, 64);
                let v = self.ev(&fr, v);
                let c = self.resolve(&fr.st, p, n, "store")?;
                let mut s = vec![(UNDEF, 0u8); n as usize];
                self.store_ty(&v, ty, &mut s);
                self.write(&mut fr.st, &c, &s)?;
            }
            Inst::Alloca { dst, size, n } => {
                let mut sz = *size;
                if let Some((t, o)) = n {
                    let e = self.evs(&fr, o, Self::tyw(t));
                    match self.cx.kv(e) {
                        Some(k) => sz *= k as u64,
                        None => return self.inc("dynamic alloca"),
                    }
                }
                let a = self.alloc(&mut fr.st, sz, false);
                locals.push((a >> 32) as u32);
                fr.regs[*dst as usize] = Val::S(self.cx.k64(a));
            }
            Inst::Call(c) => return self.call(fr, c),
            Inst::ExtractValue { dst, a, path } => {
                let mut v = self.ev(&fr, a);
                for &p in path {
                    v = match v {
                        Val::Agg(x) => x[p as usize].clone(),
                        _ => Val::U,
                    };
                }
                fr.regs[*dst as usize] = v;
            }
            Inst::InsertValue { dst, ty, a, v, path } => {
                let x = self.ev(&fr, a);
                let y = self.ev(&fr, v);
                fr.regs[*dst as usize] = Self::insert(&x, ty, &y, path);
            }
            Inst::Freeze { dst, a } => {
                let v = self.ev(&fr, a);
                fr.regs[*dst as usize] = v;
            }
            Inst::ExtractElem { dst, a, i } => {
                let v = self.ev(&fr, a);
                let i = self.ev(&fr, i);
                let i = self.sc(&i, 64);
                let k = match self.cx.kv(i) {
                    Some(k) => k as usize,
                    None => return self.inc("symbolic vector index"),
                };
                fr.regs[*dst as usize] = match v {
                    Val::Agg(a) => a[k].clone(),
                    _ => Val::U,
                };
            }
            Inst::InsertElem { dst, ty, a, v, i } => {
                let x = self.ev(&fr, a);
                let y = self.ev(&fr, v);
                let i = self.ev(&fr, i);
                let i = self.sc(&i, 64);
                let k = match self.cx.kv(i) {
                    Some(k) => k as usize,
                    None => return self.inc("symbolic vector index"),
                };
                let n = if let Ty::Vector(n, _) = ty { *n } else { 0 };
                let mut l = Self::lanes(&x, n);
                l[k] = y;
                fr.regs[*dst as usize] = Val::Agg(Rc::new(l));
            }
            Inst::Shuffle { dst, ty, a, b, mask } => {
                let n = if let Ty::Vector(n, _) = ty { *n } else { 0 };
                let mut l = {
                    let x = self.ev(&fr, a);
                    Self::lanes(&x, n)
                };
                let y = self.ev(&fr, b);
                l.extend(Self::lanes(&y, n));
                let r = mask.iter().map(|m| m.map(|k| l[k as usize].clone()).unwrap_or(Val::U)).collect();
                fr.regs[*dst as usize] = Val::Agg(Rc::new(r));
            }
            Inst::Nop => {}
            Inst::CmpXchg { dst, ty, p, cmp, new } => {
                let w = Self::tyw(ty);
                let p = self.evs(&fr, p, 64);
                let cmp = self.evs(&fr, cmp, w);
                let new = self.evs(&fr, new, w);
                let c = self.resolve(&fr.st, p, ty.size(), "cmpxchg")?;
                let s = self.read(&fr.st, &c, ty.size());
                let old = self.load_ty(&s, ty);
                let old = self.sc(&old, w);
                let eq = self.cx.eq(old, cmp);
                let nv = self.cx.ite(eq, new, old);
                let mut s = vec![(UNDEF, 0u8); ty.size() as usize];
                self.store_ty(&Val::S(nv), ty, &mut s);
                self.write(&mut fr.st, &c, &s)?;
                fr.regs[*dst as usize] = Val::Agg(Rc::new(vec![Val::S(old), Val::S(eq)]));
            }
            Inst::AtomicRmw { dst, op, ty, p, v } => {
                let w = Self::tyw(ty);
                let p = self.evs(&fr, p, 64);
                let v = self.evs(&fr, v, w);
                let c = self.resolve(&fr.st, p, ty.size(), "atomicrmw")?;
                let s = self.read(&fr.st, &c, ty.size());
                let old = self.load_ty(&s, ty);
                let old = self.sc(&old, w);
                let nv = match op.as_str() {
                    "xchg" => v,
                    o @ ("add" | "sub" | "and" | "or" | "xor") => self.bin(&fr.st, o, old, v)?,
                    _ => return self.inc(format!("atomicrmw {}", op)),
                };
                let mut s = vec![(UNDEF, 0u8); ty.size() as usize];
                self.store_ty(&Val::S(nv), ty, &mut s);
                self.write(&mut fr.st, &c, &s)?;
                fr.regs[*dst as usize] = Val::S(old);
            }
            Inst::Unsupported(s) => return self.inc(format!("unsupported instruction {}", s)),
        }
        Ok(Some(fr))
    }
    fn sel_val(&mut self, st: &State, c: E, x: &Val, y: &Val) -> Val {
        if c == self.cx.t {
            return x.clone();
        }
        if c == self.cx.f {
            return y.clone();
        }
        match self.pc_knows(&st.pc, c) {
            Some(true) => x.clone(),
            Some(false) => y.clone(),
            None => self.merge_val(c, x, y),
        }
    }
    fn from_bits(&mut self, e: E, t: &Ty) -> Val {
        match t {
            Ty::Vector(n, l) => {
                let b = l.bits();
                Val::Agg(Rc::new((0..*n).map(|i| Val::S(self.cx.extract(e, (i * b) as u16, b as u16))).collect()))
            }
            _ => Val::S(e),
        }
    }
    fn insert(x: &Val, ty: &Ty, y: &Val, path: &[u64]) -> Val {
        if path.is_empty() {
            return y.clone();
        }
        let n = match ty {
            Ty::Struct(f, _) => f.len() as u64,
            Ty::Array(n, _) => *n,
            _ => panic!("insertvalue"),
        };
        let mut l = Self::lanes(x, n);
        let (_, ft) = ty.field_off(path[0]);
        l[path[0] as usize] = Self::insert(&l[path[0] as usize].clone(), &ft, y, &path[1..]);
        Val::Agg(Rc::new(l))
    }

    // ---------- calls ----------
    fn call(&mut self, fr: Frame, c: &CallI) -> R<Option<Frame>> {
        match &c.callee {
            Callee::Named(n) => {
                let n = n.clone();
                self.call_named(fr, c, &n)
            }
            Callee::Indirect(o) => {
                let e = self.evs(&fr, o, 64);
                self.over(fr, e, 16, "function pointer", &mut |me, fr, v| {
                    let name = match me.m.addrf.get(&u64v(v)) {
                        Some(n) => n.clone(),
                        None => return me.inc("call through a bad function pointer"),
                    };
                    me.call_named(fr, c, &name)
                })
            }
            Callee::Asm => Ok(Some(fr)),
        }
    }

    fn ret(&self, fr: &mut Frame, c: &CallI, v: Val) {
        if let Some(d) = c.dst {
            fr.regs[d as usize] = v;
        }
    }

    fn call_named(&mut self, mut fr: Frame, c: &CallI, name: &str) -> R<Option<Frame>> {
        if name.starts_with("llvm.") {
            return self.intrinsic(fr, c, name);
        }
        let args: Vec<Val> = c.args.iter().map(|(_, o)| self.ev(&fr, o)).collect();
        if name.starts_with("sym_") {
            return self.sym(fr, c, name, &args);
        }
        // allocator
        let a64 = |me: &mut Engine, i: usize| me.sc(&args[i], 64);
        if let Some(k) = alloc_kind(name) {
            match k {
                "alloc" | "alloc_zeroed" | "malloc" => {
                    let sz = a64(self, 0);
                    let zero = k == "alloc_zeroed";
                    return self.over(fr, sz, 24, "allocation size", &mut |me, mut fr, v| {
                        if v > 1 << 24 {
                            return me.inc("huge allocation");
                        }
                        let a = me.alloc(&mut fr.st, u64v(v), zero);
                        let e = me.cx.k64(a);
                        me.ret(&mut fr, c, Val::S(e));
                        Ok(Some(fr))
                    });
                }
                "calloc" => {
                    let (a, b) = (a64(self, 0), a64(self, 1));
                    let sz = self.cx.mul(a, b);
                    return self.over(fr, sz, 24, "allocation size", &mut |me, mut fr, v| {
                        let a = me.alloc(&mut fr.st, u64v(v), true);
                        let e = me.cx.k64(a);
                        me.ret(&mut fr, c, Val::S(e));
                        Ok(Some(fr))
                    });
                }
                "posix_memalign" => {
                    let (pp, sz) = (a64(self, 0), a64(self, 2));
                    return self.over(fr, sz, 24, "allocation size", &mut |me, mut fr, v| {
                        let a = me.alloc(&mut fr.st, u64v(v), false);
                        let e = me.cx.k64(a);
                        let cd = me.resolve(&fr.st, pp, 8, "posix_memalign")?;
                        let mut s = vec![(UNDEF, 0u8); 8];
                        me.store_ty(&Val::S(e), &Ty::Ptr, &mut s);
                        me.write(&mut fr.st, &cd, &s)?;
                        let z = me.cx.k(0, 32);
                        me.ret(&mut fr, c, Val::S(z));
                        Ok(Some(fr))
                    });
                }
                "dealloc" | "free" => {
                    let p = a64(self, 0);
                    return self.over(fr, p, 24, "freed pointer", &mut |me, mut fr, v| {
                        if v != 0 {
                            if v & 0xffff_ffff != 0 || !me.remove(&mut fr.st, (v >> 32) as u32) {
                                let t = me.cx.t;
                                me.check_not(&fr.st, t, "invalid free")?;
                            }
                        }
                        Ok(Some(fr))
                    });
                }
                "realloc" | "crealloc" => {
                    let p = a64(self, 0);
                    let sz = a64(self, if k == "realloc" { 3 } else { 1 });
                    return self.over(fr, p, 24, "realloc pointer", &mut |me, fr, pv| {
                        me.over(fr, sz, 24, "allocation size", &mut |me, mut fr, v| {
                            let id = (pv >> 32) as u32;
                            let o = match me.obj(&fr.st, id) {
                                Some(o) if pv & 0xffff_ffff == 0 => o,
                                _ => {
                                    let t = me.cx.t;
                                    me.check_not(&fr.st, t, "invalid realloc")?;
                                    return Ok(None);
                                }
                            };
                            let a = me.alloc(&mut fr.st, u64v(v), false);
                            let mut d = vec![(UNDEF, 0u8); v as usize];
                            let n = d.len().min(o.data.len());
                            d[..n].copy_from_slice(&o.data[..n]);
                            me.put(&mut fr.st, (a >> 32) as u32, Rc::new(Obj { data: d }));
                            me.remove(&mut fr.st, id);
                            let e = me.cx.k64(a);
                            me.ret(&mut fr, c, Val::S(e));
                            Ok(Some(fr))
                        })
                    });
                }
                _ => return Ok(Some(fr)),
            }
        }
        match name {
            "memcpy" | "memmove" => {
                let (d, s, n) = (a64(self, 0), a64(self, 1), a64(self, 2));
                let dv = args[0].clone();
                return Ok(self.copy(fr, d, s, n)?.map(|mut fr| {
                    self.ret(&mut fr, c, dv);
                    fr
                }));
            }
            "memcmp" | "bcmp" => {
                let (p, q, n) = (a64(self, 0), a64(self, 1), a64(self, 2));
                let eqonly = name == "bcmp";
                return self.over(fr, n, 80, "memcmp length", &mut |me, mut fr, n| {
                    let n = u64v(n);
                    let mut r = me.cx.k(0, 32);
                    if n > 0 {
                        let pa = me.resolve(&fr.st, p, n, "memcmp")?;
                        let qa = me.resolve(&fr.st, q, n, "memcmp")?;
                        let x = me.read(&fr.st, &pa, n);
                        let y = me.read(&fr.st, &qa, n);
                        if eqonly {
                            let mut all = me.cx.t;
                            for i in 0..n as usize {
                                if x[i] == y[i] {
                                    continue;
                                }
                                let a = me.slot8(x[i]);
                                let b = me.slot8(y[i]);
                                let e = me.cx.eq(a, b);
                                all = me.cx.and(all, e);
                            }
                            let one = me.cx.k(1, 32);
                            r = me.cx.ite(all, r, one);
                        } else {
                            for i in (0..n as usize).rev() {
                                let a = me.slot8(x[i]);
                                let b = me.slot8(y[i]);
                                let e = me.cx.eq(a, b);
                                let l = me.cx.ult(a, b);
                                let m1 = me.cx.k(u32::MAX as u128, 32);
                                let p1 = me.cx.k(1, 32);
                                let d = me.cx.ite(l, m1, p1);
                                r = me.cx.ite(e, r, d);
                            }
                        }
                    }
                    me.ret(&mut fr, c, Val::S(r));
                    Ok(Some(fr))
                });
            }
            _ => {}
        }
        let noret = c.noreturn || self.m.decls.get(name).copied().unwrap_or(false) || self.m.noret_def.get(name).copied().unwrap_or(false);
        if noret {
            let t = self.cx.t;
            let w = format!("panic: call to {}", demangle(name));
            self.check_not(&fr.st, t, &w)?;
            return Ok(None);
        }
        let f = match self.fcache.get(name) {
            Some(f) => f.clone(),
            None => match self.m.clone().func(name) {
                Some(f) => {
                    self.fcache.insert(name.to_string(), f.clone());
                    f
                }
                None => return self.inc(format!("call to unknown function {}", name)),
            },
        };
        let Frame { st, regs } = fr;
        match self.exec_fn(&f, st, args)? {
            None => Ok(None),
            Some((st, v)) => {
                let mut fr = Frame { st, regs };
                if let Some(v) = v {
                    self.ret(&mut fr, c, v);
                }
                Ok(Some(fr))
            }
        }
    }
    fn slot8(&mut self, s: Slot) -> E {
        if s.0 == UNDEF {
            self.cx.k(0, 8)
        } else {
            self.byte(s)
        }
    }

    fn vmap(&mut self, ty: &Ty, args: &[Val], f: &mut dyn FnMut(&mut Engine, &[E], u16) -> E) -> Val {
        if let Ty::Vector(n, t) = ty {
            let w = Self::tyw(t);
            let ls: Vec<Vec<Val>> = args.iter().map(|a| Self::lanes(a, *n)).collect();
            let mut v = vec![];
            for i in 0..*n as usize {
                let es: Vec<E> = ls.iter().map(|l| self.sc(&l[i], w)).collect();
                v.push(Val::S(f(self, &es, w)));
            }
            Val::Agg(Rc::new(v))
        } else {
            let w = Self::tyw(ty);
            let es: Vec<E> = args.iter().map(|a| self.sc(a, w)).collect();
            Val::S(f(self, &es, w))
        }
    }

    fn intrinsic(&mut self, mut fr: Frame, c: &CallI, name: &str) -> R<Option<Frame>> {
        let n = &name[5..];
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let d = self.evs(&fr, &c.args[0].1, 64);
            let s = self.evs(&fr, &c.args[1].1, 64);
            let l = self.evs(&fr, &c.args[2].1, Self::tyw(&c.args[2].0));
            let l = self.cx.zext(l, 64);
            return self.copy(fr, d, s, l);
        }
        if n.starts_with("memset") {
            let d = self.evs(&fr, &c.args[0].1, 64);
            let v = self.evs(&fr, &c.args[1].1, 8);
            let l = self.evs(&fr, &c.args[2].1, Self::tyw(&c.args[2].0));
            return self.over(fr, l, 80, "memset length", &mut |me, mut fr, n| {
                let n = u64v(n);
                if n > 0 {
                    let cd = me.resolve(&fr.st, d, n, "memset")?;
                    let s = vec![(v, 0u8); n as usize];
                    me.write(&mut fr.st, &cd, &s)?;
                }
                Ok(Some(fr))
            });
        }
        for p in ["lifetime", "dbg", "experimental.noalias", "assume", "sideeffect", "donothing", "prefetch", "invariant", "va_", "stackrestore"] {
            if n.starts_with(p) {
                return Ok(Some(fr));
            }
        }
        if n.starts_with("trap") || n.starts_with("ubsantrap") {
            let t = self.cx.t;
            self.check_not(&fr.st, t, "trap")?;
            return Ok(None);
        }
        let args: Vec<Val> = c.args.iter().map(|(_, o)| self.ev(&fr, o)).collect();
        let at = c.args.get(0).map(|x| x.0.clone()).unwrap_or(Ty::Void);
        let v: Val = if n.contains(".with.overflow") {
            let w = Self::tyw(&at);
            let (a, b) = (self.sc(&args[0], w), self.sc(&args[1], w));
            let (r, o) = self.overflow(n, a, b, w);
            Val::Agg(Rc::new(vec![Val::S(r), Val::S(o)]))
        } else if n.starts_with("usub.sat") {
            self.vmap(&at, &args[..2], &mut |m, e, w| {
                let l = m.cx.ult(e[0], e[1]);
                let s = m.cx.sub(e[0], e[1]);
                let z = m.cx.k(0, w);
                m.cx.ite(l, z, s)
            })
        } else if n.starts_with("uadd.sat") {
            self.vmap(&at, &args[..2], &mut |m, e, w| {
                let (r, o) = m.overflow("uadd", e[0], e[1], w);
                let z = m.cx.k(mask(w), w);
                m.cx.ite(o, z, r)
            })
        } else if n.starts_with("ssub.sat") || n.starts_with("sadd.sat") {
            let k = n[..4].to_string();
            self.vmap(&at, &args[..2], &mut |m, e, w| {
                let (r, o) = m.overflow(&k, e[0], e[1], w);
                let z = m.cx.k(0, w);
                let neg = m.cx.slt(e[0], z);
                let mn = m.cx.k(1u128 << (w - 1), w);
                let mx = m.cx.k(mask(w) >> 1, w);
                let s = m.cx.ite(neg, mn, mx);
                m.cx.ite(o, s, r)
            })
        } else if n.starts_with("umax") || n.starts_with("umin") || n.starts_with("smax") || n.starts_with("smin") {
            let k = n[..4].to_string();
            self.vmap(&at, &args[..2], &mut |m, e, _| {
                let l = if k.starts_with('u') { m.cx.ult(e[0], e[1]) } else { m.cx.slt(e[0], e[1]) };
                if k.ends_with("min") {
                    m.cx.ite(l, e[0], e[1])
                } else {
                    m.cx.ite(l, e[1], e[0])
                }
            })
        } else if n.starts_with("abs") {
            self.vmap(&at, &args[..1], &mut |m, e, w| {
                let z = m.cx.k(0, w);
                let l = m.cx.slt(e[0], z);
                let ng = m.cx.neg(e[0]);
                m.cx.ite(l, ng, e[0])
            })
        } else if n.starts_with("ctlz") {
            self.vmap(&at, &args[..1], &mut |m, e, w| {
                let mut r = m.cx.k(w as u128, w);
                for i in 0..w {
                    let b = m.cx.extract(e[0], i, 1);
                    let k = m.cx.k((w - 1 - i) as u128, w);
                    r = m.cx.ite(b, k, r);
                }
                r
            })
        } else if n.starts_with("cttz") {
            self.vmap(&at, &args[..1], &mut |m, e, w| {
                let mut r = m.cx.k(w as u128, w);
                for i in (0..w).rev() {
                    let b = m.cx.extract(e[0], i, 1);
                    let k = m.cx.k(i as u128, w);
                    r = m.cx.ite(b, k, r);
                }
                r
            })
        } else if n.starts_with("ctpop") {
            self.vmap(&at, &args[..1], &mut |m, e, w| {
                let mut r = m.cx.k(0, w);
                for i in 0..w {
                    let b = m.cx.extract(e[0], i, 1);
                    let b = m.cx.zext(b, w);
                    r = m.cx.add(r, b);
                }
                r
            })
        } else if n.starts_with("fshl") || n.starts_with("fshr") {
            let left = n.starts_with("fshl");
            self.vmap(&at, &args[..3], &mut |m, e, w| {
                let ww = m.cx.k(w as u128, w);
                let s = m.cx.divlike(Op::URem, e[2], ww);
                let z = m.cx.k(0, w);
                let isz = m.cx.eq(s, z);
                let inv = m.cx.sub(ww, s);
                if left {
                    let h = m.cx.shl(e[0], s);
                    let l = m.cx.lshr(e[1], inv);
                    let r = m.cx.or(h, l);
                    m.cx.ite(isz, e[0], r)
                } else {
                    let h = m.cx.shl(e[0], inv);
                    let l = m.cx.lshr(e[1], s);
                    let r = m.cx.or(h, l);
                    m.cx.ite(isz, e[1], r)
                }
            })
        } else if n.starts_with("bswap") {
            self.vmap(&at, &args[..1], &mut |m, e, w| {
                let mut r = m.cx.extract(e[0], 0, 8);
                for i in 1..w / 8 {
                    let b = m.cx.extract(e[0], i * 8, 8);
                    r = m.cx.concat(r, b);
                }
                r
            })
        } else if n.starts_with("bitreverse") {
            self.vmap(&at, &args[..1], &mut |m, e, w| {
                let mut r = m.cx.extract(e[0], 0, 1);
                for i in 1..w {
                    let b = m.cx.extract(e[0], i, 1);
                    r = m.cx.concat(r, b);
                }
                r
            })
        } else if n.starts_with("ucmp") || n.starts_with("scmp") {
            let s = n.starts_with('s');
            let rw = Self::tyw(&c.ret);
            if let Ty::Vector(..) = at {
                return self.inc("vector cmp");
            }
            let w = Self::tyw(&at);
            let (a, b) = (self.sc(&args[0], w), self.sc(&args[1], w));
            let lt = if s { self.cx.slt(a, b) } else { self.cx.ult(a, b) };
            let eq = self.cx.eq(a, b);
            let m1 = self.cx.k(mask(rw), rw);
            let p1 = self.cx.k(1, rw);
            let z = self.cx.k(0, rw);
            let x = self.cx.ite(eq, z, p1);
            Val::S(self.cx.ite(lt, m1, x))
        } else if n.starts_with("expect") || n.starts_with("launder") || n.starts_with("strip") || n.starts_with("ssa.copy") || n.starts_with("threadlocal.address") {
            args[0].clone()
        } else if n.starts_with("is.constant") {
            Val::S(self.cx.f)
        } else if n.starts_with("objectsize") {
            let w = Self::tyw(&c.ret);
            Val::S(self.cx.k(mask(w), w))
        } else if n.starts_with("ptrmask") {
            let (a, b) = (self.sc(&args[0], 64), self.sc(&args[1], 64));
            Val::S(self.cx.and(a, b))
        } else if n.starts_with("stacksave") {
            Val::S(self.cx.k64(0))
        } else if n.starts_with("vector.reduce.") {
            let op = n["vector.reduce.".len()..].split('.').next().unwrap().to_string();
            let (nl, t) = if let Ty::Vector(nl, t) = &at { (*nl, (**t).clone()) } else { return self.inc("reduce") };
            let w = Self::tyw(&t);
            let l = Self::lanes(&args[0], nl);
            let mut r = self.sc(&l[0], w);
            for x in &l[1..] {
                let y = self.sc(x, w);
                r = match op.as_str() {
                    "add" | "mul" | "and" | "or" | "xor" => self.bin(&fr.st, &op, r, y)?,
                    "umax" => {
                        let c = self.cx.ult(r, y);
                        self.cx.ite(c, y, r)
                    }
                    "umin" => {
                        let c = self.cx.ult(r, y);
                        self.cx.ite(c, r, y)
                    }
                    "smax" => {
                        let c = self.cx.slt(r, y);
                        self.cx.ite(c, y, r)
                    }
                    "smin" => {
                        let c = self.cx.slt(r, y);
                        self.cx.ite(c, r, y)
                    }
                    _ => return self.inc(format!("reduce {}", op)),
                };
            }
            Val::S(r)
        } else {
            return self.inc(format!("unsupported intrinsic {}", name));
        };
        self.ret(&mut fr, c, v);
        Ok(Some(fr))
    }

    fn overflow(&mut self, n: &str, a: E, b: E, w: u16) -> (E, E) {
        let cx = &mut self.cx;
        match &n[..4] {
            "uadd" => {
                let r = cx.add(a, b);
                let (x, y) = (cx.info[a as usize], cx.info[b as usize]);
                if w <= 64 && x.umax as u128 + y.umax as u128 <= mask(w) {
                    return (r, cx.f);
                }
                let o = cx.ult(r, a);
                (r, o)
            }
            "usub" => {
                let r = cx.sub(a, b);
                let o = cx.ult(a, b);
                (r, o)
            }
            "sadd" | "ssub" => {
                let r = if &n[..4] == "sadd" { cx.add(a, b) } else { cx.sub(a, b) };
                if w <= 64 {
                    let (x, y) = (cx.info[a as usize], cx.info[b as usize]);
                    let (lo, hi) = if &n[..4] == "sadd" {
                        (x.smin as i128 + y.smin as i128, x.smax as i128 + y.smax as i128)
                    } else {
                        (x.smin as i128 - y.smax as i128, x.smax as i128 - y.smin as i128)
                    };
                    let h = 1i128 << (w - 1);
                    if lo >= -h && hi < h {
                        return (r, cx.f);
                    }
                }
                let (ea, eb) = (cx.sext(a, w + 1), cx.sext(b, w + 1));
                let er = if &n[..4] == "sadd" { cx.add(ea, eb) } else { cx.sub(ea, eb) };
                let rr = cx.sext(r, w + 1);
                let e = cx.eq(er, rr);
                (r, cx.not(e))
            }
            "umul" => {
                let r = cx.mul(a, b);
                if w <= 64 {
                    let (x, y) = (cx.info[a as usize], cx.info[b as usize]);
                    if x.umax as u128 * y.umax as u128 <= mask(w) {
                        return (r, cx.f);
                    }
                    let (p, q) = (cx.zext(a, 2 * w), cx.zext(b, 2 * w));
                    let m = cx.mul(p, q);
                    let h = cx.extract(m, w, w);
                    let z = cx.k(0, w);
                    let e = cx.eq(h, z);
                    return (r, cx.not(e));
                }
                panic!("umul overflow width")
            }
            "smul" => {
                let r = cx.mul(a, b);
                let (x, y) = (cx.info[a as usize], cx.info[b as usize]);
                let c = [
                    x.smin as i128 * y.smin as i128,
                    x.smin as i128 * y.smax as i128,
                    x.smax as i128 * y.smin as i128,
                    x.smax as i128 * y.smax as i128,
                ];
                let h = 1i128 << (w - 1);
                if c.iter().all(|v| *v >= -h && *v < h) {
                    return (r, cx.f);
                }
                let (p, q) = (cx.sext(a, 2 * w), cx.sext(b, 2 * w));
                let m = cx.mul(p, q);
                let rr = cx.sext(r, 2 * w);
                let e = cx.eq(m, rr);
                (r, cx.not(e))
            }
            _ => panic!("overflow {}", n),
        }
    }

    // ---------- harness interface ----------
    fn sym(&mut self, mut fr: Frame, c: &CallI, name: &str, args: &[Val]) -> R<Option<Frame>> {
        let aw = |i: usize| Self::tyw(&c.args[i].0);
        match name {
            // sym_u(id, bits) -> u64
            "sym_u" => {
                let id = self.sc(&args[0], aw(0));
                let bits = self.sc(&args[1], aw(1));
                let (id, bits) = (self.cx.kv(id).unwrap() as u32, self.cx.kv(bits).unwrap() as u16);
                let e = match self.syms.iter().find(|s| s.0 == id) {
                    Some(s) => s.2,
                    None => {
                        let e = self.cx.var(bits);
                        self.syms.push((id, bits, e));
                        e
                    }
                };
                let v = self.cx.zext(e, 64);
                self.ret(&mut fr, c, Val::S(v));
            }
            "sym_assume" => {
                let b = self.sc(&args[0], aw(0));
                let b = self.tobool(b);
                if !self.feasible(&fr.st.pc, b)? {
                    return Ok(None);
                }
                fr.st.pc = self.pc_push(&fr.st.pc, b);
            }
            "sym_assert" => {
                let b = self.sc(&args[0], aw(0));
                let b = self.tobool(b);
                if self.safety_only {
                    // Not this run's business; nothing is said about what the
                    // harness does on a path where it fails.
                    if !self.feasible(&fr.st.pc, b)? {
                        return Ok(None);
                    }
                    fr.st.pc = self.pc_push(&fr.st.pc, b);
                    return Ok(Some(fr));
                }
                let id = self.sc(&args[1], aw(1));
                let id = self.cx.kv(id).unwrap_or(0) as u64;
                self.st.asserts += 1;
                *self.asserts_seen.entry(id).or_insert(0) += 1;
                let nb = self.cx.not(b);
                self.check_not(&fr.st, nb, &format!("assert {}", id))?;
            }
            "sym_reach" => {
                let id = self.sc(&args[0], aw(0));
                let id = self.cx.kv(id).unwrap() as u64;
                if !matches!(self.reaches.get(&id), Some(Some(_))) {
                    if self.sat_q(fr.st.pc.all)? {
                        let m = self.last_model();
                        self.reaches.insert(id, Some(m));
                    }
                }
            }
            "sym_observe" => {
                let tag = self.sc(&args[0], aw(0));
                let tag = self.cx.kv(tag).unwrap() as u64;
                let v = self.sc(&args[1], aw(1));
                let v = self.cx.zext(v, 64);
                self.observes.push((fr.st.pc.all, tag, v));
            }
            "sym_split" => {
                let e = self.sc(&args[0], 64);
                if self.cx.is_const(e) {
                    self.ret(&mut fr, c, Val::S(e));
                    return Ok(Some(fr));
                }
                let v = if self.split_pos < self.prefix.len() {
                    self.prefix[self.split_pos]
                } else {
                    let t = self.cx.t;
                    let vals = match self.enum_vals(&fr.st, e, t, 4096)? {
                        Some(v) => v,
                        None => return self.inc("split: too many values"),
                    };
                    if vals.is_empty() {
                        return Ok(None);
                    }
                    for &x in &vals[1..] {
                        let mut p = self.prefix.clone();
                        p.push(x);
                        self.new_jobs.push(p);
                    }
                    self.prefix.push(vals[0]);
                    vals[0]
                };
                self.split_pos += 1;
                let k = self.cx.k(v, 64);
                let q = self.cx.eq(e, k);
                if !self.feasible(&fr.st.pc, q)? {
                    return Ok(None);
                }
                fr.st.pc = self.pc_push(&fr.st.pc, q);
                self.ret(&mut fr, c, Val::S(k));
            }
            "sym_is_symbolic" => {
                let t = self.cx.k(1, Self::tyw(&c.ret).max(1));
                self.ret(&mut fr, c, Val::S(t));
            }
            _ => return self.inc(format!("unknown harness call {}", name)),
        }
        Ok(Some(fr))
    }
    fn tobool(&mut self, e: E) -> E {
        let w = self.cx.w(e);
        if w == 1 {
            e
        } else {
            let z = self.cx.k(0, w);
            let q = self.cx.eq(e, z);
            self.cx.not(q)
        }
    }

    // ---------- functions ----------
    pub fn exec_fn(&mut self, f: &Arc<Func>, st: State, args: Vec<Val>) -> R<Option<(State, Option<Val>)>> {
        self.st.calls += 1;
        if self.stack.len() > 400 {
            let t = self.cx.t;
            self.check_not(&st, t, "unbounded recursion")?;
            return self.inc("call depth");
        }
        let key = Arc::as_ptr(f) as usize as u32;
        if self.fncache.insert(key, ()).is_none() {
            self.st.fn_enc.insert(demangle(&f.name));
        }
        let t0 = Instant::now();
        self.stack.push(f.name.clone());
        if self.trace >= 2 {
            eprintln!("{}> {} {:?}", " ".repeat(self.stack.len()), demangle(&f.name), args.iter().map(|a| self.showv(a)).collect::<Vec<_>>());
        }
        let mut regs = vec![Val::U; f.nregs as usize];
        for (i, (_, r)) in f.params.iter().enumerate() {
            if i < args.len() {
                regs[*r as usize] = args[i].clone();
            }
        }
        let mut locals: Vec<u32> = vec![];
        let mut work: BTreeMap<Vec<u32>, (u32, Vec<u32>, Vec<Frame>)> = BTreeMap::new();
        let it0 = vec![0u32; f.blocks[0].loops.len()];
        work.insert(Self::key(&f.blocks[0], &it0), (0, it0, vec![Frame { st, regs }]));
        let mut rets: Vec<Frame> = vec![];
        let mut decided = 0u32;
        while let Some((_, (bi, iters, frames))) = work.pop_first() {
            let b = &f.blocks[bi as usize];
            let mut fr = if frames.len() == 1 { frames.into_iter().next().unwrap() } else { self.merge_frames(frames, Some(&b.livein)) };
            if iters.iter().any(|x| *x > LOOP_LIMIT) || (iters.iter().any(|x| *x > 1000) && decided > DECISION_LIMIT) {
                // Decided by running the real code on the values found.
                let t = self.cx.t;
                self.check_not(&fr.st, t, "does not terminate")?;
                return self.inc("loop bound");
            }
            let mut dead = false;
            for i in &b.insts {
                match self.inst(fr, i, &mut locals)? {
                    Some(x) => fr = x,
                    None => {
                        dead = true;
                        fr = Frame { st: self.root(), regs: vec![] };
                        break;
                    }
                }
            }
            if dead {
                continue;
            }
            self.st.branches += 1;
            if self.st.branches & 0x3ff == 0 && Instant::now() > self.deadline {
                return self.inc("time limit");
            }
            match &b.term {
                Term::Br(t) => self.edge(f, bi, *t, &iters, fr, &mut work),
                Term::CondBr(o, t, e) => {
                    let c = self.evs(&fr, o, 1);
                    if t == e {
                        self.edge(f, bi, *t, &iters, fr, &mut work);
                        continue;
                    }
                    if let Some(k) = self.cx.kv(c) {
                        self.edge(f, bi, if k == 1 { *t } else { *e }, &iters, fr, &mut work);
                        continue;
                    }
                    self.st.sym_branches += 1;
                    decided += 1;
                    let nc = self.cx.not(c);
                    let ft = self.feasible(&fr.st.pc, c)?;
                    let fe = if ft { self.feasible(&fr.st.pc, nc)? } else { true };
                    if ft && fe {
                        let mut f2 = fr.clone();
                        f2.st.pc = self.pc_push(&fr.st.pc, c);
                        let pc = self.pc_push(&fr.st.pc, nc);
                        fr.st.pc = pc;
                        self.edge(f, bi, *t, &iters, f2, &mut work);
                        self.edge(f, bi, *e, &iters, fr, &mut work);
                    } else if ft {
                        self.edge(f, bi, *t, &iters, fr, &mut work);
                    } else {
                        self.edge(f, bi, *e, &iters, fr, &mut work);
                    }
                }
                Term::Switch(ty, o, d, cs) => {
                    let w = Self::tyw(ty);
                    let v = self.evs(&fr, o, w);
                    if let Some(k) = self.cx.kv(v) {
                        let t = cs.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d);
                        self.edge(f, bi, t, &iters, fr, &mut work);
                        continue;
                    }
                    self.st.sym_branches += 1;
                    // group by target
                    let mut groups: Vec<(u32, E)> = vec![];
                    let mut none = self.cx.t;
                    for (k, t) in cs {
                        let kk = self.cx.k(*k, w);
                        let q = self.cx.eq(v, kk);
                        let nq = self.cx.not(q);
                        none = self.cx.and(none, nq);
                        match groups.iter_mut().find(|g| g.0 == *t) {
                            Some(g) => g.1 = self.cx.or(g.1, q),
                            None => groups.push((*t, q)),
                        }
                    }
                    match groups.iter_mut().find(|g| g.0 == *d) {
                        Some(g) => g.1 = self.cx.or(g.1, none),
                        None => groups.push((*d, none)),
                    }
                    let base = fr.st.pc.clone();
                    for (t, q) in groups {
                        if matches!(f.blocks[t as usize].term, Term::Unreachable) && f.blocks[t as usize].insts.is_empty() && q == self.cx.f {
                            continue;
                        }
                        if self.feasible(&base, q)? {
                            let mut f2 = fr.clone();
                            f2.st.pc = self.pc_push(&base, q);
                            self.edge(f, bi, t, &iters, f2, &mut work);
                        }
                    }
                }
                Term::Ret(o) => {
                    let v = match o {
                        Some(o) => self.ev(&fr, o),
                        None => Val::U,
                    };
                    rets.push(Frame { st: fr.st, regs: vec![v] });
                }
                Term::Unreachable => {
                    let t = self.cx.t;
                    self.check_not(&fr.st, t, "unreachable code reached")?;
                }
                Term::Invoke(c, n) => {
                    if let Some(x) = self.call(fr, c)? {
                        self.edge(f, bi, *n, &iters, x, &mut work);
                    }
                }
                Term::Resume => return self.inc("resume"),
            }
        }
        self.stack.pop();
        let r = if rets.is_empty() {
            None
        } else {
            let mut fr = self.merge_frames(rets, None);
            for id in locals {
                self.remove(&mut fr.st, id);
            }
            let v = if f.ret == Ty::Void { None } else { Some(fr.regs[0].clone()) };
            Some((fr.st, v))
        };
        if self.trace >= 1 {
            let e = self.prof.entry(f.name.clone()).or_insert((0, 0.0));
            e.0 += 1;
            e.1 += t0.elapsed().as_secs_f64();
        }
        if self.trace >= 2 {
            if let Some((_, Some(v))) = &r {
                eprintln!("{}< {} = {}", " ".repeat(self.stack.len() + 1), demangle(&f.name), self.showv(v));
            }
        }
        Ok(r)
    }
    fn key(b: &Block, it: &[u32]) -> Vec<u32> {
        let mut k = Vec::with_capacity(b.pos.len() * 2);
        for i in 0..b.pos.len() {
            k.push(b.pos[i]);
            if i < it.len() {
                k.push(it[i]);
            }
        }
        k
    }
    fn edge(&mut self, f: &Func, from: u32, to: u32, iters: &[u32], mut fr: Frame, work: &mut BTreeMap<Vec<u32>, (u32, Vec<u32>, Vec<Frame>)>) {
        let (b, t) = (&f.blocks[from as usize], &f.blocks[to as usize]);
        let mut it = vec![0u32; t.loops.len()];
        let mut i = 0;
        while i < t.loops.len() && i < b.loops.len() && t.loops[i] == b.loops[i] {
            it[i] = iters[i];
            if t.header_of.contains(&t.loops[i]) {
                it[i] += 1;
                break;
            }
            i += 1;
        }
        if !t.phis.is_empty() {
            let mut vals = vec![];
            for (d, _, v) in &t.phis {
                let o = v.iter().find(|x| x.0 == from).expect("phi edge");
                vals.push((*d, self.ev(&fr, &o.1)));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let k = Self::key(t, &it);
        let e = work.entry(k).or_insert((to, it, vec![]));
        debug_assert_eq!(e.0, to);
        e.2.push(fr);
    }

    pub fn sat_now(&mut self, q: E) -> R<bool> {
        self.sat_q(q)
    }

    // ---------- printing ----------
    pub fn showv(&self, v: &Val) -> String {
        match v {
            Val::U => "undef".into(),
            Val::S(e) => self.show(*e, 4),
            Val::Agg(a) => format!("{{{}}}", a.iter().map(|x| self.showv(x)).collect::<Vec<_>>().join(",")),
        }
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.cx.n(e);
        match n.op {
            Op::Const => {
                if n.k > 4096 {
                    format!("{:#x}", n.k)
                } else {
                    format!("{}", n.k)
                }
            }
            Op::Var => format!("v{}", n.k),
            _ if d == 0 => format!("#{}", e),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.k, n.w),
            _ => {
                let (k, m) = kids(n);
                format!("({:?} {})", n.op, k[..m].iter().map(|x| self.show(*x, d - 1)).collect::<Vec<_>>().join(" "))
            }
        }
    }
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

fn alloc_kind(n: &str) -> Option<&'static str> {
    if n.starts_with("_R") {
        for (s, k) in [
            ("___rust_alloc", "alloc"),
            ("___rust_dealloc", "dealloc"),
            ("___rust_realloc", "realloc"),
            ("___rust_alloc_zeroed", "alloc_zeroed"),
            ("___rust_no_alloc_shim_is_unstable_v2", "nop"),
        ] {
            if n.ends_with(s) {
                return Some(k);
            }
        }
        return None;
    }
    match n {
        "malloc" => Some("malloc"),
        "free" => Some("free"),
        "realloc" => Some("crealloc"),
        "calloc" => Some("calloc"),
        "posix_memalign" => Some("posix_memalign"),
        _ => None,
    }
}

/// Readable form of a v0-mangled or legacy name (path identifiers only).
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") && !s.starts_with("_ZN") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' {
            // disambiguator s..._ 
            if let Some(j) = s[i..].find('_') {
                if s[i + 1..i + j].bytes().all(|c| c.is_ascii_alphanumeric()) && j < 14 {
                    i += j + 1;
                    continue;
                }
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if let Ok(n) = s[i..j].parse::<usize>() {
                let st = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
                if st + n <= b.len() && n < 80 {
                    out.push(s[st..st + n].to_string());
                    i = st + n;
                    continue;
                }
            }
        }
        i += 1;
    }
    out.join("::")
}
