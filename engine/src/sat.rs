//! A small incremental CDCL solver (two watched literals, VSIDS, phase saving,
//! Luby restarts, LBD-based clause deletion, solving under assumptions).
//! It is only used to *guide* exploration; every "infeasible" answer it gives is
//! collected and re-discharged by an external solver at the end of a job.

pub type Lit = u32; // var<<1 | sign
#[inline]
pub fn neg(l: Lit) -> Lit {
    l ^ 1
}
#[inline]
pub fn lvar(l: Lit) -> usize {
    (l >> 1) as usize
}

const UNDEF: u8 = 2;

#[derive(Clone, Copy)]
struct Watch {
    cref: u32,
    blocker: Lit,
}

pub struct Solver {
    // clause arena: [len, lbd|learnt, act(f32 bits), lits...]
    arena: Vec<u32>,
    learnts: Vec<u32>,
    watches: Vec<Vec<Watch>>,
    val: Vec<u8>, // per literal: 0 false 1 true 2 undef
    level: Vec<u32>,
    reason: Vec<u32>,
    trail: Vec<Lit>,
    lim: Vec<usize>,
    qhead: usize,
    act: Vec<f64>,
    inc: f64,
    phase: Vec<bool>,
    heap: Vec<u32>,
    hpos: Vec<i32>,
    seen: Vec<bool>,
    pub ok: bool,
    rel: Vec<u32>,
    stamp: u32,
    pub conflicts: u64,
    pub props: u64,
    garbage: usize,
}

const NOREASON: u32 = u32::MAX;
const HDR: usize = 2;

impl Solver {
    pub fn new() -> Self {
        Solver {
            arena: vec![],
            learnts: vec![],
            watches: vec![],
            val: vec![],
            level: vec![],
            reason: vec![],
            trail: vec![],
            lim: vec![],
            qhead: 0,
            act: vec![],
            inc: 1.0,
            phase: vec![],
            heap: vec![],
            hpos: vec![],
            seen: vec![],
            ok: true,
            rel: vec![],
            stamp: 0,
            conflicts: 0,
            props: 0,
            garbage: 0,
        }
    }
    pub fn nvars(&self) -> usize {
        self.level.len()
    }
    pub fn new_var(&mut self) -> usize {
        let v = self.level.len();
        self.watches.push(vec![]);
        self.watches.push(vec![]);
        self.val.push(UNDEF);
        self.val.push(UNDEF);
        self.level.push(0);
        self.reason.push(NOREASON);
        self.act.push(0.0);
        self.phase.push(false);
        self.hpos.push(-1);
        self.seen.push(false);
        self.rel.push(0);
        v
    }
    #[inline]
    fn value(&self, l: Lit) -> u8 {
        self.val[l as usize]
    }
    pub fn model(&self, l: Lit) -> bool {
        self.val[l as usize] == 1
    }
    fn lits(&self, c: u32) -> &[u32] {
        let c = c as usize;
        let n = self.arena[c] as usize;
        &self.arena[c + HDR..c + HDR + n]
    }
    pub fn add_clause(&mut self, ls: &[Lit]) {
        if !self.ok {
            return;
        }
        if !self.lim.is_empty() {
            self.cancel(0);
        }
        let mut v: Vec<Lit> = ls.to_vec();
        v.sort();
        v.dedup();
        let mut out = vec![];
        for i in 0..v.len() {
            if i > 0 && v[i] == neg(v[i - 1]) {
                return;
            }
            match self.value(v[i]) {
                1 => return,
                0 => {}
                _ => out.push(v[i]),
            }
        }
        match out.len() {
            0 => self.ok = false,
            1 => {
                self.enqueue(out[0], NOREASON);
                if self.propagate() != NOREASON {
                    self.ok = false;
                }
            }
            _ => {
                self.attach(&out, 0);
            }
        }
    }
    fn attach(&mut self, ls: &[Lit], lbd: u32) -> u32 {
        let c = self.arena.len() as u32;
        self.arena.push(ls.len() as u32);
        self.arena.push(lbd);
        self.arena.extend_from_slice(ls);
        self.watches[neg(ls[0]) as usize].push(Watch { cref: c, blocker: ls[1] });
        self.watches[neg(ls[1]) as usize].push(Watch { cref: c, blocker: ls[0] });
        c
    }
    fn enqueue(&mut self, l: Lit, r: u32) {
        self.val[l as usize] = 1;
        self.val[neg(l) as usize] = 0;
        let v = lvar(l);
        self.level[v] = self.lim.len() as u32;
        self.reason[v] = r;
        self.trail.push(l);
    }
    fn propagate(&mut self) -> u32 {
        while self.qhead < self.trail.len() {
            let p = self.trail[self.qhead];
            self.qhead += 1;
            self.props += 1;
            let mut ws = std::mem::take(&mut self.watches[p as usize]);
            let mut i = 0;
            let mut j = 0;
            let np = neg(p);
            let mut confl = NOREASON;
            while i < ws.len() {
                let w = ws[i];
                i += 1;
                if self.val[w.blocker as usize] == 1 {
                    ws[j] = w;
                    j += 1;
                    continue;
                }
                let c = w.cref as usize;
                let n = self.arena[c] as usize;
                let base = c + HDR;
                if self.arena[base] == np {
                    self.arena[base] = self.arena[base + 1];
                    self.arena[base + 1] = np;
                }
                let first = self.arena[base];
                if first != w.blocker && self.val[first as usize] == 1 {
                    ws[j] = Watch { cref: w.cref, blocker: first };
                    j += 1;
                    continue;
                }
                let mut found = false;
                for k in 2..n {
                    let l = self.arena[base + k];
                    if self.val[l as usize] != 0 {
                        self.arena[base + 1] = l;
                        self.arena[base + k] = np;
                        self.watches[neg(l) as usize].push(Watch { cref: w.cref, blocker: first });
                        found = true;
                        break;
                    }
                }
                if found {
                    continue;
                }
                ws[j] = Watch { cref: w.cref, blocker: first };
                j += 1;
                if self.val[first as usize] == 0 {
                    confl = w.cref;
                    self.qhead = self.trail.len();
                    while i < ws.len() {
                        ws[j] = ws[i];
                        j += 1;
                        i += 1;
                    }
                } else {
                    self.enqueue(first, w.cref);
                }
            }
            ws.truncate(j);
            self.watches[p as usize] = ws;
            if confl != NOREASON {
                return confl;
            }
        }
        NOREASON
    }
    fn cancel(&mut self, lvl: usize) {
        if self.lim.len() <= lvl {
            return;
        }
        let t = self.lim[lvl];
        for i in (t..self.trail.len()).rev() {
            let l = self.trail[i];
            let v = lvar(l);
            self.val[l as usize] = UNDEF;
            self.val[neg(l) as usize] = UNDEF;
            self.phase[v] = l & 1 == 0;
            self.reason[v] = NOREASON;
            if self.rel[v] == self.stamp && self.hpos[v] < 0 {
                self.hinsert(v as u32);
            }
        }
        self.trail.truncate(t);
        self.lim.truncate(lvl);
        self.qhead = t;
    }
    // heap
    fn hless(&self, a: u32, b: u32) -> bool {
        self.act[a as usize] > self.act[b as usize]
    }
    fn hup(&mut self, mut i: usize) {
        let x = self.heap[i];
        while i > 0 {
            let p = (i - 1) >> 1;
            if self.hless(x, self.heap[p]) {
                self.heap[i] = self.heap[p];
                self.hpos[self.heap[i] as usize] = i as i32;
                i = p;
            } else {
                break;
            }
        }
        self.heap[i] = x;
        self.hpos[x as usize] = i as i32;
    }
    fn hdown(&mut self, mut i: usize) {
        let x = self.heap[i];
        loop {
            let l = 2 * i + 1;
            if l >= self.heap.len() {
                break;
            }
            let c = if l + 1 < self.heap.len() && self.hless(self.heap[l + 1], self.heap[l]) { l + 1 } else { l };
            if self.hless(self.heap[c], x) {
                self.heap[i] = self.heap[c];
                self.hpos[self.heap[i] as usize] = i as i32;
                i = c;
            } else {
                break;
            }
        }
        self.heap[i] = x;
        self.hpos[x as usize] = i as i32;
    }
    fn hinsert(&mut self, v: u32) {
        self.heap.push(v);
        let i = self.heap.len() - 1;
        self.hpos[v as usize] = i as i32;
        self.hup(i);
    }
    fn hpop(&mut self) -> Option<u32> {
        if self.heap.is_empty() {
            return None;
        }
        let x = self.heap[0];
        self.hpos[x as usize] = -1;
        let y = self.heap.pop().unwrap();
        if !self.heap.is_empty() {
            self.heap[0] = y;
            self.hpos[y as usize] = 0;
            self.hdown(0);
        }
        Some(x)
    }
    fn bump(&mut self, v: usize) {
        self.act[v] += self.inc;
        if self.act[v] > 1e100 {
            for a in self.act.iter_mut() {
                *a *= 1e-100;
            }
            self.inc *= 1e-100;
        }
        if self.hpos[v] >= 0 {
            self.hup(self.hpos[v] as usize);
        }
    }
    fn analyze(&mut self, mut confl: u32) -> (Vec<Lit>, usize, u32) {
        let mut out: Vec<Lit> = vec![0];
        let mut cnt = 0;
        let mut idx = self.trail.len();
        let cur = self.lim.len() as u32;
        let mut p: Option<Lit> = None;
        let mut clear: Vec<usize> = vec![];
        loop {
            let ls: Vec<u32> = self.lits(confl).to_vec();
            for &q in ls.iter() {
                if Some(q) == p {
                    continue;
                }
                let v = lvar(q);
                if !self.seen[v] && self.level[v] > 0 {
                    self.seen[v] = true;
                    clear.push(v);
                    self.bump(v);
                    if self.level[v] >= cur {
                        cnt += 1;
                    } else {
                        out.push(q);
                    }
                }
            }
            loop {
                idx -= 1;
                if self.seen[lvar(self.trail[idx])] {
                    break;
                }
            }
            let l = self.trail[idx];
            p = Some(l);
            cnt -= 1;
            self.seen[lvar(l)] = false;
            if cnt == 0 {
                out[0] = neg(l);
                break;
            }
            confl = self.reason[lvar(l)];
        }
        for &v in &clear {
            self.seen[v] = false;
        }
        for &l in &out {
            self.seen[lvar(l)] = true;
        }
        // basic minimisation
        let mut res = vec![out[0]];
        for &l in &out[1..] {
            let r = self.reason[lvar(l)];
            let redundant = r != NOREASON
                && self.lits(r).iter().all(|&q| {
                    let v = lvar(q);
                    v == lvar(l) || self.seen[v] || self.level[v] == 0
                });
            if !redundant {
                res.push(l);
            }
        }
        for &l in &out {
            self.seen[lvar(l)] = false;
        }
        let mut bt = 0;
        if res.len() > 1 {
            let mut m = 1;
            for i in 2..res.len() {
                if self.level[lvar(res[i])] > self.level[lvar(res[m])] {
                    m = i;
                }
            }
            res.swap(1, m);
            bt = self.level[lvar(res[1])] as usize;
        }
        let mut lv: Vec<u32> = res.iter().map(|l| self.level[lvar(*l)]).collect();
        lv.sort();
        lv.dedup();
        (res, bt, lv.len() as u32)
    }
    fn reduce(&mut self) {
        // drop the worse half of learnt clauses (by lbd, then length); called at level 0
        let mut ls = std::mem::take(&mut self.learnts);
        ls.sort_by_key(|&c| (self.arena[c as usize + 1], self.arena[c as usize]));
        let keep = ls.len() / 2;
        let mut dead: std::collections::HashSet<u32> = Default::default();
        let mut kept = vec![];
        for (i, &c) in ls.iter().enumerate() {
            let l0 = self.arena[c as usize + HDR];
            let locked = self.value(l0) == 1 && self.reason[lvar(l0)] == c;
            if i < keep || self.arena[c as usize + 1] <= 2 || locked {
                kept.push(c);
            } else {
                dead.insert(c);
                self.garbage += self.arena[c as usize] as usize + HDR;
            }
        }
        self.learnts = kept;
        for w in self.watches.iter_mut() {
            w.retain(|x| !dead.contains(&x.cref));
        }
    }

    /// Solve under assumptions, deciding only variables in `rel` (a set closed under
    /// gate definitions). Returns Some(true)=sat, Some(false)=unsat, None = budget.
    pub fn solve(&mut self, assumps: &[Lit], rel: &[u32], budget: u64) -> Option<bool> {
        if !self.ok {
            return Some(false);
        }
        self.cancel(0);
        self.stamp += 1;
        for &v in self.heap.iter() {
            self.hpos[v as usize] = -1;
        }
        self.heap.clear();
        for &v in rel {
            if self.rel[v as usize] != self.stamp {
                self.rel[v as usize] = self.stamp;
                if self.val[(v << 1) as usize] == UNDEF {
                    self.hinsert(v);
                }
            }
        }
        let start = self.conflicts;
        let mut restart_base = 64u64;
        let mut luby_i = 1u64;
        let mut next_restart = start + restart_base;
        let mut maxlearn = self.learnts.len() as u64 + 4000;
        loop {
            let confl = self.propagate();
            if confl != NOREASON {
                self.conflicts += 1;
                if self.lim.is_empty() {
                    self.ok = false;
                    return Some(false);
                }
                let (cl, bt, lbd) = self.analyze(confl);
                self.cancel(bt);
                if cl.len() == 1 {
                    self.cancel(0);
                    self.enqueue(cl[0], NOREASON);
                } else {
                    let c = self.attach(&cl, lbd.max(1));
                    self.learnts.push(c);
                    self.enqueue(cl[0], c);
                }
                self.inc /= 0.95;
                if self.conflicts - start > budget {
                    self.cancel(0);
                    return None;
                }
                continue;
            }
            if self.conflicts >= next_restart {
                luby_i += 1;
                restart_base = 64;
                next_restart = self.conflicts + restart_base * luby(luby_i);
                if self.learnts.len() as u64 > maxlearn {
                    self.cancel(0);
                    self.reduce();
                    maxlearn = maxlearn + maxlearn / 10;
                }
                self.cancel(assumps.len().min(self.lim.len()));
                continue;
            }
            // assumptions
            let mut next: Option<Lit> = None;
            while self.lim.len() < assumps.len() {
                let a = assumps[self.lim.len()];
                match self.value(a) {
                    1 => self.lim.push(self.trail.len()),
                    0 => {
                        self.cancel(0);
                        return Some(false);
                    }
                    _ => {
                        next = Some(a);
                        break;
                    }
                }
            }
            if next.is_none() {
                loop {
                    match self.hpop() {
                        None => return Some(true), // model left on the trail
                        Some(v) => {
                            if self.val[(v << 1) as usize] == UNDEF {
                                let l = (v << 1) | if self.phase[v as usize] { 0 } else { 1 };
                                next = Some(l);
                                break;
                            }
                        }
                    }
                }
            }
            self.lim.push(self.trail.len());
            self.enqueue(next.unwrap(), NOREASON);
        }
    }
}

fn luby(mut i: u64) -> u64 {
    // 1,1,2,1,1,2,4,...
    loop {
        let mut k = 1;
        while (1u64 << k) - 1 < i {
            k += 1;
        }
        if (1u64 << k) - 1 == i {
            return 1 << (k - 1);
        }
        i -= (1u64 << (k - 1)) - 1;
    }
}
