//! Bit-blasting of the expression DAG to CNF (Tseitin), generic over a clause sink.
use crate::expr::*;
use crate::sat::{neg, Lit};

pub trait Sink {
    fn new_var(&mut self) -> u32;
    fn clause(&mut self, c: &[Lit]);
}

impl Sink for crate::sat::Solver {
    fn new_var(&mut self) -> u32 {
        crate::sat::Solver::new_var(self) as u32
    }
    fn clause(&mut self, c: &[Lit]) {
        self.add_clause(c)
    }
}

#[derive(Default)]
pub struct Cnf {
    pub nvars: u32,
    pub clauses: Vec<Lit>, // 0-terminated using u32::MAX
    pub ncl: usize,
}
impl Sink for Cnf {
    fn new_var(&mut self) -> u32 {
        self.nvars += 1;
        self.nvars - 1
    }
    fn clause(&mut self, c: &[Lit]) {
        self.clauses.extend_from_slice(c);
        self.clauses.push(u32::MAX);
        self.ncl += 1;
    }
}
impl Cnf {
    pub fn dimacs(&self) -> Vec<u8> {
        use std::io::Write;
        let mut o = Vec::with_capacity(self.clauses.len() * 7 + 64);
        writeln!(o, "p cnf {} {}", self.nvars, self.ncl).unwrap();
        for &l in &self.clauses {
            if l == u32::MAX {
                o.extend_from_slice(b"0\n");
            } else {
                let v = (l >> 1) as i64 + 1;
                write!(o, "{} ", if l & 1 == 1 { -v } else { v }).unwrap();
            }
        }
        o
    }
}

pub struct Blaster {
    bits: FxMap<E, std::rc::Rc<Vec<Lit>>>,
    gates: FxMap<(u8, Lit, Lit, Lit), Lit>,
    pub tru: Lit,
    pub var_bits: FxMap<u32, std::rc::Rc<Vec<Lit>>>,
}

impl Blaster {
    pub fn new(s: &mut dyn Sink) -> Self {
        let v = s.new_var();
        let tru = v << 1;
        s.clause(&[tru]);
        Blaster { bits: Default::default(), gates: Default::default(), tru, var_bits: Default::default() }
    }
    fn fls(&self) -> Lit {
        neg(self.tru)
    }
    fn and(&mut self, s: &mut dyn Sink, a: Lit, b: Lit) -> Lit {
        let (t, f) = (self.tru, self.fls());
        if a == f || b == f || a == neg(b) {
            return f;
        }
        if a == t || a == b {
            return b;
        }
        if b == t {
            return a;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if let Some(&g) = self.gates.get(&(0, a, b, 0)) {
            return g;
        }
        let g = s.new_var() << 1;
        s.clause(&[neg(g), a]);
        s.clause(&[neg(g), b]);
        s.clause(&[g, neg(a), neg(b)]);
        self.gates.insert((0, a, b, 0), g);
        g
    }
    fn or(&mut self, s: &mut dyn Sink, a: Lit, b: Lit) -> Lit {
        neg(self.and(s, neg(a), neg(b)))
    }
    fn xor(&mut self, s: &mut dyn Sink, a: Lit, b: Lit) -> Lit {
        let (t, f) = (self.tru, self.fls());
        if a == f {
            return b;
        }
        if b == f {
            return a;
        }
        if a == t {
            return neg(b);
        }
        if b == t {
            return neg(a);
        }
        if a == b {
            return f;
        }
        if a == neg(b) {
            return t;
        }
        let flip = (a & 1) ^ (b & 1);
        let (a, b) = (a & !1, b & !1);
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if let Some(&g) = self.gates.get(&(1, a, b, 0)) {
            return g ^ flip;
        }
        let g = s.new_var() << 1;
        s.clause(&[neg(g), a, b]);
        s.clause(&[neg(g), neg(a), neg(b)]);
        s.clause(&[g, neg(a), b]);
        s.clause(&[g, a, neg(b)]);
        self.gates.insert((1, a, b, 0), g);
        g ^ flip
    }
    fn mux(&mut self, s: &mut dyn Sink, c: Lit, a: Lit, b: Lit) -> Lit {
        let (t, f) = (self.tru, self.fls());
        if c == t || a == b {
            return a;
        }
        if c == f {
            return b;
        }
        if a == t {
            return self.or(s, c, b);
        }
        if a == f {
            return self.and(s, neg(c), b);
        }
        if b == t {
            return self.or(s, neg(c), a);
        }
        if b == f {
            return self.and(s, c, a);
        }
        if a == neg(b) {
            return neg(self.xor(s, c, a));
        }
        let (c, a, b) = if c & 1 == 1 { (neg(c), b, a) } else { (c, a, b) };
        if let Some(&g) = self.gates.get(&(2, c, a, b)) {
            return g;
        }
        let g = s.new_var() << 1;
        s.clause(&[neg(c), neg(g), a]);
        s.clause(&[neg(c), g, neg(a)]);
        s.clause(&[c, neg(g), b]);
        s.clause(&[c, g, neg(b)]);
        s.clause(&[neg(a), neg(b), g]);
        s.clause(&[a, b, neg(g)]);
        self.gates.insert((2, c, a, b), g);
        g
    }
    fn maj(&mut self, s: &mut dyn Sink, a: Lit, b: Lit, c: Lit) -> Lit {
        let (t, f) = (self.tru, self.fls());
        for (x, y, z) in [(a, b, c), (b, a, c), (c, a, b)] {
            if x == f {
                return self.and(s, y, z);
            }
            if x == t {
                return self.or(s, y, z);
            }
            if y == z {
                return y;
            }
            if y == neg(z) {
                return x;
            }
        }
        let mut v = [a, b, c];
        v.sort();
        let [a, b, c] = v;
        if let Some(&g) = self.gates.get(&(3, a, b, c)) {
            return g;
        }
        let g = s.new_var() << 1;
        s.clause(&[neg(g), a, b]);
        s.clause(&[neg(g), a, c]);
        s.clause(&[neg(g), b, c]);
        s.clause(&[g, neg(a), neg(b)]);
        s.clause(&[g, neg(a), neg(c)]);
        s.clause(&[g, neg(b), neg(c)]);
        self.gates.insert((3, a, b, c), g);
        g
    }
    fn adder(&mut self, s: &mut dyn Sink, a: &[Lit], b: &[Lit], cin: Lit) -> (Vec<Lit>, Lit) {
        let mut c = cin;
        let mut o = vec![];
        for i in 0..a.len() {
            let x = self.xor(s, a[i], b[i]);
            o.push(self.xor(s, x, c));
            c = self.maj(s, a[i], b[i], c);
        }
        (o, c)
    }
    fn ult(&mut self, s: &mut dyn Sink, a: &[Lit], b: &[Lit]) -> Lit {
        // a < b : borrow chain from lsb
        let mut lt = self.fls();
        for i in 0..a.len() {
            // lt' = (!a & b) | (!(a^b) & lt) = maj(!a, b, lt)
            lt = self.maj(s, neg(a[i]), b[i], lt);
        }
        lt
    }
    fn muxv(&mut self, s: &mut dyn Sink, c: Lit, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        (0..a.len()).map(|i| self.mux(s, c, a[i], b[i])).collect()
    }
    fn udivrem(&mut self, s: &mut dyn Sink, a: &[Lit], b: &[Lit]) -> (Vec<Lit>, Vec<Lit>) {
        let w = a.len();
        let f = self.fls();
        let mut rem = vec![f; w + 1];
        let mut bb = b.to_vec();
        bb.push(f);
        let nb: Vec<Lit> = bb.iter().map(|l| neg(*l)).collect();
        let mut q = vec![f; w];
        for i in (0..w).rev() {
            rem.insert(0, a[i]);
            rem.pop();
            let (d, c) = self.adder(s, &rem, &nb, self.tru);
            // c==1 -> rem >= b
            q[i] = c;
            rem = self.muxv(s, c, &d, &rem);
        }
        rem.pop();
        // b == 0 -> q = all ones and r = a hold automatically (rem>=0 always true; d = rem)
        (q, rem)
    }
    pub fn get(&self, e: E) -> Option<&std::rc::Rc<Vec<Lit>>> {
        self.bits.get(&e)
    }
    pub fn lit(&mut self, cx: &Ctx, s: &mut dyn Sink, e: E) -> Lit {
        self.blast(cx, s, e);
        self.bits[&e][0]
    }
    pub fn blast(&mut self, cx: &Ctx, s: &mut dyn Sink, e: E) {
        if self.bits.contains_key(&e) {
            return;
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.bits.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = *cx.n(x);
            let (ks, m) = kids(&n);
            let mut ready = true;
            for &kd in &ks[..m] {
                if !self.bits.contains_key(&kd) {
                    st.push(kd);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            st.pop();
            let mut r = self.one(cx, s, x, &n);
            // bits outside the derived unsigned interval are zero
            if n.w <= 64 && n.op != Op::Var {
                let sig = 64 - cx.info[x as usize].umax.leading_zeros() as usize;
                for i in sig..r.len() {
                    r[i] = self.fls();
                }
            }
            self.bits.insert(x, std::rc::Rc::new(r));
        }
    }
    fn one(&mut self, cx: &Ctx, s: &mut dyn Sink, _x: E, n: &Node) -> Vec<Lit> {
        let w = n.w as usize;
        let (t, f) = (self.tru, self.fls());
        let g = |m: &Self, e: E| m.bits[&e].clone();
        match n.op {
            Op::Const => (0..w).map(|i| if (n.k >> i) & 1 == 1 { t } else { f }).collect(),
            Op::Var => {
                let id = n.k as u32;
                if let Some(v) = self.var_bits.get(&id) {
                    return v.to_vec();
                }
                let v: Vec<Lit> = (0..w).map(|_| s.new_var() << 1).collect();
                self.var_bits.insert(id, std::rc::Rc::new(v.clone()));
                v
            }
            Op::Add => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                // only compute as many bits as can be non-zero
                let sig = if n.w <= 64 { (64 - cx.info[_x as usize].umax.leading_zeros() as usize).min(w) } else { w };
                let mut r = self.adder(s, &a[..sig], &b[..sig], f).0;
                r.resize(w, f);
                r
            }
            Op::Mul => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                let (a, b) = if cx.is_const(n.b) { (a, b) } else { (b, a) };
                let mut acc = vec![f; w];
                for i in 0..w {
                    if b[i] == f {
                        continue;
                    }
                    let mut p = vec![f; w];
                    for j in i..w {
                        p[j] = self.and(s, a[j - i], b[i]);
                    }
                    acc = self.adder(s, &acc, &p, f).0;
                }
                acc
            }
            Op::UDiv | Op::URem => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                let (q, r) = self.udivrem(s, &a, &b);
                if n.op == Op::UDiv {
                    q
                } else {
                    r
                }
            }
            Op::SDiv | Op::SRem => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                let (sa, sb) = (a[w - 1], b[w - 1]);
                let z = vec![f; w];
                let na: Vec<Lit> = a.iter().map(|l| neg(*l)).collect();
                let na = self.adder(s, &na, &z, t).0;
                let nb: Vec<Lit> = b.iter().map(|l| neg(*l)).collect();
                let nb = self.adder(s, &nb, &z, t).0;
                let aa = self.muxv(s, sa, &na, &a);
                let bb = self.muxv(s, sb, &nb, &b);
                let (q, r) = self.udivrem(s, &aa, &bb);
                let (v, sg) = if n.op == Op::SDiv { (q, self.xor(s, sa, sb)) } else { (r, sa) };
                let nv: Vec<Lit> = v.iter().map(|l| neg(*l)).collect();
                let nv = self.adder(s, &nv, &z, t).0;
                self.muxv(s, sg, &nv, &v)
            }
            Op::Shl | Op::LShr | Op::AShr => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                let fill = if n.op == Op::AShr { a[w - 1] } else { f };
                let mut cur = a.to_vec();
                let mut stage = 0;
                while (1usize << stage) < w {
                    let sh = 1usize << stage;
                    let mut nx = vec![fill; w];
                    for i in 0..w {
                        let src = if n.op == Op::Shl {
                            if i >= sh {
                                cur[i - sh]
                            } else {
                                f
                            }
                        } else if i + sh < w {
                            cur[i + sh]
                        } else {
                            fill
                        };
                        nx[i] = self.mux(s, b[stage], src, cur[i]);
                    }
                    cur = nx;
                    stage += 1;
                }
                // overshoot
                let mut big = f;
                for i in stage..w {
                    big = self.or(s, big, b[i]);
                }
                if !w.is_power_of_two() {
                    let kw: Vec<Lit> = (0..w).map(|i| if (w >> i.min(63)) & 1 == 1 && i < 63 { t } else { f }).collect();
                    let lt = self.ult(s, &b, &kw);
                    big = self.or(s, big, neg(lt));
                }
                (0..w).map(|i| self.mux(s, big, fill, cur[i])).collect()
            }
            Op::And => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                (0..w).map(|i| self.and(s, a[i], b[i])).collect()
            }
            Op::Or => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                (0..w).map(|i| self.or(s, a[i], b[i])).collect()
            }
            Op::Xor => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                (0..w).map(|i| self.xor(s, a[i], b[i])).collect()
            }
            Op::Eq => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                let mut r = t;
                for i in 0..a.len() {
                    let x = self.xor(s, a[i], b[i]);
                    r = self.and(s, r, neg(x));
                }
                vec![r]
            }
            Op::Ult => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                vec![self.ult(s, &a, &b)]
            }
            Op::Slt => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                let mut a = a.to_vec();
                let mut b = b.to_vec();
                let m = a.len() - 1;
                let (x, y) = (a[m], b[m]);
                a[m] = y;
                b[m] = x;
                vec![self.ult(s, &a, &b)]
            }
            Op::Ite => {
                let (c, a, b) = (g(self, n.a), g(self, n.b), g(self, n.c));
                self.muxv(s, c[0], &a, &b)
            }
            Op::Concat => {
                let (a, b) = (g(self, n.a), g(self, n.b));
                b.iter().chain(a.iter()).cloned().collect()
            }
            Op::Extract => {
                let a = g(self, n.a);
                a[n.k as usize..n.k as usize + w].to_vec()
            }
            Op::ZExt => {
                let mut a = g(self, n.a).to_vec();
                a.resize(w, f);
                a
            }
            Op::SExt => {
                let mut a = g(self, n.a).to_vec();
                let m = *a.last().unwrap();
                a.resize(w, m);
                a
            }
        }
    }
}
