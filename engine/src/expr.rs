//! Hash-consed bit-vector expression DAG with aggressive local simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};

pub type E = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    #[inline]
    fn finish(&self) -> u64 {
        self.0
    }
    #[inline]
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64);
        }
    }
    #[inline]
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    #[inline]
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    #[inline]
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    #[inline]
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    #[inline]
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    #[inline]
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub umin: u64,
    pub umax: u64,
    pub smin: i64,
    pub smax: i64,
    /// number of leaves if this is an ite-tree over constants, else 0
    pub ct: u32,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: FxMap<Node, E>,
    pub nvars: u32,
    pub var_w: Vec<u16>,
    pub t: E,
    pub f: E,
    vsmemo: FxMap<E, Option<std::rc::Rc<Vec<u128>>>>,
    xmemo: FxMap<(E, u16, u16), E>,
    eqmemo: FxMap<(E, E), E>,
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

const CT_MAX: u32 = 48;

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![],
            info: vec![],
            map: Default::default(),
            nvars: 0,
            var_w: vec![],
            t: 0,
            f: 0,
            vsmemo: Default::default(),
            xmemo: Default::default(),
            eqmemo: Default::default(),
        };
        c.f = c.k(0, 1);
        c.t = c.k(1, 1);
        c
    }
    #[inline]
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn kv(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    #[inline]
    pub fn is_const(&self, e: E) -> bool {
        self.nodes[e as usize].op == Op::Const
    }

    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let info = self.compute_info(&n);
        let e = self.nodes.len() as E;
        // interval collapses to a constant
        if n.op != Op::Const && n.w <= 64 && info.umin == info.umax {
            let k = self.k(info.umin as u128, n.w);
            self.map.insert(n, k);
            return k;
        }
        self.nodes.push(n);
        self.info.push(info);
        self.map.insert(n, e);
        e
    }

    fn compute_info(&self, n: &Node) -> Info {
        let w = n.w;
        let full = Info {
            umin: 0,
            umax: if w >= 64 { u64::MAX } else { mask(w) as u64 },
            smin: if w >= 64 { i64::MIN } else { -(1i64 << (w - 1)) },
            smax: if w >= 64 { i64::MAX } else { ((1i128 << (w - 1)) - 1) as i64 },
            ct: 0,
        };
        if w > 64 {
            let mut i = full;
            i.ct = match n.op {
                Op::Const => 1,
                Op::Ite => {
                    let (x, y) = (self.info[n.b as usize].ct, self.info[n.c as usize].ct);
                    if x > 0 && y > 0 {
                        x.saturating_add(y)
                    } else {
                        0
                    }
                }
                _ => 0,
            };
            return i;
        }
        let inf = |e: E| self.info[e as usize];
        let mut r = full;
        let mut uset = false;
        let mut sset = false;
        match n.op {
            Op::Const => {
                r.umin = n.k as u64;
                r.umax = r.umin;
                r.smin = sx(n.k, w) as i64;
                r.smax = r.smin;
                r.ct = 1;
                return r;
            }
            Op::Ite => {
                let (x, y) = (inf(n.b), inf(n.c));
                r.umin = x.umin.min(y.umin);
                r.umax = x.umax.max(y.umax);
                r.smin = x.smin.min(y.smin);
                r.smax = x.smax.max(y.smax);
                r.ct = if x.ct > 0 && y.ct > 0 { x.ct.saturating_add(y.ct) } else { 0 };
                return r;
            }
            Op::ZExt => {
                let x = inf(n.a);
                r.umin = x.umin;
                r.umax = x.umax;
                uset = true;
            }
            Op::SExt => {
                let x = inf(n.a);
                r.smin = x.smin;
                r.smax = x.smax;
                sset = true;
            }
            Op::Add => {
                let (x, y) = (inf(n.a), inf(n.b));
                let (lo, hi) = (x.umin as u128 + y.umin as u128, x.umax as u128 + y.umax as u128);
                if hi <= mask(w) {
                    r.umin = lo as u64;
                    r.umax = hi as u64;
                    uset = true;
                }
                let (lo, hi) = (x.smin as i128 + y.smin as i128, x.smax as i128 + y.smax as i128);
                if lo >= full.smin as i128 && hi <= full.smax as i128 {
                    r.smin = lo as i64;
                    r.smax = hi as i64;
                    sset = true;
                }
            }
            Op::Mul => {
                let (x, y) = (inf(n.a), inf(n.b));
                let hi = (x.umax as u128).checked_mul(y.umax as u128).unwrap_or(u128::MAX);
                if hi <= mask(w) {
                    r.umin = x.umin.wrapping_mul(y.umin);
                    r.umax = hi as u64;
                    uset = true;
                }
                let c = [
                    x.smin as i128 * y.smin as i128,
                    x.smin as i128 * y.smax as i128,
                    x.smax as i128 * y.smin as i128,
                    x.smax as i128 * y.smax as i128,
                ];
                let lo = *c.iter().min().unwrap();
                let hi = *c.iter().max().unwrap();
                if lo >= full.smin as i128 && hi <= full.smax as i128 {
                    r.smin = lo as i64;
                    r.smax = hi as i64;
                    sset = true;
                }
            }
            Op::UDiv => {
                let (x, y) = (inf(n.a), inf(n.b));
                if y.umin > 0 {
                    r.umin = x.umin / y.umax;
                    r.umax = x.umax / y.umin;
                    uset = true;
                }
            }
            Op::URem => {
                let (x, y) = (inf(n.a), inf(n.b));
                if y.umin > 0 {
                    r.umax = x.umax.min(y.umax - 1);
                    uset = true;
                }
            }
            Op::And => {
                let (x, y) = (inf(n.a), inf(n.b));
                r.umax = x.umax.min(y.umax);
                uset = true;
            }
            Op::Or | Op::Xor => {
                let (x, y) = (inf(n.a), inf(n.b));
                let m = x.umax | y.umax;
                r.umax = if m == 0 { 0 } else { (((1u128 << (64 - m.leading_zeros())) - 1) as u64).min(full.umax) };
                if n.op == Op::Or {
                    r.umin = x.umin.max(y.umin);
                }
                uset = true;
            }
            Op::LShr => {
                let x = inf(n.a);
                r.umax = x.umax;
                if let Some(k) = self.kv(n.b) {
                    if k < 64 {
                        r.umax = x.umax >> k;
                        r.umin = x.umin >> k;
                    }
                }
                uset = true;
            }
            Op::Concat => {
                let (x, y) = (inf(n.a), inf(n.b));
                let wl = self.w(n.b);
                r.umin = (x.umin << wl) | y.umin;
                r.umax = (x.umax << wl) | y.umax;
                uset = true;
            }
            Op::Extract => {
                let x = inf(n.a);
                let wa = self.w(n.a);
                if wa <= 64 {
                    let lo = n.k as u32;
                    let hi_min = x.umin >> lo;
                    let hi_max = x.umax >> lo;
                    if hi_max as u128 <= mask(w) {
                        r.umin = hi_min;
                        r.umax = hi_max;
                        uset = true;
                    }
                    if lo == 0 && x.smin >= full.smin && x.smax <= full.smax {
                        r.smin = x.smin;
                        r.smax = x.smax;
                        sset = true;
                    }
                }
            }
            _ => {}
        }
        // cross-derive
        let half = mask(w - 1) as u64;
        if uset && !sset {
            if r.umax <= half {
                r.smin = r.umin as i64;
                r.smax = r.umax as i64;
            } else if r.umin > half {
                r.smin = sx(r.umin as u128, w) as i64;
                r.smax = sx(r.umax as u128, w) as i64;
            }
        } else if sset && !uset {
            if r.smin >= 0 {
                r.umin = r.smin as u64;
                r.umax = r.smax as u64;
            } else if r.smax < 0 {
                r.umin = (r.smin as u64) & mask(w) as u64;
                r.umax = (r.smax as u64) & mask(w) as u64;
            }
        } else if uset && sset {
            if r.smin >= 0 {
                r.umin = r.umin.max(r.smin as u64);
                r.umax = r.umax.min(r.smax as u64);
            }
            if r.umax <= half {
                r.smin = r.smin.max(r.umin as i64);
                r.smax = r.smax.min(r.umax as i64);
            }
        }
        r
    }

    pub fn k(&mut self, v: u128, w: u16) -> E {
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn k64(&mut self, v: u64) -> E {
        self.k(v as u128, 64)
    }
    pub fn b(&self, v: bool) -> E {
        if v {
            self.t
        } else {
            self.f
        }
    }
    pub fn var(&mut self, w: u16) -> E {
        let id = self.nvars;
        self.nvars += 1;
        self.var_w.push(w);
        self.intern(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id as u128 })
    }
    fn mk(&mut self, op: Op, w: u16, a: E, b: E, c: E, k: u128) -> E {
        self.intern(Node { op, w, a, b, c, k })
    }

    // ---------- const-tree mapping ----------
    fn map1(&mut self, t: E, f: &mut dyn FnMut(&mut Ctx, u128) -> E, memo: &mut FxMap<E, E>) -> E {
        if let Some(v) = self.kv(t) {
            return f(self, v);
        }
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        let n = *self.n(t);
        debug_assert!(n.op == Op::Ite);
        let x = self.map1(n.b, f, memo);
        let y = self.map1(n.c, f, memo);
        let r = self.ite(n.a, x, y);
        memo.insert(t, r);
        r
    }
    fn tree(&self, e: E) -> bool {
        let c = self.info[e as usize].ct;
        c > 1 && c <= CT_MAX
    }
    fn push1(&mut self, t: E, f: &mut dyn FnMut(&mut Ctx, u128) -> E) -> E {
        let mut memo = FxMap::default();
        self.map1(t, f, &mut memo)
    }
    /// try to push a binary op through const trees
    fn push2(&mut self, a: E, b: E, f: &dyn Fn(&mut Ctx, E, E) -> E) -> Option<E> {
        let (ca, cb) = (self.info[a as usize].ct, self.info[b as usize].ct);
        if ca == 0 || cb == 0 {
            return None;
        }
        if cb == 1 && ca > 1 && ca <= CT_MAX {
            let w = self.w(a);
            return Some(self.push1(a, &mut |c, v| {
                let k = c.k(v, w);
                f(c, k, b)
            }));
        }
        if ca == 1 && cb > 1 && cb <= CT_MAX {
            let w = self.w(b);
            return Some(self.push1(b, &mut |c, v| {
                let k = c.k(v, w);
                f(c, a, k)
            }));
        }
        if ca > 1 && cb > 1 && (ca as u64) * (cb as u64) <= 36 {
            let (wa, wb) = (self.w(a), self.w(b));
            return Some(self.push1(a, &mut |c, v| {
                let ka = c.k(v, wa);
                c.push1(b, &mut |c, u| {
                    let kb = c.k(u, wb);
                    f(c, ka, kb)
                })
            }));
        }
        None
    }

    // ---------- booleans ----------
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.k(mask(w), w);
        self.xor(a, m)
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        // a == !b  (1-bit)
        let n = self.n(a);
        if n.op == Op::Xor && n.a == b && self.kv(n.b) == Some(1) && n.w == 1 {
            return true;
        }
        let n = self.n(b);
        n.op == Op::Xor && n.a == a && self.kv(n.b) == Some(1) && n.w == 1
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        let (a, b) = if self.is_const(a) || (!self.is_const(b) && a > b) { (b, a) } else { (a, b) };
        if let Some(kb) = self.kv(b) {
            if let Some(ka) = self.kv(a) {
                return self.k(ka & kb, w);
            }
            if kb == 0 {
                return b;
            }
            if kb == mask(w) {
                return a;
            }
            if self.tree(a) {
                return self.push1(a, &mut |c, v| c.k(v & kb, w));
            }
            // low mask
            let low = kb.trailing_ones() as u16;
            if low > 0 && kb == mask(low) {
                if w <= 64 && (self.info[a as usize].umax as u128) <= kb {
                    return a;
                }
                let x = self.extract(a, 0, low);
                return self.zext(x, w);
            }
            let tz = kb.trailing_zeros() as u16;
            if tz > 0 {
                let hi = kb >> tz;
                let x = self.extract(a, tz, w - tz);
                let kh = self.k(hi, w - tz);
                let y = self.and(x, kh);
                let z = self.k(0, tz);
                return self.concat(y, z);
            }
            let na = *self.n(a);
            if na.op == Op::Concat || na.op == Op::ZExt {
                let (h, l) = self.split_top(a);
                let wl = self.w(l);
                let kl = self.k(kb & mask(wl), wl);
                let kh = self.k(kb >> wl, w - wl);
                let x = self.and(h, kh);
                let y = self.and(l, kl);
                return self.concat(x, y);
            }
            if na.op == Op::And {
                if let Some(k2) = self.kv(na.b) {
                    let k = self.k(k2 & kb, w);
                    return self.and(na.a, k);
                }
            }
            return self.mk(Op::And, w, a, b, 0, 0);
        }
        if w == 1 {
            if self.is_not_of(a, b) {
                return self.f;
            }
            for (x, y) in [(a, b), (b, a)] {
                // absorption using y's structure
                let ny = *self.n(y);
                match ny.op {
                    Op::And => {
                        if ny.a == x || ny.b == x {
                            return y;
                        }
                        if self.is_not_of(ny.a, x) || self.is_not_of(ny.b, x) {
                            return self.f;
                        }
                    }
                    Op::Or => {
                        if ny.a == x || ny.b == x {
                            return x;
                        }
                        if self.is_not_of(ny.a, x) {
                            return self.and(x, ny.b);
                        }
                        if self.is_not_of(ny.b, x) {
                            return self.and(x, ny.a);
                        }
                    }
                    Op::Xor => {
                        // y = !(p)
                        if ny.b == self.t {
                            let np = *self.n(ny.a);
                            if np.op == Op::And {
                                // x & !(p & q)
                                if np.a == x {
                                    let nq = self.not(np.b);
                                    return self.and(x, nq);
                                }
                                if np.b == x {
                                    let nq = self.not(np.a);
                                    return self.and(x, nq);
                                }
                                if self.is_not_of(np.a, x) || self.is_not_of(np.b, x) {
                                    return x;
                                }
                            } else if np.op == Op::Or {
                                if np.a == x || np.b == x {
                                    return self.f;
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            // eq(v,k1) & eq(v,k2) -> false ; eq(v,k1) & !eq(v,k2) -> eq(v,k1)
            let (na, nb) = (*self.n(a), *self.n(b));
            if na.op == Op::Eq && nb.op == Op::Eq && na.a == nb.a && self.is_const(na.b) && self.is_const(nb.b) {
                return self.f;
            }
            for (x, y) in [(a, b), (b, a)] {
                let nx = *self.n(x);
                let ny = *self.n(y);
                if nx.op == Op::Eq && self.is_const(nx.b) && ny.op == Op::Xor && ny.b == self.t {
                    let p = *self.n(ny.a);
                    if p.op == Op::Eq && p.a == nx.a && self.is_const(p.b) && p.b != nx.b {
                        return x;
                    }
                }
            }
        } else if let Some(r) = self.push2(a, b, &|c, x, y| c.and(x, y)) {
            return r;
        } else if w <= 64 {
            // zero upper part
            let m = self.info[a as usize].umax.min(self.info[b as usize].umax);
            let hb = (64 - m.leading_zeros()) as u16;
            if hb > 0 && hb < w {
                let x = self.extract(a, 0, hb);
                let y = self.extract(b, 0, hb);
                let z = self.and(x, y);
                return self.zext(z, w);
            }
        }
        self.mk(Op::And, w, a, b, 0, 0)
    }
    /// split at the topmost boundary: returns (hi, lo)
    fn split_top(&mut self, a: E) -> (E, E) {
        let n = *self.n(a);
        match n.op {
            Op::Concat => (n.a, n.b),
            Op::ZExt => {
                let wl = self.w(n.a);
                (self.k(0, n.w - wl), n.a)
            }
            _ => unreachable!(),
        }
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        let (a, b) = if self.is_const(a) || (!self.is_const(b) && a > b) { (b, a) } else { (a, b) };
        if let Some(kb) = self.kv(b) {
            if let Some(ka) = self.kv(a) {
                return self.k(ka | kb, w);
            }
            if kb == 0 {
                return a;
            }
            if kb == mask(w) {
                return b;
            }
            if self.tree(a) {
                return self.push1(a, &mut |c, v| c.k(v | kb, w));
            }
            let na = *self.n(a);
            if na.op == Op::Concat || na.op == Op::ZExt {
                let (h, l) = self.split_top(a);
                let wl = self.w(l);
                let kl = self.k(kb & mask(wl), wl);
                let kh = self.k(kb >> wl, w - wl);
                let x = self.or(h, kh);
                let y = self.or(l, kl);
                return self.concat(x, y);
            }
            return self.mk(Op::Or, w, a, b, 0, 0);
        }
        if w == 1 {
            if self.is_not_of(a, b) {
                return self.t;
            }
            for (x, y) in [(a, b), (b, a)] {
                let ny = *self.n(y);
                match ny.op {
                    Op::Or => {
                        if ny.a == x || ny.b == x {
                            return y;
                        }
                        if self.is_not_of(ny.a, x) || self.is_not_of(ny.b, x) {
                            return self.t;
                        }
                    }
                    Op::And => {
                        if ny.a == x || ny.b == x {
                            return x;
                        }
                        if self.is_not_of(ny.a, x) {
                            return self.or(x, ny.b);
                        }
                        if self.is_not_of(ny.b, x) {
                            return self.or(x, ny.a);
                        }
                    }
                    Op::Xor => {
                        if ny.b == self.t {
                            let np = *self.n(ny.a);
                            if np.op == Op::Or {
                                if np.a == x {
                                    let nq = self.not(np.b);
                                    return self.or(x, nq);
                                }
                                if np.b == x {
                                    let nq = self.not(np.a);
                                    return self.or(x, nq);
                                }
                                if self.is_not_of(np.a, x) || self.is_not_of(np.b, x) {
                                    return x;
                                }
                            } else if np.op == Op::And {
                                if np.a == x || np.b == x {
                                    return self.t;
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            // (p & q) | (p & !q) -> p
            let (na, nb) = (*self.n(a), *self.n(b));
            if na.op == Op::And && nb.op == Op::And {
                for (p, q) in [(na.a, na.b), (na.b, na.a)] {
                    for (r, s) in [(nb.a, nb.b), (nb.b, nb.a)] {
                        if p == r {
                            if self.is_not_of(q, s) {
                                return p;
                            }
                            let o = self.or(q, s);
                            return self.and(p, o);
                        }
                    }
                }
            }
        } else if let Some(r) = self.push2(a, b, &|c, x, y| c.or(x, y)) {
            return r;
        } else if let Some(r) = self.disjoint(a, b) {
            return r;
        }
        self.mk(Op::Or, w, a, b, 0, 0)
    }
    fn tz(&self, a: E) -> u16 {
        let n = self.n(a);
        match n.op {
            Op::Const => {
                if n.k == 0 {
                    n.w
                } else {
                    n.k.trailing_zeros() as u16
                }
            }
            Op::Concat => {
                let t = self.tz(n.b);
                if t == self.w(n.b) {
                    t + self.tz(n.a)
                } else {
                    t
                }
            }
            Op::ZExt => self.tz(n.a),
            _ => 0,
        }
    }
    /// a|b where low bits of one are zero and the other fits there
    fn disjoint(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w > 64 {
            return None;
        }
        for (x, y) in [(a, b), (b, a)] {
            let t = self.tz(x);
            if t > 0 && t < w && (self.info[y as usize].umax as u128) <= mask(t) {
                let h = self.extract(x, t, w - t);
                let l = self.extract(y, 0, t);
                return Some(self.concat(h, l));
            }
        }
        None
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.k(0, w);
        }
        let (a, b) = if self.is_const(a) || (!self.is_const(b) && a > b) { (b, a) } else { (a, b) };
        if let Some(kb) = self.kv(b) {
            if let Some(ka) = self.kv(a) {
                return self.k(ka ^ kb, w);
            }
            if kb == 0 {
                return a;
            }
            let na = *self.n(a);
            if na.op == Op::Xor {
                if let Some(k2) = self.kv(na.b) {
                    let k = self.k(kb ^ k2, w);
                    return self.xor(na.a, k);
                }
            }
            if self.tree(a) {
                return self.push1(a, &mut |c, v| c.k(v ^ kb, w));
            }
            if w > 1 && (na.op == Op::Concat || na.op == Op::ZExt) {
                let (h, l) = self.split_top(a);
                let wl = self.w(l);
                let kl = self.k(kb & mask(wl), wl);
                let kh = self.k(kb >> wl, w - wl);
                let x = self.xor(h, kh);
                let y = self.xor(l, kl);
                return self.concat(x, y);
            }
            return self.mk(Op::Xor, w, a, b, 0, 0);
        }
        if w == 1 {
            if self.is_not_of(a, b) {
                return self.t;
            }
            // pull negations out
            let na = *self.n(a);
            if na.op == Op::Xor && na.b == self.t {
                let r = self.xor(na.a, b);
                return self.not(r);
            }
            let nb = *self.n(b);
            if nb.op == Op::Xor && nb.b == self.t {
                let r = self.xor(a, nb.a);
                return self.not(r);
            }
        } else if let Some(r) = self.push2(a, b, &|c, x, y| c.xor(x, y)) {
            return r;
        }
        self.mk(Op::Xor, w, a, b, 0, 0)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if c == self.t {
            return a;
        }
        if c == self.f {
            return b;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "ite width");
        let nc = *self.n(c);
        if nc.op == Op::Xor && nc.b == self.t {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            if a == self.t {
                return self.or(c, b);
            }
            if a == self.f {
                let n = self.not(c);
                return self.and(n, b);
            }
            if b == self.t {
                let n = self.not(c);
                return self.or(n, a);
            }
            if b == self.f {
                return self.and(c, a);
            }
            if a == c {
                return self.or(c, b);
            }
            if b == c {
                return self.and(c, a);
            }
            if self.is_not_of(a, b) {
                // ite(c, a, !a) = !(c ^ a)
                let x = self.xor(c, a);
                return self.not(x);
            }
        }
        let na = *self.n(a);
        let nb = *self.n(b);
        if na.op == Op::Ite {
            if na.a == c {
                return self.ite(c, na.b, b);
            }
            if na.c == b {
                let cc = self.and(c, na.a);
                return self.ite(cc, na.b, b);
            }
            if na.b == b {
                let n = self.not(na.a);
                let cc = self.and(c, n);
                return self.ite(cc, na.c, b);
            }
        }
        if nb.op == Op::Ite {
            if nb.a == c {
                return self.ite(c, a, nb.c);
            }
            if nb.b == a {
                let cc = self.or(c, nb.a);
                return self.ite(cc, a, nb.c);
            }
            if nb.c == a {
                let n = self.not(nb.a);
                let cc = self.or(c, n);
                return self.ite(cc, a, nb.b);
            }
        }
        if w > 1 {
            // factor structure shared by both branches
            if na.op == Op::Add && self.is_const(na.b) {
                if na.a == b {
                    let z = self.k(0, w);
                    let k = self.ite(c, na.b, z);
                    return self.mk(Op::Add, w, b, k, 0, 0);
                }
                if nb.op == Op::Add && nb.a == na.a && self.is_const(nb.b) {
                    let k = self.ite(c, na.b, nb.b);
                    return self.mk(Op::Add, w, na.a, k, 0, 0);
                }
            }
            if nb.op == Op::Add && self.is_const(nb.b) && nb.a == a {
                let z = self.k(0, w);
                let k = self.ite(c, z, nb.b);
                return self.mk(Op::Add, w, a, k, 0, 0);
            }
            if w <= 64 && self.info[a as usize].ct == 0 || self.info[b as usize].ct == 0 {
                // narrow zero-extended branches
                let wa = self.sig(a);
                let wb = self.sig(b);
                let ww = wa.max(wb).max(1);
                if ww < w && (na.op == Op::ZExt || nb.op == Op::ZExt) {
                    let x = self.extract(a, 0, ww);
                    let y = self.extract(b, 0, ww);
                    let r = self.ite(c, x, y);
                    return self.zext(r, w);
                }
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) && (na.a == nb.a || na.b == nb.b) {
                let x = self.ite(c, na.a, nb.a);
                let y = self.ite(c, na.b, nb.b);
                return self.concat(x, y);
            }
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    /// number of significant (possibly non-zero) low bits
    fn sig(&self, a: E) -> u16 {
        let w = self.w(a);
        if w <= 64 {
            (64 - self.info[a as usize].umax.leading_zeros()) as u16
        } else {
            let n = self.n(a);
            match n.op {
                Op::Const => (128 - n.k.leading_zeros()) as u16,
                Op::ZExt => self.sig(n.a),
                _ => w,
            }
        }
    }

    // ---------- arithmetic ----------
    fn lin(&mut self, e: E, coef: u128, terms: &mut Vec<(E, u128)>, k: &mut u128, depth: u32) {
        let n = *self.n(e);
        match n.op {
            Op::Const => *k = k.wrapping_add(n.k.wrapping_mul(coef)),
            Op::Add if depth < 24 && terms.len() < 16 => {
                self.lin(n.a, coef, terms, k, depth + 1);
                self.lin(n.b, coef, terms, k, depth + 1);
            }
            Op::Mul if self.is_const(n.b) => {
                let c = self.n(n.b).k;
                self.lin(n.a, coef.wrapping_mul(c), terms, k, depth + 1);
            }
            _ => {
                for t in terms.iter_mut() {
                    if t.0 == e {
                        t.1 = t.1.wrapping_add(coef);
                        return;
                    }
                }
                terms.push((e, coef));
            }
        }
    }
    pub fn linear(&mut self, e: E) -> (Vec<(E, u128)>, u128) {
        let w = self.w(e);
        let mut t = vec![];
        let mut k = 0;
        self.lin(e, 1, &mut t, &mut k, 0);
        for x in t.iter_mut() {
            x.1 &= mask(w);
        }
        t.retain(|x| x.1 != 0);
        (t, k & mask(w))
    }
    fn from_lin(&mut self, mut terms: Vec<(E, u128)>, k: u128, w: u16) -> E {
        let m = mask(w);
        terms.retain(|x| x.1 & m != 0);
        terms.sort();
        let mut acc: Option<E> = None;
        for (t, c) in terms {
            let c = c & m;
            let x = if c == 1 {
                t
            } else {
                let kc = self.k(c, w);
                if self.tree(t) {
                    self.push1(t, &mut |cx, v| cx.k(v.wrapping_mul(c), w))
                } else {
                    self.mk(Op::Mul, w, t, kc, 0, 0)
                }
            };
            acc = Some(match acc {
                None => x,
                Some(a) => {
                    if let Some(r) = self.push2(a, x, &|c, p, q| c.add(p, q)) {
                        r
                    } else {
                        self.mk(Op::Add, w, a, x, 0, 0)
                    }
                }
            });
        }
        match acc {
            None => self.k(k, w),
            Some(a) => {
                let k = k & m;
                if k == 0 {
                    a
                } else if self.tree(a) {
                    self.push1(a, &mut |c, v| c.k(v.wrapping_add(k), w))
                } else {
                    let kk = self.k(k, w);
                    self.mk(Op::Add, w, a, kk, 0, 0)
                }
            }
        }
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            return self.xor(a, b);
        }
        if let (Some(x), Some(y)) = (self.kv(a), self.kv(b)) {
            return self.k(x.wrapping_add(y), w);
        }
        if self.kv(a) == Some(0) {
            return b;
        }
        if self.kv(b) == Some(0) {
            return a;
        }
        if let Some(r) = self.push2(a, b, &|c, x, y| c.add(x, y)) {
            return r;
        }
        // disjoint bit ranges -> concat
        if w <= 64 && !self.is_const(a) && !self.is_const(b) {
            if let Some(r) = self.disjoint(a, b) {
                return r;
            }
        }
        let mut t = vec![];
        let mut k = 0;
        self.lin(a, 1, &mut t, &mut k, 0);
        self.lin(b, 1, &mut t, &mut k, 0);
        self.from_lin(t, k, w)
    }
    pub fn neg(&mut self, a: E) -> E {
        let z = self.k(0, self.w(a));
        self.sub(z, a)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.k(0, w);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if let (Some(x), Some(y)) = (self.kv(a), self.kv(b)) {
            return self.k(x.wrapping_sub(y), w);
        }
        if self.kv(b) == Some(0) {
            return a;
        }
        if let Some(r) = self.push2(a, b, &|c, x, y| c.sub(x, y)) {
            return r;
        }
        let mut t = vec![];
        let mut k = 0;
        self.lin(a, 1, &mut t, &mut k, 0);
        self.lin(b, u128::MAX, &mut t, &mut k, 0);
        self.from_lin(t, k, w)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.is_const(a) || (!self.is_const(b) && a > b) { (b, a) } else { (a, b) };
        if w == 1 {
            return self.and(a, b);
        }
        if let Some(kb) = self.kv(b) {
            if let Some(ka) = self.kv(a) {
                return self.k(ka.wrapping_mul(kb), w);
            }
            if kb == 0 {
                return b;
            }
            if kb == 1 {
                return a;
            }
            if self.tree(a) {
                return self.push1(a, &mut |c, v| c.k(v.wrapping_mul(kb), w));
            }
            let mut t = vec![];
            let mut k = 0;
            self.lin(a, kb, &mut t, &mut k, 0);
            return self.from_lin(t, k, w);
        }
        if let Some(r) = self.push2(a, b, &|c, x, y| c.mul(x, y)) {
            return r;
        }
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    pub fn divlike(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.kv(a), self.kv(b)) {
            let r = eval_div(op, x, y, w);
            return self.k(r, w);
        }
        if let Some(r) = self.push2(a, b, &|c, x, y| c.divlike(op, x, y)) {
            return r;
        }
        if let Some(y) = self.kv(b) {
            if op == Op::UDiv && y.is_power_of_two() {
                let s = self.k(y.trailing_zeros() as u128, w);
                return self.lshr(a, s);
            }
            if op == Op::URem && y.is_power_of_two() {
                let m = self.k(y - 1, w);
                return self.and(a, m);
            }
        }
        if w <= 64 && (op == Op::UDiv || op == Op::URem) {
            let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
            if ib.umin > 0 && ia.umax < ib.umin {
                return if op == Op::UDiv { self.k(0, w) } else { a };
            }
            // narrow
            let s = self.sig(a).max(self.sig(b)).max(1);
            if s < w {
                let x = self.extract(a, 0, s);
                let y = self.extract(b, 0, s);
                // division by zero yields all-ones in SMT-LIB; keep only if divisor is non-zero
                if ib.umin > 0 {
                    let r = self.divlike(op, x, y);
                    return self.zext(r, w);
                }
            }
        }
        self.mk(op, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.kv(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.k(0, w);
            }
            if let Some(v) = self.kv(a) {
                return self.k(v << s, w);
            }
            if self.tree(a) {
                return self.push1(a, &mut |c, v| c.k(v << s, w));
            }
            // keep linear shape when the operand is linear (addresses)
            let s16 = s as u16;
            if w <= 64 && (self.info[a as usize].umax as u128) << s <= mask(w) && matches!(self.n(a).op, Op::Add | Op::Mul | Op::Ite) {
                let k = self.k(1u128 << s, w);
                return self.mul(a, k);
            }
            let x = self.extract(a, 0, w - s16);
            let z = self.k(0, s16);
            return self.concat(x, z);
        }
        if let Some(r) = self.push2(a, b, &|c, x, y| c.shl(x, y)) {
            return r;
        }
        if self.tree(b) {
            return self.push1(b, &mut |c, v| {
                let k = c.k(v, w);
                c.shl(a, k)
            });
        }
        self.mk(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.kv(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.k(0, w);
            }
            if let Some(v) = self.kv(a) {
                return self.k(v >> s, w);
            }
            if self.tree(a) {
                return self.push1(a, &mut |c, v| c.k(v >> s, w));
            }
            let x = self.extract(a, s as u16, w - s as u16);
            return self.zext(x, w);
        }
        if let Some(r) = self.push2(a, b, &|c, x, y| c.lshr(x, y)) {
            return r;
        }
        if self.tree(b) {
            return self.push1(b, &mut |c, v| {
                let k = c.k(v, w);
                c.lshr(a, k)
            });
        }
        self.mk(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.kv(b) {
            if s == 0 {
                return a;
            }
            let s = s.min(w as u128 - 1);
            if let Some(v) = self.kv(a) {
                return self.k((sx(v, w) >> s) as u128, w);
            }
            if self.tree(a) {
                return self.push1(a, &mut |c, v| c.k((sx(v, w) >> s) as u128, w));
            }
            let x = self.extract(a, s as u16, w - s as u16);
            return self.sext(x, w);
        }
        if let Some(r) = self.push2(a, b, &|c, x, y| c.ashr(x, y)) {
            return r;
        }
        self.mk(Op::AShr, w, a, b, 0, 0)
    }

    // ---------- structure ----------
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        debug_assert!(w >= wa);
        if wa == w {
            return a;
        }
        if let Some(v) = self.kv(a) {
            return self.k(v, w);
        }
        if self.tree(a) {
            return self.push1(a, &mut |c, v| c.k(v, w));
        }
        let n = *self.n(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Concat && self.kv(n.a) == Some(0) {
            return self.zext(n.b, w);
        }
        self.mk(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(v) = self.kv(a) {
            return self.k(sx(v, wa) as u128, w);
        }
        if self.tree(a) {
            return self.push1(a, &mut |c, v| c.k(sx(v, wa) as u128, w));
        }
        if wa == 1 {
            let o = self.k(mask(w), w);
            let z = self.k(0, w);
            return self.ite(a, o, z);
        }
        if wa <= 64 && self.info[a as usize].smin >= 0 {
            return self.zext(a, w);
        }
        let n = *self.n(a);
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.kv(h), self.kv(l)) {
            return self.k((x << wl) | y, w);
        }
        if self.kv(h) == Some(0) {
            return self.zext(l, w);
        }
        let (nh, nl) = (*self.n(h), *self.n(l));
        // adjacent extracts
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + wl as u128 {
            return self.extract(nh.a, nl.k as u16, w);
        }
        // low = whole prefix of something: concat(extract(x, wl..), extract/whole)
        if nh.op == Op::ZExt {
            let inner = self.concat(nh.a, l);
            return self.zext(inner, w);
        }
        if nl.op == Op::Concat {
            // right-nest: concat(h, concat(a,b)) -> concat(concat(h,a), b) so extracts merge
            let nla = *self.n(nl.a);
            if nh.op == Op::Extract && nla.op == Op::Extract && nh.a == nla.a && nh.k == nla.k + self.w(nl.a) as u128 {
                let x = self.concat(h, nl.a);
                return self.concat(x, nl.b);
            }
            if self.is_const(h) && self.is_const(nl.a) {
                let x = self.concat(h, nl.a);
                return self.concat(x, nl.b);
            }
        }
        if nl.op == Op::ZExt && self.is_const(h) {
            let z = self.k(0, wl - self.w(nl.a));
            let hh = self.concat(h, z);
            return self.concat(hh, nl.a);
        }
        if nh.op == Op::Concat && self.is_const(l) && self.is_const(nh.b) {
            let y = self.concat(nh.b, l);
            return self.concat(nh.a, y);
        }
        let (ch, cl) = (self.info[h as usize].ct, self.info[l as usize].ct);
        if ch > 0 && cl > 0 && ch.saturating_mul(cl) <= 36 {
            if let Some(r) = self.push2(h, l, &|c, x, y| c.concat(x, y)) {
                return r;
            }
        }
        self.mk(Op::Concat, w, h, l, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa && w > 0, "extract {} {} of {}", lo, w, wa);
        if lo == 0 && w == wa {
            return a;
        }
        if let Some(v) = self.kv(a) {
            return self.k(v >> lo, w);
        }
        if self.tree(a) {
            return self.push1(a, &mut |c, v| c.k(v >> lo, w));
        }
        let n = *self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, n.k as u16 + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let x = self.extract(n.a, 0, lo + w - wl);
                let y = self.extract(n.b, lo, wl - lo);
                return self.concat(x, y);
            }
            Op::ZExt => {
                let wl = self.w(n.a);
                if lo >= wl {
                    return self.k(0, w);
                }
                if lo + w <= wl {
                    return self.extract(n.a, lo, w);
                }
                let y = self.extract(n.a, lo, wl - lo);
                return self.zext(y, w);
            }
            Op::SExt => {
                let wl = self.w(n.a);
                if lo + w <= wl {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 && w > wl {
                    return self.sext(n.a, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Ite => {
                if let Some(&r) = self.xmemo.get(&(a, lo, w)) {
                    return r;
                }
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                let r = self.ite(n.a, x, y);
                self.xmemo.insert((a, lo, w), r);
                return r;
            }
            Op::Add | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return if n.op == Op::Add { self.add(x, y) } else { self.mul(x, y) };
            }
            _ => {}
        }
        if wa <= 64 {
            let s = self.sig(a);
            if lo >= s {
                return self.k(0, w);
            }
            if lo + w > s {
                let x = self.extract(a, lo, s - lo);
                return self.zext(x, w);
            }
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn trunc(&mut self, a: E, w: u16) -> E {
        self.extract(a, 0, w)
    }

    // ---------- comparisons ----------
    pub fn eq(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "eq width");
        if a == b {
            return self.t;
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        let (a, b) = if self.is_const(a) || (!self.is_const(b) && a > b) { (b, a) } else { (a, b) };
        if w <= 64 {
            let (x, y) = (self.info[a as usize], self.info[b as usize]);
            if x.umax < y.umin || y.umax < x.umin || x.smax < y.smin || y.smax < x.smin {
                return self.f;
            }
        }
        if let Some(kb) = self.kv(b) {
            if let Some(ka) = self.kv(a) {
                return self.b(ka == kb);
            }
            if self.info[a as usize].ct > 1 {
                let (t, f) = (self.t, self.f);
                return self.push1(a, &mut |_, v| if v == kb { t } else { f });
            }
            let na = *self.n(a);
            match na.op {
                Op::ZExt => {
                    let wl = self.w(na.a);
                    if kb > mask(wl) {
                        return self.f;
                    }
                    let k = self.k(kb, wl);
                    return self.eq(na.a, k);
                }
                Op::SExt => {
                    let wl = self.w(na.a);
                    let t = kb & mask(wl);
                    if (sx(t, wl) as u128) & mask(w) != kb {
                        return self.f;
                    }
                    let k = self.k(t, wl);
                    return self.eq(na.a, k);
                }
                Op::Concat => {
                    let wl = self.w(na.b);
                    let kh = self.k(kb >> wl, w - wl);
                    let kl = self.k(kb, wl);
                    let x = self.eq(na.a, kh);
                    if x == self.f {
                        return x;
                    }
                    let y = self.eq(na.b, kl);
                    return self.and(x, y);
                }
                Op::Add if self.is_const(na.b) => {
                    let k2 = self.n(na.b).k;
                    let k = self.k(kb.wrapping_sub(k2), w);
                    return self.eq(na.a, k);
                }
                Op::Xor if self.is_const(na.b) => {
                    let k2 = self.n(na.b).k;
                    let k = self.k(kb ^ k2, w);
                    return self.eq(na.a, k);
                }
                Op::Ite => {
                    // push if one branch decides
                    let (cx, cy) = (self.eq_decided(na.b, kb), self.eq_decided(na.c, kb));
                    if cx.is_some() || cy.is_some() || self.n(na.b).op == Op::Ite || self.n(na.c).op == Op::Ite {
                        if let Some(&r) = self.eqmemo.get(&(a, b)) {
                            return r;
                        }
                        let x = self.eq(na.b, b);
                        let y = self.eq(na.c, b);
                        let r = self.ite(na.a, x, y);
                        self.eqmemo.insert((a, b), r);
                        return r;
                    }
                }
                _ => {}
            }
            return self.mk(Op::Eq, 1, a, b, 0, 0);
        }
        if let Some(r) = self.push2(a, b, &|c, x, y| c.eq(x, y)) {
            return r;
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if (na.op == Op::ZExt || nb.op == Op::ZExt) && w <= 64 {
            let s = self.sig(a).max(self.sig(b)).max(1);
            if s < w {
                let x = self.extract(a, 0, s);
                let y = self.extract(b, 0, s);
                return self.eq(x, y);
            }
        }
        if matches!(na.op, Op::Add | Op::Mul) || matches!(nb.op, Op::Add | Op::Mul) {
            let mut t = vec![];
            let mut k = 0;
            self.lin(a, 1, &mut t, &mut k, 0);
            self.lin(b, u128::MAX, &mut t, &mut k, 0);
            let m = mask(w);
            t.retain(|x| x.1 & m != 0);
            if t.is_empty() {
                return self.b(k & m == 0);
            }
            if t.len() == 1 && (t[0].1 & m == 1 || t[0].1 & m == m) {
                let kk = if t[0].1 & m == 1 { 0u128.wrapping_sub(k) } else { k };
                let kk = self.k(kk, w);
                return self.eq(t[0].0, kk);
            }
            if t.len() == 2 && t.iter().any(|x| x.1 & m == 1) && t.iter().any(|x| x.1 & m == m) && k & m == 0 {
                let (x, y) = (t[0].0, t[1].0);
                if x != a && x != b || y != a && y != b {
                    return self.eq(x, y);
                }
            }
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            let x = self.eq(na.a, nb.a);
            let y = self.eq(na.b, nb.b);
            return self.and(x, y);
        }
        // eq(x, ite(c, x, y)) -> c | eq(x,y)
        for (x, n) in [(a, nb), (b, na)] {
            if n.op == Op::Ite {
                if n.b == x {
                    let r = self.eq(x, n.c);
                    return self.or(n.a, r);
                }
                if n.c == x {
                    let r = self.eq(x, n.b);
                    let nn = self.not(n.a);
                    return self.or(nn, r);
                }
            }
        }
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let x = self.eq(na.b, nb.b);
            let y = self.eq(na.c, nb.c);
            return self.ite(na.a, x, y);
        }
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    fn eq_decided(&self, a: E, k: u128) -> Option<bool> {
        if let Some(v) = self.kv(a) {
            return Some(v == k);
        }
        if self.w(a) <= 64 {
            let i = self.info[a as usize];
            if k < i.umin as u128 || k > i.umax as u128 {
                return Some(false);
            }
        }
        None
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.f;
        }
        if let (Some(x), Some(y)) = (self.kv(a), self.kv(b)) {
            return self.b(x < y);
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        if w <= 64 {
            let (x, y) = (self.info[a as usize], self.info[b as usize]);
            if x.umax < y.umin {
                return self.t;
            }
            if x.umin >= y.umax {
                return self.f;
            }
        }
        if self.kv(b) == Some(1) {
            let z = self.k(0, w);
            return self.eq(a, z);
        }
        if self.kv(a) == Some(0) {
            let e = self.eq(b, a);
            return self.not(e);
        }
        if let Some(r) = self.push2(a, b, &|c, x, y| c.ult(x, y)) {
            return r;
        }
        let s = self.sig(a).max(self.sig(b)).max(1);
        if s < w {
            let x = self.extract(a, 0, s);
            let y = self.extract(b, 0, s);
            return self.ult(x, y);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let x = self.ult(na.b, nb.b);
            let y = self.ult(na.c, nb.c);
            return self.ite(na.a, x, y);
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.f;
        }
        if let (Some(x), Some(y)) = (self.kv(a), self.kv(b)) {
            return self.b(sx(x, w) < sx(y, w));
        }
        if w == 1 {
            let n = self.not(b);
            return self.and(a, n);
        }
        if w <= 64 {
            let (x, y) = (self.info[a as usize], self.info[b as usize]);
            if x.smax < y.smin {
                return self.t;
            }
            if x.smin >= y.smax {
                return self.f;
            }
            if x.smin >= 0 && y.smin >= 0 {
                return self.ult(a, b);
            }
        }
        if let Some(r) = self.push2(a, b, &|c, x, y| c.slt(x, y)) {
            return r;
        }
        // narrow by signed interval
        if w <= 64 {
            let (x, y) = (self.info[a as usize], self.info[b as usize]);
            let lo = x.smin.min(y.smin);
            let hi = x.smax.max(y.smax);
            let need = (65 - (lo ^ (lo >> 63)).leading_zeros().min((hi ^ (hi >> 63)).leading_zeros())) as u16;
            if need < w {
                let p = self.extract(a, 0, need);
                let q = self.extract(b, 0, need);
                let r = self.mk(Op::Slt, 1, p, q, 0, 0);
                return r;
            }
        }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }

    /// over-approximate set of values (sorted) if small
    pub fn value_set(&mut self, e: E, lim: usize) -> Option<std::rc::Rc<Vec<u128>>> {
        if let Some(r) = self.vsmemo.get(&e) {
            return r.clone();
        }
        let n = *self.n(e);
        let w = n.w;
        let r: Option<Vec<u128>> = match n.op {
            Op::Const => Some(vec![n.k]),
            Op::Ite => {
                let x = self.value_set(n.b, lim);
                let y = self.value_set(n.c, lim);
                match (x, y) {
                    (Some(x), Some(y)) => {
                        let mut v: Vec<u128> = x.iter().chain(y.iter()).cloned().collect();
                        v.sort();
                        v.dedup();
                        Some(v)
                    }
                    _ => None,
                }
            }
            Op::Add | Op::Mul | Op::Concat | Op::And | Op::Or | Op::Xor | Op::URem | Op::UDiv => {
                let x = self.value_set(n.a, lim);
                let y = self.value_set(n.b, lim);
                match (x, y) {
                    (Some(x), Some(y)) if x.len() * y.len() <= lim * 4 => {
                        let wl = self.w(n.b);
                        let mut v = vec![];
                        for p in x.iter() {
                            for q in y.iter() {
                                v.push(
                                    match n.op {
                                        Op::Add => p.wrapping_add(*q),
                                        Op::Mul => p.wrapping_mul(*q),
                                        Op::And => p & q,
                                        Op::Or => p | q,
                                        Op::Xor => p ^ q,
                                        Op::UDiv | Op::URem => eval_div(n.op, *p, *q, w),
                                        _ => (p << wl) | q,
                                    } & mask(w),
                                )
                            }
                        }
                        v.sort();
                        v.dedup();
                        Some(v)
                    }
                    _ => None,
                }
            }
            Op::ZExt => self.value_set(n.a, lim).map(|v| v.to_vec()),
            Op::SExt => {
                let wa = self.w(n.a);
                self.value_set(n.a, lim).map(|v| {
                    let mut r: Vec<u128> = v.iter().map(|x| sx(*x, wa) as u128 & mask(w)).collect();
                    r.sort();
                    r
                })
            }
            Op::Extract => self.value_set(n.a, lim).map(|v| {
                let mut v: Vec<u128> = v.iter().map(|x| (x >> n.k) & mask(w)).collect();
                v.sort();
                v.dedup();
                v
            }),
            _ => {
                if w == 1 {
                    Some(vec![0, 1])
                } else if w <= 64 {
                    let i = self.info[e as usize];
                    let d = i.umax - i.umin;
                    if d < 32 {
                        Some((i.umin..=i.umax).map(|x| x as u128).collect())
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
        };
        let r = r.filter(|v| v.len() <= lim).map(std::rc::Rc::new);
        self.vsmemo.insert(e, r.clone());
        r
    }

    pub fn eval(&self, e: E, model: &[u128], memo: &mut Vec<Option<u128>>) -> u128 {
        if memo.len() < self.nodes.len() {
            memo.resize(self.nodes.len(), None);
        }
        if let Some(v) = memo[e as usize] {
            return v;
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo[x as usize].is_some() {
                stack.pop();
                continue;
            }
            let n = &self.nodes[x as usize];
            let arity = match n.op {
                Op::Const | Op::Var => 0,
                Op::Extract | Op::ZExt | Op::SExt => 1,
                Op::Ite => 3,
                _ => 2,
            };
            let mut ready = true;
            if n.op == Op::Ite {
                match memo[n.a as usize] {
                    None => {
                        stack.push(n.a);
                        ready = false
                    }
                    Some(c) => {
                        let t = if c != 0 { n.b } else { n.c };
                        if memo[t as usize].is_none() {
                            stack.push(t);
                            ready = false;
                        }
                    }
                }
            } else {
                if arity >= 1 && memo[n.a as usize].is_none() {
                    stack.push(n.a);
                    ready = false;
                }
                if arity >= 2 && memo[n.b as usize].is_none() {
                    stack.push(n.b);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let w = n.w;
            let g = |e: E| memo[e as usize].unwrap();
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => model.get(n.k as usize).cloned().unwrap_or(0) & mask(w),
                Op::Add => g(n.a).wrapping_add(g(n.b)) & mask(w),
                Op::Mul => g(n.a).wrapping_mul(g(n.b)) & mask(w),
                Op::UDiv | Op::URem | Op::SDiv | Op::SRem => eval_div(n.op, g(n.a), g(n.b), w),
                Op::Shl => {
                    let s = g(n.b);
                    if s >= w as u128 {
                        0
                    } else {
                        (g(n.a) << s) & mask(w)
                    }
                }
                Op::LShr => {
                    let s = g(n.b);
                    if s >= w as u128 {
                        0
                    } else {
                        g(n.a) >> s
                    }
                }
                Op::AShr => {
                    let s = g(n.b).min(w as u128 - 1);
                    (sx(g(n.a), w) >> s) as u128 & mask(w)
                }
                Op::And => g(n.a) & g(n.b),
                Op::Or => g(n.a) | g(n.b),
                Op::Xor => g(n.a) ^ g(n.b),
                Op::Eq => (g(n.a) == g(n.b)) as u128,
                Op::Ult => (g(n.a) < g(n.b)) as u128,
                Op::Slt => {
                    let wa = self.w(n.a);
                    (sx(g(n.a), wa) < sx(g(n.b), wa)) as u128
                }
                Op::Ite => {
                    if g(n.a) != 0 {
                        g(n.b)
                    } else {
                        g(n.c)
                    }
                }
                Op::Concat => (g(n.a) << self.w(n.b)) | g(n.b),
                Op::Extract => (g(n.a) >> n.k) & mask(w),
                Op::ZExt => g(n.a),
                Op::SExt => sx(g(n.a), self.w(n.a)) as u128 & mask(w),
            };
            memo[x as usize] = Some(v);
        }
        memo[e as usize].unwrap()
    }
}

pub fn eval_div(op: Op, x: u128, y: u128, w: u16) -> u128 {
    let r = match op {
        Op::UDiv => {
            if y == 0 {
                mask(w)
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                if a >= 0 {
                    mask(w)
                } else {
                    1
                }
            } else {
                a.wrapping_div(b) as u128
            }
        }
        Op::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128
            }
        }
        _ => unreachable!(),
    };
    r & mask(w)
}

/// Children of a node, for DAG walks.
pub fn kids(n: &Node) -> ([E; 3], usize) {
    match n.op {
        Op::Const | Op::Var => ([0; 3], 0),
        Op::Extract | Op::ZExt | Op::SExt => ([n.a, 0, 0], 1),
        Op::Ite => ([n.a, n.b, n.c], 3),
        _ => ([n.a, n.b, 0], 2),
    }
}
