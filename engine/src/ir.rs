//! Parser for the subset of textual LLVM IR that rustc's LTO output uses.
//! Functions are parsed lazily, on first call.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u16),
    Ptr,
    Void,
    Struct(Arc<Vec<Ty>>, bool),
    Array(u64, Arc<Ty>),
    Vector(u64, Arc<Ty>),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Void | Ty::Other => 0,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut ma = 1;
                for t in f.iter() {
                    if !*packed {
                        let a = t.align();
                        ma = ma.max(a);
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                (o + ma - 1) / ma * ma
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => (n * t.bits() + 7) / 8,
        }
    }
    /// number of bytes a load or store of this type touches
    pub fn ssize(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Ptr => 64,
            Ty::Vector(n, t) => n * t.bits(),
            _ => self.size() * 8,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Void | Ty::Other => 1,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two(),
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => (i * t.size(), (**t).clone()),
            _ => panic!("field_off of scalar"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    Int(u128, u16),
    Undef(Ty),
    Agg(Vec<Opd>),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub ret: Ty,
    pub callee: Callee,
    pub args: Vec<(Ty, Opd)>,
    pub noreturn: bool,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Named(String),
    Indirect(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { dst: u32, op: &'static str, ty: Ty, a: Opd, b: Opd },
    ICmp { dst: u32, pred: &'static str, ty: Ty, a: Opd, b: Opd },
    Select { dst: u32, c: Opd, a: Opd, b: Opd },
    Cast { dst: u32, kind: &'static str, from: Ty, a: Opd, to: Ty },
    Gep { dst: u32, base: Opd, off: i64, terms: Vec<(Ty, Opd, i64)> },
    Load { dst: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Alloca { dst: u32, size: u64, n: Option<(Ty, Opd)> },
    Call(CallI),
    ExtractValue { dst: u32, a: Opd, path: Vec<u64> },
    InsertValue { dst: u32, ty: Ty, a: Opd, v: Opd, path: Vec<u64> },
    Freeze { dst: u32, a: Opd },
    ExtractElem { dst: u32, a: Opd, i: Opd },
    InsertElem { dst: u32, ty: Ty, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, ty: Ty, a: Opd, b: Opd, mask: Vec<Option<u64>> },
    Nop,
    CmpXchg { dst: u32, ty: Ty, p: Opd, cmp: Opd, new: Opd },
    AtomicRmw { dst: u32, op: String, ty: Ty, p: Opd, v: Opd },
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Term {
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Invoke(CallI, u32),
    Resume,
}

#[derive(Debug, Clone)]
pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
    pub term: Term,
    pub livein: Vec<u32>,
    /// loop nest: list of (topological position, is this path element a loop)
    pub pos: Vec<u32>,
    /// loop ids from outermost to innermost
    pub loops: Vec<u32>,
    /// loop id for which this block is the header
    pub header_of: Vec<u32>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(Ty, u32)>,
    pub nregs: u32,
    pub ret: Ty,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub ty: Ty,
    pub init: Option<(usize, usize)>,
    pub constant: bool,
}

pub struct Module {
    pub text: String,
    pub fns: HashMap<String, (usize, usize)>, // byte range of define..}
    pub decls: HashMap<String, bool>,         // name -> noreturn
    pub noret_def: HashMap<String, bool>,
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    pub faddr: HashMap<String, u64>,
    pub addrf: HashMap<u64, String>,
    pub noreturn_groups: std::collections::HashSet<String>,
    parsed: Mutex<HashMap<String, Arc<Func>>>,
}

pub const FN_BASE: u64 = 0x7000_0000_0000_0000;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tok<'a> {
    Word(&'a str),
    Local(&'a str),
    Global(&'a str),
    Int(&'a str),
    CStr(&'a str),
    Str(&'a str),
    P(char),
    Meta,
    Attr(&'a str),
    NL,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    t: &'a str,
    i: usize,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    fn new(t: &'a str) -> Self {
        Lex { s: t.as_bytes(), t, i: 0 }
    }
    fn name(&mut self) -> &'a str {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            &self.t[st..j]
        } else {
            let st = self.i;
            while self.i < self.s.len() && idch(self.s[self.i]) {
                self.i += 1;
            }
            &self.t[st..self.i]
        }
    }
    fn next(&mut self) -> Tok<'a> {
        loop {
            if self.i >= self.s.len() {
                return Tok::Eof;
            }
            let c = self.s[self.i];
            match c {
                b' ' | b'\t' | b'\r' => self.i += 1,
                b'\n' => {
                    self.i += 1;
                    return Tok::NL;
                }
                b';' => {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1;
                    }
                }
                b'%' => {
                    self.i += 1;
                    return Tok::Local(self.name());
                }
                b'@' => {
                    self.i += 1;
                    return Tok::Global(self.name());
                }
                b'!' => {
                    self.i += 1;
                    if self.i < self.s.len() && (idch(self.s[self.i])) {
                        self.name();
                    }
                    return Tok::Meta;
                }
                b'#' => {
                    self.i += 1;
                    return Tok::Attr(self.name());
                }
                b'"' => return Tok::Str(self.name()),
                b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                    self.i += 1;
                    return Tok::CStr(self.name());
                }
                b'-' | b'0'..=b'9' => {
                    let st = self.i;
                    self.i += 1;
                    while self.i < self.s.len() && (idch(self.s[self.i]) || self.s[self.i] == b'+') {
                        self.i += 1;
                    }
                    return Tok::Int(&self.t[st..self.i]);
                }
                _ if idch(c) => return Tok::Word(self.name()),
                _ => {
                    self.i += 1;
                    return Tok::P(c as char);
                }
            }
        }
    }
    fn peek(&mut self) -> Tok<'a> {
        let i = self.i;
        let t = self.next();
        self.i = i;
        t
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        let t = self.next();
        if t != Tok::P(c) {
            panic!("expected {:?} got {:?} at ...{}", c, t, self.ctx());
        }
    }
    fn ctx(&self) -> String {
        let a = self.i.saturating_sub(80);
        let b = (self.i + 40).min(self.s.len());
        String::from_utf8_lossy(&self.s[a..b]).to_string()
    }
    fn skip_line(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'\n' {
            self.i += 1;
        }
    }
    fn skip_parens(&mut self) {
        // assumes '(' already consumed
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

fn intern_op(s: &str) -> &'static str {
    for x in [
        "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "trunc", "zext", "sext", "ptrtoint", "inttoptr",
        "bitcast", "ptrtoaddr", "eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge", "addrspacecast",
    ] {
        if x == s {
            return x;
        }
    }
    "?"
}

const TYWORDS: &[&str] = &["ptr", "void", "float", "double", "half", "label", "metadata", "token", "x86_fp80", "fp128", "bfloat"];

fn is_int_ty(w: &str) -> bool {
    w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit())
}

impl Module {
    pub fn load(text: String) -> Module {
        let mut m = Module {
            text: String::new(),
            fns: HashMap::new(),
            decls: HashMap::new(),
            noret_def: HashMap::new(),
            types: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            faddr: HashMap::new(),
            addrf: HashMap::new(),
            noreturn_groups: Default::default(),
            parsed: Mutex::new(HashMap::new()),
        };
        // attribute groups first (they are at the end of the file)
        for l in text.lines() {
            if let Some(r) = l.strip_prefix("attributes #") {
                let id = r.split(' ').next().unwrap();
                if l.contains(" noreturn") {
                    m.noreturn_groups.insert(id.to_string());
                }
            }
        }
        // named types
        for l in text.lines() {
            if l.starts_with('%') && l.contains(" = type ") {
                let mut lx = Lex::new(l);
                if let Tok::Local(n) = lx.next() {
                    lx.next();
                    lx.next();
                    let t = m.ty(&mut lx);
                    m.types.insert(n.to_string(), t);
                }
            }
        }
        let bytes = text.as_bytes();
        let mut off = 0;
        let mut nfn = 0u64;
        let mut gl = vec![];
        while off < bytes.len() {
            let end = text[off..].find('\n').map(|x| off + x).unwrap_or(bytes.len());
            let l = &text[off..end];
            if l.starts_with("define ") {
                let e = text[off..].find("\n}\n").map(|x| off + x + 2).unwrap_or(bytes.len());
                let (name, noret) = m.header(l);
                m.fns.insert(name.clone(), (off, e));
                m.noret_def.insert(name.clone(), noret);
                let a = FN_BASE + nfn * 16;
                nfn += 1;
                m.faddr.insert(name.clone(), a);
                m.addrf.insert(a, name);
                off = e + 1;
                continue;
            } else if l.starts_with("declare ") {
                let (name, noret) = m.header(l);
                m.decls.insert(name.clone(), noret);
                let a = FN_BASE + nfn * 16;
                nfn += 1;
                m.faddr.insert(name.clone(), a);
                m.addrf.insert(a, name);
            } else if l.starts_with('@') {
                gl.push((off, end));
            }
            off = end + 1;
        }
        for (s, e) in gl {
            let mut lx = Lex::new(&text[s..e]);
            let name = match lx.next() {
                Tok::Global(n) => n.to_string(),
                _ => continue,
            };
            lx.expect('=');
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            // skip linkage words until global/constant
            loop {
                match lx.peek() {
                    Tok::Word("constant") => {
                        lx.next();
                        constant = true;
                        break;
                    }
                    Tok::Word("global") => {
                        lx.next();
                        break;
                    }
                    Tok::Word("alias") => {
                        alias = true;
                        break;
                    }
                    Tok::Word("external") | Tok::Word("extern_weak") => {
                        lx.next();
                        external = true;
                    }
                    Tok::P('(') => {
                        lx.next();
                        lx.skip_parens();
                    }
                    Tok::Eof => break,
                    _ => {
                        lx.next();
                    }
                }
            }
            if alias {
                // alias to function: @a = ... alias ty, ptr @f
                lx.next();
                let mut last = None;
                loop {
                    match lx.next() {
                        Tok::Global(g) => last = Some(g.to_string()),
                        Tok::Eof => break,
                        _ => {}
                    }
                }
                if let Some(g) = last {
                    if let Some(r) = m.fns.get(&g).cloned() {
                        m.fns.insert(name.clone(), r);
                        let a = m.faddr[&g];
                        m.faddr.insert(name, a);
                    }
                }
                continue;
            }
            let ty = m.ty(&mut lx);
            let init = if external { None } else { Some((s + lx.i, e)) };
            let idx = m.globals.len();
            let size = ty.size();
            m.globals.push(Global { name: name.clone(), addr: ((idx as u64) + 1) << 32, size, ty, init, constant });
            m.gidx.insert(name, idx);
        }
        m.text = text;
        m
    }

    fn header(&self, l: &str) -> (String, bool) {
        let mut lx = Lex::new(l);
        let name;
        loop {
            match lx.next() {
                Tok::Global(n) => {
                    name = n.to_string();
                    break;
                }
                Tok::Eof => panic!("no name in {}", l),
                _ => {}
            }
        }
        let mut noret = false;
        loop {
            match lx.next() {
                Tok::Attr(g) => {
                    if self.noreturn_groups.contains(g) {
                        noret = true
                    }
                }
                Tok::Word("noreturn") => noret = true,
                Tok::Eof => break,
                _ => {}
            }
        }
        (name, noret)
    }

    fn ty(&self, lx: &mut Lex) -> Ty {
        let t = match lx.next() {
            Tok::Word(w) if is_int_ty(w) => Ty::Int(w[1..].parse().unwrap()),
            Tok::Word("ptr") => {
                if lx.peek() == Tok::Word("addrspace") {
                    lx.next();
                    lx.expect('(');
                    lx.skip_parens();
                }
                Ty::Ptr
            }
            Tok::Word("void") => Ty::Void,
            Tok::Word(_) => Ty::Other,
            Tok::Local(n) => self.types.get(n).cloned().unwrap_or_else(|| panic!("type %{}", n)),
            Tok::P('{') => {
                let f = self.tylist(lx, '}');
                Ty::Struct(Arc::new(f), false)
            }
            Tok::P('<') => {
                if lx.peek() == Tok::P('{') {
                    lx.next();
                    let f = self.tylist(lx, '}');
                    lx.expect('>');
                    Ty::Struct(Arc::new(f), true)
                } else {
                    let n = self.int(lx);
                    lx.next(); // x
                    let t = self.ty(lx);
                    lx.expect('>');
                    Ty::Vector(n, Arc::new(t))
                }
            }
            Tok::P('[') => {
                let n = self.int(lx);
                lx.next();
                let t = self.ty(lx);
                lx.expect(']');
                Ty::Array(n, Arc::new(t))
            }
            t => panic!("bad type {:?} at {}", t, lx.ctx()),
        };
        t
    }
    fn tylist(&self, lx: &mut Lex, end: char) -> Vec<Ty> {
        let mut f = vec![];
        if lx.eat(end) {
            return f;
        }
        loop {
            f.push(self.ty(lx));
            if lx.eat(end) {
                return f;
            }
            lx.expect(',');
        }
    }
    fn int(&self, lx: &mut Lex) -> u64 {
        match lx.next() {
            Tok::Int(s) => s.parse::<i128>().unwrap() as u64,
            t => panic!("int expected {:?} {}", t, lx.ctx()),
        }
    }
    fn starts_type(t: Tok) -> bool {
        match t {
            Tok::Word(w) => is_int_ty(w) || TYWORDS.contains(&w),
            Tok::Local(_) => true,
            Tok::P('{') | Tok::P('<') | Tok::P('[') => true,
            _ => false,
        }
    }
    fn skip_attrs(&self, lx: &mut Lex) {
        loop {
            match lx.peek() {
                Tok::Word(w) if is_int_ty(w) || TYWORDS.contains(&w) => return,
                Tok::Word(w)
                    if [
                        "true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "ptrtoint", "inttoptr", "trunc", "sub", "add", "xor", "asm",
                        "bitcast", "none", "ptrtoaddr",
                    ]
                    .contains(&w) =>
                {
                    return
                }
                Tok::Word("align") => {
                    lx.next();
                    if lx.eat('(') {
                        lx.skip_parens();
                    } else {
                        lx.next();
                    }
                }
                Tok::Word(_) => {
                    lx.next();
                    if lx.peek() == Tok::P('(') {
                        lx.next();
                        lx.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    lx.next();
                    if lx.eat('=') {
                        lx.next();
                    }
                }
                Tok::Attr(_) => {
                    lx.next();
                }
                _ => return,
            }
        }
    }
    pub fn symaddr(&self, n: &str) -> u64 {
        if let Some(&i) = self.gidx.get(n) {
            return self.globals[i].addr;
        }
        if let Some(&a) = self.faddr.get(n) {
            return a;
        }
        panic!("unknown symbol @{}", n)
    }

    /// operand of a known type
    fn opd(&self, lx: &mut Lex, ty: &Ty, regs: &mut dyn FnMut(&str) -> u32) -> Opd {
        let w = match ty {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        };
        match lx.next() {
            Tok::Local(n) => Opd::Reg(regs(n)),
            Tok::Global(n) => Opd::Int(self.symaddr(n) as u128, 64),
            Tok::Int(s) => {
                if w == 0 {
                    return Opd::Undef(ty.clone());
                }
                let v = if let Ok(v) = s.parse::<i128>() { v as u128 } else { s.parse::<u128>().unwrap_or_else(|_| panic!("int {}", s)) };
                Opd::Int(v & crate::expr::mask(w), w)
            }
            Tok::Word("true") => Opd::Int(1, 1),
            Tok::Word("false") => Opd::Int(0, 1),
            Tok::Word("null") => Opd::Int(0, 64),
            Tok::Word("none") => Opd::Undef(Ty::Other),
            Tok::Word("undef") | Tok::Word("poison") => Opd::Undef(ty.clone()),
            Tok::Word("zeroinitializer") => self.zero(ty),
            Tok::Word("splat") => {
                lx.expect('(');
                let t = self.ty(lx);
                let v = self.opd(lx, &t, regs);
                lx.expect(')');
                match ty {
                    Ty::Vector(n, _) => Opd::Agg(vec![v; *n as usize]),
                    _ => panic!("splat"),
                }
            }
            Tok::CStr(s) => {
                let b = cstr(s);
                Opd::Agg(b.into_iter().map(|x| Opd::Int(x as u128, 8)).collect())
            }
            Tok::P('{') => self.agg(lx, '}', regs),
            Tok::P('[') => self.agg(lx, ']', regs),
            Tok::P('<') => {
                if lx.eat('{') {
                    let a = self.agg(lx, '}', regs);
                    lx.expect('>');
                    a
                } else {
                    self.agg(lx, '>', regs)
                }
            }
            Tok::Word("getelementptr") => {
                self.skip_gep_flags(lx);
                lx.expect('(');
                let t = self.ty(lx);
                lx.expect(',');
                let (b, off, terms) = self.gep_rest(lx, &t, regs);
                lx.expect(')');
                assert!(terms.is_empty());
                match b {
                    Opd::Int(v, _) => Opd::Int((v as u64).wrapping_add(off as u64) as u128, 64),
                    _ => panic!("const gep base"),
                }
            }
            Tok::Word(c @ ("ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "ptrtoaddr")) => {
                let _ = c;
                lx.expect('(');
                let t = self.ty(lx);
                let v = self.opd(lx, &t, regs);
                lx.next(); // to
                let to = self.ty(lx);
                lx.expect(')');
                match (v, to) {
                    (Opd::Int(v, _), Ty::Int(w)) => Opd::Int(v & crate::expr::mask(w), w),
                    (Opd::Int(v, _), _) => Opd::Int(v, 64),
                    (v, _) => v,
                }
            }
            Tok::Word(c @ ("sub" | "add" | "xor" | "mul")) => {
                self.skip_attrs_simple(lx);
                lx.expect('(');
                let t = self.ty(lx);
                let a = self.opd(lx, &t, regs);
                lx.expect(',');
                let t2 = self.ty(lx);
                let b = self.opd(lx, &t2, regs);
                lx.expect(')');
                match (a, b) {
                    (Opd::Int(x, w), Opd::Int(y, _)) => Opd::Int(
                        match c {
                            "sub" => x.wrapping_sub(y),
                            "add" => x.wrapping_add(y),
                            "mul" => x.wrapping_mul(y),
                            _ => x ^ y,
                        } & crate::expr::mask(w),
                        w,
                    ),
                    _ => panic!("const expr"),
                }
            }
            t => panic!("operand {:?} at {}", t, lx.ctx()),
        }
    }
    fn skip_attrs_simple(&self, lx: &mut Lex) {
        while let Tok::Word(_) = lx.peek() {
            lx.next();
        }
    }
    fn skip_gep_flags(&self, lx: &mut Lex) {
        loop {
            match lx.peek() {
                Tok::Word("inbounds") | Tok::Word("nuw") | Tok::Word("nusw") => {
                    lx.next();
                }
                Tok::Word("inrange") => {
                    lx.next();
                    lx.expect('(');
                    lx.skip_parens();
                }
                _ => return,
            }
        }
    }
    fn zero(&self, ty: &Ty) -> Opd {
        match ty {
            Ty::Int(w) => Opd::Int(0, *w),
            Ty::Ptr => Opd::Int(0, 64),
            Ty::Struct(f, _) => Opd::Agg(f.iter().map(|t| self.zero(t)).collect()),
            Ty::Array(n, t) | Ty::Vector(n, t) => Opd::Agg((0..*n).map(|_| self.zero(t)).collect()),
            _ => Opd::Undef(ty.clone()),
        }
    }
    fn agg(&self, lx: &mut Lex, end: char, regs: &mut dyn FnMut(&str) -> u32) -> Opd {
        let mut v = vec![];
        if lx.eat(end) {
            return Opd::Agg(v);
        }
        loop {
            let t = self.ty(lx);
            v.push(self.opd(lx, &t, regs));
            if lx.eat(end) {
                return Opd::Agg(v);
            }
            lx.expect(',');
        }
    }
    fn gep_rest(&self, lx: &mut Lex, t: &Ty, regs: &mut dyn FnMut(&str) -> u32) -> (Opd, i64, Vec<(Ty, Opd, i64)>) {
        let pt = self.ty(lx);
        let base = self.opd(lx, &pt, regs);
        let mut off = 0i64;
        let mut terms = vec![];
        let mut cur = t.clone();
        let mut first = true;
        while lx.peek() == Tok::P(',') {
            lx.next();
            if let Tok::Meta = lx.peek() {
                break;
            }
            let it = self.ty(lx);
            let i = self.opd(lx, &it, regs);
            if first {
                first = false;
                let sz = cur.size() as i64;
                match i {
                    Opd::Int(v, w) => off = off.wrapping_add(sext64(v, w).wrapping_mul(sz)),
                    o => terms.push((it, o, sz)),
                }
            } else {
                match i {
                    Opd::Int(v, w) => {
                        let iv = sext64(v, w);
                        match &cur {
                            Ty::Struct(..) => {
                                let (o, t2) = cur.field_off(iv as u64);
                                off = off.wrapping_add(o as i64);
                                cur = t2;
                            }
                            Ty::Array(_, t2) | Ty::Vector(_, t2) => {
                                off = off.wrapping_add(iv.wrapping_mul(t2.size() as i64));
                                let t3 = (**t2).clone();
                                cur = t3;
                            }
                            _ => panic!("gep into scalar"),
                        }
                    }
                    o => {
                        let t2 = match &cur {
                            Ty::Array(_, t2) | Ty::Vector(_, t2) => (**t2).clone(),
                            _ => panic!("var gep into struct"),
                        };
                        terms.push((it, o, t2.size() as i64));
                        cur = t2;
                    }
                }
            }
        }
        (base, off, terms)
    }

    pub fn init_bytes(&self, i: usize) -> Vec<u8> {
        let g = &self.globals[i];
        let mut out = vec![0u8; g.size as usize];
        if let Some((s, e)) = g.init {
            let mut lx = Lex::new(&self.text[s..e]);
            let o = self.opd(&mut lx, &g.ty, &mut |_| panic!("reg in init"));
            flatten(&o, &g.ty, 0, &mut out);
        }
        out
    }

    pub fn func(&self, name: &str) -> Option<Arc<Func>> {
        if let Some(f) = self.parsed.lock().unwrap().get(name) {
            return Some(f.clone());
        }
        let &(s, e) = self.fns.get(name)?;
        let f = Arc::new(self.parse_fn(name, &self.text[s..e]));
        self.parsed.lock().unwrap().insert(name.to_string(), f.clone());
        Some(f)
    }

    fn parse_fn(&self, name: &str, text: &str) -> Func {
        let mut lx = Lex::new(text);
        lx.next(); // define
        // skip linkage / cc / ret attrs until a type directly before @name
        loop {
            if Self::starts_type(lx.peek()) {
                break;
            }
            let t = lx.next();
            if let Tok::Word(_) = t {
                if lx.peek() == Tok::P('(') {
                    lx.next();
                    lx.skip_parens();
                } else if t == Tok::Word("align") {
                    lx.next();
                }
            }
        }
        let ret = self.ty(&mut lx);
        match lx.next() {
            Tok::Global(_) => {}
            t => panic!("fn name {:?} {}", t, lx.ctx()),
        }
        let mut rmap: HashMap<String, u32> = HashMap::new();
        let mut nregs = 0u32;
        let mut params = vec![];
        lx.expect('(');
        if !lx.eat(')') {
            loop {
                if lx.peek() == Tok::P('.') {
                    lx.next();
                }
                let t = self.ty(&mut lx);
                self.skip_attrs(&mut lx);
                let id = nregs;
                nregs += 1;
                match lx.peek() {
                    Tok::Local(n) => {
                        rmap.insert(n.to_string(), id);
                        lx.next();
                    }
                    _ => {
                        rmap.insert(format!("{}", id), id);
                    }
                }
                params.push((t, id));
                if lx.eat(')') {
                    break;
                }
                lx.expect(',');
            }
        }
        lx.skip_line();
        lx.next(); // NL
        // collect block labels first
        let body = &text[lx.i..];
        let mut bmap: HashMap<String, u32> = HashMap::new();
        let mut nb = 0u32;
        let mut first = true;
        for l in body.lines() {
            if l.is_empty() || l == "}" {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let lab = if let Some(r) = l.strip_prefix('"') { r.split('"').next().unwrap() } else { l.split(':').next().unwrap() };
                bmap.insert(lab.to_string(), nb);
                nb += 1;
                first = false;
            } else if first {
                // implicit entry label: number of params (unnamed)
                bmap.insert(format!("{}", params.len()), nb);
                nb += 1;
                first = false;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        let mk = || Block { phis: vec![], insts: vec![], term: Term::Unreachable, livein: vec![], pos: vec![], loops: vec![], header_of: vec![] };
        let mut cur: Option<Block> = None;
        {
            let mut regs = |n: &str| -> u32 {
                if let Some(&r) = rmap.get(n) {
                    return r;
                }
                let r = nregs;
                nregs += 1;
                rmap.insert(n.to_string(), r);
                r
            };
            let mut lx = Lex::new(body);
            loop {
                // at line start
                let c = if lx.i < lx.s.len() { lx.s[lx.i] } else { 0 };
                if c == 0 || c == b'}' {
                    break;
                }
                if c == b'\n' {
                    lx.i += 1;
                    continue;
                }
                if c != b' ' {
                    // label line
                    if let Some(b) = cur.take() {
                        blocks.push(b);
                    }
                    cur = Some(mk());
                    lx.skip_line();
                    lx.next();
                    continue;
                }
                if cur.is_none() {
                    cur = Some(mk());
                }
                let b = cur.as_mut().unwrap();
                self.inst(&mut lx, b, &bmap, &mut regs);
                lx.skip_line();
                if lx.i < lx.s.len() {
                    lx.i += 1;
                }
            }
            if let Some(b) = cur.take() {
                blocks.push(b);
            }
        }
        assert_eq!(blocks.len() as u32, nb, "blocks in {}", name);
        let mut f = Func { name: name.to_string(), params, nregs, ret, blocks };
        crate::cfg::analyze(&mut f);
        f
    }

    fn label(&self, lx: &mut Lex, bmap: &HashMap<String, u32>) -> u32 {
        match lx.next() {
            Tok::Word("label") => {}
            t => panic!("label {:?} {}", t, lx.ctx()),
        }
        match lx.next() {
            Tok::Local(n) => bmap[n],
            t => panic!("label {:?}", t),
        }
    }

    fn inst(&self, lx: &mut Lex, b: &mut Block, bmap: &HashMap<String, u32>, regs: &mut dyn FnMut(&str) -> u32) {
        let mut dst = None;
        let mut t = lx.next();
        if let Tok::Local(n) = t {
            dst = Some(regs(n));
            lx.expect('=');
            t = lx.next();
        }
        let op = match t {
            Tok::Word(w) => w,
            t => panic!("inst {:?} {}", t, lx.ctx()),
        };
        let d = dst.unwrap_or(0);
        let start = lx.i;
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while let Tok::Word("nuw" | "nsw" | "exact" | "disjoint") = lx.peek() {
                    lx.next();
                }
                let ty = self.ty(lx);
                let x = self.opd(lx, &ty, regs);
                lx.expect(',');
                let y = self.opd(lx, &ty, regs);
                b.insts.push(Inst::Bin { dst: d, op: intern_op(op), ty, a: x, b: y });
            }
            "icmp" => {
                let mut p = lx.next();
                if p == Tok::Word("samesign") {
                    p = lx.next();
                }
                let pred = match p {
                    Tok::Word(w) => intern_op(w),
                    _ => panic!(),
                };
                let ty = self.ty(lx);
                let x = self.opd(lx, &ty, regs);
                lx.expect(',');
                let y = self.opd(lx, &ty, regs);
                b.insts.push(Inst::ICmp { dst: d, pred, ty, a: x, b: y });
            }
            "select" => {
                let tc = self.ty(lx);
                let c = self.opd(lx, &tc, regs);
                lx.expect(',');
                let ty = self.ty(lx);
                let x = self.opd(lx, &ty, regs);
                lx.expect(',');
                let ty2 = self.ty(lx);
                let y = self.opd(lx, &ty2, regs);
                b.insts.push(Inst::Select { dst: d, c, a: x, b: y });
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                while let Tok::Word("nuw" | "nsw" | "nneg") = lx.peek() {
                    lx.next();
                }
                let from = self.ty(lx);
                let a = self.opd(lx, &from, regs);
                lx.next(); // to
                let to = self.ty(lx);
                b.insts.push(Inst::Cast { dst: d, kind: intern_op(op), from, a, to });
            }
            "getelementptr" => {
                self.skip_gep_flags(lx);
                let t = self.ty(lx);
                lx.expect(',');
                let (base, off, terms) = self.gep_rest(lx, &t, regs);
                b.insts.push(Inst::Gep { dst: d, base, off, terms });
            }
            "load" => {
                while let Tok::Word("volatile" | "atomic") = lx.peek() {
                    lx.next();
                }
                let ty = self.ty(lx);
                lx.expect(',');
                let pt = self.ty(lx);
                let p = self.opd(lx, &pt, regs);
                b.insts.push(Inst::Load { dst: d, ty, p });
            }
            "store" => {
                while let Tok::Word("volatile" | "atomic") = lx.peek() {
                    lx.next();
                }
                let ty = self.ty(lx);
                let v = self.opd(lx, &ty, regs);
                lx.expect(',');
                let pt = self.ty(lx);
                let p = self.opd(lx, &pt, regs);
                b.insts.push(Inst::Store { ty, v, p });
            }
            "alloca" => {
                let ty = self.ty(lx);
                let mut n = None;
                if lx.eat(',') {
                    if let Tok::Word(w) = lx.peek() {
                        if is_int_ty(w) {
                            let t = self.ty(lx);
                            let v = self.opd(lx, &t, regs);
                            n = Some((t, v));
                        }
                    }
                }
                b.insts.push(Inst::Alloca { dst: d, size: ty.size(), n });
            }
            "phi" => {
                let ty = self.ty(lx);
                let mut v = vec![];
                loop {
                    lx.expect('[');
                    let o = self.opd(lx, &ty, regs);
                    lx.expect(',');
                    let lb = match lx.next() {
                        Tok::Local(n) => bmap[n],
                        t => panic!("phi label {:?}", t),
                    };
                    lx.expect(']');
                    v.push((lb, o));
                    if lx.peek() == Tok::P(',') {
                        let sv = lx.i;
                        lx.next();
                        if lx.peek() != Tok::P('[') {
                            lx.i = sv;
                            break;
                        }
                    } else {
                        break;
                    }
                }
                b.phis.push((d, ty, v));
            }
            "call" | "tail" | "musttail" | "notail" => {
                if op != "call" {
                    lx.next();
                }
                let c = self.call(lx, dst, regs);
                b.insts.push(Inst::Call(c));
            }
            "invoke" => {
                let c = self.call(lx, dst, regs);
                // to label %x unwind label %y (on the next line)
                loop {
                    match lx.next() {
                        Tok::Word("to") => break,
                        Tok::Eof => panic!("invoke"),
                        _ => {}
                    }
                }
                let n = self.label(lx, bmap);
                b.term = Term::Invoke(c, n);
            }
            "landingpad" => {
                // skip clause lines
                lx.skip_line();
                loop {
                    let sv = lx.i;
                    lx.next();
                    match lx.peek() {
                        Tok::Word("cleanup") | Tok::Word("catch") | Tok::Word("filter") => lx.skip_line(),
                        _ => {
                            lx.i = sv;
                            break;
                        }
                    }
                }
                b.insts.push(Inst::Unsupported("landingpad".into()));
            }
            "resume" => b.term = Term::Resume,
            "br" => {
                if lx.peek() == Tok::Word("label") {
                    b.term = Term::Br(self.label(lx, bmap));
                } else {
                    let t = self.ty(lx);
                    let c = self.opd(lx, &t, regs);
                    lx.expect(',');
                    let x = self.label(lx, bmap);
                    lx.expect(',');
                    let y = self.label(lx, bmap);
                    b.term = Term::CondBr(c, x, y);
                }
            }
            "switch" => {
                let ty = self.ty(lx);
                let v = self.opd(lx, &ty, regs);
                lx.expect(',');
                let dflt = self.label(lx, bmap);
                lx.expect('[');
                let mut cs = vec![];
                loop {
                    match lx.peek() {
                        Tok::NL => {
                            lx.next();
                        }
                        Tok::P(']') => {
                            lx.next();
                            break;
                        }
                        _ => {
                            let t = self.ty(lx);
                            let k = match self.opd(lx, &t, regs) {
                                Opd::Int(k, _) => k,
                                _ => panic!("switch case"),
                            };
                            lx.expect(',');
                            cs.push((k, self.label(lx, bmap)));
                        }
                    }
                }
                b.term = Term::Switch(ty, v, dflt, cs);
            }
            "ret" => {
                let t = self.ty(lx);
                b.term = Term::Ret(if t == Ty::Void { None } else { Some(self.opd(lx, &t, regs)) });
            }
            "unreachable" => b.term = Term::Unreachable,
            "extractvalue" => {
                let t = self.ty(lx);
                let a = self.opd(lx, &t, regs);
                let mut path = vec![];
                while lx.eat(',') {
                    if let Tok::Int(_) = lx.peek() {
                        path.push(self.int(lx));
                    } else {
                        break;
                    }
                }
                b.insts.push(Inst::ExtractValue { dst: d, a, path });
            }
            "insertvalue" => {
                let ty = self.ty(lx);
                let a = self.opd(lx, &ty, regs);
                lx.expect(',');
                let t2 = self.ty(lx);
                let v = self.opd(lx, &t2, regs);
                let mut path = vec![];
                while lx.eat(',') {
                    if let Tok::Int(_) = lx.peek() {
                        path.push(self.int(lx));
                    } else {
                        break;
                    }
                }
                b.insts.push(Inst::InsertValue { dst: d, ty, a, v, path });
            }
            "freeze" => {
                let t = self.ty(lx);
                let a = self.opd(lx, &t, regs);
                b.insts.push(Inst::Freeze { dst: d, a });
            }
            "extractelement" => {
                let t = self.ty(lx);
                let a = self.opd(lx, &t, regs);
                lx.expect(',');
                let t2 = self.ty(lx);
                let i = self.opd(lx, &t2, regs);
                b.insts.push(Inst::ExtractElem { dst: d, a, i });
            }
            "insertelement" => {
                let ty = self.ty(lx);
                let a = self.opd(lx, &ty, regs);
                lx.expect(',');
                let t2 = self.ty(lx);
                let v = self.opd(lx, &t2, regs);
                lx.expect(',');
                let t3 = self.ty(lx);
                let i = self.opd(lx, &t3, regs);
                b.insts.push(Inst::InsertElem { dst: d, ty, a, v, i });
            }
            "shufflevector" => {
                let ty = self.ty(lx);
                let a = self.opd(lx, &ty, regs);
                lx.expect(',');
                let t2 = self.ty(lx);
                let bb = self.opd(lx, &t2, regs);
                lx.expect(',');
                let t3 = self.ty(lx);
                let m = self.opd(lx, &t3, regs);
                let n = match &t3 {
                    Ty::Vector(n, _) => *n,
                    _ => 0,
                };
                let mask = match m {
                    Opd::Agg(v) => v
                        .iter()
                        .map(|o| match o {
                            Opd::Int(k, _) => Some(*k as u64),
                            _ => None,
                        })
                        .collect(),
                    _ => vec![None; n as usize],
                };
                b.insts.push(Inst::Shuffle { dst: d, ty, a, b: bb, mask });
            }
            "fence" => b.insts.push(Inst::Nop),
            "cmpxchg" => {
                while let Tok::Word("volatile" | "weak") = lx.peek() {
                    lx.next();
                }
                let pt = self.ty(lx);
                let p = self.opd(lx, &pt, regs);
                lx.expect(',');
                let ty = self.ty(lx);
                let cmp = self.opd(lx, &ty, regs);
                lx.expect(',');
                let t2 = self.ty(lx);
                let new = self.opd(lx, &t2, regs);
                b.insts.push(Inst::CmpXchg { dst: d, ty, p, cmp, new });
            }
            "atomicrmw" => {
                while let Tok::Word("volatile") = lx.peek() {
                    lx.next();
                }
                let o = match lx.next() {
                    Tok::Word(w) => w.to_string(),
                    _ => panic!(),
                };
                let pt = self.ty(lx);
                let p = self.opd(lx, &pt, regs);
                lx.expect(',');
                let ty = self.ty(lx);
                let v = self.opd(lx, &ty, regs);
                b.insts.push(Inst::AtomicRmw { dst: d, op: o, ty, p, v });
            }
            _ => {
                let e = lx.t[start..].find('\n').map(|x| start + x).unwrap_or(lx.t.len());
                b.insts.push(Inst::Unsupported(format!("{} {}", op, &lx.t[start..e])));
            }
        }
    }

    fn call(&self, lx: &mut Lex, dst: Option<u32>, regs: &mut dyn FnMut(&str) -> u32) -> CallI {
        // skip fast-math / cc / ret attrs
        loop {
            if Self::starts_type(lx.peek()) {
                break;
            }
            let t = lx.next();
            if t == Tok::Word("align") {
                lx.next();
            } else if let Tok::Word(_) = t {
                if lx.peek() == Tok::P('(') {
                    lx.next();
                    lx.skip_parens();
                }
            }
        }
        let ret = self.ty(lx);
        if lx.peek() == Tok::P('(') {
            lx.next();
            lx.skip_parens();
        }
        let callee = match lx.next() {
            Tok::Global(n) => Callee::Named(n.to_string()),
            Tok::Local(n) => Callee::Indirect(Opd::Reg(regs(n))),
            Tok::Word("asm") => {
                while lx.peek() != Tok::P('(') {
                    lx.next();
                }
                Callee::Asm
            }
            t => panic!("callee {:?} {}", t, lx.ctx()),
        };
        lx.expect('(');
        let mut args = vec![];
        if !lx.eat(')') {
            loop {
                let t = self.ty(lx);
                if let Ty::Other = t {
                    // metadata argument or float: skip to , or )
                    let mut d = 0;
                    loop {
                        match lx.peek() {
                            Tok::P('(') => {
                                d += 1;
                                lx.next();
                            }
                            Tok::P(')') if d == 0 => break,
                            Tok::P(')') => {
                                d -= 1;
                                lx.next();
                            }
                            Tok::P(',') if d == 0 => break,
                            _ => {
                                lx.next();
                            }
                        }
                    }
                    args.push((t.clone(), Opd::Undef(t)));
                } else {
                    self.skip_attrs(lx);
                    let o = self.opd(lx, &t, regs);
                    args.push((t, o));
                }
                if lx.eat(')') {
                    break;
                }
                lx.expect(',');
            }
        }
        let mut noreturn = false;
        loop {
            match lx.peek() {
                Tok::Attr(g) => {
                    if self.noreturn_groups.contains(g) {
                        noreturn = true;
                    }
                    lx.next();
                }
                Tok::Word("noreturn") => {
                    noreturn = true;
                    lx.next();
                }
                Tok::Word("to") | Tok::NL | Tok::Eof => break,
                Tok::P('[') => {
                    // operand bundle
                    let mut d = 0;
                    loop {
                        match lx.next() {
                            Tok::P('[') => d += 1,
                            Tok::P(']') => {
                                d -= 1;
                                if d == 0 {
                                    break;
                                }
                            }
                            Tok::Eof => break,
                            _ => {}
                        }
                    }
                }
                _ => {
                    lx.next();
                }
            }
        }
        CallI { dst, ret, callee, args, noreturn }
    }
}

pub fn sext64(v: u128, w: u16) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        (((v as u64) << (64 - w)) as i64) >> (64 - w)
    }
}

fn cstr(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn flatten(o: &Opd, ty: &Ty, off: usize, out: &mut [u8]) {
    match o {
        Opd::Int(v, _) => {
            let n = ty.size() as usize;
            for i in 0..n.min(16) {
                out[off + i] = (v >> (8 * i)) as u8;
            }
        }
        Opd::Agg(v) => {
            for (i, x) in v.iter().enumerate() {
                let (fo, ft) = ty.field_off(i as u64);
                flatten(x, &ft, off + fo as usize, out);
            }
        }
        _ => {}
    }
}
