//! Liveness and loop-nest ordering of a function's control-flow graph.
use crate::ir::*;

pub fn succs(t: &Term) -> Vec<u32> {
    match t {
        Term::Br(b) => vec![*b],
        Term::CondBr(_, a, b) => vec![*a, *b],
        Term::Switch(_, _, d, c) => {
            let mut v: Vec<u32> = c.iter().map(|x| x.1).collect();
            v.push(*d);
            v
        }
        Term::Invoke(_, b) => vec![*b],
        _ => vec![],
    }
}

fn uses_o(o: &Opd, f: &mut dyn FnMut(u32)) {
    match o {
        Opd::Reg(r) => f(*r),
        Opd::Agg(v) => v.iter().for_each(|x| uses_o(x, f)),
        _ => {}
    }
}
fn uses_call(c: &CallI, f: &mut dyn FnMut(u32)) {
    if let Callee::Indirect(o) = &c.callee {
        uses_o(o, f)
    }
    for (_, a) in &c.args {
        uses_o(a, f)
    }
}
pub fn uses_i(i: &Inst, f: &mut dyn FnMut(u32)) {
    match i {
        Inst::Bin { a, b, .. } | Inst::ICmp { a, b, .. } | Inst::Shuffle { a, b, .. } => {
            uses_o(a, f);
            uses_o(b, f)
        }
        Inst::Select { c, a, b, .. } => {
            uses_o(c, f);
            uses_o(a, f);
            uses_o(b, f)
        }
        Inst::Cast { a, .. } | Inst::ExtractValue { a, .. } | Inst::Freeze { a, .. } => uses_o(a, f),
        Inst::Gep { base, terms, .. } => {
            uses_o(base, f);
            for t in terms {
                uses_o(&t.1, f)
            }
        }
        Inst::Load { p, .. } => uses_o(p, f),
        Inst::Store { v, p, .. } => {
            uses_o(v, f);
            uses_o(p, f)
        }
        Inst::Alloca { n, .. } => {
            if let Some((_, o)) = n {
                uses_o(o, f)
            }
        }
        Inst::Call(c) => uses_call(c, f),
        Inst::InsertValue { a, v, .. } => {
            uses_o(a, f);
            uses_o(v, f)
        }
        Inst::ExtractElem { a, i, .. } => {
            uses_o(a, f);
            uses_o(i, f)
        }
        Inst::InsertElem { a, v, i, .. } => {
            uses_o(a, f);
            uses_o(v, f);
            uses_o(i, f)
        }
        Inst::CmpXchg { p, cmp, new, .. } => {
            uses_o(p, f);
            uses_o(cmp, f);
            uses_o(new, f)
        }
        Inst::AtomicRmw { p, v, .. } => {
            uses_o(p, f);
            uses_o(v, f)
        }
        Inst::Nop | Inst::Unsupported(_) => {}
    }
}
fn def_i(i: &Inst) -> Option<u32> {
    match i {
        Inst::Bin { dst, .. }
        | Inst::ICmp { dst, .. }
        | Inst::Select { dst, .. }
        | Inst::Cast { dst, .. }
        | Inst::Gep { dst, .. }
        | Inst::Load { dst, .. }
        | Inst::Alloca { dst, .. }
        | Inst::ExtractValue { dst, .. }
        | Inst::InsertValue { dst, .. }
        | Inst::Freeze { dst, .. }
        | Inst::ExtractElem { dst, .. }
        | Inst::InsertElem { dst, .. }
        | Inst::Shuffle { dst, .. }
        | Inst::CmpXchg { dst, .. }
        | Inst::AtomicRmw { dst, .. } => Some(*dst),
        Inst::Call(c) => c.dst,
        _ => None,
    }
}

pub fn analyze(f: &mut Func) {
    let n = f.blocks.len();
    let nr = f.nregs as usize;
    let words = (nr + 63) / 64;
    let mut gen = vec![vec![0u64; words]; n];
    let mut kill = vec![vec![0u64; words]; n];
    for (bi, b) in f.blocks.iter().enumerate() {
        let mut k = vec![0u64; words];
        let mut g = vec![0u64; words];
        for (d, _, _) in &b.phis {
            k[*d as usize / 64] |= 1 << (d % 64);
        }
        let mut u = |r: u32, k: &Vec<u64>, g: &mut Vec<u64>| {
            if k[r as usize / 64] >> (r % 64) & 1 == 0 {
                g[r as usize / 64] |= 1 << (r % 64);
            }
        };
        for i in &b.insts {
            uses_i(i, &mut |r| u(r, &k, &mut g));
            if let Some(d) = def_i(i) {
                k[d as usize / 64] |= 1 << (d % 64);
            }
        }
        match &b.term {
            Term::CondBr(o, _, _) | Term::Switch(_, o, _, _) | Term::Ret(Some(o)) => uses_o(o, &mut |r| u(r, &k, &mut g)),
            Term::Invoke(c, _) => {
                uses_call(c, &mut |r| u(r, &k, &mut g));
                if let Some(d) = c.dst {
                    k[d as usize / 64] |= 1 << (d % 64);
                }
            }
            _ => {}
        }
        gen[bi] = g;
        kill[bi] = k;
    }
    // livein (not counting phi operands of this block; phi defs of the block are live "after phis")
    let mut lin = gen.clone();
    let sc: Vec<Vec<u32>> = f.blocks.iter().map(|b| succs(&b.term)).collect();
    let mut changed = true;
    while changed {
        changed = false;
        for bi in (0..n).rev() {
            let mut out = vec![0u64; words];
            for &s in &sc[bi] {
                for w in 0..words {
                    out[w] |= lin[s as usize][w];
                }
                for (_, _, v) in &f.blocks[s as usize].phis {
                    for (p, o) in v {
                        if *p == bi as u32 {
                            uses_o(o, &mut |r| out[r as usize / 64] |= 1 << (r % 64));
                        }
                    }
                }
            }
            for w in 0..words {
                let x = gen[bi][w] | (out[w] & !kill[bi][w]);
                if x & !lin[bi][w] != 0 {
                    lin[bi][w] |= x;
                    changed = true;
                }
            }
        }
    }
    for bi in 0..n {
        let mut v: Vec<u32> = (0..nr as u32).filter(|r| lin[bi][*r as usize / 64] >> (r % 64) & 1 == 1).collect();
        for (d, _, _) in &f.blocks[bi].phis {
            if !v.contains(d) {
                v.push(*d);
            }
        }
        f.blocks[bi].livein = v;
    }
    // loop nest
    let all: Vec<u32> = (0..n as u32).collect();
    let mut nloops = 0;
    let mut pos = vec![vec![]; n];
    let mut loops = vec![vec![]; n];
    let mut hdr = vec![vec![]; n];
    nest(&all, 0, &sc, &std::collections::HashSet::new(), &mut nloops, &mut pos, &mut loops, &mut hdr, n);
    for bi in 0..n {
        f.blocks[bi].pos = pos[bi].clone();
        f.blocks[bi].loops = loops[bi].clone();
        f.blocks[bi].header_of = hdr[bi].clone();
    }
}

/// Order the sub-graph `set`; edges into `cut` headers are ignored.
fn nest(
    set: &[u32],
    entry: u32,
    sc: &[Vec<u32>],
    cut: &std::collections::HashSet<u32>,
    nloops: &mut u32,
    pos: &mut Vec<Vec<u32>>,
    loops: &mut Vec<Vec<u32>>,
    hdr: &mut Vec<Vec<u32>>,
    n: usize,
) {
    let inset: std::collections::HashSet<u32> = set.iter().cloned().collect();
    // Tarjan (iterative)
    let mut idx = vec![u32::MAX; n];
    let mut low = vec![0u32; n];
    let mut onst = vec![false; n];
    let mut st: Vec<u32> = vec![];
    let mut sccs: Vec<Vec<u32>> = vec![];
    let mut cnt = 0;
    let mut order: Vec<u32> = vec![entry];
    order.extend(set.iter().cloned().filter(|x| *x != entry));
    for &root in &order {
        if idx[root as usize] != u32::MAX || !inset.contains(&root) {
            continue;
        }
        let mut call: Vec<(u32, usize)> = vec![(root, 0)];
        idx[root as usize] = cnt;
        low[root as usize] = cnt;
        cnt += 1;
        st.push(root);
        onst[root as usize] = true;
        while let Some(&mut (v, ref mut i)) = call.last_mut() {
            if *i < sc[v as usize].len() {
                let w = sc[v as usize][*i];
                *i += 1;
                if !inset.contains(&w) || cut.contains(&w) {
                    continue;
                }
                if idx[w as usize] == u32::MAX {
                    idx[w as usize] = cnt;
                    low[w as usize] = cnt;
                    cnt += 1;
                    st.push(w);
                    onst[w as usize] = true;
                    call.push((w, 0));
                } else if onst[w as usize] {
                    low[v as usize] = low[v as usize].min(idx[w as usize]);
                }
            } else {
                call.pop();
                if let Some(&mut (u, _)) = call.last_mut() {
                    low[u as usize] = low[u as usize].min(low[v as usize]);
                }
                if low[v as usize] == idx[v as usize] {
                    let mut c = vec![];
                    loop {
                        let w = st.pop().unwrap();
                        onst[w as usize] = false;
                        c.push(w);
                        if w == v {
                            break;
                        }
                    }
                    sccs.push(c);
                }
            }
        }
    }
    // sccs come out in reverse topological order
    sccs.reverse();
    for (p, c) in sccs.iter().enumerate() {
        for &b in c {
            pos[b as usize].push(p as u32);
        }
        let selfloop = c.len() == 1 && sc[c[0] as usize].contains(&c[0]) && !cut.contains(&c[0]);
        if c.len() > 1 || selfloop {
            let cs: std::collections::HashSet<u32> = c.iter().cloned().collect();
            // header: block with an incoming edge from outside (or the entry)
            let mut h = None;
            if cs.contains(&entry) {
                h = Some(entry);
            }
            if h.is_none() {
                'o: for b in 0..n as u32 {
                    if cs.contains(&b) {
                        continue;
                    }
                    for s in &sc[b as usize] {
                        if cs.contains(s) {
                            h = Some(*s);
                            break 'o;
                        }
                    }
                }
            }
            let h = h.unwrap_or(c[0]);
            let id = *nloops;
            *nloops += 1;
            for &b in c {
                loops[b as usize].push(id);
            }
            hdr[h as usize].push(id);
            let mut cut2 = cut.clone();
            cut2.insert(h);
            nest(c, h, sc, &cut2, nloops, pos, loops, hdr, n);
        }
    }
}
