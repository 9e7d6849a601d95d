//! Reference models: what norm documents it computes (the algorithms of fzf
//! it is a port of), written over plain `char` slices with concrete loop
//! bounds, no buffers that survive a call, no byte offsets, and no sharing
//! with norm's code.
use crate::latin::*;

/// A configuration of a metric.
#[derive(Clone, Copy)]
pub struct Cfg {
    /// 1 = FzfV1, 2 = FzfV2.
    pub metric: u64,
    /// 0 = sensitive, 1 = insensitive, 2 = smart.
    pub case: u64,
    /// Candidate normalization.
    pub norm: bool,
    /// 0 = default, 1 = path, 2 = history.
    pub scheme: u64,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Fuzzy,
    Exact,
    Prefix,
    Suffix,
    Equal,
}

// ---------------------------------------------------------------------------
// characters
// ---------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Class {
    White,
    NonWord,
    Delim,
    Lower,
    Upper,
    Letter,
    Number,
}

pub fn is_delimiter(scheme: u64, c: char) -> bool {
    if scheme == 1 {
        c == '/'
    } else {
        c == '/' || c == ',' || c == ':' || c == ';' || c == '|'
    }
}

pub fn class(scheme: u64, c: char) -> Class {
    if (c as u32) < 128 {
        let b = c as u32 as u8;
        if b >= b'a' && b <= b'z' {
            Class::Lower
        } else if b >= b'A' && b <= b'Z' {
            Class::Upper
        } else if b >= b'0' && b <= b'9' {
            Class::Number
        } else if b == b' ' || b == 9 || b == 10 || b == 12 || b == 13 {
            Class::White
        } else if is_delimiter(scheme, c) {
            Class::Delim
        } else {
            Class::NonWord
        }
    } else if c.is_lowercase() {
        Class::Lower
    } else if c.is_uppercase() {
        Class::Upper
    } else if c.is_numeric() {
        Class::Number
    } else if c.is_alphabetic() {
        Class::Letter
    } else if c.is_whitespace() {
        Class::White
    } else {
        Class::NonWord
    }
}

pub fn white_bonus(scheme: u64) -> i64 {
    if scheme == 0 {
        10
    } else {
        8
    }
}

pub fn delim_bonus(scheme: u64) -> i64 {
    if scheme == 2 {
        8
    } else {
        9
    }
}

/// The class that stands before the first character of a candidate.
pub fn initial_class(scheme: u64) -> Class {
    if scheme == 1 {
        Class::Delim
    } else {
        Class::White
    }
}

pub fn bonus(scheme: u64, prev: Class, cur: Class) -> i64 {
    match cur {
        Class::NonWord => 8,
        Class::White => white_bonus(scheme),
        _ => match prev {
            Class::White => white_bonus(scheme),
            Class::Delim => delim_bonus(scheme),
            Class::NonWord => 8,
            Class::Lower if cur == Class::Upper => 7,
            _ if cur == Class::Number && prev != Class::Number => 7,
            _ => 0,
        },
    }
}

/// The bonus of the `j`-th character of a candidate.
pub fn bonus_at(cfg: Cfg, cand: &[char], j: usize) -> i64 {
    let prev = if j == 0 {
        initial_class(cfg.scheme)
    } else {
        class(cfg.scheme, cand[j - 1])
    };
    bonus(cfg.scheme, prev, class(cfg.scheme, cand[j]))
}

fn ascii_lower(c: char) -> u32 {
    let c = c as u32;
    if c >= 'A' as u32 && c <= 'Z' as u32 {
        c + 32
    } else {
        c
    }
}

pub fn has_upper(text: &[char]) -> bool {
    let mut any = false;
    for &c in text {
        let up = if (c as u32) < 128 {
            c >= 'A' && c <= 'Z'
        } else {
            c.is_uppercase()
        };
        any |= up;
    }
    any
}

pub fn sensitive(cfg: Cfg, text: &[char]) -> bool {
    match cfg.case {
        0 => true,
        1 => false,
        _ => has_upper(text),
    }
}

/// Code points that normalization is about (three blocks with latin letters).
fn normalizable(c: char) -> bool {
    let c = c as u32;
    let mut any = false;
    for (a, b) in BLOCKS {
        any |= (c >= a) & (c <= b);
    }
    any
}

/// The base letter of a normalizable character.
fn base_letter(c: char) -> char {
    let u = c as u32;
    let mut base = b'.';
    if u >= BLOCKS[0].0 && u <= BLOCKS[0].1 {
        base = B0[(u - BLOCKS[0].0) as usize];
    } else if u >= BLOCKS[1].0 && u <= BLOCKS[1].1 {
        base = B1[(u - BLOCKS[1].0) as usize];
    } else if u >= BLOCKS[2].0 && u <= BLOCKS[2].1 {
        base = B2[(u - BLOCKS[2].0) as usize];
    }
    if base == b'.' {
        c
    } else {
        base as char
    }
}

/// Whether a query character matches a candidate character.
pub fn ceq(cfg: Cfg, sens: bool, q: char, c: char) -> bool {
    let c = if cfg.norm && !normalizable(q) { base_letter(c) } else { c };
    if sens {
        q == c
    } else {
        ascii_lower(q) == ascii_lower(c)
    }
}

// ---------------------------------------------------------------------------
// matching
// ---------------------------------------------------------------------------

/// The match matrix: `eq[i * n + j]` says whether pattern character `i`
/// matches candidate character `j`.
pub fn matrix(cfg: Cfg, sens: bool, pat: &[char], cand: &[char]) -> Vec<bool> {
    let mut v = Vec::with_capacity(pat.len() * cand.len());
    for &p in pat {
        for &c in cand {
            v.push(ceq(cfg, sens, p, c));
        }
    }
    v
}

pub fn subsequence(eq: &[bool], m: usize, n: usize) -> bool {
    // reach[i]: the first i pattern characters embed in what was read so far.
    let mut reach = vec![false; m + 1];
    reach[0] = true;
    for j in 0..n {
        let mut i = m;
        while i > 0 {
            reach[i] |= reach[i - 1] & eq[(i - 1) * n + j];
            i -= 1;
        }
    }
    reach[m]
}

fn occurs_at(eq: &[bool], m: usize, n: usize, s: usize) -> bool {
    let mut all = s + m <= n;
    if all {
        for i in 0..m {
            all &= eq[i * n + s + i];
        }
    }
    all
}

fn leading(c: &[char]) -> usize {
    let mut k = 0;
    let mut open = true;
    for &c in c {
        open &= c == ' ';
        k += open as usize;
    }
    k
}

fn trailing(c: &[char]) -> usize {
    let mut k = 0;
    let mut open = true;
    for &c in c.iter().rev() {
        open &= c == ' ';
        k += open as usize;
    }
    k
}

/// What a term does on a candidate: whether it matches, the score, and the
/// matched characters.
pub struct Outcome {
    pub matched: bool,
    pub score: i64,
    pub pos: Vec<bool>,
}

/// Score of the alignment that starts at `start`, ends before `end` and takes
/// characters greedily from the left (fzf's `calculateScore`).
pub fn alignment(
    cfg: Cfg,
    eq: &[bool],
    m: usize,
    cand: &[char],
    start: usize,
    end: usize,
) -> (i64, Vec<bool>) {
    let n = cand.len();
    let mut score = 0i64;
    let mut k = 0usize;
    let mut in_gap = false;
    let mut run = 0u32;
    let mut first_bonus = 0i64;
    let mut pos = vec![false; n];
    for j in 0..n {
        if j < start || j >= end || k >= m {
            continue;
        }
        if eq[k * n + j] {
            let mut b = bonus_at(cfg, cand, j);
            if run == 0 {
                first_bonus = b;
            } else {
                if b >= 8 && b > first_bonus {
                    first_bonus = b;
                }
                b = b.max(first_bonus).max(4);
            }
            score += 16 + if k == 0 { 2 * b } else { b };
            pos[j] = true;
            in_gap = false;
            run += 1;
            k += 1;
        } else {
            score -= if in_gap { 1 } else { 3 };
            in_gap = true;
            run = 0;
            first_bonus = 0;
        }
    }
    (score, pos)
}

/// fzf's `FuzzyMatchV1`: the first embedding found reading forwards, shrunk
/// from its end reading backwards.
pub fn fuzzy_v1(cfg: Cfg, eq: &[bool], m: usize, cand: &[char]) -> Outcome {
    let n = cand.len();
    let mut k = 0usize;
    let mut end = 0usize;
    for j in 0..n {
        if k < m && eq[k * n + j] {
            k += 1;
            if k == m {
                end = j + 1;
            }
        }
    }
    if k < m {
        return Outcome { matched: false, score: 0, pos: vec![false; n] };
    }
    let mut r = m;
    let mut start = 0usize;
    for j in (0..n).rev() {
        if j < end && r > 0 && eq[(r - 1) * n + j] {
            r -= 1;
            if r == 0 {
                start = j;
            }
        }
    }
    let (score, pos) = alignment(cfg, eq, m, cand, start, end);
    Outcome { matched: true, score, pos }
}

/// fzf's `FuzzyMatchV2` (scores only; the matched characters are checked
/// against the score instead of against one fixed traceback).
///
/// A single pattern character picks its best-scoring occurrence.
pub fn fuzzy_v2(cfg: Cfg, eq: &[bool], m: usize, cand: &[char]) -> (bool, i64) {
    let t = tables_v2(cfg, eq, m, cand);
    (t.matched, t.best)
}

/// The score and run-length matrices.
pub struct TablesV2 {
    pub matched: bool,
    pub best: i64,
    pub score: Vec<i64>,
    pub run: Vec<usize>,
    pub open: Vec<bool>,
}

fn tables_v2(cfg: Cfg, eq: &[bool], m: usize, cand: &[char]) -> TablesV2 {
    let n = cand.len();
    // first[i]: the candidate positions before which row i cannot match.
    // open[i * n + j]: j is at or after the first greedy occurrence of i.
    let mut open = vec![false; m * n];
    let mut prev = vec![true; n];
    for i in 0..m {
        let mut found_before = false;
        let mut found_after = vec![false; n];
        for j in 0..n {
            let here = prev[j] & eq[i * n + j];
            let now = found_before | here;
            open[i * n + j] = now;
            found_after[j] = found_before;
            found_before = now;
        }
        if !found_before {
            return TablesV2 { matched: false, best: 0, score: Vec::new(), run: Vec::new(), open };
        }
        prev = found_after;
    }
    // The last column: the last occurrence of the last pattern character.
    let mut up = vec![0i64; n];
    let mut up_run = vec![0usize; n];
    let mut best = 0i64;
    let mut score = Vec::with_capacity(m * n);
    let mut runs = Vec::with_capacity(m * n);
    for i in 0..m {
        let mut row = vec![0i64; n];
        let mut row_run = vec![0usize; n];
        let mut in_gap = false;
        for j in 0..n {
            let live = open[i * n + j];
            // Left of the first occurrence nothing is scored.
            let left = if j > 0 && open[i * n + j - 1] { row[j - 1] } else { 0 };
            let s2 = left - if in_gap { 1 } else { 3 };
            if !live {
                continue;
            }
            if i == 0 {
                if eq[j] {
                    row[j] = 16 + 2 * bonus_at(cfg, cand, j);
                    row_run[j] = 1;
                    in_gap = false;
                } else {
                    row[j] = s2.max(0);
                    in_gap = true;
                }
            } else {
                let mut s1 = 0i64;
                let mut run = 0usize;
                if eq[i * n + j] && j > 0 {
                    let b0 = bonus_at(cfg, cand, j);
                    let mut b = b0;
                    s1 = up[j - 1] + 16;
                    run = up_run[j - 1] + 1;
                    if run > 1 {
                        let fb = bonus_at(cfg, cand, j + 1 - run);
                        if b >= 8 && b > fb {
                            run = 1;
                        } else {
                            b = b.max(4).max(fb);
                        }
                    }
                    if s1 + b < s2 {
                        s1 += b0;
                        run = 0;
                    } else {
                        s1 += b;
                    }
                }
                row_run[j] = run;
                in_gap = s1 < s2;
                row[j] = s1.max(s2).max(0);
            }
            if i + 1 == m && row[j] > best {
                best = row[j];
            }
        }
        score.extend_from_slice(&row);
        runs.extend_from_slice(&row_run);
        up = row;
        up_run = row_run;
    }
    TablesV2 { matched: true, best, score, run: runs, open }
}

/// The characters fzf's v2 takes: from the first of the best cells of the last
/// row backwards, staying in a run where the scores leave the choice.
pub fn fuzzy_v2_taken(cfg: Cfg, eq: &[bool], m: usize, cand: &[char]) -> Vec<bool> {
    let n = cand.len();
    let t = tables_v2(cfg, eq, m, cand);
    let mut pos = vec![false; n];
    if !t.matched {
        return pos;
    }
    if m == 1 {
        // The first one with the highest score.
        let mut best = 0;
        let mut at = 0;
        for j in 0..n {
            let s = 16 + 2 * bonus_at(cfg, cand, j);
            if eq[j] && s > best {
                best = s;
                at = j;
            }
        }
        for j in 0..n {
            pos[j] = j == at;
        }
        return pos;
    }
    let mut last = n;
    for j in (0..n).rev() {
        if t.score[(m - 1) * n + j] == t.best {
            last = j;
        }
    }
    // The row we are in: `m` before the last column, 0 when done.
    let mut left = m;
    let mut prefer = true;
    for j in (0..n).rev() {
        let on = j <= last;
        let mut next = left;
        let mut next_prefer = prefer;
        for i in 0..m {
            let at = i * n + j;
            let s = t.score[at];
            let s1 = if i > 0 && j > 0 && t.open[at] { t.score[at - n - 1] } else { 0 };
            let s2 = if j > 0 && t.open[at - 1] { t.score[at - 1] } else { 0 };
            let take = (s > s1) & ((s > s2) | ((s == s2) & prefer));
            let here = on & (left == i + 1);
            pos[j] |= here & take;
            if here & take {
                next = i;
            }
            let joins = t.run[at] > 1 || (i + 1 < m && j + 1 < n && t.run[at + n + 1] > 0);
            if here {
                next_prefer = joins;
            }
        }
        left = next;
        prefer = next_prefer;
    }
    pos
}

/// The occurrence an exact term reports: the first one whose first character
/// has at least a boundary bonus, else the first of those with the highest.
fn exact_start(cfg: Cfg, eq: &[bool], m: usize, cand: &[char]) -> Option<usize> {
    let n = cand.len();
    let mut best: i64 = -1;
    let mut at = 0usize;
    let mut done = false;
    for s in 0..n {
        if s + m > n {
            break;
        }
        let hit = occurs_at(eq, m, n, s);
        if hit && !done {
            let b = bonus_at(cfg, cand, s);
            if b > best {
                best = b;
                at = s;
            }
            done |= b >= 8;
        }
    }
    if best >= 0 {
        Some(at)
    } else {
        None
    }
}

/// The characters an anchored/exact term occupies, if it matches.
pub fn placed(
    cfg: Cfg,
    eq: &[bool],
    pat: &[char],
    cand: &[char],
    kind: Kind,
) -> Option<usize> {
    let m = pat.len();
    let n = cand.len();
    match kind {
        Kind::Exact => exact_start(cfg, eq, m, cand),
        Kind::Prefix => {
            let (pl, cl) = (leading(pat), leading(cand));
            if pl > cl {
                return None;
            }
            // Spaces the pattern does not spell out are skipped.
            let s = cl - pl;
            let mut ok = false;
            for t in 0..n {
                ok |= t == s && occurs_at(eq, m, n, t);
            }
            if ok {
                Some(s)
            } else {
                None
            }
        },
        Kind::Suffix => {
            let (pt, ct) = (trailing(pat), trailing(cand));
            if pt > ct {
                return None;
            }
            let e = n - (ct - pt);
            let mut ok = false;
            for t in 0..n {
                ok |= t + m == e && occurs_at(eq, m, n, t);
            }
            if ok {
                Some(e - m)
            } else {
                None
            }
        },
        Kind::Equal => {
            let (pl, cl) = (leading(pat), leading(cand));
            let (pt, ct) = (trailing(pat), trailing(cand));
            if pl > cl || pt > ct || cl == n {
                return None;
            }
            let (s, e) = (cl - pl, n - (ct - pt));
            let mut ok = false;
            for t in 0..n {
                ok |= t == s && t + m == e && occurs_at(eq, m, n, t);
            }
            if ok {
                Some(s)
            } else {
                None
            }
        },
        Kind::Fuzzy => None,
    }
}

/// The outcome of a (non-fuzzy) term, before negation.
pub fn placed_outcome(
    cfg: Cfg,
    sens: bool,
    pat: &[char],
    cand: &[char],
    kind: Kind,
) -> Outcome {
    let n = cand.len();
    let m = pat.len();
    let eq = matrix(cfg, sens, pat, cand);
    let mut out = Outcome { matched: false, score: 0, pos: vec![false; n] };
    let at = placed(cfg, &eq, pat, cand, kind);
    // `start` only takes the values 0..n: make each of them concrete.
    for s in 0..n {
        if at == Some(s) {
            out.matched = true;
            let (score, _) = alignment(cfg, &eq, m, cand, s, s + m);
            out.score = score;
        }
        for j in 0..n {
            out.pos[j] |= at == Some(s) && j >= s && j < s + m;
        }
    }
    out
}

/// The outcome of a fuzzy term, before negation (no positions for `FzfV2`).
pub fn fuzzy_outcome(cfg: Cfg, sens: bool, pat: &[char], cand: &[char]) -> Outcome {
    let n = cand.len();
    let m = pat.len();
    let eq = matrix(cfg, sens, pat, cand);
    if cfg.metric == 1 {
        fuzzy_v1(cfg, &eq, m, cand)
    } else if m == 1 {
        let mut best = 0;
        for j in 0..n {
            if eq[j] {
                best = best.max(16 + 2 * bonus_at(cfg, cand, j));
            }
        }
        Outcome { matched: best > 0, score: best, pos: vec![] }
    } else {
        let (matched, score) = fuzzy_v2(cfg, &eq, m, cand);
        Outcome { matched, score, pos: vec![] }
    }
}

// ---------------------------------------------------------------------------
// query grammar
// ---------------------------------------------------------------------------

#[derive(Clone)]
pub struct Term {
    pub text: Vec<char>,
    pub kind: Kind,
    pub inverse: bool,
}

/// Splits a query into words at the spaces that are not escaped.
pub fn words(query: &[char]) -> Vec<Vec<char>> {
    let mut out: Vec<Vec<char>> = Vec::new();
    let mut cur: Vec<char> = Vec::new();
    let mut inside = false;
    let mut i = 0;
    while i < query.len() {
        let c = query[i];
        if c == ' ' {
            if inside {
                out.push(core::mem::take(&mut cur));
            }
            inside = false;
        } else if c == '\\' && i + 1 < query.len() && query[i + 1] == ' ' {
            cur.push(' ');
            inside = true;
            i += 1;
        } else {
            cur.push(c);
            inside = true;
        }
        i += 1;
    }
    if inside {
        out.push(cur);
    }
    out
}

/// Parses one word; `None` if nothing is left to search for.
pub fn term(word: &[char]) -> Option<Term> {
    let mut w = word;
    let mut inverse = false;
    let mut kind = Kind::Fuzzy;
    if !w.is_empty() && w[0] == '!' {
        inverse = true;
        kind = Kind::Exact;
        w = &w[1..];
    }
    if w.len() > 1 && w[w.len() - 1] == '$' {
        kind = Kind::Suffix;
        w = &w[..w.len() - 1];
    }
    if !w.is_empty() && w[0] == '\'' {
        kind = if inverse { Kind::Fuzzy } else { Kind::Exact };
        w = &w[1..];
    } else if !w.is_empty() && w[0] == '^' {
        kind = if kind == Kind::Suffix { Kind::Equal } else { Kind::Prefix };
        w = &w[1..];
    }
    if w.is_empty() {
        return None;
    }
    Some(Term { text: w.to_vec(), kind, inverse })
}

/// The conditions of a query: a conjunction of disjunctions of terms.
pub fn conditions(query: &[char]) -> Vec<Vec<Term>> {
    let mut out: Vec<Vec<Term>> = Vec::new();
    let mut or = false;
    for w in words(query) {
        if w.len() == 1 && w[0] == '|' {
            or = true;
            continue;
        }
        if let Some(t) = term(&w) {
            if or && !out.is_empty() {
                let last = out.len() - 1;
                out[last].push(t);
            } else {
                out.push(vec![t]);
            }
            or = false;
        }
    }
    out
}

/// The outcome of one term, negation included.
pub fn term_outcome(cfg: Cfg, t: &Term, cand: &[char]) -> (bool, i64) {
    let sens = sensitive(cfg, &t.text);
    let o = if t.kind == Kind::Fuzzy {
        fuzzy_outcome(cfg, sens, &t.text, cand)
    } else {
        placed_outcome(cfg, sens, &t.text, cand, t.kind)
    };
    if t.inverse {
        (!o.matched, 0)
    } else {
        (o.matched, o.score)
    }
}

/// The outcome of a whole query.
pub fn query_outcome(cfg: Cfg, query: &[char], cand: &[char]) -> (bool, i64) {
    let mut all = true;
    let mut total = 0;
    for cond in conditions(query) {
        let mut any = false;
        let mut score = 0;
        for t in &cond {
            let (m, s) = term_outcome(cfg, t, cand);
            if m && !any {
                any = true;
                score = s;
            }
        }
        all &= any;
        total += score;
    }
    (all, total)
}
