//! The harnesses: one per property (family), over symbolic inputs.
use crate::spec::*;
use crate::sym::*;
use crate::util::*;
use core::ops::Range;

fn query_text(m: u64, raw: bool) -> Text {
    let mut q = Text::new();
    if raw {
        q.push_any_ascii(Q, m as usize);
    } else {
        q.push_plain(Q, m as usize);
    }
    q
}

/// Case split on which pattern character matches which candidate character
/// (if the candidate is a match at all): the positions become concrete, the
/// characters stay symbolic.
fn split_matches(cfg: Cfg, pat: &[char], cand: &[char]) {
    let (m, n) = (pat.len(), cand.len());
    let sens = sensitive(cfg, pat);
    let eq = matrix(cfg, sens, pat, cand);
    let any = subsequence(&eq, m, n);
    for i in 0..m {
        let mut v = 0u64;
        for j in 0..n {
            v = v << 1 | eq[i * n + j] as u64;
        }
        split(if any { v } else { 0 });
    }
}

/// A buffer that already holds `k` arbitrary ranges.
fn prefilled(id: u64, k: u64) -> Vec<Range<usize>> {
    let mut v = Vec::with_capacity(8);
    for i in 0..k {
        v.push(u(id + 2 * i, 6) as usize..u(id + 2 * i + 1, 6) as usize);
    }
    v
}

fn same_prefix(old: &[Range<usize>], new: &[Range<usize>]) -> bool {
    if new.len() < old.len() {
        return false;
    }
    let mut same = true;
    for i in 0..old.len() {
        same &= (old[i].start == new[i].start) & (old[i].end == new[i].end);
    }
    same
}

/// The ranges buffer: what was in it stays, what is appended on a match is the
/// same whatever was in it and well formed, and a non-match appends nothing.
fn buffer_contract(
    metric: &mut AnyMetric,
    query: norm::fzf::FzfQuery<'_>,
    c: &Text,
    prior: u64,
    what: u64,
) -> (Option<i64>, Vec<bool>) {
    let old = prefilled(X + 100, prior);
    let mut r = old.clone();
    let d = metric.ranges(query, c.str(), &mut r);
    observe(2, show(d));
    if what & 2 != 0 {
        check(same_prefix(&old, &r), 20);
    }
    let mut pos = Vec::new();
    if d.is_some() {
        reach(3);
        if what & (4 | 8) != 0 {
            let (ok, p) = coverage(c, &r[old.len()..]);
            if what & 4 != 0 {
                check(ok, 21);
            }
            pos = p;
        }
    } else {
        reach(4);
        if what & 1 != 0 {
            check(r.len() == old.len() && same_prefix(&old, &r), 22);
        }
    }
    (d, pos)
}

/// Decision and score of a literal fuzzy query.
fn fuzzy_score(cfg: Cfg, eq: &[bool], m: usize, c: &[char]) -> (bool, i64) {
    if cfg.metric == 1 {
        let o = fuzzy_v1(cfg, eq, m, c);
        (o.matched, o.score)
    } else if m == 1 {
        let mut best = 0;
        for j in 0..c.len() {
            if eq[j] {
                best = best.max(16 + 2 * bonus_at(cfg, c, j));
            }
        }
        (best > 0, best)
    } else {
        fuzzy_v2(cfg, eq, m, c)
    }
}

fn fuzzy_all(cfg: Cfg, q: &Text, c: &Text, raw: bool, what: u64) {
    let mut p = parser();
    let query = if raw { p.parse_not_extended(q.str()) } else { p.parse(q.str()) };
    let mut metric = AnyMetric::new(cfg);
    let m = q.len();
    let n = c.len();

    if what & 256 != 0 {
        split_matches(cfg, &q.ch, &c.ch);
    }

    if what & (1 | 2) != 0 {
        let d = metric.distance(query, c.str());
        observe(1, show(d));
        let sens = sensitive(cfg, &q.ch);
        let eq = matrix(cfg, sens, &q.ch, &c.ch);
        if what & 1 != 0 {
            let want = subsequence(&eq, m, n);
            if want {
                reach(1);
            } else {
                reach(2);
            }
            check(d.is_some() == want, 1);
        }
        if what & 2 != 0 {
            let (matched, score) = fuzzy_score(cfg, &eq, m, &c.ch);
            check(d.is_some() == matched, 2);
            if matched {
                reach(1);
                check(d.unwrap() == score, 3);
            }
        }
    }
    if what & (4 | 8 | 32) != 0 {
        let mut r: Vec<Range<usize>> = Vec::new();
        let d = metric.ranges(query, c.str(), &mut r);
        observe(2, show(d));
        observe_ranges(3, &r);
        if d.is_some() {
            reach(1);
            let (ok, pos) = coverage(c, &r);
            if what & 12 != 0 {
                check(ok, 4);
            }
            if what & 32 != 0 {
                let eq = matrix(cfg, sensitive(cfg, &q.ch), &q.ch, &c.ch);
                let taken = if cfg.metric == 1 {
                    fuzzy_v1(cfg, &eq, m, &c.ch).pos
                } else {
                    fuzzy_v2_taken(cfg, &eq, m, &c.ch)
                };
                let mut same = true;
                for j in 0..n {
                    same &= pos[j] == taken[j];
                }
                check(same, 8);
            }
            if what & 8 != 0 {
                let sens = sensitive(cfg, &q.ch);
                let mut k = 0;
                let mut spelled = true;
                for j in 0..n {
                    if pos[j] {
                        spelled &= k < m && ceq(cfg, sens, q.ch[k.min(m - 1)], c.ch[j]);
                        k += 1;
                    }
                }
                check(spelled & (k == m), 5);
            }
        } else {
            check(r.is_empty(), 6);
        }
    }
    if what & 16 != 0 {
        let mut r: Vec<Range<usize>> = Vec::new();
        let a = metric.ranges(query, c.str(), &mut r);
        let b = metric.distance(query, c.str());
        check(a == b, 7);
    }
}

#[no_mangle]
pub extern "C" fn fz(code: u64, m: u64, n: u64, raw: u64, what: u64) {
    let cfg = config(code);
    let q = query_text(m, raw == 1);
    let mut c = Text::new();
    c.push_any_ascii(C, n as usize);
    fuzzy_all(cfg, &q, &c, raw == 1, what);
}

#[no_mangle]
pub extern "C" fn fzu(code: u64, ql: u64, cl: u64, what: u64) {
    let cfg = config(code);
    let mut q = Text::new();
    q.push_layout(Q, ql);
    let mut c = Text::new();
    c.push_layout(C, cl);
    fuzzy_all(cfg, &q, &c, true, what);
}

// ---------------------------------------------------------------------------
// terms
// ---------------------------------------------------------------------------

/// One term of any kind, Unicode layouts.
#[no_mangle]
pub extern "C" fn tmu(code: u64, kind: u64, ql: u64, cl: u64, what: u64) {
    let cfg = config(code);
    let mut text = Vec::with_capacity(8);
    for (i, d) in digits(ql).into_iter().enumerate() {
        let ch = any_char(Q + i as u64, d);
        if d == 1 {
            assume(plain(ch as u32 as u8));
        }
        text.push(ch);
    }
    let t = Term { text, kind: kind_of(kind % 10), inverse: kind >= 10 };
    let q = query_of(&t, &digits(ql));
    let c = layout_text(C, cl);
    term_all(cfg, &t, &q, &c, what);
}

/// A query longer than the parser's initial buffer and a candidate longer
/// than the metric's: `pre` concrete letters, then `m` and `n` arbitrary
/// ASCII characters.  `kind`: 0 `parse_not_extended`, 1 `parse` with the
/// letters as one word, 2 `parse` with every third letter a space, 3 with
/// every second one, 4 `parse` with the letters as alternatives (` | ` between
/// them, four characters for each; the candidate has none of them then), 5
/// `parse_not_extended` with `é` for every third letter, 6 `parse` with an
/// escaped space for every fourth one.  `pre` may add 1000 times the length of a concrete query
/// the parser is given before.
#[no_mangle]
pub extern "C" fn lq(code: u64, kind: u64, pre: u64, m: u64, n: u64, what: u64) {
    let cfg = config(code);
    let mut q = Text::new();
    let mut c = Text::new();
    let space = |i: usize| {
        (kind == 2 && i % 3 == 2) || (kind == 3 && i % 2 == 1) || (kind == 4 && i % 2 == 1)
    };
    for i in 0..(pre % 1000) as usize {
        let b = if kind == 4 && i % 4 == 2 { b'|' } else { b'a' + (i % 5) as u8 };
        if kind == 5 && i % 3 == 2 {
            c.push_char('é', 2);
            q.push_char('é', 2);
            continue;
        }
        if kind == 6 && i % 4 == 3 {
            c.push_ascii(b' ');
            q.push_ascii(b'\\');
            q.push_ascii(b' ');
            continue;
        }
        if kind != 4 {
            c.push_ascii(b);
        }
        q.push_ascii(if space(i) { b' ' } else { b });
    }
    let raw = kind == 0 || kind == 5;
    if raw {
        q.push_any_ascii(Q, m as usize);
    } else {
        q.push_plain(Q, m as usize);
    }
    c.push_any_ascii(C, n as usize);
    let mut p = parser();
    if pre >= 1000 {
        let mut q0 = Text::new();
        for i in 0..(pre / 1000) as usize {
            q0.push_ascii(if space(i) { b' ' } else { b'x' });
        }
        let mut m0 = AnyMetric::new(cfg);
        let _ = m0.distance(if raw { p.parse_not_extended(q0.str()) } else { p.parse(q0.str()) }, "xyz");
    }
    let query = if raw { p.parse_not_extended(q.str()) } else { p.parse(q.str()) };
    let mut metric = AnyMetric::new(cfg);
    let mut want = true;
    if kind < 2 || raw {
        let sens = sensitive(cfg, &q.ch);
        let eq = matrix(cfg, sens, &q.ch, &c.ch);
        want = subsequence(&eq, q.len(), c.len());
    } else {
        for cond in conditions(&q.ch) {
            let mut any = false;
            for t in &cond {
                let t = &t.text;
                let eq = matrix(cfg, sensitive(cfg, t), t, &c.ch);
                any |= subsequence(&eq, t.len(), c.len());
            }
            want &= any;
        }
    }
    let d = metric.distance(query, c.str());
    observe(1, show(d));
    if want {
        reach(1);
    } else {
        reach(2);
    }
    check(d.is_some() == want, 1);
    if what & 2 != 0 && d.is_some() {
        check(d == Some(query_outcome(cfg, &q.ch, &c.ch).1), 4);
    }
    if what & 8 != 0 {
        let mut r = Vec::new();
        let e = metric.ranges(query, c.str(), &mut r);
        check(d == e, 2);
        if e.is_some() {
            check(coverage(&c, &r).0, 3);
        }
    }
}

/// Term kinds by number.
fn kind_of(k: u64) -> Kind {
    match k {
        0 => Kind::Fuzzy,
        1 => Kind::Exact,
        2 => Kind::Prefix,
        3 => Kind::Suffix,
        _ => Kind::Equal,
    }
}

/// Appends a term of the given kind with an `m`-character text to `q`.  Bit
/// `i` of `spaces` makes character `i` an (escaped) space, the others are any
/// ASCII characters that leave the kind of the term as it is.
fn push_term(q: &mut Text, id: u64, kind: u64, inverse: bool, m: usize, spaces: u64) -> Term {
    let kind = kind_of(kind);
    if inverse {
        q.push_ascii(b'!');
    }
    // Negation makes the plain form exact and the quoted form fuzzy.
    let quoted = (kind == Kind::Exact) != inverse && (kind == Kind::Exact || kind == Kind::Fuzzy);
    if quoted {
        q.push_ascii(b'\'');
    }
    if kind == Kind::Prefix || kind == Kind::Equal {
        q.push_ascii(b'^');
    }
    let marked = quoted || kind == Kind::Prefix || kind == Kind::Equal;
    let dollar = kind == Kind::Suffix || kind == Kind::Equal;
    let mut text = Vec::with_capacity(m);
    for i in 0..m {
        if spaces >> i & 1 == 1 {
            q.push_ascii(b'\\');
            q.push_ascii(b' ');
            text.push(' ');
            continue;
        }
        let b = u(id + i as u64, 7) as u8;
        // A backslash escapes the space or ends the word; a lone `|` is an
        // operator.
        let mut ok = (b != b' ') & (b != b'\\') & (b != b'|');
        if i == 0 && !marked {
            ok &= (b != b'\'') & (b != b'^');
            if !inverse {
                ok &= b != b'!';
            }
        }
        if i + 1 == m && !dollar {
            ok &= b != b'$';
        }
        assume(ok);
        q.push_ascii(b);
        text.push(b as char);
    }
    if dollar {
        q.push_ascii(b'$');
    }
    Term { text, kind, inverse }
}

/// One term of any kind on an arbitrary ASCII candidate.
///
/// `what`: 1 decision, 2 score, 4 ranges, 8 the two calls agree.
#[no_mangle]
pub extern "C" fn tm(code: u64, kind: u64, m: u64, n: u64, spaces: u64, what: u64) {
    let cfg = config(code);
    let mut q = Text::new();
    let t = push_term(&mut q, Q, kind % 10, kind >= 10, m as usize, spaces);
    let mut c = Text::new();
    c.push_any_ascii(C, n as usize);
    term_all(cfg, &t, &q, &c, what);
}

fn term_all(cfg: Cfg, t: &Term, q: &Text, c: &Text, what: u64) {
    let mut p = parser();
    let query = p.parse(q.str());
    let mut metric = AnyMetric::new(cfg);
    let sens = sensitive(cfg, &t.text);
    let want = if t.kind == Kind::Fuzzy {
        fuzzy_outcome(cfg, sens, &t.text, &c.ch)
    } else {
        placed_outcome(cfg, sens, &t.text, &c.ch, t.kind)
    };
    let matched = want.matched != t.inverse;
    let score = if t.inverse { 0 } else { want.score };
    if matched {
        reach(1);
    } else {
        reach(2);
    }
    if what & 3 != 0 {
        let d = metric.distance(query, c.str());
        observe(1, show(d));
        check(d.is_some() == matched, 1);
        if what & 2 != 0 && matched {
            check(d == Some(score), 3);
        }
    }
    if what & 4 != 0 {
        let mut r: Vec<Range<usize>> = Vec::new();
        let d = metric.ranges(query, c.str(), &mut r);
        observe(2, show(d));
        observe_ranges(3, &r);
        if d.is_some() && !t.inverse && t.kind != Kind::Fuzzy {
            let (ok, pos) = coverage(c, &r);
            check(ok, 4);
            let mut same = true;
            for j in 0..c.len() {
                same &= pos[j] == want.pos[j];
            }
            check(same, 5);
        }
        if t.inverse || d.is_none() {
            check(r.is_empty(), 6);
        }
    }
    if what & 8 != 0 {
        let d = metric.distance(query, c.str());
        let mut r: Vec<Range<usize>> = Vec::new();
        let e = metric.ranges(query, c.str(), &mut r);
        observe(4, show(d));
        check(d == e, 7);
    }
}

/// A term of two arbitrary characters of any kind on a long candidate:
/// characters by layout, filler, characters by layout.
///
/// `fill`: filler characters + 1000 * their kind (0 `-`, 1 `é`, 2 space) +
/// 100000 * thousands of filler characters more; `what` as for `tm`.
#[no_mangle]
pub extern "C" fn le(code: u64, kind: u64, lead: u64, fill: u64, tail: u64, what: u64) {
    let cfg = config(code);
    let mut q = Text::new();
    let t = push_term(&mut q, Q, kind % 10, kind >= 10, 2, 0);
    let filler = [('-', 1), ('é', 2), (' ', 1)][(fill / 1000 % 10) as usize];
    for &x in &t.text {
        assume((x != filler.0) & (x != 'e'));
    }
    let mut c = Text::new();
    if lead > 0 {
        c.push_layout(C, lead);
    }
    for _ in 0..fill % 1000 + fill / 100000 * 1000 {
        c.push_char(filler.0, filler.1);
    }
    if tail > 0 {
        c.push_layout(C + 100, tail);
    }
    for row in matrix(cfg, sensitive(cfg, &t.text), &t.text, &c.ch).chunks(c.len()) {
        let mut v = 0u64;
        for &e in row {
            v = v.rotate_left(1) ^ e as u64;
        }
        split(v);
    }
    term_all(cfg, &t, &q, &c, what);
}

/// Many occurrences: the term `ab` (or, for kind 5, the query `b`) on a candidate of
/// characters by layout, as many thousands of `-` as `reps` has ten thousands,
/// `reps` times `xab` (`xéab` for 1000 in `reps`), and characters by layout.
///
/// `what`: 1 decision, 2 score, 4 ranges.
#[no_mangle]
pub extern "C" fn oc(code: u64, kind: u64, lead: u64, reps: u64, tail: u64, what: u64) {
    let cfg = config(code);
    let mut c = Text::new();
    if lead > 0 {
        c.push_layout(C, lead);
    }
    for _ in 0..reps / 10000 * 1000 {
        c.push_ascii(b'-');
    }
    for _ in 0..reps % 1000 {
        c.push_ascii(b'x');
        if reps / 1000 % 10 == 1 {
            c.push_char('é', 2);
        }
        c.push_ascii(b'a');
        c.push_ascii(b'b');
    }
    if tail > 0 {
        c.push_layout(C + 100, tail);
    }
    let (name, k) = match kind {
        0 => ("ab", Kind::Fuzzy),
        1 => ("'ab", Kind::Exact),
        3 => ("ab$", Kind::Suffix),
        _ => ("b", Kind::Fuzzy),
    };
    let text: Vec<char> = if kind == 5 { vec!['b'] } else { vec!['a', 'b'] };
    // The scores are concrete then.
    for j in 0..c.len() {
        split(class(cfg.scheme, c.ch[j]) as u64);
        split((text[0] == c.ch[j]) as u64 + 2 * (text[text.len() - 1] == c.ch[j]) as u64);
    }
    let mut q = Text::new();
    q.push_str(name);
    let t = Term { text, kind: k, inverse: false };
    if k != Kind::Fuzzy {
        term_all(cfg, &t, &q, &c, what);
        return;
    }
    let mut p = parser();
    let query = p.parse(q.str());
    let mut metric = AnyMetric::new(cfg);
    let m = t.text.len();
    let eq = matrix(cfg, sensitive(cfg, &t.text), &t.text, &c.ch);
    let (matched, score) = fuzzy_score(cfg, &eq, m, &c.ch);
    let d = metric.distance(query, c.str());
    observe(1, show(d));
    if matched {
        reach(1);
    } else {
        reach(2);
    }
    check(d.is_some() == matched, 1);
    if what & 2 != 0 && matched {
        check(d == Some(score), 3);
    }
    if what & 4 != 0 {
        let mut r: Vec<Range<usize>> = Vec::new();
        let e = metric.ranges(query, c.str(), &mut r);
        observe_ranges(3, &r);
        check(d == e, 7);
        if e.is_some() {
            let (ok, pos) = coverage(&c, &r);
            check(ok, 4);
            let taken = if cfg.metric == 1 {
                fuzzy_v1(cfg, &eq, m, &c.ch).pos
            } else {
                fuzzy_v2_taken(cfg, &eq, m, &c.ch)
            };
            let mut same = true;
            for j in 0..c.len() {
                same &= pos[j] == taken[j];
            }
            check(same, 5);
        }
    }
}

/// A long term: `pre` letters (and `m` arbitrary characters) of any kind on a
/// candidate of `n` / 10 arbitrary ASCII characters, as many letters (`é` in
/// between for 1000 in `pre`) and `n` % 10 arbitrary ones.
#[no_mangle]
pub extern "C" fn lt(code: u64, kind: u64, pre: u64, m: u64, n: u64, what: u64) {
    let cfg = config(code);
    let k = kind_of(kind % 10);
    let inverse = kind >= 10;
    let mut text: Vec<char> = Vec::with_capacity(64);
    for i in 0..pre % 1000 {
        text.push(if pre >= 1000 && i % 3 == 1 { 'é' } else { (b'a' + (i % 2) as u8) as char });
    }
    for i in 0..m {
        let b = u(Q + i, 7) as u8;
        assume(plain(b));
        text.push(b as char);
    }
    let mut c = Text::new();
    c.push_any_ascii(C, (n / 10) as usize);
    for &x in &text[..(pre % 1000) as usize] {
        c.push_char(x, x.len_utf8());
    }
    c.push_any_ascii(C + 50, (n % 10) as usize);
    let mut q = Text::new();
    if inverse {
        q.push_ascii(b'!');
    }
    if (k == Kind::Exact) != inverse && (k == Kind::Exact || k == Kind::Fuzzy) {
        q.push_ascii(b'\'');
    }
    if k == Kind::Prefix || k == Kind::Equal {
        q.push_ascii(b'^');
    }
    for &x in &text {
        let w = if (x as u32) < 128 { 1 } else { 2 };
        q.push_char(x, w);
    }
    if k == Kind::Suffix || k == Kind::Equal {
        q.push_ascii(b'$');
    }
    let t = Term { text, kind: k, inverse };
    term_all(cfg, &t, &q, &c, what);
}

// ---------------------------------------------------------------------------
// grammar
// ---------------------------------------------------------------------------

/// The syntactic role a character can play.
fn shape(b: u8) -> u64 {
    match b {
        b' ' => 1,
        b'\\' => 2,
        b'|' => 3,
        b'!' => 4,
        b'\'' => 5,
        b'^' => 6,
        b'$' => 7,
        _ => 0,
    }
}

/// An arbitrary ASCII query, case-split on its syntactic shape only.
fn shaped_query(id: u64, m: usize, q: &mut Text) {
    let from = q.len();
    q.push_any_ascii(id, m);
    for i in 0..m {
        let b = q.bytes[from + i];
        let s = split(shape(b));
        // The operators are now concrete.
        let known = match s {
            1 => b' ',
            2 => b'\\',
            3 => b'|',
            4 => b'!',
            5 => b'\'',
            6 => b'^',
            7 => b'$',
            _ => b,
        };
        q.bytes[from + i] = known;
        q.ch[from + i] = known as char;
    }
}

/// `split_matches` for the fuzzy terms of a query.
fn split_terms(cfg: Cfg, q: &Text, c: &Text) {
    for cond in conditions(&q.ch) {
        for t in &cond {
            if t.kind == Kind::Fuzzy {
                split_matches(cfg, &t.text, &c.ch);
            }
        }
    }
}

/// `what`: 1 decision, 2 score, 4 split, 8 `distance` == `distance_and_ranges`.
#[no_mangle]
pub extern "C" fn gr(code: u64, m: u64, n: u64, what: u64) {
    let cfg = config(code);
    let mut q = Text::new();
    shaped_query(Q, m as usize, &mut q);
    let mut c = Text::new();
    c.push_any_ascii(C, n as usize);
    let mut p = parser();
    let query = p.parse(q.str());
    let mut metric = AnyMetric::new(cfg);
    if what & 3 == 0 {
        // Nothing but the absence of panics.
        if what & 4 != 0 {
            split_terms(cfg, &q, &c);
        }
        let d = metric.distance(query, c.str());
        let mut r = Vec::new();
        let e = metric.ranges(query, c.str(), &mut r);
        observe(1, show(d));
        observe(2, show(e));
        observe_ranges(3, &r);
        if d.is_some() {
            reach(1);
        } else {
            reach(2);
        }
        if what & 8 != 0 {
            check(d == e, 8);
        }
        return;
    }
    let d = metric.distance(query, c.str());
    observe(1, show(d));
    let (matched, score) = query_outcome(cfg, &q.ch, &c.ch);
    if matched {
        reach(1);
    } else {
        reach(2);
    }
    check(d.is_some() == matched, 1);
    if what & 2 != 0 && matched {
        check(d == Some(score), 2);
    }
}


/// Queries of operators and characters of every width: each of the `m`
/// characters is one of the seven with a meaning, an arbitrary ASCII one without,
/// or a representative of two or three bytes.
///
/// `what`: 1 decision, 2 score.
#[no_mangle]
pub extern "C" fn gu(code: u64, m: u64, layout: u64, what: u64) {
    let cfg = config(code);
    let mut q = Text::new();
    for i in 0..m {
        let k = choose(Q + 40 + i, 10);
        match k {
            0..=6 => q.push_ascii([b' ', b'\\', b'|', b'!', b'\'', b'^', b'$'][k as usize]),
            7 => q.push_plain(Q + i, 1),
            k => q.push_char(any_char(Q + i, k - 6), k as usize - 6),
        }
    }
    let c = layout_text(C, layout);
    split_terms(cfg, &q, &c);
    let mut p = parser();
    let query = p.parse(q.str());
    let mut metric = AnyMetric::new(cfg);
    let d = metric.distance(query, c.str());
    observe(1, show(d));
    let (matched, score) = query_outcome(cfg, &q.ch, &c.ch);
    if matched {
        reach(1);
    } else {
        reach(2);
    }
    check(d.is_some() == matched, 1);
    if what & 2 != 0 && matched {
        check(d == Some(score), 2);
    }
}

/// Longer queries of the grammar: `words` words of any of the first `shapes`
/// shapes below (`x` stands for an arbitrary character without a meaning)
/// with a space between them.
///
/// `what`: 1 decision, 2 score.
#[no_mangle]
pub extern "C" fn gw(code: u64, words: u64, shapes: u64, n: u64, what: u64) {
    const SHAPES: [&str; 14] =
        ["x", "|", "!", "^$", "!x", "||", "\\", "'", "x$", "!'", "^x", "'x", "$", "x\\"];
    let cfg = config(code);
    let mut q = Text::new();
    for i in 0..words {
        if i > 0 {
            q.push_ascii(b' ');
        }
        for &b in SHAPES[choose(X + 10 + i, shapes) as usize].as_bytes() {
            if b == b'x' {
                let x = u(Q + i, 7) as u8;
                assume(plain(x));
                q.push_ascii(x);
            } else {
                q.push_ascii(b);
            }
        }
    }
    let mut c = Text::new();
    c.push_any_ascii(C, n as usize);
    split_terms(cfg, &q, &c);
    let mut p = parser();
    let query = p.parse(q.str());
    let d = AnyMetric::new(cfg).distance(query, c.str());
    observe(1, show(d));
    let (matched, score) = query_outcome(cfg, &q.ch, &c.ch);
    if matched {
        reach(1);
    } else {
        reach(2);
    }
    check(d.is_some() == matched, 1);
    if what & 2 != 0 && matched {
        check(d == Some(score), 2);
    }
}

/// The ranges buffer under an arbitrary query of the grammar.
///
/// `what`: see [`buffer_contract`].
#[no_mangle]
pub extern "C" fn gb(code: u64, m: u64, n: u64, prior: u64, what: u64) {
    let cfg = config(code);
    let mut q = Text::new();
    shaped_query(Q, m as usize, &mut q);
    let mut c = Text::new();
    c.push_any_ascii(C, n as usize);
    split_terms(cfg, &q, &c);
    let mut p = parser();
    let query = p.parse(q.str());
    let mut metric = AnyMetric::new(cfg);
    buffer_contract(&mut metric, query, &c, prior, what);
}

/// The ranges buffer under a fuzzy query.
#[no_mangle]
pub extern "C" fn fb(code: u64, m: u64, n: u64, prior: u64, what: u64) {
    let cfg = config(code);
    let q = query_text(m, true);
    let mut c = Text::new();
    c.push_any_ascii(C, n as usize);
    if cfg.metric == 2 && m > 1 {
        split_matches(cfg, &q.ch, &c.ch);
    }
    let mut p = parser();
    let query = p.parse_not_extended(q.str());
    let mut metric = AnyMetric::new(cfg);
    buffer_contract(&mut metric, query, &c, prior, what);
}

/// The ranges buffer under a fuzzy query, Unicode layouts.
#[no_mangle]
pub extern "C" fn fbu(code: u64, ql: u64, cl: u64, prior: u64, what: u64) {
    let cfg = config(code);
    let mut q = Text::new();
    q.push_layout(Q, ql);
    let mut c = Text::new();
    c.push_layout(C, cl);
    if cfg.metric == 2 && q.len() > 1 {
        split_matches(cfg, &q.ch, &c.ch);
    }
    let mut p = parser();
    let query = p.parse_not_extended(q.str());
    let mut metric = AnyMetric::new(cfg);
    buffer_contract(&mut metric, query, &c, prior, what);
}

// ---------------------------------------------------------------------------
// several terms
// ---------------------------------------------------------------------------

/// The digits of `v`, most significant first.
fn digits(v: u64) -> Vec<u64> {
    let mut out = Vec::new();
    let mut div = 1;
    while v / div >= 10 {
        div *= 10;
    }
    while div > 0 {
        out.push(v / div % 10);
        div /= 10;
    }
    out
}

/// Terms joined by AND / OR.  `kinds`: one digit per term, 1 fuzzy, 2 exact,
/// 3 prefix, 4 suffix, 5 equal, 6 not-exact, 7 not-fuzzy, 8 not-prefix, 9
/// not-suffix.  `lens`: one digit per term.  Bit `i` of `ors` puts a `|`
/// before term `i + 1`.
fn push_terms(q: &mut Text, kinds: u64, lens: u64, ors: u64) -> Vec<(Term, Text)> {
    let (kinds, lens) = (digits(kinds), digits(lens));
    let mut out = Vec::new();
    for i in 0..kinds.len() {
        if i > 0 {
            q.push_ascii(b' ');
            if ors >> (i - 1) & 1 == 1 {
                q.push_ascii(b'|');
                q.push_ascii(b' ');
            }
        }
        let (kind, inverse) = match kinds[i] {
            1 => (0, false),
            2 => (1, false),
            3 => (2, false),
            4 => (3, false),
            5 => (4, false),
            6 => (1, true),
            7 => (0, true),
            8 => (2, true),
            _ => (3, true),
        };
        let from = q.len();
        let id = Q + 20 * i as u64;
        let t = push_term(q, id, kind, inverse, lens[i] as usize, 0);
        let mut alone = Text::new();
        for k in from..q.len() {
            alone.push_ascii(q.bytes[k]);
        }
        out.push((t, alone));
    }
    out
}

/// A query of several terms against the outcomes of its terms alone.
///
/// `what`: 1 decision and score, 2 ranges.
#[no_mangle]
pub extern "C" fn mt(code: u64, kinds: u64, lens: u64, ors: u64, n: u64, what: u64) {
    let cfg = config(code);
    let mut q = Text::new();
    let terms = push_terms(&mut q, kinds, lens, ors);
    let mut c = Text::new();
    c.push_any_ascii(C, n as usize);
    for (t, _) in &terms {
        if t.kind == Kind::Fuzzy && cfg.metric == 2 && t.text.len() > 1 {
            split_matches(cfg, &t.text, &c.ch);
        }
    }
    let mut p = parser();
    let query = p.parse(q.str());
    let mut metric = AnyMetric::new(cfg);
    let mut r = Vec::new();
    let d = if what & 2 != 0 {
        metric.ranges(query, c.str(), &mut r)
    } else {
        metric.distance(query, c.str())
    };
    observe(1, show(d));

    // The terms one by one, each with a parser and a metric of its own.
    let mut all = true;
    let mut total = 0i64;
    let mut pos = vec![false; c.len()];
    let mut any = false;
    let mut score = 0i64;
    let mut chosen = vec![false; c.len()];
    for i in 0..terms.len() {
        let mut p = parser();
        let mut metric = AnyMetric::new(cfg);
        let query = p.parse(terms[i].1.str());
        let mut r = Vec::new();
        let d = if what & 2 != 0 {
            metric.ranges(query, c.str(), &mut r)
        } else {
            metric.distance(query, c.str())
        };
        if !any {
            if let Some(s) = d {
                any = true;
                score = s;
                if what & 2 != 0 {
                    chosen = coverage(&c, &r).1;
                }
            }
        }
        let last = i + 1 == terms.len() || ors >> i & 1 == 0;
        if last {
            all &= any;
            total += score;
            for j in 0..c.len() {
                pos[j] |= chosen[j];
                chosen[j] = false;
            }
            any = false;
            score = 0;
        }
    }
    if all {
        reach(1);
    } else {
        reach(2);
    }
    check(d.is_some() == all, 1);
    if all && what & 1 != 0 {
        check(d == Some(total), 2);
    }
    if all && what & 2 != 0 {
        let (ok, got) = coverage(&c, &r);
        let mut same = ok;
        for j in 0..c.len() {
            same &= got[j] == pos[j];
        }
        check(same, 3);
    }
    if !all && what & 2 != 0 {
        check(r.is_empty(), 4);
    }
}

/// The ranges buffer under several terms.
#[no_mangle]
pub extern "C" fn mb(code: u64, kinds: u64, lens: u64, ors: u64, n: u64, what: u64) {
    let cfg = config(code);
    let mut q = Text::new();
    let terms = push_terms(&mut q, kinds, lens, ors);
    let mut c = Text::new();
    c.push_any_ascii(C, n as usize);
    for (t, _) in &terms {
        if t.kind == Kind::Fuzzy && cfg.metric == 2 && t.text.len() > 1 {
            split_matches(cfg, &t.text, &c.ch);
        }
    }
    let mut p = parser();
    let query = p.parse(q.str());
    let mut metric = AnyMetric::new(cfg);
    buffer_contract(&mut metric, query, &c, what >> 4, what & 15);
}

/// Exact terms whose texts are cut out of a candidate of distinct letters:
/// the ranges are arbitrary intervals, inserted in an arbitrary order, after
/// `n` / 100 single letters (every second one of the candidate, not in order).
#[no_mangle]
pub extern "C" fn iv(code: u64, lens: u64, n: u64, prior: u64, what: u64) {
    let cfg = config(code);
    let lens = digits(lens);
    let pre = n / 100;
    let n = n % 100;
    let letter = |j: u64| match j {
        0..=25 => b'a' + j as u8,
        26..=51 => b'A' + (j - 26) as u8,
        _ => b'0' + (j - 52) as u8,
    };
    let mut c = Text::new();
    for j in 0..n {
        c.push_ascii(letter(j));
    }
    let mut q = Text::new();
    let mut want = vec![false; n as usize];
    for i in 0..pre {
        let j = i * 7 % pre * 2;
        q.push_ascii(b'\'');
        q.push_ascii(letter(j));
        q.push_ascii(b' ');
        want[j as usize] = true;
    }
    for (i, &len) in lens.iter().enumerate() {
        let s = if pre > 0 {
            choose(Q + i as u64, n - len + 1)
        } else {
            below(Q + i as u64, n - len + 1)
        } as usize;
        if i > 0 {
            q.push_ascii(b' ');
        }
        q.push_ascii(b'\'');
        for k in 0..len as usize {
            q.push_ascii(if n <= 26 { b'a' + (s + k) as u8 } else { c.bytes[s + k] });
        }
        for j in 0..n as usize {
            want[j] |= j >= s && j < s + len as usize;
        }
    }
    let mut p = parser();
    let query = p.parse(q.str());
    let mut metric = AnyMetric::new(cfg);
    let (d, pos) = buffer_contract(&mut metric, query, &c, prior, what);
    check(d.is_some(), 30);
    if what & 8 != 0 {
        let mut same = true;
        for j in 0..n as usize {
            same &= pos[j] == want[j];
        }
        check(same, 31);
    }
}

// ---------------------------------------------------------------------------
// histories
// ---------------------------------------------------------------------------

struct Run {
    score: Option<i64>,
    alone: Option<i64>,
    ranges: Vec<Range<usize>>,
}

fn run(metric: &mut AnyMetric, query: norm::fzf::FzfQuery<'_>, c: &Text) -> Run {
    let mut ranges = Vec::new();
    let score = metric.ranges(query, c.str(), &mut ranges);
    let alone = metric.distance(query, c.str());
    Run { score, alone, ranges }
}

fn same_run(a: &Run, b: &Run) -> bool {
    if a.ranges.len() != b.ranges.len() {
        return false;
    }
    (a.score == b.score) & (a.alone == b.alone) & same_prefix(&a.ranges, &b.ranges)
}

fn layout_text(id: u64, layout: u64) -> Text {
    let mut t = Text::new();
    t.push_layout(id, layout);
    t
}

/// A long concrete text: `n` letters, then two non-ASCII characters if `uni`.
fn long_text(n: usize, uni: bool) -> Text {
    let mut t = Text::new();
    for i in 0..n {
        t.push_ascii(b'a' + (i * 7 % 26) as u8);
    }
    if uni {
        t.push_str("é中");
    }
    t
}

/// A metric (and a parser) that has been used before, under another
/// configuration, against ones that have not.
///
/// `long`: 0 = the earlier call has the symbolic query `l0` and candidate
/// `l1` (layouts); otherwise it has a concrete query and candidate of
/// `long` / 1000 and `long` % 1000 characters.
#[no_mangle]
pub extern "C" fn hi(code: u64, l0: u64, l1: u64, l2: u64, l3: u64, long: u64) {
    let cfg = config(code);
    let q = layout_text(Q, l2);
    let c = layout_text(C, l3);
    if cfg.metric == 2 && q.len() > 1 {
        split_matches(cfg, &q.ch, &c.ch);
    }
    let mut p = parser();
    let mut m = AnyMetric::new(cfg);
    if long == 0 {
        let q0 = layout_text(Q + 100, l0);
        let c0 = layout_text(C + 100, l1);
        // The scoring scheme and the case sensitivity of the earlier call
        // differ from those of the later one.
        let before = Cfg {
            case: if cfg.case == 0 { 1 } else { 0 },
            scheme: if cfg.scheme == 1 { 0 } else { 1 },
            ..cfg
        };
        if before.metric == 2 && q0.len() > 1 {
            split_matches(before, &q0.ch, &c0.ch);
        }
        m.set(before);
        let _ = run(&mut m, p.parse_not_extended(q0.str()), &c0);
    } else {
        let c0 = long_text((long % 1000) as usize, l0 == 1);
        let mut q0 = Text::new();
        for j in 0..(long / 1000) as usize {
            let b = c0.bytes[j * 2 % (long % 1000) as usize];
            q0.push_ascii(b);
        }
        let _ = run(&mut m, p.parse_not_extended(q0.str()), &c0);
        let _ = run(&mut m, p.parse(q0.str()), &c0);
    }
    m.set(cfg);
    let mut copy = m.clone();
    let used = run(&mut m, p.parse_not_extended(q.str()), &c);
    let copied = run(&mut copy, p.parse_not_extended(q.str()), &c);

    let mut p = parser();
    let mut fresh = AnyMetric::new(cfg);
    let want = run(&mut fresh, p.parse_not_extended(q.str()), &c);
    observe(1, show(want.score));
    observe_ranges(2, &want.ranges);
    if want.score.is_some() {
        reach(1);
    } else {
        reach(2);
    }
    check(same_run(&used, &want), 1);
    check(same_run(&copied, &want), 2);
    // Once more on the metric that has just been used for the same query.
    let again = run(&mut fresh, p.parse_not_extended(q.str()), &c);
    check(same_run(&again, &want), 3);
}

/// The caller's strings overwritten between two calls: a query of `m` arbitrary
/// characters in the buffer another one was parsed from, and a candidate of
/// layout `l` in the buffer of one of layout `l0` (which takes as many bytes).
///
/// `what`: 1 the query's buffer, 2 the candidate's; 4 `parse_not_extended`; 8
/// under other options at first.
#[no_mangle]
pub extern "C" fn ru(code: u64, m: u64, l0: u64, l: u64, what: u64) {
    let cfg = config(code);
    let q = query_text(m, false);
    let c = layout_text(C, l);
    if cfg.metric == 2 && m > 1 {
        split_matches(cfg, &q.ch, &c.ch);
    }
    let mut p = parser();
    let mut m1 = AnyMetric::new(cfg);
    if what & 8 != 0 {
        m1.set(Cfg {
            case: (cfg.case + 1) % 3,
            norm: !cfg.norm,
            scheme: if cfg.scheme == 1 { 0 } else { 1 },
            ..cfg
        });
    }
    let mut qb = q.bytes.clone();
    let mut cb = c.bytes.clone();
    if what & 1 != 0 {
        for i in 0..qb.len() {
            let b = u(Q + 100 + i as u64, 7) as u8;
            assume(plain(b));
            qb[i] = b;
        }
    }
    if what & 2 != 0 {
        let c0 = layout_text(C + 100, l0);
        assume(c0.bytes.len() == cb.len());
        for i in 0..cb.len() {
            cb[i] = c0.bytes[i];
        }
    }
    {
        let qs = unsafe { core::str::from_utf8_unchecked(&qb) };
        let cs = unsafe { core::str::from_utf8_unchecked(&cb) };
        let query = if what & 4 != 0 { p.parse_not_extended(qs) } else { p.parse(qs) };
        let mut r = Vec::new();
        let _ = m1.ranges(query, cs, &mut r);
        let _ = m1.distance(query, cs);
    }
    for i in 0..qb.len() {
        qb[i] = q.bytes[i];
    }
    for i in 0..cb.len() {
        cb[i] = c.bytes[i];
    }
    let qs = unsafe { core::str::from_utf8_unchecked(&qb) };
    let cs = unsafe { core::str::from_utf8_unchecked(&cb) };
    let query = if what & 4 != 0 { p.parse_not_extended(qs) } else { p.parse(qs) };
    m1.set(cfg);
    let mut r = Vec::new();
    let score = m1.ranges(query, cs, &mut r);
    let alone = m1.distance(query, cs);
    let used = Run { score, alone, ranges: r };

    let mut p = parser();
    let mut fresh = AnyMetric::new(cfg);
    let query = if what & 4 != 0 { p.parse_not_extended(q.str()) } else { p.parse(q.str()) };
    let want = run(&mut fresh, query, &c);
    observe(1, show(want.score));
    if want.score.is_some() {
        reach(1);
    } else {
        reach(2);
    }
    check(same_run(&used, &want), 1);
}

/// A parser that has parsed something else before, under the whole grammar.
#[no_mangle]
pub extern "C" fn hp(code: u64, m0: u64, m: u64, n: u64) {
    let cfg = config(code);
    let mut q = Text::new();
    shaped_query(Q, m as usize, &mut q);
    let mut c = Text::new();
    c.push_any_ascii(C, n as usize);
    split_terms(cfg, &q, &c);
    let mut p = parser();
    let mut m1 = AnyMetric::new(cfg);
    if m0 == 10 {
        // Any of these, twice.
        const BEFORE: [&str; 12] = [
            "a | b c",
            "| a",
            "a |",
            "a b | ",
            "!a !'b",
            "'a ^b c$ ^d$",
            "^a\\ b$ | c",
            "\\ ",
            "",
            "é | 中 !😀",
            "| | |",
            "a b c d e f g h | i | j | k",
        ];
        let q0 = BEFORE[choose(X + 20, 12) as usize];
        let _ = m1.distance(p.parse(q0), c.str());
        let _ = p.parse_not_extended("!x | y");
        let _ = p.parse(q0);
    } else if m0 >= 100 {
        // A long, concrete query of many terms.
        let mut q0 = Text::new();
        for i in 0..m0 as usize {
            let b = match i % 5 {
                0 => b'^',
                2 => b'$',
                3 => b' ',
                _ => b'a' + (i % 26) as u8,
            };
            q0.push_ascii(b);
        }
        let _ = m1.distance(p.parse(q0.str()), c.str());
    } else {
        let mut q0 = Text::new();
        shaped_query(Q + 100, m0 as usize, &mut q0);
        let _ = p.parse(q0.str());
    }
    let mut p2 = p.clone();
    let used = run(&mut m1, p.parse(q.str()), &c);
    let cloned = if m0 >= 10 { Some(run(&mut m1, p2.parse(q.str()), &c)) } else { None };
    let mut p = parser();
    let mut m2 = AnyMetric::new(cfg);
    let want = run(&mut m2, p.parse(q.str()), &c);
    observe(1, show(want.score));
    if want.score.is_some() {
        reach(1);
    } else {
        reach(2);
    }
    if let Some(cloned) = cloned {
        check(same_run(&cloned, &want), 2);
    }
    check(same_run(&used, &want), 1);
}

// ---------------------------------------------------------------------------
// relations between runs
// ---------------------------------------------------------------------------

fn flip(b: u8) -> u8 {
    if (b >= b'a' && b <= b'z') || (b >= b'A' && b <= b'Z') {
        b ^ 32
    } else {
        b
    }
}

/// The query of a term whose characters have the given layout digits (or are
/// all ASCII).
fn query_of(t: &Term, layout: &[u64]) -> Text {
    let mut q = Text::new();
    if t.inverse {
        q.push_ascii(b'!');
    }
    let quoted = (t.kind == Kind::Exact && !t.inverse) || (t.kind == Kind::Fuzzy && t.inverse);
    if quoted {
        q.push_ascii(b'\'');
    }
    if t.kind == Kind::Prefix || t.kind == Kind::Equal {
        q.push_ascii(b'^');
    }
    for (i, &ch) in t.text.iter().enumerate() {
        if ch == ' ' {
            q.push_ascii(b'\\');
        }
        q.push_char(ch, layout.get(i).map_or(1, |&d| width_of(d)));
    }
    if t.kind == Kind::Suffix || t.kind == Kind::Equal {
        q.push_ascii(b'$');
    }
    q
}

fn eval(cfg: Cfg, q: &Text, c: &Text, ranges: bool) -> Run {
    let mut p = parser();
    let mut m = AnyMetric::new(cfg);
    let query = p.parse(q.str());
    let mut r = Vec::new();
    let alone = m.distance(query, c.str());
    let score = if ranges { m.ranges(query, c.str(), &mut r) } else { alone };
    Run { score, alone, ranges: r }
}

/// Case sensitivity of a term: smart is one of the other two, insensitive
/// does not look at the case of the query, sensitive is the narrowest.
#[no_mangle]
pub extern "C" fn cs(code: u64, kind: u64, m: u64, n: u64) {
    let cfg = config(code);
    let mut q = Text::new();
    let t = push_term(&mut q, Q, kind % 10, kind >= 10, m as usize, 0);
    let mut c = Text::new();
    c.push_any_ascii(C, n as usize);
    let up = has_upper(&t.text);
    if t.kind == Kind::Fuzzy && cfg.metric == 2 && m > 1 {
        split_matches(Cfg { case: 0, ..cfg }, &t.text, &c.ch);
        split_matches(Cfg { case: 1, ..cfg }, &t.text, &c.ch);
    }
    let sens = eval(Cfg { case: 0, ..cfg }, &q, &c, true);
    let insens = eval(Cfg { case: 1, ..cfg }, &q, &c, true);
    let smart = eval(Cfg { case: 2, ..cfg }, &q, &c, true);
    observe(1, show(smart.score));
    if up {
        reach(1);
        check(same_run(&smart, &sens), 1);
    } else {
        reach(2);
        check(same_run(&smart, &insens), 2);
    }
    // The query in another case.
    let mut t2 = t.clone();
    for i in 0..t2.text.len() {
        let b = t2.text[i] as u8;
        let other = u(X + 200 + i as u64, 1) == 1;
        t2.text[i] = (if other { flip(b) } else { b }) as char;
    }
    let q2 = query_of(&t2, &[]);
    let insens2 = eval(Cfg { case: 1, ..cfg }, &q2, &c, true);
    check(same_run(&insens, &insens2), 3);
    // A case-sensitive match is a case-insensitive match too.
    if t.inverse {
        check(insens.score.is_none() || sens.score.is_some(), 4);
    } else {
        check(sens.score.is_none() || insens.score.is_some(), 5);
    }
    // Without letters the mode makes no difference.
    let mut letters = false;
    for &ch in &t.text {
        letters |= flip(ch as u8) != ch as u8;
    }
    if !letters {
        reach(3);
        check(same_run(&sens, &insens), 6);
    }
}

/// An ASCII candidate against the same candidate followed by a character that
/// no ASCII query matches: the candidate's representation changes, the outcome
/// of terms that are not anchored to its end does not.
#[no_mangle]
pub extern "C" fn rp(code: u64, kind: u64, m: u64, n: u64, which: u64) {
    let cfg = config(code);
    let mut q = Text::new();
    let t = push_term(&mut q, Q, kind % 10, kind >= 10, m as usize, 0);
    let mut c = Text::new();
    c.push_any_ascii(C, n as usize);
    if t.kind == Kind::Fuzzy && cfg.metric == 2 && m > 1 {
        split_matches(cfg, &t.text, &c.ch);
    }
    let mut d = Text::new();
    for j in 0..n as usize {
        d.push_ascii(c.bytes[j]);
    }
    d.push_str(match which {
        0 => "中",
        1 => "²",
        _ => "😀",
    });
    let a = eval(cfg, &q, &c, true);
    let b = eval(cfg, &q, &d, true);
    observe(1, show(a.score));
    if a.score.is_some() {
        reach(1);
    } else {
        reach(2);
    }
    check(same_run(&a, &b), 1);
}

/// An ASCII candidate against the same candidate with one character, which no
/// character of the query matches, replaced by a wider one of the same class.
///
/// `which`: position + 10 * class (0 lower, 1 upper, 2 number, 3 other).
#[no_mangle]
pub extern "C" fn rq(code: u64, kind: u64, m: u64, n: u64, which: u64) {
    let cfg = config(code);
    let mut q = Text::new();
    let t = push_term(&mut q, Q, kind % 10, kind >= 10, m as usize, 0);
    let mut c = Text::new();
    c.push_any_ascii(C, n as usize);
    let k = (which % 10) as usize;
    let b = c.bytes[k];
    let (class, wide) = match which / 10 {
        0 => (b >= b'a' && b <= b'z', "λ"),
        1 => (b >= b'A' && b <= b'Z', "Λ"),
        2 => (b >= b'0' && b <= b'9', "٣"),
        _ => (b == b'#' || b == b'~' || b == b'_', "→"),
    };
    assume(class);
    for &x in &t.text {
        assume((x as u8 != b) & (flip(x as u8) != b));
    }
    if t.kind == Kind::Fuzzy && cfg.metric == 2 && m > 1 {
        split_matches(cfg, &t.text, &c.ch);
    }
    let mut d = Text::new();
    for j in 0..n as usize {
        if j == k {
            d.push_str(wide);
        } else {
            d.push_ascii(c.bytes[j]);
        }
    }
    let mut a = eval(cfg, &q, &c, true);
    let b = eval(cfg, &q, &d, true);
    for x in a.ranges.iter_mut() {
        if x.start > k {
            x.start += wide.len() - 1;
        }
        if x.end > k {
            x.end += wide.len() - 1;
        }
    }
    observe(1, show(a.score));
    if a.score.is_some() {
        reach(1);
    } else {
        reach(2);
    }
    check(same_run(&a, &b), 1);
}

/// Candidate normalization makes no difference on ASCII candidates.
#[no_mangle]
pub extern "C" fn na(code: u64, kind: u64, m: u64, n: u64) {
    let cfg = config(code);
    let mut q = Text::new();
    let t = push_term(&mut q, Q, kind % 10, kind >= 10, m as usize, 0);
    let mut c = Text::new();
    c.push_any_ascii(C, n as usize);
    if t.kind == Kind::Fuzzy && cfg.metric == 2 && m > 1 {
        split_matches(cfg, &t.text, &c.ch);
    }
    let a = eval(Cfg { norm: false, ..cfg }, &q, &c, true);
    let b = eval(Cfg { norm: true, ..cfg }, &q, &c, true);
    observe(1, show(a.score));
    if a.score.is_some() {
        reach(1);
    } else {
        reach(2);
    }
    check(same_run(&a, &b), 1);
}

/// FzfV2 finds a match exactly when FzfV1 does.
#[no_mangle]
pub extern "C" fn vv(code: u64, m: u64, n: u64) {
    let cfg = config(code);
    let q = query_text(m, true);
    let mut c = Text::new();
    c.push_any_ascii(C, n as usize);
    split_matches(cfg, &q.ch, &c.ch);
    let mut p = parser();
    let query = p.parse_not_extended(q.str());
    let mut one = AnyMetric::new(Cfg { metric: 1, ..cfg });
    let mut two = AnyMetric::new(Cfg { metric: 2, ..cfg });
    let a = one.distance(query, c.str());
    let b = two.distance(query, c.str());
    observe(1, show(a));
    observe(2, show(b));
    if a.is_some() {
        reach(1);
    } else {
        reach(2);
    }
    check(a.is_some() == b.is_some(), 1);
}

/// Distances compare the other way round than scores, totally.
#[no_mangle]
pub extern "C" fn od(code: u64, m: u64, n: u64) {
    use norm::Metric;
    let cfg = config(code);
    let q = query_text(m, true);
    let mut p = parser();
    let query = p.parse_not_extended(q.str());
    let mut d = [norm::fzf::FzfDistance::default(); 3];
    for k in 0..3u64 {
        let mut c = Text::new();
        c.push_any_ascii(C + 50 * k, n as usize);
        if cfg.metric == 2 && m > 1 {
            split_matches(cfg, &q.ch, &c.ch);
        }
        let r = if cfg.metric == 1 {
            norm::fzf::FzfV1::new().distance(query, c.str())
        } else {
            norm::fzf::FzfV2::new().distance(query, c.str())
        };
        if let Some(r) = r {
            d[k as usize] = r;
        }
    }
    ordered(d);
}

fn ordered(d: [norm::fzf::FzfDistance; 3]) {
    use core::cmp::Ordering::*;
    let s = [d[0].into_score(), d[1].into_score(), d[2].into_score()];
    observe(1, s[0] as u64);
    observe(2, s[1] as u64);
    let (a, b, c) = (d[0], d[1], d[2]);
    let ab = a.cmp(&b);
    if ab == Less {
        reach(1);
    }
    if ab == Greater {
        reach(2);
    }
    if ab == Equal {
        reach(3);
    }
    check((ab == Less) == (s[0] > s[1]), 1);
    check((ab == Equal) == (s[0] == s[1]), 2);
    check((a == b) == (ab == Equal), 3);
    check((a != b) == (ab != Equal), 4);
    check(b.cmp(&a) == ab.reverse(), 5);
    check(a.partial_cmp(&b) == Some(ab), 6);
    check((a < b) == (ab == Less), 7);
    check((a <= b) == (ab != Greater), 8);
    check((a > b) == (ab == Greater), 9);
    check((a >= b) == (ab != Less), 10);
    check((a.max(b) == a) == (ab != Less) || a == b, 11);
    if a <= b && b <= c {
        check(a <= c, 12);
    }
}

/// An empty query matches everything at distance zero and appends nothing; the
/// candidate is `pre` letters followed by arbitrary characters.
#[no_mangle]
pub extern "C" fn em(code: u64, m: u64, layout: u64, pre: u64) {
    let cfg = config(code);
    let mut q = Text::new();
    shaped_query(Q, m as usize, &mut q);
    assume(conditions(&q.ch).is_empty());
    let mut c = long_text(pre as usize, false);
    if layout > 0 {
        c.push_layout(C, layout);
    }
    let mut p = parser();
    let query = p.parse(q.str());
    let mut metric = AnyMetric::new(cfg);
    let (d, _) = buffer_contract(&mut metric, query, &c, 1, 2);
    reach(1);
    check(d == Some(0), 1);
    check(metric.distance(query, c.str()) == Some(0), 2);
    if m == 0 {
        // The empty string taken literally.
        let query = p.parse_not_extended("");
        let (d, _) = buffer_contract(&mut metric, query, &c, 1, 2);
        check(d == Some(0), 3);
        check(metric.distance(query, c.str()) == Some(0), 4);
    }
}

/// A candidate longer than the metric's initial buffers: characters by layout,
/// then filler the query does not match, then characters by layout again; the
/// metric has been used before on a short candidate under other options.
///
/// `fill`: filler characters + 1000 * their kind (0 `-`, 1 `é`) + 10000 * the
/// earlier call's candidate (0 none, 1 ASCII, 2 not, 3 and 4 the same and 5000
/// characters long) + 100000 * thousands of filler characters more.
#[no_mangle]
pub extern "C" fn hl(code: u64, m: u64, lead: u64, fill: u64, tail: u64, what: u64) {
    let cfg = config(code);
    let q = query_text(m, false);
    let filler = if fill / 1000 % 10 == 0 { '-' } else { 'é' };
    for &x in &q.ch {
        assume((x != '-') & (x != 'e'));
    }
    let mut c = Text::new();
    c.push_layout(C, lead);
    for _ in 0..fill % 1000 + fill / 100000 * 1000 {
        c.push_char(filler, filler.len_utf8());
    }
    c.push_layout(C + 100, tail);
    // Which query character equals which one of the candidate, match or not.
    let sens = sensitive(cfg, &q.ch);
    let eq = matrix(cfg, sens, &q.ch, &c.ch);
    for row in eq.chunks(c.len()) {
        let mut v = 0u64;
        for &e in row {
            v = v.rotate_left(1) ^ e as u64;
        }
        split(v);
    }
    let mut p = parser();
    let mut metric = AnyMetric::new(cfg);
    let earlier = fill / 10000 % 10;
    if earlier > 0 {
        let mut long = String::new();
        if earlier == 4 {
            long.push('é');
        }
        for _ in 0..if earlier > 2 { 2500 } else { 50 } {
            long.push_str("/a");
        }
        long.push('b');
        let short = if earlier % 2 == 0 { "aBc/é_b" } else { "aBc/x_b" };
        metric.set(Cfg {
            case: if cfg.case == 0 { 1 } else { 0 },
            scheme: if cfg.scheme == 1 { 0 } else { 1 },
            ..cfg
        });
        let mut r = Vec::new();
        for c0 in [short, "aaaaaaab", &long] {
            let _ = metric.ranges(p.parse("ab"), c0, &mut r);
            let _ = metric.distance(p.parse("b"), c0);
            let _ = metric.distance(p.parse("ab"), c0);
        }
        metric.set(cfg);
    }
    let query = p.parse(q.str());
    let n = c.len();
    let (matched, score) = fuzzy_score(cfg, &eq, m as usize, &c.ch);
    if matched {
        reach(1);
    } else {
        reach(2);
    }
    if what & 3 != 0 {
        let d = metric.distance(query, c.str());
        observe(1, show(d));
        check(d.is_some() == matched, 1);
        if what & 2 != 0 && matched {
            check(d == Some(score), 2);
        }
    }
    if what & 16 != 0 {
        // Against a new metric.
        let used = run(&mut metric, query, &c);
        let mut fresh = AnyMetric::new(cfg);
        let want = run(&mut fresh, query, &c);
        observe(1, show(want.score));
        check(same_run(&used, &want), 8);
    }
    if what & 128 != 0 {
        let mut r = Vec::new();
        let e = metric.ranges(query, c.str(), &mut r);
        let d = metric.distance(query, c.str());
        observe(1, show(e));
        check(d == e, 9);
    }
    if what & 64 != 0 {
        let (d, _) = buffer_contract(&mut metric, query, &c, 3, 7);
        check(d.is_some() == matched, 11);
    }
    if what & 44 != 0 {
        let mut r = Vec::new();
        let d = metric.ranges(query, c.str(), &mut r);
        observe(2, show(d));
        observe_ranges(3, &r);
        check(d.is_some() == matched, 3);
        if what & 8 != 0 && matched {
            check(d == Some(score), 4);
        }
        if d.is_some() {
            let (ok, pos) = coverage(&c, &r);
            check(ok, 5);
            if what & 32 != 0 {
                let taken = if cfg.metric == 1 {
                    fuzzy_v1(cfg, &eq, m as usize, &c.ch).pos
                } else {
                    fuzzy_v2_taken(cfg, &eq, m as usize, &c.ch)
                };
                let mut same = true;
                for j in 0..n {
                    same &= pos[j] == taken[j];
                }
                check(same, 10);
            }
            let mut k = 0;
            let mut spelled = true;
            for j in 0..n {
                if pos[j] {
                    spelled &= k < m as usize && ceq(cfg, sens, q.ch[k.min(m as usize - 1)], c.ch[j]);
                    k += 1;
                }
            }
            check(spelled & (k == m as usize), 6);
        } else {
            check(r.is_empty(), 7);
        }
    }
}

/// Long runs of matches: a literal query of `pre` letters `a` and `m` arbitrary
/// characters, on a candidate of as many letters `a` (behind `/` for 10000 in
/// `pre`, behind `é` for 20000, with `-` between them for 30000, with `中` for
/// 40000) and `n` arbitrary ASCII characters, after a call
/// with as many letters as `pre` has hundred thousands in both.
///
/// `what`: 1 decision, 2 score, 4 ranges, 32 alignment.
#[no_mangle]
pub extern "C" fn lr(code: u64, pre: u64, m: u64, n: u64, what: u64) {
    let cfg = config(code);
    let mut q = Text::new();
    let mut c = Text::new();
    match pre / 10000 % 10 {
        1 => c.push_ascii(b'/'),
        2 => c.push_char('é', 2),
        _ => {},
    }
    for _ in 0..pre % 10000 {
        q.push_ascii(b'a');
        c.push_ascii(b'a');
        match pre / 10000 % 10 {
            3 => c.push_ascii(b'-'),
            4 => c.push_char('中', 3),
            _ => {},
        }
    }
    q.push_plain(Q, m as usize);
    c.push_any_ascii(C, n as usize);
    let sens = sensitive(cfg, &q.ch);
    let eq = matrix(cfg, sens, &q.ch, &c.ch);
    for row in eq.chunks(c.len()).skip((pre % 10000) as usize - 1) {
        let mut v = 0u64;
        for &e in row {
            v = v.rotate_left(1) ^ e as u64;
        }
        split(v);
    }
    let mut p = parser();
    let mut metric = AnyMetric::new(cfg);
    if pre >= 100000 {
        let mut q0 = Text::new();
        let mut c0 = Text::new();
        c0.push_char('é', 2);
        for _ in 0..pre / 100000 {
            q0.push_ascii(b'a');
            c0.push_ascii(b'a');
        }
        check(metric.distance(p.parse(q0.str()), c0.str()).is_some(), 8);
    }
    let query = p.parse(q.str());
    let (matched, score) = fuzzy_score(cfg, &eq, q.len(), &c.ch);
    if matched {
        reach(1);
    } else {
        reach(2);
    }
    if what & 3 != 0 {
        let d = metric.distance(query, c.str());
        observe(1, show(d));
        check(d.is_some() == matched, 1);
        if what & 2 != 0 && matched {
            check(d == Some(score), 2);
        }
    }
    if what & 36 != 0 {
        let mut r = Vec::new();
        let d = metric.ranges(query, c.str(), &mut r);
        observe(2, show(d));
        check(d.is_some() == matched, 3);
        if matched {
            let (ok, pos) = coverage(&c, &r);
            check(ok, 5);
            let mut k = 0;
            let mut spelled = true;
            for j in 0..c.len() {
                if pos[j] {
                    spelled &= k < q.len() && ceq(cfg, sens, q.ch[k.min(q.len() - 1)], c.ch[j]);
                    k += 1;
                }
            }
            check(spelled & (k == q.len()), 6);
            if what & 32 != 0 {
                let taken = if cfg.metric == 1 {
                    fuzzy_v1(cfg, &eq, q.len(), &c.ch).pos
                } else {
                    fuzzy_v2_taken(cfg, &eq, q.len(), &c.ch)
                };
                let mut same = true;
                for j in 0..c.len() {
                    same &= pos[j] == taken[j];
                }
                check(same, 10);
            }
        } else {
            check(r.is_empty(), 7);
        }
    }
}

/// Distances of matches with scores of every size: two literal queries of
/// concrete letters, of any two of the lengths below, with one arbitrary
/// character more in the query and `n` more in the candidate, and a third one
/// of the arbitrary characters alone.
#[no_mangle]
pub extern "C" fn ol(code: u64, n: u64) {
    const LENS: [u64; 12] = [0, 2, 5, 11, 23, 47, 95, 190, 383, 767, 1535, 4095];
    let cfg = config(code);
    let i = choose(X + 10, 12) as usize;
    let j = choose(X + 11, 12) as usize;
    assume(i >= j);
    let score = |pre: u64, id: u64| {
        let mut q = Text::new();
        let mut c = Text::new();
        for i in 0..pre {
            let b = b'a' + (i % 26) as u8;
            q.push_ascii(b);
            c.push_ascii(b);
        }
        let b = u(Q, 7) as u8;
        assume(plain(b));
        q.push_ascii(b);
        c.push_any_ascii(C + id, n as usize);
        let mut p = parser();
        let query = p.parse_not_extended(q.str());
        one_distance(cfg, query, &c)
    };
    ordered([score(LENS[i], 0), score(LENS[j], 50), score(0, 100)]);
}

/// Distances of matches with scores below zero: two characters apart by a gap
/// of `gap` (or none at all) in three candidates.
#[no_mangle]
pub extern "C" fn on(code: u64, gap: u64) {
    let cfg = config(code);
    let mut q = Text::new();
    q.push_ascii(b'a');
    q.push_ascii(b'b');
    let score = |gap: u64, id: u64| {
        let mut c = Text::new();
        c.push_any_ascii(C + id, 1);
        c.push_ascii(b'a');
        for _ in 0..gap {
            c.push_ascii(b'-');
        }
        c.push_any_ascii(C + id + 10, 2);
        let mut p = parser();
        one_distance(cfg, p.parse(q.str()), &c)
    };
    let i = choose(X + 10, 3);
    ordered([score(gap, 0), score([0, gap / 2, gap * 2][i as usize], 50), score(gap - gap / 3, 100)]);
}

fn one_distance(cfg: Cfg, query: norm::fzf::FzfQuery<'_>, c: &Text) -> norm::fzf::FzfDistance {
    use norm::Metric;
    let r = match AnyMetric::new(cfg) {
        AnyMetric::One(mut m) => m.distance(query, c.str()),
        AnyMetric::Two(mut m) => m.distance(query, c.str()),
    };
    r.unwrap_or_default()
}

/// A metric's options: what it starts with, and that each setter sets its
/// own option only, in whatever order they are called.
///
/// `how`: 0 `new`, 1 `default`; + 10 * the setters that are called (bit 0
/// normalization, 1 case, 2 scheme); + 100 * the order (0 as listed, 1
/// reversed); + 1000 * (1 = each is first set to something else).
#[no_mangle]
pub extern "C" fn df(code: u64, m: u64, n: u64, layout: u64, how: u64) {
    let full = config(code);
    let q = query_text(m, false);
    let c = if layout == 0 {
        let mut c = Text::new();
        c.push_any_ascii(C, n as usize);
        c
    } else {
        layout_text(C, layout)
    };
    let set = how / 10 % 10;
    let cfg = Cfg {
        metric: full.metric,
        norm: if set & 1 != 0 { full.norm } else { false },
        case: if set & 2 != 0 { full.case } else { 2 },
        scheme: if set & 4 != 0 { full.scheme } else { 0 },
    };
    if cfg.metric == 2 && m > 1 {
        split_matches(cfg, &q.ch, &c.ch);
    }
    let mut metric = if how % 10 == 0 { AnyMetric::fresh(cfg.metric) } else { AnyMetric::defaulted(cfg.metric) };
    let order = if how / 100 % 10 == 0 { [0, 1, 2] } else { [2, 1, 0] };
    if how >= 1000 {
        for i in order {
            if set >> i & 1 != 0 {
                metric.set_one(i, Cfg {
                    norm: !cfg.norm,
                    case: (cfg.case + 1) % 3,
                    scheme: (cfg.scheme + 1) % 3,
                    ..cfg
                });
            }
        }
    }
    for i in order {
        if set >> i & 1 != 0 {
            metric.set_one(i, cfg);
        }
    }
    let mut p = parser();
    let query = p.parse(q.str());
    let d = metric.distance(query, c.str());
    let eq = matrix(cfg, sensitive(cfg, &q.ch), &q.ch, &c.ch);
    let (matched, score) = fuzzy_score(cfg, &eq, m as usize, &c.ch);
    observe(1, show(d));
    if matched {
        reach(1);
    } else {
        reach(2);
    }
    check(d.is_some() == matched, 1);
    if matched {
        check(d == Some(score), 2);
    }
    let mut r = Vec::new();
    let e = metric.clone().ranges(query, c.str(), &mut r);
    check(e == d, 3);
}

/// Calls a harness by name (for the native driver).
pub fn call(name: &str, a: &[u64; 6]) -> bool {
    match name {
        "fz" => fz(a[0], a[1], a[2], a[3], a[4]),
        "fzu" => fzu(a[0], a[1], a[2], a[3]),
        "tmu" => tmu(a[0], a[1], a[2], a[3], a[4]),
        "lq" => lq(a[0], a[1], a[2], a[3], a[4], a[5]),
        "tm" => tm(a[0], a[1], a[2], a[3], a[4], a[5]),
        "gr" => gr(a[0], a[1], a[2], a[3]),
        "oc" => oc(a[0], a[1], a[2], a[3], a[4], a[5]),
        "gu" => gu(a[0], a[1], a[2], a[3]),
        "gw" => gw(a[0], a[1], a[2], a[3], a[4]),
        "gb" => gb(a[0], a[1], a[2], a[3], a[4]),
        "fb" => fb(a[0], a[1], a[2], a[3], a[4]),
        "fbu" => fbu(a[0], a[1], a[2], a[3], a[4]),
        "mt" => mt(a[0], a[1], a[2], a[3], a[4], a[5]),
        "mb" => mb(a[0], a[1], a[2], a[3], a[4], a[5]),
        "iv" => iv(a[0], a[1], a[2], a[3], a[4]),
        "hi" => hi(a[0], a[1], a[2], a[3], a[4], a[5]),
        "hp" => hp(a[0], a[1], a[2], a[3]),
        "cs" => cs(a[0], a[1], a[2], a[3]),
        "rp" => rp(a[0], a[1], a[2], a[3], a[4]),
        "rq" => rq(a[0], a[1], a[2], a[3], a[4]),
        "na" => na(a[0], a[1], a[2], a[3]),
        "vv" => vv(a[0], a[1], a[2]),
        "od" => od(a[0], a[1], a[2]),
        "hl" => hl(a[0], a[1], a[2], a[3], a[4], a[5]),
        "lr" => lr(a[0], a[1], a[2], a[3], a[4]),
        "ol" => ol(a[0], a[1]),
        "on" => on(a[0], a[1]),
        "lt" => lt(a[0], a[1], a[2], a[3], a[4], a[5]),
        "ru" => ru(a[0], a[1], a[2], a[3], a[4]),
        "df" => df(a[0], a[1], a[2], a[3], a[4]),
        "em" => em(a[0], a[1], a[2], a[3]),
        "le" => le(a[0], a[1], a[2], a[3], a[4], a[5]),
        _ => return false,
    }
    true
}
