//! Building symbolic queries, candidates and metrics.
use crate::spec::*;
use crate::sym::*;
use core::ops::Range;
use norm::fzf::{FzfDistance, FzfParser, FzfQuery, FzfScheme, FzfV1, FzfV2};
use norm::{CaseSensitivity, Metric};

/// Input ids.
pub const Q: u64 = 0;
pub const C: u64 = 1000;
pub const X: u64 = 3000;

/// A text together with its characters and their byte offsets.
pub struct Text {
    pub bytes: Vec<u8>,
    pub ch: Vec<char>,
    pub off: Vec<usize>,
}

impl Text {
    pub fn new() -> Self {
        Text { bytes: Vec::with_capacity(64), ch: Vec::with_capacity(64), off: vec![0] }
    }
    pub fn str(&self) -> &str {
        unsafe { core::str::from_utf8_unchecked(&self.bytes) }
    }
    /// An ASCII character.
    pub fn push_ascii(&mut self, b: u8) {
        self.bytes.push(b);
        self.ch.push(b as char);
        self.off.push(self.bytes.len());
    }
    pub fn push_str(&mut self, s: &str) {
        for c in s.chars() {
            self.push_char(c, c.len_utf8());
        }
    }
    /// A character that takes `width` bytes.
    pub fn push_char(&mut self, c: char, width: usize) {
        let u = c as u32;
        match width {
            1 => self.bytes.push(u as u8),
            2 => {
                self.bytes.push(0xc0 | (u >> 6) as u8);
                self.bytes.push(0x80 | (u & 0x3f) as u8);
            },
            3 => {
                self.bytes.push(0xe0 | (u >> 12) as u8);
                self.bytes.push(0x80 | (u >> 6 & 0x3f) as u8);
                self.bytes.push(0x80 | (u & 0x3f) as u8);
            },
            _ => {
                self.bytes.push(0xf0 | (u >> 18) as u8);
                self.bytes.push(0x80 | (u >> 12 & 0x3f) as u8);
                self.bytes.push(0x80 | (u >> 6 & 0x3f) as u8);
                self.bytes.push(0x80 | (u & 0x3f) as u8);
            },
        }
        self.ch.push(c);
        self.off.push(self.bytes.len());
    }
    /// `n` arbitrary ASCII characters.
    pub fn push_any_ascii(&mut self, id: u64, n: usize) {
        for i in 0..n {
            self.push_ascii(u(id + i as u64, 7) as u8);
        }
    }
    /// `n` arbitrary ASCII characters that have no meaning in a query,
    /// wherever they stand.
    pub fn push_plain(&mut self, id: u64, n: usize) {
        for i in 0..n {
            let b = u(id + i as u64, 7) as u8;
            assume(plain(b));
            self.push_ascii(b);
        }
    }
    pub fn len(&self) -> usize {
        self.ch.len()
    }
}

pub fn plain(b: u8) -> bool {
    (b != b' ')
        & (b != b'!')
        & (b != b'\'')
        & (b != b'^')
        & (b != b'$')
        & (b != b'|')
        & (b != b'\\')
}

/// Representatives of every character class and of the normalizable blocks,
/// by UTF-8 width.
pub const W2: [char; 8] = ['é', 'É', 'ö', 'ñ', 'ß', 'א', '²', '\u{a0}'];
pub const W3: [char; 8] = ['中', 'ạ', '　', '。', '〇', 'ⅷ', 'Ⅷ', 'Ạ'];
pub const W4: [char; 4] = ['😀', '𝟘', '𐐀', '𐐨'];

/// A character by layout digit: 1 any ASCII character; 2, 3, 4 a
/// representative that takes as many bytes; 5, 6, 7 any character of two,
/// three, four bytes.
pub fn any_char(id: u64, digit: u64) -> char {
    match digit {
        1 => u(id, 7) as u8 as char,
        2 => W2[below(id, 8) as usize],
        3 => W3[below(id, 8) as usize],
        5 => code_point(u(id, 11) as u32, 0x80, 0x7ff),
        6 => code_point(u(id, 16) as u32, 0x800, 0xffff),
        7 => code_point(u(id, 21) as u32, 0x10000, 0x10ffff),
        _ => W4[below(id, 4) as usize],
    }
}

fn code_point(v: u32, lo: u32, hi: u32) -> char {
    assume((v >= lo) & (v <= hi) & !((v >= 0xd800) & (v <= 0xdfff)));
    unsafe { char::from_u32_unchecked(v) }
}

/// The UTF-8 width of the characters of a layout digit.
pub fn width_of(digit: u64) -> usize {
    (if digit > 4 { digit - 3 } else { digit }) as usize
}

impl Text {
    /// One character per decimal digit of `layout` (most significant first),
    /// see [`any_char`].
    pub fn push_layout(&mut self, id: u64, layout: u64) {
        let mut div = 1;
        while layout / div >= 10 {
            div *= 10;
        }
        let mut i = 0;
        while div > 0 {
            let w = layout / div % 10;
            self.push_char(any_char(id + i, w), width_of(w));
            div /= 10;
            i += 1;
        }
    }
}

/// `code` = metric * 1000 + case * 100 + norm * 10 + scheme, where 9 in a digit
/// means "every value" (case split).
pub fn config(code: u64) -> Cfg {
    let pick = |d: u64, id: u64, n: u64| if d == 9 { choose(id, n) } else { d };
    Cfg {
        metric: match code / 1000 % 10 {
            9 => 1 + choose(X, 2),
            d => d,
        },
        case: pick(code / 100 % 10, X + 1, 3),
        norm: pick(code / 10 % 10, X + 2, 2) == 1,
        scheme: pick(code % 10, X + 3, 3),
    }
}

#[derive(Clone)]
pub enum AnyMetric {
    One(FzfV1),
    Two(FzfV2),
}

pub fn case_of(case: u64) -> CaseSensitivity {
    match case {
        0 => CaseSensitivity::Sensitive,
        1 => CaseSensitivity::Insensitive,
        _ => CaseSensitivity::Smart,
    }
}

pub fn scheme_of(scheme: u64) -> FzfScheme {
    match scheme {
        0 => FzfScheme::Default,
        1 => FzfScheme::Path,
        _ => FzfScheme::History,
    }
}

impl AnyMetric {
    pub fn new(cfg: Cfg) -> Self {
        let mut m = if cfg.metric == 1 {
            AnyMetric::One(FzfV1::new())
        } else {
            AnyMetric::Two(FzfV2::new())
        };
        m.set(cfg);
        m
    }

    pub fn fresh(metric: u64) -> Self {
        if metric == 1 {
            AnyMetric::One(FzfV1::new())
        } else {
            AnyMetric::Two(FzfV2::new())
        }
    }

    pub fn defaulted(metric: u64) -> Self {
        if metric == 1 {
            AnyMetric::One(FzfV1::default())
        } else {
            AnyMetric::Two(FzfV2::default())
        }
    }

    /// Sets one option: 0 normalization, 1 case sensitivity, 2 scheme.
    pub fn set_one(&mut self, which: u64, cfg: Cfg) {
        match (self, which) {
            (AnyMetric::One(m), 0) => drop(m.set_candidate_normalization(cfg.norm)),
            (AnyMetric::One(m), 1) => drop(m.set_case_sensitivity(case_of(cfg.case))),
            (AnyMetric::One(m), _) => drop(m.set_scoring_scheme(scheme_of(cfg.scheme))),
            (AnyMetric::Two(m), 0) => drop(m.set_candidate_normalization(cfg.norm)),
            (AnyMetric::Two(m), 1) => drop(m.set_case_sensitivity(case_of(cfg.case))),
            (AnyMetric::Two(m), _) => drop(m.set_scoring_scheme(scheme_of(cfg.scheme))),
        }
    }

    pub fn set(&mut self, cfg: Cfg) {
        match self {
            AnyMetric::One(m) => {
                m.set_candidate_normalization(cfg.norm)
                    .set_case_sensitivity(case_of(cfg.case))
                    .set_scoring_scheme(scheme_of(cfg.scheme));
            },
            AnyMetric::Two(m) => {
                m.set_candidate_normalization(cfg.norm)
                    .set_case_sensitivity(case_of(cfg.case))
                    .set_scoring_scheme(scheme_of(cfg.scheme));
            },
        }
    }

    pub fn distance(&mut self, q: FzfQuery<'_>, c: &str) -> Option<i64> {
        match self {
            AnyMetric::One(m) => m.distance(q, c),
            AnyMetric::Two(m) => m.distance(q, c),
        }
        .map(FzfDistance::into_score)
    }

    pub fn ranges(
        &mut self,
        q: FzfQuery<'_>,
        c: &str,
        r: &mut Vec<Range<usize>>,
    ) -> Option<i64> {
        match self {
            AnyMetric::One(m) => m.distance_and_ranges(q, c, r),
            AnyMetric::Two(m) => m.distance_and_ranges(q, c, r),
        }
        .map(FzfDistance::into_score)
    }
}

pub fn parser() -> FzfParser {
    FzfParser::new()
}

pub fn show(d: Option<i64>) -> u64 {
    match d {
        None => u64::MAX,
        Some(s) => s as u64,
    }
}

pub fn observe_ranges(tag: u64, r: &[Range<usize>]) {
    observe(tag, r.len() as u64);
    let mut sum = 0u64;
    for x in r {
        sum = sum.wrapping_mul(31).wrapping_add((x.start * 7 + x.end) as u64);
    }
    observe(tag + 1, sum);
}

/// The characters the ranges cover, and whether the ranges are non-empty,
/// in bounds, on character boundaries, and sorted with gaps between them.
pub fn coverage(t: &Text, r: &[Range<usize>]) -> (bool, Vec<bool>) {
    let n = t.len();
    let mut ok = true;
    let mut pos = vec![false; n];
    for (i, x) in r.iter().enumerate() {
        ok &= x.start < x.end;
        if i > 0 {
            ok &= r[i - 1].end < x.start;
        }
        let mut starts = false;
        let mut ends = false;
        for j in 0..n {
            starts |= x.start == t.off[j];
            ends |= x.end == t.off[j + 1];
            let inside = (x.start <= t.off[j]) & (t.off[j + 1] <= x.end);
            ok &= !(inside & pos[j]);
            pos[j] |= inside;
        }
        ok &= starts & ends;
    }
    (ok, pos)
}
