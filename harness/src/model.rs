//! Shared generators and plain models: a text is a String, a delta a list of copied stretches and inserted texts.
use crate::fw::*;
use xi_rope::{DeltaBuilder, DeltaElement, Rope, RopeDelta};

pub const CHARS: &[char] = &['a', 'b', '\n', 'é', '漢', '😀', 'c', 'd', '\r', 'A', 'x', ' ', '\0', '\t', '\u{feff}', '\u{300}', '\u{10ffff}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}'];

pub fn gen_char(c: &mut Choices) -> char {
    if c.small {
        CHARS[c.below(3)]
    } else if c.chance(1, 3) {
        CHARS[c.below(CHARS.len())]
    } else {
        (b'a' + c.below(26) as u8) as char
    }
}
pub fn gen_text(c: &mut Choices, max: usize) -> String {
    let n = c.below(max + 1);
    (0..n).map(|_| gen_char(c)).collect()
}
/// a text of up to `max` bytes made of repeated blocks, so that it spans many leaves with few choices
pub fn gen_big(c: &mut Choices, max: usize) -> String {
    let mut s = String::new();
    let goal = c.below(max + 1);
    let mut rounds = 0;
    while s.len() < goal && rounds < 200 {
        rounds += 1;
        let blk: String = match c.below(6) {
            0 => "abcdefghijklmnopqrstuvwxyz0123456789".into(),
            1 => "line of text\n".into(),
            2 => "漢字😀é".into(),
            3 => gen_text(c, 6),
            4 => gen_char(c).to_string(),
            _ => "x".into(),
        };
        let k = match c.below(4) {
            0 => c.below(5),
            1 => c.below(100),
            2 => c.below(600),
            _ => 1,
        };
        for _ in 0..k {
            if s.len() < max {
                s.push_str(&blk);
            }
        }
        if c.chance(1, 12) {
            break;
        }
    }
    s
}
/// char boundaries of s, including 0 and len
pub fn bounds(s: &str) -> Vec<usize> {
    (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect()
}
pub fn pick_bound(c: &mut Choices, s: &str) -> usize {
    let mut i = c.below(s.len() + 1);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
pub fn pick_iv(c: &mut Choices, s: &str) -> (usize, usize) {
    let a = pick_bound(c, s);
    let b = pick_bound(c, s);
    (a.min(b), a.max(b))
}

#[derive(Clone, Debug, PartialEq)]
pub enum El {
    Copy(usize, usize),
    Ins(String),
}
#[derive(Clone, Debug)]
pub struct DM {
    pub els: Vec<El>,
    pub base_len: usize,
}
impl DM {
    pub fn of(d: &RopeDelta) -> DM {
        DM {
            els: d
                .els
                .iter()
                .map(|e| match e {
                    DeltaElement::Copy(a, b) => El::Copy(*a, *b),
                    DeltaElement::Insert(n) => El::Ins(String::from(n)),
                })
                .collect(),
            base_len: d.base_len,
        }
    }
    pub fn apply(&self, s: &str) -> String {
        self.els
            .iter()
            .map(|e| match e {
                El::Copy(a, b) => s[*a..*b].to_string(),
                El::Ins(t) => t.clone(),
            })
            .collect()
    }
    pub fn new_len(&self) -> usize {
        self.els.iter().map(|e| match e { El::Copy(a, b) => b - a, El::Ins(t) => t.len() }).sum()
    }
    /// new offset of each surviving byte
    pub fn survive(&self) -> Vec<Option<usize>> {
        let mut v = vec![None; self.base_len];
        let mut k = 0;
        for e in &self.els {
            match e {
                El::Copy(a, b) => {
                    for i in *a..*b {
                        v[i] = Some(k);
                        k += 1;
                    }
                }
                El::Ins(t) => k += t.len(),
            }
        }
        v
    }
    /// where a position goes: past the end of what survives just before it, and past an insertion there unless it
    /// directly follows a surviving byte (or starts the text) and stays in front
    pub fn transform(&self, p: usize, after: bool) -> usize {
        if p == 0 && !after {
            return 0;
        }
        let v = self.survive();
        if !after && p >= 1 && p <= v.len() {
            if let Some(k) = v[p - 1] {
                return k + 1;
            }
        }
        v.iter().enumerate().skip(p).find_map(|(_, x)| *x).unwrap_or(self.new_len())
    }
    pub fn raw(&self) -> RopeDelta {
        RopeDelta {
            els: self
                .els
                .iter()
                .map(|e| match e {
                    El::Copy(a, b) => DeltaElement::Copy(*a, *b),
                    El::Ins(t) => DeltaElement::Insert(Rope::from(t)),
                })
                .collect(),
            base_len: self.base_len,
        }
    }
}

/// disjoint increasing edits (beg, end, replacement) of s
pub fn gen_edits(c: &mut Choices, s: &str, maxn: usize, maxins: usize) -> Vec<(usize, usize, String)> {
    let n = c.below(maxn + 1);
    let mut cuts: Vec<usize> = (0..2 * n).map(|_| pick_bound(c, s)).collect();
    cuts.sort();
    let mut out: Vec<(usize, usize, String)> = vec![];
    for i in 0..n {
        let t = gen_text(c, maxins);
        out.push((cuts[2 * i], cuts[2 * i + 1], t));
    }
    out
}
/// a delta built through the builder, and its independently computed meaning
pub fn gen_delta(c: &mut Choices, s: &str, maxn: usize, maxins: usize) -> (RopeDelta, DM) {
    let edits = gen_edits(c, s, maxn, maxins);
    c.note(|| format!("edits {:?}", edits));
    build_delta(s, &edits)
}
pub fn build_delta(s: &str, edits: &[(usize, usize, String)]) -> (RopeDelta, DM) {
    let mut b = DeltaBuilder::new(s.len());
    let mut els = vec![];
    let mut last = 0;
    for (x, y, t) in edits {
        if t.is_empty() {
            b.delete(*x..*y);
        } else {
            b.replace(*x..*y, Rope::from(t));
        }
        if *x > last {
            els.push(El::Copy(last, *x));
        }
        if !t.is_empty() {
            els.push(El::Ins(t.clone()));
        }
        last = *y;
    }
    if last < s.len() {
        els.push(El::Copy(last, s.len()));
    }
    let d = b.build();
    (d, DM { els, base_len: s.len() })
}
