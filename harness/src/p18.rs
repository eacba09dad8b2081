//! P18: line break opportunities.
use crate::fw::*;
use crate::{ensure, ensure_eq};
use xi_unicode::{linebreak_property, linebreak_property_str, LineBreakIterator, LineBreakLeafIter};

#[cfg(have_tables)]
#[allow(dead_code, clippy::all)]
mod tables {
    include!(concat!(env!("OUT_DIR"), "/tables.rs"));
}
#[cfg(have_lbcursor)]
#[allow(dead_code, unused)]
mod lbcursor {
    use xi_rope::{Cursor, Interval, Rope, RopeInfo};
    use xi_unicode::LineBreakLeafIter;
    include!(concat!(env!("OUT_DIR"), "/lbcursor.rs"));
    pub fn from(t: &Rope, pos: usize) -> Vec<usize> {
        let mut c = LineBreakCursor::new(t, pos);
        let mut r = vec![];
        while r.len() <= t.len() {
            let (p, _) = c.next();
            r.push(p);
            if p >= t.len() {
                break;
            }
        }
        r
    }
}

/// the assumptions axiom_tables, axiom_step_eqv and axiom_step_break of contracts/unicode.vt, for the whole of the tables
#[cfg(have_tables)]
fn facts(_: &mut Choices) -> Result<bool, String> {
    use tables::*;
    ensure_eq!(N_LINEBREAK_CATEGORIES, 43, "number of classes");
    ensure!(LINEBREAK_1_2.iter().all(|&x| x < 43), "LINEBREAK_1_2 has a class out of range");
    ensure!(LINEBREAK_3_CHILD.iter().all(|&x| x < 43), "LINEBREAK_3_CHILD has a class out of range");
    ensure!(LINEBREAK_4_LEAVES.iter().all(|&x| x < 43), "LINEBREAK_4_LEAVES has a class out of range");
    ensure!(LINEBREAK_3_ROOT[32..].iter().all(|&x| x < 183), "LINEBREAK_3_ROOT points out of the child table");
    ensure!(LINEBREAK_4_ROOT[16..].iter().all(|&x| x < 15), "LINEBREAK_4_ROOT points out of the middle table");
    ensure!(LINEBREAK_4_MID.iter().all(|&x| x < 147), "LINEBREAK_4_MID points out of the leaf table");
    let sm = &LINEBREAK_STATE_MACHINE;
    ensure!(sm.iter().all(|&x| x < 89 || (x >= 0x80 && x & 0x3f < 43)), "state machine leads out of its states");
    let eqv = |a: u8, b: u8| a == b || ([2, 9].contains(&a) && [2, 9].contains(&b)) || ([48, 55].contains(&a) && [48, 55].contains(&b));
    let step = |s: u8, c: u8| sm[s as usize * 43 + c as usize];
    for a in 0..89u8 {
        for c in 0..43u8 {
            let x = step(a, c);
            if x >= 0x80 {
                ensure!(eqv(x & 0x3f, c), "after a break in state {} before class {} the machine is in state {}, not as if it started there", a, c, x & 0x3f);
            }
            for b in 0..89u8 {
                if eqv(a, b) {
                    let y = step(b, c);
                    ensure_eq!(x & 0xc0, y & 0xc0, "states {} and {} differ on class {}", a, b, c);
                    ensure!(if x >= 0x80 { eqv(x & 0x3f, y & 0x3f) } else { eqv(x, y) }, "states {} and {} lead apart on class {}", a, b, c);
                }
            }
        }
    }
    Ok(true)
}
#[cfg(not(have_tables))]
fn facts(_: &mut Choices) -> Result<bool, String> {
    Ok(false)
}
/// both lookups agree on every character there is, and give its length
fn property(c: &mut Choices) -> Result<bool, String> {
    let plane = c.below(0x110);
    let mut b = [0; 4];
    for cp in plane * 0x1000..(plane + 1) * 0x1000 {
        let Some(ch) = std::char::from_u32(cp as u32) else { continue };
        let s: &str = ch.encode_utf8(&mut b);
        ensure_eq!(linebreak_property_str(s, 0), (linebreak_property(ch), s.len()), "class of {:?}", ch);
    }
    Ok(true)
}
/// characters of every class (two or three of each where there are), built once
fn alphabet() -> &'static Vec<char> {
    static A: std::sync::OnceLock<Vec<char>> = std::sync::OnceLock::new();
    A.get_or_init(|| {
        let mut by: Vec<Vec<char>> = vec![vec![]; 256];
        for cp in (0..0x3000).chain(0xac00..0xac40).chain(0xd7b0..0xd7ff).chain(0xfe00..0x10000).chain(0x1f1e6..0x1fa00).chain(0xe0000..0xe0200) {
            if let Some(ch) = std::char::from_u32(cp) {
                let v = &mut by[linebreak_property(ch) as usize];
                if v.len() < 2 || (v.len() < 4 && v[v.len() - 1].len_utf8() < ch.len_utf8()) {
                    v.push(ch);
                }
            }
        }
        by.concat()
    })
}
fn text(c: &mut Choices) -> String {
    let a = alphabet();
    if c.small {
        const S: &[char] = &['a', ' ', '\n', '\r', '\u{200d}', '\u{301}', '\u{1f466}', '-', '(', '"', '\u{5d0}', '\u{1f1e6}', '\u{200b}', '1'];
        let n = c.below(6);
        return (0..n).map(|_| *c.pick(S)).collect();
    }
    let few: Vec<char> = (0..c.range(2, 6)).map(|_| *c.pick(a)).collect();
    let n = c.below(24);
    (0..n)
        .map(|_| match c.below(4) {
            0 => *c.pick(a),
            1 => *c.pick(&['\n', '\r', ' ', 'a', '\u{200d}', '\u{1f466}']),
            _ => *c.pick(&few),
        })
        .collect()
}
fn whole(s: &str) -> Vec<usize> {
    LineBreakIterator::new(s).map(|(p, _)| p).take(s.len() + 2).collect()
}
/// the pieces one after the other through the incremental iterator
fn fed(pieces: &[&str]) -> Vec<usize> {
    let pieces: Vec<&str> = pieces.to_vec();
    let mut r = vec![];
    let total: usize = pieces.iter().map(|p| p.len()).sum();
    if total == 0 {
        return r;
    }
    let mut it = LineBreakLeafIter::new(pieces[0], 0);
    let mut base = 0;
    for p in &pieces {
        let mut n = 0;
        loop {
            let (q, _) = it.next(p);
            if q >= p.len() {
                break;
            }
            r.push(base + q);
            n += 1;
            if n > p.len() {
                r.push(usize::MAX);
                return r;
            }
        }
        base += p.len();
    }
    r.push(total);
    r
}
fn case(c: &mut Choices) -> Result<bool, String> {
    let s = text(c);
    c.note(|| format!("text {:?}", s));
    let w = whole(&s);
    if s.is_empty() {
        ensure!(w.is_empty(), "breaks {:?} in the empty text", w);
        return Ok(false);
    }
    ensure_eq!(w.last(), Some(&s.len()), "the last break of {:?}", w);
    let mut last = 0;
    for &p in &w {
        ensure!(p > last && s.is_char_boundary(p), "break {} of {:?} is out of order or inside a character", p, w);
        last = p;
    }
    for (k, &p) in w.iter().enumerate() {
        let r: Vec<usize> = whole(&s[p..]).iter().map(|x| x + p).collect();
        ensure_eq!(r, w[k + 1..].to_vec(), "resumed at break {}", p);
        if p < s.len() {
            let r: Vec<usize> = fed_from(&s, p);
            ensure_eq!(r, w[k + 1..].to_vec(), "incrementally, resumed at break {}", p);
        }
    }
    // cut anywhere
    let cuts: Vec<usize> = s.char_indices().map(|x| x.0).skip(1).filter(|_| c.flip()).collect();
    let mut pieces = vec![];
    let mut a = 0;
    for &b in cuts.iter().chain(std::iter::once(&s.len())) {
        pieces.push(&s[a..b]);
        a = b;
        if c.below(8) == 7 && !pieces.is_empty() {
            pieces.push("");
        }
    }
    c.note(|| format!("pieces {:?}", pieces));
    ensure_eq!(fed(&pieces), w, "fed in the pieces {:?}", pieces);
    Ok(w.len() > 1)
}
fn fed_from(s: &str, p: usize) -> Vec<usize> {
    let mut it = LineBreakLeafIter::new(s, p);
    let mut r = vec![];
    loop {
        let (q, _) = it.next(s);
        r.push(q);
        if q >= s.len() || r.len() > s.len() {
            return r;
        }
    }
}
/// the cursor over a rope
#[cfg(have_lbcursor)]
fn rope(c: &mut Choices) -> Result<bool, String> {
    use xi_rope::Rope;
    let mut s = String::new();
    let parts = if c.small { 1 } else { c.range(1, 4) };
    for _ in 0..parts {
        let t = text(c);
        s.push_str(&t);
        if !c.small {
            let f = *c.pick(&["a", "x ", " ", "\u{301}", "\u{200d}", "-\u{5d0}", "(", "\u{1f1e6}", "1,"]);
            let k = c.below(1200);
            s.push_str(&f.repeat(k / f.len()));
        }
    }
    c.note(|| format!("text of {} bytes {:?}...", s.len(), s.chars().take(60).collect::<String>()));
    // glue single characters together so that leaves end anywhere
    let r = if c.flip() { Rope::from(&s) } else { (0..4).map(|k| { let n = s.len(); let f = |x: usize| { let mut y = n * x / 4; while !s.is_char_boundary(y) { y += 1 } y }; Rope::from(&s[f(k)..f(k + 1)]) }).fold(Rope::from(""), |a, b| a + b) };
    let w = whole(&s);
    if s.is_empty() {
        ensure_eq!(lbcursor::from(&r, 0), vec![0], "the end of the empty text");
        return Ok(false);
    }
    ensure_eq!(lbcursor::from(&r, 0), w, "over the rope");
    let k = c.below(w.len());
    ensure_eq!(lbcursor::from(&r, w[k]), if w[k] == s.len() { vec![s.len()] } else { w[k + 1..].to_vec() }, "over the rope, from break {}", w[k]);
    Ok(w.len() > 1)
}
#[cfg(not(have_lbcursor))]
fn rope(_: &mut Choices) -> Result<bool, String> {
    Ok(false)
}

pub fn gens() -> Vec<Gen> {
    vec![
        Gen { name: "tables", case: facts, exhaustive: (1, 1), random: (0, 0) },
        Gen { name: "property", case: property, exhaustive: (0x110, 0x110), random: (0, 0) },
        Gen { name: "breaks", case, exhaustive: (100_000, 1_000_000), random: (400_000, 4_000_000) },
        Gen { name: "rope", case: rope, exhaustive: (3_000, 30_000), random: (40_000, 400_000) },
    ]
}
