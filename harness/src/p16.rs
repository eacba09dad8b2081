//! P16: searching a rope for a text.
use crate::fw::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use xi_rope::find::{compare_cursor_str, compare_cursor_str_casei, find, find_progress, CaseMatching, FindResult};
use xi_rope::{Cursor, Rope};

/// characters that change under lowercasing in uncommon ways, or share a lead byte with one that does
const ODD: &[char] = &[
    'i', 'I', 'İ', 'ı', 'ĩ', 'Ĩ', 'k', 'K', '\u{212a}', '™', 'a', 'A', 'é', 'É', 'Σ', 'σ', 'ς', 'ß', 'ẞ', '\u{307}', 'å', 'Å', '\u{212b}',
    'Ω', '\u{2126}', 'ω', 'Ǆ', 'ǅ', 'ǆ', '漢', '😀', '\u{10400}', '\u{10428}', 'z', 'Z', '@', '[', '`', '{', '\n', '\r', ' ', 's', 'S', 'ſ',
];
fn odd(c: &mut Choices, max: usize) -> String {
    let n = c.below(max + 1);
    (0..n).map(|_| if c.small { ODD[c.below(3)] } else if c.flip() { *c.pick(ODD) } else { gen_char(c) }).collect()
}
/// few different characters, so that partial matches abound
fn narrow(c: &mut Choices, max: usize) -> String {
    let (x, y, z) = (*c.pick(ODD), *c.pick(ODD), *c.pick(ODD));
    let n = c.below(max + 1);
    (0..n).map(|_| *c.pick(&[x, x, y, z])).collect()
}
fn lower(s: &str) -> String {
    s.chars().flat_map(|ch| ch.to_lowercase()).collect()
}
/// the text at byte p begins with the pattern; gives the end of the match
fn here(text: &str, p: usize, pat: &str, cm: CaseMatching) -> Option<usize> {
    if cm == CaseMatching::Exact {
        return if text[p..].starts_with(pat) { Some(p + pat.len()) } else { None };
    }
    let pat = lower(pat);
    let mut rest = &pat[..];
    for (i, ch) in text[p..].char_indices() {
        for l in ch.to_lowercase() {
            if !rest.starts_with(l) {
                return None;
            }
            rest = &rest[l.len_utf8()..];
            if rest.is_empty() {
                return Some(p + i + ch.len_utf8());
            }
        }
    }
    None
}
fn first(text: &str, from: usize, pat: &str, cm: CaseMatching) -> Option<(usize, usize)> {
    if pat.is_empty() {
        return None;
    }
    // only positions whose first character can match
    text[from..].char_indices().map(|(i, _)| from + i).find_map(|p| here(text, p, pat, cm).map(|e| (p, e)))
}
fn other_case(c: &mut Choices, s: &str) -> String {
    s.chars()
        .map(|ch| match c.below(4) {
            0 if ch.to_uppercase().count() == 1 => ch.to_uppercase().next().unwrap(),
            1 if ch.to_lowercase().count() == 1 => ch.to_lowercase().next().unwrap(),
            _ => ch,
        })
        .collect()
}
fn case(c: &mut Choices) -> Result<bool, String> {
    let mut text = if c.small {
        odd(c, 3)
    } else {
        match c.below(5) {
            0 => odd(c, 20),
            1 => narrow(c, 30),
            2 => {
                let b = narrow(c, 5);
                let k = c.below(900);
                b.repeat(k)
            }
            3 => gen_big(c, 4000),
            _ => {
                let m = *c.pick(&[500, 1020, 1500, 2500, 6000]);
                let fill = *c.pick(&["x", "ab", "é", "İ", "漢", "kK"]);
                fill.repeat(m / fill.len())
            }
        }
    };
    // a needle, mostly one that is there
    let mut pat = match if c.small { 0 } else { c.below(4) } {
        0 => odd(c, if c.small { 2 } else { 4 }),
        1 => {
            let p = pick_bound(c, &text);
            let n = *c.pick(&[1, 2, 3, 5, 10, 40, 600, 1500]);
            text[p..].chars().take(n).collect()
        }
        2 => narrow(c, 6),
        _ => odd(c, 30),
    };
    if !c.small && c.flip() {
        pat = other_case(c, &pat);
    }
    // plant it, or most of it, preferably where a piece might end
    if !c.small {
        for _ in 0..c.below(4) {
            let near = *c.pick(&[0, 511, 512, 1023, 1024, 1022, 2046, text.len()]);
            let mut p = if c.flip() { near.min(text.len()) } else { c.below(text.len() + 1) };
            p = p.saturating_sub(c.below(pat.len() + 3));
            while !text.is_char_boundary(p) {
                p -= 1;
            }
            let q = other_case(c, &pat);
            let k = if c.flip() { q.chars().count() } else { q.chars().count().saturating_sub(1) };
            text.insert_str(p, &q.chars().take(k).collect::<String>());
        }
    }
    let mut rope = Rope::from(&text);
    if !c.small {
        // pieces of uneven sizes
        for _ in 0..c.below(4) {
            let (a, b) = pick_iv(c, &text);
            let mid = rope.slice(a..b);
            let mut r = rope.slice(0..a);
            r = r + mid;
            rope = r + rope.slice(b..);
        }
    }
    let cm = if c.flip() { CaseMatching::CaseInsensitive } else { CaseMatching::Exact };
    c.note(|| format!("text {:?} pattern {:?} exact {}", text, pat, cm == CaseMatching::Exact));
    let mut from = if c.flip() { 0 } else { pick_bound(c, &text) };
    let mut hits = 0;
    for _ in 0..4 {
        let want = first(&text, from, &pat, cm);
        let mut cur = Cursor::new(&rope, from);
        let mut lines = rope.lines_raw(from..);
        let got = find(&mut cur, &mut lines, cm, &pat, None);
        ensure_eq!(got, want.map(|w| w.0), "find");
        if let Some((_, e)) = want {
            ensure_eq!(cur.pos(), e, "cursor after find");
            hits += 1;
        }
        // the same in small steps
        let mut cur = Cursor::new(&rope, from);
        let steps = *c.pick(&[1, 1, 2, 5]);
        let mut left = 2 * text.len() + 100;
        loop {
            let at = cur.pos();
            match find_progress(&mut cur, &mut lines, cm, &pat, steps, None) {
                FindResult::Found(p) => {
                    ensure_eq!(Some((p, cur.pos())), want, "find_progress");
                    break;
                }
                FindResult::NotFound => {
                    ensure_eq!(None, want, "find_progress");
                    break;
                }
                FindResult::TryAgain => {
                    ensure!(cur.pos() > at && want.map_or(true, |w| w.0 >= cur.pos()), "find_progress went from {} to {}", at, cur.pos());
                }
            }
            left -= 1;
            ensure!(left > 0, "find_progress does not end");
        }
        // matching in place
        let at = want.map(|w| w.0).filter(|_| c.flip()).unwrap_or_else(|| pick_bound(c, &text));
        let mut cur = Cursor::new(&rope, at);
        let w = if pat.is_empty() { Some(at) } else { here(&text, at, &pat, cm) };
        let g = if cm == CaseMatching::Exact {
            compare_cursor_str(&mut cur, &mut lines, &pat)
        } else if pat.is_empty() {
            Some(at)
        } else {
            compare_cursor_str_casei(&mut cur, &mut lines, &lower(&pat))
        };
        ensure_eq!(g, w.map(|_| at), "match in place");
        if let Some(e) = w {
            ensure_eq!(cur.pos(), e, "cursor after a match in place");
        }
        match want {
            Some((p, e)) => {
                from = if c.flip() { e } else { p + text[p..].chars().next().unwrap().len_utf8() };
            }
            None => break,
        }
    }
    Ok(hits > 0 && text.len() > 1)
}
/// what the contracts assume about `char::to_lowercase`, for every character there is
fn lowercase(c: &mut Choices) -> Result<bool, String> {
    let block = c.below(0x1100) as u32;
    for u in block * 0x100..(block + 1) * 0x100 {
        let ch = match char::from_u32(u) {
            Some(ch) => ch,
            None => continue,
        };
        let l: Vec<char> = ch.to_lowercase().collect();
        ensure!(!l.is_empty(), "{:?} has no lower case", ch);
        let ok = match l[0] {
            'i' => matches!(ch, 'i' | 'I' | 'İ'),
            'k' => matches!(ch, 'k' | 'K' | '\u{212a}'),
            f if ('a'..='z').contains(&f) => ch == f || ch as u32 == f as u32 - 0x20,
            f if (f as u32) < 0x80 => ch == f,
            _ => true,
        };
        ensure!(ok, "{:?} is folded to {:?}", ch, l);
    }
    Ok(true)
}
pub fn gens() -> Vec<Gen> {
    vec![
        Gen { name: "lower", case: lowercase, exhaustive: (0x1100, 0x1100), random: (1, 1) },
        Gen { name: "find", case, exhaustive: (20_000, 200_000), random: (120_000, 1_500_000) },
    ]
}
