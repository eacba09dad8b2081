//! P05: line, UTF-16 and character coordinates against a scan of the whole text.
use crate::fw::*;
use crate::model::*;
use crate::p04::gen_rope;
use crate::{ensure, ensure_eq};
use unicode_segmentation::{GraphemeCursor, GraphemeIncomplete};
use xi_rope::rope::{BaseMetric, LinesMetric, Utf16CodeUnitsMetric};
use xi_rope::{Cursor, Rope};

/// conversions at some positions of the text, all of them when it is short
fn coords(c: &mut Choices) -> Result<bool, String> {
    let max = if c.small { 8 } else { *c.pick(&[10, 1500, 6000, 30000]) };
    let (r, s) = gen_rope(c, max);
    let cb = bounds(&s);
    c.note(|| format!("{} bytes{}", s.len(), if s.len() < 60 { format!(" {:?}", s) } else { String::new() }));
    // scan
    let (mut nl, mut un) = (vec![0usize; s.len() + 1], vec![0usize; s.len() + 1]);
    let (mut lines, mut u) = (0, 0);
    let mut line_starts = vec![0];
    let mut at_unit: Vec<usize> = vec![0]; // smallest boundary with at least so many units before it
    for (i, ch) in s.char_indices() {
        nl[i] = lines;
        un[i] = u;
        u += ch.len_utf16();
        for _ in 0..ch.len_utf16() {
            at_unit.push(i + ch.len_utf8());
        }
        if ch == '\n' {
            lines += 1;
            line_starts.push(i + 1);
        }
    }
    nl[s.len()] = lines;
    un[s.len()] = u;
    let picks: Vec<usize> = if cb.len() <= 40 { cb.clone() } else { (0..40).map(|_| *c.pick(&cb)).chain([0, s.len()]).collect() };
    for p in picks {
        ensure_eq!(r.line_of_offset(p), nl[p], "line_of_offset({})", p);
        ensure_eq!(r.count::<LinesMetric>(p), nl[p], "count lines to {}", p);
        ensure_eq!(r.count::<Utf16CodeUnitsMetric>(p), un[p], "UTF-16 offset of {}", p);
        ensure_eq!(r.count::<BaseMetric>(p), p, "base offset of {}", p);
        ensure_eq!(r.count_base_units::<BaseMetric>(p), p, "offset of base offset {}", p);
        ensure_eq!(r.count_base_units::<Utf16CodeUnitsMetric>(un[p]), p, "offset of UTF-16 offset {}", un[p]);
        ensure_eq!(r.convert_metrics::<Utf16CodeUnitsMetric, LinesMetric>(un[p]), nl[p], "line of UTF-16 offset {}", un[p]);
        let i = cb.binary_search(&p).unwrap();
        ensure_eq!(r.prev_codepoint_offset(p), if i > 0 { Some(cb[i - 1]) } else { None }, "prev_codepoint_offset({})", p);
        ensure_eq!(r.next_codepoint_offset(p), cb.get(i + 1).cloned(), "next_codepoint_offset({})", p);
    }
    for _ in 0..10 {
        let l = c.below(lines + 1);
        ensure_eq!(r.offset_of_line(l), line_starts[l], "offset_of_line({})", l);
        ensure_eq!(r.count_base_units::<LinesMetric>(l), line_starts[l], "base units of line {}", l);
        ensure_eq!(r.convert_metrics::<LinesMetric, Utf16CodeUnitsMetric>(l), un[line_starts[l]], "UTF-16 offset of line {}", l);
        let v = c.below(u + 1);
        ensure_eq!(r.count_base_units::<Utf16CodeUnitsMetric>(v), at_unit[v], "offset of UTF-16 offset {}", v);
        // any byte offset, inside a character or not
        let p = c.below(s.len() + 1);
        let i = cb.partition_point(|b| *b < p); // first boundary at or after p
        ensure_eq!(r.is_codepoint_boundary(p), cb[i] == p, "is_codepoint_boundary({})", p);
        ensure_eq!(r.at_or_next_codepoint_boundary(p), Some(cb[i]), "at_or_next_codepoint_boundary({})", p);
        ensure_eq!(r.at_or_prev_codepoint_boundary(p), Some(if cb[i] == p { p } else { cb[i - 1] }), "at_or_prev_codepoint_boundary({})", p);
    }
    ensure_eq!(r.offset_of_line(lines + 1), s.len(), "offset of the line after the last");
    ensure_eq!(r.measure::<LinesMetric>(), lines, "lines");
    ensure!(guarded(|| r.offset_of_line(lines + 2)).is_err(), "a line past the end is not refused");
    Ok(!s.is_empty())
}

const CLUSTERS: &[&str] = &[
    "a", "\r\n", "\n", "\r", "e\u{301}", "a\u{30a}\u{323}", "👨‍👩‍👧‍👦", "🇺🇸", "🇺🇸🇩🇪🇫🇷", "🇺", "👍🏽", "한", "\u{1112}\u{1161}\u{11ab}", "\u{200d}", "\u{fe0f}", "1\u{fe0f}\u{20e3}",
    "漢", "\u{0e33}", "नि", "\u{600}x", "❤\u{fe0f}‍🔥", "\u{301}", "z", " ",
];
fn gen_clusters(c: &mut Choices, max: usize) -> String {
    let mut s = String::new();
    let goal = c.below(max + 1);
    while s.len() < goal {
        let b = if c.small { CLUSTERS[c.below(7)] } else { *c.pick(CLUSTERS) };
        let k = if c.small { 1 } else { *c.pick(&[1, 1, 1, 2, 5, 60, 400]) };
        for _ in 0..k {
            if s.len() < max {
                s.push_str(b);
            }
        }
    }
    s
}
fn chunked(s: &str, ends: &[usize], p: usize, fwd: bool) -> Option<usize> {
    let start = |i: usize| if i == 0 { 0 } else { ends[i - 1] };
    let mut i = ends.iter().position(|e| *e > p || *e == s.len())?;
    let mut g = GraphemeCursor::new(p, s.len(), true);
    for _ in 0..1000 {
        let ch = &s[start(i)..ends[i]];
        match if fwd { g.next_boundary(ch, start(i)) } else { g.prev_boundary(ch, start(i)) } {
            Ok(r) => return r,
            Err(GraphemeIncomplete::PreContext(n)) => {
                let k = ends.iter().position(|e| *e == n)?;
                g.provide_context(&s[start(k)..n], start(k))
            }
            Err(GraphemeIncomplete::NextChunk) => i += 1,
            Err(GraphemeIncomplete::PrevChunk) => i -= 1,
            Err(_) => return None,
        }
    }
    None
}
fn graphemes(c: &mut Choices) -> Result<bool, String> {
    let max = if c.small { 12 } else { *c.pick(&[20, 60, 1500, 3000, 6000]) };
    let s = gen_clusters(c, max);
    let r = Rope::from(&s);
    let r = if c.flip() && s.len() > 2 {
        let p = pick_bound(c, &s);
        r.slice(..p) + r.slice(p..)
    } else {
        r
    };
    let leaves: Vec<usize> = r.iter_chunks(..).scan(0, |a, x| { *a += x.len(); Some(*a) }).collect();
    c.note(|| format!("{} bytes, leaves end at {:?}{}", s.len(), leaves, if s.len() < 100 { format!(" {:?}", s) } else { String::new() }));
    for _ in 0..(if c.small { 3 } else { 12 }) {
        let mut p = if !leaves.is_empty() && c.flip() { (*c.pick(&leaves) + c.below(60)).saturating_sub(30).min(s.len()) } else { c.below(s.len() + 1) };
        while !s.is_char_boundary(p) {
            p -= 1;
        }
        let n = GraphemeCursor::new(p, s.len(), true).next_boundary(&s, 0).unwrap();
        let q = GraphemeCursor::new(p, s.len(), true).prev_boundary(&s, 0).unwrap();
        c.note(|| format!("at {}: next {:?} prev {:?}", p, n, q));
        // unicode-segmentation 1.6.0 misjudges some emoji sequences cut at a chunk edge: what it answers when fed
        // leaf by leaf, as its documentation says, is accepted too
        let g = r.next_grapheme_offset(p);
        ensure!(g == n || g == chunked(&s, &leaves, p, true), "next_grapheme_offset({}): got {:?}, expected {:?}", p, g, n);
        let g = r.prev_grapheme_offset(p);
        ensure!(g == q || g == chunked(&s, &leaves, p, false), "prev_grapheme_offset({}): got {:?}, expected {:?}", p, g, q);
    }
    Ok(leaves.len() > 0)
}
fn walk(c: &mut Choices) -> Result<bool, String> {
    let max = if c.small { 8 } else { *c.pick(&[10, 1500, 6000]) };
    let (r, s) = gen_rope(c, max);
    let cb = bounds(&s);
    let p = pick_bound(c, &s);
    let mut cur = Cursor::new(&r, p);
    let v: Vec<usize> = cur.iter::<Utf16CodeUnitsMetric>().collect();
    let w: Vec<usize> = cb.iter().cloned().filter(|x| *x > p).collect();
    ensure!(v == w, "walking UTF-16 boundaries from {} of {}", p, s.len());
    let mut cur = Cursor::new(&r, p);
    let mut v = vec![];
    while let Some(q) = cur.prev::<Utf16CodeUnitsMetric>() {
        v.push(q);
    }
    v.reverse();
    let w: Vec<usize> = cb.iter().cloned().filter(|x| *x < p).collect();
    ensure!(v == w, "walking UTF-16 boundaries back from {} of {}", p, s.len());
    Ok(!s.is_empty())
}
pub fn gens() -> Vec<Gen> {
    vec![
        Gen { name: "coordinates", case: coords, exhaustive: (10000, 100000), random: (60000, 600000) },
        Gen { name: "graphemes", case: graphemes, exhaustive: (10000, 100000), random: (60000, 600000) },
        Gen { name: "utf16 walk", case: walk, exhaustive: (2000, 20000), random: (10000, 100000) },
    ]
}
