//! P04: a rope against the String it holds.
use crate::fw::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use std::str::FromStr;
use xi_rope::rope::{BaseMetric, LinesMetric, RopeInfo, Utf16CodeUnitsMetric};
use xi_rope::tree::TreeBuilder;
use xi_rope::{Cursor, Interval, Rope};

const MIN_LEAF: usize = 511;
const MAX_LEAF: usize = 1024;

pub fn check_rope(r: &Rope, s: &str, full: bool) -> Result<(), String> {
    ensure_eq!(r.len(), s.len(), "len");
    ensure_eq!(r.is_empty(), s.is_empty(), "is_empty");
    let mut off = 0;
    let chunks: Vec<&str> = r.iter_chunks(..).collect();
    for ch in &chunks {
        ensure!(!ch.is_empty(), "empty chunk");
        ensure!(s.get(off..off + ch.len()) == Some(*ch), "chunk at {} is {:?}", off, &ch[..ch.len().min(40)]);
        ensure!(ch.len() <= MAX_LEAF, "leaf of {} bytes at {}", ch.len(), off);
        ensure!(chunks.len() == 1 || ch.len() >= MIN_LEAF, "leaf of only {} bytes at {}, {} leaves", ch.len(), off, chunks.len());
        off += ch.len();
    }
    ensure_eq!(off, s.len(), "length of all chunks");
    // cached line and UTF-16 counts of the whole
    ensure_eq!(r.measure::<LinesMetric>(), s.matches('\n').count(), "cached number of line breaks");
    ensure_eq!(r.measure::<Utf16CodeUnitsMetric>(), s.encode_utf16().count(), "cached UTF-16 length");
    ensure_eq!(r.measure::<BaseMetric>(), s.len(), "cached length");
    if full {
        ensure!(String::from(r) == s, "text differs");
        ensure!(r.to_string() == s, "Display differs");
        ensure!(r.slice_to_cow(..) == s, "slice_to_cow(..) differs");
        let mut l: Vec<&str> = s.split_inclusive('\n').collect();
        let got: Vec<String> = r.lines_raw(..).map(|x| x.to_string()).collect();
        ensure!(got == l, "lines_raw differ: {} against {} lines", got.len(), l.len());
        l = s.lines().collect();
        let got: Vec<String> = r.lines(..).map(|x| x.to_string()).collect();
        ensure!(got == l, "lines differ");
    }
    Ok(())
}
/// a rope and its text, put together in one of several ways
pub fn gen_rope(c: &mut Choices, max: usize) -> (Rope, String) {
    match c.below(4) {
        0 => {
            let s = gen_text(c, 12);
            (Rope::from(&s), s)
        }
        1 => {
            let s = gen_big(c, max);
            (Rope::from_str(&s).unwrap(), s)
        }
        2 => {
            // pieces of odd sizes through the builder
            let s = gen_big(c, max);
            let mut b = TreeBuilder::<RopeInfo>::new();
            let mut i = 0;
            while i < s.len() {
                let mut j = (i + 1 + c.below(1500)).min(s.len());
                while !s.is_char_boundary(j) {
                    j += 1;
                }
                match c.below(3) {
                    0 => b.push_str(&s[i..j]),
                    1 => b.push(Rope::from(&s[i..j])),
                    _ => {
                        let mut k = j.min(i + MAX_LEAF);
                        while !s.is_char_boundary(k) {
                            k -= 1;
                        }
                        b.push_leaf(s[i..k].to_string());
                        b.push_str(&s[k..j]);
                    }
                }
                i = j;
            }
            (b.build(), s)
        }
        _ => {
            let a = gen_big(c, max / 2);
            let b = gen_big(c, max / 2);
            (Rope::from(&a) + Rope::from(&b), a + &b)
        }
    }
}
fn history(c: &mut Choices) -> Result<bool, String> {
    let max = if c.small { 10 } else { *c.pick(&[20, 1200, 4000, 15000, 40000]) };
    let mut pool: Vec<(Rope, String)> = vec![];
    let n = if c.small { 2 } else { 2 + c.below(8) };
    let mut big = false;
    for step in 0..n {
        let op = if pool.is_empty() { 0 } else { c.below(7) };
        let k = c.below(pool.len().max(1));
        let (r, s) = match op {
            0 => gen_rope(c, max),
            1 => {
                let k2 = c.below(pool.len());
                if pool[k].1.len() + pool[k2].1.len() > 200_000 { continue; }
                c.note(|| format!("concat #{} #{}", k, k2));
                (pool[k].0.clone() + pool[k2].0.clone(), pool[k].1.clone() + &pool[k2].1)
            }
            2 => {
                let (a, b) = pick_iv(c, &pool[k].1);
                c.note(|| format!("slice #{} {}..{}", k, a, b));
                let r = match c.below(4) {
                    0 => pool[k].0.slice(Interval::new(a, b)),
                    1 => pool[k].0.slice(a..b),
                    2 => { let t = pool[k].0.slice(a..); t.slice(..b - a) }
                    _ => pool[k].0.subseq(Interval::new(a, b)),
                };
                (r, pool[k].1[a..b].to_string())
            }
            3 | 4 => {
                // edit a clone in place: the original must not change
                let (a, b) = pick_iv(c, &pool[k].1);
                let (nr, ns) = if op == 3 { let t = gen_text(c, 8); (Rope::from(&t), t) } else { gen_rope(c, max / 2) };
                c.note(|| format!("edit #{} {}..{} by {} bytes", k, a, b, ns.len()));
                let (mut r, mut s) = pool[k].clone();
                if s.len() + ns.len() > 200_000 { continue; }
                r.edit(a..b, nr);
                s.replace_range(a..b, &ns);
                (r, s)
            }
            5 => {
                // many small edits on an unshared rope
                let (r0, mut s) = pool[k].clone();
                let mut r = r0.slice(..);
                let m = c.below(20);
                for _ in 0..m {
                    let p = pick_bound(c, &s);
                    let mut q = (p + c.below(4)).min(s.len());
                    while !s.is_char_boundary(q) { q += 1; }
                    let t = gen_text(c, 3);
                    r.edit(p..q, t.as_str());
                    s.replace_range(p..q, &t);
                }
                c.note(|| format!("{} small edits of #{}", m, k));
                (r, s)
            }
            _ => {
                // repeated doubling: deep trees
                let (mut r, mut s) = pool[k].clone();
                let m = 1 + c.below(4);
                for _ in 0..m {
                    if s.len() < 60_000 {
                        r = r.clone() + r;
                        s = s.clone() + &s;
                    }
                }
                c.note(|| format!("double #{} {} times", k, m));
                (r, s)
            }
        };
        c.note(|| format!("#{}: {} bytes{}", pool.len(), s.len(), if s.len() < 60 { format!(" {:?}", s) } else { String::new() }));
        check_rope(&r, &s, true).map_err(|e| format!("after step {}: {}", step, e))?;
        big |= s.len() > MAX_LEAF;
        pool.push((r, s));
    }
    for (i, (r, s)) in pool.iter().enumerate() {
        check_rope(r, s, false).map_err(|e| format!("shared rope #{} changed: {}", i, e))?;
        ensure!(String::from(r) == *s, "shared rope #{} changed", i);
    }
    // iteration over sub-ranges
    if let Some((r, s)) = pool.last() {
        for _ in 0..4 {
            let (a, b) = pick_iv(c, s);
            c.note(|| format!("range {}..{}", a, b));
            let t = &s[a..b];
            let ch: Vec<&str> = r.iter_chunks(a..b).collect();
            ensure!(ch.concat() == t, "iter_chunks({}..{})", a, b);
            ensure!(ch.iter().all(|x| !x.is_empty()), "empty chunk in iter_chunks({}..{})", a, b);
            ensure!(r.slice_to_cow(a..b) == t, "slice_to_cow({}..{})", a, b);
            let l: Vec<String> = r.lines_raw(a..b).map(|x| x.to_string()).collect();
            ensure!(l == t.split_inclusive('\n').collect::<Vec<_>>(), "lines_raw({}..{})", a, b);
            let l: Vec<String> = r.lines(a..b).map(|x| x.to_string()).collect();
            ensure!(l == t.lines().collect::<Vec<_>>(), "lines({}..{})", a, b);
            if a < s.len() {
                ensure_eq!(r.byte_at(a), s.as_bytes()[a], "byte_at {}", a);
            }
        }
    }
    Ok(big || pool.iter().any(|x| !x.1.is_empty()))
}
pub fn lines_bounds(s: &str) -> Vec<usize> {
    s.bytes().enumerate().filter(|x| x.1 == b'\n').map(|x| x.0 + 1).collect()
}
fn cursor(c: &mut Choices) -> Result<bool, String> {
    let max = if c.small { 8 } else { *c.pick(&[10, 1500, 6000, 30000]) };
    let (r, s) = gen_rope(c, max);
    let cb = bounds(&s);
    let lb = lines_bounds(&s);
    let leaves: Vec<usize> = r.iter_chunks(..).scan(0, |a, x| { *a += x.len(); Some(*a) }).collect();
    walk(c, &r, &s, &leaves)?;
    // full walks
    if c.chance(1, 3) {
        let mut cur = Cursor::new(&r, 0);
        let v: Vec<usize> = cur.iter::<LinesMetric>().collect();
        ensure!(v == lb, "walking lines forward gives {:?}.., expected {:?}..", &v[..v.len().min(6)], &lb[..lb.len().min(6)]);
        let mut cur = Cursor::new(&r, s.len());
        let mut v = vec![];
        while let Some(p) = cur.prev::<LinesMetric>() { v.push(p); }
        v.reverse();
        let w: Vec<usize> = lb.iter().cloned().filter(|p| *p < s.len()).collect();
        ensure!(v == w, "walking lines backward");
        let mut cur = Cursor::new(&r, 0);
        let v: Vec<usize> = cur.iter::<BaseMetric>().collect();
        ensure!(v == cb[1..], "walking characters forward");
        let mut cur = Cursor::new(&r, s.len());
        let mut v = vec![];
        while let Some(p) = cur.prev::<BaseMetric>() { v.push(p); }
        v.reverse();
        ensure!(v == cb[..cb.len() - 1], "walking characters backward");
        let mut cur = Cursor::new(&r, 0);
        let mut t = String::new();
        while let Some(ch) = cur.next_codepoint() { t.push(ch); }
        ensure!(t == s, "next_codepoint over the whole text");
    }
    Ok(!s.is_empty())
}
/// steps of a cursor, each against the text
fn walk(c: &mut Choices, r: &Rope, s: &str, leaves: &[usize]) -> Result<(), String> {
    let start = pick_bound(c, &s);
    c.note(|| format!("{} bytes, {} leaves{}; cursor at {}", s.len(), leaves.len(), if s.len() < 60 { format!(" {:?}", s) } else { String::new() }, start));
    let mut cur = Cursor::new(r, start);
    ensure_eq!(cur.total_len(), s.len(), "total_len");
    ensure!(cur.root().ptr_eq(r), "root");
    let mut pos = start;
    let n = if c.small { 3 } else { 5 + c.below(40) };
    let mut stale = false;
    for _ in 0..n {
        let op = if stale { 0 } else { c.below(12) };
        let before = pos;
        macro_rules! expect {
            ($got:expr, $want:expr, $name:expr) => {{
                let (g, w): (Option<usize>, Option<usize>) = ($got, $want);
                c.note(|| format!("{} -> {:?}", $name, g));
                ensure_eq!(g, w, "{} from {}", $name, before);
                match w {
                    Some(p) => pos = p,
                    None => stale = true,
                }
            }};
        }
        let next_ch = || s[before..].chars().next().map(|x| before + x.len_utf8());
        let prev_ch = || s[..before].chars().next_back().map(|x| before - x.len_utf8());
        let next_ln = || s.as_bytes()[before..].iter().position(|b| *b == b'\n').map(|i| before + i + 1);
        let prev_ln = || s.as_bytes()[..before.max(1) - 1].iter().rposition(|b| *b == b'\n').map(|i| i + 1);
        let is_ln = || before > 0 && s.as_bytes()[before - 1] == b'\n';
        match op {
            0 => {
                // near a leaf edge half of the time
                pos = if c.flip() && !leaves.is_empty() { *c.pick(&leaves) } else { pick_bound(c, &s) };
                c.note(|| format!("set {}", pos));
                cur.set(pos);
                stale = false;
            }
            1 => expect!(cur.next::<BaseMetric>(), next_ch(), "next char"),
            2 => expect!(cur.prev::<BaseMetric>(), prev_ch(), "prev char"),
            3 => expect!(cur.next::<LinesMetric>(), next_ln(), "next line"),
            4 => expect!(cur.prev::<LinesMetric>(), prev_ln(), "prev line"),
            5 => {
                ensure_eq!(cur.is_boundary::<BaseMetric>(), true, "is_boundary char at {}", pos);
                ensure_eq!(cur.is_boundary::<Utf16CodeUnitsMetric>(), true, "is_boundary utf16 at {}", pos);
                ensure_eq!(cur.is_boundary::<LinesMetric>(), is_ln(), "is_boundary line at {}", pos);
            }
            6 => {
                let w = if is_ln() { Some(pos) } else { next_ln() };
                expect!(cur.at_or_next::<LinesMetric>(), w, "at or next line")
            }
            7 => {
                let w = if is_ln() { Some(pos) } else { prev_ln() };
                expect!(cur.at_or_prev::<LinesMetric>(), w, "at or prev line")
            }
            8 => {
                let w = s[pos..].chars().next();
                ensure_eq!(cur.peek_next_codepoint(), w, "peek at {}", pos);
                let g = cur.next_codepoint();
                ensure_eq!(g, w, "next_codepoint at {}", pos);
                match w {
                    Some(ch) => pos += ch.len_utf8(),
                    None => stale = true,
                }
            }
            9 => {
                let w = s[..pos].chars().next_back();
                let g = cur.prev_codepoint();
                ensure_eq!(g, w, "prev_codepoint at {}", pos);
                match w {
                    Some(ch) => pos -= ch.len_utf8(),
                    None => stale = true,
                }
            }
            10 => {
                // start of the next leaf
                let i = Some(leaves.partition_point(|e| *e <= pos)).filter(|i| *i < leaves.len());
                let w = i.and_then(|i| if i + 1 < leaves.len() { Some(leaves[i]) } else { None });
                let g = cur.next_leaf().map(|(l, o)| (l.clone(), o));
                c.note(|| format!("next leaf -> {}", g.is_some()));
                ensure_eq!(g.is_some(), w.is_some(), "next_leaf from {}", pos);
                match (g, w) {
                    (Some((l, o)), Some(p)) => {
                        ensure!(o == 0 && s[p..].starts_with(&l[..]), "next_leaf gives another leaf than the one at {}", p);
                        pos = p
                    }
                    _ => stale = true,
                }
            }
            _ => {
                let i = leaves.partition_point(|e| *e <= pos).min(leaves.len().max(1) - 1);
                let starts = |i: usize| if i == 0 { 0 } else { leaves[i - 1] };
                let w = if i == 0 { None } else { Some(starts(i - 1)) };
                let g = cur.prev_leaf().map(|(l, o)| (l.clone(), o));
                c.note(|| format!("prev leaf -> {}", g.is_some()));
                ensure_eq!(g.is_some(), w.is_some(), "prev_leaf from {}", pos);
                match (g, w) {
                    (Some((l, o)), Some(p)) => {
                        ensure!(o == 0 && s[p..].starts_with(&l[..]), "prev_leaf gives another leaf than the one at {}", p);
                        pos = p
                    }
                    _ => stale = true,
                }
            }
        }
        if !stale {
            ensure_eq!(cur.pos(), pos, "position after step from {}", before);
            let (l, o) = cur.get_leaf().ok_or_else(|| format!("no leaf at valid position {}", pos))?;
            let ls = pos - o;
            ensure!(s.get(ls..ls + l.len()) == Some(&l[..]) && (o < l.len() || pos == s.len()), "leaf at {} is not the one containing it", pos);
            ensure!(leaves.is_empty() || leaves.binary_search(&(ls + l.len())).is_ok(), "leaf at {} ends at {}", pos, ls + l.len());
        } else {
            ensure!(cur.get_leaf().is_none(), "cursor still valid after running off the text");
            ensure_eq!(cur.next::<BaseMetric>(), None, "next of an invalid cursor");
        }
    }
    Ok(())
}
/// texts of several megabytes: trees higher than the part of the path a cursor keeps
fn deep(c: &mut Choices) -> Result<bool, String> {
    thread_local! { static BIG: std::cell::RefCell<Vec<(Rope, String, Vec<usize>)>> = std::cell::RefCell::new(vec![]); }
    BIG.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_empty() {
            for k in 0..2 {
                let mut s = String::new();
                let mut i = 0usize;
                while s.len() < 5_000_000 {
                    // lines from a few bytes to some hundred kilobytes
                    s.push_str(["abcdefgh\n", "漢字かな", "x", "0123456789abcdef", "😀\n"][(i / 7 + i * i) % 5]);
                    if k == 1 && i % 40_000 == 0 { for _ in 0..60_000 { s.push_str("yz€"); } }
                    i += 1;
                }
                let mut r = Rope::from_str(&s).unwrap();
                if k == 1 {
                    // a tree put together from unequal pieces
                    let (x, y) = (pick(&s, 1_000_003), pick(&s, 3_500_001));
                    r = r.slice(y..) + r.slice(x..y) + Rope::from("q") + r.slice(..x);
                    s = format!("{}{}q{}", &s[y..], &s[x..y], &s[..x]);
                }
                let leaves = r.iter_chunks(..).scan(0, |a, x| { *a += x.len(); Some(*a) }).collect();
                b.push((r, s, leaves));
            }
        }
        let k = c.below(2);
        let (r, s, leaves) = &b[k];
        walk(c, r, s, leaves)
    })?;
    Ok(true)
}
fn pick(s: &str, i: usize) -> usize {
    (0..4).map(|k| i - k).find(|j| s.is_char_boundary(*j)).unwrap()
}
pub fn gens() -> Vec<Gen> {
    vec![
        Gen { name: "history", case: history, exhaustive: (4000, 40000), random: (60000, 600000) },
        Gen { name: "deep", case: deep, exhaustive: (0, 0), random: (12_000, 200_000) },
        Gen { name: "cursor", case: cursor, exhaustive: (20000, 200000), random: (80000, 800000) },
    ]
}
