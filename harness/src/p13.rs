//! P13: the plugin's partial cache of the document against the document itself.
use crate::fw::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use std::cell::Cell;
use xi_core_lib::plugin_rpc::{GetDataResponse, TextUnit};
use xi_plugin_lib::{Cache, ChunkCache, DataSource, Error, StateCache};
use xi_rope::RopeDelta;

fn line_starts(s: &str) -> Vec<usize> {
    let mut v = vec![0];
    v.extend(s.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1));
    v
}
/// answers as the core does, with chunks of at most `max` bytes
struct Doc {
    text: String,
    rev: u64,
    max: usize,
    asked: Cell<usize>,
}
impl DataSource for Doc {
    fn get_data(&self, start: usize, unit: TextUnit, max_size: usize, rev: u64) -> Result<GetDataResponse, Error> {
        self.asked.set(self.asked.get() + 1);
        if self.asked.get() > 4 * self.text.len() + 50 {
            panic!("asks the core for data without end");
        }
        if rev != self.rev {
            return Err(Error::Other(format!("asked for revision {} of {}", rev, self.rev)));
        }
        let ls = line_starts(&self.text);
        let offset = match unit {
            TextUnit::Utf8 => {
                if start > self.text.len() {
                    return Err(Error::BadRequest);
                }
                (0..=start).rev().find(|i| self.text.is_char_boundary(*i)).unwrap()
            }
            TextUnit::Line => {
                if start < ls.len() {
                    ls[start]
                } else if start == ls.len() {
                    self.text.len()
                } else {
                    return Err(Error::BadRequest);
                }
            }
        };
        let mut end = (offset + self.max.min(max_size)).min(self.text.len());
        while !self.text.is_char_boundary(end) {
            end -= 1;
        }
        let first_line = ls.iter().filter(|x| **x <= offset).count() - 1;
        Ok(GetDataResponse { chunk: self.text[offset..end].into(), offset, first_line, first_line_offset: offset - ls[first_line] })
    }
}
fn text(c: &mut Choices, max: usize) -> String {
    if c.small {
        let n = c.below(max + 1);
        (0..n).map(|_| *c.pick(&['a', '\n', 'é'])).collect()
    } else {
        let n = c.below(max + 1);
        let p = *c.pick(&[2, 4, 12, 60]);
        (0..n).map(|_| if c.chance(1, p) { '\n' } else { gen_char(c) }).collect()
    }
}
/// one question to the cache, and its answer from the text
fn ask<C: Cache>(c: &mut Choices, k: &mut C, d: &Doc) -> Result<(), String> {
    let t = &d.text;
    let ls = line_starts(t);
    d.asked.set(0);
    match c.below(if c.small { 4 } else { 5 }) {
        0 => {
            let n = c.below(ls.len() + 1);
            c.note(|| format!("get_line {}", n));
            match k.get_line(d, n) {
                Ok(s) => {
                    ensure!(n < ls.len(), "line {} of {} reported as {:?}", n, ls.len(), s);
                    let e = if n + 1 < ls.len() { ls[n + 1] } else { t.len() };
                    ensure_eq!(s, &t[ls[n]..e], "line {}", n);
                }
                Err(e) => ensure!(n >= ls.len(), "line {} of {} refused: {:?}", n, ls.len(), e),
            }
        }
        1 => {
            let n = c.below(ls.len() + 2);
            c.note(|| format!("offset_of_line {}", n));
            match k.offset_of_line(d, n) {
                Ok(o) => {
                    ensure!(n <= ls.len(), "offset of line {} of {} reported as {}", n, ls.len(), o);
                    ensure_eq!(o, if n < ls.len() { ls[n] } else { t.len() }, "offset of line {}", n);
                }
                Err(e) => ensure!(n > ls.len(), "offset of line {} of {} refused: {:?}", n, ls.len(), e),
            }
        }
        2 => {
            let (mut a, mut b) = pick_iv(c, t);
            if !c.small && c.chance(1, 12) {
                b = t.len() + 1 + c.below(2);
                if c.flip() {
                    a = a.max(b.saturating_sub(3));
                }
                while a < t.len() && !t.is_char_boundary(a) {
                    a -= 1;
                }
            }
            c.note(|| format!("get_region {}..{}", a, b));
            match k.get_region(d, a..b) {
                Ok(s) => {
                    ensure!(b <= t.len(), "region {}..{} of {} reported", a, b, t.len());
                    ensure_eq!(s, &t[a..b], "region {}..{}", a, b)
                }
                Err(e) => ensure!(b > t.len(), "region {}..{} of {} refused: {:?}", a, b, t.len(), e),
            }
        }
        3 => {
            let o = if !c.small && c.chance(1, 12) { t.len() + 1 } else { pick_bound(c, t) };
            c.note(|| format!("line_of_offset {}", o));
            match k.line_of_offset(d, o) {
                Ok(n) => {
                    ensure!(o <= t.len(), "line of offset {} of {} reported as {}", o, t.len(), n);
                    ensure_eq!(n, ls.iter().filter(|x| **x <= o).count() - 1, "line of offset {}", o);
                }
                Err(e) => ensure!(o > t.len(), "line of offset {} of {} refused: {:?}", o, t.len(), e),
            }
        }
        _ => {
            c.note(|| "get_document".into());
            match k.get_document(d) {
                Ok(s) => ensure_eq!(&s, t, "whole document"),
                Err(e) => return Err(format!("whole document refused: {:?}", e)),
            }
        }
    }
    Ok(())
}
/// an edit of the text, as the core reports it
fn edit(c: &mut Choices, d: &mut Doc) -> (Option<RopeDelta>, DM) {
    let (a, b, s) = if c.small {
        let (a, b) = pick_iv(c, &d.text);
        (a, b, if c.flip() { text(c, 2) } else { String::new() })
    } else {
        let (a, mut b) = pick_iv(c, &d.text);
        if c.chance(2, 3) {
            b = (a..(a + c.below(6)).min(d.text.len()) + 1).filter(|i| d.text.is_char_boundary(*i)).last().unwrap_or(a);
        }
        match c.below(3) {
            0 => (a, a, text(c, 6)),
            1 => (a, b, String::new()),
            _ => (a, b, text(c, 6)),
        }
    };
    let (delta, dm) = if !c.small && c.chance(1, 6) {
        let t = d.text.clone();
        gen_delta(c, &t, 4, 4)
    } else {
        c.note(|| format!("{}..{} becomes {:?}", a, b, s));
        build_delta(&d.text, &[(a, b, s)])
    };
    d.text = dm.apply(&d.text);
    d.rev += 1;
    let send = c.small || !c.chance(1, 15);
    if !send {
        c.note(|| "(too large to report)".into());
    }
    (if send { Some(delta) } else { None }, dm)
}
fn doc(c: &mut Choices) -> Doc {
    let (t, max) = if c.small { (text(c, 4), c.range(2, 3)) } else { (text(c, 60), *c.pick(&[4, 5, 7, 11, 16, 30, 1000])) };
    c.note(|| format!("document {:?}, chunks of {}", t, max));
    Doc { text: t, rev: 1, max, asked: Cell::new(0) }
}
fn mirror(c: &mut Choices) -> Result<bool, String> {
    let mut d = doc(c);
    let mut k = ChunkCache::new(d.text.len(), d.rev, line_starts(&d.text).len());
    let steps = if c.small { 2 } else { c.range(2, 25) };
    let mut edits = 0;
    ask(c, &mut k, &d)?;
    for _ in 0..steps {
        if c.flip() {
            let (delta, _) = edit(c, &mut d);
            k.update(delta.as_ref(), d.text.len(), line_starts(&d.text).len(), d.rev);
            edits += 1;
        }
        ask(c, &mut k, &d)?;
    }
    Ok(edits > 0)
}
/// everything the cache can be asked, after a few edits
fn answers(c: &mut Choices) -> Result<bool, String> {
    let mut d = doc(c);
    let mut k = ChunkCache::new(d.text.len(), d.rev, line_starts(&d.text).len());
    let steps = if c.small { 1 } else { c.range(1, 6) };
    for _ in 0..steps {
        ask(c, &mut k, &d)?;
        let (delta, _) = edit(c, &mut d);
        k.update(delta.as_ref(), d.text.len(), line_starts(&d.text).len(), d.rev);
    }
    let t = d.text.clone();
    let ls = line_starts(&t);
    for n in 0..ls.len() {
        d.asked.set(0);
        let e = if n + 1 < ls.len() { ls[n + 1] } else { t.len() };
        let mut k2 = k.clone();
        ensure_eq!(k2.get_line(&d, n).ok(), Some(&t[ls[n]..e]), "line {}", n);
        ensure_eq!(k2.offset_of_line(&d, n + 1).ok(), Some(e), "offset of line {} after line {}", n + 1, n);
        ensure_eq!(k.clone().offset_of_line(&d, n).ok(), Some(ls[n]), "offset of line {}", n);
    }
    d.asked.set(0);
    ensure_eq!(k.clone().offset_of_line(&d, ls.len()).ok(), Some(t.len()), "offset of the end");
    ensure!(k.clone().offset_of_line(&d, ls.len() + 1).is_err(), "offset of a line past the end");
    ensure!(k.clone().get_line(&d, ls.len()).is_err(), "a line past the end");
    for o in bounds(&t) {
        d.asked.set(0);
        ensure_eq!(k.clone().line_of_offset(&d, o).ok(), Some(ls.iter().filter(|x| **x <= o).count() - 1), "line of offset {}", o);
        let e = if o % 3 == 0 { t.len() } else { bounds(&t).into_iter().find(|x| *x > o + o % 5).unwrap_or(t.len()) };
        let mut k2 = k.clone();
        ensure_eq!(k2.get_region(&d, o..e).ok(), Some(&t[o..e]), "region {}..{}", o, e);
    }
    d.asked.set(0);
    ensure_eq!(k.clone().get_document(&d).ok(), Some(t.clone()), "whole document");
    Ok(t.len() > 0)
}
/// states stay with the line starts they were set for
fn states(c: &mut Choices) -> Result<bool, String> {
    let mut d = doc(c);
    let mut k: StateCache<u32> = StateCache::new(d.text.len(), d.rev, line_starts(&d.text).len());
    // where the line start of each state is now, if it is still one
    let mut at: Vec<Option<usize>> = vec![];
    let steps = if c.small { 4 } else { c.range(3, 40) };
    let (mut sets, mut edits) = (0, 0);
    for _ in 0..steps {
        let ls = line_starts(&d.text);
        d.asked.set(0);
        match c.below(if c.small { 3 } else { 5 }) {
            0 | 3 => {
                let n = c.below(ls.len() + 1);
                c.note(|| format!("set state {} at line {}", at.len() + 1, n));
                k.set(&d, n, at.len() as u32 + 1);
                if n < ls.len() {
                    for x in at.iter_mut() {
                        if *x == Some(ls[n]) {
                            *x = None;
                        }
                    }
                    at.push(Some(ls[n]));
                    ensure_eq!(k.get(n), Some(&(at.len() as u32)), "the state just set at line {}", n);
                    sets += 1;
                } else {
                    at.push(None);
                    ensure_eq!(k.get(n), None, "a state past the last line");
                }
            }
            1 => {
                let (delta, dm) = edit(c, &mut d);
                k.update(delta.as_ref(), d.text.len(), line_starts(&d.text).len(), d.rev);
                let v = dm.survive();
                for x in at.iter_mut() {
                    if let Some(o) = *x {
                        *x = if o == 0 { Some(0) } else { v[o - 1].map(|y| y + 1) };
                    }
                }
                edits += 1;
            }
            _ => ask(c, &mut k, &d)?,
        }
        let ls = line_starts(&d.text);
        let mut best = (0, 0, 0u32);
        for n in 0..ls.len() {
            let g = k.get(n).cloned();
            if let Some(s) = g {
                ensure!(s >= 1 && s as usize <= at.len(), "line {}: state {} never set", n, s);
                ensure_eq!(at[s as usize - 1], Some(ls[n]), "line {} at {}: where the line of its state {} is now", n, ls[n], s);
                if n > 0 {
                    best = (n, ls[n], s);
                }
            }
            if n > 0 {
                // the nearest state at or before the line
                let p = k.get_prev(n);
                let z = if best.0 == 0 { k.get(0).map(|s| (0, 0, *s)).unwrap_or((0, 0, 0)) } else { best };
                ensure_eq!(p, z, "the state before line {}", n);
            }
        }
    }
    Ok(sets > 1 && edits > 0)
}

pub fn gens() -> Vec<Gen> {
    vec![
        Gen { name: "answers", case: answers, exhaustive: (300_000, 2_000_000), random: (30_000, 500_000) },
        Gen { name: "mirror", case: mirror, exhaustive: (300_000, 2_000_000), random: (60_000, 1_000_000) },
        Gen { name: "states", case: states, exhaustive: (300_000, 2_000_000), random: (40_000, 600_000) },
    ]
}
