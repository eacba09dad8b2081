//! P07: concurrent edits, and two peers merging.
use crate::fw::*;
use crate::p06::{check, delta, reps, Model};
use crate::{ensure, ensure_eq};
use std::collections::{BTreeMap, BTreeSet};
use xi_rope::delta::Builder;
use xi_rope::engine::Engine;
use xi_rope::{Interval, Rope};

/// several edits of one revision: the exact result, by the model of P06
fn concurrent(c: &mut Choices) -> Result<bool, String> {
    let mut next = 0;
    let mut e = Engine::empty();
    let mut m = Model::new(&e);
    for _ in 0..1 + c.below(2) {
        let r = m.revs.len() - 1;
        let v = reps(c, m.revs[r].vis.len(), &mut next);
        e.edit_rev(0, 0, m.revs[r].token, delta(&m, &m.revs[r].vis, &v));
        m.edit(r, 0, 0, &v, e.get_head_rev_id().token());
    }
    let r = m.revs.len() - 1;
    let base = m.text(&m.revs[r].vis);
    c.note(|| format!("base {:?}", base));
    for k in 0..2 + c.below(if c.small { 1 } else { 3 }) {
        let v = reps(c, m.revs[r].vis.len(), &mut next);
        let prio = c.below(4);
        c.note(|| format!("edit with priority {}: {:?}", prio, v));
        e.edit_rev(prio, k + 1, m.revs[r].token, delta(&m, &m.revs[r].vis, &v));
        m.edit(r, prio, k + 1, &v, e.get_head_rev_id().token());
        check(&e, &m)?;
    }
    Ok(true)
}
struct Peers {
    e: Vec<Engine>,
    next: u32,
    inserted: BTreeSet<char>,
    deleted: BTreeSet<char>,
    seen: Vec<String>,
    /// who inserted each character, and what each edit deleted, by undo group
    by: BTreeMap<char, usize>,
    dels: Vec<(usize, BTreeSet<char>)>,
}
fn same_order(a: &str, b: &str) -> bool {
    let at: BTreeMap<char, usize> = b.chars().enumerate().map(|(i, ch)| (ch, i)).collect();
    let v: Vec<usize> = a.chars().filter_map(|ch| at.get(&ch).cloned()).collect();
    v.windows(2).all(|w| w[0] < w[1])
}
impl Peers {
    fn edit(&mut self, c: &mut Choices, p: usize) {
        let text = String::from(self.e[p].get_head());
        let off: Vec<usize> = text.char_indices().map(|x| x.0).chain(Some(text.len())).collect();
        let (a, b) = c.iv(off.len() - 1);
        let b = if c.flip() { a } else { b };
        let k = if a < b && c.flip() { 0 } else { 1 + c.below(2) };
        let t: String = (0..k)
            .map(|_| {
                self.next += 1;
                // every character is a new one
                if self.next < 26 { (b'a' + self.next as u8) as char } else { std::char::from_u32(0x4e00 + self.next).unwrap() }
            })
            .collect();
        let (prio, group) = (c.below(2), if c.small { 1 + c.below(2) } else { 1 + c.below(5) });
        c.note(|| format!("peer {} with {:?} replaces {}..{} by {:?} (priority {}, group {})", p, text, off[a], off[b], t, prio, group));
        self.by.extend(t.chars().map(|ch| (ch, group)));
        self.dels.push((group, text[off[a]..off[b]].chars().collect()));
        self.inserted.extend(t.chars());
        self.deleted.extend(text[off[a]..off[b]].chars());
        let mut d = Builder::new(text.len());
        d.replace(Interval::new(off[a], off[b]), Rope::from(t));
        let tok = self.e[p].get_head_rev_id().token();
        self.e[p].edit_rev(prio, group, tok, d.build());
        let s = String::from(self.e[p].get_head());
        self.seen.push(s);
    }
    fn merge(&mut self, c: &mut Choices, to: usize, from: usize) -> Result<(), String> {
        c.note(|| format!("peer {} merges {}", to, from));
        let other = std::mem::replace(&mut self.e[from], Engine::empty());
        self.e[to].merge(&other);
        self.e[from] = other;
        let s = String::from(self.e[to].get_head());
        for o in &self.seen {
            ensure!(same_order(o, &s), "{:?} puts characters in another order than {:?}", s, o);
        }
        let n: BTreeSet<char> = s.chars().collect();
        ensure_eq!(n.len(), s.chars().count(), "{:?} has a character twice", s);
        self.seen.push(s);
        Ok(())
    }
}
fn three(c: &mut Choices) -> Result<bool, String> {
    let mut p = Peers { e: vec![Engine::empty(), Engine::empty(), Engine::empty()], next: 0, inserted: BTreeSet::new(), deleted: BTreeSet::new(), seen: vec![], by: BTreeMap::new(), dels: vec![] };
    for k in 0..3 {
        p.e[k].set_session_id((10 * (k as u64 + 1), 0));
    }
    let n = if c.small { 5 } else { 2 + c.below(14) };
    for _ in 0..n {
        let who = c.below(3);
        if c.flip() {
            p.edit(c, who);
        } else {
            let from = (who + 1 + c.below(2)) % 3;
            p.merge(c, who, from)?;
        }
    }
    for _ in 0..2 {
        for (a, b) in [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)] {
            p.merge(c, a, b)?;
        }
    }
    let t: Vec<String> = p.e.iter().map(|e| String::from(e.get_head())).collect();
    ensure_eq!(t[1], t[0], "texts of two of three peers");
    ensure_eq!(t[2], t[0], "texts of two of three peers");
    Ok(true)
}
fn peers(c: &mut Choices) -> Result<bool, String> {
    let mut p = Peers { e: vec![Engine::empty(), Engine::empty()], next: 0, inserted: BTreeSet::new(), deleted: BTreeSet::new(), seen: vec![], by: BTreeMap::new(), dels: vec![] };
    p.e[0].set_session_id((10, 0));
    p.e[1].set_session_id((20, 0));
    let n = if c.small { 4 } else { 2 + c.below(14) };
    for _ in 0..n {
        match c.below(if c.small { 4 } else { 6 }) {
            0 | 4 => p.edit(c, 0),
            1 | 5 => p.edit(c, 1),
            2 => p.merge(c, 0, 1)?,
            _ => p.merge(c, 1, 0)?,
        }
    }
    p.merge(c, 0, 1)?;
    p.merge(c, 1, 0)?;
    let (a, b) = (String::from(p.e[0].get_head()), String::from(p.e[1].get_head()));
    ensure_eq!(a, b, "texts of the two peers");
    let want: BTreeSet<char> = p.inserted.difference(&p.deleted).cloned().collect();
    ensure_eq!(a.chars().collect::<BTreeSet<char>>(), want, "characters of {:?}", a);
    // merging again changes nothing
    p.merge(c, 0, 1)?;
    ensure_eq!(String::from(p.e[0].get_head()), a, "text after merging again");
    // undoing takes out the same on both
    for _ in 0..1 + c.below(2) {
        let g: BTreeSet<usize> = (1..if c.small { 3 } else { 6 }).filter(|_| c.flip()).collect();
        c.note(|| format!("both undo {:?}", g));
        let gone: BTreeSet<char> = p.dels.iter().filter(|d| !g.contains(&d.0)).flat_map(|d| d.1.iter().cloned()).collect();
        let want: BTreeSet<char> = p.by.iter().filter(|x| !g.contains(x.1) && !gone.contains(x.0)).map(|x| *x.0).collect();
        p.e[0].undo(g.clone());
        p.e[1].undo(g);
        let (a, b) = (String::from(p.e[0].get_head()), String::from(p.e[1].get_head()));
        ensure_eq!(a, b, "texts of the two peers after undoing");
        ensure_eq!(a.chars().collect::<BTreeSet<char>>(), want, "characters of {:?}", a);
    }
    Ok(true)
}
/// insertions at one place by two peers, in several revisions each: by priority, and those of one peer and priority in its order
fn order(c: &mut Choices) -> Result<bool, String> {
    let base = "ab";
    let mut e = vec![Engine::empty(), Engine::empty()];
    e[0].set_session_id((7, 0));
    e[1].set_session_id((8, 0));
    let tok = e[0].get_head_rev_id().token();
    e[0].edit_rev(0, 0, tok, xi_rope::Delta::simple_edit(Interval::new(0, 0), Rope::from(base), 0));
    let (l, r) = e.split_at_mut(1);
    r[0].merge(&l[0]);
    let at = c.below(3);
    let tok = e[0].get_head_rev_id().token();
    ensure_eq!(tok, e[1].get_head_rev_id().token(), "common revision");
    // each peer inserts at one place of the common revision, no two with the same priority
    let mut prios: Vec<usize> = (0..5).collect();
    let mut got = vec![];
    for k in 0..2 + c.below(3) {
        let p = prios.remove(c.below(prios.len()));
        let who = if k < 2 { k } else { c.below(2) };
        let ch = (b'0' + p as u8) as char;
        c.note(|| format!("peer {} inserts {:?} at {} of {:?} with priority {}", who, ch, at, base, p));
        let mut d = Builder::new(2);
        d.replace(Interval::new(at, at), Rope::from(ch.to_string()));
        e[who].edit_rev(p, k + 1, tok, d.build());
        got.push(ch);
    }
    got.sort();
    let want = format!("{}{}{}", &base[..at], got.iter().collect::<String>(), &base[at..]);
    let (l, r) = e.split_at_mut(1);
    l[0].merge(&r[0]);
    r[0].merge(&l[0]);
    for k in 0..2 {
        ensure_eq!(String::from(e[k].get_head()), want, "text of peer {}", k);
    }
    Ok(true)
}
pub fn gens() -> Vec<Gen> {
    vec![
        Gen { name: "concurrent", case: concurrent, exhaustive: (60_000, 1_000_000), random: (40_000, 1_000_000) },
        Gen { name: "peers", case: peers, exhaustive: (100_000, 2_000_000), random: (40_000, 1_000_000) },
        Gen { name: "three", case: three, exhaustive: (100_000, 2_000_000), random: (40_000, 1_000_000) },
        Gen { name: "order", case: order, exhaustive: (20_000, 1_000_000), random: (5_000, 100_000) },
    ]
}
