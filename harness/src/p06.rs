//! P06: revisions, undo and collection. The model keeps every character ever inserted, with who inserted and who deleted it.
use crate::fw::*;
use crate::{ensure, ensure_eq};
use std::collections::{BTreeMap, BTreeSet};
use xi_rope::delta::Builder;
use xi_rope::engine::{Engine, RevToken};
use xi_rope::rope::RopeInfo;
use xi_rope::{Delta, Interval, Rope};

struct Ed {
    group: usize,
    del: BTreeSet<usize>,
}
pub struct Rv {
    pub token: RevToken,
    /// priority, if the revision inserted something
    prio: usize,
    edit: bool,
    union: Vec<usize>,
    pub vis: Vec<usize>,
}
pub struct Model {
    /// what each character is and which edit inserted it
    pub chars: Vec<(char, usize)>,
    edits: BTreeMap<usize, Ed>,
    union: Vec<usize>,
    undone: BTreeSet<usize>,
    pub revs: Vec<Rv>,
    serial: usize,
    max_group: usize,
    head_edit: Option<usize>,
}
impl Model {
    pub fn new(e: &Engine) -> Model {
        let rv = Rv { token: e.get_head_rev_id().token(), prio: 0, edit: false, union: vec![], vis: vec![] };
        Model { chars: vec![], edits: BTreeMap::new(), union: vec![], undone: BTreeSet::new(), revs: vec![rv], serial: 1, max_group: 0, head_edit: None }
    }
    pub fn text(&self, ids: &[usize]) -> String {
        ids.iter().map(|&i| self.chars[i].0).collect()
    }
    fn visible(&self) -> Vec<usize> {
        let gone: BTreeSet<usize> = self.edits.values().filter(|e| !self.undone.contains(&e.group)).flat_map(|e| e.del.iter().cloned()).collect();
        self.union
            .iter()
            .cloned()
            .filter(|i| !gone.contains(i) && self.edits.get(&self.chars[*i].1).map_or(true, |e| !self.undone.contains(&e.group)))
            .collect()
    }
    /// replacements of stretches of the text of revision `r`, in order and apart from each other
    pub fn edit(&mut self, r: usize, prio: usize, group: usize, reps: &[(usize, usize, Vec<char>)], token: RevToken) {
        let s = self.serial;
        self.serial += 1;
        let base: Vec<usize> = self.revs[r].vis.clone();
        let mut del = BTreeSet::new();
        let mut ins: Vec<(usize, Vec<usize>)> = vec![];
        for (a, b, t) in reps {
            del.extend(base[*a..*b].iter().cloned());
            let ids: Vec<usize> = t.iter().map(|&ch| { self.chars.push((ch, s)); self.chars.len() - 1 }).collect();
            // the place among all characters of that revision: right before the next one visible
            let at = |u: &[usize], i: usize| u.iter().position(|&q| q == i).unwrap();
            let mut g = if *a < base.len() { at(&self.revs[r].union, base[*a]) } else { self.revs[r].union.len() };
            for k in r + 1..self.revs.len() {
                let (old, new) = (&self.revs[k - 1].union, &self.revs[k].union);
                if !self.revs[k].edit {
                    continue;
                }
                let lo = if g == 0 { 0 } else { at(new, old[g - 1]) + 1 };
                let hi = if g == old.len() { new.len() } else { at(new, old[g]) };
                g = if prio >= self.revs[k].prio { hi } else { lo };
            }
            ins.push((g, ids));
        }
        for (g, ids) in ins.into_iter().rev() {
            self.union.splice(g..g, ids);
        }
        self.edits.insert(s, Ed { group, del });
        self.max_group = self.max_group.max(group);
        self.head_edit = Some(s);
        let vis = self.visible();
        self.revs.push(Rv { token, prio, edit: true, union: self.union.clone(), vis });
    }
    fn undo(&mut self, groups: BTreeSet<usize>, token: RevToken) {
        self.undone = groups;
        self.head_edit = None;
        let vis = self.visible();
        self.revs.push(Rv { token, prio: 0, edit: false, union: self.union.clone(), vis });
    }
    fn gc(&mut self, groups: &BTreeSet<usize>) {
        let mut drop = BTreeSet::new();
        let dead: Vec<usize> = self.edits.iter().filter(|(k, e)| groups.contains(&e.group) && Some(**k) != self.head_edit).map(|x| *x.0).collect();
        for k in dead {
            let e = self.edits.remove(&k).unwrap();
            if self.undone.contains(&e.group) {
                drop.extend(self.union.iter().cloned().filter(|i| self.chars[*i].1 == k));
            } else {
                drop.extend(e.del);
            }
        }
        self.union.retain(|i| !drop.contains(i));
        let mut head = self.revs.pop().unwrap();
        head.union = self.union.clone();
        self.revs = vec![head];
    }
}
pub fn delta(m: &Model, base: &[usize], reps: &[(usize, usize, Vec<char>)]) -> Delta<RopeInfo> {
    let text = m.text(base);
    let off: Vec<usize> = text.char_indices().map(|x| x.0).chain(Some(text.len())).collect();
    let mut b = Builder::new(text.len());
    for (x, y, t) in reps {
        b.replace(Interval::new(off[*x], off[*y]), Rope::from(t.iter().collect::<String>()));
    }
    b.build()
}
pub const ALPHA: &[char] = &['é', '漢', '𐐷', '\n', '\u{1f469}'];
pub fn new_text(c: &mut Choices, next: &mut u32) -> Vec<char> {
    let k = if c.small { c.below(2) + 1 } else { *c.pick(&[0, 1, 1, 2, 3, 5]) };
    let k = if !c.small && c.chance(1, 60) { 700 } else { k };
    (0..k)
        .map(|_| {
            *next += 1;
            if !c.small && c.chance(1, 5) { *c.pick(ALPHA) } else { (b'a' + (*next % 26) as u8) as char }
        })
        .collect()
}
pub fn reps(c: &mut Choices, n: usize, next: &mut u32) -> Vec<(usize, usize, Vec<char>)> {
    let (a, b) = c.iv(n);
    let b = if n > 60 && !c.chance(1, 8) { b.min(a + 4) } else { b };
    let mut v = vec![];
    let t = if a < b && c.flip() { vec![] } else { new_text(c, next) };
    v.push((a, b, t));
    if b + 1 < n && !c.small && c.chance(1, 3) {
        let (x, y) = c.iv(n - b - 1);
        let t = new_text(c, next);
        v.push((b + 1 + x, b + 1 + y, t));
    }
    v
}
pub fn check(e: &Engine, m: &Model) -> Result<(), String> {
    let head = m.text(&m.revs.last().unwrap().vis);
    ensure_eq!(String::from(e.get_head()), head, "current text");
    ensure_eq!(e.get_head_rev_id().token(), m.revs.last().unwrap().token, "head revision");
    for (i, r) in m.revs.iter().enumerate() {
        let want = m.text(&r.vis);
        let got = e.get_rev(r.token);
        ensure!(got.is_some(), "revision {} is gone", i);
        ensure_eq!(String::from(&got.unwrap()), want, "text of revision {}", i);
        match e.try_delta_rev_head(r.token) {
            Ok(d) => ensure_eq!(String::from(&d.apply(&Rope::from(&want))), head, "delta from revision {} to the current one", i),
            Err(_) => ensure!(false, "no delta from revision {}", i),
        }
    }
    ensure_eq!(e.max_undo_group_id(), m.max_group, "largest undo group");
    Ok(())
}
fn set(c: &mut Choices, n: usize) -> BTreeSet<usize> {
    let p = 1 + c.below(3);
    (0..n).filter(|_| c.below(4) < p).collect()
}
fn step(c: &mut Choices, e: &mut Engine, m: &mut Model, next: &mut u32, gc: bool) -> Result<(), String> {
    let groups = if c.small { 3 } else { 6 };
    match c.below(if gc { 8 } else { 7 }) {
        0..=3 => {
            let r = if c.chance(2, 5) { c.below(m.revs.len()) } else { m.revs.len() - 1 };
            let (prio, group) = (c.below(3), c.below(groups));
            let v = reps(c, m.revs[r].vis.len(), next);
            c.note(|| format!("edit revision {} of {} (priority {}, group {}): {:?}", r, m.revs.len(), prio, group, v));
            let d = delta(m, &m.revs[r].vis, &v);
            ensure!(e.try_edit_rev(prio, group, m.revs[r].token, d).is_ok(), "edit refused");
            m.edit(r, prio, group, &v, e.get_head_rev_id().token());
        }
        4 | 5 => {
            let g = set(c, groups);
            c.note(|| format!("undo {:?}", g));
            e.undo(g.clone());
            m.undo(g, e.get_head_rev_id().token());
        }
        6 => {
            // refused edits
            let r = c.below(m.revs.len());
            let t: Rope = Rope::from("zz");
            let len = m.text(&m.revs[r].vis).len();
            let (tok, n) = match c.below(3) {
                0 => (0x1234_5678_9abc, len),
                1 => (m.revs[r].token, len + 1),
                _ => (m.revs[r].token, if len == 0 { 3 } else { len - 1 }),
            };
            c.note(|| format!("bad edit of revision {} with length {}", r, n));
            let d = Delta::simple_edit(Interval::new(0, 0), t, n);
            ensure!(e.try_edit_rev(0, 1, tok, d).is_err(), "an edit of length {} was accepted", n);
        }
        _ => {
            let g = set(c, groups);
            c.note(|| format!("gc {:?}", g));
            e.gc(&g);
            m.gc(&g);
        }
    }
    check(e, m)
}
fn run(c: &mut Choices, gc: bool) -> Result<bool, String> {
    let mut next = 0;
    let mut e = Engine::empty();
    let mut m = Model::new(&e);
    if c.flip() {
        let t = new_text(c, &mut next);
        if !t.is_empty() {
            e = Engine::new(Rope::from(t.iter().collect::<String>()));
            m.edit(0, 0, 0, &[(0, 0, t)], e.get_head_rev_id().token());
        }
    }
    check(&e, &m)?;
    let n = if c.small { 3 } else { 2 + c.below(12) };
    for _ in 0..n {
        step(c, &mut e, &mut m, &mut next, gc)?;
    }
    Ok(true)
}
fn history(c: &mut Choices) -> Result<bool, String> {
    run(c, false)
}
fn collected(c: &mut Choices) -> Result<bool, String> {
    run(c, true)
}
pub fn gens() -> Vec<Gen> {
    vec![
        Gen { name: "history", case: history, exhaustive: (60_000, 1_000_000), random: (40_000, 1_000_000) },
        Gen { name: "collected", case: collected, exhaustive: (60_000, 1_000_000), random: (40_000, 1_000_000) },
    ]
}
