//! P03: positions and pending insertions carried over edits.
use crate::fw::*;
use crate::model::*;
use crate::p02::{gen_base, gen_raw, show};
use crate::subset::{counts, gen_subset};
use crate::{ensure, ensure_eq};
use xi_rope::delta::InsertDelta;
use xi_rope::rope::RopeInfo;
use xi_rope::{DeltaElement, Interval, Rope, Transformer};

fn positions(c: &mut Choices) -> Result<bool, String> {
    let s = gen_base(c);
    c.note(|| format!("base {}", show(&s)));
    let (d, dm) = if c.flip() { gen_delta(c, &s, if c.small { 2 } else { 6 }, 5) } else { let m = gen_raw(c, &s); c.note(|| format!("{:?}", m.els)); (m.raw(), m) };
    let mut tr = Transformer::new(&d);
    let sv = dm.survive();
    let picks: Vec<usize> = if s.len() <= 40 { (0..=s.len()).collect() } else { let mut v: Vec<usize> = (0..40).map(|_| c.below(s.len() + 1)).collect(); v.sort(); v };
    let (mut la, mut lb) = (0, 0);
    for p in picks {
        let (b, a) = (tr.transform(p, false), tr.transform(p, true));
        ensure_eq!(b, dm.transform(p, false), "transform({}, false)", p);
        ensure_eq!(a, dm.transform(p, true), "transform({}, true)", p);
        ensure!(b <= a, "position {} goes to {} before and to {} after an insertion", p, b, a);
        ensure!(b >= lb && a >= la, "position {} moves in front of an earlier one", p);
        ensure!(a <= d.new_document_len(), "position {} past the end", p);
        if p < s.len() {
            if let Some(k) = sv[p] {
                ensure_eq!(a, k, "position of surviving character {}", p);
            }
        }
        la = a;
        lb = b;
    }
    for _ in 0..6 {
        let (x, y) = c.iv(s.len());
        let want = x < y && (x..y).all(|i| sv[i].is_some()) && sv[y - 1].unwrap() - sv[x].unwrap() == y - 1 - x;
        let got = tr.interval_untouched(Interval::new(x, y));
        if got {
            // inside one copied stretch: everything in it and at its ends keeps its neighbours
            let inside = dm.els.iter().any(|e| matches!(e, El::Copy(a, b) if *a <= x && y <= *b));
            ensure!(inside && (x == y || want), "{}..{} reported untouched by {:?}", x, y, dm.els);
        }
        ensure_eq!(tr.transform(x, false), dm.transform(x, false), "transform after interval_untouched");
    }
    // something inside the first copied stretch is recognised
    if let Some(El::Copy(a, b)) = dm.els.first() {
        if b - a >= 2 {
            let x = a + 1 + c.below(b - a - 1);
            ensure!(tr.interval_untouched(Interval::new(x, *b)), "{}..{} not reported untouched by {:?}", x, b, dm.els);
        }
    }
    Ok(!dm.els.is_empty())
}
/// (base offset, text) of each insertion
fn inserts(d: &InsertDelta<RopeInfo>) -> Result<Vec<(usize, String)>, String> {
    let mut p = 0;
    let mut v = vec![];
    for e in &d.els {
        match e {
            DeltaElement::Copy(a, b) => {
                ensure!(*a == p && b >= a, "insertions copy {}..{} after {}", a, b, p);
                p = *b;
            }
            DeltaElement::Insert(n) => v.push((p, String::from(n))),
        }
    }
    ensure_eq!(p, d.base_len, "insertions copy the whole base");
    Ok(v)
}
fn gen_ins(c: &mut Choices, n: usize) -> (InsertDelta<RopeInfo>, Vec<(usize, String)>) {
    let k = c.below(if c.small { 2 } else { 5 }) + 1;
    let mut at: Vec<usize> = (0..k).map(|_| c.below(n + 1)).collect();
    at.sort();
    let mut els = vec![];
    let mut want = vec![];
    let mut last = 0;
    for p in at {
        let t = if c.small { "A".to_string() } else { (0..1 + c.below(3)).map(|_| (b'A' + c.below(26) as u8) as char).collect::<String>() };
        if p > last {
            els.push(El::Copy(last, p));
        }
        els.push(El::Ins(t.clone()));
        want.push((p, t));
        last = p;
    }
    if last < n {
        els.push(El::Copy(last, n));
    }
    let (i, _) = DM { els, base_len: n }.raw().factor();
    (i, want)
}
fn pending(c: &mut Choices) -> Result<bool, String> {
    let n = if c.small { 4 } else { *c.pick(&[6, 12, 30]) };
    // expand: xform ranges over a longer text whose unmarked elements are the base
    let nx = c.below(n + 1);
    let (xf, mx) = gen_subset(c, nx, 2);
    let base = mx.iter().filter(|x| **x == 0).count();
    let (d, w) = gen_ins(c, base);
    c.note(|| format!("insertions {:?} into {} through {:?}", w, base, mx));
    ensure_eq!(inserts(&d)?, w, "insertions before");
    let place: Vec<usize> = (0..nx).filter(|i| mx[*i] == 0).collect();
    for after in [false, true] {
        let e = d.transform_expand(&xf, after);
        let want: Vec<(usize, String)> = w
            .iter()
            .map(|(p, t)| (if after { place.get(*p).cloned().unwrap_or(nx) } else if *p == 0 { 0 } else { place[*p - 1] + 1 }, t.clone()))
            .collect();
        ensure_eq!(inserts(&e)?, want, "insertions expanded, after = {}", after);
        ensure_eq!(e.base_len, nx, "base length after expanding");
    }
    // shrink: the base loses the marked elements
    let (d, w) = gen_ins(c, nx);
    c.note(|| format!("insertions {:?} into {} shrunk by {:?}", w, nx, mx));
    let e = d.transform_shrink(&xf);
    let want: Vec<(usize, String)> = w.iter().map(|(p, t)| (mx[..*p].iter().filter(|x| **x == 0).count(), t.clone())).collect();
    ensure_eq!(inserts(&e)?, want, "insertions shrunk");
    ensure_eq!(e.base_len, base, "base length after shrinking");
    // a round trip: expanding and shrinking by the same set gives the insertions back
    let (d, w) = gen_ins(c, base);
    ensure_eq!(inserts(&d.transform_expand(&xf, c.flip()).transform_shrink(&xf))?, w, "expanded and shrunk");
    // the inserted subset marks exactly the inserted text, and the text agrees
    let s: String = (0..base).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    let t = String::from(d.apply(&Rope::from(&s)));
    let m = counts(&d.inserted_subset());
    ensure_eq!(m.len(), t.len(), "inserted_subset length");
    ensure_eq!(t.bytes().map(|b| b.is_ascii_uppercase() as usize).collect::<Vec<_>>(), m, "inserted_subset");
    Ok(nx > 0)
}
pub fn gens() -> Vec<Gen> {
    vec![
        Gen { name: "positions", case: positions, exhaustive: (30000, 300000), random: (60000, 600000) },
        Gen { name: "pending insertions", case: pending, exhaustive: (30000, 300000), random: (100000, 1000000) },
    ]
}
