//! P08: selections against plain lists of regions.
use crate::fw::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use xi_core_lib::selection::{Affinity, InsertDrift, SelRegion, Selection};

type R = (usize, usize);
fn mn(r: R) -> usize { r.0.min(r.1) }
fn mx(r: R) -> usize { r.0.max(r.1) }
fn caret(r: R) -> bool { r.0 == r.1 }
/// the two regions merge: interiors meet, or one is a caret and they touch
fn meets(a: R, b: R) -> bool {
    mn(a).max(mn(b)) < mx(a).min(mx(b)) && !caret(a) && !caret(b)
        || (caret(a) || caret(b)) && mn(a) <= mx(b) && mn(b) <= mx(a)
}
fn regs(s: &Selection) -> Vec<R> {
    s.iter().map(|r| (r.start, r.end)).collect()
}
fn invariant(v: &[R], what: &str) -> Result<(), String> {
    for w in v.windows(2) {
        let ok = mx(w[0]) < mn(w[1]) || (mx(w[0]) == mn(w[1]) && !caret(w[0]) && !caret(w[1]));
        ensure!(ok, "{}: regions out of order or overlapping: {:?}", what, v);
    }
    Ok(())
}
/// the regions after adding r: everything r meets becomes one region, pointing as r does
fn model_add(v: &[R], r: R) -> Vec<R> {
    let mut hull = (mn(r), mx(r));
    let mut rest: Vec<R> = v.to_vec();
    let mut any = true;
    while any {
        any = false;
        for i in 0..rest.len() {
            if meets(rest[i], hull) {
                let x = rest.remove(i);
                hull = (hull.0.min(mn(x)), hull.1.max(mx(x)));
                any = true;
                break;
            }
        }
    }
    rest.push(if r.1 >= r.0 { hull } else { (hull.1, hull.0) });
    rest.sort_by_key(|x| (mn(*x), mx(*x)));
    rest
}
fn gen_region(c: &mut Choices, n: usize) -> R {
    if c.small {
        let a = c.below(n + 1);
        let b = c.below(n + 1);
        (a, b)
    } else {
        let a = c.below(n + 1);
        let b = match c.below(4) {
            0 => a,
            1 => c.below(n + 1),
            _ => (a + c.below(6)).min(n),
        };
        if c.chance(1, 3) { (b, a) } else { (a, b) }
    }
}
fn sr(r: R) -> SelRegion {
    SelRegion::new(r.0, r.1)
}
fn queries(c: &mut Choices, s: &Selection, m: &[R], n: usize) -> Result<(), String> {
    for _ in 0..if c.small { 1 } else { 3 } {
        let (a, b) = c.iv(n + 1);
        let got: Vec<R> = s.regions_in_range(a, b).iter().map(|r| (r.start, r.end)).collect();
        let want: Vec<R> = m.iter().cloned().filter(|r| mx(*r) >= a && mn(*r) <= b).collect();
        ensure_eq!(got, want, "regions_in_range({}, {}) of {:?}", a, b, m);
        let want = m.iter().position(|r| a <= mx(*r)).unwrap_or(m.len());
        ensure_eq!(s.search(a), want, "search({}) in {:?}", a, m);
    }
    Ok(())
}

fn history(c: &mut Choices) -> Result<bool, String> {
    let n = if c.small { 4 } else { 30 };
    let steps = if c.small { 3 } else { c.range(1, 16) };
    let mut s = Selection::new();
    let mut m: Vec<R> = vec![];
    for _ in 0..steps {
        match if c.small { c.below(2) * 7 } else { c.below(9) } {
            0..=5 => {
                let r = gen_region(c, n);
                c.note(|| format!("add {:?}", r));
                s.add_region(sr(r));
                m = model_add(&m, r);
            }
            6 => {
                if c.chance(1, 12) {
                    if !m.is_empty() {
                        s.collapse();
                        m = vec![(m[0].1, m[0].1)];
                        c.note(|| "collapse".into());
                    }
                } else if c.chance(1, 12) {
                    s.clear();
                    m.clear();
                }
            }
            _ => {
                let (a, b) = c.iv(n + 1);
                let adj = c.flip();
                c.note(|| format!("delete {}..{} {}", a, b, adj));
                s.delete_range(a, b, adj);
                m.retain(|r| if adj { !(mx(*r) >= a && mn(*r) <= b) } else { !(mx(*r) > a && mn(*r) < b) });
            }
        }
        let got = regs(&s);
        invariant(&got, "after the last step")?;
        ensure_eq!(got, m, "regions after the last step");
        queries(c, &s, &m, n)?;
        ensure_eq!(s.len(), m.len(), "len");
    }
    Ok(m.len() > 1)
}
/// regions that do not merge: find occurrences
fn distinct(c: &mut Choices) -> Result<bool, String> {
    let n = if c.small { 5 } else { 30 };
    let steps = if c.small { 3 } else { c.range(1, 14) };
    let mut s = Selection::new();
    let mut m: Vec<R> = vec![];
    for _ in 0..steps {
        let r = {
            let r = gen_region(c, n);
            if caret(r) { if r.0 == 0 { (0, 1) } else { (r.0 - 1, r.0) } } else { r }
        };
        c.note(|| format!("add_range_distinct {:?}", r));
        let got = s.add_range_distinct(sr(r));
        let inter = |a: R, b: R| mn(a).max(mn(b)) < mx(a).min(mx(b));
        // the region that starts first, or is already there, wins
        let want = match m.iter().find(|x| inter(**x, r) && mn(**x) <= mn(r)) {
            Some(x) => (mn(*x), mx(*x)),
            None => {
                m.retain(|x| !inter(*x, r));
                m.push(r);
                m.sort_by_key(|x| (mn(*x), mx(*x)));
                (mn(r), mx(r))
            }
        };
        ensure_eq!(got, want, "returned region");
        ensure_eq!(regs(&s), m, "regions");
        invariant(&regs(&s), "add_range_distinct")?;
        queries(c, &s, &m, n)?;
    }
    Ok(m.len() > 1)
}
/// a caret that is already there is not doubled and does not disturb its neighbours
fn distinct_caret(c: &mut Choices) -> Result<bool, String> {
    let n = if c.small { 6 } else { 20 };
    let mut s = Selection::new();
    let mut m: Vec<usize> = vec![];
    for _ in 0..if c.small { 3 } else { c.range(1, 8) } {
        let p = c.below(n);
        c.note(|| format!("caret {}", p));
        let got = s.add_range_distinct(SelRegion::caret(p));
        ensure_eq!(got, (p, p), "returned region");
        if !m.contains(&p) {
            m.push(p);
            m.sort();
        }
        ensure_eq!(regs(&s), m.iter().map(|x| (*x, *x)).collect::<Vec<_>>(), "regions");
    }
    Ok(m.len() > 1)
}
fn apply(c: &mut Choices) -> Result<bool, String> {
    let text = if c.small { "abcd".to_string() } else { gen_text(c, 24) };
    let n = text.len();
    let mut s = Selection::new();
    let mut m: Vec<R> = vec![];
    let mut aff = vec![];
    for _ in 0..if c.small { 2 } else { c.range(1, 7) } {
        let r = gen_region(c, n);
        let up = !c.small && c.chance(1, 3);
        s.add_region(if up { sr(r).with_affinity(Affinity::Upstream) } else { sr(r) });
        m = model_add(&m, r);
    }
    ensure_eq!(regs(&s), m, "regions before");
    for r in s.iter() {
        aff.push(r.affinity);
    }
    let after = c.flip();
    let drift = c.below(3);
    c.note(|| format!("text {:?} regions {:?} after {} drift {}", text, m, after, drift));
    let (d, dm) = gen_delta(c, &text, if c.small { 1 } else { 4 }, if c.small { 1 } else { 3 });
    let d2 = match drift { 0 => InsertDrift::Inside, 1 => InsertDrift::Outside, _ => InsertDrift::Default };
    let got = s.apply_delta(&d, after, d2);
    let mut want: Vec<R> = vec![];
    let mut moved: Vec<R> = vec![];
    for r in &m {
        let (lo, hi) = (mn(*r), mx(*r));
        // inside: text typed at an edge becomes part of the region; outside: it does not
        let (la, ha) = match drift {
            0 if lo != hi => (false, true),
            1 if lo != hi => (true, false),
            _ => (after, after),
        };
        let (tl, th) = (dm.transform(lo, la), dm.transform(hi, ha));
        let x = if r.0 <= r.1 { (tl, th) } else { (th, tl) };
        moved.push(x);
        want = model_add(&want, x);
    }
    let g = regs(&got);
    invariant(&g, "apply_delta")?;
    ensure_eq!(g, want, "regions carried over the edit, moved one by one: {:?}", moved);
    if g == moved {
        for (i, r) in got.iter().enumerate() {
            ensure_eq!(r.affinity, aff[i], "affinity of region {}", i);
        }
    }
    Ok(m.len() > 1 && dm.els.len() > 1)
}
fn region(c: &mut Choices) -> Result<bool, String> {
    let r = gen_region(c, if c.small { 4 } else { 60 });
    c.note(|| format!("{:?}", r));
    let s = sr(r);
    ensure_eq!((s.min(), s.max(), s.is_caret(), s.is_upstream()), (mn(r), mx(r), caret(r), false), "region {:?}", r);
    let u = s.with_affinity(Affinity::Upstream).with_horiz(Some(7));
    ensure_eq!((u.start, u.end, u.is_upstream(), u.horiz), (r.0, r.1, true, Some(7)), "region {:?}", r);
    ensure_eq!(regs(&Selection::new_simple(s)), vec![r], "new_simple");
    ensure_eq!(regs(&Selection::from(s)), vec![r], "from region");
    let iv = xi_rope::Interval::from(&s);
    ensure_eq!((iv.start(), iv.end()), (mn(r), mx(r)), "interval");
    let b = SelRegion::from(iv);
    ensure_eq!((b.start, b.end), (mn(r), mx(r)), "from interval");
    ensure_eq!(regs(&Selection::new_simple(SelRegion::caret(r.0))), vec![(r.0, r.0)], "caret");
    Ok(!caret(r))
}

pub fn gens() -> Vec<Gen> {
    vec![
        Gen { name: "history", case: history, exhaustive: (300_000, 3_000_000), random: (60_000, 2_000_000) },
        Gen { name: "add_range_distinct", case: distinct, exhaustive: (60_000, 300_000), random: (40_000, 1_000_000) },
        Gen { name: "add_range_distinct carets", case: distinct_caret, exhaustive: (300, 300), random: (3_000, 50_000) },
        Gen { name: "apply_delta", case: apply, exhaustive: (200_000, 2_000_000), random: (60_000, 2_000_000) },
        Gen { name: "region", case: region, exhaustive: (25, 25), random: (2_000, 20_000) },
    ]
}
