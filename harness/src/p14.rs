//! P14: spans and breaks against plain lists.
use crate::fw::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use xi_rope::breaks::{BreakBuilder, Breaks, BreaksInfo, BreaksMetric};
use xi_rope::interval::Interval;
use xi_rope::spans::{Spans, SpansBuilder};
use xi_rope::tree::{Cursor, Node};
use xi_rope::Transformer;

type Row = Vec<Option<u32>>;
#[derive(Clone)]
struct M {
    n: usize,
    v: Vec<(usize, usize, u32)>,
}
impl M {
    fn row(&self) -> Row {
        let mut r = vec![None; self.n];
        for (s, e, d) in &self.v {
            for x in *s..*e {
                r[x] = Some(*d);
            }
        }
        r
    }
}

fn gen(c: &mut Choices, n: usize, many: bool) -> M {
    let mut v = vec![];
    let mut at = 0;
    let gap = if c.small || !many { 4 } else { *c.pick(&[1, 2, 5, 40]) };
    let len = if c.small || !many { 4 } else { *c.pick(&[1, 2, 5, 40]) };
    let stop = if c.small { 3 } else if many { 2000 } else { c.below(12) };
    while at < n && v.len() < stop {
        let s = at + c.below(gap + 1);
        if s >= n || (!c.small && c.chance(1, 400)) {
            break;
        }
        let e = (s + 1 + c.below(len)).min(n);
        v.push((s, e, if c.small { v.len() as u32 + 1 } else { c.below(40) as u32 }));
        at = e;
        if c.small && c.flip() {
            break;
        }
    }
    M { n, v }
}
fn build(m: &M) -> Spans<u32> {
    let mut b = SpansBuilder::new(m.n);
    for (s, e, d) in &m.v {
        b.add_span(Interval::new(*s, *e), *d);
    }
    b.build()
}
fn list(s: &Spans<u32>) -> Vec<(usize, usize, u32)> {
    s.iter().map(|(iv, d)| (iv.start(), iv.end(), *d)).collect()
}
/// the reported spans are not empty, in order, disjoint and within the length; what they say at every place
fn row_of(s: &Spans<u32>, what: &str) -> Result<Row, String> {
    let mut r = vec![None; s.len()];
    let mut at = 0;
    for (a, b, d) in list(s) {
        ensure!(at <= a && a < b && b <= s.len(), "{}: spans out of order or empty: {}..{} after {} of {}", what, a, b, at, s.len());
        for x in a..b {
            r[x] = Some(d);
        }
        at = b;
    }
    Ok(r)
}
fn same(s: &Spans<u32>, want: &Row, what: &str) -> Result<(), String> {
    ensure_eq!(s.len(), want.len(), "{}: length", what);
    let got = row_of(s, what)?;
    if &got != want {
        let x = (0..want.len()).find(|i| got[*i] != want[*i]).unwrap();
        return Err(format!("{}: at {} found {:?}, expected {:?}", what, x, got[x], want[x]));
    }
    Ok(())
}
fn size(c: &mut Choices) -> (usize, bool) {
    if c.small {
        (c.range(1, 6), false)
    } else if c.chance(1, 3) {
        (c.range(100, 6000), true)
    } else {
        (c.range(1, 60), false)
    }
}

fn stored(c: &mut Choices) -> Result<bool, String> {
    let (n, many) = size(c);
    let m = gen(c, n, many);
    c.note(|| format!("spans {:?} over {}", m.v, n));
    let s = build(&m);
    ensure_eq!(s.len(), n, "length");
    ensure_eq!(list(&s), m.v, "the spans reported");
    // parts, pieces laid end to end, and replaced parts
    let row = m.row();
    let (a, b) = c.iv(n);
    let p = s.subseq(Interval::new(a, b));
    let clip: Vec<_> = m.v.iter().map(|(s, e, d)| ((*s).max(a), (*e).min(b), *d)).filter(|(s, e, _)| s < e).map(|(s, e, d)| (s - a, e - a, d)).collect();
    ensure_eq!(list(&p), clip, "the spans of part {}..{}", a, b);
    ensure_eq!(p.len(), b - a, "length of part {}..{}", a, b);
    let (n2, many2) = size(c);
    let m2 = gen(c, n2, many2);
    c.note(|| format!("{}..{} replaced by {:?} over {}", a, b, m2.v, n2));
    let mut e = s.clone();
    e.edit(Interval::new(a, b), build(&m2));
    let mut want = row.clone();
    want.splice(a..b, m2.row());
    same(&e, &want, "after replacing a part")?;
    ensure_eq!(list(&s), m.v, "the original after replacing a part of its copy");
    let cat = Node::concat(p, build(&m2));
    let mut want = row[a..b].to_vec();
    want.extend(m2.row());
    same(&cat, &want, "two pieces end to end")?;
    Ok(m.v.len() > 1)
}

fn merge(c: &mut Choices) -> Result<bool, String> {
    let (n, many) = size(c);
    let (a, b) = (gen(c, n, many), gen(c, n, many));
    c.note(|| format!("{:?} merged with {:?} over {}", a.v, b.v, n));
    let m = build(&a).merge(&build(&b), |x, y| match y {
        Some(y) => 10_000 + 100 * x + y,
        None => *x,
    });
    let want: Row = a.row().iter().zip(b.row().iter()).map(|(x, y)| match (x, y) {
        (Some(x), Some(y)) => Some(10_000 + 100 * x + y),
        (Some(x), None) | (None, Some(x)) => Some(*x),
        _ => None,
    }).collect();
    same(&m, &want, "merged")?;
    Ok(a.v.len() > 0 && b.v.len() > 0)
}

fn follow(c: &mut Choices) -> Result<bool, String> {
    let (n, many) = size(c);
    let text: String = "x".repeat(n);
    let (d, dm) = gen_delta(c, &text, if c.small { 2 } else { 6 }, if c.small { 2 } else { 5 });
    let surv = dm.survive();
    // a layer over part of the text, carried over the edit
    let (b0, b1) = c.iv(n);
    let m = gen(c, b1 - b0, many);
    c.note(|| format!("spans {:?} over {}..{} of {}", m.v, b0, b1, n));
    let s = build(&m);
    let row = m.row();
    let t = s.transform(b0, b1, &mut Transformer::new(&d));
    let (n0, n1) = (dm.transform(b0, false), dm.transform(b1, true));
    ensure_eq!(t.len(), n1 - n0, "length after transform");
    let got = row_of(&t, "after transform")?;
    for x in b0..b1 {
        if let Some(y) = surv[x] {
            ensure_eq!(got[y - n0], row[x - b0], "after transform: at {} (was {})", y, x);
        }
    }
    // text inserted within one span belongs to it, text away from any span to none
    for y in 0..got.len() {
        if surv.iter().any(|k| *k == Some(y + n0)) {
            continue;
        }
        let before = surv.iter().enumerate().filter(|(_, k)| k.map_or(false, |k| k < y + n0)).map(|(x, _)| x).last();
        let after = surv.iter().enumerate().find(|(_, k)| k.map_or(false, |k| k > y + n0)).map(|(x, _)| x);
        if let (Some(p), Some(q)) = (before, after) {
            if p >= b0 && q < b1 && q == p + 1 {
                if let Some(sp) = m.v.iter().find(|(s, e, _)| b0 + s <= p && q < b0 + e) {
                    ensure_eq!(got[y], Some(sp.2), "after transform: inserted at {} within a span", y);
                } else if row[p - b0].is_none() && row[q - b0].is_none() {
                    ensure_eq!(got[y], None, "after transform: inserted at {} away from spans", y);
                }
            }
        }
    }
    // a layer over the whole text that follows its shape
    let m = gen(c, n, many);
    c.note(|| format!("spans {:?} over {}", m.v, n));
    let mut s = build(&m);
    s.apply_shape(&d);
    let row = m.row();
    let mut want = vec![None; dm.new_len()];
    for x in 0..n {
        if let Some(y) = surv[x] {
            want[y] = row[x];
        }
    }
    same(&s, &want, "after apply_shape")?;
    // everything from the first span that reaches into an interval on
    let (a, b) = c.iv(n);
    let mut s = build(&m);
    s.delete_after(Interval::new(a, b));
    let keep: Vec<_> = m.v.iter().take_while(|(s, e, _)| (*s).max(a) >= (*e).min(b)).cloned().collect();
    c.note(|| format!("delete_after {}..{}", a, b));
    same(&s, &M { n, v: keep }.row(), "after delete_after")?;
    Ok(dm.els.len() > 1 && !m.v.is_empty())
}

// ---------------------------------------------------------------- breaks
fn gen_breaks(c: &mut Choices, many: bool) -> (usize, Vec<usize>, Breaks) {
    let k = if c.small { c.below(4) } else if many { c.below(2500) } else { c.below(30) };
    let mut b = BreakBuilder::new();
    let (mut n, mut v) = (0, vec![]);
    for _ in 0..k {
        let l = if c.small { c.range(1, 2) } else { c.range(1, 5) };
        if !c.chance(1, 4) {
            b.add_break(l);
            n += l;
            v.push(n);
        } else {
            b.add_no_break(l);
            n += l;
        }
    }
    (n, v, b.build())
}
fn check(c: &mut Choices, b: &Breaks, n: usize, v: &[usize], what: &str) -> Result<(), String> {
    ensure_eq!(b.len(), n, "{}: length", what);
    // all the breaks, forwards and backwards
    let mut cur: Cursor<BreaksInfo> = Cursor::new(b, 0);
    let mut got = vec![];
    while let Some(p) = cur.next::<BreaksMetric>() {
        got.push(p);
        ensure!(got.len() <= n + 1, "{}: more breaks than characters", what);
    }
    ensure_eq!(got, v, "{}: breaks found forwards", what);
    if n > 0 {
        let mut cur: Cursor<BreaksInfo> = Cursor::new(b, n);
        let mut got = vec![];
        if cur.is_boundary::<BreaksMetric>() && v.last() == Some(&n) {
            got.push(n);
        }
        while let Some(p) = cur.prev::<BreaksMetric>() {
            if p == 0 {
                break;
            }
            got.push(p);
            ensure!(got.len() <= n + 1, "{}: more breaks than characters", what);
        }
        got.reverse();
        ensure_eq!(got, v, "{}: breaks found backwards", what);
    }
    let k = if n <= 40 { n + 1 } else { 12 };
    for i in 0..k {
        let p = if n <= 40 { i } else { c.below(n + 1) };
        let cnt = v.iter().filter(|x| **x <= p).count();
        ensure_eq!(b.count::<BreaksMetric>(p), cnt, "{}: breaks up to {}", what, p);
        let mut cur: Cursor<BreaksInfo> = Cursor::new(b, p);
        if p > 0 {
            ensure_eq!(cur.is_boundary::<BreaksMetric>(), v.binary_search(&p).is_ok(), "{}: break at {}", what, p);
        }
        ensure_eq!(cur.next::<BreaksMetric>(), v.iter().find(|x| **x > p).cloned(), "{}: break after {}", what, p);
        if cnt > 0 {
            ensure_eq!(b.count_base_units::<BreaksMetric>(cnt), v[cnt - 1], "{}: position of break {}", what, cnt);
        }
    }
    Ok(())
}
fn breaks(c: &mut Choices) -> Result<bool, String> {
    let many = !c.small && c.chance(1, 3);
    let (n, v, b) = gen_breaks(c, many);
    c.note(|| format!("breaks {:?} over {}", v, n));
    check(c, &b, n, &v, "as built")?;
    let (x, y) = c.iv(n);
    c.note(|| format!("part {}..{}", x, y));
    let p = b.subseq(Interval::new(x, y));
    let pv: Vec<usize> = v.iter().filter(|k| x < **k && **k <= y).map(|k| k - x).collect();
    check(c, &p, y - x, &pv, "a part")?;
    let (n2, v2, b2) = if c.chance(1, 4) { let n2 = c.below(9); (n2, vec![], Breaks::new_no_break(n2)) } else { gen_breaks(c, many) };
    c.note(|| format!("replaced by {:?} over {}", v2, n2));
    let mut e = b.clone();
    e.edit(Interval::new(x, y), b2);
    let mut want: Vec<usize> = v.iter().filter(|k| **k <= x).cloned().collect();
    want.extend(v2.iter().map(|k| k + x));
    want.extend(v.iter().filter(|k| **k > y).map(|k| k - y + x + n2));
    check(c, &e, n - (y - x) + n2, &want, "after an edit")?;
    check(c, &b, n, &v, "the original after an edit of its copy")?;
    Ok(v.len() > 1)
}

pub fn gens() -> Vec<Gen> {
    vec![
        Gen { name: "stored", case: stored, exhaustive: (300_000, 2_000_000), random: (40_000, 800_000) },
        Gen { name: "merge", case: merge, exhaustive: (300_000, 2_000_000), random: (50_000, 800_000) },
        Gen { name: "follow", case: follow, exhaustive: (300_000, 2_000_000), random: (20_000, 300_000) },
        Gen { name: "breaks", case: breaks, exhaustive: (200_000, 1_000_000), random: (30_000, 400_000) },
    ]
}
