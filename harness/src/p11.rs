//! P11: intervals against sets of positions.
use crate::fw::*;
use crate::{ensure, ensure_eq};
use xi_rope::interval::{Interval, IntervalBounds};

type S = std::collections::BTreeSet<usize>;
fn set(i: Interval) -> S {
    (i.start..i.end).collect()
}
fn pair(c: &mut Choices) -> Result<bool, String> {
    let n = if c.small { 5 } else { 40 };
    let (a, b) = c.iv(n);
    let (x, y) = c.iv(n);
    c.note(|| format!("[{},{}) and [{},{})", a, b, x, y));
    let (i, j) = (Interval::new(a, b), Interval::new(x, y));
    let (si, sj) = (set(i), set(j));
    ensure_eq!((i.start(), i.end(), i.start_end()), (a, b, (a, b)), "accessors");
    ensure_eq!(i.is_empty(), si.is_empty(), "is_empty");
    ensure_eq!(i.size(), si.len(), "size");
    ensure_eq!(i == j, a == x && b == y, "==");
    let k = i.intersect(j);
    ensure_eq!(set(k), si.intersection(&sj).cloned().collect::<S>(), "intersect");
    ensure!(k.start <= k.end, "intersect gives a reversed interval {:?}", k);
    if !k.is_empty() || (a <= y && x <= b) {
        ensure_eq!((k.start, k.end), (a.max(x), b.min(y)), "intersect of touching intervals");
    }
    let u = i.union(j);
    if si.is_empty() {
        ensure_eq!(u, j, "union with an empty interval");
    } else if sj.is_empty() {
        ensure_eq!(u, i, "union with an empty interval");
    } else {
        ensure_eq!((u.start, u.end), (a.min(x), b.max(y)), "union is the hull");
    }
    let (p, s) = (i.prefix(j), i.suffix(j));
    ensure_eq!(set(p), si.iter().cloned().filter(|q| *q < x).collect::<S>(), "prefix");
    ensure_eq!(set(s), si.iter().cloned().filter(|q| *q >= y).collect::<S>(), "suffix");
    ensure!(p.start <= p.end && s.start <= s.end, "prefix or suffix reversed: {:?} {:?}", p, s);
    ensure_eq!(p.size() + s.size() + si.intersection(&sj).count(), b - a, "sizes of prefix, intersection and suffix");
    for v in 0..n + 2 {
        ensure_eq!(i.contains(v), si.contains(&v), "contains {}", v);
        ensure_eq!(i.is_before(v), b <= v, "is_before {}", v);
        ensure_eq!(i.is_after(v), a > v, "is_after {}", v);
        if a < b {
            ensure_eq!(i.contains(v) as u8 + i.is_before(v) as u8 + i.is_after(v) as u8, 1, "trisection at {}", v);
        }
    }
    ensure_eq!(set(i.translate(x)), si.iter().map(|q| q + x).collect::<S>(), "translate");
    ensure_eq!(i.translate(x).translate_neg(x), i, "translate back");
    Ok(a < b && x < y)
}
fn conv(c: &mut Choices) -> Result<bool, String> {
    let n = if c.small { 5 } else { 100 };
    let (a, b) = c.iv(n);
    let up = b + c.below(4);
    c.note(|| format!("{}..{} under {}", a, b, up));
    let e = |x: Interval, s: usize, t: usize, w: &str| -> Result<(), String> {
        ensure_eq!((x.start, x.end), (s, t), "{}", w);
        Ok(())
    };
    e(Interval::from(a..b), a, b, "a..b")?;
    e(Interval::from(..b), 0, b, "..b")?;
    e(Interval::from(a..=b), a, b + 1, "a..=b")?;
    e(Interval::from(..=b), 0, b + 1, "..=b")?;
    e((a..b).into_interval(up), a, b, "a..b bounds")?;
    e((..b).into_interval(up), 0, b, "..b bounds")?;
    e((a..=b).into_interval(up), a, b + 1, "a..=b bounds")?;
    e((..=b).into_interval(up), 0, b + 1, "..=b bounds")?;
    e((a..).into_interval(up), a, up, "a.. bounds")?;
    e((..).into_interval(up), 0, up, ".. bounds")?;
    e(Interval::new(a, b).into_interval(up), a, b, "interval bounds")?;
    #[allow(deprecated)]
    {
        e(Interval::new_closed_open(a, b), a, b, "new_closed_open")?;
        e(Interval::new_open_closed(a, b), a, b, "new_open_closed")?;
        e(Interval::new_closed_closed(a, b), a, b, "new_closed_closed")?;
        e(Interval::new_open_open(a, b), a, b, "new_open_open")?;
    }
    let m = usize::MAX;
    if c.below(8) == 0 {
        e(Interval::from(a..=m), a, m, "a..=MAX")?;
        e(Interval::from(..=m), 0, m, "..=MAX")?;
    }
    ensure_eq!(format!("{}", Interval::new(a, b)), format!("[{}, {})", a, b), "display");
    if a < b {
        // debug builds refuse a reversed interval
        ensure!(guarded(|| Interval::new(b, a)).is_err(), "a reversed interval was accepted");
        ensure!(guarded(|| Interval::new(a, b).translate_neg(a + 1)).is_err(), "translating below zero was accepted");
    }
    Ok(a < b)
}
pub fn gens() -> Vec<Gen> {
    vec![
        Gen { name: "pair", case: pair, exhaustive: (2000, 2000), random: (60_000, 1_000_000) },
        Gen { name: "conversions", case: conv, exhaustive: (2000, 2000), random: (20_000, 100_000) },
    ]
}
