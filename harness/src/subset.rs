//! rope/src/multiset.rs against the model "one count per element".
use crate::fw::*;
use crate::{ensure, ensure_eq};
use xi_rope::multiset::{CountMatcher, Subset, SubsetBuilder};
use xi_rope::Rope;

pub type M = Vec<usize>;

/// the segments of the real value, read through its serde form
pub fn segments(s: &Subset) -> Vec<(usize, usize)> {
    let v = serde_json::to_value(s).unwrap();
    v["segments"].as_array().unwrap().iter().map(|x| (x["len"].as_u64().unwrap() as usize, x["count"].as_u64().unwrap() as usize)).collect()
}
pub fn counts(s: &Subset) -> M {
    segments(s).into_iter().flat_map(|(l, c)| std::iter::repeat(c).take(l)).collect()
}
pub fn canonical(s: &Subset) -> Result<(), String> {
    let g = segments(s);
    ensure!(g.iter().all(|x| x.0 > 0), "empty segment in {:?}", g);
    ensure!(g.windows(2).all(|w| w[0].1 != w[1].1), "adjacent segments with equal counts in {:?}", g);
    Ok(())
}
fn hit(m: CountMatcher, c: usize) -> bool {
    match m {
        CountMatcher::Zero => c == 0,
        CountMatcher::NonZero => c != 0,
        CountMatcher::All => true,
    }
}
const MATCHERS: [CountMatcher; 3] = [CountMatcher::Zero, CountMatcher::NonZero, CountMatcher::All];

/// a count: small, or now and then a large one
fn gen_count(c: &mut Choices, maxc: usize) -> usize {
    let k = c.below(maxc + 1);
    if !c.small && k == maxc && maxc > 2 && c.chance(1, 2) { *c.pick(&[4, 8, 9, 10, 16, 255, 256, 65536, 1 << 32]) } else { k }
}
/// builds a subset through the public builder and its model
pub fn gen_subset(c: &mut Choices, len: usize, maxc: usize) -> (Subset, M) {
    let mut b = SubsetBuilder::new();
    let mut m: M = vec![];
    let dense = c.flip();
    let mut rounds = 0;
    while m.len() < len {
        if dense {
            let l = c.range(1, (len - m.len()).min(if c.small { 2 } else { 6 }));
            let k = gen_count(c, maxc);
            b.push_segment(l, k);
            m.extend(std::iter::repeat(k).take(l));
        } else {
            // a range after a gap; possibly empty
            let beg = c.range(m.len(), (m.len() + 4).min(len));
            let end = c.range(beg, (beg + 5).min(len));
            let k = gen_count(c, maxc);
            b.add_range(beg, end, k);
            if end > beg {
                m.resize(beg, 0);
                m.resize(end, k);
            }
            rounds += 1;
            if c.below(3) == 0 || (c.small && rounds > 2) {
                break;
            }
        }
    }
    b.pad_to_len(len);
    m.resize(len, 0);
    (b.build(), m)
}

fn check(s: &Subset, m: &M, what: &str) -> Result<(), String> {
    ensure_eq!(counts(s), *m, "counts of {}", what);
    canonical(s).map_err(|e| format!("{}: {}", what, e))
}

fn one(c: &mut Choices) -> Result<bool, String> {
    let len = if c.small { c.below(4) } else { c.below(40) };
    let (s, m) = gen_subset(c, len, 3);
    c.note(|| format!("subset {:?}", m));
    check(&s, &m, "built subset")?;
    ensure_eq!(s.len(), m.len(), "len");
    ensure_eq!(s.len_after_delete(), m.iter().filter(|x| **x == 0).count(), "len_after_delete");
    ensure_eq!(s.is_empty(), m.iter().all(|x| *x == 0), "is_empty");
    check(&Subset::new(len), &vec![0; len], "Subset::new")?;
    check(&s.complement(), &m.iter().map(|x| (*x == 0) as usize).collect(), "complement")?;
    for mt in MATCHERS.iter() {
        ensure_eq!(s.count(*mt), m.iter().filter(|x| hit(*mt, **x)).count(), "count {:?}", mt);
        // ranges: ordered, disjoint, cover exactly the matching elements, constant count, maximal per segment
        let rs: Vec<(usize, usize)> = s.range_iter(*mt).collect();
        let mut cov = vec![false; len];
        let mut last = 0;
        for (b, e) in &rs {
            ensure!(last <= *b && b < e && *e <= len, "range_iter {:?} gives {:?}", mt, rs);
            for j in *b..*e {
                cov[j] = true;
                ensure!(m[j] == m[*b], "range with two counts: {:?}", rs);
            }
            last = *e;
        }
        ensure_eq!(cov, m.iter().map(|x| hit(*mt, *x)).collect::<Vec<_>>(), "range_iter {:?}", mt);
        if let CountMatcher::Zero = mt {
            ensure_eq!(s.complement_iter().collect::<Vec<_>>(), rs, "complement_iter");
        }
        // mapper on a non-decreasing sequence of coordinates, some past the end
        let mut mp = s.mapper(*mt);
        let mut i = 0;
        let n = if c.small { 2 } else { 8 };
        for _ in 0..n {
            i += c.below(if c.small { 3 } else { 9 });
            let want = m.iter().take(i.min(len)).filter(|x| hit(*mt, **x)).count();
            let got = mp.doc_index_to_subset(i);
            ensure_eq!(got, want, "mapper {:?} at {} over {:?}", mt, i, m);
        }
    }
    // deletion
    let text: String = (0..len).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    let want: String = text.chars().zip(&m).filter(|(_, k)| **k == 0).map(|x| x.0).collect();
    ensure_eq!(s.delete_from_string(&text), want, "delete_from_string");
    let r = s.delete_from(&Rope::from(&text));
    ensure_eq!(String::from(&r), want, "delete_from");
    ensure_eq!(r.len(), s.len_after_delete(), "length after delete_from");
    Ok(m.iter().any(|x| *x > 0) && m.iter().any(|x| *x == 0))
}

fn two(c: &mut Choices) -> Result<bool, String> {
    let len = if c.small { c.below(4) } else { c.below(40) };
    let (a, ma) = gen_subset(c, len, 3);
    let (b, mb) = gen_subset(c, len, 3);
    c.note(|| format!("a {:?} b {:?}", ma, mb));
    ensure_eq!(a == b, ma == mb, "== against equality of counts");
    let z = |f: fn(usize, usize) -> usize| -> M { ma.iter().zip(&mb).map(|(x, y)| f(*x, *y)).collect() };
    check(&a.union(&b), &z(|x, y| x + y), "union")?;
    check(&a.bitxor(&b), &z(|x, y| x ^ y), "bitxor")?;
    check(&a.union(&b).subtract(&b), &ma, "(a + b) - b")?;
    check(&a.bitxor(&b).bitxor(&b), &ma, "(a ^ b) ^ b")?;
    check(&b.transform_shrink(&a), &mb.iter().zip(&ma).filter(|(_, x)| **x == 0).map(|x| *x.0).collect(), "b.transform_shrink(a)")?;
    // zip: lengths add up and no panic
    ensure_eq!(a.zip(&b).count() <= len, true, "zip pieces");
    // d lives on what a leaves
    let left = a.len_after_delete();
    let (d, md) = gen_subset(c, left, 2);
    c.note(|| format!("d {:?}", md));
    let mut it = md.iter();
    let ex: M = ma.iter().map(|x| if *x > 0 { 0 } else { *it.next().unwrap() }).collect();
    check(&d.transform_expand(&a), &ex, "d.transform_expand(a)")?;
    let un: M = ex.iter().zip(&ma).map(|(x, y)| x + y).collect();
    check(&d.transform_union(&a), &un, "d.transform_union(a)")?;
    check(&d.transform_expand(&a).transform_shrink(&a), &md, "expand then shrink")?;
    // the equation of the documentation of transform_shrink
    let text: String = (0..len).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    let cc = d.transform_expand(&a);
    ensure_eq!(a.transform_shrink(&cc).delete_from_string(&cc.delete_from_string(&text)), d.delete_from_string(&a.delete_from_string(&text)), "documented equation");
    Ok(ma.iter().any(|x| *x > 0) && mb.iter().any(|x| *x > 0) && ma != mb)
}

pub fn gens() -> Vec<Gen> {
    vec![
        Gen { name: "one", case: one, exhaustive: (30_000, 300_000), random: (20_000, 400_000) },
        Gen { name: "two", case: two, exhaustive: (30_000, 300_000), random: (20_000, 400_000) },
    ]
}
