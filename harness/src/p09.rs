//! P09: index sets against Vec<bool>.
use crate::fw::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use xi_core_lib::index_set::{remove_n_at, IndexSet};

fn gaps(m: &[bool], a: usize, b: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = a;
    while i < b {
        if m[i] {
            i += 1;
            continue;
        }
        let s = i;
        while i < b && !m[i] {
            i += 1;
        }
        v.push((s, i));
    }
    v
}

fn look(c: &mut Choices, e: &IndexSet, m: &[bool], what: &str) -> Result<(), String> {
    let n = m.len();
    // the whole universe pins the content; a random window in every direction mix checks the enumeration
    for k in 0..3 {
        let (a, b) = if k == 0 { (0, n) } else if c.small && k == 2 { break } else { c.iv(n) };
        let want = gaps(m, a, b);
        ensure_eq!(e.minus_one_range(a, b).collect::<Vec<_>>(), want, "{}: minus_one_range({},{})", what, a, b);
        ensure_eq!(e.minus_one_range(a, b).rev().collect::<Vec<_>>(), want.iter().rev().cloned().collect::<Vec<_>>(), "{}: minus_one_range({},{}) from the back", what, a, b);
        let mut it = e.minus_one_range(a, b);
        let (mut lo, mut hi) = (0, want.len());
        for _ in 0..want.len() + 2 {
            let back = c.flip();
            let exp = if lo >= hi { None } else if back { hi -= 1; Some(want[hi]) } else { lo += 1; Some(want[lo - 1]) };
            let got = if back { it.next_back() } else { it.next() };
            ensure_eq!(got, exp, "{}: minus_one_range({},{}) from both ends, expected {:?}", what, a, b, want);
        }
    }
    Ok(())
}

fn history(c: &mut Choices) -> Result<bool, String> {
    let n = if c.small { 5 } else { 60 };
    let mut e = IndexSet::new();
    let mut m = vec![false; n];
    let steps = if c.small { 2 } else { c.range(1, 14) };
    for _ in 0..steps {
        match c.below(5) {
            0 | 1 | 2 => {
                let a = c.below(n);
                let b = c.range(a + 1, if c.small { n } else { (a + 14).min(n) });
                c.note(|| format!("union {}..{}", a, b));
                e.union_one_range(a, b);
                for i in a..b {
                    m[i] = true;
                }
            }
            3 => {
                let a = c.below(n);
                let b = c.range(a + 1, if c.small { n } else { (a + 25).min(n) });
                c.note(|| format!("delete {}..{}", a, b));
                e.delete_range(a, b);
                for i in a..b {
                    m[i] = false;
                }
            }
            _ => {
                if c.chance(1, 10) {
                    e.clear();
                    m = vec![false; n];
                }
            }
        }
        look(c, &e, &m, "after the last step")?;
    }
    Ok(m.iter().any(|x| *x) && !m.iter().all(|x| *x))
}

fn delta(c: &mut Choices) -> Result<bool, String> {
    let n = if c.small { 5 } else { c.range(1, 40) };
    let text: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    let mut e = IndexSet::new();
    let mut m = vec![false; n];
    let k = if c.small { c.below(3) } else { c.below(8) };
    let mut ranges: Vec<(usize, usize)> = vec![];
    for _ in 0..k {
        let a = c.below(n);
        let b = c.range(a + 1, (a + 8).min(n));
        e.union_one_range(a, b);
        for i in a..b {
            m[i] = true;
        }
    }
    let mut i = 0;
    while i < n {
        if m[i] {
            let s = i;
            while i < n && m[i] {
                i += 1;
            }
            ranges.push((s, i));
        } else {
            i += 1;
        }
    }
    c.note(|| format!("ranges {:?} of 0..{}", ranges, n));
    let (d, dm) = gen_delta(c, &text, if c.small { 1 } else { 4 }, if c.small { 1 } else { 3 });
    let r = e.apply_delta(&d);
    let nn = dm.new_len();
    // from the definition of carrying positions: every range goes to the positions its ends go to
    let mut want = vec![false; nn];
    for (a, b) in &ranges {
        for i in dm.transform(*a, false)..dm.transform(*b, false) {
            want[i] = true;
        }
    }
    // and: exactly the surviving members, every surviving non-member out
    for (i, x) in dm.survive().iter().enumerate() {
        if let Some(x) = x {
            ensure_eq!(want[*x], m[i], "model: member {}", i);
        }
    }
    look(c, &r, &want, "after apply_delta")?;
    Ok(!ranges.is_empty() && dm.els.len() > 1)
}

fn remove(c: &mut Choices) -> Result<bool, String> {
    let n = if c.small { 4 } else { 12 };
    let len = c.below(n + 1);
    let i = c.below(len + 1);
    let k = c.below(len - i + 1);
    let mut v: Vec<usize> = (0..len).collect();
    c.note(|| format!("remove {} at {} of {}", k, i, len));
    remove_n_at(&mut v, i, k);
    ensure_eq!(v, (0..len).filter(|x| *x < i || *x >= i + k).collect::<Vec<_>>(), "remove_n_at");
    ensure!(true, "");
    Ok(k > 0)
}

pub fn gens() -> Vec<Gen> {
    vec![
        Gen { name: "history", case: history, exhaustive: (300_000, 2_000_000), random: (60_000, 1_500_000) },
        Gen { name: "apply_delta", case: delta, exhaustive: (100_000, 2_000_000), random: (60_000, 1_500_000) },
        Gen { name: "remove_n_at", case: remove, exhaustive: (1000, 1000), random: (500, 2000) },
    ]
}
