//! P02: deltas against the text their elements describe.
use crate::fw::*;
use crate::model::*;
use crate::subset::{counts, gen_subset};
use crate::{ensure, ensure_eq};
use xi_rope::multiset::Subset;
use xi_rope::{Delta, DeltaElement, Interval, Rope, RopeDelta};

/// text of the case: short and varied, or long enough to span leaves
pub fn gen_base(c: &mut Choices) -> String {
    if c.small {
        gen_text(c, 4)
    } else if c.chance(1, 4) {
        let m = *c.pick(&[1500, 5000, 20000]);
        gen_big(c, m)
    } else {
        gen_text(c, 30)
    }
}
pub fn show(s: &str) -> String {
    if s.len() < 80 { format!("{:?}", s) } else { format!("{} bytes", s.len()) }
}
/// delta given by elements; copies may touch each other
pub fn gen_raw(c: &mut Choices, s: &str) -> DM {
    let mut els = vec![];
    let n = c.below(if c.small { 3 } else { 6 });
    let mut cuts: Vec<usize> = (0..2 * n).map(|_| pick_bound(c, s)).collect();
    cuts.sort();
    for i in 0..n {
        if c.flip() {
            let t = gen_text(c, 4);
            if !t.is_empty() {
                els.push(El::Ins(t));
            }
        }
        if cuts[2 * i + 1] > cuts[2 * i] {
            els.push(El::Copy(cuts[2 * i], cuts[2 * i + 1]));
        }
    }
    if c.flip() {
        els.push(El::Ins(gen_text(c, 3) + "z"));
    }
    DM { els, base_len: s.len() }
}
pub fn check_delta(d: &RopeDelta, dm: &DM, s: &str) -> Result<(), String> {
    let r = Rope::from(s);
    let t = dm.apply(s);
    ensure_eq!(d.base_len, s.len(), "base_len");
    ensure!(String::from(d.apply(&r)) == t, "apply gives {}, expected {}", show(&String::from(d.apply(&r))), show(&t));
    ensure!(String::from(&r) == s, "apply changed the base");
    ensure_eq!(d.new_document_len(), t.len(), "new_document_len");
    ensure_eq!(d.inserts_len(), dm.els.iter().map(|e| if let El::Ins(t) = e { t.len() } else { 0 }).sum::<usize>(), "inserts_len");
    // summary: replacing the interval by the new text gives the result
    let (iv, n) = d.summary();
    ensure!(iv.start <= iv.end && iv.end <= s.len() && iv.start + n <= t.len(), "summary {:?} {}", iv, n);
    ensure!(t.is_char_boundary(iv.start) && t.is_char_boundary(iv.start + n), "summary {:?} {} cuts a character", iv, n);
    let spliced = format!("{}{}{}", &s[..iv.start], &t[iv.start..iv.start + n], &s[iv.end..]);
    ensure!(spliced == t, "summary {:?} {}: replacing the interval gives another text", iv, n);
    let again = Delta::simple_edit(iv, Rope::from(&t[iv.start..iv.start + n]), s.len());
    ensure!(String::from(again.apply(&r)) == t, "the edit of summary {:?} {} gives another text", iv, n);
    // normal form: no two touching copies
    let norm = dm.els.windows(2).all(|w| !matches!((&w[0], &w[1]), (El::Copy(_, a), El::Copy(b, _)) if a == b)) && dm.els.iter().all(|e| !matches!(e, El::Copy(a, b) if a == b));
    if norm {
        let pre = match dm.els.first() { Some(El::Copy(0, e)) => *e, _ => 0 };
        ensure_eq!(iv.start, pre, "summary start");
        let post = match dm.els.last() { Some(El::Copy(b, e)) if *e == s.len() && !(dm.els.len() == 1 && *b == 0) => *b, _ => s.len() };
        ensure_eq!(iv.end, post, "summary end");
    }
    let kept: usize = dm.els.iter().map(|e| if let El::Copy(a, b) = e { b - a } else { 0 }).sum();
    let ins: Vec<&String> = dm.els.iter().filter_map(|e| if let El::Ins(t) = e { Some(t) } else { None }).collect();
    let ident = ins.is_empty() && kept == s.len();
    ensure!(!d.is_identity() || ident, "is_identity");
    ensure!(!norm || d.is_identity() == ident, "is_identity is {}", d.is_identity());
    let simple_ins = ins.len() == 1 && kept == s.len();
    match d.as_simple_insert() {
        Some(n) => ensure!(simple_ins && String::from(n) == *ins[0], "as_simple_insert"),
        None => ensure!(!norm || !simple_ins, "as_simple_insert gives nothing"),
    }
    // one gap in what is copied
    let dead: Vec<bool> = dm.survive().iter().map(|x| x.is_none()).collect();
    let runs = (0..dead.len()).filter(|i| dead[*i] && (*i == 0 || !dead[*i - 1])).count();
    let simple_del = ins.is_empty() && runs == 1;
    ensure!(!d.is_simple_delete() || simple_del, "is_simple_delete is true");
    ensure!(!norm || d.is_simple_delete() == simple_del, "is_simple_delete is {}", d.is_simple_delete());
    // regions
    let mut wi = vec![];
    let mut wd = vec![];
    let (mut pos, mut last) = (0, 0);
    for e in &dm.els {
        match e {
            El::Copy(a, b) => {
                if *a > last { wd.push((last, pos, a - last)); }
                pos += b - a;
                last = *b;
            }
            El::Ins(t) => {
                wi.push((last, pos, t.len()));
                pos += t.len();
            }
        }
    }
    if last < s.len() { wd.push((last, pos, s.len() - last)); }
    let gi: Vec<_> = d.iter_inserts().map(|x| (x.old_offset, x.new_offset, x.len)).collect();
    let gd: Vec<_> = d.iter_deletions().map(|x| (x.old_offset, x.new_offset, x.len)).collect();
    ensure_eq!(gi, wi, "iter_inserts (old offset, new offset, length)");
    ensure_eq!(gd, wd, "iter_deletions (old offset, new offset, length)");
    // factor
    let (i, del) = d.clone().factor();
    ensure_eq!(counts(&del), dead.iter().map(|x| *x as usize).collect::<Vec<_>>(), "deletions of factor");
    let mut next = 0;
    for e in &i.els {
        if let DeltaElement::Copy(a, b) = e {
            ensure!(*a == next && b > a, "insertion part of factor copies {}..{} after {}", a, b, next);
            next = *b;
        }
    }
    ensure_eq!(next, s.len(), "insertion part of factor copies everything");
    ensure_eq!(i.base_len, s.len(), "base_len of the insertion part");
    let isub = i.inserted_subset();
    let u = String::from(i.apply(&r));
    let mut um = String::new();
    let mut uc = vec![];
    let mut p = 0;
    for e in &dm.els {
        match e {
            El::Copy(_, b) => {
                um.push_str(&s[p..*b]);
                uc.extend(vec![0; b - p]);
                p = *b;
            }
            El::Ins(t) => {
                um.push_str(t);
                uc.extend(vec![1; t.len()]);
            }
        }
    }
    um.push_str(&s[p..]);
    uc.extend(vec![0; s.len() - p]);
    ensure!(u == um, "insertion part of factor gives {}, expected {}", show(&u), show(&um));
    ensure_eq!(counts(&isub), uc, "inserted_subset");
    let del2 = del.transform_expand(&isub);
    ensure!(String::from(del2.delete_from(&Rope::from(&u))) == t, "insertion then deletion gives another text");
    // and back
    let tomb = isub.complement().delete_from(&Rope::from(&u));
    let d2 = Delta::synthesize(&tomb, &isub, &del2);
    ensure!(String::from(d2.apply(&r)) == t, "synthesize after factor gives {}", show(&String::from(d2.apply(&r))));
    Ok(())
}
fn built(c: &mut Choices) -> Result<bool, String> {
    let s = gen_base(c);
    c.note(|| format!("base {}", show(&s)));
    let (d, dm) = if c.chance(1, 6) {
        let (a, b) = pick_iv(c, &s);
        let t = gen_text(c, 5);
        c.note(|| format!("simple_edit {}..{} {:?}", a, b, t));
        let mut els = vec![];
        if a > 0 { els.push(El::Copy(0, a)); }
        if !t.is_empty() { els.push(El::Ins(t.clone())); }
        if b < s.len() { els.push(El::Copy(b, s.len())); }
        (Delta::simple_edit(Interval::new(a, b), Rope::from(&t), s.len()), DM { els, base_len: s.len() })
    } else {
        gen_delta(c, &s, if c.small { 2 } else { 5 }, if c.small { 1 } else { 6 })
    };
    let got = DM::of(&d);
    // the text the edits ask for, whatever elements were chosen
    ensure!(got.els.iter().all(|e| match e { El::Copy(a, b) => a <= b && *b <= s.len(), _ => true }), "elements out of range {:?}", got.els);
    ensure!(got.apply(&s) == dm.apply(&s), "the built delta gives {}, the edits {}", show(&got.apply(&s)), show(&dm.apply(&s)));
    ensure_eq!(got.survive(), dm.survive(), "which text the delta keeps");
    check_delta(&d, &got, &s)?;
    Ok(!dm.els.is_empty())
}
fn raw(c: &mut Choices) -> Result<bool, String> {
    let s = gen_base(c);
    let dm = gen_raw(c, &s);
    c.note(|| format!("base {}, elements {:?}", show(&s), dm.els));
    check_delta(&dm.raw(), &dm, &s)?;
    Ok(!dm.els.is_empty())
}
/// union text, two deletion sets
fn synth(c: &mut Choices) -> Result<bool, String> {
    let n = if c.small { 5 } else { *c.pick(&[12, 40, 40, 3000]) };
    let n = c.below(n + 1);
    let u: Vec<u8> = (0..n).map(|i| if n < 60 { b'0' + i as u8 } else { b'a' + (i % 26) as u8 }).collect();
    let u = String::from_utf8(u).unwrap();
    let (from, mf) = gen_subset(c, n, 2);
    let (to, mt) = gen_subset(c, n, 2);
    c.note(|| format!("union {} deleted in base {:?} deleted in new text {:?}", show(&u), mf, mt));
    let keep = |m: &Vec<usize>| -> String { u.chars().zip(m).filter(|x| *x.1 == 0).map(|x| x.0).collect() };
    let tomb: String = u.chars().zip(&mf).filter(|x| *x.1 != 0).map(|x| x.0).collect();
    let d: RopeDelta = Delta::synthesize(&Rope::from(&tomb), &from, &to);
    let dm = DM::of(&d);
    let (base, want) = (keep(&mf), keep(&mt));
    ensure_eq!(d.base_len, base.len(), "base_len");
    ensure!(dm.apply(&base) == want, "synthesized elements give {}, expected {}", show(&dm.apply(&base)), show(&want));
    ensure!(String::from(d.apply(&Rope::from(&base))) == want, "synthesized delta gives another text");
    // text present in both must be kept, not deleted and inserted again
    let kept: usize = dm.els.iter().map(|e| if let El::Copy(a, b) = e { b - a } else { 0 }).sum();
    ensure_eq!(kept, (0..n).filter(|i| mf[*i] == 0 && mt[*i] == 0).count(), "number of characters copied");
    let mut last = 0;
    for e in &dm.els {
        if let El::Copy(a, b) = e {
            ensure!(*a >= last && b > a, "copies out of order {:?}", dm.els);
            last = *b;
        }
    }
    check_delta(&d, &dm, &base)?;
    let _: &Subset = &to;
    Ok(n > 0 && mf != mt)
}
pub fn gens() -> Vec<Gen> {
    vec![
        Gen { name: "built", case: built, exhaustive: (20000, 200000), random: (60000, 600000) },
        Gen { name: "elements", case: raw, exhaustive: (20000, 200000), random: (60000, 600000) },
        Gen { name: "synthesize", case: synth, exhaustive: (20000, 200000), random: (60000, 600000) },
    ]
}
