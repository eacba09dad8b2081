//! P15: comparing two texts from either end, and the difference between them.
use crate::fw::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use xi_rope::compare::{ne_idx, ne_idx_fallback, ne_idx_rev, ne_idx_rev_fallback, RopeScanner};
use xi_rope::diff::{Diff, LineHashDiff};
use xi_rope::{Rope, RopeDelta, Transformer};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
const PAGE: usize = 4096;
thread_local! { static PAGES: [usize; 2] = [pages(), pages()]; }
/// one readable page between two unreadable ones
fn pages() -> usize {
    unsafe {
        let all = mmap(std::ptr::null_mut(), 3 * PAGE, 0, 0x22, -1, 0);
        assert!(all as isize != -1);
        let p = mmap(all.add(PAGE), PAGE, 3, 0x32, -1, 0);
        assert!(p as isize != -1);
        p as usize
    }
}
/// put `v` at the very start, the very end or somewhere inside the page
fn placed(c: &mut Choices, which: usize, v: &[u8]) -> &'static [u8] {
    let p = PAGES.with(|p| p[which]) as *mut u8;
    let off = match c.below(4) {
        0 => PAGE - v.len(),
        1 => 0,
        2 => PAGE - v.len() - c.below(40),
        _ => c.below(40),
    };
    unsafe {
        // what lies around the slice differs between the two pages
        std::slice::from_raw_parts_mut(p, PAGE).iter_mut().for_each(|b| *b = 0x55 + which as u8);
        let s = std::slice::from_raw_parts_mut(p.add(off), v.len());
        s.copy_from_slice(v);
        s
    }
}
fn bytes(c: &mut Choices) -> Result<bool, String> {
    let n = c.below(if c.small { 4 } else { 140 });
    let mut a: Vec<u8> = (0..n).map(|i| (i * 7 + i / 13) as u8).collect();
    let mut b = a.clone();
    let nd = c.below(3);
    for _ in 0..nd {
        if n > 0 {
            let i = c.below(n);
            b[i] ^= 1 << c.below(8);
        }
    }
    match c.below(5) {
        1 => a.truncate(n - c.below(n + 1)),
        2 => b.truncate(n - c.below(n + 1)),
        3 => { let k = c.below(n + 1); a.drain(..k); }
        4 => { let k = c.below(n + 1); b.drain(..k); }
        _ => {}
    }
    c.note(|| format!("{:?} / {:?}", a, b));
    let (a, b) = (placed(c, 0, &a), placed(c, 1, &b));
    let m = a.len().min(b.len());
    let want = (0..m).find(|&i| a[i] != b[i]);
    let rev = (0..m).find(|&i| a[a.len() - 1 - i] != b[b.len() - 1 - i]);
    ensure_eq!(ne_idx_fallback(a, b), want, "ne_idx_fallback");
    ensure_eq!(ne_idx_rev_fallback(a, b), rev, "ne_idx_rev_fallback");
    ensure_eq!(ne_idx(a, b), want, "ne_idx");
    ensure_eq!(ne_idx_rev(a, b), rev, "ne_idx_rev");
    #[cfg(target_arch = "x86_64")]
    {
        use xi_rope::compare::{avx_compare_mask, ne_idx_avx, ne_idx_rev_sse, ne_idx_sse, sse_compare_mask};
        if is_x86_feature_detected!("avx2") {
            ensure_eq!(unsafe { ne_idx_avx(a, b) }, want, "ne_idx_avx");
            if m >= 32 {
                let w = (0..32).filter(|&i| a[i] != b[i]).fold(0u32, |x, i| x | 1 << i);
                ensure_eq!(unsafe { avx_compare_mask(&a[..32], &b[..32]) }, w as i32, "avx_compare_mask");
            }
        }
        if is_x86_feature_detected!("sse4.2") {
            ensure_eq!(unsafe { ne_idx_sse(a, b) }, want, "ne_idx_sse");
            ensure_eq!(unsafe { ne_idx_rev_sse(a, b) }, rev, "ne_idx_rev_sse");
            if m >= 16 {
                let w = (0..16).filter(|&i| a[i] != b[i]).fold(0u32, |x, i| x | 1 << i);
                ensure_eq!(unsafe { sse_compare_mask(&a[..16], &b[..16]) }, w as i32, "sse_compare_mask");
            }
        }
    }
    Ok(n > 0 && nd > 0)
}
fn prefix(a: &str, b: &str) -> usize {
    let mut k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    while !a.is_char_boundary(k) || !b.is_char_boundary(k) {
        k -= 1;
    }
    k
}
fn suffix(a: &str, b: &str) -> usize {
    let mut k = a.bytes().rev().zip(b.bytes().rev()).take_while(|(x, y)| x == y).count();
    while !a.is_char_boundary(a.len() - k) || !b.is_char_boundary(b.len() - k) {
        k -= 1;
    }
    k
}
const SWAP: &[char] = &['é', 'ĩ', '漢', '漣', '\u{6e22}', '😀', '😁', '\u{1f640}', 'a', 'b', '\n'];
/// two texts that agree for the most part
fn pair(c: &mut Choices) -> (String, String) {
    let max = *c.pick(&[20, 200, 1500, 4000]);
    let a = if c.small || c.flip() { gen_text(c, if c.small { 3 } else { 12 }) } else { gen_big(c, max) };
    let mut b = a.clone();
    for _ in 0..c.below(3) {
        let (x, y) = if c.flip() { pick_iv(c, &b) } else {
            let x = pick_bound(c, &b);
            (x, b[x..].chars().next().map(|ch| x + ch.len_utf8()).unwrap_or(x))
        };
        let t: String = match c.below(4) {
            0 => String::new(),
            1 => c.pick(SWAP).to_string(),
            2 => gen_text(c, 5),
            // another character that shares bytes with the one it replaces
            _ => match b[x..y].chars().next() {
                Some(ch) => char::from_u32((ch as u32) ^ (1 << (c.below(4) * 6))).unwrap_or('q').to_string() + &b[x + ch.len_utf8()..y],
                None => "z".into(),
            },
        };
        b.replace_range(x..y, &t);
    }
    if c.flip() { (a, b) } else { (b, a) }
}
fn show(s: &str) -> String {
    if s.len() < 400 { format!("{:?}", s) } else { format!("{} bytes, {:?}…", s.len(), s.chars().take(100).collect::<String>()) }
}
/// a rope put together from pieces, so that its leaves lie differently
fn rope(c: &mut Choices, s: &str) -> Rope {
    let mut r = Rope::from("");
    let mut at = 0;
    for _ in 0..c.below(4) {
        let mut k = at + c.below(s.len() - at + 1);
        while !s.is_char_boundary(k) {
            k += 1;
        }
        r = r + Rope::from(&s[at..k]);
        at = k;
    }
    r + Rope::from(&s[at..])
}
fn scan(c: &mut Choices) -> Result<bool, String> {
    let (a, b) = pair(c);
    c.note(|| format!("base {} target {}", show(&a), show(&b)));
    let (ra, rb) = (rope(c, &a), rope(c, &b));
    let mut sc = RopeScanner::new(&ra, &rb);
    let at = |c: &mut Choices, s: &str, o: usize| -> usize { if c.flip() { o.min(s.len()) } else { pick_bound(c, s) } };
    for k in 0..6 {
        let fit = |s: &str, mut x: usize| { x = x.min(s.len()); while !s.is_char_boundary(x) { x -= 1 } x };
        let stop = match c.below(3) { 0 => Some(c.below(a.len() + 2)), _ => None };
        let lim = |x: usize| stop.map_or(x, |s| s.min(x));
        // forward
        let x = if k == 0 { 0 } else { pick_bound(c, &a) };
        let y = fit(&b, at(c, &b, x));
        c.note(|| format!("forward from {} / {}, stop {:?}", x, y, stop));
        ensure_eq!(sc.find_ne_char(x, y, stop), lim(prefix(&a[x..], &b[y..])), "find_ne_char({}, {}, {:?})", x, y, stop);
        // backward
        let x = if k == 0 { a.len() } else { pick_bound(c, &a) };
        let d = a.len() - x;
        let y = if b.len() >= d { fit(&b, at(c, &b, b.len() - d)) } else { pick_bound(c, &b) };
        c.note(|| format!("backward from {} / {}, stop {:?}", x, y, stop));
        ensure_eq!(sc.find_ne_char_back(x, y, stop), lim(suffix(&a[..x], &b[..y])), "find_ne_char_back({}, {}, {:?})", x, y, stop);
    }
    let s = prefix(&a, &b);
    let (s2, e2) = sc.find_min_diff_range();
    ensure_eq!(s2, s, "start of the difference");
    ensure_eq!(e2, suffix(&a, &b).min(a.len().min(b.len()) - s), "end of the difference");
    Ok(a != b)
}
fn check_delta(a: &str, b: &str, ra: &Rope, d: &RopeDelta) -> Result<(), String> {
    ensure_eq!(d.base_len, a.len(), "base length");
    ensure_eq!(d.new_document_len(), b.len(), "new length");
    let dm = DM::of(d);
    c_show(&dm, a)?;
    ensure!(dm.apply(a) == b, "{:?} does not give the target", dm.els);
    ensure!(String::from(d.apply(ra)) == b, "apply of {:?} does not give the target", dm.els);
    // what an edit needs: copied stretches in order, so that it can be recorded as insertions and deletions
    let mut last = 0;
    for e in &dm.els {
        if let El::Copy(x, y) = e {
            ensure!(x <= y && *x >= last, "copies {}..{} after copying up to {} in {:?}", x, y, last, dm.els);
            last = *y;
        }
    }
    let (ins, del) = d.clone().factor();
    let all = ins.apply(ra);
    let tdel = del.transform_expand(&ins.inserted_subset());
    ensure_eq!(all.len() - tdel.len_after_delete(), a.len() + ins.inserts_len() - b.len(), "deleted characters");
    ensure!(String::from(tdel.delete_from(&all)) == b, "its insertions and deletions do not give the target");
    let mut t = Transformer::new(d);
    for i in 0..=a.len().min(20) {
        let p = i * a.len() / a.len().min(20).max(1);
        ensure!(t.transform(p.min(a.len()), true) <= b.len(), "position past the end");
    }
    Ok(())
}
fn c_show(dm: &DM, a: &str) -> Result<(), String> {
    for e in &dm.els {
        if let El::Copy(x, y) = e {
            ensure!(x <= y && *y <= a.len() && a.is_char_boundary(*x) && a.is_char_boundary(*y), "copies {}..{} of a text of {} bytes, in {:?}", x, y, a.len(), dm.els);
        }
    }
    Ok(())
}
fn diff_small(c: &mut Choices) -> Result<bool, String> {
    let (a, b) = pair(c);
    c.note(|| format!("base {} target {}", show(&a), show(&b)));
    let (ra, rb) = (rope(c, &a), rope(c, &b));
    let d = LineHashDiff::compute_delta(&ra, &rb);
    check_delta(&a, &b, &ra, &d)?;
    Ok(a != b)
}
/// texts of lines long enough to be matched, in different orders, repeated, dropped and edited
fn diff_lines(c: &mut Choices) -> Result<bool, String> {
    let kinds = 1 + c.below(if c.small { 3 } else { 6 });
    let line = |c: &mut Choices| -> String {
        let k = c.below(kinds);
        let mut s = String::new();
        if !c.small {
            s.push_str(*c.pick(&["", "", "  ", "\t", "    ", "é"]));
        }
        s.push_str(&format!("{}{}", (b'A' + k as u8) as char, "the quick brown fox jumps 漢é"));
        let fill = match c.below(if c.small { 2 } else { 5 }) { 0 => 0, 1 => 1, 2 => 40, 3 => 300, _ => 0 };
        for i in 0..fill {
            s.push((b'a' + ((i + k) % 26) as u8) as char);
        }
        if !c.small && c.chance(1, 6) {
            s = "short".into();
        }
        if !c.small && c.chance(1, 8) {
            let x = pick_bound(c, &s);
            s.insert(x, *c.pick(SWAP));
        }
        s.push_str(if !c.small && c.chance(1, 8) { "\r\n" } else { "\n" });
        s
    };
    let n = 1 + c.below(if c.small { 4 } else { 14 });
    let a: Vec<String> = (0..n).map(|_| line(c)).collect();
    let mut b: Vec<String> = if c.flip() { a.clone() } else { (0..1 + c.below(n + 3)).map(|_| if c.flip() { line(c) } else { a[c.below(a.len())].clone() }).collect() };
    for _ in 0..c.below(4) {
        if b.is_empty() {
            break;
        }
        let i = c.below(b.len());
        match c.below(6) {
            0 => { b.remove(i); }
            1 => { let j = c.below(b.len()); b.swap(i, j); }
            2 => { let l = line(c); b.insert(i, l); }
            3 => { let l = b[c.below(b.len())].clone(); b.insert(i, l); }
            4 => { let x = pick_bound(c, &b[i].clone()); b[i].insert(x, *c.pick(SWAP)); }
            _ => { let k = c.below(b.len()); b.rotate_left(k); }
        }
    }
    let (mut a, mut b) = (a.concat(), b.concat());
    if c.flip() { a.pop(); }
    if c.flip() { b.pop(); }
    c.note(|| format!("base {:?}\ntarget {:?}", a, b));
    let (ra, rb) = (rope(c, &a), rope(c, &b));
    let d = LineHashDiff::compute_delta(&ra, &rb);
    check_delta(&a, &b, &ra, &d)?;
    Ok(a != b)
}
pub fn gens() -> Vec<Gen> {
    vec![
        Gen { name: "bytes", case: bytes, exhaustive: (3000, 5000), random: (150_000, 1_000_000) },
        Gen { name: "scan", case: scan, exhaustive: (3000, 20_000), random: (30_000, 300_000) },
        Gen { name: "diff", case: diff_small, exhaustive: (3000, 20_000), random: (20_000, 200_000) },
        Gen { name: "diff-lines", case: diff_lines, exhaustive: (5000, 20_000), random: (30_000, 300_000) },
    ]
}
