//! P10: the record of the frontend's line cache, line by line; the render plan; and the updates the core sends,
//! applied to a frontend's cache as the protocol says.
use crate::fw::*;
use crate::{ensure, ensure_eq};
use xi_core_lib::line_cache_shadow::*;

/// one line of the record: what is valid, and where the frontend holds it
#[derive(Clone, Copy, PartialEq, Debug)]
struct L(u8, usize);
const NONE: L = L(0, 0);
fn ln(v: u8, t: usize) -> L {
    if v == 0 { NONE } else { L(v, t) }
}
fn expand(s: &LineCacheShadow) -> Vec<L> {
    let mut v = vec![];
    for sp in s.spans() {
        for k in 0..sp.n {
            v.push(ln(sp.validity, sp.start_line_num + k));
        }
    }
    v
}
fn shape(s: &LineCacheShadow) -> Result<(), String> {
    for sp in s.spans() {
        ensure!(sp.n > 0, "empty span in {:?}", s.spans());
    }
    Ok(())
}
fn tac(t: RenderTactic) -> u8 {
    match t { RenderTactic::Discard => 0, RenderTactic::Preserve => 1, RenderTactic::Render => 2 }
}
fn expand_plan(p: &RenderPlan) -> Vec<u8> {
    p.spans.iter().flat_map(|(n, t)| std::iter::repeat(tac(*t)).take(*n)).collect()
}
fn gen_shadow(c: &mut Choices) -> (LineCacheShadow, Vec<L>) {
    let mut b = Builder::new();
    let mut m = vec![];
    let k = if c.small { 2 } else { c.below(7) };
    let mut at = 0;
    for _ in 0..k {
        let n = c.below(if c.small { 3 } else { 6 });
        let v = if c.small { [0u8, 7, 5][c.below(3)] } else { c.below(8) as u8 };
        // mostly ascending positions, sometimes just after the last span so that spans join
        let s = at + if c.small { c.below(2) } else { c.below(3) };
        b.add_span(n, s, v);
        for i in 0..n {
            m.push(ln(v, s + i));
        }
        if v != 0 { at = s + n; }
    }
    (b.build(), m)
}
fn check(s: &LineCacheShadow, m: &[L], what: &str) -> Result<(), String> {
    shape(s)?;
    ensure_eq!(expand(s), m.to_vec(), "record {}", what);
    Ok(())
}
fn history(c: &mut Choices) -> Result<bool, String> {
    let (mut s, mut m) = gen_shadow(c);
    c.note(|| format!("record {:?}", s.spans()));
    check(&s, &m, "built")?;
    let steps = if c.small { 1 } else { c.range(1, 8) };
    for _ in 0..steps {
        let (a, b) = c.iv(m.len() + if c.small { 1 } else { 3 });
        if c.flip() {
            let n = c.below(if c.small { 3 } else { 5 });
            c.note(|| format!("edit {} {} {}", a, b, n));
            s.edit(a, b, n);
            let (x, y) = (a.min(m.len()), b.min(m.len()));
            m.splice(x..y, std::iter::repeat(NONE).take(n));
            ensure!(s.needs_render(&RenderPlan { spans: vec![] }), "an edit must be sent");
        } else {
            let inv = if c.small { [7u8, 4, 2][c.below(3)] } else { c.range(1, 7) as u8 };
            c.note(|| format!("partial_invalidate {} {} {}", a, b, inv));
            let dirty = s.needs_render(&RenderPlan { spans: vec![] });
            s.partial_invalidate(a, b, inv);
            let mut any = dirty;
            for i in a..b.min(m.len()) {
                any = any || m[i].0 & inv != 0;
                m[i] = ln(m[i].0 & !inv, m[i].1);
            }
            let now = s.needs_render(&RenderPlan { spans: vec![] });
            ensure!(now || !any, "an invalidation must be sent");
            ensure!(a == b || any || !now, "nothing was invalidated, but an update is due");
        }
        check(&s, &m, "after the last step")?;
    }
    Ok(m.iter().any(|l| l.0 != 0))
}
/// the policy: lines within 2 of the window are rendered, within 1000 of it kept, others dropped
fn plan_line(p: usize, total: usize, first: usize, height: usize) -> u8 {
    let first = first.min(total);
    if p + 2 >= first && p < first + height + 2 { 2 } else if p + 1000 >= first && p < first + height + 1000 { 1 } else { 0 }
}
fn plan(c: &mut Choices) -> Result<bool, String> {
    let wide = !c.small && c.flip();
    let total = if c.small { c.below(7) } else if wide { c.below(4000) } else { c.below(30) };
    let first = if c.small { c.below(8) } else if wide { c.below(4200) } else { c.below(34) };
    let height = if c.small { c.below(4) } else if wide && c.flip() { c.below(3000) } else { c.below(12) };
    let mut p = RenderPlan::create(total, first, height);
    c.note(|| format!("create({}, {}, {})", total, first, height));
    let mut m: Vec<u8> = (0..total).map(|i| plan_line(i, total, first, height)).collect();
    ensure_eq!(expand_plan(&p), m, "plan");
    for _ in 0..if c.small { 1 } else { c.below(3) } {
        let (a, b) = c.iv(total);
        c.note(|| format!("request_lines({}, {})", a, b));
        p.request_lines(a, b);
        for i in a..b {
            m[i] = 2;
        }
        ensure_eq!(expand_plan(&p), m, "plan after request_lines");
    }
    Ok(total > 0)
}
fn walk(c: &mut Choices) -> Result<bool, String> {
    let (mut s, mut m) = gen_shadow(c);
    if !c.small && c.flip() {
        let (a, b) = c.iv(m.len());
        let n = c.below(4);
        s.edit(a, b, n);
        m.splice(a..b, std::iter::repeat(NONE).take(n));
    }
    let k = if c.small { 2 } else { c.below(6) };
    let p = RenderPlan { spans: (0..k).map(|_| (c.below(if c.small { 3 } else { 6 }), [RenderTactic::Discard, RenderTactic::Preserve, RenderTactic::Render][c.below(3)])).collect() };
    let pm = expand_plan(&p);
    c.note(|| format!("record {:?}, plan {:?}", s.spans(), p.spans.iter().map(|x| (x.0, tac(x.1))).collect::<Vec<_>>()));
    let mut at = 0;
    let mut need = false;
    for seg in s.iter_with_plan(&p) {
        ensure_eq!(seg.our_line_num, at, "the walk leaves a gap or goes back");
        for i in 0..seg.n {
            ensure!(at < m.len() && at < pm.len(), "the walk goes past the end at line {}", at);
            ensure_eq!(ln(seg.validity, seg.their_line_num + i), m[at], "line {} of the walk", at);
            ensure_eq!(tac(seg.tactic), pm[at], "tactic of line {} of the walk", at);
            need = need || pm[at] == 2 && m[at].0 != ALL_VALID;
            at += 1;
        }
    }
    ensure_eq!(at, m.len().min(pm.len()), "the walk ends early");
    if need {
        ensure!(s.needs_render(&p), "a line to render that is not valid, but needs_render says no");
    }
    if m.iter().all(|l| l.0 == ALL_VALID) && !s.needs_render(&RenderPlan { spans: vec![] }) {
        ensure!(!s.needs_render(&p), "everything is valid, but needs_render says yes");
    }
    Ok(need)
}
pub fn gens() -> Vec<Gen> {
    vec![
        Gen { name: "history", case: history, exhaustive: (200_000, 1_000_000), random: (60_000, 2_000_000) },
        Gen { name: "plan", case: plan, exhaustive: (10_000, 10_000), random: (20_000, 300_000) },
        Gen { name: "walk", case: walk, exhaustive: (60_000, 100_000), random: (60_000, 1_000_000) },
    ]
}
