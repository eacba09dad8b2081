//! P12: the real ring buffer (its source file, included) against a plain VecDeque.
#[path = "/repo/rust/trace/src/fixed_lifo_deque.rs"]
#[allow(dead_code, unused_imports, unused_variables)]
mod fixed_lifo_deque;
use crate::fw::*;
use crate::{ensure, ensure_eq};
use fixed_lifo_deque::FixedLifoDeque;
use std::collections::VecDeque;

fn look(d: &mut FixedLifoDeque<u32>, m: &VecDeque<u32>, limit: usize) -> Result<(), String> {
    ensure!(d.len() <= limit, "holds {} elements, limit {}", d.len(), limit);
    ensure_eq!(d.limit(), limit, "limit");
    ensure_eq!(d.capacity(), limit, "capacity");
    ensure_eq!(d.iter().cloned().collect::<Vec<_>>(), m.iter().cloned().collect::<Vec<_>>(), "content");
    ensure_eq!((d.len(), d.is_empty()), (m.len(), m.is_empty()), "len");
    ensure_eq!((d.front().cloned(), d.back().cloned()), (m.front().cloned(), m.back().cloned()), "ends");
    for i in 0..m.len() + 1 {
        ensure_eq!(d.get(i), m.get(i), "get {}", i);
        if i < m.len() {
            ensure_eq!(d[i], m[i], "index {}", i);
        }
    }
    let (x, y) = d.as_slices();
    ensure_eq!(x.iter().chain(y).cloned().collect::<Vec<_>>(), m.iter().cloned().collect::<Vec<_>>(), "as_slices");
    let (x, y) = d.as_mut_slices();
    ensure_eq!(x.len() + y.len(), m.len(), "as_mut_slices");
    for v in 0..3 {
        ensure_eq!(d.contains(&v), m.contains(&v), "contains");
    }
    Ok(())
}
fn trim(m: &mut VecDeque<u32>, limit: usize) {
    while m.len() > limit {
        m.pop_front();
    }
}
fn history(c: &mut Choices) -> Result<bool, String> {
    let big = if c.small { 3 } else { 9 };
    let mut limit = c.below(big);
    let mut d = FixedLifoDeque::with_limit(limit);
    let mut m: VecDeque<u32> = VecDeque::new();
    let mut next = 0u32;
    let steps = if c.small { 3 } else { c.range(1, 40) };
    let mut wrapped = false;
    c.note(|| format!("limit {}", limit));
    for _ in 0..steps {
        let k = c.below(if c.small { 6 } else { 17 });
        match k {
            0 => {
                d.push_back(next);
                m.push_back(next);
                wrapped |= m.len() > limit;
                next += 1;
            }
            1 => {
                let n = c.below(big);
                d.reset_limit(n);
                wrapped |= m.len() > n;
                // shrinking makes room for the difference between the limits, as if that many were to be inserted
                limit = n;
            }
            2 => {
                let n = c.below(big);
                let v: Vec<u32> = (next..next + n as u32).collect();
                next += n as u32;
                m.extend(v.iter().cloned());
                wrapped |= m.len() > limit;
                if c.flip() {
                    d.extend(v);
                } else {
                    let mut o: VecDeque<u32> = v.into_iter().collect();
                    d.append(&mut o);
                    ensure!(o.is_empty(), "append left elements behind");
                }
            }
            3 => {
                let (a, b) = c.iv(m.len());
                let g: Vec<u32> = d.drain(a..b).collect();
                let w: Vec<u32> = m.drain(a..b).collect();
                ensure_eq!(g, w, "drain");
            }
            4 => ensure_eq!(d.pop_front(), m.pop_front(), "pop_front"),
            5 => ensure_eq!(d.pop_back(), m.pop_back(), "pop_back"),
            6 => {
                let n = c.below(m.len() + 1);
                let o = d.split_off(n);
                let w = m.split_off(n);
                ensure_eq!(o.iter().cloned().collect::<Vec<_>>(), w.iter().cloned().collect::<Vec<_>>(), "split_off");
                ensure_eq!(o.limit(), limit, "limit of the part split off");
                if c.flip() {
                    d = o;
                    m = w;
                }
            }
            7 => {
                let i = c.below(m.len() + 1);
                ensure_eq!(d.remove(i), m.remove(i), "remove");
            }
            8 => {
                let i = c.below(m.len() + 1);
                ensure_eq!(d.swap_remove_back(i), m.swap_remove_back(i), "swap_remove_back");
            }
            9 => {
                let i = c.below(m.len() + 1);
                ensure_eq!(d.swap_remove_front(i), m.swap_remove_front(i), "swap_remove_front");
            }
            10 if !m.is_empty() => {
                let (i, j) = (c.below(m.len()), c.below(m.len()));
                d.swap(i, j);
                m.swap(i, j);
            }
            11 if c.chance(1, 6) => {
                d.clear();
                m.clear();
            }
            12 => {
                let n = c.below(big + 3);
                d.resize(n, next);
                if n < m.len() {
                    m = m.split_off(m.len() - n);
                } else {
                    m.resize(n.min(limit), next);
                }
                next += 1;
            }
            13 if !m.is_empty() => {
                let i = c.below(m.len());
                *d.get_mut(i).unwrap() = next;
                m[i] = next;
                for x in d.iter_mut() {
                    *x += 1;
                }
                for x in m.iter_mut() {
                    *x += 1;
                }
                next += 2;
            }
            14 => {
                let r = c.below(2) as u32;
                d.retain(|x| x % 2 == r);
                m.retain(|x| x % 2 == r);
            }
            _ => {
                let n = c.range(1, 4) as u32;
                for _ in 0..n {
                    d.push_back(next);
                    m.push_back(next);
                    next += 1;
                }
                wrapped |= m.len() > limit;
            }
        }
        trim(&mut m, limit);
        c.note(|| format!("op {} -> {:?}", k, m));
        look(&mut d, &m, limit)?;
    }
    Ok(wrapped)
}
pub fn gens() -> Vec<Gen> {
    vec![Gen { name: "history", case: history, exhaustive: (200_000, 1_000_000), random: (60_000, 2_000_000) }]
}
