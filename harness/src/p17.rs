//! P17: what a backspace deletes, where a caret moves to.
use crate::fw::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use unicode_segmentation::UnicodeSegmentation;
use xi_core_lib::backspace::offset_for_delete_backwards;
use xi_core_lib::config::BufferItems;
use xi_core_lib::edit_ops::delete_backward;
use xi_core_lib::line_offset::{LineOffset, LogicalLines};
use xi_core_lib::movement::{region_movement, Movement};
use xi_core_lib::selection::{SelRegion, Selection};
use xi_core_lib::word_boundaries::WordCursor;
use xi_rope::Rope;
use xi_unicode::{is_keycap_base, is_variation_selector, EmojiExt};

#[cfg(have_emoji)]
#[allow(dead_code, clippy::all)]
mod tables {
    include!(concat!(env!("OUT_DIR"), "/tables17.rs"));
}

fn items(tab: usize, on: (bool, bool)) -> BufferItems {
    BufferItems {
        line_ending: "\n".into(),
        tab_size: tab,
        translate_tabs_to_spaces: on.0,
        use_tab_stops: on.1,
        font_face: "x".into(),
        font_size: 12.0,
        auto_indent: true,
        scroll_past_end: false,
        wrap_width: 0,
        word_wrap: false,
        autodetect_whitespace: false,
        surrounding_pairs: vec![],
        save_with_newline: true,
    }
}

// ---------------------------------------------------------------- the oracle: units of a text, read backwards
const ZWJ: char = '\u{200d}';
fn ris(c: char) -> bool {
    ('\u{1f1e6}'..='\u{1f1ff}').contains(&c)
}
fn modifier(c: char) -> bool {
    ('\u{1f3fb}'..='\u{1f3ff}').contains(&c)
}
fn vs(c: char) -> bool {
    ('\u{fe00}'..='\u{fe0f}').contains(&c) || ('\u{e0100}'..='\u{e01ef}').contains(&c)
}
/// characters from r[i] on that are joined to the emoji before r[i] (r runs backwards)
fn joined(r: &[char], i: usize) -> usize {
    match r[i.min(r.len())..] {
        [ZWJ, v, e, ..] if vs(v) && !v.is_emoji() && e.is_emoji() => 3 + joined(r, i + 3),
        [ZWJ, m, ..] if modifier(m) => 2 + modified(r, i + 2),
        [ZWJ, e, ..] if e.is_emoji() => 2 + joined(r, i + 2),
        _ => 0,
    }
}
/// characters from r[i] on that the emoji modifier before r[i] modifies
fn modified(r: &[char], i: usize) -> usize {
    match r[i.min(r.len())..] {
        [v, b, ..] if vs(v) && b.is_emoji_modifier_base() => 2 + joined(r, i + 2),
        [b, ..] if !vs(b) && b.is_emoji_modifier_base() => 1 + joined(r, i + 1),
        _ => 0,
    }
}
/// how many characters make up the last unit
fn unit(r: &[char]) -> usize {
    let n = match *r {
        ['\n', '\r', ..] => 2,
        ['\n', ..] => 1,
        [v, e, ..] if vs(v) && e.is_emoji() => 2 + joined(r, 2),
        [v, c, ..] if vs(v) && !vs(c) => 2,
        [c, ..] if ris(c) => {
            let run = r.iter().take_while(|c| ris(**c)).count();
            2 - run % 2
        }
        [m, ..] if modifier(m) => 1 + modified(r, 1),
        ['\u{20e3}', v, k, ..] if vs(v) && is_keycap_base(k) => 3,
        ['\u{20e3}', k, ..] if !vs(k) && is_keycap_base(k) => 2,
        ['\u{20e3}', ..] => 1,
        [e, ..] if e.is_emoji() => 1 + joined(r, 1),
        ['\u{e007f}', ..] => {
            let k = 1 + r[1..].iter().take_while(|c| ('\u{e0020}'..='\u{e007e}').contains(*c)).count();
            if r.get(k).map_or(false, |c| c.is_emoji()) {
                k + 1
            } else {
                1
            }
        }
        [_, ..] => 1,
        [] => 0,
    };
    n
}
fn stop(s: &str, p: usize, b: &BufferItems) -> Option<usize> {
    if !b.translate_tabs_to_spaces || !b.use_tab_stops || p == 0 {
        return None;
    }
    let col = p - s[..p].rfind('\n').map_or(0, |i| i + 1);
    let n = match col % b.tab_size {
        0 => b.tab_size,
        o => o,
    };
    let from = p.saturating_sub(n);
    if s.as_bytes()[from..p].iter().all(|&x| x == b' ') {
        Some(from)
    } else {
        None
    }
}
fn target(s: &str, p: usize, b: &BufferItems) -> usize {
    if let Some(q) = stop(s, p, b) {
        return q;
    }
    let r: Vec<char> = s[..p].chars().rev().collect();
    p - r[..unit(&r)].iter().map(|c| c.len_utf8()).sum::<usize>()
}

// ---------------------------------------------------------------- texts
const PARTS: &[&str] = &[
    "\u{1f469}", "\u{200d}", "\u{1f3fd}", "\u{fe0f}", "\u{1f1e6}", "\u{20e3}", "1", "\u{e0067}", "\u{e007f}", "\u{1f3f4}", "a", "\n", "\r", " ", "\u{2764}",
    "\u{1f1e8}", "#", "\u{e0101}", "\u{e0020}", "\u{1f466}", "\u{270a}", "\u{1f3fb}", "\u{301}", "é", "漢", "\u{fe00}", "\r\n", "    ", "\u{1f468}\u{1f3fd}\u{200d}\u{1f33e}",
    "\u{1f469}\u{200d}\u{2764}\u{fe0f}\u{200d}\u{1f469}\u{1f3fd}", "\u{1f468}\u{200d}\u{1f469}\u{200d}\u{1f466}", "\u{1f3f4}\u{e0067}\u{e0062}\u{e0065}\u{e006e}\u{e0067}\u{e007f}",
    "1\u{fe0f}\u{20e3}", "\u{1f1e6}\u{1f1e8}", "\u{261d}\u{fe0f}\u{1f3fb}", ".", "(", "_", "x1", "\t", "\0", "\u{10ffff}", "\u{1100}\u{1161}\u{11a8}", "\u{200c}", "\u{5d0}",
];
fn text(c: &mut Choices) -> String {
    if c.small {
        let n = c.below(6);
        return (0..n).map(|_| PARTS[c.below(15)]).collect();
    }
    let few: Vec<&str> = (0..c.range(1, 5)).map(|_| *c.pick(PARTS)).collect();
    let n = c.below(30);
    let mut s: String = (0..n).map(|_| if c.chance(1, 4) { *c.pick(PARTS) } else { *c.pick(&few) }).collect();
    if c.chance(1, 10) {
        // push it over the edge of a leaf
        s.insert_str(0, &"x".repeat(c.range(960, 1030)));
        s.push_str(&"y ".repeat(c.below(300)));
    }
    s
}
fn config(c: &mut Choices) -> BufferItems {
    let tab = if c.small { 2 } else { *c.pick(&[1, 2, 3, 4, 8]) };
    let on = (c.chance(2, 3), c.chance(2, 3));
    items(tab, on)
}

fn one(c: &mut Choices) -> Result<bool, String> {
    let s = text(c);
    let b = config(c);
    let rope = Rope::from(&s);
    c.note(|| format!("text {:?} tab {} {} {}", s, b.tab_size, b.translate_tabs_to_spaces, b.use_tab_stops));
    let bs: Vec<usize> = bounds(&s).into_iter().rev().take(60).collect();
    for p in bs {
        let got = offset_for_delete_backwards(&SelRegion::caret(p), &rope, &b);
        ensure_eq!(got, target(&s, p, &b), "backspace at {} deletes from", p);
    }
    let (x, y) = pick_iv(c, &s);
    if x < y {
        let r = if c.flip() { SelRegion::new(x, y) } else { SelRegion::new(y, x) };
        ensure_eq!(offset_for_delete_backwards(&r, &rope, &b), x, "backspace of a selection");
    }
    Ok(true)
}
/// every caret of a selection at once
fn many(c: &mut Choices) -> Result<bool, String> {
    let s = text(c);
    let b = config(c);
    let rope = Rope::from(&s);
    let mut sel = Selection::new();
    for _ in 0..c.range(1, 5) {
        let (x, y) = if c.flip() { let p = pick_bound(c, &s); (p, p) } else { pick_iv(c, &s) };
        sel.add_region(SelRegion::new(x, y));
    }
    let rs: Vec<SelRegion> = sel.iter().cloned().collect();
    c.note(|| format!("text {:?} tab {} {} {} selection {:?}", s, b.tab_size, b.translate_tabs_to_spaces, b.use_tab_stops, rs));
    let mut gone = vec![false; s.len()];
    for r in &rs {
        let (from, to) = if r.is_caret() { (target(&s, r.end, &b), r.end) } else { (r.min(), r.max()) };
        gone[from..to].iter_mut().for_each(|g| *g = true);
    }
    let want: String = s.char_indices().filter(|(i, _)| !gone[*i]).map(|(_, ch)| ch).collect();
    let got = String::from(delete_backward(&rope, &rs, &b).apply(&rope));
    ensure_eq!(got, want, "text after backspace");
    Ok(true)
}

// ---------------------------------------------------------------- words and movement
#[derive(Clone, Copy, PartialEq)]
enum K {
    Lf,
    Space,
    Punct,
    Other,
}
fn kind(c: char) -> K {
    match c {
        '\n' => K::Lf,
        c if c <= ' ' => K::Space,
        '_' => K::Other,
        c if c.is_ascii_punctuation() => K::Punct,
        _ => K::Other,
    }
}
fn starts(a: K, b: K) -> bool {
    a == K::Lf || b == K::Lf || (a == K::Space && b != K::Space) || (a == K::Punct && b == K::Other)
}
fn ends(a: K, b: K) -> bool {
    a == K::Lf || b == K::Lf || (a == K::Other && b != K::Other) || (a == K::Punct && b == K::Space)
}
fn around(s: &str, p: usize) -> Option<(K, K)> {
    Some((kind(s[..p].chars().next_back()?), kind(s[p..].chars().next()?)))
}
fn words(c: &mut Choices) -> Result<bool, String> {
    let s = text(c);
    let rope = Rope::from(&s);
    c.note(|| format!("text {:?}", s));
    let bs = bounds(&s);
    let skip = bs.len().saturating_sub(60);
    for &p in &bs[skip..] {
        let prev = bs.iter().rev().find(|&&q| q < p && (q == 0 || around(&s, q).map_or(false, |(a, b)| starts(a, b)))).cloned();
        let next = bs.iter().find(|&&q| q > p && (q == s.len() || around(&s, q).map_or(false, |(a, b)| ends(a, b)))).cloned();
        ensure_eq!(WordCursor::new(&rope, p).prev_boundary(), prev, "word start before {}", p);
        ensure_eq!(WordCursor::new(&rope, p).next_boundary(), next, "word end after {}", p);
        let (a, b) = WordCursor::new(&rope, p).select_word();
        ensure!(a <= p && p <= b && b <= s.len() && s.is_char_boundary(a) && s.is_char_boundary(b), "word at {} is {}..{}", p, a, b);
        if let Some((x, y)) = around(&s, p) {
            if x == y && x != K::Lf {
                // inside a run of one kind: exactly the run
                let from = p - s[..p].chars().rev().take_while(|ch| kind(*ch) == x).map(|ch| ch.len_utf8()).sum::<usize>();
                let to = p + s[p..].chars().take_while(|ch| kind(*ch) == x).map(|ch| ch.len_utf8()).sum::<usize>();
                ensure_eq!((a, b), (from, to), "word at {}", p);
            }
            if x != K::Other && y == K::Other {
                ensure_eq!(a, p, "start of the word at {}", p);
                ensure_eq!(b, next.unwrap(), "end of the word at {}", p);
            }
            if x == K::Other && y != K::Other {
                ensure_eq!(b, p, "end of the word at {}", p);
                ensure_eq!(a, prev.unwrap(), "start of the word at {}", p);
            }
        }
    }
    Ok(true)
}
/// the lines of a text that is not wrapped, with line numbers past the end allowed as linewrap's Lines (a private type) allows them
struct Unwrapped;
impl LineOffset for Unwrapped {
    fn offset_of_line(&self, text: &Rope, line: usize) -> usize {
        text.offset_of_line(line.min(text.measure::<xi_rope::LinesMetric>() + 1))
    }
}
const MOVES: &[Movement] = &[
    Movement::Left, Movement::Right, Movement::LeftWord, Movement::RightWord, Movement::LeftOfLine, Movement::RightOfLine, Movement::Up, Movement::Down,
    Movement::UpPage, Movement::DownPage, Movement::UpExactPosition, Movement::DownExactPosition, Movement::StartOfParagraph, Movement::EndOfParagraph,
    Movement::EndOfParagraphKill, Movement::StartOfDocument, Movement::EndOfDocument,
];
fn moves(c: &mut Choices) -> Result<bool, String> {
    let s = text(c);
    let rope = Rope::from(&s);
    let lines = Unwrapped;
    let (a, b) = (pick_bound(c, &s), pick_bound(c, &s));
    let modify = c.flip();
    let horiz = if c.flip() { Some(c.below(6)) } else { None };
    let height = c.below(5);
    c.note(|| format!("text {:?} region {}..{} modify {} horiz {:?} height {}", s, a, b, modify, horiz, height));
    let g: Vec<usize> = s.grapheme_indices(true).map(|x| x.0).chain(Some(s.len())).collect();
    // unicode-segmentation 1.6.0 looks for a joiner in the wrong piece when a joined emoji crosses a piece of the rope, and then
    // reports a boundary inside it: a defect of that crate, so only progress is asked for around such an emoji
    let mut edges = vec![];
    rope.iter_chunks(..).fold(0, |o, piece| { edges.push(o + piece.len()); o + piece.len() });
    let cut = |q: usize, to: usize| {
        g.windows(2).any(|w| w[0] <= q.max(to) && q.min(to) <= w[1] && s[w[0]..w[1]].contains('\u{200d}') && edges.iter().any(|&e| w[0] < e && e < w[1]))
    };
    let whole = |q: usize| g.binary_search(&q).is_ok();
    for &m in MOVES {
        let r = SelRegion::new(a, b).with_horiz(horiz);
        let to = region_movement(m, r, &lines, height, &rope, modify);
        ensure!(to.end <= s.len() && s.is_char_boundary(to.end), "{:?} leads to {}", m, to.end);
        ensure_eq!(to.start, if modify { a } else { to.end }, "{:?}: other end", m);
        // a word may begin with a combining mark
        let word = match m { Movement::LeftWord | Movement::RightWord => true, _ => false };
        if !word && whole(a) && whole(b) && !cut(0, s.len()) {
            ensure!(whole(to.end), "{:?} leads to {}, inside a character", m, to.end);
        }
        if a == b || modify {
            match m {
                Movement::Left if cut(b, to.end) => ensure!(to.end < b || b == 0, "Left stays at {}", b),
                Movement::Right if cut(b, to.end) => ensure!(to.end > b || b == s.len(), "Right stays at {}", b),
                Movement::Left => ensure_eq!(to.end, g.iter().rev().find(|&&q| q < b).cloned().unwrap_or(0), "Left"),
                Movement::Right => ensure_eq!(to.end, g.iter().find(|&&q| q > b).cloned().unwrap_or(b), "Right"),
                Movement::LeftWord => ensure!(to.end < b || b == 0, "LeftWord stays at {}", b),
                Movement::RightWord => ensure!(to.end > b || b == s.len(), "RightWord stays at {}", b),
                _ => {}
            }
        }
    }
    for lo in [&LogicalLines as &dyn LineOffset, &lines as &dyn LineOffset] {
        let (line, col) = lo.offset_to_line_col(&rope, b);
        ensure_eq!((line, col), (s[..b].matches('\n').count(), b - s[..b].rfind('\n').map_or(0, |i| i + 1)), "line and column of {}", b);
    }
    Ok(true)
}
/// the assumption axiom_emoji of contracts/backspace.vt, and the lookups against the tables for every character
#[cfg(have_emoji)]
fn facts(_: &mut Choices) -> Result<bool, String> {
    use tables::*;
    ensure!(EMOJI_TABLE.windows(2).all(|w| w[0] < w[1]), "EMOJI_TABLE is not sorted");
    ensure!(EMOJI_MODIFIER_BASE_TABLE.windows(2).all(|w| w[0] < w[1]), "EMOJI_MODIFIER_BASE_TABLE is not sorted");
    ensure_eq!((EMOJI_TABLE.len(), EMOJI_MODIFIER_BASE_TABLE.len()), (1250, 106), "sizes of the emoji tables");
    let (e, b): (std::collections::HashSet<char>, std::collections::HashSet<char>) = (EMOJI_TABLE.iter().cloned().collect(), EMOJI_MODIFIER_BASE_TABLE.iter().cloned().collect());
    for ch in (0..0x110000).filter_map(std::char::from_u32) {
        ensure_eq!(ch.is_emoji(), e.contains(&ch), "is_emoji of {:?}", ch);
        ensure_eq!(ch.is_emoji_modifier_base(), b.contains(&ch), "is_emoji_modifier_base of {:?}", ch);
    }
    Ok(true)
}
#[cfg(not(have_emoji))]
fn facts(_: &mut Choices) -> Result<bool, String> {
    Ok(false)
}
/// the kinds of characters
fn kinds(_: &mut Choices) -> Result<bool, String> {
    for ch in (0..0x110000).filter_map(std::char::from_u32) {
        ensure_eq!(ch.is_regional_indicator_symbol(), ris(ch), "{:?}", ch);
        ensure_eq!(ch.is_emoji_modifier(), modifier(ch), "{:?}", ch);
        ensure_eq!(is_variation_selector(ch), vs(ch), "{:?}", ch);
        ensure_eq!(is_keycap_base(ch), ch.is_ascii_digit() || ch == '#' || ch == '*', "{:?}", ch);
        ensure_eq!(ch.is_zwj(), ch == ZWJ, "{:?}", ch);
        ensure_eq!(ch.is_emoji_cancel_tag(), ch == '\u{e007f}', "{:?}", ch);
        ensure_eq!(ch.is_tag_spec_char(), ('\u{e0020}'..='\u{e007e}').contains(&ch), "{:?}", ch);
        ensure_eq!(ch.is_emoji_combining_enclosing_keycap(), ch == '\u{20e3}', "{:?}", ch);
    }
    for ch in ['\u{1f469}', '\u{2764}', '\u{1f3f4}', '\u{1f468}', '\u{1f466}', '\u{1f3fd}', '#', '1', '\u{270a}', '\u{1f33e}'] {
        ensure!(ch.is_emoji(), "{:?} is an emoji", ch);
    }
    for ch in ['a', ZWJ, '\u{fe0f}', '\n', '\u{e0067}', '\u{e007f}', '漢', '\u{20e3}'] {
        ensure!(!ch.is_emoji(), "{:?} is no emoji", ch);
    }
    for ch in ['\u{1f469}', '\u{1f468}', '\u{270a}', '\u{261d}'] {
        ensure!(ch.is_emoji_modifier_base() && !'a'.is_emoji_modifier_base(), "{:?} takes a modifier", ch);
    }
    Ok(true)
}
pub fn gens() -> Vec<Gen> {
    vec![
        Gen { name: "tables", case: facts, exhaustive: (1, 1), random: (0, 0) },
        Gen { name: "kinds", case: kinds, exhaustive: (1, 1), random: (0, 0) },
        Gen { name: "one", case: one, exhaustive: (60_000, 1_000_000), random: (300_000, 3_000_000) },
        Gen { name: "many", case: many, exhaustive: (40_000, 1_000_000), random: (300_000, 3_000_000) },
        Gen { name: "words", case: words, exhaustive: (20_000, 600_000), random: (150_000, 2_000_000) },
        Gen { name: "moves", case: moves, exhaustive: (20_000, 600_000), random: (200_000, 2_000_000) },
    ]
}
