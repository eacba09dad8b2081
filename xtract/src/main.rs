//! xtract: mechanical extraction of functions and items of /repo into a Verus file.
//!
//! usage: xtract --repo /repo --out OUT.rs --report OUT.json TEMPLATE.vt...
//!
//! A template is Verus text (spec functions, lemmas, assumed contracts of dependencies) in which
//! directives (lines starting with `//@`) are replaced by the text of the real code, read from the
//! repository on every run.  The extracted text is the source text, byte for byte, except for:
//!   E1  attributes and doc comments on the item are dropped (derives only if asked for are kept)
//!   E2  visibility becomes `pub`
//!   E3  the return value gets a name (`-> T` becomes `-> (r: T)`)
//!   E4  assert_eq!/assert_ne!/debug_assert_eq!/debug_assert_ne! become assert!(a == b) / assert!(a != b)
//!       (assert!, debug_assert!, panic!, unreachable!, unwrap, expect stay: they are obligations)
//!   E5  contract text is inserted: requires/ensures/decreases after the signature, invariants on
//!       loops, an iterator label on `for`, proof blocks at anchors, closure contracts
//!   E6  the rewrites a template asks for with `//@rewrite` (token sequence => token sequence); each
//!       one is reported
//!   E7  a `for P in E { B }` loop over one of the extracted iterators becomes
//!       `{ let mut N = E; while let Some(P) = N.next() { B } }`, and methods of `impl Iterator for T`
//!       become inherent methods of T; `for P in A..B { X }` may likewise become
//!       `{ let mut N = A; let N_end = B; while N < N_end { let P = N; N = N + 1; X } }`
//!   E9  `mut self` becomes `self`, the body starts with `let mut self_ = self;` and says `self_` for
//!       `self` (Verus has no `mut self` parameters)
//!   E8  a pattern `&P` becomes a name, and the body starts with `let P = *name;`
use proc_macro2::{Span, TokenStream, TokenTree};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::Visit;

type Res<T> = Result<T, String>;

struct Src {
    path: String,
    text: String,
    file: syn::File,
}

fn rng(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

/// syn / proc-macro2 byte ranges are relative to the text parsed *per thread source map*; we parse every
/// file in a fresh thread so that offsets start at 0 -- simpler: compute from line/column instead.
struct LineIx {
    starts: Vec<usize>,
}
impl LineIx {
    fn new(t: &str) -> Self {
        let mut starts = vec![0];
        for (i, b) in t.bytes().enumerate() {
            if b == b'\n' {
                starts.push(i + 1);
            }
        }
        LineIx { starts }
    }
    fn off(&self, t: &str, lc: proc_macro2::LineColumn) -> usize {
        let ls = self.starts[lc.line - 1];
        // column is in chars
        let mut o = ls;
        for (n, c) in t[ls..].chars().enumerate() {
            if n == lc.column {
                break;
            }
            o += c.len_utf8();
        }
        o
    }
    fn span(&self, t: &str, s: Span) -> (usize, usize) {
        (self.off(t, s.start()), self.off(t, s.end()))
    }
    fn line(&self, off: usize) -> usize {
        match self.starts.binary_search(&off) {
            Ok(i) => i + 1,
            Err(i) => i,
        }
    }
}

#[derive(Clone)]
struct Edit {
    start: usize,
    end: usize,
    text: String,
    ord: usize,
}

#[derive(Default)]
struct Edits(Vec<Edit>);
impl Edits {
    fn rep(&mut self, start: usize, end: usize, text: impl Into<String>) {
        let ord = self.0.len();
        self.0.push(Edit { start, end, text: text.into(), ord });
    }
    fn ins(&mut self, at: usize, text: impl Into<String>) {
        self.rep(at, at, text)
    }
    fn apply(mut self, text: &str, start: usize, end: usize) -> Res<String> {
        // insertions (empty ranges) sort before replacements at the same offset
        self.0.sort_by_key(|e| (e.start, e.end, e.ord));
        let mut out = String::new();
        let mut pos = start;
        for e in &self.0 {
            if e.start < start || e.end > end {
                continue;
            }
            if e.start < pos {
                return Err(format!("overlapping edits at {}: {:?}", e.start, e.text));
            }
            out.push_str(&text[pos..e.start]);
            out.push_str(&e.text);
            pos = e.end;
        }
        out.push_str(&text[pos..end]);
        Ok(out)
    }
}

/// flattened tokens with spans (groups contribute their delimiters)
fn flat(ts: TokenStream, out: &mut Vec<(String, Span)>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                if !o.is_empty() {
                    out.push((o.into(), g.span_open()));
                }
                flat(g.stream(), out);
                if !c.is_empty() {
                    out.push((c.into(), g.span_close()));
                }
            }
            TokenTree::Ident(i) => out.push((i.to_string(), i.span())),
            TokenTree::Punct(p) => out.push((p.as_char().to_string(), p.span())),
            TokenTree::Literal(l) => out.push((l.to_string(), l.span())),
        }
    }
}

fn toks(s: &str) -> Res<Vec<String>> {
    let ts: TokenStream = s.parse().map_err(|e| format!("cannot tokenize {:?}: {}", s, e))?;
    let mut v = vec![];
    flat(ts, &mut v);
    Ok(v.into_iter().map(|x| x.0).collect())
}

enum Found<'a> {
    ImplFn(&'a syn::ImplItemFn, bool),
    Fn(&'a syn::ItemFn),
    TraitFn(&'a syn::TraitItemFn),
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => format!("&{}", ty_name(&r.elem)),
        _ => quote::quote!(#t).to_string(),
    }
}

/// PATH is `name`, `Type::name`, `Trait for Type::name` or `trait Trait::name`
fn find<'a>(f: &'a syn::File, path: &str) -> Res<Found<'a>> {
    let (head, name) = match path.rfind("::") {
        Some(i) => (Some(path[..i].trim()), path[i + 2..].trim()),
        None => (None, path.trim()),
    };
    let mut hits: Vec<Found<'a>> = vec![];
    for it in &f.items {
        match (it, head) {
            (syn::Item::Fn(x), None) if x.sig.ident == name && !cfg_off(&x.attrs) => hits.push(Found::Fn(x)),
            (syn::Item::Trait(t), Some(h)) if h == format!("trait {}", t.ident) => {
                for ti in &t.items {
                    if let syn::TraitItem::Fn(m) = ti {
                        if m.sig.ident == name {
                            hits.push(Found::TraitFn(m));
                        }
                    }
                }
            }
            (syn::Item::Impl(im), Some(h)) => {
                let tyn = ty_name(&im.self_ty);
                let ok = match &im.trait_ {
                    None => h == tyn,
                    Some((_, tp, _)) => {
                        let seg = tp.segments.last().unwrap();
                        let simple = seg.ident.to_string();
                        let full = {
                            let q = quote::quote!(#seg).to_string().replace(' ', "");
                            q
                        };
                        h == format!("{} for {}", simple, tyn) || h.replace(' ', "") == format!("{}for{}", full, tyn)
                    }
                };
                if ok {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(m) = ii {
                            if m.sig.ident == name && !cfg_off(&m.attrs) {
                                hits.push(Found::ImplFn(m, im.trait_.is_some()));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    match hits.len() {
        0 => Err(format!("lost anchor: function {} not found", path)),
        1 => Ok(hits.pop().unwrap()),
        _ => Err(format!("lost anchor: function {} found {} times", path, hits.len())),
    }
}

fn cfg_off(attrs: &[syn::Attribute]) -> bool {
    // items compiled only for tests are not the code that runs
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = quote::quote!(#a).to_string().replace(' ', "");
            s == "#[cfg(test)]"
        }
    })
}

#[derive(Default, Debug)]
struct FnSpec {
    alias: String,
    path: String,
    ret: Option<String>,
    flags: Vec<String>,
    spec: String,
    loops: BTreeMap<usize, (Option<String>, String)>,
    desugar: BTreeMap<usize, String>,
    n_loops: Option<usize>,
    anchors: Vec<(String, String)>, // (where, text)
    rewrites: Vec<(String, String)>,
    closures: BTreeMap<usize, (String, String)>, // index -> (params, contract)
    sig: Option<String>,
}

enum LoopRef<'a> {
    For(&'a syn::ExprForLoop),
    While(&'a syn::ExprWhile),
    Loop(&'a syn::ExprLoop),
}

#[derive(Default)]
struct Collect<'a> {
    loops: Vec<LoopRef<'a>>,
    closures: Vec<&'a syn::ExprClosure>,
    macros: Vec<&'a syn::Macro>,
    stmts: Vec<&'a syn::Stmt>,
    attrs: Vec<&'a syn::Attribute>,
    rets: Vec<&'a syn::ExprReturn>,
    arms: Vec<(&'a syn::Pat, &'a syn::Expr)>,
    blocks: Vec<(&'a syn::Pat, &'a syn::Block)>,
}

struct RefPats<'a>(Vec<&'a syn::PatReference>);
impl<'a> Visit<'a> for RefPats<'a> {
    fn visit_pat_reference(&mut self, p: &'a syn::PatReference) {
        self.0.push(p);
    }
    fn visit_expr(&mut self, _: &'a syn::Expr) {}
}
impl<'a> Visit<'a> for Collect<'a> {
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
        self.loops.push(LoopRef::For(e));
        self.blocks.push((&e.pat, &e.body));
        syn::visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        self.loops.push(LoopRef::While(e));
        if let syn::Expr::Let(l) = &*e.cond {
            self.blocks.push((&l.pat, &e.body));
        }
        syn::visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
        self.loops.push(LoopRef::Loop(e));
        syn::visit::visit_expr_loop(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) {
        self.closures.push(e);
        syn::visit::visit_expr_closure(self, e);
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        self.arms.push((&a.pat, &a.body));
        syn::visit::visit_arm(self, a);
    }
    fn visit_expr_if(&mut self, e: &'a syn::ExprIf) {
        if let syn::Expr::Let(l) = &*e.cond {
            self.blocks.push((&l.pat, &e.then_branch));
        }
        syn::visit::visit_expr_if(self, e);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        self.macros.push(m);
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        self.stmts.push(s);
        syn::visit::visit_stmt(self, s);
    }
    fn visit_attribute(&mut self, a: &'a syn::Attribute) {
        self.attrs.push(a);
    }
    fn visit_expr_return(&mut self, e: &'a syn::ExprReturn) {
        self.rets.push(e);
        syn::visit::visit_expr_return(self, e);
    }
}

struct Ctx {
    repo: String,
    srcs: BTreeMap<String, (Src, LineIx)>,
    report_fns: Vec<Value>,
    report_items: Vec<Value>,
    lost: Vec<Value>,
    out: String,
    /// plant `assert(false)` at the start of every function under contract: each one must then fail
    vacuity: bool,
}

impl Ctx {
    fn out_line(&self) -> usize {
        self.out.bytes().filter(|b| *b == b'\n').count() + 1
    }

    fn load(&mut self, alias: &str, path: &str) -> Res<()> {
        let p = format!("{}/{}", self.repo, path);
        let text = std::fs::read_to_string(&p).map_err(|e| format!("lost anchor: {}: {}", p, e))?;
        let file = syn::parse_file(&text).map_err(|e| format!("cannot parse {}: {}", p, e))?;
        let ix = LineIx::new(&text);
        self.srcs.insert(alias.into(), (Src { path: path.into(), text, file }, ix));
        Ok(())
    }

    fn emit_fn(&mut self, fs: &FnSpec) -> Res<()> {
        let (src, ix) = self.srcs.get(&fs.alias).ok_or(format!("unknown file alias {}", fs.alias))?;
        let t = &src.text;
        let found = find(&src.file, &fs.path)?;
        let mut ed = Edits::default();
        let mut lost: Vec<String> = vec![];
        let mut rewrites_done: Vec<String> = vec![];
        let (attrs, vis, sig, block, in_trait): (_, Option<&syn::Visibility>, _, Option<&syn::Block>, bool) =
            match &found {
                Found::Fn(f) => (&f.attrs, Some(&f.vis), &f.sig, Some(&*f.block), false),
                Found::ImplFn(f, tr) => (&f.attrs, Some(&f.vis), &f.sig, Some(&f.block), *tr),
                Found::TraitFn(f) => (&f.attrs, None, &f.sig, f.default.as_ref(), true),
            };
        let sig_start = ix.span(t, sig.span()).0;
        let start = match vis {
            Some(v) if !matches!(v, syn::Visibility::Inherited) => ix.span(t, v.span()).0,
            _ => sig_start,
        };
        let _ = attrs;
        let end = match block {
            Some(b) => ix.span(t, b.span()).1,
            None => match &found {
                Found::TraitFn(f) => ix.span(t, f.semi_token.unwrap().span).1,
                _ => unreachable!(),
            },
        };
        // E2 visibility
        let keep_trait = in_trait && !fs.flags.iter().any(|f| f == "inherent");
        if keep_trait {
            if start < sig_start {
                ed.rep(start, sig_start, "");
            }
        } else {
            ed.rep(start, sig_start, "pub ");
        }
        if let Some(s) = &fs.sig {
            // replaced signature: reported as a rewrite
            let send = ix.span(t, sig.span()).1;
            let old = t[sig_start..send].split_whitespace().collect::<Vec<_>>().join(" ");
            // expected old signature is given before =>
            let (want, new) = s.split_once("=>").ok_or("//@sig needs OLD => NEW")?;
            if toks(want.trim())? != toks(&old)? {
                return Err(format!("lost anchor: signature of {} changed: {}", fs.path, old));
            }
            ed.rep(sig_start, send, new.trim().to_string());
            rewrites_done.push(format!("signature: {} => {}", want.trim(), new.trim()));
        } else if let (Some(r), syn::ReturnType::Type(_, ty)) = (&fs.ret, &sig.output) {
            let (a, b) = ix.span(t, ty.span());
            ed.ins(a, format!("({}: ", r));
            ed.ins(b, ")");
        }
        let spec_at = match block {
            Some(b) => ix.span(t, b.brace_token.span.open()).0,
            None => end - 1,
        };
        if !fs.spec.trim().is_empty() {
            ed.ins(spec_at, format!("\n{}\n    ", fs.spec.trim_end()));
        }
        let mut n_loops = 0;
        if self.vacuity && !fs.flags.iter().any(|f| f == "external-body") {
            if let Some(b) = block {
                ed.ins(ix.span(t, b.brace_token.span.open()).1, " proof { assert(false); } ");
            }
        }
        if let Some(b) = block {
            let mut c = Collect::default();
            c.visit_block(b);
            // attributes inside bodies are dropped
            for a in &c.attrs {
                let (x, y) = ix.span(t, a.span());
                if fs.flags.iter().any(|f| f == "keep-attrs") {
                    continue;
                }
                ed.rep(x, y, "");
            }
            n_loops = c.loops.len();
            let want = fs.n_loops.unwrap_or_else(|| fs.loops.keys().max().map(|m| m + 1).unwrap_or(0));
            if n_loops != want {
                lost.push(format!("{} has {} loops, contract written for {}", fs.path, n_loops, want));
            }
            for (i, l) in c.loops.iter().enumerate() {
                let (body, pat) = match l {
                    LoopRef::For(e) => (&e.body, Some(&e.expr)),
                    LoopRef::While(e) => (&e.body, None),
                    LoopRef::Loop(e) => (&e.body, None),
                };
                if let Some((label, spec)) = fs.loops.get(&i) {
                    if let (Some(lb), Some(ex)) = (label, pat) {
                        ed.ins(ix.span(t, ex.span()).0, format!("{}: ", lb));
                    }
                    let at = ix.span(t, body.brace_token.span.open()).0;
                    ed.ins(at, format!("\n{}\n    ", spec.trim_end()));
                }
                if let (Some(nm), LoopRef::For(e)) = (fs.desugar.get(&i), l) {
                    // E7: `for P in E { B }` => `{ let mut N = E; while let Some(P) = N.next() { B } }`
                    let (p0, p1) = ix.span(t, e.pat.span());
                    let (x0, x1) = ix.span(t, e.expr.span());
                    let f0 = ix.span(t, e.for_token.span()).0;
                    if e.label.is_some() {
                        return Err(format!("{}: labelled loop cannot be desugared", fs.path));
                    }
                    if let Some(nm) = nm.strip_prefix("range:") {
                        // E7: `for P in A..B { X }` => `{ let mut N = A; let N_end = B; while N < N_end { let P = N; N = N + 1; X } }`
                        let (lo, hi) = match &*e.expr {
                            syn::Expr::Range(r) if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) => match (&r.start, &r.end) {
                                (Some(a), Some(b)) => (ix.span(t, a.span()), ix.span(t, b.span())),
                                _ => return Err(format!("lost anchor: {}: loop {} is not over a..b", fs.path, i)),
                            },
                            _ => return Err(format!("lost anchor: {}: loop {} is not over a..b", fs.path, i)),
                        };
                        ed.rep(f0, lo.0, format!("{{ let mut {} = ", nm));
                        ed.rep(lo.1, hi.0, format!("; let {}_end = ", nm));
                        ed.rep(hi.1, x1, format!(";\n while {} < {}_end", nm, nm));
                        ed.ins(ix.span(t, e.body.brace_token.span.open()).1, format!(" let {} = {}; {} = {} + 1;", &t[p0..p1], nm, nm, nm));
                        ed.ins(ix.span(t, e.span()).1, " }");
                        continue;
                    }
                    if let Some(nm) = nm.strip_prefix("revrange:") {
                        // E7: `for P in (A..B).rev() { X }` => `{ let N_start = A; let mut N = B; while N > N_start { N = N - 1; let P = N; X } }`
                        let lost = || format!("lost anchor: {}: loop {} is not over (a..b).rev()", fs.path, i);
                        let syn::Expr::MethodCall(mc) = &*e.expr else { return Err(lost()) };
                        if mc.method != "rev" || !mc.args.is_empty() {
                            return Err(lost());
                        }
                        let mut rc = &*mc.receiver;
                        while let syn::Expr::Paren(p) = rc {
                            rc = &*p.expr;
                        }
                        let syn::Expr::Range(r) = rc else { return Err(lost()) };
                        if !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
                            return Err(lost());
                        }
                        let (Some(a), Some(b)) = (&r.start, &r.end) else { return Err(lost()) };
                        let (lo, hi) = (ix.span(t, a.span()), ix.span(t, b.span()));
                        ed.rep(f0, lo.0, format!("{{ let {}_start = ", nm));
                        ed.rep(lo.1, hi.0, format!("; let mut {} = ", nm));
                        ed.rep(hi.1, x1, format!(";\n while {} > {}_start", nm, nm));
                        ed.ins(ix.span(t, e.body.brace_token.span.open()).1, format!(" {} = {} - 1; let {} = {};", nm, nm, &t[p0..p1], nm));
                        ed.ins(ix.span(t, e.span()).1, " }");
                        continue;
                    }
                    ed.rep(f0, x1, format!("{{ let mut {} = {};\n while let Some({}) = {}.next()", nm, &t[x0..x1], &t[p0..p1], nm));
                    ed.ins(ix.span(t, e.span()).1, " }");
                }
            }
            // E4
            for m in &c.macros {
                let name = m.path.segments.last().unwrap().ident.to_string();
                let op = match name.as_str() {
                    "assert_eq" | "debug_assert_eq" => "==",
                    "assert_ne" | "debug_assert_ne" => "!=",
                    _ => continue,
                };
                let args: syn::punctuated::Punctuated<syn::Expr, syn::Token![,]> = m
                    .parse_body_with(syn::punctuated::Punctuated::parse_terminated)
                    .map_err(|e| format!("{}!: {}", name, e))?;
                if args.len() < 2 {
                    return Err("assert_eq! with one argument".into());
                }
                let (a0, a1) = ix.span(t, args[0].span());
                let (b0, b1) = ix.span(t, args[1].span());
                let (m0, m1) = ix.span(t, m.span());
                // keep the two argument texts in place so that rewrites inside them still apply
                ed.rep(m0, a0, "assert!((");
                ed.rep(a1, b0, format!(") {} (", op));
                ed.rep(b1, m1, "))");
            }
            // E8 `&P` patterns: a fresh name, and `let P = *name;` at the start of the body
            let mut npat = 0;
            let mut refp = |pat: &syn::Pat, ed: &mut Edits| -> String {
                let mut r = RefPats(vec![]);
                r.visit_pat(pat);
                let mut lets = String::new();
                for p in r.0 {
                    let (p0, p1) = ix.span(t, p.span());
                    if let syn::Pat::TupleStruct(ts) = &*p.pat {
                        // `&V(a, ref b, 0)`: the `&` and the `ref`s go (default binding mode); by-value bindings are read through
                        ed.rep(p0, ix.span(t, ts.span()).0, String::new());
                        for q in &ts.elems {
                            if let syn::Pat::Ident(id) = q {
                                if let Some(r) = &id.by_ref {
                                    let (r0, r1) = ix.span(t, r.span());
                                    ed.rep(r0, r1, String::new());
                                    if let Some(m) = &id.mutability {
                                        let (m0, m1) = ix.span(t, m.span());
                                        ed.rep(m0, m1, String::new());
                                    }
                                } else {
                                    let _ = write!(lets, " let {} = *{};", id.ident, id.ident);
                                }
                            }
                        }
                        continue;
                    }
                    let (i0, i1) = ix.span(t, p.pat.span());
                    let nm = format!("xref{}", npat);
                    npat += 1;
                    ed.rep(p0, p1, nm.clone());
                    let _ = write!(lets, " let {} = *{};", &t[i0..i1], nm);
                }
                lets
            };
            for (pat, body) in &c.arms {
                let l = refp(pat, &mut ed);
                if !l.is_empty() {
                    let (b0, b1) = ix.span(t, body.span());
                    if let syn::Expr::Block(b) = body {
                        ed.ins(ix.span(t, b.block.brace_token.span.open()).1, l);
                    } else {
                        ed.ins(b0, format!("{{{} ", l));
                        ed.ins(b1, " }");
                    }
                }
            }
            for (k, (pat, b)) in c.blocks.iter().enumerate() {
                let _ = k;
                let l = refp(pat, &mut ed);
                if !l.is_empty() {
                    ed.ins(ix.span(t, b.brace_token.span.open()).1, l);
                }
            }
            for (i, cl) in c.closures.iter().enumerate() {
                if let Some((params, contract)) = fs.closures.get(&i) {
                    let (c0, _) = ix.span(t, cl.or1_token.span());
                    let (b0, b1) = ix.span(t, cl.body.span());
                    let pre = fs.anchors.iter().find(|(w, _)| *w == format!("closure-start {}", i)).map(|x| x.1.trim_end().to_string()).unwrap_or_default();
                    ed.rep(c0, b0, format!("{}\n{}\n{{ {}\n", params, contract.trim_end(), pre));
                    ed.ins(b1, " }");
                    rewrites_done.push(format!("closure #{} given types and contract: {}", i, params));
                }
            }
            for i in fs.closures.keys() {
                if *i >= c.closures.len() {
                    lost.push(format!("{}: closure #{} not found", fs.path, i));
                }
            }
            // rewrites
            let mut bt = vec![];
            {
                use quote::ToTokens;
                flat(b.to_token_stream(), &mut bt);
            }
            // E9
            let mut self_mut = false;
            if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first() {
                if let (Some(m), None) = (&r.mutability, &r.reference) {
                    if fs.sig.is_none() {
                        ed.rep(ix.span(t, m.span()).0, ix.span(t, r.self_token.span()).0, "");
                    }
                    self_mut = true;
                    for (k, sp) in &bt {
                        if k == "self" {
                            let (x, y) = ix.span(t, *sp);
                            ed.rep(x, y, "self_");
                        }
                    }
                    rewrites_done.push("mut self => self; let mut self_ = self".into());
                }
            }
            for (from, to) in &fs.rewrites {
                let pat = toks(from).unwrap_or_else(|_| toks_prefix(from));
                let mut hit = false;
                let mut i = 0;
                while i + pat.len() <= bt.len() {
                    if (0..pat.len()).all(|k| bt[i + k].0 == pat[k]) {
                        let s = ix.span(t, bt[i].1).0;
                        let e = ix.span(t, bt[i + pat.len() - 1].1).1;
                        ed.rep(s, e, to.clone());
                        hit = true;
                        i += pat.len();
                    } else {
                        i += 1;
                    }
                }
                if hit {
                    rewrites_done.push(format!("{} => {}", from, to));
                } else {
                    lost.push(format!("{}: rewrite pattern not found: {}", fs.path, from));
                }
            }
            for (wh, text) in &fs.anchors {
                let mut parts = wh.splitn(2, ' ');
                let kind = parts.next().unwrap();
                let arg = parts.next().unwrap_or("").trim();
                let txt = format!("\n{}\n", text.trim_end());
                let lp = |k: &str| -> Option<&LoopRef> { k.parse::<usize>().ok().and_then(|n| c.loops.get(n)) };
                let lbody = |l: &LoopRef| -> (usize, usize) {
                    let b = match l {
                        LoopRef::For(e) => &e.body,
                        LoopRef::While(e) => &e.body,
                        LoopRef::Loop(e) => &e.body,
                    };
                    let o = ix.span(t, b.brace_token.span.open()).1;
                    let cl = ix.span(t, b.brace_token.span.close()).0;
                    (o, cl)
                };
                let lspan = |l: &LoopRef| -> (usize, usize) {
                    match l {
                        LoopRef::For(e) => ix.span(t, e.span()),
                        LoopRef::While(e) => ix.span(t, e.span()),
                        LoopRef::Loop(e) => ix.span(t, e.span()),
                    }
                };
                match kind {
                    "closure-start" => {}
                    "body-start" => ed.ins(ix.span(t, b.brace_token.span.open()).1, txt),
                    "body-end" => ed.ins(ix.span(t, b.brace_token.span.close()).0, txt),
                    "tail" => {
                        // before the tail expression
                        match b.stmts.last() {
                            Some(s @ syn::Stmt::Expr(_, None)) => ed.ins(ix.span(t, s.span()).0, txt),
                            _ => ed.ins(ix.span(t, b.brace_token.span.close()).0, txt),
                        }
                    }
                    "loop-start" => match lp(arg) {
                        Some(l) => ed.ins(lbody(l).0, txt),
                        None => lost.push(format!("{}: {}", fs.path, wh)),
                    },
                    "loop-end" => match lp(arg) {
                        Some(l) => {
                            let b = match l {
                                LoopRef::For(e) => &e.body,
                                LoopRef::While(e) => &e.body,
                                LoopRef::Loop(e) => &e.body,
                            };
                            let semi = matches!(b.stmts.last(), Some(syn::Stmt::Expr(_, None)));
                            ed.ins(lbody(l).1, if semi { format!(";{}", txt) } else { txt })
                        }
                        None => lost.push(format!("{}: {}", fs.path, wh)),
                    },
                    "before-loop" => match lp(arg) {
                        Some(l) => ed.ins(lspan(l).0, txt),
                        None => lost.push(format!("{}: {}", fs.path, wh)),
                    },
                    "after-loop" => match lp(arg) {
                        Some(l) => {
                            let mut e = lspan(l).1;
                            // a loop in statement position may be followed by `;`
                            if t[e..].starts_with(';') {
                                e += 1;
                            }
                            ed.ins(e, txt)
                        }
                        None => lost.push(format!("{}: {}", fs.path, wh)),
                    },
                    "before" | "after" => {
                        // `before [#k] tokens...`
                        let (k, pat) = if let Some(r) = arg.strip_prefix('#') {
                            let mut p = r.splitn(2, ' ');
                            (p.next().unwrap().parse::<usize>().unwrap_or(0), p.next().unwrap_or(""))
                        } else {
                            (0, arg)
                        };
                        let pt = toks_prefix(pat);
                        let mut n = 0;
                        let mut done = false;
                        for s in &c.stmts {
                            let mut st = vec![];
                            use quote::ToTokens;
                            flat(s.to_token_stream(), &mut st);
                            if st.len() >= pt.len() && (0..pt.len()).all(|q| st[q].0 == pt[q]) {
                                if n == k {
                                    let sp = ix.span(t, s.span());
                                    ed.ins(if kind == "before" { sp.0 } else { sp.1 }, txt.clone());
                                    done = true;
                                    break;
                                }
                                n += 1;
                            }
                        }
                        if !done {
                            lost.push(format!("{}: {}", fs.path, wh));
                        }
                    }
                    _ => return Err(format!("unknown anchor {}", wh)),
                }
            }
            if self_mut {
                ed.ins(ix.span(t, b.brace_token.span.open()).1, " let mut self_ = self;");
            }
        }
        let l0 = ix.line(start);
        let l1 = ix.line(end);
        let body = ed.apply(t, start, end)?;
        let srcpath = src.path.clone();
        let out0 = self.out_line();
        let exec_text_sha = {
            // a cheap fingerprint of the extracted source text
            let mut h: u64 = 0xcbf29ce484222325;
            for b in t[start..end].bytes() {
                h ^= b as u64;
                h = h.wrapping_mul(0x100000001b3);
            }
            format!("{:016x}", h)
        };
        let _ = writeln!(self.out, "// [xtract] {}:{}-{} {}", srcpath, l0, l1, fs.path);
        self.out.push_str(&body);
        self.out.push('\n');
        let out1 = self.out_line();
        for l in &lost {
            self.lost.push(json!({"fn": fs.path, "what": l}));
        }
        self.report_fns.push(json!({
            "fn": fs.path, "file": srcpath, "lines": [l0, l1], "out_lines": [out0, out1],
            "loops": n_loops, "rewrites": rewrites_done, "lost": lost, "fingerprint": exec_text_sha,
            "contract": !fs.spec.trim().is_empty(),
            "external_body": fs.flags.iter().any(|f| f == "external-body"),
        }));
        Ok(())
    }

    fn emit_item(&mut self, alias: &str, kind: &str, name: &str, flags: &[String], extra: &str) -> Res<()> {
        let (src, ix) = self.srcs.get(alias).ok_or(format!("unknown file alias {}", alias))?;
        let t = &src.text;
        let mut ed = Edits::default();
        let mut range: Option<(usize, usize)> = None;
        let mut derives: Vec<String> = vec![];
        for it in &src.file.items {
            match (it, kind) {
                (syn::Item::Struct(s), "struct") if s.ident == name && !cfg_off(&s.attrs) => {
                    let (a0, e0) = ix.span(t, s.span());
                    let kw = ix.span(t, s.struct_token.span()).0;
                    let _ = a0;
                    derives = get_derives(&s.attrs);
                    match &s.fields {
                        syn::Fields::Named(n) => {
                            for f in &n.named {
                                pub_field(f, t, ix, &mut ed, true);
                            }
                        }
                        syn::Fields::Unnamed(n) => {
                            for f in &n.unnamed {
                                pub_field(f, t, ix, &mut ed, false);
                            }
                        }
                        syn::Fields::Unit => {}
                    }
                    range = Some((kw, e0));
                }
                (syn::Item::Enum(s), "enum") if s.ident == name => {
                    let (_, e0) = ix.span(t, s.span());
                    let kw = ix.span(t, s.enum_token.span()).0;
                    derives = get_derives(&s.attrs);
                    let mut c = Collect::default();
                    for v in &s.variants {
                        c.visit_variant(v);
                    }
                    for a in c.attrs {
                        let (x, y) = ix.span(t, a.span());
                        ed.rep(x, y, "");
                    }
                    range = Some((kw, e0));
                }
                (syn::Item::Const(s), "const") if s.ident == name && !cfg_off(&s.attrs) => {
                    let (_, e0) = ix.span(t, s.span());
                    range = Some((ix.span(t, s.const_token.span()).0, e0));
                }
                (syn::Item::Type(s), "type") if s.ident == name => {
                    let (_, e0) = ix.span(t, s.span());
                    range = Some((ix.span(t, s.type_token.span()).0, e0));
                }
                _ => {}
            }
        }
        let (a, b) = range.ok_or(format!("lost anchor: {} {} not found in {}", kind, name, src.path))?;
        let mut keep = vec![];
        for f in flags {
            if let Some(d) = f.strip_prefix("derive=") {
                for x in d.split(',') {
                    if !derives.iter().any(|y| y == x) {
                        return Err(format!("lost anchor: {} does not derive {}", name, x));
                    }
                    keep.push(x.to_string());
                }
            }
        }
        let body = ed.apply(t, a, b)?;
        let path = src.path.clone();
        let l0 = ix.line(a);
        let _ = writeln!(self.out, "// [xtract] {}:{} {} {}", path, l0, kind, name);
        if !keep.is_empty() {
            let _ = writeln!(self.out, "#[derive({})]", keep.join(", "));
        }
        if !extra.is_empty() {
            self.out.push_str(extra);
            self.out.push('\n');
        }
        let _ = writeln!(self.out, "pub {}", body);
        self.report_items.push(json!({"item": format!("{} {}", kind, name), "file": path, "line": l0}));
        Ok(())
    }
}

fn toks_prefix(s: &str) -> Vec<String> {
    // tokens of a possibly unbalanced prefix
    let mut v = vec![];
    let mut cur = String::new();
    let mut chars = s.chars().peekable();
    while let Some(c) = chars.next() {
        if c.is_alphanumeric() || c == '_' {
            cur.push(c);
        } else {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
            if !c.is_whitespace() {
                v.push(c.to_string());
            }
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

fn get_derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn pub_field(f: &syn::Field, t: &str, ix: &LineIx, ed: &mut Edits, named: bool) {
    for a in &f.attrs {
        let (x, y) = ix.span(t, a.span());
        ed.rep(x, y, "");
    }
    let at = if named {
        ix.span(t, f.ident.as_ref().unwrap().span()).0
    } else {
        ix.span(t, f.ty.span()).0
    };
    match &f.vis {
        syn::Visibility::Inherited => ed.ins(at, "pub "),
        v => {
            let (x, _) = ix.span(t, v.span());
            ed.rep(x, at, "pub ");
        }
    }
}

fn parse_kv(line: &str) -> Vec<String> {
    line.split_whitespace().map(|s| s.to_string()).collect()
}

fn run() -> Res<i32> {
    let mut args = std::env::args().skip(1);
    let (mut repo, mut out, mut report) = ("/repo".to_string(), None, None);
    let mut templates = vec![];
    let mut vac = false;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--repo" => repo = args.next().unwrap(),
            "--out" => out = args.next(),
            "--report" => report = args.next(),
            "--vacuity" => vac = true,
            _ => templates.push(a),
        }
    }
    let mut cx = Ctx {
        repo,
        srcs: BTreeMap::new(),
        report_fns: vec![],
        report_items: vec![],
        lost: vec![],
        out: String::new(),
        vacuity: false,
    };
    cx.vacuity = vac;
    let mut hard: Vec<String> = vec![];
    for tp in &templates {
        let text = std::fs::read_to_string(tp).map_err(|e| format!("{}: {}", tp, e))?;
        let lines: Vec<&str> = text.lines().collect();
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            let tl = l.trim_start();
            if !tl.starts_with("//@") {
                cx.out.push_str(l);
                cx.out.push('\n');
                i += 1;
                continue;
            }
            let d = tl[3..].trim();
            if let Some(r) = d.strip_prefix("file ") {
                let v = parse_kv(r);
                if let Err(e) = cx.load(&v[0], &v[1]) {
                    hard.push(e);
                }
                i += 1;
            } else if let Some(r) = d.strip_prefix("item ") {
                // //@item ALIAS KIND NAME flags...   followed by optional //@attr lines
                let v = parse_kv(r);
                let mut extra = String::new();
                i += 1;
                while i < lines.len() && lines[i].trim_start().starts_with("//@attr ") {
                    extra.push_str(&lines[i].trim_start()[8..]);
                    extra.push('\n');
                    i += 1;
                }
                if let Err(e) = cx.emit_item(&v[0], &v[1], &v[2], &v[3..], extra.trim_end()) {
                    hard.push(e);
                }
            } else if let Some(r) = d.strip_prefix("fn ") {
                let mut fs = FnSpec::default();
                // ALIAS PATH [-> r] [flags: x y]
                let (head, flags) = match r.find(" flags:") {
                    Some(k) => (&r[..k], parse_kv(&r[k + 7..])),
                    None => (r, vec![]),
                };
                let (head, ret) = match head.find("->") {
                    Some(k) => (&head[..k], Some(head[k + 2..].trim().to_string())),
                    None => (head, None),
                };
                let mut p = head.trim().splitn(2, ' ');
                fs.alias = p.next().unwrap().into();
                fs.path = p.next().unwrap_or("").trim().into();
                fs.ret = ret;
                fs.flags = flags;
                i += 1;
                enum Sec {
                    Spec,
                    Loop(usize),
                    Anchor(usize),
                    Closure(usize),
                }
                let mut sec = Sec::Spec;
                loop {
                    if i >= lines.len() {
                        return Err(format!("{}: missing //@end for {}", tp, fs.path));
                    }
                    let l = lines[i];
                    let tl = l.trim_start();
                    i += 1;
                    if let Some(d) = tl.strip_prefix("//@") {
                        let d = d.trim();
                        if d == "end" {
                            break;
                        } else if let Some(r) = d.strip_prefix("loop ") {
                            let v = parse_kv(r);
                            let n: usize = v[0].parse().map_err(|_| "bad loop index")?;
                            let lab = v.iter().find_map(|x| x.strip_prefix("iter=").map(|s| s.to_string()));
                            if let Some(nm) = v.iter().find_map(|x| x.strip_prefix("desugar=")) {
                                fs.desugar.insert(n, nm.into());
                            }
                            fs.loops.insert(n, (lab, String::new()));
                            sec = Sec::Loop(n);
                        } else if let Some(r) = d.strip_prefix("loops ") {
                            fs.n_loops = r.trim().parse().ok();
                        } else if let Some(r) = d.strip_prefix("at ") {
                            fs.anchors.push((r.trim().into(), String::new()));
                            sec = Sec::Anchor(fs.anchors.len() - 1);
                        } else if let Some(r) = d.strip_prefix("closure ") {
                            let mut p = r.splitn(2, ' ');
                            let n: usize = p.next().unwrap().parse().map_err(|_| "bad closure index")?;
                            fs.closures.insert(n, (p.next().unwrap_or("").into(), String::new()));
                            sec = Sec::Closure(n);
                        } else if let Some(r) = d.strip_prefix("rewrite ") {
                            let (a, b) = r.split_once("=>>").ok_or("rewrite needs =>>")?;
                            fs.rewrites.push((a.trim().into(), b.trim().into()));
                        } else if let Some(r) = d.strip_prefix("sig ") {
                            fs.sig = Some(r.into());
                        } else {
                            return Err(format!("{}: unknown directive {}", tp, l));
                        }
                        continue;
                    }
                    let dst = match sec {
                        Sec::Spec => &mut fs.spec,
                        Sec::Loop(n) => &mut fs.loops.get_mut(&n).unwrap().1,
                        Sec::Anchor(n) => &mut fs.anchors[n].1,
                        Sec::Closure(n) => &mut fs.closures.get_mut(&n).unwrap().1,
                    };
                    dst.push_str(l);
                    dst.push('\n');
                }
                if let Err(e) = cx.emit_fn(&fs) {
                    cx.report_fns.push(json!({"fn": fs.path, "error": e.clone()}));
                    hard.push(e);
                }
            } else if d.starts_with('#') || d.is_empty() {
                i += 1;
            } else {
                return Err(format!("{}: unknown directive {}", tp, l));
            }
        }
    }
    let rep = json!({"fns": cx.report_fns, "items": cx.report_items, "lost": cx.lost, "errors": hard});
    if let Some(o) = out {
        std::fs::write(&o, &cx.out).map_err(|e| format!("{}: {}", o, e))?;
    }
    if let Some(r) = report {
        std::fs::write(&r, serde_json::to_string_pretty(&rep).unwrap()).map_err(|e| format!("{}: {}", r, e))?;
    }
    for e in &hard {
        eprintln!("xtract: {}", e);
    }
    Ok(if hard.is_empty() { 0 } else { 3 })
}

fn main() {
    let _ = rng;
    match run() {
        Ok(c) => std::process::exit(c),
        Err(e) => {
            eprintln!("xtract: {}", e);
            std::process::exit(2)
        }
    }
}
