//! Extracts functions of /repo mechanically into a Verus file, around the contracts of one unit.
//!
//! extractor emit UNIT CONTRACT_DIR REPO OUT [--probe] [--baseline FILE]   -> JSON report on stdout
//! extractor baseline CONTRACT_DIR REPO FILE                               -> rewrites the baseline
//!
//! What it changes in the text of a function (nothing else):
//!  * attributes, doc comments and visibility are dropped;
//!  * `for` loops become the `while` loop they stand for (counter advanced before the body);
//!  * `x as f64` and floating-point literals become calls of a trusted real-number type (units
//!    with //@ floats only);
//!  * the token rewrites listed with `//@ rw` in the contract file;
//!  * contracts, invariants and ghost code of the contract file are inserted.
mod rw;
use std::collections::{BTreeMap, HashMap};
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Clone, Default, Debug)]
pub struct FnBlock {
    src: String, path: String, unit: String,
    ret: Option<String>, attrs: String, spec: String,
    loops: Vec<(usize, String)>,
    ats: Vec<(String, String)>,
    rws: Vec<(String, String, bool)>,
    sigrws: Vec<(String, String, bool)>,
    external: bool, inherent: bool, mutself: bool, name: Option<String>, cut: Option<(String, String)>, prelude: String,
}
#[derive(Clone, Debug)]
enum Part { Text(String), Item { src: String, kind: String, name: String, derive: String, rws: Vec<(String, String, bool)> }, Fn(FnBlock), Import(String), Include(String) }
#[derive(Clone, Debug, Default)]
struct Unit { parts: Vec<Part>, floats: bool, grws: Vec<(String, String, bool)> }

fn split_rw(s: &str) -> (String, String) { let (a, b) = s.split_once("=>>").unwrap_or_else(|| panic!("rewrite without =>> : {s}")); (a.trim().into(), b.trim().into()) }

fn parse_unit(dir: &str, unit: &str) -> Unit {
    let t = std::fs::read_to_string(format!("{dir}/{unit}.vrs")).unwrap_or_else(|e| panic!("{unit}: {e}"));
    let mut u = Unit::default();
    let mut text = String::new();
    let mut cur: Option<FnBlock> = None;
    #[derive(PartialEq)] enum Sec { None, Spec, Loop, At, Prelude }
    let mut sec = Sec::None;
    for line in t.lines() {
        let l = line.trim();
        if let Some(d) = l.strip_prefix("//@") {
            let d = d.trim();
            let (w, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            if let Some(f) = cur.as_mut() {
                match w {
                    "ret" => f.ret = Some(rest.into()),
                    "attrs" => { f.attrs.push_str(rest); f.attrs.push('\n') }
                    "external" => f.external = true,
                    "inherent" => f.inherent = true,
                    "mutself" => f.mutself = true,
                    "name" => f.name = Some(rest.into()),
                    "spec" => sec = Sec::Spec,
                    "prelude" => sec = Sec::Prelude,
                    "loop" => { f.loops.push((rest.parse().unwrap(), String::new())); sec = Sec::Loop }
                    "at" => { f.ats.push((rest.into(), String::new())); sec = Sec::At }
                    "rw" | "rw?" => { let (a, b) = split_rw(rest); f.rws.push((a, b, w == "rw")) }
                    "sig" => { let (a, b) = split_rw(rest); f.sigrws.push((a, b, true)) }
                    "cut" => { let (a, b) = split_rw(rest); f.cut = Some((a, b)) }
                    "end" => { u.parts.push(Part::Fn(cur.take().unwrap())); sec = Sec::None }
                    _ => panic!("{unit}: unknown directive in fn: {d}"),
                }
            } else {
                let flush = |u: &mut Unit, text: &mut String| { if !text.is_empty() { u.parts.push(Part::Text(std::mem::take(text))) } };
                match w {
                    "fn" => {
                        flush(&mut u, &mut text);
                        let (src, path) = rest.split_once(' ').unwrap();
                        cur = Some(FnBlock { src: src.into(), path: path.trim().into(), unit: unit.into(), ..Default::default() });
                    }
                    "item" => {
                        flush(&mut u, &mut text);
                        let v: Vec<&str> = rest.splitn(4, ' ').collect();
                        let mut derive = String::new();
                        let mut rws = vec![];
                        if let Some(x) = v.get(3) {
                            let (a, b) = x.split_once('|').unwrap_or((x, ""));
                            derive = a.trim().trim_start_matches("derive=").into();
                            if !b.trim().is_empty() { let (a, b) = split_rw(b); rws.push((a, b, true)) }
                        }
                        u.parts.push(Part::Item { src: v[0].into(), kind: v[1].into(), name: v[2].into(), derive, rws });
                    }
                    "import" => { flush(&mut u, &mut text); u.parts.push(Part::Import(rest.into())) }
                    "include" => { flush(&mut u, &mut text); u.parts.push(Part::Include(rest.into())) }
                    "floats" => u.floats = true,
                    "grw" | "grw?" => { let (a, b) = split_rw(rest); u.grws.push((a, b, w == "grw")) }
                    "#" => {}
                    _ => panic!("{unit}: unknown directive: {d}"),
                }
            }
            continue;
        }
        if let Some(f) = cur.as_mut() {
            let dst = match sec {
                Sec::Spec => &mut f.spec,
                Sec::Prelude => &mut f.prelude,
                Sec::Loop => &mut f.loops.last_mut().unwrap().1,
                Sec::At => &mut f.ats.last_mut().unwrap().1,
                Sec::None => { assert!(l.is_empty(), "{unit}: text outside a section: {l}"); continue }
            };
            dst.push_str(line); dst.push('\n');
        } else { text.push_str(line); text.push('\n') }
    }
    assert!(cur.is_none(), "{unit}: fn without //@ end");
    if !text.is_empty() { u.parts.push(Part::Text(text)) }
    u
}

// ------------------------------------------------------------------ sources
struct Source { text: String, file: syn::File }
struct Found { head: String, tail: String, attrs_end: usize, sig: std::ops::Range<usize>, block: syn::Block, sigast: syn::Signature, vis_end: usize }
fn br(s: proc_macro2::Span) -> std::ops::Range<usize> { s.byte_range() }
fn norm(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }

fn find_fn(src: &Source, path: &str) -> Option<Found> {
    let t = &src.text;
    let mk = |sig: &syn::Signature, block: &syn::Block, head: String, tail: String| Found {
        head, tail, attrs_end: 0, vis_end: 0,
        sig: br(sig.span()).start..br(block.span()).start, block: block.clone(), sigast: sig.clone(),
    };
    fn items<'a>(v: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) { for i in v { out.push(i) } }
    let mut all = vec![];
    items(&src.file.items, &mut all);
    if let Some(rest) = path.strip_prefix('<') {
        let (imp, m) = rest.rsplit_once(">::").unwrap();
        let (tr, ty) = imp.split_once(" for ").unwrap();
        for it in all {
            if let syn::Item::Impl(im) = it {
                let Some((_, trp, _)) = &im.trait_ else { continue };
                if norm(&t[br(trp.span())]) != norm(tr) || norm(&t[br(im.self_ty.span())]) != norm(ty) { continue }
                for x in &im.items { if let syn::ImplItem::Fn(f) = x { if f.sig.ident == m {
                    let mut head = format!("impl {} for {} {{\n", &t[br(trp.span())], &t[br(im.self_ty.span())]);
                    for y in &im.items { if let syn::ImplItem::Type(y) = y { head.push_str(&t[br(y.span())]); head.push('\n') } }
                    return Some(mk(&f.sig, &f.block, head, "}\n".into()));
                } } }
            }
        }
        return None;
    }
    if let Some((ty, m)) = path.split_once("::") {
        for it in all {
            if let syn::Item::Impl(im) = it {
                if im.trait_.is_some() || norm(&t[br(im.self_ty.span())]) != ty { continue }
                for x in &im.items { if let syn::ImplItem::Fn(f) = x { if f.sig.ident == m {
                    return Some(mk(&f.sig, &f.block, format!("impl {ty} {{\n"), "}\n".into()));
                } } }
            }
        }
        return None;
    }
    for it in all { if let syn::Item::Fn(f) = it { if f.sig.ident == path { return Some(mk(&f.sig, &f.block, String::new(), String::new())) } } }
    None
}

// ------------------------------------------------------------------ structure of a body
#[derive(Default)]
struct Shape { loops: Vec<String>, locals: Vec<String> }
struct ShapeV<'a>(&'a mut Shape);
impl<'a, 'b> Visit<'b> for ShapeV<'a> {
    fn visit_expr_for_loop(&mut self, x: &'b syn::ExprForLoop) { self.0.loops.push("for".into()); syn::visit::visit_expr_for_loop(self, x) }
    fn visit_expr_while(&mut self, x: &'b syn::ExprWhile) { self.0.loops.push("while".into()); syn::visit::visit_expr_while(self, x) }
    fn visit_expr_loop(&mut self, x: &'b syn::ExprLoop) { self.0.loops.push("loop".into()); syn::visit::visit_expr_loop(self, x) }
    fn visit_pat_ident(&mut self, x: &'b syn::PatIdent) {
        let n = x.ident.to_string();
        if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') { self.0.locals.push(n) }
    }
    fn visit_expr_closure(&mut self, x: &'b syn::ExprClosure) { self.0.loops.push("closure".into()); syn::visit::visit_expr_closure(self, x) }
}
fn shape(sig: &syn::Signature, b: &syn::Block) -> Shape {
    let mut s = Shape::default();
    for i in &sig.inputs { if let syn::FnArg::Typed(p) = i { ShapeV(&mut s).visit_pat(&p.pat) } }
    ShapeV(&mut s).visit_block(b);
    s
}

// ------------------------------------------------------------------ AST edits
fn float_call(digits: &str) -> String {
    let (m, e) = digits.split_once(['e', 'E']).map(|(a, b)| (a.to_string(), b.parse::<i32>().unwrap())).unwrap_or((digits.to_string(), 0));
    let (a, b) = m.split_once('.').map(|(a, b)| (a.to_string(), b.trim_end_matches('0').to_string())).unwrap_or((m.clone(), String::new()));
    let mut num: u128 = format!("{a}{b}").parse().unwrap_or(0);
    let mut den: u128 = 10u128.pow(b.len() as u32);
    if e > 0 { num *= 10u128.pow(e as u32) } else { den *= 10u128.pow((-e) as u32) }
    if num % den == 0 { format!("f64_of({})", num / den) } else { format!("f64_lit({num}, {den})") }
}
struct Edit { at: std::ops::Range<usize>, text: String, prio: i32 }
struct Ed<'a> { t: &'a str, edits: Vec<Edit>, nloop: usize, floats: bool, problems: Vec<String>, want: HashMap<String, usize>, probe: bool }
impl<'a> Ed<'a> {
    fn s(&self, r: std::ops::Range<usize>) -> &'a str { &self.t[r] }
    fn put(&mut self, at: std::ops::Range<usize>, text: String, prio: i32) { self.edits.push(Edit { at, text, prio }) }
    fn anchor(&self, name: &str) -> String { match self.want.get(name) { Some(i) => format!(" __anchor!({i}); "), None => String::new() } }
    fn header(&mut self, n: usize, x: &syn::ExprForLoop) -> Option<(String, String)> {
        // (text before the while, "cond", binding) folded into (pre, start)
        let pat = self.s(br(x.pat.span())).to_string();
        let mut e: &syn::Expr = &x.expr;
        loop {
            match e {
                syn::Expr::Paren(p) => e = &p.expr,
                syn::Expr::MethodCall(m) if m.method == "into_iter" && matches!(strip(&m.receiver), syn::Expr::Range(_)) => e = &m.receiver,
                _ => break,
            }
        }
        let (k, en) = (format!("k__{n}"), format!("e__{n}"));
        let bind = |v: String| if pat == "_" { format!(" {k} += 1; ") } else { format!(" let {pat} = {v}; {k} += 1; ") };
        match e {
            syn::Expr::Range(r) => {
                let a = self.s(br(r.start.as_ref()?.span())); let b = self.s(br(r.end.as_ref()?.span()));
                let op = if matches!(r.limits, syn::RangeLimits::Closed(_)) { "<=" } else { "<" };
                Some((format!("let {en} = {b}; let mut {k} = {a}; while {k} {op} {en} "), bind(k.clone())))
            }
            syn::Expr::MethodCall(m) if m.method == "rev" => {
                let syn::Expr::Range(r) = strip(&m.receiver) else { return None };
                let a = self.s(br(r.start.as_ref()?.span())); let b = self.s(br(r.end.as_ref()?.span()));
                let plus = if matches!(r.limits, syn::RangeLimits::Closed(_)) { " + 1" } else { "" };
                Some((format!("let {en} = {a}; let mut {k} = {b}{plus}; while {k} > {en} "), if pat == "_" { format!(" {k} -= 1; ") } else { format!(" {k} -= 1; let {pat} = {k}; ") }))
            }
            syn::Expr::MethodCall(m) if m.method == "step_by" => {
                let syn::Expr::Range(r) = strip(&m.receiver) else { return None };
                let a = self.s(br(r.start.as_ref()?.span())); let b = self.s(br(r.end.as_ref()?.span()));
                let st = self.s(br(m.args.first()?.span()));
                let op = if matches!(r.limits, syn::RangeLimits::Closed(_)) { "<=" } else { "<" };
                Some((format!("let {en} = {b}; let mut {k} = {a}; while {k} {op} {en} "), format!(" let {pat} = {k}; {k} += {st}; ")))
            }
            syn::Expr::MethodCall(m) if m.method == "zip" => {
                let (a, ma) = self.elems(&m.receiver)?; let (b, mb) = self.elems_or_owned(m.args.first()?);
                let syn::Pat::Tuple(pt) = &*x.pat else { return None };
                let (p1, p2) = (self.s(br(pt.elems[0].span())), self.s(br(pt.elems[1].span())));
                let f = |p: &str, m: &str, e: &str| format!("let {p} = {}{e}[{k}]; ", if m == "own" { "" } else if m == "mut" { "&mut " } else { "&" });
                Some((format!("let mut {k}: usize = 0; while {k} < {a}.len() && {k} < {b}.len() "), format!(" {}{}{k} += 1; ", f(p1, ma, &a), f(p2, mb, &b))))
            }
            syn::Expr::MethodCall(m) if m.method == "enumerate" => {
                let (a, mu) = self.elems(&m.receiver)?;
                let syn::Pat::Tuple(pt) = &*x.pat else { return None };
                let (p1, p2) = (self.s(br(pt.elems[0].span())), self.s(br(pt.elems[1].span())));
                Some((format!("let mut {k}: usize = 0; while {k} < {a}.len() "), format!(" let {p1} = {k}; let {p2} = {}{a}[{k}]; {k} += 1; ", if mu == "mut" { "&mut " } else { "&" })))
            }
            syn::Expr::MethodCall(m) if m.method == "iter" || m.method == "iter_mut" => {
                let (a, mu) = self.elems(e)?;
                Some((format!("let mut {k}: usize = 0; while {k} < {a}.len() "), self.elem_bind(&x.pat, &pat, mu, &a, &k)))
            }
            syn::Expr::Reference(rf) => {
                if let syn::Expr::Index(ix) = &*rf.expr { if let syn::Expr::Range(r) = strip(&ix.index) {
                    let a = self.s(br(ix.expr.span()));
                    let lo = r.start.as_ref().map_or("0", |z| self.s(br(z.span())));
                    let hi = match &r.end { Some(z) => self.s(br(z.span())).to_string(), None => format!("{a}.len()") };
                    if matches!(r.limits, syn::RangeLimits::Closed(_)) { return None }
                    return Some((format!("let {en}: usize = {hi}; let mut {k}: usize = {lo}; while {k} < {en} "), self.elem_bind(&x.pat, &pat, if rf.mutability.is_some() { "mut" } else { "ref" }, a, &k)));
                } }
                let a = self.s(br(rf.expr.span()));
                Some((format!("let mut {k}: usize = 0; while {k} < {a}.len() "), self.elem_bind(&x.pat, &pat, if rf.mutability.is_some() { "mut" } else { "ref" }, a, &k)))
            }
            _ => None,
        }
    }
    fn elem_bind(&self, p: &syn::Pat, pat: &str, mu: &str, a: &str, k: &str) -> String {
        // `for &x in ..`
        if let syn::Pat::Reference(r) = p { return format!(" let {} = {a}[{k}]; {k} += 1; ", self.s(br(r.pat.span()))) }
        format!(" let {pat} = {}{a}[{k}]; {k} += 1; ", if mu == "mut" { "&mut " } else { "&" })
    }
    fn elems(&self, e: &syn::Expr) -> Option<(String, &'static str)> {
        match strip(e) {
            syn::Expr::MethodCall(m) if m.method == "iter" => Some((self.s(br(m.receiver.span())).into(), "ref")),
            syn::Expr::MethodCall(m) if m.method == "iter_mut" => Some((self.s(br(m.receiver.span())).into(), "mut")),
            syn::Expr::Reference(r) => Some((self.s(br(r.expr.span())).into(), if r.mutability.is_some() { "mut" } else { "ref" })),
            _ => None,
        }
    }
    fn elems_or_owned(&self, e: &syn::Expr) -> (String, &'static str) { self.elems(e).unwrap_or((self.s(br(e.span())).into(), "own")) }
}
fn strip(e: &syn::Expr) -> &syn::Expr { match e { syn::Expr::Paren(p) => strip(&p.expr), e => e } }

impl<'a, 'b> Visit<'b> for Ed<'a> {
    fn visit_expr_for_loop(&mut self, x: &'b syn::ExprForLoop) {
        let n = self.nloop + 1; self.nloop = n;
        let whole = br(x.span()); let open = br(x.body.brace_token.span.open()); let close = br(x.body.brace_token.span.close());
        let start = if x.label.is_some() { br(x.for_token.span()).start } else { whole.start };
        match self.header(n, x) {
            Some((pre, bind)) => {
                // a label stays in front of the while
                let (decl, wh) = pre.split_at(pre.rfind("while ").unwrap());
                let label = x.label.as_ref().map_or(String::new(), |l| self.s(br(l.span())).to_string());
                let from = if x.label.is_some() { whole.start } else { start };
                let p0 = self.anchor(&format!("loop {n} pre"));
                let p1 = self.anchor(&format!("loop {n} start"));
                let probe = if self.probe { " __probe!(); " } else { "" };
                self.put(from..open.end, format!("{{ {decl}{p0}{label} {wh}{{ __loopspec!({n}); {probe}{bind}{p1}"), 0);
                let pe = self.anchor(&format!("loop {n} end")); let pp = self.anchor(&format!("loop {n} post"));
                self.put(close.clone(), format!("{pe}}} {pp} }}"), 0);
            }
            None => self.problems.push(format!("loop {n}: `for` over `{}` has no desugaring", self.s(br(x.expr.span())))),
        }
        self.visit_block(&x.body);
    }
    fn visit_expr_while(&mut self, x: &'b syn::ExprWhile) {
        let n = self.nloop + 1; self.nloop = n;
        let px = self.anchor(&format!("loop {n} exit"));
        if !px.is_empty() && !matches!(*x.cond, syn::Expr::Let(_)) {
            // while c { b }  is  loop { if !(c) { break } b }
            let w = br(x.while_token.span()); let c = br(x.cond.span());
            self.put(w, "loop".into(), 0);
            let open = br(x.body.brace_token.span.open()); let close = br(x.body.brace_token.span.close());
            let p0 = self.anchor(&format!("loop {n} pre"));
            if !p0.is_empty() { self.put(br(x.span()).start..br(x.span()).start, format!("{{ {p0}"), -5) }
            let p1 = self.anchor(&format!("loop {n} start"));
            let probe = if self.probe { " __probe!(); " } else { "" };
            self.put(c.start..c.start, format!("{{ __loopspec!({n}); {probe}{p1} if !("), -5);
            self.put(c.end..open.end, format!(") {{ {px} break; }} "), 5);
            let pe = self.anchor(&format!("loop {n} end")); let pp = self.anchor(&format!("loop {n} post"));
            self.put(close, format!("{pe}}} {pp}{}", if p0.is_empty() { "" } else { " }" }), 0);
            self.visit_expr(&x.cond);
            self.visit_block(&x.body);
            return;
        }
        self.plain(n, br(x.span()), &x.body);
        self.visit_expr(&x.cond);
        self.visit_block(&x.body);
    }
    fn visit_expr_loop(&mut self, x: &'b syn::ExprLoop) {
        let n = self.nloop + 1; self.nloop = n;
        self.plain(n, br(x.span()), &x.body);
        self.visit_block(&x.body);
    }
    fn visit_expr_closure(&mut self, x: &'b syn::ExprClosure) { self.nloop += 1; syn::visit::visit_expr_closure(self, x) }
    fn visit_expr_cast(&mut self, x: &'b syn::ExprCast) {
        if self.floats && norm(self.s(br(x.ty.span()))) == "f64" {
            let r = br(x.span()); let e = br(x.expr.span());
            self.put(r.start..r.start, "f64_of((".into(), 10);
            self.put(e.end..r.end, ") as u128)".into(), 0);
        }
        syn::visit::visit_expr_cast(self, x)
    }
    fn visit_expr_lit(&mut self, x: &'b syn::ExprLit) { self.lit(&x.lit); }
    fn visit_macro(&mut self, x: &'b syn::Macro) {
        if !self.floats { return }
        let mut todo: Vec<proc_macro2::TokenTree> = x.tokens.clone().into_iter().collect();
        while let Some(t) = todo.pop() {
            match t {
                proc_macro2::TokenTree::Group(g) => todo.extend(g.stream()),
                proc_macro2::TokenTree::Literal(l) => { let sp = l.span(); let mut y = syn::Lit::new(l); y.set_span(sp); self.lit(&y) }
                _ => {}
            }
        }
    }
    fn visit_stmt(&mut self, x: &'b syn::Stmt) { syn::visit::visit_stmt(self, x) }
}
impl<'a> Ed<'a> {
    fn lit(&mut self, l: &syn::Lit) {
        if !self.floats { return }
        let (digits, r) = match l {
            syn::Lit::Float(f) => (f.base10_digits().to_string(), br(f.span())),
            syn::Lit::Int(i) if i.suffix() == "f64" => (i.base10_digits().to_string(), br(i.span())),
            _ => return,
        };
        self.put(r, float_call(&digits), 0);
    }
    fn plain(&mut self, n: usize, whole: std::ops::Range<usize>, body: &syn::Block) {
        let open = br(body.brace_token.span.open()); let close = br(body.brace_token.span.close());
        let p0 = self.anchor(&format!("loop {n} pre"));
        if !p0.is_empty() { self.put(whole.start..whole.start, format!("{{ {p0}"), -5) }
        let p1 = self.anchor(&format!("loop {n} start"));
        let probe = if self.probe { " __probe!(); " } else { "" };
        self.put(open, format!("{{ __loopspec!({n}); {probe}{p1}"), 0);
        let pe = self.anchor(&format!("loop {n} end")); let pp = self.anchor(&format!("loop {n} post"));
        let tail = if p0.is_empty() { String::new() } else { " }".into() };
        self.put(close, format!("{pe}}} {pp}{tail}"), 0);
    }
}

// statements containing a token sequence
struct StmtFind<'a> { t: &'a str, pat: String, hits: Vec<std::ops::Range<usize>>, semis: Vec<bool> }
impl<'a, 'b> Visit<'b> for StmtFind<'a> {
    fn visit_block(&mut self, b: &'b syn::Block) {
        for (i, s) in b.stmts.iter().enumerate() {
            let before = self.hits.len();
            syn::visit::visit_stmt(self, s);
            if self.hits.len() == before {
                let r = br(s.span());
                if norm(&self.t[r.clone()]).contains(&self.pat) {
                    let last = i + 1 == b.stmts.len();
                    let tail = matches!(s, syn::Stmt::Expr(_, None)) && last;
                    self.hits.push(r); self.semis.push(!tail);
                }
            }
        }
    }
}

fn apply(text: &str, range: std::ops::Range<usize>, mut edits: Vec<Edit>) -> String {
    edits.sort_by_key(|e| (e.at.start, e.at.end, e.prio));
    let mut out = String::new();
    let mut pos = range.start;
    for e in edits {
        if e.at.start < pos { // nested inside something already replaced (a `for` header): skip
            continue;
        }
        out.push_str(&text[pos..e.at.start]);
        out.push_str(&e.text);
        pos = e.at.end;
    }
    out.push_str(&text[pos..range.end]);
    out
}

fn rename_words(s: &str, m: &HashMap<String, String>) -> String {
    if m.is_empty() { return s.into() }
    let mut out = String::new();
    let mut w = String::new();
    let mut prev = ' ';
    for c in s.chars().chain(std::iter::once('\0')) {
        if c.is_alphanumeric() || c == '_' { w.push(c); continue }
        if !w.is_empty() {
            if prev != '.' { out.push_str(m.get(&w).unwrap_or(&w)) } else { out.push_str(&w) }
            w.clear();
        }
        if c != '\0' { out.push(c) }
        prev = c;
    }
    out
}

pub struct Report { fns: Vec<String>, lost: Vec<String>, imports: Vec<String>, probes: usize }

struct Cx<'a> { repo: &'a str, dir: &'a str, sources: HashMap<String, Source>, rep: Report, probe: bool, base: BTreeMap<String, (Vec<String>, Vec<String>)>, included: Vec<String> }
impl<'a> Cx<'a> {
    fn source(&mut self, p: &str) -> Option<&Source> {
        if !self.sources.contains_key(p) {
            let text = std::fs::read_to_string(format!("{}/{p}", self.repo)).ok()?.replace("\r\n", "\n");
            let file = syn::parse_file(&text).ok()?;
            self.sources.insert(p.into(), Source { text, file });
        }
        self.sources.get(p)
    }
    fn lose(&mut self, what: String) { self.rep.lost.push(what) }

    fn emit_fn(&mut self, f: &FnBlock, u: &Unit, external: bool) -> String {
        let key = format!("{}::{}", f.src, f.path);
        let probe = self.probe && !external && !f.external;
        let base = self.base.get(&key).cloned();
        if self.source(&f.src).is_none() { self.lose(format!("{key}: source not readable")); return String::new() }
        let src = &self.sources[&f.src];
        let Some(fo) = find_fn(src, &f.path) else { self.lose(format!("{key}: function not found")); return String::new() };
        let mut fo = fo;
        if f.inherent { if let Some(k) = fo.head.find(" for ") { fo.head = format!("impl {}", &fo.head[k + 5..]); } }
        let text = src.text.clone();
        let sh = shape(&fo.sigast, &fo.block);
        let mut map = HashMap::new();
        if let Some((locals, loops)) = &base {
            if !external && !f.external && *loops != sh.loops { self.lose(format!("{key}: loops were {loops:?}, are {:?}", sh.loops)) }
            if locals.len() == sh.locals.len() { for (a, b) in locals.iter().zip(&sh.locals) { if a != b { map.insert(a.clone(), b.clone()); } } }
        }
        // ---- signature
        let mut sig = text[fo.sig.clone()].trim_end().to_string();
        if let Some(n) = &f.name { sig = sig.replacen(&format!("fn {}", fo.sigast.ident), &format!("fn {n}"), 1) }
        if f.mutself { let s2 = sig.replacen("&self", "&mut self", 1); sig = s2 }
        if sig.starts_with("const ") { sig = sig["const ".len()..].to_string() }
        if let Some(r) = &f.ret {
            if let Some((a, b)) = sig.rsplit_once("->") { sig = format!("{a}-> ({r}: {})", b.trim()) }
        }
        for (a, b, need) in f.sigrws.iter().chain(u.grws.iter().map(|x| x)) {
            let (s2, n) = rw::rewrite(&sig, &rename_words(a, &map), &rename_words(b, &map));
            let isg = u.grws.iter().any(|g| &g.0 == a);
            if n == 0 && *need && !isg { self.lose(format!("{key}: signature without `{a}`")) }
            sig = s2;
        }
        if u.floats { sig = rw::rewrite(&sig, "f64", "F64").0 }
        let spec = rename_words(&f.spec, &map);
        let attrs = f.attrs.clone();
        if external || f.external {
            return format!("{}{attrs}#[verifier::external_body]\n{sig}\n{spec}{{ unimplemented!() }}\n{}", fo.head, fo.tail);
        }
        // ---- body
        let mut want = HashMap::new();
        for (i, (a, _)) in f.ats.iter().enumerate() { if !a.starts_with("stmt ") { want.insert(a.clone(), i); } }
        let mut ed = Ed { t: &text, edits: vec![], nloop: 0, floats: u.floats, problems: vec![], want, probe };
        ed.visit_block(&fo.block);
        let mut lost = std::mem::take(&mut ed.problems).into_iter().map(|p| format!("{key}: {p}")).collect::<Vec<_>>();
        let nloop = ed.nloop;
        let open = br(fo.block.brace_token.span.open()); let close = br(fo.block.brace_token.span.close());
        let pr = if probe { self.rep.probes += 1 + sh.loops.iter().filter(|l| *l != "closure").count(); " __probe!(); " } else { "" };
        let st = ed.anchor("start");
        ed.put(open.clone(), format!("{{ __fnspec!(); {pr}{st}"), -100);
        // end: before the tail expression
        let en = ed.anchor("end");
        if !en.is_empty() {
            let unit = matches!(fo.sigast.output, syn::ReturnType::Default);
            let at = match fo.block.stmts.last() {
                Some(syn::Stmt::Expr(syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Block(_) | syn::Expr::Unsafe(_), None)) if unit => close.start,
                Some(syn::Stmt::Expr(e, None)) if unit && !matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_)) => { ed.put(br(e.span()).end..br(e.span()).end, ";".into(), 60); close.start }
                Some(syn::Stmt::Expr(e, None)) if !matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_)) => br(e.span()).start, _ => close.start };
            ed.put(at..at, en, -50);
        }
        let tl = ed.anchor("tail");
        if !tl.is_empty() {
            if let Some(syn::Stmt::Expr(e, None)) = fo.block.stmts.last() {
                let r = br(e.span());
                ed.put(r.start..r.start, "let r__ = ".into(), -40);
                ed.put(r.end..r.end, format!("; {tl} r__"), 40);
            } else { lost.push(format!("{key}: no tail expression")) }
        }
        for (i, (a, _)) in f.ats.iter().enumerate() {
            if let Some(r) = a.strip_prefix("stmt ") {
                // stmt `tokens` K before|after
                let p: Vec<&str> = r.rsplitn(3, ' ').collect();
                let (pos, k, pat) = (p[0], p[1].parse::<usize>().unwrap(), p[2].trim().trim_matches('`'));
                let mut sf = StmtFind { t: &text, pat: norm(&rename_words(pat, &map)), hits: vec![], semis: vec![] };
                sf.visit_block(&fo.block);
                match sf.hits.get(k - 1) {
                    None => lost.push(format!("{key}: no statement {k} with `{pat}`")),
                    Some(r) => {
                        if pos == "before" { ed.put(r.start..r.start, format!(" __anchor!({i}); "), -20) }
                        else if !sf.semis[k - 1] { ed.put(r.end..r.end, format!("; __anchor!({i}); "), 20) }
                        else { ed.put(r.end..r.end, format!(" __anchor!({i}); "), 20) }
                    }
                }
            } else if let Some(r) = a.strip_prefix("loop ") {
                let n: usize = r.split(' ').next().unwrap().parse().unwrap();
                if n > nloop { lost.push(format!("{key}: no loop {n}")) }
            }
        }
        for (n, _) in &f.loops { if *n > nloop { lost.push(format!("{key}: no loop {n}")) } }
        let mut range = open.start..close.end;
        let mut cut_tail = String::new();
        if let Some((pat, rep)) = &f.cut {
            let mut sf = StmtFind { t: &text, pat: norm(pat), hits: vec![], semis: vec![] };
            sf.visit_block(&fo.block);
            match sf.hits.first() {
                Some(r) => { range.end = r.start; ed.edits.retain(|e| e.at.end <= r.start); cut_tail = format!("{rep}\n}}\n") }
                None => lost.push(format!("{key}: no statement with `{pat}` to cut at")),
            }
        }
        let mut body = apply(&text, range, ed.edits) + &cut_tail;
        for (a, b, need) in f.rws.iter().chain(u.grws.iter()) {
            let (s2, n) = rw::rewrite(&body, &rename_words(a, &map), &rename_words(b, &map));
            if n == 0 && *need { lost.push(format!("{key}: nothing matches `{a}`")) }
            body = s2;
        }
        if u.floats { body = rw::rewrite(&body, "f64", "F64").0 }
        // ---- insert contracts
        let mut lp: HashMap<usize, String> = HashMap::new();
        for (n, t) in &f.loops { lp.entry(*n).or_default().push_str(&rename_words(t, &map)) }
        body = fill(&body, &spec, &lp, &f.ats.iter().map(|x| rename_words(&x.1, &map)).collect::<Vec<_>>());
        self.rep.lost.extend(lost);
        self.rep.fns.push(f.path.clone());
        format!("{}{}// @@FN {}\n{attrs}{sig}\n{body}\n// @@END\n{}", f.prelude, fo.head, f.path, fo.tail)
    }

    fn emit_item(&mut self, src: &str, kind: &str, name: &str, derive: &str, rws: &[(String, String, bool)], u: &Unit) -> String {
        if self.source(src).is_none() { self.lose(format!("{src}: not readable")); return String::new() }
        let s = &self.sources[src];
        let mut hit = None;
        for it in &s.file.items {
            let (k, id, attrs, vis, r) = match it {
                syn::Item::Struct(x) => ("struct", x.ident.to_string(), &x.attrs, br(x.vis.span()), br(x.span())),
                syn::Item::Enum(x) => ("enum", x.ident.to_string(), &x.attrs, br(x.vis.span()), br(x.span())),
                syn::Item::Const(x) => ("const", x.ident.to_string(), &x.attrs, br(x.vis.span()), br(x.span())),
                syn::Item::Static(x) => ("static", x.ident.to_string(), &x.attrs, br(x.vis.span()), br(x.span())),
                _ => continue,
            };
            if k == kind && id == name {
                let from = attrs.iter().map(|a| br(a.span()).end).max().unwrap_or(r.start);
                let _ = vis;
                // everything public: Verus wants public what a trait's contract mentions
                let mut ins = vec![br(match it { syn::Item::Struct(x) => x.struct_token.span, syn::Item::Enum(x) => x.enum_token.span, syn::Item::Const(x) => x.const_token.span, syn::Item::Static(x) => x.static_token.span, _ => unreachable!() }).start];
                let mut end = r.end;
                let mut lit = String::new();
                if let (true, syn::Item::Const(x)) = (u.floats, it) { if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Float(f), .. }) = &*x.expr { end = br(f.span()).start; lit = format!("{};", float_call(f.base10_digits())) } }
                if let syn::Item::Struct(x) = it { for f in &x.fields { ins.push(match &f.ident { Some(i) => br(i.span()).start, None => br(f.ty.span()).start }) } }
                let mut t = String::new();
                let mut pos = from;
                for i in ins { t.push_str(&s.text[pos..i]); t.push_str("\u{1}pub "); pos = i }
                t.push_str(&s.text[pos..end]);
                t.push_str(&lit);
                hit = Some(t);
            }
        }
        let Some(t) = hit else { self.lose(format!("{src}: no {kind} {name}")); return String::new() };
        let mut t = strip_doc(&t);
        t = t.replace("pub(crate)", "").split('\u{1}').map(|p| if p.trim_end().ends_with("pub") && !p.trim().is_empty() { let q = p.trim_end(); q[..q.len() - 3].to_string() } else { p.to_string() }).collect::<Vec<_>>().concat();
        for (a, b, need) in rws { let (s2, n) = rw::rewrite(&t, a, b); if n == 0 && *need { self.lose(format!("{src} {name}: nothing matches `{a}`")) } t = s2 }
        for (a, b, _) in &u.grws { t = rw::rewrite(&t, a, b).0 }
        if u.floats { t = rw::rewrite(&t, "f64", "F64").0 }
        let d = if derive.is_empty() { String::new() } else { format!("#[derive({derive})]\n") };
        format!("{d}{}\n", t.trim_start())
    }

    fn emit_unit(&mut self, unit: &str) -> String {
        let u = parse_unit(self.dir, unit);
        self.emit_parts(&u)
    }
    fn emit_parts(&mut self, u: &Unit) -> String {
        let mut out = String::new();
        for p in &u.parts {
            match p {
                Part::Text(t) => out.push_str(&t.replace("@REPO@", self.repo)),
                Part::Item { src, kind, name, derive, rws } => out.push_str(&self.emit_item(src, kind, name, derive, rws, u)),
                Part::Fn(f) => out.push_str(&self.emit_fn(f, u, false)),
                Part::Include(n) => {
                    if self.included.contains(n) { continue }
                    self.included.push(n.clone());
                    let v = parse_unit(self.dir, n);
                    out.push_str(&self.emit_parts(&v));
                }
                Part::Import(x) => {
                    let (un, path) = x.split_once(' ').unwrap();
                    let v = parse_unit(self.dir, un);
                    let f = v.parts.iter().find_map(|p| match p { Part::Fn(f) if f.path == path.trim() => Some(f.clone()), _ => None }).unwrap_or_else(|| panic!("import: {x}"));
                    let w = Unit { floats: u.floats, grws: v.grws.clone(), parts: vec![] };
                    out.push_str(&self.emit_fn(&f, &w, true));
                    self.rep.imports.push(format!("{un}::{}", path.trim()));
                }
            }
        }
        out
    }
}

fn strip_doc(t: &str) -> String { t.lines().filter(|l| !l.trim_start().starts_with("//")).filter(|l| !l.trim_start().starts_with("#[")).collect::<Vec<_>>().join("\n") }

/// replace the placeholders by the texts of the contract file
fn fill(body: &str, spec: &str, loops: &HashMap<usize, String>, ats: &[String]) -> String {
    let mut out = body.to_string();
    // { __loopspec!(n);  ->  spec {
    loop {
        let Some(p) = out.find("__loopspec!(") else { break };
        let e = p + out[p..].find(");").unwrap();
        let n: usize = out[p + "__loopspec!(".len()..e].trim().parse().unwrap();
        let b = out[..p].rfind('{').unwrap();
        out = format!("{}\n{}{{{}", &out[..b], loops.get(&n).map_or("", |s| s), &out[e + 2..]);
    }
    let p = out.find("__fnspec!();").unwrap();
    let b = out[..p].rfind('{').unwrap();
    out = format!("{}\n{spec}{{{}", &out[..b], &out[p + "__fnspec!();".len()..]);
    loop {
        let Some(p) = out.find("__anchor!(") else { break };
        let e = p + out[p..].find(");").unwrap();
        let n: usize = out[p + "__anchor!(".len()..e].trim().parse().unwrap();
        out = format!("{}\n{}{}", &out[..p], ats[n], &out[e + 2..]);
    }
    out
}

/// each probe asserts a fact of its own that cannot be shown, so that no probe hides another
fn probes(text: String, on: bool) -> String {
    if !on { return text.replace("__probe!();", ""); }
    let mut out = String::new();
    for (n, x) in text.split("__probe!();").enumerate() { if n > 0 { out += &format!("proof {{ assert(reached__({n})); }}"); } out += x; }
    match out.rfind("} // verus!") { Some(p) => format!("{}pub uninterp spec fn reached__(n: int) -> bool;\n{}", &out[..p], &out[p..]), None => out }
}

fn js(s: &str) -> String { format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ")) }
fn jl(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "baseline" {
        let mut out = BTreeMap::new();
        let mut names: Vec<_> = std::fs::read_dir(&a[2]).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).filter(|n| n.ends_with(".vrs")).collect();
        names.sort();
        for n in names {
            let u = parse_unit(&a[2], n.trim_end_matches(".vrs"));
            for p in &u.parts { if let Part::Fn(f) = p {
                let text = std::fs::read_to_string(format!("{}/{}", a[3], f.src)).unwrap().replace("\r\n", "\n");
                let s = Source { file: syn::parse_file(&text).unwrap(), text };
                let fo = find_fn(&s, &f.path).unwrap_or_else(|| panic!("no {}", f.path));
                let sh = shape(&fo.sigast, &fo.block);
                out.insert(format!("{}::{}", f.src, f.path), sh);
            } }
        }
        let mut t = String::new();
        for (k, v) in out { t.push_str(&format!("{k}\t{}\t{}\n", v.locals.join(","), v.loops.join(","))) }
        std::fs::write(&a[4], t).unwrap();
        return;
    }
    let (unit, dir, repo, out) = (&a[2], &a[3], &a[4], &a[5]);
    let mut base = BTreeMap::new();
    let sp = |s: &str| -> Vec<String> { if s.is_empty() { vec![] } else { s.split(',').map(|x| x.to_string()).collect() } };
    if let Ok(t) = std::fs::read_to_string(format!("{dir}/baseline.tsv")) {
        for l in t.lines() { let p: Vec<&str> = l.split('\t').collect(); base.insert(p[0].to_string(), (sp(p[1]), sp(p[2]))); }
    }
    let mut cx = Cx { repo, dir, sources: HashMap::new(), rep: Report { fns: vec![], lost: vec![], imports: vec![], probes: 0 }, probe: a.iter().any(|x| x == "--probe"), base, included: vec![] };
    let text = cx.emit_unit(unit);
    std::fs::write(out, probes(text, cx.probe)).unwrap();
    println!("{{\"unit\":{},\"functions\":{},\"lost\":{},\"imports\":{},\"probes\":{}}}", js(unit), jl(&cx.rep.fns), jl(&cx.rep.lost), jl(&cx.rep.imports), cx.rep.probes);
}
