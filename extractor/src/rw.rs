//! Token rewriting that keeps the source text of everything it does not match.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::HashMap;

#[derive(Clone, Debug)]
enum P { Tok(String), Var(String), Group(Delimiter, Vec<P>) }

fn pat(ts: TokenStream) -> Vec<P> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => { i += 1; out.push(P::Var(v[i].to_string())) }
            TokenTree::Group(g) => out.push(P::Group(g.delimiter(), pat(g.stream()))),
            t => out.push(P::Tok(t.to_string())),
        }
        i += 1;
    }
    out
}
type B = HashMap<String, (usize, usize)>; // byte ranges of the matched text
fn m(p: &[P], t: &[TokenTree], whole: bool, b: &mut B) -> Option<usize> {
    if p.is_empty() { return if !whole || t.is_empty() { Some(0) } else { None } }
    match &p[0] {
        P::Tok(s) => { if t.is_empty() || matches!(t[0], TokenTree::Group(_)) || t[0].to_string() != *s { return None } m(&p[1..], &t[1..], whole, b).map(|n| n + 1) }
        P::Group(d, q) => match t.first() {
            Some(TokenTree::Group(g)) if g.delimiter() == *d => {
                let v: Vec<TokenTree> = g.stream().into_iter().collect();
                let save = b.clone();
                if m(q, &v, true, b).is_none() { *b = save; return None }
                m(&p[1..], &t[1..], whole, b).map(|n| n + 1)
            }
            _ => None,
        },
        P::Var(name) => {
            // the rest of a group, or as little as possible
            for n in 1..=t.len() {
                if !whole && p.len() == 1 && n > 1 { return None }
                // $one_..: a single token
                if name.starts_with("one") && n > 1 { return None }
                let save = b.clone();
                b.insert(name.clone(), (t[0].span().byte_range().start, t[n - 1].span().byte_range().end));
                if let Some(k) = m(&p[1..], &t[n..], whole, b) { return Some(n + k) }
                *b = save;
                // never across a statement or an argument end
                if let TokenTree::Punct(x) = &t[n - 1] { if x.as_char() == ';' || x.as_char() == ',' { return None } }
            }
            None
        }
    }
}
fn subst(rep: &str, b: &B, text: &str, p: &[P], out: &str, n: &mut usize) -> String {
    let mut s = String::new();
    let mut it = rep.char_indices().peekable();
    while let Some((_, c)) = it.next() {
        if c == '$' {
            let mut w = String::new();
            while let Some((_, d)) = it.peek() { if d.is_alphanumeric() || *d == '_' { w.push(*d); it.next(); } else { break } }
            match b.get(&w) { Some((x, y)) => s.push_str(&go(&text[*x..*y], p, out, n)), None => { s.push('$'); s.push_str(&w) } }
        } else { s.push(c) }
    }
    s
}
fn seq(t: &[TokenTree], text: &str, from: usize, to: usize, p: &[P], rep: &str, n: &mut usize) -> String {
    let mut out = String::new();
    let mut pos = from;
    let mut i = 0;
    while i < t.len() {
        let r = t[i].span().byte_range();
        out.push_str(&text[pos..r.start]);
        let mut b = B::new();
        if let Some(k) = m(p, &t[i..], false, &mut b) {
            *n += 1;
            out.push_str(&subst(rep, &b, text, p, rep, n));
            pos = t[i + k - 1].span().byte_range().end;
            i += k;
            continue;
        }
        if let TokenTree::Group(g) = &t[i] {
            let v: Vec<TokenTree> = g.stream().into_iter().collect();
            let (o, c) = (g.span_open().byte_range(), g.span_close().byte_range());
            if g.delimiter() == Delimiter::None { out.push_str(&text[r.clone()]) } else {
                out.push_str(&text[o.clone()]);
                out.push_str(&seq(&v, text, o.end, c.start, p, rep, n));
                out.push_str(&text[c]);
            }
        } else { out.push_str(&text[r.clone()]) }
        pos = r.end;
        i += 1;
    }
    out.push_str(&text[pos..to]);
    out
}
fn go(text: &str, p: &[P], rep: &str, n: &mut usize) -> String {
    let ts: TokenStream = text.parse().unwrap_or_else(|e| panic!("cannot tokenize {text}: {e}"));
    let v: Vec<TokenTree> = ts.into_iter().collect();
    // byte ranges are relative to a global map in fallback mode: rebase
    let base = v.first().map_or(0, |t| t.span().byte_range().start);
    let lead = text.len() - text.trim_start().len();
    let _ = (base, lead);
    seq(&v, text, 0, text.len(), p, rep, n)
}
pub fn rewrite(text: &str, pattern: &str, rep: &str) -> (String, usize) {
    let p = pat(pattern.parse().unwrap_or_else(|e| panic!("pattern {pattern}: {e}")));
    let mut n = 0;
    let s = go(text, &p, rep, &mut n);
    (s, n)
}
