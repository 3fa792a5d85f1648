//! Token-level rewrite rules `PATTERN ==> REPLACEMENT`; `$x` matches one token tree, `$x...` a
//! shortest run of token trees.
use proc_macro2::{Group, TokenStream, TokenTree};
use std::collections::HashMap;

#[derive(Clone)]
pub struct Rule {
    pub text: String,
    pat: Vec<Pat>,
    rep: Vec<Pat>,
}

#[derive(Clone, Debug)]
enum Pat {
    Tok(TokenTree),
    Group(proc_macro2::Delimiter, Vec<Pat>),
    One(String),
    Many(String),
}

fn to_pats(ts: TokenStream) -> Vec<Pat> {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                let name = toks[i + 1].to_string();
                let many = i + 4 < toks.len() + 0
                    && toks[i + 2..(i + 5).min(toks.len())]
                        .iter()
                        .all(|t| matches!(t, TokenTree::Punct(p) if p.as_char()=='.'))
                    && toks[i + 2..(i + 5).min(toks.len())].len() == 3;
                if many {
                    out.push(Pat::Many(name));
                    i += 5;
                } else {
                    out.push(Pat::One(name));
                    i += 2;
                }
            }
            TokenTree::Group(g) => {
                out.push(Pat::Group(g.delimiter(), to_pats(g.stream())));
                i += 1;
            }
            t => {
                out.push(Pat::Tok(t.clone()));
                i += 1;
            }
        }
    }
    out
}

type Binds = HashMap<String, Vec<TokenTree>>;

fn tok_eq(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Ident(x), TokenTree::Ident(y)) => x == y,
        (TokenTree::Punct(x), TokenTree::Punct(y)) => x.as_char() == y.as_char(),
        (TokenTree::Literal(x), TokenTree::Literal(y)) => x.to_string() == y.to_string(),
        _ => false,
    }
}

/// Matches `pat` at the start of `toks`; returns the number of tokens consumed.
fn m(pat: &[Pat], toks: &[TokenTree], b: &Binds, full: bool) -> Option<(usize, Binds)> {
    if pat.is_empty() {
        if full && !toks.is_empty() {
            return None;
        }
        return Some((0, b.clone()));
    }
    match &pat[0] {
        Pat::Tok(t) => {
            if toks.is_empty() || !tok_eq(t, &toks[0]) {
                return None;
            }
            m(&pat[1..], &toks[1..], b, full).map(|(n, b)| (n + 1, b))
        }
        Pat::Group(d, inner) => {
            if let Some(TokenTree::Group(g)) = toks.first() {
                if g.delimiter() != *d {
                    return None;
                }
                let it: Vec<TokenTree> = g.stream().into_iter().collect();
                let (_, b2) = m(inner, &it, b, true)?;
                m(&pat[1..], &toks[1..], &b2, full).map(|(n, b)| (n + 1, b))
            } else {
                None
            }
        }
        Pat::One(n) => {
            let t = toks.first()?;
            let mut b2 = b.clone();
            if let Some(prev) = b.get(n) {
                let a: TokenStream = prev.iter().cloned().collect();
                if a.to_string() != t.to_string() {
                    return None;
                }
            }
            b2.insert(n.clone(), vec![t.clone()]);
            m(&pat[1..], &toks[1..], &b2, full).map(|(n, b)| (n + 1, b))
        }
        Pat::Many(n) => {
            for k in 0..=toks.len() {
                let mut b2 = b.clone();
                b2.insert(n.clone(), toks[..k].to_vec());
                if let Some((used, b3)) = m(&pat[1..], &toks[k..], &b2, full) {
                    return Some((used + k, b3));
                }
            }
            None
        }
    }
}

fn subst(rep: &[Pat], b: &Binds, rule: &Rule) -> Vec<TokenTree> {
    let mut out = vec![];
    for r in rep {
        match r {
            Pat::Tok(t) => out.push(t.clone()),
            Pat::Group(d, inner) => {
                let ts: TokenStream = subst(inner, b, rule).into_iter().collect();
                out.push(TokenTree::Group(Group::new(*d, ts)));
            }
            Pat::One(n) | Pat::Many(n) => {
                let ts: TokenStream = b.get(n).cloned().unwrap_or_default().into_iter().collect();
                out.extend(one(rule, ts));
            }
        }
    }
    out
}

fn one(rule: &Rule, ts: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < toks.len() {
        if let Some((n, b)) = m(&rule.pat, &toks[i..], &HashMap::new(), false) {
            if n > 0 {
                out.extend(subst(&rule.rep, &b, rule));
                i += n;
                continue;
            }
        }
        match &toks[i] {
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), one(rule, g.stream()));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng))
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

impl Rule {
    pub fn parse(s: &str) -> Rule {
        let (a, b) = s.split_once("==>").expect("==>");
        Rule {
            text: s.trim().to_string(),
            pat: to_pats(a.parse().expect("pattern")),
            rep: to_pats(b.parse().expect("replacement")),
        }
    }
}

pub fn apply(rules: &[Rule], ts: TokenStream) -> TokenStream {
    let mut ts = ts;
    for r in rules {
        ts = one(r, ts);
    }
    ts
}
