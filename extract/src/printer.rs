//! Prints a token stream, expanding the markers left by the extractor into Verus clauses.
use crate::Sections;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    s: &'a Sections,
    out: String,
}

fn num(t: &TokenTree) -> usize {
    t.to_string().parse().unwrap()
}

impl<'a> Printer<'a> {
    pub fn new(s: &'a Sections) -> Self {
        Printer { s, out: String::new() }
    }
    pub fn print(mut self, ts: TokenStream) -> String {
        self.stream(ts);
        self.out
    }
    fn stream(&mut self, ts: TokenStream) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            if let TokenTree::Ident(id) = &toks[i] {
                let name = id.to_string();
                if name.starts_with("__v") && i + 2 < toks.len() {
                    if let TokenTree::Group(g) = &toks[i + 2] {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        match name.as_str() {
                            "__viter" => {
                                let n = num(&inner[0]);
                                if self.s.loops.contains_key(&n) {
                                    self.out.push_str(&format!("it{}: ", n));
                                }
                                self.stream(inner[2..].iter().cloned().collect());
                                i += 3;
                                continue;
                            }
                            "__vloop" => {
                                // handled by the enclosing brace group
                                let n = num(&inner[0]);
                                if let Some(t) = self.s.loopstart.get(&n) {
                                    self.out.push_str(t);
                                }
                                i += 4;
                                continue;
                            }
                            "__vloopend" => {
                                let n = num(&inner[0]);
                                if let Some(t) = self.s.loopend.get(&n) {
                                    self.out.push_str(t);
                                }
                                i += 4;
                                continue;
                            }
                            "__vbefore" => {
                                let n = num(&inner[0]);
                                if let Some(t) = self.s.before.get(&n) {
                                    self.out.push_str(t);
                                }
                                i += 4;
                                continue;
                            }
                            "__vafter" => {
                                let n = num(&inner[0]);
                                if let Some(t) = self.s.after.get(&n) {
                                    self.out.push_str(t);
                                }
                                i += 4;
                                continue;
                            }
                            "__vauto" => {
                                // move? ; inputs ; body ; spec
                                let mut parts: Vec<Vec<TokenTree>> = vec![vec![]];
                                for t in inner {
                                    if let TokenTree::Punct(p) = &t {
                                        if p.as_char() == ';' {
                                            parts.push(vec![]);
                                            continue;
                                        }
                                    }
                                    parts.last_mut().unwrap().push(t);
                                }
                                if !parts[0].is_empty() {
                                    self.out.push_str("move ");
                                }
                                self.out.push('|');
                                self.stream(parts[1].iter().cloned().collect());
                                self.out.push_str("| -> (__cr: _) ensures same(__cr, ");
                                self.stream(parts[3].iter().cloned().collect());
                                self.out.push_str(") ");
                                self.stream(parts[2].iter().cloned().collect());
                                i += 3;
                                continue;
                            }
                            "__vclo" => {
                                // N ; move? ; inputs ; body
                                let mut parts: Vec<Vec<TokenTree>> = vec![vec![]];
                                let mut k = 0;
                                for t in inner {
                                    if k < 3 {
                                        if let TokenTree::Punct(p) = &t {
                                            if p.as_char() == ';' {
                                                parts.push(vec![]);
                                                k += 1;
                                                continue;
                                            }
                                        }
                                    }
                                    parts.last_mut().unwrap().push(t);
                                }
                                let n = num(&parts[0][0]);
                                if !parts[1].is_empty() {
                                    self.out.push_str("move ");
                                }
                                // a section may carry its own parameter list: `|x: T| -> (r: R) ensures ..`
                                let sec = self.s.closures[&n].trim().to_string();
                                if !sec.starts_with('|') {
                                    self.out.push('|');
                                    self.stream(parts[2].iter().cloned().collect());
                                    self.out.push_str("| ");
                                }
                                self.out.push_str(&sec);
                                self.out.push_str(" { ");
                                self.stream(parts[3].iter().cloned().collect());
                                self.out.push_str(" } ");
                                i += 3;
                                continue;
                            }
                            _ => {}
                        }
                    }
                }
            }
            match &toks[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{\n", "\n}\n"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        let first: Vec<TokenTree> = g.stream().into_iter().take(3).collect();
                        if let (Some(TokenTree::Ident(id)), Some(TokenTree::Group(gg))) = (first.first(), first.get(2)) {
                            if id == "__vloop" {
                                let n = num(&gg.stream().into_iter().next().unwrap());
                                if let Some(t) = self.s.loops.get(&n) {
                                    self.out.push('\n');
                                    self.out.push_str(t);
                                }
                            }
                        }
                    }
                    self.out.push_str(o);
                    self.stream(g.stream());
                    self.out.push_str(c);
                }
                TokenTree::Punct(p) => {
                    self.out.push(p.as_char());
                    if p.as_char() == ';' {
                        self.out.push('\n');
                    } else if p.spacing() == Spacing::Alone {
                        self.out.push(' ');
                    }
                }
                t => {
                    self.out.push_str(&t.to_string());
                    self.out.push(' ');
                }
            }
            i += 1;
        }
    }
}
