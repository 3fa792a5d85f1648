//! Mechanical extractor: splices functions and type declarations of /repo's current source into a
//! Verus template.  A template is Verus text (trusted stubs, spec functions, lemmas) with directive
//! lines starting with `//@`; every executable body that is verified comes out of /repo through here.
//! See DESIGN.md ("What the extraction does and drops") for the list of transformations.

use proc_macro2::{Delimiter, Group, Ident, Spacing, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use syn::visit_mut::{self, VisitMut};
use syn::*;

mod rewrite;
mod printer;
use printer::Printer;
use rewrite::Rule;

const LOG_MACROS: &[&str] = &[
    "trace", "debug", "info", "warn", "error", "println", "eprintln", "log", "dbg",
];

pub fn fail(msg: &str) -> ! {
    println!("{}", serde_json::json!({"status":"anchor-lost","error":msg}));
    std::process::exit(3)
}

struct SrcFile {
    path: String,
    ast: File,
}

#[derive(Default, Clone)]
pub struct Sections {
    pub contract: String,
    pub start: String,
    pub loops: BTreeMap<usize, String>,
    pub loopstart: BTreeMap<usize, String>,
    pub loopend: BTreeMap<usize, String>,
    pub after: BTreeMap<usize, String>,
    pub before: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub tail: String,
    pub expect_loops: Option<usize>,
}

struct FnDirective {
    alias: String,
    selector: String,
    name: Option<String>,
    world: bool,
    ret: String,
    header: Option<String>,
    generics: Option<String>,
    sig: Option<String>,
    canary: String,
    spawned: Option<usize>,
    desugar: bool,
    desugar_map: bool,
    opt: bool,
    kinds: bool,
    sections: Sections,
    rules: Vec<Rule>,
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn tok_norm<T: ToTokens>(t: &T) -> String {
    norm(&t.to_token_stream().to_string())
}
fn type_last_ident(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_last_ident(&r.elem),
        _ => tok_norm(t),
    }
}

struct Found {
    generics: Generics,
    self_ty: Option<Type>,
    sig: Signature,
    block: Block,
    line: usize,
    end_line: usize,
}

fn items<'a>(its: &'a [Item], out: &mut Vec<&'a Item>) {
    for i in its {
        match i {
            Item::Mod(m) => {
                let is_test = m.attrs.iter().any(|a| tok_norm(a).contains("cfg(test)"));
                if !is_test {
                    if let Some((_, its)) = &m.content {
                        items(its, out)
                    }
                }
            }
            _ => out.push(i),
        }
    }
}

fn find_fn(f: &File, selector: &str) -> Vec<Found> {
    let (tr, rest) = match selector.rsplit_once('@') {
        Some((a, b)) => (Some(norm(a)), b),
        None => (None, selector),
    };
    let (ty, name) = match rest.rsplit_once("::") {
        Some((a, b)) => (a.to_string(), b.to_string()),
        None => (String::new(), rest.to_string()),
    };
    let mut res = vec![];
    let mut its = vec![];
    items(&f.items, &mut its);
    for it in its {
        match it {
            Item::Fn(func) if ty.is_empty() && func.sig.ident == name => res.push(Found {
                generics: Generics::default(),
                self_ty: None,
                sig: func.sig.clone(),
                block: (*func.block).clone(),
                line: func.sig.ident.span().start().line,
                end_line: func.block.brace_token.span.close().end().line,
            }),
            Item::Trait(t) if ty.strip_prefix("trait:").map_or(false, |n| t.ident == n) => {
                for ti in &t.items {
                    if let TraitItem::Fn(m) = ti {
                        if let (true, Some(b)) = (m.sig.ident == name, &m.default) {
                            res.push(Found {
                                generics: t.generics.clone(),
                                self_ty: None,
                                sig: m.sig.clone(),
                                block: b.clone(),
                                line: m.sig.ident.span().start().line,
                                end_line: b.brace_token.span.close().end().line,
                            });
                        }
                    }
                }
            }
            Item::Impl(im) if !ty.is_empty() => {
                if ty.contains("::") {
                    if tok_norm(&im.self_ty) != norm(&ty) {
                        continue;
                    }
                } else if type_last_ident(&im.self_ty) != ty {
                    continue;
                }
                let t = im.trait_.as_ref().map(|(_, p, _)| tok_norm(p));
                let ok = match (&tr, &t) {
                    (None, None) => true,
                    (Some(a), Some(b)) => a == b,
                    _ => false,
                };
                if !ok {
                    continue;
                }
                for ii in &im.items {
                    if let ImplItem::Fn(m) = ii {
                        if m.sig.ident == name {
                            res.push(Found {
                                generics: im.generics.clone(),
                                self_ty: Some((*im.self_ty).clone()),
                                sig: m.sig.clone(),
                                block: m.block.clone(),
                                line: m.sig.ident.span().start().line,
                                end_line: m.block.brace_token.span.close().end().line,
                            });
                        }
                    }
                }
            }
            Item::Trait(t) if !ty.is_empty() && t.ident == ty && tr.is_none() => {
                for ii in &t.items {
                    if let TraitItem::Fn(m) = ii {
                        if m.sig.ident == name && m.default.is_some() {
                            res.push(Found {
                                generics: t.generics.clone(),
                                self_ty: None,
                                sig: m.sig.clone(),
                                block: m.default.clone().unwrap(),
                                line: m.sig.ident.span().start().line,
                                end_line: m.default.as_ref().unwrap().brace_token.span.close().end().line,
                            });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    res
}

#[derive(Clone)]
struct Helper {
    sig: Signature,
    block: Block,
    method: bool,
}

fn collect_helpers(files: &[SrcFile]) -> HashMap<String, Vec<Helper>> {
    let mut m: HashMap<String, Vec<Helper>> = HashMap::new();
    for f in files {
        let mut its = vec![];
        items(&f.ast.items, &mut its);
        for it in its {
            match it {
                Item::Fn(x) => m.entry(x.sig.ident.to_string()).or_default().push(Helper {
                    sig: x.sig.clone(),
                    block: (*x.block).clone(),
                    method: false,
                }),
                Item::Impl(im) if im.trait_.is_none() => {
                    for ii in &im.items {
                        if let ImplItem::Fn(x) = ii {
                            m.entry(x.sig.ident.to_string()).or_default().push(Helper {
                                sig: x.sig.clone(),
                                block: x.block.clone(),
                                method: x.sig.receiver().is_some(),
                            })
                        }
                    }
                }
                _ => {}
            }
        }
    }
    m
}

/// Inlines calls of local helpers that carry no contract in the template (a refactoring that
/// extracts a helper leaves the verified text equivalent).
struct Inliner<'a> {
    helpers: &'a HashMap<String, Vec<Helper>>,
    known: &'a BTreeSet<String>,
    inlined: Vec<String>,
    depth: usize,
    counter: usize,
}

struct HasReturn(bool);
impl<'ast> syn::visit::Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'ast ExprAsync) {}
}

struct ReplaceSelf(Ident);
impl VisitMut for ReplaceSelf {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident("self") {
            let id = &self.0;
            *p = parse_quote!(#id);
        }
    }
}

const STD_METHODS: &[&str] = &[
    "len", "get", "insert", "remove", "push", "pop", "iter", "clone", "new", "send", "notify", "take",
    "is_some", "is_none", "is_ok", "is_err", "map", "unwrap", "contains", "contains_key", "entry", "default",
    "into", "from", "as_ref", "as_mut", "read", "write", "close", "clear", "values", "keys", "retain", "filter",
    "any", "all", "find", "position", "replace", "min", "max", "cmp", "eq", "fmt", "stop", "id", "to_string",
];

impl<'a> Inliner<'a> {
    fn candidate(&self, name: &str, self_recv: bool) -> Option<Helper> {
        if self.known.contains(name) || self.depth > 6 {
            return None;
        }
        if !self_recv && STD_METHODS.contains(&name) {
            return None;
        }
        match self.helpers.get(name) {
            Some(v) if v.len() == 1 => Some(v[0].clone()),
            _ => None,
        }
    }
    fn build(&mut self, h: &Helper, recv: Option<Expr>, args: Vec<Expr>, tail: bool) -> Option<Expr> {
        let mut hr = HasReturn(false);
        syn::visit::Visit::visit_block(&mut hr, &h.block);
        if hr.0 && !tail {
            return None;
        }
        let mut pats: Vec<TokenStream> = vec![];
        let mut vals: Vec<TokenStream> = vec![];
        let mut block = h.block.clone();
        let mut it = args.into_iter();
        for inp in &h.sig.inputs {
            match inp {
                FnArg::Receiver(r) => {
                    let recv = recv.clone()?;
                    let is_self = matches!(&recv, Expr::Path(p) if p.path.is_ident("self"));
                    if !is_self {
                        self.counter += 1;
                        let id = Ident::new(&format!("this_{}", self.counter), Span::call_site());
                        ReplaceSelf(id.clone()).visit_block_mut(&mut block);
                        pats.push(quote!(#id));
                        if r.reference.is_some() {
                            if r.mutability.is_some() {
                                vals.push(quote!(&mut #recv));
                            } else {
                                vals.push(quote!(& #recv));
                            }
                        } else {
                            vals.push(quote!(#recv));
                        }
                    }
                }
                FnArg::Typed(t) => {
                    let a = it.next()?;
                    let p = &t.pat;
                    pats.push(quote!(#p));
                    match (&*t.ty, &a) {
                        (Type::Reference(r), Expr::Path(_)) if r.mutability.is_some() => {
                            vals.push(quote!(&mut *#a))
                        }
                        _ => vals.push(quote!(#a)),
                    }
                }
            }
        }
        self.depth += 1;
        self.visit_block_mut(&mut block);
        self.depth -= 1;
        let stmts = &block.stmts;
        let e: Expr = if pats.is_empty() {
            parse_quote!({ #(#stmts)* })
        } else if pats.len() == 1 {
            let p = &pats[0];
            let v = &vals[0];
            parse_quote!({ let #p = #v; #(#stmts)* })
        } else {
            parse_quote!({ let (#(#pats),*) = (#(#vals),*); #(#stmts)* })
        };
        self.inlined.push(h.sig.ident.to_string());
        Some(e)
    }
    fn try_inline(&mut self, e: &mut Expr, tail: bool) -> bool {
        let new = match e {
            Expr::MethodCall(m) => {
                let is_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                let name = m.method.to_string();
                match self.candidate(&name, is_self) {
                    Some(h) if h.method => {
                        let recv = (*m.receiver).clone();
                        let args: Vec<Expr> = m.args.iter().cloned().collect();
                        self.build(&h, Some(recv), args, tail)
                    }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last().unwrap().clone();
                    let ok = segs.len() == 1 || (segs.len() == 2 && segs[0] == "Self");
                    let lower = name.chars().next().map_or(false, |c| c.is_lowercase());
                    if ok && lower {
                        match self.candidate(&name, true) {
                            Some(h) if !h.method => {
                                let args: Vec<Expr> = c.args.iter().cloned().collect();
                                self.build(&h, None, args, tail)
                            }
                            Some(h) => {
                                // Self::helper(self, ..)
                                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                                if args.is_empty() {
                                    None
                                } else {
                                    let r = args.remove(0);
                                    self.build(&h, Some(r), args, tail)
                                }
                            }
                            _ => None,
                        }
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            _ => None,
        };
        match new {
            Some(n) => {
                *e = n;
                true
            }
            None => false,
        }
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        self.try_inline(e, false);
    }
}

struct StripAwait;
impl VisitMut for StripAwait {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Await(a) = e {
            let base = (*a.base).clone();
            *e = base;
        }
        // `map_err(Variant)` -> `map_err(|x| Variant(x))`
        if let Expr::MethodCall(m) = e {
            for a in m.args.iter_mut() {
                let up = matches!(a, Expr::Path(p) if p.qself.is_none() && p.path.segments.last()
                    .map_or(false, |s| s.ident.to_string().chars().next().unwrap().is_uppercase() && !s.ident.to_string().chars().all(|c| c.is_uppercase() || c == '_')));
                if up && (m.method == "map_err" || m.method == "map" || m.method == "and_then") {
                    let p = a.clone();
                    *a = parse_quote!(|eta| #p(eta));
                }
            }
        }
        match e {
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if LOG_MACROS.contains(&n.as_str()) {
                    *e = parse_quote!(());
                }
            }
            _ => {}
        }
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                !LOG_MACROS.contains(&n.as_str())
            }
            Stmt::Item(Item::Use(_)) => false,
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
    }
}

/// Closure bodies that can be read as a specification: no effects, no arithmetic, known methods only.
fn spec_pure(e: &Expr, pure: &BTreeSet<String>) -> bool {
    let p = |x: &Expr| spec_pure(x, pure);
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => p(&f.base),
        Expr::Paren(x) => p(&x.expr),
        Expr::Reference(r) => r.mutability.is_none() && p(&r.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_) | UnOp::Deref(_)) && p(&u.expr),
        Expr::Binary(b) => {
            matches!(
                b.op,
                BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)
            ) && p(&b.left)
                && p(&b.right)
        }
        Expr::Tuple(t) => t.elems.iter().all(p),
        Expr::Struct(s) => s.rest.is_none() && s.fields.iter().all(|f| p(&f.expr)),
        Expr::Call(c) => {
            let ctor = matches!(&*c.func, Expr::Path(f) if {
                let last = f.path.segments.last().unwrap().ident.to_string();
                last.chars().next().unwrap().is_uppercase() || pure.contains(&last)
            });
            ctor && c.args.iter().all(p)
        }
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            (["len", "is_some", "is_none", "is_ok", "is_err", "clone"].contains(&n.as_str()) || pure.contains(&n))
                && p(&m.receiver)
                && m.args.iter().all(p)
        }
        Expr::Block(b) => b.block.stmts.len() == 1 && matches!(&b.block.stmts[0], Stmt::Expr(x, None) if p(x)),
        Expr::If(i) => {
            p(&i.cond)
                && i.then_branch.stmts.len() == 1
                && matches!(&i.then_branch.stmts[0], Stmt::Expr(x, None) if p(x))
                && i.else_branch.as_ref().map_or(false, |(_, x)| p(x))
        }
        Expr::Match(m) => p(&m.expr) && m.arms.iter().all(|a| a.guard.as_ref().map_or(true, |(_, g)| p(g)) && p(&a.body)),
        _ => false,
    }
}
fn has_mut(p: &Pat) -> bool {
    quote!(#p).into_iter().any(|t| t.to_string() == "mut")
}
struct StripClone;
impl VisitMut for StripClone {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::MethodCall(m) if m.method == "clone" && m.args.is_empty() => Some((*m.receiver).clone()),
            _ => None,
        };
        if let Some(n) = new {
            *e = parse_quote!(#n.vclone());
        }
    }
}
fn optional(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match n.as_str() {
                "get" | "get_mut" | "remove" => m.args.len() == 1,
                "take" | "pop" | "pop_front" | "last" | "first" | "next" => m.args.is_empty(),
                "find" => true,
                "cloned" | "copied" | "as_ref" | "as_mut" => optional(&m.receiver),
                _ => false,
            }
        }
        Expr::Paren(p) => optional(&p.expr),
        Expr::Try(_) => true,
        _ => false,
    }
}
/// Option combinators whose closure takes no argument are matches on the Option:
/// `x.map_or_else(|| a, |p| b)` and `x.unwrap_or_else(|| a)`.
struct OptMatch;
impl VisitMut for OptMatch {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        fn plain(c: &ExprClosure) -> bool {
            let mut hr = HasReturn(false);
            syn::visit::Visit::visit_expr(&mut hr, &c.body);
            !hr.0 && matches!(c.output, ReturnType::Default)
        }
        let new: Option<Expr> = match e {
            Expr::MethodCall(m) if m.method == "map_or_else" && m.args.len() == 2 => match (&m.args[0], &m.args[1]) {
                (Expr::Closure(a), Expr::Closure(b)) if a.inputs.is_empty() && b.inputs.len() == 1 && plain(a) && plain(b) => {
                    let (r, x, p, y) = (&m.receiver, &a.body, &b.inputs[0], &b.body);
                    Some(parse_quote!(match #r { None => #x, Some(#p) => #y, }))
                }
                _ => None,
            },
            // the receiver is an Option (if it is not, the rewritten text does not type-check)
            Expr::MethodCall(m)
                if (m.method == "map" || m.method == "and_then") && m.args.len() == 1 && optional(&m.receiver) =>
            {
                match &m.args[0] {
                    Expr::Closure(b) if b.inputs.len() == 1 && plain(b) => {
                        let (r, p, y) = (&m.receiver, &b.inputs[0], &b.body);
                        if m.method == "map" {
                            Some(parse_quote!(match #r { None => None, Some(#p) => Some(#y), }))
                        } else {
                            Some(parse_quote!(match #r { None => None, Some(#p) => #y, }))
                        }
                    }
                    _ => None,
                }
            }
            Expr::MethodCall(m) if m.method == "unwrap_or_else" && m.args.len() == 1 => match &m.args[0] {
                Expr::Closure(a) if a.inputs.is_empty() && plain(a) => {
                    let (r, x) = (&m.receiver, &a.body);
                    Some(parse_quote!(match #r { None => #x, Some(__u) => __u, }))
                }
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}
/// `matches!(e, p)` is a match (readable both as code and as specification).
struct Matches;
impl VisitMut for Matches {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::Macro(m) if m.mac.path.is_ident("matches") => {
                let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                let comma = toks.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ','));
                comma.and_then(|c| {
                    let l: TokenStream = toks[..c].iter().cloned().collect();
                    let mut r: Vec<TokenTree> = toks[c + 1..].to_vec();
                    if matches!(r.last(), Some(TokenTree::Punct(p)) if p.as_char() == ',') {
                        r.pop();
                    }
                    let r: TokenStream = r.into_iter().collect();
                    syn::parse2::<Expr>(quote!(match #l { #r => true, _ => false })).ok()
                })
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

struct Marker<'a> {
    pure: &'a BTreeSet<String>,
    effects: &'a BTreeSet<String>,
    world: bool,
    loops: usize,
    closures: usize,
    sections: &'a Sections,
}

impl<'a> Marker<'a> {
    fn is_loop(e: &Expr) -> bool {
        matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_))
    }
    fn mark_body(&self, b: &mut Block, n: usize) {
        let inv = Ident::new("__vloop", Span::call_site());
        let end = Ident::new("__vloopend", Span::call_site());
        let n = proc_macro2::Literal::usize_unsuffixed(n);
        // a loop body's tail expression is of unit type: give it a semicolon before appending proof text
        if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() {
            if semi.is_none() {
                *semi = Some(Default::default());
            }
        }
        b.stmts.insert(0, parse_quote!(#inv!(#n);));
        b.stmts.push(parse_quote!(#end!(#n);));
    }
}

impl<'a> VisitMut for Marker<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        let stmts = std::mem::take(&mut b.stmts);
        for mut s in stmts {
            let before = self.loops;
            let top_loop = matches!(&s, Stmt::Expr(e, _) if Self::is_loop(e));
            self.visit_stmt_mut(&mut s);
            let has_after = top_loop && self.sections.after.contains_key(&before);
            if has_after {
                if let Stmt::Expr(_, semi) = &mut s {
                    *semi = Some(Default::default());
                }
            }
            if top_loop && self.sections.before.contains_key(&before) {
                let id = Ident::new("__vbefore", Span::call_site());
                let n = proc_macro2::Literal::usize_unsuffixed(before);
                out.push(parse_quote!(#id!(#n);));
            }
            out.push(s);
            if has_after {
                let id = Ident::new("__vafter", Span::call_site());
                let n = proc_macro2::Literal::usize_unsuffixed(before);
                out.push(parse_quote!(#id!(#n);));
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let n = self.loops;
                self.loops += 1;
                self.visit_expr_mut(&mut f.expr);
                self.visit_block_mut(&mut f.body);
                self.mark_body(&mut f.body, n);
                let ex = &f.expr;
                let l = proc_macro2::Literal::usize_unsuffixed(n);
                f.expr = Box::new(parse_quote!(__viter!(#l, #ex)));
                return;
            }
            Expr::While(f) => {
                let n = self.loops;
                self.loops += 1;
                self.visit_expr_mut(&mut f.cond);
                self.visit_block_mut(&mut f.body);
                self.mark_body(&mut f.body, n);
                return;
            }
            Expr::Loop(f) => {
                let n = self.loops;
                self.loops += 1;
                self.visit_block_mut(&mut f.body);
                self.mark_body(&mut f.body, n);
                return;
            }
            Expr::Closure(c) => {
                let n = self.closures;
                self.closures += 1;
                self.visit_expr_mut(&mut c.body);
                if self.sections.closures.contains_key(&n) {
                    let inputs = &c.inputs;
                    let mv = &c.capture;
                    let body = &c.body;
                    let l = proc_macro2::Literal::usize_unsuffixed(n);
                    *e = parse_quote!(__vclo!(#l; #mv; #inputs; #body));
                } else if spec_pure(&c.body, self.pure) && c.inputs.iter().all(|p| !has_mut(p)) && matches!(c.output, ReturnType::Default) {
                    let mut spec = (*c.body).clone();
                    StripClone.visit_expr_mut(&mut spec);
                    let mv = &c.capture;
                    let body = &c.body;
                    let mut ins: Vec<TokenStream> = vec![];
                    let mut lets: Vec<TokenStream> = vec![];
                    for (i, p) in c.inputs.iter().enumerate() {
                        match p {
                            Pat::Ident(_) => ins.push(quote!(#p)),
                            Pat::Type(t) if matches!(*t.pat, Pat::Ident(_)) => ins.push(quote!(#p)),
                            Pat::Wild(_) => {
                                let id = Ident::new(&format!("__c{}", i), Span::call_site());
                                ins.push(quote!(#id));
                            }
                            Pat::Type(t) => {
                                let id = Ident::new(&format!("__c{}", i), Span::call_site());
                                let (pp, ty) = (&t.pat, &t.ty);
                                ins.push(quote!(#id: #ty));
                                lets.push(quote!(let #pp = #id;));
                            }
                            _ => {
                                let id = Ident::new(&format!("__c{}", i), Span::call_site());
                                ins.push(quote!(#id));
                                lets.push(quote!(let #p = #id;));
                            }
                        }
                    }
                    *e = parse_quote!(__vauto!(#mv; #(#ins),*; { #(#lets)* #body }; { #(#lets)* #spec }));
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if self.world {
            match e {
                Expr::MethodCall(m) if self.effects.contains(&m.method.to_string()) => {
                    m.args.push(parse_quote!(Tracked(&mut *w)));
                }
                Expr::Call(c) => {
                    if let Expr::Path(p) = &*c.func {
                        let full: Vec<String> =
                            p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        let last = full.last().unwrap().clone();
                        if self.effects.contains(&last) || self.effects.contains(&full.join("::")) {
                            c.args.push(parse_quote!(Tracked(&mut *w)));
                        }
                    }
                }
                _ => {}
            }
        }
    }
}

/// `X.map(|p| body).collect()` becomes a block with an explicit loop (closures that update captured
/// variables are outside Verus' subset); opt-in per function with `desugar`.
/// `desugar=map` is the same for a `HashMap` collected from pairs.
struct Desugar(bool);
impl VisitMut for Desugar {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = if let Expr::MethodCall(c) = e {
            if c.method == "collect" && c.args.is_empty() {
                if let Expr::MethodCall(m) = &*c.receiver {
                    if m.method == "map" && m.args.len() == 1 {
                        if let Expr::Closure(cl) = &m.args[0] {
                            let recv = &m.receiver;
                            let pat = &cl.inputs[0];
                            let body = &cl.body;
                            if self.0 { Some(parse_quote!({
                                let mut collected = HashMap::new();
                                for #pat in #recv {
                                    let (collected_key, collected_item) = #body;
                                    collected.insert(collected_key, collected_item);
                                }
                                collected
                            })) } else { Some(parse_quote!({
                                let mut collected = Vec::new();
                                for #pat in #recv {
                                    let collected_item = #body;
                                    collected.push(collected_item);
                                }
                                collected
                            })) }
                        } else { None }
                    } else { None }
                } else { None }
            } else { None }
        } else { None };
        if let Some(n) = new {
            *e = n;
        }
    }
}

/// `for .. { if c { a; continue; } b }` becomes `for .. { if c { a; } else { b } }` (Verus has no `continue` in for loops).
struct Continue;
fn ends_in_continue(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none())
}
fn elim_continue(b: &mut Block) {
    let at = b.stmts.iter().position(|s| matches!(s, Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && ends_in_continue(&i.then_branch)));
    if let Some(at) = at {
        let rest: Vec<Stmt> = b.stmts.drain(at + 1..).collect();
        if let Some(Stmt::Expr(Expr::If(i), _)) = b.stmts.last_mut() {
            i.then_branch.stmts.pop();
            elim_continue(&mut i.then_branch);
            let mut rest: Block = parse_quote!({ #(#rest)* });
            elim_continue(&mut rest);
            i.else_branch = Some((Default::default(), Box::new(parse_quote!(#rest))));
        }
    }
}
impl VisitMut for Continue {
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        visit_mut::visit_expr_for_loop_mut(self, f);
        elim_continue(&mut f.body);
    }
}

/// `Option` combinators with closure literals become a `match` (opt-in per function with `opt`); a closure that
/// leaves early (`return`, `?`) is left alone.
struct OptDesugar;
fn leaves_early(e: &Expr) -> bool {
    struct L(bool);
    impl<'a> syn::visit::Visit<'a> for L {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut l = L(false);
    syn::visit::Visit::visit_expr(&mut l, e);
    l.0
}
impl VisitMut for OptDesugar {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        fn cl(e: &Expr, n: usize) -> Option<(Vec<Pat>, Expr)> {
            match e {
                Expr::Closure(c) if c.inputs.len() == n && !leaves_early(&c.body) => Some((c.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect(), (*c.body).clone())),
                _ => None,
            }
        }
        let new: Option<Expr> = if let Expr::MethodCall(c) = e {
            let r = &c.receiver;
            let a: Vec<&Expr> = c.args.iter().collect();
            // an iterator adapter, not an Option
            let adapter = matches!(&**r, Expr::MethodCall(m) if ["iter", "into_iter", "iter_mut", "values", "keys", "drain", "enumerate", "chain", "rev"].contains(&m.method.to_string().as_str()));
            match (c.method.to_string().as_str(), a.len()) {
                ("map", 1) if adapter => None,
                ("map", 1) => cl(a[0], 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Some(#p) => Some(#b), None => None }) }),
                ("and_then", 1) => cl(a[0], 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Some(#p) => #b, None => None }) }),
                ("is_some_and", 1) => cl(a[0], 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Some(#p) => #b, None => false }) }),
                ("map_or", 2) => cl(a[1], 1).map(|(p, b)| { let p = &p[0]; let d = a[0]; parse_quote!(match #r { Some(#p) => #b, None => #d }) }),
                ("map_or_else", 2) => cl(a[0], 0).and_then(|(_, d)| cl(a[1], 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Some(#p) => #b, None => #d }) })),
                ("unwrap_or_else", 1) => cl(a[0], 0).map(|(_, d)| parse_quote!(match #r { Some(__x) => __x, None => #d })),
                ("or_else", 1) => cl(a[0], 0).map(|(_, d)| parse_quote!(match #r { Some(__x) => Some(__x), None => #d })),
                ("ok_or_else", 1) => cl(a[0], 0).map(|(_, d)| parse_quote!(match #r { Some(__x) => Ok(__x), None => Err(#d) })),
                _ => None,
            }
        } else { None };
        if let Some(n) = new {
            *e = n;
        }
    }
}

/// `Result` and `Option` combinators with closure literals become a `match` (opt-in per function with `kinds`). Which of
/// the two an expression is follows from what its chain begins with; where that is not known it is left alone. A closure
/// that leaves early is taken only where its value is the value of the function.
struct KindDesugar(std::collections::HashMap<String, bool>);
impl KindDesugar {
    /// Some(true): a Result, Some(false): an Option
    fn kind(&self, e: &Expr) -> Option<bool> {
        const RES: [&str; 11] = ["parse_from_bytes", "parse_str", "from_str", "from_bytes", "write_to_bytes", "to_bytes", "as_bytes", "enum_value", "ok_or", "ok_or_else", "try_unwrap"];
        const OPT: [&str; 6] = ["into_option", "ok", "err", "from_i32", "filter", "split_first"];
        match e {
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.0.get(&i.to_string()).copied()),
            Expr::Paren(p) => self.kind(&p.expr),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    if RES.contains(&n.as_str()) || n == "Ok" || n == "Err" { Some(true) } else if OPT.contains(&n.as_str()) || n == "Some" { Some(false) } else { None }
                }
                _ => None,
            },
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if RES.contains(&n.as_str()) { Some(true) } else if OPT.contains(&n.as_str()) { Some(false) }
                else if ["map", "map_err", "and_then", "or_else", "or"].contains(&n.as_str()) { self.kind(&m.receiver) } else { None }
            }
            _ => None,
        }
    }
    fn one(&self, e: &Expr, tail: bool) -> Option<Expr> {
        let Expr::MethodCall(c) = e else { return None };
        let res = self.kind(&c.receiver)?;
        // a struct literal is no scrutinee without parentheses
        fn literal(e: &Expr) -> bool { match e { Expr::Struct(_) => true, Expr::MethodCall(m) => literal(&m.receiver), _ => false } }
        let recv = &*c.receiver;
        let r: Expr = if literal(recv) { Expr::Paren(syn::ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(recv.clone()) }) } else { recv.clone() };
        let r = &r;
        let a: Vec<&Expr> = c.args.iter().collect();
        let cl = |e: &Expr, n: usize, early: bool| -> Option<(Vec<Pat>, Expr)> {
            match e {
                Expr::Closure(c) if c.inputs.len() == n && (early || !leaves_early(&c.body)) => Some((c.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect(), (*c.body).clone())),
                _ => None,
            }
        };
        match (c.method.to_string().as_str(), a.len(), res) {
            ("ok", 0, true) => Some(parse_quote!(match #r { Ok(__x) => Some(__x), Err(_) => None })),
            ("ok_or", 1, false) => { let d = a[0]; Some(parse_quote!(match #r { Some(__x) => Ok(__x), None => Err(#d) })) }
            ("ok_or_else", 1, false) => cl(a[0], 0, false).map(|(_, d)| parse_quote!(match #r { Some(__x) => Ok(__x), None => Err(#d) })),
            ("map_err", 1, true) => cl(a[0], 1, false).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Ok(__x) => Ok(__x), Err(#p) => Err(#b) }) }),
            ("map", 1, true) => cl(a[0], 1, false).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) }) }),
            ("map", 1, false) => cl(a[0], 1, false).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Some(#p) => Some(#b), None => None }) }),
            ("and_then", 1, true) => cl(a[0], 1, tail).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e) }) }),
            ("and_then", 1, false) => cl(a[0], 1, tail).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Some(#p) => #b, None => None }) }),
            ("map_or_else", 2, true) => cl(a[0], 1, tail).and_then(|(q, d)| cl(a[1], 1, tail).map(|(p, b)| { let (p, q) = (&p[0], &q[0]); parse_quote!(match #r { Ok(#p) => #b, Err(#q) => #d }) })),
            ("map_or_else", 2, false) => cl(a[0], 0, tail).and_then(|(_, d)| cl(a[1], 1, tail).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Some(#p) => #b, None => #d }) })),
            ("map_or", 2, _) => cl(a[1], 1, tail).map(|(p, b)| { let p = &p[0]; let d = a[0]; if res { parse_quote!(match #r { Ok(#p) => #b, Err(_) => #d }) } else { parse_quote!(match #r { Some(#p) => #b, None => #d }) } }),
            _ => None,
        }
    }
    fn run(&mut self, b: &mut Block) {
        for s in &b.stmts {
            if let Stmt::Local(l) = s {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if let Some(k) = self.kind(&init.expr) { self.0.insert(i.ident.to_string(), k); }
                }
            }
        }
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            if let Some(n) = self.one(e, true) { *e = n; }
        }
        self.visit_block_mut(b);
    }
}
impl VisitMut for KindDesugar {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        while let Some(n) = self.one(e, false) { *e = n; }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// Removes the functions nested in a block and returns them as helpers to inline.
fn take_nested(b: &mut Block) -> Vec<Helper> {
    struct V(Vec<Helper>);
    impl VisitMut for V {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let v = &mut self.0;
            b.stmts.retain(|s| match s {
                Stmt::Item(Item::Fn(f)) => {
                    v.push(Helper { sig: f.sig.clone(), block: (*f.block).clone(), method: false });
                    false
                }
                _ => true,
            });
            visit_mut::visit_block_mut(self, b);
        }
    }
    let mut v = V(vec![]);
    v.visit_block_mut(b);
    v.0
}

/// Finds the n-th async block of a function body (task bodies handed to spawn / pipe_to).
struct AsyncBlocks(Vec<Block>);
impl<'ast> syn::visit::Visit<'ast> for AsyncBlocks {
    fn visit_expr_async(&mut self, a: &'ast ExprAsync) {
        self.0.push(a.block.clone());
        syn::visit::visit_expr_async(self, a);
    }
}

fn kv(words: &[String], key: &str) -> Option<String> {
    words
        .iter()
        .find_map(|w| w.strip_prefix(&format!("{}=", key)).map(|s| s.to_string()))
}

/// Splits on spaces outside of double quotes.
fn words(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut q = false;
    for c in s.chars() {
        match c {
            '"' => q = !q,
            ' ' if !q => {
                if !cur.is_empty() {
                    out.push(std::mem::take(&mut cur))
                }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        out.push(cur)
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: extract REPO TEMPLATE OUT [--canary]");
        std::process::exit(2);
    }
    let repo = &args[1];
    let template = fs::read_to_string(&args[2]).expect("template");
    let canary = args.iter().any(|a| a == "--canary");
    // resolve `//@include`
    let dir = std::path::Path::new(&args[2]).parent().unwrap().to_path_buf();
    let mut text = String::new();
    for line in template.lines() {
        if let Some(p) = line.strip_prefix("//@include ") {
            text.push_str(&fs::read_to_string(dir.join(p.trim())).expect("include"));
            text.push('\n');
        } else {
            text.push_str(line);
            text.push('\n');
        }
    }
    let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();

    let mut files: Vec<SrcFile> = vec![];
    let mut alias: HashMap<String, usize> = HashMap::new();
    let mut known: BTreeSet<String> = BTreeSet::new();
    let mut effects: BTreeSet<String> = BTreeSet::new();
    let mut pure: BTreeSet<String> = BTreeSet::new();
    for l in &lines {
        if let Some(r) = l.strip_prefix("//@file ") {
            let w = words(r);
            let path = format!("{}/{}", repo, w[1]);
            let src = fs::read_to_string(&path).unwrap_or_else(|e| fail(&format!("{}: {}", path, e)));
            let ast = parse_file(&src).unwrap_or_else(|e| fail(&format!("{}: does not parse: {}", path, e)));
            alias.insert(w[0].clone(), files.len());
            files.push(SrcFile { path: w[1].clone(), ast });
        } else if let Some(r) = l.strip_prefix("//@fn ") {
            let w = words(r);
            let sel = &w[1];
            known.insert(sel.rsplit("::").next().unwrap().to_string());
        } else if let Some(r) = l.strip_prefix("//@effect ") {
            for x in r.split(',') {
                effects.insert(x.trim().to_string());
            }
        } else if let Some(r) = l.strip_prefix("//@pure ") {
            for x in r.split(',') {
                pure.insert(x.trim().to_string());
            }
        } else if let Some(r) = l.strip_prefix("//@noinline ") {
            for x in r.split(',') {
                known.insert(x.trim().to_string());
            }
        } else if !l.starts_with("//@") {
            // names of trusted stubs / spec functions written in the template
            let mut rest = l.as_str();
            while let Some(i) = rest.find("fn ") {
                let after = &rest[i + 3..];
                let name: String = after
                    .chars()
                    .take_while(|c| c.is_alphanumeric() || *c == '_')
                    .collect();
                if !name.is_empty() {
                    known.insert(name);
                }
                rest = after;
            }
        }
    }
    let helpers = collect_helpers(&files);

    let mut out = String::new();
    let mut rules: Vec<Rule> = vec![];
    let mut meta_fns = vec![];
    let mut meta_types = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = &lines[i];
        if !l.starts_with("//@") {
            out.push_str(l);
            out.push('\n');
            i += 1;
            continue;
        }
        if let Some(r) = l.strip_prefix("//@rw ") {
            rules.push(Rule::parse(r));
        } else if l == "//@rwclear" {
            rules.clear();
        } else if l.starts_with("//@file ") || l.starts_with("//@effect ") || l.starts_with("//@noinline ") || l.starts_with("//@pure ") {
        } else if l.starts_with("//@struct ") || l.starts_with("//@enum ") || l.starts_with("//@const ") {
            let w = words(l.splitn(2, ' ').nth(1).unwrap());
            let f = &files[*alias.get(&w[0]).unwrap_or_else(|| fail("bad alias"))];
            let drop: Vec<String> = kv(&w, "drop")
                .map(|s| s.split(',').map(|x| x.to_string()).collect())
                .unwrap_or_default();
            let newname = kv(&w, "as");
            let attrs = kv(&w, "attr");
            let mut its = vec![];
            items(&f.ast.items, &mut its);
            let mut done = false;
            for it in its {
                let ts = match it {
                    Item::Struct(s) if s.ident == w[1] => {
                        let mut s = s.clone();
                        s.attrs.clear();
                        s.vis = parse_quote!(pub);
                        if let Some(n) = &newname {
                            s.ident = Ident::new(n, Span::call_site());
                        }
                        match &mut s.fields {
                            Fields::Named(n) => {
                                let mut nn = syn::punctuated::Punctuated::new();
                                for mut fl in n.named.clone() {
                                    if drop.contains(&fl.ident.as_ref().unwrap().to_string()) {
                                        continue;
                                    }
                                    fl.attrs.clear();
                                    fl.vis = parse_quote!(pub);
                                    nn.push(fl);
                                }
                                n.named = nn;
                            }
                            Fields::Unnamed(n) => {
                                for fl in n.unnamed.iter_mut() {
                                    fl.attrs.clear();
                                    fl.vis = parse_quote!(pub);
                                }
                            }
                            _ => {}
                        }
                        s.to_token_stream()
                    }
                    Item::Enum(s) if s.ident == w[1] => {
                        let mut s = s.clone();
                        s.attrs.clear();
                        s.vis = parse_quote!(pub);
                        if let Some(n) = &newname {
                            s.ident = Ident::new(n, Span::call_site());
                        }
                        let vs = std::mem::take(&mut s.variants);
                        for mut v in vs {
                            if drop.contains(&v.ident.to_string()) {
                                continue;
                            }
                            v.attrs.clear();
                            for fl in v.fields.iter_mut() {
                                fl.attrs.clear();
                            }
                            s.variants.push(v);
                        }
                        s.to_token_stream()
                    }
                    Item::Type(s) if s.ident == w[1] => {
                        let mut s = s.clone();
                        s.attrs.clear();
                        s.vis = parse_quote!(pub);
                        s.to_token_stream()
                    }
                    Item::Const(s) if s.ident == w[1] => {
                        let mut s = s.clone();
                        s.attrs.clear();
                        s.vis = parse_quote!(pub);
                        s.to_token_stream()
                    }
                    _ => continue,
                };
                let ts = rewrite::apply(&rules, ts);
                if let Some(a) = &attrs {
                    out.push_str(a);
                    out.push('\n');
                }
                out.push_str(&Printer::new(&Sections::default()).print(ts));
                out.push('\n');
                done = true;
                meta_types.push(format!("{}:{}", f.path, w[1]));
                break;
            }
            if !done {
                fail(&format!("type {} not found in {}", w[1], f.path));
            }
        } else if let Some(r) = l.strip_prefix("//@fn ") {
            let w = words(r);
            let mut d = FnDirective {
                alias: w[0].clone(),
                selector: w[1].clone(),
                name: kv(&w, "as"),
                world: w.iter().any(|x| x == "world"),
                ret: kv(&w, "ret").unwrap_or_else(|| "r".into()),
                header: kv(&w, "impl"),
                generics: kv(&w, "generics"),
                sig: kv(&w, "sig"),
                canary: kv(&w, "canary").unwrap_or_else(|| "end".into()),
                spawned: kv(&w, "async").map(|s| s.parse().unwrap()),
                desugar: w.iter().any(|x| x.starts_with("desugar")),
                desugar_map: w.iter().any(|x| x == "desugar=map"),
                opt: w.iter().any(|x| x == "opt"),
                kinds: w.iter().any(|x| x == "kinds"),
                sections: Sections::default(),
                rules: vec![],
            };
            d.sections.expect_loops = kv(&w, "loops").map(|s| s.parse().unwrap());
            let mut cur = String::new();
            let mut sec = "contract".to_string();
            i += 1;
            let put = |d: &mut FnDirective, sec: &str, cur: &mut String| {
                let t = std::mem::take(cur);
                let mut p = sec.split_whitespace();
                let k = p.next().unwrap();
                let n: usize = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                match k {
                    "contract" => d.sections.contract.push_str(&t),
                    "start" => d.sections.start = t,
                    "tail" => d.sections.tail = t,
                    "loop" => {
                        d.sections.loops.insert(n, t);
                    }
                    "loopstart" => {
                        d.sections.loopstart.insert(n, t);
                    }
                    "loopend" => {
                        d.sections.loopend.insert(n, t);
                    }
                    "before" => {
                        d.sections.before.insert(n, t);
                    }
                    "after" => {
                        d.sections.after.insert(n, t);
                    }
                    "closure" => {
                        d.sections.closures.insert(n, t);
                    }
                    _ => panic!("section {}", k),
                }
            };
            while i < lines.len() && lines[i] != "//@end" {
                if let Some(s) = lines[i].strip_prefix("//@") {
                    if let Some(r) = s.strip_prefix("rw ") {
                        d.rules.push(Rule::parse(r));
                    } else {
                        put(&mut d, &sec.clone(), &mut cur);
                        sec = s.to_string();
                    }
                } else {
                    cur.push_str(&lines[i]);
                    cur.push('\n');
                }
                i += 1;
            }
            put(&mut d, &sec.clone(), &mut cur);
            emit_fn(&d, &files, &alias, &helpers, &known, &effects, &pure, &rules, canary, &mut out, &mut meta_fns);
        } else if l.starts_with("//@unsupported-if-missing") || l.starts_with("//@#") {
        } else {
            panic!("unknown directive {}", l);
        }
        i += 1;
    }
    fs::write(&args[3], &out).expect("write");
    println!(
        "{}",
        serde_json::json!({"status":"ok","functions":meta_fns,"types":meta_types,"rules":rules.iter().map(|r| r.text.clone()).collect::<Vec<_>>()})
    );
}

#[allow(clippy::too_many_arguments)]
fn emit_fn(
    d: &FnDirective,
    files: &[SrcFile],
    alias: &HashMap<String, usize>,
    helpers: &HashMap<String, Vec<Helper>>,
    known: &BTreeSet<String>,
    effects: &BTreeSet<String>,
    pure: &BTreeSet<String>,
    rules: &[Rule],
    canary: bool,
    out: &mut String,
    meta: &mut Vec<serde_json::Value>,
) {
    let f = &files[*alias.get(&d.alias).unwrap_or_else(|| fail(&format!("bad alias {}", d.alias)))];
    let mut found = find_fn(&f.ast, &d.selector);
    if found.len() > 1 {
        // a bare type name means the type of that name, not one of another module
        found.retain(|x| x.self_ty.as_ref().map_or(true, |t| !tok_norm(t).contains("::")));
    }
    if found.len() != 1 {
        fail(&format!("{} functions match `{}` in {}", found.len(), d.selector, f.path));
    }
    let mut fd = found.pop().unwrap();
    let src_line = fd.line;
    if let Some(n) = d.spawned {
        let mut ab = AsyncBlocks(vec![]);
        syn::visit::Visit::visit_block(&mut ab, &fd.block);
        if ab.0.len() <= n {
            fail(&format!("async block {} of {} not found", n, d.selector));
        }
        fd.block = ab.0[n].clone();
    }
    StripAwait.visit_block_mut(&mut fd.block);
    // inline unknown local helpers
    let mut k2 = known.clone();
    k2.insert(fd.sig.ident.to_string());
    let mut stripped: HashMap<String, Vec<Helper>> = HashMap::new();
    for (k, v) in helpers {
        if known.contains(k) {
            continue;
        }
        let mut v = v.clone();
        for h in v.iter_mut() {
            StripAwait.visit_block_mut(&mut h.block);
        }
        stripped.insert(k.clone(), v);
    }
    for h in take_nested(&mut fd.block) {
        let n = h.sig.ident.to_string();
        k2.remove(&n);
        stripped.insert(n, vec![h]);
    }
    let mut inl = Inliner { helpers: &stripped, known: &k2, inlined: vec![], depth: 0, counter: 0 };
    // tail-position helper calls may contain `return` / `?`
    if let Some(Stmt::Expr(e, None)) = fd.block.stmts.last_mut() {
        inl.try_inline(e, true);
    }
    for s in fd.block.stmts.iter_mut() {
        if let Stmt::Expr(Expr::Return(r), _) = s {
            if let Some(e) = &mut r.expr {
                inl.try_inline(e, true);
            }
        }
    }
    inl.visit_block_mut(&mut fd.block);
    let inlined = inl.inlined.clone();
    if d.desugar {
        Desugar(d.desugar_map).visit_block_mut(&mut fd.block);
    }
    Continue.visit_block_mut(&mut fd.block);
    Matches.visit_block_mut(&mut fd.block);
    if d.kinds {
        KindDesugar(Default::default()).run(&mut fd.block);
    }
    if d.opt {
        OptDesugar.visit_block_mut(&mut fd.block);
    }
    OptMatch.visit_block_mut(&mut fd.block);
    let mut mk = Marker { pure, effects, world: d.world, loops: 0, closures: 0, sections: &d.sections };
    mk.visit_block_mut(&mut fd.block);
    let nloops = mk.loops;
    let nclos = mk.closures;
    let want_loops = d.sections.expect_loops.unwrap_or_else(|| d.sections.loops.len());
    if nloops != want_loops {
        fail(&format!(
            "{} in {}: {} loops in the source, {} under invariant",
            d.selector, f.path, nloops, want_loops
        ));
    }
    if let Some(m) = d.sections.closures.keys().max() {
        if *m >= nclos {
            fail(&format!("{}: closure {} not found", d.selector, m));
        }
    }
    let mut all: Vec<Rule> = d.rules.clone();
    all.extend(rules.iter().cloned());

    let name = d.name.clone().unwrap_or_else(|| fd.sig.ident.to_string());
    let mut sig = String::new();
    if let Some(s) = &d.sig {
        sig.push_str(s);
    } else {
        sig.push_str(&format!("pub fn {}", name));
        let g = match &d.generics {
            Some(g) => g.clone(),
            None => {
                let ts = rewrite::apply(&all, fd.sig.generics.to_token_stream());
                Printer::new(&d.sections).print(ts)
            }
        };
        sig.push_str(&g);
        sig.push('(');
        let mut first = true;
        for inp in &fd.sig.inputs {
            if !first {
                sig.push_str(", ");
            }
            first = false;
            let mut inp = inp.clone();
            match &mut inp {
                FnArg::Receiver(r) => r.attrs.clear(),
                FnArg::Typed(t) => t.attrs.clear(),
            }
            sig.push_str(&Printer::new(&d.sections).print(rewrite::apply(&all, inp.to_token_stream())));
        }
        if d.world {
            if !first {
                sig.push_str(", ");
            }
            sig.push_str("Tracked(w): Tracked<&mut World>");
        }
        sig.push(')');
        if let ReturnType::Type(_, t) = &fd.sig.output {
            let ts = rewrite::apply(&all, t.to_token_stream());
            sig.push_str(&format!(" -> ({}: {})", d.ret, Printer::new(&d.sections).print(ts)));
        }
        if d.generics.is_none() {
            if let Some(wc) = &fd.sig.generics.where_clause {
                sig.push(' ');
                sig.push_str(&Printer::new(&d.sections).print(rewrite::apply(&all, wc.to_token_stream())));
            }
        }
    }

    let header = match (&d.header, &fd.self_ty) {
        (Some(h), _) => {
            if h.is_empty() || h == "none" {
                None
            } else {
                Some(h.clone())
            }
        }
        (None, Some(t)) => {
            let (ig, _, wc) = fd.generics.split_for_impl();
            let ts = quote!(impl #ig #t #wc);
            Some(Printer::new(&d.sections).print(rewrite::apply(&all, ts)))
        }
        (None, None) => None,
    };
    let stmts: TokenStream = fd.block.stmts.iter().map(|s| s.to_token_stream()).collect();
    let body = rewrite::apply(&all, stmts);
    let body_txt = Printer::new(&d.sections).print(body);

    let start_line = out.lines().count() + 1;
    if let Some(h) = &header {
        out.push_str(h);
        out.push_str(" {\n");
    }
    if nloops > 0 {
        // partial correctness: termination of service loops is not claimed
        out.push_str("#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
    }
    out.push_str(&sig);
    out.push('\n');
    out.push_str(&d.sections.contract);
    out.push_str("{\n");
    if canary && d.canary == "start" {
        out.push_str("proof { assert(false); }\n");
    }
    out.push_str(&d.sections.start);
    if (canary && d.canary == "end") || !d.sections.tail.is_empty() {
        out.push_str("let __ret = {\n");
        out.push_str(&body_txt);
        out.push_str("\n};\n");
        out.push_str(&d.sections.tail);
        if canary && d.canary == "end" {
            out.push_str("proof { assert(false); }\n");
        }
        out.push_str("__ret\n");
    } else {
        out.push_str(&body_txt);
        out.push('\n');
    }
    out.push_str("}\n");
    if header.is_some() {
        out.push_str("}\n");
    }
    let end_line = out.lines().count();
    meta.push(serde_json::json!({
        "name": name, "selector": d.selector, "file": f.path, "line": src_line, "end_line": fd.end_line,
        "out_start": start_line, "out_end": end_line, "inlined": inlined, "canary": d.canary,
        "loops": nloops,
    }));
    let _ = Delimiter::None;
    let _: Option<Group> = None;
    let _: Option<Spacing> = None;
    let _: Option<TokenTree> = None;
}
