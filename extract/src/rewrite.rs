//! Syntactic rewriting of Rust into the dialect the prelude supports.
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::{
    parse_quote,
    punctuated::Punctuated,
    visit::Visit,
    visit_mut::{self, VisitMut},
    Block, Expr, GenericParam, Generics, Item, Pat, Path, Stmt, Type, TypeParamBound, WherePredicate,
};

use crate::contracts::FnContract;

const DROPPED_BOUNDS: &[&str] = &[
    "Debug", "Display", "Send", "Sync", "Ord", "PartialOrd", "Eq", "PartialEq", "Serialize", "Deserialize", "Hash",
    "Error", "Copy", "Sized", "DynTypeId", "Any",
];

const ITER_METHODS: &[&str] = &[
    "iter", "into_iter", "keys", "values", "chain", "difference", "cloned", "vcloned", "copied", "union", "intersection", "rev",
    "filter", "enumerate", "zip",
];

pub fn keep_bound(b: &TypeParamBound) -> bool {
    match b {
        TypeParamBound::Lifetime(_) => false,
        TypeParamBound::Trait(t) => {
            if t.lifetimes.is_some() {
                return false;
            }
            if matches!(t.modifier, syn::TraitBoundModifier::Maybe(_)) {
                return false;
            }
            let id = t.path.segments.last().unwrap().ident.to_string();
            !DROPPED_BOUNDS.contains(&id.as_str())
        }
        _ => true,
    }
}

pub fn filter_bounds(b: &mut Punctuated<TypeParamBound, syn::Token![+]>) {
    let kept: Vec<_> = b.iter().filter(|b| keep_bound(b)).cloned().collect();
    *b = kept.into_iter().collect();
    for x in b.iter_mut() {
        if let TypeParamBound::Trait(t) = x {
            let s = t.path.segments.last_mut().unwrap();
            if s.ident == "Clone" {
                s.ident = syn::Ident::new("VClone", s.ident.span());
            }
            if s.ident == "From" {
                s.ident = syn::Ident::new("VFrom", s.ident.span());
            }
        }
    }
}

pub fn lit_str_call() -> Expr {
    parse_quote!(vstr())
}

fn is_str_call(e: &Expr) -> bool {
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            let id = &p.path.segments.last().unwrap().ident;
            return id == "vstr" || id == "vfmt";
        }
    }
    false
}

fn capital(s: &str) -> bool {
    s.chars().next().map(|c| c.is_uppercase()).unwrap_or(false)
}

const PRIMS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "isize", "bool", "char"];

pub struct Rewriter<'a> {
    pub contract: &'a FnContract,
    pub prefix: String,
    pub texts: BTreeMap<String, String>,
    pub n_loops: usize,
    pub n_closures: usize,
    pub n_maps: usize,
    pub n_breaks: usize,
    /// what was numbered: ("loop" | "closure" | "map", text), in order
    pub keys: Vec<(&'static str, String)>,
    /// the number that the annotations use for it
    pub numbers: BTreeMap<(&'static str, usize), usize>,
    pub hoisted: Vec<Item>,
    pub problems: Vec<String>,
    counts: BTreeMap<String, usize>,
    pub used_proofs: std::collections::BTreeSet<usize>,
    /// the receiver is `self: Box<Self>`
    boxed_self: bool,
    /// the function returns an `Option`
    pub returns_option: bool,
}

impl<'a> Rewriter<'a> {
    pub fn new(contract: &'a FnContract, prefix: &str) -> Self {
        Self {
            contract,
            prefix: prefix.to_string(),
            texts: BTreeMap::new(),
            n_loops: 0,
            n_closures: 0,
            n_maps: 0,
            n_breaks: 0,
            keys: Vec::new(),
            numbers: BTreeMap::new(),
            hoisted: Vec::new(),
            problems: Vec::new(),
            counts: BTreeMap::new(),
            used_proofs: Default::default(),
            boxed_self: false,
            returns_option: false,
        }
    }

    /// The call that stands for a panic.
    fn panics(&self, name: &str, statement: bool) -> Expr {
        match &self.contract.panics {
            Some(p) if name == "panic" => {
                let when: Expr = syn::parse_str(p).expect("@panics");
                if statement { parse_quote!(vpanic_if::<()>(Ghost(#when))) } else { parse_quote!(vpanic_if(Ghost(#when))) }
            }
            _ if statement => parse_quote!(vpanic::<()>()),
            _ => parse_quote!(vpanic()),
        }
    }

    fn number(&mut self, kind: &'static str, text: String) -> usize {
        let count = match kind {
            "loop" => &mut self.n_loops,
            "closure" => &mut self.n_closures,
            _ => &mut self.n_maps,
        };
        let n = *count;
        *count += 1;
        self.keys.push((kind, text.split_whitespace().collect::<Vec<_>>().join(" ")));
        self.numbers.get(&(kind, n)).copied().unwrap_or(n)
    }

    fn place(&mut self, name: &str, text: &str) -> TokenStream {
        let id = format!("{}_{}", self.prefix, name);
        self.texts.insert(id.clone(), text.to_string());
        let id = syn::Ident::new(&id, Span::call_site());
        quote!(#id)
    }

    fn proof(&mut self, what: &str) -> Option<Stmt> {
        let mut text = String::new();
        for (i, (w, t)) in self.contract.proofs.iter().enumerate() {
            if w == what {
                text.push_str(t);
                self.used_proofs.insert(i);
            }
        }
        if text.is_empty() {
            return None;
        }
        let id = self.place(&format!("p_{}", what.replace(' ', "_")), &text);
        Some(parse_quote!(__vproof!(#id);))
    }

    /// Puts the `start`/`end`/`before..` proofs in place.
    pub fn body(&mut self, block: &mut Block) {
        if let Some(Stmt::Expr(Expr::Loop(l), None)) = block.stmts.last_mut() {
            valued_breaks(l, &|x| parse_quote!(return #x));
        }
        self.visit_block_mut(block);
        let mut anch = Anchors {
            proofs: &self.contract.proofs,
            counts: BTreeMap::new(),
            pending: Vec::new(),
            used: Default::default(),
            prefix: self.prefix.clone(),
            texts: BTreeMap::new(),
        };
        anch.visit_block_mut(block);
        let vac = std::env::var("EXTRACT_VACUITY").is_ok();
        let used = anch.used.clone();
        let texts = std::mem::take(&mut anch.texts);
        self.used_proofs.extend(used);
        self.texts.extend(texts);
        if let Some(s) = self.proof("start") {
            block.stmts.insert(0, s);
        }
        if let Some(s) = self.proof("tail") {
            let at = match block.stmts.last() {
                Some(Stmt::Expr(_, None)) => block.stmts.len() - 1,
                _ => block.stmts.len(),
            };
            block.stmts.insert(at, s);
        }
        if vac {
            // every function must be refutable: a proof of `false` at its end shows contradicting contracts
            let id = self.place("vac", "proof { assert(false); }");
            let inner = block.clone();
            *block = parse_quote!({ let __vres = #inner; __vproof!(#id); __vres });
        }
        for (i, (w, _)) in self.contract.proofs.iter().enumerate() {
            if !self.used_proofs.contains(&i) && !self.loop_is_gone(w) {
                self.problems.push(format!("lost proof anchor `{w}`"));
            }
        }
    }

    /// The proof is for a loop that is no longer there.
    fn loop_is_gone(&self, w: &str) -> bool {
        let mut ws = w.split_whitespace();
        if ws.next() != Some("loop") {
            return false;
        }
        let n: usize = ws.next().unwrap().parse().unwrap();
        (0..self.n_loops).all(|i| self.numbers.get(&("loop", i)).copied().unwrap_or(i) != n)
    }

    fn closure_text(&mut self, c: &syn::ExprClosure) -> Expr {
        let n = self.number("closure", c.to_token_stream().to_string());
        let body = &*c.body;
        let mut lets: Vec<Stmt> = Vec::new();
        let mut names: Vec<syn::Ident> = Vec::new();
        for (i, p) in c.inputs.iter().enumerate() {
            let p = match p {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            match &p {
                Pat::Ident(pi) if pi.subpat.is_none() => names.push(pi.ident.clone()),
                _ => {
                    let id = syn::Ident::new(&format!("__c{i}"), Span::call_site());
                    lets.push(parse_quote!(let #p = #id;));
                    names.push(id);
                }
            }
        }
        match self.contract.closures.get(&n).cloned() {
            Some(text) => {
                // the header may name parameters positionally: $0, $1 ..
                let mut text = text;
                for (i, nm) in names.iter().enumerate() {
                    text = text.replace(&format!("${i}"), &nm.to_string());
                }
                let id = self.place(&format!("c{n}"), &text);
                parse_quote!( __vclosure(#id, { #(#lets)* #body }) )
            }
            None => {
                let inputs = &c.inputs;
                let _ = inputs;
                let mv = &c.capture;
                parse_quote!( #mv |#(#names),*| { #(#lets)* #body } )
            }
        }
    }
}

fn receiver_is_iter(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if ITER_METHODS.contains(&n.as_str()) {
                return true;
            }
            if n == "map" {
                return receiver_is_iter(&m.receiver);
            }
            false
        }
        _ => false,
    }
}

/// A call which usually gives an `Option`.
fn receiver_is_option(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "get" | "get_mut" | "pop" | "next" | "ok" | "first" | "last" | "checked_add" | "checked_sub" => true,
            "cloned" | "copied" | "as_ref" | "map" | "and_then" => receiver_is_option(&m.receiver),
            _ => false,
        },
        Expr::Paren(p) => receiver_is_option(&p.expr),
        _ => false,
    }
}

/// `f` applied to the pattern-bound value: returns (pattern, expression)
fn apply(f: &Expr) -> (Pat, Expr) {
    match f {
        Expr::Closure(c) => {
            let p = match c.inputs.first() {
                Some(Pat::Type(t)) => (*t.pat).clone(),
                Some(p) => p.clone(),
                None => parse_quote!(_),
            };
            (p, (*c.body).clone())
        }
        f => (parse_quote!(__v), parse_quote!(#f(__v))),
    }
}

fn has_return(e: &Expr) -> bool {
    struct R(bool);
    impl<'a> Visit<'a> for R {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut r = R(false);
    if let Expr::Closure(c) = e {
        r.visit_expr(&c.body);
    }
    r.0
}

impl<'a> VisitMut for Rewriter<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        rewrite_path(p);
    }

    fn visit_receiver_mut(&mut self, r: &mut syn::Receiver) {
        if r.colon_token.is_some() && r.ty.to_token_stream().to_string().replace(' ', "") == "Box<Self>" {
            *r = parse_quote!(self);
            self.boxed_self = true;
        }
        visit_mut::visit_receiver_mut(self, r);
    }

    fn visit_generics_mut(&mut self, g: &mut Generics) {
        rewrite_generics(g);
        visit_mut::visit_generics_mut(self, g);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        rewrite_type(t);
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut stmts = Vec::new();
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Use(_)) => (),
                Stmt::Item(i @ (Item::Enum(_) | Item::Struct(_) | Item::Fn(_) | Item::Const(_))) => self.hoisted.push(i),
                Stmt::Macro(m) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    match name.as_str() {
                        "trace" | "debug" | "info" | "warn" | "error" | "println" | "eprintln" | "debug_assert" => (),
                        // a statement: its value is of no use
                        "panic" | "unreachable" | "unimplemented" | "todo" if m.semi_token.is_some() => {
                            let e = self.panics(&name, true);
                            stmts.push(Stmt::Expr(e, m.semi_token))
                        }
                        _ => {
                            let mac = m.mac.clone();
                            stmts.push(Stmt::Expr(Expr::Macro(syn::ExprMacro { attrs: vec![], mac }), m.semi_token))
                        }
                    }
                }
                Stmt::Expr(Expr::Macro(m), semi) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    match name.as_str() {
                        "trace" | "debug" | "info" | "warn" | "error" | "println" | "eprintln" | "debug_assert" => (),
                        _ => stmts.push(Stmt::Expr(Expr::Macro(m), semi)),
                    }
                }
                Stmt::Local(mut l) if matches!(&l.init, Some(i) if matches!(&*i.expr, Expr::Loop(_))) => {
                    let n = self.n_breaks;
                    let v = syn::Ident::new(&format!("__brk{n}"), Span::call_site());
                    let init = l.init.as_mut().unwrap();
                    let Expr::Loop(mut lp) = (*init.expr).clone() else { unreachable!() };
                    if valued_breaks(&mut lp, &|x| parse_quote!({ #v = Some(#x); break })) {
                        self.n_breaks += 1;
                        *init.expr = parse_quote!(#v.unwrap());
                        stmts.push(parse_quote!(let mut #v = None;));
                        stmts.push(Stmt::Expr(Expr::Loop(lp), Some(Default::default())));
                    }
                    stmts.push(Stmt::Local(l));
                }
                s => stmts.push(s),
            }
        }
        b.stmts = stmts;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        // a new box of unstated type is no trait object
        if let (Pat::Ident(_), Some(init)) = (&l.pat, &mut l.init) {
            if let Expr::Call(c) = &mut *init.expr {
                if c.func.to_token_stream().to_string() == "Box :: new" {
                    c.args.iter_mut().for_each(|a| self.visit_expr_mut(a));
                    return;
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Await(a) = e {
            // what it is waiting for happens before the execution goes on
            *e = (*a.base).clone();
            self.visit_expr_mut(e);
            return;
        }
        if let Expr::Macro(m) = e {
            if m.mac.path.segments.last().unwrap().ident == "select" {
                match syn::parse2::<Select>(m.mac.tokens.clone()) {
                    Ok(s) => {
                        *e = s.choice();
                        self.visit_expr_mut(e);
                    }
                    Err(_) => self.problems.push("macro select!".into()),
                }
                return;
            }
        }
        if let Expr::Unsafe(u) = e {
            match raw_cast(&u.block) {
                Some((t, x)) => *e = parse_quote!(VCast::<Box<#t>>::vcast(#x)),
                None => self.problems.push("unsafe block".into()),
            }
            visit_mut::visit_expr_mut(self, e);
            return;
        }
        // Desugar combinators with closures before descending.
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let recv = &m.receiver;
            let new: Option<Expr> = match (name.as_str(), m.args.len()) {
                ("ok_or_else", 1) if !has_return(&m.args[0]) => {
                    if let Expr::Closure(c) = &m.args[0] {
                        let b = &c.body;
                        Some(parse_quote!(match #recv { Some(__v) => Ok(__v), None => Err(#b) }))
                    } else {
                        None
                    }
                }
                ("ok_or", 1) => {
                    let b = &m.args[0];
                    Some(parse_quote!(match #recv { Some(__v) => Ok(__v), None => Err(#b) }))
                }
                ("map_err", 1) if !has_return(&m.args[0]) => {
                    let (p, b) = apply(&m.args[0]);
                    Some(parse_quote!(match #recv { Ok(__v) => Ok(__v), Err(#p) => Err(#b) }))
                }
                ("map", 1) if !has_return(&m.args[0]) && m.turbofish.is_none() => {
                    let n = self.number("map", m.args[0].to_token_stream().to_string());
                    let kind = match self.contract.maps.get(&n).map(|s| s.as_str()) {
                        Some(k) => k.to_string(),
                        None => {
                            if receiver_is_iter(recv) {
                                "iter".into()
                            } else if receiver_is_option(recv) {
                                "option".into()
                            } else {
                                "result".into()
                            }
                        }
                    };
                    let (p, b) = apply(&m.args[0]);
                    match kind.as_str() {
                        "option" => Some(parse_quote!(match #recv { Some(#p) => Some(#b), None => None })),
                        "result" => Some(parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(__e) => Err(__e) })),
                        _ => None,
                    }
                }
                ("is_some_and", 1) if !has_return(&m.args[0]) => {
                    let (p, b) = apply(&m.args[0]);
                    Some(parse_quote!(match #recv { Some(#p) => #b, None => false }))
                }
                ("and_then", 1) if !has_return(&m.args[0]) => {
                    let (p, b) = apply(&m.args[0]);
                    if receiver_is_option(recv) {
                        Some(parse_quote!(match #recv { Some(#p) => #b, None => None }))
                    } else {
                        Some(parse_quote!(match #recv { Ok(#p) => #b, Err(__e) => Err(__e) }))
                    }
                }
                _ => None,
            };
            if let Some(n) = new {
                *e = n;
                self.visit_expr_mut(e);
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "map" && matches!(&m.args[0], Expr::Path(p) if p.path.get_ident().is_some_and(|i| capital(&i.to_string()))) {
                // a constructor as a function
                let f = &m.args[0];
                m.args[0] = parse_quote!(|__v| #f(__v));
            }
        }
        // Closures: number before descending so that outer closures come first.
        match e {
            Expr::Closure(_) => {
                // handled below (post-order)
            }
            Expr::ForLoop(f) => {
                let n = self.number("loop", format!("{} in {}", f.pat.to_token_stream(), f.expr.to_token_stream()));
                let mut body = f.body.clone();
                let mut iter = (*f.expr).clone();
                let mut pat = (*f.pat).clone();
                self.visit_expr_mut(&mut iter);
                self.visit_pat_mut(&mut pat);
                self.visit_block_mut(&mut body);
                let it = syn::Ident::new(&format!("__it{n}"), Span::call_site());
                let sq = format!("__seq{n}");
                let ghost = self.place(&format!("g{n}"), &format!("let ghost {sq} = {it}.seq();\n"));
                let extra = self.contract.loops.get(&n).cloned().unwrap_or_default();
                if !self.contract.loops.contains_key(&n) {
                    self.problems.push(format!("loop {n} has no invariant"));
                }
                let (pre_extra, dec_extra) = (extra, String::new());
                let text = format!(
                    "invariant {it}.wf(), {it}.seq() == {sq},\n{pre_extra}\n{dec_extra} decreases {it}.remaining()\n"
                );
                let spec = self.place(&format!("l{n}"), &text);
                let start = self.proof(&format!("loop {n} start"));
                let end = self.proof(&format!("loop {n} end"));
                let before = self.proof(&format!("loop {n} before"));
                let after = self.proof(&format!("loop {n} after"));
                let label = &f.label;
                let start = start.into_iter();
                let end = end.into_iter();
                let before = before.into_iter();
                let after = after.into_iter();
                *e = parse_quote!({
                    let mut #it = VIntoIter::viter(#iter);
                    __vproof!(#ghost);
                    #(#before)*
                    #label while #it.has_next() {
                        __vspec!(#spec);
                        let #pat = #it.next_item();
                        #(#start)*
                        #body
                        #(#end)*
                    }
                    #(#after)*
                });
                return;
            }
            Expr::While(w) if matches!(&*w.cond, Expr::Let(_)) => {
                if let Expr::Let(l) = &*w.cond {
                    let (p, x, b, label) = (&l.pat, &l.expr, &w.body, &w.label);
                    *e = parse_quote!(#label loop { match #x { #p => #b, _ => break } });
                    self.visit_expr_mut(e);
                    return;
                }
            }
            Expr::Loop(_) | Expr::While(_) => {
                let n = self.number("loop", match &*e { Expr::While(w) => w.cond.to_token_stream().to_string(), _ => String::new() });
                visit_mut::visit_expr_mut(self, e);
                let text = self.contract.loops.get(&n).cloned().unwrap_or_default();
                if text.is_empty() {
                    self.problems.push(format!("loop {n} has no invariant"));
                }
                let spec = self.place(&format!("l{n}"), &text);
                let body = match e {
                    Expr::Loop(l) => &mut l.body,
                    Expr::While(w) => &mut w.body,
                    _ => unreachable!(),
                };
                if let Some(s) = self.proof(&format!("loop {n} start")) {
                    body.stmts.insert(0, s);
                }
                if let Some(s) = self.proof(&format!("loop {n} end")) {
                    body.stmts.push(s);
                }
                body.stmts.insert(0, parse_quote!(__vspec!(#spec);));
                return;
            }
            _ => (),
        }
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::Try(t) if self.returns_option => {
                let x = &t.expr;
                Some(parse_quote!(match #x { Some(__v) => __v, None => return None }))
            }
            Expr::Try(t) => {
                let x = &t.expr;
                Some(parse_quote!(match #x { Ok(__v) => __v, Err(__e) => return Err(VFrom::vfrom(__e)) }))
            }
            Expr::Unary(u) if self.boxed_self && u.to_token_stream().to_string().replace(' ', "") == "*self" => Some(parse_quote!(self)),
            Expr::Binary(b) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    syn::BinOp::Eq(_) => Some(parse_quote!(veq(&(#l), &(#r)))),
                    syn::BinOp::Ne(_) => Some(parse_quote!((!veq(&(#l), &(#r))))),
                    _ => None,
                }
            }
            Expr::Lit(l) => match &l.lit {
                syn::Lit::Str(_) => Some(lit_str_call()),
                syn::Lit::ByteStr(b) => {
                    let bytes = b.value();
                    Some(parse_quote!(&[#(#bytes),*]))
                }
                _ => None,
            },
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let recv = &m.receiver;
                match (name.as_str(), m.args.len()) {
                    ("into", 0) => {
                        Some(parse_quote!(VInto::vinto(#recv)))
                    }
                    ("to_string", 0) | ("to_owned", 0) if is_str_call(recv) => Some(parse_quote!(vfmt())),
                    ("to_be_bytes", 0) => Some(parse_quote!(#recv.vto_be_bytes())),
                    ("to_string", 0) => Some(parse_quote!(vfmt())),
                    ("expect", 1) | ("unwrap", 0) => Some(parse_quote!(#recv.vunwrap())),
                    ("cloned", 0) | ("copied", 0) => Some(parse_quote!(#recv.vcloned())),
                    _ => None,
                }
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                match name.as_str() {
                    "format" => Some(parse_quote!(vfmt())),
                    "concat" => Some(parse_quote!(vstr())),
                    "vec" if m.mac.tokens.is_empty() => Some(parse_quote!(Vec::new())),
                    "panic" | "unreachable" | "unimplemented" | "todo" => Some(self.panics(&name, false)),
                    "matches" => {
                        struct M(Expr, Pat, Option<Expr>);
                        impl syn::parse::Parse for M {
                            fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                                let e = i.parse()?;
                                i.parse::<syn::Token![,]>()?;
                                let p = Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(syn::Token![if]) {
                                    i.parse::<syn::Token![if]>()?;
                                    Some(i.parse()?)
                                } else {
                                    None
                                };
                                let _ = i.parse::<Option<syn::Token![,]>>();
                                Ok(M(e, p, g))
                            }
                        }
                        match syn::parse2::<M>(m.mac.tokens.clone()) {
                            Ok(M(mut x, mut p, g)) => {
                                self.visit_expr_mut(&mut x);
                                self.visit_pat_mut(&mut p);
                                match g {
                                    Some(mut g) => {
                                        self.visit_expr_mut(&mut g);
                                        Some(parse_quote!(match #x { #p => #g, _ => false }))
                                    }
                                    None => Some(parse_quote!(match #x { #p => true, _ => false })),
                                }
                            }
                            Err(_) => None,
                        }
                    }
                    "__vproof" | "__vspec" => None,
                    other => {
                        self.problems.push(format!("macro {other}!"));
                        None
                    }
                }
            }
            Expr::Reference(r) if matches!(&*r.expr, Expr::Call(c) if c.func.to_token_stream().to_string() == "BoxedRng") => {
                match &*r.expr {
                    Expr::Call(c) => Some(c.args[0].clone()),
                    _ => None,
                }
            }
            Expr::Call(c) => {
                // String::from("..")
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs == ["Box", "new"] && c.args.len() == 1 {
                        let a = &c.args[0];
                        Some(parse_quote!(VBoxInto::vbox(#a)))
                    } else if segs == ["String", "from"] && c.args.len() == 1 && is_str_call(&c.args[0]) {
                        Some(parse_quote!(vfmt()))
                    } else if segs.len() == 2 && segs[1] == "from" && capital(&segs[0]) && p.qself.is_none() && segs[0] != "Self" && c.args.len() == 1 {
                        let t = &p.path.segments[0];
                        let a = &c.args[0];
                        Some(parse_quote!(<#t as VFrom<_>>::vfrom(#a)))
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
        if let Expr::Closure(c) = e {
            let c = c.clone();
            *e = self.closure_text(&c);
        }
    }
}

/// The branches of `select!`: any of those that can complete is taken, and the others have no effect.
struct Select(Vec<(Pat, Expr, Expr)>);
impl syn::parse::Parse for Select {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let mut v = Vec::new();
        while !i.is_empty() {
            if i.peek(syn::Ident) && i.peek2(syn::Token![;]) {
                // `biased;`
                i.parse::<syn::Ident>()?;
                i.parse::<syn::Token![;]>()?;
                continue;
            }
            let p = Pat::parse_multi_with_leading_vert(i)?;
            i.parse::<syn::Token![=]>()?;
            let x: Expr = i.parse()?;
            i.parse::<syn::Token![=>]>()?;
            let h: Expr = if i.peek(syn::token::Brace) {
                let b: Block = i.parse()?;
                parse_quote!(#b)
            } else {
                i.parse()?
            };
            i.parse::<Option<syn::Token![,]>>()?;
            v.push((p, x, h));
        }
        Ok(Select(v))
    }
}
impl Select {
    fn choice(self) -> Expr {
        let n = self.0.len();
        let mut out: Option<Expr> = None;
        for (k, (p, x, h)) in self.0.into_iter().enumerate().rev() {
            let branch: Expr = parse_quote!({ let #p = #x; #h });
            out = Some(match out {
                None => branch,
                Some(rest) => {
                    let k = k as u64;
                    let n = n as u64;
                    parse_quote!(if vchoose(#k, #n) #branch else { #rest })
                }
            });
        }
        out.unwrap()
    }
}

/// Replaces the `break` of the loop itself that has a value by what `f` makes of it; tells whether there was any.
pub fn valued_breaks(l: &mut syn::ExprLoop, f: &dyn Fn(Expr) -> Expr) -> bool {
    struct B<'a>(&'a dyn Fn(Expr) -> Expr, bool);
    impl<'a> VisitMut for B<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Break(b) if b.expr.is_some() && b.label.is_none() => {
                    *e = (self.0)((**b.expr.as_ref().unwrap()).clone());
                    self.1 = true;
                }
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => (),
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    let mut b = B(f, false);
    b.visit_block_mut(&mut l.body);
    b.1
}

/// `Box::<T>::from_raw(Box::into_raw(x) as *mut T)` gives `(T, x)`.
fn raw_cast(b: &Block) -> Option<(Type, Expr)> {
    let [Stmt::Expr(Expr::Call(c), None)] = &b.stmts[..] else { return None };
    let Expr::Path(p) = &*c.func else { return None };
    let [first, second] = &p.path.segments.iter().collect::<Vec<_>>()[..] else { return None };
    if first.ident != "Box" || second.ident != "from_raw" || c.args.len() != 1 {
        return None;
    }
    let syn::PathArguments::AngleBracketed(a) = &first.arguments else { return None };
    let Some(syn::GenericArgument::Type(t)) = a.args.first() else { return None };
    let Expr::Cast(k) = &c.args[0] else { return None };
    let Type::Ptr(q) = &*k.ty else { return None };
    if q.elem.to_token_stream().to_string() != t.to_token_stream().to_string() {
        return None;
    }
    let Expr::Call(i) = &*k.expr else { return None };
    if i.func.to_token_stream().to_string() != "Box :: into_raw" || i.args.len() != 1 {
        return None;
    }
    Some((t.clone(), i.args[0].clone()))
}

/// Places the `before NAME K` / `after NAME K` proof texts.
struct Anchors<'a> {
    proofs: &'a Vec<(String, String)>,
    counts: BTreeMap<String, usize>,
    pending: Vec<usize>,
    used: std::collections::BTreeSet<usize>,
    prefix: String,
    texts: BTreeMap<String, String>,
}

impl<'a> Anchors<'a> {
    fn call(&mut self, name: String) {
        let c = self.counts.entry(name.clone()).or_insert(0);
        let k = *c;
        *c += 1;
        for (i, (w, _)) in self.proofs.iter().enumerate() {
            let ws: Vec<&str> = w.split_whitespace().collect();
            if ws.len() >= 2 && (ws[0] == "before" || ws[0] == "after") && ws[1] == name {
                let want: usize = ws.get(2).map(|s| s.parse().unwrap()).unwrap_or(0);
                if want == k {
                    self.pending.push(i);
                }
            }
        }
    }
}

impl<'a> VisitMut for Anchors<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => self.call(m.method.to_string()),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    self.call(p.path.segments.last().unwrap().ident.to_string());
                }
            }
            _ => (),
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = Vec::new();
        for mut s in std::mem::take(&mut b.stmts) {
            let outer = std::mem::take(&mut self.pending);
            self.visit_stmt_mut(&mut s);
            let mine = std::mem::replace(&mut self.pending, outer);
            let mut after = Vec::new();
            for i in mine {
                let (w, t) = &self.proofs[i];
                self.used.insert(i);
                let id = format!("{}_a{}", self.prefix, i);
                self.texts.insert(id.clone(), t.clone());
                let id = syn::Ident::new(&id, Span::call_site());
                let st: Stmt = parse_quote!(__vproof!(#id););
                if w.starts_with("before") {
                    out.push(st);
                } else {
                    after.push(st);
                }
            }
            out.push(s);
            out.extend(after);
        }
        b.stmts = out;
    }
}

pub fn rewrite_path(p: &mut Path) {
    if p.segments.len() >= 2 {
        let first = p.segments[0].ident.to_string();
        if PRIMS.contains(&first.as_str()) || capital(&first) {
            return;
        }
        let segs: Vec<syn::PathSegment> = p.segments.iter().cloned().collect();
        if segs[0].ident == "signature" && segs[1].ident == "Error" {
            *p = parse_quote!(SignatureError);
            return;
        }
        let k = segs.iter().position(|s| capital(&s.ident.to_string())).unwrap_or(segs.len() - 1);
        p.leading_colon = None;
        p.segments = segs.into_iter().skip(k).collect();
    }
}

/// `dyn T<A, X = B>` becomes `TObj<A, B>`.
fn object_type(o: &syn::TypeTraitObject) -> Type {
    let mut bounds = o.bounds.clone();
    filter_bounds(&mut bounds);
    if let Some(TypeParamBound::Trait(t)) = bounds.first() {
        let s = t.path.segments.last().unwrap();
        if s.ident == "CryptoRngCore" {
            return parse_quote!(Rng);
        }
        let name = syn::Ident::new(&format!("{}Obj", s.ident), s.ident.span());
        let mut args: Vec<TokenStream> = Vec::new();
        if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
            for x in &a.args {
                match x {
                    syn::GenericArgument::Type(t) => args.push(t.to_token_stream()),
                    syn::GenericArgument::AssocType(t) => args.push(t.ty.to_token_stream()),
                    _ => (),
                }
            }
        }
        return parse_quote!(#name<#(#args),*>);
    }
    parse_quote!(AnyObj)
}

pub fn rewrite_type(t: &mut Type) {
    // tuple of named return
    let new: Option<Type> = match t {
        Type::Reference(r) => {
            if r.lifetime.as_ref().map(|l| l.ident == "static").unwrap_or(false) {
                r.lifetime = None;
            }
            match &*r.elem {
                Type::Path(p) if p.path.is_ident("str") => Some(parse_quote!(VStr)),
                // what was sent into a channel is the state of this sender
                Type::Path(p) if p.path.segments.last().unwrap().ident == "Sender" => {
                    let t = &r.elem;
                    Some(parse_quote!(&mut #t))
                }
                _ => None,
            }
        }
        Type::Slice(s) => match &*s.elem {
            Type::Path(p) if p.path.is_ident("u8") => Some(parse_quote!(Bytes)),
            _ => None,
        },
        Type::Path(p) => {
            let last = p.path.segments.last().unwrap();
            if last.ident == "Output" && p.path.segments.first().unwrap().ident == "digest" {
                Some(parse_quote!(Bytes))
            } else if last.ident == "Box" {
                match &last.arguments {
                    syn::PathArguments::AngleBracketed(a) if a.args.to_token_stream().to_string() == "[u8]" => {
                        Some(parse_quote!(Bytes))
                    }
                    syn::PathArguments::AngleBracketed(a) => match a.args.first() {
                        // a boxed trait object is the object type of the trait
                        Some(syn::GenericArgument::Type(Type::TraitObject(i))) => Some(object_type(i)),
                        _ => None,
                    },
                    _ => None,
                }
            } else {
                None
            }
        }
        Type::ImplTrait(i) if i.bounds.to_token_stream().to_string().replace(' ', "") == "Into<String>" => {
            Some(parse_quote!(impl VInto<String>))
        }
        Type::ImplTrait(i) if i.bounds.to_token_stream().to_string() == "CryptoRngCore" => Some(parse_quote!(Rng)),
        Type::TraitObject(i) => Some(object_type(i)),
        Type::BareFn(f) => match &f.output {
            syn::ReturnType::Type(_, t) if f.inputs.is_empty() => Some((**t).clone()),
            _ => None,
        },
        _ => None,
    };
    if let Some(n) = new {
        *t = n;
    }
    if let Type::ImplTrait(i) = t {
        filter_bounds(&mut i.bounds);
    }
}

pub fn rewrite_generics(g: &mut Generics) {
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.attrs.clear();
            filter_bounds(&mut t.bounds);
            if t.bounds.is_empty() {
                t.colon_token = None;
            }
        }
        if let GenericParam::Lifetime(l) = p {
            l.bounds.clear();
            l.colon_token = None;
        }
    }
    if let Some(w) = &mut g.where_clause {
        let mut preds: Vec<WherePredicate> = Vec::new();
        for p in w.predicates.iter() {
            if let WherePredicate::Type(t) = p {
                let mut t = t.clone();
                if t.lifetimes.is_some() {
                    continue;
                }
                filter_bounds(&mut t.bounds);
                if !t.bounds.is_empty() {
                    preds.push(WherePredicate::Type(t));
                }
            }
        }
        if preds.is_empty() {
            g.where_clause = None;
        } else {
            w.predicates = preds.into_iter().collect();
        }
    }
}
