//! Walks the items of the source files and prints them with their contracts.
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::{
    parse_quote, spanned::Spanned, visit::Visit, visit_mut::VisitMut, Block, Fields, ImplItem, Item, ReturnType,
    Signature, TraitItem, Type, Visibility,
};

use crate::{
    contracts::{Contracts, FnContract},
    print::print,
    rewrite::{filter_bounds, rewrite_generics, rewrite_path, Rewriter},
};

const DROPPED_IMPLS: &[&str] = &[
    "Debug", "Display", "Serialize", "Deserialize", "Error", "Deref", "DerefMut", "Send", "Sync", "Eq", "Hash",
    "AsRef", "FromIterator", "Visitor", "Default",
];

struct FnInfo {
    key: String,
    file: String,
    src: (usize, usize),
    out: (usize, usize),
    trusted: Option<String>,
    contract: bool,
    lost: bool,
    loops: usize,
    closures: usize,
    calls: BTreeSet<String>,
    problems: Vec<String>,
    keys: Vec<String>,
    extra: Vec<String>,
    props: Vec<String>,
}

pub struct Emitter {
    pub contracts: Contracts,
    lost: BTreeSet<String>,
    pub out: String,
    line: usize,
    fns: Vec<FnInfo>,
    types: Vec<(String, String)>,
    problems: Vec<String>,
    seen: BTreeSet<String>,
    n: usize,
    skipped: Vec<String>,
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        Type::Array(_) => "Array".into(),
        _ => "?".into(),
    }
}

/// Trivially true clauses naming the specification functions of an impl: Verus orders definitions
/// by mention, and an impl's function does not mention what its trait's contract mentions.
fn fn_pins(members: &str) -> String {
    let mut out = Vec::new();
    let mut rest = members;
    while let Some(at) = rest.find("spec fn ") {
        rest = &rest[at + 8..];
        let Some(end) = rest.find("->") else { break };
        let head = rest[..end].trim();
        let Ok(sig) = syn::parse_str::<Signature>(&format!("fn {head}")) else { continue };
        let mut vars = Vec::new();
        let mut args = Vec::new();
        let mut recv = false;
        for (i, a) in sig.inputs.iter().enumerate() {
            match a {
                syn::FnArg::Receiver(_) => {
                    recv = true;
                    vars.push("__s: Self".to_string());
                }
                syn::FnArg::Typed(t) => {
                    vars.push(format!("__a{i}: {}", t.ty.to_token_stream()));
                    args.push(format!("__a{i}"));
                }
            }
        }
        let name = sig.ident.to_string();
        let call = if recv { format!("__s.{name}({})", args.join(", ")) } else { format!("Self::{name}({})", args.join(", ")) };
        if !sig.generics.params.is_empty() {
            continue;
        }
        if vars.is_empty() {
            out.push(format!("{call} == {call}"));
        } else {
            out.push(format!("(forall|{}| (#[trigger] {call}) == {call})", vars.join(", ")));
        }
    }
    out.join(", ")
}

/// The function as a free function `name`, with `this` for `self`.
fn detach(name: &str, mut sig: Signature, block: &Block, mut g: syn::Generics, self_ty: Type, tr: Option<syn::Path>) -> syn::ItemFn {
    sig.ident = syn::Ident::new(name, sig.ident.span());
    g.params.extend(sig.generics.params.clone());
    if let Some(w) = &sig.generics.where_clause {
        g.make_where_clause().predicates.extend(w.predicates.clone());
    }
    sig.generics = g;
    let mut free: syn::ItemFn = parse_quote!(#sig #block);
    if let Some(syn::FnArg::Receiver(r)) = free.sig.inputs.first().cloned() {
        let ty: Type = match (&r.reference, &r.mutability) {
            (Some(_), Some(_)) => parse_quote!(&mut Self),
            (Some(_), None) => parse_quote!(&Self),
            _ => parse_quote!(Self),
        };
        free.sig.inputs[0] = parse_quote!(this: #ty);
    }
    struct SelfTy(Type, Option<syn::Path>);
    impl VisitMut for SelfTy {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t {
                if p.path.is_ident("Self") {
                    *t = self.0.clone();
                    return;
                }
                if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                    let (me, x) = (&self.0, &p.path.segments[1]);
                    if let Some(tr) = &self.1 {
                        *t = parse_quote!(<#me as #tr>::#x);
                        return;
                    }
                }
            }
            syn::visit_mut::visit_type_mut(self, t);
        }
        fn visit_path_mut(&mut self, p: &mut syn::Path) {
            if p.segments.len() == 2 && p.segments[0].ident == "Self" {
                if let Type::Path(me) = &self.0 {
                    let mut first = me.path.segments.last().unwrap().clone();
                    if let syn::PathArguments::AngleBracketed(a) = &mut first.arguments {
                        a.colon2_token = Some(Default::default());
                    }
                    p.segments[0] = first;
                }
            }
            syn::visit_mut::visit_path_mut(self, p);
        }
        fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
            if matches!(e, syn::Expr::Path(p) if p.path.is_ident("self")) {
                *e = parse_quote!(this);
            } else {
                syn::visit_mut::visit_expr_mut(self, e);
            }
        }
    }
    SelfTy(self_ty, tr).visit_item_fn_mut(&mut free);
    free
}

fn unbound(g: &mut syn::Generics) {
    for p in g.type_params_mut() {
        p.bounds.clear();
        p.colon_token = None;
    }
    g.where_clause = None;
}

fn has_cfg_test(attrs: &[syn::Attribute]) -> bool {
    // what is there only for the tests (and not for the `dev` feature too)
    attrs.iter().any(|a| {
        let t = a.to_token_stream().to_string();
        a.path().is_ident("cfg") && t.contains("test") && !t.contains("\"dev\"")
    })
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut v = Vec::new();
    for a in attrs {
        if a.path().is_ident("derive") || a.path().segments.last().unwrap().ident == "derive_where" {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

struct CallNames(BTreeSet<String>, usize, usize);
impl<'a> Visit<'a> for CallNames {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        self.0.insert(format!(".{}", m.method));
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let mut p = p.path.clone();
            rewrite_path(&mut p);
            let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
            self.0.insert(s.join("::"));
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        self.2 += 1;
        syn::visit::visit_expr_closure(self, c);
    }
    fn visit_expr_for_loop(&mut self, c: &'a syn::ExprForLoop) {
        self.1 += 1;
        syn::visit::visit_expr_for_loop(self, c);
    }
    fn visit_expr_while(&mut self, c: &'a syn::ExprWhile) {
        self.1 += 1;
        syn::visit::visit_expr_while(self, c);
    }
    fn visit_expr_loop(&mut self, c: &'a syn::ExprLoop) {
        self.1 += 1;
        syn::visit::visit_expr_loop(self, c);
    }
}

impl Emitter {
    pub fn new(contracts: Contracts, lost: BTreeSet<String>) -> Self {
        Self {
            contracts,
            lost,
            out: String::new(),
            line: 1,
            fns: vec![],
            types: vec![],
            problems: vec![],
            seen: BTreeSet::new(),
            n: 0,
            skipped: vec![],
        }
    }

    pub fn raw(&mut self, s: &str) {
        self.line += s.matches('\n').count();
        self.out.push_str(s);
    }

    pub fn raw_block(&mut self, title: &str, props: Vec<String>, text: &str) {
        let start = self.line;
        self.raw(text);
        self.raw("\n");
        self.fns.push(FnInfo {
            key: format!("raw {title}"),
            file: String::new(),
            src: (0, 0),
            out: (start, self.line),
            trusted: None,
            contract: true,
            lost: false,
            loops: 0,
            closures: 0,
            calls: BTreeSet::new(),
            keys: vec![],
            extra: vec![],
            problems: vec![],
            props,
        });
    }

    pub fn problem(&mut self, s: &str) {
        self.problems.push(s.to_string());
    }

    fn skip(&self, k: &str) -> bool {
        self.contracts.skip.contains(k)
    }

    pub fn file(&mut self, file: &str, ast: syn::File) {
        self.raw(&format!("\n// ==== {file}\n"));
        let module = self.contracts.modules.get(file).cloned();
        if let Some((m, text)) = &module {
            self.raw(&format!("pub mod {m} {{\nuse super::*;\nbroadcast use {{group_pre, group_coll, group_sp, group_lemmas}};\n{text}\n"));
        }
        for item in ast.items {
            self.item(file, item);
        }
        if module.is_some() {
            self.raw("}\n");
        }
    }

    fn item(&mut self, file: &str, item: Item) {
        match item {
            Item::Fn(f) => {
                if has_cfg_test(&f.attrs) {
                    return;
                }
                let key = f.sig.ident.to_string();
                if self.skip(&key) {
                    self.skipped.push(format!("fn {key}"));
                    return;
                }
                let span = f.span();
                let hoisted = self.function(file, &key, f.sig, Some(*f.block), "pub ", (span.start().line, span.end().line), None);
                for h in hoisted {
                    self.item(file, h);
                }
            }
            Item::Struct(mut s) => {
                let name = s.ident.to_string();
                if has_cfg_test(&s.attrs) || self.skip(&name) {
                    return;
                }
                let d = derives(&s.attrs);
                let dummy = FnContract::default();
                let mut rw = Rewriter::new(&dummy, "t");
                rewrite_generics(&mut s.generics);
                if self.contracts.unbounded.contains(&name) {
                    unbound(&mut s.generics);
                }
                rw.visit_item_struct_mut(&mut s);
                s.vis = parse_quote!(pub);
                match &mut s.fields {
                    Fields::Named(f) => f.named.iter_mut().for_each(|f| f.vis = parse_quote!(pub)),
                    Fields::Unnamed(f) => f.unnamed.iter_mut().for_each(|f| f.vis = parse_quote!(pub)),
                    Fields::Unit => (),
                }
                s.attrs.clear();
                let text = print(s.to_token_stream(), &BTreeMap::new());
                self.types.push((name.clone(), s.to_token_stream().to_string()));
                for p in s.generics.type_params() {
                    self.raw(&format!("#[verifier::reject_recursive_types({})]\n", p.ident));
                }
                if let Some(attrs) = self.contracts.opaque.get(&name).cloned() {
                    self.raw(&format!("{attrs}\n"));
                }
                self.raw(&text);
                self.raw("\n");
                self.derive(&name, &s.generics, &d);
            }
            Item::Enum(mut s) => {
                let name = s.ident.to_string();
                if has_cfg_test(&s.attrs) || self.skip(&name) {
                    return;
                }
                let d = derives(&s.attrs);
                let dummy = FnContract::default();
                let mut rw = Rewriter::new(&dummy, "t");
                rewrite_generics(&mut s.generics);
                if self.contracts.unbounded.contains(&name) {
                    unbound(&mut s.generics);
                }
                rw.visit_item_enum_mut(&mut s);
                s.vis = parse_quote!(pub);
                s.attrs.clear();
                let text = print(s.to_token_stream(), &BTreeMap::new());
                self.types.push((name.clone(), s.to_token_stream().to_string()));
                for p in s.generics.type_params() {
                    self.raw(&format!("#[verifier::reject_recursive_types({})]\n", p.ident));
                }
                if let Some(attrs) = self.contracts.opaque.get(&name).cloned() {
                    self.raw(&format!("{attrs}\n"));
                }
                self.raw(&text);
                self.raw("\n");
                self.derive(&name, &s.generics, &d);
            }
            Item::Type(mut t) => {
                if self.skip(&t.ident.to_string()) {
                    return;
                }
                let dummy = FnContract::default();
                let mut rw = Rewriter::new(&dummy, "t");
                rewrite_generics(&mut t.generics);
                rw.visit_item_type_mut(&mut t);
                t.vis = parse_quote!(pub);
                t.attrs.clear();
                let text = print(t.to_token_stream(), &BTreeMap::new());
                self.raw(&text);
                self.raw("\n");
            }
            Item::Const(mut t) => {
                if self.skip(&t.ident.to_string()) {
                    return;
                }
                let dummy = FnContract::default();
                let mut rw = Rewriter::new(&dummy, "t");
                rw.visit_item_const_mut(&mut t);
                t.vis = parse_quote!(pub);
                t.attrs.clear();
                let text = print(t.to_token_stream(), &BTreeMap::new());
                self.raw(&text);
                self.raw("\n");
            }
            Item::Trait(t) => self.trait_(file, t),
            Item::Impl(i) => self.impl_(file, i),
            Item::Use(_) | Item::Mod(_) | Item::ExternCrate(_) | Item::Macro(_) => (),
            other => self.problem(&format!("item not handled: {}", other.to_token_stream().to_string().chars().take(60).collect::<String>())),
        }
    }

    fn derive(&mut self, name: &str, g: &syn::Generics, d: &[String]) {
        if d.iter().any(|x| x == "Clone") {
            let (ig, tg, wc) = g.split_for_impl();
            let id = syn::Ident::new(name, proc_macro2::Span::call_site());
            let head = print(quote!(impl #ig VClone for #id #tg #wc), &BTreeMap::new());
            self.raw(&format!(
                "{head} {{ #[verifier::external_body] fn clone(&self) -> (ret: Self) {{ unimplemented!() }} }}\n"
            ));
        }
    }

    fn trait_(&mut self, file: &str, mut t: syn::ItemTrait) {
        let name = t.ident.to_string();
        if has_cfg_test(&t.attrs) || self.skip(&name) {
            self.skipped.push(format!("trait {name}"));
            // The shape of a skipped trait is still recorded.
            let mut sig = String::new();
            for i in &t.items {
                match i {
                    TraitItem::Fn(f) => sig.push_str(&f.sig.to_token_stream().to_string()),
                    TraitItem::Type(x) => sig.push_str(&x.ident.to_string()),
                    TraitItem::Const(x) => sig.push_str(&x.ident.to_string()),
                    _ => (),
                }
                sig.push(';');
            }
            self.types.push((format!("trait {name}"), sig));
            return;
        }
        rewrite_generics(&mut t.generics);
        filter_bounds(&mut t.supertraits);
        let dummy = FnContract::default();
        {
            let mut rw = Rewriter::new(&dummy, "t");
            rw.visit_generics_mut(&mut t.generics);
        }
        let items = std::mem::take(&mut t.items);
        let this_trait: syn::Path = {
            let id = &t.ident;
            let (_, tg, _) = t.generics.split_for_impl();
            parse_quote!(#id #tg)
        };
        let generics0 = t.generics.clone();
        t.vis = parse_quote!(pub);
        t.attrs.clear();
        if t.supertraits.is_empty() {
            t.colon_token = None;
            t.supertraits.push(parse_quote!(Sized));
            t.colon_token = Some(Default::default());
        }
        let head = print(t.to_token_stream(), &BTreeMap::new());
        let head = head.trim_end().trim_end_matches('}').trim_end().to_string();
        self.raw(&head);
        self.raw("\n");
        if let Some(m) = self.contracts.members.get(&format!("trait {name}")).cloned() {
            self.raw(&m);
        }
        let mut hoisted = vec![];
        for i in items {
            match i {
                TraitItem::Fn(f) => {
                    if has_cfg_test(&f.attrs) {
                        continue;
                    }
                    let key = format!("{name}::{}", f.sig.ident);
                    if self.skip(&key) {
                        continue;
                    }
                    let span = f.span();
                    let mut f = f;
                    // `impl Trait` in the return type of a trait's function stands for an associated type
                    let mut n = 0;
                    let fname = f.sig.ident.clone();
                    struct Rpit<'x>(&'x mut usize, syn::Ident, Vec<(syn::Ident, syn::TypeImplTrait)>);
                    impl syn::visit_mut::VisitMut for Rpit<'_> {
                        fn visit_type_mut(&mut self, t: &mut syn::Type) {
                            if let syn::Type::ImplTrait(i) = t {
                                let id = syn::Ident::new(&format!("Ret_{}_{}", self.1, *self.0), proc_macro2::Span::call_site());
                                *self.0 += 1;
                                self.2.push((id.clone(), i.clone()));
                                *t = parse_quote!(Self::#id);
                            } else {
                                syn::visit_mut::visit_type_mut(self, t);
                            }
                        }
                    }
                    if let (Some(d), Some(b)) = (self.contracts.fns.get(&key).and_then(|c| c.detached.clone()), &f.default) {
                        // the body a default has
                        let mut g = generics0.clone();
                        g.params.push(parse_quote!(VSelf: #this_trait));
                        hoisted.push(Item::Fn(detach(&d, f.sig.clone(), b, g, parse_quote!(VSelf), Some(this_trait.clone()))));
                    }
                    let mut rp = Rpit(&mut n, fname, vec![]);
                    rp.visit_return_type_mut(&mut f.sig.output);
                    for (id, i) in rp.2 {
                        let mut i = i;
                        filter_bounds(&mut i.bounds);
                        let b = &i.bounds;
                        self.raw(&print(quote!(type #id: #b;), &BTreeMap::new()));
                        self.raw("\n");
                    }
                    hoisted.extend(self.function(file, &key, f.sig, f.default, "", (span.start().line, span.end().line), None));
                }
                TraitItem::Type(mut x) => {
                    filter_bounds(&mut x.bounds);
                    if let Some(b) = self.contracts.bounds.get(&format!("{name}::{}", x.ident)) {
                        let id = &x.ident;
                        let text = if b.is_empty() { format!("type {id};") } else { format!("type {id}: {b};") };
                        x = syn::parse_str(&text).expect("bounds");
                    }
                    if x.bounds.is_empty() {
                        x.colon_token = None;
                    }
                    x.attrs.clear();
                    let mut rw = Rewriter::new(&dummy, "t");
                    rw.visit_trait_item_type_mut(&mut x);
                    let s = print(x.to_token_stream(), &BTreeMap::new());
                    self.raw(&s);
                }
                TraitItem::Const(mut x) => {
                    x.attrs.clear();
                    let mut rw = Rewriter::new(&dummy, "t");
                    rw.visit_trait_item_const_mut(&mut x);
                    let s = print(x.to_token_stream(), &BTreeMap::new());
                    self.raw(&s);
                }
                _ => (),
            }
        }
        self.raw("}\n");
        for h in hoisted {
            self.item(file, h);
        }
    }

    fn impl_(&mut self, file: &str, mut im: syn::ItemImpl) {
        if has_cfg_test(&im.attrs) {
            return;
        }
        let tname = type_name(&im.self_ty);
        let mut trait_key = None;
        let mut whole = tname.clone();
        if let Some((_, path, _)) = &mut im.trait_ {
            let last = path.segments.last().unwrap();
            let mut tn = last.ident.to_string();
            if tn == "From" || tn == "PartialEq" {
                let mut l = last.clone();
                let dummy = FnContract::default();
                Rewriter::new(&dummy, "t").visit_path_segment_mut(&mut l);
                tn = l.to_token_stream().to_string().replace(' ', "");
            }
            whole = format!("{tname} as {tn}");
            trait_key = Some(tn.clone());
        }
        if self.skip(&whole) || self.skip(&tname) {
            self.skipped.push(format!("impl {whole}"));
            return;
        }
        if let Some(tk) = &trait_key {
            let base = tk.split('<').next().unwrap();
            let forced = self.contracts.members.contains_key(&whole);
            if DROPPED_IMPLS.contains(&base) && !forced {
                self.skipped.push(format!("impl {whole}"));
                return;
            }
            if (base == "PartialOrd" || base == "Ord") && !forced {
                self.problem(&format!("manual impl {whole}"));
                return;
            }
        }
        let dummy = FnContract::default();
        rewrite_generics(&mut im.generics);
        let items = std::mem::take(&mut im.items);
        im.attrs.clear();
        let (generics0, self_ty0) = (im.generics.clone(), (*im.self_ty).clone());
        {
            let mut rw = Rewriter::new(&dummy, "t");
            rw.visit_item_impl_mut(&mut im);
        }
        // renamed traits
        if let Some((_, path, _)) = &mut im.trait_ {
            let last = path.segments.last_mut().unwrap();
            let id = last.ident.to_string();
            let new = match id.as_str() {
                "From" => Some("VFrom"),
                "Clone" => Some("VClone"),
                "PartialEq" => Some("VEq"),
                _ => None,
            };
            if let Some(n) = new {
                last.ident = syn::Ident::new(n, last.ident.span());
            }
        }
        let is_trait = im.trait_.is_some();
        let tr = trait_key.clone().unwrap_or_default();
        let head = print(im.to_token_stream(), &BTreeMap::new());
        let head = head.trim_end().trim_end_matches('}').trim_end().to_string();
        self.raw(&head);
        self.raw("\n");
        let mut pin = String::new();
        if let Some(m) = self.contracts.members.get(&whole).cloned() {
            self.raw(&m);
            if is_trait {
                pin = fn_pins(&m);
            }
        }
        let mut hoisted = vec![];
        for i in items {
            match i {
                ImplItem::Fn(mut f) => {
                    if has_cfg_test(&f.attrs) {
                        continue;
                    }
                    let key = format!("{whole}::{}", f.sig.ident);
                    if self.skip(&key) {
                        self.skipped.push(format!("fn {key}"));
                        continue;
                    }
                    if tr.starts_with("From<") && f.sig.ident == "from" {
                        f.sig.ident = syn::Ident::new("vfrom", f.sig.ident.span());
                    }
                    let span = f.span();
                    let vis = if is_trait { "" } else { "pub " };
                    if let Some(d) = self.contracts.fns.get(&key).and_then(|c| c.detached.clone()) {
                        let tr = im.trait_.as_ref().map(|t| t.1.clone());
                        let free = detach(&d, f.sig.clone(), &f.block, generics0.clone(), self_ty0.clone(), tr);
                        hoisted.push(Item::Fn(free));
                    }
                    hoisted.extend(self.function(
                        file,
                        &key,
                        f.sig,
                        Some(f.block),
                        vis,
                        (span.start().line, span.end().line),
                        Some(pin.clone()),
                    ));
                }
                ImplItem::Type(mut x) => {
                    x.attrs.clear();
                    x.vis = Visibility::Inherited;
                    let mut rw = Rewriter::new(&dummy, "t");
                    rw.visit_impl_item_type_mut(&mut x);
                    let s = print(x.to_token_stream(), &BTreeMap::new());
                    self.raw(&s);
                }
                ImplItem::Const(mut x) => {
                    x.attrs.clear();
                    x.vis = if is_trait { Visibility::Inherited } else { parse_quote!(pub) };
                    let mut rw = Rewriter::new(&dummy, "t");
                    rw.visit_impl_item_const_mut(&mut x);
                    let s = print(x.to_token_stream(), &BTreeMap::new());
                    self.raw(&s);
                }
                _ => (),
            }
        }
        self.raw("}\n");
        for h in hoisted {
            self.item(file, h);
        }
    }

    fn function(
        &mut self,
        file: &str,
        key: &str,
        mut sig: Signature,
        block: Option<Block>,
        vis: &str,
        src: (usize, usize),
        pin: Option<String>,
    ) -> Vec<Item> {
        self.seen.insert(key.to_string());
        self.n += 1;
        let default = FnContract::default();
        let contract = self.contracts.fns.get(key).cloned();
        let has_contract = contract.is_some();
        let contract = contract.unwrap_or(default);
        if self.lost.contains(&format!("!{key}")) {
            self.fns.push(FnInfo {
                key: key.into(),
                file: file.into(),
                src,
                out: (0, 0),
                trusted: None,
                contract: has_contract,
                lost: true,
                loops: 0,
                closures: 0,
                calls: BTreeSet::new(),
                problems: vec!["signature not supported".into()],
                keys: vec![],
                extra: vec![],
                props: contract.props.clone(),
            });
            return vec![];
        }
        let lost = self.lost.contains(key);
        let mut cn = CallNames(BTreeSet::new(), 0, 0);
        if let Some(b) = &block {
            cn.visit_block(b);
        }
        let prefix = format!("f{}", self.n);
        let mut rw = Rewriter::new(&contract, &prefix);
        if let ReturnType::Type(_, t) = &sig.output {
            if let syn::Type::Path(p) = &**t {
                rw.returns_option = p.path.segments.last().unwrap().ident == "Option";
            }
        }
        let returns_option = rw.returns_option;
        let mut extra = Vec::new();
        if let (Some(b), Some(base)) = (&block, self.contracts.shapes.get(key)) {
            // the annotations are placed by what they were written for, not by position
            let mut probe = Rewriter::new(&contract, &prefix);
            probe.returns_option = returns_option;
            probe.visit_signature_mut(&mut sig.clone());
            probe.body(&mut b.clone());
            for kind in ["loop", "closure", "map"] {
                let new: Vec<&String> = probe.keys.iter().filter(|k| k.0 == kind).map(|k| &k.1).collect();
                let old: Vec<&String> = base.iter().filter(|k| k.0 == kind).map(|k| &k.1).collect();
                for (i, n) in align(&old, &new).into_iter().enumerate() {
                    match n {
                        Some(n) => drop(rw.numbers.insert((kind, i), n)),
                        None => {
                            rw.numbers.insert((kind, i), 100 + i);
                            extra.push(format!("{kind} {i}"));
                        }
                    }
                }
            }
        }
        rw.visit_signature_mut(&mut sig);
        sig.constness = None;
        sig.asyncness = None;
        if let ReturnType::Type(_, t) = &sig.output {
            let t = t.clone();
            sig.output = parse_quote!(-> (__vret, #t));
        }
        let mut spec = contract.spec.clone().unwrap_or_default();
        if let Some(p) = pin.filter(|p| !p.is_empty()) {
            spec = match spec.find("ensures") {
                Some(at) => format!("{} {p}, {}", &spec[..at + 7], &spec[at + 7..]),
                None => format!("{spec}\nensures {p},\n"),
            };
        }
        let mut text = String::new();
        for a in &contract.attrs {
            text.push_str(a);
            text.push('\n');
        }
        let mut hoisted = vec![];
        match block {
            Some(mut block) if contract.trusted.is_none() && !lost => {
                rw.body(&mut block);
                hoisted = std::mem::take(&mut rw.hoisted);
                // the specification goes before the body
                let id = syn::Ident::new(&format!("{prefix}_spec"), proc_macro2::Span::call_site());
                rw.texts.insert(format!("{prefix}_spec"), spec);
                block.stmts.insert(0, parse_quote!(__vspec!(#id);));
                text.push_str(vis);
                text.push_str(&print(quote!(#sig #block), &rw.texts));
            }
            Some(_) => {
                text.push_str("#[verifier::external_body]\n");
                text.push_str(vis);
                text.push_str(&print(sig.to_token_stream(), &rw.texts));
                text.push('\n');
                text.push_str(&spec);
                text.push_str("{ unimplemented!() }");
            }
            None => {
                text.push_str(vis);
                text.push_str(&print(sig.to_token_stream(), &rw.texts));
                text.push('\n');
                text.push_str(&spec);
                text.push(';');
            }
        }
        let problems = rw.problems.clone();
        let keys = rw.keys.iter().map(|(k, t)| format!("{k} {t}")).collect();
        let start = self.line;
        self.raw(&format!("// -- {key}\n"));
        self.raw(&text);
        self.raw("\n");
        let end = self.line;
        self.fns.push(FnInfo {
            key: key.into(),
            file: file.into(),
            src,
            out: (start, end),
            trusted: contract.trusted.clone(),
            contract: has_contract,
            lost,
            loops: cn.1,
            closures: cn.2,
            calls: cn.0,
            problems,
            keys,
            extra,
            props: contract.props.clone(),
        });
        hoisted
    }

    pub fn finish(&mut self) {
        let missing: Vec<String> =
            self.contracts.fns.keys().filter(|k| !self.seen.contains(*k)).cloned().collect();
        for k in missing {
            self.problems.push(format!("contract for a function that is not there: {k}"));
        }
    }

    pub fn json(&self) -> String {
        fn q(s: &str) -> String {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    '\t' => o.push_str("\\t"),
                    c if (c as u32) < 32 => (),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        }
        fn arr<'a>(v: impl Iterator<Item = &'a String>) -> String {
            format!("[{}]", v.map(|s| q(s)).collect::<Vec<_>>().join(","))
        }
        let mut fns = Vec::new();
        for f in &self.fns {
            fns.push(format!(
                "{{\"key\":{},\"file\":{},\"src\":[{},{}],\"out\":[{},{}],\"trusted\":{},\"contract\":{},\"lost\":{},\"loops\":{},\"closures\":{},\"calls\":{},\"problems\":{},\"keys\":{},\"extra\":{},\"props\":{}}}",
                q(&f.key), q(&f.file), f.src.0, f.src.1, f.out.0, f.out.1,
                f.trusted.as_ref().map(|s| q(s)).unwrap_or("null".into()),
                f.contract, f.lost, f.loops, f.closures, arr(f.calls.iter()), arr(f.problems.iter()), arr(f.keys.iter()), arr(f.extra.iter()), arr(f.props.iter())
            ));
        }
        let types: Vec<String> = self.types.iter().map(|(a, b)| format!("{}:{}", q(a), q(b))).collect();
        format!(
            "{{\"fns\":[\n{}\n],\"problems\":{},\"skipped\":{},\"types\":{{{}}}}}\n",
            fns.join(",\n"),
            arr(self.problems.iter()),
            arr(self.skipped.iter()),
            types.join(",")
        )
    }
}

/// For every element of `new` the index of the element of `old` it stands for: equal ones first, and those
/// between them in order if there are as many.
fn align(old: &[&String], new: &[&String]) -> Vec<Option<usize>> {
    let (n, m) = (old.len(), new.len());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            l[i][j] = if old[i] == new[j] { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) };
        }
    }
    let mut out = vec![None; m];
    let (mut i, mut j, mut gi, mut gj) = (0, 0, 0, 0);
    loop {
        let hit = i < n && j < m && old[i] == new[j];
        if hit || i == n && j == m {
            if i - gi == j - gj {
                for k in 0..i - gi {
                    out[gj + k] = Some(gi + k);
                }
            }
            if !hit {
                break;
            }
            out[j] = Some(i);
            i += 1;
            j += 1;
            gi = i;
            gj = j;
        } else if j == m || i < n && l[i + 1][j] >= l[i][j + 1] {
            i += 1;
        } else {
            j += 1;
        }
    }
    out
}
