//! Mechanical source transformer. Run on every check, on /repo's current source.
//!
//!   xform sym  SRC_DIR OUT_DIR   f64 becomes the symbolic real `::sym::Sym`; iterative linear-algebra
//!                                calls are redirected to their assumed contracts in `::sym::shim`
//!   xform real SRC_DIR OUT_DIR   only widens visibility and drops #[cfg(test)] items
//!
//! What it changes is exactly what is in this file; everything else is copied token for token.
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::path::Path;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Method calls with no closed form: redirected to `sym::shim` traits of assumed contracts.
const SHIM_METHODS: &[&str] = &[
    "try_symmetric_eigen", "symmetric_eigen", "try_svd", "svd", "complex_eigenvalues", "full_piv_lu", "lu", "scaled_axis", "symmetric_eigenvalues", "singular_values", "qr", "full_piv_lu_solve", "is_identity",
];
struct X {
    sym: bool,
    hooks: Vec<String>,
    impl_stack: Vec<String>,
    module: String,
    trait_impl: bool,
    /// `for` loops over iterators become `sym::seq::Loop`s
    loops: bool,
    /// `for` loops over ranges become `sym::seq::Count`s
    counts: bool,
    /// slice parameters become `sym::seq::Slice`s
    slices: bool,
}
fn is_test_attr(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = a.to_token_stream().to_string().replace(' ', "");
        t.starts_with("#[cfg(test)]") || t == "#[test]"
    })
}
fn drop_attrs(attrs: &mut Vec<Attribute>, sym: bool) {
    attrs.retain(|a| {
        let t = a.to_token_stream().to_string();
        if t.contains("serde") || a.path().is_ident("doc") || a.path().is_ident("warn") || a.path().is_ident("deny") || a.path().is_ident("forbid") {
            return false;
        }
        let _ = sym;
        true
    });
}
thread_local! {
    /// f32 is a real too, and casts to integers go through the engine (crates on images)
    static NARROW: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
fn narrow() -> bool {
    NARROW.with(|n| n.get())
}
fn is_int(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.path.get_ident().map_or(false, |i| matches!(i.to_string().as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize")))
}
fn f64_const(name: &str) -> bool {
    matches!(name, "PI" | "TAU" | "E" | "SQRT_2" | "FRAC_1_SQRT_2" | "FRAC_PI_2" | "FRAC_PI_3" | "FRAC_PI_4" | "FRAC_PI_6" | "FRAC_PI_8" | "FRAC_1_PI" | "FRAC_2_PI" | "LN_2" | "LN_10")
}
/// Token-level rewriting: f64 ident, float literals, float_ord.
fn tokens(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    let is_colon2 = |v: &[TokenTree], i: usize| matches!((v.get(i), v.get(i + 1)), (Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b))) if a.as_char() == ':' && b.as_char() == ':');
    while i < v.len() {
        match &v[i] {
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), tokens(g.stream()));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            TokenTree::Ident(id) => {
                let mut s = id.to_string();
                if s == "f32" && narrow() {
                    s = "f64".into();
                }
                if s == "f64" || s == "float_ord" {
                    // std::f64::consts::X / core::f64::consts::X / f64::consts::X
                    if s == "f64" && is_colon2(&v, i + 1) {
                        if let Some(TokenTree::Ident(c)) = v.get(i + 3) {
                            if c == "consts" {
                                strip_prefix(&mut out);
                                if let (true, Some(TokenTree::Ident(k))) = (is_colon2(&v, i + 4), v.get(i + 6)) {
                                    let import = matches!(out.last(), Some(TokenTree::Ident(u)) if u == "use");
                                    if f64_const(&k.to_string()) && !import {
                                        let k = k.clone();
                                        out.extend(quote!(::sym::Sym::lit(::std::f64::consts::#k)));
                                        i += 7;
                                        continue;
                                    }
                                }
                                // use std::f64::consts;  or a use of the module
                                out.extend(quote!(::sym::consts));
                                i += 4;
                                continue;
                            }
                            // std::f64::EPSILON and friends
                            strip_prefix(&mut out);
                            out.extend(quote!(::sym::Sym));
                            i += 1;
                            continue;
                        }
                    }
                    if s == "float_ord" {
                        // avoid a double leading ::
                        strip_leading(&mut out);
                        out.extend(quote!(::sym));
                    } else {
                        strip_prefix(&mut out);
                        out.extend(quote!(::sym::Sym));
                    }
                } else {
                    out.push(v[i].clone());
                }
            }
            TokenTree::Literal(l) => {
                let s = l.to_string();
                let after_dot = matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == '.');
                let first = s.chars().next().unwrap_or(' ');
                let is_num = first.is_ascii_digit();
                let hex = s.starts_with("0x") || s.starts_with("0b") || s.starts_with("0o");
                let suffix_f64 = s.ends_with("f64");
                let suffix_f32 = s.ends_with("f32") && !narrow();
                let suffix_f64 = suffix_f64 || s.ends_with("f32") && narrow();
                let floaty = is_num && !hex && !suffix_f32 && (suffix_f64 || s.contains('.') || (s.contains(['e', 'E']) && !s.ends_with("size")));
                let prev_dot_is_range = {
                    let n = out.len();
                    n >= 2 && matches!((&out[n - 2], &out[n - 1]), (TokenTree::Punct(a), TokenTree::Punct(b)) if a.as_char() == '.' && b.as_char() == '.' && a.spacing() == Spacing::Joint)
                };
                if floaty && !(after_dot && !prev_dot_is_range) {
                    let base = s.trim_end_matches("f64").trim_end_matches("f32").trim_end_matches('_');
                    let base = if base.ends_with('.') { format!("{}0", base) } else { base.to_string() };
                    let base = if base.contains(['.', 'e', 'E']) { base } else { format!("{}.0", base) };
                    let lit: Literal = base.parse().unwrap_or_else(|_| panic!("literal {}", s));
                    out.extend(quote!(::sym::Sym::lit(#lit)));
                } else {
                    out.push(v[i].clone());
                }
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}
fn strip_leading(out: &mut Vec<TokenTree>) {
    let n = out.len();
    if n >= 2 {
        if let (TokenTree::Punct(a), TokenTree::Punct(b)) = (&out[n - 2], &out[n - 1]) {
            if a.as_char() == ':' && b.as_char() == ':' {
                let prev_ident = n >= 3 && matches!(&out[n - 3], TokenTree::Ident(_));
                if !prev_ident {
                    out.truncate(n - 2);
                }
            }
        }
    }
}
/// remove `core ::` / `std ::` (optionally with a leading ::) just emitted
fn strip_prefix(out: &mut Vec<TokenTree>) {
    let n = out.len();
    if n >= 3 {
        if let (TokenTree::Ident(m), TokenTree::Punct(a), TokenTree::Punct(b)) = (&out[n - 3], &out[n - 2], &out[n - 1]) {
            if a.as_char() == ':' && b.as_char() == ':' && (m == "std" || m == "core") {
                out.truncate(n - 3);
                strip_leading(out);
            }
        }
    }
}
fn is_f64(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.path.segments.last().map(|s| s.ident == "f64" || s.ident == "f32" && narrow()).unwrap_or(false))
}
fn macro_exprs(m: &mut Macro, x: &mut X) {
    let parser = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
    if let Ok(mut p) = parse::Parser::parse2(parser, m.tokens.clone()) {
        for e in p.iter_mut() {
            x.visit_expr_mut(e);
        }
        m.tokens = p.to_token_stream();
    }
}
impl X {
    fn public(&self, v: &mut Visibility) {
        *v = parse_quote!(pub);
    }
    fn hook_block(&mut self, sig: &Signature, block: &mut Block) {
        if !self.sym {
            return;
        }
        let name = match self.impl_stack.last() {
            Some(i) if !i.is_empty() => format!("{}::{}", i, sig.ident),
            _ => sig.ident.to_string(),
        };
        if !self.hooks.iter().any(|h| h == &name) {
            return;
        }
        let mut args = vec![];
        for a in &sig.inputs {
            match a {
                FnArg::Receiver(r) => args.push(if r.reference.is_some() { quote!(::core::clone::Clone::clone(self)) } else { quote!(::core::clone::Clone::clone(&self)) }),
                FnArg::Typed(t) => {
                    if let Pat::Ident(p) = &*t.pat {
                        let id = &p.ident;
                        let slice = matches!(&*t.ty, Type::Reference(r) if matches!(&*r.elem, Type::Slice(_)));
                        if slice && narrow() {
                            // (levels of images are not copied)
                            args.push(quote!(()));
                        } else if matches!(&*t.ty, Type::Reference(_)) {
                            args.push(quote!(::core::clone::Clone::clone(#id)));
                        } else {
                            args.push(quote!(::core::clone::Clone::clone(&#id)));
                        }
                    } else {
                        return;
                    }
                }
            }
        }
        let key = name.clone();
        println!("{}", key);
        let old = block.clone();
        *block = parse_quote!({
            if let Some(__r) = ::sym::api::hook(#key, &( #(#args,)* )) { return __r; }
            #old
        });
    }
}
/// the variable an expression is a place in, and whether it is reached through a dereference
fn root(e: &Expr) -> Option<(Ident, bool)> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| (i.clone(), false)),
        Expr::Field(f) => root(&f.base),
        Expr::Index(f) => root(&f.expr),
        Expr::Paren(f) => root(&f.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => root(&u.expr).map(|r| (r.0, true)),
        _ => None,
    }
}
#[derive(Default)]
struct Changed {
    places: Vec<(Ident, bool)>,
    receivers: Vec<Ident>,
    /// called closures
    calls: Vec<Ident>,
    bound: Vec<Ident>,
}
impl<'a> visit::Visit<'a> for Changed {
    fn visit_expr_call(&mut self, e: &'a ExprCall) {
        self.calls.extend(root(&e.func).map(|r| r.0));
        visit::visit_expr_call(self, e);
    }
    fn visit_expr_assign(&mut self, e: &'a ExprAssign) {
        self.places.extend(root(&e.left));
        if let Expr::Tuple(t) = &*e.left {
            self.places.extend(t.elems.iter().filter_map(root));
        }
        visit::visit_expr_assign(self, e);
    }
    fn visit_expr_binary(&mut self, e: &'a ExprBinary) {
        use BinOp::*;
        if matches!(e.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) {
            self.places.extend(root(&e.left));
        }
        visit::visit_expr_binary(self, e);
    }
    fn visit_expr_reference(&mut self, e: &'a ExprReference) {
        if e.mutability.is_some() {
            self.places.extend(root(&e.expr));
        }
        visit::visit_expr_reference(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'a ExprMethodCall) {
        self.receivers.extend(root(&e.receiver).map(|r| r.0));
        visit::visit_expr_method_call(self, e);
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.bound.push(p.ident.clone());
        visit::visit_pat_ident(self, p);
    }
}
#[derive(Default)]
struct Mutable(Vec<Ident>);
impl<'a> visit::Visit<'a> for Mutable {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        if p.mutability.is_some() {
            self.0.push(p.ident.clone());
        }
    }
}
#[derive(Default)]
struct Idents(Vec<String>);
impl Idents {
    fn of(ts: TokenStream) -> Self {
        fn go(ts: TokenStream, o: &mut Vec<String>) {
            for t in ts {
                match t {
                    TokenTree::Ident(i) => o.push(i.to_string()),
                    TokenTree::Group(g) => go(g.stream(), o),
                    _ => {}
                }
            }
        }
        let mut v = vec![];
        go(ts, &mut v);
        Idents(v)
    }
}
/// the tokens of a text, groups flattened
fn flat(ts: TokenStream) -> Vec<String> {
    fn go(ts: TokenStream, o: &mut Vec<String>) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    o.push("(".into());
                    go(g.stream(), o);
                    o.push(")".into());
                }
                t => o.push(t.to_string()),
            }
        }
    }
    let mut v = vec![];
    go(ts, &mut v);
    v
}
fn occurrences(text: &[String], part: &[String]) -> usize {
    if part.is_empty() { 0 } else { text.windows(part.len()).filter(|w| *w == part).count() }
}
/// Does the loop use its index and its bound only to recognise the last iteration?
fn plain_index(whole: &[String], pat: &Pat, end: &Expr, body: &Block) -> bool {
    let b = flat(end.to_token_stream());
    let body = flat(body.to_token_stream());
    let (idx, last) = match pat {
        Pat::Wild(_) => (0, 0),
        Pat::Ident(p) => {
            let i = vec![p.ident.to_string()];
            let t = |l: &[&str]| l.iter().map(|s| s.to_string()).collect::<Vec<_>>();
            let (eq, plus) = (t(&["=", "="]), t(&["+", "1"]));
            let forms = [[i.clone(), eq.clone(), b.clone(), t(&["-", "1"])].concat(), [i.clone(), plus.clone(), eq.clone(), b.clone()].concat()];
            (occurrences(&body, &i), forms.iter().map(|f| occurrences(&body, f)).sum())
        }
        _ => return false,
    };
    idx == last && occurrences(whole, &b) == 1 + last
}
/// the integer literals of the loop: where a use of the index may change its meaning
fn whole_numbers(body: &Block) -> Vec<u32> {
    let mut v: Vec<u32> = flat(body.to_token_stream()).iter().filter_map(|t| t.trim_end_matches("usize").parse().ok()).collect();
    v.sort();
    v.dedup();
    v
}
struct Loops {
    mutable: Vec<Ident>,
    func: String,
    whole: Vec<String>,
    loops: bool,
    counts: bool,
    n: usize,
}
impl VisitMut for Loops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if self.loops && m.args.len() == 1 && (m.method == "all" || m.method == "any") {
                m.method = Ident::new(&format!("{}_c", m.method), Span::call_site());
            }
        }
        let Expr::ForLoop(f) = e else { return };
        let range = match &*f.expr {
            Expr::Range(r) => Some(r),
            Expr::Paren(p) => match &*p.expr {
                Expr::Range(r) => Some(r),
                _ => None,
            },
            _ => None,
        };
        if let Some(r) = range {
            let (Some(_), Some(end), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) else { return };
            // (short loops over constants run as they are)
            let short = matches!(&**end, Expr::Lit(l) if matches!(&l.lit, Lit::Int(i) if i.base10_parse::<u32>().map_or(true, |n| n < 5)));
            if !self.counts || short {
                return;
            }
            let plain = plain_index(&self.whole, &f.pat, end, &f.body);
            let mut c = Changed::default();
            visit::Visit::visit_pat(&mut c, &f.pat);
            visit::Visit::visit_block(&mut c, &f.body);
            let mut vars: Vec<(Ident, bool)> = vec![];
            for (i, d) in c.places {
                if !c.bound.contains(&i) && (d || self.mutable.contains(&i)) && !vars.iter().any(|v| v.0 == i) {
                    let deref = d && !self.mutable.contains(&i);
                    vars.push((i, deref));
                }
            }
            for i in c.receivers.into_iter().chain(c.calls) {
                if !c.bound.contains(&i) && self.mutable.contains(&i) && !vars.iter().any(|v| v.0 == i) {
                    vars.push((i, false));
                }
            }
            let slots: Vec<TokenStream> = vars
                .iter()
                .map(|(i, d)| {
                    let n = i.to_string();
                    if *d { quote!(__l.slot(#n, &mut *#i);) } else { quote!(__l.slot(#n, &mut #i);) }
                })
                .collect();
            let (pat, expr, body, label, attrs, func) = (&f.pat, &f.expr, &f.body, &f.label, &f.attrs, &self.func);
            println!("loop:{}", func);
            let lits = whole_numbers(body);
            *e = parse_quote!({
                let mut __l = ::sym::seq::Count::new(#func, #plain, &[#(#lits),*], #expr);
                #(#attrs)*
                #label loop {
                    let __x = __l.pull();
                    if __l.on() {
                        #(#slots)*
                        __l.ready();
                    }
                    match __x {
                        ::core::option::Option::Some(#pat) => #body,
                        ::core::option::Option::None => break,
                    }
                }
            });
            return;
        }
        if !self.loops {
            return;
        }
        let used = Idents::of(f.expr.to_token_stream()).0;
        let mut c = Changed::default();
        visit::Visit::visit_pat(&mut c, &f.pat);
        visit::Visit::visit_block(&mut c, &f.body);
        let mut vars: Vec<(Ident, bool)> = vec![];
        for (i, d) in c.places {
            if !c.bound.contains(&i) && (d || self.mutable.contains(&i)) && !vars.iter().any(|v| v.0 == i) {
                let deref = d && !self.mutable.contains(&i);
                vars.push((i, deref));
            }
        }
        for i in c.receivers {
            if !c.bound.contains(&i) && self.mutable.contains(&i) && !used.contains(&i.to_string()) && !vars.iter().any(|v| v.0 == i) {
                vars.push((i, false));
            }
        }
        let sync: Vec<TokenStream> = vars.iter().map(|(i, d)| if *d { quote!(__l.sync(&mut *#i);) } else { quote!(__l.sync(&mut #i);) }).collect();
        let (pat, expr, body, label, attrs) = (&f.pat, &f.expr, &f.body, &f.label, &f.attrs);
        self.n += 1;
        let new: Expr = parse_quote!({
            let mut __l = ::sym::seq::Loop::new(::core::iter::IntoIterator::into_iter(#expr));
            #(#attrs)*
            #label loop {
                let __x = __l.pull();
                #(#sync)*
                match __x {
                    ::core::option::Option::Some(#pat) => #body,
                    ::core::option::Option::None => break,
                }
            }
        });
        *e = new;
    }
}
impl X {
    fn sequences(&mut self, sig: &mut Signature, block: &mut Block) {
        if self.slices {
            for a in sig.inputs.iter_mut() {
                if let FnArg::Typed(t) = a {
                    if let Type::Reference(r) = &mut *t.ty {
                        if let (None, Type::Slice(s)) = (&r.mutability, &*r.elem) {
                            let e = &s.elem;
                            *r.elem = parse_quote!(::sym::seq::Slice<#e>);
                        }
                    }
                }
            }
        }
        if self.loops || self.counts {
            let mut m = Mutable::default();
            for a in &sig.inputs {
                visit::Visit::visit_fn_arg(&mut m, a);
            }
            visit::Visit::visit_block(&mut m, block);
            let func = match self.impl_stack.last() {
                Some(i) if !i.is_empty() => format!("{}::{}", i, sig.ident),
                _ => sig.ident.to_string(),
            };
            let whole = flat(block.to_token_stream());
            Loops { mutable: m.0, func, whole, loops: self.loops, counts: self.counts, n: 0 }.visit_block_mut(block);
        }
    }
}
impl VisitMut for X {
    fn visit_file_mut(&mut self, f: &mut File) {
        f.items.retain(|i| !matches!(i, Item::Mod(m) if is_test_attr(&m.attrs)) && !matches!(i, Item::Fn(m) if is_test_attr(&m.attrs)));
        drop_attrs(&mut f.attrs, self.sym);
        visit_mut::visit_file_mut(self, f);
        fix_consts(&mut f.items, self.sym);
        fix_serde(&mut f.items);
    }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        drop_attrs(&mut m.attrs, self.sym);
        self.public(&mut m.vis);
        if let Some((_, items)) = &mut m.content {
            items.retain(|i| !matches!(i, Item::Mod(m) if is_test_attr(&m.attrs)) && !matches!(i, Item::Fn(m) if is_test_attr(&m.attrs)));
            if self.sym {
                items.insert(0, parse_quote!(#[allow(unused_imports)] use ::sym::{shim::*, seq::SeqExt};));
            }
        }
        visit_mut::visit_item_mod_mut(self, m);
        if let Some((_, items)) = &mut m.content {
            fix_consts(items, self.sym);
            fix_serde(items);
        }
    }
    fn visit_item_fn_mut(&mut self, i: &mut ItemFn) {
        drop_attrs(&mut i.attrs, self.sym);
        self.public(&mut i.vis);
        visit_mut::visit_item_fn_mut(self, i);
        self.sequences(&mut i.sig, &mut i.block);
        let sig = i.sig.clone();
        self.hook_block(&sig, &mut i.block);
    }
    fn visit_item_struct_mut(&mut self, i: &mut ItemStruct) {
        drop_attrs(&mut i.attrs, self.sym);
        self.public(&mut i.vis);
        for f in i.fields.iter_mut() {
            self.public(&mut f.vis);
            drop_attrs(&mut f.attrs, self.sym);
        }
        visit_mut::visit_item_struct_mut(self, i);
    }
    fn visit_item_enum_mut(&mut self, i: &mut ItemEnum) {
        drop_attrs(&mut i.attrs, self.sym);
        self.public(&mut i.vis);
        visit_mut::visit_item_enum_mut(self, i);
    }
    fn visit_item_trait_mut(&mut self, i: &mut ItemTrait) {
        drop_attrs(&mut i.attrs, self.sym);
        self.public(&mut i.vis);
        self.impl_stack.push(i.ident.to_string());
        visit_mut::visit_item_trait_mut(self, i);
        self.impl_stack.pop();
    }
    fn visit_item_type_mut(&mut self, i: &mut ItemType) {
        self.public(&mut i.vis);
        visit_mut::visit_item_type_mut(self, i);
    }
    fn visit_item_const_mut(&mut self, i: &mut ItemConst) {
        self.public(&mut i.vis);
        visit_mut::visit_item_const_mut(self, i);
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        drop_attrs(&mut i.attrs, self.sym);
        let was = self.trait_impl;
        self.trait_impl = i.trait_.is_some();
        let n = match &*i.self_ty {
            Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
            _ => String::new(),
        };
        self.impl_stack.push(n);
        visit_mut::visit_item_impl_mut(self, i);
        self.impl_stack.pop();
        self.trait_impl = was;
    }
    fn visit_impl_item_fn_mut(&mut self, i: &mut ImplItemFn) {
        drop_attrs(&mut i.attrs, self.sym);
        if !self.trait_impl {
            self.public(&mut i.vis);
        }
        visit_mut::visit_impl_item_fn_mut(self, i);
        self.sequences(&mut i.sig, &mut i.block);
        let sig = i.sig.clone();
        self.hook_block(&sig, &mut i.block);
    }
    fn visit_impl_item_const_mut(&mut self, i: &mut ImplItemConst) {
        if !self.trait_impl {
            self.public(&mut i.vis);
        }
        visit_mut::visit_impl_item_const_mut(self, i);
    }
    fn visit_trait_item_fn_mut(&mut self, i: &mut TraitItemFn) {
        drop_attrs(&mut i.attrs, self.sym);
        visit_mut::visit_trait_item_fn_mut(self, i);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.sym {
            if let Expr::MethodCall(m) = e {
                let n = m.method.to_string();
                if SHIM_METHODS.contains(&n.as_str()) {
                    m.method = Ident::new(&format!("{}_c", n), Span::call_site());
                }
            }
            if let Expr::Call(c) = e {
                if let Expr::Path(p) = &mut *c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let n = segs.len();
                    if n >= 2 {
                        let (a, b) = (segs[n - 2].as_str(), segs[n - 1].as_str());
                        if a == "SVD" && (b == "try_new" || b == "new" || b == "new_unordered" || b == "try_new_unordered") {
                            let id = Ident::new(&format!("svd_{}", b), Span::call_site());
                            p.path = parse_quote!(::sym::shim::#id);
                        } else if a == "SymmetricEigen" && (b == "new" || b == "try_new") {
                            let id = Ident::new(&format!("eigen_{}", b), Span::call_site());
                            p.path = parse_quote!(::sym::shim::#id);
                        } else if a == "Schur" && (b == "new" || b == "try_new") {
                            let id = Ident::new(&format!("schur_{}", b), Span::call_site());
                            p.path = parse_quote!(::sym::shim::#id);
                        } else if a == "Rotation3" && (b == "from_matrix_eps" || b == "from_matrix") {
                            let id = Ident::new(&format!("rotation3_{}", b), Span::call_site());
                            p.path = parse_quote!(::sym::shim::#id);
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if self.sym {
            if let Expr::Cast(c) = e {
                if is_f64(&c.ty) {
                    let inner = c.expr.clone();
                    *e = parse_quote!(::sym::cast(#inner));
                } else if narrow() && is_int(&c.ty) {
                    let (inner, ty) = (c.expr.clone(), c.ty.clone());
                    *e = parse_quote!(::sym::cast_to::<#ty>(#inner));
                }
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if self.sym {
            macro_exprs(m, self);
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Macro(m) => !log_macro(&m.mac),
            Stmt::Expr(Expr::Macro(m), _) => !log_macro(&m.mac),
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
}
fn log_macro(m: &Macro) -> bool {
    let segs: Vec<String> = m.path.segments.iter().map(|s| s.ident.to_string()).collect();
    let last = segs.last().cloned().unwrap_or_default();
    (segs.len() >= 2 && segs[0] == "log") || matches!(last.as_str(), "info" | "debug" | "trace" | "warn" | "println" | "eprintln")
}
fn fix_serde(items: &mut Vec<Item>) {
    items.retain(|i| match i {
        Item::Use(u) => !u.attrs.iter().any(|a| a.to_token_stream().to_string().contains("serde")) && !u.tree.to_token_stream().to_string().starts_with("serde"),
        Item::Impl(i) => !i.attrs.iter().any(|a| a.to_token_stream().to_string().contains("serde")),
        _ => true,
    });
    for i in items.iter_mut() {
        if let Item::Use(u) = i {
            u.attrs.retain(|a| !a.path().is_ident("doc"));
        }
    }
}
/// f64 constants with computed initialisers are evaluated as f64 by rustc and then lifted.
fn fix_consts(items: &mut Vec<Item>, sym: bool) {
    if !sym {
        return;
    }
    let mut names: Vec<Ident> = vec![];
    for i in items.iter() {
        if let Item::Const(c) = i {
            if is_f64(&c.ty) {
                names.push(c.ident.clone());
            }
        }
    }
    let mut extra: Vec<Item> = vec![];
    for i in items.iter_mut() {
        if let Item::Const(c) = i {
            if is_f64(&c.ty) {
                let twin = Ident::new(&format!("{}__RAW", c.ident), Span::call_site());
                let id = &c.ident;
                let ex = rename(c.expr.to_token_stream(), &names);
                extra.push(parse_quote!(pub const #twin: RAWF64 = RAWX!{#ex};));
                c.expr = parse_quote!(::sym::Sym::lit(#twin));
                let _ = id;
            }
        }
    }
    items.extend(extra);
}
fn rename(ts: TokenStream, names: &[Ident]) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) if names.contains(&i) => TokenTree::Ident(Ident::new(&format!("{}__RAW", i), Span::call_site())),
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), rename(g.stream(), names))),
            t => t,
        })
        .collect()
}
/// Undo token rewriting inside RAWX!{..}: those initialisers stay f64.
fn split_raw(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    let mut pending: Vec<TokenTree> = vec![];
    let flush = |p: &mut Vec<TokenTree>, out: &mut Vec<TokenTree>| {
        let t: TokenStream = std::mem::take(p).into_iter().collect();
        out.extend(tokens(t));
    };
    while i < v.len() {
        if let TokenTree::Ident(id) = &v[i] {
            if id == "RAWX" {
                if let (Some(TokenTree::Punct(_)), Some(TokenTree::Group(g))) = (v.get(i + 1), v.get(i + 2)) {
                    flush(&mut pending, &mut out);
                    out.extend(g.stream());
                    i += 3;
                    continue;
                }
            }
            if id == "RAWF64" {
                flush(&mut pending, &mut out);
                out.push(TokenTree::Ident(Ident::new("f64", Span::call_site())));
                i += 1;
                continue;
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            let inner = g.stream().to_string();
            if inner.contains("RAWX") {
                flush(&mut pending, &mut out);
                out.push(TokenTree::Group(Group::new(g.delimiter(), split_raw(g.stream()))));
                i += 1;
                continue;
            }
        }
        pending.push(v[i].clone());
        i += 1;
    }
    flush(&mut pending, &mut out);
    out.into_iter().collect()
}
fn walk(src: &Path, out: &Path, sym: bool, hooks: &[String], flags: (bool, bool, bool)) {
    std::fs::create_dir_all(out).unwrap();
    let mut es: Vec<_> = std::fs::read_dir(src).unwrap_or_else(|e| panic!("{}: {}", src.display(), e)).map(|e| e.unwrap().path()).collect();
    es.sort();
    for p in es {
        let o = out.join(p.file_name().unwrap());
        if p.is_dir() {
            walk(&p, &o, sym, hooks, flags);
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            let text = std::fs::read_to_string(&p).unwrap();
            let mut f = match parse_file(&text) {
                Ok(f) => f,
                Err(e) => {
                    eprintln!("xform: cannot parse {}: {}", p.display(), e);
                    std::process::exit(3);
                }
            };
            let mut x = X { sym, hooks: hooks.to_vec(), impl_stack: vec![], module: String::new(), trait_impl: false, loops: flags.0, slices: flags.1, counts: flags.2 };
            let _ = &x.module;
            x.visit_file_mut(&mut f);
            let mut ts = TokenStream::new();
            if sym {
                // inner attributes first
                for a in &f.attrs {
                    ts.extend(a.to_token_stream());
                }
                f.attrs.clear();
                ts.extend(quote!(#[allow(unused_imports)] use ::sym::{shim::*, seq::SeqExt};));
                ts.extend(split_raw(f.to_token_stream()));
            } else {
                ts = f.to_token_stream();
            }
            let new = ts.to_string();
            if std::fs::read_to_string(&o).ok().as_deref() != Some(&new) {
                std::fs::write(&o, new).unwrap();
            }
        } else {
            let b = std::fs::read(&p).unwrap();
            if std::fs::read(&o).ok().as_deref() != Some(&b[..]) {
                std::fs::write(&o, b).unwrap();
            }
        }
    }
    // remove stale files
    for e in std::fs::read_dir(out).unwrap() {
        let p = e.unwrap().path();
        if !src.join(p.file_name().unwrap()).exists() && p.is_file() {
            let _ = std::fs::remove_file(&p);
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let sym = a[1] == "sym";
    let hooks: Vec<String> = a.get(4).map(|f| std::fs::read_to_string(f).unwrap().lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect()).unwrap_or_default();
    NARROW.with(|n| n.set(sym && a.iter().any(|x| x == "narrow")));
    walk(Path::new(&a[2]), Path::new(&a[3]), sym, &hooks, (a.iter().any(|x| x == "loops"), a.iter().any(|x| x == "slices"), a.iter().any(|x| x == "counts")));
    let _ = (Delimiter::None, Punct::new('.', Spacing::Alone));
}
