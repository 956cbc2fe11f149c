//! The rewrites.  Every rewrite replaces a construct the verifier does not read with one that has
//! the same meaning by the definition of the std item involved.
use crate::{ty_ident, FileIndex, FnItem};
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::VisitMut;
use syn::*;

/// Path renames (`Duration::ZERO => x_duration_zero()`), applied to types and expressions.
pub struct Renames {
    list: Vec<(String, String)>,
}
impl Renames {
    pub fn new(list: Vec<(String, String)>) -> Self {
        Self { list }
    }
    pub fn get(&self, p: &str) -> Option<&str> {
        let p = p.replace(' ', "");
        let p = p.trim_start_matches("::").trim_end_matches("<'_>");
        self.list.iter().find(|(a, _)| *a == p).map(|(_, b)| b.as_str())
    }
    pub fn ty(&self, t: &Type) -> String {
        let mut t = t.clone();
        RenTy(self).visit_type_mut(&mut t);
        t.to_token_stream().to_string()
    }
    pub fn visit_item(&self, i: &mut Item) {
        RenTy(self).visit_item_mut(i);
    }
}
pub struct RenTy<'a>(pub &'a Renames);
impl VisitMut for RenTy<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Some(n) = self.0.get(&t.to_token_stream().to_string()) {
            if let Ok(nt) = syn::parse_str::<Type>(n) {
                *t = nt;
            }
            return;
        }
        // `A => B` also renames `A<args>`
        if let Type::Path(p) = t {
            let key = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            let generic = p.path.segments.last().is_some_and(|s| !s.arguments.is_none());
            if let (true, Some(n)) = (generic, self.0.get(&key)) {
                if let Ok(id) = syn::parse_str::<Ident>(n) {
                    let a = p.path.segments.last().unwrap().arguments.clone();
                    p.path = id.into();
                    p.path.segments.last_mut().unwrap().arguments = a;
                }
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Opt,
    Res,
    Iter,
    Unknown,
}

pub struct Cx<'a> {
    pub ix: &'a FileIndex,
    pub f: &'a FnItem,
    pub ren: &'a Renames,
    pub methods: &'a [(String, String)],
    pub specs: &'a HashMap<String, String>,
    pub flags: &'a BTreeSet<String>,
    /// loops range over modelled collections
    pub xfor: bool,
    /// loops with a hint at the end of their body
    pub loop_ends: BTreeSet<usize>,
    pub closure_kinds: HashMap<String, String>,
    pub unsupported: Vec<String>,
    pub calls: BTreeSet<String>,
    pub counts: BTreeMap<String, usize>,
    pub literals: BTreeSet<String>,
    pub pat_literals: BTreeSet<String>,
    pub lost_hints: Vec<String>,
    pub loops_seen: usize,
    pub strparams: BTreeSet<String>,
    pub locals: HashMap<String, Kind>,
    closures: Vec<String>,
    tmp: usize,
    nth: HashMap<String, usize>,
}

pub struct Emitted {
    pub text: String,
    pub name: String,
}

fn kind_of_type(t: &Type) -> Kind {
    match t {
        Type::Reference(r) => kind_of_type(&r.elem),
        _ => match ty_ident(t).as_str() {
            "Option" => Kind::Opt,
            "Result" => Kind::Res,
            _ => Kind::Unknown,
        },
    }
}

const RES_METHODS: &[&str] =
    &["next_value", "next_key", "next_element", "next_value_seed", "serialize", "deserialize", "parse", "map_err", "ok_or", "ok_or_else", "try_into", "text_into", "x_parse", "try_from", "x_try_into"];
const OPT_METHODS: &[&str] = &[
    "split_once", "rsplit_once", "strip_prefix", "strip_suffix", "find", "rfind", "next", "next_back", "get",
    "first", "last", "pop", "then", "then_some", "as_deref", "checked_mul", "checked_add", "checked_sub",
    "checked_div", "ok", "err", "position", "peek", "filter", "get_mut", "insert", "min", "max", "to_str",
];
const ITER_METHODS: &[&str] = &[
    "chars", "iter", "into_iter", "keys", "values", "split", "bytes", "lines", "enumerate", "filter_map",
    "flat_map", "zip", "chain", "char_indices", "split_terminator", "splitn", "into_keys", "into_values", "skip", "rev", "skip_while",
];
const PAT_METHODS: &[&str] = &[
    "find", "rfind", "split_once", "rsplit_once", "strip_prefix", "strip_suffix", "starts_with", "ends_with",
    "contains", "trim_start_matches", "trim_end_matches", "split", "split_terminator",
];

impl<'a> Cx<'a> {
    pub fn new(
        ix: &'a FileIndex,
        f: &'a FnItem,
        ren: &'a Renames,
        methods: &'a [(String, String)],
        specs: &'a HashMap<String, String>,
        flags: &'a BTreeSet<String>,
    ) -> Self {
        Cx {
            ix,
            f,
            ren,
            methods,
            specs,
            flags,
            xfor: flags.contains("xfor"),
            loop_ends: BTreeSet::new(),
            closure_kinds: HashMap::new(),
            unsupported: vec![],
            calls: BTreeSet::new(),
            counts: BTreeMap::new(),
            literals: BTreeSet::new(),
            pat_literals: BTreeSet::new(),
            lost_hints: vec![],
            loops_seen: 0,
            strparams: BTreeSet::new(),
            locals: HashMap::new(),
            closures: vec![],
            tmp: 0,
            nth: HashMap::new(),
        }
    }

    fn count(&mut self, k: &str) {
        *self.counts.entry(k.into()).or_default() += 1;
    }
    fn fresh(&mut self) -> Ident {
        self.tmp += 1;
        format_ident!("__v{}", self.tmp)
    }
    fn unsup(&mut self, s: impl Into<String>) {
        self.unsupported.push(s.into());
    }

    pub fn kind(&self, e: &Expr) -> Kind {
        match e {
            Expr::Paren(p) => self.kind(&p.expr),
            Expr::Group(p) => self.kind(&p.expr),
            Expr::Reference(p) => self.kind(&p.expr),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let n = n.as_str();
                let base = n
                    .strip_prefix("x_")
                    .map(|s| s.trim_end_matches("_c").trim_end_matches("_s").trim_end_matches("_f"))
                    .unwrap_or(n);
                if RES_METHODS.contains(&base) {
                    return Kind::Res;
                }
                match base {
                    "transpose" => match self.kind(&m.receiver) {
                        Kind::Opt => Kind::Res,
                        Kind::Res => Kind::Opt,
                        k => k,
                    },
                    "map" | "and_then" | "or_else" | "or" | "as_ref" | "as_mut" | "copied" | "cloned" | "take"
                    | "clone" | "inspect" | "filter" | "replace" => match self.kind(&m.receiver) {
                        Kind::Unknown if base == "filter" => Kind::Opt,
                        k => k,
                    },
                    _ if OPT_METHODS.contains(&base) => Kind::Opt,
                    _ if ITER_METHODS.contains(&base) => Kind::Iter,
                    _ => {
                        // method of a type in this file
                        let suffix = format!("::{n}");
                        for (k, f) in &self.ix.fns {
                            if k.ends_with(&suffix) {
                                if let ReturnType::Type(_, t) = &f.sig.output {
                                    let k = kind_of_type(t);
                                    if k != Kind::Unknown {
                                        return k;
                                    }
                                }
                            }
                        }
                        Kind::Unknown
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    match last.as_str() {
                        "Some" => return Kind::Opt,
                        "Ok" | "Err" => return Kind::Res,
                        "try_from" | "from_str" | "parse" | "x_parse" | "x_try_into" | "deserialize" | "x_deserialize" => return Kind::Res,
                        s if s.starts_with("x_") && s.ends_with("try_from") => return Kind::Res,
                        _ => {}
                    }
                    if let Some(k) = self.resolve_fn(&p.path) {
                        if let ReturnType::Type(_, t) = &self.ix.fns[&k].sig.output {
                            return kind_of_type(t);
                        }
                    }
                    if last == "new" {
                        return Kind::Res;
                    }
                }
                Kind::Unknown
            }
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if i == "None" {
                        return Kind::Opt;
                    }
                    if let Some(k) = self.locals.get(&i.to_string()) {
                        return *k;
                    }
                }
                Kind::Unknown
            }
            Expr::Field(f) => {
                if let Member::Named(i) = &f.member {
                    if let Some(ts) = self.ix.fields.get(&i.to_string()) {
                        for t in ts {
                            let k = kind_of_type(t);
                            if k != Kind::Unknown {
                                return k;
                            }
                        }
                    }
                }
                Kind::Unknown
            }
            Expr::If(i) => i
                .then_branch
                .stmts
                .last()
                .and_then(|s| match s {
                    Stmt::Expr(e, None) => Some(self.kind(e)),
                    _ => None,
                })
                .unwrap_or(Kind::Unknown),
            Expr::Match(m) => m.arms.iter().map(|a| self.kind(&a.body)).find(|k| *k != Kind::Unknown).unwrap_or(Kind::Unknown),
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => Kind::Unknown,
            },
            _ => Kind::Unknown,
        }
    }

    /// Selector key in this file for a called path.
    fn resolve_fn(&self, p: &Path) -> Option<String> {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = segs.last()?.clone();
        if segs.len() == 1 {
            return self.ix.fns.contains_key(&last).then_some(last);
        }
        let ty = if segs[segs.len() - 2] == "Self" {
            self.f.self_ty.as_ref()?.0.clone()
        } else {
            segs[segs.len() - 2].clone()
        };
        let k = format!("{ty}::{last}");
        self.ix.fns.contains_key(&k).then_some(k)
    }

    /// `helper(args.., || body)?` where `helper` is a free function of the same file that calls its
    /// closure exactly once: the helper's body in place of the call, its parameters renamed and bound
    /// to the arguments in order, the closure's body in place of the closure's call, its result
    /// `Ok(x)` read as `x` and `Err(e)` as `return Err(e)` (which is what `?` does with them).
    fn inline_closure_call(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::Call(c) = e else { return None };
        let Expr::Path(p) = &*c.func else { return None };
        let n = c.args.len();
        let Some(Expr::Closure(cl)) = c.args.last() else { return None };
        if !cl.inputs.is_empty() || has_control(&cl.body) || p.path.segments.len() != 1 {
            return None;
        }
        let f = self.ix.fns.get(&self.resolve_fn(&p.path)?)?;
        let mut names = vec![];
        for a in &f.sig.inputs {
            let FnArg::Typed(t) = a else { return None };
            let Pat::Ident(i) = &*t.pat else { return None };
            names.push(i.ident.to_string());
        }
        if names.len() != n {
            return None;
        }
        // the helper's own names must not capture the closure's
        struct Binds(Vec<String>);
        impl<'a> syn::visit::Visit<'a> for Binds {
            fn visit_pat_ident(&mut self, i: &'a PatIdent) {
                self.0.push(i.ident.to_string());
            }
        }
        let mut b = Binds(vec![]);
        syn::visit::Visit::visit_block(&mut b, &f.block);
        struct Uses<'x>(&'x [String], bool);
        impl<'a> syn::visit::Visit<'a> for Uses<'_> {
            fn visit_expr_path(&mut self, p: &'a ExprPath) {
                if p.path.get_ident().is_some_and(|i| self.0.iter().any(|b| i == b)) {
                    self.1 = true;
                }
            }
        }
        let mut u = Uses(&b.0, false);
        syn::visit::Visit::visit_expr(&mut u, &cl.body);
        if u.1 {
            return None;
        }
        struct Sub<'x> {
            names: &'x [String],
            closure: &'x Expr,
            calls: usize,
            bad: bool,
        }
        impl VisitMut for Sub<'_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Call(c) = e {
                    if let Expr::Path(p) = &*c.func {
                        if p.path.is_ident(self.names.last().unwrap()) && c.args.is_empty() {
                            self.calls += 1;
                            let b = self.closure;
                            *e = parse_quote!((#b));
                            return;
                        }
                    }
                }
                match e {
                    Expr::Return(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Closure(_) => self.bad = true,
                    Expr::Path(p) => {
                        if let Some(i) = p.path.get_ident() {
                            if self.names.iter().any(|n| i == n) {
                                let i = format_ident!("__p_{}", i);
                                *e = parse_quote!(#i);
                                return;
                            }
                        }
                    }
                    _ => {}
                }
                syn::visit_mut::visit_expr_mut(self, e);
            }
        }
        let mut block = f.block.clone();
        let body = (*cl.body).clone();
        let mut s = Sub { names: &names, closure: &body, calls: 0, bad: false };
        s.visit_block_mut(&mut block);
        if s.bad || s.calls != 1 {
            return None;
        }
        fn tail_block(b: &mut Block) -> bool {
            match b.stmts.last_mut() {
                Some(Stmt::Expr(x, None)) => tail(x),
                _ => false,
            }
        }
        fn tail(x: &mut Expr) -> bool {
            match x {
                Expr::If(i) => {
                    let Some((_, e)) = &mut i.else_branch else { return false };
                    tail_block(&mut i.then_branch) && tail(e)
                }
                Expr::Block(b) => tail_block(&mut b.block),
                Expr::Match(m) => m.arms.iter_mut().all(|a| tail(&mut a.body)),
                Expr::Call(c) => {
                    let k = c.func.to_token_stream().to_string();
                    let Some(a) = c.args.first().cloned() else { return false };
                    match k.as_str() {
                        "Ok" => *x = a,
                        "Err" => *x = parse_quote!(return Err(#a)),
                        _ => *x = parse_quote!((#x)?),
                    }
                    true
                }
                _ => {
                    *x = parse_quote!((#x)?);
                    true
                }
            }
        }
        if !tail_block(&mut block) {
            return None;
        }
        let args: Vec<&Expr> = c.args.iter().take(n - 1).collect();
        let ps: Vec<Ident> = names.iter().take(n - 1).map(|n| format_ident!("__p_{}", n)).collect();
        let stmts = &block.stmts;
        self.count("helper taking a closure inlined");
        Some(parse_quote!({ #(let #ps = #args;)* #(#stmts)* }))
    }

    /// `self.field` whose type in the struct is `&mut Option<..>`
    fn mut_ref_field(&self, e: &Expr) -> bool {
        let Expr::Field(f) = e else { return false };
        let (Expr::Path(p), Member::Named(n)) = (&*f.base, &f.member) else { return false };
        if !p.path.is_ident("self") {
            return false;
        }
        let Some((t, _)) = &self.f.self_ty else { return false };
        let Some(Item::Struct(s)) = self.ix.types.get(t) else { return false };
        s.fields.iter().any(|x| x.ident.as_ref() == Some(n) && matches!(&x.ty, Type::Reference(r) if r.mutability.is_some()))
    }

    fn mark_end(&mut self, b: &mut Block, n: usize) {
        if self.loop_ends.contains(&n) {
            if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
                *semi = Some(Default::default());
            }
            let idl = Literal::usize_unsuffixed(n);
            b.stmts.push(parse_quote!(__vx_loopend!{#idl}));
        }
    }

    fn note_call_path(&mut self, p: &Path) {
        if let Some(k) = self.resolve_fn(p) {
            self.calls.insert(k);
        }
    }

    fn resolve_const(&self, p: &Path) -> Option<(String, Type, Expr)> {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = segs.last()?;
        if !last.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit()) {
            return None;
        }
        let key = match segs.len() {
            1 => last.clone(),
            n => {
                let t = if segs[n - 2] == "Self" { self.f.self_ty.as_ref()?.0.clone() } else { segs[n - 2].clone() };
                format!("{t}::{last}")
            }
        };
        if let Some((t, e)) = self.ix.consts.get(&key) {
            return Some((key, t.clone(), e.clone()));
        }
        // in a nested module (expanded source): by its unique suffix
        let suffix = format!("::{key}");
        let mut found = self.ix.consts.iter().filter(|(k, _)| k.ends_with(&suffix));
        match (found.next(), found.next()) {
            (Some((k, (t, e))), None) => Some((k.clone(), t.clone(), e.clone())),
            _ => None,
        }
    }

    fn lit_const(&self, p: &Path) -> Option<Lit> {
        match self.resolve_const(p)?.2 {
            Expr::Lit(l) => Some(l.lit),
            _ => None,
        }
    }

    /// `F` applied to `arg`: closure inlined, or path applied.  Returns (pattern, body).
    fn apply(&mut self, f: &Expr) -> (TokenStream, TokenStream) {
        match f {
            Expr::Closure(c) => {
                if has_control(&c.body) {
                    self.unsup("closure with `?` or `return`");
                }
                let mut pre = TokenStream::new();
                let pat = match c.inputs.first() {
                    Some(p) => {
                        let p = strip_pat_type(p.clone());
                        match &p {
                            Pat::Reference(r) => {
                                let v = self.fresh();
                                let inner = &r.pat;
                                pre = quote!(let #inner = *#v;);
                                quote!(#v)
                            }
                            p => quote!(#p),
                        }
                    }
                    None => quote!(_),
                };
                let body = &c.body;
                (pat, quote!({ #pre #body }))
            }
            Expr::Path(_) => {
                let v = self.fresh();
                let call: Expr = parse_quote!(#f(#v));
                let mut call = call;
                self.expr(&mut call);
                (quote!(#v), quote!(#call))
            }
            // a function that returns a closure, applied to the closure's argument (the function is
            // extracted in uncurried form)
            Expr::Call(c) => {
                let v = self.fresh();
                let mut c = c.clone();
                c.args.push(parse_quote!(#v));
                (quote!(#v), quote!(#c))
            }
            other => {
                self.unsup(format!("combinator argument `{}`", other.to_token_stream()));
                (quote!(_), quote!(()))
            }
        }
    }

    fn apply0(&mut self, f: &Expr) -> TokenStream {
        match f {
            Expr::Closure(c) => {
                if has_control(&c.body) {
                    self.unsup("closure with `?` or `return`");
                }
                let body = &c.body;
                quote!(#body)
            }
            Expr::Path(_) => {
                let mut call: Expr = parse_quote!(#f());
                self.expr(&mut call);
                quote!(#call)
            }
            _ => {
                self.unsup("combinator argument");
                quote!(())
            }
        }
    }

    fn kind_opt(&mut self, m: &str, recv: &Expr, default: Kind) -> Kind {
        let n = self.nth.entry(m.to_string()).or_default();
        let key = format!("{m}@{n}");
        *n += 1;
        match self.closure_kinds.get(&key).or_else(|| self.closure_kinds.get(&format!("{m}@*"))).map(|s| s.as_str()) {
            Some("opt") => Kind::Opt,
            Some("res") => Kind::Res,
            Some("iter") => Kind::Iter,
            _ => match self.kind(recv) {
                Kind::Unknown => default,
                k => k,
            },
        }
    }

    /// std Option/Result/bool combinators, replaced by the `match` that defines them.
    fn combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let deref: Expr;
        let mut r: &Expr = &m.receiver;
        // an option behind `&mut` whose payload is copied out
        if name == "unwrap_or_default" && self.mut_ref_field(r) {
            deref = parse_quote!(*#r);
            r = &deref;
        }
        let a: Vec<&Expr> = m.args.iter().collect();
        let is_fn = |e: &Expr| matches!(e, Expr::Closure(_) | Expr::Path(_));
        let k = match name.as_str() {
            "map" | "and_then" | "map_or" | "map_or_else" | "or_else" | "unwrap_or_else" | "unwrap_or" | "or"
            | "is_some_and" | "is_none_or" | "filter" | "ok_or" | "ok_or_else" | "map_err" | "is_ok_and" | "then"
            | "ok" | "transpose" | "and" | "unwrap_or_default" | "then_some" => match name.as_str() {
                "map_err" | "is_ok_and" | "ok" => Kind::Res,
                "ok_or" | "ok_or_else" | "is_some_and" | "is_none_or" => Kind::Opt,
                "then" | "then_some" => Kind::Opt,
                _ => self.kind_opt(&name, r, Kind::Opt),
            },
            _ => return None,
        };
        if k == Kind::Iter {
            return None;
        }
        let out: TokenStream = match (name.as_str(), a.len()) {
            ("map", 1) if k == Kind::Opt => {
                let (p, b) = self.apply(a[0]);
                quote!(match #r { Some(#p) => Some(#b), None => None })
            }
            ("map", 1) => {
                let (p, b) = self.apply(a[0]);
                quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) })
            }
            ("and_then", 1) if k == Kind::Opt => {
                let (p, b) = self.apply(a[0]);
                quote!(match #r { Some(#p) => #b, None => None })
            }
            ("and_then", 1) => {
                let (p, b) = self.apply(a[0]);
                quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e) })
            }
            ("map_or", 2) => {
                let d = a[0];
                let (p, b) = self.apply(a[1]);
                if k == Kind::Opt {
                    quote!(match #r { Some(#p) => #b, None => #d })
                } else {
                    quote!(match #r { Ok(#p) => #b, Err(_) => #d })
                }
            }
            ("map_or_else", 2) if k == Kind::Opt => {
                let d = self.apply0(a[0]);
                let (p, b) = self.apply(a[1]);
                quote!(match #r { Some(#p) => #b, None => #d })
            }
            ("map_or_else", 2) => {
                let (q, d) = self.apply(a[0]);
                let (p, b) = self.apply(a[1]);
                quote!(match #r { Ok(#p) => #b, Err(#q) => #d })
            }
            ("or_else", 1) if k == Kind::Opt => {
                let d = self.apply0(a[0]);
                quote!(match #r { Some(__s) => Some(__s), None => #d })
            }
            ("or_else", 1) => {
                let (q, d) = self.apply(a[0]);
                quote!(match #r { Ok(__s) => Ok(__s), Err(#q) => #d })
            }
            ("or", 1) if k == Kind::Opt => {
                let d = a[0];
                quote!({ let __d = #d; match #r { Some(__s) => Some(__s), None => __d } })
            }
            ("unwrap_or_else", 1) if k == Kind::Opt => {
                let d = self.apply0(a[0]);
                quote!(match #r { Some(__s) => __s, None => #d })
            }
            ("unwrap_or_else", 1) => {
                let (q, d) = self.apply(a[0]);
                quote!(match #r { Ok(__s) => __s, Err(#q) => #d })
            }
            ("unwrap_or", 1) => {
                let d = a[0];
                if k == Kind::Opt {
                    quote!(match #r { Some(__s) => __s, None => #d })
                } else {
                    quote!(match #r { Ok(__s) => __s, Err(_) => #d })
                }
            }
            ("unwrap_or_default", 0) => quote!(match #r { Some(__s) => __s, None => XDefault::x_default() }),
            ("then_some", 1) => {
                let (c, v, x) = (self.fresh(), self.fresh(), a[0]);
                quote!({ let #c = #r; let #v = #x; if #c { Some(#v) } else { None } })
            }
            ("is_some_and", 1) => {
                let (p, b) = self.apply(a[0]);
                quote!(match #r { Some(#p) => #b, None => false })
            }
            ("is_ok_and", 1) => {
                let (p, b) = self.apply(a[0]);
                quote!(match #r { Ok(#p) => #b, Err(_) => false })
            }
            ("is_none_or", 1) => {
                let (p, b) = self.apply(a[0]);
                quote!(match #r { Some(#p) => #b, None => true })
            }
            ("filter", 1) if k == Kind::Opt && is_fn(a[0]) => {
                let (p, b) = self.apply(a[0]);
                let v = self.fresh();
                quote!(match #r { Some(#v) => if { let #p = &#v; #b } { Some(#v) } else { None }, None => None })
            }
            ("ok_or", 1) => {
                let d = a[0];
                quote!(match #r { Some(__s) => Ok(__s), None => Err(#d) })
            }
            ("ok_or_else", 1) => {
                let d = self.apply0(a[0]);
                quote!(match #r { Some(__s) => Ok(__s), None => Err(#d) })
            }
            ("map_err", 1) => {
                let (p, b) = self.apply(a[0]);
                quote!(match #r { Ok(__s) => Ok(__s), Err(#p) => Err(#b) })
            }
            ("ok", 0) => quote!(match #r { Ok(__s) => Some(__s), Err(_) => None }),
            ("transpose", 0) if k == Kind::Opt => {
                quote!(match #r { Some(Ok(__s)) => Ok(Some(__s)), Some(Err(__e)) => Err(__e), None => Ok(None) })
            }
            ("then", 1) => {
                let d = self.apply0(a[0]);
                quote!(if #r { Some(#d) } else { None })
            }
            _ => return None,
        };
        self.count("combinator->match");
        match parse2(quote!((#out))) {
            Ok(e) => Some(e),
            Err(e) => {
                self.unsup(format!("internal: {e} in {out}"));
                None
            }
        }
    }

    /// `let A(x) | B(x) = v;` becomes a match binding `x`
    fn or_let(&mut self, o: &PatOr, x: &Ident) -> Stmt {
        let mut names: Vec<Ident> = vec![];
        struct B<'x>(&'x mut Vec<Ident>);
        impl VisitMut for B<'_> {
            fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
                if p.subpat.is_none() && p.ident.to_string().starts_with(char::is_lowercase) {
                    self.0.push(p.ident.clone());
                }
                visit_mut::visit_pat_ident_mut(self, p);
            }
        }
        B(&mut names).visit_pat_mut(&mut o.cases[0].clone());
        let cases = o.cases.iter();
        self.count("or-pattern let->match");
        let t = quote!((#(#names),*));
        let arms = cases.map(|c| quote!(#c => #t,));
        parse_quote!(let #t = match #x { #(#arms)* };)
    }

    fn try_collect(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(c) = e else { return None };
        if !self.xfor || c.method != "collect" || !c.args.is_empty() {
            return None;
        }
        let squash = |t: TokenStream| t.to_string().replace(' ', "");
        let turbo = squash(c.turbofish.as_ref()?.args.first()?.to_token_stream());
        let err = turbo.strip_prefix("Result<_,")?.strip_suffix('>')?.to_string();
        let ret = match &self.f.sig.output {
            ReturnType::Type(_, t) => squash(t.to_token_stream()),
            ReturnType::Default => return None,
        };
        if !(ret.starts_with("Result<") && ret.ends_with(&format!(",{err}>"))) {
            return None;
        }
        let Expr::MethodCall(m) = &*c.receiver else { return None };
        let (true, Some(Expr::Closure(f))) = (m.method == "map", m.args.first()) else { return None };
        if f.inputs.len() != 1 || has_return(&f.body) {
            return None;
        }
        let p = strip_pat_type(f.inputs[0].clone());
        let mut st = match &*f.body {
            Expr::Block(b) => b.block.stmts.clone(),
            e => vec![Stmt::Expr(e.clone(), None)],
        };
        let Some(Stmt::Expr(last, None)) = st.pop() else { return None };
        let value: Expr = match &last {
            Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string() == "Ok" => c.args[0].clone(),
            e => parse_quote!((#e)?),
        };
        let (r, x, y) = (&m.receiver, self.fresh(), self.fresh());
        let o = format_ident!("__o{}", self.loops_seen);
        parse2(quote!({
            let mut #o = XIter::x_new();
            for #x in #r { let #p = #x; #(#st)* let #y = #value; #o.push(#y); }
            #o.x_collect()
        }))
        .ok()
    }

    fn iter_adapter(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if !matches!(name.as_str(), "filter_map" | "map" | "filter" | "flat_map" | "all" | "any") || m.args.len() != 1 {
            return None;
        }
        if matches!(name.as_str(), "all" | "any") {
            let t = m.receiver.to_token_stream().to_string();
            if t.contains("chars") || t.contains("bytes") || self.kind(&m.receiver) != Kind::Iter {
                return None;
            }
        }
        if name != "filter_map" && name != "flat_map" && self.kind(&m.receiver) != Kind::Iter {
            return None;
        }
        if let Expr::Closure(c) = &m.args[0] {
            if c.inputs.len() != 1 || has_control(&c.body) {
                return None;
            }
        }
        let (p, b) = self.apply(&m.args[0]);
        let r = &m.receiver;
        let (o, x, y) = (self.fresh(), self.fresh(), self.fresh());
        // nothing is skipped after the answer is known: the closure is pure
        let _ = o;
        let o = if matches!(name.as_str(), "all" | "any") { format_ident!("__a{}", self.loops_seen) } else { format_ident!("__o{}", self.loops_seen) };
        match name.as_str() {
            "all" => return parse2(quote!({ let mut #o = true; for #x in #r { let #p = #x; let #y = #b; if !#y { #o = false; } } #o })).ok(),
            "any" => return parse2(quote!({ let mut #o = false; for #x in #r { let #p = #x; let #y = #b; if #y { #o = true; } } #o })).ok(),
            _ => {}
        }
        let body: TokenStream = match name.as_str() {
            "filter_map" => quote!(let #p = #x; match #b { Some(#y) => { #o.push(#y); } None => {} }),
            "map" => quote!(let #p = #x; let #y = #b; #o.push(#y);),
            "filter" => quote!(let #y = { let #p = &#x; #b }; if #y { #o.push(#x); }),
            _ => quote!(let #p = #x; for #y in #b { #o.push(#y); }),
        };
        parse2(quote!({ let mut #o = XIter::x_new(); for #x in #r { #body } #o })).ok()
    }

    fn try_for_each(&mut self, e: &Expr) -> Option<(Expr, Pat, Expr)> {
        let Expr::MethodCall(m) = e else { return None };
        if m.method != "try_for_each" || m.args.len() != 1 || self.kind(&m.receiver) != Kind::Iter {
            return None;
        }
        let Expr::Closure(c) = &m.args[0] else { return None };
        if c.inputs.len() != 1 || has_control(&c.body) {
            return None;
        }
        Some(((*m.receiver).clone(), strip_pat_type(c.inputs[0].clone()), (*c.body).clone()))
    }

    /// Ghost closure contract `ensures r == <body as spec>` for a pure closure.
    fn annotate_closure(&mut self, c: &mut ExprClosure, arg_ty: &[TokenStream], ret: TokenStream) {
        let spec = self.to_spec(&c.body);
        let mut ins = vec![];
        let mut pre = TokenStream::new();
        let mut spec_pre = TokenStream::new();
        for (i, p) in c.inputs.iter().enumerate() {
            let p = strip_pat_type(p.clone());
            let t = arg_ty.get(i).cloned().unwrap_or(quote!(_));
            match &p {
                Pat::Ident(_) => ins.push(quote!(#p: #t)),
                Pat::Reference(r) => {
                    let v = self.fresh();
                    let inner = &r.pat;
                    ins.push(quote!(#v: #t));
                    pre.extend(quote!(let #inner = *#v;));
                    spec_pre.extend(quote!(let #inner = *#v;));
                }
                _ => {
                    let v = self.fresh();
                    ins.push(quote!(#v: #t));
                    pre.extend(quote!(let #p = #v;));
                    spec_pre.extend(quote!(let #p = #v;));
                }
            }
        }
        let id = self.closures.len();
        let spec = match spec {
            Some(s) => format!("({{ {spec_pre} {s} }})"),
            None => {
                self.unsup(format!("closure without a spec reading: {}", c.to_token_stream()));
                "true".into()
            }
        };
        self.closures.push(format!("-> (__b: {ret}) ensures __b == {spec}"));
        let idl = Literal::usize_unsuffixed(id);
        let body = &c.body;
        *c = parse2(quote!(|#(#ins),*| { __vx_clos!{#idl} #pre #body })).expect("closure");
        self.count("closure contract generated");
    }

    fn to_spec(&mut self, e: &Expr) -> Option<String> {
        let mut e = e.clone();
        let mut ok = true;
        SpecConv { cx: self, ok: &mut ok }.visit_expr_mut(&mut e);
        ok.then(|| e.to_token_stream().to_string())
    }

    fn pat_suffix(&mut self, arg: &mut Expr) -> Option<&'static str> {
        match arg {
            Expr::Lit(ExprLit { lit: Lit::Char(_), .. }) => Some("_c"),
            Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => Some("_s"),
            Expr::Reference(_) => Some("_s"),
            Expr::Closure(c) => {
                self.annotate_closure(c, &[quote!(char)], quote!(bool));
                Some("_f")
            }
            Expr::Array(a) => match a.elems.len() {
                2 => Some("_c2"),
                3 => Some("_c3"),
                _ => None,
            },
            Expr::Path(p) => {
                let p = p.clone();
                if let Some(l) = self.lit_const(&p.path) {
                    *arg = Expr::Lit(ExprLit { attrs: vec![], lit: l.clone() });
                    return match l {
                        Lit::Char(_) => Some("_c"),
                        Lit::Str(_) => Some("_s"),
                        _ => None,
                    };
                }
                if let Some(i) = p.path.get_ident() {
                    // parameter or local of char type
                    for inp in &self.f.sig.inputs {
                        if let FnArg::Typed(t) = inp {
                            if t.pat.to_token_stream().to_string().trim_start_matches("mut ") == i.to_string() {
                                return Some(if ty_ident(&t.ty) == "char" { "_c" } else { "_s" });
                            }
                        }
                    }
                    let n = i.to_string();
                    if !self.specs.contains_key(&n) && !self.ix.fns.contains_key(&n) {
                        return Some("_s");
                    }
                }
                // function path used as a char predicate
                let f = arg.clone();
                let mut c: ExprClosure = parse_quote!(|__c| #f(__c));
                // `char::is_x` methods take `&self` or `self`
                let last = p.path.segments.last().unwrap().ident.clone();
                if p.path.segments.first().map(|s| s.ident == "char").unwrap_or(false) {
                    c = parse_quote!(|__c| __c.#last());
                }
                self.annotate_closure(&mut c, &[quote!(char)], quote!(bool));
                *arg = Expr::Closure(c);
                Some("_f")
            }
            _ => Some("_s"),
        }
    }

    fn block(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            match &mut s {
                Stmt::Local(l) => {
                    l.attrs.clear();
                    if let Some(init) = &mut l.init {
                        self.expr(&mut init.expr);
                        if let Some((_, d)) = &mut init.diverge {
                            self.expr(d);
                        }
                        if let Pat::Ident(i) = &l.pat {
                            let k = self.kind(&init.expr);
                            self.locals.insert(i.ident.to_string(), k);
                        }
                    }
                    self.pat(&mut l.pat);
                }
                Stmt::Expr(e, _) => self.expr(e),
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if n.starts_with("debug_assert") {
                        // kept: evaluated in the built crate
                    }
                    let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    self.expr(&mut e);
                    s = Stmt::Expr(e, m.semi_token);
                }
                Stmt::Item(Item::Use(_)) => {
                    continue;
                }
                Stmt::Item(_) => self.unsup("nested item"),
            }
            out.push(s);
        }
        b.stmts = out;
    }

    fn pat(&mut self, p: &mut Pat) {
        struct PV<'b, 'a>(&'b mut Cx<'a>);
        impl VisitMut for PV<'_, '_> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Path(pp) = p {
                    if let Some(l) = self.0.lit_const(&pp.path) {
                        if let Lit::Str(s) = &l {
                            self.0.literals.insert(s.value());
                            self.0.pat_literals.insert(s.value());
                        }
                        *p = Pat::Lit(ExprLit { attrs: vec![], lit: l });
                        return;
                    }
                }
                if let Pat::Lit(l) = p {
                    if let Lit::Str(s) = &l.lit {
                        self.0.literals.insert(s.value());
                            self.0.pat_literals.insert(s.value());
                    }
                }
                visit_mut::visit_pat_mut(self, p);
            }
            fn visit_expr_mut(&mut self, _e: &mut Expr) {}
        }
        PV(self).visit_pat_mut(p);
    }

    fn fmt_macro(&mut self, mac: &Macro, sink: Option<()>) -> Option<(Option<Expr>, Vec<FmtPart>)> {
        use syn::punctuated::Punctuated;
        let args = mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
        let mut it = args.into_iter();
        let f = if sink.is_some() { Some(it.next()?) } else { None };
        let Expr::Lit(ExprLit { lit: Lit::Str(fmt), .. }) = it.next()? else { return None };
        let mut pos = vec![];
        let mut named: HashMap<String, Expr> = HashMap::new();
        for a in it {
            match a {
                Expr::Assign(a) => {
                    named.insert(a.left.to_token_stream().to_string(), *a.right);
                }
                a => pos.push(a),
            }
        }
        let s = fmt.value();
        let mut parts = vec![];
        let mut lit = String::new();
        let mut cs = s.chars().peekable();
        let mut next = 0;
        while let Some(c) = cs.next() {
            match c {
                '{' if cs.peek() == Some(&'{') => {
                    cs.next();
                    lit.push('{');
                }
                '}' => {
                    cs.next();
                    lit.push('}');
                }
                '{' => {
                    let mut inner = String::new();
                    for c in cs.by_ref() {
                        if c == '}' {
                            break;
                        }
                        inner.push(c);
                    }
                    if !lit.is_empty() {
                        parts.push(FmtPart::Lit(std::mem::take(&mut lit)));
                    }
                    let (name, spec) = inner.split_once(':').unwrap_or((&inner, ""));
                    let e = if name.is_empty() {
                        next += 1;
                        pos.get(next - 1)?.clone()
                    } else if let Ok(n) = name.parse::<usize>() {
                        pos.get(n)?.clone()
                    } else if let Some(e) = named.get(name) {
                        e.clone()
                    } else {
                        let i = Ident::new(name, Span::call_site());
                        parse_quote!(#i)
                    };
                    parts.push(FmtPart::Arg(e, spec.to_string()));
                }
                c => lit.push(c),
            }
        }
        if !lit.is_empty() {
            parts.push(FmtPart::Lit(lit));
        }
        Some((f, parts))
    }

    fn fmt_chain(&mut self, f: &Expr, parts: Vec<FmtPart>) -> Expr {
        let mut steps: Vec<TokenStream> = vec![];
        for p in parts {
            match p {
                FmtPart::Lit(l) => {
                    self.literals.insert(l.clone());
                    steps.push(quote!(#f.write_str(#l)));
                }
                FmtPart::Arg(mut e, spec) => {
                    self.expr(&mut e);
                    match spec.as_str() {
                        "" => steps.push(quote!(XDisplay::x_fmt(&#e, #f))),
                        "02x" => steps.push(quote!(x_fmt_02x(&#e, #f))),
                        "x" => steps.push(quote!(x_fmt_x(&#e, #f))),
                        s => self.unsup(format!("format spec {s}")),
                    }
                }
            }
        }
        if steps.is_empty() {
            return parse_quote!(x_fmt_ok());
        }
        let mut acc = steps.pop().unwrap();
        while let Some(s) = steps.pop() {
            acc = quote!(match #s { Ok(()) => #acc, Err(__e) => Err(__e) });
        }
        parse2(quote!((#acc))).unwrap()
    }

    pub fn expr(&mut self, e: &mut Expr) {
        // `Result::and_then(a, |v| …)` is `a.and_then(|v| …)`
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let n = p.path.segments.len();
                if n >= 2 && p.qself.is_none() && c.args.len() >= 2 && matches!(c.args.last(), Some(Expr::Closure(_))) {
                    let (t, m) = (p.path.segments[n - 2].ident.to_string(), p.path.segments[n - 1].ident.clone());
                    if matches!(t.as_str(), "Result" | "Option") {
                        let r = c.args[0].clone();
                        let rest: Vec<Expr> = c.args.iter().skip(1).cloned().collect();
                        *e = parse_quote!((#r).#m(#(#rest),*));
                        self.count("method called by path");
                    }
                }
            }
        }
        // ---- pre-order special forms
        // `iter.try_for_each(|p| body)?` is `for p in iter { body?; }`
        // `a == b` is `PartialEq::eq(&a, &b)`
        if self.flags.contains("xeq") {
            if let Expr::Binary(b) = e {
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) {
                    let (mut l, mut r) = (b.left.clone(), b.right.clone());
                    self.expr(&mut l);
                    self.expr(&mut r);
                    *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(XEq::x_eq(&(#l), &(#r))) } else { parse_quote!(!XEq::x_eq(&(#l), &(#r))) };
                    self.count("comparison named");
                    return;
                }
            }
        }
        // casts to floating point, and comparison of owned texts with literals: named, with a contract
        if let Expr::Cast(c) = e {
            if ty_ident(&c.ty) == "f64" {
                self.expr(&mut c.expr);
                let x = &c.expr;
                *e = parse_quote!(XAsF64::x_as_f64(#x));
                self.count("cast to f64 named");
                return;
            }
        }
        if let Expr::Binary(b) = e {
            let fresh = |e: &Expr| matches!(e, Expr::MethodCall(m) if m.method == "to_string" && m.args.is_empty());
            if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (fresh(&b.left) || fresh(&b.right)) {
                let (mut l, mut r) = (b.left.clone(), b.right.clone());
                self.expr(&mut l);
                self.expr(&mut r);
                *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(x_str_eq(&#l, &#r)) } else { parse_quote!(!x_str_eq(&#l, &#r)) };
                self.count("comparison with an owned text named");
                return;
            }
        }
        if let Expr::Binary(b) = e {
            let lit = matches!(&*b.right, Expr::Lit(l) if matches!(l.lit, Lit::Str(_)));
            if lit && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && is_string_param(&self.f.sig, &b.left) {
                let l = b.left.clone();
                b.left = Box::new(parse_quote!(#l.as_str()));
                self.count("String compared through as_str");
            }
        }
        if let Expr::Try(t) = e {
            if let Some((recv, pat, body)) = self.try_for_each(&t.expr) {
                *e = parse_quote!({ for #pat in #recv { (#body)?; } });
                self.count("try_for_each->for");
                self.expr(e);
                return;
            }
        }
        // `it.map(|p| ..?..).collect::<Result<_, E>>()?` in a function failing with `E`
        if let Expr::Try(t) = e {
            if let Some(x) = self.try_collect(&t.expr) {
                *e = x;
                self.count("collect of results->loop");
                self.expr(e);
                return;
            }
        }
        if let Expr::Try(t) = e {
            if let Some(x) = self.inline_closure_call(&t.expr) {
                *e = x;
                self.expr(e);
                return;
            }
        }
        if let Some((recv, pat, body)) = self.try_for_each(e) {
            let v = self.fresh();
            *e = parse_quote!({
                let mut #v = Ok(());
                for #pat in #recv { match #body { Ok(()) => {} Err(__e) => { #v = Err(__e); break; } } }
                #v
            });
            self.count("try_for_each->for");
            self.expr(e);
            return;
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "replace_range" && m.args.len() == 2 {
                if let Expr::Range(rg) = &m.args[0] {
                    let r = &m.receiver;
                    let t = &m.args[1];
                    let n: Option<Expr> = match (&rg.start, &rg.end, matches!(rg.limits, RangeLimits::Closed(_))) {
                        (None, Some(b), false) => Some(parse_quote!(#r.x_replace_to(#b, #t))),
                        (Some(a), None, _) => Some(parse_quote!(#r.x_replace_from(#a, #t))),
                        _ => None,
                    };
                    match n {
                        Some(n) => {
                            *e = n;
                            self.count("replace_range->shim");
                        }
                        None => self.unsup("replace_range form"),
                    }
                    self.expr(e);
                    return;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "rsplit_once" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    if let (1, Some(body)) = (c.inputs.len(), no_return(&c.body)) {
                        let (r, p) = (&m.receiver, strip_pat_type(c.inputs[0].clone()));
                        *e = parse_quote!({
                            let __t = #r;
                            let __cs = __t.x_chars_vec();
                            let mut __k: usize = __cs.len();
                            let mut __r: Option<(&str, &str)> = None;
                            while __k > 0 {
                                __k = __k - 1;
                                let #p = __cs[__k];
                                let __hit: bool = #body;
                                if __hit {
                                    __r = Some((__t.x_take_chars(__k), __t.x_skip_chars(__k + 1)));
                                    break;
                                }
                            }
                            __r
                        });
                        self.count("rsplit_once(closure)->while");
                        if let Expr::Block(b) = e {
                            self.block(&mut b.block);
                        }
                        return;
                    }
                }
            }
            // itoa::Buffer::new().format(v)
            if m.method == "format" && m.receiver.to_token_stream().to_string().replace(' ', "") == "itoa::Buffer::new()"
            {
                let mut a = m.args[0].clone();
                self.expr(&mut a);
                *e = parse_quote!(x_itoa(#a).as_str());
                self.count("itoa");
                return;
            }
            // generic `T: AsRef<str>` parameter monomorphised at &str
            if let Expr::Path(p) = &*m.receiver {
                if let Some(i) = p.path.get_ident() {
                    if self.strparams.contains(&i.to_string()) {
                        if m.method == "as_ref" {
                            *e = parse_quote!(#i);
                            return;
                        }
                    }
                }
            }
            if m.method == "as_ref" && self.flags.contains("drop_as_ref") {
                let r = m.receiver.clone();
                if self.kind(&r) == Kind::Unknown {
                    let mut r = *r;
                    self.expr(&mut r);
                    *e = r;
                    return;
                }
            }
        }
        match e {
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                match name.as_str() {
                    "write" => {
                        let mac = m.mac.clone();
                        match self.fmt_macro(&mac, Some(())) {
                            Some((Some(f), parts)) => {
                                *e = self.fmt_chain(&f, parts);
                                self.count("write!->calls");
                            }
                            _ => self.unsup("write! form"),
                        }
                    }
                    "format" => {
                        let mac = m.mac.clone();
                        match self.fmt_macro(&mac, None) {
                            Some((None, parts)) => {
                                let v = self.fresh();
                                let f: Expr = parse_quote!((&mut #v));
                                let ch = self.fmt_chain(&f, parts);
                                *e = parse_quote!({ let mut #v = Fmt::x_new(); let __r = #ch; #v.x_into_string() });
                                self.count("format!->calls");
                            }
                            _ => self.unsup("format! form"),
                        }
                    }
                    "indexset" => {
                        let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                        match m.mac.parse_body_with(p) {
                            Ok(items) => {
                                let v = self.fresh();
                                let mut items: Vec<Expr> = items.into_iter().collect();
                                items.iter_mut().for_each(|x| self.expr(x));
                                *e = parse_quote!({ let mut #v = XIter::x_new(); #(#v.push(#items);)* #v.x_collect() });
                                self.count("indexset!->pushes");
                            }
                            Err(_) => self.unsup("indexset! form"),
                        }
                    }
                    "matches" => {
                        let body: Result<(Expr, Pat, Option<Expr>)> = m.mac.parse_body_with(
                            |input: parse::ParseStream| {
                                let e: Expr = input.parse()?;
                                input.parse::<Token![,]>()?;
                                let p = Pat::parse_multi_with_leading_vert(input)?;
                                let g = if input.peek(Token![if]) {
                                    input.parse::<Token![if]>()?;
                                    Some(input.parse::<Expr>()?)
                                } else {
                                    None
                                };
                                let _ = input.parse::<Option<Token![,]>>()?;
                                Ok((e, p, g))
                            },
                        );
                        match body {
                            Ok((mut s, mut p, g)) => {
                                self.expr(&mut s);
                                self.pat(&mut p);
                                let g = g.map(|mut g| {
                                    self.expr(&mut g);
                                    quote!(if #g)
                                });
                                *e = parse2(quote!((match #s { #p #g => true, _ => false }))).unwrap();
                                self.count("matches!->match");
                            }
                            Err(_) => self.unsup("matches! form"),
                        }
                    }
                    "unreachable" => *e = parse_quote!(x_unreachable()),
                    "panic" | "todo" | "unimplemented" => *e = parse_quote!(x_unreachable()),
                    "debug_assert" | "assert" => {
                        let mac = m.mac.clone();
                        let args = mac
                            .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                        match args {
                            Ok(a) if !a.is_empty() => {
                                let mut c = a[0].clone();
                                self.expr(&mut c);
                                *e = parse_quote!(x_assert(#c));
                            }
                            _ => self.unsup("assert form"),
                        }
                    }
                    "__vx_loop" | "__vx_loopend" | "__vx_for" | "__vx_clos" => {}
                    "vec" => {
                        let els = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                        if let Ok(mut els) = els {
                            for x in els.iter_mut() {
                                self.expr(x);
                            }
                            m.mac.tokens = els.to_token_stream();
                        }
                    }
                    // the text of an error: dropped
                    "format_args" => {
                        // `"{x}"` alone shows the value
                        let lit = syn::parse2::<LitStr>(m.mac.tokens.clone()).map(|l| l.value()).unwrap_or_default();
                        let name = lit.strip_prefix('{').and_then(|l| l.strip_suffix('}')).and_then(|n| syn::parse_str::<Ident>(n).ok());
                        match name {
                            Some(n) => *e = parse_quote!(x_show(&#n)),
                            None => *e = parse_quote!(x_fmt_args()),
                        }
                    }
                    n => self.unsup(format!("macro {n}!")),
                }
                return;
            }
            // `it.filter_map(f)` / `it.map(f)` / `it.filter(f)` / `it.flat_map(f)`, evaluated into a list in order
            Expr::MethodCall(m) if self.xfor && self.iter_adapter(m).is_some() => {
                let mut b = self.iter_adapter(m).unwrap();
                self.expr(&mut b);
                self.count("iterator adapter->loop");
                *e = b;
                return;
            }
            // `*map.entry(k).or_insert(v)` read as a value
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr: inner, .. }) if self.xfor && entry_or_insert(inner).is_some() => {
                let (mut r, mut k, mut v) = entry_or_insert(inner).unwrap();
                self.expr(&mut r);
                self.expr(&mut k);
                self.expr(&mut v);
                self.count("entry or_insert->shim");
                *e = parse_quote!(#r.x_entry_or_insert(#k, #v));
                return;
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                // closures handed to functions keep their closure form: annotate when pure
                let is_comb = matches!(
                    name.as_str(),
                    "map" | "and_then" | "map_or" | "map_or_else" | "or_else" | "unwrap_or_else" | "is_some_and"
                        | "is_none_or" | "filter" | "ok_or_else" | "map_err" | "is_ok_and" | "then"
                );
                self.expr(&mut m.receiver);
                if name == "splitn" && m.args.len() == 2 {
                    let mut a = m.args[1].clone();
                    if let Some(sfx) = self.pat_suffix(&mut a) {
                        let mut n = m.args[0].clone();
                        self.expr(&mut n);
                        let mn = format_ident!("x_splitn{}", sfx);
                        let r = &m.receiver;
                        *e = parse_quote!(#r.#mn(#n, #a).into_iter());
                        self.count("str pattern method->shim");
                        return;
                    }
                }
                if !is_comb && PAT_METHODS.contains(&name.as_str()) && m.args.len() == 1 {
                    let recv_kind = self.kind(&m.receiver);
                    let keep = recv_kind == Kind::Iter
                        || (name == "contains"
                            && (matches!(m.args[0], Expr::Reference(_)) || self.flags.contains("native_contains")))
                        || (name == "starts_with" && self.flags.contains("path_starts_with"));
                    if !keep {
                        let mut a = m.args[0].clone();
                        match self.pat_suffix(&mut a) {
                            Some(sfx) => {
                                if !matches!(a, Expr::Closure(_)) {
                                    self.expr(&mut a);
                                }
                                let mn = format!("x_{name}{sfx}");
                                let mn = self.methods.iter().find(|(a, _)| *a == mn).map_or(mn, |(_, b)| b.clone());
                                let mn = Ident::new(&mn, Span::call_site());
                                let r = &m.receiver;
                                *e = match a {
                                    Expr::Array(arr) => {
                                        let el = arr.elems.iter();
                                        parse_quote!(#r.#mn(#(#el),*))
                                    }
                                    a => parse_quote!(#r.#mn(#a)),
                                };
                                if name.starts_with("split") && !name.starts_with("split_once") {
                                    let inner = e.clone();
                                    *e = parse_quote!(#inner.into_iter());
                                }
                                self.count("str pattern method->shim");
                                return;
                            }
                            None => self.unsup(format!("pattern argument of {name}")),
                        }
                    }
                }
                if self.kind(&m.receiver) == Kind::Iter {
                    let chars = m.receiver.to_token_stream().to_string().contains("chars");
                    for a in m.args.iter_mut() {
                        if let Expr::Path(p) = a {
                            if matches!(name.as_str(), "all" | "any") {
                                let last = p.path.segments.last().unwrap().ident.clone();
                                let pth = p.path.clone();
                                let is_char =
                                    p.path.segments.len() == 2 && p.path.segments[0].ident == "char";
                                self.note_call_path(&pth);
                                *a = if is_char {
                                    parse_quote!(|__c| __c.#last())
                                } else {
                                    parse_quote!(|__c| #pth(__c))
                                };
                            }
                        }
                        if let Expr::Closure(c) = a {
                            if c.body.to_token_stream().to_string().starts_with("{ __vx_clos") {
                                self.expr(&mut c.body);
                            } else if chars && matches!(name.as_str(), "all" | "any") {
                                self.expr_calls_only(&c.body);
                                self.annotate_closure(c, &[quote!(char)], quote!(bool));
                            } else {
                                self.unsup(format!("iterator adapter {name} with a closure"));
                            }
                        } else {
                            self.expr(a);
                        }
                    }
                    return;
                }
                for a in m.args.iter_mut() {
                    match a {
                        Expr::Closure(c) => self.expr(&mut c.body),
                        Expr::Path(_) if is_comb => {}
                        a => self.expr(a),
                    }
                }
                let mc = m.clone();
                if let Some(n) = self.combinator(&mc) {
                    *e = n;
                    return;
                }
                let Expr::MethodCall(m) = e else { unreachable!() };
                // renames
                if name == "try_into" {
                    if let Some(mut x) = conv_bound(&self.f.sig, &m.receiver, "TryInto") {
                        RenTy(self.ren).visit_type_mut(&mut x);
                        let r = m.receiver.clone();
                        *e = parse_quote!(XTryInto::<#x, _>::x_try_into(#r));
                        self.count("method->shim");
                        return;
                    }
                }
                if name == "into" {
                    if let Some(mut x) = conv_bound(&self.f.sig, &m.receiver, "Into") {
                        if !matches!(ty_ident(&x).as_str(), "String" | "PathBuf") {
                            RenTy(self.ren).visit_type_mut(&mut x);
                            let r = m.receiver.clone();
                            *e = parse_quote!(XInto::<#x>::x_into(#r));
                            self.count("method->shim");
                            return;
                        }
                    }
                }
                if let Some((_, b)) = self.methods.iter().find(|(a, _)| *a == name) {
                    m.method = Ident::new(b, Span::call_site());
                    self.count("method->shim");
                } else {
                    let n = match name.as_str() {
                        "parse" => Some("x_parse"),
                        "into" => Some("x_into"),
                        "try_into" => Some("x_try_into"),
                        "to_owned" => Some("x_to_owned"),
                        "to_string" => Some("x_to_string"),
                        "split_at" => Some("x_split_at"),
                        "as_deref" => Some("x_as_deref"),
                        "replace_range" => Some("x_replace_range"),
                        "drain" => Some("x_drain"),
                        _ => None,
                    };
                    if let Some(n) = n {
                        m.method = Ident::new(n, Span::call_site());
                        self.count("method->shim");
                    }
                }
                if let Expr::Path(p) = &*m.receiver {
                    if p.path.is_ident("self") {
                        if let Some((t, _)) = &self.f.self_ty {
                            let k = format!("{t}::{name}");
                            if self.ix.fns.contains_key(&k) {
                                self.calls.insert(k);
                            }
                        }
                    }
                }
                return;
            }
            Expr::Call(c) => {
                while let Expr::Paren(p) = &*c.func {
                    c.func = p.expr.clone();
                }
                if let Expr::Path(p) = &*c.func {
                    let key = p.to_token_stream().to_string().replace(' ', "");
                    let path = p.path.clone();
                    self.note_call_path(&path);
                    if let Some(n) = self.ren.get(&key) {
                        let n: Expr = syn::parse_str(n).expect("rename");
                        c.func = Box::new(n);
                        self.count("path rename");
                    } else {
                        match key.as_str() {
                            "String::from" | "str::to_owned" | "ToOwned::to_owned" | "String::to_owned" => {
                                c.func = Box::new(parse_quote!(x_string_from));
                            }
                            "Into::into" | "::std::convert::Into::into" | "::core::convert::Into::into" => c.func = Box::new(parse_quote!(XInto::x_into)),
                            "Display::fmt" => c.func = Box::new(parse_quote!(XDisplay::x_fmt)),
                            "str::parse" => c.func = Box::new(parse_quote!(XStr::x_parse)),
                            "str::to_string" | "ToString::to_string" => c.func = Box::new(parse_quote!(XToString::x_to_string)),
                            "Default::default" | "::core::default::Default::default" => c.func = Box::new(parse_quote!(XDefault::x_default)),
                            _ => {}
                        }
                    }
                }
                // the `AsRef<Path>` conversion of a monomorphised parameter happens at the call
                let paths: Vec<bool> = match &*c.func {
                    Expr::Path(p) => match self.resolve_fn(&p.path).and_then(|k| self.ix.fns.get(&k)) {
                        Some(f) => path_params(f),
                        // in the expanded crate a function is known with its module
                        None => match (&self.f.self_ty, p.path.segments.len(), p.path.segments.first()) {
                            (Some((ty, _)), 2, Some(s)) if s.ident == "Self" => {
                                let k = format!("::{ty}::{}", p.path.segments[1].ident);
                                let v: Vec<_> = self.ix.fns.iter().filter(|(n, _)| n.ends_with(&k)).collect();
                                if v.len() == 1 { path_params(v[0].1) } else { vec![] }
                            }
                            _ => vec![],
                        },
                    },
                    _ => vec![],
                };
                for (i, a) in c.args.iter_mut().enumerate() {
                    if paths.get(i) == Some(&true) && matches!(a, Expr::Path(_)) {
                        *a = parse_quote!(XAsPath::x_as_path(&#a));
                        self.count("AsRef<Path> conversion moved to the call");
                        continue;
                    }
                    match a {
                        Expr::Path(p) => {
                            // enum tuple variant passed as a function value
                            if let Some(cl) = self.variant_closure(&p.path.clone()) {
                                *a = cl;
                                continue;
                            }
                            self.expr(a);
                        }
                        Expr::Closure(cl) => {
                            let b = cl.body.clone();
                            self.expr_calls_only(&b);
                            self.unsup("closure passed to a function");
                        }
                        a => self.expr(a),
                    }
                }
                return;
            }
            Expr::Path(p) => {
                let key = p.to_token_stream().to_string().replace(' ', "");
                if let Some(n) = self.ren.get(&key) {
                    *e = syn::parse_str(n).expect("rename");
                    return;
                }
                if let Some(l) = self.lit_const(&p.path) {
                    if let Lit::Str(s) = &l {
                        self.literals.insert(s.value());
                    }
                    *e = Expr::Lit(ExprLit { attrs: vec![], lit: l });
                    self.count("const inlined");
                } else if let Some((k, _, _)) = self.resolve_const(&p.path) {
                    if k.contains("::") {
                        let i = format_ident!("{}", k.replace("::", "_"));
                        *e = parse_quote!(#i);
                    }
                }
                return;
            }
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                self.literals.insert(s.value());
                return;
            }
            Expr::Range(rg) if matches!(rg.limits, RangeLimits::Closed(_)) && rg.start.is_some() && rg.end.is_some() => {
                let (mut a, mut b) = (rg.start.clone().unwrap(), rg.end.clone().unwrap());
                self.expr(&mut a);
                self.expr(&mut b);
                *e = parse_quote!(x_range_inc(#a, #b));
                self.count("inclusive range->shim");
                return;
            }
            Expr::Reference(r) => {
                if let Expr::Index(ix) = &mut *r.expr {
                    if let Expr::Range(rg) = &mut *ix.index {
                        let mut base = (*ix.expr).clone();
                        self.expr(&mut base);
                        let incl = matches!(rg.limits, RangeLimits::Closed(_));
                        let (s, t) = (rg.start.clone(), rg.end.clone());
                        let n: Option<Expr> = match (s, t, incl) {
                            (None, Some(mut t), false) => {
                                self.expr(&mut t);
                                Some(parse_quote!(#base.x_slice_to(#t)))
                            }
                            (Some(mut s), None, _) => {
                                self.expr(&mut s);
                                Some(parse_quote!(#base.x_slice_from(#s)))
                            }
                            (Some(mut s), Some(mut t), false) => {
                                self.expr(&mut s);
                                self.expr(&mut t);
                                Some(parse_quote!(#base.x_slice(#s, #t)))
                            }
                            _ => None,
                        };
                        match n {
                            Some(n) => {
                                *e = n;
                                self.count("str slice->shim");
                            }
                            None => self.unsup("slice form"),
                        }
                        return;
                    }
                }
                self.expr(&mut r.expr);
                return;
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let pat = l.pat.clone();
                    let mut init = (*l.expr).clone();
                    let mut body = w.body.clone();
                    let n = self.loops_seen;
                    self.loops_seen += 1;
                    self.expr(&mut init);
                    self.block(&mut body);
                    let idl = Literal::usize_unsuffixed(n);
                    self.mark_end(&mut body, n);
                    let stmts = &body.stmts;
                    let label = &w.label;
                    *e = parse2(quote!(#label loop { __vx_loop!{#idl} let #pat = #init else { break; }; #(#stmts)* }))
                        .unwrap();
                    self.count("while let->loop");
                } else {
                    let n = self.loops_seen;
                    self.loops_seen += 1;
                    self.expr(&mut w.cond);
                    self.block(&mut w.body);
                    let idl = Literal::usize_unsuffixed(n);
                    w.body.stmts.insert(0, parse_quote!(__vx_loop!{#idl}));
                    self.mark_end(&mut w.body, n);
                }
                return;
            }
            Expr::Loop(l) => {
                let n = self.loops_seen;
                self.loops_seen += 1;
                self.block(&mut l.body);
                let idl = Literal::usize_unsuffixed(n);
                l.body.stmts.insert(0, parse_quote!(__vx_loop!{#idl}));
                self.mark_end(&mut l.body, n);
                return;
            }
            Expr::ForLoop(f) => {
                let n = self.loops_seen;
                self.loops_seen += 1;
                // `for (i, x) in e.enumerate()`: the counter becomes an explicit local
                let mut counter = None;
                if let (Pat::Tuple(t), Expr::MethodCall(m)) = (&*f.pat, &*f.expr) {
                    if m.method == "enumerate" && m.args.is_empty() && t.elems.len() == 2 {
                        let (a, b) = (t.elems[0].clone(), t.elems[1].clone());
                        let c = format_ident!("__n{n}");
                        f.body.stmts.insert(0, parse_quote!(let #a = #c;));
                        f.body.stmts.insert(1, parse_quote!(#c = #c + 1;));
                        let r = m.receiver.clone();
                        f.expr = r;
                        f.pat = Box::new(b);
                        counter = Some(c);
                        self.count("enumerate->counter");
                    }
                }
                self.expr(&mut f.expr);
                self.block(&mut f.body);
                let idl = Literal::usize_unsuffixed(n);
                if !matches!(&*f.pat, Pat::Ident(_) | Pat::Wild(_)) {
                    let v = self.fresh();
                    let p = strip_ref(&f.pat);
                    let pre: Stmt = match p {
                        (_, Pat::Or(o)) => self.or_let(&o, &v),
                        (true, p) => parse_quote!(let #p = *#v;),
                        (false, p) => parse_quote!(let #p = #v;),
                    };
                    f.body.stmts.insert(0, pre);
                    f.pat = Box::new(parse_quote!(#v));
                }
                if self.xfor {
                    let x = f.expr.clone();
                    f.expr = Box::new(parse_quote!((#x).x_items()));
                }
                f.body.stmts.insert(0, parse_quote!(__vx_loop!{#idl}));
                self.mark_end(&mut f.body, n);
                let x = &f.expr;
                f.expr = Box::new(parse_quote!(__vx_for!{#idl #x}));
                if let Some(c) = counter {
                    let l = f.clone();
                    *e = parse_quote!({ let mut #c: usize = 0; #l });
                }
                return;
            }
            Expr::Closure(c) => {
                let b = c.body.clone();
                self.expr_calls_only(&b);
                return;
            }
            Expr::If(i) => {
                self.expr(&mut i.cond);
                self.block(&mut i.then_branch);
                if let Some((_, b)) = &mut i.else_branch {
                    self.expr(b);
                }
                return;
            }
            Expr::Let(l) => {
                self.expr(&mut l.expr);
                self.pat(&mut l.pat);
                return;
            }
            Expr::Match(m) => {
                self.expr(&mut m.expr);
                m.attrs.clear();
                for a in &mut m.arms {
                    a.attrs.clear();
                    self.pat(&mut a.pat);
                    if let Some((_, g)) = &mut a.guard {
                        self.expr(g);
                    }
                    self.expr(&mut a.body);
                }
                return;
            }
            Expr::Block(b) => {
                self.block(&mut b.block);
                return;
            }
            _ => {}
        }
        // generic recursion
        struct R<'b, 'a>(&'b mut Cx<'a>);
        impl VisitMut for R<'_, '_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                self.0.expr(e);
            }
            fn visit_block_mut(&mut self, b: &mut Block) {
                self.0.block(b);
            }
        }
        let mut r = R(self);
        visit_mut::visit_expr_mut(&mut r, e);
    }

    fn expr_calls_only(&mut self, e: &Expr) {
        let mut e = e.clone();
        struct R<'b, 'a>(&'b mut Cx<'a>);
        impl VisitMut for R<'_, '_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Call(c) = e {
                    if let Expr::Path(p) = &*c.func {
                        let p = p.path.clone();
                        self.0.note_call_path(&p);
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        R(self).visit_expr_mut(&mut e);
    }

    fn variant_closure(&mut self, p: &Path) -> Option<Expr> {
        if p.segments.len() != 2 {
            return None;
        }
        let t = p.segments[0].ident.to_string();
        let t = if t == "Self" { self.f.self_ty.as_ref()?.0.clone() } else { t };
        let Item::Enum(en) = self.ix.types.get(&t)? else { return None };
        let v = en.variants.iter().find(|v| v.ident == p.segments[1].ident)?;
        let Fields::Unnamed(u) = &v.fields else { return None };
        if u.unnamed.len() != 1 {
            return None;
        }
        let ty = &u.unnamed[0].ty;
        let ti = format_ident!("{t}");
        let vi = &v.ident;
        let id = self.closures.len();
        self.closures.push(format!("-> (__b: {t}) ensures __b == {t}::{vi}(__x)"));
        let idl = Literal::usize_unsuffixed(id);
        self.count("variant constructor eta-expanded");
        Some(parse_quote!(|__x: #ty| { __vx_clos!{#idl} #ti::#vi(__x) }))
    }
}

use proc_macro2::Literal;

enum FmtPart {
    Lit(String),
    Arg(Expr, String),
}

/// The body of a closure with `return v;` turned into the value of the branch it is in.
fn no_return(e: &Expr) -> Option<Expr> {
    fn has_return(s: &Stmt) -> bool {
        struct V(bool);
        impl<'a> syn::visit::Visit<'a> for V {
            fn visit_expr_return(&mut self, _: &'a ExprReturn) {
                self.0 = true;
            }
            fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        }
        let mut v = V(false);
        syn::visit::Visit::visit_stmt(&mut v, s);
        v.0
    }
    fn go(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
        let Some((first, rest)) = stmts.split_first() else { return Some(vec![]) };
        if !has_return(first) {
            let mut v = vec![first.clone()];
            v.extend(go(rest)?);
            return Some(v);
        }
        match first {
            Stmt::Expr(Expr::Return(r), _) => Some(vec![Stmt::Expr((*r.expr.clone()?).clone(), None)]),
            Stmt::Expr(Expr::If(i), _) => {
                let cat = |b: &[Stmt]| {
                    let mut v: Vec<Stmt> = b.to_vec();
                    if let Some(Stmt::Expr(_, semi @ None)) = v.last_mut() {
                        if !rest.is_empty() {
                            *semi = Some(Default::default());
                        }
                    }
                    v.extend(rest.to_vec());
                    go(&v)
                };
                let t = cat(&i.then_branch.stmts)?;
                let f = match &i.else_branch {
                    None => cat(&[])?,
                    Some((_, b)) => match &**b {
                        Expr::Block(b) => cat(&b.block.stmts)?,
                        e => cat(&[Stmt::Expr(e.clone(), None)])?,
                    },
                };
                let c = &i.cond;
                Some(vec![Stmt::Expr(parse_quote!(if #c { #(#t)* } else { #(#f)* }), None)])
            }
            _ => None,
        }
    }
    let stmts = match e {
        Expr::Block(b) => go(&b.block.stmts)?,
        e => vec![Stmt::Expr(e.clone(), None)],
    };
    Some(parse_quote!({ #(#stmts)* }))
}

fn strip_ref(p: &Pat) -> (bool, Pat) {
    match p {
        Pat::Reference(r) => (true, (*r.pat).clone()),
        p => (false, p.clone()),
    }
}

fn strip_pat_type(p: Pat) -> Pat {
    match p {
        Pat::Type(t) => *t.pat,
        p => p,
    }
}

fn has_control(e: &Expr) -> bool {
    struct C(bool);
    impl<'a> syn::visit::Visit<'a> for C {
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut c = C(false);
    syn::visit::Visit::visit_expr(&mut c, e);
    c.0
}

/// Exec expression -> spec expression (char predicates, comparisons, matches, calls to specified fns).
struct SpecConv<'b, 'a> {
    cx: &'b mut Cx<'a>,
    ok: &'b mut bool,
}
impl VisitMut for SpecConv<'_, '_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Lit(_) | Expr::Binary(_) | Expr::Unary(_) | Expr::Paren(_) | Expr::If(_) | Expr::Reference(_)
            | Expr::Field(_) | Expr::Group(_) | Expr::Block(_) | Expr::Let(_) | Expr::Tuple(_) => {}
            Expr::Path(p) => {
                if let Some(l) = self.cx.lit_const(&p.path) {
                    *e = Expr::Lit(ExprLit { attrs: vec![], lit: l });
                }
                return;
            }
            Expr::Match(m) => {
                for a in &mut m.arms {
                    self.cx.pat(&mut a.pat);
                }
            }
            Expr::Macro(m) if m.mac.path.is_ident("matches") => {
                self.cx.expr(e);
                return;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    if matches!(last.as_str(), "Some" | "Ok" | "Err") {
                    } else {
                        let n = self.cx.specs.get(&last).cloned().unwrap_or(format!("{last}__spec"));
                        let id = Ident::new(&n, Span::call_site());
                        c.func = Box::new(parse_quote!(#id));
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let known = [
                    "is_ascii_digit", "is_ascii_lowercase", "is_ascii_uppercase", "is_ascii_alphanumeric",
                    "is_ascii_alphabetic", "is_ascii_hexdigit", "is_ascii_punctuation", "is_ascii_graphic",
                    "is_whitespace", "is_alphanumeric", "is_ascii", "is_control", "is_ascii_whitespace",
                    "is_numeric", "is_alphabetic", "is_lowercase", "is_uppercase",
                ];
                if known.contains(&n.as_str()) {
                    let id = format_ident!("spec_{}", n);
                    self.visit_expr_mut(&mut m.receiver);
                    let r = &m.receiver;
                    *e = parse_quote!(#id(#r));
                    return;
                }
                if n == "contains" {
                    // (a..=b).contains(&c)
                    if let Expr::Paren(p) = &*m.receiver {
                        if let Expr::Range(rg) = &*p.expr {
                            if let (Some(s), Some(t), RangeLimits::Closed(_)) = (&rg.start, &rg.end, &rg.limits) {
                                if let Expr::Reference(a) = &m.args[0] {
                                    let a = &a.expr;
                                    *e = parse_quote!((#s <= #a && #a <= #t));
                                    return;
                                }
                            }
                        }
                    }
                }
                *self.ok = false;
                return;
            }
            _ => {
                *self.ok = false;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        match s {
            Stmt::Local(l) if l.init.is_some() => {}
            Stmt::Expr(_, None) => {}
            _ => *self.ok = false,
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// `spec fn` mirror plus contract for a loop-free pure helper.
pub fn auto_spec(cx: &mut Cx, f: &FnItem) -> Option<(String, String)> {
    if f.sig.inputs.iter().any(|i| matches!(i, FnArg::Receiver(_))) {
        return None;
    }
    if !f.sig.generics.params.is_empty() || f.self_ty.is_some() {
        return None;
    }
    let ReturnType::Type(_, rt) = &f.sig.output else { return None };
    let body: Expr = {
        let b = &f.block;
        parse_quote!(#b)
    };
    let s = cx.to_spec(&body)?;
    let name = format!("{}__spec", f.sig.ident);
    let mut ps = vec![];
    let mut args = vec![];
    for i in &f.sig.inputs {
        let FnArg::Typed(t) = i else { return None };
        let Pat::Ident(p) = &*t.pat else { return None };
        ps.push(format!("{}: {}", p.ident, t.ty.to_token_stream()));
        args.push(p.ident.to_string());
    }
    let rt = cx.ren.ty(rt);
    Some((
        format!("pub open spec fn {name}({}) -> {rt} {s}\n", ps.join(", ")),
        format!("    ensures r == {name}({})\n", args.join(", ")),
    ))
}

/// a returned `items.map(|p| ..? ..).collect()` of results becomes a loop which returns the first error
fn tail_collect(cx: &mut Cx, b: &mut Block, fallible: bool) {
    fn go(cx: &mut Cx, e: &mut Expr, fallible: bool) {
        match e {
            Expr::Match(m) => m.arms.iter_mut().for_each(|a| go(cx, &mut a.body, fallible)),
            Expr::If(i) => {
                tail_collect(cx, &mut i.then_branch, fallible);
                if let Some((_, e)) = &mut i.else_branch {
                    go(cx, e, fallible);
                }
            }
            Expr::Block(b) => tail_collect(cx, &mut b.block, fallible),
            Expr::Paren(p) => go(cx, &mut p.expr, fallible),
            Expr::Call(c) if fallible && c.args.len() == 1 && c.func.to_token_stream().to_string() == "Ok" => go(cx, &mut c.args[0], false),
            Expr::MethodCall(c) if c.method == "collect" && c.args.is_empty() => {
                let Expr::MethodCall(m) = &*c.receiver else { return };
                let (true, Some(Expr::Closure(f))) = (m.method == "map", m.args.first()) else { return };
                if f.inputs.len() != 1 || has_return(&f.body) || has_control(&f.body) && !fallible {
                    return;
                }
                let p = strip_pat_type(f.inputs[0].clone());
                let (r, o, x, y) = (&m.receiver, cx.fresh(), cx.fresh(), cx.fresh());
                let mut st = match &*f.body {
                    Expr::Block(b) => b.block.stmts.clone(),
                    e => vec![Stmt::Expr(e.clone(), None)],
                };
                let Some(Stmt::Expr(last, None)) = st.pop() else { return };
                if !fallible {
                    *e = parse_quote!({
                        let mut #o = XIter::x_new();
                        for #x in #r { let #p = #x; #(#st)* let #y = #last; #o.push(#y); }
                        #o.x_collect()
                    });
                    return cx.count("collect->loop");
                }
                let value: Expr = match &last {
                    Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string() == "Ok" => c.args[0].clone(),
                    e => parse_quote!(match #e { Ok(__s) => __s, Err(__e) => { return Err(__e); } }),
                };
                *e = parse_quote!({
                    let mut #o = XIter::x_new();
                    for #x in #r { let #p = #x; #(#st)* let #y = #value; #o.push(#y); }
                    Ok(#o.x_collect())
                });
                cx.count("collect of results->loop");
            }
            _ => {}
        }
    }
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        go(cx, e, fallible);
    }
}

fn has_return(e: &Expr) -> bool {
    struct C(bool);
    impl<'a> syn::visit::Visit<'a> for C {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut c = C(false);
    syn::visit::Visit::visit_expr(&mut c, e);
    c.0
}

/// `fn f(a) -> impl FnOnce(T) -> U { ..; |x| e }` becomes `fn f(a, x: T) -> U { ..; e }`
/// `eta=METHOD[>NAME]~ARG~RET~POST[;...]`: the function handed to METHOD is written as a closure with a contract
/// (and the method called NAME, its counterpart in the contracts)
fn eta(cx: &mut Cx, f: &mut FnItem, o: &str) {
    struct Eta<'a, 'b, 'c> {
        cx: &'a mut Cx<'b>,
        m: HashMap<&'c str, (Type, String, String, Option<String>)>,
    }
    impl VisitMut for Eta<'_, '_, '_> {
        fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
            syn::visit_mut::visit_expr_method_call_mut(self, m);
            let name = m.method.to_string();
            let (Some((ty, ret, post, to)), 1) = (self.m.get(name.as_str()), m.args.len()) else { return };
            let (p, body): (Pat, Expr) = match &m.args[0] {
                Expr::Path(p) => (parse_quote!(x), parse_quote!(#p(x))),
                Expr::Closure(c) if c.inputs.len() == 1 && !has_control(&c.body) => (strip_pat_type(c.inputs[0].clone()), (*c.body).clone()),
                _ => return,
            };
            let bind: Option<Stmt> = match &p {
                Pat::Ident(i) if i.ident == "x" => None,
                p => Some(parse_quote!(let #p = x;)),
            };
            let id = Literal::usize_unsuffixed(self.cx.closures.len());
            self.cx.closures.push(format!("-> (__b: {ret}) ensures {post}"));
            m.args[0] = parse2(quote!(|x: #ty| { __vx_clos!{#id} #bind #body })).expect("closure");
            if let Some(to) = to {
                m.method = Ident::new(to, m.method.span());
            }
            self.cx.count("function argument given a contract");
        }
    }
    let m = o
        .split(';')
        .filter_map(|e| {
            let v: Vec<&str> = e.split('~').map(str::trim).collect();
            let (from, to) = v[0].split_once('>').map_or((v[0], None), |(a, b)| (a, Some(b.to_string())));
            Some((from, (syn::parse_str::<Type>(v.get(1)?).ok()?, v.get(2)?.to_string(), v.get(3)?.to_string(), to)))
        })
        .collect();
    Eta { cx, m }.visit_block_mut(&mut f.block);
}

fn uncurry(cx: &mut Cx, f: &mut FnItem) {
    let ReturnType::Type(_, t) = &f.sig.output else { return };
    let Type::ImplTrait(it) = &**t else { return };
    let Some(TypeParamBound::Trait(tb)) = it.bounds.first() else { return };
    let seg = tb.path.segments.last().unwrap().clone();
    let (true, PathArguments::Parenthesized(pa)) = (matches!(seg.ident.to_string().as_str(), "FnOnce" | "Fn" | "FnMut"), &seg.arguments) else { return };
    let Some(Stmt::Expr(Expr::Closure(c), None)) = f.block.stmts.last().cloned() else { return };
    if c.inputs.len() != pa.inputs.len() || has_control(&c.body) {
        return;
    }
    for (p, t) in c.inputs.iter().zip(pa.inputs.iter()) {
        let p = strip_pat_type(p.clone());
        f.sig.inputs.push(parse_quote!(#p: #t));
    }
    f.sig.output = match &pa.output {
        ReturnType::Default => ReturnType::Default,
        r => r.clone(),
    };
    f.block.stmts.pop();
    f.block.stmts.push(Stmt::Expr((*c.body).clone(), None));
    cx.count("returned closure uncurried");
}

fn is_path_bound(b: &TypeParamBound) -> bool {
    let s = b.to_token_stream().to_string().replace(' ', "");
    s.starts_with("AsRef<Path>") || s.starts_with("Into<PathBuf>")
}

/// which parameters have a generic type bounded by `AsRef<Path>`
/// `AsRef<str>`: the argument is a text, converted by the callee
fn is_text_bound(b: &TypeParamBound) -> bool {
    b.to_token_stream().to_string().replace(' ', "") == "AsRef<str>"
}

fn path_params(f: &FnItem) -> Vec<bool> {
    let mut g: BTreeSet<String> = BTreeSet::new();
    for p in &f.sig.generics.params {
        if let GenericParam::Type(t) = p {
            if t.bounds.iter().any(is_path_bound) && !t.bounds.iter().any(is_text_bound) {
                g.insert(t.ident.to_string());
            }
        }
    }
    for p in f.sig.generics.where_clause.iter().flat_map(|w| &w.predicates) {
        if let WherePredicate::Type(t) = p {
            if t.bounds.iter().any(is_path_bound) && !t.bounds.iter().any(is_text_bound) {
                g.insert(ty_ident(&t.bounded_ty));
            }
        }
    }
    f.sig.inputs.iter().map(|a| matches!(a, FnArg::Typed(t) if g.contains(&ty_ident(&t.ty)))).collect()
}

/// a parameter of type `String`
fn is_string_param(sig: &Signature, e: &Expr) -> bool {
    let Expr::Path(p) = e else { return false };
    let Some(v) = p.path.get_ident() else { return false };
    sig.inputs.iter().any(|a| match a {
        FnArg::Typed(t) => matches!(&*t.pat, Pat::Ident(i) if i.ident == *v) && ty_ident(&t.ty) == "String",
        _ => false,
    })
}

/// `X` when `e` is a parameter whose type is a generic with the bound `Into<X>` (`TryInto<X>`)
fn conv_bound(sig: &Signature, e: &Expr, which: &str) -> Option<Type> {
    let Expr::Path(p) = e else { return None };
    let v = p.path.get_ident()?;
    let t = sig.inputs.iter().find_map(|a| match a {
        FnArg::Typed(t) => match &*t.pat {
            Pat::Ident(i) if i.ident == *v => Some(ty_ident(&t.ty)),
            _ => None,
        },
        _ => None,
    })?;
    let of = |bs: &syn::punctuated::Punctuated<TypeParamBound, Token![+]>| -> Option<Type> {
        let tries = bs.iter().filter(|b| matches!(b, TypeParamBound::Trait(b) if b.path.segments.last().is_some_and(|s| s.ident == which)));
        // (with several, the use decides)
        if tries.count() > 1 {
            return None;
        }
        bs.iter().find_map(|b| {
            let TypeParamBound::Trait(b) = b else { return None };
            let s = b.path.segments.last()?;
            if s.ident != which {
                return None;
            }
            let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
            a.args.iter().find_map(|a| match a {
                GenericArgument::Type(t) => Some(t.clone()),
                _ => None,
            })
        })
    };
    for p in &sig.generics.params {
        if let GenericParam::Type(p) = p {
            if p.ident == t {
                if let Some(x) = of(&p.bounds) {
                    return Some(x);
                }
            }
        }
    }
    sig.generics.where_clause.iter().flat_map(|w| &w.predicates).find_map(|p| match p {
        WherePredicate::Type(p) if ty_ident(&p.bounded_ty) == t => of(&p.bounds),
        _ => None,
    })
}

pub fn emit_fn(
    cx: &mut Cx,
    f: &FnItem,
    opts: HashMap<String, String>,
    contract: &str,
    loops: &HashMap<usize, String>,
    proofs: &[(String, String)],
) -> Emitted {
    cx.loop_ends = proofs.iter().filter_map(|(a, _)| a.strip_prefix("loop ")?.strip_suffix(" end")?.parse().ok()).collect();
    cx.xfor &= !opts.contains_key("noxfor");
    let mut f = f.clone();
    uncurry(cx, &mut f);
    if let Some(o) = opts.get("eta") {
        eta(cx, &mut f, o);
    }
    let f = &f;
    let mut sig = f.sig.clone();
    sig.constness = None;
    // monomorphise `T: AsRef<str>` and `impl AsRef<str>` / `impl Into<String>` parameters at &str
    let mut strgen: BTreeSet<String> = BTreeSet::new();
    let is_str_bound = |b: &TypeParamBound| {
        let s = b.to_token_stream().to_string().replace(' ', "");
        s.starts_with("AsRef<str>") || s.starts_with("Into<String>")
    };
    // ... and `T: AsRef<Path>` / `Into<PathBuf>` ones at &Path
    let mut pathgen: BTreeSet<String> = BTreeSet::new();
    for p in &sig.generics.params {
        if let GenericParam::Type(t) = p {
            if t.bounds.iter().any(&is_str_bound) {
                strgen.insert(t.ident.to_string());
            }
            if t.bounds.iter().any(is_path_bound) {
                pathgen.insert(t.ident.to_string());
            }
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                if t.bounds.iter().any(&is_str_bound) {
                    strgen.insert(ty_ident(&t.bounded_ty));
                }
                if t.bounds.iter().any(is_path_bound) {
                    pathgen.insert(ty_ident(&t.bounded_ty));
                }
            }
        }
    }
    // `keepgen`: the parameter stays generic, over a trait named in `as=`
    if opts.contains_key("keepgen") {
        strgen.clear();
        pathgen.clear();
    }
    let mut subst: HashMap<String, Type> = HashMap::new();
    if let Some(s) = opts.get("subst") {
        for kv in s.split(',') {
            let (k, v) = kv.split_once(':').unwrap();
            subst.insert(k.trim().into(), syn::parse_str(v).unwrap());
        }
    }
    for g in &strgen {
        subst.entry(g.clone()).or_insert(parse_quote!(&str));
        cx.count("generic string parameter monomorphised at &str");
    }
    for g in &pathgen {
        subst.entry(g.clone()).or_insert(parse_quote!(&Path));
        cx.count("generic path parameter monomorphised at &Path");
    }
    for (k, t) in &f.assoc {
        let _ = k;
        let _ = t;
    }
    struct Sub<'a>(&'a HashMap<String, Type>, &'a BTreeMap<String, Type>);
    impl VisitMut for Sub<'_> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t {
                if let Some(i) = p.path.get_ident() {
                    if let Some(n) = self.0.get(&i.to_string()) {
                        *t = n.clone();
                        return;
                    }
                }
                if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                    if let Some(n) = self.1.get(&p.path.segments[1].ident.to_string()) {
                        *t = n.clone();
                        return;
                    }
                }
            }
            if let Type::ImplTrait(it) = t {
                let s = it.to_token_stream().to_string().replace(' ', "");
                if s.contains("AsRef<str>") || s.contains("Into<String>") {
                    *t = parse_quote!(&str);
                    return;
                }
                if s.contains("AsRef<Path>") || s.contains("Into<PathBuf>") {
                    *t = parse_quote!(&Path);
                    return;
                }
            }
            visit_mut::visit_type_mut(self, t);
        }
    }
    let mut block = f.block.clone();
    if let Some(w) = &mut sig.generics.where_clause {
        let preds: punctuated::Punctuated<WherePredicate, Token![,]> = w
            .predicates
            .iter()
            .filter(|p| {
                let s = p.to_token_stream().to_string();
                !s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| subst.contains_key(w))
            })
            .cloned()
            .collect();
        w.predicates = preds;
        if w.predicates.is_empty() {
            sig.generics.where_clause = None;
        }
    }
    let mut sub = Sub(&subst, &f.assoc);
    sub.visit_signature_mut(&mut sig);
    sub.visit_block_mut(&mut block);
    // drop substituted generics
    let keep: punctuated::Punctuated<GenericParam, Token![,]> = sig
        .generics
        .params
        .iter()
        .filter(|p| !matches!(p, GenericParam::Type(t) if subst.contains_key(&t.ident.to_string())))
        .cloned()
        .collect();
    sig.generics.params = keep;
    if let Some(w) = &mut sig.generics.where_clause {
        let preds: punctuated::Punctuated<WherePredicate, Token![,]> = w
            .predicates
            .iter()
            .filter(|p| {
                let s = p.to_token_stream().to_string();
                !s.split(|c: char| !c.is_alphanumeric() && c != '_')
                    .any(|w| subst.contains_key(w))
            })
            .cloned()
            .collect();
        w.predicates = preds;
        if w.predicates.is_empty() {
            sig.generics.where_clause = None;
        }
    }
    RenTy(cx.ren).visit_signature_mut(&mut sig);
    RenTy(cx.ren).visit_block_mut(&mut block);
    for i in &f.sig.inputs {
        if let FnArg::Typed(t) = i {
            if let Pat::Ident(p) = &*t.pat {
                let n = p.ident.to_string();
                let s = t.ty.to_token_stream().to_string().replace(' ', "");
                if strgen.contains(&s)
                    || pathgen.contains(&s)
                    || ["AsRef<str>", "Into<String>", "AsRef<Path>", "Into<PathBuf>"].iter().any(|b| s.contains(b))
                {
                    cx.strparams.insert(n.clone());
                }
                cx.locals.insert(n, kind_of_type(&t.ty));
            }
        }
    }
    let mut prelude: Vec<Stmt> = vec![];
    let mut inputs = vec![];
    for (i, a) in sig.inputs.iter().enumerate() {
        match a {
            FnArg::Receiver(r) => {
                if r.mutability.is_some() && r.reference.is_none() {
                    inputs.push(quote!(mut self));
                } else {
                    let r2 = Receiver { attrs: vec![], ..r.clone() };
                    inputs.push(quote!(#r2));
                }
            }
            FnArg::Typed(t) => {
                let ty = &t.ty;
                match &*t.pat {
                    Pat::Ident(_) | Pat::Wild(_) => {
                        let p = &t.pat;
                        inputs.push(quote!(#p: #ty));
                    }
                    p => {
                        let v = format_ident!("__arg{i}");
                        inputs.push(quote!(#v: #ty));
                        prelude.push(parse_quote!(let #p = #v;));
                    }
                }
            }
        }
    }
    let fallible = sig.output.to_token_stream().to_string().contains("Result");
    tail_collect(cx, &mut block, fallible);
    cx.block(&mut block);
    let mut st = prelude;
    st.extend(block.stmts);
    block.stmts = st;
    if proofs.iter().any(|(a, _)| a == "tail") {
        // the tail expression is bound so that ghost code can follow it
        let unit = matches!(sig.output, ReturnType::Default);
        match block.stmts.pop() {
            Some(Stmt::Expr(e, None)) if unit => {
                block.stmts.push(Stmt::Expr(e, Some(Default::default())));
                block.stmts.push(parse_quote!(__vx_tail!();));
            }
            Some(Stmt::Expr(e, None)) => {
                block.stmts.push(parse_quote!(let __tail = #e;));
                block.stmts.push(parse_quote!(__vx_tail!();));
                block.stmts.push(Stmt::Expr(parse_quote!(__tail), None));
            }
            Some(x) => {
                block.stmts.push(x);
                block.stmts.push(parse_quote!(__vx_tail!();));
            }
            None => block.stmts.push(parse_quote!(__vx_tail!();)),
        }
    }

    let name = opts.get("as").cloned().unwrap_or(sig.ident.to_string());
    let ret = opts.get("ret").cloned().unwrap_or("r".into());
    let gen = &sig.generics;
    let (ig, _, wc) = gen.split_for_impl();
    let retdecl = match (&opts.get("retty"), &sig.output) {
        (Some(t), _) => format!("-> ({ret}: {t})"),
        (None, ReturnType::Default) => String::new(),
        (None, ReturnType::Type(_, t)) => format!("-> ({ret}: {})", t.to_token_stream()),
    };
    let mut body = block.to_token_stream().to_string();
    // loop contracts
    for n in 0..cx.loops_seen {
        let pat1 = format!("{{ __vx_loop ! {{ {n} }}");
        let mut c = loops.get(&n).cloned().unwrap_or_default();
        if !c.is_empty() {
            c = format!("\n{c}");
        }
        let mut start = String::new();
        for (a, p) in proofs {
            if *a == format!("loop {n} start") {
                start.push_str(p);
            }
        }
        body = body.replace(&pat1, &format!("{c}{{\n{start}"));
        for (a, p) in proofs {
            if *a == format!("loop {n} end") {
                for semi in ["", " ;"] {
                    let pat = format!("__vx_loopend ! {{ {n} }}{semi}");
                    body = body.replace(&pat, p);
                }
            }
        }
        // for-iterator naming
        let pat2 = format!("__vx_for ! {{ {n} ");
        if let Some(i) = body.find(&pat2) {
            let mut depth = 1;
            let bytes: Vec<char> = body[i + pat2.len()..].chars().collect();
            let mut inner = String::new();
            for c in bytes {
                if c == '{' {
                    depth += 1
                }
                if c == '}' {
                    depth -= 1;
                    if depth == 0 {
                        break;
                    }
                }
                inner.push(c);
            }
            let full = format!("{pat2}{inner}}}");
            body = body.replacen(&full, &format!("it{n}: {inner}"), 1);
        }
    }
    for (i, s) in cx.closures.iter().enumerate() {
        let p = format!("{{ __vx_clos ! {{ {i} }}");
        body = body.replace(&p, &format!("{s} {{"));
    }
    let mut reveal = String::new();
    for l in &cx.literals {
        let cs: Vec<String> = l.chars().map(|c| format!("{c:?}")).collect();
        let lit = format!("{l:?}");
        if cs.is_empty() {
            reveal.push_str(&format!("reveal_strlit({lit}); assert({lit}@ =~= Seq::<char>::empty()); "));
        } else {
            reveal.push_str(&format!("reveal_strlit({lit}); assert({lit}@ =~= seq![{}]); ", cs.join(", ")));
        }
    }
    if opts.contains_key("litonly") {
        reveal.clear();
    }
    // with many literals, only for the one text parameter
    let text_params: Vec<String> = f
        .sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) if t.ty.to_token_stream().to_string().replace(' ', "") == "&str" => Some(t.pat.to_token_stream().to_string()),
            _ => None,
        })
        .collect();
    for l in &cx.pat_literals {
        match &text_params[..] {
            [one] if opts.contains_key("litonly") => reveal.push_str(&format!("x_str_lit_of({one}, {l:?}); ")),
            _ => reveal.push_str(&format!("x_str_lit({l:?}); ")),
        }
    }
    let mut start = String::new();
    if !reveal.is_empty() && !opts.contains_key("noreveal") {
        start.push_str(&format!("\nproof {{ {reveal} }}\n"));
    }
    let mut after_replacements = vec![];
    let mut tailp = String::new();
    for (a, p) in proofs {
        if a == "start" {
            start.push_str(p);
        } else if a == "header" {
            start.insert_str(0, &format!("\n{p}"));
        } else if a == "tail" {
            tailp.push_str(p);
        } else if let Some(t) = a.strip_prefix("before ") {
            after_replacements.push((t.to_string(), p.clone(), true));
        } else if let Some(t) = a.strip_prefix("after ") {
            after_replacements.push((t.to_string(), p.clone(), false));
        } else if a.starts_with("loop ") {
        } else {
            cx.unsup(format!("proof anchor {a}"));
        }
    }
    let mut body = body.trim().to_string();
    assert!(body.starts_with('{'));
    body = pretty(&body);
    // `before/after <text>`: anchored at the first line containing the text
    for (t, p, before) in after_replacements {
        let mut lines: Vec<String> = body.lines().map(|s| s.to_string()).collect();
        let key = t.replace(' ', "");
        match lines.iter().position(|l| l.replace(' ', "").contains(&key)) {
            Some(i) => {
                if before {
                    lines.insert(i, p);
                } else {
                    lines.insert(i + 1, p);
                }
                body = lines.join("\n");
            }
            None => cx.lost_hints.push(t.clone()),
        }
    }
    if !tailp.is_empty() {
        let compact = "__vx_tail ! () ;";
        if body.contains(compact) {
            body = body.replace(compact, &tailp);
        } else {
            cx.lost_hints.push("tail".into());
        }
    }
    if std::env::var_os("VX_VACUITY").is_some() {
        start.push_str("\nproof { assert(false); } // VACUITY\n");
    }
    body = format!("{{{start}{}", &body[1..]);
    let attrs = opts.get("attr").map(|a| format!("#[{a}]\n")).unwrap_or_default();
    let vis = if opts.contains_key("trait") { "" } else { "pub " };
    let fn_text = format!(
        "{attrs}{vis}fn {name}{} ({}) {retdecl}\n{}{contract}{body}\n",
        ig.to_token_stream(),
        inputs.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", "),
        wc.map(|w| w.to_token_stream().to_string() + "\n").unwrap_or_default(),
    );
    let text = if let Some(t) = opts.get("trait") {
        let st = opts.get("self").cloned().unwrap_or(cx.ren.ty(&f.self_ty.as_ref().unwrap().1));
        let g = opts.get("gen").cloned().unwrap_or_default();
        format!("impl{g} {t} for {st} {{\n{}\n{fn_text}}}\n", opts.get("extra").cloned().unwrap_or_default())
    } else if opts.contains_key("free") {
        fn_text
    } else if let Some((_, ty)) = &f.self_ty {
        let (g, _, w) = f.generics.split_for_impl();
        let st = opts.get("self").cloned().unwrap_or(cx.ren.ty(ty));
        if opts.contains_key("noimplgen") {
            format!("impl{} {st} {{\n{fn_text}}}\n", opts.get("gen").cloned().unwrap_or_default())
        } else {
            format!(
                "impl{} {st} {} {{\n{fn_text}}}\n",
                g.to_token_stream(),
                w.map(|w| w.to_token_stream().to_string()).unwrap_or_default()
            )
        }
    } else {
        fn_text
    };
    Emitted { text, name }
}

/// Line breaks after `;`, `{`, `}` outside string/char literals.
pub fn pretty(s: &str) -> String {
    let mut out = String::new();
    let mut depth: usize = 0;
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let nl = |out: &mut String, d: usize| {
        while out.ends_with(' ') {
            out.pop();
        }
        out.push('\n');
        for _ in 0..d {
            out.push_str("  ");
        }
    };
    while i < cs.len() {
        let c = cs[i];
        match c {
            '"' => {
                out.push(c);
                i += 1;
                while i < cs.len() {
                    out.push(cs[i]);
                    if cs[i] == '\\' {
                        i += 1;
                        if i < cs.len() {
                            out.push(cs[i]);
                        }
                    } else if cs[i] == '"' {
                        break;
                    }
                    i += 1;
                }
            }
            '\'' => {
                // char literal or lifetime
                if i + 2 < cs.len() && (cs[i + 1] == '\\' || cs[i + 2] == '\'') {
                    out.push(c);
                    i += 1;
                    if cs[i] == '\\' {
                        out.push(cs[i]);
                        i += 1;
                    }
                    out.push(cs[i]);
                    i += 1;
                    while i < cs.len() && cs[i] != '\'' {
                        out.push(cs[i]);
                        i += 1;
                    }
                    out.push('\'');
                } else {
                    out.push(c);
                }
            }
            '{' => {
                depth += 1;
                out.push(c);
                nl(&mut out, depth);
                while i + 1 < cs.len() && cs[i + 1] == ' ' {
                    i += 1;
                }
            }
            '}' => {
                depth = depth.saturating_sub(1);
                nl(&mut out, depth);
                out.push(c);
                nl(&mut out, depth);
                while i + 1 < cs.len() && cs[i + 1] == ' ' {
                    i += 1;
                }
            }
            ';' => {
                out.push(c);
                nl(&mut out, depth);
                while i + 1 < cs.len() && cs[i + 1] == ' ' {
                    i += 1;
                }
            }
            c => out.push(c),
        }
        i += 1;
    }
    // drop blank lines
    out.lines().filter(|l| !l.trim().is_empty()).collect::<Vec<_>>().join("\n")
}

/// `r.entry(k).or_insert(v)`
fn entry_or_insert(e: &Expr) -> Option<(Expr, Expr, Expr)> {
    let Expr::MethodCall(m) = e else { return None };
    if m.method != "or_insert" || m.args.len() != 1 {
        return None;
    }
    let Expr::MethodCall(n) = &*m.receiver else { return None };
    if n.method != "entry" || n.args.len() != 1 {
        return None;
    }
    Some(((*n.receiver).clone(), n.args[0].clone(), m.args[0].clone()))
}
