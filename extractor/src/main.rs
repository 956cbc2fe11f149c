//! Mechanical extractor: reads a unit template (`*.vrs`), pulls the named items out of the
//! repository's current source, applies the documented semantics-preserving rewrites (see
//! DESIGN.md, "What the extraction changes"), attaches the contracts from the template and writes
//! one Verus file.  Any construct it does not know is reported as `unsupported`.
mod rewrite;
mod serde_gen;

use quote::{quote, ToTokens};
use rewrite::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// All items of one source file, keyed by selector.
pub struct FileIndex {
    pub fns: BTreeMap<String, FnItem>,
    pub types: BTreeMap<String, Item>,
    pub consts: BTreeMap<String, (Type, Expr)>,
    /// struct field name -> types it has in this file
    pub fields: BTreeMap<String, Vec<Type>>,
}

#[derive(Clone)]
pub struct FnItem {
    pub attrs: Vec<Attribute>,
    pub sig: Signature,
    pub block: Block,
    /// last ident of the self type and the self type itself
    pub self_ty: Option<(String, Type)>,
    pub generics: Generics,
    /// associated types of the impl block
    pub assoc: BTreeMap<String, Type>,
}

pub fn ty_ident(ty: &Type) -> String {
    match ty {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => format!("&{}", ty_ident(&r.elem)),
        other => other.to_token_stream().to_string(),
    }
}

fn trait_key(path: &syn::Path) -> String {
    let seg = path.segments.last().unwrap();
    let mut s = seg.ident.to_string();
    if let PathArguments::AngleBracketed(a) = &seg.arguments {
        let args: Vec<String> = a
            .args
            .iter()
            .filter_map(|a| match a {
                GenericArgument::Type(t) => Some(ty_full(t)),
                _ => None,
            })
            .collect();
        if !args.is_empty() {
            s.push_str(&format!("<{}>", args.join(",")));
        }
    }
    s
}

/// a type's text without lifetimes (they carry no meaning for a selector)
fn strip_lifetimes(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while it.peek().is_some_and(|c| c.is_alphanumeric() || *c == '_') {
                it.next();
            }
        } else if c != ' ' {
            out.push(c);
        }
    }
    out.replace("<,", "<").replace("<>", "")
}

fn ty_full(t: &Type) -> String {
    strip_lifetimes(&t.to_token_stream().to_string()).replace(' ', "")
}

impl FileIndex {
    fn new() -> Self {
        Self { fns: BTreeMap::new(), types: BTreeMap::new(), consts: BTreeMap::new(), fields: BTreeMap::new() }
    }

    fn add_items(&mut self, items: &[Item], prefix: &str) {
        self.add_items_in(items, prefix, false);
    }

    fn add_items_in(&mut self, items: &[Item], prefix: &str, derived: bool) {
        for item in items {
            match item {
                Item::Fn(f) => {
                    self.fns.insert(
                        format!("{prefix}{}", f.sig.ident),
                        FnItem {
                            attrs: f.attrs.clone(),
                            sig: f.sig.clone(),
                            block: (*f.block).clone(),
                            self_ty: None,
                            generics: Generics::default(),
                            assoc: BTreeMap::new(),
                        },
                    );
                }
                Item::Struct(s) => {
                    for f in &s.fields {
                        if let Some(i) = &f.ident {
                            self.fields.entry(i.to_string()).or_default().push(f.ty.clone());
                        }
                    }
                    self.types.insert(format!("{prefix}{}", s.ident), item.clone());
                }
                Item::Enum(e) => {
                    self.types.insert(format!("{prefix}{}", e.ident), item.clone());
                }
                // derived implementations stand in an anonymous constant
                Item::Const(c) if c.ident == "_" => {
                    if let syn::Expr::Block(b) = &*c.expr {
                        let items: Vec<Item> = b
                            .block
                            .stmts
                            .iter()
                            .filter_map(|s| if let syn::Stmt::Item(i) = s { Some(i.clone()) } else { None })
                            .collect();
                        self.add_items_in(&items, prefix, true);
                    }
                }
                Item::Const(c) => {
                    self.consts
                        .insert(format!("{prefix}{}", c.ident), ((*c.ty).clone(), (*c.expr).clone()));
                }
                Item::Impl(i) => {
                    let tname = ty_ident(&i.self_ty);
                    let key = match &i.trait_ {
                        Some((_, p, _)) => format!("<{} for {}>", trait_key(p), ty_full(&i.self_ty)),
                        None => tname.clone(),
                    };
                    let mut assoc = BTreeMap::new();
                    for ii in &i.items {
                        if let ImplItem::Type(t) = ii {
                            assoc.insert(t.ident.to_string(), t.ty.clone());
                        }
                    }
                    for ii in &i.items {
                        match ii {
                            ImplItem::Fn(f) => {
                                // what derived code declares inside a function stands beside it
                                let mut block = f.block.clone();
                                if derived {
                                    let mut nested = vec![];
                                    block.stmts.retain(|s| match s {
                                        syn::Stmt::Item(i) => {
                                            nested.push(i.clone());
                                            false
                                        }
                                        _ => true,
                                    });
                                    self.add_items_in(&nested, &format!("{prefix}{key}::{}::", f.sig.ident), true);
                                }
                                self.fns.insert(
                                    format!("{prefix}{key}::{}", f.sig.ident),
                                    FnItem {
                                        attrs: f.attrs.clone(),
                                        sig: f.sig.clone(),
                                        block,
                                        self_ty: Some((tname.clone(), (*i.self_ty).clone())),
                                        generics: i.generics.clone(),
                                        assoc: assoc.clone(),
                                    },
                                );
                            }
                            ImplItem::Const(c) => {
                                self.consts.insert(
                                    format!("{prefix}{tname}::{}", c.ident),
                                    (c.ty.clone(), c.expr.clone()),
                                );
                            }
                            _ => {}
                        }
                    }
                }
                Item::Mod(m) => {
                    if m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("cfg (test)")) {
                        continue;
                    }
                    if let Some((_, items)) = &m.content {
                        self.add_items(items, &format!("{prefix}{}::", m.ident));
                    }
                }
                _ => {}
            }
        }
    }
}

#[derive(Default, Debug)]
struct Dir {
    kind: String,
    file: String,
    sel: String,
    opts: HashMap<String, String>,
    contract: String,
    loops: HashMap<usize, String>,
    proofs: Vec<(String, String)>,
    line: usize,
    /// whether `//@flag xfor` stands before it
    xfor: bool,
}

enum Seg {
    Text(String),
    Dir(Dir),
}

fn parse_unit(text: &str) -> (Vec<Seg>, Vec<(String, String)>, Vec<(String, String)>, BTreeSet<String>) {
    let mut segs = Vec::new();
    let mut buf = String::new();
    let mut renames = Vec::new();
    let mut methods = Vec::new();
    let mut flags = BTreeSet::new();
    let mut cur: Option<Dir> = None;
    let mut sub: Option<String> = None; // current subsection
    for (ln, line) in text.lines().enumerate() {
        let t = line.trim();
        if let Some(rest) = t.strip_prefix("//@") {
            let rest = rest.trim();
            let (word, arg) = rest.split_once(char::is_whitespace).unwrap_or((rest, ""));
            match word {
                "fn" | "type" | "const" | "serde" | "skips" | "keys" | "variants" => {
                    if let Some(d) = cur.take() {
                        panic!("line {}: directive `{}` not closed", ln + 1, d.sel);
                    }
                    segs.push(Seg::Text(std::mem::take(&mut buf)));
                    let mut d = Dir { kind: word.into(), line: ln + 1, xfor: flags.contains("xfor"), ..Default::default() };
                    let (file, rest) = arg.split_once(" :: ").expect("file :: selector");
                    d.file = file.trim().into();
                    let mut parts = rest.split('|');
                    d.sel = parts.next().unwrap().trim().to_string();
                    for o in parts {
                        let (k, v) = o.trim().split_once('=').unwrap_or((o.trim(), "1"));
                        d.opts.insert(k.trim().into(), v.trim().into());
                    }
                    if word != "fn" {
                        segs.push(Seg::Dir(d));
                    } else {
                        cur = Some(d);
                        sub = None;
                    }
                }
                "loop" => sub = Some(format!("loop {}", arg.trim())),
                "proof" => sub = Some(format!("proof {}", arg.trim())),
                "end" => {
                    segs.push(Seg::Dir(cur.take().expect("end without fn")));
                    sub = None;
                }
                "rename" => {
                    let (a, b) = arg.split_once("=>").unwrap();
                    renames.push((a.trim().replace(' ', ""), b.trim().to_string()));
                }
                "method" => {
                    let (a, b) = arg.split_once("=>").unwrap();
                    methods.push((a.trim().to_string(), b.trim().to_string()));
                }
                "flag" => {
                    flags.insert(arg.trim().to_string());
                }
                other => panic!("line {}: unknown directive {other}", ln + 1),
            }
            continue;
        }
        if let Some(d) = cur.as_mut() {
            match &sub {
                None => {
                    d.contract.push_str(line);
                    d.contract.push('\n');
                }
                Some(s) => {
                    if let Some(n) = s.strip_prefix("loop ") {
                        let n: usize = n.parse().unwrap();
                        let e = d.loops.entry(n).or_default();
                        e.push_str(line);
                        e.push('\n');
                    } else {
                        let a = s.strip_prefix("proof ").unwrap();
                        if let Some((_, b)) = d.proofs.iter_mut().find(|(k, _)| k == a) {
                            b.push_str(line);
                            b.push('\n');
                        } else {
                            d.proofs.push((a.to_string(), format!("{line}\n")));
                        }
                    }
                }
            }
        } else {
            buf.push_str(line);
            buf.push('\n');
        }
    }
    assert!(cur.is_none(), "unclosed directive");
    segs.push(Seg::Text(buf));
    (segs, renames, methods, flags)
}

/// Structural shape used to tell an expression-level change from a restructuring.
#[derive(Default)]
struct Shape {
    loops: usize,
    closures: usize,
    matches: usize,
    ifs: usize,
    tries: usize,
    callees: BTreeSet<String>,
}
impl<'a> Visit<'a> for Shape {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => self.loops += 1,
            Expr::Closure(_) => self.closures += 1,
            Expr::Match(_) => self.matches += 1,
            Expr::If(_) => self.ifs += 1,
            Expr::Try(_) => self.tries += 1,
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if let Some(s) = p.path.segments.last() {
                        self.callees.insert(s.ident.to_string());
                    }
                }
            }
            Expr::MethodCall(m) => {
                self.callees.insert(m.method.to_string());
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

/// (text of the body, text of the body with the statements of each block and the arms of each match
/// sorted): the second alone unchanged means that the code was only reordered
fn order_of(b: &Block) -> (String, String) {
    struct Sort;
    impl VisitMut for Sort {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            b.stmts.sort_by_key(|s| s.to_token_stream().to_string());
        }
        fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
            visit_mut::visit_expr_match_mut(self, m);
            m.arms.sort_by_key(|a| a.to_token_stream().to_string());
        }
    }
    fn hash(b: &Block) -> String {
        let mut h = 0xcbf2_9ce4_8422_2325_u64;
        for c in b.to_token_stream().to_string().bytes() {
            h = (h ^ u64::from(c)).wrapping_mul(0x100_0000_01b3);
        }
        format!("{h:016x}")
    }
    let mut c = b.clone();
    Sort.visit_block_mut(&mut c);
    (hash(b), hash(&c))
}

fn clean_type(item: &Item, opts: &HashMap<String, String>, renames: &Renames) -> String {
    let mut item = item.clone();
    let derive = opts.get("derive").cloned().unwrap_or_default();
    let mut extra = String::new();
    let strip_f = |fields: &mut Fields| {
        for f in fields.iter_mut() {
            f.attrs.clear();
            f.vis = parse_quote!(pub);
        }
    };
    match &mut item {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            // `fields=a+b`: the other fields are dropped (no extracted function reads them)
            if let (Some(keep), Fields::Named(n)) = (opts.get("fields"), &mut s.fields) {
                let keep: Vec<&str> = keep.split('+').map(|k| k.trim()).collect();
                n.named = n.named.iter().filter(|f| keep.iter().any(|k| f.ident.as_ref().unwrap() == k)).cloned().collect();
            }
            let tuple = matches!(s.fields, Fields::Unnamed(_));
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
            }
            let _ = tuple;
        }
        Item::Enum(e) => {
            e.attrs.clear();
            e.vis = parse_quote!(pub);
            let ename = e.ident.clone();
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                // thiserror's `#[from]` generates exactly this conversion
                let mut from = None;
                let n_fields = v.fields.len();
                for f in v.fields.iter() {
                    if f.attrs.iter().any(|a| a.path().is_ident("from")) && n_fields == 1 {
                        from = Some((f.ty.clone(), f.ident.clone()));
                    }
                }
                let vi = &v.ident;
                if let Some((ty, id)) = from {
                    let ctor = match id {
                        Some(i) => quote!(#ename::#vi { #i: source }),
                        None => quote!(#ename::#vi(source)),
                    };
                    extra.push_str(&format!(
                        "impl From<{0}> for {1} {{ fn from(source: {0}) -> (r: Self) ensures r == ({2}) {{ {2} }} }}\nimpl vstd::std_specs::convert::FromSpecImpl<{0}> for {1} {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(source: {0}) -> {1} {{ {2} }} }}\n",
                        renames.ty(&ty),
                        ename,
                        ctor
                    ));
                }
                strip_f(&mut v.fields);
                for f in v.fields.iter_mut() {
                    f.vis = Visibility::Inherited;
                }
            }
        }
        _ => {}
    }
    let mut item_r = item.clone();
    renames.visit_item(&mut item_r);
    let d = if derive.is_empty() { String::new() } else { format!("#[derive({derive})]\n") };
    format!("{d}{}\n{extra}", pretty(&item_r.to_token_stream().to_string()))
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| -> Option<String> {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
    };
    let repo = PathBuf::from(get("--repo").unwrap_or("/repo".into()));
    let unit = PathBuf::from(get("--unit").expect("--unit"));
    let out = PathBuf::from(get("--out").expect("--out"));
    let report = PathBuf::from(get("--report").expect("--report"));
    let expanded = get("--expanded").map(PathBuf::from);
    let r = run(&repo, &unit, &out, expanded.as_deref());
    let v = match r {
        Ok(v) => v,
        Err(e) => json!({"ok": false, "error": e}),
    };
    std::fs::write(&report, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    if v["ok"] != json!(true) {
        eprintln!("extractor: {}", v["error"]);
        std::process::exit(3);
    }
}

fn load(repo: &Path, file: &str, expanded: Option<&Path>) -> std::result::Result<FileIndex, String> {
    let p = if file == "expanded" {
        expanded.ok_or("no expanded source given")?.to_path_buf()
    } else {
        repo.join(file)
    };
    let src = std::fs::read_to_string(&p).map_err(|e| format!("lost anchor: cannot read {}: {e}", p.display()))?;
    let f = syn::parse_file(&src).map_err(|e| format!("cannot parse {}: {e}", p.display()))?;
    let mut ix = FileIndex::new();
    ix.add_items(&f.items, "");
    Ok(ix)
}

fn run(repo: &Path, unit: &Path, out: &Path, expanded: Option<&Path>) -> std::result::Result<Value, String> {
    let mut text = String::new();
    // `//@include file` pulls shared preludes in
    fn incl(p: &Path, text: &mut String) -> std::result::Result<(), String> {
        let t = std::fs::read_to_string(p).map_err(|e| format!("{}: {e}", p.display()))?;
        for l in t.lines() {
            if let Some(f) = l.trim().strip_prefix("//@include ") {
                incl(&p.parent().unwrap().join(f.trim()), text)?;
            } else {
                text.push_str(l);
                text.push('\n');
            }
        }
        Ok(())
    }
    incl(unit, &mut text)?;
    let (segs, renames, methods, flags) = parse_unit(&text);
    let renames = Renames::new(renames);

    let mut files: HashMap<String, FileIndex> = HashMap::new();
    for s in &segs {
        if let Seg::Dir(d) = s {
            if !files.contains_key(&d.file) {
                files.insert(d.file.clone(), load(repo, &d.file, expanded)?);
            }
        }
    }

    // names known to the unit: directive functions, and every fn in template text
    let mut known: BTreeSet<String> = BTreeSet::new();
    let mut specs: HashMap<String, String> = HashMap::new();
    for s in &segs {
        match s {
            Seg::Dir(d) if d.kind == "fn" => {
                let orig = d.sel.rsplit("::").next().unwrap().to_string();
                known.insert(orig.clone());
                if let Some(a) = d.opts.get("as") {
                    known.insert(a.clone());
                }
                if let Some(sp) = d.opts.get("spec") {
                    specs.insert(orig, sp.clone());
                }
            }
            Seg::Text(t) => {
                for (i, _) in t.match_indices("fn ") {
                    let n: String =
                        t[i + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    known.insert(n);
                }
            }
            _ => {}
        }
    }

    let mut out_text = String::new();
    let mut functions = Vec::new();
    let mut auto_helpers: Vec<Value> = Vec::new();
    let mut auto_done: BTreeSet<String> = BTreeSet::new();
    let mut unsupported: Vec<String> = Vec::new();
    let mut auto_text = String::new();
    let mut lost_hints: Vec<String> = Vec::new();

    for s in &segs {
        match s {
            Seg::Text(t) => out_text.push_str(t),
            Seg::Dir(d) => {
                let ix = &files[&d.file];
                match d.kind.as_str() {
                    "serde" => {
                        let item = ix
                            .types
                            .get(&d.sel)
                            .ok_or_else(|| format!("lost anchor: type {} in {}", d.sel, d.file))?;
                        if !d.opts.contains_key("notype") {
                            out_text.push_str(&clean_type(item, &d.opts, &renames));
                        }
                        let t = serde_gen::emit(item, &d.opts, &renames)
                            .map_err(|e| format!("unsupported construct: {}: {e}", d.sel))?;
                        out_text.push_str(&t);
                    }
                    "skips" => {
                        let f = d.file.trim_start_matches("src/").trim_end_matches(".rs").replace('/', "_");
                        for (name, item) in &ix.types {
                            out_text.push_str(&serde_gen::skips(&f, name, item, &d.opts));
                        }
                    }
                    "keys" => {
                        let f = d.file.trim_start_matches("src/").trim_end_matches(".rs").replace('/', "_");
                        for (name, item) in &ix.types {
                            let t = serde_gen::keys(&f, name, item, &d.opts, &ix.types)
                                .map_err(|e| format!("unsupported construct: {name}: {e}"))?;
                            out_text.push_str(&t);
                        }
                    }
                    "type" => {
                        let item = ix
                            .types
                            .get(&d.sel)
                            .ok_or_else(|| format!("lost anchor: type {} in {}", d.sel, d.file))?;
                        out_text.push_str(&clean_type(item, &d.opts, &renames));
                    }
                    // the variants of an enum in their order, by the derived code's names for them
                    "variants" => {
                        let Some(Item::Enum(en)) = ix.types.get(&d.sel) else {
                            return Err(format!("lost anchor: enum {} in {}", d.sel, d.file));
                        };
                        let n = d.opts.get("as").cloned().unwrap_or("variant_of".into());
                        let arms: Vec<String> = en
                            .variants
                            .iter()
                            .enumerate()
                            .map(|(i, v)| format!("__Field::__field{i} => {}::{}", en.ident, v.ident))
                            .collect();
                        out_text.push_str(&format!(
                            "pub open spec fn {n}(f: __Field) -> {} {{ match f {{ {} }} }}\n",
                            en.ident,
                            arms.join(", ")
                        ));
                    }
                    "const" => {
                        let (ty, ex) = ix
                            .consts
                            .get(&d.sel)
                            .ok_or_else(|| format!("lost anchor: const {} in {}", d.sel, d.file))?;
                        let n = d.opts.get("as").cloned().unwrap_or(d.sel.replace("::", "_"));
                        // `exec=POST`: a constant with a contract, its value is code
                        if let Some(post) = d.opts.get("exec") {
                            let own = d.sel.split("::").next().unwrap_or_default();
                            out_text.push_str(&format!(
                                "pub exec const {n}: {} ensures {post} {{ {} }}\n",
                                const_text(ty.to_token_stream(), own, &renames),
                                const_text(ex.to_token_stream(), own, &renames)
                            ));
                            continue;
                        }
                        out_text.push_str(&format!(
                            "pub const {n}: {} = {};\n",
                            ty.to_token_stream(),
                            ex.to_token_stream()
                        ));
                    }
                    _ => {
                        let f = ix
                            .fns
                            .get(&d.sel)
                            .ok_or_else(|| format!("lost anchor: fn {} in {}", d.sel, d.file))?;
                        let mut sh = Shape::default();
                        sh.visit_block(&f.block);
                        let mut own = methods.clone();
                        if let Some(m) = d.opts.get("meth") {
                            for m in m.split(',') {
                                let (a, b) = m.split_once(':').unwrap();
                                own.insert(0, (a.trim().to_string(), b.trim().to_string()));
                            }
                        }
                        let mut cx = Cx::new(ix, f, &renames, &own, &specs, &flags);
                        cx.xfor &= d.xfor;
                        cx.closure_kinds = d.opts.clone();
                        let r = emit_fn(&mut cx, f, d.opts.clone(), &d.contract, &d.loops, &d.proofs);
                        unsupported.extend(cx.unsupported.iter().map(|u| format!("{}: {u}", d.sel)));
                        lost_hints.extend(cx.lost_hints.iter().map(|h| format!("{}: {h}", d.sel)));
                        let mut helpers: Vec<String> = cx.calls.iter().cloned().collect();
                        out_text.push_str(&r.text);
                        // transitively pull in helpers that are not under contract
                        while let Some(h) = helpers.pop() {
                            let name = h.rsplit("::").next().unwrap().to_string();
                            if known.contains(&name) || auto_done.contains(&h) || renames.get(&h).is_some() {
                                continue;
                            }
                            let Some(hf) = ix.fns.get(&h) else { continue };
                            auto_done.insert(h.clone());
                            let mut hs = Shape::default();
                            hs.visit_block(&hf.block);
                            let mut hcx = Cx::new(ix, hf, &renames, &methods, &specs, &flags);
                            let auto = auto_spec(&mut hcx, hf);
                            let contract = auto.as_ref().map(|(_, c)| c.clone()).unwrap_or_default();
                            if let Some((st, _)) = &auto {
                                auto_text.push_str(st);
                                specs_insert_hint(&mut auto_text, &name);
                            }
                            let r = emit_fn(&mut hcx, hf, HashMap::new(), &contract, &HashMap::new(), &[]);
                            unsupported.extend(hcx.unsupported.iter().map(|u| format!("{h}: {u}")));
                            helpers.extend(hcx.calls.iter().cloned());
                            auto_text.push_str(&r.text);
                            auto_helpers.push(json!({
                                "fn": h, "file": d.file, "autospec": auto.is_some(), "loops": hs.loops}));
                        }
                        functions.push(json!({
                            "fn": d.sel, "file": d.file, "line": d.line,
                            "verus_name": r.name,
                            "loops": sh.loops, "closures": sh.closures, "matches": sh.matches,
                            "ifs": sh.ifs, "tries": sh.tries, "callees": sh.callees, "order": order_of(&f.block).0, "canon": order_of(&f.block).1,
                            "loop_specs": d.loops.keys().collect::<BTreeSet<_>>(),
                            "ensures": count_clauses(&d.contract),
                            "rewrites": cx.counts,
                        }));
                        if sh.loops != d.loops.len() && !d.opts.contains_key("noloops") {
                            // loops without contract are only fine if the rewriter removed them
                            if cx.loops_seen != d.loops.len() {
                                return Err(format!(
                                    "structure changed: {} has {} loops, contract has {}",
                                    d.sel,
                                    cx.loops_seen,
                                    d.loops.len()
                                ));
                            }
                        }
                    }
                }
            }
        }
    }
    // auto helpers are placed just before the final `} // verus!`
    let end = out_text.rfind("} // verus!").ok_or("template has no `} // verus!`")?;
    out_text.insert_str(end, &auto_text);
    if !unsupported.is_empty() {
        std::fs::write(out, &out_text).map_err(|e| e.to_string())?;
        return Err(format!("unsupported construct: {}", unsupported.join("; ")));
    }
    std::fs::write(out, &out_text).map_err(|e| e.to_string())?;
    Ok(json!({"ok": true, "functions": functions, "auto_helpers": auto_helpers, "lost_hints": lost_hints}))
}

/// the tokens of a constant, `Self` and renamed names written out
fn const_text(t: proc_macro2::TokenStream, own: &str, ren: &Renames) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, Ident, TokenTree};
    t.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) => {
                let n = i.to_string();
                let to = if n == "Self" { Some(own.to_string()) } else { ren.get(&n).map(str::to_string) };
                TokenTree::Ident(to.map(|n| Ident::new(&n, i.span())).unwrap_or(i))
            }
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), const_text(g.stream(), own, ren))),
            t => t,
        })
        .collect()
}

fn specs_insert_hint(_t: &mut String, _n: &str) {}

fn count_clauses(c: &str) -> usize {
    c.lines().filter(|l| !l.trim().is_empty() && !l.trim().starts_with("//")).count()
}
