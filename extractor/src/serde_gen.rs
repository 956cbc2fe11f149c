//! `//@serde FILE :: Type | de | ser`: the documented meaning of serde's derives, written out from
//! the type's own fields and attributes as a trusted contract (what `serde_derive` generates is not
//! in this repository).  An attribute or a shape it does not know is an error.
use crate::{ty_ident, Renames};
use quote::ToTokens;
use std::collections::HashMap;
use syn::*;

#[derive(Default, Debug, Clone)]
struct Attrs {
    rename_all: Option<String>,
    rename: Option<String>,
    default: bool,
    default_fn: bool,
    flatten: bool,
    skip_if: Option<String>,
    with: Option<String>,
    alias: Vec<String>,
    field_identifier: bool,
    variant_identifier: bool,
    deny_unknown: bool,
    transparent: bool,
    untagged: bool,
    other: bool,
    skip: bool,
}

fn attrs(a: &[Attribute]) -> std::result::Result<Attrs, String> {
    let mut r = Attrs::default();
    for a in a {
        if !a.path().is_ident("serde") {
            continue;
        }
        let mut bad = None;
        a.parse_nested_meta(|m| {
            let name = m.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
            let val = match m.value() {
                Ok(v) => Some(v.parse::<LitStr>()?.value()),
                Err(_) => None,
            };
            match (name.as_str(), val) {
                ("rename_all", Some(v)) => r.rename_all = Some(v),
                ("rename", Some(v)) => r.rename = Some(v),
                ("default", None) => r.default = true,
                ("default", Some(_)) => r.default_fn = true,
                ("flatten", None) => r.flatten = true,
                ("skip_serializing_if", Some(v)) => r.skip_if = Some(v),
                ("with", Some(v)) => r.with = Some(v),
                ("alias", Some(v)) => r.alias.push(v),
                ("field_identifier", None) => r.field_identifier = true,
                ("variant_identifier", None) => r.variant_identifier = true,
                ("deny_unknown_fields", None) => r.deny_unknown = true,
                ("transparent", None) => r.transparent = true,
                ("untagged", None) => r.untagged = true,
                ("other", None) => r.other = true,
                ("skip", None) => r.skip = true,
                // error texts and bounds
                ("expecting", Some(_)) | ("bound", Some(_)) => {}
                (n, v) => bad = Some(format!("{n} {v:?}")),
            }
            Ok(())
        })
        .map_err(|e| e.to_string())?;
        if let Some(b) = bad {
            return Err(format!("serde attribute not known: {b}"));
        }
    }
    Ok(r)
}

fn words_of(ident: &str) -> Vec<String> {
    if ident.contains('_') || ident.chars().all(|c| !c.is_uppercase()) {
        return ident.split('_').map(|w| w.to_lowercase()).collect();
    }
    let mut v: Vec<String> = vec![];
    for c in ident.chars() {
        if c.is_uppercase() || v.is_empty() {
            v.push(String::new());
        }
        v.last_mut().unwrap().extend(c.to_lowercase());
    }
    v
}

fn cased(ident: &str, rule: Option<&str>, variant: bool) -> std::result::Result<String, String> {
    let Some(rule) = rule else { return Ok(ident.to_string()) };
    // serde: fields are taken to be snake_case, variants PascalCase
    let w = if variant { words_of(ident) } else { ident.split('_').map(String::from).collect() };
    Ok(match rule {
        "snake_case" => w.join("_"),
        "kebab-case" => w.join("-"),
        "lowercase" => w.concat(),
        "SCREAMING-KEBAB-CASE" => w.join("-").to_uppercase(),
        "SCREAMING_SNAKE_CASE" => w.join("_").to_uppercase(),
        "camelCase" => w.iter().enumerate().map(|(i, s)| if i == 0 { s.clone() } else { s[..1].to_uppercase() + &s[1..] }).collect(),
        _ => return Err(format!("rename_all {rule} not known")),
    })
}

fn opt_inner(t: &Type) -> Option<Type> {
    if let Type::Path(p) = t {
        let s = p.path.segments.last()?;
        if s.ident == "Option" {
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                if let Some(GenericArgument::Type(t)) = a.args.first() {
                    return Some(t.clone());
                }
            }
        }
    }
    None
}

pub fn emit(item: &Item, opts: &HashMap<String, String>, renames: &Renames) -> std::result::Result<String, String> {
    let mut out = String::new();
    let (de, ser) = (opts.contains_key("de"), opts.contains_key("ser"));
    let (name, generics) = match item {
        Item::Struct(s) => (s.ident.to_string(), &s.generics),
        Item::Enum(e) => (e.ident.to_string(), &e.generics),
        _ => return Err("serde on this kind of item".into()),
    };
    // `Name` itself, or for `| ser` its generics with the bound of a writable type
    let (mut head, mut full) = (String::new(), name.clone());
    if !generics.params.is_empty() {
        let ps: Vec<String> = generics.type_params().map(|p| p.ident.to_string()).collect();
        if de || ps.len() != generics.params.len() {
            return Err("serde contract for a generic type".into());
        }
        let bounds: Vec<String> = ps
            .iter()
            .map(|p| match opts.get(&format!("bound{p}")) {
                Some(b) => format!("{p}: XSer + {b}"),
                None => format!("{p}: XSer"),
            })
            .collect();
        head = format!("<{}>", bounds.join(", "));
        full = format!("{name}<{}>", ps.join(", "));
    }
    let ty = |t: &Type| -> String { renames.ty(t) };
    match item {
        Item::Struct(s) => {
            let c = attrs(&s.attrs)?;
            let Fields::Named(n) = &s.fields else { return Err("serde contract for a tuple struct".into()) };
            if c.transparent || c.default {
                return Err("serde container attribute".into());
            }
            let mut fs = vec![];
            for f in &n.named {
                let a = attrs(&f.attrs)?;
                let id = f.ident.as_ref().unwrap().to_string();
                let key = match &a.rename {
                    Some(r) => r.clone(),
                    None => cased(&id, c.rename_all.as_deref(), false)?,
                };
                fs.push((id, key, f.ty.clone(), a));
            }
            if de {
                let mut conds = vec![];
                let mut inits = vec![];
                for (id, key, t, a) in &fs {
                    if a.flatten || a.with.is_some() || !a.alias.is_empty() || a.skip || a.default_fn {
                        return Err(format!("serde contract for field {id}"));
                    }
                    match opt_inner(t) {
                        // serde treats a missing `Option` as `None` with or without `default`
                        Some(i) => {
                            conds.push(format!("fld_opt::<{}>(m, \"{key}\"@) is Some", ty(&i)));
                            inits.push(format!("{id}: fld_opt::<{}>(m, \"{key}\"@)->0", ty(&i)));
                        }
                        None if a.default => return Err(format!("serde contract for field {id}")),
                        None => {
                            conds.push(format!("fld_req::<{}>(m, \"{key}\"@) is Some", ty(t)));
                            inits.push(format!("{id}: fld_req::<{}>(m, \"{key}\"@)->0", ty(t)));
                        }
                    }
                }
                if c.deny_unknown {
                    conds.push(format!(
                        "forall|i: int| 0 <= i < m.len() ==> {}",
                        fs.iter().map(|f| format!("(#[trigger] m[i]).0 == \"{}\"@", f.1)).collect::<Vec<_>>().join(" || ")
                    ));
                }
                out.push_str(&format!(
                    "impl XDes for {name} {{\n    open spec fn rd(n: XNode) -> Option<{name}> {{\n        match n {{ XNode::Map(m) => if {} {{ Some({name} {{ {} }}) }} else {{ None }}, _ => None }}\n    }}\n    #[verifier::external_body]\n    fn x_deserialize(d: XDe) -> (r: Result<{name}, XErr>) {{ unimplemented!() }}\n}}\n",
                    conds.join(" && "),
                    inits.join(", ")
                ));
            }
            if ser {
                let mut parts = vec![];
                for (id, key, t, a) in &fs {
                    if a.skip {
                        return Err(format!("serde contract for field {id}"));
                    }
                    if a.flatten {
                        parts.push(format!("node_entries(self.{id}.node())"));
                        continue;
                    }
                    let node = match &a.with {
                        Some(w) => format!("{}_node(self.{id})", w.replace("::", "_")),
                        None => format!("self.{id}.node()"),
                    };
                    let e = format!("seq![(\"{key}\"@, {node})]");
                    parts.push(match a.skip_if.as_deref() {
                        None => e,
                        Some("Option::is_none") => format!("(if self.{id} is None {{ seq![] }} else {{ {e} }})"),
                        Some(p) => format!("(if {} {{ seq![] }} else {{ {e} }})", format!("x_skip_{}(self.{id})", p.replace("::", "_").to_lowercase())),
                    });
                    let _ = t;
                }
                out.push_str(&ser_impl(&head, &full, &format!("XNode::Map({})", parts.join(" + "))));
            }
        }
        Item::Enum(e) => {
            let c = attrs(&e.attrs)?;
            if c.untagged {
                if de || !ser {
                    return Err("serde contract for reading an untagged enum".into());
                }
                let mut arms = vec![];
                for v in &e.variants {
                    let a = attrs(&v.attrs)?;
                    if a.skip || a.untagged || a.with.is_some() {
                        return Err(format!("serde contract for variant {}", v.ident));
                    }
                    match &v.fields {
                        Fields::Unit => arms.push(format!("{name}::{} => XNode::Null", v.ident)),
                        Fields::Unnamed(u) if u.unnamed.len() == 1 => arms.push(format!("{name}::{}(v) => v.node()", v.ident)),
                        _ => return Err(format!("serde contract for variant {}", v.ident)),
                    }
                }
                out.push_str(&ser_impl(&head, &full, &format!("match *self {{ {} }}", arms.join(", "))));
                return Ok(out);
            }
            let mut vs = vec![];
            for v in &e.variants {
                let a = attrs(&v.attrs)?;
                let key = match &a.rename {
                    Some(r) => r.clone(),
                    None => cased(&v.ident.to_string(), c.rename_all.as_deref(), true)?,
                };
                vs.push((v.ident.to_string(), key, v.fields.clone(), a));
            }
            if de {
                if !(c.field_identifier || c.variant_identifier || vs.iter().all(|v| matches!(v.2, Fields::Unit))) {
                    return Err("serde contract for this enum".into());
                }
                let mut body = "None".to_string();
                for (i, (id, key, f, a)) in vs.iter().enumerate().rev() {
                    match f {
                        Fields::Unit => {
                            let mut c = vec![format!("s == \"{key}\"@")];
                            c.extend(a.alias.iter().map(|k| format!("s == \"{k}\"@")));
                            if a.other {
                                return Err("serde other".into());
                            }
                            body = format!("if {} {{ Some({name}::{id}) }} else {{ {body} }}", c.join(" || "));
                        }
                        Fields::Unnamed(u) if c.field_identifier && u.unnamed.len() == 1 && i + 1 == vs.len() => {
                            let t = ty(&u.unnamed[0].ty);
                            body = format!("match <{t} as XDes>::rd(XNode::Text(s)) {{ Some(k) => Some({name}::{id}(k)), None => None }}");
                        }
                        _ => return Err(format!("serde contract for variant {id}")),
                    }
                }
                out.push_str(&format!(
                    "impl XDes for {name} {{\n    open spec fn rd(n: XNode) -> Option<{name}> {{\n        match n {{ XNode::Text(s) => {body}, _ => None }}\n    }}\n    #[verifier::external_body]\n    fn x_deserialize(d: XDe) -> (r: Result<{name}, XErr>) {{ unimplemented!() }}\n}}\n"
                ));
            }
            if ser {
                let mut arms = vec![];
                for (id, key, f, _) in &vs {
                    match f {
                        Fields::Unit => arms.push(format!("{name}::{id} => XNode::Text(\"{key}\"@)")),
                        Fields::Unnamed(u) if u.unnamed.len() == 1 => {
                            arms.push(format!("{name}::{id}(v) => XNode::Map(seq![(\"{key}\"@, v.node())])"))
                        }
                        _ => return Err(format!("serde contract for variant {id}")),
                    }
                }
                out.push_str(&ser_impl(&head, &full, &format!("match *self {{ {} }}", arms.join(", "))));
            }
        }
        _ => {}
    }
    let _ = (ty_ident, |t: &Type| t.to_token_stream());
    Ok(out)
}

fn ser_impl(head: &str, name: &str, node: &str) -> String {
    format!(
        "impl{head} XSer for {name} {{\n    open spec fn node(&self) -> XNode {{ {node} }}\n    #[verifier::external_body]\n    fn x_serialize(&self, s: XSerializer) -> (r: Result<XOk, XErr>) {{ unimplemented!() }}\n}}\n"
    )
}

/// `//@skips FILE :: *`: for every field with a rule on when it is left out, a function running the
/// named rule and making the value read for a missing key, and the obligation that both are the same.
/// `Alias=Real` options name what a type alias stands for.
pub fn skips(file: &str, name: &str, item: &Item, opts: &HashMap<String, String>) -> String {
    let mut out = String::new();
    let mut one = |f: &Field, at: String, container_default: bool| {
        let (mut skip, mut default, mut default_fn, mut with, mut never) = (None, container_default, None, false, false);
        for a in f.attrs.iter().filter(|a| a.path().is_ident("serde")) {
            let _ = a.parse_nested_meta(|m| {
                let n = m.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                let val = match m.value() {
                    Ok(v) => Some(v.parse::<LitStr>()?.value()),
                    Err(_) => None,
                };
                match (n.as_str(), val) {
                    ("skip_serializing_if", Some(v)) => skip = Some(v),
                    ("default", None) => default = true,
                    ("default", Some(v)) => default_fn = Some(v),
                    ("with", Some(_)) | ("deserialize_with", Some(_)) => with = true,
                    ("skip", None) | ("skip_serializing", None) | ("skip_deserializing", None) => never = true,
                    _ => {}
                }
                Ok(())
            });
        }
        if skip.is_none() && !never {
            return;
        }
        let at = format!("x_skip__{file}__{at}");
        let outer = ty_ident(&f.ty);
        let outer = opts.get(&outer).cloned().unwrap_or(outer);
        let (gen, ty) = match outer.as_str() {
            "Option" | "Vec" => ("<A>", format!("{outer}<A>")),
            "IndexSet" => ("<A: XKey>", "XIndexSet<A>".to_string()),
            "IndexMap" => ("<A: XKey, B>", "XIndexMap<A, B>".to_string()),
            "ShortOrLong" => ("<A: XKey, B: XKey, C>", "ShortOrLong<XIndexSet<A>, XIndexMap<B, C>>".to_string()),
            o => ("", o.to_string()),
        };
        let head = match ty.split_once('<') {
            Some((a, b)) => format!("{a}::<{b}"),
            None => ty.clone(),
        };
        let missing = match (&default_fn, default, outer.as_str()) {
            (Some(p), _, _) => Some(format!("{}()", p.rsplit("::").next().unwrap())),
            (None, true, _) => Some(format!("<{ty} as XFresh>::x_fresh()")),
            (None, false, "Option") if !with => Some("None".to_string()),
            _ => None,
        };
        let rule = skip.map(|p| {
            let p = p.replace(' ', "");
            match p.rsplit_once("::") {
                Some(("Not", "not")) => "x_not".to_string(),
                Some(("Option" | "Vec" | "IndexSet" | "IndexMap" | "str" | "String", m)) => format!("{head}::{m}"),
                Some((t, m)) if opts.contains_key(t) || t == outer => format!("{head}::{m}"),
                Some((_, m)) => m.to_string(),
                None => p,
            }
        });
        out.push_str(&match (never, rule, missing) {
            (false, Some(rule), Some(missing)) => format!(
                "fn {at}{gen}(x: &{ty}) {{ let skipped: bool = {rule}(x); let missing: {ty} = {missing}; assert(skipped ==> (*x == missing || (x.unset() && missing.unset()))); }}\n"
            ),
            // left out whatever it is, or left out and not readable when missing
            (false, Some(rule), None) => format!("fn {at}{gen}(x: &{ty}) {{ let skipped: bool = {rule}(x); assert(!skipped); }}\n"),
            _ => format!("fn {at}() {{ assert(false); }}\n"),
        });
    };
    match item {
        Item::Struct(s) => {
            let cd = s.attrs.iter().filter(|a| a.path().is_ident("serde")).any(|a| attr_has(a, "default"));
            for f in &s.fields {
                let id = f.ident.as_ref().map(|i| i.to_string()).unwrap_or("0".into());
                one(f, format!("{}__{id}", name.replace("::", "_")), cd);
            }
        }
        Item::Enum(e) => {
            for v in &e.variants {
                for f in &v.fields {
                    let id = f.ident.as_ref().map(|i| i.to_string()).unwrap_or("0".into());
                    one(f, format!("{}__{}__{id}", name.replace("::", "_"), v.ident), false);
                }
            }
        }
        _ => {}
    }
    out
}

fn attr_has(a: &Attribute, want: &str) -> bool {
    let mut r = false;
    let _ = a.parse_nested_meta(|m| {
        if m.path.is_ident(want) {
            r = true;
        }
        if let Ok(v) = m.value() {
            let _ = v.parse::<LitStr>();
        }
        Ok(())
    });
    r
}

/// One name a field or a variant is written under, and those it is read under.
fn names(a: &[Attribute], ident: &str, rule: Option<&str>, rule_de: Option<&str>, variant: bool) -> std::result::Result<(String, Vec<String>), String> {
    let (mut ser, mut de) = (cased(ident, rule, variant)?, vec![cased(ident, rule_de, variant)?]);
    for (k, v) in metas(a)? {
        match (k.as_str(), v) {
            ("rename", Some(v)) => {
                ser = v.clone();
                de[0] = v;
            }
            ("rename(serialize)", Some(v)) => ser = v,
            ("rename(deserialize)", Some(v)) => de[0] = v,
            ("alias", Some(v)) => de.push(v),
            _ => {}
        }
    }
    Ok((ser, de))
}
/// every `serde(..)` setting; `rename(serialize = "a")` as `rename(serialize)`
fn metas(a: &[Attribute]) -> std::result::Result<Vec<(String, Option<String>)>, String> {
    let mut out = vec![];
    for a in a.iter().filter(|a| a.path().is_ident("serde")) {
        a.parse_nested_meta(|m| {
            let name = m.path.to_token_stream().to_string();
            if m.input.peek(token::Paren) {
                m.parse_nested_meta(|n| {
                    out.push((format!("{name}({})", n.path.to_token_stream()), Some(n.value()?.parse::<LitStr>()?.value())));
                    Ok(())
                })?;
            } else {
                let v = match m.value() {
                    Ok(v) => Some(v.parse::<LitStr>()?.value()),
                    Err(_) => None,
                };
                out.push((name, v));
            }
            Ok(())
        })
        .map_err(|e| e.to_string())?;
    }
    Ok(out)
}
fn derives(a: &[Attribute], want: &str) -> bool {
    a.iter().filter(|a| a.path().is_ident("derive")).any(|a| {
        let mut r = false;
        let _ = a.parse_nested_meta(|m| {
            r |= m.path.segments.last().is_some_and(|s| s.ident == want);
            Ok(())
        });
        r
    })
}
type Keys = Vec<(String, Vec<String>)>;
/// the keys of a struct with named fields, those of its flattened parts included, and whether what is left over is kept
fn struct_keys(s: &ItemStruct, opts: &HashMap<String, String>, types: &std::collections::BTreeMap<String, Item>) -> std::result::Result<(Keys, bool, bool), String> {
    let (mut ks, mut rest, mut one_way): (Keys, bool, bool) = (vec![], false, false);
    let get = |m: &[(String, Option<String>)], k: &str| m.iter().find(|e| e.0 == k).and_then(|e| e.1.clone());
    let c = metas(&s.attrs)?;
    let (rs, rd) = (get(&c, "rename_all").or(get(&c, "rename_all(serialize)")), get(&c, "rename_all").or(get(&c, "rename_all(deserialize)")));
    for f in &s.fields {
        let m = metas(&f.attrs)?;
        let has = |k: &str| m.iter().any(|e| e.0 == k);
        one_way |= has("skip") || has("skip_serializing") || has("skip_deserializing");
        // a field may be read in more ways than it is written
        one_way |= has("serialize_with") && !has("deserialize_with");
        let Some(id) = f.ident.as_ref() else { return Err("fields without names".into()) };
        if has("flatten") {
            let t = opt_inner(&f.ty).unwrap_or(f.ty.clone());
            let t = ty_ident(&t);
            if t == "Extensions" {
                rest = true;
            } else if let Some(list) = opts.get(&format!("flat:{t}")) {
                ks.extend(list.split(',').map(|k| (k.trim().to_string(), vec![k.trim().to_string()])));
            } else if let Some(Item::Struct(p)) = types.get(&t) {
                let (k, r, o) = struct_keys(p, opts, types)?;
                ks.extend(k);
                rest |= r;
                one_way |= o;
            } else {
                return Err(format!("keys of the flattened part {t}"));
            }
            continue;
        }
        let id = id.to_string();
        ks.push(names(&f.attrs, id.trim_start_matches("r#"), rs.as_deref(), rd.as_deref(), false)?);
    }
    Ok((ks, rest, one_way))
}
/// `//@keys FILE :: *`: for every type that derives both reading and writing, the obligations that its
/// fields (or variants) are read under the names they are written under, that no two share a name, and
/// that none takes the name of an extension; for a struct also that what is written of it reads back
/// entry for entry.
pub fn keys(file: &str, name: &str, item: &Item, opts: &HashMap<String, String>, types: &std::collections::BTreeMap<String, Item>) -> std::result::Result<String, String> {
    let at = format!("{file}__{}", name.replace("::", "_"));
    let attrs = match item {
        Item::Struct(s) => &s.attrs,
        Item::Enum(e) => &e.attrs,
        _ => return Ok(String::new()),
    };
    if !(derives(attrs, "Serialize") && derives(attrs, "Deserialize")) {
        return Ok(String::new());
    }
    let m = metas(attrs)?;
    let has = |k: &str| m.iter().any(|e| e.0 == k);
    let get = |k: &str| m.iter().find(|e| e.0 == k).and_then(|e| e.1.clone());
    if has("transparent") || has("into") || has("from") || has("try_from") || has("untagged") {
        // one without the other is written as one thing and read as another
        let both = !(has("into") && !(has("try_from") || has("from"))) && !(!has("into") && (has("try_from") || has("from")));
        return Ok(if both { String::new() } else { format!("proof fn x_one_way__{at}() {{ assert(false); }}\n") });
    }
    let mut out = String::new();
    match item {
        Item::Struct(s) => {
            if matches!(s.fields, Fields::Unnamed(_) | Fields::Unit) {
                return Ok(String::new());
            }
            let (ks, rest, one_way) = struct_keys(s, opts, types)?;
            if one_way {
                out.push_str(&format!("proof fn x_one_way__{at}() {{ assert(false); }}\n"));
            }
            out.push_str(&key_proofs(&at, &ks));
            out.push_str(&format!(
                "/// what is written of it reads back entry for entry\nproof fn x_survives__{at}(ps: Seq<Option<XNode>>, ext: Seq<Entry>) requires ps.len() == x_keys_{at}().len(), {} ensures survives(x_keys_{at}(), ps, ext) {{ x_distinct__{at}(); theorem_survives(x_keys_{at}(), ps, ext); }}\n",
                if rest { "all_ext(ext)" } else { "ext.len() == 0" }
            ));
        }
        Item::Enum(e) => {
            let (rs, rd) = (get("rename_all").or(get("rename_all(serialize)")), get("rename_all").or(get("rename_all(deserialize)")));
            let tag = get("tag");
            let mut vs: Keys = vec![];
            for v in &e.variants {
                let m = metas(&v.attrs)?;
                if m.iter().any(|e| ["skip", "skip_serializing", "skip_deserializing", "other", "untagged", "serialize_with", "deserialize_with"].contains(&e.0.as_str())) {
                    out.push_str(&format!("proof fn x_one_way__{at}__{}() {{ assert(false); }}\n", v.ident));
                }
                vs.push(names(&v.attrs, &v.ident.to_string(), rs.as_deref(), rd.as_deref(), true)?);
                if let Some(tag) = &tag {
                    // the tag is written next to the keys of the variant
                    if let Fields::Unnamed(u) = &v.fields {
                        let t = ty_ident(&u.unnamed[0].ty);
                        let Some(Item::Struct(p)) = types.get(&t) else { return Err(format!("keys of variant {t}")) };
                        let (mut ks, ..) = struct_keys(p, opts, types)?;
                        ks.push((tag.clone(), vec![tag.clone()]));
                        out.push_str(&key_proofs(&format!("{at}__{}", v.ident), &ks));
                    }
                }
            }
            out.push_str(&key_proofs(&at, &vs));
        }
        _ => {}
    }
    Ok(out)
}
fn key_proofs(at: &str, ks: &Keys) -> String {
    let mut out = String::new();
    for (ser, de) in ks {
        if *ser != de[0] {
            out.push_str(&format!("proof fn x_same__{at}() {{ reveal_strlit(\"{ser}\"); reveal_strlit(\"{}\"); assert(\"{ser}\"@ =~= \"{}\"@); }}\n", de[0], de[0]));
        }
    }
    // all names, in order: each is less than the next
    let mut all: Vec<&str> = ks.iter().flat_map(|k| k.1.iter()).map(|s| s.as_str()).collect();
    all.sort();
    let n = all.len();
    fn tree(lo: usize, hi: usize, leaf: &dyn Fn(usize) -> String) -> String {
        if hi - lo == 1 {
            return leaf(lo);
        }
        let mid = (lo + hi) / 2;
        format!("if i < {mid} {{ {} }} else {{ {} }}", tree(lo, mid, leaf), tree(mid, hi, leaf))
    }
    if n == 0 {
        return format!("{out}pub open spec fn x_keys_{at}() -> Seq<Seq<char>> {{ seq![] }}\nproof fn x_distinct__{at}() ensures own_keys(x_keys_{at}()) {{ }}\n");
    }
    out.push_str(&format!(
        "#[verifier::opaque]\npub open spec fn x_key_{at}(i: int) -> Seq<char> {{ {} }}\npub open spec fn x_keys_{at}() -> Seq<Seq<char>> {{ Seq::new({n}, |i: int| x_key_{at}(i)) }}\n",
        tree(0, n, &|i| format!("\"{}\"@", all[i]))
    ));
    for (i, k) in all.iter().enumerate() {
        let mut ensures = format!("!is_ext(x_key_{at}({i}))");
        let mut body = format!("reveal(x_key_{at}); reveal_strlit(\"{k}\");");
        if i + 1 < n {
            let b = all[i + 1];
            let p = k.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
            ensures.push_str(&format!(", lt(x_key_{at}({i}), x_key_{at}({}))", i + 1));
            body.push_str(&format!(" reveal_strlit(\"{b}\"); assert(\"{k}\"@.take({p}) =~= \"{b}\"@.take({p})); lemma_lt_at(\"{k}\"@, \"{b}\"@, {p});"));
        }
        out.push_str(&format!("proof fn x_name__{at}__{i}() ensures {ensures} {{ {body} }}\n"));
    }
    let steps = tree(0, n, &|i| format!("x_name__{at}__{i}();"));
    out.push_str(&format!(
        "proof fn x_name__{at}(i: int) requires 0 <= i < {n} ensures !is_ext(x_key_{at}(i)), i + 1 < {n} ==> lt(x_key_{at}(i), x_key_{at}(i + 1)) {{ {steps} }}\n/// no two of its names are the same, and none is that of an extension\nproof fn x_distinct__{at}() ensures own_keys(x_keys_{at}())\n{{\n    let ks = x_keys_{at}();\n    assert forall|i: int| 0 <= i < {n} - 1 implies lt(#[trigger] ks[i], ks[i + 1]) by {{ x_name__{at}(i); }}\n    assert forall|i: int| 0 <= i < {n} implies !is_ext(#[trigger] ks[i]) by {{ x_name__{at}(i); }}\n    lemma_sorted(ks);\n}}\n"
    ));
    out
}
