//! vx: mechanical extraction of named items from /repo's sources into the dialect the
//! verifier accepts.  Request on stdin (JSON), answer on stdout (JSON).
//!
//! What it rewrites (and nothing else): attributes/doc comments dropped, cfg'd statements
//! resolved with every feature off and debug assertions off, logging and debug_assert dropped,
//! field generics erased to the one element type FE, iterator chains and `for` loops turned into
//! index loops, `a op= b` into `a = a op (b)`, `e?` into a match, calls of a few std methods
//! renamed to the prelude's contracted versions, `panic!` into a call of `vx_panic`/`vx_refuse`.
mod pipe;
mod ty;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Cfg {
    pub rename: HashMap<String, String>,
    pub drop: Vec<String>,
    pub methods: HashMap<String, String>,
    pub paths: HashMap<String, String>,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string();
        a.path().is_ident("cfg") && s.contains("test") && !s.contains("not")
    })
}

/// cfg attribute says the item is present with every feature off and debug assertions off.
pub fn cfg_on(attrs: &[Attribute]) -> bool {
    fn holds(m: &Meta) -> bool {
        match m {
            Meta::List(l) => {
                let xs = l.parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated).map(|p| p.into_iter().collect::<Vec<_>>()).unwrap_or_default();
                match l.path.get_ident().map(|i| i.to_string()).unwrap_or_default().as_str() {
                    "all" => xs.iter().all(holds),
                    "any" => xs.iter().any(holds),
                    "not" => !xs.iter().any(holds),
                    _ => true,
                }
            }
            // features, debug assertions and tests are off; targets are this one
            Meta::Path(p) => !(p.is_ident("debug_assertions") || p.is_ident("test")),
            Meta::NameValue(n) => !n.path.is_ident("feature") && !n.value.to_token_stream().to_string().contains("wasm"),
        }
    }
    attrs.iter().all(|a| match &a.meta {
        Meta::List(l) if l.path.is_ident("cfg") => l.parse_args::<Meta>().map(|m| holds(&m)).unwrap_or(true),
        _ => true,
    })
}

fn last_seg(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => last_seg(&r.elem),
        _ => String::new(),
    }
}

#[derive(Clone)]
pub struct Found {
    sig: Signature,
    block: Block,
    self_ty: Option<String>,
    assoc: HashMap<String, Type>,
    generics: Vec<String>,
    file: String,
}

fn tparams(g: &Generics) -> Vec<String> {
    g.params
        .iter()
        .filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None })
        .collect()
}

fn find_fn(file: &str, items: &[Item], ty: Option<&str>, tr: Option<&str>, name: &str, out: &mut Vec<Found>) {
    for it in items {
        match it {
            Item::Fn(f) if ty.is_none() && f.sig.ident == name && cfg_on(&f.attrs) => out.push(Found {
                sig: f.sig.clone(),
                block: (*f.block).clone(),
                self_ty: None,
                assoc: HashMap::new(),
                generics: tparams(&f.sig.generics),
                file: file.into(),
            }),
            Item::Impl(im) if ty.is_some() && Some(last_seg(&im.self_ty).as_str()) == ty => {
                if let Some(tr) = tr {
                    let s = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().to_token_stream().to_string().replace(' ', ""));
                    if s.as_deref() != Some(tr) {
                        continue;
                    }
                }
                let mut assoc = HashMap::new();
                for i in &im.items {
                    if let ImplItem::Type(t) = i {
                        assoc.insert(t.ident.to_string(), t.ty.clone());
                    }
                }
                for i in &im.items {
                    if let ImplItem::Fn(f) = i {
                        if f.sig.ident == name && cfg_on(&f.attrs) {
                            let mut g = tparams(&im.generics);
                            g.extend(tparams(&f.sig.generics));
                            out.push(Found {
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                self_ty: ty.map(String::from),
                                assoc: assoc.clone(),
                                generics: g,
                                file: file.into(),
                            });
                        }
                    }
                }
            }
            Item::Trait(t) if ty.is_some() && Some(t.ident.to_string().as_str()) == ty => {
                for i in &t.items {
                    if let TraitItem::Fn(f) = i {
                        if f.sig.ident == name {
                            if let Some(b) = &f.default {
                                let mut g = tparams(&t.generics);
                                g.extend(tparams(&f.sig.generics));
                                out.push(Found {
                                    sig: f.sig.clone(),
                                    block: b.clone(),
                                    self_ty: ty.map(String::from),
                                    assoc: HashMap::new(),
                                    generics: g,
                                    file: file.into(),
                                });
                            }
                        }
                    }
                }
            }
            Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    find_fn(file, its, ty, tr, name, out)
                }
            }
            _ => {}
        }
    }
}

fn all_rs(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect()).unwrap_or_else(|_| vec![]);
    es.sort();
    for p in es {
        if p.is_dir() {
            all_rs(&p, out)
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            out.push(p)
        }
    }
}

fn main() {
    let req: Value = serde_json::from_reader(std::io::stdin()).unwrap();
    let root = PathBuf::from(req["root"].as_str().unwrap());
    let mut files: HashMap<String, File> = HashMap::new();
    let mut order = vec![];
    let mut ps = vec![];
    all_rs(&root, &mut ps);
    let mut parse_errors = vec![];
    for p in ps {
        let rel = p.strip_prefix(&root).unwrap().to_string_lossy().to_string();
        match parse_file(&std::fs::read_to_string(&p).unwrap_or_default()) {
            Ok(f) => {
                files.insert(rel.clone(), f);
                order.push(rel);
            }
            Err(e) => parse_errors.push(format!("{rel}: {e}")),
        }
    }
    let strmap = |v: &Value| -> HashMap<String, String> {
        v.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect()).unwrap_or_default()
    };
    let base = Cfg {
        rename: strmap(&req["rename"]),
        drop: req["drop"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default(),
        methods: strmap(&req["methods"]),
        paths: strmap(&req["paths"]),
    };
    let mut ans_fns = vec![];
    for f in req["fns"].as_array().unwrap_or(&vec![]) {
        let file = f["file"].as_str().unwrap();
        let path = f["path"].as_str().unwrap();
        let (tr, p2) = match path.split_once(" for ") {
            Some((t, p)) => (Some(t.to_string()), p),
            None => (None, path),
        };
        let (ty, name) = match p2.rsplit_once("::") {
            Some((t, n)) => (Some(t), n),
            None => (None, p2),
        };
        let mut found = vec![];
        if let Some(fl) = files.get(file) {
            find_fn(file, &fl.items, ty, tr.as_deref(), name, &mut found);
        }
        if found.is_empty() {
            for o in &order {
                find_fn(o, &files[o].items, ty, tr.as_deref(), name, &mut found);
            }
        }
        if found.len() != 1 {
            ans_fns.push(json!({"path": path, "error": format!("{} definitions of {path}", found.len())}));
            continue;
        }
        let fd = found.remove(0);
        let mut cfg = Cfg { rename: base.rename.clone(), drop: base.drop.clone(), methods: base.methods.clone(), paths: base.paths.clone() };
        cfg.rename.extend(strmap(&f["rename"]));
        cfg.methods.extend(strmap(&f["methods"]));
        cfg.paths.extend(strmap(&f["paths"]));
        ans_fns.push(emit_fn(path, fd, cfg, f));
    }
    let mut ans_items = vec![];
    for it in req["items"].as_array().unwrap_or(&vec![]) {
        let file = it["file"].as_str().unwrap();
        let name = it["name"].as_str().unwrap();
        let mut got = None;
        let mut search: Vec<&String> = vec![];
        if let Some((k, _)) = files.get_key_value(file) {
            search.push(k)
        }
        search.extend(order.iter());
        for o in search {
            for i in &files[o].items {
                match i {
                    Item::Struct(s) if s.ident == name => got = Some(emit_struct(s, &base)),
                    Item::Enum(s) if s.ident == name => got = Some(emit_enum(s, &base)),
                    Item::Const(c) if c.ident == name => got = Some(emit_const(c, &base)),
                    _ => {}
                }
                if got.is_some() {
                    break;
                }
            }
            if got.is_some() {
                break;
            }
        }
        match got {
            Some(s) => ans_items.push(json!({"name": name, "src": s})),
            None => ans_items.push(json!({"name": name, "error": format!("no item {name} in {file}")})),
        }
    }
    let mut ans_consts = vec![];
    for it in req["consts"].as_array().unwrap_or(&vec![]) {
        let file = it.as_str().unwrap();
        if let Some((file, ty)) = file.split_once(' ') {
            let mut cs: Vec<TokenStream> = vec![];
            for i in files.get(file).map(|f| f.items.as_slice()).unwrap_or(&[]) {
                if let Item::Impl(im) = i {
                    if last_seg(&im.self_ty) == ty {
                        for x in &im.items {
                            if let ImplItem::Const(c) = x {
                                let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                                cs.push(quote!(pub const #n: #t = #e;));
                            }
                        }
                    }
                }
            }
            let id = format_ident(ty);
            ans_consts.push(json!({"name": format!("impl {ty}"), "src": quote!(impl #id { #(#cs)* }).to_string()}));
            continue;
        }
        if let Some(f) = files.get(file) {
            for i in &f.items {
                if let Item::Const(c) = i {
                    let t = c.ty.to_token_stream().to_string();
                    if ["usize", "u64", "u32", "u16", "u8", "bool"].contains(&t.as_str()) {
                        ans_consts.push(json!({"name": c.ident.to_string(), "src": emit_const(c, &base)}));
                    } else if let (true, Expr::Array(a)) = (t.starts_with("[usize ;"), &*c.expr) {
                        let (n, ty, el) = (&c.ident, &c.ty, &a.elems);
                        ans_consts.push(json!({"name": c.ident.to_string(), "src": format!("pub exec const {n}: {} ensures {n}@ == seq![{}] {{ assert([{}]@ =~= seq![{}]); [{}] }}", quote!(#ty), quote!(#el), quote!(#el), quote!(#el), quote!(#el))}));
                    }
                }
            }
        }
    }
    println!("{}", json!({"fns": ans_fns, "items": ans_items, "consts": ans_consts, "parse_errors": parse_errors}));
}

fn emit_const(c: &ItemConst, cfg: &Cfg) -> String {
    let mut t = (*c.ty).clone();
    ty::fix_type(&mut t, cfg, &HashMap::new());
    let (n, e) = (&c.ident, &c.expr);
    quote!(pub const #n: #t = #e;).to_string()
}

fn emit_struct(s: &ItemStruct, cfg: &Cfg) -> String {
    let mut s = s.clone();
    s.attrs.clear();
    let n = &s.ident;
    let nn = cfg.rename.get(&n.to_string()).map(|x| format_ident(x.trim_end_matches('!'))).unwrap_or(n.clone());
    let mut fs: Vec<TokenStream> = vec![];
    let tuple = matches!(s.fields, Fields::Unnamed(_));
    for f in s.fields.iter() {
        let mut t = f.ty.clone();
        ty::fix_type(&mut t, cfg, &HashMap::new());
        match &f.ident {
            Some(i) => fs.push(quote!(pub #i: #t)),
            None => fs.push(quote!(pub #t)),
        }
    }
    let lts: Vec<_> = s.generics.lifetimes().collect();
    let g = if lts.is_empty() { quote!() } else { quote!(<#(#lts),*>) };
    if tuple {
        quote!(pub struct #nn #g ( #(#fs),* );).to_string()
    } else {
        quote!(pub struct #nn #g { #(#fs),* }).to_string()
    }
}

fn emit_enum(s: &ItemEnum, cfg: &Cfg) -> String {
    let n = &s.ident;
    let mut vs: Vec<TokenStream> = vec![];
    for v in &s.variants {
        let id = &v.ident;
        match &v.fields {
            Fields::Unit => match &v.discriminant {
                Some((_, _d)) => vs.push(quote!(#id)),
                None => vs.push(quote!(#id)),
            },
            Fields::Unnamed(u) => {
                let ts: Vec<_> = u
                    .unnamed
                    .iter()
                    .map(|f| {
                        let mut t = f.ty.clone();
                        ty::fix_type(&mut t, cfg, &HashMap::new());
                        t
                    })
                    .collect();
                vs.push(quote!(#id( #(#ts),* )))
            }
            Fields::Named(u) => {
                let ts: Vec<_> = u
                    .named
                    .iter()
                    .map(|f| {
                        let mut t = f.ty.clone();
                        ty::fix_type(&mut t, cfg, &HashMap::new());
                        let i = &f.ident;
                        quote!(#i: #t)
                    })
                    .collect();
                vs.push(quote!(#id { #(#ts),* }))
            }
        }
    }
    quote!(pub enum #n { #(#vs),* }).to_string()
}

pub fn format_ident(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}

fn emit_fn(path: &str, fd: Found, cfg: Cfg, opts: &Value) -> Value {
    let mut drop = cfg.drop.clone();
    for g in &fd.generics {
        if !drop.contains(g) && !cfg.rename.contains_key(g) && !opts["keep"].as_array().map(|a| a.iter().any(|x| x == g.as_str())).unwrap_or(false) {
            drop.push(g.clone());
        }
    }
    let cfg = Cfg { drop, ..cfg };
    let raw = fd.block.to_token_stream().to_string();
    let mut sig = fd.sig.clone();
    let mut block = fd.block.clone();
    // parameters
    let mut params: Vec<String> = vec![];
    let mut pats: Vec<(Pat, Ident)> = vec![];
    let mut muts: Vec<Ident> = vec![];
    let mut n = 0;
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => {
                let s = if r.reference.is_some() {
                    if r.mutability.is_some() { "&mut self" } else { "&self" }
                } else {
                    "self"
                };
                params.push(s.to_string());
            }
            FnArg::Typed(t) => {
                ty::fix_type(&mut t.ty, &cfg, &fd.assoc);
                let tt = &t.ty;
                match &*t.pat {
                    Pat::Ident(i) => {
                        let id = &i.ident;
                        if i.mutability.is_some() {
                            muts.push(id.clone());
                        }
                        params.push(quote!(#id: #tt).to_string());
                    }
                    p => {
                        let id = format_ident(&format!("vx_arg{n}"));
                        pats.push((p.clone(), id.clone()));
                        params.push(quote!(#id: #tt).to_string());
                    }
                }
                n += 1;
            }
        }
    }
    let ret = match &mut sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => {
            ty::fix_type(t, &cfg, &fd.assoc);
            t.to_token_stream().to_string()
        }
    };
    let mut gen: Vec<String> = vec![];
    for p in &sig.generics.params {
        match p {
            GenericParam::Lifetime(l) => gen.push(l.lifetime.to_string()),
            GenericParam::Const(c) => gen.push(format!("const {}: {}", c.ident, c.ty.to_token_stream())),
            GenericParam::Type(t) if opts["keep"].as_array().map(|a| a.iter().any(|x| *x == t.ident.to_string())).unwrap_or(false) => gen.push(t.ident.to_string()),
            _ => {}
        }
    }
    for (p, id) in pats.into_iter().rev() {
        block.stmts.insert(0, parse_quote!(let #p = #id;));
    }
    for m in muts {
        block.stmts.insert(0, parse_quote!(let mut #m = #m;));
    }
    let mut v = pipe::Rw {
        cfg: &cfg,
        assoc: &fd.assoc,
        opts,
        loops: 0,
        closures: 0, deferred: vec![],
        unsupported: vec![],
        calls: vec![],
        iters: HashMap::new(),
        stash: vec![],
        ret_option: ret.replace(' ', "").starts_with("Option<"),
    };
    v.visit_block_mut(&mut block);
    // a name for the value of the body, so that an annotation can follow its computation
    if opts["tail"].as_bool().unwrap_or(false) && !ret.is_empty() {
        if let Some(Stmt::Expr(_, None)) = block.stmts.last() {
            if let Some(Stmt::Expr(e, None)) = block.stmts.pop() {
                block.stmts.push(parse_quote!(let vx_tail = #e;));
                block.stmts.push(parse_quote!(VXTAIL!();));
                block.stmts.push(Stmt::Expr(parse_quote!(vx_tail), None));
            }
        }
    }
    json!({
        "path": path, "file": fd.file, "name": sig.ident.to_string(), "self_ty": fd.self_ty.as_ref().map(|t| cfg.rename.get(t).cloned().unwrap_or(t.clone())),
        "params": params, "ret": ret, "generics": gen, "body": block.to_token_stream().to_string(),
        "loops": v.loops, "calls": v.calls, "unsupported": v.unsupported, "raw_len": raw.len(),
        "raw": raw,
    })
}
