use crate::ty::TyFix;
use crate::{cfg_on, format_ident, Cfg};
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use serde_json::Value;
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Rw<'a> {
    pub cfg: &'a Cfg,
    pub assoc: &'a HashMap<String, Type>,
    pub opts: &'a Value,
    pub loops: usize,
    pub unsupported: Vec<String>,
    pub calls: Vec<String>,
    pub iters: HashMap<String, Expr>,
    pub stash: Vec<Stmt>,
    pub ret_option: bool,
    pub closures: usize,
    pub deferred: Vec<String>,
}

type ItemFn = Box<dyn Fn(TokenStream) -> TokenStream>;

enum Pipe {
    /// indexable: number of items (None: endless) and the i-th item; `mutable` items are places
    Idx { len: Option<TokenStream>, item: ItemFn, place: bool },
    Range { lo: Expr, hi: Expr, incl: bool },
    Map(Box<Pipe>, ExprClosure),
    Filter(Box<Pipe>, ExprClosure),
    FilterMap(Box<Pipe>, ExprClosure),
    Scan(Box<Pipe>, Expr, ExprClosure),
    Unique(Box<Pipe>, ExprClosure),
    FlatMap(Box<Pipe>, Option<ExprClosure>),
    Chain(Box<Pipe>, Box<Pipe>),
    Succ(Expr, ExprClosure, TokenStream),
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

fn simple_place(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => simple_place(&f.base),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && simple_place(&u.expr),
        _ => false,
    }
}

fn path_name(e: &Expr) -> Option<String> {
    match strip(e) {
        Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}

fn ident_of(e: &Expr) -> Option<String> {
    match strip(e) {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}

fn clone_of(t: &TokenStream) -> TokenStream {
    // (& X).clone() is X.clone()
    if let Ok(Expr::Reference(r)) = parse2::<Expr>(t.clone()) {
        let x = &r.expr;
        return quote!(#x.clone());
    }
    quote!((#t).clone())
}

const TERMINALS: &[&str] = &["collect", "fold", "sum", "product", "all", "any", "for_each", "unzip", "find", "position", "count", "max", "min", "last"];

/// Replaces `*name` and `name` by a place expression.
struct Subst {
    name: String,
    to: Expr,
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) && ident_of(&u.expr).as_deref() == Some(&self.name) {
                *e = self.to.clone();
                return;
            }
        }
        if ident_of(e).as_deref() == Some(&self.name) && matches!(e, Expr::Path(_)) {
            *e = self.to.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e)
    }
}

struct HasReturn(bool);
impl<'ast> syn::visit_mut::VisitMut for HasReturn {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) => self.0 = true,
            Expr::Closure(_) => {}
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
impl HasReturn {
    fn of(e: &Expr) -> bool {
        let mut h = HasReturn(false);
        h.visit_expr_mut(&mut e.clone());
        h.0
    }
}

impl Rw<'_> {
    fn no(&mut self, s: impl Into<String>) {
        self.unsupported.push(s.into())
    }
    fn hint(&self, key: &str, val: &str) -> bool {
        self.opts[key].as_array().map(|a| a.iter().any(|x| x == val)).unwrap_or(false)
    }
    fn hint_loop(&self, key: &str, k: usize) -> bool {
        self.opts[key].as_array().map(|a| a.iter().any(|x| x.as_u64() == Some(k as u64))).unwrap_or(false)
    }
    fn new_loop(&mut self) -> usize {
        self.loops += 1;
        self.loops - 1
    }

    /// Whether `e` is an iterator chain (without terminal) this extraction knows.
    fn is_chain(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "iter_mut" | "windows" | "chunks_exact" => m.args.is_empty() || n == "windows" || n == "chunks_exact",
                    "into_iter" => true,
                    "zip" | "enumerate" | "rev" | "take" | "skip" | "step_by" | "cloned" | "copied" | "map" | "filter" | "unique_by" | "filter_map" | "flat_map" | "flatten" | "scan" | "chain" | "cycle" => {
                        self.is_chain(&m.receiver)
                    }
                    "clone" => self.is_chain(&m.receiver),
                    _ => false,
                }
            }
            Expr::Range(_) => true,
            Expr::Call(c) => {
                let n = path_name(&c.func).unwrap_or_default();
                (n == "repeat" && c.args.len() == 1) || (n == "zip" && c.args.len() == 2) || n == "successors"
            }
            Expr::Path(p) => p.path.get_ident().map(|i| self.iters.contains_key(&i.to_string()) || self.hint("ranges", &i.to_string())).unwrap_or(false),
            _ => false,
        }
    }

    fn base(&mut self, r: &Expr, k: usize, pre: &mut Vec<TokenStream>) -> Expr {
        let s = match strip(r) {
            Expr::Reference(x) => strip(&x.expr).clone(),
            x => x.clone(),
        };
        if simple_place(&s) {
            s
        } else {
            let id = format_ident(&format!("vsrc_{}_{}", k, pre.len()));
            let amp = if matches!(s, Expr::Field(_) | Expr::Index(_)) && !matches!(&s, Expr::Index(ix) if matches!(strip(&ix.index), Expr::Range(_))) { quote!(&) } else { quote!() };
            pre.push(quote!(let #id = #amp #s;));
            parse_quote!(#id)
        }
    }

    fn seq(&mut self, r: &Expr, k: usize, pre: &mut Vec<TokenStream>, mode: &str) -> Pipe {
        if let Expr::Field(f) = strip(match strip(r) { Expr::Reference(x) => &x.expr, x => x }) {
            if let Member::Named(id) = &f.member {
                if self.hint("maps", &id.to_string()) {
                    // a hash map's entries, each once, in some order
                    let v = format_ident(&format!("vsrc_{}_{}", k, pre.len()));
                    pre.push(quote!(let #v = #f.vx_entries();));
                    return Pipe::Idx { len: Some(quote!(#v.len())), item: Box::new(move |i| quote!((#v[#i].0, #v[#i].1))), place: false };
                }
            }
        }
        let b = self.base(r, k, pre);
        let b2 = b.clone();
        let len = quote!(#b.len());
        match mode {
            "ref" => Pipe::Idx { len: Some(len), item: Box::new(move |i| quote!(&#b2[#i])), place: false },
            "val" => Pipe::Idx { len: Some(len), item: Box::new(move |i| quote!(#b2[#i].clone())), place: false },
            _ => Pipe::Idx { len: Some(len), item: Box::new(move |i| quote!(#b2[#i])), place: true },
        }
    }

    fn closure(&mut self, e: &Expr) -> Option<ExprClosure> {
        match strip(e) {
            Expr::Closure(c) => {
                if HasReturn::of(&c.body) {
                    self.no("closure with return or ?");
                }
                Some(c.clone())
            }
            Expr::Path(_) => {
                let f = strip(e);
                Some(parse_quote!(|vx_it| #f(vx_it)))
            }
            _ => {
                self.no("closure argument");
                None
            }
        }
    }

    /// An iterable argument (of zip, chain, for): a chain, `&x`, `&mut x` or a value.
    fn iterable(&mut self, e: &Expr, k: usize, pre: &mut Vec<TokenStream>) -> Option<Pipe> {
        if self.is_chain(e) {
            return self.chain(e, k, pre);
        }
        match strip(e) {
            Expr::Reference(r) => {
                let m = if r.mutability.is_some() { "mut" } else { "ref" };
                if self.is_chain(&r.expr) {
                    return self.chain(&r.expr, k, pre);
                }
                if let Expr::Index(ix) = strip(&r.expr) {
                    if matches!(strip(&ix.index), Expr::Range(_)) {
                        return Some(self.seq(e, k, pre, m));
                    }
                }
                Some(self.seq(&r.expr.clone(), k, pre, m))
            }
            Expr::Path(p) => {
                let id = p.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                let m = if self.hint("byval", &id) { "val" } else { "ref" };
                Some(self.seq(e, k, pre, m))
            }
            Expr::Field(_) => Some(self.seq(e, k, pre, "ref")),
            _ => Some(self.seq(e, k, pre, "val")),
        }
    }

    fn chain(&mut self, e: &Expr, k: usize, pre: &mut Vec<TokenStream>) -> Option<Pipe> {
        match strip(e) {
            Expr::Path(p) => {
                let id = p.path.get_ident()?.to_string();
                if let Some(x) = self.iters.get(&id).cloned() {
                    return self.chain(&x, k, pre);
                }
                let x: Expr = parse_quote!(#p.start..#p.end);
                return self.chain(&x, k, pre);
            }
            Expr::Range(r) => {
                let (Some(lo), Some(hi)) = (r.start.clone(), r.end.clone()) else {
                    if let Some(lo) = r.start.clone() {
                        return Some(Pipe::Idx { len: None, item: Box::new(move |i| quote!((#lo + #i))), place: false });
                    }
                    self.no("range without start");
                    return None;
                };
                Some(Pipe::Range { lo: *lo, hi: *hi, incl: matches!(r.limits, RangeLimits::Closed(_)) })
            }
            Expr::Call(c) => {
                let n = path_name(&c.func)?;
                match n.as_str() {
                    "repeat" => {
                        let x = &c.args[0];
                        if let Expr::Reference(r) = strip(x) {
                            let y = r.expr.clone();
                            return Some(Pipe::Idx { len: None, item: Box::new(move |_| quote!(&#y)), place: false });
                        }
                        let b = self.base(x, k, pre);
                        Some(Pipe::Idx { len: None, item: Box::new(move |_| quote!(#b.clone())), place: false })
                    }
                    "zip" => {
                        let a = self.iterable(&c.args[0], k, pre)?;
                        let b = self.iterable(&c.args[1], k, pre)?;
                        self.zip(a, b, k, pre)
                    }
                    _ => {
                        let cl = self.closure(&c.args[1])?;
                        Some(Pipe::Succ(c.args[0].clone(), cl, quote!()))
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let a0 = m.args.first().cloned();
                match n.as_str() {
                    "iter" => {
                        if self.is_chain(&m.receiver) && !matches!(strip(&m.receiver), Expr::Path(_)) {
                            return self.chain(&m.receiver, k, pre);
                        }
                        Some(self.seq(&m.receiver, k, pre, "ref"))
                    }
                    "into_iter" => {
                        if self.is_chain(&m.receiver) {
                            return self.chain(&m.receiver, k, pre);
                        }
                        let id = ident_of(&m.receiver).unwrap_or_default();
                        let mode = if self.hint("byref", &id) { "ref" } else { "val" };
                        Some(self.seq(&m.receiver, k, pre, mode))
                    }
                    "iter_mut" => Some(self.seq(&m.receiver, k, pre, "mut")),
                    "windows" => {
                        let b = self.base(&m.receiver, k, pre);
                        let w = a0?;
                        let b2 = b.clone();
                        let w2 = w.clone();
                        Some(Pipe::Idx {
                            len: Some(quote!((if #b.len() >= (#w) { #b.len() - (#w) + 1 } else { 0 }))),
                            item: Box::new(move |i| quote!(vx_slice(&#b2, #i, #i + (#w2)))),
                            place: false,
                        })
                    }
                    "chunks_exact" => {
                        let b = self.base(&m.receiver, k, pre);
                        let w = a0?;
                        let b2 = b.clone();
                        let w2 = w.clone();
                        Some(Pipe::Idx {
                            len: Some(quote!((#b.len() / (#w)))),
                            item: Box::new(move |i| quote!(vx_slice(&#b2, #i * (#w2), #i * (#w2) + (#w2)))),
                            place: false,
                        })
                    }
                    "clone" => self.chain(&m.receiver, k, pre),
                    _ => {
                        let p = self.chain(&m.receiver, k, pre)?;
                        match n.as_str() {
                            "map" => {
                                let c = self.closure(&a0?)?;
                                Some(Pipe::Map(Box::new(p), c))
                            }
                            "filter" => {
                                let c = self.closure(&a0?)?;
                                Some(Pipe::Filter(Box::new(p), c))
                            }
                            "unique_by" => {
                                let c = self.closure(&a0?)?;
                                Some(Pipe::Unique(Box::new(p), c))
                            }
                            "filter_map" => {
                                let c = self.closure(&a0?)?;
                                Some(Pipe::FilterMap(Box::new(p), c))
                            }
                            "flat_map" => {
                                let c = self.closure(&a0?)?;
                                Some(Pipe::FlatMap(Box::new(p), Some(c)))
                            }
                            "flatten" => Some(Pipe::FlatMap(Box::new(p), None)),
                            "scan" => {
                                let c = self.closure(&m.args[1])?;
                                Some(Pipe::Scan(Box::new(p), a0?, c))
                            }
                            "chain" => {
                                let q = self.iterable(&a0?, k, pre)?;
                                Some(Pipe::Chain(Box::new(p), Box::new(q)))
                            }
                            "cloned" | "copied" => match self.idx(p, k, pre)? {
                                Ok((len, item, _)) => Some(Pipe::Idx { len, item: Box::new(move |i| clone_of(&item(i))), place: false }),
                                Err(p) => Some(Pipe::Map(Box::new(p), parse_quote!(|vx_it| vx_it.clone()))),
                            },
                            "zip" => {
                                let q = self.iterable(&a0?, k, pre)?;
                                self.zip(p, q, k, pre)
                            }
                            "take" if matches!(p, Pipe::Succ(..)) => {
                                let Pipe::Succ(i, c, _) = p else { unreachable!() };
                                Some(Pipe::Succ(i, c, a0?.to_token_stream()))
                            }
                            "enumerate" | "rev" | "take" | "skip" | "step_by" | "cycle" => {
                                let Ok((len, item, place)) = self.idx(p, k, pre)? else {
                                    self.no(format!("{n} after a non-indexable adapter"));
                                    return None;
                                };
                                let uid = pre.len();
                                match n.as_str() {
                                    "enumerate" => Some(Pipe::Idx {
                                        len,
                                        item: Box::new(move |i| {
                                            let x = item(i.clone());
                                            quote!((#i, #x))
                                        }),
                                        place,
                                    }),
                                    "rev" => {
                                        let l = len?;
                                        let id = format_ident(&format!("vr_{k}_{uid}"));
                                        pre.push(quote!(let #id: usize = #l;));
                                        Some(Pipe::Idx { len: Some(quote!(#id)), item: Box::new(move |i| item(quote!((#id - 1 - #i)))), place })
                                    }
                                    "take" => {
                                        let t = a0?;
                                        let l = match len {
                                            None => quote!((#t)),
                                            Some(l) => {
                                                let id = format_ident(&format!("vt_{k}_{uid}"));
                                                pre.push(quote!(let #id: usize = vx_min(#l, #t);));
                                                quote!(#id)
                                            }
                                        };
                                        Some(Pipe::Idx { len: Some(l), item, place })
                                    }
                                    "skip" => {
                                        let t = a0?;
                                        let l = len.map(|l| {
                                            let id = format_ident(&format!("vt_{k}_{uid}"));
                                            pre.push(quote!(let #id: usize = vx_sat_sub(#l, #t);));
                                            quote!(#id)
                                        });
                                        Some(Pipe::Idx { len: l, item: Box::new(move |i| item(quote!((#i + (#t))))), place })
                                    }
                                    "step_by" => {
                                        let t = a0?;
                                        let l = len?;
                                        let id = format_ident(&format!("vt_{k}_{uid}"));
                                        pre.push(quote!(let #id: usize = vx_div_up(#l, #t);));
                                        Some(Pipe::Idx { len: Some(quote!(#id)), item: Box::new(move |i| item(quote!((#i * (#t))))), place })
                                    }
                                    _ => {
                                        let l = len?;
                                        Some(Pipe::Idx { len: None, item: Box::new(move |i| item(quote!((#i % #l)))), place })
                                    }
                                }
                            }
                            _ => None,
                        }
                    }
                }
            }
            _ => {
                self.no("iterator source");
                None
            }
        }
    }

    fn zip(&mut self, a: Pipe, b: Pipe, k: usize, pre: &mut Vec<TokenStream>) -> Option<Pipe> {
        let (Ok((la, ia, pa)), Ok((lb, ib, pb))) = (self.idx(a, k, pre)?, self.idx(b, k, pre)?) else {
            self.no("zip after a non-indexable adapter");
            return None;
        };
        let len = match (la, lb) {
            (Some(a), Some(b)) => {
                let id = format_ident(&format!("vz_{k}_{}", pre.len()));
                pre.push(quote!(let #id: usize = vx_min(#a, #b);));
                Some(quote!(#id))
            }
            (Some(a), None) => Some(a),
            (None, b) => b,
        };
        Some(Pipe::Idx {
            len,
            item: Box::new(move |i| {
                let (x, y) = (ia(i.clone()), ib(i));
                quote!((#x, #y))
            }),
            place: pa || pb,
        })
    }

    #[allow(clippy::type_complexity)]
    fn idx(&mut self, p: Pipe, k: usize, pre: &mut Vec<TokenStream>) -> Option<std::result::Result<(Option<TokenStream>, ItemFn, bool), Pipe>> {
        Some(match p {
            Pipe::Idx { len, item, place } => Ok((len, item, place)),
            Pipe::Range { lo, hi, incl } => {
                let (a, b) = (format_ident(&format!("vlo_{k}_{}", pre.len())), format_ident(&format!("vhi_{k}_{}", pre.len())));
                let zero = lo.to_token_stream().to_string() == "0";
                if zero && !incl {
                    pre.push(quote!(let #b: usize = #hi;));
                    return Some(Ok((Some(quote!(#b)), Box::new(|i| i), false)));
                }
                pre.push(quote!(let #a = #lo; let #b = #hi;));
                let l = if incl { quote!((if #a <= #b { (#b - #a) as usize + 1 } else { 0 })) } else { quote!((if #a <= #b { (#b - #a) as usize } else { 0 })) };
                if self.hint("range_u64", "all") {
                    Ok((Some(l), Box::new(move |i| quote!((#a + (#i) as u64))), false))
                } else {
                    Ok((Some(l), Box::new(move |i| quote!((#a + #i))), false))
                }
            }
            Pipe::Map(q, c) => match self.idx(*q, k, pre)? {
                Ok((len, item, _)) => {
                    let pat = c.inputs[0].clone();
                    let body = c.body.clone();
                    Ok((
                        len,
                        Box::new(move |i| {
                            let b = bind(&pat, item(i));
                            quote!({ #b #body })
                        }),
                        false,
                    ))
                }
                Err(q) => Err(Pipe::Map(Box::new(q), c)),
            },
            p => Err(p),
        })
    }

    /// Statements that run `k(item)` for every item.
    fn drive(&mut self, p: Pipe, id: usize, pre: &mut Vec<TokenStream>, stop: &TokenStream, k: &mut dyn FnMut(&mut Self, TokenStream, bool) -> TokenStream) -> TokenStream {
        let (vi, vn) = (format_ident(&format!("vi_{id}")), format_ident(&format!("vn_{id}")));
        let vj = format_ident(&format!("vj_{id}"));
        let lit = proc_macro2::Literal::usize_unsuffixed(id);
        match p {
            Pipe::Range { lo, hi, incl } => {
                let body = k(self, quote!(#vj), false);
                let pres = std::mem::take(pre);
                let cmp = if incl { quote!(#vi <= #vn) } else { quote!(#vi < #vn) };
                quote!(#(#pres)* let mut #vi = #lo; let #vn = #hi; VXBEFORE!(#lit); while #stop #cmp { VXLOOP!(#lit); let #vj = #vi; #vi = #vi + 1; #body VXEND!(#lit); } VXAFTER!(#lit);)
            }
            Pipe::Idx { len, item, place } => {
                let Some(len) = len else {
                    self.no("endless iterator");
                    return quote!();
                };
                let body = k(self, item(quote!(#vj)), place);
                let pres = std::mem::take(pre);
                quote!(#(#pres)* let #vn: usize = #len; let mut #vi: usize = 0; VXBEFORE!(#lit); while #stop #vi < #vn { VXLOOP!(#lit); let #vj = #vi; #vi = #vi + 1; #body VXEND!(#lit); } VXAFTER!(#lit);)
            }
            Pipe::Succ(init, c, n) => {
                let st = format_ident(&format!("vs_{id}"));
                let b = bind_as(&c.inputs[0], quote!(&#st), "successors");
                let body0 = k(self, quote!(#st.clone()), false);
                let cb = c.body.clone();
                let pres = std::mem::take(pre);
                quote!(#(#pres)* let #vn: usize = #n; let mut #vi: usize = 0; let mut #st = (#init).unwrap(); VXBEFORE!(#lit); while #stop #vi < #vn { VXLOOP!(#lit); #vi = #vi + 1; #body0 #st = ({ #b #cb }).unwrap(); VXEND!(#lit); } VXAFTER!(#lit);)
            }
            Pipe::Map(q, c) => {
                let pat = c.inputs[0].clone();
                let cb = c.body.clone();
                let mut f = |s: &mut Self, it: TokenStream, pl: bool| {
                    let (b, cb) = if pl { bind_place(&pat, it, &cb) } else { (bind(&pat, it), (*cb).clone()) };
                    // a block body is spliced so that its value is the item
                    if matches!(&cb, Expr::Block(_) | Expr::Match(_) | Expr::If(_)) {
                        let vt = format_ident(&format!("vv_{id}"));
                        let rest = k(s, quote!(#vt), false);
                        quote!(#b let #vt = #cb; #rest)
                    } else {
                        let rest = k(s, cb.to_token_stream(), false);
                        quote!(#b #rest)
                    }
                };
                self.drive(*q, id, pre, stop, &mut f)
            }
            Pipe::Filter(q, c) => {
                let pat = c.inputs[0].clone();
                let cb = c.body.clone();
                let mut f = |s: &mut Self, it: TokenStream, _pl: bool| {
                    let vt = format_ident(&format!("vf_{id}"));
                    let b = bind(&pat, quote!(&#vt));
                    let rest = k(s, quote!(#vt), false);
                    quote!(let #vt = #it; if ({ #b #cb }) { #rest })
                };
                self.drive(*q, id, pre, stop, &mut f)
            }
            Pipe::Unique(q, c) => {
                // keeps the items whose key was not among the keys of the items before
                let (pat, cb) = (c.inputs[0].clone(), c.body.clone());
                let vu = format_ident(&format!("vu_{id}"));
                pre.push(quote!(let mut #vu = Vec::new();));
                let mut f = |s: &mut Self, it: TokenStream, _pl: bool| {
                    let (vt, vk) = (format_ident(&format!("vq_{id}")), format_ident(&format!("vk_{id}")));
                    let b = bind(&pat, quote!(&#vt));
                    let rest = k(s, quote!(#vt), false);
                    quote!(let #vt = #it; let #vk = { #b #cb }; if !vx_has(&#vu, &#vk) { #vu.push(#vk); #rest })
                };
                self.drive(*q, id, pre, stop, &mut f)
            }
            Pipe::FilterMap(q, c) => {
                let pat = c.inputs[0].clone();
                let cb = c.body.clone();
                let mut f = |s: &mut Self, it: TokenStream, _pl: bool| {
                    let b = bind(&pat, it);
                    let rest = k(s, quote!(vx_it), false);
                    quote!(#b match #cb { Some(vx_it) => { #rest } None => {} })
                };
                self.drive(*q, id, pre, stop, &mut f)
            }
            Pipe::Scan(q, init, c) => {
                let st = format_ident(&format!("vs_{id}"));
                let name = match &c.inputs[0] {
                    Pat::Ident(i) => i.ident.to_string(),
                    _ => {
                        self.no("scan state pattern");
                        String::new()
                    }
                };
                let pat = c.inputs[1].clone();
                let mut cb = (*c.body).clone();
                Subst { name, to: parse_quote!(#st) }.visit_expr_mut(&mut cb);
                // tail must be Some(v)
                let (stmts, tail) = match &cb {
                    Expr::Block(b) => {
                        let n = b.block.stmts.len();
                        let tail = match b.block.stmts.last() {
                            Some(Stmt::Expr(e, None)) => e.clone(),
                            _ => parse_quote!(()),
                        };
                        (b.block.stmts[..n.saturating_sub(1)].to_vec(), tail)
                    }
                    e => (vec![], e.clone()),
                };
                let v = match &tail {
                    Expr::Call(c) if path_name(&c.func).as_deref() == Some("Some") => c.args[0].clone(),
                    _ => {
                        self.no("scan closure does not end in Some(..)");
                        parse_quote!(())
                    }
                };
                let mut f = |s: &mut Self, it: TokenStream, _pl: bool| {
                    let b = bind(&pat, it);
                    let rest = k(s, v.to_token_stream(), false);
                    quote!(#b #(#stmts)* #rest)
                };
                pre.push(quote!(let mut #st = #init;));
                self.drive(*q, id, pre, stop, &mut f)
            }
            Pipe::FlatMap(q, c) => {
                let inner_id = self.new_loop();
                let mut f = |s: &mut Self, it: TokenStream, _pl: bool| {
                    let (b, e): (TokenStream, Expr) = match &c {
                        Some(c) => (bind(&c.inputs[0], it), (*c.body).clone()),
                        None => {
                            let e: Expr = parse2(it).unwrap();
                            (quote!(), e)
                        }
                    };
                    let mut ipre = vec![];
                    let e = match &e {
                        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                            Stmt::Expr(x, None) => x.clone(),
                            _ => e.clone(),
                        },
                        _ => e,
                    };
                    let Some(ip) = s.iterable(&e, inner_id, &mut ipre) else { return quote!() };
                    let inner = s.drive(ip, inner_id, &mut ipre, stop, k);
                    quote!(#b #inner)
                };
                self.drive(*q, id, pre, stop, &mut f)
            }
            Pipe::Chain(a, b) => {
                let second = self.new_loop();
                let x = self.drive(*a, id, pre, stop, k);
                let y = self.drive(*b, second, pre, stop, k);
                quote!(#x #y)
            }
        }
    }

    fn terminal(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        if !TERMINALS.contains(&n.as_str()) || !self.is_chain(&m.receiver) {
            return None;
        }
        let id = self.new_loop();
        let mut pre = vec![];
        // max/min/last/count over a plain sequence
        if n == "last" || n == "max" || n == "min" {
            if let Expr::MethodCall(r) = strip(&m.receiver) {
                if r.method == "iter" {
                    self.loops -= 1;
                    let x = &r.receiver;
                    let f = format_ident(&format!("vx_{n}"));
                    return Some(parse_quote!(#f(&#x)));
                }
            }
        }
        let p = self.chain(&m.receiver, id, &mut pre)?;
        let (vo, va) = (format_ident(&format!("vo_{id}")), format_ident(&format!("va_{id}")));
        let no = quote!();
        let ts = match n.as_str() {
            "collect" => {
                let turbo = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
                if turbo.contains("Result<") || self.hint_loop("collect_result", id) {
                    let ve = format_ident(&format!("ve_{id}"));
                    let stop = quote!(#ve.is_none() &&);
                    let t = self.drive(p, id, &mut pre, &stop, &mut |_, it, _| quote!(match #it { Ok(vx_ok) => { #vo.push(vx_ok); } Err(vx_er) => { #ve = Some(vx_er); } }));
                    quote!({ let mut #vo = Vec::new(); let mut #ve = None; #t match #ve { None => Ok(#vo), Some(vx_er) => Err(vx_er) } })
                } else if turbo.contains("HashMap") || self.hint_loop("collect_map", id) {
                    let t = self.drive(p, id, &mut pre, &no, &mut |_, it, _| quote!(let vx_kv = #it; #vo.insert(vx_kv.0, vx_kv.1);));
                    quote!({ let mut #vo = VxMap::new(); #t #vo })
                } else {
                    let t = self.drive(p, id, &mut pre, &no, &mut |_, it, _| quote!(#vo.push(#it);));
                    quote!({ let mut #vo = Vec::new(); #t #vo })
                }
            }
            "unzip" => {
                let (v0, v1) = (format_ident(&format!("vo_{id}_0")), format_ident(&format!("vo_{id}_1")));
                let t = self.drive(p, id, &mut pre, &no, &mut |_, it, _| {
                    if let Ok(Expr::Tuple(t)) = parse2::<Expr>(it.clone()) {
                        let (a, b) = (&t.elems[0], &t.elems[1]);
                        quote!(#v0.push(#a); #v1.push(#b);)
                    } else if let Some(place) = match parse2::<Expr>(it.clone()) {
                        // the clone of an element of a consumed vector: clone the halves instead
                        Ok(Expr::MethodCall(c)) if c.method == "clone" && c.args.is_empty() && matches!(&*c.receiver, Expr::Index(_)) => Some(c.receiver.clone()),
                        _ => None,
                    } {
                        quote!(let vx_pair = &#place; #v0.push(vx_pair.0.clone()); #v1.push(vx_pair.1.clone());)
                    } else {
                        quote!(let vx_pair = #it; #v0.push(vx_pair.0); #v1.push(vx_pair.1);)
                    }
                });
                quote!({ let mut #v0 = Vec::new(); let mut #v1 = Vec::new(); #t (#v0, #v1) })
            }
            "fold" => {
                let init = &m.args[0];
                let c = self.closure(&m.args[1])?;
                let (pa, pi, cb) = (c.inputs[0].clone(), c.inputs[1].clone(), c.body.clone());
                let t = self.drive(p, id, &mut pre, &no, &mut |_, it, _| {
                    let b = bind(&pi, it);
                    let a = bind(&pa, quote!(#va));
                    quote!(#b #a #va = #cb;)
                });
                quote!({ let mut #va = #init; #t #va })
            }
            "sum" | "product" => {
                let (z, op) = if n == "sum" { (quote!(0), quote!(+)) } else { (quote!(1), quote!(*)) };
                let z = if self.hint_loop("sum_fe", id) { if n == "sum" { quote!(FE::zero()) } else { quote!(FE::one()) } } else { z };
                let t = self.drive(p, id, &mut pre, &no, &mut |_, it, _| quote!(#va = #va #op (#it);));
                quote!({ let mut #va = #z; #t #va })
            }
            "all" | "any" => {
                let c = self.closure(&m.args[0])?;
                let (pi, cb) = (c.inputs[0].clone(), c.body.clone());
                let (init, stop) = if n == "all" { (quote!(true), quote!(#va &&)) } else { (quote!(false), quote!(!#va &&)) };
                let t = self.drive(p, id, &mut pre, &stop, &mut |_, it, _| {
                    let b = bind(&pi, it);
                    quote!(#va = ({ #b #cb });)
                });
                quote!({ let mut #va: bool = #init; #t #va })
            }
            "for_each" => {
                let c = self.closure(&m.args[0])?;
                let (pi, cb) = (c.inputs[0].clone(), c.body.clone());
                let t = self.drive(p, id, &mut pre, &no, &mut |_, it, pl| {
                    let (b, cb) = if pl { bind_place(&pi, it, &cb) } else { (bind(&pi, it), (*cb).clone()) };
                    quote!(#b #cb;)
                });
                quote!({ #t })
            }
            "find" => {
                let c = self.closure(&m.args[0])?;
                let (pi, cb) = (c.inputs[0].clone(), c.body.clone());
                let stop = quote!(#va.is_none() &&);
                let t = self.drive(p, id, &mut pre, &stop, &mut |_, it, _| {
                    let vt = format_ident(&format!("vf_{id}"));
                    let b = bind(&pi, quote!(&#vt));
                    quote!(let #vt = #it; if ({ #b #cb }) { #va = Some(#vt); })
                });
                quote!({ let mut #va = None; #t #va })
            }
            "position" => {
                let c = self.closure(&m.args[0])?;
                let (pi, cb) = (c.inputs[0].clone(), c.body.clone());
                let stop = quote!(#va.is_none() &&);
                let vj = format_ident(&format!("vj_{id}"));
                let t = self.drive(p, id, &mut pre, &stop, &mut |_, it, _| {
                    let b = bind(&pi, it);
                    quote!(if ({ #b #cb }) { #va = Some(#vj); })
                });
                quote!({ let mut #va = None; #t #va })
            }
            "count" => {
                let t = self.drive(p, id, &mut pre, &no, &mut |_, _it, _| quote!(#va = #va + 1;));
                quote!({ let mut #va: usize = 0; #t #va })
            }
            "last" => {
                let t = self.drive(p, id, &mut pre, &no, &mut |_, it, _| quote!(#va = Some(#it);));
                quote!({ let mut #va = None; #t #va })
            }
            "max" | "min" => {
                let f = format_ident(&format!("vx_opt_{n}"));
                let t = self.drive(p, id, &mut pre, &no, &mut |_, it, _| quote!(#va = #f(#va, #it);));
                quote!({ let mut #va = None; #t #va })
            }
            _ => return None,
        };
        match parse2::<Expr>(ts.clone()) {
            Ok(e) => Some(e),
            Err(er) => {
                self.no(format!("internal: {er}: {ts}"));
                None
            }
        }
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Option<Expr> {
        let id = self.new_loop();
        let mut pre = vec![];
        let p = self.iterable(&f.expr, id, &mut pre)?;
        let pat = (*f.pat).clone();
        let body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: f.body.clone() });
        let ts = self.drive(p, id, &mut pre, &quote!(), &mut |_, it, pl| {
            let (b, cb) = if pl { bind_place(&pat, it, &body) } else { (bind(&pat, it), body.clone()) };
            let stmts = match &cb {
                Expr::Block(b) => b.block.stmts.clone(),
                e => vec![Stmt::Expr(e.clone(), None)],
            };
            let mut stmts = stmts;
            // a trailing `if`/`match`/`for` without semicolon stays a statement
            if let Some(Stmt::Expr(_, semi)) = stmts.last_mut() {
                if semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
            quote!(#b #(#stmts)*)
        });
        match parse2::<Expr>(quote!({ #ts })) {
            Ok(e) => Some(e),
            Err(er) => {
                self.no(format!("internal: {er}: {ts}"));
                None
            }
        }
    }

    fn panic_call(&self) -> Expr {
        if self.opts["panic"] == "refuse" {
            parse_quote!(vx_refuse())
        } else {
            parse_quote!(vx_panic())
        }
    }

    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        match n.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(self.panic_call()),
            "vec" => {
                let ts = m.tokens.clone();
                if let Ok(r) = parse2::<ExprRepeat>(quote!([#ts])) {
                    let (e, l) = (&r.expr, &r.len);
                    return Some(parse_quote!(vx_vec_from_elem(#e, #l)));
                }
                let a: ExprArray = parse2(quote!([#ts])).ok()?;
                let es = a.elems.iter();
                if a.elems.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                Some(parse_quote!({ let mut vx_v = Vec::new(); #(vx_v.push(#es);)* vx_v }))
            }
            "assert" => {
                let args: Vec<Expr> = parse_args(&m.tokens)?;
                let c = &args[0];
                let p = self.panic_call();
                Some(parse_quote!(if !(#c) { #p }))
            }
            "assert_eq" => {
                let args: Vec<Expr> = parse_args(&m.tokens)?;
                let (a, b) = (&args[0], &args[1]);
                let p = self.panic_call();
                Some(parse_quote!(if !((#a) == (#b)) { #p }))
            }
            "assert_ne" => {
                let args: Vec<Expr> = parse_args(&m.tokens)?;
                let (a, b) = (&args[0], &args[1]);
                let p = self.panic_call();
                Some(parse_quote!(if (#a) == (#b) { #p }))
            }
            "matches" => {
                let ts = m.tokens.to_string();
                // matches!(expr, pat [if guard])
                let mut depth = 0i32;
                let mut cut = None;
                for (i, c) in ts.char_indices() {
                    match c {
                        '(' | '[' | '{' => depth += 1,
                        ')' | ']' | '}' => depth -= 1,
                        ',' if depth == 0 => {
                            cut = Some(i);
                            break;
                        }
                        _ => {}
                    }
                }
                let c = cut?;
                let e: Expr = parse_str(&ts[..c]).ok()?;
                let arm: Arm = parse_str(&format!("{} => true,", ts[c + 1..].trim().trim_end_matches(','))).ok()?;
                Some(parse_quote!(match #e { #arm _ => false }))
            }
            _ => None,
        }
    }
}

fn parse_args(ts: &TokenStream) -> Option<Vec<Expr>> {
    use syn::parse::Parser;
    let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
    p.parse2(ts.clone()).ok().map(|x| x.into_iter().collect())
}

fn bind_as(pat: &Pat, it: TokenStream, _why: &str) -> TokenStream {
    bind(pat, it)
}

fn bind(pat: &Pat, it: TokenStream) -> TokenStream {
    match pat {
        Pat::Type(t) => bind(&t.pat, it),
        Pat::Paren(p) => bind(&p.pat, it),
        Pat::Wild(_) => quote!(),
        Pat::Tuple(t) => {
            if let Ok(Expr::Tuple(x)) = parse2::<Expr>(it.clone()) {
                if x.elems.len() == t.elems.len() {
                    let parts: Vec<_> = t.elems.iter().zip(&x.elems).map(|(p, e)| bind(p, e.to_token_stream())).collect();
                    return quote!(#(#parts)*);
                }
            }
            quote!(let #pat = #it;)
        }
        Pat::Reference(r) => match parse2::<Expr>(it.clone()) {
            Ok(Expr::Reference(x)) => bind(&r.pat, x.expr.to_token_stream()),
            _ => bind(&r.pat, quote!(*(#it))),
        },
        _ => quote!(let #pat = #it;),
    }
}

/// The item is a place (iter_mut): the closure parameter stands for that place.
fn bind_place(pat: &Pat, it: TokenStream, body: &Expr) -> (TokenStream, Expr) {
    let mut body = body.clone();
    fn go(pat: &Pat, it: TokenStream, body: &mut Expr, pre: &mut Vec<TokenStream>) {
        match pat {
            Pat::Tuple(t) => {
                if let Ok(Expr::Tuple(x)) = parse2::<Expr>(it.clone()) {
                    for (p, e) in t.elems.iter().zip(&x.elems) {
                        go(p, e.to_token_stream(), body, pre)
                    }
                    return;
                }
                pre.push(bind(pat, it))
            }
            Pat::Ident(i) if matches!(parse2::<Expr>(it.clone()), Ok(Expr::Index(_))) => {
                let to: Expr = parse2(it).unwrap();
                Subst { name: i.ident.to_string(), to }.visit_expr_mut(body);
            }
            _ => pre.push(bind(pat, it)),
        }
    }
    let mut pre = vec![];
    go(pat, it, &mut body, &mut pre);
    (quote!(#(#pre)*), body)
}

const DROP_MACROS: &[&str] = &["println", "print", "eprintln", "debug_assert", "debug_assert_eq", "debug_assert_ne", "info", "debug", "trace", "warn", "error", "log"];

fn has_marker(b: &Block) -> bool {
    match b.stmts.first() {
        Some(Stmt::Macro(m)) => m.mac.path.is_ident("VXLOOP"),
        _ => false,
    }
}

impl VisitMut for Rw<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        let text = old.iter().map(|s| s.to_token_stream().to_string()).collect::<Vec<_>>().join(" ");
        let total = old.len();
        for (k, mut s) in old.into_iter().enumerate() {
            match &mut s {
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if n.starts_with("VX") {
                        out.push(s);
                        continue;
                    }
                    if DROP_MACROS.contains(&n.as_str()) {
                        continue;
                    }
                    if !cfg_on(&m.attrs) {
                        continue;
                    }
                    let semi = m.semi_token;
                    match self.macro_expr(&m.mac.clone()) {
                        Some(mut e) => {
                            self.visit_expr_mut(&mut e);
                            out.push(Stmt::Expr(e, semi));
                        }
                        None => self.no(format!("macro {n}!")),
                    }
                }
                Stmt::Local(l) => {
                    if !cfg_on(&l.attrs) {
                        continue;
                    }
                    l.attrs.clear();
                    // iterator or closure bound to a name
                    if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                        let name = i.ident.to_string();
                        let e = strip(&init.expr).clone();
                        if matches!(e, Expr::Closure(_)) {
                            self.iters.insert(format!("fn {name}"), e);
                            continue;
                        }
                        let ranged = matches!(e, Expr::Range(_)) && ["map", "zip", "fold", "for_each", "into_iter", "flat_map", "filter"].iter().any(|m| text.contains(&format!("{name} . {m} (")));
                        if self.is_chain(&e) && (ranged || matches!(e, Expr::MethodCall(_) | Expr::Call(_))) {
                            if text.contains(&format!("{name} . next ()")) {
                                if let Expr::MethodCall(mc) = &e {
                                    if mc.method == "iter" {
                                        let r = &mc.receiver;
                                        let id = &i.ident;
                                        let mut st: Stmt = parse_quote!(let mut #id = VxIter::new(&#r););
                                        visit_mut::visit_stmt_mut(self, &mut st);
                                        out.push(st);
                                        continue;
                                    }
                                }
                            } else {
                                self.iters.insert(name, e);
                                continue;
                            }
                        }
                        self.iters.remove(&name);
                        self.iters.remove(&format!("fn {name}"));
                    }
                    // a name declared without value that an iterator is assigned to later
                    if let (Pat::Ident(i), None) = (&l.pat, &l.init) {
                        let name = i.ident.to_string();
                        let probe = format!("{name} = ");
                        let later: Vec<String> = text.match_indices(&probe).map(|(k, _)| text[k + probe.len()..].chars().take(200).collect()).collect();
                        if later.iter().any(|t| t.contains(" .. ") && t.find(" .. ") < t.find(';') || t.contains(". iter ()") && t.find(". iter ()") < t.find(';')) {
                            self.deferred.push(name);
                            continue;
                        }
                    }
                    // let-else
                    if let Some(init) = &mut l.init {
                        if let Some((_, els)) = init.diverge.take() {
                            let pat = &l.pat;
                            let e = &init.expr;
                            // single binding inside
                            let mut names = vec![];
                            collect_idents(pat, &mut names);
                            let els = &els;
                            let mut st: Stmt = if names.len() == 1 {
                                let n = &names[0];
                                parse_quote!(let #n = match #e { #pat => #n, _ => #els };)
                            } else {
                                parse_quote!(let (#(#names),*) = match #e { #pat => (#(#names),*), _ => #els };)
                            };
                            visit_mut::visit_stmt_mut(self, &mut st);
                            if let Stmt::Local(l) = &mut st {
                                if let Some(i) = &mut l.init {
                                    let _ = i;
                                }
                            }
                            out.push(st);
                            for n in names {
                                out.push(parse_quote!(VXLET!(#n);));
                            }
                            continue;
                        }
                    }
                    // let [a, b] = array
                    if let (Pat::Slice(ps), Some(init)) = (&l.pat, &l.init) {
                        if ps.elems.iter().all(|x| matches!(x, Pat::Ident(_))) {
                            let id = format_ident(&format!("vx_arr{}", self.calls.len()));
                            self.calls.push("array".into());
                            let e = &init.expr;
                            let mut st: Stmt = parse_quote!(let #id = #e;);
                            visit_mut::visit_stmt_mut(self, &mut st);
                            out.push(st);
                            for (i, x) in ps.elems.iter().enumerate() {
                                out.push(parse_quote!(let #x = #id[#i];));
                            }
                            for x in ps.elems.iter() {
                                if let Pat::Ident(x) = x {
                                    let n = &x.ident;
                                    out.push(parse_quote!(VXLET!(#n);));
                                }
                            }
                            continue;
                        }
                    }
                    visit_mut::visit_local_mut(self, l);
                    let mut names = vec![];
                    collect_idents(&l.pat, &mut names);
                    out.append(&mut self.stash);
                    out.push(s);
                    for n in names {
                        if !internal(&n) {
                            out.push(parse_quote!(VXLET!(#n);));
                        }
                    }
                }
                Stmt::Item(syn::Item::Use(_)) => {}
                Stmt::Item(syn::Item::Const(c)) => {
                    crate::ty::fix_type(&mut c.ty, self.cfg, self.assoc);
                    let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                    out.push(parse_quote!(let #n: #t = #e;));
                }
                Stmt::Item(_) => self.no("nested item"),
                Stmt::Expr(e, _) => {
                    if let Expr::Block(x) = e {
                        if !cfg_on(&x.attrs) {
                            continue;
                        }
                        x.attrs.clear();
                    }
                    let attrs = match e {
                        Expr::Call(x) => Some(&mut x.attrs),
                        Expr::MethodCall(x) => Some(&mut x.attrs),
                        Expr::Assign(x) => Some(&mut x.attrs),
                        Expr::If(x) => Some(&mut x.attrs),
                        _ => None,
                    };
                    if let Some(a) = attrs {
                        if !cfg_on(a) {
                            continue;
                        }
                        a.clear();
                    }
                    // an iterator assigned to a name declared without value
                    if let Expr::Assign(a) = &*e {
                        if let Some(n) = ident_of(&a.left) {
                            if self.deferred.contains(&n) {
                                let r = strip(&a.right).clone();
                                if !self.is_chain(&r) {
                                    self.no("deferred initialisation");
                                }
                                self.iters.insert(n, r);
                                continue;
                            }
                        }
                    }
                    // a name for the statement, so that an annotation can follow it
                    let name = match &*e {
                        Expr::Call(c) => match &*c.func {
                            Expr::Path(p) => p.path.segments.last().map(|x| x.ident.to_string()),
                            _ => None,
                        },
                        Expr::MethodCall(m) => Some(m.method.to_string()),
                        Expr::If(_) => Some("if_".into()),
                        _ => None,
                    };
                    self.visit_expr_mut(e);
                    out.append(&mut self.stash);
                    let inner = !matches!(&s, Stmt::Expr(_, None)) || k + 1 < total;
                    out.push(s);
                    if let (Some(n), true) = (name, inner) {
                        let n = format_ident(&n);
                        out.push(parse_quote!(VXSTMT!(#n);));
                    }
                }
            }
        }
        b.stmts = out;
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        crate::ty::fix_type(t, self.cfg, self.assoc)
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        let fx = TyFix { cfg: self.cfg, assoc: self.assoc };
        match p {
            Pat::TupleStruct(t) => fx.fix_path(&mut t.path, false),
            Pat::Struct(t) => fx.fix_path(&mut t.path, true),
            Pat::Path(t) => fx.fix_path(&mut t.path, false),
            _ => {}
        }
        visit_mut::visit_pat_mut(self, p)
    }

    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}

    fn visit_macro_mut(&mut self, _: &mut Macro) {}

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // closure bound to a name, called
        if let Expr::Call(c) = e {
            if let Some(n) = ident_of(&c.func) {
                if let Some(Expr::Closure(cl)) = self.iters.get(&format!("fn {n}")).cloned() {
                    let bs: Vec<_> = cl.inputs.iter().zip(&c.args).map(|(p, a)| {
                        if let Pat::Type(t) = p {
                            let (pp, ty) = (&t.pat, &t.ty);
                            quote!(let #pp: #ty = #a;)
                        } else {
                            bind(p, a.to_token_stream())
                        }
                    }).collect();
                    let b = &cl.body;
                    *e = parse_quote!({ #(#bs)* #b });
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        // (a, b) = v;
        if let Expr::Assign(asg) = e {
            if let Expr::Tuple(t) = strip(&asg.left).clone() {
                let v = &asg.right;
                let sets: Vec<_> = t.elems.iter().enumerate().filter(|(_, x)| !matches!(x, Expr::Infer(_))).map(|(i, x)| { let k = Index::from(i); quote!(#x = vx_parts.#k;) }).collect();
                *e = parse_quote!({ let vx_parts = #v; #(#sets)* });
                self.visit_expr_mut(e);
                return;
            }
        }
        match e {
            Expr::Macro(m) => match self.macro_expr(&m.mac.clone()) {
                Some(x) => {
                    *e = x;
                    self.visit_expr_mut(e);
                    return;
                }
                None => {
                    let n = m.mac.path.to_token_stream().to_string();
                    if n == "format" {
                        *e = parse_quote!(vx_string());
                        return;
                    }
                    if !n.starts_with("VX") {
                        self.no(format!("macro {n}!"))
                    }
                    return;
                }
            },
            Expr::ForLoop(f) => {
                let f = f.clone();
                if let Some(x) = self.for_loop(&f) {
                    *e = x;
                    visit_mut::visit_expr_mut(self, e);
                } else {
                    self.no("for loop");
                }
                return;
            }
            Expr::While(w) => {
                if !has_marker(&w.body) {
                    let id = self.new_loop();
                    let lit = proc_macro2::Literal::usize_unsuffixed(id);
                    w.body.stmts.insert(0, parse_quote!(VXLOOP!(#lit);));
                    w.body.stmts.push(parse_quote!(VXEND!(#lit);));
                    if let Expr::Let(_) = strip(&w.cond) {
                        self.no("while let");
                    }
                }
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::Loop(l) => {
                if !has_marker(&l.body) {
                    let id = self.new_loop();
                    let lit = proc_macro2::Literal::usize_unsuffixed(id);
                    l.body.stmts.insert(0, parse_quote!(VXLOOP!(#lit);));
                    l.body.stmts.push(parse_quote!(VXEND!(#lit);));
                }
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::MethodCall(m) => {
                let m2 = m.clone();
                if let Some(x) = self.terminal(&m2) {
                    *e = x;
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
                let n = m.method.to_string();
                let recv = m.receiver.clone();
                if matches!(m.args.first().map(strip), Some(Expr::Closure(_)) | Some(Expr::Path(_))) || (n == "map_or" && matches!(m.args.last().map(strip), Some(Expr::Closure(_)))) {
                    let is_path = matches!(m.args.first().map(strip), Some(Expr::Path(_)));
                    if matches!(n.as_str(), "map" | "map_err" | "and_then" | "unwrap_or_else" | "ok_or_else" | "is_some_and" | "or_else" | "map_or") && !(is_path && n == "map_or") {
                        let cl = self.closure(&m.args[if n == "map_or" { 1 } else { 0 }].clone());
                        if let Some(c) = cl {
                            let body = c.body.clone();
                            let res = self.hint("result", &n);
                            let pat = c.inputs.first().cloned();
                            let x: Option<Expr> = match (n.as_str(), res) {
                                ("map_err", _) => {
                                    let p = pat.unwrap();
                                    Some(parse_quote!(match #recv { Ok(vx_ok) => Ok(vx_ok), Err(#p) => Err(#body) }))
                                }
                                ("map", false) => {
                                    let p = pat.unwrap();
                                    Some(parse_quote!(match #recv { Some(#p) => Some(#body), None => None }))
                                }
                                ("map", true) => {
                                    let p = pat.unwrap();
                                    Some(parse_quote!(match #recv { Ok(#p) => Ok(#body), Err(vx_er) => Err(vx_er) }))
                                }
                                ("and_then", false) => {
                                    let p = pat.unwrap();
                                    Some(parse_quote!(match #recv { Some(#p) => #body, None => None }))
                                }
                                ("and_then", true) => {
                                    let p = pat.unwrap();
                                    Some(parse_quote!(match #recv { Ok(#p) => #body, Err(vx_er) => Err(vx_er) }))
                                }
                                ("map_or", false) => {
                                    let (p, d) = (pat.unwrap(), &m.args[0]);
                                    Some(parse_quote!(match #recv { Some(#p) => #body, None => #d }))
                                }
                                ("is_some_and", _) => {
                                    let p = pat.unwrap();
                                    Some(parse_quote!(match #recv { Some(#p) => #body, None => false }))
                                }
                                ("unwrap_or_else", false) => Some(parse_quote!(match #recv { Some(vx_v) => vx_v, None => #body })),
                                ("ok_or_else", _) => Some(parse_quote!(match #recv { Some(vx_v) => Ok(vx_v), None => Err(#body) })),
                                _ => None,
                            };
                            if let Some(x) = x {
                                *e = x;
                                self.visit_expr_mut(e);
                                return;
                            }
                        }
                    }
                }
                if n == "copy_from_slice" || n == "clone_from_slice" {
                    if let Expr::Index(ix) = strip(&recv) {
                        if let Expr::Range(r) = strip(&ix.index) {
                            let (x, a) = (&ix.expr, &m.args[0]);
                            let lo = r.start.clone().unwrap_or(parse_quote!(0));
                            *e = match r.end.clone() {
                                Some(hi) => parse_quote!(vx_copy_range(&mut #x, #lo, #hi, #a)),
                                None => parse_quote!(vx_copy_from(&mut #x, #lo, #a)),
                            };
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                if n == "ok_or" {
                    let a = &m.args[0];
                    *e = parse_quote!(match #recv { Some(vx_v) => Ok(vx_v), None => Err(#a) });
                    self.visit_expr_mut(e);
                    return;
                }
                if n == "splice" {
                    if let Expr::Range(r) = strip(&m.args[0]) {
                        let lo = r.start.as_ref().map(|x| quote!(#x)).unwrap_or(quote!(0));
                        let it = &m.args[1];
                        *e = match r.end.as_ref() {
                            Some(hi) => parse_quote!(vx_splice(&mut #recv, #lo, #hi, #it)),
                            None => parse_quote!(vx_splice_from(&mut #recv, #lo, #it)),
                        };
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                if n == "unwrap_or" {
                    let a = &m.args[0];
                    *e = if self.hint("result", "unwrap_or") {
                        parse_quote!(match #recv { Ok(vx_v) => vx_v, Err(_) => #a })
                    } else if matches!(strip(a), Expr::Reference(r) if matches!(strip(&r.expr), Expr::Call(_))) {
                        parse_quote!(vx_some_or(#recv, #a))
                    } else {
                        parse_quote!(match #recv { Some(vx_v) => vx_v, None => #a })
                    };
                    self.visit_expr_mut(e);
                    return;
                }
                if n == "unwrap" || n == "expect" {
                    m.method = format_ident(if self.opts["panic"] == "refuse" { "vx_unwrap_or_refuse" } else { "unwrap" });
                    m.args.clear();
                }
                if n == "get" {
                    if let Some(Expr::Range(r)) = m.args.first().map(strip) {
                        let (a, b) = (r.start.clone(), r.end.clone());
                        *e = match (a, b) {
                            (Some(a), Some(b)) => parse_quote!(vx_get_range(&#recv, #a, #b)),
                            (Some(a), None) => parse_quote!(vx_get_from(&#recv, #a)),
                            (None, Some(b)) => parse_quote!(vx_get_to(&#recv, #b)),
                            _ => parse_quote!(Some(&#recv)),
                        };
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                if let Expr::MethodCall(m) = e {
                    if m.method == "pow" && matches!(strip(&m.receiver), Expr::Lit(_)) {
                        m.method = format_ident("vx_pow");
                    }
                    if let Some(r) = self.cfg.methods.get(&m.method.to_string()) {
                        if let Some(f) = r.strip_prefix("fn ") {
                            let fi = format_ident(f.trim_end_matches('&').trim_end_matches("&mut "));
                            let recv = m.receiver.clone();
                            let args = m.args.iter().cloned().collect::<Vec<_>>();
                            *e = if f.ends_with("&mut ") {
                                parse_quote!(#fi(&mut #recv #(, #args)*))
                            } else if f.ends_with('&') {
                                parse_quote!(#fi(&#recv #(, #args)*))
                            } else {
                                parse_quote!(#fi(#recv #(, #args)*))
                            };
                            self.visit_expr_mut(e);
                            return;
                        }
                        m.method = format_ident(r);
                    }
                    let drop = m.turbofish.as_ref().map(|t| {
                        let fx = TyFix { cfg: self.cfg, assoc: self.assoc };
                        t.args.iter().all(|a| match a {
                            GenericArgument::Type(t) => fx.is_dropped(t) || matches!(t, Type::Infer(_)) || self.hint("drop_turbofish", "all") || t.to_token_stream().to_string().contains("Backend"),
                            _ => false,
                        })
                    });
                    if drop == Some(true) {
                        m.turbofish = None;
                    }
                }
            }
            Expr::Try(t) => {
                let x = &t.expr;
                *e = if self.ret_option {
                    parse_quote!(match #x { Some(vx_v) => vx_v, None => return None })
                } else if self.opts["try_from"] == true {
                    parse_quote!(match #x { Ok(vx_v) => vx_v, Err(vx_er) => return Err(vx_from(vx_er)) })
                } else {
                    parse_quote!(match #x { Ok(vx_v) => vx_v, Err(vx_er) => return Err(vx_er) })
                };
                self.visit_expr_mut(e);
                return;
            }
            Expr::Binary(b) => {
                let op: Option<BinOp> = match &b.op {
                    BinOp::AddAssign(_) => Some(parse_quote!(+)),
                    BinOp::SubAssign(_) => Some(parse_quote!(-)),
                    BinOp::MulAssign(_) => Some(parse_quote!(*)),
                    BinOp::DivAssign(_) => Some(parse_quote!(/)),
                    BinOp::RemAssign(_) => Some(parse_quote!(%)),
                    BinOp::BitAndAssign(_) => Some(parse_quote!(&)),
                    BinOp::BitOrAssign(_) => Some(parse_quote!(|)),
                    BinOp::BitXorAssign(_) => Some(parse_quote!(^)),
                    BinOp::ShlAssign(_) => Some(parse_quote!(<<)),
                    BinOp::ShrAssign(_) => Some(parse_quote!(>>)),
                    _ => None,
                };
                if let Some(op) = op {
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(#l = #l #op (#r));
                    self.visit_expr_mut(e);
                    return;
                }
                // a comparison of references compares what they point to
                if matches!(b.op, BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)) {
                    if let Expr::Reference(r) = strip(&b.right) {
                        let (l, op, r) = (&b.left, &b.op, &r.expr);
                        *e = match strip(l) {
                            Expr::Reference(l) => { let l = &l.expr; parse_quote!((#l) #op (#r)) }
                            _ => parse_quote!((*(#l)) #op (#r)),
                        };
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                if matches!(b.op, BinOp::BitAnd(_)) && self.opts["bool_and"] == true {
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(vx_and(#l, #r));
                    self.visit_expr_mut(e);
                    return;
                }
            }
            Expr::Reference(r) => {
                if let Expr::Index(ix) = strip(&r.expr) {
                    if let Expr::Range(_) = strip(&ix.index) {
                        let mut inner = Expr::Index(ix.clone());
                        self.visit_expr_mut(&mut inner);
                        *e = inner;
                        return;
                    }
                }
            }
            Expr::Index(ix) => {
                if let Expr::Range(r) = strip(&ix.index) {
                    let x = &ix.expr;
                    let (a, b) = (r.start.clone(), r.end.clone());
                    let incl = matches!(r.limits, RangeLimits::Closed(_));
                    *e = match (a, b) {
                        (Some(a), Some(b)) if !incl => parse_quote!(vx_slice(&#x, #a, #b)),
                        (Some(a), Some(b)) => parse_quote!(vx_slice(&#x, #a, (#b) + 1)),
                        (Some(a), None) => parse_quote!(vx_slice_from(&#x, #a)),
                        (None, Some(b)) => parse_quote!(vx_slice_to(&#x, #b)),
                        _ => parse_quote!(vx_slice_from(&#x, 0)),
                    };
                    self.visit_expr_mut(e);
                    return;
                }
            }
            Expr::Closure(c) if self.closures < self.opts["closures"].as_array().map(|a| a.len()).unwrap_or(0) => {
                let n = self.closures;
                self.closures += 1;
                let mut body = TokenStream::new();
                for (i, p) in c.inputs.iter().enumerate() {
                    let v = format_ident(&format!("vp_{i}"));
                    let it = match p {
                        Pat::Tuple(t) => {
                            let ks = (0..t.elems.len()).map(Index::from);
                            quote!((#(&#v.#ks),*))
                        }
                        _ => quote!(#v),
                    };
                    body.extend(bind(p, it));
                }
                let b = (*c.body).clone();
                let mut blk: Block = parse_quote!({ #body #b });
                self.visit_block_mut(&mut blk);
                let h = format_ident(&format!("VXCLOS_{n}"));
                *e = parse_quote!(|#h| #blk);
                return;
            }
            Expr::Closure(_) => {
                let s = e.to_token_stream().to_string();
                self.no(format!("closure {}", s.chars().take(60).collect::<String>()));
                return;
            }
            Expr::Path(p) => {
                if p.qself.is_some() {
                    // <T as Trait>::f / <T>::f
                    let q = p.qself.clone().unwrap();
                    let l = p.path.segments.last().unwrap().ident.clone();
                    let mut t = (*q.ty).clone();
                    let fx = TyFix { cfg: self.cfg, assoc: self.assoc };
                    if fx.is_dropped(&t) {
                        p.qself = None;
                        p.path = parse_quote!(Fld::#l);
                    } else {
                        crate::ty::fix_type(&mut t, self.cfg, self.assoc);
                        if let Type::Path(tp) = &t {
                            let tid = &tp.path.segments.last().unwrap().ident;
                            p.path = parse_quote!(#tid::#l);
                            p.qself = None;
                        }
                    }
                    return;
                }
                if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                    let fx = TyFix { cfg: self.cfg, assoc: self.assoc };
                    let l = p.path.segments.last_mut().unwrap();
                    if let PathArguments::AngleBracketed(a) = &l.arguments {
                        if a.args.iter().all(|g| matches!(g, GenericArgument::Type(t) if fx.is_dropped(t) || matches!(t, Type::Infer(_)))) {
                            l.arguments = PathArguments::None;
                        }
                    }
                    return;
                }
                let fx = TyFix { cfg: self.cfg, assoc: self.assoc };
                // F::CONST / F::f for an erased field generic
                if p.path.segments.len() >= 2 {
                    let f = p.path.segments[0].ident.to_string();
                    if self.cfg.drop.contains(&f) {
                        let l = p.path.segments.last().unwrap().ident.clone();
                        p.path = parse_quote!(Fld::#l);
                        return;
                    }
                }
                if p.path.segments.len() == 1 {
                    // value or function name: only its generic arguments and explicit path map
                    let id = p.path.segments[0].ident.to_string();
                    if let Some(r) = self.cfg.paths.get(&id) {
                        p.path = parse_str::<Path>(r).unwrap();
                        return;
                    }
                    let saved = self.cfg.rename.contains_key(&id);
                    if !saved {
                        fx.fix_path(&mut p.path, false);
                    }
                    return;
                }
                fx.fix_path(&mut p.path, false);
                return;
            }
            Expr::Struct(s) => {
                let fx = TyFix { cfg: self.cfg, assoc: self.assoc };
                if !s.path.is_ident("Self") {
                    fx.fix_path(&mut s.path, true);
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e)
    }
}

fn collect_idents(p: &Pat, out: &mut Vec<Ident>) {
    match p {
        Pat::Ident(i) => out.push(i.ident.clone()),
        Pat::Tuple(t) => t.elems.iter().for_each(|x| collect_idents(x, out)),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|x| collect_idents(x, out)),
        Pat::Type(t) => collect_idents(&t.pat, out),
        Pat::Reference(t) => collect_idents(&t.pat, out),
        Pat::Paren(t) => collect_idents(&t.pat, out),
        Pat::Struct(s) => s.fields.iter().for_each(|f| collect_idents(&f.pat, out)),
        Pat::Slice(s) => s.elems.iter().for_each(|x| collect_idents(x, out)),
        _ => {}
    }
}

fn internal(n: &Ident) -> bool {
    let s = n.to_string();
    s.starts_with("vx_") || (s.starts_with('v') && s.contains('_') && s.rsplit('_').next().unwrap().chars().all(|c| c.is_ascii_digit()) && s.find('_').unwrap() <= 4)
}
