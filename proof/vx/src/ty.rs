use crate::{format_ident, Cfg};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub const PRIM: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "char", "str"];

pub struct TyFix<'a> {
    pub cfg: &'a Cfg,
    pub assoc: &'a HashMap<String, Type>,
}

pub fn fix_type(t: &mut Type, cfg: &Cfg, assoc: &HashMap<String, Type>) {
    TyFix { cfg, assoc }.visit_type_mut(t)
}

impl TyFix<'_> {
    pub fn is_dropped(&self, t: &Type) -> bool {
        match t {
            Type::Path(p) => {
                let l = p.path.segments.last().unwrap().ident.to_string();
                let first = p.path.segments.first().unwrap().ident.to_string();
                if p.path.segments.len() == 1 {
                    self.cfg.drop.contains(&l)
                } else {
                    (first == "Self" || self.cfg.drop.contains(&first) || self.cfg.rename.contains_key(&first)) && (l == "Field" || l == "F")
                        || self.cfg.drop.contains(&l)
                }
            }
            Type::Infer(_) => false,
            _ => false,
        }
    }

    /// Flattens a path: no module prefix, element type erased, dropped generics removed.
    pub fn fix_path(&self, p: &mut Path, is_type: bool) {
        let keep = if is_type {
            1
        } else {
            let n = p.segments.len();
            if n >= 2 {
                let q = p.segments[n - 2].ident.to_string();
                if PRIM.contains(&q.as_str()) || q.chars().next().unwrap().is_uppercase() {
                    2
                } else {
                    1
                }
            } else {
                1
            }
        };
        let n = p.segments.len();
        p.leading_colon = None;
        let segs: Vec<PathSegment> = p.segments.iter().skip(n - keep).cloned().collect();
        p.segments = segs.into_iter().collect();
        let ns = p.segments.len();
        for (k, s) in p.segments.iter_mut().enumerate() {
            let id = s.ident.to_string();
            let is_ty_seg = is_type || (ns == 2 && k == 0);
            if id == "FieldElement" {
                s.ident = format_ident("FE");
                s.arguments = PathArguments::None;
                continue;
            }
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                let mut args: Vec<GenericArgument> = vec![];
                for g in a.args.iter() {
                    match g {
                        GenericArgument::Type(t) => {
                            let generic = matches!(t, Type::Path(p) if p.path.get_ident().map_or(false, |i| i.to_string().len() == 1 && self.cfg.rename.contains_key(&i.to_string())));
                            if !self.is_dropped(t) && (is_ty_seg || !generic) {
                                let mut t = t.clone();
                                fix_type(&mut t, self.cfg, self.assoc);
                                args.push(GenericArgument::Type(t));
                            }
                        }
                        GenericArgument::Lifetime(_) | GenericArgument::Const(_) => args.push(g.clone()),
                        _ => {}
                    }
                }
                if args.is_empty() || (!is_ty_seg && args.iter().all(|g| matches!(g, GenericArgument::Type(Type::Infer(_))))) {
                    s.arguments = PathArguments::None;
                } else {
                    a.args = args.into_iter().collect();
                }
            }
            if is_ty_seg || (ns == 1) {
                if let Some(r) = self.cfg.rename.get(&id) {
                    let strip = r.strip_suffix('!');
                    s.ident = format_ident(strip.unwrap_or(r));
                    if strip.is_some() {
                        s.arguments = PathArguments::None;
                    }
                }
            }
        }
        let flat = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
        if let Some(r) = self.cfg.paths.get(&flat) {
            *p = parse_str::<Path>(r).unwrap();
        }
    }
}

impl VisitMut for TyFix<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(tp) = t {
            // Self::X
            if tp.qself.is_none() && tp.path.segments.len() == 2 && tp.path.segments[0].ident == "Self" {
                let l = tp.path.segments[1].ident.to_string();
                if let Some(r) = self.assoc.get(&l) {
                    let mut r = r.clone();
                    self.visit_type_mut(&mut r);
                    *t = r;
                    return;
                }
            }
            if tp.qself.is_some() {
                tp.qself = None;
            }
            self.fix_path(&mut tp.path, true);
            return;
        }
        visit_mut::visit_type_mut(self, t)
    }
}
