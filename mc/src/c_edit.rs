//! C08: edits of a data set against the reference model of the documented rules.
use crate::bind;
use crate::model::*;
use crate::runner::*;
use netcdf3::{DataSet, FileReader, InvalidDataSet as E, NC_MAX_DIM_SIZE, NC_MAX_VAR_DIMS};
use std::collections::HashMap;
use std::sync::Arc;

type S = &'static str;
/// How an attribute or a variable is added.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum How { Plain, Mut, Str }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ed {
    Fixed(S, usize), Unlim(S, usize), RenDim(S, S), RemDim(S),
    Var(S, Vec<S>, Ty), RenVar(S, S), RemVar(S),
    G(S, Val, How), RenG(S, S), RemG(S),
    VA(S, S, Val, How), RenVA(S, S, S), RemVA(S, S, How),
}
/// What a removal gives back.
#[derive(Clone, Debug, PartialEq)]
pub enum Ret { Nothing, Dim(Dim), Attr(Attr), Var(String, Ty, Vec<String>, Vec<Attr>) }
pub enum Exp { Ok(Def, Ret), Err(Vec<E>), Either(Vec<E>) }

fn st(s: &str) -> String { s.to_string() }
fn attr_rules(list: &[Attr], name: &str, exists: E, invalid: E, b: &mut Vec<E>) { if list.iter().any(|a| a.name == name) { b.push(exists) } if !name_ok(name) { b.push(invalid) } }
/// The documented contract of each edit.
pub fn model(d: &Def, e: &Ed) -> Exp {
    let mut n = d.clone();
    let dim = |x: &str| d.dims.iter().position(|y| y.name == x);
    let var = |x: &str| d.vars.iter().position(|y| y.name == x);
    let mut b: Vec<E> = vec![];
    let mut ret = Ret::Nothing;
    match e {
        Ed::Fixed(x, size) => {
            if dim(x).is_some() { b.push(E::DimensionAlreadyExists(st(x))) }
            if !name_ok(x) { b.push(E::DimensionNameNotValid(st(x))) }
            if *size == 0 { b.push(E::FixedDimensionWithZeroSize(st(x))) }
            if *size > i32::MAX as usize - 3 { b.push(E::MaximumFixedDimensionSizeExceeded { dim_name: st(x), get: *size }) }
            n.dims.push(Dim { name: st(x), size: *size, unlim: false });
        }
        Ed::Unlim(x, size) => {
            if let Some(u) = d.dims.iter().find(|y| y.unlim) { b.push(E::UnlimitedDimensionAlreadyExists(u.name.clone())) }
            if dim(x).is_some() { b.push(E::DimensionAlreadyExists(st(x))) }
            if !name_ok(x) { b.push(E::DimensionNameNotValid(st(x))) }
            n.dims.push(Dim { name: st(x), size: *size, unlim: true });
        }
        Ed::RenDim(x, y) => {
            if dim(x).is_none() { b.push(E::DimensionNotDefined(st(x))) }
            if x == y { return if b.is_empty() { Exp::Ok(n, ret) } else { Exp::Either(b) } }
            if dim(y).is_some() { b.push(E::DimensionAlreadyExists(st(y))) }
            if !name_ok(y) { b.push(E::DimensionNameNotValid(st(y))) }
            if b.is_empty() { n.dims[dim(x).unwrap()].name = st(y) }
        }
        Ed::RemDim(x) => match dim(x) {
            None => b.push(E::DimensionNotDefined(st(x))),
            Some(i) => {
                let used: Vec<String> = d.vars.iter().filter(|v| v.dims.contains(&i)).map(|v| v.name.clone()).collect();
                if !used.is_empty() { b.push(E::DimensionYetUsed { var_names: used, dim_name: st(x) }) }
                else { ret = Ret::Dim(n.dims.remove(i)); for v in n.vars.iter_mut() { for k in v.dims.iter_mut() { if *k > i { *k -= 1 } } } }
            }
        },
        Ed::Var(x, dims, ty) => {
            if var(x).is_some() { b.push(E::VariableAlreadyExists(st(x))) }
            if !name_ok(x) { b.push(E::VariableNameNotValid(st(x))) }
            let undef: Vec<String> = dims.iter().filter(|y| dim(y).is_none()).map(|y| st(y)).collect();
            if !undef.is_empty() { b.push(E::DimensionsNotDefined { var_name: st(x), undef_dim_names: undef }) }
            else {
                let ids: Vec<usize> = dims.iter().map(|y| dim(y).unwrap()).collect();
                let all: Vec<String> = dims.iter().map(|y| st(y)).collect();
                if let Some(u) = ids.iter().skip(1).find(|i| d.dims[**i].unlim) { b.push(E::UnlimitedDimensionMustBeDefinedFirst { var_name: st(x), unlim_dim_name: d.dims[*u].name.clone(), get_dim_names: all.clone() }) }
                if (1..ids.len()).any(|i| ids[..i].contains(&ids[i])) { b.push(E::DimensionsUsedMultipleTimes { var_name: st(x), get_dim_names: all }) }
                if ids.len() > 1024 { b.push(E::MaximumDimensionsPerVariableExceeded { var_name: st(x), num_dims: ids.len() }) }
                n.vars.push(Var { name: st(x), ty: *ty, dims: ids, attrs: vec![] });
            }
        }
        Ed::RenVar(x, y) => {
            if var(x).is_none() { b.push(E::VariableNotDefined(st(x))) }
            if x == y { return if b.is_empty() { Exp::Ok(n, ret) } else { Exp::Either(b) } }
            if var(y).is_some() { b.push(E::VariableAlreadyExists(st(y))) }
            if !name_ok(y) { b.push(E::VariableNameNotValid(st(y))) }
            if b.is_empty() { n.vars[var(x).unwrap()].name = st(y) }
        }
        Ed::RemVar(x) => match var(x) {
            None => b.push(E::VariableNotDefined(st(x))),
            Some(i) => { let v = n.vars.remove(i); ret = Ret::Var(v.name, v.ty, v.dims.iter().map(|k| d.dims[*k].name.clone()).collect(), v.attrs); }
        },
        Ed::G(x, v, _) => { attr_rules(&d.attrs, x, E::GlobalAttributeAlreadyExists(st(x)), E::GlobalAttributeNameNotValid(st(x)), &mut b); n.attrs.push(attr(x, v.clone())) }
        Ed::RenG(x, y) => {
            let i = d.attrs.iter().position(|a| a.name == *x);
            if i.is_none() { b.push(E::GlobalAttributeNotDefined(st(x))) }
            if x == y { return if b.is_empty() { Exp::Ok(n, ret) } else { Exp::Either(b) } }
            attr_rules(&d.attrs, y, E::GlobalAttributeAlreadyExists(st(y)), E::GlobalAttributeNameNotValid(st(y)), &mut b);
            if b.is_empty() { n.attrs[i.unwrap()].name = st(y) }
        }
        Ed::RemG(x) => match d.attrs.iter().position(|a| a.name == *x) { None => b.push(E::GlobalAttributeNotDefined(st(x))), Some(i) => ret = Ret::Attr(n.attrs.remove(i)) },
        Ed::VA(v, x, val, _) => {
            let inv = E::VariableAttributeNameNotValid { var_name: st(v), attr_name: st(x) };
            match var(v) {
                None => { b.push(E::VariableNotDefined(st(v))); if !name_ok(x) { b.push(inv) } }
                Some(i) => { attr_rules(&d.vars[i].attrs, x, E::VariableAttributeAlreadyExists { var_name: st(v), attr_name: st(x) }, inv, &mut b); n.vars[i].attrs.push(attr(x, val.clone())) }
            }
        }
        Ed::RenVA(v, x, y) => match var(v) {
            None => b.push(E::VariableNotDefined(st(v))),
            Some(i) => {
                let j = d.vars[i].attrs.iter().position(|a| a.name == *x);
                if j.is_none() { b.push(E::VariableAttributeNotDefined { var_name: st(v), attr_name: st(x) }) }
                if x == y { return if b.is_empty() { Exp::Ok(n, ret) } else { Exp::Either(b) } }
                attr_rules(&d.vars[i].attrs, y, E::VariableAttributeAlreadyExists { var_name: st(v), attr_name: st(y) }, E::VariableAttributeNameNotValid { var_name: st(v), attr_name: st(y) }, &mut b);
                if b.is_empty() { n.vars[i].attrs[j.unwrap()].name = st(y) }
            }
        },
        Ed::RemVA(v, x, _) => match var(v) {
            None => b.push(E::VariableNotDefined(st(v))),
            Some(i) => match d.vars[i].attrs.iter().position(|a| a.name == *x) { None => b.push(E::VariableAttributeNotDefined { var_name: st(v), attr_name: st(x) }), Some(j) => ret = Ret::Attr(n.vars[i].attrs.remove(j)) },
        },
    }
    if b.is_empty() { Exp::Ok(n, ret) } else { Exp::Err(b) }
}
fn rattr(a: &netcdf3::Attribute) -> Attr {
    let t = bind::ty(&a.data_type());
    let raw = match t {
        Ty::I8 => a.get_i8().map(|s| s.iter().map(|x| *x as u8).collect()), Ty::U8 => a.get_u8().map(|s| s.to_vec()),
        Ty::I16 => a.get_i16().map(|s| s.iter().flat_map(|x| x.to_be_bytes()).collect()), Ty::I32 => a.get_i32().map(|s| s.iter().flat_map(|x| x.to_be_bytes()).collect()),
        Ty::F32 => a.get_f32().map(|s| s.iter().flat_map(|x| x.to_be_bytes()).collect()), Ty::F64 => a.get_f64().map(|s| s.iter().flat_map(|x| x.to_be_bytes()).collect()),
    };
    Attr { name: a.name().to_string(), val: Val { ty: t, raw: raw.unwrap_or_default() } }
}
/// The edit on the library. `None`: it could not be tried (`get_var_mut` of an undefined variable).
pub fn real(ds: &mut DataSet, e: &Ed) -> Option<Result<Ret, E>> {
    let nothing = |r: Result<(), E>| r.map(|_| Ret::Nothing);
    let text = |v: &Val| String::from_utf8(v.raw.clone()).unwrap();
    Some(match e {
        Ed::Fixed(x, n) => nothing(ds.add_fixed_dim(*x, *n)), Ed::Unlim(x, n) => nothing(ds.set_unlimited_dim(*x, *n)), Ed::RenDim(x, y) => nothing(ds.rename_dim(x, y)),
        Ed::RemDim(x) => ds.remove_dim(x).map(|d| Ret::Dim(Dim { name: d.name(), size: d.size(), unlim: d.is_unlimited() })),
        Ed::Var(x, dims, t) => nothing(if x.len() % 2 == 1 { bind::add_var_typed(ds, x, dims, *t) } else { ds.add_var(x, dims, bind::dt(*t)) }),
        Ed::RenVar(x, y) => nothing(ds.rename_var(x, y)),
        Ed::RemVar(x) => ds.remove_var(x).map(|v| Ret::Var(v.name().to_string(), bind::ty(&v.data_type()), v.dim_names(), v.get_attrs().into_iter().map(rattr).collect())),
        Ed::G(x, v, How::Str) => nothing(ds.add_global_attr_string(x, text(v))),
        Ed::G(x, v, _) => nothing(bind::add_global_attr(ds, x, v)),
        Ed::RenG(x, y) => nothing(ds.rename_global_attr(x, y)), Ed::RemG(x) => ds.remove_global_attr(x).map(|a| Ret::Attr(rattr(&a))),
        Ed::VA(v, x, val, How::Str) => nothing(ds.add_var_attr_string(v, x, text(val))),
        Ed::VA(v, x, val, How::Plain) => nothing(bind::add_var_attr(ds, v, x, val)),
        Ed::VA(v, x, val, How::Mut) => nothing(match val.ty { Ty::U8 => ds.get_var_mut(v)?.add_attr_string(x, text(val)), _ => bind::add_attr_mut(ds.get_var_mut(v)?, x, val) }),
        Ed::RenVA(v, x, y) => nothing(ds.rename_var_attr(v, x, y)),
        Ed::RemVA(v, x, How::Mut) => ds.get_var_mut(v)?.remove_attr(x).map(|a| Ret::Attr(rattr(&a))),
        Ed::RemVA(v, x, _) => ds.remove_var_attr(v, x).map(|a| Ret::Attr(rattr(&a))),
    })
}
/// Names that are not defined are not found by any getter.
fn probe(ds: &DataSet, d: &Def) -> Result<(), String> {
    for n in ["d", "e", "f", "v", "w", "x", "g", "h", "q", "r", "zz", "", "D"] {
        if !d.dims.iter().any(|x| x.name == n) { ck!(!ds.has_dim(n) && ds.get_dim(n).is_none() && ds.dim_size(n).is_none() && ds.dim_type(n).is_none(), "dimension {:?} is found", n); }
        if !d.attrs.iter().any(|x| x.name == n) {
            ck!(!ds.has_global_attr(n) && ds.get_global_attr(n).is_none() && ds.get_global_attr_len(n).is_none() && ds.get_global_attr_data_type(n).is_none() && ds.get_global_attr_as_string(n).is_none() && ds.get_global_attr_i8(n).is_none() && ds.get_global_attr_u8(n).is_none() && ds.get_global_attr_i16(n).is_none() && ds.get_global_attr_i32(n).is_none() && ds.get_global_attr_f32(n).is_none() && ds.get_global_attr_f64(n).is_none(), "global attribute {:?} is found", n);
        }
        match d.vars.iter().find(|x| x.name == n) {
            None => ck!(!ds.has_var(n) && ds.get_var(n).is_none() && ds.var_len(n).is_none() && ds.var_data_type(n).is_none() && ds.is_record_var(n).is_none() && ds.num_var_attrs(n).is_none() && ds.get_var_attrs(n).is_none() && ds.has_var_attr(n, "q").is_none() && ds.get_var_attr(n, "q").is_none(), "variable {:?} is found", n),
            Some(v) => for a in ["q", "r", "v", "g", ""] { if !v.attrs.iter().any(|x| x.name == a) {
                ck!(ds.has_var_attr(n, a) == Some(false) && ds.get_var_attr(n, a).is_none() && ds.get_var_attr_len(n, a).is_none() && ds.get_var_attr_data_type(n, a).is_none() && ds.get_var_attr_as_string(n, a).is_none() && ds.get_var_attr_i16(n, a).is_none() && ds.get_var_attr_u8(n, a).is_none() && !ds.get_var(n).unwrap().has_attr(a) && ds.get_var(n).unwrap().get_attr(a).is_none(), "attribute {:?}:{:?} is found", n, a);
            } },
        }
    }
    Ok(())
}
/// One edit on both sides; the model state is updated.
pub fn step(d: &mut Def, ds: &mut DataSet, e: &Ed) -> Result<bool, String> {
    let exp = model(d, e);
    let got = match real(ds, e) {
        None => return match exp { Exp::Err(b) if b.iter().any(|x| matches!(x, E::VariableNotDefined(_))) => Ok(false), _ => Err(format!("{:?}: get_var_mut does not find the variable", e)) },
        Some(g) => g,
    };
    match (exp, got) {
        (Exp::Ok(n, r), Ok(g)) => { ck!(r == g, "{:?} gives back {:?} instead of {:?}", e, g, r); *d = n; Ok(true) }
        (Exp::Ok(..), Err(x)) => Err(format!("{:?} is legal but is refused: {:?}", e, x)),
        (Exp::Either(_), Ok(_)) => Ok(false),
        (Exp::Err(b), Err(x)) | (Exp::Either(b), Err(x)) => { ck!(b.contains(&x), "{:?} breaks the rule(s) {:?} but the error is {:?}", e, b, x); Ok(false) }
        (Exp::Err(b), Ok(_)) => Err(format!("{:?} breaks the rule(s) {:?} but is accepted", e, b)),
    }
}
pub fn same(d: &Def, ds: &DataSet, whole: bool) -> Result<(), String> {
    let got = bind::snapshot(ds)?;
    if let Some(x) = bind::diff_def(d, &got) { return Err(x); }
    if whole {
        probe(ds, d)?;
        let fresh = bind::build(d).map_err(|e| format!("{:?}", e))?;
        ck!(*ds == fresh, "the data set is not equal to the same data set built directly");
    }
    Ok(())
}
fn show(h: &[&Ed]) -> String { h.iter().map(|e| format!("{:?}", e)).collect::<Vec<_>>().join(" ; ") }
/// A whole history; the data set is compared after each of the last `k` edits.
fn run(ctx: &mut Ctx, mut d: Def, mut ds: DataSet, h: &[&Ed], k: usize) -> Result<Def, String> {
    for (i, e) in h.iter().enumerate() {
        let m = |x: String| format!("edits: {}\nat edit #{}: {}", show(h), i, x);
        step(&mut d, &mut ds, e).map_err(m)?;
        if i + k >= h.len() { same(&d, &ds, i + 1 == h.len()).map_err(m)?; }
    }
    ctx.op(h.len() as u64); ctx.trace();
    Ok(d)
}

/// The caller keeps what the getters gave (dimensions, copies of variables and attributes): after each edit (`every`), or after the last but one.
fn run_held(ctx: &mut Ctx, h: &[&Ed], every: bool) -> Result<(), String> {
    let (mut d, mut ds) = (Def::default(), DataSet::new());
    let mut dims: Vec<(std::rc::Rc<netcdf3::Dimension>, usize, bool)> = vec![];
    let mut vars: Vec<(netcdf3::Variable, String, Ty, usize, Vec<Attr>)> = vec![];
    let mut attrs: Vec<(netcdf3::Attribute, Attr)> = vec![];
    for (i, e) in h.iter().enumerate() {
        let m = |x: String| format!("edits (the dimensions, copies of the variables and of the attributes being kept after {}): {}\nat edit #{}: {}", if every { "each" } else { "the last but one" }, show(h), i, x);
        if i > 0 && (every || i + 1 == h.len()) {
            for x in ds.get_dims().into_iter().chain(ds.get_unlimited_dim()).chain(ds.dim_names().iter().filter_map(|n| ds.get_dim(n))) { let (n, u) = (x.size(), x.is_unlimited()); dims.push((x, n, u)); }
            for v in ds.get_vars() { vars.push((v.clone(), v.name().to_string(), bind::ty(&v.data_type()), v.len(), v.get_attrs().into_iter().map(rattr).collect())); for x in v.get_dims() { let (n, u) = (x.size(), x.is_unlimited()); dims.push((x, n, u)); } }
            for a in ds.get_global_attrs() { attrs.push((a.clone(), rattr(a))); }
        }
        step(&mut d, &mut ds, e).map_err(m)?;
        if i + 2 >= h.len() { same(&d, &ds, i + 1 == h.len()).map_err(m)?; }
        for (x, n, u) in &dims { ck!(x.size() == *n && x.is_unlimited() == *u && x.is_fixed() != *u, "{}", m(format!("a dimension kept by the caller has size {} instead of {}", x.size(), n))); }
        for (v, n, t, l, a) in &vars { ck!(v.name() == n && bind::ty(&v.data_type()) == *t && v.len() == *l && v.get_attrs().into_iter().map(rattr).collect::<Vec<_>>() == *a, "{}", m(format!("the copy of variable {:?} kept by the caller has changed", n))); }
        for (x, a) in &attrs { ck!(rattr(x) == *a, "{}", m(format!("the copy of attribute {:?} kept by the caller has changed", a.name))); }
    }
    drop((dims, vars, attrs));
    same(&d, &ds, true).map_err(|x| format!("edits: {}\nonce what was kept is dropped: {}", show(h), x))?;
    ctx.op(h.len() as u64); ctx.trace();
    Ok(())
}
/// Two data sets edited in turn, each one being moved to the place of the other after each edit.
fn run_moved(ctx: &mut Ctx, a: &[&Ed], b: &[&Ed]) -> Result<(), String> {
    let mut place = [DataSet::new(), DataSet::new()];
    let mut model = [Def::default(), Def::default()];
    let m = |i: usize, x: String| format!("two data sets edited in turn, always at the same place in memory: {} | {}\nat edit #{}: {}", show(a), show(b), i, x);
    for i in 0..a.len().max(b.len()) {
        for h in [a, b] {
            if let Some(e) = h.get(i) { step(&mut model[0], &mut place[0], e).map_err(|x| m(i, x))?; }
            if i + 2 >= h.len() { same(&model[0], &place[0], false).map_err(|x| m(i, x))?; }
            place.swap(0, 1); model.swap(0, 1);
        }
    }
    ctx.op((a.len() + b.len()) as u64); ctx.trace();
    Ok(())
}

fn val(t: Ty, n: usize, s: usize) -> Val { Val::pattern(t, n, s) }
fn txt(s: &str) -> Val { Val::new(Ty::U8, s.as_bytes().to_vec()) }
/// The finite alphabets. `origin`: values depend on the name given at creation, so that elements
/// exchanged by mistake are noticed.
fn alpha_dims_vars() -> Vec<Ed> {
    let mut a = vec![];
    for (x, n) in [("d", 2), ("e", 3)] { a.push(Ed::Fixed(x, n)); a.push(Ed::Unlim(x, n + 3)); a.push(Ed::RemDim(x)); }
    for (x, y) in [("d", "e"), ("e", "d"), ("d", "d"), ("d", "/"), ("zz", "d"), ("e", "zz/")] { a.push(Ed::RenDim(x, y)) }
    a.extend([Ed::RemDim("zz"), Ed::Fixed("d", 0), Ed::Fixed("", 1), Ed::Unlim("+", 1), Ed::Fixed("e", i32::MAX as usize - 2)]);
    for (x, t) in [("v", Ty::I16), ("ww", Ty::F64)] {
        for dims in [vec![], vec!["d"], vec!["e"], vec!["d", "e"], vec!["e", "d"], vec!["d", "d"], vec!["zz"], vec!["d", "zz", "e", "yy"]] { a.push(Ed::Var(x, dims, t)) }
        a.push(Ed::RemVar(x));
    }
    for (x, y) in [("v", "ww"), ("ww", "v"), ("ww", "ww"), ("v", ""), ("zz", "v")] { a.push(Ed::RenVar(x, y)) }
    a.extend([Ed::RemVar("zz"), Ed::Var("a/b", vec!["d"], Ty::I8)]);
    a
}
fn alpha_vattrs(nattr: usize) -> Vec<Ed> {
    let mut a = vec![Ed::Fixed("d", 2), Ed::Unlim("d", 1), Ed::RemDim("d")];
    for (x, t) in [("v", Ty::I16), ("ww", Ty::F64)] { a.push(Ed::Var(x, vec![], t)); a.push(Ed::Var(x, vec!["d"], t)); a.push(Ed::RemVar(x)); }
    for (x, y) in [("v", "ww"), ("ww", "v"), ("v", "v")] { a.push(Ed::RenVar(x, y)) }
    for v in ["v", "ww"] {
        a.push(Ed::VA(v, "q", val(Ty::I16, 1, 1), How::Plain)); a.push(Ed::RemVA(v, "q", How::Plain));
        if nattr > 1 {
            a.push(Ed::VA(v, "r", txt("text"), How::Mut)); a.push(Ed::RemVA(v, "r", How::Mut));
            for (x, y) in [("q", "r"), ("r", "q"), ("q", "q"), ("q", "\u{7f}"), ("zz", "q"), ("zz", "zz")] { a.push(Ed::RenVA(v, x, y)) }
            a.push(Ed::VA(v, "q", txt("s"), How::Str)); a.push(Ed::VA(v, "r", val(Ty::F32, 0, 0), How::Plain)); a.push(Ed::VA(v, "q/", val(Ty::I8, 1, 0), How::Mut));
        }
    }
    a
}
fn alpha_gattrs() -> Vec<Ed> {
    let mut a = vec![Ed::Var("v", vec![], Ty::I8), Ed::RemVar("v"), Ed::VA("v", "g", val(Ty::I32, 1, 2), How::Plain), Ed::RemVA("v", "g", How::Plain), Ed::RenVA("v", "g", "h"), Ed::RenVA("v", "h", "g")];
    for (i, x) in ["g", "h", "k"].into_iter().enumerate() { a.push(Ed::G(x, if i == 1 { txt("h") } else { val([Ty::I8, Ty::I8, Ty::F64][i], i + 1, i) }, if i == 1 { How::Str } else { How::Plain })); a.push(Ed::RemG(x)); }
    for x in ["g", "h", "k"] { for y in ["g", "h", "k"] { a.push(Ed::RenG(x, y)) } }
    a.extend([Ed::RemG("zz"), Ed::RenG("zz", "g"), Ed::RenG("g", " "), Ed::G("/", txt(""), How::Str), Ed::G("a/", val(Ty::I16, 1, 1), How::Plain), Ed::RenG("zz", "zz")]);
    a
}
/// Everything together, without origins.
pub fn alpha_all() -> Vec<Ed> {
    let mut a = vec![];
    for x in ["d", "e"] { a.push(Ed::Fixed(x, 3)); a.push(Ed::Unlim(x, 2)); a.push(Ed::RemDim(x)); }
    for (x, y) in [("d", "e"), ("e", "d"), ("d", "d")] { a.push(Ed::RenDim(x, y)) }
    for x in ["v", "ww"] { for dims in [vec![], vec!["d"], vec!["d", "e"], vec!["e", "d"]] { a.push(Ed::Var(x, dims, Ty::I16)) } a.push(Ed::RemVar(x)); a.push(Ed::VA(x, "q", val(Ty::I8, 3, 1), How::Plain)); a.push(Ed::RemVA(x, "q", How::Mut)); }
    for (x, y) in [("v", "ww"), ("ww", "v")] { a.push(Ed::RenVar(x, y)) }
    a.extend([Ed::G("g", txt("t"), How::Plain), Ed::RemG("g"), Ed::RenG("g", "h"), Ed::RenG("h", "g"), Ed::RenVA("v", "q", "r"), Ed::RenVA("v", "r", "q")]);
    a
}

pub struct Graph { pub alphabet: Vec<Ed>, pub states: Vec<Def>, pub parent: Vec<(u32, u16)>, pub edges: Vec<(u32, u16)>, pub closed: bool }
/// All states of the model reachable with the alphabet (complete unless `cap` is reached).
pub fn explore(alphabet: Vec<Ed>, cap: usize) -> Graph {
    let mut index: HashMap<Def, u32> = HashMap::new();
    let mut g = Graph { alphabet, states: vec![Def::default()], parent: vec![(0, 0)], edges: vec![], closed: true };
    index.insert(Def::default(), 0);
    let mut i = 0;
    while i < g.states.len() {
        for k in 0..g.alphabet.len() {
            if let Exp::Ok(n, _) = model(&g.states[i], &g.alphabet[k]) {
                if n != g.states[i] { g.edges.push((i as u32, k as u16)); }
                if !index.contains_key(&n) {
                    if g.states.len() >= cap { g.closed = false; continue; }
                    index.insert(n.clone(), g.states.len() as u32); g.states.push(n); g.parent.push((i as u32, k as u16));
                }
            }
        }
        i += 1;
    }
    g
}
impl Graph {
    pub fn history(&self, mut i: u32) -> Vec<&Ed> { let mut h = vec![]; while i != 0 { let (p, k) = self.parent[i as usize]; h.push(&self.alphabet[k as usize]); i = p; } h.reverse(); h }
}
fn graph_families(name: &str, g: Graph, pairs: bool, out: &mut Vec<Family>) {
    let g = Arc::new(g);
    let how = if g.closed { "all" } else { "the first (breadth-first)" };
    let (a, b) = (g.clone(), g.clone());
    out.push(fam(&format!("{}_transitions", name), &format!("{} {} reachable states of the model over {} edits x every edit (legal or not), replayed on the library", how, g.states.len(), g.alphabet.len()), g.states.len() as u64, move |i, ctx| {
        let h = a.history(i as u32);
        ctx.state(&a.states[i as usize]);
        ctx.sample(|| show(&h));
        for e in &a.alphabet { let mut x = h.clone(); x.push(e); let d = run(ctx, Def::default(), DataSet::new(), &x, 2)?; ctx.state(&d); }
        Ok(())
    }));
    let c = g.clone();
    if pairs || name == "all" { out.push(fam(&format!("{}_kept", name), &format!("{} {} states x every edit, while the caller keeps the dimensions and copies of the variables and attributes got before", how, g.states.len()), g.states.len() as u64, move |i, ctx| {
        let h = c.history(i as u32);
        for e in &c.alphabet { let mut x = h.clone(); x.push(e); for every in [false, true] { run_held(ctx, &x, every)?; } }
        ctx.state(&c.states[i as usize]);
        Ok(())
    })); }
    let c = g.clone();
    let gaps: [usize; 5] = [0, 1, 2, 17, 101];
    if pairs { out.push(fam(&format!("{}_moved", name), &format!("{} {} states x the state at a distance of {:?} x every edit of both, in turn at one place in memory", how, g.states.len(), gaps), (g.states.len() * gaps.len()) as u64, move |i, ctx| {
        let (k, j) = (i as usize / gaps.len(), i as usize % gaps.len());
        let (ha, hb) = (c.history(k as u32), c.history(((k + gaps[j]) % c.states.len()) as u32));
        for (n, e) in c.alphabet.iter().enumerate() {
            let (mut x, mut y) = (ha.clone(), hb.clone());
            x.push(e); y.push(&c.alphabet[(n + j) % c.alphabet.len()]);
            run_moved(ctx, &x, &y)?;
        }
        ctx.state(&c.states[k]);
        Ok(())
    })); }
    if pairs {
        out.push(fam(&format!("{}_transition_pairs", name), &format!("all {} transitions of the {} states x every edit after it", g.edges.len(), g.states.len()), g.edges.len() as u64, move |i, ctx| {
            let (s, k) = b.edges[i as usize];
            let mut h = b.history(s); h.push(&b.alphabet[k as usize]);
            for e in &b.alphabet { let mut x = h.clone(); x.push(e); run(ctx, Def::default(), DataSet::new(), &x, 1)?; }
            Ok(())
        }));
    }
}

/// A rich alphabet for the stateless exploration.
fn alpha_rich() -> Vec<Ed> {
    let mut a = vec![];
    for (x, n) in [("d", 2), ("e", 3)] { a.push(Ed::Fixed(x, n)); a.push(Ed::RemDim(x)); }
    a.extend([Ed::Unlim("u", 2), Ed::Unlim("d", 0), Ed::RemDim("u"), Ed::Fixed("u", 0), Ed::Fixed("d/", 2)]);
    for (x, y) in [("d", "e"), ("u", "d"), ("d", "u"), ("e", "d"), ("d", "d"), ("d", "")] { a.push(Ed::RenDim(x, y)) }
    for dims in [vec![], vec!["d"], vec!["u", "d"], vec!["d", "u"], vec!["u", "u"], vec!["d", "e"]] { a.push(Ed::Var("v", dims, Ty::I16)) }
    for dims in [vec![], vec!["u"], vec!["e", "u", "d"]] { a.push(Ed::Var("ww", dims, Ty::F64)) }
    a.extend([Ed::RenVar("v", "ww"), Ed::RenVar("ww", "v"), Ed::RenVar("v", "v/"), Ed::RemVar("v"), Ed::RemVar("ww")]);
    a.extend([Ed::VA("v", "q", val(Ty::F32, 2, 1), How::Plain), Ed::VA("v", "q", txt("q"), How::Mut), Ed::VA("ww", "q", txt("é"), How::Str), Ed::RenVA("v", "q", "r"), Ed::RenVA("ww", "q", "q"), Ed::RemVA("v", "q", How::Mut), Ed::RemVA("v", "r", How::Plain), Ed::RemVA("ww", "q", How::Plain)]);
    a.extend([Ed::G("g", val(Ty::I32, 1, 1), How::Plain), Ed::G("h", txt("x"), How::Str), Ed::RenG("g", "h"), Ed::RenG("h", "k"), Ed::RemG("g"), Ed::RemG("h")]);
    a
}
fn starts() -> Vec<Vec<Ed>> {
    vec![
        vec![],
        vec![Ed::Fixed("d", 2), Ed::Unlim("u", 3), Ed::Fixed("e", 1), Ed::Var("v", vec!["u", "d"], Ty::I16), Ed::VA("v", "q", val(Ty::I8, 5, 3), How::Plain), Ed::Var("ww", vec!["d", "e"], Ty::F64), Ed::VA("ww", "q", txt("abc"), How::Str), Ed::VA("ww", "r", val(Ty::F64, 1, 1), How::Mut), Ed::G("g", txt("title"), How::Str), Ed::G("h", val(Ty::I16, 3, 1), How::Plain)],
        vec![Ed::Unlim("d", 1), Ed::Fixed("e", 4), Ed::Var("ww", vec!["d"], Ty::U8), Ed::Var("v", vec!["e"], Ty::F32), Ed::VA("v", "r", txt(""), How::Str)],
    ]
}
fn start_state(h: &[Ed]) -> Result<(Def, DataSet), String> { let (mut d, mut ds) = (Def::default(), DataSet::new()); for e in h { step(&mut d, &mut ds, e)?; } Ok((d, ds)) }

/// One edit of the i-th element of a list of `n` elements of one of four kinds.
fn pos_edit(kind: usize, n: usize, k: usize) -> Option<Ed> {
    const NAMES: [S; 8] = ["a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7"];
    const NEW: [S; 8] = ["b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7"];
    let (i, what) = (k % 8, k / 8);
    if i >= n { return None; }
    let (x, y) = (NAMES[i], match what { 1 => NEW[i], 2 => NAMES[(i + 1) % n], 3 => NAMES[(i + n - 1) % n], _ => NAMES[i] });
    Some(match (kind, what) {
        (0, 0) => Ed::RemDim(x), (1, 0) => Ed::RemVar(x), (2, 0) => Ed::RemG(x), (3, 0) => Ed::RemVA("v", x, How::Plain), (_, 0) => Ed::RemVA("v", x, How::Mut),
        (0, 4) => Ed::Fixed(x, 9), (1, 4) => Ed::Var(x, vec![], Ty::I32), (2, 4) => Ed::G(x, val(Ty::I32, 2, 9), How::Plain), (_, 4) => Ed::VA("v", x, val(Ty::I32, 2, 9), How::Plain),
        (0, _) => Ed::RenDim(x, y), (1, _) => Ed::RenVar(x, y), (2, _) => Ed::RenG(x, y), (_, _) => Ed::RenVA("v", x, y),
    })
}

/// Names which an implementation could take for one another.
pub const SIMILAR: [S; 44] = ["a", "A", "aa", "AA", "aA", "Aa", "a ", "a  ", "a_", "_a", "a.", "a-b", "a_b", "a b", "ab", "aB", "abc", "a.b", "a,b", "0", "00", "01", "1", "1.0", "\u{e9}", "\u{c9}", "e\u{301}", "e", "\u{df}", "ss", "SS", "\u{1e9e}", "i", "I", "\u{130}", "\u{131}", "k", "K", "\u{212a}", "\u{fb01}", "fi", "a\u{200b}", "a\u{feff}", "\u{ff41}"];
/// Strings that live as long as the process (each distinct one once).
pub fn name(s: &str) -> S {
    static NAMES: std::sync::OnceLock<std::sync::Mutex<std::collections::HashSet<S>>> = std::sync::OnceLock::new();
    let mut n = NAMES.get_or_init(Default::default).lock().unwrap();
    if let Some(x) = n.get(s) { return x; }
    let x: S = Box::leak(s.to_string().into_boxed_str());
    n.insert(x);
    x
}
/// `n` is not found unless it is there.
fn probe_name(ds: &DataSet, d: &Def, n: &str) -> Result<(), String> {
    ck!(ds.has_dim(n) == d.dims.iter().any(|x| x.name == n) && ds.get_dim(n).map(|x| x.size()) == d.dims.iter().find(|x| x.name == n).map(|x| x.size) && ds.dim_size(n) == d.dims.iter().find(|x| x.name == n).map(|x| x.size), "dimension {:?}", n);
    let g = d.attrs.iter().find(|x| x.name == n);
    ck!(ds.has_global_attr(n) == g.is_some() && ds.get_global_attr(n).map(rattr).as_ref() == g && ds.get_global_attr_len(n) == g.map(|x| x.val.len()), "global attribute {:?}", n);
    let v = d.vars.iter().find(|x| x.name == n);
    ck!(ds.has_var(n) == v.is_some() && ds.get_var(n).map(|x| x.name().to_string()) == v.map(|x| x.name.clone()) && ds.var_data_type(n).map(|t| bind::ty(&t)) == v.map(|x| x.ty), "variable {:?}", n);
    for v in &d.vars {
        let a = v.attrs.iter().find(|x| x.name == n);
        let rv = ds.get_var(&v.name).ok_or("variable not found")?;
        ck!(ds.has_var_attr(&v.name, n) == Some(a.is_some()) && rv.has_attr(n) == a.is_some() && rv.get_attr(n).map(rattr).as_ref() == a && ds.get_var_attr(&v.name, n).map(rattr).as_ref() == a, "attribute {:?} of {:?}", n, v.name);
    }
    Ok(())
}

pub fn families(t: Tier) -> Vec<Family> {
    let th = t.thorough();
    let mut f = vec![];
    graph_families("dims_vars", explore(alpha_dims_vars(), 1_000_000), true, &mut f);
    graph_families("gattrs", explore(alpha_gattrs(), 1_000_000), true, &mut f);
    graph_families("vattrs1", explore(alpha_vattrs(1), 1_000_000), true, &mut f);
    graph_families("vattrs2", explore(alpha_vattrs(2), 1_000_000), th, &mut f);
    graph_families("all", explore(alpha_all(), 1_000_000), th, &mut f);
    {
        let al = Arc::new(alpha_rich());
        let k = al.len();
        for (si, _) in starts().iter().enumerate() {
            let depth = match (th, si) { (true, 0) => 5, (true, _) => 4, (false, 0) => 4, _ => 3 };
            let al = al.clone();
            f.push(fam(&format!("sequences_{}", si), &format!("all sequences of {} edits among {} (legal or not) from start state #{}: the result is compared after every edit", depth, k, si), (k as u64).pow(depth as u32 - 1), move |i, ctx| {
                let mut x = i;
                let mut pre: Vec<&Ed> = vec![];
                for _ in 0..depth - 1 { pre.push(&al[(x % k as u64) as usize]); x /= k as u64; }
                let start = starts()[si].clone();
                for e in al.iter() {
                    let (d, ds) = start_state(&start)?;
                    let mut h = pre.clone(); h.push(e);
                    let d = run(ctx, d, ds, &h, if e == &al[0] { depth } else { 1 })?;
                    ctx.state(&d);
                }
                Ok(())
            }));
        }
        // the same from a data set given by a reader
        let al2 = al.clone();
        let depth = if th { 3 } else { 2 };
        f.push(fam("sequences_from_file", &format!("all sequences of {} edits among {} on 2 data sets read from a file", depth, k), 2 * (k as u64).pow(depth as u32), move |i, ctx| {
            let mut x = i / 2;
            let mut h: Vec<&Ed> = vec![];
            for _ in 0..depth { h.push(&al2[(x % k as u64) as usize]); x /= k as u64; }
            let (d, ds) = start_state(&starts()[1 + (i % 2) as usize])?;
            let p = ctx.path("s.nc");
            let mut w = netcdf3::FileWriter::open(&p).map_err(|e| format!("{:?}", e))?;
            w.set_def(&ds, netcdf3::Version::Classic, 0).map_err(|e| format!("{:?}", e))?;
            w.close().map_err(|e| format!("{:?}", e))?;
            let (ds, _) = FileReader::open(&p).map_err(|e| format!("{:?}", e))?.close();
            let d = run(ctx, d, ds, &h, depth)?;
            ctx.state(&d);
            Ok(())
        }));
    }
    {   // attributes given as strings
        const TOKENS: [&str; 18] = ["", "a", "B", " ", "\u{0}", "\n", "\r\n", "\t", "\u{e9}", "e\u{301}", "\u{4e2d}", "\u{1f600}", "\u{feff}", "\u{a0}", "\u{7f}", "\"", "%s", "\u{fffd}"];
        let mut lens: Vec<usize> = (0..=66).chain(crate::spaces::around_pow2(if th { 300_000 } else { 70_000 })).chain([100, 1000, 9_999, 10_000, 10_001, 50_000]).collect();
        lens.sort(); lens.dedup();
        let (nl, ns) = (lens.len() as u64, nseqs(TOKENS.len(), 3));
        f.push(fam("strings", &format!("attributes given as strings (add_global_attr_string, add_var_attr_string, Variable::add_attr_string): {} lengths up to {} of characters of 1..4 bytes, and all sequences of up to 3 among {} tokens (blanks, NUL, line ends, other characters): the bytes are those of the string, by every getter; kept by renaming; written to a file", nl, lens.last().unwrap(), TOKENS.len()), nl * 4 + ns, move |i, ctx| {
            let s: String = if i < nl * 4 { crate::spaces::name_of(lens[(i / 4) as usize], (i % 4) as usize + 1, i as usize) } else { seq(i - nl * 4, TOKENS.len()).iter().map(|k| TOKENS[*k]).collect() };
            let v = Val::new(Ty::U8, s.as_bytes().to_vec());
            let m = |x: String| format!("string of {} bytes {:?}: {}", s.len(), s.chars().take(40).collect::<String>(), x);
            let d0 = Def::default().dim("d", 2).var("v", Ty::I16, &["d"]).var("w", Ty::I8, &[]);
            let (mut d, mut ds) = (d0.clone(), bind::build(&d0).map_err(|e| format!("{:?}", e))?);
            let mut es = vec![Ed::G("g", v.clone(), How::Str), Ed::VA("v", "q", v.clone(), How::Str), Ed::VA("w", "q", v.clone(), How::Mut), Ed::G("h", v.clone(), How::Plain), Ed::VA("v", "r", v.clone(), How::Plain)];
            if s.len() > 4000 { es.truncate(3); }
            for e in &es { step(&mut d, &mut ds, e).map_err(m)?; ctx.op(1); }
            same(&d, &ds, true).map_err(m)?;
            for e in [Ed::RenG("g", "g2"), Ed::RenVA("v", "q", "q2")] { step(&mut d, &mut ds, &e).map_err(m)?; }
            same(&d, &ds, true).map_err(m)?;
            let strs = [ds.get_global_attr_as_string("g2"), ds.get_var_attr_as_string("v", "q2"), ds.get_var_attr_as_string("w", "q"), ds.get_global_attr("g2").and_then(|a| a.get_as_string()), ds.get_var("w").and_then(|x| x.get_attr_as_string("q"))];
            for (k, x) in strs.iter().enumerate() { ck!(x.as_deref() == Some(&s[..]), "{}", m(format!("get_as_string #{} gives {:?} bytes", k, x.as_ref().map(|x| x.len())))); }
            let p = ctx.path("s.nc");
            { let mut w = netcdf3::FileWriter::open(&p).map_err(|e| format!("{:?}", e))?; w.set_def(&ds, netcdf3::Version::Classic, 0).map_err(|e| m(format!("{:?}", e)))?; w.close().map_err(|e| m(format!("{:?}", e)))?; }
            let (rs, _) = FileReader::open(&p).map_err(|e| m(format!("{:?}", e)))?.close();
            same(&d, &rs, true).map_err(|e| m(format!("read back: {}", e)))?;
            ck!(rs.get_global_attr_as_string("g2").as_deref() == Some(&s[..]), "{}", m("read back: get_as_string".into()));
            ctx.state(&s); ctx.trace();
            Ok(())
        }));
    }
    f.push(fam("positions", "lists of 1..8 dimensions, variables, global or variable attributes: all pairs of edits (removal, renaming to a new, next or previous name, addition) of the i-th and j-th elements", 5 * 8 * 40 * 40, move |i, ctx| {
        let mut g = Digits(i);
        let (kind, n, a, b) = (g.next(5), g.next(8) + 1, g.next(40), g.next(40));
        let (ea, eb) = match (pos_edit(kind, n, a), pos_edit(kind, n, b)) { (Some(x), Some(y)) => (x, y), _ => { ctx.count("skipped: no such position"); return Ok(()) } };
        let mut d = Def::default();
        for j in 0..n {
            let x = format!("a{}", j);
            d = match kind { 0 => if j == n / 2 { d.unlim(&x, j + 2) } else { d.dim(&x, j + 2) }, 1 => { if j == 0 { d = d.dim("d", 2); } d.var(&x, TYS[j % 6], &["d"]).vattr("k", val(Ty::I16, 1, j)) }, 2 => d.attr(&x, val(TYS[j % 6], 1 + j % 3, j)), _ => { if j == 0 { d = d.var("v", Ty::I8, &[]); } d.vattr(&x, val(TYS[j % 6], 1 + j % 3, j)) } };
        }
        if kind == 0 && n > 2 { d = d.var("v", Ty::I16, &["a1", "a2"].iter().copied().filter(|x| *x != format!("a{}", n / 2)).collect::<Vec<_>>()); d = d.var("w", Ty::I16, &[&format!("a{}", n / 2)]); }
        let ds = bind::build(&d).map_err(|e| format!("{:?}", e))?;
        let d = run(ctx, d, ds, &[&ea, &eb], 2)?;
        ctx.state(&d);
        Ok(())
    }));
    {
        let (lo, hi) = (0usize, if th { 4 } else { 3 });
        let span = hi - lo + 1;
        f.push(fam("mixed_lists", &format!("data sets of {}..{} dimensions (one unlimited), global attributes, variables and attributes per variable (the same number for all, or increasing, or decreasing): all pairs of edits of any element of any list", lo, hi), (span * span * span * span * 3) as u64, move |i, ctx| {
            let mut g = Digits(i);
            let (nd, ng, nv, na, how) = (g.next(span) + lo, g.next(span) + lo, g.next(span) + lo, g.next(span) + lo, g.next(3));
            let mut d = Def::default();
            for j in 0..nd { let x = format!("a{}", j); d = if j == nd / 2 { d.unlim(&x, j + 2) } else { d.dim(&x, j + 2) }; }
            for j in 0..ng { d = d.attr(&format!("a{}", j), val(TYS[j % 6], 1 + j % 3, j)); }
            let mut counts = vec![];
            for j in 0..nv {
                let dn = format!("a{}", j);
                let l: Vec<&str> = if j < nd { vec![&dn] } else { vec![] };
                d = d.var(&format!("a{}", j), TYS[(j + 2) % 6], &l);
                let m = match how { 0 => na, 1 => (na + j) % (hi + 1), _ => na.saturating_sub(j) };
                counts.push(m);
                for q in 0..m { d = d.vattr(&format!("a{}", q), val(TYS[(j + q) % 6], 1 + q % 2, j * 7 + q)); }
            }
            let mut edits = vec![];
            for k in 0..40 {
                for (kind, n) in [(0, nd), (1, nv), (2, ng)] { edits.extend(pos_edit(kind, n, k)); }
                for (j, n) in counts.iter().enumerate() {
                    let v: S = ["a0", "a1", "a2", "a3", "a4"][j];
                    edits.extend(pos_edit(3 + (j + k) % 2, *n, k).map(|e| match e { Ed::RemVA(_, x, h) => Ed::RemVA(v, x, h), Ed::VA(_, x, y, h) => Ed::VA(v, x, y, h), Ed::RenVA(_, x, y) => Ed::RenVA(v, x, y), e => e }));
                }
            }
            edits.extend([Ed::Fixed("n", 4), Ed::Unlim("n", 4), Ed::Var("n", if nd > 0 { vec!["a0"] } else { vec![] }, Ty::F64), Ed::G("n", txt("n"), How::Str)]);
            if nv > 0 { edits.push(Ed::VA("a0", "n", txt("n"), How::Mut)); }
            for ea in &edits {
                let ds = bind::build(&d).map_err(|e| format!("{:?}", e))?;
                let x = run(ctx, d.clone(), ds, &[ea], 1).map_err(|e| format!("from {:?}\n{}", d, e))?;
                ctx.state(&x);
                for eb in &edits {
                    let ds = bind::build(&d).map_err(|e| format!("{:?}", e))?;
                    let x = run(ctx, d.clone(), ds, &[ea, eb], 1).map_err(|e| format!("from {:?}\n{}", d, e))?;
                    ctx.state(&x);
                }
            }
            Ok(())
        }));
    }
    {
        let n = SIMILAR.len();
        f.push(fam("similar_names", &format!("all ordered pairs of {} similar names x 4 kinds of lists: all sequences of up to {} edits (addition of either, renaming of one to the other, to and from a third name, removal) from lists with none, one or both; every getter with both names", n, if th { 3 } else { 2 }), (n * n * 4) as u64, move |i, ctx| {
            let mut g = Digits(i);
            let (kind, x, y) = (g.next(4), SIMILAR[g.next(n)], SIMILAR[g.next(n)]);
            if x == y { return Ok(()); }
            let add = |s: S| match kind { 0 => Ed::Fixed(s, 2 + s.len()), 1 => Ed::Var(s, vec!["m"], TYS[s.len() % 6]), 2 => Ed::G(s, val(Ty::I16, s.len(), 3), How::Plain), _ => Ed::VA("v", s, val(Ty::I16, s.len(), 3), [How::Plain, How::Mut][s.len() % 2]) };
            let ren = |s: S, t: S| match kind { 0 => Ed::RenDim(s, t), 1 => Ed::RenVar(s, t), 2 => Ed::RenG(s, t), _ => Ed::RenVA("v", s, t) };
            let rem = |s: S| match kind { 0 => Ed::RemDim(s), 1 => Ed::RemVar(s), 2 => Ed::RemG(s), _ => Ed::RemVA("v", s, [How::Mut, How::Plain][s.len() % 2]) };
            let mut al = vec![add(x), add(y), ren(x, y), ren(y, x), ren(x, "m"), ren("m", y), rem(x), rem(y)];
            if kind == 0 { al.push(Ed::Var("w", vec![x, y], Ty::I8)); al.push(Ed::Var("w", vec![y], Ty::I8)); al.push(Ed::Unlim(y, 3)); }
            if kind == 1 { al.push(Ed::VA(y, "q", val(Ty::I8, 1, 1), How::Plain)); al.push(Ed::VA(y, "q", val(Ty::I8, 1, 1), How::Mut)); }
            let mut base = Def::default();
            base = match kind { 0 => base.dim("m", 9), 1 => base.dim("m", 9).var("m", Ty::F64, &["m"]), 2 => base.attr("m", val(Ty::I8, 1, 9)), _ => base.var("v", Ty::I8, &[]).vattr("m", val(Ty::I8, 1, 9)) };
            let depth = if th { 3 } else { 2 };
            let firsts: Vec<Vec<Ed>> = vec![vec![], vec![add(x)], vec![add(y)], vec![add(y), add(x)]];
            for first in &firsts {
                for j in 0..nseqs(al.len(), depth) {
                    let h: Vec<&Ed> = first.iter().chain(seq(j, al.len()).into_iter().map(|k| &al[k])).collect();
                    let (mut d, mut ds) = (base.clone(), bind::build(&base).map_err(|e| format!("{:?}", e))?);
                    let m = |e: String| format!("from {:?}: {}\n{}", base, show(&h), e);
                    for e in &h { step(&mut d, &mut ds, e).map_err(m)?; }
                    same(&d, &ds, false).map_err(m)?;
                    probe_name(&ds, &d, x).map_err(m)?; probe_name(&ds, &d, y).map_err(m)?;
                    ctx.op(h.len() as u64 + 2); ctx.trace();
                    if j % 7 == 0 { ctx.state(&d); }
                }
            }
            Ok(())
        }));
    }
    {
        let nv = if th { 6 } else { 5 };
        f.push(fam("dimension_users", &format!("{} variables each using none, the first, the second or both of two dimensions (and one using another dimension): removals and renamings of all of them, before and after every removal of a variable", nv), 4u64.pow(nv as u32) * 2, move |i, ctx| {
            let mut g = Digits(i);
            let unlim = g.next(2) == 1;
            let mut d = if unlim { Def::default().unlim("d", 2) } else { Def::default().dim("d", 2) }.dim("e", 3).dim("f", 4);
            for j in 0..nv { d = d.var(&format!("a{}", (j + 3) % nv), TYS[j % 6], [&[][..], &["d"][..], &["e"][..], &["d", "e"][..]][g.next(4)]); if j == 2 { d = d.var("o", Ty::I8, &["f"]); } }
            let rem: Vec<Ed> = (0..nv).map(|j| Ed::RemVar(name(&format!("a{}", j)))).collect();
            let fixed = [Ed::RemDim("d"), Ed::RemDim("e"), Ed::RemDim("f"), Ed::RemDim("g"), Ed::RenDim("d", "g"), Ed::RemDim("g")];
            let ds = bind::build(&d).map_err(|e| format!("{:?}", e))?;
            let x = run(ctx, d.clone(), ds, &fixed.iter().collect::<Vec<_>>(), 6).map_err(|e| format!("from {:?}\n{}", d, e))?;
            ctx.state(&x);
            for r in &rem {
                let ds = bind::build(&d).map_err(|e| format!("{:?}", e))?;
                let mut h = vec![r]; h.extend(fixed.iter());
                run(ctx, d.clone(), ds, &h, 1).map_err(|e| format!("from {:?}\n{}", d, e))?;
            }
            Ok(())
        }));
        let counts: Vec<usize> = (1..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257]).collect();
        let nc = counts.len();
        f.push(fam("long_lists", &format!("{} lengths of lists up to 257: users of a dimension, dimensions of a variable which are undefined, repeated, or misplaced; removal, renaming and addition at the first, middle and last position of lists of that length", nc), (nc * 8) as u64, move |i, ctx| {
            let mut g = Digits(i);
            let (kind, n) = (g.next(8), counts[g.next(nc)]);
            let a = |j: usize| name(&format!("a{}", j));
            let mut d = Def::default();
            let mut h: Vec<Ed> = vec![];
            match kind {
                0 | 1 => { // users among others
                    d = d.dim("e", 2).dim("d", 3);
                    for j in 0..n { d = d.var(a(j), TYS[j % 6], if kind == 0 || j % 3 != 1 { &["e", "d"] } else { &["e"] }); }
                    h.extend([Ed::RemDim("d"), Ed::RemDim("e"), Ed::RemVar(a(0)), Ed::RemDim("d"), Ed::RenDim("d", "z"), Ed::RemDim("z"), Ed::RemVar(a(n - 1)), Ed::RemDim("z"), Ed::RemVar(a(n / 2)), Ed::RemDim("z"), Ed::RemDim("e")]);
                }
                2 => { d = d.dim("d", 2); let mut l: Vec<S> = (0..n).map(a).collect(); h.push(Ed::Var("v", l.clone(), Ty::I8)); l.insert(n / 2, "d"); h.push(Ed::Var("v", l.clone(), Ty::I8)); l.insert(0, "d"); h.push(Ed::Var("v", l, Ty::I8)); }
                3 => { for j in 0..n { d = d.dim(a(j), 1); } d = d.unlim("u", 2); let l: Vec<S> = (0..n).map(a).collect(); for (x, at) in [("u", n), ("u", n / 2), ("u", 0)] { let mut k = l.clone(); k.insert(at, x); h.push(Ed::Var("v", k, Ty::I8)); h.push(Ed::RemVar("v")); } let mut k = l.clone(); k.push(a(n / 2)); h.push(Ed::Var("v", k, Ty::I8)); let mut k = l.clone(); k.insert(0, a(n - 1)); h.push(Ed::Var("v", k, Ty::I8)); h.push(Ed::Var("v", l, Ty::I8)); for j in [0, n / 2, n - 1] { h.push(Ed::RemDim(a(j))); } h.push(Ed::RemVar("v")); for j in [0, n / 2, n - 1] { h.push(Ed::RemDim(a(j))); } }
                _ => { // positions of the four kinds of lists
                    for j in 0..n { d = match kind { 4 => d.dim(a(j), j + 1), 5 => d.var(a(j), TYS[j % 6], &[]).vattr("k", val(Ty::I16, 1, j)), 6 => d.attr(a(j), val(TYS[j % 6], 1 + j % 3, j)), _ => { if j == 0 { d = d.var("v", Ty::I8, &[]); } d.vattr(a(j), val(TYS[j % 6], 1 + j % 3, j)) } }; }
                    for j in [n - 1, 0, n / 2, n / 3] {
                        let (x, y) = (a(j), a((j + 1) % n));
                        let e = |w: usize| match (kind, w) { (4, 0) => Ed::RenDim(x, "z"), (4, 1) => Ed::RenDim("z", y), (4, 2) => Ed::RemDim("z"), (4, 3) => Ed::Fixed(y, 3), (4, _) => Ed::Fixed(x, 3), (5, 0) => Ed::RenVar(x, "z"), (5, 1) => Ed::RenVar("z", y), (5, 2) => Ed::RemVar("z"), (5, 3) => Ed::Var(y, vec![], Ty::F64), (5, _) => Ed::Var(x, vec![], Ty::F64),
                            (6, 0) => Ed::RenG(x, "z"), (6, 1) => Ed::RenG("z", y), (6, 2) => Ed::RemG("z"), (6, 3) => Ed::G(y, txt("y"), How::Str), (6, _) => Ed::G(x, txt("x"), How::Str), (_, 0) => Ed::RenVA("v", x, "z"), (_, 1) => Ed::RenVA("v", "z", y), (_, 2) => Ed::RemVA("v", "z", How::Plain), (_, 3) => Ed::VA("v", y, txt("y"), How::Str), (_, _) => Ed::VA("v", x, txt("x"), How::Mut) };
                        for w in 0..5 { h.push(e(w)); }
                    }
                }
            }
            let ds = bind::build(&d).map_err(|e| format!("{:?}", e))?;
            let k = h.len();
            let x = run(ctx, d, ds, &h.iter().collect::<Vec<_>>(), k)?;
            ctx.state(&x);
            Ok(())
        }));
        let (lnames, depth): ([S; 6], usize) = (["d", "e", "u", "x", "y", "D"], if th { 6 } else { 5 });
        f.push(fam("dimension_lists", &format!("a variable of every list of up to {} dimensions among 3 defined (one unlimited) and 3 undefined ones: accepted, or refused for a rule it breaks with the lists of dimensions concerned", depth), nseqs(6, depth), move |i, ctx| {
            let d = Def::default().dim("d", 2).unlim("u", 2).dim("e", 3);
            let l: Vec<S> = seq(i, 6).into_iter().map(|k| lnames[k]).collect();
            for v in ["v", "ww"] {
                let ds = bind::build(&d).map_err(|e| format!("{:?}", e))?;
                let x = run(ctx, d.clone(), ds, &[&Ed::Var(v, l.clone(), Ty::I16)], 1)?;
                ctx.state(&x);
            }
            Ok(())
        }));
    }
    {
        use crate::spaces::*;
        f.push(fam("crossed_edits", &format!("{}: every edit of every element of every list (removal, renaming to every name used anywhere and to a new one, additions of all those names to every list) alone, and after {}", CROSSED_BOUND, if th { "every removal, renaming to a new name, and addition of a new name" } else { "every removal (3 of the styles of names, 2 of the ways to give attributes)" }), CROSSED_SMALL, move |i, ctx| {
            let d = crossed_small(i);
            let (style, deco) = (i as usize % NAMINGS, i as usize / NAMINGS % DECOS);
            let mut names: Vec<S> = d.dims.iter().map(|x| &x.name).chain(d.vars.iter().map(|x| &x.name)).chain(d.attrs.iter().map(|x| &x.name)).chain(d.vars.iter().flat_map(|v| v.attrs.iter().map(|a| &a.name))).map(|s| name(s)).collect();
            names.push("zz");
            names.sort(); names.dedup();
            let (mut removals, mut news, mut others) = (vec![], vec![], vec![]);
            for x in &d.dims { let x = name(&x.name); removals.push(Ed::RemDim(x)); for y in &names { if *y == "zz" { &mut news } else { &mut others }.push(Ed::RenDim(x, y)); } }
            for x in &d.attrs { let x = name(&x.name); removals.push(Ed::RemG(x)); for y in &names { if *y == "zz" { &mut news } else { &mut others }.push(Ed::RenG(x, y)); } }
            for (k, v) in d.vars.iter().enumerate() {
                let x = name(&v.name);
                removals.push(Ed::RemVar(x));
                for y in &names { if *y == "zz" { &mut news } else { &mut others }.push(Ed::RenVar(x, y)); }
                for a in &v.attrs { let a = name(&a.name); removals.push(Ed::RemVA(x, a, [How::Plain, How::Mut][k % 2])); for y in &names { if *y == "zz" { &mut news } else { &mut others }.push(Ed::RenVA(x, a, y)); } }
                for y in &names { if *y == "zz" { &mut news } else { &mut others }.push(Ed::VA(x, y, val(TYS[k], 3, 5), [How::Mut, How::Plain][k % 2])); }
            }
            let dn: Vec<S> = d.dims.iter().map(|x| name(&x.name)).collect();
            for y in &names {
                let to = if *y == "zz" { &mut news } else { &mut others };
                to.extend([Ed::Fixed(y, 6), Ed::Unlim(y, 4), Ed::Var(y, dn.iter().rev().take(2).copied().collect(), Ty::I16), Ed::Var(y, dn.iter().take(1).copied().collect(), Ty::F64), Ed::G(y, txt("new"), How::Str)]);
            }
            let all: Vec<&Ed> = removals.iter().chain(&news).chain(&others).collect();
            let one = |ctx: &mut Ctx, h: &[&Ed]| -> Result<(), String> {
                let ds = bind::build(&d).map_err(|e| format!("{:?}", e))?;
                let x = run(ctx, d.clone(), ds, h, 1).map_err(|e| format!("from {:?}\n{}", d, e))?;
                if h.len() == 1 { ctx.state(&x); }
                Ok(())
            };
            for e in &all { one(ctx, &[e])?; }
            let firsts: Vec<&Ed> = if th { removals.iter().chain(&news).collect() } else if [1, 4, 8].contains(&style) && [0, 4].contains(&deco) { removals.iter().collect() } else { vec![] };
            for a in &firsts { for b in &all { one(ctx, &[a, b])?; } }
            Ok(())
        }));
    }
    // renaming a dimension through chains: the dimension is renamed for every variable using it
    // what was looked up long ago
    {
        let ns: Vec<usize> = if th { (0..=600).collect() } else { (0..=20).chain(28..=36).chain(48..=52).chain(60..=68).chain(84..=88).chain(98..=101).chain(124..=132).chain(168..=172).chain(250..=260).chain(509..=513).collect() };
        let nn = ns.len();
        let start = || Def::default().dim("d", 2).dim("e", 3).unlim("u", 2).attr("g", val(Ty::I16, 2, 1)).attr("h", val(Ty::F64, 1, 2)).var("v", Ty::I16, &["d"]).vattr("q", val(Ty::I8, 3, 3)).vattr("r", val(Ty::I32, 1, 4)).var("w", Ty::F64, &["d"]).vattr("q", val(Ty::F32, 2, 5)).var("x", Ty::I8, &["u", "d"]);
        let firsts: Vec<Vec<Ed>> = vec![
            vec![], vec![Ed::RemVar("v")], vec![Ed::RemVar("w")], vec![Ed::RemVar("x")], vec![Ed::RenVar("v", "y")], vec![Ed::RenVar("w", "y")], vec![Ed::RemVar("v"), Ed::RenVar("x", "v")], vec![Ed::RenVar("v", "y"), Ed::RenVar("w", "v")],
            vec![Ed::RemG("g")], vec![Ed::RemG("h")], vec![Ed::RenG("g", "k")], vec![Ed::RemG("g"), Ed::RenG("h", "g")], vec![Ed::RemVA("v", "q", How::Plain)], vec![Ed::RemVA("v", "r", How::Mut)], vec![Ed::RenVA("v", "q", "s")], vec![Ed::RemVA("v", "q", How::Plain), Ed::RenVA("v", "r", "q")],
            vec![Ed::RemDim("e")], vec![Ed::RenDim("d", "f")], vec![Ed::RenDim("e", "f")], vec![Ed::RenDim("d", "f"), Ed::RenDim("e", "d")], vec![Ed::RemVar("x"), Ed::RemDim("u")],
            vec![Ed::RemVar("zz")], vec![Ed::RemDim("d")], vec![Ed::RemG("zz")],
        ];
        let (nf, nk) = (firsts.len(), 13);
        f.push(fam("distant", &format!("a data set looked up completely, then {} kinds of edits, then N edits of one of {} kinds without any look-up in between (additions of variables, attributes or dimensions, renamings to and fro, additions and removals, refused edits), N among {} values up to {}, then the first edits again: compared completely before and after", nf, nk, nn, ns[nn - 1]), (nf * nk * nn) as u64, move |i, ctx| {
            let mut g = Digits(i);
            let (first, k, n) = (&firsts[g.next(nf)], g.next(nk), ns[g.next(nn)]);
            let mut d = start();
            let mut ds = bind::build(&d).map_err(|e| format!("{:?}", e))?;
            let m = |x: String| format!("looked up, then {:?}, then {} edits of kind {}: {}", first, n, k, x);
            same(&d, &ds, true).map_err(m)?;
            for z in ["w", "v", "d", "g", "q"] { probe_name(&ds, &d, z).map_err(m)?; }
            for e in first { step(&mut d, &mut ds, e).map_err(m)?; }
            let owner: S = if d.vars.iter().any(|v| v.name == "w") { "w" } else { "x" };
            let base = d.clone();
            for j in 0..n {
                let z = name(&format!("z{}", j));
                let e = match k {
                    0 => Ed::Var(z, vec![], TYS[j % 6]), 1 => Ed::G(z, val(Ty::I8, 1, j), How::Plain), 2 => Ed::Fixed(z, 1 + j), 3 => Ed::VA(owner, z, val(Ty::I8, 1, j), How::Plain),
                    4 => if j % 2 == 0 { Ed::G("z", val(Ty::I8, 1, j), How::Plain) } else { Ed::RemG("z") }, 5 => if j % 2 == 0 { Ed::Fixed("z", 4) } else { Ed::RemDim("z") },
                    6 => if j % 2 == 0 { Ed::Var("z", vec![], Ty::I8) } else { Ed::RemVar("z") }, 7 => if j % 2 == 0 { Ed::VA(owner, "z", val(Ty::I8, 1, j), How::Mut) } else { Ed::RemVA(owner, "z", How::Plain) },
                    8 => if j % 2 == 0 { Ed::RenVar(owner, "z") } else { Ed::RenVar("z", owner) }, 9 => if j % 2 == 0 { Ed::Var("y", vec![], Ty::F32) } else { Ed::RenVar("y", z) },
                    10 => Ed::RemVar("zz"), 11 => Ed::RemG("zz"), _ => match j % 4 { 0 => Ed::Var(z, vec![], TYS[j % 6]), 1 => Ed::G(z, val(Ty::I8, 1, j), How::Plain), 2 => Ed::Fixed(z, 1), _ => Ed::VA(owner, z, val(Ty::I8, 1, j), How::Plain) },
                };
                // the model of a plain addition, without copying what is there
                match (k, &e) {
                    (0, Ed::Var(..)) | (1, Ed::G(..)) | (2, Ed::Fixed(..)) | (3, Ed::VA(..)) | (12, _) => {
                        match &e { Ed::Var(z, _, t) => d = std::mem::take(&mut d).var(z, *t, &[]), Ed::G(z, v, _) => d = std::mem::take(&mut d).attr(z, v.clone()), Ed::Fixed(z, s) => d = std::mem::take(&mut d).dim(z, *s), Ed::VA(o, z, v, _) => { let x = d.vars.iter_mut().find(|x| x.name == *o).unwrap(); x.attrs.push(Attr { name: z.to_string(), val: v.clone() }) } _ => unreachable!() }
                        let r = real(&mut ds, &e);
                        ck!(matches!(r, Some(Ok(_))), "{}", m(format!("{:?} is legal but is refused: {:?}", e, r)));
                    }
                    _ => { step(&mut d, &mut ds, &e).map_err(m)?; }
                }
            }
            for z in ["v", "w", "x", "y", "g", "h", "k", "q", "r", "d", "e", "f"] { probe_name(&ds, &d, z).map_err(|e| m(format!("{:?} afterwards: {}", z, e)))?; }
            same(&d, &ds, true).map_err(m)?;
            let _ = base;
            for e in first { step(&mut d, &mut ds, e).map_err(m)?; }
            same(&d, &ds, true).map_err(m)?;
            ctx.op(n as u64 + 3); ctx.trace(); ctx.state(&i);
            Ok(())
        }));
    }
    f.push(fam("limits", "sizes around the maximum of a fixed dimension and the number of dimensions of a variable around its maximum", 40, move |i, ctx| {
        if i < 30 {
            let near: [usize; 15] = [0, 1, 2, 3, NC_MAX_DIM_SIZE - 1, NC_MAX_DIM_SIZE, NC_MAX_DIM_SIZE + 1, i32::MAX as usize - 4, i32::MAX as usize - 3, i32::MAX as usize - 2, i32::MAX as usize, i32::MAX as usize + 1, u32::MAX as usize, 1 << 40, usize::MAX];
            let n = near[(i % 15) as usize];
            let e = if i < 15 { Ed::Fixed("d", n) } else { Ed::Unlim("u", n) };
            let d = run(ctx, Def::default(), DataSet::new(), &[&e, &Ed::Var("v", vec![], Ty::I8)], 2)?;
            ctx.state(&d);
        } else {
            let n = [0usize, 1, 2, 1022, 1023, 1024, 1025, 1026, 2048, NC_MAX_VAR_DIMS][(i - 30) as usize];
            let mut d = Def::default();
            let names: Vec<String> = (0..n).map(|k| format!("d{}", k)).collect();
            for x in &names { d = d.dim(x, 1); }
            let mut ds = bind::build(&d).map_err(|e| format!("{:?}", e))?;
            let refs: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            let r = ds.add_var("v", &refs, netcdf3::DataType::I16);
            if n <= 1024 { ck!(r.is_ok(), "a variable of {} dimensions is refused: {:?}", n, r); d = d.var("v", Ty::I16, &refs); }
            else { ck!(r == Err(E::MaximumDimensionsPerVariableExceeded { var_name: "v".into(), num_dims: n }), "a variable of {} dimensions: {:?}", n, r); }
            same(&d, &ds, false)?;
            ctx.state(&d); ctx.op(1); ctx.trace();
        }
        Ok(())
    }));
    f
}
