//! C19: two data sets, dimensions, variables, attributes or vectors are equal exactly when they
//! describe the same thing, wherever they come from.
use crate::bind;
use crate::c_edit::{self, Ed};
use crate::c_read;
use crate::model::*;
use crate::runner::*;
use crate::spaces::*;
use netcdf3::{DataSet, DataVector, FileReader, FileWriter};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

/// Values are compared as numbers: `f32` and `f64` as IEEE-754 does.
pub fn val_eq(a: &Val, b: &Val) -> bool {
    if a.ty != b.ty || a.raw.len() != b.raw.len() { return false; }
    match a.ty {
        Ty::F32 => a.raw.chunks(4).zip(b.raw.chunks(4)).all(|(x, y)| f32::from_be_bytes(x.try_into().unwrap()) == f32::from_be_bytes(y.try_into().unwrap())),
        Ty::F64 => a.raw.chunks(8).zip(b.raw.chunks(8)).all(|(x, y)| f64::from_be_bytes(x.try_into().unwrap()) == f64::from_be_bytes(y.try_into().unwrap())),
        _ => a.raw == b.raw,
    }
}
fn attr_eq(a: &Attr, b: &Attr) -> bool { a.name == b.name && val_eq(&a.val, &b.val) }
fn attrs_eq(a: &[Attr], b: &[Attr]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| attr_eq(x, y)) }
fn var_eq(da: &Def, a: &Var, db: &Def, b: &Var) -> bool {
    a.name == b.name && a.ty == b.ty && a.dims.len() == b.dims.len() && a.dims.iter().zip(&b.dims).all(|(x, y)| da.dims[*x] == db.dims[*y]) && attrs_eq(&a.attrs, &b.attrs)
}
pub fn def_eq(a: &Def, b: &Def) -> bool { a.dims == b.dims && attrs_eq(&a.attrs, &b.attrs) && a.vars.len() == b.vars.len() && a.vars.iter().zip(&b.vars).all(|(x, y)| var_eq(a, x, b, y)) }

/// Compares two data sets and all their parts.
fn compare(da: &Def, a: &DataSet, db: &Def, b: &DataSet, parts: bool) -> Result<(), String> {
    let e = def_eq(da, db);
    let what = |x: bool| if x { "equal" } else { "different" };
    ck!((a == b) == e && (b == a) == e && (a != b) != e && (b != a) != e, "the data sets are {} but compare {} / {}\n  {:?}\n  {:?}", what(e), what(a == b), what(b == a), da, db);
    itself(da, a)?;
    itself(db, b)?;
    if !parts { return Ok(()); }
    for (x, dx) in a.get_dims().iter().zip(&da.dims) { for (y, dy) in b.get_dims().iter().zip(&db.dims) {
        let e = dx == dy;
        ck!((x == y) == e && (**y == **x) == e, "dimensions {:?} and {:?} are {} but compare {}", dx, dy, what(e), what(x == y));
    } }
    let attrs = |l: Vec<&netcdf3::Attribute>, dl: &[Attr], m: Vec<&netcdf3::Attribute>, dm: &[Attr]| -> Result<(), String> {
        for (x, dx) in l.iter().zip(dl) { for (y, dy) in m.iter().zip(dm) {
            let e = attr_eq(dx, dy);
            ck!((x == y) == e && (y == x) == e, "attributes {:?} and {:?} are {} but compare {}", dx, dy, what(e), what(x == y));
        } }
        Ok(())
    };
    attrs(a.get_global_attrs(), &da.attrs, b.get_global_attrs(), &db.attrs)?;
    for (x, dx) in a.get_vars().iter().zip(&da.vars) {
        attrs(x.get_attrs(), &dx.attrs, b.get_global_attrs(), &db.attrs)?;
        for (y, dy) in b.get_vars().iter().zip(&db.vars) {
            let e = var_eq(da, dx, db, dy);
            ck!((x == y) == e && (y == x) == e && (x != y) != e, "variables {:?} and {:?} are {} but compare {}\n  of {:?}\n  of {:?}", dx.name, dy.name, what(e), what(x == y), da, db);
            attrs(x.get_attrs(), &dx.attrs, y.get_attrs(), &dy.attrs)?;
        }
    }
    Ok(())
}
/// An object compared with itself is equal unless it holds a NaN.
#[allow(clippy::eq_op)]
fn itself(d: &Def, ds: &DataSet) -> Result<(), String> {
    let e = def_eq(d, d);
    ck!((ds == ds) == e && (ds != ds) != e, "the data set compares {} to itself: {:?}", ds == ds, d);
    for x in ds.get_dims() { ck!(x == x && *x == *x, "dimension {:?} is not equal to itself", x); }
    for (x, dx) in ds.get_global_attrs().into_iter().zip(&d.attrs) { let e = attr_eq(dx, dx); ck!((x == x) == e && (*x != *x) != e, "attribute {:?} compares {} to itself", dx, x == x); }
    for (x, dx) in ds.get_vars().into_iter().zip(&d.vars) {
        let e = attrs_eq(&dx.attrs, &dx.attrs);
        ck!((*x == *x) == e && (*x != *x) != e, "variable {:?} compares {} to itself", dx, *x == *x);
        for (x, dx) in x.get_attrs().into_iter().zip(&dx.attrs) { let e = attr_eq(dx, dx); ck!((*x == *x) == e && (*x != *x) != e, "attribute {:?} compares {} to itself", dx, x == x); }
    }
    Ok(())
}
/// A clone of a part is equal to the part (but for NaN) and is independent of later edits of it.
fn clones(d: &Def, ds: &mut DataSet) -> Result<(), String> {
    for (x, dx) in ds.get_dims().iter().zip(&d.dims) { let c = (**x).clone(); ck!(c == **x && c.name() == dx.name && c.size() == dx.size && c.is_unlimited() == dx.unlim, "clone of dimension {:?}", dx); }
    for (x, dx) in ds.get_global_attrs().iter().zip(&d.attrs) { let c = (*x).clone(); ck!((c == **x) == val_eq(&dx.val, &dx.val) && c.name() == dx.name && c.len() == dx.val.len(), "clone of attribute {:?}", dx); }
    for dv in &d.vars {
        let own = attrs_eq(&dv.attrs, &dv.attrs);
        let c = ds.get_var(&dv.name).ok_or("variable not found")?.clone();
        ck!((c == *ds.get_var(&dv.name).unwrap()) == own && c.name() == dv.name && bind::ty(&c.data_type()) == dv.ty && c.num_attrs() == dv.attrs.len() && c.num_dims() == dv.dims.len(), "clone of variable {:?}", dv.name);
        if dv.attrs.iter().any(|a| a.name == "later") { continue; }
        ds.add_var_attr_i8(&dv.name, "later", vec![1]).map_err(|e| format!("{:?}", e))?;
        ck!(c != *ds.get_var(&dv.name).unwrap() && !c.has_attr("later") && c.num_attrs() == dv.attrs.len(), "the clone of variable {:?} follows the edits of the original", dv.name);
        ds.remove_var_attr(&dv.name, "later").map_err(|e| format!("{:?}", e))?;
        ck!((c == *ds.get_var(&dv.name).unwrap()) == own, "clone of variable {:?} after an edit and its inverse", dv.name);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ near misses
fn bases() -> Vec<Def> {
    let t = |s: &str| Val::new(Ty::U8, s.as_bytes().to_vec());
    vec![
        Def::default().dim("a", 2),
        Def::default().dim("a", 2).unlim("u", 3).dim("b", 4).attr("g", Val::pattern(Ty::I16, 2, 1)).attr("h", t("ab")).var("v", Ty::I16, &["u", "a"]).vattr("q", Val::pattern(Ty::I32, 1, 3)).vattr("r", t("x")).var("w", Ty::U8, &["b"]).var("x", Ty::F64, &[]),
        Def::default().attr("c", Val::pattern(Ty::I8, 2, 1)).attr("d", Val::pattern(Ty::F32, 2, 1)).attr("e", Val::pattern(Ty::F64, 1, 5)).attr("f", Val::pattern(Ty::U8, 5, 1)).attr("g", Val::empty(Ty::I32)),
        Def::default().unlim("u", 0).dim("a", 1).dim("b", 1).var("v", Ty::I8, &["u", "a", "b"]).var("w", Ty::I8, &["u", "b", "a"]).var("x", Ty::I8, &["u", "a", "b"]),
        Def::default().var("v", Ty::F32, &[]).vattr("q", Val::pattern(Ty::F32, 1, 1)).vattr("r", Val::pattern(Ty::F32, 1, 1)).var("w", Ty::F32, &[]).vattr("q", Val::pattern(Ty::F32, 1, 1)),
        Def::default().dim("a", 3).dim("b", 3).unlim("c", 3).var("a", Ty::I16, &["a"]).vattr("a", t("a")).var("b", Ty::I16, &["b"]).vattr("a", t("b")).var("c", Ty::I16, &["c"]).attr("a", t("a")),
    ]
}
fn attr_mutants(l: &[Attr]) -> Vec<Vec<Attr>> {
    let mut o = vec![];
    let mut put = |i: usize, a: Option<Attr>| { let mut m = l.to_vec(); match a { Some(a) => m[i] = a, None => { m.remove(i); } } o.push(m); };
    for (i, a) in l.iter().enumerate() {
        let name = |n: String| Attr { name: n, val: a.val.clone() };
        put(i, None);
        put(i, Some(name(format!("{}_", a.name)))); put(i, Some(name(a.name.to_uppercase()))); put(i, Some(name(format!("{}\u{301}", a.name)))); put(i, Some(name(format!("{} ", a.name))));
        let with = |ty: Ty, raw: Vec<u8>| Attr { name: a.name.clone(), val: Val::new(ty, raw) };
        for ty in TYS { if ty != a.val.ty && a.val.raw.len() % ty.size() == 0 { put(i, Some(with(ty, a.val.raw.clone()))); } if ty != a.val.ty && ty.size() != a.val.ty.size() { put(i, Some(Attr { name: a.name.clone(), val: Val::pattern(ty, a.val.len(), 1) })); } }
        for k in 0..a.val.raw.len() { for bit in [0x01, 0x80] { let mut r = a.val.raw.clone(); r[k] ^= bit; put(i, Some(with(a.val.ty, r))); } }
        let (s, ty) = (a.val.ty.size(), a.val.ty);
        let mut r = a.val.raw.clone(); r.extend(vec![0; s]); put(i, Some(with(ty, r)));
        if a.val.len() > 0 { put(i, Some(with(ty, a.val.raw[s..].to_vec()))); put(i, Some(with(ty, a.val.raw[..a.val.raw.len() - s].to_vec()))); put(i, Some(with(ty, vec![]))); }
        if a.val.len() > 1 { let mut r = a.val.raw.clone(); r.rotate_left(s); put(i, Some(with(ty, r))); }
    }
    for i in 1..l.len() { let mut m = l.to_vec(); m.swap(i - 1, i); o.push(m); let mut m = l.to_vec(); let v = m[i].val.clone(); m[i].val = m[i - 1].val.clone(); m[i - 1].val = v; o.push(m); }
    let mut m = l.to_vec(); m.push(attr("more", Val::pattern(Ty::I16, 1, 1))); o.push(m);
    o
}
/// All single changes of a definition (those which are valid definitions), and itself.
fn mutants(d: &Def) -> Vec<Def> {
    let mut o = vec![d.clone()];
    for m in attr_mutants(&d.attrs) { let mut x = d.clone(); x.attrs = m; o.push(x); }
    for i in 0..d.vars.len() {
        for m in attr_mutants(&d.vars[i].attrs) { let mut x = d.clone(); x.vars[i].attrs = m; o.push(x); }
        for ty in TYS { if ty != d.vars[i].ty { let mut x = d.clone(); x.vars[i].ty = ty; o.push(x); } }
        for n in ["_", " ", "\u{301}"] { let mut x = d.clone(); x.vars[i].name.push_str(n); o.push(x); }
        let mut x = d.clone(); x.vars[i].name = d.vars[i].name.to_uppercase(); o.push(x);
        let mut x = d.clone(); x.vars.remove(i); o.push(x);
        if i > 0 { let mut x = d.clone(); x.vars.swap(i - 1, i); o.push(x); let mut x = d.clone(); let n = x.vars[i].name.clone(); x.vars[i].name = x.vars[i - 1].name.clone(); x.vars[i - 1].name = n; o.push(x);
            let mut x = d.clone(); let n = x.vars[i].attrs.clone(); x.vars[i].attrs = x.vars[i - 1].attrs.clone(); x.vars[i - 1].attrs = n; o.push(x); }
        // every other list of up to 3 dimensions
        let nd = d.dims.len();
        for k in 0..nseqs(nd, 3) { let l = seq(k, nd); if l != d.vars[i].dims { let mut x = d.clone(); x.vars[i].dims = l; o.push(x); } }
        // an attribute moved elsewhere
        if let Some(a) = d.vars[i].attrs.last() { let mut x = d.clone(); x.vars[i].attrs.pop(); x.attrs.push(a.clone()); o.push(x); for j in 0..d.vars.len() { if j != i { let mut x = d.clone(); x.vars[i].attrs.pop(); x.vars[j].attrs.push(a.clone()); o.push(x); } } }
    }
    for i in 0..d.dims.len() {
        for n in ["_", " ", "\u{301}"] { let mut x = d.clone(); x.dims[i].name.push_str(n); o.push(x); }
        let mut x = d.clone(); x.dims[i].name = d.dims[i].name.to_uppercase(); o.push(x);
        for s in [d.dims[i].size + 1, d.dims[i].size.wrapping_sub(1), d.dims[i].size + 256, d.dims[i].size + 65536] { if s < 1 << 30 { let mut x = d.clone(); x.dims[i].size = s; o.push(x); } }
        let mut x = d.clone(); x.dims[i].unlim = !d.dims[i].unlim; o.push(x.clone());
        for y in x.dims.iter_mut() { y.unlim = false; } o.push(x.clone());
        for j in 0..d.dims.len() { if j != i { let mut y = x.clone(); y.dims[j].unlim = true; o.push(y); } }
        if i > 0 { // exchanged: the variables follow or not; the names only
            let mut x = d.clone(); x.dims.swap(i - 1, i); o.push(x.clone());
            for v in x.vars.iter_mut() { for k in v.dims.iter_mut() { if *k == i { *k = i - 1 } else if *k == i - 1 { *k = i } } } o.push(x);
            let mut x = d.clone(); let n = x.dims[i].name.clone(); x.dims[i].name = x.dims[i - 1].name.clone(); x.dims[i - 1].name = n; o.push(x);
        }
        if !d.vars.iter().any(|v| v.dims.contains(&i)) { let mut x = d.clone(); x.dims.remove(i); for v in x.vars.iter_mut() { for k in v.dims.iter_mut() { if *k > i { *k -= 1 } } } o.push(x); }
    }
    o.push(d.clone().dim("more", 2)); o.push(d.clone().unlim("more", 2)); o.push(d.clone().var("more", Ty::I8, &[])); o.push(Def::default());
    o.retain(|x| invalid(x).is_none() && x.dims.iter().all(|y| y.unlim || y.size > 0));
    let mut u: Vec<Def> = vec![];
    for x in o { if !u.contains(&x) { u.push(x); } }
    u
}
const WAYS: [&str; 6] = ["built", "read from a classic file", "read from a 64-bit offset file", "built under other names and renamed", "built with more and cut down", "built interleaved"];
fn obtain(ctx: &Ctx, d: &Def, way: usize) -> Result<DataSet, String> {
    let er = |e: netcdf3::InvalidDataSet| format!("{:?}", e);
    Ok(match way {
        0 => bind::build(d).map_err(er)?,
        1 | 2 => {
            let p = ctx.path("eq.nc");
            let ver = [Ver::V1, Ver::V2][way - 1];
            std::fs::write(&p, encode_file(d, &empty_data(d), ver, 0, true)).unwrap();
            let r = FileReader::open(&p).map_err(|e| format!("open: {:?}", e))?;
            let x = r.close().0;
            std::fs::remove_file(&p).unwrap();
            x
        }
        3 => {
            let mut e = d.clone();
            for x in e.dims.iter_mut() { x.name = format!("0{}", x.name); }
            for x in e.attrs.iter_mut() { x.name = format!("0{}", x.name); }
            for v in e.vars.iter_mut() { v.name = format!("0{}", v.name); for x in v.attrs.iter_mut() { x.name = format!("0{}", x.name); } }
            let mut ds = bind::build(&e).map_err(er)?;
            for (x, y) in e.dims.iter().zip(&d.dims) { ds.rename_dim(&x.name, &y.name).map_err(er)?; }
            for (x, y) in e.attrs.iter().zip(&d.attrs) { ds.rename_global_attr(&x.name, &y.name).map_err(er)?; }
            for (v, w) in e.vars.iter().zip(&d.vars) { for (x, y) in v.attrs.iter().zip(&w.attrs) { ds.rename_var_attr(&v.name, &x.name, &y.name).map_err(er)?; } ds.rename_var(&v.name, &w.name).map_err(er)?; }
            ds
        }
        4 => { // an element before, between and after those of every list
            let mut e = Def::default();
            let extra = Val::pattern(Ty::I16, 1, 9);
            e = e.dim("00", 7);
            for x in &d.dims { e.dims.push(x.clone()); e = e.dim(&format!("0{}", x.name), 5); }
            if !d.dims.iter().any(|x| x.unlim) { e = e.unlim("01", 4); }
            let pad = |l: &[Attr]| { let mut o = vec![attr("00", extra.clone())]; for a in l { o.push(a.clone()); o.push(attr(&format!("0{}", a.name), a.val.clone())); } o };
            e.attrs = pad(&d.attrs);
            let at = |k: usize| 2 * k + 1;
            e.vars.push(Var { name: "00".into(), ty: Ty::I8, dims: vec![0], attrs: vec![] });
            for v in &d.vars { let dims: Vec<usize> = v.dims.iter().map(|k| at(*k)).collect(); e.vars.push(Var { name: v.name.clone(), ty: v.ty, dims: dims.clone(), attrs: pad(&v.attrs) }); e.vars.push(Var { name: format!("0{}", v.name), ty: v.ty, dims, attrs: v.attrs.clone() }); }
            let mut ds = bind::build(&e).map_err(er)?;
            for x in &e.vars { if !d.vars.iter().any(|y| y.name == x.name) { ds.remove_var(&x.name).map_err(er)?; } }
            for v in &d.vars { for a in pad(&v.attrs) { if !v.attrs.iter().any(|y| y.name == a.name) { ds.remove_var_attr(&v.name, &a.name).map_err(er)?; } } }
            for x in &e.attrs { if !d.attrs.iter().any(|y| y.name == x.name) { ds.remove_global_attr(&x.name).map_err(er)?; } }
            for x in &e.dims { if !d.dims.iter().any(|y| y.name == x.name) { ds.remove_dim(&x.name).map_err(er)?; } }
            ds
        }
        _ => { // variables first as soon as their dimensions are there, attributes last, through get_var_mut
            let mut ds = DataSet::new();
            let mut nv = 0;
            let mut var = |ds: &mut DataSet, nd: usize| -> Result<(), String> {
                while nv < d.vars.len() && d.vars[nv].dims.iter().all(|k| *k < nd) { let v = &d.vars[nv]; let l: Vec<&str> = v.dims.iter().map(|k| d.dims[*k].name.as_str()).collect(); ds.add_var(&v.name, &l, bind::dt(v.ty)).map_err(er)?; nv += 1; }
                Ok(())
            };
            var(&mut ds, 0)?;
            for (i, x) in d.dims.iter().enumerate() { if x.unlim { ds.set_unlimited_dim(&x.name, x.size) } else { ds.add_fixed_dim(&x.name, x.size) }.map_err(er)?; var(&mut ds, i + 1)?; }
            for v in d.vars.iter().rev() { for a in &v.attrs { bind::add_attr_mut(ds.get_var_mut(&v.name).ok_or("variable not found")?, &a.name, &a.val).map_err(er)?; } }
            for a in &d.attrs { bind::add_global_attr(&mut ds, &a.name, &a.val).map_err(er)?; }
            ds
        }
    })
}
thread_local! { static POOL: RefCell<Option<(usize, Rc<Vec<Vec<DataSet>>>)>> = const { RefCell::new(None) }; static REACH: RefCell<Option<Rc<Vec<DataSet>>>> = const { RefCell::new(None) }; }

/// Values of a type which are easily confused.
fn special_values(t: Ty) -> Vec<Val> {
    let elems: Vec<Vec<u8>> = match t {
        Ty::I8 | Ty::U8 => vec![vec![0], vec![1], vec![0x7F], vec![0x80], vec![0x81], vec![0xFF], vec![0x20]],
        Ty::I16 => [0u16, 1, 0x100, 0x8000, 0x8001, 0x7FFF, 0xFFFF, 0x00FF].iter().map(|x| x.to_be_bytes().to_vec()).collect(),
        Ty::I32 => [0u32, 1, 0x0100_0000, 0x8000_0000, 0x8000_0001, 0x7FFF_FFFF, u32::MAX, 0x7FC0_0000, 16_777_216, 16_777_217].iter().map(|x| x.to_be_bytes().to_vec()).collect(),
        Ty::F32 => [0u32, 0x8000_0000, 1, 0x8000_0001, 0x3F80_0000, 0x3F80_0001, 0xBF80_0000, 0x7F80_0000, 0xFF80_0000, 0x7FC0_0000, 0x7FC0_0001, 0xFFC0_0000, 0x7F7F_FFFF, 0x7CF0_0000].iter().map(|x| x.to_be_bytes().to_vec()).collect(),
        Ty::F64 => [0u64, 1 << 63, 1, 0x3FF0 << 48, (0x3FF0 << 48) + 1, 0xBFF0 << 48, 0x7FF0 << 48, 0xFFF0 << 48, 0x7FF8 << 48, (0x7FF8 << 48) + 1, 0xFFF8 << 48, 0x7FEF_FFFF_FFFF_FFFF, 0x479E << 48, 0x4170_0000_1000_0000, 0x4170_0000_0000_0000].iter().map(|x| x.to_be_bytes().to_vec()).collect(),
    };
    let mut o = vec![Val::empty(t)];
    for a in &elems { o.push(Val::new(t, a.clone())); for b in &elems { o.push(Val::new(t, [&a[..], &b[..]].concat())); } }
    o
}

pub fn families(t: Tier) -> Vec<Family> {
    let th = t.thorough();
    let mut f = vec![];
    let all: Arc<Vec<Vec<Def>>> = Arc::new(bases().iter().map(mutants).collect());
    for (b, l) in all.iter().enumerate() {
        let all = all.clone();
        let n = l.len();
        let nw = WAYS.len();
        f.push(fam(&format!("near_misses_{}", b), &format!("definition #{} and all its single changes ({} definitions: names, sizes, kinds, types, each value, order, lists of dimensions, removals, moves), each obtained in {} ways ({}): all pairs of (definition, way), the data sets and all their parts, both directions; clones of the parts", b, n, nw, WAYS.join(", ")), n as u64, move |i, ctx| {
            let pool = POOL.with(|p| -> Result<_, String> {
                if let Some((k, x)) = &*p.borrow() { if *k == b { return Ok(x.clone()); } }
                let mut x = vec![];
                for d in &all[b] { x.push((0..nw).map(|w| obtain(ctx, d, w).map_err(|e| format!("{}: {}\n{:?}", WAYS[w], e, d))).collect::<Result<Vec<_>, _>>()?); }
                let x = Rc::new(x);
                *p.borrow_mut() = Some((b, x.clone()));
                Ok(x)
            })?;
            let i = i as usize;
            let d = &all[b][i];
            ctx.state(d); ctx.sample(|| format!("{:?}", d));
            for w in 0..nw {
                clones(d, &mut obtain(ctx, d, w)?)?;
                for j in 0..pool.len() { for v in 0..nw {
                    compare(d, &pool[i][w], &all[b][j], &pool[j][v], v == 0 || w == 0 || th).map_err(|e| format!("{}\n  ({} / {})", e, WAYS[w], WAYS[v]))?;
                    ctx.op(1);
                } }
                ctx.trace();
            }
            Ok(())
        }));
    }
    {
        let all2 = all.clone();
        let total: usize = all.iter().map(|l| l.len()).sum();
        f.push(fam("double_misses", &format!("the {} definitions above x all their own single changes: against the definition changed once and against the original one", total), total as u64, move |i, ctx| {
            let (mut b, mut k) = (0, i as usize);
            while k >= all2[b].len() { k -= all2[b].len(); b += 1; }
            let er = |e: netcdf3::InvalidDataSet| format!("{:?}", e);
            let (d0, d1) = (&all2[b][0], &all2[b][k]);
            let (x0, x1) = (bind::build(d0).map_err(er)?, bind::build(d1).map_err(er)?);
            for d2 in mutants(d1) {
                let x2 = bind::build(&d2).map_err(er)?;
                compare(d0, &x0, &d2, &x2, false)?; compare(d1, &x1, &d2, &x2, false)?;
                ctx.op(2);
            }
            ctx.state(d1); ctx.trace();
            Ok(())
        }));
        let lens: Vec<usize> = (1..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]).chain(if th { vec![511, 512, 513, 1000, 1023, 1024, 1025] } else { vec![] }).collect();
        let nl = lens.len();
        f.push(fam("positions", &format!("{} lengths up to {}: values of an attribute of 6 types, names, lists of dimensions, attributes, variables, attributes of a variable, dimensions of a variable; names, types, values, sizes, attributes or dimensions of these items: equal but for the element at each position, or for the length", nl, lens.last().unwrap()), (nl * 20) as u64, move |i, ctx| {
            let mut g = Digits(i);
            let (kind, n) = (g.next(20), lens[g.next(nl)]);
            let er = |e: netcdf3::InvalidDataSet| format!("{:?}", e);
            // the definition of length `n`, changed at position `at` (`n`: not at all)
            let make = |n: usize, at: usize| -> Option<Def> {
                let nm = |j: usize| if j == at { format!("X{}", j) } else { format!("x{}", j) };
                let mut d = Def::default();
                match kind {
                    0..=5 => { let mut v = Val::pattern(TYS[kind], n, 1); if at < n { let k = at * v.ty.size() + v.ty.size() - 1; v.raw[k] ^= 1; } d = d.attr("g", v.clone()).var("v", Ty::I8, &[]).vattr("q", v); }
                    6 => { if n > 256 { return None; } let s: String = (0..n).map(|j| if j == at { 'B' } else { (b'a' + (j % 26) as u8) as char }).collect(); d = d.dim(&s, 2).attr(&s, Val::pattern(Ty::I8, 1, 1)).var(&s, Ty::I8, &[&s]).vattr(&s, Val::pattern(Ty::I8, 1, 1)); }
                    7 => for j in 0..n { d = d.dim(&format!("x{}", j), if j == at { 3 } else { 2 }) },
                    8 => for j in 0..n { d = d.attr(&nm(j), Val::pattern(Ty::I16, 1, j)) },
                    9 => for j in 0..n { d = d.var(&nm(j), TYS[j % 6], &[]) },
                    10 => { d = d.var("v", Ty::I8, &[]); for j in 0..n { d = d.vattr(&format!("x{}", j), Val::pattern(Ty::I16, 1, if j == at { 1000 } else { 1 })) } }
                    12 => { d = d.var("v", Ty::I8, &[]); for j in 0..n { d = d.vattr(&nm(j), Val::pattern(Ty::I16, 1, 1)) } d = d.var("w", Ty::I8, &[]); }
                    13 => { d = d.var("v", Ty::I8, &[]); for j in 0..n { d = d.vattr(&format!("x{}", j), Val::new(if j == at { Ty::U8 } else { Ty::I8 }, vec![7])) } }
                    14 => for j in 0..n { d = d.dim(&nm(j), 2) },
                    15 => for j in 0..n { d = d.var(&format!("x{}", j), if j == at { Ty::U8 } else { Ty::I8 }, &[]) },
                    16 => for j in 0..n { d = d.attr(&format!("x{}", j), Val::new(if j == at { Ty::U8 } else { Ty::I8 }, vec![7])) },
                    17 => for j in 0..n { d = d.var(&format!("x{}", j), Ty::I16, &[]).vattr("q", Val::pattern(Ty::I16, 1, if j == at { 2 } else { 1 })) },
                    18 => { d = d.dim("a", 2).dim("b", 2); for j in 0..n { d = d.var(&format!("x{}", j), Ty::I16, if j == at { &["b"] } else { &["a"] }); } }
                    19 => for j in 0..n { d = d.attr(&format!("x{}", j), Val::pattern(Ty::F64, 2, if j == at { 2 } else { 1 })) },
                    _ => { if n > 1024 { return None; } for j in 0..=n { d = d.dim(&format!("x{}", j), 1); } let l: Vec<usize> = (0..n).map(|j| if j == at { n } else { j }).collect(); d.vars.push(Var { name: "v".into(), ty: Ty::I8, dims: l, attrs: vec![] }); }
                }
                Some(d)
            };
            let d = match make(n, usize::MAX) { Some(d) => d, None => return Ok(()) };
            let ds = bind::build(&d).map_err(er)?;
            let read = obtain(ctx, &d, 1)?;
            for at in 0..n {
                let e = make(n, at).unwrap();
                let es = bind::build(&e).map_err(er)?;
                compare(&d, &ds, &e, &es, n <= 40 && kind < 7)?; compare(&e, &es, &d, &read, false)?;
                ctx.op(2);
            }
            if n > 1 { let e = make(n - 1, usize::MAX).unwrap(); compare(&d, &ds, &e, &bind::build(&e).map_err(er)?, true)?; }
            compare(&d, &ds, &d, &read, n <= 64)?;
            ctx.state(&d); ctx.trace();
            Ok(())
        }));
    }
    {   // long values
        let lens: Vec<usize> = [512usize, 1024, 2048, 4096, 8192, 16384, 32768, 65536].iter().flat_map(|p| [*p, p + 1, p + p / 2 + 1]).chain([1000, 5000, 10_000, 70_001]).chain(if th { vec![131_072, 131_073, 262_145] } else { vec![] }).collect();
        let nl = lens.len();
        f.push(fam("long_positions", &format!("attributes of {} lengths up to {} of 6 types, global or of a variable: equal but for one value at both ends, near powers of two from both ends, in the middle, at thirds: data sets, parts and data vectors, built and read", nl, lens.iter().max().unwrap()), (nl * 12) as u64, move |i, ctx| {
            let mut g = Digits(i);
            let (t, var, n) = (TYS[g.next(6)], g.next(2) == 1, lens[g.next(nl)]);
            let make = |v: &Val| if var { Def::default().var("v", Ty::I8, &[]).vattr("q", v.clone()) } else { Def::default().attr("g", v.clone()).attr("h", Val::pattern(Ty::I8, 1, 1)) };
            let er = |e: netcdf3::InvalidDataSet| format!("{:?}", e);
            let v = Val::pattern(t, n, 1);
            let d = make(&v);
            let (ds, dv) = (bind::build(&d).map_err(er)?, bind::val_to_dv(&v));
            let read = obtain(ctx, &d, 1)?;
            compare(&d, &ds, &d, &read, true)?;
            let mut at: Vec<usize> = vec![0, 1, n / 2, n / 2 + 1, n / 3, 2 * n / 3, n / 4, 3 * n / 4, n - 1, n - 2];
            let mut p = 2; while p < n { at.extend([p - 1, p, p + 1, n - p, n - p - 1]); p *= 2; }
            at.retain(|k| *k < n); at.sort(); at.dedup();
            for k in at {
                let mut w = v.clone();
                let b = k * t.size() + t.size() - 1;
                w.raw[b] ^= 1;
                let e = make(&w);
                let es = bind::build(&e).map_err(er)?;
                compare(&d, &ds, &e, &es, true).map_err(|x| x.chars().take(2000).collect::<String>())?; compare(&e, &es, &d, &read, false).map_err(|x| x.chars().take(2000).collect::<String>())?;
                let eq = val_eq(&v, &w);
                let dw = bind::val_to_dv(&w);
                ck!((dv == dw) == eq && (dw == dv) == eq, "data vectors of {} values of {:?} which differ at {}: compare {}", n, t, k, dv == dw);
                ctx.op(3);
            }
            ctx.state(&i); ctx.trace();
            Ok(())
        }));
    }
    {
        let cap = if th { 4000 } else { 1500 };
        let g = Arc::new(c_edit::explore(c_edit::alpha_all(), cap));
        let n = g.states.len();
        f.push(fam("reachable", &format!("the first (breadth-first) {} data sets reachable by edits, obtained by their history: all pairs, against each other and against those built directly", n), n as u64, move |i, ctx| {
            let pool = REACH.with(|p| -> Result<_, String> {
                if let Some(x) = &*p.borrow() { return Ok(x.clone()); }
                let mut x = vec![];
                for j in 0..g.states.len() {
                    let mut ds = DataSet::new();
                    for e in g.history(j as u32) { match c_edit::real(&mut ds, e) { Some(Ok(_)) => {} r => return Err(format!("{:?} gives {:?}", e, r)) } }
                    x.push(ds);
                }
                let x = Rc::new(x);
                *p.borrow_mut() = Some(x.clone());
                Ok(x)
            })?;
            let d = &g.states[i as usize];
            ctx.state(d);
            let built = bind::build(d).map_err(|e| format!("{:?}", e))?;
            for j in 0..g.states.len() {
                let near = j == i as usize || j % 16 == i as usize % 16;
                let m = |e: String| format!("{}\n  the second one by {:?}", e, g.history(j as u32));
                compare(d, &pool[i as usize], &g.states[j], &pool[j], near).map_err(m)?;
                compare(d, &built, &g.states[j], &pool[j], false).map_err(m)?;
                ctx.op(2);
            }
            ctx.trace();
            Ok(())
        }));
        // along a history: an edit and its inverse give back an equal data set
        let al: Vec<(Ed, Ed)> = vec![
            (Ed::Fixed("n", 3), Ed::RemDim("n")), (Ed::RenDim("a", "z"), Ed::RenDim("z", "a")), (Ed::RenDim("u", "z"), Ed::RenDim("z", "u")), (Ed::RenDim("b", "u2"), Ed::RenDim("u2", "b")),
            (Ed::Var("n", vec![], Ty::I8), Ed::RemVar("n")), (Ed::Var("n", vec!["a"], Ty::F64), Ed::RemVar("n")), (Ed::RenVar("v", "z"), Ed::RenVar("z", "v")), (Ed::RenVar("w", "z"), Ed::RenVar("z", "w")),
            (Ed::G("n", Val::pattern(Ty::I8, 1, 1), c_edit::How::Plain), Ed::RemG("n")), (Ed::RenG("g", "z"), Ed::RenG("z", "g")),
            (Ed::VA("v", "n", Val::pattern(Ty::F32, 1, 1), c_edit::How::Mut), Ed::RemVA("v", "n", c_edit::How::Plain)), (Ed::VA("w", "n", Val::pattern(Ty::F32, 1, 1), c_edit::How::Plain), Ed::RemVA("w", "n", c_edit::How::Mut)), (Ed::RenVA("v", "q", "z"), Ed::RenVA("v", "z", "q")),
        ];
        let (al, bs) = (Arc::new(al), Arc::new(bases()));
        let (k, nb) = (al.len(), bs.len());
        let depth = if th { 4 } else { 3 };
        f.push(fam("undone", &format!("{} base definitions x all sequences of up to {} among {} edits which are legal, then their inverses in reverse order: the data set equals the one built directly at the start and at the end, and differs in between", nb, depth, k), nseqs(k, depth) * nb as u64, move |i, ctx| {
            let mut g = Digits(i);
            let base = &bs[g.next(nb)];
            let h = seq(g.0, k);
            let same = bind::build(base).map_err(|e| format!("{:?}", e))?;
            let (mut d, mut ds) = (base.clone(), bind::build(base).map_err(|e| format!("{:?}", e))?);
            let mut done = vec![];
            for x in &h {
                if !matches!(c_edit::model(&d, &al[*x].0), c_edit::Exp::Ok(..)) { continue; }
                c_edit::step(&mut d, &mut ds, &al[*x].0)?;
                done.push(*x);
                compare(&d, &ds, base, &same, true).map_err(|e| format!("after {:?}: {}", done, e))?;
            }
            for x in done.iter().rev() { match c_edit::model(&d, &al[*x].1) { c_edit::Exp::Ok(..) => { c_edit::step(&mut d, &mut ds, &al[*x].1)?; } _ => return Ok(()) } compare(&d, &ds, base, &same, false)?; }
            ctx.state(&d); ctx.op(2 * done.len() as u64); ctx.trace();
            Ok(())
        }));
    }
    {
        let l: Arc<Vec<Val>> = Arc::new(TYS.iter().flat_map(|t| special_values(*t)).collect());
        let n = l.len();
        f.push(fam("values", &format!("{} vectors of 0..2 special values of the 6 types (zeros of both signs, infinities, NaN, extrema, fill values): all pairs, as DataVector, as attributes, and as what is read from a file", n), n as u64, move |i, ctx| {
            let x = &l[i as usize];
            let (dx, dsx) = { let d = Def::default().attr("g", x.clone()).var("v", Ty::I8, &[]).vattr("g", x.clone()); let ds = bind::build(&d).map_err(|e| format!("{:?}", e))?; (d, ds) };
            let vx = bind::val_to_dv(x);
            // the same values read from a file
            let read = if x.len() > 0 {
                let d = Def::default().dim("a", x.len()).var("v", x.ty, &["a"]);
                let p = ctx.path("v.nc");
                std::fs::write(&p, c_read::library_file(&d, &vec![vec![Some(x.raw.clone())]], Ver::V1)).unwrap();
                Some(FileReader::open(&p).map_err(|e| format!("{:?}", e))?.read_var("v").map_err(|e| format!("{:?}", e))?)
            } else { None };
            ck!((vx == vx) == val_eq(x, x) && (vx != vx) != val_eq(x, x), "{:?}: DataVector compares {} to itself", x, vx == vx);
            if let Some(r) = &read { ck!((*r == *r) == val_eq(x, x), "{:?} read from a file: compares {} to itself", x, *r == *r); }
            for y in l.iter() {
                let e = val_eq(x, y);
                let vy = bind::val_to_dv(y);
                ck!((vx == vy) == e && (vy == vx) == e && (vx != vy) != e && (vx.clone() == vy) == e, "{:?} and {:?}: DataVector compare {}", x, y, vx == vy);
                if let Some(r) = &read { ck!((*r == vy) == e, "{:?} read from a file and {:?}: compare {}", x, y, *r == vy); }
                let d = Def::default().attr("g", y.clone()).var("v", Ty::I8, &[]).vattr("g", y.clone());
                let ds = bind::build(&d).map_err(|e| format!("{:?}", e))?;
                compare(&dx, &dsx, &d, &ds, true)?;
                ctx.op(1);
            }
            ctx.state(x); ctx.trace();
            let _: DataVector = vx;
            Ok(())
        }));
    }
    {   // what a writer is given is what a reader gives back
        let spaces = all_spaces(t);
        for s in spaces {
            let n = s.n;
            let gen = s.gen;
            f.push(fam(&format!("written_{}", s.name), &format!("{}: the data set given to the writer (before and after), the one of the writer and the one of the reader are equal", s.bound), n, move |i, ctx| {
                let d = match gen(i) { Some(d) => d, None => return Ok(()) };
                if def_eq(&d, &d) == false { ctx.count("definitions holding a NaN"); }
                let ds = bind::build(&d).map_err(|e| format!("{:?}", e))?;
                let other = bind::build(&d).map_err(|e| format!("{:?}", e))?;
                let p = ctx.path("w.nc");
                let mut w = FileWriter::open(&p).map_err(|e| format!("{:?}", e))?;
                w.set_def(&ds, [netcdf3::Version::Classic, netcdf3::Version::Offset64Bit][i as usize % 2].clone(), 0).map_err(|e| format!("{:?}", e))?;
                let e = def_eq(&d, &d);
                ck!((w.data_set() == Some(&other)) == e, "the data set of the writer is not equal to the one it was given: {:?}", d);
                // without filling the file: only the header is needed
                drop(w);
                let b = std::fs::read(&p).unwrap();
                let full = canonical_layout(&d, [Ver::V1, Ver::V2][i as usize % 2], 0, d.recsize_padded()).total as u64;
                if full < 1 << 40 { std::fs::OpenOptions::new().write(true).open(&p).unwrap().set_len(full.max(b.len() as u64)).unwrap(); }
                let r = FileReader::open(&p).map_err(|e| format!("{:?}", e))?;
                compare(&d, &ds, &d, r.data_set(), n < 5000 || i % 8 == 0)?;
                compare(&d, &other, &d, &r.close().0, false)?;
                ctx.op(3); ctx.trace(); ctx.state(&d);
                Ok(())
            }));
        }
    }
    f
}
fn all_spaces(t: Tier) -> Vec<Space> {
    let long = ["attr_u8_bytes", "header_shift", "counts"];
    crate::spaces::all(t).into_iter().filter(|s| t.thorough() || !long.contains(&s.name)).collect()
}
