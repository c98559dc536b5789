//! Binding between the reference model and the library (public API only).
#![allow(dead_code)]
use crate::model::*;
use netcdf3::{Attribute, DataSet, DataType, DataVector, DimensionType, FileReader, FileWriter, InvalidDataSet, ReadError, Variable, Version, WriteError};

pub fn dt(t: Ty) -> DataType { match t { Ty::I8 => DataType::I8, Ty::U8 => DataType::U8, Ty::I16 => DataType::I16, Ty::I32 => DataType::I32, Ty::F32 => DataType::F32, Ty::F64 => DataType::F64 } }
pub fn ty(d: &DataType) -> Ty { match d { DataType::I8 => Ty::I8, DataType::U8 => Ty::U8, DataType::I16 => Ty::I16, DataType::I32 => Ty::I32, DataType::F32 => Ty::F32, DataType::F64 => Ty::F64 } }
pub fn ver(v: Ver) -> Version { match v { Ver::V1 => Version::Classic, Ver::V2 => Version::Offset64Bit } }
pub fn unver(v: &Version) -> Ver { match v { Version::Classic => Ver::V1, Version::Offset64Bit => Ver::V2 } }

macro_rules! typed { ($raw:expr, $t:ty) => { $raw.chunks_exact(std::mem::size_of::<$t>()).map(|c| <$t>::from_be_bytes(c.try_into().unwrap())).collect::<Vec<$t>>() } }
macro_rules! untyped { ($s:expr) => { $s.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>() } }

pub fn dv_to_val(d: &DataVector) -> Val {
    let (t, raw) = match d {
        DataVector::I8(s) => (Ty::I8, untyped!(s)), DataVector::U8(s) => (Ty::U8, s.clone()), DataVector::I16(s) => (Ty::I16, untyped!(s)),
        DataVector::I32(s) => (Ty::I32, untyped!(s)), DataVector::F32(s) => (Ty::F32, untyped!(s)), DataVector::F64(s) => (Ty::F64, untyped!(s)),
    };
    Val::new(t, raw)
}
pub fn val_to_dv(v: &Val) -> DataVector {
    match v.ty {
        Ty::I8 => DataVector::I8(typed!(v.raw, i8)), Ty::U8 => DataVector::U8(v.raw.clone()), Ty::I16 => DataVector::I16(typed!(v.raw, i16)),
        Ty::I32 => DataVector::I32(typed!(v.raw, i32)), Ty::F32 => DataVector::F32(typed!(v.raw, f32)), Ty::F64 => DataVector::F64(typed!(v.raw, f64)),
    }
}

pub fn add_global_attr(ds: &mut DataSet, n: &str, v: &Val) -> Result<(), InvalidDataSet> {
    match v.ty {
        Ty::I8 => ds.add_global_attr_i8(n, typed!(v.raw, i8)), Ty::U8 => ds.add_global_attr_u8(n, v.raw.clone()), Ty::I16 => ds.add_global_attr_i16(n, typed!(v.raw, i16)),
        Ty::I32 => ds.add_global_attr_i32(n, typed!(v.raw, i32)), Ty::F32 => ds.add_global_attr_f32(n, typed!(v.raw, f32)), Ty::F64 => ds.add_global_attr_f64(n, typed!(v.raw, f64)),
    }
}
pub fn add_var_attr(ds: &mut DataSet, var: &str, n: &str, v: &Val) -> Result<(), InvalidDataSet> {
    match v.ty {
        Ty::I8 => ds.add_var_attr_i8(var, n, typed!(v.raw, i8)), Ty::U8 => ds.add_var_attr_u8(var, n, v.raw.clone()), Ty::I16 => ds.add_var_attr_i16(var, n, typed!(v.raw, i16)),
        Ty::I32 => ds.add_var_attr_i32(var, n, typed!(v.raw, i32)), Ty::F32 => ds.add_var_attr_f32(var, n, typed!(v.raw, f32)), Ty::F64 => ds.add_var_attr_f64(var, n, typed!(v.raw, f64)),
    }
}
pub fn add_attr_mut(var: &mut Variable, n: &str, v: &Val) -> Result<(), InvalidDataSet> {
    match v.ty {
        Ty::I8 => var.add_attr_i8(n, typed!(v.raw, i8)), Ty::U8 => var.add_attr_u8(n, v.raw.clone()), Ty::I16 => var.add_attr_i16(n, typed!(v.raw, i16)),
        Ty::I32 => var.add_attr_i32(n, typed!(v.raw, i32)), Ty::F32 => var.add_attr_f32(n, typed!(v.raw, f32)), Ty::F64 => var.add_attr_f64(n, typed!(v.raw, f64)),
    }
}
pub fn add_var_typed(ds: &mut DataSet, n: &str, dims: &[&str], t: Ty) -> Result<(), InvalidDataSet> {
    match t {
        Ty::I8 => ds.add_var_i8(n, dims), Ty::U8 => ds.add_var_u8(n, dims), Ty::I16 => ds.add_var_i16(n, dims),
        Ty::I32 => ds.add_var_i32(n, dims), Ty::F32 => ds.add_var_f32(n, dims), Ty::F64 => ds.add_var_f64(n, dims),
    }
}

pub fn build(def: &Def) -> Result<DataSet, InvalidDataSet> {
    let mut ds = DataSet::new();
    for d in &def.dims { if d.unlim { ds.set_unlimited_dim(&d.name, d.size)?; } else { ds.add_fixed_dim(&d.name, d.size)?; } }
    for a in &def.attrs { add_global_attr(&mut ds, &a.name, &a.val)?; }
    for (i, v) in def.vars.iter().enumerate() {
        let dims: Vec<&str> = v.dims.iter().map(|d| def.dims[*d].name.as_str()).collect();
        if i % 2 == 0 { add_var_typed(&mut ds, &v.name, &dims, v.ty)?; } else { ds.add_var(&v.name, &dims, dt(v.ty))?; }
        for a in &v.attrs { add_var_attr(&mut ds, &v.name, &a.name, &a.val)?; }
    }
    Ok(ds)
}

macro_rules! ck { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

fn snap_attr(a: &Attribute) -> Result<Attr, String> {
    let t = ty(&a.data_type());
    let raws: [Option<Vec<u8>>; 6] = [a.get_i8().map(|s| untyped!(s)), a.get_u8().map(|s| s.to_vec()), a.get_i16().map(|s| untyped!(s)), a.get_i32().map(|s| untyped!(s)), a.get_f32().map(|s| untyped!(s)), a.get_f64().map(|s| untyped!(s))];
    let mut raw = None;
    for (i, r) in raws.into_iter().enumerate() {
        if TYS[i] == t { ck!(r.is_some(), "attribute {:?}: typed getter of its own type {:?} gives None", a.name(), t); raw = r; }
        else { ck!(r.is_none(), "attribute {:?} of type {:?}: getter of {:?} gives a value", a.name(), t, TYS[i]); }
    }
    let val = Val::new(t, raw.unwrap());
    ck!(val.len() == a.len(), "attribute {:?}: len()={} but {} values", a.name(), a.len(), val.len());
    let s = a.get_as_string();
    let exp = if t == Ty::U8 { String::from_utf8(val.raw.clone()).ok() } else { None };
    ck!(s == exp, "attribute {:?}: get_as_string()={:?} expected {:?}", a.name(), s, exp);
    Ok(Attr { name: a.name().to_string(), val })
}

/// The definition as seen through all public getters, which must agree with each other.
pub fn snapshot(ds: &DataSet) -> Result<Def, String> {
    let mut def = Def::default();
    let dims = ds.get_dims();
    ck!(ds.num_dims() == dims.len(), "num_dims {} / get_dims {}", ds.num_dims(), dims.len());
    ck!(ds.dim_names() == dims.iter().map(|d| d.name()).collect::<Vec<_>>(), "dim_names disagree with get_dims");
    let mut unlim = None;
    for d in &dims {
        let n = d.name();
        ck!(d.is_unlimited() != d.is_fixed(), "dim {:?} both/neither unlimited and fixed", n);
        ck!((d.dim_type() == DimensionType::UnlimitedSize) == d.is_unlimited(), "dim_type of {:?}", n);
        ck!(!def.dims.iter().any(|x| x.name == n), "duplicate dimension name {:?}", n);
        ck!(ds.has_dim(&n) && ds.dim_size(&n) == Some(d.size()) && ds.dim_type(&n) == Some(d.dim_type()), "has_dim/dim_size/dim_type({:?}) disagree", n);
        ck!(ds.get_dim(&n).map(|x| std::rc::Rc::ptr_eq(&x, d)) == Some(true), "get_dim({:?})", n);
        if d.is_unlimited() { ck!(unlim.is_none(), "two unlimited dimensions"); unlim = Some(d.clone()); }
        def.dims.push(Dim { name: n, size: d.size(), unlim: d.is_unlimited() });
    }
    ck!(ds.has_unlimited_dim() == unlim.is_some(), "has_unlimited_dim");
    match (&unlim, ds.get_unlimited_dim()) { (None, None) => {} (Some(a), Some(b)) if std::rc::Rc::ptr_eq(a, &b) => {} _ => return Err("get_unlimited_dim disagrees".into()) }
    ck!(ds.num_records() == unlim.as_ref().map(|d| d.size()), "num_records {:?}", ds.num_records());
    let ids: Vec<usize> = (0..dims.len()).collect();
    match ds.get_dims_from_dim_ids(&ids) { Ok(v) => ck!(v.len() == dims.len() && v.iter().zip(&dims).all(|(a, b)| std::rc::Rc::ptr_eq(a, b)), "get_dims_from_dim_ids"), Err(e) => return Err(format!("get_dims_from_dim_ids: {:?}", e)) }
    ck!(ds.get_dims_from_dim_ids(&[dims.len()]).is_err(), "get_dims_from_dim_ids of an unknown id");

    let gattrs = ds.get_global_attrs();
    ck!(ds.num_global_attrs() == gattrs.len(), "num_global_attrs");
    ck!(ds.get_global_attr_names() == gattrs.iter().map(|a| a.name().to_string()).collect::<Vec<_>>(), "get_global_attr_names");
    for a in &gattrs {
        let s = snap_attr(a)?;
        let n = a.name();
        ck!(!def.attrs.iter().any(|x| x.name == n), "duplicate global attribute {:?}", n);
        ck!(ds.has_global_attr(n) && ds.get_global_attr_len(n) == Some(a.len()) && ds.get_global_attr_data_type(n) == Some(a.data_type()), "global attribute getters of {:?}", n);
        ck!(ds.get_global_attr(n).map(|x| std::ptr::eq(x, *a)) == Some(true), "get_global_attr({:?})", n);
        ck!(ds.get_global_attr_as_string(n) == a.get_as_string(), "get_global_attr_as_string({:?})", n);
        let r: [Option<Vec<u8>>; 6] = [ds.get_global_attr_i8(n).map(|s| untyped!(s)), ds.get_global_attr_u8(n).map(|s| s.to_vec()), ds.get_global_attr_i16(n).map(|s| untyped!(s)), ds.get_global_attr_i32(n).map(|s| untyped!(s)), ds.get_global_attr_f32(n).map(|s| untyped!(s)), ds.get_global_attr_f64(n).map(|s| untyped!(s))];
        for i in 0..6 { ck!(r[i].as_ref() == if TYS[i] == s.val.ty { Some(&s.val.raw) } else { None }, "get_global_attr_{:?}({:?})", TYS[i], n); }
        def.attrs.push(s);
    }
    let vars = ds.get_vars();
    ck!(ds.num_vars() == vars.len(), "num_vars");
    ck!(ds.get_var_names() == vars.iter().map(|v| v.name().to_string()).collect::<Vec<_>>(), "get_var_names");
    for v in &vars {
        let n = v.name();
        ck!(!def.vars.iter().any(|x| x.name == n), "duplicate variable {:?}", n);
        ck!(ds.has_var(n) && ds.get_var(n).map(|x| std::ptr::eq(x, *v)) == Some(true), "has_var/get_var({:?})", n);
        let vd = v.get_dims();
        ck!(v.num_dims() == vd.len() && v.dim_names() == vd.iter().map(|d| d.name()).collect::<Vec<_>>(), "dims getters of variable {:?}", n);
        let mut ids = vec![];
        for d in &vd {
            match dims.iter().position(|x| std::rc::Rc::ptr_eq(x, d)) { Some(i) => { ck!(!ids.contains(&i), "dimension repeated by variable {:?}", n); ids.push(i) } None => return Err(format!("variable {:?} uses a dimension {:?} which is not in the data set", n, d.name())) }
            ck!(v.use_dim(&d.name()), "use_dim({:?})", d.name());
        }
        for (i, d) in dims.iter().enumerate() { ck!(v.use_dim(&d.name()) == ids.contains(&i), "variable {:?} use_dim({:?})", n, d.name()); }
        ck!(ids.iter().skip(1).all(|i| !def.dims[*i].unlim), "unlimited dimension not first in variable {:?}", n);
        let attrs = v.get_attrs();
        ck!(v.num_attrs() == attrs.len() && v.get_attr_names() == attrs.iter().map(|a| a.name().to_string()).collect::<Vec<_>>(), "attribute getters of variable {:?}", n);
        ck!(ds.num_var_attrs(n) == Some(attrs.len()), "num_var_attrs({:?})", n);
        ck!(ds.get_var_attrs(n).map(|x| x.len()) == Some(attrs.len()), "get_var_attrs({:?})", n);
        let mut sattrs: Vec<Attr> = vec![];
        for a in &attrs {
            let s = snap_attr(a)?;
            let an = a.name();
            ck!(!sattrs.iter().any(|x| x.name == an), "duplicate attribute {:?} of variable {:?}", an, n);
            ck!(v.has_attr(an) && v.get_attr(an).map(|x| std::ptr::eq(x, *a)) == Some(true), "get_attr {:?}:{:?}", n, an);
            ck!(ds.has_var_attr(n, an) == Some(true) && ds.get_var_attr(n, an).map(|x| std::ptr::eq(x, *a)) == Some(true), "get_var_attr {:?}:{:?}", n, an);
            ck!(ds.get_var_attr_len(n, an) == Some(a.len()) && ds.get_var_attr_data_type(n, an) == Some(a.data_type()), "get_var_attr_len/data_type {:?}:{:?}", n, an);
            ck!(ds.get_var_attr_as_string(n, an) == a.get_as_string() && v.get_attr_as_string(an) == a.get_as_string(), "as_string {:?}:{:?}", n, an);
            let r: [[Option<Vec<u8>>; 2]; 6] = [
                [ds.get_var_attr_i8(n, an).map(|s| untyped!(s)), v.get_attr_i8(an).map(|s| untyped!(s))], [ds.get_var_attr_u8(n, an).map(|s| s.to_vec()), v.get_attr_u8(an).map(|s| s.to_vec())],
                [ds.get_var_attr_i16(n, an).map(|s| untyped!(s)), v.get_attr_i16(an).map(|s| untyped!(s))], [ds.get_var_attr_i32(n, an).map(|s| untyped!(s)), v.get_attr_i32(an).map(|s| untyped!(s))],
                [ds.get_var_attr_f32(n, an).map(|s| untyped!(s)), v.get_attr_f32(an).map(|s| untyped!(s))], [ds.get_var_attr_f64(n, an).map(|s| untyped!(s)), v.get_attr_f64(an).map(|s| untyped!(s))]];
            for i in 0..6 { for x in &r[i] { ck!(x.as_ref() == if TYS[i] == s.val.ty { Some(&s.val.raw) } else { None }, "typed getter {:?} of attribute {:?}:{:?}", TYS[i], n, an); } }
            sattrs.push(s);
        }
        def.vars.push(Var { name: n.to_string(), ty: ty(&v.data_type()), dims: ids, attrs: sattrs });
        let k = def.vars.len() - 1;
        ck!(ds.var_data_type(n) == Some(v.data_type()), "var_data_type({:?})", n);
        ck!(v.is_record_var() == def.is_rec(k) && ds.is_record_var(n) == Some(v.is_record_var()), "is_record_var({:?})", n);
        if def.total_len(k) < 1 << 60 { ck!(v.len() as u128 == def.total_len(k) && ds.var_len(n) == Some(v.len()), "len of {:?}: {} expected {}", n, v.len(), def.total_len(k)); }
        if def.vsize(k) < 1 << 60 {
            ck!(v.chunk_len() as u128 == def.slab_len(k), "chunk_len of {:?}: {} expected {}", n, v.chunk_len(), def.slab_len(k));
            ck!(v.chunk_size() as u128 == def.vsize(k), "chunk_size of {:?}: {} expected {}", n, v.chunk_size(), def.vsize(k));
            ck!(v.num_chunks() == def.nslabs(k), "num_chunks of {:?}: {} expected {}", n, v.num_chunks(), def.nslabs(k));
        }
    }
    if def.recsize_padded() < 1 << 60 {
        let exp = unlim.map(|_| def.recsize_padded() as usize);
        ck!(ds.record_size() == exp, "record_size {:?} expected {:?}", ds.record_size(), exp);
    }
    Ok(def)
}

/// `None` if both definitions are the same, else a message.
pub fn diff_def(exp: &Def, got: &Def) -> Option<String> {
    if exp == got { return None; }
    if exp.dims != got.dims { for i in 0..exp.dims.len().max(got.dims.len()) { if exp.dims.get(i) != got.dims.get(i) { return Some(format!("dimension #{}: expected {:?} got {:?}", i, exp.dims.get(i), got.dims.get(i))); } } }
    for i in 0..exp.attrs.len().max(got.attrs.len()) { if exp.attrs.get(i) != got.attrs.get(i) { return Some(format!("global attribute #{}: expected {:?} got {:?}", i, exp.attrs.get(i), got.attrs.get(i))); } }
    for i in 0..exp.vars.len().max(got.vars.len()) { if exp.vars.get(i) != got.vars.get(i) { return Some(format!("variable #{}: expected {:?} got {:?}", i, exp.vars.get(i), got.vars.get(i))); } }
    Some("definitions differ".into())
}

pub fn write_var(w: &mut FileWriter, n: &str, v: &Val) -> Result<(), WriteError> {
    match v.ty {
        Ty::I8 => w.write_var_i8(n, &typed!(v.raw, i8)), Ty::U8 => w.write_var_u8(n, &v.raw), Ty::I16 => w.write_var_i16(n, &typed!(v.raw, i16)),
        Ty::I32 => w.write_var_i32(n, &typed!(v.raw, i32)), Ty::F32 => w.write_var_f32(n, &typed!(v.raw, f32)), Ty::F64 => w.write_var_f64(n, &typed!(v.raw, f64)),
    }
}
pub fn write_rec(w: &mut FileWriter, n: &str, r: usize, v: &Val) -> Result<(), WriteError> {
    match v.ty {
        Ty::I8 => w.write_record_i8(n, r, &typed!(v.raw, i8)), Ty::U8 => w.write_record_u8(n, r, &v.raw), Ty::I16 => w.write_record_i16(n, r, &typed!(v.raw, i16)),
        Ty::I32 => w.write_record_i32(n, r, &typed!(v.raw, i32)), Ty::F32 => w.write_record_f32(n, r, &typed!(v.raw, f32)), Ty::F64 => w.write_record_f64(n, r, &typed!(v.raw, f64)),
    }
}
pub fn read_var_typed(r: &mut FileReader, n: &str, t: Ty) -> Result<Val, ReadError> {
    Ok(Val::new(t, match t {
        Ty::I8 => untyped!(r.read_var_i8(n)?), Ty::U8 => r.read_var_u8(n)?, Ty::I16 => untyped!(r.read_var_i16(n)?),
        Ty::I32 => untyped!(r.read_var_i32(n)?), Ty::F32 => untyped!(r.read_var_f32(n)?), Ty::F64 => untyped!(r.read_var_f64(n)?),
    }))
}
pub fn read_rec_typed(r: &mut FileReader, n: &str, i: usize, t: Ty) -> Result<Val, ReadError> {
    Ok(Val::new(t, match t {
        Ty::I8 => untyped!(r.read_record_i8(n, i)?), Ty::U8 => r.read_record_u8(n, i)?, Ty::I16 => untyped!(r.read_record_i16(n, i)?),
        Ty::I32 => untyped!(r.read_record_i32(n, i)?), Ty::F32 => untyped!(r.read_record_f32(n, i)?), Ty::F64 => untyped!(r.read_record_f64(n, i)?),
    }))
}
pub fn read_var(r: &mut FileReader, n: &str) -> Result<Val, ReadError> { r.read_var(n).map(|d| dv_to_val(&d)) }
pub fn read_rec(r: &mut FileReader, n: &str, i: usize) -> Result<Val, ReadError> { r.read_record(n, i).map(|d| dv_to_val(&d)) }

/// All data of an open file must be `exp`, through every read method.
pub fn check_all_data(r: &mut FileReader, def: &Def, exp: &Data) -> Result<u64, String> {
    let mut n = 0;
    for v in 0..def.vars.len() {
        let name = def.vars[v].name.as_str();
        let e = var_value(def, exp, v);
        match read_var(r, name) { Ok(g) => ck!(g == e, "read_var({:?}): expected {:?} got {:?}{}", name, e, g, where_diff(&e, &g)), Err(x) => return Err(format!("read_var({:?}) failed: {:?}", name, x)) }
        n += 1;
        for s in 0..def.nslabs(v) {
            let e = slab_value(def, exp, v, s);
            match read_rec(r, name, s) { Ok(g) => ck!(g == e, "read_record({:?},{}): expected {:?} got {:?}", name, s, e, g), Err(x) => return Err(format!("read_record({:?},{}) failed: {:?}", name, s, x)) }
            n += 1;
        }
    }
    Ok(n)
}
pub fn where_diff(e: &Val, g: &Val) -> String {
    if e.ty != g.ty || e.len() != g.len() { return String::new(); }
    let s = e.ty.size();
    match e.raw.iter().zip(&g.raw).position(|(a, b)| a != b) { Some(i) => format!(" (element {}: expected {:02x?} got {:02x?})", i / s, &e.raw[i / s * s..i / s * s + s], &g.raw[i / s * s..i / s * s + s]), None => String::new() }
}
