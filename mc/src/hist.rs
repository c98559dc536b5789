//! Write histories: sequences of library writes with the reference model alongside.
#![allow(dead_code)]
use crate::bind;
use crate::model::*;
use crate::runner::*;
use netcdf3::{DataSet, FileReader, FileWriter};
use std::path::Path;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op { Var { v: usize, salt: usize }, Rec { v: usize, r: usize, salt: usize } }

/// The alphabet of valid writes of a definition (without salt).
pub fn alphabet(def: &Def) -> Vec<Op> {
    let mut a = vec![];
    for v in 0..def.vars.len() { a.push(Op::Var { v, salt: 0 }); for r in 0..def.nslabs(v) { a.push(Op::Rec { v, r, salt: 0 }); } }
    a
}
pub fn salted(op: Op, salt: usize) -> Op { match op { Op::Var { v, .. } => Op::Var { v, salt }, Op::Rec { v, r, .. } => Op::Rec { v, r, salt } } }
pub fn op_val(def: &Def, op: Op) -> Val {
    match op { Op::Var { v, salt } => Val::pattern(def.vars[v].ty, def.total_len(v) as usize, salt), Op::Rec { v, salt, .. } => Val::pattern(def.vars[v].ty, def.slab_len(v) as usize, salt) }
}
/// Effect on the model.
pub fn apply(def: &Def, data: &mut Data, op: Op) {
    let val = op_val(def, op);
    match op {
        Op::Var { v, .. } => { let n = def.slab_bytes(v) as usize; for s in 0..def.nslabs(v) { data[v][s] = Some(val.raw[s * n..(s + 1) * n].to_vec()); } }
        Op::Rec { v, r, .. } => data[v][r] = Some(val.raw),
    }
}
pub fn exec(def: &Def, w: &mut FileWriter, op: Op) -> Result<(), netcdf3::WriteError> {
    let val = op_val(def, op);
    match op { Op::Var { v, .. } => bind::write_var(w, &def.vars[v].name, &val), Op::Rec { v, r, .. } => bind::write_rec(w, &def.vars[v].name, r, &val) }
}

/// Runs a whole history; all operations are legal so none may fail.
pub fn run(path: &Path, def: &Def, ds: &DataSet, ver: Ver, hmin: usize, ops: &[Op]) -> Result<Data, String> {
    let mut data = empty_data(def);
    let mut w = FileWriter::open(path).map_err(|e| format!("FileWriter::open: {:?}", e))?;
    w.set_def(ds, bind::ver(ver), hmin).map_err(|e| format!("set_def: {:?}", e))?;
    for op in ops {
        exec(def, &mut w, *op).map_err(|e| format!("{:?}: {:?}", op, e))?;
        apply(def, &mut data, *op);
    }
    w.close().map_err(|e| format!("close: {:?}", e))?;
    Ok(data)
}
/// A header_min_size (0 for half of them) chosen by a case: all the cases of a family together cross it.
pub fn hm<T: std::hash::Hash>(x: &T) -> usize {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    [0, 1, 0, 40, 0, 333, 0, 1024, 0, 4099][(h.finish() >> 8) as usize % 10]
}
pub fn show(def: &Def, ver: Ver, hmin: usize, ops: &[Op]) -> String {
    let dims: Vec<String> = def.dims.iter().map(|d| format!("{}{}={}", d.name, if d.unlim { "*" } else { "" }, d.size)).collect();
    let vars: Vec<String> = def.vars.iter().map(|v| format!("{}:{:?}[{}]{}", v.name, v.ty, v.dims.iter().map(|d| def.dims[*d].name.clone()).collect::<Vec<_>>().join(","), if v.attrs.is_empty() { "" } else { "+attrs" })).collect();
    format!("dims({}) gattrs({}) vars({}) {:?} hmin={} ops={:?}", dims.join(" "), def.attrs.len(), vars.join(" "), ver, hmin, ops)
}
pub fn open(path: &Path) -> Result<FileReader, String> { FileReader::open(path).map_err(|e| format!("FileReader::open: {:?}", e)) }

/// Written elements are read back (`written`), unwritten ones hold the fill value (`!written`).
pub fn check_values(r: &mut FileReader, def: &Def, data: &Data, written: bool, unwritten: bool) -> Result<(), String> {
    for v in 0..def.vars.len() {
        let name = def.vars[v].name.as_str();
        let whole = bind::read_var(r, name).map_err(|e| format!("read_var({:?}): {:?}", name, e))?;
        let exp = var_value(def, data, v);
        if whole.ty != exp.ty || whole.len() != exp.len() { return Err(format!("read_var({:?}): expected {} values of {:?}, got {} of {:?}", name, exp.len(), exp.ty, whole.len(), whole.ty)); }
        let n = def.slab_len(v) as usize;
        for s in 0..def.nslabs(v) {
            let w = data[v][s].is_some();
            if !(w && written || !w && unwritten) { continue; }
            let e = exp.slice(s * n, (s + 1) * n);
            let what = if w { "written" } else { "not written, fill value" };
            let g = whole.slice(s * n, (s + 1) * n);
            if g != e { return Err(format!("read_var({:?}), record {} ({}): expected {:?} got {:?}{}", name, s, what, e, g, bind::where_diff(&e, &g))); }
            let g = bind::read_rec(r, name, s).map_err(|e| format!("read_record({:?},{}): {:?}", name, s, e))?;
            if g != e { return Err(format!("read_record({:?},{}) ({}): expected {:?} got {:?}{}", name, s, what, e, g, bind::where_diff(&e, &g))); }
        }
    }
    Ok(())
}

pub const SPECIAL_FINDING: &str = "single-record-variable-padding";
/// Compares the bytes of a file with the specification. The padded encoding of the special case of
/// a single record variable is the known finding.
pub fn check_bytes(ctx: &mut Ctx, def: &Def, data: &Data, ver: Ver, hmin: usize, got: &[u8]) -> Result<(), String> {
    let exp = encode_file(def, data, ver, hmin, false);
    if got == &exp[..] { return Ok(()); }
    if def.special_case() {
        let padded = encode_file(def, data, ver, hmin, true);
        if got == &padded[..] { ctx.known(SPECIAL_FINDING, || format!("the records of {} are padded", show(def, ver, hmin, &[]))); return Ok(()); }
        return Err(diff_bytes(&padded, got).unwrap());
    }
    Err(diff_bytes(&exp, got).unwrap())
}
/// Writes every slab: in definition order by whole variables.
pub fn full_ops(def: &Def) -> Vec<Op> { (0..def.vars.len()).map(|v| Op::Var { v, salt: v + 1 }).collect() }
