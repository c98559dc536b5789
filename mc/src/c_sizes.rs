//! C14: sizes and offsets are exact, also beyond 2 and 4 GiB.
use crate::bind;
use crate::hist::{self, Op};
use crate::ioshim::{self, Shim, Virt};
use crate::model::*;
use crate::runner::*;
use netcdf3::{DataVector, FileReader, FileWriter, WriteError};
use std::os::unix::fs::FileExt;
use std::sync::Mutex;

const MAX63: u128 = 1 << 63;
const NC_MAX: usize = 0x7FFF_FFFC;
/// The files of these explorations are sparse; only one huge buffer lives in memory at a time.
static BIG: Mutex<()> = Mutex::new(());

/// Everything of the definition fits in 63 bits (whole size, with header).
fn fits(def: &Def, start: u128) -> bool {
    let mut t: u128 = start;
    for v in 0..def.vars.len() { if def.total_len(v).checked_mul(8).map(|x| x >= MAX63).unwrap_or(true) { return false; } t += if def.is_rec(v) { 0 } else { def.vsize(v) }; }
    let r = def.recsize_padded();
    t + r < MAX63 && r.checked_mul(def.numrecs().max(1) as u128).map(|x| t + x < MAX63).unwrap_or(false)
}
fn getters(ctx: &mut Ctx, def: &Def) -> Result<(), String> {
    let ds = bind::build(def).map_err(|e| format!("{:?}", e))?;
    let g = bind::snapshot(&ds)?;
    if let Some(d) = bind::diff_def(def, &g) { return Err(d); }
    for (k, v) in def.vars.iter().enumerate() {
        let x = ds.get_var(&v.name).unwrap();
        let got = (x.len() as u128, x.chunk_len() as u128, x.chunk_size() as u128, x.num_chunks());
        let exp = (def.total_len(k), def.slab_len(k), def.vsize(k), def.nslabs(k));
        ck!(got == exp, "{}: (len, chunk_len, chunk_size, num_chunks) of {:?}: expected {:?} got {:?}", hist::show(def, Ver::V2, 0, &[]), v.name, exp, got);
    }
    let exp = if def.dims.iter().any(|d| d.unlim) { Some(def.recsize_padded()) } else { None };
    ck!(ds.record_size().map(|x| x as u128) == exp, "{}: record_size {:?} expected {:?}", hist::show(def, Ver::V2, 0, &[]), ds.record_size(), exp);
    ctx.op(def.vars.len() as u64 + 1); ctx.trace(); ctx.state(&(exp, (0..def.vars.len()).map(|k| (def.total_len(k), def.vsize(k))).collect::<Vec<_>>()));
    Ok(())
}

fn classic_ok(def: &Def, hmin: usize) -> bool { let l = canonical_layout(def, Ver::V1, hmin, def.recsize_padded()); l.begins.iter().all(|b| *b <= i32::MAX as u128) }
fn header(def: &Def, ver: Ver, hmin: usize) -> Vec<u8> {
    let l = canonical_layout(def, ver, hmin, def.recsize_padded());
    let mut h = encode_header(def, ver, numrecs_field(def.numrecs()), &l.begins.iter().map(|b| *b as u64).collect::<Vec<_>>(), &(0..def.vars.len()).map(|v| vsize_field(def.vsize(v))).collect::<Vec<_>>(), &HdrOpts::default());
    h.resize(l.data_start as usize, 0);
    h
}
/// set_def with `ver`: refused exactly when the classic format is not possible, then with the 64-bit one. Returns the version set.
fn define<'a>(ctx: &mut Ctx, def: &Def, ds: &'a netcdf3::DataSet, w: &mut FileWriter<'a>, ver: Ver, path: &std::path::Path) -> Result<Ver, String> {
    let r = w.set_def(ds, bind::ver(ver), 0);
    ctx.op(1);
    let possible = ver == Ver::V2 || classic_ok(def, 0);
    match (possible, r) {
        (true, Ok(())) => { ctx.count(if ver == Ver::V1 { "classic accepted" } else { "64-bit accepted" }); Ok(ver) }
        (false, Err(WriteError::ClassicVersionNotPossible)) => {
            ctx.count("classic refused, then 64-bit accepted");
            ck!(!w.header_is_defined() && w.data_set().is_none() && w.version().is_none() && w.header_min_size().is_none(), "the definition is set after a refused set_def");
            ck!(std::fs::metadata(path).map(|m| m.len()).ok() == Some(0), "a refused set_def writes into the file");
            let v0 = &def.vars[0];
            ck!(matches!(bind::write_var(w, &v0.name, &Val::empty(v0.ty)), Err(WriteError::HeaderNotDefined)), "write_var after a refused set_def");
            w.set_def(ds, bind::ver(Ver::V2), 0).map_err(|e| format!("set_def(Offset64Bit) after a refused set_def(Classic): {:?}", e))?;
            ctx.op(2);
            Ok(Ver::V2)
        }
        (p, r) => Err(format!("set_def({:?}) gives {:?}, {} (begin offsets {:?})", ver, r, if p { "while it is possible" } else { "while a begin offset does not fit" }, canonical_layout(def, ver, 0, def.recsize_padded()).begins)),
    }
}
/// set_def of huge data sets: the header, the refusal, and the definition read back.
fn offsets(ctx: &mut Ctx, def: &Def, ver: Ver) -> Result<(), String> {
    let m = |e: String| format!("{}: {}", hist::show(def, ver, 0, &[]), e);
    let ds = bind::build(def).map_err(|e| format!("{:?}", e))?;
    let p = ctx.path("s.nc");
    let v;
    { let mut w = FileWriter::open(&p).map_err(|e| m(format!("{:?}", e)))?; v = define(ctx, def, &ds, &mut w, ver, &p).map_err(m)?; }
    let got = std::fs::read(&p).map_err(|e| e.to_string())?;
    if let Some(d) = diff_bytes(&header(def, v, 0), &got) { return Err(m(format!("header: {}", d))); }
    if def.numrecs() <= i32::MAX as usize {
        let r = FileReader::open(&p).map_err(|e| m(format!("FileReader::open: {:?}", e)))?;
        let g = bind::snapshot(r.data_set()).map_err(m)?;
        if let Some(d) = bind::diff_def(def, &g) { return Err(m(d)); }
        ck!(bind::unver(&r.version()) == v, "{}", m("version".into()));
    }
    ctx.trace(); ctx.state(&(def.vars.len(), v, got));
    Ok(())
}

/// The extents of a sparse file which hold data.
fn extents(f: &std::fs::File) -> Vec<(u64, u64)> {
    use std::os::unix::io::AsRawFd;
    let (fd, len) = (f.as_raw_fd(), f.metadata().map(|m| m.len()).unwrap_or(0));
    let mut r = vec![]; let mut p = 0u64;
    let seek = |o: u64, w: i32| unsafe { libc::syscall(libc::SYS_lseek, fd, o as libc::c_long, w) };
    while p < len {
        let s = seek(p, libc::SEEK_DATA); if s < 0 { break; }
        let e = seek(s as u64, libc::SEEK_HOLE); if e < 0 { break; }
        r.push((s as u64, e as u64)); p = e as u64;
    }
    r
}
/// Writes all the slabs of the small variables in some order, checks the whole sparse file, reads everything back.
fn places(ctx: &mut Ctx, def: &Def, ver: Ver, order: usize) -> Result<(), String> {
    let m = |e: String| format!("{} order {}: {}", hist::show(def, ver, 0, &[]), order, e);
    let ds = bind::build(def).map_err(|e| format!("{:?}", e))?;
    let p = ctx.path("s.nc");
    let small: Vec<usize> = (0..def.vars.len()).filter(|v| def.slab_bytes(*v) < 4096).collect();
    let mut ops: Vec<Op> = vec![];
    for v in &small {
        if order % 2 == 0 || def.nslabs(*v) == 0 { ops.push(Op::Var { v: *v, salt: 3 + v }) } else { for r in 0..def.nslabs(*v) { ops.push(Op::Rec { v: *v, r, salt: 3 + v + 5 * r }) } }
    }
    if order >= 2 { ops.reverse(); }
    let mut data = empty_data(def);
    let v;
    {
        let mut w = FileWriter::open(&p).map_err(|e| m(format!("{:?}", e)))?;
        v = define(ctx, def, &ds, &mut w, ver, &p).map_err(m)?;
        for op in &ops { hist::exec(def, &mut w, *op).map_err(|e| m(format!("{:?}: {:?}", op, e)))?; hist::apply(def, &mut data, *op); ctx.op(1); }
    } // dropped: the big variables are not filled
    let lay = canonical_layout(def, v, 0, def.recsize_padded());
    let f = std::fs::File::open(&p).map_err(|e| e.to_string())?;
    let mut hdr = header(def, v, 0);
    // the pages of the file which hold data
    let mut exp: Vec<(u64, Vec<u8>)> = vec![];
    for v in &small { for s in 0..def.nslabs(*v) {
        let at = lay.begins[*v] + if def.is_rec(*v) { lay.recsize * s as u128 } else { 0 };
        let e = data[*v][s].clone().unwrap();
        let mut g = vec![0; e.len()];
        f.read_exact_at(&mut g, at as u64).map_err(|x| m(format!("slab {} of {:?} at {}: {}", s, def.vars[*v].name, at, x)))?;
        ck!(g == e, "{}", m(format!("slab {} of {:?} at offset {}: expected {:02x?} got {:02x?}", s, def.vars[*v].name, at, e, g)));
        exp.push((at as u64, e));
    } }
    let ext = extents(&f);
    if ext.iter().map(|x| x.1 - x.0).sum::<u64>() < 1 << 26 {
        for (a, b) in &ext {
            let mut g = vec![0u8; (b - a) as usize];
            f.read_exact_at(&mut g, *a).map_err(|e| e.to_string())?;
            let (a, b) = (*a as i128, *b as i128);
            let mut clear = |at: i128, len: usize| for i in at.max(a)..(at + len as i128).min(b) { g[(i - a) as usize] = 0; };
            for (at, e) in &exp { clear(*at as i128, (e.len() + 3) / 4 * 4); }
            let n = hdr.len();
            for i in 0..n { let at = i as i128; if at >= a && at < b { ck!(g[(at - a) as usize] == hdr[i], "{}", m(format!("header byte {}", i))); g[(at - a) as usize] = 0; } }
            if let Some(i) = g.iter().position(|x| *x != 0) { return Err(m(format!("byte {:#x} at offset {}, where nothing has been written", g[i], a + i as i128))); }
        }
        ctx.count("sparse files: nothing written elsewhere");
    } else { ctx.count("sparse files: holes not checked"); }
    hdr.clear();
    let mut r = FileReader::open(&p).map_err(|e| m(format!("FileReader::open: {:?}", e)))?;
    let g = bind::snapshot(r.data_set()).map_err(m)?;
    if let Some(d) = bind::diff_def(def, &g) { return Err(m(d)); }
    read_small(&mut r, def, &data, &small).map_err(m)?;
    ctx.op(small.len() as u64 + 1); ctx.trace(); ctx.state(&(lay.begins, lay.recsize, v));
    Ok(())
}
fn read_small(r: &mut FileReader, def: &Def, data: &Data, small: &[usize]) -> Result<(), String> {
    for v in small.iter().rev() {
        let n = &def.vars[*v].name;
        let g = bind::read_var(r, n).map_err(|e| format!("read_var({:?}): {:?}", n, e))?;
        let e = var_value(def, data, *v);
        ck!(g == e, "read_var({:?}): expected {:?} got {:?}", n, e, g);
        for s in (0..def.nslabs(*v)).rev() {
            let g = bind::read_rec(r, n, s).map_err(|e| format!("read_record({:?},{}): {:?}", n, s, e))?;
            let e = slab_value(def, data, *v, s);
            ck!(g == e, "read_record({:?},{}): expected {:?} got {:?}", n, s, e, g);
        }
    }
    Ok(())
}
/// Variables of total padded size `size` (multiple of 4), each one within the limits of the dimensions.
fn filler(mut def: Def, tag: &str, mut size: u64, rec: bool) -> Def {
    let mut k = 0;
    let unit: u64 = if size < 1 << 33 { 8 } else if size < 1 << 37 { 8 * 1000 } else { 8 * 1000 * 1000 };
    while size >= unit.max(1 << 20) {
        let q = (size / unit).min(NC_MAX as u64);
        let (a, b) = (format!("{}a{}", tag, k), format!("{}b{}", tag, k));
        def = def.dim(&a, q as usize);
        if unit > 8 { def = def.dim(&b, (unit / 8) as usize); }
        let mut l: Vec<&str> = vec![];
        if rec { l.push("u"); }
        if k % 2 == 0 { l.push(&a); if unit > 8 { l.push(&b); } } else { if unit > 8 { l.push(&b); } l.push(&a); }
        def = def.var(&format!("{}f{}", tag, k), Ty::F64, &l);
        size -= q * unit; k += 1;
    }
    if size > 0 {
        let a = format!("{}r", tag);
        def = def.dim(&a, size as usize);
        let l: Vec<&str> = if rec { vec!["u", &a] } else { vec![&a] };
        def = def.var(&format!("{}x", tag), Ty::U8, &l);
    }
    def
}
/// `size` close to a boundary, with the given first variable(s); the small variables follow.
fn placed_def(bound: u64, delta: i64, layout: usize, t: Ty, recs: usize, ver: Ver) -> Def {
    let mut sz = (bound as i64 + delta) as u64;
    for _ in 0..4 {
        let d = Def::default().unlim("u", recs).dim("k", 3);
        let d = match layout {
            // the small variables lie after a huge fixed-size one
            0 => filler(d, "h", sz, false).var("g", t, &["k"]).var("r", t, &["u", "k"]).var("s", Ty::I16, &["u"]),
            // records of about `bound` bytes
            1 => filler(d.var("g", t, &["k"]).var("r", t, &["u", "k"]), "h", sz, true).var("s", t, &["u"]),
            // the small record variables lie far away in the records which are after a fixed-size variable
            _ => filler(filler(d, "h", sz / 8 * 4, false).var("r", t, &["u"]), "q", sz / 8 * 4, true).var("s", t, &["u", "k"]).var("g", Ty::I8, &[]),
        };
        let l = canonical_layout(&d, ver, 0, d.recsize_padded());
        // adjust the size so that the begin of a small variable (or the second record) is exactly at bound + delta
        let at = match layout { 0 => l.begins[d.vars.iter().position(|v| v.name == "g").unwrap()], 1 => l.begins[1] + l.recsize, _ => l.begins[d.vars.iter().position(|v| v.name == "s").unwrap()] };
        let want = (bound as i64 + delta) as i128;
        if at as i128 == want { return d; }
        sz = (sz as i128 + want - at as i128) as u64;
    }
    // parity of layout 2 does not always allow the exact offset: the closest one is fine
    let d = Def::default().unlim("u", recs).dim("k", 3);
    filler(filler(d, "h", sz / 8 * 4, false).var("r", t, &["u"]), "q", sz / 8 * 4, true).var("s", t, &["u", "k"]).var("g", Ty::I8, &[])
}

/// A file of another writer, sparse, with any begin offsets.
fn foreign(ctx: &mut Ctx, def: &Def, ver: Ver, begins: &[u64], indet: bool, vs_indet: bool) -> Result<(), String> {
    let m = |e: String| format!("{} begins {:?} indeterminate: numrecs {} vsize {}: {}", hist::show(def, ver, 0, &[]), begins, indet, vs_indet, e);
    let p = ctx.path("s.nc");
    let data = full_data(def, 5);
    let h = encode_header(def, ver, if indet { u32::MAX } else { numrecs_field(def.numrecs()) }, begins, &(0..def.vars.len()).map(|v| if vs_indet { u32::MAX } else { vsize_field(def.vsize(v)) }).collect::<Vec<_>>(), &HdrOpts::default());
    let f = std::fs::File::create(&p).map_err(|e| e.to_string())?;
    let rs = def.recsize_padded() as u64;
    f.write_all_at(&h, 0).map_err(|e| e.to_string())?;
    let mut end = h.len() as u64;
    for v in 0..def.vars.len() { for s in 0..def.nslabs(v) {
        let at = begins[v] + if def.is_rec(v) { rs * s as u64 } else { 0 };
        f.write_all_at(data[v][s].as_ref().unwrap(), at).map_err(|e| e.to_string())?;
        end = end.max(at + def.vsize(v) as u64);
    } }
    let first = (0..def.vars.len()).filter(|v| def.is_rec(*v)).map(|v| begins[v]).min();
    if let (true, Some(first)) = (indet, first) { let e = first + rs * def.numrecs() as u64; if e < end { ctx.count("skipped: the records are not last"); return Ok(()); } end = e; }
    f.set_len(end).map_err(|e| e.to_string())?;
    let mut r = FileReader::open(&p).map_err(|e| m(format!("FileReader::open: {:?}", e)))?;
    let g = bind::snapshot(r.data_set()).map_err(m)?;
    if let Some(d) = bind::diff_def(def, &g) { return Err(m(d)); }
    let n = bind::check_all_data(&mut r, def, &data).map_err(m)?;
    ctx.op(n + 1); ctx.trace(); ctx.state(&(begins, indet, vs_indet, ver));
    Ok(())
}

/// Numbers of records around 2^31, 2^32...
fn many_records(ctx: &mut Ctx, n: usize, k: usize, ver: Ver) -> Result<(), String> {
    let d = Def::default().unlim("u", n).dim("k", 3);
    let def = match k { 0 => d.var("r", Ty::I32, &["u"]), 1 => d.var("r", Ty::F32, &["u"]), 2 => d.var("f", Ty::I8, &["k"]).var("r", Ty::F64, &["u"]), 3 => d.var("r", Ty::I8, &["u"]).var("s", Ty::I16, &["u", "k"]), _ => d.var("r", Ty::U8, &["u", "k"]).var("f", Ty::F64, &["k"]).var("s", Ty::F64, &["u"]).var("t", Ty::I16, &["u"]) };
    let m = |e: String| format!("{}: {}", hist::show(&def, ver, 0, &[]), e);
    let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
    let p = ctx.path("s.nc");
    let recs: Vec<usize> = { let mut v: Vec<usize> = [0, 1, 0x7FFF_FFFE, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_FFFF, 0x1_0000_0000, n - 2, n - 1].into_iter().filter(|r| *r < n).collect(); v.sort(); v.dedup(); v };
    let rv: Vec<usize> = (0..def.vars.len()).filter(|v| def.is_rec(*v)).collect();
    let val = |v: usize, r: usize| Val::pattern(def.vars[v].ty, def.slab_len(v) as usize, v * 31 + r % 1009);
    let vv;
    {
        let mut w = FileWriter::open(&p).map_err(|e| m(format!("{:?}", e)))?;
        vv = define(ctx, &def, &ds, &mut w, ver, &p).map_err(m)?;
        for r in recs.iter().rev() { for v in rv.iter().rev() { bind::write_rec(&mut w, &def.vars[*v].name, *r, &val(*v, *r)).map_err(|e| m(format!("write_record({}): {:?}", r, e)))?; ctx.op(1); } }
        ck!(matches!(bind::write_rec(&mut w, &def.vars[rv[0]].name, n, &val(rv[0], 0)), Err(WriteError::RecordIndexExceeded { .. })), "write_record({}) accepted", n);
    }
    let lay = canonical_layout(&def, vv, 0, def.recsize_padded());
    let f = std::fs::File::open(&p).map_err(|e| e.to_string())?;
    let mut hdr = vec![0u8; lay.data_start as usize];
    f.read_exact_at(&mut hdr, 0).map_err(|e| e.to_string())?;
    if let Some(d) = diff_bytes(&header(&def, vv, 0), &hdr) { return Err(m(format!("header: {}", d))); }
    let len = f.metadata().map_err(|e| e.to_string())?.len();
    ck!(len as u128 <= lay.total, "{}", m(format!("the file has {} bytes after the last record has been written, expected {}", len, lay.total)));
    std::fs::OpenOptions::new().write(true).open(&p).and_then(|f| f.set_len(lay.total as u64)).map_err(|e| e.to_string())?;
    for r in &recs { for v in &rv {
        let at = (lay.begins[*v] + lay.recsize * *r as u128) as u64;
        let e = val(*v, *r).raw; let mut g = vec![0; e.len()];
        f.read_exact_at(&mut g, at).map_err(|x| x.to_string())?;
        ck!(e == g, "{}", m(format!("record {} of {:?} at {}: expected {:02x?} got {:02x?}", r, def.vars[*v].name, at, e, g)));
    } }
    let mut rd = FileReader::open(&p).map_err(|e| m(format!("FileReader::open: {:?}", e)))?;
    ck!(rd.data_set().num_records() == Some(n), "{}", m(format!("num_records read: {:?} (the field is {:#x})", rd.data_set().num_records(), numrecs_field(n))));
    let g = bind::snapshot(rd.data_set()).map_err(m)?;
    if let Some(d) = bind::diff_def(&def, &g) { return Err(m(d)); }
    for r in &recs { for v in &rv {
        let g = bind::read_rec(&mut rd, &def.vars[*v].name, *r).map_err(|e| m(format!("read_record({}): {:?}", r, e)))?;
        ck!(g == val(*v, *r), "{}", m(format!("read_record({:?},{}): {:?}", def.vars[*v].name, r, g)));
        ctx.op(1);
    } }
    ck!(bind::read_rec(&mut rd, &def.vars[rv[0]].name, n).is_err(), "read_record({}) accepted", n);
    ctx.trace(); ctx.state(&(n, k, vv));
    Ok(())
}

/// A whole history including close on a virtual file (nothing is stored), so that gigabytes of data are written for real.
fn virtual_close(ctx: &mut Ctx, def: &Def, ver: Ver, write: &[(usize, Option<usize>)]) -> Result<(), String> {
    let m = |e: String| format!("{} writes {:?}: {}", hist::show(def, ver, 0, &[]), write, e);
    let ds = bind::build(def).map_err(|e| format!("{:?}", e))?;
    let p = ctx.path("v.nc");
    let mut shim = Shim { virt: Some(Virt::default()), ..Shim::default() };
    let cst = |t: Ty, v: usize| -> Vec<u8> { let mut b = vec![0x41u8 + v as u8; t.size()]; b[0] = 0x42; b };
    {
        let mut w = FileWriter::open(&p).map_err(|e| m(format!("{:?}", e)))?;
        ioshim::start(&mut shim);
        struct G; impl Drop for G { fn drop(&mut self) { ioshim::stop(); } }
        let _g = G;
        w.set_def(&ds, bind::ver(ver), 0).map_err(|e| m(format!("set_def: {:?}", e)))?;
        for (v, r) in write {
            let var = &def.vars[*v];
            let c = cst(var.ty, *v);
            let n = if r.is_some() { def.slab_len(*v) } else { def.total_len(*v) } as usize;
            let _lock = if n > 1 << 24 { Some(BIG.lock().unwrap_or_else(|e| e.into_inner())) } else { None };
            macro_rules! go { ($t:ty, $wv:ident, $wr:ident) => {{ let d = vec![<$t>::from_be_bytes(c[..].try_into().unwrap()); n]; match r { Some(r) => w.$wr(&var.name, *r, &d), None => w.$wv(&var.name, &d) } }} }
            let res = match var.ty { Ty::I8 => go!(i8, write_var_i8, write_record_i8), Ty::U8 => go!(u8, write_var_u8, write_record_u8), Ty::I16 => go!(i16, write_var_i16, write_record_i16), Ty::I32 => go!(i32, write_var_i32, write_record_i32), Ty::F32 => go!(f32, write_var_f32, write_record_f32), Ty::F64 => go!(f64, write_var_f64, write_record_f64) };
            res.map_err(|e| m(format!("{:?}", e)))?;
            ctx.op(1);
        }
        w.close().map_err(|e| m(format!("close: {:?}", e)))?;
    }
    let virt = shim.virt.as_ref().unwrap();
    let c = virt.content();
    let lay = canonical_layout(def, ver, 0, def.recsize_padded());
    let h = header(def, ver, 0);
    virt.check(&c, 0, h.len() as u64, &h).map_err(|o| m(format!("header byte {}", o)))?;
    for v in 0..def.vars.len() { for s in 0..def.nslabs(v) {
        let written = write.iter().any(|(a, r)| *a == v && (*r == None || *r == Some(s)));
        let pat = if written { cst(def.vars[v].ty, v) } else { def.vars[v].ty.fill().to_vec() };
        let at = (lay.begins[v] + if def.is_rec(v) { lay.recsize * s as u128 } else { 0 }) as u64;
        let (n, pad) = (def.slab_bytes(v) as u64, (def.vsize(v) - def.slab_bytes(v)) as u64);
        virt.check(&c, at, n, &pat).map_err(|o| m(format!("{} slab {} of {:?} (at {}, {} bytes): wrong or missing byte at {}", if written { "written" } else { "filled" }, s, def.vars[v].name, at, n, o)))?;
        let f: Vec<u8> = def.vars[v].ty.fill().to_vec();
        virt.check(&c, at + n, pad, &f).map_err(|o| m(format!("padding of slab {} of {:?}: byte at {}", s, def.vars[v].name, o)))?;
    } }
    ck!(virt.end as u128 == lay.total, "{}", m(format!("the closed file has {} bytes, expected {}", virt.end, lay.total)));
    let covered: u64 = c.iter().map(|(s, (e, _))| e - s).sum();
    ck!(covered == virt.end, "{}", m(format!("{} bytes of the closed file were never written", virt.end - covered)));
    ctx.countn("GiB written to virtual files", virt.end >> 30);
    ctx.trace(); ctx.state(&(def, ver, write.len()));
    Ok(())
}
/// Reading a huge variable at once.
fn big_read(ctx: &mut Ctx, t: Ty, len: usize, rec: bool, ver: Ver) -> Result<(), String> {
    // the dimensions are smaller than 2^31
    let q = 1 << 10;
    let (a, b) = (len / q + 1, q);
    let def = { let d = Def::default().unlim("u", 2).dim("a", a).dim("b", b); if rec { d.var("s", Ty::I16, &["u"]).var("v", t, &["u", "a", "b"]) } else { d.var("v", t, &["b", "a"]).var("s", Ty::I16, &["u"]) } };
    let v = if rec { 1 } else { 0 };
    let m = |e: String| format!("{}: {}", hist::show(&def, ver, 0, &[]), e);
    let lay = canonical_layout(&def, ver, 0, def.recsize_padded());
    ck!(ver == Ver::V2 || classic_ok(&def, 0), "engine: not a classic file");
    let p = ctx.path("b.nc");
    let n = def.slab_len(v) as usize;
    let base = (lay.begins[v] + if rec { lay.recsize } else { 0 }) as u64;
    let sz = t.size();
    let pts: Vec<usize> = { let mut x = vec![0, 1, n / 2, n - 2, n - 1]; for b in [0x7FFF_F000usize, 1 << 31, 1 << 32] { for d in [-1i64, 0, 1] { let e = b as i64 / sz as i64 + d; if e >= 0 && (e as usize) < n { x.push(e as usize); } } } x };
    let val = |e: usize| Val::pattern(t, 1, e % 991).raw;
    {
        let f = std::fs::File::create(&p).map_err(|e| e.to_string())?;
        f.write_all_at(&header(&def, ver, 0), 0).map_err(|e| e.to_string())?;
        f.set_len(lay.total as u64).map_err(|e| e.to_string())?;
        for e in &pts { f.write_all_at(&val(*e), base + (*e * sz) as u64).map_err(|e| e.to_string())?; }
    }
    let _lock = BIG.lock().unwrap_or_else(|e| e.into_inner());
    let mut r = FileReader::open(&p).map_err(|e| m(format!("{:?}", e)))?;
    let d = if rec { r.read_record("v", 1) } else { r.read_var("v") }.map_err(|e| m(format!("reading {} values: {:?}", n, e)))?;
    let get = |e: usize| -> Vec<u8> { match &d { DataVector::I8(s) => s[e].to_be_bytes().to_vec(), DataVector::U8(s) => vec![s[e]], DataVector::I16(s) => s[e].to_be_bytes().to_vec(), DataVector::I32(s) => s[e].to_be_bytes().to_vec(), DataVector::F32(s) => s[e].to_be_bytes().to_vec(), DataVector::F64(s) => s[e].to_be_bytes().to_vec() } };
    ck!(d.len() == n, "{}", m(format!("{} values read, expected {}", d.len(), n)));
    for e in &pts { ck!(get(*e) == val(*e), "{}", m(format!("element {}: expected {:02x?} got {:02x?}", e, val(*e), get(*e)))); }
    let nz = match &d { DataVector::I8(s) => s.iter().filter(|x| **x != 0).count(), DataVector::U8(s) => s.iter().filter(|x| **x != 0).count(), DataVector::I16(s) => s.iter().filter(|x| **x != 0).count(), DataVector::I32(s) => s.iter().filter(|x| **x != 0).count(), DataVector::F32(s) => s.iter().filter(|x| x.to_bits() != 0).count(), DataVector::F64(s) => s.iter().filter(|x| x.to_bits() != 0).count() };
    let mut u = pts.clone(); u.sort(); u.dedup();
    ck!(nz == u.len(), "{}", m(format!("{} non-zero values read, expected {}", nz, u.len())));
    ctx.op(2); ctx.trace(); ctx.state(&(t.code(), n, rec));
    let _ = std::fs::remove_file(&p);
    Ok(())
}

pub fn families(t: Tier) -> Vec<Family> {
    let th = t.thorough();
    let mut f = vec![];
    let sizes: Vec<usize> = vec![1, 2, 3, 5, 255, 256, 65_535, 65_536, 65_537, 1 << 24, (1 << 30) + 1, 1 << 30, NC_MAX - 1, NC_MAX];
    let ns: Vec<usize> = vec![0, 1, 2, 3, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFE, 0xFFFF_FFFF, 0x1_0000_0000, 0x1_0000_0001, 1 << 40];
    let (s2, n2) = (sizes.clone(), ns.clone());
    let tp = if th { 36 } else { 6 };
    let k = sizes.len();
    f.push(fam("getters", &format!("4 variables (2 record ones, 2 fixed-size ones) over 3 fixed dimensions of {}^3 sizes up to 2^31-4, {} numbers of records up to 2^40, {} pairs of types: all lengths, chunk sizes, record size against 128-bit arithmetic (whenever below 2^63)", k, ns.len(), tp), (k * k * k * ns.len() * tp) as u64, move |i, ctx| {
        let mut d = Digits(i);
        let (a, b, c, n, tt) = (s2[d.next(k)], s2[d.next(k)], s2[d.next(k)], n2[d.next(n2.len())], d.next(tp));
        let (t1, t2) = if tp == 36 { (TYS[tt / 6], TYS[tt % 6]) } else { (TYS[tt], TYS[(tt + 2) % 6]) };
        let base = Def::default().dim("a", a).unlim("u", n).dim("b", b).dim("c", c);
        // drop the variables which make the data set too big
        let mut def = base.clone();
        for (name, ty, l) in [("r", t1, &["u", "a", "b"][..]), ("f", t2, &["c", "a", "b"][..]), ("s", t2, &["u", "c"][..]), ("g", t1, &["b", "c"][..]), ("h", t2, &["u"][..])] { let x = def.clone().var(name, ty, l); if fits(&x, 4096) { def = x } else { ctx.count("variables left out: beyond 63 bits"); } }
        ctx.sample(|| hist::show(&def, Ver::V2, 0, &[]));
        getters(ctx, &def)
    }));
    {   // many dimensions
        let sz = [1usize, 3, 256, 65_537];
        let most = if th { 9 } else { 7 };
        let slots: Vec<(usize, u64)> = (4..=most).flat_map(|n| (0..4u64.pow(n as u32)).map(move |k| (n, k))).collect();
        let m = slots.len() as u64;
        f.push(fam("many_dims", &format!("a fixed-size and a record variable over 4..{} dimensions of all sizes among {:?}, 3 records or 2^31+1: all lengths, chunk sizes, record size against 128-bit arithmetic (whenever below 2^63)", most, sz), m * 2, move |i, ctx| {
            let (n, k) = slots[(i / 2) as usize];
            let mut g = Digits(k);
            let mut def = Def::default().unlim("u", if i % 2 == 0 { 3 } else { (1 << 31) + 1 });
            let names: Vec<String> = (0..n).map(|j| format!("d{}", j)).collect();
            for x in &names { def = def.dim(x, sz[g.next(4)]); }
            let all: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            let rec: Vec<&str> = ["u"].into_iter().chain(all.iter().rev().copied()).collect();
            for (name, ty, l) in [("f", TYS[(k % 6) as usize], &all[..]), ("r", TYS[((k / 6) % 6) as usize], &rec[..]), ("s", Ty::F64, &rec[..n])] { let bits: f64 = l.iter().map(|x| (def.dims.iter().find(|y| y.name == *x).unwrap().size as f64).log2()).sum(); if bits > 64.0 { ctx.count("variables left out: beyond 63 bits"); continue; } let x = def.clone().var(name, ty, l); if fits(&x, 4096) { def = x } else { ctx.count("variables left out: beyond 63 bits"); } }
            getters(ctx, &def)
        }));
    }
    let (s2, n2) = (sizes.clone(), ns.clone());
    let tp = if th { 12 } else { 3 };
    let k2 = if th { sizes.len() } else { 8 };
    let pick: Vec<usize> = if th { s2 } else { vec![1, 3, 255, 65_536, (1 << 30) + 1, 1 << 29, NC_MAX - 1, NC_MAX] };
    f.push(fam("begin_offsets", &format!("the same data sets over {}^3 sizes, {} pairs of types, both versions: set_def is refused (classic) exactly when a begin offset exceeds 2^31-1, the 64-bit version is then accepted, and the header is exact", k2, tp), (k2 * k2 * k2 * n2.len() * tp * 2) as u64, move |i, ctx| {
        let mut d = Digits(i);
        let (a, b, c, n, tt, ver) = (pick[d.next(k2)], pick[d.next(k2)], pick[d.next(k2)], n2[d.next(n2.len())], d.next(tp), VERS[d.next(2)]);
        let (t1, t2) = if tp == 12 { (TYS[tt % 6], TYS[(tt + 1 + tt / 6 * 2) % 6]) } else { (TYS[tt * 2], TYS[tt * 2 + 1]) };
        let mut def = Def::default().dim("a", a).unlim("u", n).dim("b", b).dim("c", c).var("z", Ty::I8, &[]);
        for (name, ty, l) in [("r", t1, &["u", "a"][..]), ("f", t2, &["c", "b"][..]), ("s", t2, &["u", "c"][..]), ("g", t1, &["b", "a"][..]), ("h", t2, &["u"][..])] { let x = def.clone().var(name, ty, l); if fits(&x, 4096) { def = x } else { ctx.count("variables left out: beyond 63 bits"); } }
        ctx.sample(|| hist::show(&def, ver, 0, &[]));
        offsets(ctx, &def, ver)
    }));
    // the boundary of the classic version, 4 bytes by 4 bytes
    f.push(fam("classic_boundary", "a fixed-size variable of u8 sized so that the next one begins at 2^31 + 4k, k in -40..40, followed by 0..3 variables (fixed-size, record), minimum header sizes: refusal exactly when a begin offset exceeds 2^31-1", 81 * 6 * 2, |i, ctx| {
        let mut d = Digits(i);
        let (k, w, ver) = (d.next(81) as i64 - 40, d.next(6), VERS[d.next(2)]);
        let mk = |a: usize| { let d = Def::default().dim("a", a).unlim("u", 2).var("f", Ty::U8, &["a"]); match w { 0 => d, 1 => d.var("g", Ty::I8, &[]), 2 => d.var("r", Ty::I8, &["u"]), 3 => d.var("g", Ty::F64, &[]).var("r", Ty::I16, &["u"]), 4 => Def::default().dim("a", a).unlim("u", 2).var("r", Ty::I8, &["u"]).var("f", Ty::U8, &["a"]), _ => Def::default().dim("a", a).unlim("u", 2).var("r", Ty::U8, &["u", "a"]).var("s", Ty::F64, &["u"]) } };
        let start = canonical_layout(&mk(1), ver, 0, 0).data_start as i64;
        let a = ((1i64 << 31) + 4 * k - start).min(NC_MAX as i64) as usize;
        for off in 0..4 { if a > off { ctx.sample(|| hist::show(&mk(a - off), ver, 0, &[])); offsets(ctx, &mk(a - off), ver)?; } }
        Ok(())
    }));
    // minimum header sizes beyond 2^31: refused by the classic version as soon as there is a variable
    {
        let hm: Vec<usize> = { let mut v: Vec<usize> = [31u32, 32, 33, 34, 40, 48, 62].iter().flat_map(|k| (-16i64..=80).map(move |d| ((1i64 << k) + d) as usize)).filter(|x| *x > i32::MAX as usize).chain((1..=9).flat_map(|k| [k * 1_000_000_000_000, (k << 32) + (k << 10)])).collect(); v.sort(); v.dedup(); v };
        let nh = hm.len();
        f.push(fam("huge_min_sizes", &format!("{} minimum header sizes from 2^31 to 2^62 x 5 definitions: the classic version refuses it, and nothing of it remains (a smaller one is then accepted)", nh), (nh * 5) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (k, h) = (d.next(5), hm[d.next(nh)]);
            let x = Def::default().dim("a", 3).unlim("u", 2);
            let def = match k { 0 => x.var("v", Ty::I8, &[]), 1 => x.var("v", Ty::I16, &["u"]), 2 => x.attr("g", Val::pattern(Ty::U8, 40, 2)).var("f", Ty::F64, &["a"]).var("v", Ty::I8, &["u", "a"]), 3 => crate::spaces::crossed_def(1, 3, 2, 2, 2, true), _ => crate::spaces::crossed_def(12, 1, 3, 4, 0, true) };
            let m = |e: String| format!("{}: {}", hist::show(&def, Ver::V1, h, &[]), e);
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            let p = ctx.path("s.nc");
            {
                let mut w = FileWriter::open(&p).map_err(|e| m(format!("{:?}", e)))?;
                let r = w.set_def(&ds, netcdf3::Version::Classic, h);
                ck!(r == Err(netcdf3::error::WriteError::ClassicVersionNotPossible), "{}", m(format!("set_def: {:?}", r)));
                let n = std::fs::metadata(&p).map_err(|e| e.to_string())?.len();
                ck!(n == 0, "{}", m(format!("{} bytes are written by the refused definition", n)));
                let small = h % 512;
                w.set_def(&ds, netcdf3::Version::Classic, small).map_err(|e| m(format!("then set_def with {}: {:?}", small, e)))?;
                let got = std::fs::read(&p).map_err(|e| e.to_string())?;
                if let Some(x) = diff_bytes(&header(&def, Ver::V1, small), &got) { return Err(m(format!("then with {}: header: {}", small, x))); }
            }
            ctx.op(3); ctx.trace(); ctx.state(&(k, h));
            Ok(())
        }));
    }
    let bounds: Vec<u64> = vec![1 << 31, 1 << 32, 3 << 31, 1 << 33, 1 << 36, 1 << 40];
    let nb = bounds.len();
    let nd = if th { 33 } else { 9 };
    f.push(fam("places", &format!("small variables whose begin offset, or whose second record, is at B + 4k, B in 2^31, 2^32, 3*2^31, 2^33, 2^36, 2^40, {} values of k, 3 layouts, 6 types, 1..3 records, both versions, 4 orders of writes: every byte of the sparse file, and everything read back", nd), (nb * nd * 3 * 6 * 3 * 2 * if th { 4 } else { 2 }) as u64, move |i, ctx| {
        let mut d = Digits(i);
        let (ver, t, layout, recs, b, k) = (VERS[d.next(2)], TYS[d.next(6)], d.next(3), d.next(3) + 1, bounds[d.next(nb)], d.next(nd) as i64 - nd as i64 / 2);
        let order = if th { d.next(4) } else { d.next(2) * 3 };
        // the limits of the file system: the records reach 3 * 2^40 at most
        let def = placed_def(b, 4 * k, layout, t, recs, ver);
        ctx.sample(|| hist::show(&def, ver, 0, &[]));
        places(ctx, &def, ver, order)
    }));
    let fb: Vec<u64> = { let mut v = vec![4096u64]; for b in [1u64 << 31, 1 << 32, 1 << 33, 1 << 40] { for d in [-8i64, -4, 0, 4, 8] { v.push((b as i64 + d) as u64); } } v };
    let nf = fb.len();
    f.push(fam("foreign_places", &format!("foreign files: a fixed-size and a record variable anywhere among {} offsets up to 2^40, record strides of 4 to 2^33 bytes, determinate or not, both versions", nf), (nf * nf * 5 * 4 * 2 * 6) as u64, move |i, ctx| {
        let mut d = Digits(i);
        let (o1, o2, st, fl, ver, t) = (fb[d.next(nf)], fb[d.next(nf)], d.next(5), d.next(4), VERS[d.next(2)], TYS[d.next(6)]);
        if ver == Ver::V1 && (o1 > 0x7FFF_FFFF || o2 > 0x7FFF_FFFF) { return Ok(()); }
        if o1.abs_diff(o2) < 64 { return Ok(()); }
        let base = Def::default().unlim("u", 3).dim("k", 2).var("f", Ty::I16, &["k"]).var("r", t, &["u", "k"]);
        // a huge record variable whose data is never read makes the stride
        if st == 0 {
            if o2 < o1 && o1 < o2 + 3 * base.recsize_padded() as u64 { return Ok(()); }
            if base.special_case() { return Ok(()); }
            ctx.sample(|| format!("{} at {} and {}", hist::show(&base, ver, 0, &[]), o1, o2));
            return foreign(ctx, &base, ver, &[o1, o2], fl & 1 == 1, fl & 2 == 2);
        }
        let stride = [0u64, 4 * 7, 1 << 16, 1 << 31, 1 << 33][st];
        let def = filler(base.clone(), "h", stride, true);
        let rs = def.recsize_padded() as u64;
        if o1 >= o2 && o1 < o2 + 3 * rs { return Ok(()); }
        let r_size = def.vsize(1) as u64;
        let mut begins = vec![o1, o2];
        let mut p = o2 + r_size;
        for v in 2..def.vars.len() { begins.push(p); p += def.vsize(v) as u64; }
        if ver == Ver::V1 && begins.iter().any(|b| *b > 0x7FFF_FFFF) { return Ok(()); }
        ctx.sample(|| format!("{} at {:?}", hist::show(&def, ver, 0, &[]), begins));
        foreign_small(ctx, &def, ver, &begins, fl & 1 == 1, fl & 2 == 2)
    }));
    let nn: Vec<usize> = { let mut v = vec![]; for b in [1usize << 31, 1 << 32, (1 << 32) + (1 << 31), 1 << 33] { for d in -4i64..=4 { v.push((b as i64 + d) as usize); } } if th { for b in [1usize << 24, 1 << 30, 3 << 31, 1 << 34, 1 << 36] { for d in -4i64..=4 { v.push((b as i64 + d) as usize); } } } v };
    let m = nn.len();
    f.push(fam("many_records", &format!("{} numbers of records around 2^31, 2^32, 2^33..., 5 sets of variables, both versions: header field (indeterminate beyond 2^31-1), records written at their place, number of records read back", m), (m * 5 * 2) as u64, move |i, ctx| {
        let mut d = Digits(i);
        let (n, k, ver) = (nn[d.next(m)], d.next(5), VERS[d.next(2)]);
        ctx.sample(|| format!("{} records, set {}, {:?}", n, k, ver));
        many_records(ctx, n, k, ver)
    }));
    // whole histories with gigabytes really written (to a virtual file)
    let mut vc: Vec<(Def, Ver, Vec<(usize, Option<usize>)>)> = vec![];
    let d0 = |n: usize| Def::default().unlim("u", n).dim("k", 3).dim("a", (1 << 27) + 3).dim("b", 2).dim("c", 5);
    // nothing written, everything filled: a fixed-size variable of 2 GiB, then records
    vc.push((d0(2).var("f", Ty::F64, &["a", "b"]).var("g", Ty::I8, &["k"]).var("r", Ty::I16, &["u", "k"]).var("s", Ty::I8, &["u"]), Ver::V2, vec![]));
    // records of 1 GiB: the third one is beyond 2 GiB
    vc.push((d0(3).var("r", Ty::I16, &["u", "k"]).var("x", Ty::F64, &["u", "a"]).var("s", Ty::I8, &["u"]), Ver::V1, vec![(0, Some(1)), (2, Some(2))]));
    // a fixed-size variable of more than 2 GiB is written at once
    vc.push((d0(1).var("f", Ty::F64, &["b", "a"]).var("g", Ty::I16, &["k"]).var("r", Ty::I8, &["u", "k"]), Ver::V2, vec![(0, None)]));
    // records of 1 GiB, nothing written: five of them are filled, beyond 4 GiB
    vc.push((d0(5).var("r", Ty::I16, &["u", "k"]).var("x", Ty::F64, &["u", "a"]).var("s", Ty::I32, &["u"]), Ver::V1, vec![(2, Some(1))]));
    if th {
        vc.push((d0(5).var("r", Ty::U8, &["u", "k"]).var("x", Ty::F64, &["u", "a"]).var("s", Ty::I16, &["u"]), Ver::V2, vec![(0, None), (2, Some(4)), (1, Some(3))]));
        vc.push((d0(2).var("x", Ty::F64, &["u", "a", "c"]).var("g", Ty::F32, &["k"]).var("s", Ty::I8, &["u"]), Ver::V2, vec![(2, Some(1))]));
        vc.push((d0(2).var("f", Ty::F32, &["c", "a"]).var("s", Ty::F32, &["u", "k"]), Ver::V2, vec![]));
        vc.push((d0(1).var("f", Ty::I16, &["a", "c", "k"]).var("r", Ty::I8, &["u", "k"]).var("g", Ty::I16, &[]), Ver::V2, vec![]));
        vc.push((d0(1).var("f", Ty::I32, &["a", "c"]).var("r", Ty::I8, &["u", "k"]).var("g", Ty::I16, &[]), Ver::V2, vec![(0, None)]));
        vc.push((d0(3).var("r", Ty::F64, &["u", "a"]), Ver::V1, vec![(0, None)]));
        vc.push((d0(4).var("r", Ty::F32, &["u", "a", "k"]).var("s", Ty::I8, &["u"]), Ver::V2, vec![(0, Some(2))]));
        vc.push((d0(1).var("f", Ty::U8, &["a", "c", "k"]).var("g", Ty::I8, &["k"]).var("r", Ty::I8, &["u"]), Ver::V2, vec![(1, None)]));
    }
    // a minimum header size beyond 2 GiB, really written
    let hb: Vec<(usize, u8)> = if th { vec![((1 << 31) + 66, 0), ((1 << 32) + 64, 1), ((1 << 31) - 4, 2), ((1 << 31) - 3, 3)] } else { vec![((1 << 31) + 66, 0)] };
    f.push(fam("gigabytes_of_header", "minimum header sizes around 2^31 and 2^32, 64-bit version, or classic version without variables: the whole file, written then read back", hb.len() as u64, move |i, ctx| {
        let (h, k) = hb[i as usize];
        let x = Def::default().dim("a", 3).unlim("u", 2).attr("g", Val::pattern(Ty::U8, 9, 2));
        let (def, ver) = match k { 0 => (x.var("f", Ty::I16, &["a"]).var("r", Ty::I8, &["u", "a"]).var("s", Ty::F64, &["u"]), Ver::V2), 1 => (x.var("r", Ty::F32, &["u", "a"]), Ver::V2), 2 => (x.clone(), Ver::V1), _ => (x.var("f", Ty::F64, &["a"]), Ver::V2) };
        let m = |e: String| format!("{}: {}", hist::show(&def, ver, h, &[]), e);
        let _lock = BIG.lock().unwrap_or_else(|e| e.into_inner());
        let p = ctx.path("s.nc");
        let r = (|| {
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            let ops = hist::full_ops(&def);
            let mut data = empty_data(&def);
            {
                let mut w = FileWriter::open(&p).map_err(|e| m(format!("{:?}", e)))?;
                w.set_def(&ds, bind::ver(ver), h).map_err(|e| m(format!("set_def: {:?}", e)))?;
                for op in &ops { hist::exec(&def, &mut w, *op).map_err(|e| m(format!("{:?}: {:?}", op, e)))?; hist::apply(&def, &mut data, *op); }
                w.close().map_err(|e| m(format!("close: {:?}", e)))?;
            }
            let lay = canonical_layout(&def, ver, h, def.recsize_padded());
            let mut expected = encode_header(&def, ver, numrecs_field(def.numrecs()), &lay.begins.iter().map(|b| *b as u64).collect::<Vec<_>>(), &(0..def.vars.len()).map(|v| vsize_field(def.vsize(v))).collect::<Vec<_>>(), &HdrOpts::default());
            let f = std::fs::File::open(&p).map_err(|e| e.to_string())?;
            let n = f.metadata().map_err(|e| e.to_string())?.len();
            ck!(n as u128 == lay.total, "{}", m(format!("the file has {} bytes, expected {}", n, lay.total)));
            // block by block: the header, zeros, then the data as the readers find it
            let mut at = 0u64;
            let mut b = vec![0u8; 1 << 20];
            expected.resize((expected.len() + b.len() - 1) / b.len() * b.len(), 0);
            while at < lay.data_start as u64 {
                let k = (b.len() as u64).min(lay.data_start as u64 - at) as usize;
                f.read_exact_at(&mut b[..k], at).map_err(|e| e.to_string())?;
                if at == 0 { if let Some(d) = diff_bytes(&expected[..k], &b[..k]) { return Err(m(format!("header: {}", d))); } }
                else { ck!(b[..k].iter().all(|x| *x == 0), "{}", m(format!("the header is not padded with zeros near {}", at))); }
                at += k as u64;
            }
            drop(f);
            crate::c_read::check_file(ctx, &p, &def, &data, ver).map_err(m)
        })();
        let _ = std::fs::remove_file(&p);
        ctx.op(6); ctx.trace(); ctx.state(&i);
        r
    }));
    f.push(fam("gigabytes_written", "whole histories (definition, writes, close with fill) on files of 2 to 10 GiB, every byte written checked against the layout", vc.len() as u64, move |i, ctx| {
        let (def, ver, w) = &vc[i as usize];
        ctx.sample(|| format!("{} writes {:?}", hist::show(def, *ver, 0, &[]), w));
        virtual_close(ctx, def, *ver, w)
    }));
    let br: Vec<(Ty, usize, bool)> = if th { vec![(Ty::U8, (1 << 31) + 5, false), (Ty::I8, (1 << 32) + 5, false), (Ty::F64, (1 << 29) + 3, false), (Ty::I16, (1 << 31) + 3, true), (Ty::F32, (1 << 29) + 1, true), (Ty::I32, (1 << 30) + 7, false), (Ty::U8, (1 << 32) + 77, true), (Ty::F64, (1 << 28) + 3, true)] } else { vec![(Ty::U8, (1 << 31) + 5, false)] };
    f.push(fam("gigabytes_read", "a variable or a record of 2 to 4 GiB read at once from a sparse file", br.len() as u64, move |i, ctx| {
        let (t, n, rec) = br[i as usize];
        ctx.sample(|| format!("{:?} x {} {}", t, n, rec));
        big_read(ctx, t, n, rec, if rec { Ver::V1 } else { Ver::V2 })
    }));
    f
}
/// As `foreign`, for definitions having huge variables: only the small ones are written and read.
fn foreign_small(ctx: &mut Ctx, def: &Def, ver: Ver, begins: &[u64], indet: bool, vs_indet: bool) -> Result<(), String> {
    let m = |e: String| format!("{} begins {:?} indeterminate: numrecs {} vsize {}: {}", hist::show(def, ver, 0, &[]), begins, indet, vs_indet, e);
    let small: Vec<usize> = (0..def.vars.len()).filter(|v| def.slab_bytes(*v) < 4096).collect();
    let mut data = empty_data(def);
    for v in &small { hist::apply(def, &mut data, Op::Var { v: *v, salt: 5 + v }); }
    let h = encode_header(def, ver, if indet { u32::MAX } else { numrecs_field(def.numrecs()) }, begins, &(0..def.vars.len()).map(|v| if vs_indet { u32::MAX } else { vsize_field(def.vsize(v)) }).collect::<Vec<_>>(), &HdrOpts::default());
    let p = ctx.path("s.nc");
    let f = std::fs::File::create(&p).map_err(|e| e.to_string())?;
    let rs = def.recsize_padded() as u64;
    f.write_all_at(&h, 0).map_err(|e| e.to_string())?;
    for v in &small { for s in 0..def.nslabs(*v) { f.write_all_at(data[*v][s].as_ref().unwrap(), begins[*v] + if def.is_rec(*v) { rs * s as u64 } else { 0 }).map_err(|e| e.to_string())?; } }
    let first = (0..def.vars.len()).filter(|v| def.is_rec(*v)).map(|v| begins[v]).min().unwrap();
    let mut end = first + rs * def.numrecs() as u64;
    for v in 0..def.vars.len() { if !def.is_rec(v) { end = end.max(begins[v] + def.vsize(v) as u64); } }
    if indet && end != first + rs * def.numrecs() as u64 { ctx.count("skipped: the records are not last"); return Ok(()); }
    f.set_len(end).map_err(|e| e.to_string())?;
    let mut r = FileReader::open(&p).map_err(|e| m(format!("FileReader::open: {:?}", e)))?;
    let g = bind::snapshot(r.data_set()).map_err(m)?;
    if let Some(d) = bind::diff_def(def, &g) { return Err(m(d)); }
    read_small(&mut r, def, &data, &small).map_err(m)?;
    ctx.op(small.len() as u64 + 1); ctx.trace(); ctx.state(&(begins, indet, vs_indet, ver));
    Ok(())
}
