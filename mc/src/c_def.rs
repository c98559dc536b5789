//! C01 (definitions survive the round trip) and the definition part of C04 (bytes of the header).
use crate::bind;
use crate::hist;
use crate::model::*;
use crate::runner::*;
use crate::spaces::{self, Space};
use netcdf3::{DataSet, FileReader, FileWriter};
use std::path::Path;

/// Writes the definition, closes, opens again and compares everything.
pub fn roundtrip(ctx: &mut Ctx, path: &Path, ds: &DataSet, def: &Def, ver: Ver, hmin: usize) -> Result<(), String> {
    let before = bind::snapshot(ds).map_err(|e| format!("before writing: {}", e))?;
    if let Some(d) = bind::diff_def(def, &before) { return Err(format!("built definition: {}", d)); }
    let mut w = FileWriter::open(path).map_err(|e| format!("FileWriter::open: {:?}", e))?;
    w.set_def(ds, bind::ver(ver), hmin).map_err(|e| format!("set_def: {:?}", e))?;
    ck!(w.header_is_defined() && w.version() == Some(bind::ver(ver)) && w.header_min_size() == Some(hmin) && w.data_set().map(|d| std::ptr::eq(d, ds)) == Some(true), "the getters of the writer do not give the definition back");
    w.close().map_err(|e| format!("close: {:?}", e))?;
    let r = FileReader::open(path).map_err(|e| format!("FileReader::open: {:?}", e))?;
    ck!(bind::unver(&r.version()) == ver, "version {:?} instead of {:?}", r.version(), ver);
    let got = bind::snapshot(r.data_set()).map_err(|e| format!("after reading: {}", e))?;
    if let Some(d) = bind::diff_def(def, &got) { return Err(format!("definition read back: {}", d)); }
    let (ds2, v2) = r.close();
    ck!(bind::unver(&v2) == ver, "FileReader::close: version {:?}", v2);
    let got = bind::snapshot(&ds2).map_err(|e| format!("FileReader::close: {}", e))?;
    if let Some(d) = bind::diff_def(def, &got) { return Err(format!("FileReader::close: {}", d)); }
    ctx.op(5); ctx.trace();
    Ok(())
}

fn rt_family(s: Space, vers: bool) -> Family {
    let gen = s.gen;
    let nv = if vers { 2 } else { 1 };
    fam(&format!("{}", s.name), &format!("{} x {} version(s), written, closed and read back", s.bound, nv), s.n * nv, move |i, ctx| {
        let ver = if nv == 2 { VERS[(i % 2) as usize] } else { VERS[(i / 7 % 2) as usize] };
        let def = match gen(i / nv) { Some(d) => d, None => { ctx.count("skipped: not a valid combination"); return Ok(()) } };
        ctx.state(&def);
        ctx.sample(|| hist::show(&def, ver, 0, &[]));
        let ds = bind::build(&def).map_err(|e| format!("{}: a valid definition is refused: {:?}", hist::show(&def, ver, 0, &[]), e))?;
        roundtrip(ctx, &ctx.path("f.nc"), &ds, &def, ver, 0).map_err(|e| format!("{}\n{}", hist::show(&def, ver, 0, &[]), e))
    })
}

/// Four small definitions used by the sweeps of header_min_size.
pub fn sweep_def(k: usize) -> Def {
    match k {
        0 => Def::default(),
        1 => Def::default().dim("a", 3).attr("g", Val::pattern(Ty::U8, 5, 1)).var("v", Ty::I16, &["a"]),
        2 => Def::default().unlim("u", 2).dim("a", 3).var("v", Ty::I8, &["u", "a"]).vattr("q", Val::pattern(Ty::F64, 2, 1)).var("w", Ty::F64, &["a"]).var("x", Ty::I16, &["u"]),
        _ => Def::default().attr("g", Val::pattern(Ty::U8, 1100, 1)).unlim("u", 1).var("v", Ty::F32, &["u"]),
    }
}
pub fn hmins(th: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if th { 4200 } else { 1300 }).collect();
    v.extend([2046, 2047, 2048, 2049, 2050, 2051, 2052, 3071, 3072, 3073, 4095, 4096, 4097, 8191, 8192, 8193, 10_001, 65_535, 65_536, 65_537, 100_003]);
    v.sort(); v.dedup(); v
}

/// A simple program of edits (kept small: the complete edit space is explored by C08).
pub fn edit_alphabet() -> Vec<&'static str> { vec!["rename d->e", "rename e->d", "remove d", "add d=3", "add e=2", "unlim u=2", "remove u", "var v[d]", "var w[u]", "var v[u,d]", "rename v->w", "remove v", "gattr g", "rename g->h", "remove g", "vattr v:q", "vattr w:q", "rename v:q->r", "remove v:q", "unlim d=1"] }
/// The reference effect of an edit (None: it breaks a rule).
pub fn model_edit(def: &Def, k: usize, step: usize) -> Option<Def> {
    let mut d = def.clone();
    let dim = |d: &Def, n: &str| d.dims.iter().position(|x| x.name == n);
    let var = |d: &Def, n: &str| d.vars.iter().position(|x| x.name == n);
    let rename_dim = |mut d: Def, a: &str, b: &str| { let i = dim(&d, a)?; if dim(&d, b).is_some() { return None; } d.dims[i].name = b.into(); Some(d) };
    let remove_dim = |mut d: Def, a: &str| { let i = dim(&d, a)?; if d.vars.iter().any(|v| v.dims.contains(&i)) { return None; } d.dims.remove(i); for v in d.vars.iter_mut() { for x in v.dims.iter_mut() { if *x > i { *x -= 1; } } } Some(d) };
    let add_var = |mut d: Def, n: &str, t: Ty, l: &[&str]| { if var(&d, n).is_some() { return None; } let mut ids = vec![]; for x in l { ids.push(dim(&d, x)?); } if ids.iter().skip(1).any(|i| d.dims[*i].unlim) { return None; } d.vars.push(Var { name: n.into(), ty: t, dims: ids, attrs: vec![] }); Some(d) };
    let add_vattr = |mut d: Def, n: &str, a: &str, v: Val| { let i = var(&d, n)?; if d.vars[i].attrs.iter().any(|x| x.name == a) { return None; } d.vars[i].attrs.push(attr(a, v)); Some(d) };
    match k {
        0 => rename_dim(d, "d", "e"), 1 => rename_dim(d, "e", "d"), 2 => remove_dim(d, "d"),
        3 => { if dim(&d, "d").is_some() { None } else { d.dims.push(Dim { name: "d".into(), size: 3, unlim: false }); Some(d) } }
        4 => { if dim(&d, "e").is_some() { None } else { d.dims.push(Dim { name: "e".into(), size: 2, unlim: false }); Some(d) } }
        5 => { if dim(&d, "u").is_some() || d.dims.iter().any(|x| x.unlim) { None } else { d.dims.push(Dim { name: "u".into(), size: 2, unlim: true }); Some(d) } }
        6 => remove_dim(d, "u"),
        7 => add_var(d, "v", Ty::I16, &["d"]), 8 => add_var(d, "w", Ty::F32, &["u"]), 9 => add_var(d, "v", Ty::I8, &["u", "d"]),
        10 => { let i = var(&d, "v")?; if var(&d, "w").is_some() { return None; } d.vars[i].name = "w".into(); Some(d) }
        11 => { let i = var(&d, "v")?; d.vars.remove(i); Some(d) }
        12 => { if d.attrs.iter().any(|a| a.name == "g") { None } else { d.attrs.push(attr("g", Val::pattern(Ty::I8, 3, step))); Some(d) } }
        13 => { let i = d.attrs.iter().position(|a| a.name == "g")?; if d.attrs.iter().any(|a| a.name == "h") { return None; } d.attrs[i].name = "h".into(); Some(d) }
        14 => { let i = d.attrs.iter().position(|a| a.name == "g")?; d.attrs.remove(i); Some(d) }
        15 => add_vattr(d, "v", "q", Val::pattern(Ty::I16, 1, step)), 16 => add_vattr(d, "w", "q", Val::pattern(Ty::F64, 1, step)),
        17 => { let i = var(&d, "v")?; let j = d.vars[i].attrs.iter().position(|a| a.name == "q")?; if d.vars[i].attrs.iter().any(|a| a.name == "r") { return None; } d.vars[i].attrs[j].name = "r".into(); Some(d) }
        18 => { let i = var(&d, "v")?; let j = d.vars[i].attrs.iter().position(|a| a.name == "q")?; d.vars[i].attrs.remove(j); Some(d) }
        _ => { if dim(&d, "d").is_some() || d.dims.iter().any(|x| x.unlim) { None } else { d.dims.push(Dim { name: "d".into(), size: 1, unlim: true }); Some(d) } }
    }
}
pub fn real_edit(ds: &mut DataSet, k: usize, step: usize) -> Result<(), String> {
    let e = |r: Result<(), netcdf3::InvalidDataSet>| r.map_err(|e| format!("{:?}", e));
    match k {
        0 => e(ds.rename_dim("d", "e")), 1 => e(ds.rename_dim("e", "d")), 2 => e(ds.remove_dim("d").map(|_| ())), 3 => e(ds.add_fixed_dim("d", 3)), 4 => e(ds.add_fixed_dim("e", 2)),
        5 => e(ds.set_unlimited_dim("u", 2)), 6 => e(ds.remove_dim("u").map(|_| ())), 7 => e(ds.add_var_i16("v", &["d"])), 8 => e(ds.add_var_f32("w", &["u"])), 9 => e(ds.add_var_i8("v", &["u", "d"])),
        10 => e(ds.rename_var("v", "w")), 11 => e(ds.remove_var("v").map(|_| ())), 12 => e(bind::add_global_attr(ds, "g", &Val::pattern(Ty::I8, 3, step))), 13 => e(ds.rename_global_attr("g", "h")), 14 => e(ds.remove_global_attr("g").map(|_| ())),
        15 => e(bind::add_var_attr(ds, "v", "q", &Val::pattern(Ty::I16, 1, step))), 16 => e(bind::add_var_attr(ds, "w", "q", &Val::pattern(Ty::F64, 1, step))), 17 => e(ds.rename_var_attr("v", "q", "r")), 18 => e(ds.remove_var_attr("v", "q").map(|_| ())),
        _ => e(ds.set_unlimited_dim("d", 1)),
    }
}
/// All distinct (definition, history) reached by legal edits, breadth first: one shortest history
/// per (last edits) path is kept, deduplicated on the definition *and* the last two edits.
pub fn edit_histories(depth: usize, starts: &[Vec<usize>]) -> Vec<Vec<usize>> {
    let na = edit_alphabet().len();
    let mut out: Vec<Vec<usize>> = vec![];
    let run = |h: &[usize]| { let mut d = Def::default(); for (s, k) in h.iter().enumerate() { d = model_edit(&d, *k, s)?; } Some(d) };
    for st in starts {
        let mut frontier = vec![st.clone()];
        if run(st).is_none() { continue; }
        for _ in 0..=depth {
            out.extend(frontier.iter().cloned());
            let mut next = vec![];
            for h in &frontier { let d = run(h).unwrap(); for k in 0..na { if model_edit(&d, k, h.len()).is_some() { let mut g = h.clone(); g.push(k); next.push(g); } } }
            frontier = next;
        }
    }
    out.sort(); out.dedup();
    out.sort_by_key(|h| h.len());
    out
}
fn edit_family(t: Tier, c04: bool) -> Family {
    let starts = vec![vec![], vec![3, 5, 7, 8, 12, 15, 16], vec![5, 3, 9, 12, 15]];
    let hs = edit_histories(if t.thorough() { 4 } else { 3 }, &starts);
    let n = hs.len() as u64;
    fam("edited", &format!("{} histories of legal edits (20 edits, from an empty and two populated data sets), written and read back", n), n, move |i, ctx| {
        let h = &hs[i as usize];
        let ver = VERS[(i % 2) as usize];
        let (mut def, mut ds) = (Def::default(), DataSet::new());
        for (s, k) in h.iter().enumerate() {
            def = model_edit(&def, *k, s).unwrap();
            real_edit(&mut ds, *k, s).map_err(|e| format!("{:?}: legal edit {:?} refused: {}", h, edit_alphabet()[*k], e))?;
        }
        ctx.state(&def); ctx.op(h.len() as u64);
        ctx.sample(|| format!("{:?}", h.iter().map(|k| edit_alphabet()[*k]).collect::<Vec<_>>()));
        let m = |e: String| format!("edits {:?}\n{}", h.iter().map(|k| edit_alphabet()[*k]).collect::<Vec<_>>(), e);
        if c04 { write_and_compare(ctx, &def, &ds, ver, 0).map_err(m) } else { roundtrip(ctx, &ctx.path("f.nc"), &ds, &def, ver, 0).map_err(m) }
    })
}
/// Definitions obtained from a reader, edited, then written again.
fn reedit_family(t: Tier, c04: bool) -> Family {
    let hs = edit_histories(if t.thorough() { 3 } else { 2 }, &[vec![]]);
    let starts: Vec<Vec<usize>> = vec![vec![3, 5, 7, 8, 12, 15, 16], vec![5, 3, 9, 12, 15], vec![3, 4, 5, 7, 10, 9, 16]];
    let na = edit_alphabet().len();
    let tails: Vec<Vec<usize>> = { let mut v = vec![]; for a in 0..na { v.push(vec![a]); for b in 0..na { v.push(vec![a, b]); if t.thorough() { for c in 0..na { v.push(vec![a, b, c]); } } } } v };
    let _ = hs;
    let n = (starts.len() * tails.len()) as u64;
    fam("reread_edited", "a definition is written, read back, edited (all sequences of legal edits) and written to another file", n, move |i, ctx| {
        let st = &starts[(i % starts.len() as u64) as usize];
        let tail = &tails[(i / starts.len() as u64) as usize];
        let (mut def, mut ds) = (Def::default(), DataSet::new());
        for (s, k) in st.iter().enumerate() { def = model_edit(&def, *k, s).unwrap(); real_edit(&mut ds, *k, s)?; }
        // is the tail legal?
        let mut d2 = def.clone();
        for (s, k) in tail.iter().enumerate() { d2 = match model_edit(&d2, *k, 50 + s) { Some(d) => d, None => { ctx.count("skipped: illegal edit"); return Ok(()) } }; }
        let p = ctx.path("a.nc");
        roundtrip(ctx, &p, &ds, &def, VERS[(i % 2) as usize], 0)?;
        let (mut ds, _) = FileReader::open(&p).map_err(|e| format!("{:?}", e))?.close();
        for (s, k) in tail.iter().enumerate() { real_edit(&mut ds, *k, 50 + s).map_err(|e| format!("legal edit {} of a definition read from a file is refused: {}", edit_alphabet()[*k], e))?; }
        ctx.state(&d2); ctx.op(tail.len() as u64);
        let m = |e: String| format!("start {:?}, edits {:?}\n{}", st, tail.iter().map(|k| edit_alphabet()[*k]).collect::<Vec<_>>(), e);
        if c04 { write_and_compare(ctx, &d2, &ds, VERS[(i / 2 % 2) as usize], 0).map_err(m) } else { roundtrip(ctx, &ctx.path("b.nc"), &ds, &d2, VERS[(i / 2 % 2) as usize], 0).map_err(m) }
    })
}

pub fn families(t: Tier) -> Vec<Family> {
    let mut f: Vec<Family> = vec![];
    for s in spaces::all(t) {
        if ["records", "chunk_lens"].contains(&s.name) && !t.thorough() { continue; }
        let vers = s.n < 60_000 || t.thorough();
        f.push(rt_family(s, vers));
    }
    let hm = hmins(t.thorough());
    f.push(fam("header_min_size", &format!("{} header_min_size values x 4 definitions x 2 versions", hm.len()), hm.len() as u64 * 8, move |i, ctx| {
        let mut d = Digits(i);
        let (ver, k, hmin) = (VERS[d.next(2)], d.next(4), hm[(d.0) as usize]);
        let def = sweep_def(k);
        let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
        ctx.state(&(def.clone(), hmin));
        ctx.sample(|| hist::show(&def, ver, hmin, &[]));
        roundtrip(ctx, &ctx.path("f.nc"), &ds, &def, ver, hmin).map_err(|e| format!("{}\n{}", hist::show(&def, ver, hmin, &[]), e))
    }));
    f.push(edit_family(t, false));
    f.push(reedit_family(t, false));
    f
}

/// Writes all the data then compares the file with the specification.
pub fn write_and_compare(ctx: &mut Ctx, def: &Def, ds: &DataSet, ver: Ver, hmin: usize) -> Result<(), String> {
    let p = ctx.path("f.nc");
    let ops = hist::full_ops(def);
    let data = hist::run(&p, def, ds, ver, hmin, &ops)?;
    ctx.op(ops.len() as u64 + 3); ctx.trace();
    let got = std::fs::read(&p).map_err(|e| e.to_string())?;
    // the independent decoder agrees as well
    let dec = decode_header(&got).map_err(|e| format!("the header is not well-formed: {}", e))?;
    ck!(dec.ver == ver, "version {:?}", dec.ver);
    if let Some(d) = bind::diff_def(def, &dec.def) { return Err(format!("decoded header: {}", d)); }
    hist::check_bytes(ctx, def, &data, ver, hmin, &got)
}
pub fn families_c04(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    for s in spaces::all(t) {
        if !s.data { continue; }
        let nv = if s.n < 60_000 || t.thorough() { 2 } else { 1 };
        let gen = s.gen;
        f.push(fam(s.name, &format!("{} x {} version(s): bytes of the complete file", s.bound, nv), s.n * nv, move |i, ctx| {
            let ver = if nv == 2 { VERS[(i % 2) as usize] } else { VERS[(i / 7 % 2) as usize] };
            let def = match gen(i / nv) { Some(d) => d, None => { ctx.count("skipped: not a valid combination"); return Ok(()) } };
            ctx.state(&def);
            ctx.sample(|| hist::show(&def, ver, 0, &[]));
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            write_and_compare(ctx, &def, &ds, ver, 0).map_err(|e| format!("{}\n{}", hist::show(&def, ver, 0, &[]), e))
        }));
    }
    let hm = hmins(t.thorough());
    f.push(fam("header_min_size", &format!("{} header_min_size values x 4 definitions x 2 versions", hm.len()), hm.len() as u64 * 8, move |i, ctx| {
        let mut d = Digits(i);
        let (ver, k, hmin) = (VERS[d.next(2)], d.next(4), hm[(d.0) as usize]);
        let def = sweep_def(k);
        let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
        ctx.state(&(def.clone(), hmin));
        write_and_compare(ctx, &def, &ds, ver, hmin).map_err(|e| format!("{}\n{}", hist::show(&def, ver, hmin, &[]), e))
    }));
    f.push(edit_family(t, true));
    f.push(reedit_family(t, true));
    f
}
