//! C20 (resources are released) and C21 (the cost of an access is that of what is accessed).
use crate::bind;
use crate::c_bytes;
use crate::c_edit;
use crate::hist::{self, Op};
use crate::ioshim::{self, Fault, Shim};
use crate::model::*;
use crate::runner::*;
use crate::spaces::*;
use netcdf3::{DataSet, FileReader, FileWriter};
use std::path::Path;
use std::sync::Arc;

// ------------------------------------------------------------------------------------ C20
thread_local! { static OWN_FDS: bool = unsafe { libc::unshare(libc::CLONE_FILES) == 0 }; }
const MAX_FD: i32 = 256;
/// The descriptors open in this thread (which has a table of its own).
fn fds() -> Vec<i32> { (0..MAX_FD).filter(|f| unsafe { libc::fcntl(*f, libc::F_GETFD) } >= 0).collect() }
/// Runs `f` three times: the second and the third run must leave as many descriptors open and as many
/// bytes allocated as they found (the first one may initialise something once and for all).
fn balanced(ctx: &mut Ctx, what: &dyn Fn() -> String, mut f: impl FnMut() -> Result<(), String>) -> Result<(), String> {
    if !OWN_FDS.with(|x| *x) { return Err("engine: no table of descriptors of its own".into()); }
    for k in 0..3 {
        let a = fds();
        let m = live_bytes();
        f().map_err(|e| format!("{}\n{}", what(), e))?;
        let n = live_bytes() - m;
        let b = fds();
        if k > 0 || a.len() > b.len() { ck!(a == b, "{}\nrun #{}: {} descriptors are open after it ({:?}), {} before", what(), k, b.len(), b.iter().filter(|x| !a.contains(x)).collect::<Vec<_>>(), a.len()); }
        if k > 0 { ck!(n <= 0, "{}\nrun #{}: {} bytes are still allocated after it", what(), k, n); }
    }
    ctx.trace();
    Ok(())
}
fn opened(before: usize) -> Result<(), String> { let n = fds().len(); ck!(n == before + 1, "an open reader or writer holds {} descriptors", n as isize - before as isize); Ok(()) }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum End { Drop, Close, KeepDef }
const ENDS: [End; 3] = [End::Drop, End::Close, End::KeepDef];

/// Opens, reads as told (failing or not), ends.
fn read_run(p: &Path, ops: &[usize], end: End) -> Result<(), String> {
    let n = fds().len();
    match FileReader::open(p) {
        Err(_) => { let k = fds().len(); ck!(k == n, "a failed open keeps {} descriptor(s) open", k - n); }
        Ok(mut r) => {
            opened(n)?;
            let names: Vec<String> = r.data_set().get_var_names();
            for op in ops {
                let v = names.get(op % 3).map(|s| s.as_str()).unwrap_or("no such variable");
                match op / 3 { 0 => { let _ = r.read_var(v); } 1 => { let _ = r.read_record(v, 0); } 2 => { let _ = r.read_record(v, 1 << 40); } 3 => { let _ = r.read_var_i16(v); } 4 => { let _ = r.read_record_f64(v, 1); } _ => { let _ = r.read_all_vars(); } }
                opened(n)?;
            }
            match end {
                End::Drop => drop(r),
                End::Close => { r.close(); }
                End::KeepDef => { let (ds, _) = r.close(); let k = fds().len(); ck!(k == n, "{} descriptor(s) open after close()", k - n); drop(ds); }
            }
            let k = fds().len();
            ck!(k == n, "{} descriptor(s) open at the end ({:?})", k - n, end);
        }
    }
    Ok(())
}
const READ_OPS: usize = 16;

#[derive(Clone, Debug)]
enum W { Def(usize), Op(Op), BadVar, BadRec, BadLen, BadType }
fn wschemas() -> Vec<(Def, Ver)> {
    vec![
        (dims_abu(1, 2, 3, 2).var("f", Ty::I16, &["b"]).var("r", Ty::I8, &["u", "a"]).vattr("q", Val::pattern(Ty::U8, 3, 1)).var("s", Ty::F64, &["u"]), Ver::V1),
        (dims_abu(0, 2, 1, 3).var("r", Ty::I16, &["u"]).attr("g", Val::pattern(Ty::F32, 300, 4)), Ver::V2),
        (Def::default(), Ver::V1),
        // too large for the classic version
        (Def::default().dim("a", 1 << 30).dim("b", 8).var("v", Ty::F64, &["a"]).var("w", Ty::I8, &["b"]), Ver::V1),
    ]
}
fn write_run(p: &Path, def: &Def, ver: Ver, ds: &DataSet, other: &DataSet, ops: &[W], new: bool, end: End) -> Result<(), String> {
    let n = fds().len();
    if new { let _ = std::fs::remove_file(p); }
    let mut w = if new { FileWriter::create_new(p) } else { FileWriter::open(p) }.map_err(|e| format!("{:?}", e))?;
    opened(n)?;
    for o in ops {
        match o {
            W::Def(k) => { let _ = w.set_def(if *k < 2 { ds } else { other }, bind::ver(if *k == 1 { Ver::V2 } else { ver }), [0, 700, 0][*k]); }
            W::Op(o) => { let _ = hist::exec(def, &mut w, *o); }
            W::BadVar => { let _ = w.write_var_i8("no such variable", &[1]); }
            W::BadRec => { let _ = w.write_record_i8("r", 1 << 40, &[1, 2]); }
            W::BadLen => { let _ = w.write_var_i16("f", &[1; 100]); let _ = w.write_record_i8("r", 0, &[]); }
            W::BadType => { let _ = w.write_var_f32("f", &[1.0; 3]); }
        }
        opened(n)?;
    }
    match end { End::Drop => drop(w), _ => { let _ = w.close(); } }
    let k = fds().len();
    ck!(k == n, "{} descriptor(s) open at the end ({:?})", k - n, end);
    Ok(())
}
const FAULTS: [Fault; 6] = [Fault::Short1, Fault::ShortHalf, Fault::Eintr, Fault::Enospc, Fault::Eio, Fault::Zero];

pub fn families_c20(t: Tier) -> Vec<Family> {
    let th = t.thorough();
    let mut f = vec![];
    // the files: well-formed and every truncation and single-word corruption of them
    let mut files: Vec<(String, Vec<u8>)> = c_bytes::base_files();
    for (d, s) in [(file_like(1300), 4), (file_like(5000), 5)] { files.push((hist::show(&d, Ver::V2, 0, &[]), encode_file(&d, &full_data(&d, s), Ver::V2, 0, true))); }
    let files = Arc::new(files);
    let words: &[u32] = if th { &c_bytes::WORDS } else { &[0, 1, 2, 3, 9, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF] };
    let nw = words.len();
    {
        let depth = if th { 3 } else { 2 };
        let fl = files.clone();
        let n = fl.len();
        f.push(fam("readers", &format!("{} well-formed files x all sequences of up to {} reads among {} (whole variables, records, typed, of an unknown name, type or index) x 3 ways to end (drop, close, close keeping the definition for a while)", n, depth, READ_OPS), nseqs(READ_OPS, depth) * (n * 3) as u64, move |i, ctx| {
            let mut g = Digits(i);
            let (k, end) = (g.next(n), ENDS[g.next(3)]);
            let ops = seq(g.0, READ_OPS);
            let p = ctx.path("r.nc");
            std::fs::write(&p, &fl[k].1).unwrap();
            ctx.state(&(k, end, &ops)); ctx.op(3 * ops.len() as u64 + 6);
            balanced(ctx, &|| format!("file {}, reads {:?}, {:?}", fl[k].0, ops, end), || read_run(&p, &ops, end))
        }));
        let fl = files.clone();
        let total: u64 = fl.iter().map(|x| x.1.len() as u64 + 1).sum();
        let fl = files.clone();
        let ls = repeats(if th { 4097 } else { 1025 });
        let (l2, nl, nf) = (ls.clone(), ls.len(), 3usize);
        f.push(fam("long_readers", &format!("{} files x one of {} reads N times, or all in turn, N among {} values up to {} x 3 ways to end: one descriptor all along, nothing kept at the end", nf, READ_OPS, nl, ls[nl - 1]), (nf * (READ_OPS + 1) * nl) as u64, move |i, ctx| {
            let mut g = Digits(i);
            let (k, c, l) = (g.next(nf), g.next(READ_OPS + 1), l2[g.next(nl)]);
            let (k, end) = ([0, 1, n - 2][k], ENDS[(k + c + l) % 3]);
            let ops: Vec<usize> = (0..l).map(|j| if c < READ_OPS { c } else { j % READ_OPS }).collect();
            let p = ctx.path("r.nc");
            std::fs::write(&p, &fl[k].1).unwrap();
            ctx.state(&(k, c, l)); ctx.op(3 * ops.len() as u64 + 6);
            balanced(ctx, &|| format!("file {}, {} reads {}, {:?}", fl[k].0, l, if c < READ_OPS { format!("#{}", c) } else { "in turn".into() }, end), || read_run(&p, &ops, end))
        }));
        f.push(fam("long_writers", &format!("2 schemas x one write or refused call N times, or all in turn, N among {} values up to {}, dropped or closed: one descriptor all along, nothing kept at the end", nl, ls[nl - 1]), (2 * 16 * nl) as u64, move |i, ctx| {
            let mut g = Digits(i);
            let (si, c, l) = (g.next(2), g.next(16), ls[g.next(nl)]);
            let (def, ver) = wschemas().swap_remove(si);
            let mut al: Vec<W> = hist::alphabet(&def).into_iter().map(W::Op).collect();
            al.extend([W::BadVar, W::BadRec, W::BadLen, W::BadType, W::Def(0), W::Def(2)]);
            if c > al.len() { ctx.count("skipped: no such call"); return Ok(()); }
            let ops: Vec<W> = std::iter::once(W::Def(0)).chain((0..l).map(|j| if c < al.len() { al[c].clone() } else { al[j % al.len()].clone() })).collect();
            let (ds, other) = (bind::build(&def).map_err(|e| format!("{:?}", e))?, DataSet::new());
            let end = [End::Drop, End::Close][(l + c) % 2];
            let p = ctx.path("w.nc");
            ctx.state(&(si, c, l)); ctx.op(3 * l as u64 + 6);
            balanced(ctx, &|| format!("{:?}: {} writes, #{}, {:?}", def, l, c, end), || write_run(&p, &def, ver, &ds, &other, &ops, c % 2 == 1, end))
        }));
        let fl = files.clone();
        f.push(fam("truncated", &format!("every truncation of the {} files, opened and read if possible, {} ways to end", n, 3), total, move |i, ctx| {
            let (mut k, mut c) = (0, i as usize);
            while c > fl[k].1.len() { c -= fl[k].1.len() + 1; k += 1; }
            let p = ctx.path("r.nc");
            std::fs::write(&p, &fl[k].1[..c]).unwrap();
            ctx.state(&(k, c)); ctx.op(9);
            for end in ENDS { balanced(ctx, &|| format!("file {} cut at {}, {:?}", fl[k].0, c, end), || read_run(&p, &[0, 1, 2, 15], end))?; }
            Ok(())
        }));
        let fl = files.clone();
        let slots: Vec<(usize, usize)> = fl.iter().enumerate().flat_map(|(k, x)| (0..decode_header(&x.1).map(|d| d.header_len / 4).unwrap_or(0).min(400)).map(move |w| (k, w))).collect();
        let ns = slots.len();
        let words: Vec<u32> = words.to_vec();
        f.push(fam("corrupted", &format!("every 4-byte word of the headers of the {} files replaced by {} values, opened and read if possible", n, nw), (ns * nw) as u64, move |i, ctx| {
            let mut g = Digits(i);
            let (w, (k, at)) = (words[g.next(nw)], slots[g.next(ns)]);
            let mut b = fl[k].1.clone();
            b[4 * at..4 * at + 4].copy_from_slice(&w.to_be_bytes());
            let p = ctx.path("r.nc");
            std::fs::write(&p, &b).unwrap();
            drop(b);
            ctx.state(&(k, at, w)); ctx.op(9);
            // what the reads allocate is bounded by C06
            balanced(ctx, &|| format!("file {} word {} = {:#x}", fl[k].0, at, w), || read_run(&p, &[0, 1, 4], if i % 2 == 0 { End::Drop } else { End::Close }))
        }));
    }
    {
        let rops: Vec<Vec<usize>> = vec![vec![], vec![15], vec![0, 1, 2, 3], vec![4, 8, 13]];
        f.push(fam("crossed", &format!("{}: read (nothing, everything, some records, refused reads) and written (nothing, defined, everything written, other data sets) x ended by drop, close, or keeping the definition", CROSSED_BOUND), CROSSED_SMALL * 6, move |i, ctx| {
            let def = crossed_small(i / 6);
            let ver = VERS[(i / 6 % 2) as usize];
            let p = ctx.path("x.nc");
            ctx.state(&i);
            if i % 6 < 3 {
                let end = ENDS[(i % 3) as usize];
                std::fs::write(&p, encode_file(&def, &full_data(&def, 3), ver, 0, true)).unwrap();
                for ops in &rops { ctx.op(3 * ops.len() as u64 + 6); balanced(ctx, &|| format!("{} read {:?}, {:?}", hist::show(&def, ver, 0, &[]), ops, end), || read_run(&p, ops, end))?; }
                Ok(())
            } else {
                let (new, end) = (i % 6 == 5, ENDS[(i % 2) as usize]);
                let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
                let other = bind::build(&Def::default().dim("x", 7).var("other", Ty::F64, &["x"])).map_err(|e| format!("{:?}", e))?;
                let full: Vec<W> = hist::full_ops(&def).into_iter().map(W::Op).collect();
                let mut l = vec![vec![], vec![W::Def(0)], vec![W::Def(1), W::Def(2), W::BadVar, W::BadRec], vec![W::Def(2), W::Def(0), W::BadType]];
                l.push([W::Def(0)].into_iter().chain(full.iter().cloned()).collect());
                l.push([W::Def(0)].into_iter().chain(full.iter().rev().take(1).cloned()).chain([W::BadLen]).collect());
                for ops in &l { ctx.op(3 * ops.len() as u64 + 6); balanced(ctx, &|| format!("{} calls {:?} new={} {:?}", hist::show(&def, ver, 0, &[]), ops, new, end), || write_run(&p, &def, ver, &ds, &other, ops, new, end))?; }
                let _ = std::fs::remove_file(&p);
                Ok(())
            }
        }));
    }
    {
        f.push(fam("large", &format!("{}: read (each variable, records, everything, refused reads; complete, or cut at 3 places) and written (completely, half of the variables, only defined), ended by drop, close, or keeping the definition", LARGE_BOUND), LARGE as u64 * 7, move |i, ctx| {
            let (k, how) = ((i / 7) as usize, i % 7);
            let def = large(k);
            let ver = VERS[k % 2];
            let p = ctx.path("x.nc");
            ctx.state(&i);
            if how < 4 {
                let bytes = encode_file(&def, &full_data(&def, 3), ver, 0, true);
                let n = bytes.len();
                std::fs::write(&p, &bytes[..[n, n - 1, n / 2, def.header_len(ver) * 2 / 3][how as usize]]).unwrap();
                drop(bytes);
                for end in ENDS { for ops in [vec![], vec![0, 1, 2], vec![3, 4, 5, 8], vec![12, 9, 10], vec![15, 13]] { ctx.op(3 * ops.len() as u64 + 6); balanced(ctx, &|| format!("{} read {:?}, {:?}", hist::show(&def, ver, 0, &[]), ops, end), || read_run(&p, &ops, end))?; } }
            } else {
                let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
                let other = bind::build(&Def::default().dim("x", 7).var("other", Ty::F64, &["x"])).map_err(|e| format!("{:?}", e))?;
                let ops: Vec<W> = [W::Def(0)].into_iter().chain(hist::full_ops(&def).into_iter().map(W::Op).enumerate().filter(|x| how == 4 || how == 5 && x.0 % 2 == 0).map(|x| x.1)).collect();
                for end in [End::Drop, End::Close] { ctx.op(3 * ops.len() as u64 + 6); balanced(ctx, &|| format!("{} calls {:?} {:?}", hist::show(&def, ver, 0, &[]), ops, end), || write_run(&p, &def, ver, &ds, &other, &ops, k % 2 == 0, end))?; }
            }
            let _ = std::fs::remove_file(&p);
            Ok(())
        }));
    }
    for (si, (def, ver)) in wschemas().into_iter().enumerate() {
        let mut al = vec![W::Def(0), W::Def(1), W::Def(2), W::BadVar, W::BadRec, W::BadLen, W::BadType];
        if si < 3 { al.extend(hist::alphabet(&def).into_iter().enumerate().map(|(k, o)| W::Op(hist::salted(o, k + 1)))); }
        else { al.push(W::Op(Op::Var { v: 1, salt: 1 })); al.push(W::Op(Op::Rec { v: 1, r: 0, salt: 1 })); }
        let n = al.len();
        let depth = match (th, si) { (false, 3) | (true, 0) => 3, (true, _) => 4, _ => 3 };
        f.push(fam(&format!("writers_{}", si), &format!("schema #{}: all sequences of up to {} among {} calls (definition with either version or another data set, legal writes, refused ones) x open or create_new x 2 ways to end (schema #3 does not fit the classic version)", si, depth, n), nseqs(n, depth) * 4, move |i, ctx| {
            let mut g = Digits(i);
            let (new, mut end) = (g.next(2) == 1, ENDS[g.next(2)]);
            let ops: Vec<W> = seq(g.0, n).into_iter().map(|k| al[k].clone()).collect();
            // filling 8 GiB is another matter
            if si == 3 && ops.iter().find_map(|o| match o { W::Def(1) => Some(true), W::Def(2) => Some(false), _ => None }) == Some(true) { end = End::Drop; }
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            let other = bind::build(&Def::default().dim("x", 7).var("other", Ty::F64, &["x"])).map_err(|e| format!("{:?}", e))?;
            let p = ctx.path("w.nc");
            ctx.op(3 * ops.len() as u64 + 6); ctx.state(&(si, g.0, new));
            let r = balanced(ctx, &|| format!("{} calls {:?} new={} {:?}", hist::show(&def, ver, 0, &[]), ops, new, end), || write_run(&p, &def, ver, &ds, &other, &ops, new, end));
            // the file is not kept either
            let _ = std::fs::remove_file(&p);
            r
        }));
    }
    {   // I/O faults
        let scen: Vec<(Def, Ver)> = vec![wschemas()[0].clone(), wschemas()[1].clone(), (file_like(1500), Ver::V2)];
        let ns = scen.len();
        let maxn = 140;
        f.push(fam("faults", &format!("{} schemas, written (every variable, closed or not) and read (everything, closed or not): each of the first {} transfers or seeks x 6 faults, each of the first 4 open/stat calls of a reader failing", ns, maxn), (ns * 4 * (maxn * 6 + 8)) as u64, move |i, ctx| {
            let mut g = Digits(i);
            let (k, how, at) = (g.next(ns), g.next(4), g.next(maxn * 6 + 8));
            let (def, ver) = &scen[k];
            let p = ctx.path("f.nc");
            let ds = bind::build(def).map_err(|e| format!("{:?}", e))?;
            std::fs::write(&p, encode_file(def, &full_data(def, 3), *ver, 0, true)).unwrap();
            let ops: Vec<W> = [W::Def(0)].into_iter().chain(hist::full_ops(def).into_iter().map(W::Op)).collect();
            let mut hits = 0;
            let r = balanced(ctx, &|| format!("{} {} fault {}", hist::show(def, *ver, 0, &[]), ["written, dropped", "written, closed", "read, dropped", "read, closed"][how], if at < maxn * 6 { format!("{:?} at #{}", FAULTS[at % 6], at / 6) } else { format!("open/stat #{}", at - maxn * 6) }), || {
                let mut s = Shim::default();
                if at < maxn * 6 { s.plan = vec![((at / 6) as u64, FAULTS[at % 6])]; } else { let m = (at - maxn * 6) as u64; s.meta_plan = Some((m / 2, if m % 2 == 0 { libc::EMFILE } else { libc::EACCES })); }
                let r = ioshim::with(&mut s, || {
                    let end = if how % 2 == 0 { End::Drop } else { End::Close };
                    if how < 2 { match write_run(&p, def, *ver, &ds, &ds, &ops, false, end) { Err(e) if e.starts_with("IOErrorKind") => Ok(()), x => x } } else { read_run(&p, &[0, 1, 2, 3, 15], end) }
                });
                hits = s.hits;
                r
            });
            if hits > 0 { ctx.count("faults which hit"); } else { ctx.count("faults beyond the last call"); }
            ctx.op(30); ctx.state(&i);
            r
        }));
    }
    {   // data sets
        let g = Arc::new(c_edit::explore(c_edit::alpha_all(), if th { 20_000 } else { 4000 }));
        let n = g.states.len();
        f.push(fam("data_sets", &format!("the first (breadth-first) {} data sets reachable by edits x every edit after it (legal or refused), with and without keeping dimensions and variables it gave beyond the data set: all memory is released", n), n as u64 * 2, move |i, ctx| {
            let (keep, s) = (i % 2 == 1, (i / 2) as u32);
            let h = g.history(s);
            ctx.state(&g.states[s as usize]);
            for e in &g.alphabet {
                ctx.op(3 * (h.len() as u64 + 1));
                balanced(ctx, &|| format!("edits {:?} then {:?}, keep={}", h, e, keep), || {
                    let mut ds = DataSet::new();
                    for x in &h { let _ = c_edit::real(&mut ds, x); }
                    let kept = if keep { Some((ds.get_dims(), ds.get_vars().into_iter().cloned().collect::<Vec<_>>(), ds.get_unlimited_dim())) } else { None };
                    let r = c_edit::real(&mut ds, e);
                    drop(ds); drop(kept); drop(r);
                    Ok(())
                })?;
            }
            Ok(())
        }));
    }
    {   // paths which cannot be opened
        const P: [&str; 9] = ["absent.nc", "dir", "", "dir/absent.nc", "f.nc/", "absent/x.nc", "loop", "x\0y", "empty.nc"];
        f.push(fam("paths", "9 paths which cannot be opened (absent, directory, empty, below a file, loop of links, NUL, empty file) x reader, open, create_new", 9 * 3, |i, ctx| {
            let d = crate::c_files::fresh_dir(ctx, "p");
            std::fs::create_dir(d.join("dir")).unwrap(); std::fs::write(d.join("f.nc"), b"x").unwrap(); std::fs::write(d.join("empty.nc"), b"").unwrap(); std::os::unix::fs::symlink("loop", d.join("loop")).unwrap();
            let (how, s) = (i % 3, P[(i / 3) as usize]);
            let p = if s.is_empty() { std::path::PathBuf::new() } else { d.join(s) };
            ctx.op(3); ctx.state(&i);
            balanced(ctx, &|| format!("path {:?} how {}", s, how), || {
                match how { 0 => { let _ = FileReader::open(&p); } 1 => { if s != "absent.nc" && s != "dir/absent.nc" && s != "empty.nc" { let _ = FileWriter::open(&p); } } _ => { if !s.ends_with("absent.nc") { let _ = FileWriter::create_new(&p); } } }
                Ok(())
            })
        }));
    }
    {   // many at once
        let nmax = if th { 40 } else { 24 };
        f.push(fam("many_at_once", &format!("1..{} readers and writers (all kinds of mixtures of period 2) open at once, on distinct files or on the same one, ended in order, in reverse order, or inside out: each holds one descriptor and gives it back", nmax), (nmax * 4 * 2 * 3 * 3) as u64, move |i, ctx| {
            let mut g = Digits(i);
            let (n, mix, same, order, end) = (g.next(nmax) + 1, g.next(4), g.next(2) == 1, g.next(3), ENDS[g.next(3)]);
            let (def, ver) = wschemas()[0].clone();
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            let bytes = encode_file(&def, &full_data(&def, 3), ver, 0, true);
            let ps: Vec<std::path::PathBuf> = (0..n).map(|k| ctx.path(&format!("m{}.nc", if same { k % 2 } else { k }))).collect();
            let ord: Vec<usize> = match order { 0 => (0..n).collect(), 1 => (0..n).rev().collect(), _ => { let mut o: Vec<usize> = (0..n).filter(|k| k % 2 == 1).collect(); o.extend((0..n).filter(|k| k % 2 == 0)); o } };
            ctx.op(3 * 3 * n as u64); ctx.state(&i);
            balanced(ctx, &|| format!("{} at once, mixture {}, same={}, order {}, {:?}", n, mix, same, order, end), || {
                enum X<'a> { R(FileReader), W(FileWriter<'a>), None }
                let base = fds().len();
                let mut l: Vec<X> = vec![];
                for k in 0..n {
                    let reader = if k % 2 == 0 { mix & 1 == 0 } else { mix & 2 == 0 };
                    if reader && !(same && k >= 2 && mix % 3 != 0) { std::fs::write(&ps[k], &bytes).unwrap(); }
                    l.push(if reader { match FileReader::open(&ps[k]) { Ok(r) => X::R(r), Err(_) => X::None } } else { let mut w = FileWriter::open(&ps[k]).map_err(|e| format!("{:?}", e))?; w.set_def(&ds, bind::ver(ver), 0).map_err(|e| format!("{:?}", e))?; X::W(w) });
                    let open = l.iter().filter(|x| !matches!(x, X::None)).count();
                    let got = fds().len();
                    ck!(got == base + open, "{} readers and writers are open and hold {} descriptors", open, got as isize - base as isize);
                }
                let mut open = l.iter().filter(|x| !matches!(x, X::None)).count();
                for k in &ord {
                    match std::mem::replace(&mut l[*k], X::None) {
                        X::None => continue,
                        X::R(mut r) => { let _ = r.read_all_vars(); if end == End::Drop { drop(r) } else { r.close(); } }
                        X::W(w) => { if end == End::Drop { drop(w) } else { let _ = w.close(); } }
                    }
                    open -= 1;
                    let got = fds().len();
                    ck!(got == base + open, "{} readers and writers are still open and hold {} descriptors", open, got as isize - base as isize);
                }
                Ok(())
            })?;
            for p in &ps { let _ = std::fs::remove_file(p); }
            Ok(())
        }));
    }
    f
}
fn file_like(n: usize) -> Def { Def::default().dim("a", 3).unlim("u", 2).attr("pad", Val::pattern(Ty::U8, n, 1)).var("v", Ty::I32, &["u", "a"]).var("f", Ty::I8, &["a"]) }

// ------------------------------------------------------------------------------------ C21
/// What one call may transfer and allocate beyond what it is asked for.
const SLACK: u64 = 64 << 10;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum A { Var(usize), VarT(usize), Rec(usize, usize), RecT(usize, usize), Bad(usize) }
struct Cost { read: u64, written: u64, peak: u64, calls: u64 }
fn measured<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let mut s = Shim { count_only: true, ..Shim::default() };
    let (r, peak) = with_alloc_cap(0, || ioshim::with(&mut s, f));
    (r, Cost { read: s.bytes_read, written: s.bytes_written, peak: peak.max(0) as u64, calls: s.n })
}
/// `asked`: bytes of data the call is about.
fn check_cost(what: &dyn Fn() -> String, c: &Cost, read: u64, written: u64, mem: u64) -> Result<(), String> {
    ck!(c.read <= read + SLACK, "{}: {} bytes are read from the file for {} bytes of data", what(), c.read, read);
    ck!(c.written <= written + SLACK, "{}: {} bytes are written to the file for {} bytes of data", what(), c.written, written);
    ck!(c.peak <= mem + SLACK, "{}: {} bytes of memory are needed (bound {})", what(), c.peak, mem + SLACK);
    Ok(())
}
/// Schemas in which one slab is small against the whole.
fn big_schemas() -> Vec<Def> {
    let k = 1 << 10;
    vec![
        Def::default().dim("big", 512 * k).unlim("u", 24).dim("a", 24 * k).var("f", Ty::F64, &["big"]).var("r", Ty::I32, &["u", "a"]).var("s", Ty::I8, &["u"]).var("t", Ty::I16, &["u", "a"]).var("g", Ty::I16, &["a"]),
        Def::default().unlim("u", 300).dim("a", 4 * k).var("r", Ty::F32, &["u", "a"]),
        Def::default().dim("a", 160 * k).var("f0", Ty::I8, &["a"]).var("f1", Ty::I16, &["a"]).var("f2", Ty::F64, &["a"]).var("f3", Ty::I32, &["a"]).var("x", Ty::F64, &[]),
        Def::default().unlim("u", 20_000).dim("a", 16).var("r", Ty::I8, &["u", "a"]).var("s", Ty::F64, &["u"]).var("t", Ty::F64, &["u", "a"]),
    ]
}
/// A sparse file of the definition (holes for the data).
fn sparse(p: &Path, def: &Def, ver: Ver) {
    let lay = canonical_layout(def, ver, 0, def.recsize_padded());
    let begins: Vec<u64> = lay.begins.iter().map(|b| *b as u64).collect();
    let vs: Vec<u32> = (0..def.vars.len()).map(|v| vsize_field(def.vsize(v))).collect();
    std::fs::write(p, encode_header(def, ver, def.numrecs() as u32, &begins, &vs, &HdrOpts::default())).unwrap();
    std::fs::OpenOptions::new().write(true).open(p).unwrap().set_len(lay.total as u64).unwrap();
}
fn accesses(def: &Def) -> Vec<A> {
    let mut a = vec![];
    for v in 0..def.vars.len() {
        if def.total_len(v) < 1 << 20 { a.push(A::Var(v)); a.push(A::VarT(v)); }
        let n = def.nslabs(v);
        for s in [0, 1, n / 2, n.saturating_sub(1)] { if s < n { a.push(A::Rec(v, s)); a.push(A::RecT(v, s)); } }
        a.push(A::Bad(v));
    }
    a.sort_by_key(|x| format!("{:?}", x)); a.dedup();
    a
}
fn slab(def: &Def, a: A) -> u64 { match a { A::Var(v) | A::VarT(v) => def.total_len(v) as u64 * def.vars[v].ty.size() as u64, A::Rec(v, _) | A::RecT(v, _) => def.slab_bytes(v) as u64, _ => 0 } }
/// With the padding which separates the slabs.
fn padded(def: &Def, a: A) -> u64 { match a { A::Var(v) | A::VarT(v) => def.vsize(v) as u64 * def.nslabs(v) as u64, A::Rec(v, _) | A::RecT(v, _) => def.vsize(v) as u64, _ => 0 } }

pub fn families_c21(t: Tier) -> Vec<Family> {
    let th = t.thorough();
    let mut f = vec![];
    for (k, def) in big_schemas().into_iter().enumerate() {
        let al = accesses(&def);
        let n = al.len();
        let (d, a) = (def.clone(), al.clone());
        let depth = if th { 3 } else { 2 };
        f.push(fam(&format!("reads_{}", k), &format!("a file of {} bytes: all sequences of up to {} accesses among {} (whole variables of less than 2^20 values, records at both ends and in the middle, typed or not, refused ones): what each call transfers and allocates is bounded by what it is asked for", canonical_layout(&def, Ver::V1, 0, def.recsize_padded()).total, depth, n), nseqs(n, depth) * 2, move |i, ctx| {
            let ver = VERS[i as usize % 2];
            let ops: Vec<A> = seq(i / 2, n).into_iter().map(|x| a[x]).collect();
            let p = ctx.path(&format!("big{}{:?}.nc", k, ver));
            if !p.exists() { sparse(&p, &d, ver); }
            let hl = d.header_len(ver) as u64;
            let (r, c) = measured(|| FileReader::open(&p));
            let mut r = r.map_err(|e| format!("{:?}", e))?;
            check_cost(&|| "open".into(), &c, hl, 0, 16 * hl)?;
            let live = live_bytes();
            for (j, o) in ops.iter().enumerate() {
                let m = || format!("{} {:?}: accesses {:?}, at #{} {:?}", hist::show(&d, ver, 0, &[]), ver, ops, j, o);
                let (res, c) = measured(|| -> Result<(), String> { match *o {
                    A::Var(v) => { bind_drop(r.read_var(&d.vars[v].name)) } A::VarT(v) => typed_drop(&mut r, &d, v, None),
                    A::Rec(v, s) => bind_drop(r.read_record(&d.vars[v].name, s)), A::RecT(v, s) => typed_drop(&mut r, &d, v, Some(s)),
                    A::Bad(v) => { let x = r.read_record(&d.vars[v].name, d.nslabs(v)).is_err() && r.read_var("no such").is_err(); if x { Ok(()) } else { Err("accepted".into()) } }
                } });
                res.map_err(|e| format!("{}: {}", m(), e))?;
                check_cost(&m, &c, padded(&d, *o), 0, 4 * slab(&d, *o))?;
                // once what was read is dropped, nothing of it is kept
                let kept = live_bytes() - live;
                ck!(kept <= SLACK as isize, "{}: {} bytes are kept by the reader", m(), kept);
                ctx.op(1);
            }
            let (_, c) = measured(|| r.close());
            check_cost(&|| "close".into(), &c, 0, 0, 0)?;
            ctx.state(&(k, i)); ctx.trace();
            Ok(())
        }));
    }
    // long sequences
    for (k, def) in big_schemas().into_iter().enumerate() {
        let recs: Vec<usize> = (0..def.vars.len()).filter(|v| def.nslabs(*v) > 1).collect();
        let (ns, d) = (if th { vec![20usize, 300, 4100, 20_000] } else { vec![20usize, 300, 4100] }, def.clone());
        let nn = ns.len();
        let bound = format!("a file of {} bytes: N accesses ({:?}) of records of one variable or of each in turn: forwards, backwards, by strides of 2, 3 and 64, every record twice, one again and again, from both ends; and all the small accesses in turn: what each call transfers, allocates and keeps is bounded by what it is asked for", canonical_layout(&def, Ver::V1, 0, def.recsize_padded()).total, ns);
        f.push(fam(&format!("long_reads_{}", k), &bound, (9 * (recs.len() + 2) * nn) as u64, move |i, ctx| {
            let mut g = Digits(i);
            let (pat, w, n) = (g.next(9), g.next(recs.len() + 2), ns[g.next(nn)]);
            let ver = VERS[i as usize % 2];
            let al: Vec<A> = accesses(&d).into_iter().filter(|a| padded(&d, *a) < 1 << 18).collect();
            let ops: Vec<A> = if w == recs.len() + 1 { if pat > 2 { ctx.count("skipped"); return Ok(()); } (0..n.min(1000)).map(|j| match pat { 0 => al[j % al.len()], 1 => al[(j * 7) % al.len()], _ => al[al.len() - 1 - j % al.len()] }).collect() } else {
                if recs.is_empty() { ctx.count("skipped"); return Ok(()); }
                (0..n).map(|j| {
                    let (v, j) = if w == recs.len() { (recs[j % recs.len()], j / recs.len()) } else { (recs[w], j) };
                    let r = d.nslabs(v);
                    let s = match pat { 0 => j % r, 1 => r - 1 - j % r, 2 => j * 2 % r, 3 => j * 3 % r, 4 => j * 64 % r, 5 => j / 2 % r, 6 => r / 2, 7 => if j % 2 == 0 { j / 2 % r } else { r - 1 - j / 2 % r }, _ => (j % r).min(r - 1) };
                    if pat == 8 || j % 5 == 4 { A::RecT(v, s) } else { A::Rec(v, s) }
                }).collect()
            };
            let p = ctx.path(&format!("big{}{:?}.nc", k, ver));
            if !p.exists() { sparse(&p, &d, ver); }
            let mut r = hist::open(&p)?;
            let live = live_bytes();
            for (j, o) in ops.iter().enumerate() {
                let m = || format!("{} {:?}: {} accesses by pattern {} ({:?} ...), at #{} {:?}", hist::show(&d, ver, 0, &[]), ver, ops.len(), pat, &ops[j.saturating_sub(5)..j], j, o);
                let (res, c) = measured(|| -> Result<(), String> { match *o {
                    A::Var(v) => { bind_drop(r.read_var(&d.vars[v].name)) } A::VarT(v) => typed_drop(&mut r, &d, v, None),
                    A::Rec(v, s) => bind_drop(r.read_record(&d.vars[v].name, s)), A::RecT(v, s) => typed_drop(&mut r, &d, v, Some(s)),
                    A::Bad(v) => { let x = r.read_record(&d.vars[v].name, d.nslabs(v)).is_err() && r.read_var("no such").is_err(); if x { Ok(()) } else { Err("accepted".into()) } }
                } });
                res.map_err(|e| format!("{}: {}", m(), e))?;
                check_cost(&m, &c, padded(&d, *o), 0, 4 * slab(&d, *o))?;
                let kept = live_bytes() - live;
                ck!(kept <= SLACK as isize, "{}: {} bytes are kept by the reader", m(), kept);
            }
            ctx.op(ops.len() as u64); ctx.state(&(k, i)); ctx.trace();
            Ok(())
        }));
    }
    for (k, def) in [Def::default().unlim("u", 3000).dim("a", 4).dim("b", 20 << 10).var("r", Ty::I16, &["u", "a"]).var("f", Ty::I8, &["b"]).var("s", Ty::F64, &["u"]), Def::default().unlim("u", 200).dim("a", 1 << 10).var("r", Ty::F64, &["u", "a"])].into_iter().enumerate() {
        let ns = if th { vec![20usize, 300, 3000, 10_000] } else { vec![20usize, 300, 3000] };
        let nn = ns.len();
        f.push(fam(&format!("long_writes_{}", k), &format!("a writer of {} bytes: N writes ({:?}) of records: forwards, backwards, by strides of 2 and 64, every record twice, one again and again, from both ends, alternately with another variable: each transfers what it is given, close what was not written", canonical_layout(&def, Ver::V1, 0, def.recsize_padded()).total, ns), (8 * nn) as u64, move |i, ctx| {
            let mut g = Digits(i);
            let (pat, n, ver) = (g.next(8), ns[g.next(nn)], VERS[i as usize % 2]);
            let r = def.nslabs(0);
            let n = if k == 1 { n.min(400) } else { n };
            let ops: Vec<A> = (0..n).map(|j| match pat { 0 => A::Rec(0, j % r), 1 => A::Rec(0, r - 1 - j % r), 2 => A::Rec(0, j * 2 % r), 3 => A::Rec(0, j * 64 % r), 4 => A::Rec(0, j / 2 % r), 5 => A::Rec(0, r / 2), 6 => A::Rec(0, if j % 2 == 0 { j / 2 % r } else { r - 1 - j / 2 % r }), _ => if j % 2 == 0 || k == 1 { A::Rec(0, j / 2 % r) } else { A::Rec(2, j / 2 % r) } }).collect();
            let p = ctx.path("cw.nc");
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            let mut w = FileWriter::open(&p).map_err(|e| format!("{:?}", e))?;
            w.set_def(&ds, bind::ver(ver), hist::hm(&i)).map_err(|e| format!("{:?}", e))?;
            let hl = def.header_len(ver) as u64;
            let live = live_bytes();
            let mut done: Vec<Vec<bool>> = (0..def.vars.len()).map(|v| vec![false; def.nslabs(v)]).collect();
            let note = 64 * def.nslabs_max() as u64;
            for (j, o) in ops.iter().enumerate() {
                let m = || format!("{} {:?}: {} writes by pattern {}, at #{} {:?}", hist::show(&def, ver, 0, &[]), ver, ops.len(), pat, j, o);
                let val = match *o { A::Rec(v, s) => { done[v][s] = true; Val::pattern(def.vars[v].ty, def.slab_len(v) as usize, j) } _ => Val::empty(Ty::I8) };
                let (res, c) = with_typed(&mut w, &def, *o, &val);
                res.map_err(|e| format!("{}: {}", m(), e))?;
                check_cost(&m, &c, 0, padded(&def, *o), 4 * slab(&def, *o) + note)?;
                drop(val);
                let grown = live_bytes() - live;
                ck!(grown <= (SLACK + 2 * note) as isize, "{}: {} bytes are kept by the writer", m(), grown);
            }
            let left: u64 = (0..def.vars.len()).map(|v| done[v].iter().filter(|x| !**x).count() as u64 * def.vsize(v) as u64).sum();
            let (r, c) = measured(|| w.close());
            r.map_err(|e| format!("{:?}", e))?;
            check_cost(&|| format!("{} {:?}: {} writes by pattern {}, close", hist::show(&def, ver, 0, &[]), ver, ops.len(), pat), &c, 0, left + hl, 4 * (0..def.vars.len()).map(|v| def.vsize(v) as u64).max().unwrap_or(0) + note)?;
            ctx.op(ops.len() as u64); ctx.state(&(k, i)); ctx.trace();
            let _ = std::fs::remove_file(&p);
            Ok(())
        }));
    }
    for (k, def) in write_schemas().into_iter().enumerate() {
        let al: Vec<A> = accesses(&def).into_iter().filter(|x| !matches!(x, A::VarT(_) | A::RecT(..))).collect();
        let n = al.len();
        let depth = if th { 3 } else { 2 };
        f.push(fam(&format!("writes_{}", k), &format!("a writer of {} bytes: all sequences of up to {} writes among {} (variables, records at both ends and in the middle, refused ones), then closed or dropped: each call transfers what it is given, close transfers what was not written; memory does not grow with what was written", canonical_layout(&def, Ver::V1, 0, def.recsize_padded()).total, depth, n), nseqs(n, depth) * 2, move |i, ctx| {
            let (close, ver) = (i % 2 == 1, VERS[(i / 2) as usize % 2]);
            let ops: Vec<A> = seq(i / 2, n).into_iter().map(|x| al[x]).collect();
            let p = ctx.path("cw.nc");
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            let hl = def.header_len(ver) as u64;
            let (w, c) = measured(|| FileWriter::open(&p));
            let mut w = w.map_err(|e| format!("{:?}", e))?;
            check_cost(&|| "open".into(), &c, 0, 0, 0)?;
            let (r, c) = measured(|| w.set_def(&ds, bind::ver(ver), hist::hm(&i)));
            r.map_err(|e| format!("{:?}", e))?;
            check_cost(&|| "set_def".into(), &c, 0, hl, 16 * hl + 64 * def.nslabs_max() as u64)?;
            let live = live_bytes();
            let mut done: Vec<Vec<bool>> = (0..def.vars.len()).map(|v| vec![false; def.nslabs(v)]).collect();
            for (j, o) in ops.iter().enumerate() {
                let m = || format!("{} {:?}: writes {:?}, at #{} {:?}", hist::show(&def, ver, 0, &[]), ver, ops, j, o);
                let val = match *o { A::Var(v) => Val::pattern(def.vars[v].ty, def.total_len(v) as usize, j), A::Rec(v, _) => Val::pattern(def.vars[v].ty, def.slab_len(v) as usize, j), _ => Val::empty(Ty::I8) };
                // the conversion to typed values is not the library's
                let (res, c) = with_typed(&mut w, &def, *o, &val);
                res.map_err(|e| format!("{}: {}", m(), e))?;
                match *o { A::Var(v) => for x in done[v].iter_mut() { *x = true }, A::Rec(v, s) => done[v][s] = true, _ => {} }
                check_cost(&m, &c, 0, padded(&def, *o), 4 * slab(&def, *o) + 64 * def.nslabs_max() as u64)?;
                drop(val);
                let grown = live_bytes() - live;
                ck!(grown <= (SLACK + 64 * def.nslabs_max() as u64 * (1 + j as u64)) as isize, "{}: {} bytes are kept by the writer", m(), grown);
                ctx.op(1);
            }
            if close {
                let left: u64 = (0..def.vars.len()).map(|v| done[v].iter().filter(|x| !**x).count() as u64 * def.vsize(v) as u64).sum();
                let (r, c) = measured(|| w.close());
                r.map_err(|e| format!("{:?}", e))?;
                check_cost(&|| format!("{} {:?}: writes {:?}, close", hist::show(&def, ver, 0, &[]), ver, ops), &c, 0, left + hl, 4 * (0..def.vars.len()).map(|v| def.vsize(v) as u64).max().unwrap_or(0) + 64 * def.nslabs_max() as u64)?;
            } else { let (_, c) = measured(|| drop(w)); check_cost(&|| "drop".into(), &c, 0, 0, 0)?; }
            ctx.state(&(k, i)); ctx.trace();
            let _ = std::fs::remove_file(&p);
            Ok(())
        }));
    }
    {   // headers
        let ns: Vec<usize> = (0..=if th { 60 } else { 24 }).map(|k| k * 4000).chain((17..=if th { 23 } else { 20 }).flat_map(|b| [(1 << b) - 900, (1 << b) + 900, (1 << b) + (1 << b - 1)])).collect();
        let n = ns.len();
        f.push(fam("open", &format!("headers of {} lengths up to {} bytes (a long attribute, many attributes, many variables, long names) before 2^41 bytes of data: open transfers the header only", n, ns.last().unwrap()), (n * 4 * 2) as u64, move |i, ctx| {
            let mut g = Digits(i);
            let (kind, ver, len) = (g.next(4), VERS[g.next(2)], ns[g.next(n)]);
            let mut d = Def::default().dim("a", 1 << 20).unlim("u", 1 << 20);
            match kind {
                0 => d = d.attr("g", Val::pattern(Ty::U8, len, 1)),
                1 => for j in 0..len / 80 { d = d.attr(&format!("attribute {}", j), Val::pattern(Ty::F64, 5, j)) },
                2 => for j in 0..len / 60 { d = d.var(&format!("variable{}", j), Ty::I16, &[]) },
                _ => for j in 0..len / 270 { d = d.var(&format!("{}{}", name_of(240, 2, j), j), Ty::I16, &[]) },
            }
            if ver == Ver::V1 { d.dims[1].size = 1 << 10; }
            d = d.var("last", Ty::F32, &["u", "a"]);
            let p = ctx.path("h.nc");
            sparse(&p, &d, ver);
            let hl = d.header_len(ver) as u64;
            let (r, c) = measured(|| FileReader::open(&p));
            let mut r = r.map_err(|e| format!("{:?}", e))?;
            check_cost(&|| format!("open of a header of {} bytes", hl), &c, hl, 0, 24 * hl)?;
            ck!(c.calls <= 16 + hl / 64, "open of a header of {} bytes: {} transfers", hl, c.calls);
            let (x, c) = measured(|| r.read_record("last", d.numrecs() - 1).map(|v| v.len()));
            ck!(x == Ok(1 << 20), "the last record: {:?}", x);
            check_cost(&|| format!("last record after a header of {} bytes", hl), &c, 4 << 20, 0, 16 << 20)?;
            let _ = std::fs::remove_file(&p);
            ctx.op(2); ctx.state(&i); ctx.trace();
            Ok(())
        }));
    }
    f
}
fn bind_drop(r: Result<netcdf3::DataVector, netcdf3::ReadError>) -> Result<(), String> { r.map(drop).map_err(|e| format!("{:?}", e)) }
fn typed_drop(r: &mut FileReader, d: &Def, v: usize, s: Option<usize>) -> Result<(), String> {
    let n = d.vars[v].name.as_str();
    let e = |e| format!("{:?}", e);
    match (d.vars[v].ty, s) {
        (Ty::I8, None) => r.read_var_i8(n).map(drop).map_err(e), (Ty::U8, None) => r.read_var_u8(n).map(drop).map_err(e), (Ty::I16, None) => r.read_var_i16(n).map(drop).map_err(e),
        (Ty::I32, None) => r.read_var_i32(n).map(drop).map_err(e), (Ty::F32, None) => r.read_var_f32(n).map(drop).map_err(e), (Ty::F64, None) => r.read_var_f64(n).map(drop).map_err(e),
        (Ty::I8, Some(s)) => r.read_record_i8(n, s).map(drop).map_err(e), (Ty::U8, Some(s)) => r.read_record_u8(n, s).map(drop).map_err(e), (Ty::I16, Some(s)) => r.read_record_i16(n, s).map(drop).map_err(e),
        (Ty::I32, Some(s)) => r.read_record_i32(n, s).map(drop).map_err(e), (Ty::F32, Some(s)) => r.read_record_f32(n, s).map(drop).map_err(e), (Ty::F64, Some(s)) => r.read_record_f64(n, s).map(drop).map_err(e),
    }
}
fn with_typed(w: &mut FileWriter, d: &Def, a: A, val: &Val) -> (Result<(), String>, Cost) {
    let dv = bind::val_to_dv(val);
    use netcdf3::DataVector as D;
    let e = |e| format!("{:?}", e);
    match a {
        A::Var(v) => { let n = d.vars[v].name.as_str(); measured(|| match &dv { D::I8(x) => w.write_var_i8(n, x), D::U8(x) => w.write_var_u8(n, x), D::I16(x) => w.write_var_i16(n, x), D::I32(x) => w.write_var_i32(n, x), D::F32(x) => w.write_var_f32(n, x), D::F64(x) => w.write_var_f64(n, x) }.map_err(e)) }
        A::Rec(v, s) => { let n = d.vars[v].name.as_str(); measured(|| match &dv { D::I8(x) => w.write_record_i8(n, s, x), D::U8(x) => w.write_record_u8(n, s, x), D::I16(x) => w.write_record_i16(n, s, x), D::I32(x) => w.write_record_i32(n, s, x), D::F32(x) => w.write_record_f32(n, s, x), D::F64(x) => w.write_record_f64(n, s, x) }.map_err(e)) }
        A::Bad(v) => { let n = d.vars[v].name.as_str(); measured(|| if w.write_record_i8(n, d.nslabs(v), &[]).is_err() && w.write_var_i8("no such", &[]).is_err() { Ok(()) } else { Err("accepted".into()) }) }
        _ => measured(|| Ok(())),
    }
}
/// The values are written one by one: fewer of them than for the reads.
fn write_schemas() -> Vec<Def> {
    let k = 1 << 10;
    vec![
        Def::default().dim("big", 24 * k).unlim("u", 10).dim("a", 8 * k).var("f", Ty::F64, &["big"]).var("r", Ty::F64, &["u", "a"]).var("s", Ty::I8, &["u"]).var("g", Ty::I32, &["a"]),
        Def::default().unlim("u", 40).dim("a", k).var("r", Ty::F64, &["u", "a"]).var("q", Ty::F64, &["u", "a"]),
        Def::default().dim("a", 20 * k).var("f0", Ty::F64, &["a"]).var("f1", Ty::I32, &["a"]).var("f2", Ty::F64, &["a"]).var("x", Ty::F64, &[]),
    ]
}
impl Def { fn nslabs_max(&self) -> usize { (0..self.vars.len()).map(|v| self.nslabs(v)).sum() } }
