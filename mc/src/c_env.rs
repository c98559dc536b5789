//! C18: an open reader or writer stays on the file it has opened. The environment (another process)
//! acts on the path or on the working directory between any two system calls of the library.
use crate::bind;
use crate::c_files::{fresh_dir, same_content, show_tree, tree};
use crate::c_read;
use crate::hist::{self, Op};
use crate::ioshim::{self, Fault, Shim};
use crate::model::*;
use crate::runner::*;
use crate::spaces::*;
use netcdf3::{FileReader, FileWriter};
use std::cell::RefCell;
use std::io::{Read, Seek, SeekFrom};
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// How the file is named.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Named { Plain, Link, InDir, InLinkedDir, Relative }
const NAMED: [Named; 5] = [Named::Plain, Named::Link, Named::InDir, Named::InLinkedDir, Named::Relative];
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Act { /// rename(2) of another file over it
    Replace, Remove, MoveAway, /// moved away, and another file is put in its place
    Swap, DirInPlace, LinkInPlace, EmptyInPlace, GarbageInPlace,
    /// what leads to the file is changed: the symbolic link, the directory or the working directory
    Retarget, LeadRemoved }
const ACTS: [Act; 10] = [Act::Replace, Act::Remove, Act::MoveAway, Act::Swap, Act::DirInPlace, Act::LinkInPlace, Act::EmptyInPlace, Act::GarbageInPlace, Act::Retarget, Act::LeadRemoved];

/// The place of the file itself.
fn place(dir: &Path, n: Named) -> PathBuf { match n { Named::Plain | Named::Link | Named::Relative => dir.join("x.nc"), Named::InDir | Named::InLinkedDir => dir.join("d/x.nc") } }
fn name(dir: &Path, n: Named) -> PathBuf { match n { Named::Plain => dir.join("x.nc"), Named::Link => dir.join("l.nc"), Named::InDir => dir.join("d/x.nc"), Named::InLinkedDir => dir.join("dl/x.nc"), Named::Relative => PathBuf::from("x.nc") } }
/// `a`: content of the file (`None`: absent), `b`: content of the other one.
fn world(dir: &Path, n: Named, a: Option<&[u8]>, b: &[u8]) {
    let w = |p: PathBuf, c: &[u8]| std::fs::write(p, c).unwrap();
    std::fs::create_dir(dir.join("d")).unwrap(); std::fs::create_dir(dir.join("e")).unwrap();
    w(dir.join("y.nc"), b); w(dir.join("e/x.nc"), b); w(dir.join("g.nc"), &[0xEE; 333]); w(dir.join("z.nc"), b"");
    if let Some(a) = a { w(place(dir, n), a); }
    std::os::unix::fs::symlink("x.nc", dir.join("l.nc")).unwrap();
    std::os::unix::fs::symlink("d", dir.join("dl")).unwrap();
}
fn act(dir: &Path, n: Named, a: Act) {
    let p = place(dir, n);
    // whatever does not apply any more (a second action) is ignored
    let mv = |x: &Path, y: &Path| { let _ = std::fs::rename(x, y); };
    let ln = |to: &str, y: PathBuf| { let t = dir.join("new.link"); let _ = std::os::unix::fs::symlink(to, &t); let _ = std::fs::rename(&t, y); };
    match a {
        Act::Replace => mv(&dir.join("y.nc"), &p),
        Act::Remove => { let _ = std::fs::remove_file(&p); }
        Act::MoveAway => mv(&p, &dir.join("moved.nc")),
        Act::Swap => { mv(&p, &dir.join("moved.nc")); mv(&dir.join("y.nc"), &p); }
        Act::DirInPlace => { mv(&p, &dir.join("moved.nc")); let _ = std::fs::create_dir(&p); }
        Act::LinkInPlace => ln(if matches!(n, Named::InDir | Named::InLinkedDir) { "../e/x.nc" } else { "e/x.nc" }, p),
        Act::EmptyInPlace => mv(&dir.join("z.nc"), &p),
        Act::GarbageInPlace => mv(&dir.join("g.nc"), &p),
        Act::Retarget => match n {
            Named::Plain => {}
            Named::Link => ln("y.nc", dir.join("l.nc")),
            Named::InDir => { mv(&dir.join("d"), &dir.join("d.old")); mv(&dir.join("e"), &dir.join("d")); }
            Named::InLinkedDir => ln("e", dir.join("dl")),
            Named::Relative => { let _ = std::env::set_current_dir(dir.join("e")); }
        },
        Act::LeadRemoved => match n {
            Named::Plain => {}
            Named::Link => { let _ = std::fs::remove_file(dir.join("l.nc")); }
            Named::InDir => mv(&dir.join("d"), &dir.join("d.old")),
            Named::InLinkedDir => { let _ = std::fs::remove_file(dir.join("dl")); }
            Named::Relative => { let _ = std::env::set_current_dir(dir.join("d")); }
        },
    }
}
thread_local! { static OWN_CWD: bool = unsafe { libc::unshare(libc::CLONE_FS) == 0 }; }
/// Changes the working directory of this thread only, until dropped.
pub struct Cwd;
impl Cwd { pub fn enter(d: &Path) -> Option<Cwd> { if !OWN_CWD.with(|x| *x) { return None; } std::env::set_current_dir(d).ok()?; Some(Cwd) } }
impl Drop for Cwd { fn drop(&mut self) { let _ = std::env::set_current_dir("/"); } }

fn stored() -> Vec<(Def, usize, Ver, bool)> {
    let d = || dims_abu(1, 2, 3, 2).var("f", Ty::I16, &["b"]).var("r", Ty::I8, &["u", "a"]).vattr("q", Val::pattern(Ty::U8, 3, 1)).var("s", Ty::F64, &["u"]);
    let pad = |n: usize, s: usize| Def::default().dim("a", 3).unlim("u", 2).attr("pad", Val::pattern(Ty::U8, n, s)).var("v", Ty::I32, &["u", "a"]).var("f", Ty::I8, &["a"]);
    let mut more = d(); for x in more.dims.iter_mut() { if x.unlim { x.size = 5; } }
    vec![
        (d(), 3, Ver::V1, false), (d(), 8, Ver::V1, false),                        // the same definition, other data
        (more.clone(), 3, Ver::V1, true), (d(), 3, Ver::V1, true),                  // number of records to be deduced
        (pad(1300, 1), 4, Ver::V2, false), (pad(2700, 2), 5, Ver::V2, true), (pad(1290, 3), 6, Ver::V2, false),  // headers of several blocks
        (dims_abu(3, 4, 5, 0).var("f", Ty::F64, &["a", "b"]), 2, Ver::V2, false),   // the same name, another type
        (more, 9, Ver::V2, false),
    ]
}
struct Stored { def: Def, data: Data, ver: Ver, bytes: Vec<u8> }
/// A large definition, with the values of its first attribute chosen by `salt` (the same lengths).
fn store_large(k: usize, salt: usize) -> Stored {
    let mut def = large(k);
    if let Some(a) = def.attrs.first_mut() { a.val = Val::pattern(a.val.ty, a.val.len(), salt); }
    for (j, x) in def.vars.iter_mut().enumerate() { if let Some(a) = x.attrs.first_mut() { a.val = Val::pattern(a.val.ty, a.val.len(), salt + j); } }
    let (data, ver) = (full_data(&def, salt), VERS[k % 2]);
    Stored { bytes: encode_file(&def, &data, ver, 0, true), def, data, ver }
}
fn wdef(kd: usize) -> Def { if kd >= 100 { large(kd - 100) } else { wdefs().swap_remove(kd) } }
/// At most about `n` of the system calls 1..nc, with both ends.
fn some_calls(nc: u64, n: u64) -> Vec<u64> { let mut v: Vec<u64> = (1..nc).filter(|k| nc <= n + 12 || *k < 6 || *k + 6 >= nc || k % (nc / n + 1) == 0).collect(); v.dedup(); v }
fn store(k: usize) -> Stored {
    let (def, salt, ver, indet) = stored()[k].clone();
    let data = full_data(&def, salt);
    let mut l = c_read::canonical(&def); l.indet = indet;
    let (bytes, _, _) = c_read::encode_layout(&def, &data, ver, &l);
    Stored { def, data, ver, bytes }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Rd { All, Var(usize), Typed(usize), Rec(usize), Snap, /// refused: a record which does not exist
    BadRec, /// refused: an unknown variable, another type
    BadName }
const READS: [Rd; 9] = [Rd::All, Rd::Var(0), Rd::Var(1), Rd::Typed(1), Rd::Rec(0), Rd::Rec(1), Rd::Snap, Rd::BadRec, Rd::BadName];
/// `true`: what is read is the content of `s`.
fn read_matches(r: &mut FileReader, s: &Stored, c: Rd) -> Result<bool, String> {
    let n = |v: usize| s.def.vars.get(v).map(|x| x.name.as_str());
    let last = |v: usize| s.def.nslabs(v) - 1;
    Ok(match c {
        Rd::BadRec => (0..s.def.vars.len()).all(|v| bind::read_rec(r, n(v).unwrap(), s.def.nslabs(v) + v * 1000).is_err()),
        Rd::BadName => bind::read_var(r, "no such variable").is_err() && bind::read_rec(r, "", 0).is_err() && (s.def.vars.is_empty() || TYS.iter().all(|t| *t == s.def.vars[0].ty || bind::read_var_typed(r, n(0).unwrap(), *t).is_err())),
        Rd::Snap => bind::diff_def(&s.def, &bind::snapshot(r.data_set())?).is_none() && bind::unver(&r.version()) == s.ver,
        Rd::All => { let m = r.read_all_vars().map_err(|e| format!("read_all_vars: {:?}", e))?; m.len() == s.def.vars.len() && (0..m.len()).all(|v| m.get(n(v).unwrap()).map(bind::dv_to_val) == Some(var_value(&s.def, &s.data, v))) }
        Rd::Var(v) | Rd::Typed(v) => { if v >= s.def.vars.len() { return Ok(true); } let g = if let Rd::Var(_) = c { bind::read_var(r, n(v).unwrap()) } else { bind::read_var_typed(r, n(v).unwrap(), s.def.vars[v].ty) }; g.map_err(|e| format!("{:?}: {:?}", c, e))? == var_value(&s.def, &s.data, v) }
        Rd::Rec(v) => { if v >= s.def.vars.len() { return Ok(true); } bind::read_rec(r, n(v).unwrap(), last(v)).map_err(|e| format!("{:?}: {:?}", c, e))? == slab_value(&s.def, &s.data, v, last(v)) }
    })
}
/// Runs the reads with the actions before the given system calls. Returns (calls during open, calls).
fn reader_run(ctx: &mut Ctx, n: Named, a: &Stored, b: &Stored, reads: &[Rd], acts: &[(u64, Act)], open_calls: u64, fault: Option<(u64, Fault)>) -> Result<(u64, u64, u64), String> {
    let (x, y) = (fresh_dir(ctx, "w"), fresh_dir(ctx, "t"));
    world(&x, n, Some(&a.bytes), &b.bytes); world(&y, n, Some(&a.bytes), &b.bytes);
    // the twin: what the actions alone do
    // `keeps`: the path names one of the two files all along
    let mut keeps = true;
    { let _c = Cwd::enter(&y); for (_, k) in acts { act(&y, n, *k); keeps &= std::fs::read(name(&y, n)).map_or(false, |c| c == a.bytes || c == b.bytes); } }
    let cwd = Cwd::enter(&x);
    if cwd.is_none() { return Err("engine: no working directory of its own".into()); }
    let mut shim = Shim::default();
    for (at, k) in acts { let (d, k) = (x.clone(), *k); shim.env.push((*at, Box::new(move || act(&d, n, k)))); }
    shim.plan = fault.into_iter().collect();
    let sp = &mut shim as *mut Shim;
    let path = name(&x, n);
    let (mut n_open, mut calls) = (0, 0);
    let during_open = acts.iter().any(|k| k.0 < open_calls);
    let r = ioshim::with(&mut shim, || -> Result<(), String> {
        let opened = FileReader::open(&path);
        n_open = unsafe { (*sp).calls };
        let mut r = match opened {
            Ok(r) => r,
            Err(e) => {
                if unsafe { (*sp).hits } > 0 { return Ok(()); }
                ck!(during_open && !keeps, "FileReader::open fails ({:?}) while the path always names a file", e);
                return Ok(());
            }
        };
        let mut cand: Vec<&Stored> = if during_open { vec![a, b] } else { vec![a] };
        let mut steps: Vec<Rd> = vec![Rd::Snap]; steps.extend(reads); steps.push(Rd::Snap);
        for c in steps {
            let mut left = vec![];
            let mut seen_err = None;
            // a read which the system refuses is tried again
            if fault.is_some() {
                for _ in 0..2 {
                    let h = unsafe { (*sp).hits };
                    match read_matches(&mut r, cand[0], c) { Ok(ok) => ck!(ok, "{:?} gives something else than the content of the file opened", c), Err(e) => ck!(unsafe { (*sp).hits } > h, "{:?} fails: {}", c, e) }
                }
                continue;
            }
            for s in &cand { let back = unsafe { (*sp).calls }; match read_matches(&mut r, s, c) { Ok(true) => left.push(*s), Ok(false) => {} Err(e) => seen_err = Some(e) } if cand.len() > 1 { unsafe { (*sp).calls = back } } }
            if left.is_empty() { return Err(format!("{:?} gives neither the content of the file opened nor of the one which replaces it, or fails: {:?}", c, seen_err)); }
            cand = left;
        }
        calls = unsafe { (*sp).calls };
        ck!(r.file_path() == path, "file_path() {:?}", r.file_path());
        let (ds, v) = r.close();
        let g = bind::snapshot(&ds)?;
        ck!(cand.iter().any(|s| bind::diff_def(&s.def, &g).is_none() && bind::unver(&v) == s.ver), "close() gives another definition");
        Ok(())
    });
    drop(cwd);
    r?;
    // actions which come after the last call never happened
    if acts.iter().all(|k| k.0 < unsafe { (*sp).calls }) {
        let (t, e) = (tree(&x), tree(&y));
        ck!(same_content(&t, &e), "reading changes the files: {} instead of {}", show_tree(&t), show_tree(&e));
    }
    ctx.op(reads.len() as u64 + 3); ctx.trace();
    Ok((n_open, calls, unsafe { (*sp).n }))
}
fn reader_case(ctx: &mut Ctx, n: Named, ka: usize, kb: usize, reads: &[Rd], two: bool, faults: bool) -> Result<(), String> {
    let (a, b) = (store(ka), store(kb));
    if faults { return reader_faults(ctx, n, ka, kb, &a, &b, reads); }
    let m = |acts: &[(u64, Act)], e: String| format!("file {} (then {}) named {:?}, reads {:?}, actions before the system calls {:?}: {}", ka, kb, n, reads, acts, e);
    let (no, nc, _) = reader_run(ctx, n, &a, &b, reads, &[], 0, None).map_err(|e| m(&[], e))?;
    for k in 1..nc {
        for x in ACTS {
            if n == Named::Plain && matches!(x, Act::Retarget | Act::LeadRemoved) { continue; }
            ctx.state(&(n, ka, kb, reads, k, x));
            let p = [(k, x)];
            reader_run(ctx, n, &a, &b, reads, &p, no, None).map_err(|e| m(&p, e))?;
            if two { for k2 in k..nc { for y in [Act::Replace, Act::Remove, Act::Swap, Act::Retarget, Act::GarbageInPlace] {
                let p = [(k, x), (k2, y)];
                reader_run(ctx, n, &a, &b, reads, &p, no, None).map_err(|e| m(&p, e))?;
            } } }
        }
    }
    ctx.sample(|| format!("file {} then {}, named {:?}, reads {:?}: {} system calls x {} actions", ka, kb, n, reads, nc, ACTS.len()));
    Ok(())
}

/// One action of the environment after the opening, and one failing transfer of the library.
fn reader_faults(ctx: &mut Ctx, n: Named, ka: usize, kb: usize, a: &Stored, b: &Stored, reads: &[Rd]) -> Result<(), String> {
    let all: Vec<Rd> = reads.to_vec();
    let (no, _, _) = reader_run(ctx, n, a, b, &all, &[], 0, None)?;
    let (_, nc, nt) = reader_run(ctx, n, a, b, &all, &[], 0, Some((u64::MAX, Fault::Eio)))?;
    for k in no..nc { for x in [Act::Replace, Act::Remove, Act::Swap, Act::Retarget] {
        if n == Named::Plain && x == Act::Retarget { continue; }
        for j in 0..nt { for f in [Fault::Eio, Fault::Zero, Fault::Eintr, Fault::Short1] {
            let m = |e: String| format!("file {} (then {}) named {:?}, every read of {:?} twice, {:?} before system call {}, transfer {} meets {:?}: {}", ka, kb, n, reads, x, k, j, f, e);
            reader_run(ctx, n, a, b, &all, &[(k, x)], 0, Some((j, f))).map_err(m)?;
            ctx.state(&(n, ka, kb, reads, k, x, j, f));
        } }
    } }
    Ok(())
}

// ------------------------------------------------------------------------------------ in place
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum InPlace { /// records are appended then counted, at once
    Append, /// the file is cut
    Cut(usize) }
/// Another process appends to or cuts the file while it is read.
fn in_place_case(ctx: &mut Ctx, schema: usize, what: InPlace, reads: &[Rd]) -> Result<(), String> {
    let base = match schema { 0 => stored()[0].0.clone(), 1 => Def::default().attr("pad", Val::pattern(Ty::U8, 1300, 1)).unlim("u", 2).dim("a", 3).var("v", Ty::I32, &["u", "a"]).var("f", Ty::I8, &["a"]), _ => Def::default().unlim("u", 2).dim("a", 1).var("v", Ty::F64, &["u", "a"]) };
    let ver = VERS[schema % 2];
    let mut longer = base.clone(); for d in longer.dims.iter_mut() { if d.unlim { d.size = 4; } }
    let ld = full_data(&longer, 3);
    let od: Data = (0..base.vars.len()).map(|v| ld[v][..base.nslabs(v)].to_vec()).collect();
    let old = Stored { bytes: encode_file(&base, &od, ver, 0, true), def: base.clone(), data: od, ver };
    let new = Stored { bytes: encode_file(&longer, &ld, ver, 0, true), def: longer, data: ld, ver };
    let p = ctx.path("i.nc");
    let m = |at: &[u64], e: String| format!("schema {}, {:?} before system calls {:?}, reads {:?}: {}", schema, what, at, reads, e);
    let mut nc = 2; let mut no = 0;
    let mut k: Vec<u64> = vec![u64::MAX, u64::MAX];
    loop {
        // k[0] <= k[1]: the two steps of the change
        std::fs::write(&p, &old.bytes).map_err(|e| e.to_string())?;
        let mut shim = Shim::default();
        let cut = match what { InPlace::Cut(c) => Some((old.bytes.len() * c / 16) as u64), _ => None };
        for step in 0..2 {
            if k[step] == u64::MAX { continue; }
            let (p, o, b) = (p.clone(), old.bytes.len(), new.bytes.clone());
            shim.env.push((k[step], Box::new(move || {
                let f = std::fs::OpenOptions::new().write(true).open(&p).unwrap();
                use std::os::unix::fs::FileExt;
                match cut { Some(c) => { if step == 0 { f.set_len(c).unwrap(); } } None => if step == 0 { f.write_all_at(&b[o..], o as u64).unwrap() } else { f.write_all_at(&b[4..8], 4).unwrap() } }
            })));
        }
        let sp = &mut shim as *mut Shim;
        let mut errs = 0;
        let r = ioshim::with(&mut shim, || -> Result<(), String> {
            let mut r = match FileReader::open(&p) { Ok(r) => r, Err(e) => { if cut.is_some() && k[0] < no { return Ok(()); } return Err(format!("open: {:?}", e)) } };
            if no == 0 { no = unsafe { (*sp).calls }; }
            let g = bind::snapshot(r.data_set())?;
            let s = if bind::diff_def(&old.def, &g).is_none() { &old } else if cut.is_none() && k[1] < no && bind::diff_def(&new.def, &g).is_none() { &new } else { return Err(format!("another definition: {:?}", bind::diff_def(&old.def, &g))) };
            for c in reads { match read_matches(&mut r, s, *c) { Ok(true) => {} Ok(false) => return Err(format!("{:?} gives wrong values", c)), Err(e) => { if cut.is_none() { return Err(e); } errs += 1; } } }
            Ok(())
        });
        r.map_err(|e| m(&k, e))?;
        if k[0] == u64::MAX { nc = unsafe { (*sp).calls }; k = vec![1, 1]; } else {
            ctx.count(if errs > 0 { "reads of a file being cut are refused" } else { "reads of a file being changed are right" });
            k[1] += 1;
            if k[1] > nc || cut.is_some() { k[0] += 1; k[1] = k[0]; }
            if k[0] > nc { break; }
        }
        ctx.state(&(schema, what, reads, &k)); ctx.op(reads.len() as u64 + 2); ctx.trace();
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ writers
fn wdefs() -> Vec<Def> {
    vec![stored()[0].0.clone(), dims_abu(3, 2, 1, 0).var("f", Ty::F64, &["a"]).var("g", Ty::I8, &["b"]), Def::default().attr("only", Val::pattern(Ty::I16, 3, 1)), dims_abu(0, 1, 2, 3).var("r", Ty::I16, &["u"]),
        Def::default().attr("pad", Val::pattern(Ty::U8, 17_000, 2)).unlim("u", 2).dim("n", 2).var("v", Ty::U8, &["n"]).var("w", Ty::I16, &["u"])]
}
/// `create`: create_new instead of open.
fn writer_run(ctx: &mut Ctx, n: Named, create: bool, kd: usize, ops: &[Op], end: usize, refused: bool, acts: &[(u64, Act)]) -> Result<u64, String> {
    let def = &wdef(kd);
    let ver = VERS[kd % 2];
    let ds = bind::build(def).map_err(|e| format!("{:?}", e))?;
    let b = store(1).bytes;
    const MARK: &[u8] = b"the file which is written";
    let (x, y) = (fresh_dir(ctx, "w"), fresh_dir(ctx, "t"));
    world(&x, n, if create { None } else { Some(&[0xEE; 900]) }, &b); world(&y, n, Some(MARK), &b);
    { let _c = Cwd::enter(&y); for (_, k) in acts { act(&y, n, *k); } }
    let cwd = Cwd::enter(&x);
    if cwd.is_none() { return Err("engine: no working directory of its own".into()); }
    // the file itself, whatever becomes of its name
    let held: Rc<RefCell<Option<std::fs::File>>> = Rc::new(RefCell::new(None));
    let mut shim = Shim::default();
    for (at, k) in acts { let (d, k, h) = (x.clone(), *k, held.clone()); shim.env.push((*at, Box::new(move || { if h.borrow().is_none() { *h.borrow_mut() = std::fs::File::open(place(&d, n)).ok(); } act(&d, n, k) }))); }
    let sp = &mut shim as *mut Shim;
    let path = name(&x, n);
    let hmin = hist::hm(&(def, ver, ops));
    let mut data = empty_data(def);
    let mut calls = 0;
    let r = ioshim::with(&mut shim, || -> Result<(), String> {
        let e = |x: netcdf3::WriteError| format!("{:?}", x);
        let mut w = if create { FileWriter::create_new(&path) } else { FileWriter::open(&path) }.map_err(e)?;
        if refused { ck!(bind::write_var(&mut w, "r", &Val::pattern(Ty::I8, 4, 1)).is_err() && bind::write_rec(&mut w, "", 0, &Val::pattern(Ty::I8, 4, 1)).is_err(), "a write without definition succeeds"); }
        // calls which must be refused, and change nothing
        let bad = |w: &mut FileWriter| -> Result<(), String> {
            if !refused { return Ok(()); }
            ck!(bind::write_var(w, "no such variable", &Val::pattern(Ty::I8, 1, 1)).is_err(), "a write of an unknown variable succeeds");
            for v in 0..def.vars.len().min(2) {
                let (t, l, name) = (def.vars[v].ty, def.total_len(v) as usize, def.vars[v].name.as_str());
                let other = if t == Ty::I8 { Ty::F64 } else { Ty::I8 };
                ck!(bind::write_var(w, name, &Val::pattern(t, l + 1, 1)).is_err() && bind::write_var(w, name, &Val::pattern(other, l, 1)).is_err() && bind::write_rec(w, name, def.nslabs(v), &Val::pattern(t, def.slab_len(v) as usize, 1)).is_err(), "a wrong write succeeds");
            }
            Ok(())
        };
        if end == 3 { w.close().map_err(e)?; calls = unsafe { (*sp).calls }; return Ok(()); }
        w.set_def(&ds, bind::ver(ver), hmin).map_err(e)?;
        if refused { ck!(w.set_def(&ds, bind::ver(ver), hmin).is_err(), "a second set_def succeeds"); }
        bad(&mut w)?;
        for op in ops { hist::exec(def, &mut w, *op).map_err(e)?; bad(&mut w)?; hist::apply(def, &mut data, *op); }
        ck!(w.file_path() == path, "file_path() {:?}", w.file_path());
        if end == 1 { drop(w) } else { w.close().map_err(e)?; }
        calls = unsafe { (*sp).calls };
        Ok(())
    });
    drop(cwd);
    r.map_err(|e| format!("a legal call fails: {}", e))?;
    if acts.iter().any(|k| k.0 >= calls) { return Err("engine: an action did not happen".into()); }
    let mut t = tree(&y);
    let mine = match held.borrow_mut().as_mut() { Some(f) => { let mut v = vec![]; f.seek(SeekFrom::Start(0)).unwrap(); f.read_to_end(&mut v).unwrap(); v } None => std::fs::read(place(&x, n)).unwrap() };
    if end == 3 { ck!(mine.is_empty(), "a writer closed without definition leaves {} bytes", mine.len()); }
    else if end == 2 { let e = encode_file(def, &data, ver, hmin, true); if let Some(d) = diff_bytes(&e, &mine) { return Err(format!("the file opened does not hold what was written: {}", d)); } }
    else { // dropped: what was acknowledged
        let lay = canonical_layout(def, ver, hmin, def.recsize_padded());
        for v in 0..def.vars.len() { for s in 0..def.nslabs(v) { if let Some(e) = &data[v][s] { let at = (lay.begins[v] + if def.is_rec(v) { lay.recsize * s as u128 } else { 0 }) as usize; ck!(mine.get(at..at + e.len()) == Some(&e[..]), "the file opened does not hold what was written: record {} of {:?}", s, def.vars[v].name); } } }
    }
    for e in t.values_mut() { if e.content == MARK { e.content = mine.clone(); } }
    let g = tree(&x);
    ck!(same_content(&g, &t), "the other files: {} instead of {}", show_tree(&g), show_tree(&t));
    ctx.op(ops.len() as u64 + 3); ctx.trace();
    Ok(calls)
}
fn writer_case(ctx: &mut Ctx, n: Named, create: bool, kd: usize, ops: &[Op], end: usize, refused: bool, two: bool, most: u64) -> Result<(), String> {
    if create && n == Named::Link { ctx.count("skipped: create_new refuses a symbolic link"); return Ok(()); }
    let m = |acts: &[(u64, Act)], e: String| format!("{} {:?}, {}, {}{}, actions before the system calls {:?}: {}", if create { "create_new" } else { "open" }, n, hist::show(&wdef(kd), VERS[kd % 2], 0, ops), ["", "dropped", "closed", "closed without definition"][end], if refused { ", with refused calls in between" } else { "" }, acts, e);
    let nc = writer_run(ctx, n, create, kd, ops, end, refused, &[]).map_err(|e| m(&[], e))?;
    for k in some_calls(nc, most) {
        for x in ACTS {
            if n == Named::Plain && matches!(x, Act::Retarget | Act::LeadRemoved) { continue; }
            ctx.state(&(n, create, kd, ops, end, refused, k, x));
            let p = [(k, x)];
            writer_run(ctx, n, create, kd, ops, end, refused, &p).map_err(|e| m(&p, e))?;
            if two { for k2 in k..nc { for y in [Act::Replace, Act::Remove, Act::Swap, Act::Retarget] { let p = [(k, x), (k2, y)]; writer_run(ctx, n, create, kd, ops, end, refused, &p).map_err(|e| m(&p, e))?; } } }
        }
    }
    ctx.sample(|| format!("{:?} {}: {} system calls x {} actions", n, hist::show(&wdef(kd), VERS[kd % 2], 0, ops), nc, ACTS.len()));
    Ok(())
}

pub fn families(t: Tier) -> Vec<Family> {
    let th = t.thorough();
    let mut f = vec![];
    let ns = stored().len();
    let nr = READS.len();
    let depth = if th { 3 } else { 2 };
    f.push(fam("reader", &format!("{} x {} files, 5 ways of naming the file, all sequences of up to {} reads among {} (quick: of 1 read, for some pairs of files): one of 10 actions (replaced, removed, moved away, swapped, a directory, link, empty file or garbage in its place, symbolic link, directory or working directory changed) before every system call", ns, ns, depth, nr), (ns * ns * 5) as u64 * nseqs(nr, depth), move |i, ctx| {
        let mut d = Digits(i);
        let (ka, kb, n) = (d.next(ns), d.next(ns), NAMED[d.next(5)]);
        let reads: Vec<Rd> = seq(d.0, nr).iter().map(|k| READS[*k]).collect();
        if ka == kb || (reads.len() > 1 && (ka > 2 || kb > 5) && !th) { return Ok(()); }
        reader_case(ctx, n, ka, kb, &reads, false, false)
    }));
    f.push(fam("reader_two_actions", &format!("the same with two actions at every pair of system calls, {} files", if th { ns * ns } else { 9 }), if th { (ns * ns * 5 * 3) as u64 } else { 9 * 5 }, move |i, ctx| {
        let mut d = Digits(i);
        let m = if th { ns } else { 3 };
        let (ka, kb, n, c) = (d.next(m), d.next(m), NAMED[d.next(5)], d.next(3));
        if ka == kb { return Ok(()); }
        reader_case(ctx, n, ka, kb, &[[Rd::Var(1)], [Rd::Rec(0)], [Rd::All]][c][..], true, false)
    }));
    let nf = if th { ns } else { 3 };
    f.push(fam("reader_faults", &format!("{} pairs of files x 5 ways of naming the file x {} reads, made twice: an action of 4 before every system call after the opening, and one of 4 faults (error, end of file, interruption, short transfer) at every transfer: what is read is right or refused, and right when it is tried again", nf * (nf - 1), nr), (nf * nf * 5 * nr) as u64, move |i, ctx| {
        let mut d = Digits(i);
        let (ka, kb, n, c) = (d.next(nf), d.next(nf), NAMED[d.next(5)], READS[d.next(nr)]);
        if ka == kb { return Ok(()); }
        if !th && kb != (ka + 1) % nf { ctx.count("skipped in the quick tier"); return Ok(()); }
        reader_case(ctx, n, ka, kb, &[c], false, true)
    }));
    f.push(fam("changed_in_place", "3 schemas, all sequences of up to 2 reads: another process appends records then updates their number, or cuts the file at 17 places, before any two system calls", 3 * 18 * nseqs(nr, 2), move |i, ctx| {
        let mut d = Digits(i);
        let (s, w) = (d.next(3), d.next(18));
        let reads: Vec<Rd> = seq(d.0, nr).iter().map(|k| READS[*k]).collect();
        in_place_case(ctx, s, if w == 17 { InPlace::Append } else { InPlace::Cut(w) }, &reads)
    }));
    {
        const KS: [usize; 8] = [0, 1, 7, 10, 5, 11, 2, 9];
        let (nk, most) = if th { (8, 60) } else { (6, 14) };
        f.push(fam("large_readers", &format!("{} large definitions (long headers first) and the same with other values, or another one; 5 ways of naming the file; everything read; one of 10 actions before {} or so of the system calls (both ends, and evenly)", nk, most), (nk * 2 * 5) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (k, same, n) = (KS[d.next(nk)], d.next(2) == 0, NAMED[d.next(5)]);
            let (a, b) = (store_large(k, 3), if same { store_large(k, 8) } else { store_large(KS[(k + 1) % 4], 4) });
            let reads = [Rd::Var(0), Rd::Rec(1)];
            let m = |acts: &[(u64, Act)], e: String| format!("large definition {} ({}) named {:?}, reads {:?}, actions before the system calls {:?}: {}", k, if same { "then the same with other values" } else { "then another one" }, n, reads, acts, e);
            let (no, nc, _) = reader_run(ctx, n, &a, &b, &reads, &[], 0, None).map_err(|e| m(&[], e))?;
            for k in some_calls(nc, most) { for x in ACTS {
                if n == Named::Plain && matches!(x, Act::Retarget | Act::LeadRemoved) { continue; }
                ctx.state(&(i, k, x));
                reader_run(ctx, n, &a, &b, &reads, &[(k, x)], no, None).map_err(|e| m(&[(k, x)], e))?;
            } }
            Ok(())
        }));
        f.push(fam("large_writers", &format!("{} large definitions, every variable written, open and create_new, 5 ways of naming the file, closed: one of 10 actions before {} or so of the system calls", nk, most), (nk * 2 * 5) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (k, c, n) = (KS[d.next(nk)], d.next(2) == 1, NAMED[d.next(5)]);
            writer_case(ctx, n, c, 100 + k, &hist::full_ops(&large(k)), 2, false, false, most)
        }));
    }
    // long sequences of reads and writes
    {
        let (ls, most): (Vec<usize>, u64) = if th { (vec![40, 110, 260, 520, 1030], 20) } else { (vec![110, 300], 3) };
        let nl = ls.len();
        let l2 = ls.clone();
        f.push(fam("long_readers", &format!("sequences of {:?} reads (the same one of {}, or all in turn), 2 pairs of files, 5 ways of naming the file: one of 10 actions before the first system calls after the opening, the last ones and about {} in between", ls, nr, most), (nl * (nr + 1) * 2 * 5) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (l, c, pair, n) = (l2[d.next(nl)], d.next(nr + 1), d.next(2), NAMED[d.next(5)]);
            let (a, b) = (store([0, 4][pair]), store([1, 5][pair]));
            let reads: Vec<Rd> = (0..l).map(|j| if c < nr { READS[c] } else { READS[j % nr] }).collect();
            let m = |acts: &[(u64, Act)], e: String| format!("{} reads {:?}..., pair of files {} named {:?}, actions before the system calls {:?}: {}", l, &reads[..9], pair, n, acts, e);
            let (no, nc, _) = reader_run(ctx, n, &a, &b, &reads, &[], 0, None).map_err(|e| m(&[], e))?;
            if nc <= no { ctx.count("skipped: no system call after the opening"); return Ok(()); }
            let mut ks: Vec<u64> = vec![no, nc - 1]; for q in 1..=most { ks.push(no + (nc - no) * q / (most + 1)); }
            ks.sort(); ks.dedup();
            for k in ks { for x in ACTS {
                if n == Named::Plain && matches!(x, Act::Retarget | Act::LeadRemoved) { continue; }
                if !th && k > no && !matches!(x, Act::Replace | Act::Remove | Act::Swap | Act::Retarget) { continue; }
                ctx.state(&(i, k, x));
                reader_run(ctx, n, &a, &b, &reads, &[(k, x)], no, None).map_err(|e| m(&[(k, x)], e))?;
            } }
            Ok(())
        }));
        f.push(fam("long_writers", &format!("histories of {:?} writes (one record, or all the writes in turn), 2 schemas, 5 ways of naming the file, open and create_new, closed or dropped: one of 10 actions before {} or so of the system calls", ls, 2 * most + 12), (nl * 2 * 2 * 5 * 2 * 2) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (l, c, kd, n, cr, end) = (ls[d.next(nl)], d.next(2), [0, 3][d.next(2)], NAMED[d.next(5)], d.next(2) == 1, d.next(2) + 1);
            let al = hist::alphabet(&wdefs()[kd]);
            let ops: Vec<Op> = (0..l).map(|j| hist::salted(if c == 0 { al[1] } else { al[j % al.len()] }, j + 1)).collect();
            writer_case(ctx, n, cr, kd, &ops, end, false, false, 2 * most)
        }));
    }
    for kd in 0..wdefs().len() {
        let al = hist::alphabet(&wdef(kd));
        let na = al.len();
        let depth = if th { 2 } else { 1 };
        f.push(fam(&format!("writer_{}", kd), &format!("schema #{}: all histories of up to {} writes among {}, 5 ways of naming the file, open and create_new, closed, dropped or without definition, with or without refused calls in between: one of the 10 actions before every system call", kd, depth, na), nseqs(na, depth) * 5 * 2 * 3 * 2, move |i, ctx| {
            let mut d = Digits(i);
            let (refused, n, c, e) = (d.next(2) == 1, NAMED[d.next(5)], d.next(2) == 1, d.next(3) + 1);
            let ops: Vec<Op> = seq(d.0, na).iter().enumerate().map(|(j, k)| hist::salted(al[*k], j + 1)).collect();
            if e == 3 && !ops.is_empty() { return Ok(()); }
            writer_case(ctx, n, c, kd, &ops, e, refused, false, u64::MAX / 2)
        }));
        f.push(fam(&format!("writer_full_{}", kd), &format!("schema #{}: every variable written; one action{} before every system call", kd, if th { ", and two" } else { "" }), 5 * 2 * 2, move |i, ctx| {
            let mut d = Digits(i);
            let (n, c, e) = (NAMED[d.next(5)], d.next(2) == 1, d.next(2) + 1);
            writer_case(ctx, n, c, kd, &hist::full_ops(&wdef(kd)), e, false, th, u64::MAX / 2)
        }));
    }
    f
}
