//! C15 (files are created, replaced and read as promised) and C16 (copies).
use crate::bind;
use crate::c_read;
use crate::hist::{self, Op};
use crate::model::*;
use crate::runner::*;
use crate::spaces::*;
use netcdf3::{DataSet, FileReader, FileWriter, ReadError, WriteError};
use std::collections::BTreeMap;
use std::ffi::CString;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};

// ------------------------------------------------------------------------------------ trees of files
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ent { pub kind: char, pub mode: u32, pub ino: u64, pub mtime: (i64, i64), pub content: Vec<u8> }
pub type Tree = BTreeMap<PathBuf, Ent>;
pub fn tree(dir: &Path) -> Tree {
    fn rec(base: &Path, d: &Path, out: &mut Tree) {
        let mut l: Vec<PathBuf> = std::fs::read_dir(d).map(|r| r.filter_map(|e| e.ok().map(|e| e.path())).collect()).unwrap_or_default();
        l.sort();
        for p in l {
            let m = std::fs::symlink_metadata(&p).expect("metadata");
            let t = m.file_type();
            let (kind, content) = if t.is_symlink() { ('l', std::fs::read_link(&p).unwrap().as_os_str().as_bytes().to_vec()) } else if t.is_dir() { ('d', vec![]) } else { ('f', std::fs::read(&p).expect("read")) };
            out.insert(p.strip_prefix(base).unwrap().to_path_buf(), Ent { kind, mode: m.mode() & 0o7777, ino: m.ino(), mtime: if kind == 'd' { (0, 0) } else { (m.mtime(), m.mtime_nsec()) }, content });
            if t.is_dir() { rec(base, &p, out); }
        }
    }
    let mut t = Tree::new(); rec(dir, dir, &mut t); t
}
pub fn show_tree(t: &Tree) -> String { t.iter().map(|(p, e)| format!("{}:{}:{:o}:{}B", p.display(), e.kind, e.mode, e.content.len())).collect::<Vec<_>>().join(" ") }
/// Same names, kinds and contents.
pub fn same_content(a: &Tree, b: &Tree) -> bool { a.len() == b.len() && a.iter().zip(b).all(|((p, x), (q, y))| p == q && x.kind == y.kind && x.content == y.content) }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum St { Absent, Empty, Nc, NcLong, Garbage, Dir, DirFull, LinkFile, LinkDangling, LinkDir, LinkLoop, HardLink, NoParent, ParentIsFile, SlashAbsent, SlashFile, EmptyPath, Nul, TooLong, Mode(u32), DirMode(u32, bool), Dot, Truncated }
const STATES: [St; 34] = [St::Absent, St::Empty, St::Nc, St::NcLong, St::Garbage, St::Dir, St::DirFull, St::LinkFile, St::LinkDangling, St::LinkDir, St::LinkLoop, St::HardLink, St::NoParent, St::ParentIsFile, St::SlashAbsent, St::SlashFile, St::EmptyPath, St::Nul, St::TooLong,
    St::Mode(0o444), St::Mode(0o222), St::Mode(0o000), St::Mode(0o666), St::Mode(0o644), St::Mode(0o400), St::DirMode(0o555, false), St::DirMode(0o555, true), St::DirMode(0o777, false), St::DirMode(0o777, true), St::DirMode(0o666, true), St::DirMode(0o333, true), St::DirMode(0o700, true), St::Dot, St::Truncated];

fn nc_bytes(k: usize) -> Vec<u8> { let d = file_def(k); encode_file(&d, &full_data(&d, 40 + k), VERS[k % 2], 0, true) }
fn file_def(k: usize) -> Def {
    match k { 0 => Def::default().unlim("u", 2).dim("a", 3).attr("g", Val::pattern(Ty::U8, 5, 1)).var("v", Ty::I16, &["u", "a"]).var("f", Ty::F64, &["a"]).var("w", Ty::I8, &["u"]),
        1 => Def::default().dim("a", 5).var("f", Ty::I8, &["a"]).var("g", Ty::I16, &[]), 2 => Def::default(),
        _ => Def::default().unlim("u", 3).dim("a", 40).attr("long", Val::pattern(Ty::F64, 200, 1)).var("r", Ty::F32, &["u", "a"]).var("s", Ty::U8, &["u"]).var("f", Ty::F64, &["a"]) }
}
/// Creates the state in `dir`; returns the path to open.
fn create_state(dir: &Path, st: St) -> PathBuf {
    let w = |n: &str, b: &[u8]| { std::fs::write(dir.join(n), b).unwrap(); std::fs::set_permissions(dir.join(n), std::fs::Permissions::from_mode(0o644)).unwrap(); };
    let mk = |n: &str| std::fs::create_dir(dir.join(n)).unwrap();
    let ln = |to: &str, n: &str| std::os::unix::fs::symlink(to, dir.join(n)).unwrap();
    // neighbours which must not change
    for n in ["x.nc.tmp", "x.nc~", ".x.nc", "x", "x.nc.bak", "other.nc", "tmp"] { w(n, format!("neighbour {}", n).as_bytes()); }
    match st {
        St::Absent => dir.join("x.nc"),
        St::Empty => { w("x.nc", b""); dir.join("x.nc") }
        St::Nc => { w("x.nc", &nc_bytes(1)); dir.join("x.nc") }
        St::NcLong => { w("x.nc", &nc_bytes(3)); dir.join("x.nc") }
        St::Garbage => { w("x.nc", &[0xEE; 5000]); dir.join("x.nc") }
        St::Truncated => { let b = nc_bytes(0); w("x.nc", &b[..b.len() / 3]); dir.join("x.nc") }
        St::Dir => { mk("x.nc"); dir.join("x.nc") }
        St::DirFull => { mk("x.nc"); w("x.nc/in", b"inside"); dir.join("x.nc") }
        St::LinkFile => { w("target", &nc_bytes(0)); ln("target", "x.nc"); dir.join("x.nc") }
        St::LinkDangling => { ln("target", "x.nc"); dir.join("x.nc") }
        St::LinkDir => { mk("target"); ln("target", "x.nc"); dir.join("x.nc") }
        St::LinkLoop => { ln("x.nc", "y.nc"); ln("y.nc", "x.nc"); dir.join("x.nc") }
        St::HardLink => { w("target", &nc_bytes(3)); std::fs::hard_link(dir.join("target"), dir.join("x.nc")).unwrap(); dir.join("x.nc") }
        St::NoParent => dir.join("missing/x.nc"),
        St::ParentIsFile => { w("parent", b"a file"); dir.join("parent/x.nc") }
        St::SlashAbsent => PathBuf::from(format!("{}/", dir.join("x.nc").display())),
        St::SlashFile => { w("x.nc", &nc_bytes(1)); PathBuf::from(format!("{}/", dir.join("x.nc").display())) }
        St::EmptyPath => PathBuf::new(),
        St::Nul => dir.join("x\0.nc"),
        St::TooLong => dir.join("x".repeat(300)),
        St::Mode(m) => { w("x.nc", &nc_bytes(1)); std::fs::set_permissions(dir.join("x.nc"), std::fs::Permissions::from_mode(m)).unwrap(); dir.join("x.nc") }
        St::DirMode(m, file) => { mk("sub"); if file { w("sub/x.nc", &nc_bytes(1)); std::fs::set_permissions(dir.join("sub/x.nc"), std::fs::Permissions::from_mode(0o666)).unwrap(); } std::fs::set_permissions(dir.join("sub"), std::fs::Permissions::from_mode(m)).unwrap(); dir.join("sub/x.nc") }
        St::Dot => dir.join("."),
    }
}
pub fn fresh_dir(ctx: &Ctx, n: &str) -> PathBuf {
    let d = ctx.path(n);
    let _ = std::fs::set_permissions(&ctx.dir, std::fs::Permissions::from_mode(0o755));
    if let Some(p) = ctx.dir.parent() { let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755)); }
    if d.exists() { std::fs::remove_dir_all(&d).unwrap(); }
    std::fs::create_dir(&d).unwrap();
    d
}
/// Acts as another user (this thread only) until dropped.
struct As(Option<(libc::c_long, libc::c_long)>);
impl As {
    fn user(u: u32) -> As {
        if u == 0 { return As(None); }
        unsafe { let g = libc::syscall(libc::SYS_setfsgid, u as libc::c_long); let o = libc::syscall(libc::SYS_setfsuid, u as libc::c_long); As(Some((o, g))) }
    }
}
impl Drop for As { fn drop(&mut self) { if let Some((u, g)) = self.0 { unsafe { libc::syscall(libc::SYS_setfsuid, u); libc::syscall(libc::SYS_setfsgid, g); } } } }
/// What the operating system does for these open flags.
fn os_open(p: &Path, flags: i32) -> bool {
    let c = match CString::new(p.as_os_str().as_bytes()) { Ok(c) => c, Err(_) => return false };
    let fd = unsafe { libc::open(c.as_ptr(), flags | libc::O_CLOEXEC, 0o666) };
    if fd >= 0 { unsafe { libc::close(fd); } }
    fd >= 0
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Mode { Open, New, Read }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum After { Drop, Close, DefClose, Full, Partial }

fn states_case(ctx: &mut Ctx, st: St, mode: Mode, after: After, user: u32, k: usize, ver: Ver, style: usize) -> Result<(), String> {
    path_case(ctx, &format!("{:?}", st), &|d| create_state(d, st), st == St::HardLink, mode, after, user, k, ver, style)
}
/// `create` prepares a directory and gives the path to be opened (possibly relative to it).
fn path_case(ctx: &mut Ctx, st: &str, create: &dyn Fn(&Path) -> PathBuf, hard_link: bool, mode: Mode, after: After, user: u32, k: usize, ver: Ver, style: usize) -> Result<(), String> {
    let m = |e: String| format!("path {}, {:?}, then {:?}, user {}: {}", st, mode, after, user, e);
    let (a, b) = (fresh_dir(ctx, "a"), fresh_dir(ctx, "b"));
    let world = if k % 2 == 0 { 0o755 } else { 0o777 };
    let (pa, pb) = (create(&a), create(&b));
    for d in [&a, &b] { std::fs::set_permissions(d, std::fs::Permissions::from_mode(world)).unwrap(); }
    let before = tree(&a);
    // b: what the operating system does
    let flags = match mode { Mode::Open => libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC, Mode::New => libc::O_WRONLY | libc::O_CREAT | libc::O_EXCL, Mode::Read => libc::O_RDONLY };
    let no_cwd = || "engine: no working directory of its own".to_string();
    let os = { let _c = crate::c_env::Cwd::enter(&b).ok_or_else(no_cwd)?; let _u = As::user(user); os_open(&pb, flags) };
    let _c = crate::c_env::Cwd::enter(&a).ok_or_else(no_cwd)?;
    let exists = std::fs::symlink_metadata(&pa).is_ok();
    let os_tree = tree(&b);
    let def = file_def(k);
    let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
    ctx.op(1); ctx.state(&(st.to_string(), mode, after, user, k, ver)); ctx.trace();
    match mode {
        Mode::Read => {
            let mut bad = None;
            let ok = {
                let _u = As::user(user);
                let r = match (style, pa.to_str()) { (0, _) => FileReader::open(&pa), (1, Some(s)) => FileReader::open(s), (2, _) => FileReader::open(pa.as_os_str()), _ => FileReader::open(pa.clone()) };
                match r {
                    Err(_) => false,
                    Ok(mut r) => {
                        if r.file_path() != pa { bad = Some(format!("file_path() {:?}", r.file_path())); }
                        if let Err(e) = r.read_all_vars() { bad = Some(format!("read_all_vars: {:?}", e)); }
                        if after == After::Close { let _ = r.close(); }
                        true
                    }
                }
            };
            if let Some(e) = bad { return Err(m(e)); }
            let valid = os && std::fs::metadata(&pa).map(|x| x.is_file()).unwrap_or(false) && decode_header(&std::fs::read(&pa).unwrap_or_default()).is_ok();
            ck!(ok == valid, "{}", m(format!("FileReader::open {} while the system {} the file and it {} a NetCDF-3 file", if ok { "succeeds" } else { "fails" }, if os { "opens" } else { "refuses to open" }, if valid { "is" } else { "is not" })));
            let t = tree(&a);
            ck!(t == before, "{}", m(format!("reading changes the files: {} -> {}", show_tree(&before), show_tree(&t))));
            ctx.count(if ok { "opened for reading" } else { "refused for reading" });
        }
        _ => {
            let mut msg = None;
            let opened;
            {
                let _u = As::user(user);
                let r = match (mode, style, pa.to_str()) { (Mode::Open, 0, _) => FileWriter::open(&pa), (Mode::Open, 1, Some(s)) => FileWriter::open(s), (Mode::Open, 2, _) => FileWriter::open(pa.as_os_str()), (Mode::Open, _, _) => FileWriter::open(pa.clone()), (_, 0, _) => FileWriter::create_new(&pa), (_, 1, Some(s)) => FileWriter::create_new(s.to_string()), (_, 2, _) => FileWriter::create_new(pa.as_os_str()), _ => FileWriter::create_new(pa.clone()) };
                opened = r.is_ok();
                match r {
                    Err(_) => {}
                    Ok(mut w) => {
                        if w.file_path() != pa { msg = Some(format!("file_path() {:?}", w.file_path())); }
                        if w.header_is_defined() { msg = Some("header_is_defined() before set_def".into()); }
                        let mut go = || -> Result<(), WriteError> {
                            if after == After::Close || after == After::Drop { return Ok(()); }
                            w.set_def(&ds, bind::ver(ver), 0)?;
                            match after {
                                After::Full => for op in hist::full_ops(&def) { hist::exec(&def, &mut w, op)? },
                                After::Partial => for op in hist::alphabet(&def).into_iter().rev().take(1) { hist::exec(&def, &mut w, hist::salted(op, 3))? },
                                _ => {}
                            }
                            Ok(())
                        };
                        if let Err(e) = go() { msg = Some(format!("{:?}", e)); }
                        match after { After::Drop | After::Partial => drop(w), _ => if let Err(e) = w.close() { msg = Some(format!("close: {:?}", e)) } }
                    }
                }
            }
            if let Some(e) = msg { return Err(m(e)); }
            ck!(opened == os, "{}", m(format!("the call {} while open(2) {}", if opened { "succeeds" } else { "fails" }, if os { "succeeds" } else { "fails" })));
            ck!(!(mode == Mode::New && exists && opened), "{}", m("create_new succeeds on an existing path".into()));
            let t = tree(&a);
            if !opened {
                ck!(t == before, "{}", m(format!("a failed open changes the files: {} -> {}", show_tree(&before), show_tree(&t))));
                ctx.count("refused for writing");
            } else {
                // the file which is open(2)ed by the system in b
                let target = std::fs::canonicalize(&pa).map_err(|e| m(e.to_string()))?;
                let rel = target.strip_prefix(std::fs::canonicalize(&a).unwrap()).unwrap().to_path_buf();
                let exp: Vec<u8> = match after {
                    After::Drop | After::Close => vec![],
                    After::DefClose => encode_file(&def, &empty_data(&def), ver, 0, true),
                    After::Full => { let mut d = empty_data(&def); for op in hist::full_ops(&def) { hist::apply(&def, &mut d, op); } encode_file(&def, &d, ver, 0, true) }
                    After::Partial => {
                        let q = ctx.path("fresh.nc"); let _ = std::fs::remove_file(&q);
                        let mut w = FileWriter::open(&q).map_err(|e| m(format!("{:?}", e)))?;
                        w.set_def(&ds, bind::ver(ver), 0).map_err(|e| m(format!("{:?}", e)))?;
                        for op in hist::alphabet(&def).into_iter().rev().take(1) { hist::exec(&def, &mut w, hist::salted(op, 3)).map_err(|e| m(format!("{:?}", e)))? }
                        drop(w); std::fs::read(&q).map_err(|e| e.to_string())?
                    }
                };
                let mut e = os_tree.clone();
                let hard: Vec<PathBuf> = e.iter().filter(|(_, x)| x.kind == 'f' && os_tree.get(&rel).map(|y| y.ino == x.ino) == Some(true)).map(|(p, _)| p.clone()).collect();
                for p in hard { e.get_mut(&p).unwrap().content = exp.clone(); }
                if !same_content(&e, &t) {
                    let d = t.get(&rel).and_then(|x| diff_bytes(&exp, &x.content)).unwrap_or_default();
                    return Err(m(format!("files afterwards: {} expected {} {}", show_tree(&t), show_tree(&e), d)));
                }
                // the neighbours keep everything (inode, mode, time)
                for (p, x) in &before { if *p != rel && os_tree.get(p).map(|y| y.content == x.content).unwrap_or(false) && !hard_link { ck!(t.get(p) == Some(x), "{}", m(format!("{} has been touched", p.display()))); } }
                // an existing file keeps its mode
                if let Some(x) = before.get(&rel) { ck!(t.get(&rel).map(|y| y.mode) == Some(x.mode), "{}", m("the mode of the file changes".into())); }
                ctx.count("opened for writing");
            }
        }
    }
    Ok(())
}
/// Names which a layer in between could spell otherwise.
fn names() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [&b"x.nc"[..], b"X.NC", b"x", b"x y.nc", b" x.nc", b"x.nc ", b"x.nc.", b".x.nc", b"..x", b"...", b"\xff.nc", b"a\xc3", b"\xed\xa0\x80.nc", b"\xc0\xaf", b"x\x80y\xfe.nc", "\u{e9}.nc".as_bytes(), "e\u{301}.nc".as_bytes(), "\u{4e2d}\u{1f600}".as_bytes(), "\u{fffd}.nc".as_bytes(), "\u{feff}x".as_bytes(), "\u{202e}cn.x".as_bytes(),
        b"x\ny.nc", b"x\r", b"\tx", b"\n", b"\x01", b"\x7f", b"~", b"~root", b"~/x.nc", b"$HOME", b"${HOME}", b"%20.nc", b"%2F", b"%s%n", b"-", b"--help", b"*", b"?", b"[a]", b"{}", b"'", b"\"", b"\"x.nc\"", b"\\", b"a\\b", b"a:b", b"C:x", b"file:x", b"file://x.nc", b"http:", b"#x", b"x#y?z=1", b"<>|", b"&amp;", b"x;y", b"x,y", b"x=y", b"x.nc.gz", b"x.nc4", b"x.hdf5", b"con", b"nul.nc", b"NaN", b"0", b"x.nc~"].iter().map(|x| x.to_vec()).collect();
    v.retain(|n| !n.contains(&b'/') || n.starts_with(b"~/") || n.starts_with(b"file:"));
    v.push(vec![b'n'; 255]); v.push("\u{e9}".repeat(127).into_bytes()); v.push(vec![0xFE; 255]); v.push(vec![b'n'; 256]);
    v
}
/// What another spelling of the name would be: files which must not be touched.
fn spellings(n: &[u8]) -> Vec<Vec<u8>> {
    let l = String::from_utf8_lossy(n).into_owned();
    let skip: Vec<u8> = n.iter().copied().filter(|b| b.is_ascii()).collect();
    let mut v: Vec<Vec<u8>> = vec![l.clone().into_bytes(), l.trim().as_bytes().to_vec(), l.trim_end().as_bytes().to_vec(), l.to_lowercase().into_bytes(), l.to_uppercase().into_bytes(), l.replace('\\', "").into_bytes(), l.replace("%20", " ").into_bytes(), l.trim_matches('"').as_bytes().to_vec(), skip, l.trim_end_matches('.').as_bytes().to_vec(), format!("{}.nc", l).into_bytes(), l.replace('\n', "").into_bytes(), l.replace(' ', "_").into_bytes(), l.trim_end_matches('~').as_bytes().to_vec(), l.replace("file:", "").into_bytes(), l.split(['?', '#', ':', ';']).next().unwrap().as_bytes().to_vec(), n.split(|b| *b == 0).next().unwrap().to_vec()];
    v.retain(|x| !x.is_empty() && x != n && !x.contains(&b'/') && x.len() < 250 && x != b"." && x != b".." && x != b"...");
    v.sort(); v.dedup();
    v
}
const PLACES: usize = 12;
fn create_spelling(d: &Path, name: &[u8], place: usize, there: bool) -> PathBuf {
    use std::ffi::OsStr;
    let os = |b: &[u8]| PathBuf::from(OsStr::from_bytes(b));
    let put = |p: PathBuf, b: &[u8]| { let _ = std::fs::write(&p, b); };
    for dir in [d.to_path_buf(), d.join("sub"), d.join("sub/deep")] {
        let _ = std::fs::create_dir(&dir);
        for s in spellings(name) { put(dir.join(os(&s)), b"another file"); }
    }
    let _ = std::os::unix::fs::symlink("sub/deep", d.join("ln"));
    let nc = nc_bytes(1);
    let cat = |parts: &[&[u8]]| os(&parts.concat());
    let a = d.as_os_str().as_bytes().to_vec();
    let p = match place {
        0 => d.join(os(name)),
        1 => os(name),
        2 => cat(&[b"./", name]),
        3 => cat(&[b"sub/../", name]),
        4 => cat(&[&a, b"//sub///", name]),
        5 => cat(&[&a, b"/sub/./deep/../", name]),
        6 => cat(&[b"ln/../", name]),            // the parent of what the link points to
        7 => cat(&[&a, b"/ln/", name]),
        8 => { let n = os(name); if !n.is_absolute() { let _ = std::fs::create_dir(d.join(&n)); } d.join(n).join("x.nc") }   // as a directory
        9 => cat(&[b"../a/../", d.file_name().unwrap().as_bytes(), b"/", name]),
        10 => cat(&[name, b"/"]),
        _ => { let mut q = vec![]; while q.len() < 3700 { q.extend_from_slice(b"sub/deep/../../"); } q.extend_from_slice(name); os(&q) }
    };
    if there { let full = if p.is_absolute() { p.clone() } else { d.join(&p) }; if place != 10 { let _c = crate::c_env::Cwd::enter(d); put(if place == 11 { p.clone() } else { full }, &nc); } else { put(d.join(os(name)), &nc); } }
    p
}
/// Overwriting a file of any length.
fn overwrite(ctx: &mut Ctx, old: &[u8], def: &Def, ver: Ver, ops: &[Op], end: usize) -> Result<(), String> {
    let ds = bind::build(def).map_err(|e| format!("{:?}", e))?;
    let run = |p: &Path| -> Result<Vec<u8>, String> {
        let e = |x: WriteError| format!("{:?}", x);
        let mut w = FileWriter::open(p).map_err(e)?;
        if end > 0 { w.set_def(&ds, bind::ver(ver), 0).map_err(e)?; for op in ops { hist::exec(def, &mut w, *op).map_err(e)?; } }
        if end == 2 { w.close().map_err(e)? } else { drop(w) }
        std::fs::read(p).map_err(|x| x.to_string())
    };
    let m = |e: String| format!("{} over a file of {} bytes, {}: {}", hist::show(def, ver, 0, ops), old.len(), ["opened and dropped", "dropped without close", "closed"][end], e);
    let ls = |d: &Path| -> Result<Vec<std::ffi::OsString>, String> { let mut v: Vec<_> = std::fs::read_dir(d).map_err(|e| e.to_string())?.map(|e| e.map(|e| e.file_name())).collect::<Result<_, _>>().map_err(|e| e.to_string())?; v.sort(); Ok(v) };
    let q = ctx.path("fresh.nc"); std::fs::write(&q, b"").map_err(|e| e.to_string())?;
    let p = ctx.path("over.nc"); std::fs::write(&p, old).map_err(|e| e.to_string())?;
    let before = ls(&ctx.dir)?;
    std::fs::remove_file(&q).map_err(|e| e.to_string())?;
    let fresh = run(&q).map_err(m)?;
    if end == 2 { let mut d = empty_data(def); for op in ops { hist::apply(def, &mut d, *op); } if let Some(x) = diff_bytes(&encode_file(def, &d, ver, 0, true), &fresh) { return Err(m(format!("file created from nothing: {}", x))); } }
    let got = run(&p).map_err(m)?;
    // it is not touched by what follows
    {
        let r: Result<_, ReadError> = (|| { let mut r = FileReader::open(&p)?; r.read_all_vars()?; r.close(); Ok(()) })();
        if end == 2 { if let Err(e) = r { return Err(m(format!("cannot be read: {:?}", e))); } }
        if FileWriter::create_new(&p).is_ok() { return Err(m("create_new succeeds over it".into())); }
        if std::fs::read(&p).map_err(|e| e.to_string())? != got { return Err(m("changed by being read, or by create_new".into())); }
    }
    let after = ls(&ctx.dir)?;
    if after != before { return Err(m(format!("files of the directory before: {:?}, afterwards: {:?}", before, after))); }
    if let Some(d) = diff_bytes(&fresh, &got) { return Err(m(format!("not the file that is created when nothing exists: {}", d))); }
    ctx.op(2 * (ops.len() as u64 + 3)); ctx.trace(); ctx.state(&(old.len(), def, ver, ops, end));
    Ok(())
}

pub fn families_c15(t: Tier) -> Vec<Family> {
    let th = t.thorough();
    let mut f = vec![];
    let (modes, afters) = ([Mode::Open, Mode::New, Mode::Read], [After::Drop, After::Close, After::DefClose, After::Full, After::Partial]);
    f.push(fam("path_states", &format!("{} states of the path (absent, files, directories, links, permissions, impossible paths) x open / create_new / read x 5 continuations x root or another user x 4 definitions x 2 versions x 4 kinds of path arguments: the whole directory tree is compared with what open(2) does", STATES.len()), (STATES.len() * 3 * 5 * 2 * 4 * 2 * 4) as u64, move |i, ctx| {
        let mut d = Digits(i);
        let (st, mode, after, user, k, ver, style) = (STATES[d.next(STATES.len())], modes[d.next(3)], afters[d.next(5)], [0u32, 65534][d.next(2)], d.next(4), VERS[d.next(2)], d.next(4));
        ctx.sample(|| format!("{:?} {:?} {:?} user {} def {}", st, mode, after, user, k));
        if i == 0 {
            // does another identity take effect here?
            let dir = fresh_dir(ctx, "probe"); let p = dir.join("p"); std::fs::write(&p, b"x").unwrap(); std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o444)).unwrap();
            let w = { let _u = As::user(65534); os_open(&p, libc::O_WRONLY) };
            ctx.count(if w { "permissions are not enforced in this sandbox" } else { "permissions are enforced for the other user" });
        }
        states_case(ctx, st, mode, after, user, k, ver, style)
    }));
    let nn = names().len();
    f.push(fam("path_spellings", &format!("{} file names (not UTF-8, blanks, control characters, composed and decomposed letters, percent and shell characters, longest names) x {} places (absolute, relative, through . .. // and symbolic links, as a directory, with a final slash, very long path) x existing or not x open / create_new / read x 4 kinds of path arguments; the names other spellings would give exist beside it: the tree is compared with what open(2) does", nn, PLACES), (nn * PLACES * 2 * 3 * 4) as u64, move |i, ctx| {
        let mut d = Digits(i);
        let (style, mode, there, place, n) = (d.next(4), modes[d.next(3)], d.next(2) == 1, d.next(PLACES), d.next(nn));
        let name = &names()[n];
        let label = format!("{:?} (place {}, {})", String::from_utf8_lossy(name), place, if there { "existing" } else { "absent" });
        path_case(ctx, &label, &|d| create_spelling(d, name, place, there), false, mode, [After::Full, After::Drop, After::Partial, After::DefClose][(n + style) % 4], 0, n % 4, VERS[place % 2], style)
    }));
    let maxl = nc_bytes(3).len() + if th { 600 } else { 40 };
    let step = if th { 1 } else { 3 };
    f.push(fam("overwrite_lengths", &format!("old files of 0..{} bytes (step {}) x 3 contents x 4 definitions x complete, partial or no writes, closed or not: exactly the file created from nothing", maxl, step), (maxl / step + 1) as u64 * 3 * 4 * 4, move |i, ctx| {
        let mut d = Digits(i);
        let (k, c, e, l) = (d.next(4), d.next(3), d.next(4), d.next(maxl / step + 1) * step);
        let def = file_def(k);
        let old: Vec<u8> = match c { 0 => vec![0xEE; l], 1 => { let mut b = nc_bytes((k + 1) % 4); b.resize(l, 0x33); b } _ => (0..l).map(|x| (x * 7 + 1) as u8).collect() };
        let ops = match e { 0 => hist::full_ops(&def), 1 => vec![], 2 => hist::alphabet(&def).into_iter().take(1).map(|o| hist::salted(o, 2)).collect(), _ => hist::full_ops(&def) };
        overwrite(ctx, &old, &def, VERS[(i / 5 % 2) as usize], &ops, if e == 3 { 1 } else { 2 })
    }));
    // lengths which could be blocks or pages
    let lens: Vec<usize> = { let top = if th { 160 << 10 } else { 40 << 10 }; let mut v: Vec<usize> = (1..=top / 512).flat_map(|k| [k * 512 - 1, k * 512, k * 512 + 1]).chain((1..=top / 1000).map(|k| k * 1000)).chain((16..=22).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1])).collect(); v.sort(); v.dedup(); v };
    let nl = lens.len();
    f.push(fam("overwrite_blocks", &format!("old files of {} lengths: all multiples of 512 and of 1000, one byte less or more, up to {} bytes, and powers of two up to 4 MiB x 4 definitions x written and closed, defined and closed, dropped at once, opened only", nl, lens[nl - 22]), (nl * 4) as u64, move |i, ctx| {
        let mut d = Digits(i);
        let (k, l) = (d.next(4), lens[d.next(nl)]);
        let def = file_def(k);
        let old = vec![0x5Bu8; l];
        for (ops, end) in [(hist::full_ops(&def), 2), (vec![], 2), (hist::full_ops(&def), 1), (vec![], 0)] { overwrite(ctx, &old, &def, VERS[l % 2], &ops, end)?; }
        Ok(())
    }));
    let kinds = if th { 60 } else { 10 };
    f.push(fam("overwrite_previous", &format!("a file with one variable of {} kinds is replaced by one with another kind (all pairs) x 0..2 records x all, no or the last slab written x closed, dropped, not defined", kinds), (kinds * kinds * 3 * 3 * 3) as u64, move |i, ctx| {
        let mut d = Digits(i);
        let (a, b, r, w, end) = (d.next(kinds), d.next(kinds), d.next(3), d.next(3), d.next(3));
        let mk = |k: usize, r: usize| { let x = dims_abu(r, 4, 3, r); if kinds == 60 { if uses_u(k) && r == 3 { return None; } Some(add_kind(x, "v", k).var("z", Ty::F64, &["a", "b"])) } else { Some(add_small(x, "v", k).var("z", Ty::F64, &["a", "b"])) } };
        let (da, db) = match (mk(a, 2), mk(b, r)) { (Some(x), Some(y)) => (x, y), _ => return Ok(()) };
        let old = encode_file(&da, &full_data(&da, 3), VERS[(i % 2) as usize], 0, true);
        let ops: Vec<Op> = match w { 0 => hist::full_ops(&db), 1 => vec![], _ => hist::alphabet(&db).into_iter().rev().take(1).map(|o| hist::salted(o, 2)).collect() };
        overwrite(ctx, &old, &db, VERS[(i / 2 % 2) as usize], &ops, end)
    }));
    for s in all(t) {
        if !s.data || (s.n > 300_000 && !th) { continue; }
        let gen = s.gen;
        let n = s.n;
        let stride = if !th && n > 40_000 { 5 } else { 1 };
        f.push(fam(&format!("overwritten_{}", s.name), &format!("{}{}: written over the file of another one of them (or of none), completely, partly or not, read again", s.bound, if stride > 1 { " (every fifth one)" } else { "" }), n / stride, move |i, ctx| {
            let i = i * stride;
            let def = match gen(i) { Some(d) => d, None => { ctx.count("skipped: not a valid combination"); return Ok(()) } };
            let old = match gen((i * 7 + 3) % n) { Some(o) => encode_file(&o, &full_data(&o, 2), VERS[(i / 2 % 2) as usize], 0, true), None => vec![] };
            let mut ops = hist::full_ops(&def);
            match i % 4 { 0 | 3 => (), 1 => { ops.truncate(ops.len() / 2) } _ => { ops.reverse(); ops.truncate(1) } }
            overwrite(ctx, &old, &def, VERS[(i / 3 % 2) as usize], &ops, if i % 8 == 3 { 1 } else { 2 })
        }));
    }
    // several files in turn in one directory
    f.push(fam("directory_sequences", "all sequences of up to 4 actions (create_new, open and write, open and drop, read, on 2 paths) in one directory: a model of the directory", nseqs(8, if th { 5 } else { 4 }), move |i, ctx| {
        let seq = seq(i, 8);
        let dir = fresh_dir(ctx, "d");
        let mut model: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
        let names = ["x.nc", "y.nc"];
        for (s, a) in seq.iter().enumerate() {
            let (p, act) = (a % 2, a / 2);
            let path = dir.join(names[p]);
            let def = file_def((s + p) % 4);
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            let ver = VERS[s % 2];
            let m = |e: String| format!("sequence {:?}, step {}: {}", seq, s, e);
            match act {
                0 | 1 => {
                    let r = if act == 0 { FileWriter::create_new(&path) } else { FileWriter::open(&path) };
                    ck!(r.is_ok() == (act == 1 || !model.contains_key(&p)), "{}", m(format!("opening gives {:?}", r.as_ref().err())));
                    if let Ok(mut w) = r {
                        w.set_def(&ds, bind::ver(ver), 0).map_err(|e| m(format!("{:?}", e)))?;
                        for op in hist::full_ops(&def) { hist::exec(&def, &mut w, op).map_err(|e| m(format!("{:?}", e)))?; }
                        w.close().map_err(|e| m(format!("{:?}", e)))?;
                        let mut d = empty_data(&def); for op in hist::full_ops(&def) { hist::apply(&def, &mut d, op); }
                        model.insert(p, encode_file(&def, &d, ver, 0, true));
                    }
                }
                2 => { drop(FileWriter::open(&path).map_err(|e| m(format!("{:?}", e)))?); model.insert(p, vec![]); }
                _ => {
                    let ok = match FileReader::open(&path) { Ok(mut r) => r.read_all_vars().is_ok(), Err(_) => false };
                    ck!(ok == model.get(&p).map(|b| !b.is_empty()).unwrap_or(false), "{}", m(format!("reading {:?}: {}", names[p], ok)));
                }
            }
            let t = tree(&dir);
            let exp: Vec<(PathBuf, &Vec<u8>)> = model.iter().map(|(k, v)| (PathBuf::from(names[*k]), v)).collect();
            ck!(t.len() == exp.len() && t.iter().zip(&exp).all(|(a, b)| *a.0 == b.0 && &a.1.content == b.1), "{}", m(format!("directory: {}", show_tree(&t))));
            ctx.op(1);
        }
        ctx.trace(); ctx.state(&seq);
        Ok(())
    }));
    // reading in any way changes nothing
    f.push(fam("read_only", "9 files x all sequences of up to 3 reads (whole, record, all, failing ones), with another user who may only read: nothing changes", 9 * nseqs(6, 3), move |i, ctx| {
        let (k, s) = ((i % 9) as usize, seq(i / 9, 6));
        let dir = fresh_dir(ctx, "d"); let p = dir.join("x.nc");
        let def = if k < 4 { file_def(k) } else { crate::c_def::sweep_def((k - 4) % 4) };
        let mut b = encode_file(&def, &full_data(&def, k), VERS[k % 2], 0, true);
        if k == 8 { b.truncate(b.len() - b.len() / 4); }
        std::fs::write(&p, &b).unwrap();
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o444)).unwrap();
        std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o555)).unwrap();
        let before = tree(&dir);
        let r = {
            let _u = As::user(65534);
            FileReader::open(&p).map(|mut r| for a in &s { match a { 0 => { let _ = r.read_all_vars(); } 1 => if let Some(v) = def.vars.first() { let _ = r.read_var(&v.name); }, 2 => if let Some(v) = def.vars.last() { let _ = r.read_record(&v.name, 0); }, 3 => { let _ = r.read_var("none"); } 4 => if let Some(v) = def.vars.first() { let _ = r.read_record(&v.name, 99); }, _ => if let Some(v) = def.vars.first() { let _ = r.read_var_f64(&v.name); } } })
        };
        ck!(r.is_ok() || k == 8, "a readable file of another user cannot be opened: {:?}", r.err());
        let t = tree(&dir);
        ck!(t == before, "reading {:?} changes the files: {} -> {}", s, show_tree(&before), show_tree(&t));
        std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o755)).unwrap();
        ctx.op(s.len() as u64 + 1); ctx.trace(); ctx.state(&(k, s));
        Ok(())
    }));
    f
}

// ------------------------------------------------------------------------------------ C16
/// Reads everything and writes it to another file. `None`: the source is not readable.
pub fn copy(src: &Path, dst: &Path, ver: Option<Ver>, how_r: usize, how_w: usize) -> Result<Option<(Def, Vec<Val>, Ver)>, String> {
    let mut r = match FileReader::open(src) { Ok(r) => r, Err(_) => return Ok(None) };
    let names = r.data_set().get_var_names();
    let def = bind::snapshot(r.data_set())?;
    let mut vals: Vec<Val> = vec![];
    match how_r % 3 {
        0 => { let m = match r.read_all_vars() { Ok(m) => m, Err(_) => return Ok(None) }; ck!(m.len() == names.len(), "read_all_vars gives {} variables", m.len()); for n in &names { vals.push(bind::dv_to_val(m.get(n).ok_or("variable missing from read_all_vars")?)); } }
        1 => for n in &names { match bind::read_var(&mut r, n) { Ok(v) => vals.push(v), Err(_) => return Ok(None) } },
        _ => for (k, n) in names.iter().enumerate() { let mut raw = vec![]; for s in 0..def.nslabs(k) { match bind::read_rec(&mut r, n, s) { Ok(v) => raw.extend_from_slice(&v.raw), Err(_) => return Ok(None) } } vals.push(Val::new(def.vars[k].ty, raw)) },
    }
    let (ds, v): (DataSet, _) = r.close();
    let v = ver.unwrap_or(bind::unver(&v));
    let e = |x: WriteError| format!("writing the copy: {:?}", x);
    let mut w = FileWriter::open(dst).map_err(e)?;
    w.set_def(&ds, bind::ver(v), 0).map_err(e)?;
    let order: Vec<usize> = if how_w % 2 == 0 { (0..names.len()).collect() } else { (0..names.len()).rev().collect() };
    for k in order {
        if how_w / 2 % 2 == 0 { bind::write_var(&mut w, &names[k], &vals[k]).map_err(e)?; }
        else { let n = def.slab_len(k) as usize; for s in (0..def.nslabs(k)).rev() { bind::write_rec(&mut w, &names[k], s, &vals[k].slice(s * n, (s + 1) * n)).map_err(e)?; } }
    }
    w.close().map_err(e)?;
    Ok(Some((def, vals, v)))
}
fn read_whole(p: &Path) -> Result<(Def, Vec<Val>, Ver), String> {
    let mut r = FileReader::open(p).map_err(|e| format!("the copy cannot be opened: {:?}", e))?;
    let def = bind::snapshot(r.data_set())?;
    let mut v = vec![];
    for x in &def.vars { v.push(bind::read_var(&mut r, &x.name).map_err(|e| format!("the copy cannot be read: {:?}", e))?); }
    Ok((def, v, bind::unver(&r.version())))
}
fn copy_case(ctx: &mut Ctx, bytes: &[u8], must_read: bool, model: Option<(&Def, &Data)>, how: usize) -> Result<(), String> {
    let (src, a, b, c) = (ctx.path("s.nc"), ctx.path("a.nc"), ctx.path("b.nc"), ctx.path("c.nc"));
    std::fs::write(&src, bytes).map_err(|e| e.to_string())?;
    let sw = |v: Ver| if v == Ver::V1 { Ver::V2 } else { Ver::V1 };
    let (def, vals, ver) = match copy(&src, &a, None, how, how / 3)? { Some(x) => x, None => { ck!(!must_read, "a well-formed file cannot be read"); ctx.count("skipped: not readable"); return Ok(()) } };
    if let Some((d, data)) = model {
        if let Some(x) = bind::diff_def(d, &def) { return Err(x); }
        for v in 0..d.vars.len() { ck!(vals[v] == var_value(d, data, v), "variable {:?} read: expected {:?} got {:?}", d.vars[v].name, var_value(d, data, v), vals[v]); }
    }
    let same = |p: &Path, v: Ver, what: &str| -> Result<(), String> {
        let (d2, v2, ver2) = read_whole(p)?;
        if let Some(x) = bind::diff_def(&def, &d2) { return Err(format!("{}: {}", what, x)); }
        ck!(v == ver2, "{}: version {:?}", what, ver2);
        for k in 0..vals.len() { ck!(vals[k] == v2[k], "{}: variable {:?}: expected {:?} got {:?}{}", what, def.vars[k].name, vals[k], v2[k], bind::where_diff(&vals[k], &v2[k])); }
        Ok(())
    };
    same(&a, ver, "copy")?;
    let ba = std::fs::read(&a).map_err(|e| e.to_string())?;
    // the copy in the other version, then back
    ck!(copy(&a, &b, Some(sw(ver)), how + 1, how / 3 + 1)?.is_some(), "the copy cannot be copied");
    same(&b, sw(ver), "copy of the copy in the other version")?;
    ck!(copy(&b, &c, Some(ver), how + 2, how / 3 + 2)?.is_some(), "the copy of the copy cannot be copied");
    let bc = std::fs::read(&c).map_err(|e| e.to_string())?;
    if let Some(d) = diff_bytes(&ba, &bc) { return Err(format!("the copy of the copy (through the other version) is not the same file: {}", d)); }
    let bb = std::fs::read(&b).map_err(|e| e.to_string())?;
    ck!(copy(&b, &c, None, how, how / 3)?.is_some(), "copy");
    let bc = std::fs::read(&c).map_err(|e| e.to_string())?;
    if let Some(d) = diff_bytes(&bb, &bc) { return Err(format!("the copy of the copy is not the same file: {}", d)); }
    ctx.op(4 * (def.vars.len() as u64 + 2)); ctx.trace(); ctx.state(&(def, ver, how % 12));
    Ok(())
}
pub fn families_c16(t: Tier) -> Vec<Family> {
    let th = t.thorough();
    let mut f = vec![];
    for s in all(t) {
        if !s.data || (s.name == "attr_u8_bytes" && !th) { continue; }
        if s.n > 300_000 && !th { continue; }
        let gen = s.gen;
        let stride = if !th && s.n > 100_000 { 3 } else { 1 };
        f.push(fam(s.name, &format!("{}{}: read, written, read again, and back through the other version (3 ways of reading, 4 of writing)", s.bound, if stride > 1 { " (every third one)" } else { "" }), s.n / stride, move |i, ctx| {
            let def = match gen(i * stride) { Some(d) => d, None => { ctx.count("skipped: not a valid combination"); return Ok(()) } };
            let ver = VERS[(i / 3 % 2) as usize];
            let data = full_data(&def, (i % 200) as usize);
            ctx.sample(|| hist::show(&def, ver, 0, &[]));
            let special = def.special_case() && def.numrecs() >= 2;
            let _ = special;
            copy_case(ctx, &encode_file(&def, &data, ver, 0, true), true, Some((&def, &data)), (i % 12) as usize).map_err(|e| format!("{}: {}", hist::show(&def, ver, 0, &[]), e))
        }));
    }
    // foreign layouts
    let nk = if th { 10 } else { 8 };
    f.push(fam("foreign_layouts", &format!("pairs of {} kinds x 0..2 records x both orders x gaps x records first x indeterminate fields x empty lists as tags", nk), (nk * nk * 3 * 2 * 2 * 2 * 2 * 2 * 2) as u64, move |i, ctx| {
        let mut d = Digits(i);
        let (k1, k2, r, rev, gap, rf, ind, vs, tags) = (d.next(nk), d.next(nk), d.next(3), d.next(2) == 1, d.next(2) * 60, d.next(2) == 1, d.next(2) == 1, d.next(2) == 1, d.next(2) * 15);
        let def = add_small(add_small(dims_abu(1, 3, 5, r), "v", k1), "w", k2);
        let mut l = c_read::canonical(&def);
        if rev { l.fixed.reverse(); l.rec.reverse(); }
        if ind && (rf || l.rec.is_empty()) { return Ok(()); }
        l.head_gap = gap; l.fixed_gap = gap; l.rec_gap = gap; l.records_first = rf; l.indet = ind; l.vsize_indet = vs; l.tags = tags; l.gap_byte = 0xAB; l.pad = Some(0x77);
        let data = full_data(&def, (i % 50) as usize);
        let ver = VERS[(i % 2) as usize ^ (i / 3 % 2) as usize];
        let (bytes, _, _) = c_read::encode_layout(&def, &data, ver, &l);
        ctx.sample(|| format!("{} {:?}", hist::show(&def, ver, 0, &[]), l));
        // (records of a single variable: whatever is read must be copied; what is read is the matter of C05)
        let special = def.special_case();
        copy_case(ctx, &bytes, !special, if special { None } else { Some((&def, &data)) }, (i % 12) as usize).map_err(|e| format!("{} layout {:?}: {}", hist::show(&def, ver, 0, &[]), l, e))
    }));
    f.push(fam("special_values", &format!("pairs of 10 kinds x 0..2 records x {}", SPECIAL_ELEMS), 100 * 3 * SPECIALS as u64, move |i, ctx| {
        let mut d = Digits(i);
        let (a, b, r, c) = (d.next(10), d.next(10), d.next(3), d.next(SPECIALS));
        let def = add_small(add_small(dims_abu(1, 3, 5, r), "v", a), "w", b);
        let data = full_data(&def, SPECIAL + c);
        copy_case(ctx, &encode_file(&def, &data, VERS[(i / 3 % 2) as usize], 0, true), true, Some((&def, &data)), (i / 5 % 12) as usize).map_err(|e| format!("{} class {}: {}", hist::show(&def, Ver::V1, 0, &[]), c, e))
    }));
    let pats = bit_patterns(true);
    let n = pats.len() as u64;
    f.push(fam("bit_patterns", &format!("{} vectors covering bit patterns, as data and attribute", n), n * 2, move |i, ctx| {
        let val = &pats[(i / 2) as usize];
        let def = if i % 2 == 0 { Def::default().dim("n", val.len()).var("v", val.ty, &["n"]).vattr("x", val.clone()) } else { Def::default().unlim("u", 1).dim("n", val.len()).attr("g", val.clone()).var("v", val.ty, &["u", "n"]).var("w", Ty::I8, &["u"]) };
        let mut data = full_data(&def, 1);
        data[0][0] = Some(val.raw.clone());
        copy_case(ctx, &encode_file(&def, &data, VERS[(i % 2) as usize], 0, true), true, Some((&def, &data)), (i % 12) as usize)
    }));
    f
}
