//! C22: errors say what is wrong.
use crate::bind;
use crate::hist;
use crate::ioshim::{self, Fault, Shim};
use crate::model::*;
use crate::runner::*;
use crate::spaces::*;
use netcdf3::error::parse_header_error::{InvalidBytes, ParseHeaderErrorKind as K};
use netcdf3::{FileReader, FileWriter, InvalidDataSet as E, ReadError, WriteError};

/// Why a file must be refused.
#[derive(Debug, Clone)]
pub enum Why {
    Nothing,
    /// the field at `pos` of `len` bytes breaks one of these rules (`cut`: the file may end inside it; `bytes`: what is there may break the rule)
    Field { kinds: Vec<K>, pos: usize, cut: bool, bytes: bool },
    /// the first offending element of the definition breaks these rules
    Def(Vec<E>),
    /// the sizes of the data do not fit, or the number of records cannot be computed
    Sizes, Records,
}
struct W<'a> { b: &'a [u8], p: usize }
type R<T> = Result<T, Why>;
impl<'a> W<'a> {
    fn bad(&self, kinds: &[K], pos: usize) -> Why { Why::Field { kinds: kinds.to_vec(), pos, cut: false, bytes: true } }
    fn cut(&self, k: K, pos: usize, bytes: bool) -> Why { Why::Field { kinds: vec![k], pos, cut: true, bytes } }
    fn left(&self) -> usize { self.b.len() - self.p }
    fn word(&mut self, k: K) -> R<u32> {
        if self.left() < 4 { return Err(self.cut(k, self.p, false)); }
        let x = u32::from_be_bytes(self.b[self.p..self.p + 4].try_into().unwrap());
        self.p += 4; Ok(x)
    }
    fn count(&mut self) -> R<usize> { let x = self.word(K::NonNegativeI32)?; if x > i32::MAX as u32 { return Err(self.bad(&[K::NonNegativeI32], self.p - 4)); } Ok(x as usize) }
    fn pad(&mut self, n: usize) -> R<()> {
        let k = (4 - n % 4) % 4;
        if self.left() < k { let nz = self.b[self.p..].iter().any(|x| *x != 0); return Err(self.cut(K::ZeroPadding, self.p, nz)); }
        if self.b[self.p..self.p + k].iter().any(|x| *x != 0) { return Err(self.bad(&[K::ZeroPadding], self.p)); }
        self.p += k; Ok(())
    }
    fn name(&mut self) -> R<String> {
        let n = self.count()?;
        if self.left() < n { let bad = matches!(std::str::from_utf8(&self.b[self.p..]), Err(e) if e.error_len().is_some()); return Err(self.cut(K::Utf8, self.p, bad)); }
        let s = match std::str::from_utf8(&self.b[self.p..self.p + n]) { Ok(s) => s.to_string(), Err(_) => return Err(self.bad(&[K::Utf8], self.p)) };
        self.p += n; self.pad(n)?; Ok(s)
    }
    fn ty(&mut self) -> R<Ty> {
        let p = self.p;
        // a type is a non-negative number
        if self.left() < 4 { return Err(Why::Field { kinds: vec![K::NonNegativeI32, K::DataType], pos: p, cut: true, bytes: false }); }
        let x = self.word(K::DataType)?;
        if x > i32::MAX as u32 { return Err(self.bad(&[K::NonNegativeI32, K::DataType], p)); }
        Ty::from_code(x).ok_or_else(|| self.bad(&[K::DataType], p))
    }
    fn list(&mut self, tag: u32, k: K) -> R<usize> {
        let t = tag.to_be_bytes();
        let l = &self.b[self.p..];
        let absent = l.iter().take(8).all(|x| *x == 0);
        let present = l.iter().zip(t.iter()).all(|(a, b)| a == b);
        if l.len() >= 4 && present { self.p += 4; return self.count(); }
        if l.len() >= 8 && absent { self.p += 8; return Ok(0); }
        if absent || present { return Err(self.cut(k, self.p, false)); }
        // neither: the tag, or the count of an absent list, is wrong
        let kinds = vec![k.clone()];
        Err(Why::Field { kinds, pos: self.p, cut: l.len() < 4, bytes: true })
    }
    fn attrs(&mut self) -> R<Vec<Attr>> {
        let n = self.list(0x0C, K::AttrTag)?;
        let mut r = vec![];
        for _ in 0..n {
            let name = self.name()?; let ty = self.ty()?; let len = self.count()?;
            if self.left() < len * ty.size() { return Err(self.cut(K::DataElements, self.p, false)); }
            let raw = self.b[self.p..self.p + len * ty.size()].to_vec();
            self.p += raw.len(); self.pad(raw.len())?;
            r.push(Attr { name, val: Val::new(ty, raw) });
        }
        Ok(r)
    }
}
/// Walks through the file in the order of the specification.
pub fn diagnose(b: &[u8]) -> Why { match walk(b) { Ok(()) => Why::Nothing, Err(w) => w } }
fn walk(b: &[u8]) -> R<()> {
    let mut c = W { b, p: 0 };
    for i in 0..3 { match b.get(i) { None => return Err(c.cut(K::MagicWord, 0, false)), Some(x) if *x != b"CDF"[i] => return Err(Why::Field { kinds: vec![K::MagicWord], pos: 0, cut: b.len() < 3, bytes: true }), _ => {} } }
    c.p = 3;
    let ver = match b.get(3) { None => return Err(c.cut(K::VersionNumber, 3, false)), Some(1) => Ver::V1, Some(2) => Ver::V2, Some(_) => return Err(c.bad(&[K::VersionNumber], 3)) };
    c.p = 4;
    let nr = c.word(K::NonNegativeI32)?;
    if nr > i32::MAX as u32 && nr != u32::MAX { return Err(c.bad(&[K::NonNegativeI32], 4)); }
    let n = c.list(0x0A, K::DimTag)?;
    let mut dims = vec![];
    for _ in 0..n { let name = c.name()?; dims.push((name, c.count()?)); }
    let gattrs = c.attrs()?;
    let n = c.list(0x0B, K::VarTag)?;
    let mut vars = vec![];
    for _ in 0..n {
        let name = c.name()?;
        let nd = c.count()?;
        let mut ids = vec![];
        for _ in 0..nd { ids.push(c.count()?); }
        let at = c.attrs()?; let ty = c.ty()?;
        c.word(K::NonNegativeI32)?;
        let p = c.p;
        let begin = match ver {
            Ver::V1 => { let x = c.word(K::Offset)?; if x > i32::MAX as u32 { return Err(c.bad(&[K::Offset], p)); } x as u64 }
            Ver::V2 => { if c.left() < 8 { return Err(c.cut(K::Offset, p, c.left() > 0 && b[p] >= 0x80)); } let x = u64::from_be_bytes(b[p..p + 8].try_into().unwrap()); c.p += 8; if x > i64::MAX as u64 { return Err(c.bad(&[K::Offset], p)); } x }
        };
        vars.push((name, ids, at, ty, begin));
    }
    // the definition, element after element
    let mut def = Def::default();
    let some = |v: Vec<E>| if v.is_empty() { Ok(()) } else { Err(Why::Def(v)) };
    for (name, size) in &dims {
        let mut v = vec![];
        if def.dims.iter().any(|d| d.name == *name) { v.push(E::DimensionAlreadyExists(name.clone())); }
        if !name_ok(name) { v.push(E::DimensionNameNotValid(name.clone())); }
        if *size == 0 { if let Some(u) = def.dims.iter().find(|d| d.unlim) { v.push(E::UnlimitedDimensionAlreadyExists(u.name.clone())); } }
        if *size > i32::MAX as usize - 3 { v.push(E::MaximumFixedDimensionSizeExceeded { dim_name: name.clone(), get: *size }); }
        some(v)?;
        def.dims.push(Dim { name: name.clone(), size: if *size == 0 { if nr == u32::MAX { 0 } else { nr as usize } } else { *size }, unlim: *size == 0 });
    }
    for a in &gattrs {
        let mut v = vec![];
        if def.attrs.iter().any(|x| x.name == a.name) { v.push(E::GlobalAttributeAlreadyExists(a.name.clone())); }
        if !name_ok(&a.name) { v.push(E::GlobalAttributeNameNotValid(a.name.clone())); }
        some(v)?;
        def.attrs.push(a.clone());
    }
    for (name, ids, at, ty, _) in &vars {
        let mut v = vec![];
        let lost: Vec<usize> = ids.iter().copied().filter(|i| *i >= def.dims.len()).collect();
        if !lost.is_empty() { v.push(E::DimensionIdsNotFound { defined: (0..def.dims.len()).collect(), searched: ids.clone(), not_found: lost.clone() }); }
        if def.vars.iter().any(|x| x.name == *name) { v.push(E::VariableAlreadyExists(name.clone())); }
        if !name_ok(name) { v.push(E::VariableNameNotValid(name.clone())); }
        if lost.is_empty() {
            let all: Vec<String> = ids.iter().map(|i| def.dims[*i].name.clone()).collect();
            if let Some(u) = ids.iter().skip(1).find(|i| def.dims[**i].unlim) { v.push(E::UnlimitedDimensionMustBeDefinedFirst { var_name: name.clone(), unlim_dim_name: def.dims[*u].name.clone(), get_dim_names: all.clone() }); }
            if (1..ids.len()).any(|i| ids[..i].contains(&ids[i])) { v.push(E::DimensionsUsedMultipleTimes { var_name: name.clone(), get_dim_names: all }); }
        }
        if ids.len() > 1024 { v.push(E::MaximumDimensionsPerVariableExceeded { var_name: name.clone(), num_dims: ids.len() }); }
        some(v)?;
        let mut var = Var { name: name.clone(), ty: *ty, dims: ids.clone(), attrs: vec![] };
        for a in at {
            let mut v = vec![];
            if var.attrs.iter().any(|x| x.name == a.name) { v.push(E::VariableAttributeAlreadyExists { var_name: name.clone(), attr_name: a.name.clone() }); }
            if !name_ok(&a.name) { v.push(E::VariableAttributeNameNotValid { var_name: name.clone(), attr_name: a.name.clone() }); }
            some(v)?;
            var.attrs.push(a.clone());
        }
        def.vars.push(var);
    }
    if !sizes_ok(&def) { return Err(Why::Sizes); }
    if nr == u32::MAX {
        if let Some(first) = (0..def.vars.len()).filter(|v| def.is_rec(*v)).map(|v| vars[v].4).min() {
            let room = (b.len() as u64).checked_sub(first);
            // what a single record variable's records take is a known finding of C04/C05: either way of counting
            let rec = def.recsize_padded();
            if room.map(|r| r as u128 % rec.max(1) != 0).unwrap_or(true) { return Err(Why::Records); }
        }
    }
    Ok(())
}
pub fn judge(ctx: &mut Ctx, b: &[u8]) -> Result<(), String> {
    let why = diagnose(b);
    let p = ctx.path("x.nc");
    std::fs::write(&p, b).map_err(|e| e.to_string())?;
    let res = FileReader::open(&p).map(|_| ());
    ctx.op(1); ctx.trace();
    verdict(ctx, b, &why, &res).map_err(|e| format!("{}\ncause: {:?}\nbytes ({}): {}", e, why, b.len(), crate::c_bytes::hex(b)))
}
fn verdict(ctx: &mut Ctx, b: &[u8], why: &Why, res: &Result<(), ReadError>) -> Result<(), String> {
    match why {
        Why::Nothing => { ctx.count("accepted"); ck!(res.is_ok(), "a file without defect is refused: {:?}", res); }
        Why::Field { kinds, pos, cut, bytes } => {
            ctx.state(&(format!("{:?}", kinds), cut, bytes)); ctx.count(&format!("{:?}{}", kinds[0], if *cut { " (file ends)" } else { "" }));
            let e = match res { Err(ReadError::ParseHeader(e)) => e, x => return Err(format!("{:?} instead of the error of the field at byte {}", x.as_ref().err(), pos)) };
            ck!(kinds.contains(&e.kind), "the kind of the error is {:?} instead of {:?} (field at byte {})", e.kind, kinds, pos);
            match &e.invalid_bytes {
                InvalidBytes::Incomplete(_) => ck!(*cut, "the header is said to be incomplete, but the field at byte {} is there", pos),
                InvalidBytes::Bytes(v) => {
                    ck!(*bytes, "the field at byte {} is said to be invalid, but the file ends inside it", pos);
                    ck!(!v.is_empty() && b[*pos..].starts_with(v), "the invalid bytes {:02x?} are not those at byte {}", &v[..v.len().min(16)], pos);
                }
            }
            ck!(matches!(res, Err(x) if x.header_is_incomplete() == matches!(e.invalid_bytes, InvalidBytes::Incomplete(_))), "header_is_incomplete() disagrees with the error");
        }
        Why::Def(l) => {
            ctx.state(&format!("{:?}", std::mem::discriminant(&l[0]))); ctx.count("the definition breaks a rule");
            match res { Err(ReadError::DataSet(e)) if l.contains(e) => {} x => return Err(format!("{:?} instead of {:?}", x.as_ref().err(), l)) }
        }
        Why::Sizes => { ctx.count("sizes"); ck!(!matches!(res, Err(ReadError::ParseHeader(_)) | Err(ReadError::DataSet(_)) | Err(ReadError::IOErrorKind(_))), "{:?} for sizes which do not fit", res); }
        Why::Records => { ctx.count("number of records"); ck!(matches!(res, Ok(()) | Err(ReadError::ComputationNumberOfRecords)), "{:?} for an indeterminate number of records", res); }
    }
    Ok(())
}

/// A header in pieces, with defects: (place, what) pairs. The first defect in the order of the file must be reported.
const NDEF: usize = 30;
/// Places are in the order in which defects must be reported: encoding defects first, in file order, then those of the definition.
fn broken(defects: &[usize], pad: usize, ver: Ver) -> Vec<u8> {
    let h = |k: usize| defects.contains(&k);
    let mut b: Vec<u8> = vec![];
    b.extend(if h(0) { b"CDX" } else { b"CDF" });
    b.push(if h(1) { 5 } else if ver == Ver::V1 { 1 } else { 2 });
    put_u32(&mut b, if h(2) { 0x8000_0000 } else { 2 });
    let name = |b: &mut Vec<u8>, n: &[u8], len_bad: bool, pad_bad: bool| { put_u32(b, if len_bad { 0xFFFF_FFF0 } else { n.len() as u32 }); b.extend_from_slice(n); let mut k = 0u8; while b.len() % 4 != 0 { b.push(if pad_bad { 1 + k } else { 0 }); k += 1; } };
    // dimensions: u (unlimited), x, y
    put_u32(&mut b, if h(3) { 11 } else { 10 });
    put_u32(&mut b, if h(4) { 0xFFFF_FFFF } else { 3 });
    name(&mut b, b"u", h(5), h(6)); put_u32(&mut b, 0);
    name(&mut b, if h(18) { b"u" } else { b"x" }, false, false); put_u32(&mut b, 3);
    name(&mut b, if h(7) { &[0xC3, 0x28] } else if h(19) { b"y/" } else { b"yy" }, false, false); put_u32(&mut b, if h(8) { 0x8000_0003 } else if h(20) { 0 } else { 2 });
    // global attributes: the padding text, then another
    put_u32(&mut b, if h(9) { 10 } else { 12 }); put_u32(&mut b, 2);
    name(&mut b, b"pad", false, false); put_u32(&mut b, 2); put_u32(&mut b, pad as u32);
    for i in 0..pad { b.push(b'a' + (i % 26) as u8); }
    let mut k = 0u8; while b.len() % 4 != 0 { b.push(if h(10) { 9 + k } else { 0 }); k += 1; }
    name(&mut b, if h(21) { b"pad" } else if h(22) { b"\x01" } else { b"g" }, false, false);
    put_u32(&mut b, if h(11) { 7 } else { 3 }); put_u32(&mut b, if h(12) { 0xC000_0000 } else { 1 }); b.extend([0, 5]); b.extend(if h(13) { [0, 1] } else { [0, 0] });
    // variables
    put_u32(&mut b, if h(14) { 12 } else { 11 }); put_u32(&mut b, 2);
    name(&mut b, if h(23) { b" v" } else { b"v" }, false, false);
    let ids: Vec<u32> = if h(24) { vec![0, 7] } else if h(25) { vec![1, 0] } else if h(26) { vec![0, 1, 1] } else { vec![0, 1] };
    put_u32(&mut b, ids.len() as u32); for i in &ids { put_u32(&mut b, *i); }
    put_u32(&mut b, 12); put_u32(&mut b, 2);
    for n in [b"a", if h(27) { b"a" } else if h(28) { b"/" } else { b"b" }] { name(&mut b, n, false, false); put_u32(&mut b, 2); put_u32(&mut b, 0); }
    put_u32(&mut b, 3); put_u32(&mut b, 8);
    let off = |b: &mut Vec<u8>, bad: bool, o: u64| match ver { Ver::V1 => put_u32(b, o as u32 | if bad { 1 << 31 } else { 0 }), Ver::V2 => b.extend((o | if bad { 1 << 63 } else { 0 }).to_be_bytes()) };
    off(&mut b, h(15), 9000);
    name(&mut b, if h(29) { b"v" } else { b"w" }, false, false); put_u32(&mut b, 1); put_u32(&mut b, 2); put_u32(&mut b, 0); put_u32(&mut b, 0);
    put_u32(&mut b, if h(16) { 0 } else { 6 }); put_u32(&mut b, 16); off(&mut b, h(17), 8000);
    b
}

/// A call made by a scenario: its error, if any.
fn io_kinds(f: Fault) -> Vec<std::io::ErrorKind> {
    match f {
        Fault::Errno(e) => vec![std::io::Error::from_raw_os_error(e).kind()],
        Fault::Zero => vec![std::io::ErrorKind::UnexpectedEof, std::io::ErrorKind::WriteZero],
        _ => vec![],
    }
}
const ERRNOS: [i32; 16] = [libc::EIO, libc::ENOSPC, libc::EACCES, libc::EPERM, libc::EINVAL, libc::ENXIO, libc::EFBIG, libc::EDQUOT, libc::EBADF, libc::EAGAIN, libc::ENOMEM, libc::EROFS, libc::ETIMEDOUT, libc::EPIPE, libc::ESTALE, libc::EISDIR];
fn rerr(e: &ReadError) -> Result<std::io::ErrorKind, String> { match e { ReadError::IOErrorKind(k) => Ok(*k), x => Err(format!("{:?}", x)) } }
fn werr(e: &WriteError) -> Result<std::io::ErrorKind, String> { match e { WriteError::IOErrorKind(k) => Ok(*k), x => Err(format!("{:?}", x)) } }
fn schemas() -> Vec<Def> {
    vec![
        dims_abu(1, 2, 3, 2).var("f", Ty::I16, &["b"]).var("r", Ty::I8, &["u", "a"]).vattr("q", Val::pattern(Ty::U8, 3, 1)).var("s", Ty::F64, &["u"]),
        dims_abu(0, 2, 1, 3).var("r", Ty::I16, &["u"]).var("q", Ty::U8, &["u", "a"]).attr("g", Val::pattern(Ty::U8, 1100, 4)),
        dims_abu(3, 3, 2, 0).var("f", Ty::U8, &["a"]).var("g", Ty::F32, &["b"]).var("h", Ty::I8, &[]),
        Def::default().attr("only", Val::pattern(Ty::I16, 3, 1)),
    ]
}
/// The errors of a run under a shim: (call, error kind or other error), with the ordinals of the system calls before it and after it.
type Errs = Vec<(String, Result<std::io::ErrorKind, String>)>;
fn read_run(p: &std::path::Path, s: &mut Shim, typed: bool) -> Errs {
    let mut out: Errs = vec![];
    ioshim::with(s, || {
        let mut r = match FileReader::open(p) { Ok(r) => r, Err(e) => { out.push(("open".into(), rerr(&e))); return } };
        let names = r.data_set().get_var_names();
        let n = r.data_set().num_records().unwrap_or(1);
        for v in &names {
            let t = bind::ty(&r.data_set().var_data_type(v).unwrap());
            let x = if typed { bind::read_var_typed(&mut r, v, t) } else { bind::read_var(&mut r, v) };
            if let Err(e) = x { out.push((format!("read_var({:?})", v), rerr(&e))); }
            let n = if r.data_set().is_record_var(v) == Some(true) { n } else { 1 };
            for i in 0..n { if let Err(e) = bind::read_rec(&mut r, v, i) { out.push((format!("read_record({:?},{})", v, i), rerr(&e))); } }
        }
        if let Err(e) = r.read_all_vars() { out.push(("read_all_vars".into(), rerr(&e))); }
    });
    out
}
fn write_run(p: &std::path::Path, def: &Def, ver: Ver, create: bool, ops: &[hist::Op], s: &mut Shim) -> Errs {
    let mut out: Errs = vec![];
    let ds = match bind::build(def) { Ok(d) => d, Err(e) => return vec![("build".into(), Err(format!("{:?}", e)))] };
    ioshim::with(s, || {
        let mut w = match if create { FileWriter::create_new(p) } else { FileWriter::open(p) } { Ok(w) => w, Err(e) => { out.push(("open".into(), werr(&e))); return } };
        if let Err(e) = w.set_def(&ds, bind::ver(ver), hist::hm(&(def, ver, ops))) { out.push(("set_def".into(), werr(&e))); if let Err(e) = w.set_def(&ds, bind::ver(ver), hist::hm(&(def, ver, ops))) { out.push(("set_def again".into(), werr(&e))); return } }
        for op in ops { if let Err(e) = hist::exec(def, &mut w, *op) { out.push((format!("{:?}", op), werr(&e))); } }
        if let Err(e) = w.close() { out.push(("close".into(), werr(&e))); }
    });
    out
}

pub fn families(t: Tier) -> Vec<Family> {
    let th = t.thorough();
    let mut f: Vec<Family> = crate::c_bytes::families_c06_with(t, judge).into_iter().filter(|x| x.name != "conversions" && x.name != "overlapping" && x.name != "three_bytes" && x.name != "huge_sizes").map(|mut x| { x.name = format!("any_{}", x.name); x }).collect();
    // truncations of everything
    {
        let bs = crate::c_bytes::base_files();
        let sizes: Vec<u64> = bs.iter().map(|b| b.1.len() as u64 + 1).collect();
        f.push(fam("truncations", &format!("every prefix of {} base files", bs.len()), sizes.iter().sum(), move |i, ctx| {
            let (mut p, mut k) = (i, 0);
            while p >= sizes[k] { p -= sizes[k]; k += 1; }
            judge(ctx, &bs[k].1[..p as usize]).map_err(|e| format!("{} cut at {}\n{}", bs[k].0, p, e))
        }));
    }
    // pairs of defects, at all distances from the blocks in which the header is read
    let mut sets: Vec<(usize, usize, usize, usize)> = vec![];
    for a in 0..NDEF { for b in a..NDEF { for c in b..NDEF { for l in 0..48 { if l <= 1 || th || a == b || b == c { sets.push((a, b, c, l)); } } } } }
    f.push(fam("defect_sets", &format!("all pairs of {} defects in one header x 48 header lengths around the blocks of 1024 bytes, all triples x {} of them: the first one is reported", NDEF, if th { 48 } else { 2 }), sets.len() as u64, move |i, ctx| {
        let (a, b, c, l) = sets[i as usize];
        let pad = [1usize, 2, 3, 5][l % 4] + [0, 500, 760, 780, 800, 820, 840, 880, 1900, 1910, 1930, 5000][l / 4];
        ctx.sample(|| format!("defects {} {} {} pad {}", a, b, c, pad));
        judge(ctx, &broken(&[a, b, c], pad, VERS[(a + b + c + l) % 2])).map_err(|e| format!("defects {} {} {}, padding {}\n{}", a, b, c, pad, e))
    }));
    f.push(fam("defects_at_blocks", &format!("each of {} defects x 1400 header lengths (every offset against the blocks in which the header is read) x 2 versions", NDEF), (NDEF * 1400 * 2) as u64, move |i, ctx| {
        let mut d = Digits(i);
        let (a, ver, l) = (d.next(NDEF), VERS[d.next(2)], d.next(1400));
        judge(ctx, &broken(&[a], l, ver)).map_err(|e| format!("defect {}, padding {}\n{}", a, l, e))
    }));
    let mut cuts: Vec<(usize, usize, usize)> = vec![];
    for a in 0..NDEF { for b in a..NDEF { for l in [1usize, 790, 1850] { if l == 1 || th || a == b { cuts.push((a, b, l)); } } } }
    f.push(fam("defects_cut", &format!("each of {} defects x 3 header lengths and each pair, the file cut at every byte outside the long text", NDEF), cuts.len() as u64, move |i, ctx| {
        let (a, b, l) = cuts[i as usize];
        let x = broken(&[a, b], l, VERS[(a + b) % 2]);
        for cut in 0..x.len() { if l > 100 && cut > 120 && cut < l { continue; } judge(ctx, &x[..cut]).map_err(|e| format!("defects {} {}, padding {}, cut at {}\n{}", a, b, l, cut, e))?; }
        Ok(())
    }));
    // many items, the n-th is wrong
    let maxn = if th { 300 } else { 130 };
    f.push(fam("nth_item", &format!("lists of {} dimensions, attributes or variables of which the n-th (every n) breaks a rule of the encoding or of the definition, the last one breaking another", maxn), (maxn * 3 * 6) as u64, move |i, ctx| {
        let mut d = Digits(i);
        let (list, what, n) = (d.next(3), d.next(6), d.next(maxn));
        let mut b = b"CDF\x02\0\0\0\0".to_vec();
        let nm = |b: &mut Vec<u8>, s: &[u8], bad: bool| { put_u32(b, s.len() as u32); b.extend_from_slice(s); while b.len() % 4 != 0 { b.push(bad as u8); } };
        let names = |k: usize| -> Vec<u8> { if k == n { match what { 0 => b"n0".to_vec(), 1 => b"a/b".to_vec(), 2 => vec![0xFF, 0xFE], _ => format!("n{}", k).into_bytes() } } else if k + 1 == maxn { b"/last".to_vec() } else { format!("n{}", k).into_bytes() } };
        for l in 0..3 {
            if l != list { b.extend([0; 8]); continue; }
            put_u32(&mut b, [10, 12, 11][l]); put_u32(&mut b, maxn as u32);
            for k in 0..maxn {
                nm(&mut b, &names(k), k == n && what == 3);
                let neg = k == n && what == 4; let ty = if k == n && what == 5 { 9 } else { 1 };
                match l { 0 => put_u32(&mut b, if neg { 0x8000_0000 } else { k as u32 + 1 }), 1 => { put_u32(&mut b, ty); put_u32(&mut b, if neg { 0xF000_0000 } else { 0 }) } _ => { put_u32(&mut b, if neg { 0xFFFF_FFFF } else { 0 }); b.extend([0; 8]); put_u32(&mut b, ty); put_u32(&mut b, 4); b.extend([0, 0, 0, 0, 0, 1, 0, 0]) } }
            }
        }
        judge(ctx, &b).map_err(|e| format!("list {} what {} n {}\n{}", list, what, n, e))
    }));
    // missing data
    {
        let cases: Vec<(Def, Ver)> = schemas().into_iter().take(3).flat_map(|d| VERS.iter().map(move |v| (d.clone(), *v)).collect::<Vec<_>>()).collect();
        let cuts: Vec<(usize, usize)> = cases.iter().enumerate().flat_map(|(k, (d, v))| (d.header_len(*v)..=encode_file(d, &full_data(d, 2), *v, 0, true).len()).map(move |c| (k, c)).collect::<Vec<_>>()).collect();
        f.push(fam("missing_data", "6 files cut at every byte of their data: every read which fails reports an unexpected end of file", cuts.len() as u64, move |i, ctx| {
            let (def, ver) = &cases[cuts[i as usize].0];
            let b = encode_file(def, &full_data(def, 2), *ver, 0, true);
            let cut = cuts[i as usize].1;
            let p = ctx.path("c.nc");
            std::fs::write(&p, &b[..cut]).map_err(|e| e.to_string())?;
            for typed in [false, true] {
                let errs = read_run(&p, &mut Shim::default(), typed);
                for (c, e) in &errs { ck!(*e == Ok(std::io::ErrorKind::UnexpectedEof), "{}: {:?} instead of an unexpected end of file (cut at {})\n{}", c, e, cut, hist::show(def, *ver, 0, &[])); }
                ck!(errs.is_empty() || cut < b.len(), "cut at {} of {}: {} errors\n{}", cut, b.len(), errs.len(), hist::show(def, *ver, 0, &[]));
                ctx.op(errs.len() as u64 + 1);
            }
            ctx.state(&i); ctx.trace();
            Ok(())
        }));
    }
    // errors of the operating system
    {
        let nd = schemas().len();
        f.push(fam("os_errors_reading", "4 schemas x 2 versions x 2 ways: each of 16 errors (or the end of the file) at every read/seek, at every open/stat, once or from there on: the call reports it with its own kind, and no other call fails", (nd * 2 * 2 * 17) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (def, ver, typed, e) = (schemas()[d.next(nd)].clone(), VERS[d.next(2)], d.next(2) == 1, d.next(17));
            let fault = if e == 16 { Fault::Zero } else { Fault::Errno(ERRNOS[e]) };
            let p = ctx.path("r.nc");
            std::fs::write(&p, encode_file(&def, &full_data(&def, 3), ver, 0, true)).map_err(|e| e.to_string())?;
            let m = |k: u64, x: String| format!("{}\n{:?} at call {}: {}", hist::show(&def, ver, 0, &[]), fault, k, x);
            let (mut k, mut meta) = (0u64, false);
            loop {
                let mut done = true;
                for from in [false, true] {
                    let mut s = Shim::default();
                    if meta { match fault { Fault::Errno(e) if !from => s.meta_plan = Some((k, e)), _ => continue } } else if from { s.from = Some((k, fault)) } else { s.plan = vec![(k, fault)] }
                    let errs = read_run(&p, &mut s, typed);
                    if s.hits > 0 { done = false; }
                    ctx.state(&(i, k, meta, from)); ctx.op(errs.len() as u64 + 1); ctx.trace();
                    for (c, x) in &errs { ck!(matches!(x, Ok(q) if io_kinds(fault).contains(q)), "{}", m(k, format!("{} reports {:?} instead of {:?}", c, x, io_kinds(fault)))); }
                    if !from { ck!(errs.len() <= s.hits as usize, "{}", m(k, format!("several calls fail: {:?}", errs))); }
                    if !errs.is_empty() { ctx.count("errors reported") }
                }
                k += 1;
                if done { if meta { break; } meta = true; k = 0; }
            }
            Ok(())
        }));
        // late blocks of long headers, late calls of long histories
        let lens: Vec<usize> = if th { vec![3000, 9000, 20_000, 33_000, 50_000, 66_000, 140_000, 270_000] } else { vec![9000, 33_000, 66_000, 140_000] };
        let nl = lens.len();
        f.push(fam("late_errors_opening", &format!("headers of about {:?} bytes (a long attribute, many attributes, many variables): each of 16 errors (or the end of the file) at every read/seek of the opening, once or from there on: the call reports it with its own kind", lens), (nl * 3 * 17) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (e, kind, len) = (d.next(17), d.next(3), lens[d.next(nl)]);
            let mut def = Def::default().dim("a", 2).unlim("u", 2);
            match kind { 0 => def = def.attr("g", Val::pattern(Ty::U8, len, 1)), 1 => for j in 0..(len / 140).min(500) { def = def.attr(&format!("attribute {}", j), Val::pattern(Ty::F64, 12 + len / 100_000, j)) }, _ => for j in 0..(len / 110).min(600) { def = def.var(&format!("variable {} of a rather long name{}", j, "_".repeat(len / 3000)), TYS[j % 6], &["a"]) } }
            let def = def.var("last", Ty::I16, &["u", "a"]);
            let (fault, ver, p) = (if e == 16 { Fault::Zero } else { Fault::Errno(ERRNOS[e]) }, VERS[e % 2], ctx.path("r.nc"));
            std::fs::write(&p, encode_file(&def, &full_data(&def, 3), ver, 0, true)).map_err(|e| e.to_string())?;
            let m = |k: u64, x: String| format!("header of {} bytes (kind {}), {:?} at call {}: {}", def.header_len(ver), kind, fault, k, x);
            let mut k = 0;
            loop {
                let mut done = true;
                for from in [false, true] {
                    let mut s = Shim::default();
                    if from { s.from = Some((k, fault)) } else { s.plan = vec![(k, fault)] }
                    let r = ioshim::with(&mut s, || FileReader::open(&p).map(|r| drop(r)));
                    if s.hits > 0 { done = false; }
                    ctx.state(&(i, k, from)); ctx.op(1); ctx.trace();
                    match r { Ok(()) => {} Err(x) => { ctx.count("errors reported"); let x = rerr(&x); ck!(s.hits > 0 && matches!(&x, Ok(q) if io_kinds(fault).contains(q)), "{}", m(k, format!("open reports {:?} instead of {:?}", x, io_kinds(fault)))); } }
                }
                k += 1;
                if done { break; }
            }
            Ok(())
        }));
        f.push(fam("late_errors", &format!("4 histories of 150 or 300 writes of records and as many reads: each of 16 errors (or the end of the file) at one in {} of the calls, and at the last ones: the call reports it with its own kind, and no other call fails", if th { 2 } else { 11 }), 4 * 17, move |i, ctx| {
            let mut d = Digits(i);
            let (e, h) = (d.next(17), d.next(4));
            let n = [150, 300][h % 2];
            let def = if h < 2 { dims_abu(0, 2, 1, n) } else { dims_abu(0, 2, 1, 3) }.var("r", Ty::I16, &["u"]).var("f", Ty::F32, &["a"]);
            let ops: Vec<hist::Op> = (0..n).map(|j| if h < 2 { hist::Op::Rec { v: 0, r: j, salt: j } } else if j % 2 == 0 { hist::Op::Rec { v: 0, r: 1, salt: j } } else { hist::Op::Var { v: 1, salt: j } }).collect();
            let (fault, ver) = (if e == 16 { Fault::Zero } else { Fault::Errno(ERRNOS[e]) }, VERS[e % 2]);
            let (p, q) = (ctx.path("w.nc"), ctx.path("r.nc"));
            std::fs::write(&q, encode_file(&def, &full_data(&def, 3), ver, 0, true)).map_err(|e| e.to_string())?;
            for writing in [true, false] {
                let mut run = |s: &mut Shim| -> Errs { if writing { write_run(&p, &def, ver, false, &ops, s) } else { read_run(&q, s, h % 2 == 1) } };
                let mut s = Shim::default();
                let errs = run(&mut s);
                ck!(errs.is_empty(), "without fault: {:?}", errs);
                let t = s.n;
                for k in (0..t).filter(|k| k % if th { 2 } else { 11 } == e as u64 % if th { 2 } else { 11 } || k + 5 > t) {
                    let mut s = Shim { plan: vec![(k, fault)], ..Shim::default() };
                    let errs = run(&mut s);
                    let m = |x: String| format!("{}\n{} {}, {:?} at call {}: {}", hist::show(&def, ver, 0, &[]), n, if writing { "writes" } else { "reads" }, fault, k, x);
                    for (c, x) in &errs { ck!(matches!(x, Ok(q) if io_kinds(fault).contains(q)), "{}", m(format!("{} reports {:?} instead of {:?}", c, x, io_kinds(fault)))); }
                    ck!(errs.len() <= s.hits as usize, "{}", m(format!("several calls fail: {:?}", errs)));
                    ctx.state(&(i, k, writing)); ctx.op(ops.len() as u64); ctx.trace();
                }
            }
            Ok(())
        }));
        f.push(fam("os_errors_writing", "4 schemas x 2 versions x 3 histories x open/create_new: each of 16 errors (or nothing written) at every write/seek, at every open/stat, once or from there on: the call reports it with its own kind", (nd * 2 * 3 * 17) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (def, ver, h, e) = (schemas()[d.next(nd)].clone(), VERS[d.next(2)], d.next(3), d.next(17));
            let fault = if e == 16 { Fault::Zero } else { Fault::Errno(ERRNOS[e]) };
            let mut ops = hist::full_ops(&def);
            match h { 1 => ops.reverse(), 2 => ops = ops.into_iter().skip(1).step_by(2).collect(), _ => {} }
            let p = ctx.path("w.nc");
            let create = h == 1;
            let m = |k: u64, x: String| format!("{}\n{:?} at call {}: {}", hist::show(&def, ver, 0, &ops), fault, k, x);
            let (mut k, mut meta) = (0u64, false);
            loop {
                let mut done = true;
                for from in [false, true] {
                    let mut s = Shim::default();
                    if meta { match fault { Fault::Errno(e) if !from => s.meta_plan = Some((k, e)), _ => continue } } else if from { s.from = Some((k, fault)) } else { s.plan = vec![(k, fault)] }
                    let _ = std::fs::remove_file(&p);
                    let errs = write_run(&p, &def, ver, create, &ops, &mut s);
                    if s.hits > 0 { done = false; }
                    ctx.state(&(i, k, meta, from)); ctx.op(ops.len() as u64 + 2); ctx.trace();
                    for (c, x) in &errs { ck!(matches!(x, Ok(q) if io_kinds(fault).contains(q)), "{}", m(k, format!("{} reports {:?} instead of {:?}", c, x, io_kinds(fault)))); }
                    if !errs.is_empty() { ctx.count("errors reported") }
                }
                k += 1;
                if done { if meta { break; } meta = true; k = 0; }
            }
            Ok(())
        }));
        // paths
        f.push(fam("paths", "13 paths which cannot be opened (missing, directory, through a file, too long, a loop of links, empty, with a zero byte, dangling link...) x reading, overwriting, creating: the kind is that of the operating system", 13 * 3, move |i, ctx| {
            let mut d = Digits(i);
            let (w, k) = (d.next(3), d.next(13));
            let dir = ctx.path("paths"); let _ = std::fs::remove_dir_all(&dir);
            let io = |e: std::io::Error| e.to_string();
            std::fs::create_dir(&dir).map_err(io)?;
            std::fs::write(dir.join("file"), b"x").map_err(io)?;
            std::fs::create_dir(dir.join("d")).map_err(io)?;
            std::os::unix::fs::symlink("loop", dir.join("loop")).map_err(io)?;
            std::os::unix::fs::symlink("nowhere/x", dir.join("dangling")).map_err(io)?;
            std::os::unix::fs::symlink("d", dir.join("ld")).map_err(io)?;
            let p: std::path::PathBuf = match k { 0 => dir.join("missing"), 1 => dir.join("d"), 2 => dir.join("file/x"), 3 => dir.join("x".repeat(256)), 4 => dir.join("loop"), 5 => "".into(), 6 => dir.join("a\0b"), 7 => dir.join("dangling"), 8 => dir.join("missing/x"), 9 => dir.join("ld"), 10 => dir.join("ld/"), 11 => dir.join("y/".repeat(2100)), _ => dir.join("file/") };
            use std::fs::OpenOptions;
            let want = match w {
                0 => std::fs::File::open(&p).and_then(|mut f| { use std::io::Read; f.read_exact(&mut [0u8; 1]) }).err().map(|e| e.kind()),
                1 => if p.exists() && !p.is_dir() { None } else { let r = OpenOptions::new().write(true).create(true).truncate(true).open(&p); let e = r.err().map(|e| e.kind()); if e.is_none() { std::fs::remove_file(&p).map_err(io)?; } e }
                _ => { let r = OpenOptions::new().write(true).create_new(true).open(&p); let e = r.err().map(|e| e.kind()); if e.is_none() { std::fs::remove_file(&p).map_err(io)?; } e }
            };
            let got = match w { 0 => FileReader::open(&p).err().map(|e| rerr(&e)), 1 => FileWriter::open(&p).err().map(|e| werr(&e)), _ => FileWriter::create_new(&p).err().map(|e| werr(&e)) };
            ctx.op(1); ctx.trace(); ctx.state(&(w, k));
            ck!(got == want.map(Ok), "{} of path {}: {:?} instead of {:?}", ["open for reading", "open for writing", "create_new"][w], k, got, want);
            let _ = std::fs::remove_dir_all(&dir);
            Ok(())
        }));
    }
    f
}
