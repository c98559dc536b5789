//! Reference model of a NetCDF-3 file, written from the format specification only
//! (<https://docs.unidata.ucar.edu/netcdf-c/current/file_format_specifications.html>).
//! Nothing here calls the library under test.
#![allow(dead_code)]

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Ty { I8, U8, I16, I32, F32, F64 }
pub const TYS: [Ty; 6] = [Ty::I8, Ty::U8, Ty::I16, Ty::I32, Ty::F32, Ty::F64];

impl Ty {
    pub fn code(self) -> u32 { match self { Ty::I8 => 1, Ty::U8 => 2, Ty::I16 => 3, Ty::I32 => 4, Ty::F32 => 5, Ty::F64 => 6 } }
    pub fn from_code(c: u32) -> Option<Ty> { TYS.iter().copied().find(|t| t.code() == c) }
    pub fn size(self) -> usize { match self { Ty::I8 | Ty::U8 => 1, Ty::I16 => 2, Ty::I32 | Ty::F32 => 4, Ty::F64 => 8 } }
    /// The default fill value of the type (big-endian bytes), as in netcdf.h.
    pub fn fill(self) -> &'static [u8] {
        match self {
            Ty::I8 => &[0x81],
            Ty::U8 => &[0x00],
            Ty::I16 => &[0x80, 0x01],
            Ty::I32 => &[0x80, 0x00, 0x00, 0x01],
            Ty::F32 => &[0x7C, 0xF0, 0x00, 0x00],
            Ty::F64 => &[0x47, 0x9E, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00],
        }
    }
}

/// A vector of values: the type and the big-endian bytes (so that equality is bit-exact).
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Val { pub ty: Ty, pub raw: Vec<u8> }
impl Val {
    pub fn new(ty: Ty, raw: Vec<u8>) -> Val { assert_eq!(0, raw.len() % ty.size()); Val { ty, raw } }
    pub fn empty(ty: Ty) -> Val { Val { ty, raw: vec![] } }
    pub fn len(&self) -> usize { self.raw.len() / self.ty.size() }
    pub fn slice(&self, from: usize, to: usize) -> Val { let s = self.ty.size(); Val { ty: self.ty, raw: self.raw[from * s..to * s].to_vec() } }
    pub fn fill(ty: Ty, n: usize) -> Val { Val { ty, raw: ty.fill().iter().copied().cycle().take(n * ty.size()).collect() } }
    /// `n` values which are all different from the fill value and from zero, and which depend
    /// on `salt` and on the position (distinct for any 240 consecutive positions).
    /// Salts from `SPECIAL` on select a class of special values.
    pub fn pattern(ty: Ty, n: usize, salt: usize) -> Val {
        if salt >= CONST { // elements which depend on nothing else
            let e = Val::pattern(ty, 1, 40 + (salt - CONST)).raw;
            return Val { ty, raw: e.iter().copied().cycle().take(n * ty.size()).collect() };
        }
        if salt >= SPECIAL { return Val::special(ty, n, (salt - SPECIAL) % SPECIALS); }
        let mut raw = Vec::with_capacity(n * ty.size());
        for i in 0..n {
            let k = salt.wrapping_mul(7919).wrapping_add(i);
            let mut b = (k % 241 + 1) as u8;
            if b == 0x81 { b = 0xFB; }
            match ty {
                Ty::I8 | Ty::U8 => raw.push(b),
                Ty::I16 => { raw.push(((k / 241) % 100) as u8 + 3); raw.push(b) }
                Ty::I32 => { raw.extend_from_slice(&[((k / 24100) % 100) as u8 + 1, ((k / 241) % 100) as u8, salt as u8, b]) }
                Ty::F32 => { raw.extend_from_slice(&[0x40, ((k / 241) % 100) as u8, salt as u8, b]) }
                Ty::F64 => { raw.extend_from_slice(&[0x40, 0x10, salt as u8, 0x5A, ((k / 24100) % 100) as u8, ((k / 241) % 100) as u8, 0xA5, b]) }
            }
        }
        Val { ty, raw }
    }
    /// Values which an implementation could confuse with "nothing": see `SPECIAL_ELEMS`.
    pub fn special(ty: Ty, n: usize, class: usize) -> Val {
        let sz = ty.size();
        let pat = Val::pattern(ty, n, 7).raw;
        let fill = ty.fill().to_vec();
        let mut refill = fill.clone(); refill.reverse();
        let zero = vec![0u8; sz];
        let elem = |i: usize| pat[i * sz..(i + 1) * sz].to_vec();
        let mut raw = vec![];
        for i in 0..n {
            let (first, last) = (i == 0, i + 1 == n);
            raw.extend(match class {
                0 => zero.clone(),
                1 => fill.clone(),
                2 => vec![0xFF; sz],
                3 => if first { elem(i) } else { fill.clone() },
                4 => if last { elem(i) } else { fill.clone() },
                5 => if first { elem(i) } else { zero.clone() },
                6 => if last { elem(i) } else { zero.clone() },
                7 => if last { fill.clone() } else { elem(i) },
                8 => if last { zero.clone() } else { elem(i) },
                9 => if i % 2 == 0 { fill.clone() } else { elem(i) },
                10 => vec![0x20; sz],
                11 => refill.clone(),
                12 => { let mut e = fill.clone(); e[sz - 1] ^= 1; e }
                13 => { let mut e = zero.clone(); e[0] = 0x80; e }
                14 => elem(0),
                _ => { let mut e = fill.clone(); e[0] ^= 0x80; e }
            });
        }
        Val { ty, raw }
    }
}
pub const SPECIAL: usize = 1 << 40;
/// Salts from this one on give vectors of equal elements.
pub const CONST: usize = 1 << 41;
pub const SPECIALS: usize = 16;
pub const SPECIAL_ELEMS: &str = "16 classes of special values (all zero, all fill value, all ones, the same but for the first or the last element, alternating, spaces, byte-swapped fill value, fill value with one bit changed, minus zero, constant)";
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}x{}:", self.ty, self.len())?;
        for b in self.raw.iter().take(32) { write!(f, "{:02x}", b)?; }
        if self.raw.len() > 32 { write!(f, "..")?; }
        Ok(())
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Dim { pub name: String, pub size: usize, pub unlim: bool }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Attr { pub name: String, pub val: Val }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Var { pub name: String, pub ty: Ty, pub dims: Vec<usize>, pub attrs: Vec<Attr> }
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Def { pub dims: Vec<Dim>, pub attrs: Vec<Attr>, pub vars: Vec<Var> }

pub fn attr(name: &str, val: Val) -> Attr { Attr { name: name.to_string(), val } }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Ver { V1, V2 }
pub const VERS: [Ver; 2] = [Ver::V1, Ver::V2];

pub fn round4(n: u128) -> u128 { (n + 3) / 4 * 4 }

impl Def {
    pub fn dim(mut self, name: &str, size: usize) -> Def { self.dims.push(Dim { name: name.into(), size, unlim: false }); self }
    pub fn unlim(mut self, name: &str, size: usize) -> Def { self.dims.push(Dim { name: name.into(), size, unlim: true }); self }
    pub fn attr(mut self, name: &str, val: Val) -> Def { self.attrs.push(attr(name, val)); self }
    pub fn var(mut self, name: &str, ty: Ty, dims: &[&str]) -> Def {
        let ids = dims.iter().map(|d| self.dims.iter().position(|x| x.name == *d).expect("dim")).collect();
        self.vars.push(Var { name: name.into(), ty, dims: ids, attrs: vec![] });
        self
    }
    pub fn vattr(mut self, name: &str, val: Val) -> Def { self.vars.last_mut().unwrap().attrs.push(attr(name, val)); self }

    pub fn numrecs(&self) -> usize { self.dims.iter().find(|d| d.unlim).map(|d| d.size).unwrap_or(0) }
    pub fn is_rec(&self, v: usize) -> bool { self.vars[v].dims.first().map(|d| self.dims[*d].unlim).unwrap_or(false) }
    pub fn nrec_vars(&self) -> usize { (0..self.vars.len()).filter(|v| self.is_rec(*v)).count() }
    /// Number of values of a variable in one record (whole variable if it is a fixed-size one).
    pub fn slab_len(&self, v: usize) -> u128 {
        self.vars[v].dims.iter().map(|d| &self.dims[*d]).filter(|d| !d.unlim).map(|d| d.size as u128).product()
    }
    pub fn slab_bytes(&self, v: usize) -> u128 { self.slab_len(v) * self.vars[v].ty.size() as u128 }
    pub fn vsize(&self, v: usize) -> u128 { round4(self.slab_bytes(v)) }
    pub fn nslabs(&self, v: usize) -> usize { if self.is_rec(v) { self.numrecs() } else { 1 } }
    pub fn total_len(&self, v: usize) -> u128 { self.slab_len(v) * self.nslabs(v) as u128 }
    /// Record size as the sum of the padded sizes.
    pub fn recsize_padded(&self) -> u128 { (0..self.vars.len()).filter(|v| self.is_rec(*v)).map(|v| self.vsize(v)).sum() }
    /// Exactly one record variable, whose slab is not a multiple of 4 bytes: the specification
    /// then removes the padding between the records.
    pub fn special_case(&self) -> bool {
        self.nrec_vars() == 1 && (0..self.vars.len()).any(|v| self.is_rec(v) && self.slab_bytes(v) % 4 != 0)
    }
    pub fn header_len(&self, ver: Ver) -> usize { encode_header(self, ver, 0, &vec![0; self.vars.len()], &vec![0; self.vars.len()], &HdrOpts::default()).len() }
}

#[derive(Clone, Default, Debug)]
pub struct HdrOpts { pub empty_dims_tagged: bool, pub empty_gattrs_tagged: bool, pub empty_vars_tagged: bool, pub empty_vattrs_tagged: bool }

pub fn put_u32(out: &mut Vec<u8>, v: u32) { out.extend_from_slice(&v.to_be_bytes()) }
fn put_padded(out: &mut Vec<u8>, b: &[u8]) { out.extend_from_slice(b); while out.len() % 4 != 0 { out.push(0) } }
fn put_name(out: &mut Vec<u8>, n: &str) { put_u32(out, n.len() as u32); put_padded(out, n.as_bytes()) }
fn put_attrs(out: &mut Vec<u8>, attrs: &[Attr], tagged: bool) {
    if attrs.is_empty() { put_u32(out, if tagged { 0x0C } else { 0 }); put_u32(out, 0); return; }
    put_u32(out, 0x0C); put_u32(out, attrs.len() as u32);
    for a in attrs { put_name(out, &a.name); put_u32(out, a.val.ty.code()); put_u32(out, a.val.len() as u32); put_padded(out, &a.val.raw); }
}

/// header = magic numrecs dim_list gatt_list var_list
pub fn encode_header(def: &Def, ver: Ver, numrecs: u32, begins: &[u64], vsizes: &[u32], o: &HdrOpts) -> Vec<u8> {
    let mut out = vec![b'C', b'D', b'F', match ver { Ver::V1 => 1, Ver::V2 => 2 }];
    put_u32(&mut out, numrecs);
    if def.dims.is_empty() { put_u32(&mut out, if o.empty_dims_tagged { 0x0A } else { 0 }); put_u32(&mut out, 0); }
    else {
        put_u32(&mut out, 0x0A); put_u32(&mut out, def.dims.len() as u32);
        for d in &def.dims { put_name(&mut out, &d.name); put_u32(&mut out, if d.unlim { 0 } else { d.size as u32 }); }
    }
    put_attrs(&mut out, &def.attrs, o.empty_gattrs_tagged);
    if def.vars.is_empty() { put_u32(&mut out, if o.empty_vars_tagged { 0x0B } else { 0 }); put_u32(&mut out, 0); }
    else {
        put_u32(&mut out, 0x0B); put_u32(&mut out, def.vars.len() as u32);
        for (i, v) in def.vars.iter().enumerate() {
            put_name(&mut out, &v.name);
            put_u32(&mut out, v.dims.len() as u32);
            for d in &v.dims { put_u32(&mut out, *d as u32); }
            put_attrs(&mut out, &v.attrs, o.empty_vattrs_tagged);
            put_u32(&mut out, v.ty.code());
            put_u32(&mut out, vsizes[i]);
            match ver { Ver::V1 => put_u32(&mut out, begins[i] as u32), Ver::V2 => out.extend_from_slice(&begins[i].to_be_bytes()) }
        }
    }
    out
}

/// Canonical layout: header rounded up to 4 bytes, fixed-size variables then records, in definition order.
#[derive(Clone, Debug)]
pub struct Layout { pub header_len: u128, pub data_start: u128, pub begins: Vec<u128>, pub rec_begin: u128, pub recsize: u128, pub total: u128 }

pub fn canonical_layout(def: &Def, ver: Ver, hmin: usize, recsize: u128) -> Layout {
    let header_len = def.header_len(ver) as u128;
    let start = round4(header_len.max(hmin as u128));
    let mut begins = vec![0u128; def.vars.len()];
    let mut pos = start;
    for v in 0..def.vars.len() { if !def.is_rec(v) { begins[v] = pos; pos += def.vsize(v); } }
    let rec_begin = pos;
    for v in 0..def.vars.len() { if def.is_rec(v) { begins[v] = pos; pos += def.vsize(v); } }
    let total = rec_begin + if def.nrec_vars() > 0 { recsize * def.numrecs() as u128 } else { 0 };
    Layout { header_len, data_start: start, begins, rec_begin, recsize, total }
}

pub fn vsize_field(vsize: u128) -> u32 { if vsize > i32::MAX as u128 { u32::MAX } else { vsize as u32 } }
pub fn numrecs_field(n: usize) -> u32 { if n > i32::MAX as usize { u32::MAX } else { n as u32 } }

/// The data of a file: all values of each variable (`None` = never written).
pub type Data = Vec<Vec<Option<Vec<u8>>>>; // [var][slab] -> bytes of the slab

pub fn full_data(def: &Def, salt: usize) -> Data {
    (0..def.vars.len()).map(|v| (0..def.nslabs(v)).map(|s| Some(Val::pattern(def.vars[v].ty, def.slab_len(v) as usize, if salt >= SPECIAL { salt } else { salt * 131 + v * 17 + s * 3 + 1 }).raw)).collect()).collect()
}
pub fn empty_data(def: &Def) -> Data { (0..def.vars.len()).map(|v| vec![None; def.nslabs(v)]).collect() }
/// The value of a whole variable (unwritten slabs hold the fill value).
pub fn var_value(def: &Def, data: &Data, v: usize) -> Val {
    let mut raw = vec![];
    for s in 0..def.nslabs(v) { raw.extend_from_slice(&slab_value(def, data, v, s).raw); }
    Val::new(def.vars[v].ty, raw)
}
pub fn slab_value(def: &Def, data: &Data, v: usize, s: usize) -> Val {
    match &data[v][s] { Some(b) => Val::new(def.vars[v].ty, b.clone()), None => Val::fill(def.vars[v].ty, def.slab_len(v) as usize) }
}

/// The bytes the specification prescribes (`padded_special`: keep the padding in the special case
/// of a single record variable, as the library does; see the known findings).
pub fn encode_file(def: &Def, data: &Data, ver: Ver, hmin: usize, padded_special: bool) -> Vec<u8> {
    let special = def.special_case() && !padded_special;
    let recsize = if special { (0..def.vars.len()).filter(|v| def.is_rec(*v)).map(|v| def.slab_bytes(v)).sum() } else { def.recsize_padded() };
    let lay = canonical_layout(def, ver, hmin, recsize);
    let begins: Vec<u64> = lay.begins.iter().map(|b| *b as u64).collect();
    let vsizes: Vec<u32> = (0..def.vars.len()).map(|v| vsize_field(def.vsize(v))).collect();
    let mut out = encode_header(def, ver, numrecs_field(def.numrecs()), &begins, &vsizes, &HdrOpts::default());
    out.resize(lay.data_start as usize, 0);
    out.resize(lay.total as usize, 0);
    place_data(def, data, &mut out, &lay.begins, lay.recsize, special, None);
    out
}

/// Copies the data at the given offsets (padding: fill value, or `pad` if given).
pub fn place_data(def: &Def, data: &Data, out: &mut [u8], begins: &[u128], recsize: u128, unpadded_records: bool, pad: Option<u8>) {
    for v in 0..def.vars.len() {
        for s in 0..def.nslabs(v) {
            let at = (begins[v] + if def.is_rec(v) { recsize * s as u128 } else { 0 }) as usize;
            let val = slab_value(def, data, v, s);
            out[at..at + val.raw.len()].copy_from_slice(&val.raw);
            if def.is_rec(v) && unpadded_records { continue; }
            let npad = (def.vsize(v) - def.slab_bytes(v)) as usize;
            let fill: Vec<u8> = match pad { Some(p) => vec![p; npad], None => def.vars[v].ty.fill().iter().copied().cycle().take(npad).collect() };
            out[at + val.raw.len()..at + val.raw.len() + npad].copy_from_slice(&fill);
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Independent strict decoder of the header
// ------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Decoded { pub ver: Ver, pub numrecs: u32, pub def: Def, pub begins: Vec<u64>, pub vsizes: Vec<u32>, pub header_len: usize }
struct Cur<'a> { b: &'a [u8], p: usize }
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.b.len() - self.p < n { return Err(format!("truncated at {}", self.p)); }
        let r = &self.b[self.p..self.p + n]; self.p += n; Ok(r)
    }
    fn u32(&mut self) -> Result<u32, String> { Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap())) }
    fn count(&mut self) -> Result<usize, String> { let n = self.u32()?; if n > i32::MAX as u32 { return Err("negative".into()); } Ok(n as usize) }
    fn pad(&mut self) -> Result<(), String> { while self.p % 4 != 0 { if self.take(1)?[0] != 0 { return Err(format!("non-zero header padding at {}", self.p - 1)); } } Ok(()) }
    fn name(&mut self) -> Result<String, String> { let n = self.count()?; let s = self.take(n)?.to_vec(); self.pad()?; String::from_utf8(s).map_err(|e| e.to_string()) }
    fn list(&mut self, tag: u32) -> Result<usize, String> {
        let t = self.u32()?; let n = self.count()?;
        if t == tag || (t == 0 && n == 0) { Ok(n) } else { Err(format!("bad tag {} at {}", t, self.p)) }
    }
    fn attrs(&mut self) -> Result<Vec<Attr>, String> {
        let n = self.list(0x0C)?; let mut r = vec![];
        for _ in 0..n {
            let name = self.name()?; let ty = Ty::from_code(self.u32()?).ok_or("type")?; let len = self.count()?;
            let raw = self.take(len * ty.size())?.to_vec(); self.pad()?;
            r.push(Attr { name, val: Val::new(ty, raw) });
        }
        Ok(r)
    }
}
pub fn decode_header(b: &[u8]) -> Result<Decoded, String> {
    let mut c = Cur { b, p: 0 };
    if c.take(3)? != b"CDF" { return Err("magic".into()); }
    let ver = match c.take(1)?[0] { 1 => Ver::V1, 2 => Ver::V2, _ => return Err("version".into()) };
    let numrecs = c.u32()?;
    let mut def = Def::default();
    for _ in 0..c.list(0x0A)? {
        let name = c.name()?; let size = c.count()?;
        def.dims.push(Dim { name, size: if size == 0 { numrecs as usize } else { size }, unlim: size == 0 });
    }
    def.attrs = c.attrs()?;
    let (mut begins, mut vsizes) = (vec![], vec![]);
    for _ in 0..c.list(0x0B)? {
        let name = c.name()?; let nd = c.count()?; let mut dims = vec![];
        for _ in 0..nd { let d = c.count()?; if d >= def.dims.len() { return Err("dim id".into()); } dims.push(d); }
        let attrs = c.attrs()?; let ty = Ty::from_code(c.u32()?).ok_or("type")?;
        vsizes.push(c.u32()?);
        begins.push(match ver { Ver::V1 => c.u32()? as u64, Ver::V2 => u64::from_be_bytes(c.take(8)?.try_into().unwrap()) });
        def.vars.push(Var { name, ty, dims, attrs });
    }
    Ok(Decoded { ver, numrecs, def, begins, vsizes, header_len: c.p })
}

/// First difference of two byte strings, for messages.
pub fn diff_bytes(exp: &[u8], got: &[u8]) -> Option<String> {
    if exp == got { return None; }
    let i = exp.iter().zip(got.iter()).position(|(a, b)| a != b).unwrap_or(exp.len().min(got.len()));
    let w = |x: &[u8]| x[i.min(x.len())..(i + 12).min(x.len())].iter().map(|b| format!("{:02x}", b)).collect::<Vec<_>>().join("");
    Some(format!("lengths: expected {} got {}; first difference at byte {}: expected {} got {}", exp.len(), got.len(), i, w(exp), w(got)))
}

// ------------------------------------------------------------------------------------------------
// Validity
// ------------------------------------------------------------------------------------------------
/// The naming rule, restated (C09).
pub fn first_char_ok(c: char) -> bool { c.is_ascii_alphabetic() || c.is_ascii_digit() || c == '_' || (c as u32) >= 0x80 }
pub fn other_char_ok(c: char) -> bool { (c as u32) >= 0x80 || ((c as u32) >= 0x20 && (c as u32) <= 0x7E && c != '/') }
pub fn name_ok(s: &str) -> bool {
    let mut it = s.chars();
    match it.next() { None => false, Some(c) => s.len() <= 256 && first_char_ok(c) && it.all(other_char_ok) }
}
fn unique<'a>(it: impl Iterator<Item = &'a str>) -> bool { let mut s = std::collections::HashSet::new(); for x in it { if !s.insert(x) { return false; } } true }
/// Why a decoded definition is not a valid data set.
pub fn invalid(d: &Def) -> Option<String> {
    let names = d.dims.iter().map(|x| &x.name).chain(d.attrs.iter().map(|x| &x.name)).chain(d.vars.iter().map(|x| &x.name)).chain(d.vars.iter().flat_map(|v| v.attrs.iter().map(|a| &a.name)));
    for n in names { if !name_ok(n) { return Some(format!("name {:?}", n)); } }
    if !unique(d.dims.iter().map(|x| x.name.as_str())) { return Some("duplicate dimension".into()); }
    if !unique(d.attrs.iter().map(|x| x.name.as_str())) { return Some("duplicate global attribute".into()); }
    if !unique(d.vars.iter().map(|x| x.name.as_str())) { return Some("duplicate variable".into()); }
    if d.dims.iter().filter(|x| x.unlim).count() > 1 { return Some("two unlimited dimensions".into()); }
    for v in &d.vars {
        if !unique(v.attrs.iter().map(|x| x.name.as_str())) { return Some(format!("duplicate attribute of {:?}", v.name)); }
        for (i, x) in v.dims.iter().enumerate() {
            if v.dims[..i].contains(x) { return Some(format!("dimension repeated by {:?}", v.name)); }
            if i > 0 && d.dims[*x].unlim { return Some(format!("unlimited dimension not first in {:?}", v.name)); }
        }
    }
    None
}
/// The size of each data item fits in 62 bits.
pub fn sizes_ok(d: &Def) -> bool {
    let lim = 1u128 << 62;
    let mut rec = 0u128;
    for v in 0..d.vars.len() {
        let mut s = d.vars[v].ty.size() as u128;
        for x in &d.vars[v].dims { if !d.dims[*x].unlim { s = s.saturating_mul(d.dims[*x].size as u128); if s > lim { return false; } } }
        if d.is_rec(v) { rec += round4(s); }
    }
    rec < lim && rec.saturating_mul(d.numrecs().max(1) as u128) < lim
}
