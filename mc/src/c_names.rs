//! C09: the naming rule, at every entry point that introduces a name.
use crate::bind;
use crate::model::*;
use crate::runner::*;
use netcdf3::{is_valid_name, DataSet, FileReader, InvalidDataSet as E};

/// Number of entry points which do not read a file.
const NMEM: usize = 36;
const NREAD: usize = 4;
fn base() -> (Def, DataSet) {
    let d = Def::default().dim("dim0", 2).unlim("unlim0", 1).attr("gattr0", Val::pattern(Ty::I8, 1, 1)).var("var0", Ty::I16, &["unlim0", "dim0"]).vattr("vattr0", Val::pattern(Ty::F32, 1, 1));
    let ds = bind::build(&d).unwrap();
    (d, ds)
}
/// Tries to introduce `n` at entry point `k`: expected definition if accepted, expected error if not.
fn attempt(k: usize, n: &str) -> (DataSet, Def, Def, Result<(), E>, E) {
    let (d0, mut ds) = base();
    let mut d = d0.clone();
    let v = |t: usize| Val::pattern(TYS[t], 2, 3);
    let nv = E::VariableAttributeNameNotValid { var_name: "var0".into(), attr_name: n.into() };
    let (r, e): (Result<(), E>, E) = match k {
        1 => { d.dims.push(Dim { name: n.into(), size: 3, unlim: false }); (ds.add_fixed_dim(n, 3), E::DimensionNameNotValid(n.into())) }
        2 => {
            let mut ds2 = DataSet::new();
            let r = ds2.set_unlimited_dim(n, 3);
            ds = ds2;
            let d = Def { dims: vec![Dim { name: n.into(), size: 3, unlim: true }], ..Def::default() };
            return (ds, Def::default(), d, r, E::DimensionNameNotValid(n.into()));
        }
        3 => { d.dims[0].name = n.into(); (ds.rename_dim("dim0", n), E::DimensionNameNotValid(n.into())) }
        4 => { d.dims[1].name = n.into(); (ds.rename_dim("unlim0", n), E::DimensionNameNotValid(n.into())) }
        5..=11 => {
            let t = if k == 5 { 3 } else { k - 6 };
            d.vars.push(Var { name: n.into(), ty: TYS[t], dims: vec![0], attrs: vec![] });
            (if k == 5 { ds.add_var(n, &["dim0"], netcdf3::DataType::I32) } else { bind::add_var_typed(&mut ds, n, &["dim0"], TYS[t]) }, E::VariableNameNotValid(n.into()))
        }
        12 => { d.vars[0].name = n.into(); (ds.rename_var("var0", n), E::VariableNameNotValid(n.into())) }
        13..=18 => { d.attrs.push(attr(n, v(k - 13))); (bind::add_global_attr(&mut ds, n, &v(k - 13)), E::GlobalAttributeNameNotValid(n.into())) }
        19 => { d.attrs.push(attr(n, Val::new(Ty::U8, b"txt".to_vec()))); (ds.add_global_attr_string(n, "txt"), E::GlobalAttributeNameNotValid(n.into())) }
        20 => { d.attrs[0].name = n.into(); (ds.rename_global_attr("gattr0", n), E::GlobalAttributeNameNotValid(n.into())) }
        21..=26 => { d.vars[0].attrs.push(attr(n, v(k - 21))); (bind::add_var_attr(&mut ds, "var0", n, &v(k - 21)), nv) }
        27 => { d.vars[0].attrs.push(attr(n, Val::new(Ty::U8, b"txt".to_vec()))); (ds.add_var_attr_string("var0", n, "txt"), nv) }
        28..=33 => { d.vars[0].attrs.push(attr(n, v(k - 28))); (bind::add_attr_mut(ds.get_var_mut("var0").unwrap(), n, &v(k - 28)), nv) }
        34 => { d.vars[0].attrs.push(attr(n, Val::new(Ty::U8, b"txt".to_vec()))); (ds.get_var_mut("var0").unwrap().add_attr_string(n, "txt"), nv) }
        _ => { d.vars[0].attrs[0].name = n.into(); (ds.rename_var_attr("var0", "vattr0", n), nv) }
    };
    (ds, d0, d, r, e)
}
pub fn check_mem(k: usize, n: &str, full: bool) -> Result<(), String> {
    let ok = name_ok(n);
    if k == 0 { ck!(is_valid_name(n) == ok, "is_valid_name({:?}) ({} bytes) is {} instead of {}", n, n.len(), !ok, ok); return Ok(()); }
    let (ds, d0, d, r, e) = attempt(k, n);
    let m = format!("entry point #{}, name {:?} ({} bytes)", k, n, n.len());
    match r {
        Ok(()) => { ck!(ok, "{}: accepted", m); if full { let g = bind::snapshot(&ds).map_err(|x| format!("{}: {}", m, x))?; if let Some(x) = bind::diff_def(&d, &g) { return Err(format!("{}: {}", m, x)); } } }
        Err(x) => {
            ck!(!ok, "{}: refused with {:?}", m, x);
            ck!(x == e, "{}: error {:?} instead of {:?}", m, x, e);
            if full { let g = bind::snapshot(&ds).map_err(|x| format!("{}: {}", m, x))?; if let Some(x) = bind::diff_def(&d0, &g) { return Err(format!("{} is refused but: {}", m, x)); } }
        }
    }
    Ok(())
}
/// The header of the base definition where name #k is replaced by raw bytes.
fn header_with(k: usize, raw: &[u8], ver: Ver) -> Vec<u8> {
    // The place is found with a marker of the same length.
    let (mut d, _) = base();
    let marker: String = "Q".repeat(raw.len());
    let set = |d: &mut Def, s: &str| match k { 0 => d.dims[0].name = s.into(), 1 => d.attrs[0].name = s.into(), 2 => d.vars[0].name = s.into(), _ => d.vars[0].attrs[0].name = s.into() };
    set(&mut d, &marker);
    let data = full_data(&d, 1);
    let mut b = encode_file(&d, &data, ver, 0, true);
    if !raw.is_empty() {
        let i = (0..b.len()).rev().find(|i| b[*i..].starts_with(marker.as_bytes())).unwrap();
        b[i..i + raw.len()].copy_from_slice(raw);
    }
    b
}
pub fn check_read(ctx: &mut Ctx, k: usize, raw: &[u8], ver: Ver) -> Result<(), String> {
    let s = std::str::from_utf8(raw).ok();
    let ok = s.map(name_ok).unwrap_or(false);
    let p = ctx.path("n.nc");
    std::fs::write(&p, header_with(k, raw, ver)).map_err(|e| e.to_string())?;
    let m = || format!("file whose name #{} is {:?} ({} bytes {:02x?})", k, s, raw.len(), &raw[..raw.len().min(8)]);
    match FileReader::open(&p) {
        Ok(r) => {
            ck!(ok, "{}: accepted", m());
            let (mut d, _) = base();
            let n = s.unwrap().to_string();
            match k { 0 => d.dims[0].name = n, 1 => d.attrs[0].name = n, 2 => d.vars[0].name = n, _ => d.vars[0].attrs[0].name = n }
            let g = bind::snapshot(r.data_set()).map_err(|e| format!("{}: {}", m(), e))?;
            if let Some(x) = bind::diff_def(&d, &g) { return Err(format!("{}: {}", m(), x)); }
        }
        Err(e) => {
            ck!(!ok, "{}: refused with {:?}", m(), e);
            ck!(!e.header_is_incomplete(), "{}: reported as an incomplete header ({:?})", m(), e);
        }
    }
    ctx.op(1); ctx.trace();
    Ok(())
}
/// Entry point k (in memory or from a file).
fn check(ctx: &mut Ctx, k: usize, n: &str) -> Result<(), String> {
    ctx.state(&n);
    if k < NMEM { check_mem(k, n, true)?; ctx.op(1); ctx.trace(); Ok(()) } else { check_read(ctx, k - NMEM, n.as_bytes(), VERS[n.len() % 2]) }
}
/// Representatives of every class of characters.
const CLASSES: [char; 20] = ['a', 'Z', '0', '_', ' ', '-', '/', '.', '\\', '"', '~', '\u{7f}', '\u{0}', '\n', '\u{80}', 'é', '中', '😀', '\u{10ffff}', '+'];

pub fn families(t: Tier) -> Vec<Family> {
    let th = t.thorough();
    let mut f = vec![];
    f.push(fam("scalars", "all 1 112 064 Unicode scalar values x 5 positions (alone, first, middle, last, last of a 256-byte name): is_valid_name", 0x110000 / 256, |i, ctx| {
        for c in (i as u32 * 256..(i as u32 + 1) * 256).filter_map(char::from_u32) {
            for n in [format!("{}", c), format!("{}a", c), format!("a{}b", c), format!("a{}", c), format!("{}{}", name_pad(256 - c.len_utf8()), c)] { check_mem(0, &n, false)?; ctx.op(1); }
        }
        ctx.state(&i);
        Ok(())
    }));
    let step = if th { 1 } else { 16 };
    f.push(fam("scalars_entry", &format!("{} Unicode scalar values x 2 positions (first, last) x {} entry points (in memory)", if th { "all" } else { "all below U+3000 and the first 16 of every 256" }, NMEM - 1), 0x110000 / 256, move |i, ctx| {
        let _ = step;
        let m = if th || i < 0x30 { 256 } else { 16 };
        for c in (i as u32 * 256..i as u32 * 256 + m).filter_map(char::from_u32) {
            let (a, b) = (format!("{}a", c), format!("a{}", c));
            for k in 1..NMEM { check_mem(k, &a, (c as u32) < 0x200)?; check_mem(k, &b, (c as u32) < 0x200)?; ctx.op(2); ctx.trace(); }
        }
        ctx.state(&i);
        Ok(())
    }));
    f.push(fam("latin_entry", "all characters below U+0200 and 40 others x 4 positions (alone, first, middle, last) x 40 entry points (36 in memory, 4 names read from a file)", (0x200 + 40) * 40, |i, ctx| {
        let (c, k) = ((i / 40) as u32, (i % 40) as usize);
        let c = if c < 0x200 { char::from_u32(c) } else { char::from_u32([0x7ffu32, 0x800, 0xfff, 0x2028, 0x2029, 0x200b, 0x202e, 0x2044, 0x2060, 0x2215, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xfff9, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0xff0f, 0x300, 0x338, 0x37e, 0x660, 0x966, 0xff10, 0xff21, 0x1d400, 0x1f600, 0x85, 0xa0, 0xad, 0x1680, 0x180e, 0xfdd0, 0x1fffe, 0x2ffff, 0xe0001, 0xf0000][c as usize - 0x200]) };
        let c = c.unwrap();
        for n in [format!("{}", c), format!("{}a", c), format!("a{}b", c), format!("a{}", c)] { check(ctx, k, &n)?; }
        Ok(())
    }));
    f.push(fam("lengths", "names of 0..600 bytes made of characters of 1..4 bytes (valid ones and ones with an invalid last character) x 40 entry points", 601 * 4 * 40, |i, ctx| {
        let mut g = Digits(i);
        let (k, w, n) = (g.next(40), g.next(4) + 1, g.next(601));
        let s = crate::spaces::name_of(n, w, 0);
        assert_eq!(n, s.len());
        check(ctx, k, &s)?;
        if n > 1 && (k % 3 == 0 || k >= NMEM) { let mut b: Vec<char> = s.chars().collect(); let l = b.len() - 1; b[l] = '/'; check(ctx, k, &b.into_iter().collect::<String>())?; }
        Ok(())
    }));
    {
        let depth = if th { 4 } else { 3 };
        let al: Vec<char> = if th { CLASSES.to_vec() } else { CLASSES[..16].to_vec() };
        let na = al.len();
        let ks = if th { 40 } else { 40 };
        f.push(fam("class_strings", &format!("all strings of up to {} characters over {} class representatives x 40 entry points (those read from a file: up to 2 characters)", depth, na), nseqs(na, depth) * ks, move |i, ctx| {
            let (k, j) = ((i % ks) as usize, i / ks);
            let s: String = seq(j, na).into_iter().map(|x| al[x]).collect();
            if k >= NMEM && s.chars().count() > 2 { ctx.count("skipped: file entry point"); return Ok(()); }
            check(ctx, k, &s)
        }));
    }
    f.push(fam("file_bytes", "names of 1 and 2 bytes read from a file: all byte values (UTF-8 or not) x 4 entry points", 256 * 4, |i, ctx| {
        let (k, a) = ((i % 4) as usize, (i / 4) as u8);
        check_read(ctx, k, &[a], Ver::V1)?;
        for b in 0..=255u8 { check_read(ctx, k, &[a, b], VERS[(b % 2) as usize])?; }
        ctx.state(&(k, a));
        Ok(())
    }));
    {   // new names which resemble the old one, or another one
        const BITS: [&str; 26] = ["", "a", "_", "0", " ", "/", "\u{0}", "\u{7f}", "\n", "\t", "\u{1f}", "\\", ".", "-", "+", "~", "\u{80}", "\u{e9}", "\u{4e2d}", "\u{10ffff}", "//", "/a", " /", "a/", "@b", "\u{0}\u{0}"];
        const OLD: [&str; 9] = ["n", "na", "name", "name_1", "9", "_", "\u{e9}", "a b", "long_name_of_a_variable_of_the_sea_surface_temperature"];
        let kinds = 6u64; // dimension, unlimited one, variable, global attribute, attribute of a variable, attribute added
        f.push(fam("related", &format!("renaming (5 ways) from, and adding next to, {} names: every string p + old + s, old with p at every place, old with a character replaced by p, every prefix of old followed by p, old twice, p and s among {} strings (valid characters, invalid ones, empty): accepted exactly if the rule allows it, with the documented error otherwise", OLD.len(), BITS.len()), OLD.len() as u64 * kinds * BITS.len() as u64, move |i, ctx| {
            use crate::c_edit::{self, Ed, How};
            let mut g = Digits(i);
            let (kind, old, p) = (g.next(6), OLD[g.next(OLD.len())], BITS[g.next(BITS.len())]);
            let mut l: Vec<String> = BITS.iter().map(|s| format!("{}{}{}", p, old, s)).collect();
            let cs: Vec<char> = old.chars().collect();
            for k in 0..=cs.len() {
                let (a, b): (String, String) = (cs[..k].iter().collect(), cs[k..].iter().collect());
                l.push(format!("{}{}{}", a, p, b)); l.push(format!("{}{}", a, p)); l.push(format!("{}{}", p, b));
                if k < cs.len() { l.push(format!("{}{}{}", a, p, cs[k + 1..].iter().collect::<String>())); }
            }
            l.push(format!("{}{}{}", old, p, old)); l.push(format!("{}{}", old.to_uppercase(), p)); l.push(format!("other{}", p));
            for n in [250 - old.len(), 254 - old.len(), 255 - old.len(), 256 - old.len(), 257 - old.len(), 300] { l.push(format!("{}{}{}", old, "x".repeat(n), p)); l.push(format!("{}{}{}", p, "x".repeat(n), old)); }
            l.sort(); l.dedup();
            let (o, val) = (c_edit::name(old), Val::pattern(Ty::I16, 2, 1));
            let d0 = { let x = Def::default(); match kind { 0 => x.dim(old, 2).dim("other", 3).unlim("u", 1).var("v", Ty::I8, &[old]), 1 => x.unlim(old, 2).dim("other", 3).var("v", Ty::I8, &[old, "other"]), 2 => x.dim(old, 2).var(old, Ty::I16, &[old]).var("other", Ty::I8, &[]), 3 | 5 => x.attr(old, val.clone()).attr("other", val.clone()), _ => x.var("v", Ty::I8, &[]).vattr(old, val.clone()).vattr("other", val.clone()) } };
            for n in &l {
                if n == old { continue; }
                let y = c_edit::name(n);
                let e = match kind { 0 | 1 => Ed::RenDim(o, y), 2 => Ed::RenVar(o, y), 3 => Ed::RenG(o, y), 4 => Ed::RenVA("v", o, y), _ => Ed::G(y, val.clone(), How::Plain) };
                let (mut d, mut ds) = (d0.clone(), bind::build(&d0).map_err(|e| format!("{:?}", e))?);
                let m = |x: String| format!("{:?}: {}", e, x);
                c_edit::step(&mut d, &mut ds, &e).map_err(m)?;
                c_edit::same(&d, &ds, true).map_err(m)?;
                ctx.op(1); ctx.trace();
            }
            ctx.state(&i);
            Ok(())
        }));
    }
    let b3: Vec<u8> = if th { vec![0x00, 0x20, 0x2f, 0x41, 0x5f, 0x7e, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff] } else { vec![0x2f, 0x41, 0x7f, 0x80, 0xa0, 0xbf, 0xc2, 0xe0, 0xed, 0xef, 0xf0, 0xf4] };
    let nb = b3.len();
    let depth = 4;
    f.push(fam("file_utf8", &format!("names of 3 and 4 bytes over {} boundary bytes of UTF-8, read from a file (dimension, variable)", nb), (nb as u64).pow(depth - 1) * 2, move |i, ctx| {
        let mut g = Digits(i);
        let k = g.next(2) * 2;
        let pre = [b3[g.next(nb)], b3[g.next(nb)], b3[g.next(nb)]];
        check_read(ctx, k, &pre, Ver::V2)?;
        for x in &b3 { check_read(ctx, k, &[pre[0], pre[1], pre[2], *x], Ver::V1)?; }
        ctx.state(&pre);
        Ok(())
    }));
    let _ = NREAD;
    f
}
fn name_pad(n: usize) -> String { "n".repeat(n) }
