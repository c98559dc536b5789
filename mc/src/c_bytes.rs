//! C06 (any sequence of bytes) and C07 (truncated files).
use crate::bind;
use crate::model::*;
use crate::runner::*;
use netcdf3::{FileReader, ReadError};

/// What the library did with a file.
pub enum Fed { Refused(ReadError), Accepted(Def) }

fn kind(e: &ReadError) -> String {
    let s = format!("{:?}", e);
    let k: String = s.chars().take_while(|c| c.is_alphanumeric()).collect();
    match e { ReadError::ParseHeader(p) => { let t = format!("{:?}", p); let _ = t; format!("refused: ParseHeader{}", if e.header_is_incomplete() { " (incomplete)" } else { "" }) } _ => format!("refused: {}", k) }
}

/// Opens `bytes` as a file and reads everything, under a cap on every single allocation.
pub fn feed(ctx: &mut Ctx, bytes: &[u8]) -> Result<Fed, String> {
    let p = ctx.path("x.nc");
    std::fs::write(&p, bytes).map_err(|e| e.to_string())?;
    let cap = (1 << 20) + 64 * bytes.len();
    let mut nops = 1;
    let (res, peak) = with_alloc_cap(cap, || -> Result<Fed, String> {
        let mut r = match FileReader::open(&p) { Ok(r) => r, Err(e) => return Ok(Fed::Refused(e)) };
        let def = bind::snapshot(r.data_set()).map_err(|e| format!("the accepted data set is inconsistent: {}", e))?;
        if let Some(e) = invalid(&def) { return Err(format!("the accepted data set is not valid: {}", e)); }
        let n = def.numrecs();
        let idx: Vec<usize> = if n <= 8 { (0..=n).collect() } else { vec![0, 1, n / 2, n - 1, n, usize::MAX] };
        for v in 0..def.vars.len() {
            let name = def.vars[v].name.as_str();
            let whole = bind::read_var(&mut r, name);
            nops += 1;
            if let Ok(x) = &whole { if x.ty != def.vars[v].ty || x.len() as u128 != def.total_len(v) { return Err(format!("read_var({:?}) gives {} values of {:?} instead of {} of {:?}", name, x.len(), x.ty, def.total_len(v), def.vars[v].ty)); } }
            for i in &idx {
                nops += 1;
                match bind::read_rec(&mut r, name, *i) {
                    Ok(x) => {
                        if *i >= def.nslabs(v) { return Err(format!("read_record({:?},{}) succeeds with {} records", name, i, def.nslabs(v))); }
                        if x.ty != def.vars[v].ty || x.len() as u128 != def.slab_len(v) { return Err(format!("read_record({:?},{}) gives {} values instead of {}", name, i, x.len(), def.slab_len(v))); }
                        if let Ok(w) = &whole { let k = def.slab_len(v) as usize; if w.slice(i * k, (i + 1) * k) != x { return Err(format!("read_record({:?},{}) and read_var disagree", name, i)); } }
                    }
                    Err(_) => if whole.is_ok() && *i < def.nslabs(v) { return Err(format!("read_record({:?},{}) fails and read_var succeeds", name, i)); },
                }
            }
        }
        let all = r.read_all_vars();
        nops += 1;
        if let Ok(a) = &all { if a.len() != def.vars.len() { return Err("read_all_vars: number of variables".into()); } }
        let after = bind::snapshot(r.data_set())?;
        if after != def { return Err("reading changed the data set".into()); }
        Ok(Fed::Accepted(def))
    });
    let lim = 4 * (cap as isize);
    if peak > lim { return Err(format!("{} bytes of memory for a file of {} bytes", peak, bytes.len())); }
    ctx.op(nops); ctx.trace();
    res
}
/// C06 on one sequence of bytes: in addition an accepted file decodes, independently, to the same definition.
pub fn judge(ctx: &mut Ctx, bytes: &[u8]) -> Result<(), String> {
    let res = feed(ctx, bytes).map_err(|e| format!("{}\nbytes ({}): {}", e, bytes.len(), hex(bytes)))?;
    let dec = decode_header(bytes);
    match res {
        Fed::Refused(e) => { ctx.count(&kind(&e)); ctx.state(&kind(&e)); }
        Fed::Accepted(def) => {
            ctx.count("accepted");
            ctx.state(&def);
            let m = |e: String| format!("{}\nbytes ({}): {}", e, bytes.len(), hex(bytes));
            match dec {
                Err(e) => return Err(m(format!("a malformed header is accepted ({}) as {:?}", e, def))),
                Ok(d) => {
                    let mut x = d.def.clone();
                    if d.numrecs == u32::MAX { let n = def.numrecs(); for y in x.dims.iter_mut() { if y.unlim { y.size = n; } } }
                    if let Some(e) = bind::diff_def(&x, &def) { return Err(m(format!("the header is misread: {}", e))); }
                }
            }
        }
    }
    Ok(())
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().take(600).enumerate() { if i % 4 == 0 && i > 0 { s.push(' '); } s.push_str(&format!("{:02x}", x)); }
    s
}

/// Base files which exercise every part of the header.
pub fn base_files() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(Def, Ver)> = vec![];
    let d0 = Def::default();
    let d1 = Def::default().dim("a", 3).var("v", Ty::I16, &["a"]);
    let d2 = Def::default().unlim("u", 2).dim("a", 3).attr("g", Val::pattern(Ty::U8, 3, 1)).var("v", Ty::I8, &["u", "a"]).vattr("q", Val::pattern(Ty::F64, 1, 1)).var("w", Ty::F32, &["a"]);
    let d3 = Def::default().dim("é", 2).unlim("u", 3).var("x", Ty::F64, &["u"]).var("y", Ty::I16, &["u", "é"]).vattr("s", Val::pattern(Ty::I16, 3, 2)).vattr("t", Val::empty(Ty::I32));
    let d4 = Def::default().attr("a", Val::pattern(Ty::I8, 5, 1)).attr("b", Val::pattern(Ty::U8, 2, 1)).attr("c", Val::pattern(Ty::I16, 1, 1)).attr("d", Val::pattern(Ty::I32, 1, 1)).attr("e", Val::pattern(Ty::F32, 2, 1)).attr("f", Val::pattern(Ty::F64, 1, 1));
    let d5 = Def::default().dim("a", 2).dim("b", 2).dim("c", 1).var("v", Ty::U8, &["a", "b", "c"]).var("w", Ty::I32, &[]);
    let d6 = Def::default().unlim("u", 0).var("v", Ty::I32, &["u"]);
    for (i, d) in [d0, d1, d2, d3, d4, d5, d6].into_iter().enumerate() { v.push((d.clone(), Ver::V1)); if i > 0 && i != 4 { v.push((d, Ver::V2)); } }
    let mut out: Vec<(String, Vec<u8>)> = v.into_iter().map(|(d, ver)| (crate::hist::show(&d, ver, 0, &[]), encode_file(&d, &full_data(&d, 5), ver, 0, true))).collect();
    // an indeterminate number of records
    let (d, ver) = (Def::default().unlim("u", 2).dim("a", 2).var("v", Ty::I16, &["u", "a"]).var("w", Ty::F64, &["u"]), Ver::V1);
    let mut b = encode_file(&d, &full_data(&d, 5), ver, 0, true);
    b[4..8].copy_from_slice(&[0xFF; 4]);
    out.push(("indeterminate number of records".into(), b));
    out
}
pub const WORDS: [u32; 44] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 16, 100, 255, 256, 257, 1023, 1024, 4096, 65535, 65536, 0x0100_0000, 0x0FFF_FFFF, 0x1000_0000, 0x1FFF_FFFF, 0x2000_0000, 0x3FFF_FFFF, 0x4000_0000, 0x4000_0001, 0x7FFF_FFF8, 0x7FFF_FFFB, 0x7FFF_FFFC, 0x7FFF_FFFD, 0x7FFF_FFFE, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0x8000_0010, 0xFFFF_0000, 0xFFFF_FFFC, 0xFFFF_FFFE, 0xFFFF_FFFF];
const WORDS_SMALL: [u32; 10] = [0, 1, 2, 3, 6, 0x1FFF_FFFF, 0x7FFF_FFFC, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF];
const WORDS_TINY: [u32; 5] = [0, 1, 0x4000_0001, 0x7FFF_FFFC, 0xFFFF_FFFF];
fn put(b: &mut [u8], pos: usize, w: u32) { b[pos..pos + 4].copy_from_slice(&w.to_be_bytes()) }
fn header_words(b: &[u8]) -> usize { decode_header(b).map(|d| d.header_len / 4).unwrap_or(b.len() / 4) }

pub type Judge = fn(&mut Ctx, &[u8]) -> Result<(), String>;
pub fn families_c06(t: Tier) -> Vec<Family> { families_c06_with(t, judge) }
/// The same byte strings under another judge (C22).
pub fn families_c06_with(t: Tier, judge: Judge) -> Vec<Family> {
    let th = t.thorough();
    let mut f = vec![];
    // all words as a type, all bytes as a version
    f.push(fam("conversions", "all 2^32 words taken as a data type, all 2^8 bytes as a version", 4097, move |i, ctx| {
        use std::convert::TryFrom;
        if i == 4096 {
            for b in 0..=255u8 {
                let want = match b { 1 => Some(netcdf3::Version::Classic), 2 => Some(netcdf3::Version::Offset64Bit), _ => None };
                let got = netcdf3::Version::try_from(b).ok();
                ck!(got == want, "byte {} as a version: {:?}", b, got);
            }
            ctx.op(256);
        } else {
            for j in 0..1u64 << 20 {
                let w = std::hint::black_box(((i << 20) + j) as u32);
                let got = netcdf3::DataType::try_from(w).ok();
                let ok = match (w, &got) { (1..=6, Some(t)) => t.clone() as u32 == w, (1..=6, None) => false, (_, x) => x.is_none() };
                ck!(ok, "word {} as a data type: {:?}", w, got);
            }
            ctx.op(1 << 20);
        }
        ctx.trace();
        Ok(())
    }));
    // all short strings
    {
        let prefixes: Vec<Vec<u8>> = vec![vec![], b"CDF\x01".to_vec(), b"CDF\x02".to_vec(), b"CDF\x01\0\0\0\0".to_vec(), b"CDF\x01\0\0\0\0\0\0\0".to_vec(), b"CDF\x01\0\0\0\0\0\0\0\x0a\0\0\0\x01\0\0\0\x01".to_vec(), b"CDF\x01\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x0c\0\0\0\x01\0\0\0\x01a\0\0\0\0\0\0".to_vec(), b"CDF\x01\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0".to_vec()];
        let np = prefixes.len() as u64;
        let pre = prefixes.clone();
        f.push(fam("short_strings", "all strings of 0..2 bytes, alone and after 7 prefixes of headers", 65793 * np, move |i, ctx| {
            let mut b = pre[(i % np) as usize].clone();
            let j = i / np;
            if j > 0 { if j <= 256 { b.push((j - 1) as u8); } else { b.extend([((j - 257) >> 8) as u8, (j - 257) as u8]); } }
            judge(ctx, &b)
        }));
        if th {
            f.push(fam("three_bytes", "all strings of 3 bytes", 1 << 24, move |i, ctx| judge(ctx, &[(i >> 16) as u8, (i >> 8) as u8, i as u8])));
        }
        f.push(fam("repeated_bytes", "strings of one repeated byte: 256 bytes x lengths 0..64 and around 1024, alone and after a valid start", 256 * 76 * 2, move |i, ctx| {
            let mut d = Digits(i);
            let (x, l, w) = (d.next(256) as u8, d.next(76), d.next(2));
            let l = if l < 65 { l } else { [1020, 1021, 1022, 1023, 1024, 1025, 1026, 1028, 2047, 2048, 2049][l - 65] };
            let mut b = if w == 1 { b"CDF\x01".to_vec() } else { vec![] };
            b.extend(std::iter::repeat(x).take(l));
            judge(ctx, &b)
        }));
    }
    let bases = base_files();
    {   // single byte
        let sizes: Vec<u64> = bases.iter().map(|b| b.1.len() as u64).collect();
        let total: u64 = sizes.iter().sum();
        let bs = bases.clone();
        f.push(fam("byte_substitutions", &format!("each byte of {} base files replaced by each of the 256 values", bs.len()), total * 256, move |i, ctx| {
            let (mut pos, val) = (i / 256, (i % 256) as u8);
            let mut k = 0;
            while pos >= sizes[k] { pos -= sizes[k]; k += 1; }
            let mut b = bs[k].1.clone();
            b[pos as usize] = val;
            judge(ctx, &b).map_err(|e| format!("byte {} := {:#04x} of {}\n{}", pos, val, bs[k].0, e))
        }));
    }
    {   // pairs of words
        let nb = if th { bases.len() } else { 6 };
        let order: Vec<usize> = if th { (0..bases.len()).collect() } else { vec![1, 3, 4, 5, 7, bases.len() - 1] };
        let words: Vec<u32> = if th { WORDS.to_vec() } else { WORDS_SMALL.to_vec() };
        let nw = words.len() as u64;
        let mut spaces = vec![];
        for k in &order[..nb.min(order.len())] { let h = header_words(&bases[*k].1) as u64; spaces.push((*k, h, h * (h - 1) / 2 * nw * nw)); }
        let total = spaces.iter().map(|s| s.2).sum();
        let bs = bases.clone();
        f.push(fam("word_pairs", &format!("each pair of header words of {} base files replaced by each pair of {} hostile values", spaces.len(), nw), total, move |i, ctx| {
            let mut j = i; let mut s = 0;
            while j >= spaces[s].2 { j -= spaces[s].2; s += 1; }
            let (k, _h, _) = spaces[s];
            let mut d = Digits(j);
            let (w1, w2) = (words[d.next(nw as usize)], words[d.next(nw as usize)]);
            // pair number -> (a, b), a < b
            let pair = d.0; let mut b2 = 1u64; while b2 * (b2 + 1) / 2 <= pair { b2 += 1; }
            let a2 = pair - b2 * (b2 - 1) / 2;
            let mut b = bs[k].1.clone();
            put(&mut b, a2 as usize * 4, w1); put(&mut b, b2 as usize * 4, w2);
            judge(ctx, &b).map_err(|e| format!("words {} := {:#x}, {} := {:#x} of {}\n{}", a2, w1, b2, w2, bs[k].0, e))
        }));
        let bs = bases.clone();
        let nw = WORDS.len() as u64;
        let sizes: Vec<u64> = bs.iter().map(|b| header_words(&b.1) as u64).collect();
        let total: u64 = sizes.iter().sum::<u64>() * nw;
        f.push(fam("words", &format!("each header word of {} base files replaced by each of {} hostile values, also with the file cut or zero-extended by 4 KiB", bs.len(), nw), total * 3, move |i, ctx| {
            let mut d = Digits(i);
            let (w, cut) = (WORDS[d.next(nw as usize)], d.next(3));
            let mut pos = d.0; let mut k = 0;
            while pos >= sizes[k] { pos -= sizes[k]; k += 1; }
            let mut b = bs[k].1.clone();
            put(&mut b, pos as usize * 4, w);
            match cut { 1 => { let n = (pos as usize * 4 + 8).min(b.len()); b.truncate(n) } 2 => { let n = b.len() + 4096; b.resize(n, 0) } _ => {} }
            judge(ctx, &b).map_err(|e| format!("word {} := {:#x} of {}\n{}", pos, w, bs[k].0, e))
        }));
    }
    if th {   // triples of words
        let k = 3usize;
        let h = header_words(&bases[k].1) as u64;
        let b0 = bases[k].1.clone();
        let n5 = WORDS_TINY.len();
        let places: Vec<[usize; 3]> = (0..h as usize).flat_map(|x| (x + 1..h as usize).flat_map(move |y| (y + 1..h as usize).map(move |z| [x, y, z]))).collect();
        f.push(fam("word_triples", &format!("each choice of 3 of the {} header words replaced by each triple of {} values", h, n5), places.len() as u64 * 125, move |i, ctx| {
            let mut d = Digits(i);
            let w = [WORDS_TINY[d.next(n5)], WORDS_TINY[d.next(n5)], WORDS_TINY[d.next(n5)]];
            let p = places[d.0 as usize];
            let mut b = b0.clone();
            for j in 0..3 { put(&mut b, p[j] * 4, w[j]); }
            judge(ctx, &b)
        }));
    }
    {   // insertions, deletions, duplications, swaps
        let bs = bases.clone();
        let sizes: Vec<u64> = bs.iter().map(|b| b.1.len() as u64 + 1).collect();
        let total: u64 = sizes.iter().sum();
        f.push(fam("edits", &format!("each position of {} base files: 1..8 bytes inserted (2 values) or deleted, 1..8 words duplicated, deleted or zeroed, cut", bs.len()), total * 41, move |i, ctx| {
            let e = (i % 41) as usize; let mut pos = i / 41; let mut k = 0;
            while pos >= sizes[k] { pos -= sizes[k]; k += 1; }
            let p = pos as usize;
            let mut b = bs[k].1.clone();
            let n = e % 8 + 1;
            match e / 8 {
                0 => { let ins = vec![0u8; n]; b.splice(p..p, ins); }
                1 => { let ins = vec![b'x'; n]; b.splice(p..p, ins); }
                2 => { let q = (p + n).min(b.len()); b.drain(p..q); }
                3 => { let q = (p + 4 * n).min(b.len()); let dup = b[p..q].to_vec(); b.splice(p..p, dup); }
                4 => { let q = (p + 4 * n).min(b.len()); b.drain(p..q); }
                _ => b.truncate(p),
            }
            judge(ctx, &b).map_err(|m| format!("edit {} at {} of {}\n{}", e, p, bs[k].0, m))
        }));
        let bs = bases.clone();
        let sizes: Vec<u64> = bs.iter().map(|b| { let h = header_words(&b.1) as u64; h * h }).collect();
        f.push(fam("word_swaps", &format!("each pair of header words of {} base files swapped, or the first copied over the second", bs.len()), sizes.iter().sum::<u64>() * 2, move |i, ctx| {
            let cp = i % 2 == 1; let mut j = i / 2; let mut k = 0;
            while j >= sizes[k] { j -= sizes[k]; k += 1; }
            let h = header_words(&bs[k].1) as u64;
            let (x, y) = ((j % h) as usize * 4, (j / h) as usize * 4);
            let mut b = bs[k].1.clone();
            for z in 0..4 { if cp { b[y + z] = b[x + z]; } else { b.swap(x + z, y + z); } }
            judge(ctx, &b)
        }));
    }
    // structured: the accepted data set is valid
    {
        let names: Vec<Vec<u8>> = vec![b"a".to_vec(), b"b".to_vec(), b"".to_vec(), b"/".to_vec(), b"a/".to_vec(), b" a".to_vec(), b"a\0".to_vec(), b"a\n".to_vec(), b"-a".to_vec(), vec![0xC3, 0xA9], vec![0xC3], vec![0xFF, 0xFE], b"a\x7f".to_vec(), vec![b'x'; 256], vec![b'x'; 257], "é".repeat(128).into_bytes(), format!("{}a", "é".repeat(128)).into_bytes()];
        let nn = names.len();
        f.push(fam("names", &format!("all quadruples of {} valid and invalid names for two items of each list (dimensions, global attributes, variables, attributes of a variable)", nn), (nn * nn * 4 * 4) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (n1, n2, list, other) = (&names[d.next(nn)], &names[d.next(nn)], d.next(4), d.next(4));
            let z = |l: usize, k: usize| -> Vec<u8> { if l == list || l == other && k == 0 { if k == 0 { n1.clone() } else { n2.clone() } } else { [b"p".to_vec(), b"q".to_vec()][k].clone() } };
            let b = raw_header(&[(z(0, 0), 2), (z(0, 1), 3)], &[z(1, 0), z(1, 1)], &[(z(2, 0), vec![0], vec![z(3, 0), z(3, 1)], 1), (z(2, 1), vec![1], vec![], 4)], 0, 40);
            judge(ctx, &b)
        }));
        let dimsets: Vec<Vec<u32>> = vec![vec![], vec![2], vec![0], vec![2, 3], vec![0, 2], vec![2, 0], vec![0, 0], vec![2, 0, 3], vec![0, 2, 0], vec![2, 3, 0x7FFF_FFFF], vec![0x7FFF_FFFC], vec![0x7FFF_FFFD], vec![1, 0x7FFF_FFFC, 0x7FFF_FFFC]];
        let nd = dimsets.len();
        let ids: Vec<Vec<u32>> = { let al = [0u32, 1, 2, 3, 0x7FFF_FFFF]; (0..nseqs(5, 4)).map(|j| seq(j, 5).iter().map(|k| al[*k]).collect()).collect() };
        let ni = ids.len();
        f.push(fam("dim_ids", &format!("{} lists of dimension sizes (0: unlimited) x {} lists of dimension ids x 3 types x 2 numrecs", nd, ni), (nd * ni * 6) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (ds, id, ty, nr) = (&dimsets[d.next(nd)], &ids[d.next(ni)], [1u32, 3, 6][d.next(3)], [1u32, u32::MAX][d.next(2)]);
            let dims: Vec<(Vec<u8>, u32)> = ds.iter().enumerate().map(|(k, s)| (format!("d{}", k).into_bytes(), *s)).collect();
            judge(ctx, &raw_header(&dims, &[], &[(b"v".to_vec(), id.clone(), vec![], ty)], nr, 64))
        }));
        // lists of many items, one pair of which breaks a rule
        let maxn = if th { 40 } else { 20 };
        let pairs: Vec<(usize, usize, usize)> = (1..=maxn).flat_map(|n| (0..n).flat_map(move |a| (0..n).map(move |b| (n, a, b)))).collect();
        let mut pairs = pairs;
        for n in [33usize, 34, 41, 64, 65, 66, 129, 130, 257, 258, 300, 513] { let at = [0, 1, 2, 3, n / 2, n - 33, n - 3, n - 2, n - 1]; for a in at { for b in at { if !pairs.contains(&(n, a, b)) { pairs.push((n, a, b)); } } } }
        let np = pairs.len();
        f.push(fam("pairs_in_lists", &format!("lists of 1..{} (and up to 513, at both ends and in the middle) items (dimensions, global attributes, variables, attributes of the first or of the last variable, dimensions of a variable), one item being given, at every position, the name of another (or the invalid name, or length zero, or the dimension id, or the unlimited dimension), 3 numbers of records", maxn), (np * 9 * 3) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (kind, nr, (n, a, b)) = (d.next(9), [0u32, 2, u32::MAX][d.next(3)], pairs[d.next(np)]);
            let list = |c: char, dup: bool| -> Vec<Vec<u8>> { (0..n).map(|k| { let k = if dup && k == b { a } else { k }; format!("{}{}", c, k).into_bytes() }).collect() };
            let mut dims: Vec<(Vec<u8>, u32)> = list('d', kind == 0).into_iter().enumerate().map(|(k, x)| (x, k as u32 % 4 + 1)).collect();
            if kind == 1 { dims[a].1 = 0; dims[b].1 = 0; }
            if kind == 8 { dims[a].1 = 0; }
            let mut g = if kind == 2 { list('g', true) } else { vec![b"g".to_vec()] };
            let (mut at1, mut at2) = (vec![], vec![b"q".to_vec()]);
            if kind == 4 { at1 = list('q', true); }
            if kind == 5 { at2 = list('q', true); at1 = vec![b"q0".to_vec()]; }
            let ids: Vec<u32> = match kind { 6 => (0..n).map(|k| if k == b { a as u32 } else { k as u32 }).collect(), 8 => { let mut v: Vec<u32> = (0..n as u32).filter(|k| *k != a as u32).collect(); v.insert(b, a as u32); v } _ => vec![0] };
            let mut vars = vec![(b"x".to_vec(), ids, at1, 3u32)];
            if kind == 3 { vars = list('v', true).into_iter().map(|x| (x, vec![], vec![], 1)).collect(); }
            vars.push((b"y".to_vec(), vec![(n - 1) as u32], at2, 6));
            if kind == 7 { let bad = [b"a/b".to_vec(), vec![0xC3], b"".to_vec(), b"a\n".to_vec()][(a + b) % 4].clone(); match nr { 0 => { dims[b].0 = bad } 2 => { g = list('g', false); g[b] = bad } _ => { vars[0].2 = list('q', false); vars[0].2[b] = bad } } }
            ctx.sample(|| format!("kind {} n {} a {} b {}", kind, n, a, b));
            judge(ctx, &raw_header(&dims, &g, &vars, nr, 64))
        }));
        // what is refused must be refused for every type
        f.push(fam("attr_types", "two attributes of the data set, of the first or of the last variable: pairs of types x pairs of 4 lengths x names (legal; the same, next to each other or not; empty; with a slash; with a control character; not starting legally; for either), both versions", 3 * 36 * 16 * 11 * 2, move |i, ctx| {
            let mut d = Digits(i);
            let (ver, place, t1, t2, l1, l2, k) = (VERS[d.next(2)], d.next(3), TYS[d.next(6)], TYS[d.next(6)], [1, 0, 3, 9][d.next(4)], [1, 0, 3, 9][d.next(4)], d.next(11));
            let bad = ["", "a/b", "a\u{7f}", "-a"];
            let (n1, n2) = match k { 0 => ("a", "b"), 1 | 2 => ("a", "a"), 3..=6 => (bad[k - 3], "b"), _ => ("a", bad[k - 7]) };
            let mut at = vec![(n1, Val::pattern(t1, l1, 1))];
            if k == 2 { at.push(("between", Val::pattern(Ty::I16, 3, 2))); }
            at.push((n2, Val::pattern(t2, l2, 5)));
            let mut def = Def::default().dim("n", 2);
            if place == 0 { for (n, v) in at.iter() { def = def.attr(n, v.clone()); } }
            def = def.var("v", Ty::I16, &["n"]);
            if place == 1 { for (n, v) in at.iter() { def = def.vattr(n, v.clone()); } }
            def = def.var("w", Ty::I16, &["n"]);
            if place == 2 { for (n, v) in at.iter() { def = def.vattr(n, v.clone()); } }
            let mut b = encode_header(&def, ver, 0, &[64, 64], &[4, 4], &HdrOpts::default());
            b.resize(b.len() + 64, 7);
            judge(ctx, &b)
        }));
        // sizes near overflow
        let sz: Vec<u32> = vec![1, 2, 3, 0xFFFF, 0x1_0000, 0x1_0001, 0x7FFF_FFF8, 0x7FFF_FFFB, 0x7FFF_FFFC];
        let ns = sz.len();
        let nrs: Vec<u32> = vec![0, 1, 2, 0x1_0000, 0x7FFF_FFFE, 0x7FFF_FFFF, 0x8000_0000, u32::MAX];
        let begins: Vec<u64> = vec![0, 100, 200, 201, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 1 << 62, i64::MAX as u64 - 3, i64::MAX as u64, 1 << 63, u64::MAX];
        let (nn, nb) = (nrs.len(), begins.len());
        let depth = if th { 4 } else { 3 };
        f.push(fam("huge_sizes", &format!("up to {} dimensions of {} sizes, 2 types, with/without unlimited, {} numbers of records, {} begin offsets, 1..2 variables, both versions", depth, ns, nn, nb), nseqs(ns, depth) * 2 * 2 * nn as u64 * nb as u64 * 2 * 2, move |i, ctx| {
            let mut d = Digits(i);
            let (ty, wu, nr, bg, two, ver) = ([Ty::I8, Ty::F64][d.next(2)], d.next(2) == 1, nrs[d.next(nn)], begins[d.next(nb)], d.next(2) == 1, VERS[d.next(2)]);
            if ver == Ver::V1 && bg > u32::MAX as u64 { return Ok(()); }
            let s = seq(d.0, ns);
            let mut def = Def::default();
            let mut l: Vec<String> = vec![];
            if wu { def = def.unlim("u", 0); l.push("u".into()); }
            for (k, x) in s.iter().enumerate() { def = def.dim(&format!("d{}", k), sz[*x] as usize); l.push(format!("d{}", k)); }
            let l: Vec<&str> = l.iter().map(|s| s.as_str()).collect();
            def = def.var("v", ty, &l);
            if two { def = def.var("w", Ty::I16, &l); }
            let nv = def.vars.len();
            let mut b = encode_header(&def, ver, nr, &vec![bg; nv], &vec![u32::MAX; nv], &HdrOpts::default());
            let n = b.len() + 64; b.resize(n, 7);
            judge(ctx, &b)
        }));
        // huge counts at each place of a header, with files of several lengths
        f.push(fam("huge_counts", "each count of a header set to each of 44 values, in files of 5 lengths up to 1 MiB", 7 * 44 * 5, move |i, ctx| {
            let mut d = Digits(i);
            let (place, w, ext) = (d.next(7), WORDS[d.next(44)], [0usize, 100, 4096, 65536, 1 << 20][d.next(5)]);
            let mut b = b"CDF\x01\0\0\0\0".to_vec();
            let p = |b: &mut Vec<u8>, v: u32| put_u32(b, v);
            match place {
                0 => { p(&mut b, 10); p(&mut b, w) }                                             // number of dimensions
                1 => { p(&mut b, 10); p(&mut b, 1); p(&mut b, w) }                               // length of a name
                2 => { p(&mut b, 0); p(&mut b, 0); p(&mut b, 12); p(&mut b, w) }                 // number of attributes
                3 => { p(&mut b, 0); p(&mut b, 0); p(&mut b, 12); p(&mut b, 1); p(&mut b, 1); b.extend(b"a\0\0\0"); p(&mut b, 6); p(&mut b, w) } // length of an attribute
                4 => { p(&mut b, 0); p(&mut b, 0); p(&mut b, 0); p(&mut b, 0); p(&mut b, 11); p(&mut b, w) } // number of variables
                5 => { for x in [0, 0, 0, 0, 11, 1, 1] { p(&mut b, x); } b.extend(b"v\0\0\0"); p(&mut b, w) } // number of dimensions of a variable
                _ => { for x in [0, 0, 0, 0, 11, 1, 1] { p(&mut b, x); } b.extend(b"v\0\0\0"); for x in [0, 12, w] { p(&mut b, x); } }
            }
            let n = b.len() + ext; b.resize(n, if i % 2 == 0 { 0 } else { 1 });
            judge(ctx, &b)
        }));
        // tags
        f.push(fam("tags", "all combinations of 7 tags and 3 counts for the three lists of an otherwise empty header", 21 * 21 * 21, move |i, ctx| {
            let mut d = Digits(i);
            let mut b = b"CDF\x01\0\0\0\0".to_vec();
            for _ in 0..3 { put_u32(&mut b, [0, 10, 11, 12, 13, 1, 0xFFFF_FFFF][d.next(7)]); put_u32(&mut b, [0, 1, 2][d.next(3)]); }
            judge(ctx, &b)
        }));
        // many empty variables or attributes sharing the same huge extent
        f.push(fam("overlapping", "1..64 variables which all cover the whole file (fixed-size or records), 4 types, both versions", 64 * 2 * 4 * 2, move |i, ctx| {
            let mut d = Digits(i);
            let (n, rec, ty, ver) = (d.next(64) + 1, d.next(2) == 1, [Ty::I8, Ty::I16, Ty::F32, Ty::F64][d.next(4)], VERS[d.next(2)]);
            let size = 4096;
            let mut def = if rec { Def::default().unlim("u", 1).dim("n", size / ty.size()) } else { Def::default().dim("n", size / ty.size()) };
            for k in 0..n { def = def.var(&format!("v{}", k), ty, if rec { &["u", "n"] } else { &["n"] }); }
            let h = def.header_len(ver);
            let mut b = encode_header(&def, ver, 1, &vec![h as u64; n], &vec![size as u32; n], &HdrOpts::default());
            b.resize(h + size, 0x11);
            judge(ctx, &b)
        }));
    }
    f
}
fn raw_name(b: &mut Vec<u8>, n: &[u8]) { put_u32(b, n.len() as u32); b.extend_from_slice(n); while b.len() % 4 != 0 { b.push(0); } }
/// (dims, global attributes, variables (name, dim ids, attributes, type), numrecs, trailing bytes)
fn raw_header(dims: &[(Vec<u8>, u32)], gattrs: &[Vec<u8>], vars: &[(Vec<u8>, Vec<u32>, Vec<Vec<u8>>, u32)], numrecs: u32, data: usize) -> Vec<u8> {
    let mut b = b"CDF\x01".to_vec();
    put_u32(&mut b, numrecs);
    put_u32(&mut b, if dims.is_empty() { 0 } else { 10 }); put_u32(&mut b, dims.len() as u32);
    for (n, s) in dims { raw_name(&mut b, n); put_u32(&mut b, *s); }
    let attrs = |b: &mut Vec<u8>, l: &[Vec<u8>]| { put_u32(b, if l.is_empty() { 0 } else { 12 }); put_u32(b, l.len() as u32); for n in l { raw_name(b, n); put_u32(b, 1); put_u32(b, 2); b.extend([7, 8, 0, 0]); } };
    attrs(&mut b, gattrs);
    put_u32(&mut b, if vars.is_empty() { 0 } else { 11 }); put_u32(&mut b, vars.len() as u32);
    for (n, ids, at, ty) in vars { raw_name(&mut b, n); put_u32(&mut b, ids.len() as u32); for i in ids { put_u32(&mut b, *i); } attrs(&mut b, at); put_u32(&mut b, *ty); put_u32(&mut b, 4); put_u32(&mut b, 100); }
    let n = b.len() + data; b.resize(n, 0x22);
    b
}

// ------------------------------------------------------------------------------------ C07
/// One cut of a file. `def`/`data`: its content.
fn cut_case(ctx: &mut Ctx, def: &Def, data: &Data, bytes: &[u8], hlen: usize, begins: &[u128], recsize: u128, cut: usize, what: &dyn Fn() -> String) -> Result<(), String> {
    let p = ctx.path("c.nc");
    std::fs::write(&p, &bytes[..cut]).map_err(|e| e.to_string())?;
    let m = |e: String| format!("{} cut at byte {} of {} (header: {} bytes)\n{}", what(), cut, bytes.len(), hlen, e);
    let res = FileReader::open(&p);
    ctx.op(1); ctx.trace();
    if cut < hlen {
        match res {
            Ok(_) => return Err(m("opened although its header is incomplete".into())),
            Err(e) => { if !e.header_is_incomplete() { return Err(m(format!("the error is not that of an incomplete header: {:?}", e))); } ctx.count("incomplete header"); }
        }
        return Ok(());
    }
    let mut r = res.map_err(|e| m(format!("the header is complete but open fails: {:?}", e)))?;
    let got = bind::snapshot(r.data_set()).map_err(m)?;
    if let Some(d) = bind::diff_def(def, &got) { return Err(m(d)); }
    let len = cut as u128;
    let avail = |v: usize, s: usize| begins[v] + if def.is_rec(v) { recsize * s as u128 } else { 0 } + def.slab_bytes(v) <= len;
    let mut n = 0;
    let name = |v: usize| def.vars[v].name.as_str();
    let mut all = true;
    for v in 0..def.vars.len() {
        let ok = (0..def.nslabs(v)).all(|s| avail(v, s));
        all &= ok;
        match (bind::read_var(&mut r, name(v)), ok) {
            (Ok(g), true) => { let e = var_value(def, data, v); if g != e { return Err(m(format!("read_var({:?}): expected {:?} got {:?}{}", name(v), e, g, bind::where_diff(&e, &g)))); } }
            (Err(_), false) => {}
            (Ok(g), false) => return Err(m(format!("read_var({:?}) gives {:?} while some bytes are missing", name(v), g))),
            (Err(e), true) => return Err(m(format!("read_var({:?}) fails ({:?}) while all its bytes are there", name(v), e))),
        }
        n += 1;
        for s in 0..def.nslabs(v) {
            match (bind::read_rec(&mut r, name(v), s), avail(v, s)) {
                (Ok(g), true) => { let e = slab_value(def, data, v, s); if g != e { return Err(m(format!("read_record({:?},{}): expected {:?} got {:?}", name(v), s, e, g))); } }
                (Err(_), false) => {}
                (Ok(g), false) => return Err(m(format!("read_record({:?},{}) gives {:?} while some bytes are missing", name(v), s, g))),
                (Err(e), true) => return Err(m(format!("read_record({:?},{}) fails ({:?}) while its bytes are there", name(v), s, e))),
            }
            n += 1;
        }
    }
    match (r.read_all_vars(), all) { (Ok(_), true) | (Err(_), false) => {} (Ok(_), false) => return Err(m("read_all_vars succeeds while some bytes are missing".into())), (Err(e), true) => return Err(m(format!("read_all_vars fails: {:?}", e))) }
    ctx.count(if all { "complete" } else { "cut in the data" });
    ctx.op(n + 1);
    Ok(())
}
fn cut_all(ctx: &mut Ctx, def: &Def, ver: Ver, hmin: usize, salt: usize, cuts: &dyn Fn(usize, usize) -> Vec<usize>) -> Result<(), String> {
    let data = full_data(def, salt);
    let bytes = encode_file(def, &data, ver, hmin, true);
    let lay = canonical_layout(def, ver, hmin, def.recsize_padded());
    ctx.state(&(def, ver, hmin));
    for c in cuts(lay.header_len as usize, bytes.len()) {
        cut_case(ctx, def, &data, &bytes, lay.header_len as usize, &lay.begins, lay.recsize, c, &|| crate::hist::show(def, ver, hmin, &[]))?;
    }
    Ok(())
}
pub fn families_c07(t: Tier) -> Vec<Family> {
    use crate::spaces;
    let th = t.thorough();
    let mut f = vec![];
    // every prefix of small files: pairs of kinds
    {
        let nk = 10;
        let nr = if th { 4 } else { 3 };
        f.push(fam("pairs", &format!("pairs of {} variable kinds x 0..{} records x 2 versions: every prefix", nk, nr - 1), (nk * nk * nr * 2) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (k1, k2, r, ver) = (d.next(nk), d.next(nk), d.next(nr), VERS[d.next(2)]);
            let def = spaces::add_small(spaces::add_small(spaces::dims_abu(1, 3, 5, r).attr("g", Val::pattern(Ty::U8, 3, 1)), "v", k1).vattr("q", Val::pattern(Ty::I16, 1, 1)), "w", k2);
            ctx.sample(|| crate::hist::show(&def, ver, 0, &[]));
            cut_all(ctx, &def, ver, 0, 3, &|_, n| (0..=n).collect())
        }));
    }
    // every prefix of the other spaces (data cuts around every boundary)
    for s in spaces::all(t) {
        if !s.data || ["attr_bits", "records", "chunk_lens", "attr_u8_bytes", "header_len", "header_shift", "var_pairs", "counts", "attr_lens", "attr_text", "byte_pairs", "conventions", "attr_long", "large"].contains(&s.name) && !(th && s.name == "var_pairs") { continue; }
        let gen = s.gen;
        let stride: u64 = if s.n > 20_000 && !th { 9 } else { 1 };
        let n = (s.n + stride - 1) / stride;
        let every = s.n < 3000 || th;
        f.push(fam(&format!("space_{}", s.name), &format!("{}{}: {}", s.bound, if stride > 1 { " (one definition in 9)" } else { "" }, if every { "every prefix" } else { "prefixes ending around the end of the header and in the last 40 bytes, and one in 7" }), n, move |i, ctx| {
            let def = match gen(i * stride) { Some(d) => d, None => return Ok(()) };
            let ver = VERS[(i % 2) as usize];
            if every { cut_all(ctx, &def, ver, 0, 5, &|_, n| if n < 1500 { (0..=n).collect() } else { (0..300).chain(n - 900..=n).collect() }) }
            else { cut_all(ctx, &def, ver, 0, 5, &move |h, n| { let mut c: Vec<usize> = (0..=n).filter(|x| (*x as u64 + i) % 7 == 0 || x + 40 > n || (*x + 2 >= h && *x <= h + 2)).collect(); c.dedup(); c }) }
        }));
    }
    // big headers: cuts around each 1024-byte block and every boundary
    {
        let kinds = 8;
        let sizes: Vec<usize> = (0..if th { 64 } else { 16 }).collect();
        let ns = sizes.len();
        f.push(fam("big_headers", &format!("{} kinds of headers of 1..9 KiB x {} shifts: every cut", kinds, ns), (kinds * ns * 2) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (k, sh, ver) = (d.next(kinds), sizes[d.next(ns)], VERS[d.next(2)]);
            let mut def = Def::default().unlim("u", 2).dim("n", 3);
            if sh > 0 { def = def.attr("shift", Val::pattern(Ty::U8, sh, 1)); }
            def = match k {
                0 => { for j in 0..60 { def = def.dim(&format!("dimension_{}", j), j + 1); } def.var("v", Ty::I16, &["u", "n"]) }
                1 => { for j in 0..40 { def = def.attr(&format!("é{}", j), Val::pattern(TYS[j % 6], j % 9, j)); } def.var("v", Ty::F64, &["n"]) }
                2 => { for j in 0..30 { def = def.var(&format!("variable {}", j), TYS[j % 6], [&["u"][..], &["n"][..], &["u", "n"][..], &[][..]][j % 4]); } def }
                3 => { def = def.var("v", Ty::I8, &["u"]); for j in 0..25 { def = def.vattr(&format!("a{}", j), Val::pattern(TYS[j % 6], 7 - j % 7, j)); } def.var("w", Ty::F64, &["u", "n"]) }
                4 => def.attr("long", Val::pattern(Ty::F64, 300, 1)).var("v", Ty::I8, &["n"]),
                5 => { let n = spaces::name_of(256, 4, 0); def.dim(&n, 4).attr(&spaces::name_of(253, 3, 1), Val::pattern(Ty::I32, 500, 1)).var(&spaces::name_of(255, 2, 2), Ty::F32, &[&n]).var("w", Ty::I16, &["u"]) }
                6 => def.attr("s", Val::pattern(Ty::U8, 2047, 1)).attr("t", Val::pattern(Ty::I16, 1021, 1)).var("v", Ty::U8, &["u", "n"]),
                _ => { for j in 0..12 { def = def.var(&format!("v{}", j), TYS[j % 6], &["u", "n"]); for l in 0..4 { def = def.vattr(&format!("b{}", l), Val::pattern(TYS[(j + l) % 6], j + l, l)); } } def }
            };
            cut_all(ctx, &def, ver, 0, 3, &|_, n| (0..=n).collect())
        }));
        // long headers: cut at every block boundary
        {
            let lens: Vec<usize> = vec![3_000, 7_000, 9_000, 17_000, 33_000, 66_000, if th { 270_000 } else { 132_000 }];
            let nl = lens.len();
            f.push(fam("long_headers", &format!("headers of {:?} bytes and of a few bytes more, made of one long attribute, of many attributes, or of many variables: cuts around every multiple of 512 (and 1000) bytes, and around the end", lens), (nl * 3 * 2 * 8) as u64, move |i, ctx| {
                let mut d = Digits(i);
                let (part, kind, ver, len) = (d.next(8), d.next(3), VERS[d.next(2)], lens[d.next(nl)]);
                let mut def = Def::default().unlim("u", 2).dim("n", 3);
                match kind {
                    0 => def = def.attr("long", Val::pattern(Ty::U8, len - 61, 1)),
                    1 => for j in 0..len / 48 { def = def.attr(&format!("attribute_{}", j), Val::pattern(TYS[j % 6], 9 - j % 7, j)); },
                    _ => for j in 0..len / 52 { def = def.var(&format!("variable{}", j), TYS[j % 6], [&["u"][..], &["n"][..], &["u", "n"][..]][j % 3]); },
                }
                def = def.var("v", Ty::I16, &["u", "n"]).vattr("q", Val::pattern(Ty::F64, 2, 1)).var("w", Ty::F64, &["n"]);
                let many = kind == 2;
                cut_all(ctx, &def, ver, 0, 3, &|h, n| {
                    let c: Vec<usize> = (0..=n).filter(|x| (x % 512 < 2 || x % 512 == 511 || x % 1000 == 0 || x + 40 > h && *x < h + 4 || x + 12 > n) && !(many && *x > h + 1100 && x + 12 < n)).collect();
                    c.into_iter().enumerate().filter(|(j, _)| j % 8 == part).map(|(_, x)| x).collect()
                })
            }));
        }
        let max = if th { 2100 } else { 1100 };
        f.push(fam("header_lengths", &format!("headers of every length up to {} bytes (u8 attribute of 0..{} bytes): cuts around the 1024-byte blocks and the end of the header; then the header alone, of exactly that length", max + 200, max), max as u64, move |i, ctx| {
            let def = Def::default().dim("n", 2).attr("pad", Val::pattern(Ty::U8, i as usize, 1)).var("v", Ty::F64, &["n"]).vattr("é", Val::pattern(Ty::F64, 2, 1));
            let ver = VERS[(i % 2) as usize];
            let near = |x: usize, c: usize| x + 5 >= c && x <= c + 5;
            cut_all(ctx, &def, ver, 0, 3, &|h, n| (0..=n).filter(|x| near(*x, 1024) || near(*x, 2048) || near(*x, 3072) || x + 12 > h || *x < 9).collect())?;
            // no variable: the file is the header only
            let def = Def::default().dim("n", 2).attr("pad", Val::pattern(Ty::U8, i as usize, 1)).unlim("u", 4);
            cut_all(ctx, &def, ver, 0, 3, &|h, n| (0..=n).filter(|x| near(*x, 1024) || near(*x, 2048) || x + 12 > h).collect())
        }));
    }
    // header space before the data
    f.push(fam("header_min_size", "header_min_size 0..130 and around 1024 and 2048 x 3 definitions: every prefix", 150 * 3, move |i, ctx| {
        let mut d = Digits(i);
        let (k, h) = (d.next(3) + 1, d.next(150));
        let hmin = if h < 130 { h * 3 } else if h < 140 { 1019 + h - 130 } else { 2043 + h - 140 };
        let def = crate::c_def::sweep_def(k);
        let ver = VERS[(i % 2) as usize];
        cut_all(ctx, &def, ver, hmin, 3, &|h, n| (0..=n).filter(|x| *x < 8 || x + 60 > n || *x + 6 > h && *x < h + 6 || x % 16 == 0 || x % 1024 < 4).collect())
    }));
    // larger data, all types: cuts around each element and record boundary of the file
    {
        let lens: Vec<usize> = vec![1, 2, 3, 5, 8, 33, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097];
        let nl = lens.len();
        f.push(fam("lengths", &format!("{} variable lengths x 6 types x fixed-size/record: cuts of the last 70 bytes and around blocks of 512 bytes", nl), (nl * 12) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (l, t, rec) = (lens[d.next(nl)], TYS[d.next(6)], d.next(2) == 1);
            let def = Def::default().dim("n", l).unlim("u", 2);
            let def = if rec { def.var("w", Ty::I32, &["u"]).var("v", t, &["u", "n"]) } else { def.var("w", Ty::I32, &["u"]).var("v", t, &["n"]) };
            cut_all(ctx, &def, VERS[(i % 2) as usize], 0, 3, &|h, n| (h..=n).filter(|x| x + 70 > n || x % 512 < 2 || x % 512 > 510 || *x < h + 4).collect())
        }));
    }
    // layouts of other writers: records before the fixed-size variables, gaps
    {
        f.push(fam("layouts", "pairs of 10 kinds x 0..2 records in reversed order, with gaps, records first: every prefix", 10 * 10 * 3 * 2, move |i, ctx| {
            let mut d = Digits(i);
            let (k1, k2, r, rf) = (d.next(10), d.next(10), d.next(3), d.next(2) == 1);
            let def = spaces::add_small(spaces::add_small(spaces::dims_abu(1, 3, 5, r), "v", k1), "w", k2);
            if def.special_case() { ctx.count("skipped: known finding"); return Ok(()); }
            let ver = VERS[(i % 2) as usize];
            let mut l = crate::c_read::canonical(&def);
            l.fixed.reverse(); l.rec.reverse(); l.head_gap = 8; l.fixed_gap = 4; l.rec_gap = 4; l.records_first = rf; l.gap_byte = 0x77;
            let data = full_data(&def, 9);
            let (bytes, begins, recsize) = crate::c_read::encode_layout(&def, &data, ver, &l);
            let hlen = def.header_len(ver);
            ctx.state(&(&def, rf, ver));
            for c in 0..=bytes.len() { cut_case(ctx, &def, &data, &bytes, hlen, &begins, recsize, c, &|| format!("{} {:?}", crate::hist::show(&def, ver, 0, &[]), l))?; }
            Ok(())
        }));
    }
    f
}

// ------------------------------------------------------------------------------------ C05 on mutated files
/// If `bytes` is a well-formed file (strict reference decoder), the library must read it as the
/// reference does.
pub fn read_if_well_formed(ctx: &mut Ctx, bytes: &[u8]) -> Result<(), String> {
    let dec = match decode_header(bytes) { Ok(d) => d, Err(_) => { ctx.count("skipped: not well-formed"); return Ok(()) } };
    let def = &dec.def;
    let max_dim = 0x7FFF_FFFC;
    if dec.numrecs > i32::MAX as u32 || invalid(def).is_some() || !sizes_ok(def) || def.dims.iter().any(|d| !d.unlim && d.size > max_dim) || def.special_case()
        || dec.begins.iter().any(|b| *b < dec.header_len as u64 || if dec.ver == Ver::V1 { *b > i32::MAX as u64 } else { *b > i64::MAX as u64 })
        || (0..def.vars.len()).any(|v| dec.vsizes[v] != vsize_field(def.vsize(v)) && dec.vsizes[v] as u128 != def.vsize(v) && dec.vsizes[v] != u32::MAX) { ctx.count("skipped: not well-formed"); return Ok(()); }
    ctx.count("well-formed");
    let p = ctx.path("x.nc");
    std::fs::write(&p, bytes).map_err(|e| e.to_string())?;
    let m = |e: String| format!("{}\n{:?}\nbytes ({}): {}", e, dec, bytes.len(), hex(bytes));
    let mut r = FileReader::open(&p).map_err(|e| m(format!("a well-formed file is refused: {:?}", e)))?;
    let got = bind::snapshot(r.data_set()).map_err(m)?;
    if let Some(d) = bind::diff_def(def, &got) { return Err(m(d)); }
    ck!(bind::unver(&r.version()) == dec.ver, "{}", m("version".into()));
    let recsize = def.recsize_padded();
    let slab = |v: usize, s: usize| -> Option<&[u8]> { let at = dec.begins[v] as u128 + if def.is_rec(v) { recsize * s as u128 } else { 0 }; if at + def.slab_bytes(v) > bytes.len() as u128 { None } else { Some(&bytes[at as usize..(at + def.slab_bytes(v)) as usize]) } };
    let mut n = 2;
    for v in 0..def.vars.len() {
        let name = &def.vars[v].name;
        let ns = def.nslabs(v);
        let mut whole = Some(vec![]);
        for s in 0..ns.min(2000) { match slab(v, s) { Some(b) => if let Some(w) = whole.as_mut() { w.extend_from_slice(b) }, None => { whole = None; break } } }
        if ns > 2000 && whole.is_some() { continue; }
        match (bind::read_var(&mut r, name), whole) { (Ok(g), Some(w)) => if g.raw != w { return Err(m(format!("read_var({:?}) gives {:?}", name, g))); }, (Err(_), None) => {} (Ok(g), None) => return Err(m(format!("read_var({:?}) gives {:?} while bytes are missing", name, g))), (Err(e), Some(_)) => return Err(m(format!("read_var({:?}) fails: {:?}", name, e))) }
        n += 1;
        for s in (0..ns).take(4).chain(ns.checked_sub(1)) {
            match (bind::read_rec(&mut r, name, s), slab(v, s)) { (Ok(g), Some(w)) => if g.raw != w { return Err(m(format!("read_record({:?},{}) gives {:?}", name, s, g))); }, (Err(_), None) => {} (Ok(g), None) => return Err(m(format!("read_record({:?},{}) gives {:?} while bytes are missing", name, s, g))), (Err(e), Some(_)) => return Err(m(format!("read_record({:?},{}) fails: {:?}", name, s, e))) }
            n += 1;
        }
    }
    ctx.op(n); ctx.trace(); ctx.state(def);
    Ok(())
}
pub fn families_c05(t: Tier) -> Vec<Family> {
    let mut f = vec![];
    let bases = base_files();
    let sizes: Vec<u64> = bases.iter().map(|b| b.1.len() as u64).collect();
    let total: u64 = sizes.iter().sum();
    let bs = bases.clone();
    f.push(fam("mutated_bytes", &format!("each byte of {} base files replaced by each of the 256 values: every file which is still well-formed is read as the reference decoder reads it", bs.len()), total * 256, move |i, ctx| {
        let (mut pos, val) = (i / 256, (i % 256) as u8);
        let mut k = 0;
        while pos >= sizes[k] { pos -= sizes[k]; k += 1; }
        let mut b = bs[k].1.clone();
        b[pos as usize] = val;
        read_if_well_formed(ctx, &b)
    }));
    let words: Vec<u32> = if t.thorough() { WORDS.to_vec() } else { vec![0, 1, 2, 3, 4, 5, 6, 8, 12, 100, 160, 0x7FFF_FFFC, u32::MAX] };
    let nw = words.len() as u64;
    let mut spaces = vec![];
    for k in 0..bases.len() { let h = header_words(&bases[k].1) as u64; spaces.push((k, h * (h - 1) / 2 * nw * nw)); }
    let total = spaces.iter().map(|s| s.1).sum();
    f.push(fam("mutated_words", &format!("each pair of header words of {} base files replaced by each pair of {} values: the same", spaces.len(), nw), total, move |i, ctx| {
        let mut j = i; let mut s = 0;
        while j >= spaces[s].1 { j -= spaces[s].1; s += 1; }
        let mut d = Digits(j);
        let (w1, w2) = (words[d.next(nw as usize)], words[d.next(nw as usize)]);
        let pair = d.0; let mut b2 = 1u64; while b2 * (b2 + 1) / 2 <= pair { b2 += 1; }
        let a2 = pair - b2 * (b2 - 1) / 2;
        let mut b = bases[s].1.clone();
        put(&mut b, a2 as usize * 4, w1); put(&mut b, b2 as usize * 4, w2);
        read_if_well_formed(ctx, &b)
    }));
    f
}
