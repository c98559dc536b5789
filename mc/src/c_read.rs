//! C05 (every well-formed layout is read properly) and C13 (all ways of reading agree).
use crate::bind;
use crate::hist;
use crate::model::*;
use crate::runner::*;
use crate::spaces::*;
use netcdf3::{DataVector, FileReader, ReadError};

// ------------------------------------------------------------------------------------ layouts
#[derive(Clone, Debug, Hash, Default)]
pub struct Lay {
    /// placement order of the fixed-size variables and of the record variables (indices of variables)
    pub fixed: Vec<usize>,
    pub rec: Vec<usize>,
    pub head_gap: usize,
    pub fixed_gap: usize,
    pub rec_gap: usize,
    /// the fixed-size variables are located after the records
    pub records_first: bool,
    pub indet: bool,
    pub vsize_indet: bool,
    /// empty lists: bit 0 dims, 1 global attributes, 2 variables, 3 variable attributes
    pub tags: usize,
    pub pad: Option<u8>,
    pub gap_byte: u8,
    pub trailing: usize,
}
pub fn canonical(def: &Def) -> Lay {
    Lay { fixed: (0..def.vars.len()).filter(|v| !def.is_rec(*v)).collect(), rec: (0..def.vars.len()).filter(|v| def.is_rec(*v)).collect(), head_gap: (hist::hm(def) / 4 * 4) as _, ..Lay::default() }
}
/// (bytes, begin offsets, record size)
pub fn encode_layout(def: &Def, data: &Data, ver: Ver, l: &Lay) -> (Vec<u8>, Vec<u128>, u128) {
    let o = HdrOpts { empty_dims_tagged: l.tags & 1 != 0, empty_gattrs_tagged: l.tags & 2 != 0, empty_vars_tagged: l.tags & 4 != 0, empty_vattrs_tagged: l.tags & 8 != 0 };
    let z = vec![0u64; def.vars.len()]; let zs = vec![0u32; def.vars.len()];
    let hlen = encode_header(def, ver, 0, &z, &zs, &o).len();
    let special = def.special_case();
    let recsize: u128 = if special { l.rec.iter().map(|v| def.slab_bytes(*v)).sum() } else { def.recsize_padded() };
    let mut begins = vec![0u128; def.vars.len()];
    let mut pos = hlen as u128 + l.head_gap as u128;
    let fixed = |pos: &mut u128, begins: &mut Vec<u128>| for v in &l.fixed { begins[*v] = *pos; *pos += def.vsize(*v) + l.fixed_gap as u128; };
    if !l.records_first { fixed(&mut pos, &mut begins); }
    if !l.rec.is_empty() { pos += l.rec_gap as u128; }
    let mut p = pos;
    for v in &l.rec { begins[*v] = p; p += def.vsize(*v); }
    pos += recsize * if l.rec.is_empty() { 0 } else { def.numrecs() as u128 };
    if l.records_first { pos = round4(pos); fixed(&mut pos, &mut begins); }
    let b64: Vec<u64> = begins.iter().map(|b| *b as u64).collect();
    let vs: Vec<u32> = (0..def.vars.len()).map(|v| if l.vsize_indet { u32::MAX } else { vsize_field(def.vsize(v)) }).collect();
    let mut out = encode_header(def, ver, if l.indet { u32::MAX } else { numrecs_field(def.numrecs()) }, &b64, &vs, &o);
    out.resize((pos as usize).max(out.len()), l.gap_byte);
    let end = out.len();
    let _ = end;
    place_data(def, data, &mut out, &begins, recsize, special, l.pad);
    out.extend(std::iter::repeat(0xEE).take(l.trailing));
    (out, begins, recsize)
}

/// Reads everything of a file which must hold `def` and `data`.
pub fn check_file(ctx: &mut Ctx, path: &std::path::Path, def: &Def, data: &Data, ver: Ver) -> Result<(), String> {
    let mut r = FileReader::open(path).map_err(|e| format!("FileReader::open: {:?}", e))?;
    ck!(bind::unver(&r.version()) == ver, "version {:?}", r.version());
    ck!(r.file_path() == path, "file_path {:?}", r.file_path());
    let got = bind::snapshot(r.data_set())?;
    if let Some(d) = bind::diff_def(def, &got) { return Err(d); }
    let n = bind::check_all_data(&mut r, def, data)?;
    ctx.op(n + 2); ctx.trace();
    Ok(())
}
/// The outcome of reading the unpadded records of the special case with the padded record size
/// (the known finding): `true` if the library gives exactly that.
fn is_known_misreading(path: &std::path::Path, def: &Def, data: &Data, ver: Ver, bytes: &[u8], begins: &[u128], indet: bool) -> bool {
    let v = (0..def.vars.len()).find(|v| def.is_rec(*v)).unwrap();
    let (padded, slab) = (def.vsize(v) as usize, def.slab_bytes(v) as usize);
    let mut d = def.clone();
    if indet {
        let total = bytes.len() - begins[v] as usize;
        if total % padded != 0 { return matches!(FileReader::open(path), Err(ReadError::ComputationNumberOfRecords)); }
        for x in d.dims.iter_mut() { if x.unlim { x.size = total / padded; } }
    }
    let mut r = match FileReader::open(path) { Ok(r) => r, Err(_) => return false };
    match bind::snapshot(r.data_set()) { Ok(s) if s == d => {} _ => return false }
    let name = &def.vars[v].name;
    let mut whole = Some(vec![]);
    for s in 0..d.nslabs(v) {
        let at = begins[v] as usize + s * padded;
        let exp = bytes.get(at..at + slab);
        match (bind::read_rec(&mut r, name, s), exp) { (Ok(g), Some(e)) if g.raw == e => whole.as_mut().map(|w| w.extend_from_slice(e)), (Err(_), None) => { whole = None; None } _ => return false };
        if exp.is_none() { whole = None; }
    }
    match (bind::read_var(&mut r, name), whole) { (Ok(g), Some(w)) => { if g.raw != w { return false; } } (Err(_), None) => {} _ => return false }
    // the fixed-size variables are not affected
    (0..def.vars.len()).filter(|x| *x != v).all(|x| {
        let (n, e) = (&def.vars[x].name, var_value(def, data, x));
        matches!(bind::read_var(&mut r, n), Ok(g) if g == e) && matches!(bind::read_rec(&mut r, n, 0), Ok(g) if g == e) && matches!(bind::read_rec(&mut r, n, 1), Err(ReadError::RecordIndexExceeded { .. }))
    }) && bind::unver(&r.version()) == ver
}
pub fn layout_case(ctx: &mut Ctx, def: &Def, data: &Data, ver: Ver, l: &Lay) -> Result<(), String> {
    let p = ctx.path("l.nc");
    let (bytes, begins, _) = encode_layout(def, data, ver, l);
    std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
    ctx.state(&(def, l, ver));
    match check_file(ctx, &p, def, data, ver) {
        Ok(()) => Ok(()),
        Err(e) => {
            if def.special_case() && (def.numrecs() >= 2 || l.indet) && is_known_misreading(&p, def, data, ver, &bytes, &begins, l.indet) {
                ctx.known(hist::SPECIAL_FINDING, || format!("{} read with padded records", hist::show(def, ver, 0, &[])));
                return Ok(());
            }
            Err(format!("{} layout {:?}\n{}", hist::show(def, ver, 0, &[]), l, e))
        }
    }
}

pub fn families_c05(t: Tier) -> Vec<Family> {
    let th = t.thorough();
    let mut f = vec![];
    for s in all(t) {
        if !s.data { continue; }
        if s.name == "attr_u8_bytes" && !th { continue; }
        let nv = if s.n < 60_000 || th { 2 } else { 1 };
        let gen = s.gen;
        f.push(fam(s.name, &format!("{} x {} version(s): canonical file encoded by the model, read by the library", s.bound, nv), s.n * nv, move |i, ctx| {
            let ver = if nv == 2 { VERS[(i % 2) as usize] } else { VERS[(i / 7 % 2) as usize] };
            let def = match gen(i / nv) { Some(d) => d, None => { ctx.count("skipped: not a valid combination"); return Ok(()) } };
            ctx.sample(|| hist::show(&def, ver, 0, &[]));
            let l = canonical(&def);
            layout_case(ctx, &def, &full_data(&def, (i % 200) as usize), ver, &l)
        }));
    }
    // big dimensions, header only
    for s in all(t) {
        if s.data { continue; }
        let gen = s.gen;
        f.push(fam(s.name, &s.bound, s.n * 2, move |i, ctx| {
            let def = match gen(i / 2) { Some(d) => d, None => return Ok(()) };
            let d = if def.vars.is_empty() { vec![] } else { full_data(&def, 1) };
            layout_case(ctx, &def, &d, VERS[(i % 2) as usize], &canonical(&def))
        }));
    }
    {   // sizes of variables stored on 32 bits without a sign
        let mut ts: Vec<u64> = vec![];
        for c in [1u64 << 31, 3 << 30, 1 << 32] { for d in -6..=6i64 { ts.push((c as i64 + 8 * d) as u64); ts.push((c as i64 + 8 * d + 4) as u64); } }
        ts.extend([1 << 30, (1 << 32) - 4, (1 << 33) - 8, 1 << 33, 5 << 31]);
        ts.sort(); ts.dedup();
        let nt = ts.len();
        f.push(fam("large_vsizes", &format!("a variable of {} sizes around 2^31, 3*2^30 and 2^32 bytes (6 types, fixed-size or record, first, middle or last, 0..2 records), its size stored exactly or as 2^32-1 (sparse files, both versions)", nt), (nt * 6 * 2 * 3 * 3 * 2 * 2) as u64, move |i, ctx| {
            let mut g = Digits(i);
            let (t, ty, rec, pos, r, exact, ver) = (ts[g.next(nt)], TYS[g.next(6)], g.next(2) == 1, g.next(3), g.next(3), g.next(2) == 1, VERS[g.next(2)]);
            if exact && t > u32::MAX as u64 || !exact && t <= i32::MAX as u64 { ctx.count("skipped: not a valid combination"); return Ok(()); }
            if t % (4 * ty.size() as u64) != 0 || t / 4 / ty.size() as u64 > (1 << 31) - 4 { ctx.count("skipped: not a valid combination"); return Ok(()); }
            let per = 4u64; let el = t / per / ty.size() as u64;
            let mut d = Def::default().unlim("u", r).dim("four", per as usize).dim("a", el as usize).dim("k", 3);
            let big: Vec<&str> = if rec { vec!["u", "four", "a"] } else { vec!["four", "a"] };
            if pos > 0 { d = d.var("s0", Ty::I16, &["k"]).var("q0", Ty::I32, &["u"]); }
            d = d.var("big", ty, &big);
            if pos < 2 { d = d.var("s1", Ty::F64, &["k"]).var("q1", Ty::I16, &["u", "k"]); }
            let lay = canonical_layout(&d, ver, 0, d.recsize_padded());
            if ver == Ver::V1 && lay.begins.iter().any(|b| *b > i32::MAX as u128) { ctx.count("skipped: not a valid combination"); return Ok(()); }
            let vs: Vec<u32> = (0..d.vars.len()).map(|v| if d.vars[v].name == "big" { if exact { d.vsize(v) as u32 } else { u32::MAX } } else { d.vsize(v) as u32 }).collect();
            let m = |e: String| format!("{} vsizes {:?}: {}", hist::show(&d, ver, 0, &[]), vs, e);
            let p = ctx.path("lv.nc");
            {
                use std::os::unix::fs::FileExt;
                let f = std::fs::File::create(&p).map_err(|e| e.to_string())?;
                f.write_all_at(&encode_header(&d, ver, r as u32, &lay.begins.iter().map(|b| *b as u64).collect::<Vec<_>>(), &vs, &HdrOpts::default()), 0).map_err(|e| e.to_string())?;
                for v in 0..d.vars.len() { if d.vars[v].name != "big" { for s in 0..d.nslabs(v) {
                    f.write_all_at(&Val::pattern(d.vars[v].ty, d.slab_len(v) as usize, v + 7 * s).raw, (lay.begins[v] + lay.recsize * s as u128) as u64).map_err(|e| e.to_string())?;
                } } }
                f.set_len(lay.total as u64).map_err(|e| e.to_string())?;
            }
            let mut rd = FileReader::open(&p).map_err(|e| m(format!("FileReader::open: {:?}", e)))?;
            if let Some(x) = bind::diff_def(&d, &bind::snapshot(rd.data_set()).map_err(m)?) { return Err(m(x)); }
            for v in 0..d.vars.len() { if d.vars[v].name != "big" { for s in 0..d.nslabs(v) {
                let g = bind::read_rec(&mut rd, &d.vars[v].name, s).map_err(|e| m(format!("record {} of {:?}: {:?}", s, d.vars[v].name, e)))?;
                ck!(g == Val::pattern(d.vars[v].ty, d.slab_len(v) as usize, v + 7 * s), "{}", m(format!("record {} of {:?}: {:?}", s, d.vars[v].name, g)));
                ctx.op(1);
            } } }
            let _ = std::fs::remove_file(&p);
            ctx.state(&i); ctx.trace();
            Ok(())
        }));
    }
    // layouts of pairs and triples
    {
        let gaps: Vec<usize> = vec![0, 4, 60];
        let nk = if th { 10 } else { 8 };
        let n = (nk * nk * 3 * 2 * 3 * 2 * 2 * 2 * 3) as u64;
        f.push(fam("layout_pairs", &format!("pairs of {} kinds x 0..2 records x both orders x gaps {:?} x records first x determinate or indeterminate numrecs x vsize x padding bytes", nk, gaps), n, move |i, ctx| {
            let mut d = Digits(i);
            let (k1, k2, r, rev, gap, rf, ind, vs, pad) = (d.next(nk), d.next(nk), d.next(3), d.next(2) == 1, gaps[d.next(3)], d.next(2) == 1, d.next(2) == 1, d.next(2) == 1, [None, Some(0u8), Some(0xFF)][d.next(3)]);
            let def = add_small(add_small(dims_abu(1, 3, 5, r), "v", k1), "w", k2);
            let mut l = canonical(&def);
            if rev { l.fixed.reverse(); l.rec.reverse(); }
            if ind && (rf || l.rec.is_empty()) { ctx.count("skipped: the number of records cannot be deduced"); return Ok(()); }
            l.head_gap = gap; l.fixed_gap = gap / 4 * 4; l.rec_gap = gap; l.records_first = rf; l.indet = ind; l.vsize_indet = vs; l.pad = pad; l.gap_byte = 0xAB;
            ctx.sample(|| format!("{} {:?}", hist::show(&def, Ver::V1, 0, &[]), l));
            layout_case(ctx, &def, &full_data(&def, (i % 50) as usize), VERS[(i % 2) as usize ^ (i / 3 % 2) as usize], &l)
        }));
    }
    {
        let (nk, ng) = if th { (10, 8) } else { (8, 5) };
        let gaps: Vec<usize> = if th { vec![0, 1, 2, 3, 5, 6, 7, 13] } else { vec![0, 1, 2, 3, 7] };
        let bound = format!("pairs of {} kinds x 1..2 records x gaps {:?} before the data, after every fixed-size variable and before the records (begin offsets that are not multiples of 4) x vsize x records first", nk, gaps);
        f.push(fam("unaligned", &bound, (nk * nk * 2 * ng * ng * ng * 2) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (k1, k2, r, hg, fg, rg, x) = (d.next(nk), d.next(nk), d.next(2) + 1, gaps[d.next(ng)], gaps[d.next(ng)], gaps[d.next(ng)], d.next(2) == 1);
            let def = add_small(add_small(dims_abu(1, 3, 5, r), "v", k1), "w", k2);
            let mut l = canonical(&def);
            l.head_gap = hg; l.fixed_gap = fg; l.rec_gap = rg; l.vsize_indet = x; l.records_first = x && fg == rg; l.gap_byte = 0xAB;
            layout_case(ctx, &def, &full_data(&def, (i % 50) as usize), VERS[(i % 2) as usize ^ (i / 3 % 2) as usize], &l)
        }));
    }
    {
        let ps = perms(3);
        f.push(fam("layout_triples", "triples of 6 record and 4 fixed-size kinds x 1..2 records x all placement orders x gaps {0,8} x indeterminate numrecs", 1000 * 2 * 6 * 2 * 2, move |i, ctx| {
            let mut d = Digits(i);
            let (a, b, c, r, p, g, ind) = (d.next(10), d.next(10), d.next(10), d.next(2) + 1, d.next(6), d.next(2) * 8, d.next(2) == 1);
            let def = add_small(add_small(add_small(dims_abu(2, 3, 5, r), "v", a), "w", b), "x", c);
            let mut l = canonical(&def);
            let ord = |set: &[usize]| ps[p].iter().copied().filter(|v| set.contains(v)).collect::<Vec<_>>();
            l.fixed = ord(&l.fixed); l.rec = ord(&l.rec);
            if ind && l.rec.is_empty() { return Ok(()); }
            l.fixed_gap = g; l.rec_gap = g; l.head_gap = g; l.indet = ind; l.gap_byte = 0x5A;
            layout_case(ctx, &def, &full_data(&def, (i % 50) as usize), VERS[(i % 2) as usize ^ (i / 5 % 2) as usize], &l)
        }));
        let p5 = perms(5);
        f.push(fam("layout_orders", "six variables (3 fixed, 3 record) in all placement orders, then 5 fixed and 5 record ones in all orders", 36 * 4 + 240, move |i, ctx| {
            let i = i as usize;
            let (def, l) = if i < 144 {
                let def = dims_abu(0, 3, 5, 1 + i % 4 / 2).var("a1", Ty::I8, &["a"]).var("r1", Ty::I16, &["u", "a"]).var("b1", Ty::F64, &["b"]).var("r2", Ty::U8, &["u"]).var("c1", Ty::I16, &[]).var("r3", Ty::F64, &["u", "b"]);
                let mut l = canonical(&def);
                let p3 = perms(3);
                l.fixed = p3[i / 4 % 6].iter().map(|k| [0, 2, 4][*k]).collect(); l.rec = p3[i / 24].iter().map(|k| [1, 3, 5][*k]).collect();
                l.indet = i % 2 == 1;
                (def, l)
            } else {
                let j = i - 144; let rec = j % 2 == 1;
                let mut def = dims_abu(0, 3, 5, 2);
                for k in 0..5 { def = if rec { def.var(&format!("v{}", k), TYS[k + 1], [&["u"][..], &["u", "a"][..]][k % 2]) } else { def.var(&format!("v{}", k), TYS[k], [&["a"][..], &[][..], &["b"][..]][k % 3]) }; }
                let mut l = canonical(&def);
                if rec { l.rec = p5[j / 2].clone(); } else { l.fixed = p5[j / 2].clone(); }
                (def, l)
            };
            layout_case(ctx, &def, &full_data(&def, i % 50), VERS[i / 2 % 2], &l)
        }));
    }
    for nr in 4..=if th { 7usize } else { 6 } {
        let ps = perms(nr);
        let np = ps.len();
        f.push(fam(&format!("record_orders_{}", nr), &format!("{} record variables of different lengths, defined among 2 fixed-size ones, their data in all orders x 1..3 records x number of records stored or deduced x gaps x records first", nr), (np * 3 * 2 * 2 * 2) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (r, ind, g, first, p) = (d.next(3) + 1, d.next(2) == 1, d.next(2) * 8, d.next(2) == 1, d.next(np));
            if ind && first { return Ok(()); }
            let mut def = dims_abu(0, 3, 5, r);
            for k in 0..nr {
                if k == 1 { def = def.var("f", Ty::I16, &["a"]); }
                if k == 3 { def = def.var("g", Ty::F64, &["b", "a"]); }
                def = def.var(&format!("r{}", k), TYS[(k + p) % 6], [&["u"][..], &["u", "a"][..], &["u", "b"][..], &["u", "b", "a"][..]][k % 4]);
            }
            let recs: Vec<usize> = (0..def.vars.len()).filter(|v| def.is_rec(*v)).collect();
            let mut l = canonical(&def);
            l.rec = ps[p].iter().map(|k| recs[*k]).collect();
            l.indet = ind; l.rec_gap = g; l.fixed_gap = g; l.records_first = first;
            if p % 2 == 1 { l.fixed.reverse(); }
            layout_case(ctx, &def, &full_data(&def, p % 50), VERS[(i % 2) as usize ^ p % 2], &l)
        }));
    }
    {
        let gaps: Vec<usize> = (0..if th { 1100 } else { 600 }).map(|x| x * 4).chain([4092, 4096, 4100, 65_532, 65_536, 65_540, 1_000_000]).collect();
        let n = gaps.len();
        f.push(fam("header_space", &format!("{} amounts of extra header space or gaps x 3 places x 2 definitions", n), (n * 6) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (w, k, g) = (d.next(3), d.next(2), gaps[d.next(n)]);
            let def = crate::c_def::sweep_def(k + 1);
            let mut l = canonical(&def);
            match w { 0 => l.head_gap = g, 1 => l.fixed_gap = g, _ => l.rec_gap = g }
            l.gap_byte = (g / 4 % 251) as u8;
            layout_case(ctx, &def, &full_data(&def, 3), VERS[(i % 2) as usize], &l)
        }));
        f.push(fam("empty_lists", "16 combinations of empty lists written as a tag and a zero count x 12 definitions x 2 versions", 16 * 12 * 2, move |i, ctx| {
            let mut d = Digits(i);
            let (tags, ver, k) = (d.next(16), VERS[d.next(2)], d.next(12));
            let def = match k {
                0 => Def::default(), 1 => Def::default().dim("a", 2), 2 => Def::default().attr("g", Val::pattern(Ty::I8, 3, 1)), 3 => Def::default().var("v", Ty::I8, &[]),
                4 => Def::default().dim("a", 2).var("v", Ty::I8, &["a"]), 5 => Def::default().attr("g", Val::pattern(Ty::I16, 3, 1)).var("v", Ty::I8, &[]), 6 => Def::default().var("v", Ty::F64, &[]).vattr("q", Val::pattern(Ty::F32, 1, 1)).var("w", Ty::I8, &[]),
                7 => Def::default().unlim("u", 2).var("v", Ty::I32, &["u"]).var("w", Ty::I16, &["u"]), 8 => Def::default().dim("a", 1).attr("g", Val::empty(Ty::U8)), 9 => Def::default().unlim("u", 0), 10 => Def::default().unlim("u", 3).dim("a", 2).var("v", Ty::I16, &["a"]), _ => Def::default().var("v", Ty::I8, &[]).var("w", Ty::I8, &[]).vattr("q", Val::empty(Ty::F64)).var("x", Ty::I8, &[]),
            };
            let mut l = canonical(&def);
            l.tags = tags;
            layout_case(ctx, &def, &full_data(&def, 3), ver, &l)
        }));
        f.push(fam("trailing", "0..40 and around 1024 bytes after the end of the data x 4 definitions", 44 * 4, move |i, ctx| {
            let def = crate::c_def::sweep_def((i % 4) as usize);
            let mut l = canonical(&def);
            let j = (i / 4) as usize;
            l.trailing = if j < 40 { j } else { [1023, 1024, 1025, 5000][j - 40] };
            layout_case(ctx, &def, &full_data(&def, 3), VERS[(i / 2 % 2) as usize], &l)
        }));
        let maxr = if th { 700 } else { 200 };
        f.push(fam("indeterminate_numrecs", &format!("0..{} records, number of records deduced from the length of the file, 5 schemas x 2 versions x begin offset gaps", maxr), (maxr + 1) * 5 * 2 * 3, move |i, ctx| {
            let mut d = Digits(i);
            let (k, ver, g, r) = (d.next(5), VERS[d.next(2)], d.next(3) * 12, d.next(maxr as usize + 1));
            let x = Def::default().unlim("u", r).dim("a", 3);
            let def = match k { 0 => x.var("v", Ty::I32, &["u"]), 1 => x.var("f", Ty::I8, &["a"]).var("v", Ty::I8, &["u"]).var("w", Ty::F64, &["u", "a"]), 2 => x.var("w", Ty::I16, &["u"]).var("f", Ty::F64, &[]).var("v", Ty::U8, &["u", "a"]), 3 => x.var("v", Ty::F64, &["u", "a"]), _ => x.var("a", Ty::I8, &["u"]).var("b", Ty::I8, &["u"]).var("c", Ty::I8, &["u"]) };
            let mut l = canonical(&def);
            l.indet = true; l.rec_gap = g; if g == 12 { l.rec.reverse(); }
            layout_case(ctx, &def, &full_data(&def, r), ver, &l)
        }));
        let fl: Vec<usize> = [0usize, 1, 999, 8_000].into_iter().chain((12..=if th { 23 } else { 20 }).flat_map(|k| [(1usize << k) - 4, 1 << k, (1 << k) + 4, (1 << k) + (1 << (k - 1)) + 8])).collect();
        let rl: Vec<usize> = vec![1, 2, 1021, 32_768, 65_532, 65_536, 65_537, 131_072, 200_001];
        let (nf, nr) = (fl.len(), rl.len());
        f.push(fam("far_records", &format!("the records after {} lengths of a fixed-size variable up to {} bytes, {} lengths of records, 0..5 records, determinate or not", nf, fl[nf - 1], nr), (nf * nr * 6 * 2) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (ind, r, rl, fl) = (d.next(2) == 1, d.next(6), rl[d.next(nr)], fl[d.next(nf)]);
            let mut x = Def::default().unlim("u", r).dim("r", rl);
            if fl > 0 { x = x.dim("f", fl).var("f", Ty::U8, &["f"]); }
            let def = x.var("v", Ty::I8, &["u", "r"]).var("w", Ty::I16, &["u"]);
            let mut l = canonical(&def);
            l.indet = ind;
            layout_case(ctx, &def, &full_data(&def, r), VERS[(i / 5 % 2) as usize], &l)
        }));
        // layouts of large records and of large fixed-size variables
        {
            let rl: Vec<usize> = if th { vec![1, 3, 1021, 16_384, 21_845, 32_768, 65_532, 65_535, 65_536, 65_537, 70_000, 131_072, 131_073, 262_147] } else { vec![1, 3, 1021, 21_845, 32_768, 65_535, 65_536, 70_000, 131_073] };
            let nr = rl.len();
            let ps = perms(3);
            f.push(fam("layout_large", &format!("3 record variables, one or two of which have {} lengths up to {}, and a small or large fixed-size variable: all orders of the records x 3 positions of the large one x gaps x records first x 1..3 records x deduced numbers of records", nr, rl[nr - 1]), (nr * 6 * 3 * 3 * 3 * 3) as u64, move |i, ctx| {
                let mut d = Digits(i);
                let (p, big, g, rec, fx, rl) = (d.next(6), d.next(3), d.next(3), d.next(3) + 1, d.next(3), rl[d.next(nr)]);
                let mut x = Def::default().unlim("u", rec).dim("r", rl).dim("b", 5);
                for (k, t) in [Ty::I8, Ty::I16, Ty::F32].iter().enumerate() { let t = if k == big { Ty::U8 } else { *t }; x = x.var(["v", "w", "y"][k], t, if k == big || fx == 2 && k == (big + 1) % 3 { &["u", "r"] } else { &["u"] }); }
                let def = x.var("f", Ty::I16, if fx == 0 { &["b"] } else { &["r"] }).var("g", Ty::I8, &[]);
                let mut l = canonical(&def);
                l.rec = ps[p].clone();
                if p % 2 == 1 { l.fixed.reverse(); }
                match g { 0 => {} 1 => { l.rec_gap = 8; l.fixed_gap = 65_540; l.head_gap = 4; } _ => l.records_first = true }
                l.indet = g != 2 && (i / 5) % 2 == 1; l.gap_byte = 0x5A;
                layout_case(ctx, &def, &full_data(&def, (i % 50) as usize), VERS[(i % 2) as usize ^ (i / 7 % 2) as usize], &l)
            }));
        }
        let lens = big_lens(th);
        let n = lens.len();
        f.push(fam("big_lengths", &format!("{} lengths of large variables up to {} x 6 types x fixed-size, or 2 records", n, lens[n - 1]), (n * 12) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (t, rec, l) = (TYS[d.next(6)], d.next(2) == 1, lens[d.next(n)]);
            let x = Def::default().dim("a", l).unlim("u", 2);
            let def = if rec { x.var("v", t, &["u", "a"]).var("w", Ty::I8, &["u"]) } else { x.var("v", t, &["a"]).var("w", Ty::I8, &[]) };
            layout_case(ctx, &def, &full_data(&def, l), VERS[(i / 5 % 2) as usize], &canonical(&def))
        }));
        // names read from foreign files
        f.push(fam("versions", "a 64-bit-offset and a classic file of 6 definitions with trailing and leading gaps", 12, move |i, ctx| {
            let def = if i / 2 < 4 { crate::c_def::sweep_def((i / 2) as usize) } else { Def::default().attr("only", Val::pattern(Ty::F64, i as usize, 1)) };
            let mut l = canonical(&def); l.head_gap = 8; l.trailing = 3;
            layout_case(ctx, &def, &full_data(&def, 3), VERS[(i % 2) as usize], &l)
        }));
    }
    f.push(fam("special_values", &format!("60 kinds x 0..3 records x {}, x gaps x numbers of records deduced", SPECIAL_ELEMS), 60 * 4 * SPECIALS as u64 * 4, move |i, ctx| {
        let mut d = Digits(i);
        let (k, r, c, g) = (d.next(60), d.next(4), d.next(SPECIALS), d.next(4));
        if !uses_u(k) && r > 0 { return Ok(()); }
        let def = add_kind(dims_abu(r % 3, 3, 2, r), "v", k).var("w", Ty::I16, if uses_u(k) { &["u"] } else { &["a"] });
        let mut l = canonical(&def);
        if g & 1 == 1 { l.head_gap = 4; l.rec_gap = 4; l.fixed_gap = 4; }
        if g & 2 == 2 { if l.rec.is_empty() { return Ok(()); } l.indet = true; }
        layout_case(ctx, &def, &full_data(&def, SPECIAL + c), VERS[(i / 7 % 2) as usize], &l)
    }));
    {   // bit patterns
        let pats = bit_patterns(th);
        let n = pats.len() as u64;
        f.push(fam("bit_patterns", &format!("{} vectors covering bit patterns as data", n), n * 2, move |i, ctx| {
            let val = &pats[(i / 2) as usize];
            let def = if i % 2 == 0 { Def::default().dim("n", val.len()).var("v", val.ty, &["n"]) } else { Def::default().unlim("u", 1).dim("n", val.len()).var("v", val.ty, &["u", "n"]).var("w", Ty::I8, &["u"]) };
            let mut data = full_data(&def, 1);
            data[0][0] = Some(val.raw.clone());
            layout_case(ctx, &def, &data, Ver::V1, &canonical(&def))
        }));
    }
    f
}

// ------------------------------------------------------------------------------------ C13
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum R { Var(usize), VarT(usize, Ty), Rec(usize, usize), RecT(usize, usize, Ty), All, NoVar(bool), Def }

/// A DataVector must give its values through the getter of its own type only.
pub fn check_data_vector(d: DataVector, exp: &Val) -> Result<(), String> {
    let got = bind::dv_to_val(&d);
    ck!(got == *exp, "expected {:?} got {:?}{}", exp, got, bind::where_diff(exp, &got));
    ck!(bind::ty(&d.data_type()) == exp.ty && d.len() == exp.len(), "DataVector data_type/len: {:?} {}", d.data_type(), d.len());
    let some = [d.get_i8().is_some(), d.get_u8().is_some(), d.get_i16().is_some(), d.get_i32().is_some(), d.get_f32().is_some(), d.get_f64().is_some()];
    for (k, s) in some.iter().enumerate() { ck!(*s == (TYS[k] == exp.ty), "DataVector of {:?}: getter of {:?} {}", exp.ty, TYS[k], s); }
    macro_rules! into { ($t:expr, $get:ident, $into:ident) => {{
        let x = d.$get().map(|s| s.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>());
        if $t == exp.ty { ck!(x.as_ref() == Some(&exp.raw), "DataVector::{}", stringify!($get)); }
        match d.clone().$into() {
            Ok(v) => { ck!($t == exp.ty && v.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>() == exp.raw, "DataVector::{}", stringify!($into)); }
            Err(back) => { ck!($t != exp.ty && bind::dv_to_val(&back) == *exp, "DataVector::{} does not give the vector back", stringify!($into)); }
        }
    }} }
    into!(Ty::I8, get_i8, get_i8_into); into!(Ty::U8, get_u8, get_u8_into); into!(Ty::I16, get_i16, get_i16_into);
    into!(Ty::I32, get_i32, get_i32_into); into!(Ty::F32, get_f32, get_f32_into); into!(Ty::F64, get_f64, get_f64_into);
    Ok(())
}
/// `avail(v, slab)`: the bytes of the slab are in the file.
pub fn exec_read(r: &mut FileReader, def: &Def, data: &Data, op: R, avail: &dyn Fn(usize, usize) -> bool) -> Result<(), String> {
    let all = |v: usize| (0..def.nslabs(v)).all(|s| avail(v, s));
    let name = |v: usize| def.vars[v].name.as_str();
    macro_rules! expect { ($res:expr, $ok:expr, $exp:expr, $chk:expr) => { match ($res, $ok) {
        (Ok(d), true) => { let e = $exp; $chk(d, &e).map_err(|m: String| format!("{:?}: {}", op, m))? }
        (Err(_), false) => {}
        (Ok(_), false) => return Err(format!("{:?} succeeds while it must fail", op)),
        (Err(e), true) => return Err(format!("{:?} fails: {:?}", op, e)),
    } } }
    let same = |g: Val, e: &Val| -> Result<(), String> { ck!(g == *e, "expected {:?} got {:?}{}", e, g, bind::where_diff(e, &g)); Ok(()) };
    match op {
        R::Var(v) => expect!(r.read_var(name(v)), all(v), var_value(def, data, v), check_data_vector),
        R::VarT(v, t) => expect!(bind::read_var_typed(r, name(v), t), all(v) && t == def.vars[v].ty, var_value(def, data, v), same),
        R::Rec(v, s) => expect!(r.read_record(name(v), s), s < def.nslabs(v) && avail(v, s), slab_value(def, data, v, s), check_data_vector),
        R::RecT(v, s, t) => expect!(bind::read_rec_typed(r, name(v), s, t), s < def.nslabs(v) && avail(v, s) && t == def.vars[v].ty, slab_value(def, data, v, s), same),
        R::All => {
            let ok = (0..def.vars.len()).all(all);
            match (r.read_all_vars(), ok) {
                (Ok(m), true) => { ck!(m.len() == def.vars.len(), "read_all_vars gives {} variables", m.len()); for v in 0..def.vars.len() { let d = m.get(name(v)).ok_or(format!("read_all_vars: {:?} is missing", name(v)))?; check_data_vector(d.clone(), &var_value(def, data, v)).map_err(|e| format!("read_all_vars {:?}: {}", name(v), e))?; } }
                (Err(_), false) => {}
                (Ok(_), false) => return Err("read_all_vars succeeds while it must fail".into()),
                (Err(e), true) => return Err(format!("read_all_vars fails: {:?}", e)),
            }
        }
        R::NoVar(rec) => { let res = if rec { r.read_record("no such", 0).map(|_| ()) } else { r.read_var("no such").map(|_| ()) }; ck!(res.is_err(), "reading an undefined variable succeeds"); }
        R::Def => { let s = bind::snapshot(r.data_set())?; if let Some(d) = bind::diff_def(def, &s) { return Err(format!("the data set changed: {}", d)); } }
    }
    Ok(())
}
/// `typed`: 0 the right type and a wrong one, 1 all types.
pub fn read_alphabet(def: &Def, typed: usize) -> Vec<R> {
    let mut a = vec![];
    for v in 0..def.vars.len() {
        let t = def.vars[v].ty;
        let wrong = TYS[(TYS.iter().position(|x| *x == t).unwrap() + 1) % 6];
        let ts: Vec<Ty> = if typed == 1 { TYS.to_vec() } else { vec![t, wrong] };
        a.push(R::Var(v));
        for t in &ts { a.push(R::VarT(v, *t)); }
        for s in 0..=def.nslabs(v) { a.push(R::Rec(v, s)); if typed == 1 { for t in &ts { a.push(R::RecT(v, s, *t)); } } else if s == 0 { a.push(R::RecT(v, s, t)); } else if s == 1 { a.push(R::RecT(v, s, wrong)); } }
    }
    a.push(R::All); a.push(R::NoVar(false)); a.push(R::NoVar(true));
    a
}
/// In this check the files are those of the library's own layout (padded records in the special case).
pub fn library_file(def: &Def, data: &Data, ver: Ver) -> Vec<u8> { encode_file(def, data, ver, hist::hm(&(def, ver)), true) }

pub fn families_c13(t: Tier) -> Vec<Family> {
    let th = t.thorough();
    let mut f = vec![];
    // long sequences of reads
    {
        let defs: Vec<Def> = vec![
            dims_abu(1, 3, 5, 3).var("f", Ty::I16, &["a"]).var("r", Ty::I8, &["u", "a"]).var("s", Ty::F64, &["u"]),
            dims_abu(0, 2, 1, 5).var("r", Ty::U8, &["u", "a"]).var("f", Ty::F32, &["a", "b"]).var("t", Ty::I32, &["u"]),
            dims_abu(0, 1, 1, 2).var("only", Ty::I16, &["u"]),
        ];
        let als: Vec<Vec<R>> = defs.iter().map(|d| read_alphabet(d, 0)).collect();
        let most = als.iter().map(|a| a.len()).max().unwrap();
        let (ns, nd) = (repeats(if th { 65537 } else { 4097 }), defs.len());
        let nn = ns.len();
        f.push(fam("long_sequences", &format!("{} schemas: each read of the alphabet N times on a reader, N among {} values up to {}, alone or in turn with the following ones by strides 1, 3 and 7, then every read once", nd, nn, ns[nn - 1]), (nd * most * nn * 4) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (st, k, si, n) = ([0, 1, 3, 7][d.next(4)], d.next(most), d.next(nd), ns[d.next(nn)]);
            let (def, al) = (&defs[si], &als[si]);
            if k >= al.len() || st > 0 && k % 5 != 0 { ctx.count("skipped"); return Ok(()); }
            let (data, ver, p) = (full_data(def, 5), VERS[n % 2], ctx.path("r.nc"));
            std::fs::write(&p, library_file(def, &data, ver)).map_err(|e| e.to_string())?;
            let mut r = hist::open(&p)?;
            for j in 0..n + al.len() {
                let op = if j < n { al[(k + j * st) % al.len()] } else { al[j - n] };
                exec_read(&mut r, def, &data, op, &|_, _| true).map_err(|e| format!("{}\nread #{} of a sequence from {:?} by strides of {} ({} of them, then every one): {}", hist::show(def, ver, 0, &[]), j, al[k], st, n, e))?;
            }
            ctx.op((n + al.len()) as u64); ctx.trace(); ctx.state(&(si, k, st, n));
            Ok(())
        }));
    }
    // sequences of accesses
    {
        let nk = if th { 10 } else { 8 };
        let depth = if th { 4 } else { 3 };
        f.push(fam("sequences", &format!("pairs of {} kinds x 1..2 records: all sequences of up to {} reads (whole, typed, record, all, invalid) on one reader; the file complete or cut in its last data", nk, depth), (nk * nk * 2 * 2) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (k1, k2, rr, cut) = (d.next(nk), d.next(nk), d.next(2) + 1, d.next(2) == 1);
            let def = add_small(add_small(dims_abu(1, 3, 5, rr), "v", k1), "w", k2);
            let ver = VERS[(i % 2) as usize];
            let data = full_data(&def, 7);
            let mut bytes = library_file(&def, &data, ver);
            let lay = canonical_layout(&def, ver, hist::hm(&(&def, ver)), def.recsize_padded());
            if cut { let n = bytes.len() - 5; bytes.truncate(n); }
            let len = bytes.len() as u128;
            let avail = |v: usize, s: usize| lay.begins[v] + if def.is_rec(v) { lay.recsize * s as u128 } else { 0 } + def.slab_bytes(v) <= len;
            let p = ctx.path("s.nc");
            std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
            let al = read_alphabet(&def, 0);
            let dep = if al.len() > 16 { depth.min(3) } else { depth };
            let n = nseqs(al.len(), dep);
            let m = |ops: &[R], e: String| format!("{} {}reads {:?}\n{}", hist::show(&def, ver, 0, &[]), if cut { "(cut by 5 bytes) " } else { "" }, ops, e);
            for j in 0..n {
                let ops: Vec<R> = seq(j, al.len()).iter().map(|k| al[*k]).collect();
                if ops.len() < dep { continue; } // a prefix of a longer sequence
                let mut r = FileReader::open(&p).map_err(|e| m(&ops, format!("open: {:?}", e)))?;
                for op in &ops { exec_read(&mut r, &def, &data, *op, &avail).map_err(|e| m(&ops, e))?; }
                exec_read(&mut r, &def, &data, R::Def, &avail).map_err(|e| m(&ops, e))?;
                ctx.op(ops.len() as u64 + 2); ctx.trace();
                if j + 1 == n { ctx.sample(|| format!("{} {:?}", hist::show(&def, ver, 0, &[]), ops)); }
            }
            ctx.state(&(&def, ver, cut));
            ck!(std::fs::read(&p).map_err(|e| e.to_string())? == bytes, "{}", m(&[], "reading changed the file".into()));
            Ok(())
        }));
    }
    // one variable of every kind, every type
    {
        let depth = 2;
        f.push(fam("typed", "one variable of 60 kinds x 0..2 records (beside another one): all sequences of up to 2 reads with all types", 60 * 3 * 2, move |i, ctx| {
            let mut d = Digits(i);
            let (k, rr, second) = (d.next(60), d.next(3), d.next(2));
            let mut def = add_kind(dims_abu(0, 3, 2, rr), "v", k);
            if second == 1 { def = def.var("w", Ty::I8, &["u", "a"]); }
            let ver = VERS[(i % 2) as usize];
            let data = full_data(&def, 3);
            let bytes = library_file(&def, &data, ver);
            let p = ctx.path("s.nc");
            std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
            let al = read_alphabet(&def, 1);
            let dep = if th { depth } else if al.len() > 40 { 1 } else { depth };
            for j in 0..nseqs(al.len(), dep) {
                let ops: Vec<R> = seq(j, al.len()).iter().map(|k| al[*k]).collect();
                let mut r = FileReader::open(&p).map_err(|e| format!("{:?}", e))?;
                for op in &ops { exec_read(&mut r, &def, &data, *op, &|_, _| true).map_err(|e| format!("{} reads {:?}\n{}", hist::show(&def, ver, 0, &[]), ops, e))?; }
                ctx.op(ops.len() as u64 + 1); ctx.trace();
            }
            ctx.state(&(&def, ver));
            Ok(())
        }));
    }
    // longer fixed patterns over richer files
    {
        f.push(fam("alternations", "4 variables x 3 records: all sequences of up to 3 accesses among 26 valid reads, then everything again", 26 * 26 * 26, move |i, ctx| {
            let def = dims_abu(2, 3, 5, 3).var("f", Ty::I16, &["a"]).var("v", Ty::U8, &["u", "b"]).var("g", Ty::F64, &[]).var("w", Ty::F32, &["u"]).var("x", Ty::I8, &["u", "a"]);
            let data = full_data(&def, 11);
            let ver = VERS[(i % 2) as usize];
            let bytes = library_file(&def, &data, ver);
            let p = ctx.path("a.nc");
            std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
            let mut al: Vec<R> = (0..5).map(R::Var).collect();
            for v in 0..5 { for s in 0..def.nslabs(v) { al.push(R::Rec(v, s)); } }
            al.push(R::All); for v in 0..5 { al.push(R::VarT(v, def.vars[v].ty)); } al.push(R::RecT(3, 2, Ty::F32)); al.push(R::RecT(1, 1, Ty::U8)); al.push(R::NoVar(false)); al.push(R::Rec(1, 3));
            al.truncate(26);
            let mut d = Digits(i);
            let ops = [al[d.next(26)], al[d.next(26)], al[d.next(26)]];
            let mut r = FileReader::open(&p).map_err(|e| format!("{:?}", e))?;
            let m = |e: String| format!("{} reads {:?}\n{}", hist::show(&def, ver, 0, &[]), ops, e);
            for op in ops { exec_read(&mut r, &def, &data, op, &|_, _| true).map_err(m)?; }
            bind::check_all_data(&mut r, &def, &data).map_err(m)?;
            ctx.op(20); ctx.trace(); ctx.state(&ops);
            ck!(std::fs::read(&p).map_err(|e| e.to_string())? == bytes, "{}", m("reading changed the file".into()));
            Ok(())
        }));
    }
    // every way of reading, over the definition spaces
    for s in all(t) {
        if !s.data || ["attr_u8_bytes", "empty"].contains(&s.name) { continue; }
        let gen = s.gen;
        f.push(fam(&format!("agree_{}", s.name), &format!("{}: read_all_vars, read_var, read_record and the typed forms, in definition order then reversed", s.bound), s.n, move |i, ctx| {
            let def = match gen(i) { Some(d) => d, None => { ctx.count("skipped: not a valid combination"); return Ok(()) } };
            let ver = VERS[(i / 3 % 2) as usize];
            let data = full_data(&def, (i % 100) as usize);
            let bytes = library_file(&def, &data, ver);
            let p = ctx.path("g.nc");
            std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
            let mut r = FileReader::open(&p).map_err(|e| format!("{:?}", e))?;
            let nv = def.vars.len();
            let mut ops = vec![R::All];
            for v in (0..nv).rev() { let t = def.vars[v].ty; ops.push(R::VarT(v, t)); for s in (0..def.nslabs(v)).rev() { ops.push(R::Rec(v, s)); ops.push(R::RecT(v, s, t)); } ops.push(R::Var(v)); }
            for v in 0..nv { ops.push(R::Var(v)); if v % 16 == 0 { for t in TYS { ops.push(R::VarT(v, t)); } } ops.push(R::Rec(v, def.nslabs(v))); }
            if nv < 40 { ops.push(R::All); }
            ops.push(R::Def);
            for op in &ops { exec_read(&mut r, &def, &data, *op, &|_, _| true).map_err(|e| format!("{}\n{}", hist::show(&def, ver, 0, &[]), e))?; }
            ctx.op(ops.len() as u64); ctx.trace(); ctx.state(&def);
            Ok(())
        }));
    }
    f.push(fam("special_values", &format!("60 kinds x 0..3 records x {}: all ways of reading", SPECIAL_ELEMS), 60 * 4 * SPECIALS as u64, move |i, ctx| {
        let mut d = Digits(i);
        let (k, r, c) = (d.next(60), d.next(4), d.next(SPECIALS));
        if !uses_u(k) && r > 0 { return Ok(()); }
        let def = add_kind(dims_abu(r % 3, 3, 2, r), "v", k).var("w", Ty::I16, if uses_u(k) { &["u"] } else { &["a"] });
        let data = full_data(&def, SPECIAL + c);
        let p = ctx.path("g.nc");
        std::fs::write(&p, library_file(&def, &data, VERS[(i / 7 % 2) as usize])).map_err(|e| e.to_string())?;
        let mut r = FileReader::open(&p).map_err(|e| format!("{:?}", e))?;
        let mut ops = read_alphabet(&def, 1);
        ops.push(R::All);
        for op in &ops { exec_read(&mut r, &def, &data, *op, &|_, _| true).map_err(|e| format!("{} class {}\n{}", hist::show(&def, Ver::V1, 0, &[]), c, e))?; }
        ctx.op(ops.len() as u64); ctx.trace(); ctx.state(&(def, c));
        Ok(())
    }));
    {   // many records
        let n: usize = if th { 140_000 } else { 70_000 };
        f.push(fam("far_record_indices", &format!("{} records x 3 schemas: every record up to 300 and around every power of two and of ten, and one in 97, alone on a reader or after one another; then whole", n), 3 * 2 * 16, move |i, ctx| {
            let mut d = Digits(i);
            let (part, k, ver) = (d.next(16), d.next(3), VERS[d.next(2)]);
            let x = Def::default().unlim("u", n).dim("a", 3);
            let def = match k { 0 => x.var("v", Ty::F32, &["u"]), 1 => x.var("f", Ty::I16, &["a"]).var("v", Ty::I16, &["u", "a"]).var("w", Ty::I8, &["u"]), _ => x.var("v", Ty::U8, &["u"]).var("w", Ty::F64, &["u"]) };
            let v = if k == 1 { 1 } else { 0 };
            let data = full_data(&def, 3);
            let p = ctx.path("m.nc");
            std::fs::write(&p, library_file(&def, &data, ver)).map_err(|e| e.to_string())?;
            let mut r = FileReader::open(&p).map_err(|e| format!("{:?}", e))?;
            let m = |e: String| format!("{}\n{}", hist::show(&def, ver, 0, &[]), e);
            let pos: Vec<usize> = (0..=n).filter(|x| *x < 300 || x % 97 == 1 || x + 3 > n || (x + 1).is_power_of_two() || x.is_power_of_two() || (x - 1).is_power_of_two() || [999, 1000, 1001, 9_999, 10_000, 99_999, 100_000].contains(x)).collect();
            for (j, s) in pos.iter().enumerate() {
                if j % 16 != part { continue; }
                if j / 16 % 8 == 0 { r = FileReader::open(&p).map_err(|e| format!("{:?}", e))?; }
                exec_read(&mut r, &def, &data, R::Rec(v, *s), &|_, _| true).map_err(m)?;
                exec_read(&mut r, &def, &data, R::RecT(v, *s, def.vars[v].ty), &|_, _| true).map_err(m)?;
                ctx.op(2);
            }
            if part == 0 { for v in 0..def.vars.len() { exec_read(&mut r, &def, &data, R::Var(v), &|_, _| true).map_err(m)?; } exec_read(&mut r, &def, &data, R::All, &|_, _| true).map_err(m)?; }
            ctx.trace(); ctx.state(&i);
            Ok(())
        }));
    }
    {
        let pats = bit_patterns(th);
        let n = pats.len() as u64;
        f.push(fam("bit_patterns", &format!("{} vectors covering bit patterns, all ways of reading", n), n, move |i, ctx| {
            let val = &pats[i as usize];
            let def = Def::default().unlim("u", 2).dim("n", val.len()).var("v", val.ty, &["n"]).var("r", val.ty, &["u", "n"]).attr("g", val.clone());
            let mut data = full_data(&def, 1);
            data[0][0] = Some(val.raw.clone()); data[1][1] = Some(val.raw.clone());
            let p = ctx.path("b.nc");
            std::fs::write(&p, library_file(&def, &data, Ver::V1)).map_err(|e| e.to_string())?;
            let mut r = FileReader::open(&p).map_err(|e| format!("{:?}", e))?;
            for op in [R::All, R::Var(1), R::VarT(0, val.ty), R::Var(0), R::Rec(0, 0), R::RecT(1, 1, val.ty), R::Rec(1, 0), R::VarT(1, val.ty), R::Def] { exec_read(&mut r, &def, &data, op, &|_, _| true)?; }
            ctx.op(9); ctx.trace(); ctx.state(val);
            Ok(())
        }));
    }
    f
}
