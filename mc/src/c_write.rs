//! C02 (last write wins), C03 (fill values) and the data part of C04 (bytes), over write histories.
use crate::bind;
use crate::hist::{self, Op};
use crate::model::*;
use crate::runner::*;
use crate::spaces::*;
use netcdf3::{DataSet, FileWriter};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode { C02, C03, C04 }

/// Values of header_min_size crossed with the write histories: no effect, within the first block, longer than the header.
pub const HMINS: [usize; 5] = [1, 40, 333, 1024, 4099];
/// Stands for: with 0 and with one of `HMINS` (and one of the versions) taken in turn; large cases run with only one of the two.
const ANY: usize = usize::MAX;
/// Changes one element in place.
fn bump(d: &mut netcdf3::DataVector, k: usize) {
    use netcdf3::DataVector as D;
    match d { D::I8(x) => x[k] = x[k].wrapping_add(1), D::U8(x) => x[k] = x[k].wrapping_add(1), D::I16(x) => x[k] = x[k].wrapping_add(1), D::I32(x) => x[k] = x[k].wrapping_add(1 << 8), D::F32(x) => x[k] = f32::from_bits(x[k].to_bits() ^ 1 << 9), D::F64(x) => x[k] = f64::from_bits(x[k].to_bits() ^ 1 << 33) }
}
pub fn judge(ctx: &mut Ctx, mode: Mode, def: &Def, ds: &DataSet, ver: Ver, hmin: usize, ops: &[Op]) -> Result<(), String> {
    if hmin == ANY {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (def, ops).hash(&mut h);
        let h = (h.finish() >> 8) as usize;
        let large = ops.len() > 300 || (0..def.vars.len()).map(|v| def.nslabs(v) as u64 * def.slab_len(v) as u64).sum::<u64>() > 20_000;
        if !large || h % 2 == 0 { judge(ctx, mode, def, ds, ver, 0, ops)?; }
        if !large || h % 2 == 1 { judge(ctx, mode, def, ds, VERS[h / 2 % 2], HMINS[h / 4 % HMINS.len()], ops)?; }
        return Ok(());
    }
    let p = ctx.path("f.nc");
    let m = |e: String| format!("{}\n{}", hist::show(def, ver, hmin, if ops.len() > 60 { &ops[..60] } else { ops }), e);
    let data = hist::run(&p, def, ds, ver, hmin, ops).map_err(m)?;
    ctx.op(ops.len() as u64 + 3); ctx.trace();
    match mode {
        Mode::C04 => { let got = std::fs::read(&p).map_err(|e| e.to_string())?; hist::check_bytes(ctx, def, &data, ver, hmin, &got).map_err(m) }
        _ => {
            let mut r = hist::open(&p).map_err(m)?;
            let got = bind::snapshot(r.data_set()).map_err(m)?;
            if let Some(d) = bind::diff_def(def, &got) { return Err(m(format!("the definition changed: {}", d))); }
            hist::check_values(&mut r, def, &data, mode == Mode::C02 || mode == Mode::C03, mode == Mode::C03).map_err(m)
        }
    }
}
fn case(ctx: &mut Ctx, mode: Mode, def: &Def, ver: Ver, hmin: usize, ops: &[Op]) -> Result<(), String> {
    let ds = bind::build(def).map_err(|e| format!("{}: {:?}", hist::show(def, ver, 0, &[]), e))?;
    ctx.sample(|| hist::show(def, ver, if hmin == ANY { 0 } else { hmin }, if ops.len() > 12 { &ops[..12] } else { ops }));
    ctx.state(&(def, ver, ops));
    judge(ctx, mode, def, &ds, ver, hmin, ops)
}
pub fn salt_all(ops: &[Op]) -> Vec<Op> { ops.iter().enumerate().map(|(i, o)| hist::salted(*o, i + 1)).collect() }

/// All histories of `depth` writes or fewer of one definition are one case.
fn all_histories(ctx: &mut Ctx, mode: Mode, def: &Def, ver: Ver, depth: usize) -> Result<(), String> {
    let ds = bind::build(def).map_err(|e| format!("{}: {:?}", hist::show(def, ver, 0, &[]), e))?;
    let al = hist::alphabet(def);
    let n = nseqs(al.len(), depth);
    ctx.state(&(def, ver));
    for j in 0..n {
        let ops: Vec<Op> = salt_all(&seq(j, al.len()).iter().map(|k| al[*k]).collect::<Vec<_>>());
        if j + 1 == n { ctx.sample(|| hist::show(def, ver, 0, &ops)); }
        judge(ctx, mode, def, &ds, ver, ANY, &ops)?;
    }
    ctx.countn("histories", n);
    Ok(())
}

pub fn families(t: Tier, mode: Mode) -> Vec<Family> {
    let th = t.thorough();
    let mut f = vec![];
    // H1: pairs of small kinds, all histories
    {
        let depth = if th { 4 } else { 3 };
        let nk = if th { 10 } else { 8 };
        let n = (nk * nk * 4 * 2) as u64;
        f.push(fam("pairs_histories", &format!("all pairs of {} variable kinds x 0..3 records x 2 versions: all histories of up to {} whole-variable and record writes", nk, depth), n, move |i, ctx| {
            let mut d = Digits(i);
            let (ver, r, k1, k2) = (VERS[d.next(2)], d.next(4), d.next(nk), d.next(nk));
            let def = add_small(add_small(dims_abu(1, 3, 5, r), "v", k1), "w", k2);
            let dep = if hist::alphabet(&def).len() > 6 { depth.min(3) } else { depth };
            all_histories(ctx, mode, &def, ver, dep)
        }));
    }
    // H1b: fixed-size variables only, without unlimited dimension; and with NaN attributes
    {
        let depth = if th { 5 } else { 4 };
        let fixed: Vec<usize> = (0..SMALL.len()).filter(|k| !small_uses_u(*k)).collect();
        let nf = fixed.len();
        f.push(fam("fixed_histories", &format!("all triples of {} fixed-size kinds without unlimited dimension: all histories of up to {} writes", nf, depth), (nf * nf * nf * 2) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (nan, a, b, c) = (d.next(2) == 1, fixed[d.next(nf)], fixed[d.next(nf)], fixed[d.next(nf)]);
            let mut def = add_small(dims_abu(3, 3, 5, 0), "v", a);
            if nan { def = nan_attr(def); }
            def = add_small(def, "w", b);
            if nan { def = nan_attr(def); }
            def = add_small(def, "x", c);
            all_histories(ctx, mode, &def, VERS[(i % 2) as usize], if hist::alphabet(&def).len() > 6 { 3 } else { depth })
        }));
        f.push(fam("nan_attr_histories", "pairs of 10 kinds whose attributes hold NaN, 2 records: all histories of up to 2 writes", 100, move |i, ctx| {
            let mut d = Digits(i);
            let (a, b) = (d.next(10), d.next(10));
            let def = nan_attr(add_small(nan_attr(add_small(dims_abu(0, 3, 5, 2), "v", a)), "w", b));
            all_histories(ctx, mode, &def, VERS[(i % 2) as usize], 2)
        }));
    }
    // H2: one variable of every kind, deeper
    {
        let depth = if th { 5 } else { 3 };
        f.push(fam("single_histories", &format!("one variable: 10 dimension lists x 6 types x 0..4 records x 3 positions of the unlimited dimension: all histories of up to {} writes", depth), 60 * 5 * 3, move |i, ctx| {
            let mut d = Digits(i);
            let (k, r, p) = (d.next(60), d.next(5), d.next(3));
            let def = add_kind(dims_abu(p, 3, 2, r), "v", k);
            all_histories(ctx, mode, &def, VERS[(i % 2) as usize], if r >= 3 && uses_u(k) { depth.min(4) } else { depth })
        }));
    }
    // H2b: all pairs of all kinds, short histories
    {
        let recs = if th { 4 } else { 3 };
        let depth = if th { 3 } else { 2 };
        f.push(fam("all_pairs_histories", &format!("all pairs of 60 kinds x 0..{} records: all histories of up to {} writes", recs - 1, depth), 3600 * recs as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (k1, k2, r) = (d.next(60), d.next(60), d.next(recs));
            if r > 0 && !uses_u(k1) && !uses_u(k2) { ctx.count("skipped: no record variable"); return Ok(()); }
            let def = add_kind(add_kind(dims_abu((k1 + k2) % 3, 3, 2, r), "v", k1), "w", k2);
            let dep = if hist::alphabet(&def).len() > 6 { depth.min(2) } else { depth };
            all_histories(ctx, mode, &def, VERS[(i % 2) as usize], dep)
        }));
    }
    // H3: triples
    {
        let depth = if th { 3 } else { 2 };
        f.push(fam("triples_histories", &format!("all triples of 8 kinds x 1..2 records: all histories of up to {} writes", depth), 512 * 2, move |i, ctx| {
            let mut d = Digits(i);
            let (a, b, c, r) = (d.next(8), d.next(8), d.next(8), d.next(2) + 1);
            let def = add_small(add_small(add_small(dims_abu(2, 3, 5, r), "v", a), "w", b), "x", c);
            all_histories(ctx, mode, &def, VERS[(i % 2) as usize], depth)
        }));
    }
    // H4: all orders of writing all the records (and whole variables)
    {
        f.push(fam("orders", "pairs of 8 kinds x 1..3 records: all permutations of the writes of all the records, optionally whole variables", 64 * 3 * 2, move |i, ctx| {
            let mut d = Digits(i);
            let (a, b, r, whole) = (d.next(8), d.next(8), d.next(3) + 1, d.next(2) == 1);
            let def = add_small(add_small(dims_abu(0, 3, 5, r), "v", a), "w", b);
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            let al: Vec<Op> = hist::alphabet(&def).into_iter().filter(|o| matches!(o, Op::Rec { .. }) || whole && matches!(o, Op::Var { v: 0, .. })).collect();
            if al.len() > 7 || (al.len() > 6 && !th) { ctx.count("skipped: more than 6 writes"); return Ok(()); }
            for p in perms(al.len()) {
                let ops = salt_all(&p.iter().map(|k| al[*k]).collect::<Vec<_>>());
                judge(ctx, mode, &def, &ds, VERS[(i % 2) as usize], ANY, &ops)?;
            }
            ctx.state(&def);
            Ok(())
        }));
    }
    // H5: all subsets of the records, increasing and decreasing orders
    {
        let maxbits = if th { 12 } else { 9 };
        f.push(fam("subsets", &format!("6 schemas: all subsets of up to {} records/variables written, in increasing and decreasing order, record by record or variable by variable", maxbits), 6u64 << maxbits, move |i, ctx| {
            let (k, mask) = ((i >> maxbits) as usize, (i & ((1 << maxbits) - 1)) as usize);
            let def = match k {
                0 => dims_abu(1, 3, 5, maxbits).var("v", Ty::I8, &["u", "a"]),
                1 => dims_abu(0, 3, 5, maxbits / 3).var("v", Ty::I8, &["u"]).var("w", Ty::F64, &["u", "a"]).var("x", Ty::I16, &["u", "b"]),
                2 => dims_abu(2, 3, 5, maxbits / 4).var("f", Ty::I16, &["a"]).var("v", Ty::U8, &["u", "b"]).var("g", Ty::F32, &[]).var("w", Ty::I16, &["u"]).var("x", Ty::F64, &["u"]),
                3 => { let mut d = dims_abu(3, 3, 5, 0); for j in 0..maxbits { d = d.var(&format!("v{}", j), TYS[j % 6], [&["a"][..], &[][..], &["b", "a"][..]][j % 3]); } d }
                4 => { let mut d = dims_abu(0, 3, 5, 1); for j in 0..maxbits { d = d.var(&format!("v{}", j), TYS[j % 6], [&["u"][..], &["u", "a"][..], &["b"][..]][j % 3]); } d }
                _ => dims_abu(0, 1, 1, maxbits).var("v", Ty::F64, &["u", "a", "b"]).var("s", Ty::I32, &[]),
            };
            let al: Vec<Op> = hist::alphabet(&def).into_iter().filter(|o| matches!(o, Op::Rec { .. })).collect();
            if mask >> al.len() != 0 { ctx.count("skipped: mask out of range"); return Ok(()); }
            let mut ops: Vec<Op> = (0..al.len()).filter(|j| mask >> j & 1 == 1).map(|j| al[j]).collect();
            if mask.count_ones() % 2 == 1 { ops.reverse(); }
            case(ctx, mode, &def, VERS[mask % 2], ANY, &salt_all(&ops))
        }));
    }
    // H6: many records
    {
        let max = if th { 1100 } else { 300 };
        f.push(fam("many_records", &format!("{} records x 4 schemas: exactly one record written, all but one, increasing, decreasing, odd then even; every position", max), (max * 4 * 3 + 5 * 4) as u64, move |i, ctx| {
            let k = (i % 4) as usize; let j = (i / 4) as usize;
            let schema = |r: usize| { let x = Def::default().unlim("u", r).dim("a", 3); match k { 0 => x.var("v", Ty::I8, &["u", "a"]).var("w", Ty::I32, &["u"]), 1 => x.var("w", Ty::F64, &["u"]).var("v", Ty::I16, &["u"]), 2 => x.var("v", Ty::F32, &["u"]), _ => x.var("f", Ty::U8, &["a"]).var("v", Ty::U8, &["u"]).var("w", Ty::I8, &["u"]) } };
            // a moderate number of records around the written one keeps the cost linear
            let (def, ops) = if j < max * 3 {
                let (pos, what) = (j % max, j / max);
                let r = match what { 0 => pos + 1, 1 => (pos + 2).min(max), _ => max.min(40) };
                let def = schema(r);
                let v = def.vars.iter().position(|x| x.name == "v").unwrap();
                let ops: Vec<Op> = match what { 0 | 1 => vec![Op::Rec { v, r: pos, salt: 0 }], _ => (0..r).filter(|x| *x != pos % r).map(|r| Op::Rec { v, r, salt: 0 }).collect() };
                (def, ops)
            } else {
                let def = schema(max);
                let v = def.vars.iter().position(|x| x.name == "v").unwrap();
                let all: Vec<usize> = match j - max * 3 { 0 => (0..max).collect(), 1 => (0..max).rev().collect(), 2 => (0..max).filter(|x| x % 2 == 1).chain((0..max).filter(|x| x % 2 == 0)).collect(), 3 => (0..max).filter(|x| x % 3 != 1).collect(), _ => (0..max).map(|x| x * 7 % max).collect() };
                let mut ops: Vec<Op> = all.into_iter().map(|r| Op::Rec { v, r, salt: 0 }).collect();
                if k % 2 == 0 { ops.push(Op::Rec { v, r: 0, salt: 0 }); ops.push(Op::Rec { v, r: max - 1, salt: 0 }); }
                (def, ops)
            };
            case(ctx, mode, &def, VERS[j % 2], ANY, &salt_all(&ops))
        }));
    }
    // H6b: many more records: indices which need more than 8, 12, 15, 16 or 17 bits
    {
        let max: usize = if th { 140_000 } else { 66_000 };
        let pos: Vec<usize> = { let mut p: Vec<usize> = [8u32, 10, 12, 15, 16, 17].iter().flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).chain([0, 1, 9_999, 10_000, max / 2, max - 2, max - 1]).filter(|x| *x < max).collect(); p.sort(); p.dedup(); p };
        let n = pos.len();
        f.push(fam("far_record_indices", &format!("{} records x 3 schemas: the records {:?} written in increasing or decreasing order, or every one of them alone, or all the records by a whole-variable write then those; nearly all of the records one by one (increasing but 3, decreasing but 3, with a stride, even ones then odd ones but one, all but the last, all but the first)", max, pos), (3 * (n + 9)) as u64, move |i, ctx| {
            let (k, h) = ((i % 3) as usize, (i / 3) as usize);
            let x = Def::default().unlim("u", max).dim("a", 3);
            let def = match k { 0 => x.var("v", Ty::F32, &["u"]), 1 => x.var("f", Ty::I16, &["a"]).var("v", Ty::I16, &["u", "a"]), _ => x.var("v", Ty::U8, &["u"]).var("w", Ty::I8, &["u"]) };
            let v = if k == 1 { 1 } else { 0 };
            if h < n && (k + h) % 3 != 0 && !th { ctx.count("skipped: one schema in three for a single record"); return Ok(()); }
            let ops: Vec<Op> = if h < n { vec![Op::Rec { v, r: pos[h], salt: 0 }] } else { let mut o: Vec<Op> = pos.iter().map(|r| Op::Rec { v, r: *r, salt: 0 }).collect(); match h - n {
                0 => {} 1 => o.reverse(), 2 => o.insert(0, Op::Var { v, salt: 0 }),
                x => {
                    let order: Vec<usize> = match x - 3 {
                        0 => (0..max).filter(|r| ![1, 7, max / 2].contains(r)).collect(),
                        1 => (0..max).rev().filter(|r| ![0, 40_000, max - 2].contains(r)).collect(),
                        2 => { let st = (1..).map(|k| 7 * k + 1000).find(|s| (2..=*s).all(|d| s % d != 0 || max % d != 0)).unwrap(); (0..max).map(|k| k * st % max).filter(|r| ![300, max / 3].contains(r)).collect() }
                        3 => (0..max).filter(|r| r % 2 == 0).chain((0..max).filter(|r| r % 2 == 1 && *r != 33_333)).collect(),
                        4 => (0..max - 1).collect(),
                        _ => (1..max).rev().collect(),
                    };
                    o = order.into_iter().map(|r| Op::Rec { v, r, salt: 0 }).collect();
                }
            }; o };
            let ver = VERS[(h % 2) as usize];
            let ops = salt_all(&ops);
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            ctx.state(&(&def, &ops));
            // the bytes decide here: reading each of the records again belongs to the other families
            let p = ctx.path("f.nc");
            let hmin = [0, HMINS[h / 2 % HMINS.len()]][(h + k) % 2];
            let m = |e: String| format!("{}\n{}", hist::show(&def, ver, hmin, &ops), e);
            let data = hist::run(&p, &def, &ds, ver, hmin, &ops).map_err(m)?;
            ctx.op(ops.len() as u64 + 3); ctx.trace();
            if mode == Mode::C04 { let got = std::fs::read(&p).map_err(|e| e.to_string())?; return hist::check_bytes(ctx, &def, &data, ver, hmin, &got).map_err(m); }
            let mut r = hist::open(&p).map_err(m)?;
            for v in 0..def.vars.len() {
                let name = &def.vars[v].name;
                let (e, g) = (var_value(&def, &data, v), bind::read_var(&mut r, name).map_err(|e| m(format!("read_var({:?}): {:?}", name, e)))?);
                let l = def.slab_len(v) as usize;
                if e.len() != g.len() { return Err(m(format!("read_var({:?}) gives {} values", name, g.len()))); }
                for s in 0..def.nslabs(v) { if data[v][s].is_none() && mode == Mode::C02 { continue; } if e.slice(s * l, (s + 1) * l) != g.slice(s * l, (s + 1) * l) { return Err(m(format!("record {} of {:?}: expected {:?} got {:?}", s, name, e.slice(s * l, (s + 1) * l), g.slice(s * l, (s + 1) * l)))); } }
                if def.is_rec(v) { for s in &pos { let (e, g) = (slab_value(&def, &data, v, *s), bind::read_rec(&mut r, name, *s).map_err(|e| m(format!("read_record({:?},{}): {:?}", name, s, e)))?); if e != g { return Err(m(format!("read_record({:?},{}): expected {:?} got {:?}", name, s, e, g))); } } }
            }
            Ok(())
        }));
    }
    // H6c: equal values: in all the records, in all the variables, or what the file already holds
    {
        let nk = if th { 10 } else { 8 };
        let depth = 2;
        f.push(fam("value_collisions", &format!("all triples of {} kinds x 1..3 records, on a new file or over a completely written one: all histories of up to {} writes, each with one of two constant values (equal in all the elements, records and variables of a type)", nk, depth), (nk * nk * nk * 3 * 2) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (over, a, b, c, r) = (d.next(2) == 1, d.next(nk), d.next(nk), d.next(nk), d.next(3) + 1);
            if r == 3 && (a + b + c) % 3 != 0 && !th { ctx.count("skipped: a third of the triples for 3 records"); return Ok(()); }
            let def = add_small(add_small(add_small(dims_abu(1, 3, 5, r), "v", a), "w", b), "x", c);
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            let al = hist::alphabet(&def);
            let na = al.len() * 2;
            let base: Vec<Op> = if over { (0..3).map(|v| Op::Var { v, salt: v + 3 }).collect() } else { vec![] };
            for j in 0..nseqs(na, depth) {
                let mut ops = base.clone();
                ops.extend(seq(j, na).iter().map(|x| hist::salted(al[x / 2], CONST + x % 2)));
                judge(ctx, mode, &def, &ds, VERS[(i % 2) as usize], ANY, &ops)?;
            }
            ctx.state(&(&def, over));
            ctx.countn("histories", nseqs(na, depth));
            Ok(())
        }));
        f.push(fam("periodic_values", "one record variable of 30 kinds x 2..6 records beside 0..3 others, on a new file or over a written one: whole-variable writes whose records repeat with period 1..3, then all histories of one record write of equal or other values", 30 * 5 * 4 * 2 * 3, move |i, ctx| {
            let mut d = Digits(i);
            let (k, r, others, over, per) = (30 + d.next(30), d.next(5) + 2, d.next(4), d.next(2) == 1, d.next(3) + 1);
            let mut def = add_kind(dims_abu(1, 3, 2, r), "v", k);
            for o in 0..others { def = add_small(def, &format!("w{}", o), [4, 1, 5][o]); }
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            let ver = VERS[(i % 2) as usize];
            let hmin = [0, HMINS[(i / 7) as usize % HMINS.len()]][(i / 3 % 2) as usize];
            let n = def.slab_len(0) as usize;
            let base: Vec<Op> = if over { (0..=others).map(|v| Op::Var { v, salt: v + 3 }).collect() } else { vec![] };
            for last in 0..2 * r + 1 {
                let p = ctx.path("f.nc");
                let mut data = empty_data(&def);
                let m = |e: String| format!("{} period {} over a written file: {} last write {}\n{}", hist::show(&def, ver, hmin, &[]), per, over, last, e);
                let mut w = FileWriter::open(&p).map_err(|e| format!("{:?}", e))?;
                w.set_def(&ds, bind::ver(ver), hmin).map_err(|e| format!("{:?}", e))?;
                for op in &base { hist::exec(&def, &mut w, *op).map_err(|e| m(format!("{:?}", e)))?; hist::apply(&def, &mut data, *op); }
                let pats: Vec<Val> = (0..per).map(|x| Val::pattern(def.vars[0].ty, n, 11 + x)).collect();
                let whole = Val::new(def.vars[0].ty, (0..r).flat_map(|s| pats[s % per].raw.clone()).collect());
                bind::write_var(&mut w, "v", &whole).map_err(|e| m(format!("{:?}", e)))?;
                for s in 0..r { data[0][s] = Some(pats[s % per].raw.clone()); }
                if last > 0 { let (s, x) = ((last - 1) / 2, (last - 1) % 2); let val = if x == 0 { pats[0].clone() } else { Val::pattern(def.vars[0].ty, n, 31) }; bind::write_rec(&mut w, "v", s, &val).map_err(|e| m(format!("{:?}", e)))?; data[0][s] = Some(val.raw); }
                w.close().map_err(|e| m(format!("{:?}", e)))?;
                ctx.op(6); ctx.trace();
                match mode { Mode::C04 => { let got = std::fs::read(&p).map_err(|e| e.to_string())?; hist::check_bytes(ctx, &def, &data, ver, hmin, &got).map_err(m)? } _ => hist::check_values(&mut hist::open(&p).map_err(m)?, &def, &data, true, mode == Mode::C03).map_err(m)? }
            }
            ctx.state(&(&def, over, per));
            Ok(())
        }));
    }
    // H7: lengths
    {
        let lens: Vec<usize> = { let mut l: Vec<usize> = (1..=if th { 700 } else { 70 }).collect(); l.extend(around_pow2(if th { 280_000 } else { 17_000 })); l.sort(); l.dedup(); l };
        let n = lens.len();
        f.push(fam("lengths", &format!("{} variable lengths up to {} x 6 types x fixed/record x 4 short histories", n, lens[n - 1]), (n * 6 * 2 * 4) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (h, t, rec, l) = (d.next(4), TYS[d.next(6)], d.next(2), lens[d.next(n)]);
            let x = Def::default().dim("a", l).unlim("u", 2);
            let def = if rec == 1 { x.var("v", t, &["u", "a"]).var("w", Ty::I8, &["u"]) } else { x.var("w", Ty::I16, &["u"]).var("v", t, &["a"]).var("x", Ty::I8, &[]) };
            let v = def.vars.iter().position(|x| x.name == "v").unwrap();
            let last = def.nslabs(v) - 1;
            let ops = match h { 0 => vec![Op::Var { v, salt: 0 }], 1 => vec![], 2 => vec![Op::Rec { v, r: last, salt: 0 }], _ => vec![Op::Rec { v, r: 0, salt: 0 }, Op::Var { v, salt: 0 }, Op::Rec { v, r: last, salt: 0 }] };
            case(ctx, mode, &def, VERS[(i / 3 % 2) as usize], ANY, &salt_all(&ops))
        }));
    }
    // H7b: large chunks
    {
        let lens = big_lens(th);
        let n = lens.len();
        f.push(fam("big_lengths", &format!("{} lengths of large chunks up to {} x 6 types x fixed-size, 1 or 2 records x 5 histories (nothing, whole, a record, the other record then whole, whole then whole with equal values)", n, lens[n - 1]), (n * 6 * 3 * 5) as u64, move |i, ctx| {
            let mut d = Digits(i);
            // the types and histories of a length lie together: the lengths of all threads are alike
            let (h, t, rec, l) = (d.next(5), TYS[d.next(6)], d.next(3), lens[d.next(n)]);
            let x = Def::default().dim("a", l).unlim("u", rec.max(1));
            let def = if rec >= 1 { x.var("f", Ty::I16, &[]).var("v", t, &["u", "a"]).var("w", Ty::I8, &["u"]) } else { x.var("v", t, &["a"]).var("x", Ty::I8, &[]) };
            let v = def.vars.iter().position(|x| x.name == "v").unwrap();
            let last = def.nslabs(v) - 1;
            if last == 0 && h == 3 { return Ok(()); }
            let ops = match h { 0 => vec![], 1 => vec![Op::Var { v, salt: 0 }], 2 => vec![Op::Rec { v, r: last, salt: 0 }], 3 => vec![Op::Rec { v, r: 0, salt: 0 }, Op::Var { v, salt: 0 }], _ => vec![Op::Var { v, salt: 0 }, Op::Var { v, salt: 0 }] };
            let mut ops = salt_all(&ops);
            if h == 4 { ops[1] = Op::Var { v, salt: SPECIAL + 14 }; }
            case(ctx, mode, &def, VERS[(i / 3 % 2) as usize], ANY, &ops)
        }));
    }
    // H8: many variables
    {
        let counts: Vec<usize> = (1..=24).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]).chain(if th { vec![300, 511, 512, 513, 1025] } else { vec![] }).collect();
        let n = counts.len();
        f.push(fam("many_variables", &format!("{} numbers of variables up to {} x 3 mixes x 5 histories", n, counts[n - 1]), (n * 3 * 5) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (h, mix, c) = (d.next(5), d.next(3), counts[d.next(n)]);
            let mut def = dims_abu(1, 3, 5, 3);
            for j in 0..c { let k = match mix { 0 => SMALL[(j * 7 + 3) % 10], 1 => SMALL[[3, 4, 5, 6, 7][j % 5]], _ => SMALL[[0, 1, 2, 8, 9][j % 5]] }; def = def.var(&format!("v{}", j), k.0, k.1); }
            let ops: Vec<Op> = match h {
                0 => (0..c).rev().map(|v| Op::Var { v, salt: 0 }).collect(),
                1 => vec![],
                2 => (0..c).flat_map(|v| (0..def.nslabs(v)).rev().map(move |r| Op::Rec { v, r, salt: 0 })).collect(),
                3 => (0..c).filter(|v| v % 2 == 0).map(|v| Op::Rec { v, r: def.nslabs(v) - 1, salt: 0 }).collect(),
                _ => vec![Op::Var { v: c - 1, salt: 0 }, Op::Var { v: c / 2, salt: 0 }, Op::Rec { v: 0, r: 0, salt: 0 }],
            };
            case(ctx, mode, &def, VERS[(c % 2) as usize], ANY, &salt_all(&ops))
        }));
    }
    // H9: header_min_size with data
    {
        let hm = crate::c_def::hmins(th);
        let n = hm.len();
        f.push(fam("header_min_size", &format!("{} values of header_min_size x 4 definitions, partial writes", n), (n * 4) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (k, hmin) = (d.next(4), hm[d.next(n)]);
            let def = crate::c_def::sweep_def(k);
            let ops: Vec<Op> = (0..def.vars.len()).filter(|v| v % 2 == hmin / 4 % 2).map(|v| Op::Rec { v, r: def.nslabs(v) - 1, salt: 0 }).collect();
            case(ctx, mode, &def, VERS[hmin % 2], hmin, &salt_all(&ops))
        }));
    }
    // H11: bit patterns as data
    {
        let pats = bit_patterns(th);
        let n = pats.len() as u64;
        f.push(fam("bit_patterns", &format!("{} vectors covering bit patterns (NaN payloads, all 8/16-bit values, ...) written as variable and as records", n), n * 2, move |i, ctx| {
            let val = &pats[(i / 2) as usize];
            let (ver, hmin) = (VERS[(i / 2 % 2) as usize], [0, HMINS[(i / 3) as usize % HMINS.len()]][(i / 5 % 2) as usize]);
            let def = if i % 2 == 0 { Def::default().dim("n", val.len()).var("v", val.ty, &["n"]) } else { Def::default().unlim("u", 2).dim("n", val.len()).var("v", val.ty, &["u", "n"]).var("w", Ty::I8, &["u"]) };
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            let p = ctx.path("f.nc");
            let mut data = empty_data(&def);
            let mut w = FileWriter::open(&p).map_err(|e| format!("{:?}", e))?;
            w.set_def(&ds, bind::ver(ver), hmin).map_err(|e| format!("{:?}", e))?;
            if i % 2 == 0 { bind::write_var(&mut w, "v", val).map_err(|e| format!("{:?}", e))?; data[0][0] = Some(val.raw.clone()); }
            else { bind::write_rec(&mut w, "v", 1, val).map_err(|e| format!("{:?}", e))?; data[0][1] = Some(val.raw.clone()); }
            w.close().map_err(|e| format!("{:?}", e))?;
            ctx.op(4); ctx.trace(); ctx.state(val);
            match mode {
                Mode::C04 => { let got = std::fs::read(&p).map_err(|e| e.to_string())?; hist::check_bytes(ctx, &def, &data, ver, hmin, &got) }
                _ => hist::check_values(&mut hist::open(&p)?, &def, &data, true, mode == Mode::C03),
            }
        }));
    }
    // H11b: special values (zero, fill value, ...) in histories
    {
        let depth = 2;
        let recs = if th { 4 } else { 3 };
        f.push(fam("special_values", &format!("one variable of 60 kinds x 0..{} records, next to another one: all histories of up to {} writes, each of a pattern or of one of {}", recs - 1, depth, SPECIAL_ELEMS), 60 * recs as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (k, r) = (d.next(60), d.next(recs));
            if !uses_u(k) && r > 0 { return Ok(()); }
            let def = add_kind(dims_abu(r % 3, 3, 2, r), "v", k).var("w", Ty::I16, if uses_u(k) { &["u"] } else { &["a"] });
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            let al: Vec<Op> = hist::alphabet(&def).into_iter().filter(|o| matches!(o, Op::Var { v: 0, .. } | Op::Rec { v: 0, .. })).collect();
            let nc = SPECIALS + 1;
            let na = al.len() * nc;
            for j in 0..nseqs(na, depth) {
                let ops: Vec<Op> = seq(j, na).iter().enumerate().map(|(p, x)| hist::salted(al[x / nc], if x % nc == 0 { p + 1 } else { SPECIAL + x % nc - 1 })).collect();
                judge(ctx, mode, &def, &ds, VERS[(j % 2) as usize], ANY, &ops)?;
            }
            ctx.state(&def);
            Ok(())
        }));
        f.push(fam("special_pairs", &format!("pairs of {} kinds x 1..2 records: every variable holds one of {}, whole or by records, after or before the other", if th { 60 } else { 10 }, SPECIAL_ELEMS), if th { 3600 } else { 100 } * 2, move |i, ctx| {
            let mut d = Digits(i);
            let r = d.next(2) + 1;
            let def = if th { add_kind(add_kind(dims_abu(1, 3, 2, r), "v", d.next(60)), "w", d.next(60)) } else { add_small(add_small(dims_abu(1, 3, 5, r), "v", d.next(10)), "w", d.next(10)) };
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            for c in 0..SPECIALS * SPECIALS * 4 {
                let (c1, c2, h) = (SPECIAL + c % SPECIALS, SPECIAL + c / SPECIALS % SPECIALS, c / SPECIALS / SPECIALS);
                let all = |v: usize, salt: usize| (0..def.nslabs(v)).map(move |r| Op::Rec { v, r, salt }).collect::<Vec<_>>();
                let ops = match h { 0 => vec![Op::Var { v: 0, salt: c1 }, Op::Var { v: 1, salt: c2 }], 1 => { let mut o = all(1, c2); o.extend(all(0, c1)); o } 2 => { let mut o = all(1, c2); o.truncate(1); o.push(Op::Var { v: 0, salt: c1 }); o } _ => { let mut o = all(0, c1); o.reverse(); o.truncate(1); o.push(Op::Var { v: 1, salt: c2 }); o } };
                judge(ctx, mode, &def, &ds, VERS[c % 2], ANY, &ops)?;
            }
            ctx.state(&def);
            Ok(())
        }));
    }
    // H11d: the caller's buffer changes between two writes
    {
        let lens: Vec<usize> = (1..=if th { 24 } else { 13 }).chain([32, 64, 100, 300, 1025]).collect();
        let n = lens.len();
        f.push(fam("one_buffer", &format!("two variables x 6 types x {} lengths up to 1025 x fixed-size, record (whole) or record (by records): one buffer of the caller, of which one element (every one; 7 of long ones) changes between two or three writes from it, with or without a write elsewhere or of the other variable in between", n), (6 * n * 3) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (ty, h, len) = (TYS[d.next(6)], d.next(3), lens[d.next(n)]);
            let def = Def::default().unlim("u", 3).dim("n", len).var("v", ty, if h == 0 { &["n"] } else { &["u", "n"] }).var("s", Ty::I16, &["u"]).var("w", ty, if h == 0 { &["n"] } else { &["u", "n"] });
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            let total = if h == 1 { 3 * len } else { len };
            let at: Vec<usize> = if total <= 13 { (0..total).collect() } else { vec![0, 1, 7, total / 2, total - 8, total - 2, total - 1] };
            for (j, k) in at.iter().enumerate() { for between in 0..4 {
                let (ver, hmin) = (VERS[(j + between) % 2], [0, HMINS[(i as usize + j) % HMINS.len()]][(i as usize + between) / 2 % 2]);
                let m = |e: String| format!("{} element {} of {} changes, case {}\n{}", hist::show(&def, ver, hmin, &[]), k, total, between, e);
                let p = ctx.path("b.nc");
                let mut w = FileWriter::open(&p).map_err(|e| m(format!("{:?}", e)))?;
                w.set_def(&ds, bind::ver(ver), hmin).map_err(|e| m(format!("{:?}", e)))?;
                let mut data = empty_data(&def);
                let mut buf = bind::val_to_dv(&Val::pattern(ty, total, j + 3));
                let write = |w: &mut FileWriter, buf: &netcdf3::DataVector, v: usize, rec: usize, data: &mut Data| -> Result<(), String> {
                    let name = def.vars[v].name.as_str();
                    use netcdf3::DataVector as D;
                    if h < 2 { match buf { D::I8(x) => w.write_var_i8(name, x), D::U8(x) => w.write_var_u8(name, x), D::I16(x) => w.write_var_i16(name, x), D::I32(x) => w.write_var_i32(name, x), D::F32(x) => w.write_var_f32(name, x), D::F64(x) => w.write_var_f64(name, x) } }
                    else { match buf { D::I8(x) => w.write_record_i8(name, rec, x), D::U8(x) => w.write_record_u8(name, rec, x), D::I16(x) => w.write_record_i16(name, rec, x), D::I32(x) => w.write_record_i32(name, rec, x), D::F32(x) => w.write_record_f32(name, rec, x), D::F64(x) => w.write_record_f64(name, rec, x) } }.map_err(|e| format!("{:?}", e))?;
                    let raw = bind::dv_to_val(buf).raw;
                    if h < 2 { let b = raw.len() / data[v].len(); for (s, x) in data[v].iter_mut().enumerate() { *x = Some(raw[s * b..(s + 1) * b].to_vec()); } } else { data[v][rec] = Some(raw); }
                    Ok(())
                };
                write(&mut w, &buf, 0, 1, &mut data).map_err(m)?;
                bump(&mut buf, *k);
                match between {
                    1 => { bind::write_rec(&mut w, "s", 2, &Val::pattern(Ty::I16, 1, 5)).map_err(|e| m(format!("{:?}", e)))?; data[1][2] = Some(Val::pattern(Ty::I16, 1, 5).raw); }
                    2 => write(&mut w, &buf, 2, 1, &mut data).map_err(m)?,
                    3 => { write(&mut w, &buf, 0, 2, &mut data).map_err(m)?; bump(&mut buf, *k); }
                    _ => {}
                }
                write(&mut w, &buf, 0, 1, &mut data).map_err(m)?;
                if between == 2 { bump(&mut buf, total - 1 - *k); write(&mut w, &buf, 0, 1, &mut data).map_err(m)?; }
                w.close().map_err(|e| m(format!("{:?}", e)))?;
                ctx.op(5); ctx.trace();
                match mode {
                    Mode::C04 => { let got = std::fs::read(&p).map_err(|e| e.to_string())?; hist::check_bytes(ctx, &def, &data, ver, hmin, &got).map_err(m)? }
                    _ => hist::check_values(&mut hist::open(&p)?, &def, &data, true, mode == Mode::C03).map_err(m)?,
                }
            } }
            ctx.state(&def);
            Ok(())
        }));
    }
    // H11c: attributes with a meaning by convention do not change the values
    {
        let conv = CONV.len();
        f.push(fam("conventions_values", &format!("{} attribute names with a meaning by convention x {} types of the variable x 3 types of the attribute x 4 values of it x fixed-size or record variable: every one of {} and the value of the attribute itself, written whole or by records", conv, 6, SPECIAL_ELEMS), (conv * 6 * 3 * 4 * 2) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (rec, av, ta, tv, n) = (d.next(2) == 1, d.next(4), d.next(3), TYS[d.next(6)], CONV[d.next(conv)]);
            if ta == 1 && tv == Ty::F64 || ta == 2 && tv == Ty::U8 { ctx.count("skipped: the same type twice"); return Ok(()); }
            let ta = [tv, Ty::F64, Ty::U8][ta];
            let at = match av { 0 => Val::pattern(ta, 1, 3), 1 => Val::new(ta, vec![0; ta.size()]), 2 => Val::fill(ta, 1), _ => Val::new(ta, Val::pattern(ta, 2, 8).raw) };
            let def = Def::default().unlim("u", 2).dim("a", 3).var("v", tv, if rec { &["u", "a"] } else { &["a"] }).vattr(n, at.clone()).vattr("units", Val::new(Ty::U8, b"K".to_vec())).var("w", Ty::I16, &["u"]);
            if n == "units" { ctx.count("skipped: the same attribute twice"); return Ok(()); }
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            for c in 0..SPECIALS + 2 {
                let salt = if c < SPECIALS { SPECIAL + c } else { CONST + c - SPECIALS };
                let ops: Vec<Op> = if c % 2 == 0 { vec![Op::Var { v: 0, salt }] } else { (0..def.nslabs(0)).rev().map(|r| Op::Rec { v: 0, r, salt }).collect() };
                judge(ctx, mode, &def, &ds, VERS[c % 2], ANY, &ops)?;
            }
            // the very value of the attribute, and NaN, among others
            if ta == tv {
                let nan = match tv { Ty::F32 => f32::NAN.to_be_bytes().to_vec(), Ty::F64 => f64::NAN.to_be_bytes().to_vec(), t => t.fill().to_vec() };
                let one = at.raw[..tv.size()].to_vec();
                for w in 0..4 {
                    let (ver, hmin) = (VERS[(i as usize + w) % 2], [0, HMINS[(i as usize / 2 + w) % HMINS.len()]][w / 2 % 2]);
                    let l = def.slab_len(0) as usize;
                    let raw: Vec<u8> = (0..l).flat_map(|j| match w { 0 => one.clone(), 1 => if j == 1 { one.clone() } else { nan.clone() }, 2 => if j == 1 { nan.clone() } else { Val::pattern(tv, 1, j + 9).raw }, _ => if j == 1 { one.clone() } else { Val::pattern(tv, 1, j + 9).raw } }).collect();
                    let p = ctx.path("f.nc");
                    let mut data = empty_data(&def);
                    let m = |e: String| format!("{} values {:?}\n{}", hist::show(&def, ver, hmin, &[]), raw, e);
                    let mut wr = FileWriter::open(&p).map_err(|e| m(format!("{:?}", e)))?;
                    wr.set_def(&ds, bind::ver(ver), hmin).map_err(|e| m(format!("{:?}", e)))?;
                    bind::write_rec(&mut wr, "v", 0, &Val::new(tv, raw.clone())).map_err(|e| m(format!("{:?}", e)))?;
                    data[0][0] = Some(raw.clone());
                    wr.close().map_err(|e| m(format!("{:?}", e)))?;
                    ctx.op(4); ctx.trace();
                    match mode { Mode::C04 => { let got = std::fs::read(&p).map_err(|e| e.to_string())?; hist::check_bytes(ctx, &def, &data, ver, hmin, &got).map_err(m)? } _ => hist::check_values(&mut hist::open(&p).map_err(m)?, &def, &data, true, mode == Mode::C03).map_err(m)? }
                }
            }
            ctx.state(&def);
            Ok(())
        }));
    }
    // H12: similar or unusual variable names
    {
        let odd = ["a", "A", "aa", "a ", "a b", "é", "e\u{301}", "É", "中", "_", "0", "a-b", "a+b", "a.b", "a\\b", "a~", "v", "u"];
        let n = odd.len();
        f.push(fam("names", &format!("pairs of {} similar variable names, 4 histories", n), (n * n * 4) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (h, x, y) = (d.next(4), odd[d.next(n)], odd[d.next(n)]);
            if x == y { return Ok(()); }
            let def = Def::default().unlim("u", 2).dim("d", 3).var(x, Ty::I16, &["u", "d"]).var(y, Ty::I16, &["u", "d"]);
            let ops = match h { 0 => vec![Op::Var { v: 0, salt: 0 }, Op::Var { v: 1, salt: 0 }], 1 => vec![Op::Rec { v: 1, r: 0, salt: 0 }, Op::Rec { v: 0, r: 1, salt: 0 }], 2 => vec![Op::Var { v: 1, salt: 0 }], _ => vec![Op::Rec { v: 0, r: 0, salt: 0 }, Op::Var { v: 1, salt: 0 }] };
            case(ctx, mode, &def, VERS[(i % 2) as usize], ANY, &salt_all(&ops))
        }));
    }
    // H13: the same write repeated many times
    {
        let def = Def::default().unlim("u", 3).dim("a", 3).var("v", Ty::I8, &["u", "a"]).var("w", Ty::F64, &["u"]).var("f", Ty::I16, &["a"]);
        let al = hist::alphabet(&def);
        let (na, ns, long) = (al.len(), repeats(if th { 4097 } else { 1001 }), repeats(if th { 100_001 } else { 65537 }));
        let (nn, nl) = (ns.len(), long.len());
        let d2 = def.clone();
        let a2 = al.clone();
        f.push(fam("repetitions", &format!("each of {} writes made N times, N among {} values up to {}, after or before another write, or none", na, nn, ns[nn - 1]), (nn * na * (2 * na + 1)) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (x, k, n) = (d.next(2 * na + 1), d.next(na), ns[d.next(nn)]);
            let mut ops = vec![a2[k]; n];
            if x >= 1 { if x <= na { ops.insert(0, a2[x - 1]); } else { ops.push(a2[x - na - 1]); } }
            case(ctx, mode, &d2, VERS[n % 2], ANY, &salt_all(&ops))
        }));
        f.push(fam("long_histories", &format!("histories of N writes, N among {} values up to {}: one record, one variable, two or three in turn, all of them in turn", nl, long[nl - 1]), (nl * 6) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (k, n) = (d.next(6), long[d.next(nl)]);
            let ops: Vec<Op> = (0..n).map(|j| match k { 0 => Op::Rec { v: 0, r: 1, salt: 0 }, 1 => Op::Var { v: 1, salt: 0 }, 2 => Op::Rec { v: j % 3, r: 0, salt: 0 }, 3 => if j % 2 == 0 { Op::Var { v: 0, salt: 0 } } else { Op::Rec { v: 0, r: j % 3, salt: 0 } }, 4 => Op::Rec { v: 1, r: j % 2, salt: 0 }, _ => al[j % na] }).collect();
            case(ctx, mode, &def, VERS[n % 2], ANY, &salt_all(&ops))
        }));
    }
    // H16: data sets read from a file, or edited, before being written
    {
        let hs = crate::c_def::edit_histories(if th { 3 } else { 2 }, &[vec![3, 5, 7, 8], vec![5, 3, 9], vec![4, 3, 0usize.max(5), 7]]);
        let n = hs.len() as u64;
        f.push(fam("edited_definitions", &format!("{} edit histories (definitions also read back from a file), then 5 write histories", n), n * 5 * 2, move |i, ctx| {
            let mut d = Digits(i);
            let (h, re, e) = (d.next(5), d.next(2), &hs[d.0 as usize]);
            let (mut def, mut ds) = (Def::default(), DataSet::new());
            for (s, k) in e.iter().enumerate() {
                if re == 1 && s + 1 == e.len() {
                    let p = ctx.path("def.nc");
                    let mut w = FileWriter::open(&p).map_err(|e| format!("{:?}", e))?;
                    w.set_def(&ds, bind::ver(Ver::V2), 0).map_err(|e| format!("{:?}", e))?;
                    w.close().map_err(|e| format!("{:?}", e))?;
                    ds = hist::open(&p)?.close().0;
                }
                def = crate::c_def::model_edit(&def, *k, s).unwrap();
                crate::c_def::real_edit(&mut ds, *k, s)?;
            }
            let nv = def.vars.len();
            let mut ops: Vec<Op> = match h {
                0 => vec![],
                1 => (0..nv).rev().map(|v| Op::Var { v, salt: 0 }).collect(),
                2 => (0..nv).filter(|v| def.nslabs(*v) > 0).map(|v| Op::Rec { v, r: 0, salt: 0 }).collect(),
                3 => (0..nv).filter(|v| def.nslabs(*v) > 1).map(|v| Op::Rec { v, r: 1, salt: 0 }).chain((0..nv).take(1).map(|v| Op::Var { v, salt: 0 })).collect(),
                _ => (0..nv).skip(1).map(|v| Op::Var { v, salt: 0 }).collect(),
            };
            ops = salt_all(&ops);
            ctx.state(&(&def, h));
            judge(ctx, mode, &def, &ds, VERS[(i / 2 % 2) as usize], ANY, &ops).map_err(|x| format!("edits {:?} (read back: {})\n{}", e, re == 1, x))
        }));
    }
    // H18: shapes, attributes and names do not matter: all short histories
    {
        let depth = if th { 3 } else { 2 };
        f.push(fam("crossed_histories", &format!("{}: all histories of up to {} writes", CROSSED_BOUND, depth), CROSSED_SMALL, move |i, ctx| {
            let def = crossed_small(i);
            let al = hist::alphabet(&def).len();
            all_histories(ctx, mode, &def, VERS[(i % 2) as usize], if al <= 8 { depth } else { 2 })
        }));
    }
    // H17: dimension counts and orders (fold of sizes), from the definition spaces
    for s in all(t) {
        if !["counts", "dim_orders", "var_triples", "attr_scopes", "conventions", "name_odd", "names_alike", "crossed"].contains(&s.name) { continue; }
        let gen = s.gen; let name = s.name;
        f.push(fam(&format!("space_{}", name), &format!("{}; last variable written whole, first one by its last record", s.bound), s.n, move |i, ctx| {
            let def = match gen(i) { Some(d) => d, None => { ctx.count("skipped: not a valid combination"); return Ok(()) } };
            let nv = def.vars.len();
            let mut ops = vec![];
            if nv > 0 { ops.push(Op::Var { v: nv - 1, salt: 0 }); if def.nslabs(0) > 0 { ops.push(Op::Rec { v: 0, r: def.nslabs(0) - 1, salt: 0 }); } }
            case(ctx, mode, &def, VERS[(i % 2) as usize], ANY, &salt_all(&ops))
        }));
    }
    f
}
