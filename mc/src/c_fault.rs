//! C11 (I/O faults never corrupt silently) and C12 (crash while writing), by fault injection in the
//! system calls of the library (see ioshim).
use crate::bind;
use crate::hist::{self, Op};
use crate::ioshim::{self, Ev, Fault, Shim};
use crate::model::*;
use crate::runner::*;
use crate::spaces::*;
use netcdf3::{DataSet, FileReader, FileWriter};
use std::path::Path;

const FAULTS: [Fault; 6] = [Fault::Short1, Fault::ShortHalf, Fault::Eintr, Fault::Enospc, Fault::Eio, Fault::Zero];
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Strategy { Skip, Retry, RetryAtEnd, Abandon }
const STRATEGIES: [Strategy; 4] = [Strategy::Skip, Strategy::Retry, Strategy::RetryAtEnd, Strategy::Abandon];

/// Schemas of the fault explorations: few elements, so that every call can be hit.
fn schemas() -> Vec<Def> {
    vec![
        dims_abu(1, 2, 3, 2).var("f", Ty::I16, &["b"]).var("r", Ty::I8, &["u", "a"]).vattr("q", Val::pattern(Ty::U8, 3, 1)).var("s", Ty::F64, &["u"]),
        dims_abu(0, 2, 1, 3).var("r", Ty::I16, &["u"]).attr("g", Val::pattern(Ty::F32, 2, 4)),
        dims_abu(3, 3, 2, 0).var("f", Ty::U8, &["a"]).var("g", Ty::F32, &["b"]).var("h", Ty::I8, &[]),
        dims_abu(2, 3, 1, 1).var("r", Ty::I32, &["u", "b"]).var("f", Ty::F64, &["b"]).var("s", Ty::U8, &["u"]),
        Def::default().attr("only", Val::pattern(Ty::I16, 3, 1)),
    ]
}
#[derive(Clone, PartialEq, Eq, Debug)]
enum St { Never, Acked(Vec<u8>), Unknown }

/// What a run with faults ended with.
struct Outcome { defined: bool, slabs: Vec<Vec<St>>, acked_any: Vec<Vec<bool>>, closed: Option<bool>, all_ok: bool }

fn mark(def: &Def, o: &mut Outcome, op: Op, ok: bool) {
    let val = hist::op_val(def, op);
    let mut one = |v: usize, s: usize, raw: &[u8]| {
        if ok { o.slabs[v][s] = St::Acked(raw.to_vec()); o.acked_any[v][s] = true; }
        else if o.slabs[v][s] != St::Never { o.slabs[v][s] = St::Unknown } else { o.slabs[v][s] = St::Unknown; }
    };
    match op {
        Op::Var { v, .. } => { let n = def.slab_bytes(v) as usize; for s in 0..def.nslabs(v) { one(v, s, &val.raw[s * n..(s + 1) * n]) } }
        Op::Rec { v, r, .. } => one(v, r, &val.raw),
    }
}
fn faulty_run(path: &Path, def: &Def, ds: &DataSet, ver: Ver, hmin: usize, ops: &[Op], strat: Strategy, shim: &mut Shim) -> Result<Outcome, String> {
    let mut o = Outcome { defined: false, slabs: (0..def.vars.len()).map(|v| vec![St::Never; def.nslabs(v)]).collect(), acked_any: (0..def.vars.len()).map(|v| vec![false; def.nslabs(v)]).collect(), closed: None, all_ok: true };
    let mut w = FileWriter::open(path).map_err(|e| format!("open: {:?}", e))?;
    let sp = shim as *mut Shim;
    ioshim::start(shim);
    struct G; impl Drop for G { fn drop(&mut self) { ioshim::stop(); } }
    let _g = G;
    // the space comes back after the first error when the caller retries
    let relief = || unsafe { if strat != Strategy::Skip { (*sp).from = None } };
    let mut tries = 0;
    loop {
        match w.set_def(ds, bind::ver(ver), hmin) {
            Ok(()) => { o.defined = true; break }
            Err(e) => {
                o.all_ok = false;
                if w.header_is_defined() { return Err(format!("set_def fails ({:?}) but header_is_defined()", e)); }
                relief();
                tries += 1;
                if strat == Strategy::Abandon { drop(w); return Ok(o); }
                if strat == Strategy::Skip || tries > 4 { break; }
            }
        }
    }
    if strat != Strategy::Skip && o.defined { o.all_ok = true; }
    let mut failed: Vec<Op> = vec![];
    for op in ops {
        let mut tries = 0;
        loop {
            let r = hist::exec(def, &mut w, *op);
            if !o.defined { if r.is_ok() { return Err(format!("{:?} succeeds while set_def failed", op)); } break; }
            mark(def, &mut o, *op, r.is_ok());
            if r.is_ok() { break; }
            relief();
            tries += 1;
            match strat { Strategy::Retry if tries <= 4 => continue, Strategy::Abandon => { o.all_ok = false; drop(w); return Ok(o); } Strategy::RetryAtEnd => failed.push(*op), _ => o.all_ok = false }
            break;
        }
    }
    for op in failed { let r = hist::exec(def, &mut w, op); mark(def, &mut o, op, r.is_ok()); if r.is_err() { o.all_ok = false; } else { o.all_ok &= true; } }
    o.closed = Some(w.close().is_ok());
    Ok(o)
}
/// Judges the bytes left.
fn judge(def: &Def, ver: Ver, hmin: usize, o: &Outcome, got: &[u8]) -> Result<(), String> {
    if !o.defined { return Ok(()); }
    let lay = canonical_layout(def, ver, hmin, def.recsize_padded());
    let exp = encode_file(def, &empty_data(def), ver, hmin, true);
    let n = lay.data_start as usize;
    ck!(got.len() >= n && got[..n] == exp[..n], "the header acknowledged by set_def is not intact: {}", diff_bytes(&exp[..n], &got[..n.min(got.len())]).unwrap_or_default());
    let closed = o.closed == Some(true);
    let mut sure = closed;
    let mut data = empty_data(def);
    for v in 0..def.vars.len() {
        for s in 0..def.nslabs(v) {
            let at = (lay.begins[v] + if def.is_rec(v) { lay.recsize * s as u128 } else { 0 }) as usize;
            let len = def.slab_bytes(v) as usize;
            let e = match &o.slabs[v][s] { St::Acked(x) => Some(x.clone()), _ if !o.acked_any[v][s] && closed => Some(Val::fill(def.vars[v].ty, def.slab_len(v) as usize).raw), St::Unknown => { sure = false; None } St::Never => None };
            if let St::Acked(x) = &o.slabs[v][s] { data[v][s] = Some(x.clone()); }
            if let Some(e) = e {
                let g = got.get(at..at + len);
                ck!(g == Some(&e[..]), "slab {} of {:?} ({}): expected {:02x?} got {:02x?}", s, def.vars[v].name, if matches!(o.slabs[v][s], St::Acked(_)) { "acknowledged write" } else { "not written, closed" }, e, g);
            }
        }
    }
    if sure {
        let exp = encode_file(def, &data, ver, hmin, true);
        if let Some(d) = diff_bytes(&exp, got) { return Err(format!("every call reported success (in the end) but the file is not the right one: {}", d)); }
    }
    Ok(())
}
fn count_calls(path: &Path, def: &Def, ds: &DataSet, ver: Ver, hmin: usize, ops: &[Op]) -> Result<u64, String> {
    let mut s = Shim::default();
    let o = faulty_run(path, def, ds, ver, hmin, ops, Strategy::Skip, &mut s)?;
    ck!(o.closed == Some(true) && o.defined, "a fault-free run fails");
    judge(def, ver, hmin, &o, &std::fs::read(path).map_err(|e| e.to_string())?)?;
    Ok(s.n)
}
#[derive(Clone, Debug)]
enum Plan { At(Vec<(u64, Fault)>), From(u64, Fault), Always(Fault), Alt, /// so many transfers in a row
    Burst(u64, u64, Fault), /// an errno of the k-th open or stat call, and a fault of a transfer
    Meta(u64, i32, Option<(u64, Fault)>) }
const META_ERRNOS: [i32; 5] = [libc::EIO, libc::EACCES, libc::EMFILE, libc::EINTR, libc::ENOMEM];
impl Plan {
    fn shim(&self) -> Shim {
        let mut s = Shim::default();
        match self { Plan::At(p) => s.plan = p.clone(), Plan::From(k, f) => s.from = Some((*k, *f)), Plan::Always(f) => s.always = Some(*f), Plan::Alt => s.alt_eintr = true, Plan::Burst(k, l, f) => s.burst = Some((*k, *l, *f)), Plan::Meta(k, e, o) => { s.meta_plan = Some((*k, *e)); s.plan = o.iter().cloned().collect(); } }
        s
    }
}
/// One run under a plan, with one strategy.
fn one(ctx: &mut Ctx, def: &Def, ds: &DataSet, ver: Ver, hmin: usize, ops: &[Op], strat: Strategy, plan: &Plan) -> Result<u64, String> {
    let p = ctx.path("w.nc");
    let m = |e: String| format!("{}\nfaults {:?}, strategy {:?}: {}", hist::show(def, ver, hmin, ops), plan, strat, e);
    let mut s = plan.shim();
    let o = faulty_run(&p, def, ds, ver, hmin, ops, strat, &mut s).map_err(m)?;
    let got = std::fs::read(&p).map_err(|e| e.to_string())?;
    judge(def, ver, hmin, &o, &got).map_err(m)?;
    if matches!(plan, Plan::Always(Fault::Short1) | Plan::Always(Fault::ShortHalf) | Plan::Always(Fault::ShortAll1) | Plan::Alt) {
        if !(o.defined && o.closed == Some(true)) { ctx.count("short or interrupted transfers reported as an error"); } else { ctx.count("short or interrupted transfers absorbed"); }
    }
    if s.hits > 0 { ctx.count(if o.all_ok && o.closed == Some(true) { "faults absorbed or retried" } else { "faults reported" }) }
    ctx.op(ops.len() as u64 + 2); ctx.trace();
    Ok(s.hits)
}
fn singles(ctx: &mut Ctx, def: &Def, ds: &DataSet, ver: Ver, hmin: usize, ops: &[Op]) -> Result<(), String> {
    let p = ctx.path("w.nc");
    let n = count_calls(&p, def, ds, ver, hmin, ops)?;
    for k in 0..n { for f in FAULTS { for st in STRATEGIES {
        ctx.state(&(ver, hmin, ops, k, f, st as usize));
        let hits = one(ctx, def, ds, ver, hmin, ops, st, &Plan::At(vec![(k, f)]))?;
        ck!(hits > 0, "engine: the fault at call {} is not reached", k);
    } } }
    for k in 0..n { for f in [Fault::Enospc, Fault::Eio, Fault::Zero] { for st in STRATEGIES { one(ctx, def, ds, ver, hmin, ops, st, &Plan::From(k, f))?; } } }
    for pl in [Plan::Always(Fault::ShortAll1), Plan::Always(Fault::ShortHalf), Plan::Alt] { for st in STRATEGIES { one(ctx, def, ds, ver, hmin, ops, st, &pl)?; } }
    Ok(())
}
fn pairs(ctx: &mut Ctx, def: &Def, ds: &DataSet, ver: Ver, ops: &[Op], k1: u64) -> Result<(), String> {
    let p = ctx.path("w.nc");
    let hmin = hist::hm(&(def, ver, ops));
    let n = count_calls(&p, def, ds, ver, hmin, ops)?;
    if k1 >= n { ctx.count("skipped: no such call"); return Ok(()); }
    for k2 in k1 + 1..n + 6 { for f1 in FAULTS { for f2 in FAULTS { for st in STRATEGIES {
        one(ctx, def, ds, ver, hmin, ops, st, &Plan::At(vec![(k1, f1), (k2, f2)]))?;
    } } } }
    Ok(())
}

/// Ordinals of at most `n` (about) calls of a run: both ends, around powers of two, where the kind or the
/// length of the transfers changes, and evenly between.
fn chosen_calls(kinds: &[(char, usize)], n: usize) -> Vec<u64> {
    let t = kinds.len();
    let mut v: Vec<usize> = (0..5).chain(t.saturating_sub(5)..t).chain([t / 2, t / 3]).collect();
    let mut p = 8; while p < t { v.extend([p - 1, p, p + 1]); p *= 4; }
    let mut change: Vec<usize> = (1..t).filter(|k| kinds[*k] != kinds[k - 1] && kinds[*k].1 != 0).collect();
    let step = change.len() / (n / 2).max(1) + 1;
    change = change.into_iter().step_by(step).collect();
    v.extend(change);
    // the longest transfers
    let mut long: Vec<usize> = (0..t).collect();
    long.sort_by_key(|k| std::cmp::Reverse(kinds[*k].1));
    v.extend(long.into_iter().take(5));
    v.extend((0..n / 4).map(|k| k * t / (n / 4).max(1)));
    v.retain(|k| *k < t);
    v.sort(); v.dedup();
    v.into_iter().map(|k| k as u64).collect()
}

// ------------------------------------------------------------------------------------------ readers
#[derive(Clone, Copy, Debug)]
enum Rd { Var(usize), Rec(usize, usize), Typed(usize), All }
fn rd_alphabet(def: &Def) -> Vec<Rd> { let mut a = vec![Rd::All]; for v in 0..def.vars.len() { a.push(Rd::Var(v)); a.push(Rd::Typed(v)); for s in 0..def.nslabs(v) { a.push(Rd::Rec(v, s)); } } a }
/// `Ok(true)`: the right value; `Ok(false)`: an error.
fn rd(r: &mut FileReader, def: &Def, data: &Data, c: Rd) -> Result<bool, String> {
    let cmp = |got: Result<Val, netcdf3::ReadError>, e: Val| match got { Err(_) => Ok(false), Ok(g) if g == e => Ok(true), Ok(g) => Err(format!("{:?} gives {:?} instead of {:?}{}", c, g, e, bind::where_diff(&e, &g))) };
    match c {
        Rd::Var(v) => cmp(bind::read_var(r, &def.vars[v].name), var_value(def, data, v)),
        Rd::Typed(v) => cmp(bind::read_var_typed(r, &def.vars[v].name, def.vars[v].ty), var_value(def, data, v)),
        Rd::Rec(v, s) => cmp(bind::read_rec(r, &def.vars[v].name, s), slab_value(def, data, v, s)),
        Rd::All => match r.read_all_vars() { Err(_) => Ok(false), Ok(m) => { for v in 0..def.vars.len() { let e = var_value(def, data, v); let g = m.get(&def.vars[v].name).map(bind::dv_to_val); if g.as_ref() != Some(&e) { return Err(format!("read_all_vars gives {:?} for {:?} instead of {:?}", g, def.vars[v].name, e)); } } Ok(m.len() == def.vars.len()) } },
    }
}
fn reader_run(p: &Path, def: &Def, data: &Data, ver: Ver, reads: &[Rd], plan: &Plan, retry: bool) -> Result<(u64, u64, u64, u64), String> {
    let mut s = plan.shim();
    let sp = &mut s as *mut Shim;
    ioshim::start(&mut s);
    struct G; impl Drop for G { fn drop(&mut self) { ioshim::stop(); } }
    let _g = G;
    let mut errors = 0;
    let mut tries = 0;
    let mut r = loop {
        match FileReader::open(p) { Ok(r) => break r, Err(_) => { errors += 1; tries += 1; unsafe { (*sp).from = None; } if tries > 4 { ioshim::stop(); return Ok((s.n, s.hits, errors, s.meta_n)); } } }
    };
    let g = bind::snapshot(r.data_set()).map_err(|e| format!("definition: {}", e))?;
    if let Some(d) = bind::diff_def(def, &g) { return Err(format!("definition: {}", d)); }
    if bind::unver(&r.version()) != ver { return Err("version".into()); }
    for c in reads {
        for _ in 0..4 {
            if rd(&mut r, def, data, *c)? { break; }
            errors += 1;
            unsafe { (*sp).from = None; }
            if !retry { break; }
        }
    }
    ioshim::stop();
    let meta_n = s.meta_n;
    for c in rd_alphabet(def) { ck!(rd(&mut r, def, data, c)?, "after the faults are gone, {:?} fails", c); }
    Ok((s.n, s.hits, errors, meta_n))
}
fn read_schemas() -> Vec<Def> {
    let mut v = schemas();
    v[0] = v[0].clone().attr("long", Val::pattern(Ty::U8, 1100, 3));
    v.push(dims_abu(0, 2, 3, 2).attr("long", Val::pattern(Ty::F64, 280, 3)).var("r", Ty::F32, &["u", "a"]).var("f", Ty::I8, &["b"]));
    v
}
fn reader_case(ctx: &mut Ctx, def: &Def, ver: Ver, reads: &[Rd], two: bool) -> Result<(), String> {
    let data = full_data(def, 3);
    let p = ctx.path("r.nc");
    let hmin = hist::hm(&(def, ver, reads.len()));
    std::fs::write(&p, encode_file(def, &data, ver, hmin, true)).map_err(|e| e.to_string())?;
    let m = |pl: &Plan, e: String| format!("{}\nreads {:?}, faults {:?}: {}", hist::show(def, ver, hmin, &[]), reads, pl, e);
    let none = Plan::At(vec![]);
    let (n, _, e, nm) = reader_run(&p, def, &data, ver, reads, &none, false).map_err(|x| m(&none, x))?;
    ck!(e == 0, "reads fail without fault");
    let mut plans = vec![Plan::Always(Fault::ShortAll1), Plan::Always(Fault::ShortHalf), Plan::Alt];
    for k in 0..n {
        for f in FAULTS { plans.push(Plan::At(vec![(k, f)])); if two { for k2 in k + 1..n + 3 { for f2 in FAULTS { plans.push(Plan::At(vec![(k, f), (k2, f2)])); } } } }
        for f in [Fault::Eio, Fault::Zero] { plans.push(Plan::From(k, f)); }
    }
    for k in 0..nm { for e in META_ERRNOS { plans.push(Plan::Meta(k, e, None)); if two { for k2 in 0..n + 2 { for f2 in FAULTS { plans.push(Plan::Meta(k, e, Some((k2, f2)))); } } } } }
    for pl in &plans { for retry in [false, true] {
        ctx.state(&(ver, format!("{:?}", (pl, retry)), reads.len()));
        let (_, hits, errors, _) = reader_run(&p, def, &data, ver, reads, pl, retry).map_err(|x| m(pl, x))?;
        if hits > 0 { ctx.count(if errors == 0 { "read faults absorbed" } else { "read faults reported" }); }
        ctx.op(reads.len() as u64 + 1); ctx.trace();
    } }
    Ok(())
}

pub fn families_c11(t: Tier) -> Vec<Family> {
    let th = t.thorough();
    let mut f = vec![];
    for (si, def) in schemas().into_iter().enumerate() {
        let al = hist::alphabet(&def);
        let depth = if th && si > 0 { 3 } else { 2 };
        let n = nseqs(al.len(), depth);
        let (d2, a2) = (def.clone(), al.clone());
        f.push(fam(&format!("write_single_{}", si), &format!("schema #{}: all histories of up to {} writes among {}, 2 versions: a fault (short transfer of 1 byte or half, EINTR, ENOSPC, EIO, 0) at every read/write/seek, or from it on, or on all calls; 4 reactions (go on, retry, retry at the end, abandon)", si, depth, al.len()), n * 2, move |i, ctx| {
            let ops: Vec<Op> = seq(i / 2, a2.len()).into_iter().enumerate().map(|(j, k)| hist::salted(a2[k], j + 1)).collect();
            let ds = bind::build(&d2).map_err(|e| format!("{:?}", e))?;
            ctx.sample(|| hist::show(&d2, VERS[(i % 2) as usize], 0, &ops));
            singles(ctx, &d2, &ds, VERS[(i % 2) as usize], if i % 3 == 0 { 0 } else { 160 }, &ops)
        }));
        // pairs of faults on one full history
        let d2 = def.clone();
        let ops: Vec<Op> = { let mut o: Vec<Op> = vec![]; for v in (0..def.vars.len()).rev() { if def.nslabs(v) > 1 { o.push(Op::Rec { v, r: def.nslabs(v) - 1, salt: v + 1 }); } else { o.push(Op::Var { v, salt: v + 1 }); } } o };
        let hs: Vec<Vec<Op>> = if th { let mut h = vec![ops.clone(), hist::full_ops(&def)]; for a in &al { h.push(vec![hist::salted(*a, 7)]); } h } else { vec![ops.clone()] };
        let nh = hs.len() as u64;
        f.push(fam(&format!("write_pairs_{}", si), &format!("schema #{}: {} histories: two faults at every pair of calls, 6x6 kinds, 4 reactions", si, nh), 80 * nh, move |i, ctx| {
            let ds = bind::build(&d2).map_err(|e| format!("{:?}", e))?;
            let ops = &hs[(i % nh) as usize];
            ctx.state(&(si, i));
            pairs(ctx, &d2, &ds, VERS[(i % 2) as usize], ops, i / nh)
        }));
    }
    // the crossed definitions
    {
        f.push(fam("crossed_writes", &format!("{}: every variable written record by record in reverse order; a fault of {} kinds at every read/write/seek{}", CROSSED_BOUND, if th { 6 } else { 3 }, if th { "; 4 reactions" } else { "; the caller goes on, or retries" }), CROSSED_SMALL, move |i, ctx| {
            let def = crossed_small(i);
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            let mut ops = hist::full_ops(&def); ops.reverse();
            let ver = VERS[(i % 2) as usize];
            let hmin = hist::hm(&i);
            if th { return singles(ctx, &def, &ds, ver, hmin, &ops); }
            let p = ctx.path("w.nc");
            let n = count_calls(&p, &def, &ds, ver, hmin, &ops)?;
            for k in 0..n { for f in [Fault::Short1, Fault::Eintr, Fault::Eio] {
                ctx.state(&(i, k, f));
                let st = if f == Fault::Eio && k % 2 == 0 { Strategy::Retry } else { Strategy::Skip };
                one(ctx, &def, &ds, ver, hmin, &ops, st, &Plan::At(vec![(k, f)]))?;
            } }
            Ok(())
        }));
        f.push(fam("crossed_reads", &format!("{}: everything read, {}, with each of 6 faults at every call (or from it on, or on all)", CROSSED_BOUND, if th { "in definition order and in reverse" } else { "alternately in definition order and in reverse" }), CROSSED_SMALL * if th { 2 } else { 1 }, move |i, ctx| {
            let (d, rev) = if th { (i / 2, i % 2 == 1) } else { (i, i % 2 == 1) };
            let def = crossed_small(d);
            let mut reads = rd_alphabet(&def);
            if rev { reads.reverse(); }
            reader_case(ctx, &def, VERS[(i / 2 % 2) as usize], &reads, false)
        }));
    }
    // large definitions, with faults at chosen calls
    f.push(fam("large_writes", &format!("{}: everything written, in order and in reverse (by records where there are at most 40): faults of {} kinds at calls 0..5, those around powers of two, in the middle, the last 5, and where transfers of a new length begin; short or interrupted transfers all along; {} reactions", LARGE_BOUND, FAULTS.len(), if th { 4 } else { 2 }), LARGE as u64 * 2 * 8, move |i, ctx| {
        let (part, i) = ((i / (2 * LARGE as u64)) as usize, i % (2 * LARGE as u64));
        let def = large((i / 2) as usize);
        let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
        let ver = VERS[(i / 2 % 2) as usize];
        let hmin = hist::hm(&i);
        let mut ops = hist::full_ops(&def);
        if i % 2 == 1 { ops.reverse(); ops = ops.into_iter().flat_map(|o| match o { Op::Var { v, salt } if def.is_rec(v) && def.nslabs(v) <= 40 => (0..def.nslabs(v)).map(|r| Op::Rec { v, r, salt: salt + r }).collect(), o => vec![o] }).collect(); }
        let p = ctx.path("w.nc");
        let mut s = Shim::default();
        let o = faulty_run(&p, &def, &ds, ver, hmin, &ops, Strategy::Skip, &mut s)?;
        ck!(o.closed == Some(true) && o.defined, "a fault-free run fails");
        let ks = chosen_calls(&s.kinds, if th { 150 } else { (2_000_000 / s.kinds.len()).clamp(8, 50) });
        for (j, k) in ks.iter().enumerate().filter(|x| x.0 / 2 % 8 == part) { for f in FAULTS {
            let sts: &[Strategy] = if th { &STRATEGIES } else if j % 2 == 0 { &[Strategy::Skip, Strategy::Retry] } else { &[Strategy::RetryAtEnd] };
            for st in sts { ctx.state(&(i, k, f, *st as usize)); one(ctx, &def, &ds, ver, hmin, &ops, *st, &Plan::At(vec![(*k, f)]))?; }
        } }
        for (j, pl) in [Plan::Always(Fault::ShortHalf), Plan::Alt].iter().enumerate() { if j == part { one(ctx, &def, &ds, ver, hmin, &ops, Strategy::Skip, pl)?; } }
        Ok(())
    }));
    f.push(fam("large_reads", &format!("{}: everything read: faults of {} kinds at calls chosen in the same way, short or interrupted transfers all along; the caller goes on or retries", LARGE_BOUND, FAULTS.len()), LARGE as u64 * 8, move |i, ctx| {
        let (part, i) = ((i / LARGE as u64) as usize, i % LARGE as u64);
        let def = large(i as usize);
        let ver = VERS[(i % 2) as usize];
        let hmin = hist::hm(&i);
        let data = full_data(&def, 3);
        let p = ctx.path("r.nc");
        std::fs::write(&p, encode_file(&def, &data, ver, hmin, true)).map_err(|e| e.to_string())?;
        let mut reads: Vec<Rd> = (0..def.vars.len()).map(Rd::Var).collect();
        if reads.len() > 40 { reads.truncate(20); }
        for v in 0..reads.len() { let n = def.nslabs(v); reads.push(Rd::Typed(v)); if n > 0 { reads.push(Rd::Rec(v, n - 1)); reads.push(Rd::Rec(v, n / 2)); } }
        let m = |pl: &Plan, e: String| format!("{}\nreads {:?}, faults {:?}: {}", hist::show(&def, ver, hmin, &[]), reads, pl, e);
        // the final reads of everything are left to the other families
        let run = |plan: &Plan, retry: bool| -> Result<(Vec<(char, usize)>, u64, u64), String> {
            let mut s = plan.shim();
            let mut errors = 0;
            ioshim::with(&mut s, || -> Result<(), String> {
                let mut tries = 0;
                let mut r = loop { match FileReader::open(&p) { Ok(r) => break r, Err(_) => { errors += 1; tries += 1; if tries > 4 { return Ok(()); } } } };
                if let Some(d) = bind::diff_def(&def, &bind::snapshot(r.data_set())?) { return Err(format!("definition: {}", d)); }
                for c in &reads { for _ in 0..4 { if rd(&mut r, &def, &data, *c)? { break; } errors += 1; if !retry { break; } } }
                Ok(())
            })?;
            Ok((s.kinds, s.hits, errors))
        };
        let (kinds, _, e) = run(&Plan::At(vec![]), false)?;
        ck!(e == 0, "reads fail without fault");
        let mut plans = vec![Plan::Always(Fault::ShortHalf), Plan::Alt];
        for k in chosen_calls(&kinds, if th { 100 } else { 30 }) { for f in FAULTS { plans.push(Plan::At(vec![(k, f)])); } }
        for pl in plans.iter().skip(part).step_by(8) { for retry in [false, true] {
            let (_, hits, errors) = run(pl, retry).map_err(|x| m(pl, x))?;
            ck!(!matches!(pl, Plan::At(_)) || hits > 0, "engine: the fault is not reached");
            ck!(!retry || hits == 0 || errors <= hits, "{}", m(pl, format!("{} errors for {} faults", errors, hits)));
            ctx.state(&(i, format!("{:?}", (pl, retry)))); ctx.op(reads.len() as u64 + 1); ctx.trace();
        } }
        Ok(())
    }));
    // storms: many interruptions or short transfers in a row
    {
        let ns = repeats(if th { 65537 } else { 4097 });
        let (nn, nd, parts) = (ns.len(), schemas().len(), 8u64);
        let ns2 = ns.clone();
        f.push(fam("write_storms", &format!("{} schemas, everything written (in order and in reverse): at each call, L interruptions in a row (or L transfers of one byte), L among {} values up to {}", nd, nn, ns[nn - 1]), (nn * nd * 2) as u64 * parts, move |i, ctx| {
            let (part, i) = (i % parts, i / parts);
            let mut d = Digits(i);
            let (rev, si, l) = (d.next(2), d.next(nd), ns2[d.next(nn)]);
            let def = schemas().swap_remove(si);
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            let mut ops = hist::full_ops(&def);
            if rev == 1 { ops.reverse(); }
            let ver = VERS[l % 2];
            let hmin = hist::hm(&(l, si, rev));
            let p = ctx.path("w.nc");
            let n = count_calls(&p, &def, &ds, ver, hmin, &ops)?;
            for k in (0..n).filter(|k| k % parts == part) { for fa in [Fault::Eintr, Fault::Short1] {
                if fa == Fault::Short1 && l > 300 { continue; }
                ctx.state(&(i, k, fa));
                one(ctx, &def, &ds, ver, hmin, &ops, if k % 2 == 0 { Strategy::Skip } else { Strategy::Retry }, &Plan::Burst(k, l as u64, fa))?;
            } }
            Ok(())
        }));
        let nr = read_schemas().len();
        f.push(fam("read_storms", &format!("{} schemas, everything read: at each call, L interruptions in a row (or L transfers of one byte), L among {} values up to {}", nr, nn, ns[nn - 1]), (nn * nr) as u64 * parts, move |i, ctx| {
            let (part, i) = (i % parts, i / parts);
            let mut d = Digits(i);
            let (si, l) = (d.next(nr), ns[d.next(nn)]);
            let def = read_schemas().swap_remove(si);
            let (data, reads, ver, p) = (full_data(&def, 3), rd_alphabet(&def), VERS[l % 2], ctx.path("r.nc"));
            std::fs::write(&p, encode_file(&def, &data, ver, 0, true)).map_err(|e| e.to_string())?;
            let n = reader_run(&p, &def, &data, ver, &reads, &Plan::At(vec![]), false)?.0;
            for k in (0..n).filter(|k| k % parts == part) { for fa in [Fault::Eintr, Fault::Short1] {
                if fa == Fault::Short1 && l > 300 { continue; }
                let pl = Plan::Burst(k, l as u64, fa);
                reader_run(&p, &def, &data, ver, &reads, &pl, false).map_err(|e| format!("{}\nreads {:?}, faults {:?}: {}", hist::show(&def, ver, 0, &[]), reads, pl, e))?;
                ctx.state(&(i, k, fa)); ctx.op(reads.len() as u64 + 1); ctx.trace();
            } }
            Ok(())
        }));
        // long histories
        let hs = [50usize, 70, 110, 140, 210, 270, 520];
        let nh = if th { 7 } else { 6 };
        f.push(fam("long_faults", &format!("histories of {:?} writes of records (each once, one record again and again, or in turn with another variable) and as many reads of them: a fault of {} kinds at the first and last calls, around powers of two and at about {} calls evenly between; {} reactions", &hs[..nh], FAULTS.len(), if th { 200 } else { 60 }, STRATEGIES.len()), (nh * 3) as u64 * parts, move |i, ctx| {
            let (part, i) = ((i % parts) as usize, i / parts);
            let mut d = Digits(i);
            let (kind, n) = (d.next(3), hs[d.next(nh)]);
            let def = match kind { 1 => dims_abu(0, 2, 1, 3), _ => dims_abu(0, 2, 1, n) }.var("r", Ty::I16, &["u"]).var("f", Ty::F32, &["a"]).var("s", Ty::I8, &["u", "a"]);
            let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
            let ops: Vec<Op> = (0..n).map(|j| match kind { 0 => Op::Rec { v: 2, r: j, salt: j }, 1 => Op::Rec { v: 0, r: 1, salt: j }, _ => if j % 2 == 0 { Op::Rec { v: 0, r: n - 1 - j, salt: j } } else { Op::Var { v: 1, salt: j } } }).collect();
            let (ver, p, hmin) = (VERS[n / 10 % 2], ctx.path("w.nc"), hist::hm(&(kind, n)));
            let mut s = Shim::default();
            let o = faulty_run(&p, &def, &ds, ver, hmin, &ops, Strategy::Skip, &mut s)?;
            ck!(o.closed == Some(true) && o.defined, "a fault-free run fails");
            for (j, k) in chosen_calls(&s.kinds, if th { 800 } else { 240 }).into_iter().enumerate().filter(|x| x.0 % parts as usize == part) { for fa in FAULTS {
                let st = STRATEGIES[(j + FAULTS.iter().position(|x| *x == fa).unwrap()) % 4];
                ctx.state(&(i, k, fa)); one(ctx, &def, &ds, ver, hmin, &ops, st, &Plan::At(vec![(k, fa)]))?;
            } }
            let data = full_data(&def, 3);
            let q = ctx.path("r.nc");
            std::fs::write(&q, encode_file(&def, &data, ver, hmin, true)).map_err(|e| e.to_string())?;
            let reads: Vec<Rd> = ops.iter().map(|o| match o { Op::Var { v, .. } => Rd::Var(*v), Op::Rec { v, r, .. } => Rd::Rec(*v, *r) }).collect();
            let total = reader_run(&q, &def, &data, ver, &reads, &Plan::At(vec![]), false)?.0;
            let kinds = vec![('r', 1); total as usize];
            for (j, k) in chosen_calls(&kinds, if th { 800 } else { 240 }).into_iter().enumerate().filter(|x| x.0 % parts as usize == part) { for fa in FAULTS {
                let pl = Plan::At(vec![(k, fa)]);
                reader_run(&q, &def, &data, ver, &reads, &pl, j % 2 == 0).map_err(|e| format!("{}\n{} reads, faults {:?}: {}", hist::show(&def, ver, hmin, &[]), reads.len(), pl, e))?;
                ctx.state(&(i, k, fa, 0)); ctx.op(reads.len() as u64 + 1); ctx.trace();
            } }
            Ok(())
        }));
    }
    // opening for writing
    f.push(fam("open_for_writing", "6 schemas x open and create_new, over an older file or not: open or stat calls fail (5 errnos) at every one of them; then the call is made again", (schemas().len() * 2 * 2) as u64, move |i, ctx| {
        let mut d = Digits(i);
        let (def, create, older) = (schemas()[d.next(schemas().len())].clone(), d.next(2) == 1, d.next(2) == 1);
        let ds = bind::build(&def).map_err(|e| format!("{:?}", e))?;
        let p = ctx.path("w.nc");
        for e in META_ERRNOS { for k in 0..8 {
            let _ = std::fs::remove_file(&p);
            let old: &[u8] = &[0xEE; 700];
            if older { std::fs::write(&p, old).map_err(|e| e.to_string())?; }
            let m = |x: String| format!("{} {}, errno {} at open/stat call {}: {}", if create { "create_new" } else { "open" }, if older { "over a file" } else { "of a new file" }, e, k, x);
            let mut s = Shim { meta_plan: Some((k, e)), ..Shim::default() };
            let sp = &mut s as *mut Shim;
            let open = || if create { FileWriter::create_new(&p) } else { FileWriter::open(&p) };
            let ops = hist::full_ops(&def);
            let r = ioshim::with(&mut s, || -> Result<bool, String> {
                let mut w = match open() { Ok(w) => w, Err(_) => {
                    if unsafe { (*sp).hits } > 0 && !older && e != libc::EINTR { if std::fs::metadata(&p).is_ok() { return Err("the call fails but leaves a file".into()); } }
                    if unsafe { (*sp).hits } > 0 && older && std::fs::read(&p).ok().as_deref() != Some(old) { return Err("the call fails but the older file is changed".into()); }
                    match open() { Ok(w) => w, Err(x) => { if older && create { return Ok(false); } return Err(format!("{:?} once the fault is gone", x)); } }
                } };
                if older && create { return Err("create_new succeeds over a file".into()); }
                let mut done = false;
                for _ in 0..3 { if w.set_def(&ds, bind::ver(Ver::V2), 0).is_ok() { done = true; break; } }
                if !done { return Err("set_def fails for ever".into()); }
                for op in &ops { if hist::exec(&def, &mut w, *op).is_err() { hist::exec(&def, &mut w, *op).map_err(|x| format!("{:?}", x))?; } }
                let ok = w.close().is_ok();
                Ok(ok)
            }).map_err(m)?;
            if r {
                let mut data = empty_data(&def); for op in &ops { hist::apply(&def, &mut data, *op); }
                if let Some(x) = diff_bytes(&encode_file(&def, &data, Ver::V2, 0, true), &std::fs::read(&p).map_err(|e| e.to_string())?) { return Err(m(x)); }
            }
            ctx.state(&(i, e, k)); ctx.op(ops.len() as u64 + 3); ctx.trace();
            if s.hits == 0 { break; }
        } }
        Ok(())
    }));
    for (si, def) in read_schemas().into_iter().enumerate() {
        let al = rd_alphabet(&def);
        let depth = if th { 3 } else { 2 };
        let na = al.len();
        let (d2, a2) = (def.clone(), al.clone());
        f.push(fam(&format!("read_single_{}", si), &format!("schema #{}: all sequences of up to {} reads among {}, 2 versions: opening and reading with a fault at every call, from it on, or on all calls; the caller goes on or retries", si, depth, na), nseqs(na, depth) * 2, move |i, ctx| {
            let reads: Vec<Rd> = seq(i / 2, na).into_iter().map(|k| a2[k]).collect();
            ctx.sample(|| format!("{} {:?}", hist::show(&d2, VERS[(i % 2) as usize], 0, &[]), reads));
            reader_case(ctx, &d2, VERS[(i % 2) as usize], &reads, false)
        }));
        let d2 = def.clone();
        f.push(fam(&format!("read_pairs_{}", si), &format!("schema #{}: every single read{}: two faults at every pair of calls", si, if th { " and every pair of reads" } else { "" }), nseqs(na, if th { 2 } else { 1 }) * 2, move |i, ctx| {
            let reads: Vec<Rd> = seq(i / 2, na).into_iter().map(|k| al[k]).collect();
            reader_case(ctx, &d2, VERS[(i % 2) as usize], &reads, true)
        }));
    }
    f
}

// ------------------------------------------------------------------------------------------ C12
/// One write history recorded then cut at every byte.
fn crash_case(ctx: &mut Ctx, def: &Def, ver: Ver, hmin: usize, ops: &[Op], old: Option<&[u8]>, every: usize) -> Result<(), String> {
    let (p, q) = (ctx.path("w.nc"), ctx.path("cut.nc"));
    let ds = bind::build(def).map_err(|e| format!("{:?}", e))?;
    let m = |e: String| format!("{}{}\n{}", hist::show(def, ver, hmin, ops), if old.is_some() { " over an older file" } else { "" }, e);
    match old { Some(b) => std::fs::write(&p, b).map_err(|e| e.to_string())?, None => { let _ = std::fs::remove_file(&p); } }
    let mut shim = Shim { record: true, ..Shim::default() };
    // attempts: (number of log entries when the call starts, op)
    let mut attempts: Vec<(usize, Op)> = vec![];
    let base;
    {
        let mut w = FileWriter::open(&p).map_err(|e| format!("{:?}", e))?;
        base = std::fs::read(&p).map_err(|e| e.to_string())?;
        let sp = &mut shim as *mut Shim;
        ioshim::start(&mut shim);
        struct G; impl Drop for G { fn drop(&mut self) { ioshim::stop(); } }
        let _g = G;
        w.set_def(&ds, bind::ver(ver), hmin).map_err(|e| m(format!("{:?}", e)))?;
        for op in ops { attempts.push((unsafe { (*sp).log.len() }, *op)); hist::exec(def, &mut w, *op).map_err(|e| m(format!("{:?}", e)))?; }
        w.close().map_err(|e| m(format!("{:?}", e)))?;
    }
    // model of the file as the log is applied
    let mut file = base.clone();
    let mut writes: Vec<(u64, &[u8], usize)> = vec![];
    let mut truncs = vec![];
    for (i, e) in shim.log.iter().enumerate() { match e { Ev::Write { pos, data, .. } => writes.push((*pos, data, i)), Ev::Trunc { len, .. } => { truncs.push((i, *len)); writes.push((u64::MAX, &[], i)) } _ => {} } }
    // the log explains the final file
    let final_bytes = std::fs::read(&p).map_err(|e| e.to_string())?;
    let check = |ctx: &mut Ctx, file: &[u8], upto: usize, cut: Option<u64>| -> Result<(), String> {
        std::fs::write(&q, file).map_err(|e| e.to_string())?;
        ctx.op(1);
        let mut r = match FileReader::open(&q) { Ok(r) => r, Err(_) => { ctx.count("crash: the file cannot be opened"); return Ok(()) } };
        ctx.count("crash: the file can be opened");
        let g = bind::snapshot(r.data_set())?;
        if let Some(d) = bind::diff_def(def, &g) { return Err(format!("another definition is read: {}", d)); }
        ck!(bind::unver(&r.version()) == ver, "another version is read");
        let lay = canonical_layout(def, ver, hmin, def.recsize_padded());
        for v in 0..def.vars.len() {
            let (t, sz, len) = (def.vars[v].ty, def.vars[v].ty.size(), def.slab_len(v) as usize);
            // values attempted so far, per slab
            let mut tried: Vec<Vec<Vec<u8>>> = vec![vec![]; def.nslabs(v)];
            for (at, op) in &attempts {
                if *at > upto { break; }
                let val = hist::op_val(def, *op);
                match op { Op::Var { v: x, .. } if *x == v => for s in 0..def.nslabs(v) { tried[s].push(val.raw[s * len * sz..(s + 1) * len * sz].to_vec()) }, Op::Rec { v: x, r, .. } if *x == v => tried[*r].push(val.raw.clone()), _ => {} }
            }
            let mut judge = |s: usize, got: &[u8], how: &str| -> Result<(), String> {
                let at = lay.begins[v] + if def.is_rec(v) { lay.recsize * s as u128 } else { 0 };
                for e in 0..len {
                    let g = &got[e * sz..(e + 1) * sz];
                    let pos = at + (e * sz) as u128;
                    if g == t.fill() || g.iter().all(|b| *b == 0) || tried[s].iter().any(|x| &x[e * sz..(e + 1) * sz] == g) { continue; }
                    let torn = cut.map(|c| (c as u128) > pos && (c as u128) < pos + sz as u128).unwrap_or(false);
                    if torn && (0..sz).all(|b| g[b] == t.fill()[b] || g[b] == 0 || tried[s].iter().any(|x| x[e * sz + b] == g[b])) { continue; }
                    return Err(format!("{} of {:?} record {} element {}: {:02x?} is neither a value written to it, nor the fill value, nor zero", how, def.vars[v].name, s, e, g));
                }
                Ok(())
            };
            if let Ok(x) = bind::read_var(&mut r, &def.vars[v].name) { ck!(x.ty == t && x.len() == len * def.nslabs(v), "length or type of {:?}", def.vars[v].name); for s in 0..def.nslabs(v) { judge(s, &x.raw[s * len * sz..(s + 1) * len * sz], "read_var")?; } ctx.count("crash: variables read"); } else { ctx.count("crash: variables refused"); }
            for s in 0..def.nslabs(v) { if let Ok(x) = bind::read_rec(&mut r, &def.vars[v].name, s) { judge(s, &x.raw, "read_record")?; } }
        }
        Ok(())
    };
    check(ctx, &file, 0, None).map_err(|e| m(format!("crash before the header is written: {}", e)))?;
    let mut total = 0usize;
    // large cases: the ends of the system writes which are long, first, last, or next to long ones
    let long = |k: usize| writes.get(k).map_or(false, |w| w.1.len() > 64);
    let ends: Vec<bool> = (0..writes.len()).map(|k| every < 64 || k < 40 || k + 40 >= writes.len() || long(k) || long(k + 1) || k > 0 && long(k - 1)).collect();
    for (wk, (pos, data, i)) in writes.iter().enumerate() {
        if *pos == u64::MAX { let len = truncs.iter().find(|x| x.0 == *i).unwrap().1; file.resize(len as usize, 0); check(ctx, &file, *i, None).map_err(|e| m(format!("crash after truncation #{}: {}", i, e)))?; continue; }
        if file.len() < *pos as usize { file.resize(*pos as usize, 0); }
        for (k, b) in data.iter().enumerate() {
            let at = *pos as usize + k;
            if at < file.len() { file[at] = *b } else { file.push(*b) }
            total += 1;
            if total % every != 0 && (k + 1 != data.len() || !ends[wk]) { continue; }
            check(ctx, &file, *i, Some(at as u64 + 1)).map_err(|e| m(format!("crash after byte {} of write #{} at offset {}: {}", k + 1, i, pos, e)))?;
        }
    }
    if let Some(d) = diff_bytes(&final_bytes, &file) { return Err(m(format!("engine: the recorded writes do not give the final file: {}", d))); }
    ctx.countn("crash points", total as u64);
    ctx.trace();
    ctx.state(&(def, ver, hmin, ops, old.is_some()));
    Ok(())
}
fn old_files() -> Vec<Vec<u8>> {
    let a = dims_abu(0, 3, 5, 4).attr("old", Val::pattern(Ty::U8, 40, 9)).var("f", Ty::I16, &["b"]).var("r", Ty::I8, &["u", "a"]).var("s", Ty::F64, &["u"]).var("more", Ty::F64, &["u", "b"]);
    vec![encode_file(&a, &full_data(&a, 77), Ver::V1, 0, true), vec![0xEE; 4000]]
}
pub fn families_c12(t: Tier) -> Vec<Family> {
    let th = t.thorough();
    let mut f = vec![];
    let mut defs = schemas();
    defs.push(dims_abu(1, 3, 5, 2).var("f", Ty::I16, &["a"]).var("r", Ty::U8, &["u", "b"]).var("g", Ty::I8, &["b"]).var("s", Ty::I16, &["u", "a"]));
    defs.push(dims_abu(0, 1, 1, 2).attr("pad", Val::pattern(Ty::U8, 1050, 5)).var("r", Ty::I16, &["u"]));
    for (si, def) in defs.into_iter().enumerate() {
        let al = hist::alphabet(&def);
        let depth = match (th, si) { (true, 0) | (true, 5) => 3, (true, _) => 4, _ => 2 };
        let na = al.len();
        let n = nseqs(na, depth);
        f.push(fam(&format!("crash_{}", si), &format!("schema #{}: all histories of up to {} writes among {}, alternating versions: the process dies after every byte of the sequence of system writes (header, data, fill at close), without or over an older file", si, depth, na), n * 2, move |i, ctx| {
            let ops: Vec<Op> = seq(i / 2, na).into_iter().enumerate().map(|(j, k)| hist::salted(al[k], j + 1)).collect();
            let old = old_files();
            let o = if i % 2 == 0 { None } else { Some(&old[(i / 2 % 2) as usize][..]) };
            ctx.sample(|| hist::show(&def, VERS[(i / 4 % 2) as usize], 0, &ops));
            crash_case(ctx, &def, VERS[(i / 4 % 2) as usize], if i % 5 == 4 { 300 } else { 0 }, &ops, o, 1)
        }));
    }
    f.push(fam("crossed_crashes", &format!("{}: every variable written in order, in reverse, or every other one: every crash point", CROSSED_BOUND), CROSSED_SMALL * 3, move |i, ctx| {
        let def = crossed_small(i / 3);
        let mut ops = hist::full_ops(&def);
        match i % 3 { 1 => ops.reverse(), 2 => ops = ops.into_iter().step_by(2).collect(), _ => {} }
        let old = old_files();
        crash_case(ctx, &def, VERS[(i / 3 % 2) as usize], hist::hm(&i), &ops, if i % 2 == 0 { None } else { Some(&old[(i / 2 % 2) as usize][..]) }, if th { 1 } else { 3 })
    }));
    f.push(fam("large_crashes", &format!("{}: every variable written in order, in reverse, or every other one, without and over an older file: {} crash points evenly along the bytes, the end of every long system write and of those around it, and of the first and last 40", LARGE_BOUND, if th { 600 } else { 60 }), LARGE as u64 * 3 * 2, move |i, ctx| {
        let mut d = Digits(i);
        let (k, o, over) = (d.next(LARGE), d.next(3), d.next(2));
        let def = large(k);
        let mut ops = hist::full_ops(&def);
        match o { 1 => ops.reverse(), 2 => ops = ops.into_iter().step_by(2).collect(), _ => {} }
        let old = old_files();
        let (ver, hmin) = (VERS[(k + o) % 2], hist::hm(&i));
        let total = canonical_layout(&def, ver, hmin, def.recsize_padded()).total as usize;
        crash_case(ctx, &def, ver, hmin, &ops, if over == 0 { None } else { Some(&old[k % 2][..]) }, (total / if th { 600 } else { 60 }).max(64) | 1)
    }));
    let hs: &[usize] = if th { &[70, 110, 140, 210, 270, 520, 1030] } else { &[70, 110, 140, 270, 520] };
    let nh = hs.len();
    f.push(fam("long_crashes", &format!("histories of {:?} writes of records (each once in order or in reverse, one record again and again, in turn with another variable): crash after every system write", hs), (nh * 4) as u64, move |i, ctx| {
        let mut d = Digits(i);
        let (kind, n) = (d.next(4), hs[d.next(nh)]);
        let def = match kind { 2 => dims_abu(0, 2, 1, 3), _ => dims_abu(0, 2, 1, n) }.var("r", Ty::I16, &["u"]).var("f", Ty::F32, &["a"]);
        let ops: Vec<Op> = (0..n).map(|j| match kind { 0 => Op::Rec { v: 0, r: j, salt: j }, 1 => Op::Rec { v: 0, r: n - 1 - j, salt: j }, 2 => Op::Rec { v: 0, r: 1, salt: j }, _ => if j % 2 == 0 { Op::Rec { v: 0, r: j, salt: j } } else { Op::Var { v: 1, salt: j } } }).collect();
        crash_case(ctx, &def, VERS[n / 10 % 2], hist::hm(&i), &ops, None, 61)
    }));
    // all pairs of variable kinds, one full history in both orders
    let kinds = if th { 60 } else { 10 };
    f.push(fam("crash_kinds", &format!("all pairs of {} variable kinds, 2 records, written in both orders and not at all: every crash point", kinds), (kinds * kinds * 3) as u64, move |i, ctx| {
        let mut d = Digits(i);
        let (a, b, o) = (d.next(kinds), d.next(kinds), d.next(3));
        let base = dims_abu(i as usize % 3, 2, 3, 2);
        let def = if kinds == 60 { add_kind(add_kind(base, "v", a), "w", b) } else { add_small(add_small(base, "v", a), "w", b) };
        let mut ops = hist::full_ops(&def);
        match o { 1 => ops.reverse(), 2 => ops.clear(), _ => {} }
        crash_case(ctx, &def, VERS[(i % 2) as usize], hist::hm(&i), &ops, None, 1)
    }));
    f
}
