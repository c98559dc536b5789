//! C17: files open at the same time do not interfere. Every interleaving of the calls of several
//! actors (writers and readers) in one thread, and every schedule of threads up to a preemption
//! bound, the preemptions being at the system calls of the library.
use crate::bind;
use crate::hist::{self, Op};
use crate::ioshim::{self, Sched};
use crate::model::*;
use crate::runner::*;
use crate::spaces::*;
use netcdf3::{DataSet, FileReader, FileWriter};
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum WStep { Open, Def, Write(Op), /// wrong length
    Bad(usize), /// undefined variable
    Undef, /// definition set a second time
    Redef, Close, Drop }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum RStep { Open, Var(usize), Rec(usize, usize), Typed(usize), Wrong(usize), All, Beyond(usize), Snap, Close }
#[derive(Clone, Debug)]
enum Prog {
    W { def: usize, ver: Ver, hmin: usize, steps: Vec<WStep> },
    R { file: usize, steps: Vec<RStep> },
    /// opens a file, takes its data set, writes another file with it
    Copy { file: usize, ver: Ver },
}
impl Prog { fn len(&self) -> usize { match self { Prog::W { steps, .. } => steps.len(), Prog::R { steps, .. } => steps.len(), Prog::Copy { .. } => 5 } } }

fn defs() -> Vec<Def> {
    vec![
        dims_abu(1, 2, 3, 2).var("f", Ty::I16, &["b"]).var("r", Ty::I8, &["u", "a"]).vattr("q", Val::pattern(Ty::U8, 3, 1)).var("s", Ty::F64, &["u"]),
        // the same names with other shapes and types
        dims_abu(0, 3, 2, 3).var("f", Ty::F32, &["a"]).var("r", Ty::I32, &["u"]).var("s", Ty::U8, &["u", "b"]),
        dims_abu(0, 2, 2, 1).attr("g", Val::pattern(Ty::F64, 2, 4)).var("s", Ty::I32, &[]).var("f", Ty::F64, &["b"]),
    ]
}
/// Pre-existing files: definition and content salt.
const FILES: [(usize, usize); 2] = [(0, 3), (1, 8)];

/// `rel`: the paths given to the library are relative to `dir`, the files of the same names lie in sub-directories.
struct Env { dir: PathBuf, defs: Vec<Def>, rel: bool }
impl Env {
    fn input(&self, k: usize) -> PathBuf { if self.rel { PathBuf::from(format!("i{}/in.nc", k)) } else { self.dir.join(format!("in{}.nc", k)) } }
    fn output(&self, actor: usize) -> PathBuf { if self.rel { PathBuf::from(format!("o{}/out.nc", actor)) } else { self.dir.join(format!("out{}.nc", actor)) } }
    fn abs(&self, p: PathBuf) -> PathBuf { self.dir.join(p) }
    fn new(dir: &Path) -> Result<Env, String> { Env::with(dir, defs()) }
    fn with(dir: &Path, defs: Vec<Def>) -> Result<Env, String> { Env::rel(dir, defs, false) }
    fn rel(dir: &Path, defs: Vec<Def>, rel: bool) -> Result<Env, String> {
        let e = Env { dir: dir.to_path_buf(), defs, rel };
        if rel { for k in 0..3 { for n in ["i", "o"] { std::fs::create_dir_all(dir.join(format!("{}{}", n, k))).map_err(|e| e.to_string())?; } } }
        for (k, (d, salt)) in FILES.iter().enumerate() {
            let p = e.abs(e.input(k));
            if !p.exists() { std::fs::write(&p, encode_file(&e.defs[*d], &full_data(&e.defs[*d], *salt), VERS[k % 2], 0, true)).map_err(|e| e.to_string())?; }
        }
        Ok(e)
    }
}
/// An actor in the middle of its program.
struct Actor<'a> { k: usize, prog: &'a Prog, ds: Option<&'a DataSet>, at: usize, w: Option<FileWriter<'static>>, r: Option<FileReader>, own: Option<Box<DataSet>>, model: Data, complete: bool }
impl<'a> Actor<'a> {
    fn new(env: &Env, k: usize, prog: &'a Prog, ds: Option<&'a DataSet>) -> Actor<'a> {
        let model = match prog { Prog::W { def, .. } => empty_data(&env.defs[*def]), Prog::Copy { file, .. } => empty_data(&env.defs[FILES[*file].0]), _ => vec![] };
        Actor { k, prog, ds, at: 0, w: None, r: None, own: None, model, complete: false }
    }
    /// The writers never outlive `ds`/`own`: they are dropped first (see the order of the fields).
    unsafe fn long(ds: &DataSet) -> &'static DataSet { &*(ds as *const DataSet) }
    fn step(&mut self, env: &Env) -> Result<(), String> {
        let j = self.at; self.at += 1;
        let k = self.k;
        let bad = |w: String| Err(format!("actor {} step {}: {}", k, j, w));
        macro_rules! ok { ($e:expr) => { match $e { Ok(x) => x, Err(e) => return bad(format!("{:?}", e)) } } }
        macro_rules! no { ($e:expr, $p:pat) => { match $e { Err($p) => {} Err(e) => return bad(format!("unexpected error {:?}", e)), Ok(_) => return bad("accepted instead of refused".into()) } } }
        macro_rules! same { ($g:expr, $e:expr) => { { let (g, e) = (ok!($g), $e); if g != e { return bad(format!("got {:?} instead of {:?}", g, e)); } } } }
        match self.prog {
            Prog::W { def, ver, hmin, steps } => {
                let d = &env.defs[*def];
                match steps[j] {
                    WStep::Open => self.w = Some(ok!(FileWriter::open(env.output(k)))),
                    WStep::Def => { let ds = unsafe { Self::long(self.ds.unwrap()) }; ok!(self.w.as_mut().unwrap().set_def(ds, bind::ver(*ver), *hmin)) }
                    WStep::Write(op) => { ok!(hist::exec(d, self.w.as_mut().unwrap(), op)); hist::apply(d, &mut self.model, op); }
                    WStep::Bad(v) => no!(bind::write_var(self.w.as_mut().unwrap(), &d.vars[v].name, &Val::pattern(d.vars[v].ty, d.total_len(v) as usize + 1, 1)), netcdf3::WriteError::VariableMismatchDataLength { .. }),
                    WStep::Undef => no!(self.w.as_mut().unwrap().write_var_i8("nope", &[1]), netcdf3::WriteError::VariableNotDefined(_)),
                    WStep::Redef => { let ds = unsafe { Self::long(self.ds.unwrap()) }; no!(self.w.as_mut().unwrap().set_def(ds, bind::ver(*ver), *hmin), netcdf3::WriteError::HeaderAlreadyDefined) }
                    WStep::Close => { ok!(self.w.take().unwrap().close()); self.complete = true; }
                    WStep::Drop => { self.w = None; }
                }
            }
            Prog::R { file, steps } => {
                let (di, salt) = FILES[*file];
                let d = &env.defs[di];
                let data = full_data(d, salt);
                if let RStep::Open = steps[j] { self.r = Some(ok!(FileReader::open(env.input(*file)))); return Ok(()); }
                let r = self.r.as_mut().unwrap();
                let n = |v: usize| d.vars[v].name.as_str();
                match steps[j] {
                    RStep::Open => {}
                    RStep::Var(v) => same!(bind::read_var(r, n(v)), var_value(d, &data, v)),
                    RStep::Rec(v, s) => same!(bind::read_rec(r, n(v), s), slab_value(d, &data, v, s)),
                    RStep::Typed(v) => same!(bind::read_var_typed(r, n(v), d.vars[v].ty), var_value(d, &data, v)),
                    RStep::Wrong(v) => { let t = TYS[(TYS.iter().position(|t| *t == d.vars[v].ty).unwrap() + 1) % 6]; no!(bind::read_var_typed(r, n(v), t), netcdf3::ReadError::VariableMismatchDataType { .. }) }
                    RStep::Beyond(v) => no!(bind::read_rec(r, n(v), d.nslabs(v)), netcdf3::ReadError::RecordIndexExceeded { .. }),
                    RStep::All => { let m = ok!(r.read_all_vars()); for v in 0..d.vars.len() { let e = var_value(d, &data, v); let g = m.get(n(v)).map(bind::dv_to_val); if g.as_ref() != Some(&e) { return bad(format!("read_all_vars: {:?} instead of {:?}", g, e)); } } if m.len() != d.vars.len() { return bad("read_all_vars: number of variables".into()); } }
                    RStep::Snap => { let g = ok!(bind::snapshot(r.data_set())); if let Some(x) = bind::diff_def(d, &g) { return bad(x); } }
                    RStep::Close => { let (ds, v) = self.r.take().unwrap().close(); let g = ok!(bind::snapshot(&ds)); if let Some(x) = bind::diff_def(d, &g) { return bad(x); } if bind::unver(&v) != VERS[*file % 2] { return bad("version".into()); } }
                }
            }
            Prog::Copy { file, ver } => {
                let (di, salt) = FILES[*file];
                let d = &env.defs[di];
                match j {
                    0 => self.r = Some(ok!(FileReader::open(env.input(*file)))),
                    1 => { let m = ok!(self.r.as_mut().unwrap().read_all_vars()); if m.len() != d.vars.len() { return bad("read_all_vars: number of variables".into()); } let (ds, _) = self.r.take().unwrap().close(); self.own = Some(Box::new(ds)); self.w = Some(ok!(FileWriter::open(env.output(k)))); }
                    2 => { let ds = unsafe { Self::long(self.own.as_ref().unwrap()) }; ok!(self.w.as_mut().unwrap().set_def(ds, bind::ver(*ver), 0)) }
                    3 => for v in 0..d.vars.len() { let op = Op::Var { v, salt: salt + v }; ok!(hist::exec(d, self.w.as_mut().unwrap(), op)); hist::apply(d, &mut self.model, op); },
                    _ => { ok!(self.w.take().unwrap().close()); self.complete = true; }
                }
            }
        }
        Ok(())
    }
    /// Content of the file it has written.
    fn check_output(&self, env: &Env) -> Result<(), String> {
        let (def, ver, hmin, defined) = match self.prog { Prog::W { def, ver, hmin, steps } => (&env.defs[*def], *ver, *hmin, steps.contains(&WStep::Def)), Prog::Copy { file, ver } => (&env.defs[FILES[*file].0], *ver, 0, true), _ => return Ok(()) };
        let got = std::fs::read(env.abs(env.output(self.k))).map_err(|e| e.to_string())?;
        if !defined { ck!(got.is_empty(), "actor {}: its file has {} bytes without definition", self.k, got.len()); return Ok(()); }
        let exp = encode_file(def, &self.model, ver, hmin, true);
        if self.complete { if let Some(x) = diff_bytes(&exp, &got) { return Err(format!("file of actor {}: {}", self.k, x)); } return Ok(()); }
        // dropped without close: the header and the writes acknowledged are there
        let lay = canonical_layout(def, ver, hmin, def.recsize_padded());
        let n = lay.data_start as usize;
        ck!(got.len() >= n && got[..n] == exp[..n], "file of actor {}: header of an abandoned file", self.k);
        for v in 0..def.vars.len() { for s in 0..def.nslabs(v) { if let Some(x) = &self.model[v][s] { let at = (lay.begins[v] + if def.is_rec(v) { lay.recsize * s as u128 } else { 0 }) as usize; ck!(got.get(at..at + x.len()) == Some(&x[..]), "file of actor {}: slab {} of {:?} of an abandoned file", self.k, s, def.vars[v].name); } } }
        Ok(())
    }
}
fn check_inputs(env: &Env) -> Result<(), String> {
    for (k, (d, salt)) in FILES.iter().enumerate() { if let Some(x) = diff_bytes(&encode_file(&env.defs[*d], &full_data(&env.defs[*d], *salt), VERS[k % 2], 0, true), &std::fs::read(env.abs(env.input(k))).map_err(|e| e.to_string())?) { return Err(format!("input file {} is modified: {}", k, x)); } }
    Ok(())
}

// ------------------------------------------------------------------------------ one thread
fn multinomial(lens: &[usize]) -> u64 { let mut r: u128 = 1; let mut n = 0u128; for l in lens { for i in 1..=*l as u128 { n += 1; r = r * n / i; } } r as u64 }
/// The i-th interleaving: for each position, the actor which moves.
fn interleaving(mut i: u64, lens: &[usize]) -> Vec<usize> {
    let mut left = lens.to_vec();
    let mut out = vec![];
    while left.iter().any(|l| *l > 0) {
        for a in 0..left.len() {
            if left[a] == 0 { continue; }
            left[a] -= 1;
            let n = multinomial(&left);
            if i < n { out.push(a); break; }
            i -= n;
            left[a] += 1;
        }
    }
    out
}
/// Do the actors number `a` share one data set?
#[derive(Clone, Debug)]
struct Combo { progs: Vec<Prog>, shared: bool }
fn data_sets(env: &Env, c: &Combo) -> Result<Vec<Option<DataSet>>, String> {
    let mut done: Vec<usize> = vec![];
    c.progs.iter().map(|p| match p { Prog::W { def, .. } => { if c.shared && done.contains(def) { return Ok(None); } done.push(*def); bind::build(&env.defs[*def]).map(Some).map_err(|e| format!("{:?}", e)) } _ => Ok(None) }).collect()
}
fn ds_of<'a>(c: &Combo, dss: &'a [Option<DataSet>], k: usize) -> Option<&'a DataSet> {
    match &c.progs[k] { Prog::W { def, .. } if c.shared => c.progs.iter().position(|p| matches!(p, Prog::W { def: d, .. } if d == def)).and_then(|i| dss[i].as_ref()), _ => dss[k].as_ref() }
}
fn run_interleaving(ctx: &mut Ctx, c: &Combo, i: u64, moved: bool) -> Result<(), String> {
    let env = Env::new(&ctx.dir)?;
    let lens: Vec<usize> = c.progs.iter().map(|p| p.len()).collect();
    run_order_at(ctx, &env, c, interleaving(i, &lens), moved)?;
    ctx.state(&(format!("{:?}", c), i));
    Ok(())
}
fn run_order(ctx: &mut Ctx, env: &Env, c: &Combo, order: Vec<usize>) -> Result<(), String> { run_order_at(ctx, env, c, order, false) }
/// `moved`: the readers and writers are moved, so that each call is made at the same place in memory.
fn run_order_at(ctx: &mut Ctx, env: &Env, c: &Combo, order: Vec<usize>, moved: bool) -> Result<(), String> {
    let m = |e: String| format!("actors {:?}{}{}\norder of the steps {:?}: {}", c.progs, if c.shared { " (one data set)" } else { "" }, if moved { " (readers and writers moved between the calls)" } else { "" }, order, e);
    let dss = data_sets(env, c)?;
    {
        let mut actors: Vec<Actor> = c.progs.iter().enumerate().map(|(k, p)| Actor::new(env, k, p, ds_of(c, &dss, k))).collect();
        for a in &order {
            let mut at = *a;
            if moved { at = actors.iter().position(|x| x.k == *a).unwrap(); actors.swap(0, at); at = 0; }
            actors[at].step(env).map_err(m)?;
        }
        for a in &actors { a.check_output(env).map_err(m)?; }
    }
    for (k, ds) in dss.iter().enumerate() { if let (Some(ds), Prog::W { def, .. }) = (ds, &c.progs[k]) { let g = bind::snapshot(ds)?; if let Some(x) = bind::diff_def(&env.defs[*def], &g) { return Err(m(format!("the data set is modified: {}", x))); } } }
    check_inputs(env).map_err(m)?;
    ctx.op(order.len() as u64); ctx.trace();
    Ok(())
}
/// Two writers, a reader and a copy, on data sets of the crossed space and the next one in it (same names, other shapes and values).
fn crossed_actors(ctx: &mut Ctx, i: u64, rot: usize) -> Result<(), String> {
    let defs = vec![crossed_small(i), crossed_small((i + [1, 12, 85][rot % 3]) % CROSSED_SMALL)];
    for k in 0..2 { let _ = std::fs::remove_file(ctx.dir.join(format!("in{}.nc", k))); }
    let wsteps = |d: &Def, rev: bool, salt: usize| { let mut ops: Vec<Op> = hist::full_ops(d); if rev { ops.reverse(); } let mut s = vec![WStep::Open, WStep::Def]; s.extend(ops.into_iter().map(|o| WStep::Write(hist::salted(o, salt)))); s.push(WStep::Close); s };
    let mut rsteps = vec![RStep::Open, RStep::Snap];
    for v in 0..defs[0].vars.len() { rsteps.push(RStep::Var(v)); for r in 0..defs[0].nslabs(v) { rsteps.push(RStep::Rec(v, r)); } }
    rsteps.extend([RStep::All, RStep::Snap, RStep::Close]);
    let c = Combo { progs: vec![Prog::W { def: 0, ver: VERS[rot % 2], hmin: 0, steps: wsteps(&defs[0], true, 4) }, Prog::W { def: 1, ver: VERS[(rot / 2) % 2], hmin: if rot % 2 == 0 { 0 } else { 300 }, steps: wsteps(&defs[1], rot % 3 == 0, 5) }, Prog::R { file: 0, steps: rsteps }, Prog::Copy { file: 1, ver: VERS[(rot + 1) % 2] }], shared: false };
    let env = Env::with(&ctx.dir, defs)?;
    // round robin from each actor, one or two steps at a time
    let mut left: Vec<usize> = c.progs.iter().map(|p| p.len()).collect();
    let mut order = vec![];
    let (mut a, step) = (rot % 4, 1 + rot / 4);
    while left.iter().any(|l| *l > 0) { for _ in 0..step { if left[a] > 0 { left[a] -= 1; order.push(a); } } a = (a + 1) % 4; }
    let res = run_order(ctx, &env, &c, order);
    for k in 0..2 { let _ = std::fs::remove_file(env.abs(env.input(k))); }
    ctx.state(&(i, rot));
    res
}
fn combos_family(name: &str, bound: &str, combos: Vec<Combo>, moved: bool) -> Family {
    let counts: Vec<u64> = combos.iter().map(|c| multinomial(&c.progs.iter().map(|p| p.len()).collect::<Vec<_>>())).collect();
    let total = counts.iter().sum();
    fam(name, bound, total, move |mut i, ctx| {
        let mut k = 0;
        while i >= counts[k] { i -= counts[k]; k += 1; }
        ctx.sample(|| format!("{:?} shared={} interleaving {}", combos[k].progs, combos[k].shared, i));
        run_interleaving(ctx, &combos[k], i, moved)
    })
}

// ------------------------------------------------------------------------------ threads
fn thread_run(env: &Env, c: &Combo, sched: &std::sync::Arc<Sched>) -> Result<(), String> {
    let results: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = c.progs.iter().enumerate().map(|(k, p)| { let sched = sched.clone(); sc.spawn(move || {
            let _g = ioshim::enter(&sched, k);
            let env = Env { dir: env.dir.clone(), defs: defs(), rel: env.rel };
            let ds = match p { Prog::W { def, .. } => Some(bind::build(&env.defs[*def]).map_err(|e| format!("{:?}", e))?), _ => None };
            let mut a = Actor::new(&env, k, p, ds.as_ref());
            for _ in 0..p.len() { ioshim::yield_point(); a.step(&env)?; }
            drop(_g);
            a.check_output(&env)
        }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panics".into()))).collect()
    });
    for r in results { r?; }
    check_inputs(env)
}
fn threads_case(ctx: &mut Ctx, c: &Combo, first: usize, bound: usize, part: u64, parts: u64) -> Result<(), String> { threads_env(ctx, c, first, bound, part, parts, false) }
/// The threads name their files relatively to a working directory of their own (shared by them only).
fn threads_env(ctx: &mut Ctx, c: &Combo, first: usize, bound: usize, part: u64, parts: u64, rel: bool) -> Result<(), String> {
    let _cwd = if rel { match crate::c_env::Cwd::enter(&ctx.dir) { Some(g) => Some(g), None => { ctx.count("relative paths not explored: the working directory cannot be separated"); return Ok(()); } } } else { None };
    let env = Env::rel(&ctx.dir, defs(), rel)?;
    let n = c.progs.len();
    // number of scheduling points, without preemption
    let s = Sched::new(n, first, vec![]);
    thread_run(&env, c, &s).map_err(|e| format!("{:?} without preemption: {}", c.progs, e))?;
    let points = s.points();
    // preemptions: increasing points, each with a target (which of the other threads)
    let mut plans: Vec<Vec<(u64, usize)>> = vec![vec![]];
    let mut lo = 0;
    for _ in 0..bound {
        let hi = plans.len();
        for p in lo..hi { let from = plans[p].last().map(|x| x.0 + 1).unwrap_or(0); for k in from..points { for t in 0..n - 1 { let mut q = plans[p].clone(); q.push((k, t)); plans.push(q); } } }
        lo = hi;
    }
    for (j, plan) in plans.iter().enumerate() {
        if j as u64 % parts != part { continue; }
        let s = Sched::new(n, first, plan.clone());
        thread_run(&env, c, &s).map_err(|e| format!("threads {:?}\nthread {} first, preempted at the scheduling points {:?} (point, target): {}", c.progs, first, plan, e))?;
        if s.stalled() { ctx.count("schedules where a thread waits for another one"); }
        ctx.op(s.points()); ctx.trace();
        ctx.state(&(format!("{:?}", c.progs), first, plan));
        ctx.count("schedules");
    }
    Ok(())
}

// ------------------------------------------------------------------------------ successive sessions
fn reuse_defs() -> Vec<Def> {
    let u = |r: usize, a: usize, b: usize| dims_abu(0, a, b, r);
    vec![
        u(2, 4, 3).var("v", Ty::I8, &["u", "a"]),
        u(2, 8, 3).var("v", Ty::I8, &["u", "a"]),
        u(3, 2, 3).var("v", Ty::I16, &["u", "b"]).var("w", Ty::F64, &["u"]),
        u(2, 3, 4).var("w", Ty::F64, &["u"]).var("v", Ty::I16, &["u", "a"]),
        u(1, 4, 3).var("v", Ty::F32, &["a"]).var("w", Ty::I16, &["a", "b"]),
        u(2, 4, 3).attr("g", Val::pattern(Ty::U8, 40, 3)).var("v", Ty::F32, &["a"]).var("w", Ty::U8, &["u"]).vattr("q", Val::pattern(Ty::I16, 3, 1)),
    ]
}
/// The data set of every session is built at the address of the previous one.
fn successive(ctx: &mut Ctx, sessions: &[usize], nd: usize, same_path: bool) -> Result<(), String> {
    let defs = reuse_defs();
    let mut place: Box<DataSet> = Box::new(DataSet::new());
    for (n, s) in sessions.iter().enumerate() {
        let (def, prog) = (&defs[s % nd], s / nd);
        let ver = VERS[(s + n) % 2];
        let m = |e: String| format!("sessions {:?} (definition + {} * program, {} path), session #{} ({} program {}): {}", sessions, nd, if same_path { "the same" } else { "another" }, n, hist::show(def, ver, 0, &[]), prog, e);
        let p = ctx.path(&if same_path { "s.nc".to_string() } else { format!("s{}.nc", n) });
        if prog == 5 {
            let data = full_data(def, n + 1);
            let bytes = encode_file(def, &data, ver, 0, true);
            std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
            let mut r = FileReader::open(&p).map_err(|e| m(format!("{:?}", e)))?;
            let g = bind::snapshot(r.data_set()).map_err(m)?;
            if let Some(x) = bind::diff_def(def, &g) { return Err(m(x)); }
            bind::check_all_data(&mut r, def, &data).map_err(m)?;
            *place = r.close().0;
        } else {
            *place = bind::build(def).map_err(|e| m(format!("{:?}", e)))?;
            let ops: Vec<Op> = match prog {
                0 => vec![],
                1 | 4 => (0..def.vars.len()).rev().map(|v| Op::Var { v, salt: n + v }).collect(),
                2 => (0..def.vars.len()).flat_map(|v| (0..def.nslabs(v)).rev().map(move |r| Op::Rec { v, r, salt: n + v + 3 * r })).collect(),
                _ => (0..def.vars.len()).map(|v| Op::Rec { v, r: def.nslabs(v) - 1, salt: n + v }).collect(),
            };
            let mut data = empty_data(def);
            let mut w = FileWriter::open(&p).map_err(|e| m(format!("{:?}", e)))?;
            w.set_def(&place, bind::ver(ver), 0).map_err(|e| m(format!("{:?}", e)))?;
            for op in &ops { hist::exec(def, &mut w, *op).map_err(|e| m(format!("{:?}", e)))?; hist::apply(def, &mut data, *op); }
            if prog == 4 { drop(w); } else { w.close().map_err(|e| m(format!("{:?}", e)))?; }
            let got = std::fs::read(&p).map_err(|e| e.to_string())?;
            let exp = encode_file(def, &data, ver, 0, true);
            // abandoned: everything was written, but for the padding between the records at most
            if prog == 4 { let h = def.header_len(ver); ck!(got.len() >= h && got[..h] == exp[..h], "{}", m("header of an abandoned file".into())); }
            else if let Some(x) = diff_bytes(&exp, &got) { return Err(m(x)); }
            let g = bind::snapshot(&place).map_err(m)?;
            if let Some(x) = bind::diff_def(def, &g) { return Err(m(x)); }
            if prog != 4 {
                let mut r = FileReader::open(&p).map_err(|e| m(format!("{:?}", e)))?;
                for v in 0..def.vars.len() { let e = bind::read_var(&mut r, &def.vars[v].name).map_err(|e| m(format!("{:?}", e)))?; let fill = |s: usize| data[v][s].clone().unwrap_or(Val::fill(def.vars[v].ty, def.slab_len(v) as usize).raw); ck!(e.raw == (0..def.nslabs(v)).flat_map(fill).collect::<Vec<u8>>(), "{}", m(format!("read_var({:?})", def.vars[v].name))); }
            }
        }
        ctx.op(1);
    }
    ctx.trace(); ctx.state(&(sessions, same_path));
    Ok(())
}

// ------------------------------------------------------------------------------ many at the same time
/// Readers and writers stay open while `n` others come and go. `used`: they are used before.
fn long_lived(ctx: &mut Ctx, kind: usize, used: bool, n: usize) -> Result<(), String> {
    let defs = reuse_defs();
    let nd = defs.len();
    let data: Vec<Data> = defs.iter().enumerate().map(|(k, d)| full_data(d, 3 + k)).collect();
    let m = |e: String| format!("40 readers and 10 writers, {}, then {} other {} come and go: {}", if used { "used" } else { "only opened" }, n, ["readers", "writers", "readers and writers"][kind], e);
    for (k, d) in defs.iter().enumerate() { std::fs::write(ctx.path(&format!("m{}.nc", k)), encode_file(d, &data[k], VERS[k % 2], [0, 200][k % 2], true)).map_err(|e| e.to_string())?; }
    let dir = ctx.dir.clone();
    let open = |k: usize| FileReader::open(dir.join(&format!("m{}.nc", k))).map_err(|e| m(format!("{:?}", e)));
    let check = |r: &mut FileReader, k: usize, rev: bool| -> Result<(), String> {
        let d = &defs[k];
        let vs: Vec<usize> = if rev { (0..d.vars.len()).rev().collect() } else { (0..d.vars.len()).collect() };
        for v in vs {
            let name = &d.vars[v].name;
            for s in (0..d.nslabs(v)).rev() { let g = bind::read_rec(r, name, s).map_err(|e| m(format!("a reader of definition {}: read_record({:?}, {}): {:?}", k, name, s, e)))?; ck!(Some(&g.raw) == data[k][v][s].as_ref(), "{}", m(format!("a reader of definition {}: read_record({:?}, {}): {:?} instead of {:?}", k, name, s, g.raw, data[k][v][s]))); }
            let whole: Vec<u8> = data[k][v].iter().flat_map(|s| s.clone().unwrap()).collect();
            let g = bind::read_var(r, name).map_err(|e| m(format!("a reader of definition {}: read_var({:?}): {:?}", k, name, e)))?;
            ck!(g.raw == whole, "{}", m(format!("a reader of definition {}: read_var({:?}): {:?} instead of {:?}", k, name, g.raw, whole)));
        }
        Ok(())
    };
    let mut rs: Vec<FileReader> = vec![];
    for i in 0..40 { rs.push(open(i % nd)?); if used { check(rs.last_mut().unwrap(), i % nd, i % 2 == 0)?; } }
    let dss: Vec<DataSet> = (0..nd).map(|k| bind::build(&defs[k]).map_err(|e| m(format!("{:?}", e)))).collect::<Result<_, _>>()?;
    let mut ws: Vec<FileWriter> = vec![];
    let mut model: Vec<Data> = vec![];
    let we = |e: netcdf3::WriteError| m(format!("a writer held open: {:?}", e));
    for i in 0..10 {
        let mut w = FileWriter::open(ctx.path(&format!("o{}.nc", i))).map_err(we)?;
        let k = i % nd;
        w.set_def(&dss[k], bind::ver(VERS[i % 2]), 0).map_err(we)?;
        let mut x = empty_data(&defs[k]);
        if used { let op = Op::Rec { v: 0, r: 0, salt: i }; hist::exec(&defs[k], &mut w, op).map_err(we)?; hist::apply(&defs[k], &mut x, op); }
        ws.push(w); model.push(x);
    }
    let tmp = ctx.path("t.nc");
    for j in 0..n {
        let k = (j * 5 + j / 7) % nd;
        let full = n <= 4097 || j % 64 == 0;
        if kind == 0 || kind == 2 && j % 2 == 0 {
            let mut r = open(k)?;
            if full { check(&mut r, k, j % 3 == 0)?; } else { let g = bind::read_rec(&mut r, &defs[k].vars[0].name, 0).map_err(|e| m(format!("{:?}", e)))?; ck!(Some(&g.raw) == data[k][0][0].as_ref(), "{}", m(format!("reader #{}: a record", j))); }
            if j % 2 == 0 { drop(r) } else { r.close(); }
        } else {
            let mut w = FileWriter::open(&tmp).map_err(we)?;
            w.set_def(&dss[k], bind::ver(VERS[j % 2]), 0).map_err(we)?;
            let mut x = empty_data(&defs[k]);
            let op = Op::Rec { v: defs[k].vars.len() - 1, r: 0, salt: j };
            hist::exec(&defs[k], &mut w, op).map_err(we)?; hist::apply(&defs[k], &mut x, op);
            if j % 3 == 0 { drop(w) } else { w.close().map_err(we)?; if full { if let Some(e) = diff_bytes(&encode_file(&defs[k], &x, VERS[j % 2], 0, true), &std::fs::read(&tmp).map_err(|e| e.to_string())?) { return Err(m(format!("writer #{}: {}", j, e))); } } }
        }
    }
    for (i, r) in rs.iter_mut().enumerate() { check(r, i % nd, i % 3 == 0)?; }
    for (i, mut w) in ws.into_iter().enumerate() {
        let k = i % nd;
        let v = defs[k].vars.len() - 1;
        let op = Op::Rec { v, r: defs[k].nslabs(v) - 1, salt: i + 3 };
        if i % 3 > 0 { hist::exec(&defs[k], &mut w, op).map_err(we)?; hist::apply(&defs[k], &mut model[i], op); }
        w.close().map_err(we)?;
        if let Some(e) = diff_bytes(&encode_file(&defs[k], &model[i], VERS[i % 2], 0, true), &std::fs::read(ctx.path(&format!("o{}.nc", i))).map_err(|e| e.to_string())?) { return Err(m(format!("writer {} held open: {}", i, e))); }
    }
    ctx.op(n as u64 + 50); ctx.trace(); ctx.state(&(kind, used, n));
    Ok(())
}
/// `n` readers and `n` writers open at the same time in one thread, on files which have variables of
/// the same names elsewhere; they take turns in the order `k * stride mod n`.
fn many_open(ctx: &mut Ctx, n: usize, assign: usize, stride: usize) -> Result<(), String> {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        if libc::getrlimit(libc::RLIMIT_NOFILE, &mut l) == 0 && l.rlim_cur < l.rlim_max { l.rlim_cur = l.rlim_max; libc::setrlimit(libc::RLIMIT_NOFILE, &l); }
        if libc::getrlimit(libc::RLIMIT_NOFILE, &mut l) == 0 && (l.rlim_cur as usize) < 200 + 2 * n * 8 { ctx.count("cases left out: not enough descriptors allowed"); return Ok(()); }
    }
    let defs = reuse_defs();
    let nd = defs.len();
    let which = |i: usize| match assign { 0 => i % nd, 1 => i % (nd - 1), _ => (i / 7) % nd };
    let data: Vec<Data> = defs.iter().enumerate().map(|(k, d)| full_data(d, 3 + k)).collect();
    let m = |e: String| format!("{} readers and {} writers open at the same time (definition of number i by the rule {}), by turns of stride {}: {}", n, n, assign, stride, e);
    for (k, d) in defs.iter().enumerate() { std::fs::write(ctx.path(&format!("m{}.nc", k)), encode_file(d, &data[k], VERS[k % 2], [0, 200][k % 2], true)).map_err(|e| e.to_string())?; }
    let order: Vec<usize> = { let mut seen = vec![false; n]; let mut o = vec![]; let mut i = 0; while o.len() < n { while seen[i] { i = (i + 1) % n; } seen[i] = true; o.push(i); i = (i + stride) % n; } o };
    let dir = ctx.dir.clone();
    let open = |i: usize| FileReader::open(dir.join(&format!("m{}.nc", which(i)))).map_err(|e| format!("reader {}: {:?}", i, e));
    let mut rs: Vec<Option<FileReader>> = vec![];
    for i in 0..n { rs.push(Some(open(i).map_err(m)?)); }
    // the writers, all open, then all defined, then written by turns
    let dss: Vec<DataSet> = (0..n).map(|i| bind::build(&defs[which(i)]).map_err(|e| m(format!("{:?}", e)))).collect::<Result<_, _>>()?;
    let outs: Vec<PathBuf> = (0..n).map(|i| ctx.path(&format!("o{}.nc", i))).collect();
    let mut ws: Vec<Option<FileWriter>> = vec![];
    for p in &outs { ws.push(Some(FileWriter::open(p).map_err(|e| m(format!("{:?}", e)))?)); }
    for i in &order { ws[*i].as_mut().unwrap().set_def(&dss[*i], bind::ver(VERS[i % 2]), [0, 300][i % 2]).map_err(|e| m(format!("definition of writer {}: {:?}", i, e)))?; }
    let mut model: Vec<Data> = (0..n).map(|i| empty_data(&defs[which(i)])).collect();
    for pass in 0..3 {
        for i in &order {
            let (i, d) = (*i, &defs[which(*i)]);
            if let Some(r) = rs[i].as_mut() {
                for v in 0..d.vars.len() {
                    let name = &d.vars[v].name;
                    let whole: Vec<u8> = data[which(i)][v].iter().flat_map(|s| s.clone().unwrap()).collect();
                    let g = bind::read_var(r, name).map_err(|e| m(format!("reader {} read_var({:?}), pass {}: {:?}", i, name, pass, e)))?;
                    ck!(g.raw == whole, "{}", m(format!("reader {} read_var({:?}), pass {}: {:?} instead of {:?}", i, name, pass, g.raw, whole)));
                    let s = (pass + i) % d.nslabs(v);
                    let g = bind::read_rec(r, name, s).map_err(|e| m(format!("reader {} read_record({:?}, {}), pass {}: {:?}", i, name, s, pass, e)))?;
                    ck!(Some(&g.raw) == data[which(i)][v][s].as_ref(), "{}", m(format!("reader {} read_record({:?}, {}), pass {}", i, name, s, pass)));
                }
            }
            if pass < 2 {
                let v = (pass + i) % d.vars.len();
                let op = if pass == 0 { Op::Var { v, salt: i } } else { Op::Rec { v, r: i % d.nslabs(v), salt: i + 1 } };
                hist::exec(d, ws[i].as_mut().unwrap(), op).map_err(|e| m(format!("writer {} {:?}: {:?}", i, op, e)))?;
                hist::apply(d, &mut model[i], op);
            }
        }
        // some readers end, others take their place
        if pass == 0 { for i in order.iter().filter(|i| *i % 3 == 0) { rs[*i] = None; } }
        if pass == 1 { for i in order.iter().filter(|i| *i % 3 == 0) { rs[*i] = Some(open(*i).map_err(m)?); } }
        ctx.op(2 * n as u64);
    }
    for i in &order { ws[*i].take().unwrap().close().map_err(|e| m(format!("close of writer {}: {:?}", i, e)))?; }
    for i in 0..n {
        let exp = encode_file(&defs[which(i)], &model[i], VERS[i % 2], [0, 300][i % 2], true);
        let got = std::fs::read(&outs[i]).map_err(|e| e.to_string())?;
        let _ = std::fs::remove_file(&outs[i]);
        if let Some(x) = diff_bytes(&exp, &got) { return Err(m(format!("file of writer {}: {}", i, x))); }
    }
    ctx.trace(); ctx.state(&(n, assign, stride));
    Ok(())
}

pub fn families(t: Tier) -> Vec<Family> {
    let th = t.thorough();
    use WStep::*;
    let w = |v, salt| Write(Op::Var { v, salt });
    let wr = |v, r, salt| Write(Op::Rec { v, r, salt });
    let wp = |def, ver, hmin, steps: Vec<WStep>| Prog::W { def, ver, hmin, steps };
    let rp = |file, steps: Vec<RStep>| Prog::R { file, steps };
    // 6 steps
    let writers = vec![
        wp(0, Ver::V1, 0, vec![Open, Def, wr(1, 1, 1), w(0, 2), wr(2, 0, 3), Close]),
        wp(1, Ver::V2, 0, vec![Open, Def, w(1, 4), wr(2, 2, 5), w(0, 6), Close]),
        wp(0, Ver::V2, 200, vec![Open, Def, Bad(0), w(2, 7), Redef, Close]),
        wp(1, Ver::V1, 0, vec![Open, Def, wr(1, 2, 8), Undef, wr(1, 0, 9), Drop]),
        wp(2, Ver::V1, 0, vec![Open, Def, w(0, 1), w(1, 2), w(0, 3), Close]),
        wp(0, Ver::V1, 0, vec![Open, Def, Close]),
        wp(2, Ver::V2, 0, vec![Open, Drop]),
        Prog::Copy { file: 0, ver: Ver::V2 },
    ];
    let readers = vec![
        rp(0, vec![RStep::Open, RStep::Rec(1, 1), RStep::Var(0), RStep::Wrong(2), RStep::All, RStep::Close]),
        rp(0, vec![RStep::Open, RStep::All, RStep::Rec(2, 0), RStep::Typed(1), RStep::Beyond(0), RStep::Snap]),
        rp(1, vec![RStep::Open, RStep::Typed(2), RStep::Beyond(1), RStep::Rec(1, 2), RStep::Snap, RStep::Close]),
        rp(1, vec![RStep::Open, RStep::All, RStep::Close]),
    ];
    let all: Vec<Prog> = writers.iter().chain(readers.iter()).cloned().collect();
    let mut f = vec![];
    let mut pairs = vec![];
    for i in 0..all.len() { for j in i..all.len() { pairs.push(Combo { progs: vec![all[i].clone(), all[j].clone()], shared: false }); } }
    f.push(combos_family("two_actors", "all pairs of 12 programs (8 writers, 4 readers, up to 6 calls: open, definition, writes, refused calls, reads, close, abandon, copy): all interleavings of the calls", pairs.clone(), false));
    f.push(combos_family("two_actors_moved", "the same, the readers and writers being moved in memory between the calls, so that every call is made at the same address", pairs, true));
    {
        let nrot = 12u64;
        f.push(fam("crossed_actors", &format!("{}: two writers (one of the next data set of the space: similar names, other shapes), a reader and a copy take their steps in turn, from {} starting points and paces", CROSSED_BOUND, nrot), CROSSED_SMALL * nrot, move |i, ctx| crossed_actors(ctx, i / nrot, (i % nrot) as usize)));
    }
    let mut sh = vec![];
    for i in 0..writers.len() { for j in i..writers.len() { if let (Prog::W { def: a, .. }, Prog::W { def: b, .. }) = (&writers[i], &writers[j]) { if a == b { sh.push(Combo { progs: vec![writers[i].clone(), writers[j].clone()], shared: true }); } } } }
    f.push(combos_family("shared_data_set", "all pairs of writers of the same definition, sharing one DataSet: all interleavings of the calls", sh.clone(), false));
    f.push(combos_family("shared_data_set_moved", "the same, the writers being moved in memory between the calls, so that every call is made at the same address", sh, true));
    // three actors
    let short_w: Vec<Prog> = if th {
        vec![wp(0, Ver::V1, 0, vec![Open, Def, wr(1, 1, 1), w(0, 2), Close]), wp(0, Ver::V2, 0, vec![Open, Def, wr(2, 0, 3), Bad(1), Close]), wp(1, Ver::V1, 0, vec![Open, Def, w(1, 4), wr(2, 2, 5), Close]), Prog::Copy { file: 1, ver: Ver::V1 }]
    } else {
        vec![wp(0, Ver::V1, 0, vec![Open, Def, wr(1, 1, 1), Close]), wp(0, Ver::V2, 0, vec![Open, Def, w(0, 3), Close]), wp(1, Ver::V1, 0, vec![Open, Def, wr(2, 2, 5), Close])]
    };
    let short_r: Vec<Prog> = if th {
        vec![rp(0, vec![RStep::Open, RStep::Rec(1, 1), RStep::Var(0), RStep::Beyond(1), RStep::Close]), rp(1, vec![RStep::Open, RStep::All, RStep::Wrong(1), RStep::Typed(2), RStep::Snap])]
    } else {
        vec![rp(0, vec![RStep::Open, RStep::Rec(1, 1), RStep::Var(0), RStep::Close]), rp(1, vec![RStep::Open, RStep::All, RStep::Typed(2), RStep::Snap])]
    };
    let s: Vec<Prog> = short_w.iter().chain(short_r.iter()).cloned().collect();
    let mut triples = vec![];
    if th { for (i, j, k) in [(0, 1, 2), (0, 1, 4), (0, 3, 5), (2, 4, 4), (1, 4, 5), (0, 0, 1)] { triples.push(Combo { progs: vec![s[i].clone(), s[j].clone(), s[k].clone()], shared: (i, j) == (0, 1) }); } }
    else { for (i, j, k) in [(0, 1, 2), (0, 1, 3), (0, 2, 4), (1, 3, 3)] { triples.push(Combo { progs: vec![s[i].clone(), s[j].clone(), s[k].clone()], shared: i == 0 && j == 1 }); } }
    f.push(combos_family("three_actors", if th { "6 triples of programs of 5 calls (shared and own data sets): all interleavings" } else { "4 triples of programs of 4 calls (shared and own data sets): all interleavings" }, triples, false));
    let tiny = vec![wp(0, Ver::V1, 0, vec![Open, Def, Close]), wp(0, Ver::V2, 0, vec![Open, Def, Close]), rp(0, vec![RStep::Open, RStep::All, RStep::Close]), rp(1, vec![RStep::Open, RStep::Rec(1, 1), RStep::Snap]), wp(1, Ver::V2, 0, vec![Open, Def, Drop])];
    if th { f.push(combos_family("four_actors", "2 quadruples of programs of 3 calls: all interleavings", vec![Combo { progs: vec![tiny[0].clone(), tiny[1].clone(), tiny[2].clone(), tiny[3].clone()], shared: true }, Combo { progs: vec![tiny[0].clone(), tiny[4].clone(), tiny[2].clone(), tiny[2].clone()], shared: false }], false)); }
    // one after another, in the same places
    {
        let nd = reuse_defs().len();
        let np = 6;
        let k = nd * np;
        let depth = if th { 4 } else { 3 };
        f.push(fam("successive", &format!("all sequences of {} sessions among {} (6 definitions of the same names x 6 programs: nothing written, whole variables, records, definition only, abandoned, read of a file) one after another in one thread, the data sets, writers and readers living at the same addresses, the files having the same or other paths", depth, k), (k as u64).pow(depth as u32 - 1) * 2, move |i, ctx| {
            let mut d = Digits(i);
            let same_path = d.next(2) == 1;
            let pre: Vec<usize> = (0..depth - 1).map(|_| d.next(k)).collect();
            for last in 0..k { let mut s = pre.clone(); s.push(last); successive(ctx, &s, nd, same_path)?; }
            Ok(())
        }));
    }
    {
        let ns: Vec<usize> = if th { (2..=140).chain([192, 256, 257, 258, 300, 500, 513]).collect() } else { (2..=40).chain([48, 64, 65, 66, 70, 100, 101, 128, 129, 130, 192, 256, 257, 258, 300]).collect() };
        let strides = [1usize, 2, 7, 8, 10, 16, 32, 64, 100, 128];
        let k = (ns.len() * 3 * strides.len()) as u64;
        f.push(fam("many_open", &format!("N readers and N writers open at the same time in one thread, N among {} values up to {}, on files having variables of the same names (3 ways to give the 6 definitions to them), taking turns by strides of {:?}: every data read is that of the file, before and after some readers are closed and others opened, and every file written is that of its definition and writes", ns.len(), ns[ns.len() - 1], strides), k, move |i, ctx| {
            let mut d = Digits(i);
            let s = strides[d.next(strides.len())]; let a = d.next(3); let n = ns[d.next(ns.len())];
            many_open(ctx, n, a, s % n.max(1))
        }));
    }
    // readers and writers held while a great many others come and go
    {
        let ns: Vec<usize> = [100usize, 255, 256, 257, 300, 1000, 1024, 4096, 4097].into_iter().chain(if th { vec![65536, 65537, 131_072] } else { vec![65536] }).collect();
        let nn = ns.len();
        f.push(fam("long_lived", &format!("40 readers and 10 writers held open while N others are opened, used and closed (readers, writers, or both in turn), N among {} values up to {}: the data read before and after are those of the file, the files written those of their definition", nn, ns[nn - 1]), (nn * 3 * 2) as u64, move |i, ctx| {
            let mut d = Digits(i);
            long_lived(ctx, d.next(3), d.next(2) == 1, ns[d.next(nn)])
        }));
    }
    // threads
    let tw = vec![
        wp(0, Ver::V1, 0, vec![Open, Def, wr(1, 1, 1), Close]),
        wp(1, Ver::V2, 0, vec![Open, Def, Bad(1), w(0, 6), Close]),
        rp(0, vec![RStep::Open, RStep::Rec(1, 1), RStep::Var(0), RStep::Close]),
        rp(1, vec![RStep::Open, RStep::All, RStep::Snap]),
        Prog::Copy { file: 0, ver: Ver::V1 },
    ];
    let mut tp = vec![];
    for i in 0..tw.len() { for j in i..tw.len() { for first in 0..2 { if i == j && first == 1 { continue; } tp.push((vec![tw[i].clone(), tw[j].clone()], first)); } } }
    let parts: u64 = if th { 64 } else { 8 };
    let bound = if th { 3 } else { 2 };
    let (tp2, np) = (tp.clone(), tp.len() as u64);
    let b2 = 2;
    f.push(fam("two_threads", &format!("all pairs of 5 programs on two threads: every schedule with at most {} preemptions, at every call and every open, read, write, seek and close", b2), np * parts, move |i, ctx| {
        let (progs, first) = &tp2[(i / parts) as usize];
        ctx.sample(|| format!("{:?}, thread {} first", progs, first));
        threads_case(ctx, &Combo { progs: progs.clone(), shared: false }, *first, b2, i % parts, parts)
    }));
    let rparts: u64 = 8;
    let (tp3, rb) = (tp.clone(), 2);
    f.push(fam("relative_threads", &format!("the same pairs, the files having the same name in sub-directories and being named relatively to the working directory: every schedule with at most {} preemptions, at every call and every open, read, write, seek, close and change of the working directory", rb), np * rparts, move |i, ctx| {
        let (progs, first) = &tp3[(i / rparts) as usize];
        threads_env(ctx, &Combo { progs: progs.clone(), shared: false }, *first, rb, i % rparts, rparts, true)
    }));
    if bound == 3 {
        let few: Vec<(Vec<Prog>, usize)> = vec![(vec![wp(2, Ver::V1, 0, vec![Open, Def, w(0, 1), Close]), wp(1, Ver::V2, 0, vec![Open, Def, wr(1, 1, 1), Close])], 0), (vec![tw[2].clone(), tw[3].clone()], 0), (vec![tw[2].clone(), tw[2].clone()], 0)];
        let n = few.len() as u64;
        f.push(fam("two_threads_3", "3 pairs of programs on two threads: every schedule with at most 3 preemptions", n * parts, move |i, ctx| { let (progs, first) = &few[(i / parts) as usize]; threads_case(ctx, &Combo { progs: progs.clone(), shared: false }, *first, 3, i % parts, parts) }));
        let tri: Vec<Vec<Prog>> = vec![vec![tw[0].clone(), tw[2].clone(), tw[3].clone()], vec![tw[1].clone(), tw[0].clone(), tw[2].clone()]];
        let n = tri.len() as u64;
        f.push(fam("three_threads", "2 triples of programs on three threads: every schedule with at most 2 preemptions", n * parts, move |i, ctx| threads_case(ctx, &Combo { progs: tri[(i / parts) as usize].clone(), shared: false }, 0, 2, i % parts, parts)));
    }
    f
}
