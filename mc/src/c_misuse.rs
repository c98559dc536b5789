//! C10: misuse of a writer or of a reader is refused with its own error and has no effect.
use crate::bind;
use crate::hist;
use crate::ioshim::{self, Fault, Shim};
use crate::model::*;
use crate::runner::*;
use crate::spaces::*;
use netcdf3::{DataSet, FileReader, FileWriter, ReadError as RE, WriteError as WE};

/// A call on a writer: correct or not.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum W { SetDef(usize), Var { name: String, ty: Ty, len: usize, salt: usize }, Rec { name: String, ty: Ty, rec: usize, len: usize, salt: usize } }
/// State of the model of a writer.
struct M<'a> { def: &'a Def, other: &'a Def, set: bool, data: Data }
impl<'a> M<'a> {
    /// The errors allowed (empty: the call is correct) and, if it is correct, the effect.
    fn call(&mut self, w: &W) -> Vec<WE> {
        let mut b = vec![];
        match w {
            W::SetDef(_) => { if self.set { b.push(WE::HeaderAlreadyDefined) } else { self.set = true } }
            W::Var { name, ty, len, salt } => {
                if !self.set { return vec![WE::HeaderNotDefined]; }
                let v = match self.def.vars.iter().position(|x| x.name == *name) { None => return vec![WE::VariableNotDefined(name.clone())], Some(v) => v };
                let (t, n) = (self.def.vars[v].ty, self.def.total_len(v) as usize);
                if t != *ty { b.push(WE::VariableMismatchDataType { var_name: name.clone(), req: bind::dt(t), get: bind::dt(*ty) }) }
                if n != *len { b.push(WE::VariableMismatchDataLength { var_name: name.clone(), req: n, get: *len }) }
                if b.is_empty() { hist::apply(self.def, &mut self.data, hist::Op::Var { v, salt: *salt }) }
            }
            W::Rec { name, ty, rec, len, salt } => {
                if !self.set { return vec![WE::HeaderNotDefined]; }
                let v = match self.def.vars.iter().position(|x| x.name == *name) { None => return vec![WE::VariableNotDefined(name.clone())], Some(v) => v };
                let (t, n, k) = (self.def.vars[v].ty, self.def.slab_len(v) as usize, self.def.nslabs(v));
                if t != *ty { b.push(WE::VariableMismatchDataType { var_name: name.clone(), req: bind::dt(t), get: bind::dt(*ty) }) }
                if *rec >= k { b.push(WE::RecordIndexExceeded { index: *rec, num_records: k }) }
                if n != *len { b.push(WE::RecordMismatchDataLength { var_name: name.clone(), req: n, get: *len }) }
                if b.is_empty() { hist::apply(self.def, &mut self.data, hist::Op::Rec { v, r: *rec, salt: *salt }) }
            }
        }
        b
    }
}
/// `SetDef(0)`: the data set; 1: in the 64-bit version; 2: another data set, header of 512 bytes at least; other numbers: the data set, header of that many bytes at least.
fn hmin_of(k: usize) -> usize { match k { 0 | 1 => 0, 2 => 512, k => k } }
fn real<'a>(w: &mut FileWriter<'a>, c: &W, ds: &'a DataSet, other: &'a DataSet, ver: Ver) -> Result<(), WE> {
    match c {
        W::SetDef(k) => w.set_def(if *k != 2 { ds } else { other }, bind::ver(if *k == 1 { Ver::V2 } else { ver }), hmin_of(*k)),
        W::Var { name, ty, len, salt } => bind::write_var(w, name, &Val::pattern(*ty, *len, *salt)),
        W::Rec { name, ty, rec, len, salt } => bind::write_rec(w, name, *rec, &Val::pattern(*ty, *len, *salt)),
    }
}
/// Runs a sequence of calls; every call is judged, and the file is compared at the end.
fn sequence(ctx: &mut Ctx, def: &Def, ds: &DataSet, other: (&Def, &DataSet), ver: Ver, calls: &[&W], each: bool) -> Result<(), String> {
    let p = ctx.path("m.nc");
    let shown = |i: usize| if calls.len() <= 60 { format!("{:?}", calls) } else { format!("({} calls) ... {:?}", calls.len(), &calls[i.saturating_sub(20)..(i + 1).min(calls.len())]) };
    let msg = |i: usize, e: String| format!("{}\ncalls: {}\nat call #{}: {}", hist::show(def, ver, 0, &[]), shown(i), i, e);
    let mut m = M { def, other: other.0, set: false, data: empty_data(def) };
    let mut w = FileWriter::open(&p).map_err(|e| format!("{:?}", e))?;
    let mut first = None;
    for (i, c) in calls.iter().enumerate() {
        let before = if each { std::fs::read(&p).map_err(|e| e.to_string())? } else { vec![] };
        let b = m.call(c);
        if first.is_none() && m.set { if let W::SetDef(k) = c { first = Some(*k) } }
        match real(&mut w, c, ds, other.1, ver) {
            Ok(()) => ck!(b.is_empty(), "{}", msg(i, format!("{:?} is accepted, expected {:?}", c, b))),
            Err(e) => {
                ck!(!b.is_empty(), "{}", msg(i, format!("the correct call {:?} is refused: {:?}", c, e)));
                ck!(b.contains(&e), "{}", msg(i, format!("{:?}: error {:?}, expected {:?}", c, e, b)));
                if each { let after = std::fs::read(&p).map_err(|e| e.to_string())?; if let Some(d) = diff_bytes(&before, &after) { return Err(msg(i, format!("the refused call {:?} changed the file: {}", c, d))); } }
            }
        }
        ck!(w.header_is_defined() == m.set && w.data_set().is_some() == m.set && w.version().is_some() == m.set && w.header_min_size().is_some() == m.set, "{}", msg(i, "header_is_defined/data_set/version/header_min_size disagree with the calls".into()));
        if let Some(k) = first { ck!(w.data_set().map(|d| std::ptr::eq(d, if k != 2 { ds } else { other.1 })) == Some(true) && w.version() == Some(bind::ver(if k == 1 { Ver::V2 } else { ver })) && w.header_min_size() == Some(hmin_of(k)), "{}", msg(i, "the definition of the writer changed".into())); }
    }
    w.close().map_err(|e| msg(calls.len(), format!("close: {:?}", e)))?;
    let got = std::fs::read(&p).map_err(|e| e.to_string())?;
    let exp = match first { None => vec![], Some(2) => encode_file(m.other, &empty_data(m.other), ver, 512, true), Some(k) => encode_file(def, &m.data, if k == 1 { Ver::V2 } else { ver }, hmin_of(k), true) };
    if let Some(d) = diff_bytes(&exp, &got) { return Err(msg(calls.len(), format!("final file: {}", d))); }
    ctx.op(calls.len() as u64 + 2); ctx.trace();
    Ok(())
}
/// The alphabet of calls of a schema.
fn calls(def: &Def, rich: bool) -> Vec<W> {
    let mut a = vec![W::SetDef(0), W::SetDef(1)];
    if rich { a.push(W::SetDef(2)); }
    let mut salt = 1;
    a.push(W::Var { name: "zz".into(), ty: Ty::I8, len: 1, salt: 0 });
    a.push(W::Rec { name: "zz".into(), ty: Ty::F64, rec: 0, len: 1, salt: 0 });
    for v in 0..def.vars.len() {
        let (name, t, n, s, k) = (&def.vars[v].name, def.vars[v].ty, def.total_len(v) as usize, def.slab_len(v) as usize, def.nslabs(v));
        let mut var = |ty, len| { salt += 1; a.push(W::Var { name: name.clone(), ty, len, salt }) };
        var(t, n);
        var(t, n + 1);
        if n > 0 { var(t, n - 1); }
        let same: Vec<Ty> = TYS.iter().copied().filter(|x| *x != t && (rich || x.size() == t.size() || *x == Ty::F64)).collect();
        for x in &same { var(*x, n) }
        if rich { var(t, 0); var(t, s); var(t, (round4(s as u128 * t.size() as u128) as usize) / t.size() * k.max(1)); }
        let mut rec = |ty, rec, len| { salt += 1; a.push(W::Rec { name: name.clone(), ty, rec, len, salt }) };
        for r in 0..k { rec(t, r, s) }
        rec(t, k, s);
        if k > 0 { rec(t, k - 1, s + 1); if s > 0 { rec(t, 0, s - 1); } for x in same.iter().take(if rich { 5 } else { 1 }) { rec(*x, 0, s) } }
        if rich { rec(t, k + 1, s); rec(t, usize::MAX, s); rec(t, i32::MAX as usize, s); rec(t, 0, n); rec(TYS[(def.vars[v].ty.code() as usize) % 6], k, s + 2); }
    }
    a.dedup();
    a
}
fn schemas() -> Vec<Def> {
    vec![
        dims_abu(1, 3, 5, 2).var("f", Ty::I16, &["a"]).var("r", Ty::I8, &["u", "a"]).var("s", Ty::F64, &["u"]),
        dims_abu(0, 2, 1, 1).var("s", Ty::I32, &["u"]).var("f", Ty::U8, &[]),
        dims_abu(3, 2, 3, 0).var("f", Ty::F32, &["a"]).var("g", Ty::I16, &["b"]),
        dims_abu(2, 2, 3, 0).var("r", Ty::I16, &["u", "b"]).var("f", Ty::I8, &["b"]),
        dims_abu(0, 3, 1, 3).var("r", Ty::U8, &["u", "a"]).vattr("nan", Val::new(Ty::F64, vec![0x7F, 0xF8, 0, 0, 0, 0, 0, 1])),
    ]
}
fn other_def() -> Def { Def::default().dim("x", 7).var("other", Ty::F64, &["x"]) }

/// A call on a reader.
#[derive(Clone, Debug)]
enum R { Var(String, Option<Ty>), Rec(String, usize, Option<Ty>), All }
fn reader_calls(def: &Def) -> Vec<R> {
    let mut a = vec![R::All, R::Var("zz".into(), None), R::Rec("zz".into(), 0, None), R::Var("".into(), Some(Ty::I8)), R::Rec("zz".into(), 0, Some(Ty::F64))];
    for v in 0..def.vars.len() {
        let n = &def.vars[v].name;
        a.push(R::Var(n.clone(), None));
        for t in TYS { a.push(R::Var(n.clone(), Some(t))); a.push(R::Rec(n.clone(), 0, Some(t))); }
        for r in 0..def.nslabs(v) { a.push(R::Rec(n.clone(), r, None)); }
        for r in [def.nslabs(v), def.nslabs(v) + 1, usize::MAX, 1 << 62] { a.push(R::Rec(n.clone(), r, None)); a.push(R::Rec(n.clone(), r, Some(def.vars[v].ty))); }
    }
    a
}
fn reader_call(r: &mut FileReader, def: &Def, data: &Data, c: &R) -> Result<(), String> {
    let judge = |b: Vec<RE>, e: Val, got: Result<Val, RE>| -> Result<(), String> {
        match got {
            Ok(g) => { ck!(b.is_empty(), "{:?} is accepted, expected {:?}", c, b); ck!(g == e, "{:?}: {:?} instead of {:?}", c, g, e); }
            Err(x) => { ck!(!b.is_empty(), "the correct call {:?} is refused: {:?}", c, x); ck!(b.contains(&x), "{:?}: error {:?}, expected {:?}", c, x, b); }
        }
        Ok(())
    };
    let none = Val::empty(Ty::I8);
    match c {
        R::All => { let m = r.read_all_vars().map_err(|e| format!("read_all_vars is refused: {:?}", e))?; ck!(m.len() == def.vars.len(), "read_all_vars gives {} variables", m.len()); for v in 0..def.vars.len() { let g = m.get(&def.vars[v].name).map(bind::dv_to_val); ck!(g == Some(var_value(def, data, v)), "read_all_vars: {:?}", def.vars[v].name); } Ok(()) }
        R::Var(n, t) => {
            let got = match t { None => bind::read_var(r, n), Some(t) => bind::read_var_typed(r, n, *t) };
            match def.vars.iter().position(|x| x.name == *n) {
                None => judge(vec![RE::VariableNotDefined(n.clone())], none, got),
                Some(v) => { let vt = def.vars[v].ty; let b = if t.is_some() && *t != Some(vt) { vec![RE::VariableMismatchDataType { var_name: n.clone(), req: bind::dt(vt), get: bind::dt(t.unwrap()) }] } else { vec![] }; judge(b, var_value(def, data, v), got) }
            }
        }
        R::Rec(n, i, t) => {
            let got = match t { None => bind::read_rec(r, n, *i), Some(t) => bind::read_rec_typed(r, n, *i, *t) };
            match def.vars.iter().position(|x| x.name == *n) {
                None => judge(vec![RE::VariableNotDefined(n.clone())], none, got),
                Some(v) => {
                    let vt = def.vars[v].ty;
                    let mut b = vec![];
                    if t.is_some() && *t != Some(vt) { b.push(RE::VariableMismatchDataType { var_name: n.clone(), req: bind::dt(vt), get: bind::dt(t.unwrap()) }) }
                    if *i >= def.nslabs(v) { b.push(RE::RecordIndexExceeded { index: *i, num_records: def.nslabs(v) }) }
                    let e = if b.is_empty() { slab_value(def, data, v, *i) } else { none };
                    judge(b, e, got)
                }
            }
        }
    }
}

/// Data sets whose offsets do not fit in 31 bits: a large i8 variable "big" among others, or a large header.
fn bigs() -> Vec<(Def, usize)> {
    let mut o = vec![];
    for n in 1..=6usize { for at in 0..n { for rec in [false, true] { for na in [0usize, 2] {
        let mut d = dims_abu(0, 3, 5, 1).dim("h", 1 << 16).dim("i", 1 << 15);
        for j in 0..n {
            d = if j == at { d.var("big", Ty::I8, if rec { &["u", "h", "i"] } else { &["h", "i"] }) } else { d.var(&format!("w{}", j), TYS[j], [&["a"][..], &["u", "b"][..], &["u"][..]][j % 3]) };
            for k in 0..na { d = d.vattr(&format!("q{}", k), Val::pattern(TYS[j], 2, k)); }
        }
        // refused for a variable after the large one, if there is one; otherwise for the header
        let lay = canonical_layout(&d, Ver::V1, 0, d.recsize_padded());
        if lay.begins.iter().any(|b| *b > i32::MAX as u128) { o.push((d, 0)); } else { o.push((d, 1 << 31)); }
    } } } }
    o.push((dims_abu(0, 3, 5, 1).var("big", Ty::I8, &["a"]), i32::MAX as usize));
    o.push((dims_abu(0, 3, 5, 1).var("big", Ty::I8, &["u", "a"]), u32::MAX as usize + 9));
    o
}

pub fn families(t: Tier) -> Vec<Family> {
    let th = t.thorough();
    let mut f = vec![];
    for (si, def) in schemas().into_iter().enumerate() {
        // sequences with the definition set first
        let al = calls(&def, true);
        let k = al.len();
        let depth = if th && si >= 3 { 4 } else { 3 };
        let d2 = def.clone();
        f.push(fam(&format!("defined_{}", si), &format!("schema #{}: set_def then all sequences of {} calls among {} (wrong names, types, lengths, record indices, second set_def, correct writes), then a correct write; bytes compared after every refused call and at the end", si, depth, k), (k as u64).pow(depth as u32 - 1), move |i, ctx| {
            let def = &d2;
            let (ds, od) = (bind::build(def).map_err(|e| format!("{:?}", e))?, other_def());
            let ods = bind::build(&od).map_err(|e| format!("{:?}", e))?;
            let ver = VERS[(i % 2) as usize];
            let (set, last) = (W::SetDef(0), W::Rec { name: def.vars[0].name.clone(), ty: def.vars[0].ty, rec: 0, len: def.slab_len(0) as usize, salt: 99 });
            let mut pre: Vec<&W> = vec![&set];
            let mut x = i;
            for _ in 0..depth - 1 { pre.push(&al[(x % k as u64) as usize]); x /= k as u64; }
            for c in &al {
                let mut s = pre.clone(); s.push(c);
                ctx.state(&s);
                sequence(ctx, def, &ds, (&od, &ods), ver, &s, true)?;
                if def.nslabs(0) > 0 { s.push(&last); sequence(ctx, def, &ds, (&od, &ods), ver, &s, false)?; }
            }
            Ok(())
        }));
        // sequences from an undefined writer, over a smaller alphabet
        let al = calls(&def, false);
        let k = al.len();
        let depth = if th && si >= 1 { 5 } else { 4 };
        let d2 = def.clone();
        f.push(fam(&format!("any_{}", si), &format!("schema #{}: all sequences of {} calls among {} from a writer without definition, then close", si, depth, k), (k as u64).pow(depth as u32 - 1), move |i, ctx| {
            let def = &d2;
            let (ds, od) = (bind::build(def).map_err(|e| format!("{:?}", e))?, other_def());
            let ods = bind::build(&od).map_err(|e| format!("{:?}", e))?;
            let mut pre: Vec<&W> = vec![];
            let mut x = i;
            for _ in 0..depth - 1 { pre.push(&al[(x % k as u64) as usize]); x /= k as u64; }
            // once the definition is set nothing new is learnt from a late set_def
            for c in &al { let mut s = pre.clone(); s.push(c); ctx.state(&s); sequence(ctx, def, &ds, (&od, &ods), VERS[(i % 2) as usize], &s, false)?; }
            Ok(())
        }));
        // readers
        let al = reader_calls(&def);
        let k = al.len();
        let depth = match (th, si) { (true, 0) => 3, (true, _) => 4, (false, 0) => 2, _ => 3 };
        let d2 = def.clone();
        f.push(fam(&format!("reader_{}", si), &format!("schema #{}: all sequences of {} reads among {} (wrong names, types, indices and correct ones) on one reader", si, depth + 1, k), (k as u64).pow(depth as u32), move |i, ctx| {
            let def = &d2;
            let data = full_data(def, 5);
            let bytes = encode_file(def, &data, VERS[(i % 2) as usize], 0, true);
            let p = ctx.path("r.nc");
            if !std::fs::metadata(&p).map(|m| m.len() == bytes.len() as u64).unwrap_or(false) || std::fs::read(&p).ok() != Some(bytes.clone()) { std::fs::write(&p, &bytes).map_err(|e| e.to_string())?; }
            let mut r = hist::open(&p)?;
            let mut s: Vec<&R> = vec![];
            let mut x = i;
            for _ in 0..depth { s.push(&al[(x % k as u64) as usize]); x /= k as u64; }
            for c in &s { reader_call(&mut r, def, &data, c).map_err(|e| format!("{}\nreads {:?}: {}", hist::show(def, VERS[(i % 2) as usize], 0, &[]), s, e))?; }
            for c in &al { reader_call(&mut r, def, &data, c).map_err(|e| format!("{}\nreads {:?} then the whole alphabet, at {:?}: {}", hist::show(def, VERS[(i % 2) as usize], 0, &[]), s, c, e))?; ctx.op(1); }
            if let Some(d) = diff_bytes(&bytes, &std::fs::read(&p).map_err(|e| e.to_string())?) { return Err(format!("reading changed the file: {}", d)); }
            ctx.state(&(si, i)); ctx.op(depth as u64); ctx.trace();
            Ok(())
        }));
    }
    // one wrong call, exhaustively, for every kind of variable
    f.push(fam("one_call", "one variable: 10 dimension lists x 6 types x 0..3 records: every whole-variable and record write of the 6 types x 0..n+9 values x record indices 0..R+2, on one writer, then close; 4 minimum header sizes", 60 * 4, |i, ctx| {
        let mut g = Digits(i);
        let (k, r) = (g.next(60), g.next(4));
        let def = add_kind(dims_abu(k % 3, 3, 2, r), "v", k);
        let ver = VERS[(i % 2) as usize];
        let (ds, od) = (bind::build(&def).map_err(|e| format!("{:?}", e))?, other_def());
        let ods = bind::build(&od).map_err(|e| format!("{:?}", e))?;
        let (n, s) = (def.total_len(0) as usize, def.slab_len(0) as usize);
        let mut cs: Vec<W> = vec![W::SetDef(0)];
        let mut salt = 0;
        for ty in TYS {
            for len in 0..=n + 9 { salt += 1; cs.push(W::Var { name: "v".into(), ty, len, salt }); }
            for rec in 0..=r + 2 { for len in 0..=s + 9 { salt += 1; cs.push(W::Rec { name: "v".into(), ty, rec, len, salt }); } }
        }
        ctx.state(&def);
        for set in [0, 1, 4, 77, 1024] { cs[0] = W::SetDef(set); sequence(ctx, &def, &ds, (&od, &ods), ver, &cs.iter().collect::<Vec<_>>(), false)?; }
        Ok(())
    }));
    // one call alone, then close: what is not written is filled
    let kinds: Vec<(usize, usize)> = (0..60).flat_map(|k| (0..4).map(move |r| (k, r))).collect();
    f.push(fam("one_call_each", "one variable next to another one: 10 dimension lists x 6 types x 0..3 records: every write of the 6 types x 0..n+5 values x record indices 0..R+2, each alone or after the correct write of a record, in a fresh writer, then close", 240 * 2, move |i, ctx| {
        let (k, r) = kinds[(i / 2) as usize];
        if !uses_u(k) && r > 1 { return Ok(()); }
        let def = add_kind(dims_abu(k % 3, 3, 2, r), "v", k).var("w", Ty::F64, if uses_u(k) { &["u"] } else { &["a"] });
        let ver = VERS[k % 2];
        let (ds, od) = (bind::build(&def).map_err(|e| format!("{:?}", e))?, other_def());
        let ods = bind::build(&od).map_err(|e| format!("{:?}", e))?;
        let (n, s, ns) = (def.total_len(0) as usize, def.slab_len(0) as usize, def.nslabs(0));
        let pre = W::Rec { name: "v".into(), ty: def.vars[0].ty, rec: ns.saturating_sub(1) / 2, len: s, salt: 77 };
        let mut cs: Vec<W> = vec![];
        for ty in TYS {
            for len in 0..=n + 5 { cs.push(W::Var { name: "v".into(), ty, len, salt: len }); }
            for rec in (0..=ns + 2).chain([usize::MAX, 1 << 32, (1 << 32) + 1]) { for len in 0..=s + 5 { cs.push(W::Rec { name: "v".into(), ty, rec, len, salt: len + rec % 7 }); } }
        }
        ctx.state(&(&def, i % 2));
        for c in &cs {
            let set = W::SetDef([0, 400][(k + r) % 2]);
            let seq: Vec<&W> = if i % 2 == 0 { vec![&set, c] } else { vec![&set, &pre, c] };
            sequence(ctx, &def, &ds, (&od, &ods), ver, &seq, false)?;
        }
        Ok(())
    }));
    // every refused call alone in a fresh writer, then nothing else: the file holds fill values only
    f.push(fam("one_call_alone", "5 schemas: every call of the rich alphabet alone after set_def, then close; both versions, 6 minimum header sizes", 5 * 200, |i, ctx| {
        let def = schemas().swap_remove((i % 5) as usize);
        let al = calls(&def, true);
        let c = match al.get((i / 5) as usize) { Some(c) => c, None => { ctx.count("skipped: no such call"); return Ok(()) } };
        let (ds, od) = (bind::build(&def).map_err(|e| format!("{:?}", e))?, other_def());
        let ods = bind::build(&od).map_err(|e| format!("{:?}", e))?;
        ctx.state(&(i % 5, c));
        for ver in VERS { for set in [0, 3, 100, 333, 1024, 5000] { sequence(ctx, &def, &ds, (&od, &ods), ver, &[&W::SetDef(set), c], true)?; } }
        Ok(())
    }));
    // all the calls one after another, in both orders, on the crossed definitions
    f.push(fam("crossed_calls", &format!("{}: every call of the rich alphabet (wrong names, types, lengths, record indices, second set_def, correct writes) one after another on one writer, in order and in reverse order, then close; the same with the reads on one reader", CROSSED_BOUND), CROSSED_SMALL, |i, ctx| {
        let def = crossed_small(i);
        let (ds, od) = (bind::build(&def).map_err(|e| format!("{:?}", e))?, other_def());
        let ods = bind::build(&od).map_err(|e| format!("{:?}", e))?;
        let ver = VERS[(i % 2) as usize];
        let al = calls(&def, true);
        let set = W::SetDef(0);
        let mut s: Vec<&W> = std::iter::once(&set).chain(&al).collect();
        sequence(ctx, &def, &ds, (&od, &ods), ver, &s, true)?;
        s[1..].reverse();
        let set = W::SetDef(3 + (i as usize % 97) * 11);
        s[0] = &set;
        sequence(ctx, &def, &ds, (&od, &ods), ver, &s, false)?;
        let data = full_data(&def, 5);
        let p = ctx.path("r.nc");
        std::fs::write(&p, encode_file(&def, &data, ver, 0, true)).map_err(|e| e.to_string())?;
        let mut rs = reader_calls(&def);
        for _ in 0..2 {
            let mut r = hist::open(&p)?;
            for c in &rs { reader_call(&mut r, &def, &data, c).map_err(|e| format!("{}\nat read {:?}: {}", hist::show(&def, ver, 0, &[]), c, e))?; }
            ctx.op(rs.len() as u64); ctx.trace();
            rs.reverse();
        }
        ctx.state(&def);
        Ok(())
    }));
    // wrong lengths and record indices which agree with the right ones in their low (or high) bits
    {
        let mb: u64 = 1 << 33;
        let schemas: Vec<Def> = schemas().into_iter().chain([dims_abu(0, 255, 4096, 2).var("v", Ty::U8, &["a"]).var("w", Ty::I16, &["u", "b"]).var("x", Ty::F64, &["u"]), large(3), large(11)]).collect();
        let slots: Vec<(usize, usize, bool)> = schemas.iter().enumerate().flat_map(|(k, d)| (0..d.vars.len()).flat_map(move |v| [(k, v, false), (k, v, true)])).collect();
        let n = slots.len() as u64;
        f.push(fam("far_lengths", &format!("{} schemas: slices of n+m.2^j, n^2^j (m = 1, 2, 3, 5; j up to 33) and k.n values, of up to {} bytes, for every variable and record, with record indices r, r+2^j, r^2^j: each refused with its own error, the bytes of the file unchanged; the same indices for readers", schemas.len(), mb), n, move |i, ctx| {
            let (k, v, rec) = slots[i as usize];
            let def = &schemas[k];
            let ver = VERS[k % 2];
            let ds = bind::build(def).map_err(|e| format!("{:?}", e))?;
            let (name, t, nr) = (def.vars[v].name.as_str(), def.vars[v].ty, def.nslabs(v));
            let right = if rec { def.slab_len(v) } else { def.total_len(v) } as usize;
            let mut lens: Vec<usize> = vec![];
            for j in 0..34u32 { for m in [1usize, 2, 3, 5] { lens.push(right + m * (1usize << j)); } lens.push(right ^ (1 << j)); }
            for m in [0usize, 2, 3, 4, 10, 16, 256, 1000, 65536, 65537] { lens.push(right * m); }
            lens.retain(|l| *l != right && (*l as u64) * t.size() as u64 <= mb);
            lens.sort(); lens.dedup();
            let mut idx: Vec<usize> = vec![];
            for r in [0, nr.saturating_sub(1), nr] { for j in 0..64u32 { idx.push(r ^ (1usize << j)); idx.push(r.wrapping_add(1usize << j)); } idx.push(r); idx.push(usize::MAX - r); }
            idx.sort(); idx.dedup();
            let p = ctx.path("m.nc");
            let mut w = FileWriter::open(&p).map_err(|e| format!("{:?}", e))?;
            w.set_def(&ds, bind::ver(ver), 0).map_err(|e| format!("{:?}", e))?;
            let before = std::fs::read(&p).map_err(|e| e.to_string())?;
            // an accepted slice does not fill the disk
            let mut shim = Shim { from: Some((0, Fault::Eio)), count_only: true, ..Shim::default() };
            macro_rules! go { ($T:ty, $var:ident, $record:ident, $x:expr, $l:expr, $r:expr) => {{ let s: Vec<$T> = vec![$x; $l]; ioshim::with(&mut shim, || if rec { w.$record(name, $r, &s) } else { w.$var(name, &s) }) }}; }
            let mut call = |l: usize, r: usize| -> Result<(), WE> { match t {
                Ty::I8 => go!(i8, write_var_i8, write_record_i8, 0, l, r), Ty::U8 => go!(u8, write_var_u8, write_record_u8, 0, l, r), Ty::I16 => go!(i16, write_var_i16, write_record_i16, 0, l, r),
                Ty::I32 => go!(i32, write_var_i32, write_record_i32, 0, l, r), Ty::F32 => go!(f32, write_var_f32, write_record_f32, 0.0, l, r), Ty::F64 => go!(f64, write_var_f64, write_record_f64, 0.0, l, r),
            } };
            let m = |l: usize, r: usize, e: String| format!("{}\n{} {:?} of {} values (record {}): {}", hist::show(def, ver, 0, &[]), if rec { "write_record" } else { "write_var" }, name, l, r, e);
            if !rec {
                for l in &lens { let e = WE::VariableMismatchDataLength { var_name: name.into(), req: right, get: *l }; let g = call(*l, 0); ck!(g == Err(e), "{}", m(*l, 0, format!("{:?}", g))); ctx.op(1); }
            } else {
                for l in &lens { for r in [0, nr.saturating_sub(1)] { if r >= nr { continue; } let e = WE::RecordMismatchDataLength { var_name: name.into(), req: right, get: *l }; let g = call(*l, r); ck!(g == Err(e), "{}", m(*l, r, format!("{:?}", g))); ctx.op(1); } }
                for r in &idx { if *r < nr { continue; } let e = WE::RecordIndexExceeded { index: *r, num_records: nr }; let g = call(right, *r); ck!(g == Err(e), "{}", m(right, *r, format!("{:?}", g))); ctx.op(1); }
            }
            if let Some(d) = diff_bytes(&before, &std::fs::read(&p).map_err(|e| e.to_string())?) { return Err(m(0, 0, format!("the refused calls changed the file: {}", d))); }
            drop(w);
            if rec {
                let data = full_data(def, 3);
                std::fs::write(&p, encode_file(def, &data, ver, 0, true)).map_err(|e| e.to_string())?;
                let mut rd = hist::open(&p)?;
                for r in &idx {
                    if *r < nr { let g = bind::read_rec(&mut rd, name, *r).map_err(|e| m(right, *r, format!("reading: {:?}", e)))?; ck!(g == slab_value(def, &data, v, *r), "{}", m(right, *r, "reading gives other values".into())); }
                    else { let e = RE::RecordIndexExceeded { index: *r, num_records: nr }; for typed in [false, true] { let g = if typed { bind::read_rec_typed(&mut rd, name, *r, t) } else { bind::read_rec(&mut rd, name, *r) }; ck!(g.as_ref().err() == Some(&e), "{}", m(right, *r, format!("reading: {:?}", g.as_ref().err()))); } }
                    ctx.op(2);
                }
            }
            ctx.state(&(k, v, rec)); ctx.trace();
            Ok(())
        }));
    }
    // long sequences: a call refused any number of times stays refused, and the calls after it are served
    {
        let ns = repeats(if th { 4097 } else { 1025 });
        let (ns2, nn) = (ns.clone(), ns.len());
        let most = (0..schemas().len()).map(|k| calls(&schemas()[k], true).len()).max().unwrap();
        f.push(fam("long_misuse", &format!("5 schemas: each of the calls of the rich alphabet made N times, N among {} values up to {}, on a writer, before or after correct writes, then every call of the alphabet once, and close", nn, ns[nn - 1]), (5 * most * nn) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (si, c, n) = (d.next(5), d.next(most), ns2[d.next(nn)]);
            let def = schemas().swap_remove(si);
            let al = calls(&def, true);
            if c >= al.len() { ctx.count("skipped: no such call"); return Ok(()); }
            let (ds, od) = (bind::build(&def).map_err(|e| format!("{:?}", e))?, other_def());
            let ods = bind::build(&od).map_err(|e| format!("{:?}", e))?;
            ctx.state(&(si, c, n));
            let set = W::SetDef(0);
            let good: Vec<&W> = { let mut m = M { def: &def, other: &od, set: true, data: empty_data(&def) }; al.iter().filter(|c| !matches!(c, W::SetDef(_)) && m.call(c).is_empty()).collect() };
            let mut s: Vec<&W> = vec![];
            match (n + c) % 3 { 0 => s.push(&set), 1 => { s.push(&set); s.extend(good.iter().take(1 + n % 3)) } _ => { s.extend(good.iter().take(2)); s.push(&set); s.extend(good.iter()) } }
            s.extend(std::iter::repeat(&al[c]).take(n));
            s.extend(al.iter());
            sequence(ctx, &def, &ds, (&od, &ods), VERS[n % 2], &s, false)
        }));
        let ns2 = ns.clone();
        f.push(fam("long_mixtures", &format!("5 schemas: the calls of the rich alphabet (or the refused ones alone) in turn by strides 1, 2, 3, 5 and 7, N of them, N among {} values up to {}, from the definition on or the last M of them after it (M = 0, 1, 10), then every call once, and close; the same for the reads of a reader", nn, ns[nn - 1]), (5 * nn * 5 * 4) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (si, st, k, n) = (d.next(5), [1, 2, 3, 5, 7][d.next(5)], d.next(4), ns2[d.next(nn)]);
            let def = schemas().swap_remove(si);
            let al = calls(&def, true);
            let (ds, od) = (bind::build(&def).map_err(|e| format!("{:?}", e))?, other_def());
            let ods = bind::build(&od).map_err(|e| format!("{:?}", e))?;
            ctx.state(&(si, st, k, n));
            let set = W::SetDef(0);
            let pool: Vec<&W> = { let mut m = M { def: &def, other: &od, set: true, data: empty_data(&def) }; al.iter().filter(|c| if matches!(c, W::SetDef(_)) { k == 3 } else { k == 3 || !m.call(c).is_empty() }).collect() };
            let mut s: Vec<&W> = (0..n).map(|j| pool[(j * st + n) % pool.len()]).collect();
            let at = match k { 0 | 3 => 0, 1 => n.saturating_sub(1), _ => n.saturating_sub(10) };
            s.insert(at, &set);
            s.extend(al.iter());
            sequence(ctx, &def, &ds, (&od, &ods), VERS[n % 2], &s, false)?;
            let data = full_data(&def, 5);
            let p = ctx.path("r.nc");
            std::fs::write(&p, encode_file(&def, &data, VERS[n % 2], 0, true)).map_err(|e| e.to_string())?;
            let rs = reader_calls(&def);
            let mut r = hist::open(&p)?;
            for j in 0..n + rs.len() { let c = &rs[if j < n { (j * st + k) % rs.len() } else { j - n }]; reader_call(&mut r, &def, &data, c).map_err(|e| format!("{}\nread #{} of a sequence by strides of {}: {:?}: {}", hist::show(&def, VERS[n % 2], 0, &[]), j, st, c, e))?; }
            ctx.op((n + rs.len()) as u64); ctx.trace();
            Ok(())
        }));
        let ns2 = ns.clone();
        let most = schemas().iter().map(|d| reader_calls(d).len()).max().unwrap();
        f.push(fam("long_reads", &format!("5 schemas: each of the reads made N times on a reader, N among {} values up to {}, then every read once", nn, ns[nn - 1]), (5 * most * nn) as u64, move |i, ctx| {
            let mut d = Digits(i);
            let (si, c, n) = (d.next(5), d.next(most), ns2[d.next(nn)]);
            let def = schemas().swap_remove(si);
            let rs = reader_calls(&def);
            if c >= rs.len() { ctx.count("skipped: no such call"); return Ok(()); }
            let data = full_data(&def, 5);
            let p = ctx.path("r.nc");
            std::fs::write(&p, encode_file(&def, &data, VERS[n % 2], 0, true)).map_err(|e| e.to_string())?;
            let mut r = hist::open(&p)?;
            for j in 0..n + rs.len() { let k = if j < n { &rs[c] } else { &rs[j - n] }; reader_call(&mut r, &def, &data, k).map_err(|e| format!("{}\nread #{}, after {} times {:?}: {:?}: {}", hist::show(&def, VERS[n % 2], 0, &[]), j, j.min(n), rs[c], k, e))?; }
            ctx.op((n + rs.len()) as u64); ctx.trace(); ctx.state(&(si, c, n));
            Ok(())
        }));
    }
    // definitions refused because of their size
    {
        let depth = if th { 5 } else { 4 };
        let bigs = bigs();
        let nb = bigs.len() as u64;
        f.push(fam("refused_definitions", &format!("{} data sets which do not fit the classic version (1..6 variables of 0..2 attributes, the large one anywhere; large header size): all sequences of up to {} calls among 9 (set_def of the large or of a small data set, with either version; writes of the variables of both, of an unknown one), then closed or dropped: refused calls leave nothing behind", nb, depth), nb * 2, move |i, ctx| {
            let (big, hmin) = &bigs[(i / 2) as usize];
            let close = i % 2 == 0;
            let small = dims_abu(1, 3, 5, 2).var("v0", Ty::I16, &["a"]).var("r", Ty::I8, &["u", "a"]);
            let e = |e: netcdf3::InvalidDataSet| format!("{:?}", e);
            let (bds, sds) = (bind::build(big).map_err(e)?, bind::build(&small).map_err(e)?);
            let p = ctx.path("m.nc");
            for j in 0..nseqs(9, depth) {
                let s = seq(j, 9);
                let m = |x: String| format!("{:?}, header_min_size {}, calls {:?} (0: large classic, 1: large 64-bit, 2: small classic, 3: small 64-bit with 600 bytes of header, 4: write v0, 5: write record r[1], 6: unknown variable, 7: a large variable with a wrong length, 8: its record 0), closed: {}: {}", big, hmin, s, close, x);
                let mut w = FileWriter::open(&p).map_err(|e| format!("{:?}", e))?;
                let mut set: Option<usize> = None; // which definition
                let mut data = empty_data(&small);
                if *hmin > 0 && s.contains(&1) { continue; } // two gigabytes of header would be written
                for (k, c) in s.iter().enumerate() {
                    let got = match c {
                        0 => w.set_def(&bds, bind::ver(Ver::V1), *hmin), 1 => w.set_def(&bds, bind::ver(Ver::V2), *hmin), 2 => w.set_def(&sds, bind::ver(Ver::V1), 0), 3 => w.set_def(&sds, bind::ver(Ver::V2), 600),
                        4 => w.write_var_i16("v0", &[7, 8, 9]), 5 => w.write_record_i8("r", 1, &[1, 2, 3]), 6 => w.write_var_u8("zz", &[1]), 7 => w.write_var_i8("big", &[1, 2]), _ => w.write_record_i8("big", 0, &[1, 2]),
                    };
                    let small_set = matches!(set, Some(2) | Some(3));
                    let exp = match c {
                        0..=3 if set.is_some() => Err(WE::HeaderAlreadyDefined),
                        0 => Err(WE::ClassicVersionNotPossible),
                        1..=3 => { set = Some(*c); Ok(()) }
                        _ if set.is_none() => Err(WE::HeaderNotDefined),
                        4 if small_set => { data[0][0] = Some(vec![0, 7, 0, 8, 0, 9]); Ok(()) }
                        5 if small_set => { data[1][1] = Some(vec![1, 2, 3]); Ok(()) }
                        6 => Err(WE::VariableNotDefined("zz".into())),
                        4 | 5 | 7 | 8 if small_set => Err(WE::VariableNotDefined("big".into())),
                        7 => Err(WE::VariableMismatchDataLength { var_name: "big".into(), req: big.total_len(big.vars.iter().position(|x| x.name == "big").unwrap()) as usize, get: 2 }),
                        8 => Err(WE::RecordMismatchDataLength { var_name: "big".into(), req: big.slab_len(big.vars.iter().position(|x| x.name == "big").unwrap()) as usize, get: 2 }),
                        // the large data set would need gigabytes: only calls which are refused
                        _ => if got.is_err() { continue } else { Ok(()) },
                    };
                    ck!(got == exp, "{}", m(format!("call #{} gives {:?}, expected {:?}", k, got, exp)));
                    let which = match set { None => None, Some(1) => Some((&bds, Ver::V2, *hmin)), Some(2) => Some((&sds, Ver::V1, 0)), _ => Some((&sds, Ver::V2, 600)) };
                    ck!(w.header_is_defined() == which.is_some() && w.version() == which.map(|x| bind::ver(x.1)) && w.header_min_size() == which.map(|x| x.2) && w.data_set().map(|d| d as *const DataSet) == which.map(|x| x.0 as *const DataSet), "{}", m(format!("header_is_defined/data_set/version/header_min_size disagree with the calls after call #{}: {:?} {:?} {:?}", k, w.header_is_defined(), w.version(), w.header_min_size())));
                    if set == Some(1) && matches!(c, 4 | 5) { break; }
                }
                ctx.op(s.len() as u64 + 2);
                if set == Some(1) { drop(w); continue; }
                let exp = if close { w.close().map_err(|e| m(format!("close: {:?}", e)))?; match set { None => vec![], Some(2) => encode_file(&small, &data, Ver::V1, 0, true), _ => encode_file(&small, &data, Ver::V2, 600, true) } } else { drop(w); continue };
                ctx.trace();
                if let Some(d) = diff_bytes(&exp, &std::fs::read(&p).map_err(|e| e.to_string())?) { return Err(m(format!("final file: {}", d))); }
            }
            ctx.state(&(big, hmin));
            Ok(())
        }));
    }
    f
}
