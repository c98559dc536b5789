//! Finite indexed spaces of data set definitions.
#![allow(dead_code)]
use crate::model::*;
use crate::runner::{nseqs, seq, Digits, Tier};

pub type Gen = Box<dyn Fn(u64) -> Option<Def> + Send + Sync>;
/// `data`: the variables are small enough for all their data to be written.
pub struct Space { pub name: &'static str, pub bound: String, pub n: u64, pub data: bool, pub gen: Gen }
fn sp(name: &'static str, bound: impl Into<String>, n: u64, data: bool, gen: impl Fn(u64) -> Option<Def> + Send + Sync + 'static) -> Space { Space { name, bound: bound.into(), n, data, gen: Box::new(gen) } }

/// The lists of dimensions a variable may have over the dimensions a, b (fixed) and u (unlimited).
pub const DIM_LISTS: [&[&str]; 10] = [&[], &["a"], &["b"], &["a", "b"], &["b", "a"], &["u"], &["u", "a"], &["u", "b"], &["u", "a", "b"], &["u", "b", "a"]];
pub fn uses_u(k: usize) -> bool { DIM_LISTS[k / 6].first() == Some(&"u") }
/// Dimensions a, b and u, with u at position `p` (3: no unlimited dimension).
pub fn dims_abu(p: usize, a: usize, b: usize, r: usize) -> Def {
    let d = Def::default();
    match p { 0 => d.unlim("u", r).dim("a", a).dim("b", b), 1 => d.dim("a", a).unlim("u", r).dim("b", b), 2 => d.dim("a", a).dim("b", b).unlim("u", r), _ => d.dim("a", a).dim("b", b) }
}
/// kind 0..60: (dimension list, type)
pub fn add_kind(d: Def, name: &str, k: usize) -> Def { d.var(name, TYS[k % 6], DIM_LISTS[k / 6]) }

/// Small variable kinds for the deep explorations (fixed/record x sizes x paddings).
pub const SMALL: [(Ty, &[&str]); 10] = [(Ty::U8, &[]), (Ty::I16, &["a"]), (Ty::F64, &["a"]), (Ty::I8, &["u"]), (Ty::I16, &["u", "a"]), (Ty::F32, &["u"]), (Ty::F64, &["u", "a"]), (Ty::U8, &["u", "b"]), (Ty::I32, &["b"]), (Ty::I8, &["a"])];
pub fn add_small(d: Def, name: &str, k: usize) -> Def { d.var(name, SMALL[k].0, SMALL[k].1) }
pub fn small_uses_u(k: usize) -> bool { SMALL[k].1.first() == Some(&"u") }

pub fn nan_attr(d: Def) -> Def { d.vattr("nan", Val::new(Ty::F32, vec![0x7F, 0xC0, 0, 0])) }

/// Numbers of repetitions, up to `max`: all the small ones, around round numbers and powers of two.
pub fn repeats(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (2..=40).collect();
    for k in [64usize, 100, 128, 200, 256, 300, 500, 512, 1000, 1024, 2000, 2048, 4096, 8192, 10_000, 16384, 32768, 65536, 100_000] { v.extend([k - 1, k, k + 1]); }
    v.retain(|k| *k <= max);
    v
}
/// Interesting lengths around the powers of two, up to `max`.
pub fn around_pow2(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    let mut p = 1usize;
    while p <= max * 2 { for d in -3i64..=3 { let x = p as i64 + d; if x >= 1 && x as usize <= max { v.push(x as usize); } } p *= 2; }
    v.sort(); v.dedup(); v
}
/// Lengths of large chunks: around powers of two and of ten, and in between (sizes of internal buffers).
pub fn big_lens(th: bool) -> Vec<usize> {
    let mut v = vec![];
    let mut p = 1usize << 13;
    while p <= if th { 1 << 21 } else { 1 << 18 } { v.extend([p - 1, p, p + 1, p + p / 2 + 3]); p *= 2; }
    let mut p = 10_000usize;
    while p <= if th { 1_000_000 } else { 100_000 } { v.extend([p - 1, p, p + 1, 3 * p + 7]); p *= 10; }
    v.extend([20_000, 50_000, 60_001]);
    if th { v.extend([200_000, 250_001, 500_000, 500_009]); }
    v.sort(); v.dedup(); v
}
/// Strings of exactly `n` bytes made of characters of `w` bytes (completed with ASCII at the end).
pub fn name_of(n: usize, w: usize, salt: usize) -> String {
    let sets: [&[char]; 4] = [&['a', 'Z', '0', '_', 'k'], &['é', 'Ω', 'ß'], &['中', '€', 'ก'], &['😀', '𝄞', '𐍈']];
    let mut s = String::new();
    let mut i = salt;
    while s.len() + w <= n { s.push(sets[w - 1][i % sets[w - 1].len()]); i += 1; }
    let tail = ['x', 'Y', '7', 'q'];
    while s.len() < n { s.push(tail[(i + s.len()) % 4]); }
    s
}
/// Names of attributes which have a meaning by convention.
pub const CONV: [&str; 24] = ["_FillValue", "missing_value", "fill_value", "_fillvalue", "scale_factor", "add_offset", "valid_range", "valid_min", "valid_max", "_Unsigned", "units", "long_name", "standard_name", "coordinates", "bounds", "axis", "calendar", "positive", "Conventions", "history", "title", "_NCProperties", "_Netcdf4Dimid", "_CoordinateAxisType"];

/// All definitions spaces.
pub fn all(t: Tier) -> Vec<Space> {
    let th = t.thorough();
    let mut v = vec![];
    v.push(sp("empty", "no dimension, attribute nor variable", 1, true, |_| Some(Def::default())));
    {   // S1: pairs of variables
        let sizes: Vec<(usize, usize)> = if th { vec![(3, 2), (1, 5), (4, 7), (2, 1)] } else { vec![(3, 2)] };
        let recs = if th { 4 } else { 3 };
        let ns = sizes.len();
        let n = 60 * 60 * 4 * recs as u64 * ns as u64;
        v.push(sp("var_pairs", format!("all pairs of variables over 10 dimension lists x 6 types, 4 positions of the unlimited dimension, {} numbers of records, {} sizes", recs, ns), n, true, move |i| {
            let mut d = Digits(i);
            let (k1, k2, p, r) = (d.next(60), d.next(60), d.next(4), d.next(recs));
            let (a, b) = sizes[d.next(ns)];
            if p == 3 && (uses_u(k1) || uses_u(k2) || r > 0) { return None; }
            Some(add_kind(add_kind(dims_abu(p, a, b, r), "v", k1), "w", k2))
        }));
    }
    {   // S1b: single variables over many sizes
        let m = if th { 9 } else { 6 };
        v.push(sp("var_single", format!("one variable: 10 dimension lists x 6 types x sizes 1..{}^2 x 0..7 records, 4 positions", m), 60 * (m * m) as u64 * 8 * 4, true, move |i| {
            let mut d = Digits(i);
            let (k, a, b, r, p) = (d.next(60), d.next(m) + 1, d.next(m) + 1, d.next(8), d.next(4));
            if p == 3 && (uses_u(k) || r > 0) { return None; }
            Some(add_kind(dims_abu(p, a, b, r), "v", k))
        }));
    }
    {   // S2: triples
        let k = if th { 10 } else { 8 };
        v.push(sp("var_triples", format!("all triples of {} variable kinds, 0..2 records", k), (k * k * k * 3) as u64, true, move |i| {
            let mut d = Digits(i);
            let (x, y, z, r) = (d.next(k), d.next(k), d.next(k), d.next(3));
            Some(add_small(add_small(add_small(dims_abu(1, 3, 5, r), "v", x), "w", y), "x", z))
        }));
    }
    {   // S4: attributes: type x length, global/variable
        let lens: Vec<usize> = (0..=70).chain([100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097]).collect();
        let nl = lens.len();
        v.push(sp("attr_lens", "one attribute (global, of a variable, or both): 6 types x 88 lengths", (6 * nl * 3) as u64, true, move |i| {
            let mut d = Digits(i);
            let (t, l, w) = (TYS[d.next(6)], lens[d.next(nl)], d.next(3));
            let val = Val::pattern(t, l, 3);
            let mut x = Def::default().dim("a", 2);
            if w != 1 { x = x.attr("g", val.clone()); }
            x = x.var("v", Ty::I16, &["a"]);
            if w != 0 { x = x.vattr("q", val); }
            Some(x)
        }));
        let m = if th { 9 } else { 6 };
        v.push(sp("attr_pairs", format!("two attributes in one list (global, variable) followed by a variable: (6 types x 0..{} values)^2", m - 1), (36 * m * m * 2) as u64, true, move |i| {
            let mut d = Digits(i);
            let (t1, t2, l1, l2, w) = (TYS[d.next(6)], TYS[d.next(6)], d.next(m), d.next(m), d.next(2));
            let (v1, v2) = (Val::pattern(t1, l1, 5), Val::pattern(t2, l2, 9));
            Some(if w == 0 { Def::default().attr("x", v1).attr("y", v2).var("v", Ty::I8, &[]) } else { Def::default().var("v", Ty::I8, &[]).vattr("x", v1).vattr("y", v2).var("w", Ty::F64, &[]) })
        }));
        // attributes of several variables and global ones with the same names
        v.push(sp("attr_scopes", "attributes of the same names in the global scope and in two variables: all subsets of 3 names per scope (8^3) x 2 orders", 8 * 8 * 8 * 2, true, |i| {
            let mut d = Digits(i);
            let (g, a, b, o) = (d.next(8), d.next(8), d.next(8), d.next(2));
            let names = if o == 0 { ["title", "units", "v"] } else { ["v", "units", "title"] };
            let mut x = Def::default().dim("title", 3);
            for j in 0..3 { if g >> j & 1 == 1 { x = x.attr(names[j], Val::pattern(TYS[j], j + 1, 1)); } }
            x = x.var("v", Ty::I8, &["title"]);
            for j in 0..3 { if a >> j & 1 == 1 { x = x.vattr(names[j], Val::pattern(TYS[j + 1], j + 2, 2)); } }
            x = x.var("units", Ty::F64, &[]);
            for j in 0..3 { if b >> j & 1 == 1 { x = x.vattr(names[j], Val::pattern(TYS[j + 2], j, 3)); } }
            Some(x)
        }));
    }
    {   // S9: bit patterns in attributes
        let pats = bit_patterns(th);
        let n = pats.len() as u64;
        v.push(sp("attr_bits", format!("{} vectors of bit patterns (all 8 and 16 bit values, 1 and 2 bit values, NaN payloads, infinities, zeros) as global and variable attribute", n), n, true, move |i| {
            Some(Def::default().attr("g", pats[i as usize].clone()).var("v", Ty::F32, &[]).vattr("q", pats[i as usize].clone()))
        }));
        // string values, possibly not UTF-8
        v.push(sp("attr_u8_bytes", "u8 attributes of 2 bytes: all 65536 values", 65536, true, |i| Some(Def::default().attr("s", Val::new(Ty::U8, vec![(i >> 8) as u8, i as u8])))));
    }
    {   // S9b: special element values in every position
        let m = if th { 5 } else { 3 };
        let nv = nseqs(4, m);
        v.push(sp("attr_special", format!("attributes whose elements are zero, the fill value, all ones, spaces or a pattern: all sequences of up to {} such elements (0, fill, 0x20.., pattern), and up to 12 equal elements with another first or last one; 6 types; global, of a variable, both", m), (nv + 16 * 13) * 6 * 3, true, move |i| {
            let mut d = Digits(i);
            let (t, w) = (TYS[d.next(6)], d.next(3));
            let val = if d.0 < nv {
                let s = seq(d.0, 4);
                let p = Val::pattern(t, s.len(), 5);
                Val::new(t, s.iter().enumerate().flat_map(|(j, e)| match e { 0 => vec![0; t.size()], 1 => t.fill().to_vec(), 2 => vec![0x20; t.size()], _ => p.slice(j, j + 1).raw }).collect())
            } else { let k = (d.0 - nv) as usize; Val::special(t, k / 16, k % 16) };
            let mut x = Def::default().dim("a", 2);
            if w != 1 { x = x.attr("g", val.clone()); }
            x = x.var("v", Ty::I16, &["a"]);
            if w != 0 { x = x.vattr("q", val.clone()).vattr("r", val); }
            Some(x)
        }));
    }
    {   // S9c: text
        const PIECES: [&[u8]; 12] = [b"\n", b"\r", b"\r\n", b"\0", b" ", b"\t", b"a", "\u{e9}".as_bytes(), b"\xC3", b"\xFF", b"\xEF\xBB\xBF", b"\\"];
        let m = if th { 3 } else { 2 };
        let ns = nseqs(PIECES.len(), m);
        let names = ["s", "history", "units", "_FillValue", "title"];
        v.push(sp("attr_text", format!("text attributes: all sequences of up to {} among 12 pieces (line feed, carriage return, both, NUL, blank, tab, letter, non-ASCII, truncated and invalid UTF-8, byte order mark, backslash), alone, after, before, within or repeated in a long text; u8 and i8; global, of a variable, or both; 5 names", m), ns * 5 * 2 * 3 * 5, true, move |i| {
            let mut d = Digits(i);
            let (how, t, w, n) = (d.next(5), [Ty::U8, Ty::I8][d.next(2)], d.next(3), names[d.next(5)]);
            let x: Vec<u8> = seq(d.0, PIECES.len()).iter().flat_map(|k| PIECES[*k].to_vec()).collect();
            let long = b"The quick brown fox jumps over the lazy dog. ".repeat(7);
            let raw = match how { 0 => x, 1 => [&long[..], &x].concat(), 2 => [&x, &long[..]].concat(), 3 => [&long[..150], &x, &long[150..]].concat(), _ => [&x[..], b"line of text "].concat().repeat(23) };
            let val = Val::new(t, raw);
            let mut y = Def::default().dim("a", 2);
            if w != 1 { y = y.attr(n, val.clone()); }
            y = y.var("v", Ty::I16, &["a"]);
            if w != 0 { y = y.vattr(n, val); }
            Some(y)
        }));
        // words of text anywhere in a list of attributes, and as data
        const WORDS: [&[u8]; 40] = [b"kelvin", b"KELVIN", b"Kelvin", b"K", b"12345", b"-1", b"1.5e3", b"0x1F", b"true", b"false", b"NaN", b"nan", b"inf", b"null", b"None", b"m s-1", b"days since 1970-01-01", b"2026-11-19T12:00:00Z", b"/path/to/file", b"http://x.y/?a=b#c", b"a,b,c", b"a:b", b"a=b", b"(x)", b"[1]", b"{}", b"\"q\"", b"'q'", b"<x>", b"%d %s", b"a_b", b"a-b", b"    ", b"x ", b" x", b"x\0", b"\0\0\0\0", "\u{e9}t\u{e9}".as_bytes(), b"\xE9t\xE9", b"CDF\x01"];
        let nw = WORDS.len();
        v.push(sp("words", format!("{} words of text (lower and upper case, digits, numbers, dates, quotes, brackets, blanks, NUL...), alone, repeated or cut to 1..4 bytes, u8 or i8, as each of 4 attributes of 3 lists or as all of them", nw), (nw * 3 * 2 * 4 * 5) as u64, true, move |i| {
            let mut d = Digits(i);
            let (how, t, scope, pos, w) = (d.next(3), [Ty::U8, Ty::I8][d.next(2)], d.next(4), d.next(5), d.next(nw));
            let x = WORDS[w];
            let raw: Vec<u8> = match how { 0 => x.to_vec(), 1 => x.iter().copied().cycle().take(40 + w).collect(), _ => x[..x.len().min(1 + w % 4)].to_vec() };
            let val = Val::new(t, raw);
            let at = |s: usize, j: usize| if (s == scope || scope == 3) && (j == pos || pos == 4) { val.clone() } else { Val::pattern(TYS[(s + j + w) % 6], 2, j) };
            let mut y = Def::default().dim("n", 6).unlim("u", 2);
            for j in 0..4 { y = y.attr(&format!("g{}", j), at(0, j)); }
            y = y.var("v", t, &["u", "n"]);
            for j in 0..4 { y = y.vattr(&format!("q{}", j), at(1, j)); }
            y = y.var("w", Ty::I16, &["n"]);
            for j in 0..4 { y = y.vattr(&format!("g{}", j), at(2, j)); }
            Some(y)
        }));
        v.push(sp("byte_pairs", "u8 and i8 attributes holding all pairs of bytes which begin with one of the 256, and the same bytes 3 times with their neighbours; global, of a variable", 256 * 2 * 2 * 2, true, |i| {
            let mut d = Digits(i);
            let (t, w, k, b) = ([Ty::U8, Ty::I8][d.next(2)], d.next(2), d.next(2), d.next(256) as u8);
            let raw: Vec<u8> = if k == 0 { (0..=255u8).flat_map(|x| [b, x]).collect() } else { (0..=255u8).flat_map(|x| [b, b, x, b]).collect() };
            let val = Val::new(t, raw);
            Some(if w == 0 { Def::default().attr("g", val).var("v", Ty::I8, &[]) } else { Def::default().var("v", Ty::I8, &[]).vattr("q", val) })
        }));
        // names which mean something by convention: nothing for this library
        v.push(sp("conventions", "24 attribute names which have a meaning by convention (_FillValue, scale_factor, valid_range, _Unsigned, ...) x scope (global, a fixed-size variable, a record one, all) x 6 types of attribute x 6 types of variable x 4 values, in a file with coordinate variables", 24 * 4 * 36 * 4, true, |i| {
            let mut d = Digits(i);
            let (val, w, ta, tv, n) = (d.next(4), d.next(4), TYS[d.next(6)], TYS[d.next(6)], CONV[d.next(24)]);
            let at = match val { 0 => Val::pattern(ta, 1, 3), 1 => Val::new(ta, vec![0; ta.size()]), 2 => Val::fill(ta, 1), _ => Val::pattern(ta, 2, 8) };
            let add = |y: Def, on: bool| if on { y.vattr(n, at.clone()) } else { y };
            let mut x = Def::default().unlim("time", 2).dim("lat", 3);
            if w == 0 || w == 3 { x = x.attr(n, at.clone()); }
            x = add(x.var("v", tv, &["time", "lat"]), w == 2 || w == 3);
            x = add(x.var("f", tv, &["lat"]), w == 1 || w == 3);
            x = add(x.var("time", Ty::F64, &["time"]), w == 3);
            Some(x.var("lat", Ty::F32, &["lat"]))
        }));
    }
    {   // S5: names
        let maxn = 256;
        v.push(sp("name_lens", "names of 1..256 bytes made of characters of 1..4 bytes, as dimension, attribute, variable and variable attribute", maxn * 4 * 5, true, move |i| {
            let mut d = Digits(i);
            let (n, w, wh) = (d.next(maxn as usize) + 1, d.next(4) + 1, d.next(5));
            let s = name_of(n, w, 0);
            let pick = |k: usize, dflt: &str| if wh == k || wh == 4 { s.clone() } else { dflt.to_string() };
            let (dn, gn, vn, an) = (pick(0, "d"), pick(1, "g"), pick(2, "v"), pick(3, "q"));
            Some(Def::default().dim(&dn, 3).attr(&gn, Val::pattern(Ty::I16, 1, 1)).var(&vn, Ty::U8, &[&dn]).vattr(&an, Val::pattern(Ty::I8, 1, 2)))
        }));
        let odd = ["a", "A", "aa", "a ", "a b", "é", "e\u{301}", "中", "_", "0", "a-b", "a+b", "a.b", "a\\b", "a\"b", "a'b", "a~", "a|b", "a{b}", "a`", "\u{80}", "\u{a0}", "\u{feff}a", "\u{2028}x", "x\u{200b}"];
        let odd: Vec<&str> = { let mut o: Vec<&str> = odd.to_vec(); for s in crate::c_edit::SIMILAR { if !o.contains(&s) { o.push(s); } } o };
        let no = odd.len();
        v.push(sp("name_odd", format!("pairs of {} similar or unusual names for two dimensions and two variables", no), (no * no) as u64, true, move |i| {
            let (x, y) = (odd[i as usize % no], odd[i as usize / no]);
            if x == y { return None; }
            Some(Def::default().dim(x, 2).dim(y, 3).attr(y, Val::pattern(Ty::I8, 3, 1)).attr(x, Val::pattern(Ty::F32, 1, 1)).var(y, Ty::I16, &[x]).vattr(x, Val::pattern(Ty::I16, 2, 1)).var(x, Ty::I8, &[y, x]).vattr(y, Val::pattern(Ty::U8, 5, 1)))
        }));
    }
    {   // S5b: names which are alike
        let ns: Vec<usize> = (1..=if th { 80 } else { 40 }).chain([63, 64, 65, 100, 127, 128, 129, 200, 255, 256]).collect();
        let pairs: Vec<(usize, usize)> = ns.iter().flat_map(|n| (0..*n).map(move |p| (*n, p))).collect();
        let np = pairs.len();
        v.push(sp("names_alike", "names of 1..40 bytes, and around powers of two up to 256, for two dimensions, two global attributes, two variables, two attributes of a variable: the two differ by the character at each position, or the other is the beginning, or the end, of each length", (np * 3) as u64, true, move |i| {
            let mut d = Digits(i);
            let (how, (n, p)) = (d.next(3), pairs[d.next(np)]);
            let x: String = (0..n).map(|j| (b'a' + (j % 26) as u8) as char).collect();
            let y: String = match how { 0 => x.chars().enumerate().map(|(j, c)| if j == p { 'Z' } else { c }).collect(), 1 => x[..p].to_string(), _ => x[n - p..].to_string() };
            if y.is_empty() { return None; }
            Some(Def::default().dim(&y, 2).dim(&x, 3).attr(&x, Val::pattern(Ty::I8, 3, 1)).attr(&y, Val::pattern(Ty::F32, 1, 1)).var(&x, Ty::I16, &[&x]).vattr(&y, Val::pattern(Ty::I16, 2, 1)).vattr(&x, Val::pattern(Ty::I16, 2, 2)).var(&y, Ty::I16, &[&x]).vattr(&x, Val::pattern(Ty::U8, 5, 1)).var("last_1", Ty::I8, &[&y, &x]))
        }));
    }
    {   // S6: counts of lists
        let counts: Vec<usize> = (0..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]).chain(if th { vec![511, 512, 513, 1000, 1023, 1024, 1025, 2000] } else { vec![600] }).collect();
        let nc = counts.len();
        v.push(sp("counts", "number of dimensions, global attributes, variables, attributes of a variable, dimensions of a variable, record variables: 0..40 and around powers of 2", (nc * 6) as u64, true, move |i| {
            let mut d = Digits(i);
            let (k, n) = (d.next(6), counts[d.next(nc)]);
            let mut x = Def::default();
            match k {
                0 => { for j in 0..n { x = x.dim(&format!("d{}", j), j % 5 + 1); } if n > 0 { let last = format!("d{}", n - 1); x = x.var("v", Ty::I8, &[&last]); } }
                1 => { for j in 0..n { x = x.attr(&format!("g{}", j), Val::pattern(TYS[j % 6], j % 4, j)); } x = x.var("v", Ty::I8, &[]); }
                2 => { x = x.dim("a", 3).unlim("u", 2); for j in 0..n { x = x.var(&format!("v{}", j), TYS[j % 6], [&["a"][..], &["u"][..], &[][..], &["u", "a"][..]][j % 4]); } }
                3 => { x = x.var("v", Ty::I8, &[]); for j in 0..n { x = x.vattr(&format!("q{}", j), Val::pattern(TYS[j % 6], j % 4, j)); } x = x.var("w", Ty::I16, &[]); }
                4 => { if n > 1024 { return None; } x = x.unlim("u", 2); let names: Vec<String> = (0..n).map(|j| if j == 0 { "u".to_string() } else { format!("d{}", j) }).collect(); for j in 1..n { x = x.dim(&names[j], if j == n / 2 { 3 } else { 1 }); } let r: Vec<&str> = names.iter().map(|s| s.as_str()).collect(); x = x.var("v", Ty::I16, &r); }
                _ => { x = x.unlim("u", 3); for j in 0..n { x = x.var(&format!("v{}", j), TYS[j % 6], &["u"]); } }
            }
            Some(x)
        }));
    }
    {   // S6b: dimension orders within a variable: all permutations of up to 4 dimensions with distinct sizes
        let perms = perms_upto(4);
        let n = perms.len();
        v.push(sp("dim_orders", "one variable using every ordered selection of up to 4 of 4 fixed dimensions, with or without the unlimited one first, 6 types, 4 positions of the unlimited dimension", (n * 2 * 6 * 5) as u64, true, move |i| {
            let mut d = Digits(i);
            let (pi, wu, t, pos) = (d.next(n), d.next(2), TYS[d.next(6)], d.next(5));
            let mut x = Def::default();
            for j in 0..5 { if j == pos { x = x.unlim("u", 2); } if j < 4 { x = x.dim(&format!("d{}", j), j + 1); } }
            let names: Vec<String> = perms[pi].iter().map(|j| format!("d{}", j)).collect();
            let mut l: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            if wu == 1 { l.insert(0, "u"); }
            Some(x.var("v", t, &l).var("w", Ty::I8, &["d3"]))
        }));
    }
    v.push(sp("crossed", format!("{} x 5 ways to choose the sizes x 0..3 records x 2 kinds of values", CROSSED_BOUND), CROSSED, true, crossed));
    {   // S7: header length sweep: everything is shifted over the 1024-byte boundaries
        let max = if th { 4200 } else { 2200 };
        v.push(sp("header_len", format!("a u8 global attribute of 0..{} bytes, one by one, before the rest of a rich header", max), max as u64 + 1, true, move |i| {
            let i = i as usize;
            Some(Def::default().dim("longitude", 3).unlim("time", 2).attr("pad", Val::pattern(Ty::U8, i, 1)).attr("f64", Val::pattern(Ty::F64, 3, 1)).attr("é€😀", Val::new(Ty::U8, "é€😀".as_bytes().to_vec()))
                .var("temperature", Ty::F32, &["time", "longitude"]).vattr("units", Val::new(Ty::U8, b"kelvin".to_vec())).vattr("range", Val::pattern(Ty::I16, 3, 1)).var("x", Ty::I8, &["longitude"]).var("é", Ty::F64, &["time"]))
        }));
        v.push(sp("header_shift", "names of total length 0..1100 before dimensions, attributes and variables: all elements of the header cross the 1024-byte boundary", 276 * 3, true, |i| {
            let mut d = Digits(i);
            let (n, kind) = (d.next(276) * 4, d.next(3));
            let mut x = Def::default();
            let mut left = n; let mut j = 0;
            while left > 0 { let l = left.min(256); x = x.dim(&format!("{}{}", j, name_of(l.max(2) - 1, 1 + (j + kind) % 4, j)), 1); left -= l; j += 1; }
            x = x.dim("é€😀a", 2).unlim("time", 1).dim("b", 3);
            x = match kind { 0 => x, 1 => x.attr("é", Val::pattern(Ty::F64, 5, 2)), _ => x.attr("s", Val::pattern(Ty::I8, 7, 2)).attr("t", Val::pattern(Ty::I16, 33, 2)) };
            Some(x.var("αβγδ", Ty::F64, &["time", "b"]).vattr("ζ", Val::pattern(Ty::I32, 9, 1)).var("w", Ty::I8, &["b", "é€😀a"]).vattr("t", Val::new(Ty::U8, "中文".as_bytes().to_vec())))
        }));
    }
    {   // S10: dimension sizes
        let sz: Vec<usize> = around_pow2(0x7FFF_FFFC);
        let n = sz.len();
        v.push(sp("dim_sizes", format!("fixed dimension (unused, or used by nothing else) and number of records around every power of two up to 2^31-4 ({} values)", n), n as u64 * 3, false, move |i| {
            let mut d = Digits(i);
            let (s, k) = (sz[d.next(n)], d.next(3));
            Some(match k { 0 => Def::default().dim("d", s), 1 => Def::default().dim("a", 2).unlim("u", s).var("v", Ty::I8, &["a"]), _ => Def::default().dim("d", s).unlim("u", s).dim("e", s) })
        }));
    }
    {   // S11: records
        let max = if th { 700 } else { 300 };
        v.push(sp("records", format!("0..{} records with one or two record variables and a fixed-size one", max), (max + 1) as u64 * 4, true, move |i| {
            let mut d = Digits(i);
            let (k, r) = (d.next(4), d.next(max + 1));
            let x = Def::default().unlim("u", r).dim("a", 3);
            Some(match k { 0 => x.var("v", Ty::I32, &["u"]), 1 => x.var("v", Ty::I8, &["u", "a"]).var("w", Ty::F64, &["u"]), 2 => x.var("f", Ty::I16, &["a"]).var("v", Ty::I16, &["u"]).var("w", Ty::U8, &["u"]), _ => x.var("v", Ty::F32, &["u", "a"]).var("f", Ty::F64, &[]) })
        }));
    }
    {   // S12: lengths
        let lens: Vec<usize> = { let mut l: Vec<usize> = (1..=if th { 1100 } else { 140 }).collect(); l.extend(around_pow2(if th { 140_000 } else { 9_000 })); l.sort(); l.dedup(); l };
        let n = lens.len();
        v.push(sp("chunk_lens", format!("variable lengths: {} values up to {}, 6 types, fixed-size and record", n, lens.last().unwrap()), (n * 6 * 2) as u64, true, move |i| {
            let mut d = Digits(i);
            let (t, rec, l) = (TYS[d.next(6)], d.next(2), lens[d.next(n)]);
            let x = Def::default().dim("a", l).unlim("u", 2);
            Some(if rec == 1 { x.var("v", t, &["u", "a"]).var("w", Ty::I8, &["u"]) } else { x.var("v", t, &["a"]).var("w", Ty::I8, &[]) })
        }));
    }
    v.push(sp("large", LARGE_BOUND, LARGE as u64, true, |i| Some(large(i as usize))));
    {
        let lens: Vec<usize> = [1usize << 16, 1 << 17, 100_000].iter().flat_map(|p| [p - 1, *p, p + 1, p + 3]).chain(if th { vec![1 << 18, (1 << 18) + 1, (1 << 19) + 5] } else { vec![] }).collect();
        let nl = lens.len();
        v.push(sp("attr_long", format!("one attribute (global, or of a variable before another one): 6 types x {} lengths up to {}", nl, lens.iter().max().unwrap()), (6 * nl * 2) as u64, true, move |i| {
            let mut d = Digits(i);
            let (t, l, w) = (TYS[d.next(6)], lens[d.next(nl)], d.next(2));
            let val = Val::pattern(t, l, 3);
            Some(if w == 0 { Def::default().attr("g", val).dim("a", 2).var("v", Ty::I16, &["a"]) } else { Def::default().dim("a", 2).var("v", Ty::I16, &["a"]).vattr("q", val).vattr("r", Val::pattern(Ty::I8, 3, 1)).var("w", Ty::U8, &[]) })
        }));
    }
    v
}
pub const LARGE: usize = 12;
pub const LARGE_BOUND: &str = "12 large definitions (long headers: of one attribute, of many variables, dimensions or attributes; large fixed-size variables and records; thousands of records; 6 dimensions)";
/// Data sets which are large in one respect.
pub fn large(k: usize) -> Def {
    let mut d = Def::default();
    match k {
        0 => d.attr("history", Val::pattern(Ty::U8, 20_001, 2)).unlim("u", 3).dim("n", 2).var("v", Ty::U8, &["n"]).var("w", Ty::I16, &["u"]),
        1 => { d = d.unlim("u", 2).dim("n", 3); for j in 0..300 { d = d.var(&format!("variable_{}", j), TYS[j % 6], [&["u"][..], &["n"][..], &["u", "n"][..], &[][..]][j % 4]); if j % 3 == 0 { d = d.vattr("units", Val::pattern(Ty::U8, j % 9, j)); } } d }
        2 => d.dim("a", 3_000).dim("b", 70_001).dim("c", 5_003).unlim("u", 2).var("v", Ty::F64, &["a"]).var("w", Ty::U8, &["b"]).var("x", Ty::I16, &["u", "c"]).var("y", Ty::I8, &[]),
        3 => d.dim("n", 20_000).unlim("u", 5).var("v", Ty::U8, &["u", "n"]).var("w", Ty::F32, &["u"]).var("x", Ty::I16, &[]),
        4 => d.unlim("u", 5_000).dim("n", 3).var("v", Ty::I8, &["u"]).var("w", Ty::F64, &["u"]).var("x", Ty::I16, &["n"]),
        5 => d.dim("n", 5).attr("g", Val::pattern(Ty::F64, 9_001, 4)).var("v", Ty::I16, &["n"]).vattr("q", Val::pattern(Ty::U8, 140_001, 5)).var("w", Ty::I32, &["n"]).vattr("q", Val::pattern(Ty::I8, 3, 5)),
        6 => d.dim("a", 3).dim("b", 5).dim("c", 7).dim("e", 2).dim("f", 4).dim("g", 3).unlim("u", 2).var("v", Ty::I16, &["a", "b", "c", "e", "f", "g"]).var("w", Ty::U8, &["u", "g", "f", "e", "c", "b"]).var("x", Ty::F32, &["u"]),
        7 => { for j in 0..200 { d = d.dim(&format!("dimension_{}", j), j + 1).attr(&format!("attribute_{}", j), Val::pattern(TYS[j % 6], j % 7, j)); } d.unlim("u", 3).var("v", Ty::I32, &["dimension_199", "dimension_4"]).var("w", Ty::I8, &["u", "dimension_100"]) }
        8 => d.dim("a", 131_075).dim("b", 33_001).var("v", Ty::U8, &["a"]).var("w", Ty::I32, &["b"]).var("x", Ty::U8, &[]),
        9 => { d = d.dim("n", 601).unlim("u", 7); for j in 0..30 { d = d.var(&format!("v{}", j), TYS[j % 6], if j % 2 == 0 { &["u", "n"][..] } else { &["n"][..] }); } d }
        10 => { d = d.unlim("u", 2).var("v", Ty::I16, &["u"]); for j in 0..150 { d = d.vattr(&format!("a{}", j), Val::pattern(TYS[j % 6], 20 + j % 5, j)); } d.var("w", Ty::F64, &["u"]).var("x", Ty::I8, &[]) }
        _ => d.unlim("u", 70_000).var("v", Ty::I16, &["u"]).attr("t", Val::pattern(Ty::U8, 9_000, 1)),
    }
}

// ------------------------------------------------------------------------------------------------
// The crossed space: shapes x attributes x names x sizes x records x values
// ------------------------------------------------------------------------------------------------
pub const SHAPES: usize = 14;
pub const DECOS: usize = 7;
pub const NAMINGS: usize = 12;
pub const SIZINGS: usize = 5;
pub const CROSSED: u64 = (SHAPES * DECOS * NAMINGS * SIZINGS * 4 * 2) as u64;
pub const CROSSED_SMALL: u64 = (SHAPES * DECOS * NAMINGS) as u64;
pub const CROSSED_BOUND: &str = "14 shapes (0..5 dimensions, the unlimited one anywhere; 0..5 variables of 0..5 dimensions, coordinate variables, fixed-size and record ones only or mixed) x 7 ways to give them 0..4 attributes x 12 styles of names (dimensions, variables and attributes sharing names, differing by case, by their ends, by their middle, by a suffix, by one accent, long, numeric)";
/// Dimensions (position of the unlimited one, number) and variables (type, dimensions).
fn shape(k: usize) -> (usize, Option<usize>, Vec<(Ty, Vec<usize>)>) {
    use Ty::*;
    match k {
        0 => (3, None, vec![(I16, vec![0, 1, 2]), (F64, vec![])]),
        1 => (3, Some(1), vec![(I32, vec![1]), (I16, vec![1, 0]), (U8, vec![2]), (F32, vec![1]), (I8, vec![1, 2, 0])]),
        2 => (5, Some(2), vec![]),
        3 => (1, Some(0), vec![]),
        4 => (5, Some(0), vec![(I8, vec![1, 2, 3, 4]), (I16, vec![0, 4, 3, 2, 1]), (F64, vec![]), (I32, vec![3])]),
        5 => (1, Some(0), vec![(F32, vec![0]), (F32, vec![0]), (I8, vec![0]), (I16, vec![0]), (F64, vec![0])]),
        6 => (2, None, vec![(U8, vec![0]), (I16, vec![1]), (U8, vec![1, 0]), (F64, vec![]), (F32, vec![0])]),
        7 => (3, Some(0), vec![(F64, vec![0]), (F32, vec![1]), (F32, vec![2]), (I16, vec![0, 1, 2])]),
        8 => (2, Some(1), vec![(I16, vec![1, 0]), (I16, vec![1, 0]), (I16, vec![1, 0])]),
        9 => (2, Some(0), vec![(F64, vec![0])]),
        10 => (0, None, vec![(I8, vec![]), (F64, vec![]), (I16, vec![])]),
        11 => (4, Some(3), vec![(U8, vec![3, 1]), (I8, vec![1]), (I8, vec![3, 0, 1, 2])]),
        12 => (5, None, vec![(F32, vec![4, 3, 2, 1, 0]), (I16, vec![0, 1, 2]), (I16, vec![2, 1, 0])]),
        _ => (5, Some(4), vec![(I32, vec![0]), (I32, vec![1]), (I32, vec![2]), (I32, vec![3]), (I32, vec![4])]),
    }
}
/// The `i`-th name of kind 0 (dimensions), 1 (variables), 2 (global attributes) or 3 (attributes of variables).
pub fn styled(style: usize, kind: usize, i: usize) -> String {
    let pool = |p: [&str; 5]| p[i].to_string();
    match style {
        0 => format!("{}{}", ["d", "v", "g", "q"][kind], i),
        1 => pool(["a", "b", "c", "d", "e"]),
        2 => { let p = ["a", "b", "c", "d", "e"]; if kind % 2 == 0 { p[i] } else { p[4 - i] }.to_string() }
        3 => pool(["u", "u_", "u__", "_u", "_u_"]),
        4 => pool(["aa", "Aa", "aA", "AA", "aaa"]),
        5 => pool(["1", "01", "10", "11", "0"]),
        6 => format!("{}{}", name_of(60 + kind, 1, kind), i),
        7 => format!("{}name", ["x", "y", "z", "X", "_"][i]),
        8 => pool(["vax", "vbx", "vcx", "vAx", "v-x"]),
        9 => pool(["\u{e9}", "e\u{301}", "\u{c9}", "\u{451}", "e"]),
        10 => pool(["a", "a.", "a-", "a+", "a a"]),
        _ => format!("{}{}", ["time", "time_bnds", "lat", "lat_bnds", "lon"][i], ["", "", "_attr", "_FillValue"][kind]),
    }
}
pub fn crossed_def(sh: usize, deco: usize, style: usize, sizing: usize, r: usize, text: bool) -> Def {
    let (nd, unlim, vars) = shape(sh);
    let size = |i: usize| match sizing { 0 => 1, 1 => 2, 2 => [2, 3, 5, 1, 7][i], 3 => r.max(1), _ => [4, 1, 3, 1, 2][i] };
    let val = |k: usize, j: usize| {
        let t = TYS[(k * 2 + j) % 6];
        let n = [1, 5, 2, 4][j] + k % 3;
        if text && t.size() == 1 { Val::new(t, [&b"degrees north"[..], b"kelvin", b"LATITUDE", b"1.25", b"days since 1970-01-01 00:00", b"x\0", b"\xC3\xA9"][(style + j + k) % 7].iter().copied().cycle().skip(if style % 2 == 0 { j } else { 0 }).take(n + 2).collect()) } else { Val::pattern(t, n, k * 5 + j + 2) }
    };
    let mut x = Def::default();
    for i in 0..nd { let n = styled(style, 0, i); x = if unlim == Some(i) { x.unlim(&n, r) } else { x.dim(&n, size(i)) }; }
    let ng = match deco { 1 => 1, 2 => 2, 3 => 4, 6 => 3, _ => 0 };
    for j in 0..ng { x.attrs.push(attr(&styled(style, 2, j), val(j, j))); }
    let nv = vars.len();
    for (i, (t, dims)) in vars.into_iter().enumerate() {
        let na = match deco { 1 => 1, 2 => 2, 3 => 4, 4 => if i + 1 == nv { 3 } else { 0 }, 5 => if i == 0 { 3 } else { 0 }, _ => 0 };
        x.vars.push(Var { name: styled(style, 1, i), ty: t, dims, attrs: (0..na).map(|j| attr(&styled(style, 3, j), val(i + 1, j))).collect() });
    }
    x
}
pub fn crossed(i: u64) -> Option<Def> {
    let mut d = Digits(i);
    let (text, r, z, n, a, s) = (d.next(2) == 1, d.next(4), d.next(SIZINGS), d.next(NAMINGS), d.next(DECOS), d.next(SHAPES));
    let (nd, unlim, _) = shape(s);
    if unlim.is_none() && r > 0 || text && a == 0 || nd == 0 && z > 0 { return None; }
    Some(crossed_def(s, a, n, z, r, text))
}
/// The same with the sizes, the records and the values chosen by the rest (all of them occur with each shape).
pub fn crossed_small(i: u64) -> Def {
    let mut d = Digits(i);
    let (n, a, s) = (d.next(NAMINGS), d.next(DECOS), d.next(SHAPES));
    crossed_def(s, a, n, (n + a) % SIZINGS, if shape(s).1.is_some() { [2, 3, 1][(n + 2 * a) % 3] } else { 0 }, (n + a) % 2 == 0)
}

/// Vectors covering bit patterns of each type.
pub fn bit_patterns(th: bool) -> Vec<Val> {
    let mut v = vec![];
    v.push(Val::new(Ty::I8, (0..=255u8).collect()));
    v.push(Val::new(Ty::U8, (0..=255u8).collect()));
    let all16: Vec<u8> = (0..=65535u16).flat_map(|x| x.to_be_bytes()).collect();
    for c in all16.chunks(8192) { v.push(Val::new(Ty::I16, c.to_vec())); }
    let mut p32: Vec<u32> = vec![0, 1, u32::MAX, 0x8000_0000, 0x7F80_0000, 0xFF80_0000, 0x7FC0_0000, 0xFFC0_0000, 0x7F80_0001, 0xFF80_0001, 0x7FA0_0000, 0x7FBF_FFFF, 0x7FFF_FFFF, 0xFFFF_FFFF, 0x0080_0000, 0x007F_FFFF, 0x7F7F_FFFF, 0x7CF0_0000, 0x8000_0001, 0x7FC1_2345, 0x7F81_2345, 0x3F80_0000, 0x3DCC_CCCD];
    for i in 0..32 { p32.push(1 << i); p32.push(!(1u32 << i)); for j in 0..i { p32.push(1 << i | 1 << j); } }
    for b in 0..4 { for x in 0..=255u32 { p32.push(x << (8 * b)); p32.push(0x7F80_0000 | x << (8 * b)); } }
    let raw: Vec<u8> = p32.iter().flat_map(|x| x.to_be_bytes()).collect();
    for c in raw.chunks(4096) { v.push(Val::new(Ty::I32, c.to_vec())); v.push(Val::new(Ty::F32, c.to_vec())); }
    let mut p64: Vec<u64> = vec![0, 1, u64::MAX, 1 << 63, 0x7FF0 << 48, 0xFFF0 << 48, 0x7FF8 << 48, 0xFFF8 << 48, 0x7FF0_0000_0000_0001, 0xFFF0_0000_0000_0001, 0x7FF4 << 48, 0x7FF7_FFFF_FFFF_FFFF, 0x0010 << 48, 0x000F_FFFF_FFFF_FFFF, 0x7FEF_FFFF_FFFF_FFFF, 0x479E_0000_0000_0000, 0x8000_0000_0000_0001, 0x3FF0 << 48, 0x3FB9_9999_9999_999A, 0x7FF8_0000_1234_5678];
    for i in 0..64 { p64.push(1 << i); p64.push(!(1u64 << i)); if th { for j in 0..i { p64.push(1 << i | 1 << j); } } }
    for b in 0..8 { for x in 0..=255u64 { p64.push(x << (8 * b)); p64.push(0x7FF0_0000_0000_0000 | x << (8 * b)); } }
    let raw: Vec<u8> = p64.iter().flat_map(|x| x.to_be_bytes()).collect();
    for c in raw.chunks(8192) { v.push(Val::new(Ty::F64, c.to_vec())); }
    v
}

pub fn perms(n: usize) -> Vec<Vec<usize>> {
    fn rec(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n { out.push(cur.clone()); return; }
        for i in 0..n { if !cur.contains(&i) { cur.push(i); rec(cur, n, out); cur.pop(); } }
    }
    let mut o = vec![]; rec(&mut vec![], n, &mut o); o
}
/// All ordered selections of 0..=n distinct elements of 0..n.
pub fn perms_upto(n: usize) -> Vec<Vec<usize>> {
    fn rec(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
        out.push(cur.clone());
        for i in 0..n { if !cur.contains(&i) { cur.push(i); rec(cur, n, out); cur.pop(); } }
    }
    let mut o = vec![]; rec(&mut vec![], n, &mut o); o
}
