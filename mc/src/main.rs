//! mc: bounded exhaustive exploration of the real netcdf3 library against a reference model.
#[macro_use]
mod bind;
mod model;
mod runner;
mod ioshim;
mod spaces;
mod hist;
mod c_def;
mod c_write;
mod c_read;
mod c_bytes;
mod c_edit;
mod c_names;
mod c_misuse;
mod c_fault;
mod c_sizes;
mod c_files;
mod c_inter;
mod c_env;
mod c_eq;
mod c_res;
mod c_err;

use runner::*;

pub fn families(id: &str, t: Tier) -> Vec<Family> {
    match id {
        "C01" => c_def::families(t),
        "C02" => c_write::families(t, c_write::Mode::C02),
        "C03" => c_write::families(t, c_write::Mode::C03),
        "C04" => { let mut f = c_def::families_c04(t); f.extend(c_write::families(t, c_write::Mode::C04).into_iter().map(|mut x| { x.name = format!("writes_{}", x.name); x })); f }
        "C05" => { let mut f = c_read::families_c05(t); f.extend(c_bytes::families_c05(t)); f }
        "C06" => c_bytes::families_c06(t),
        "C07" => c_bytes::families_c07(t),
        "C08" => c_edit::families(t),
        "C09" => c_names::families(t),
        "C10" => c_misuse::families(t),
        "C11" => c_fault::families_c11(t),
        "C12" => c_fault::families_c12(t),
        "C13" => c_read::families_c13(t),
        "C14" => c_sizes::families(t),
        "C15" => c_files::families_c15(t),
        "C16" => c_files::families_c16(t),
        "C17" => c_inter::families(t),
        "C18" => c_env::families(t),
        "C19" => c_eq::families(t),
        "C20" => c_res::families_c20(t),
        "C21" => c_res::families_c21(t),
        "C22" => c_err::families(t),
        _ => { eprintln!("unknown property {}", id); std::process::exit(2) }
    }
}

fn info(id: &str) -> CheckInfo {
    let ids = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"];
    let id = match ids.iter().find(|x| **x == id) { Some(x) => x, None => { eprintln!("unknown property {}", id); std::process::exit(2) } };
    let note = "every execution of every family is run (no sampling): an execution is one input, history, fault plan or interleaving of the family's finite space, run on the real library and compared with the reference model; states = distinct model states reached (hashed), transitions = library operations executed, traces = complete executions compared with the model".to_string();
    let mut a = vec![
        "the reference model (mc/src/model.rs) transcribes the NetCDF-3 file format specification correctly; it shares no code with the library".to_string(),
        "nothing is claimed outside the bound of each family (see coverage.families)".to_string(),
    ];
    match id {
        &"C04" | &"C05" => a.push("the special case of a single record variable whose record is not a multiple of 4 bytes is a known finding (record padding kept)".into()),
        &"C11" => a.push("faults are those of read/write/lseek (and their p/v variants); open and stat calls fail too when opening or reading; close does not fail".into()),
        &"C18" => a.push("the environment acts between system calls, on the path, the directories and links on the way, the working directory, or in place (append then count, cut)".into()),
        &"C12" => a.push("a process crash: the writes reach the file in the order they were issued (no reordering by the storage)".into()),
        _ => {}
    }
    CheckInfo { id, assumptions: a, note }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() { eprintln!("usage: mc <property> [--tier quick|thorough] [--only <family> <index>] [--family <family>] [--list]"); std::process::exit(2); }
    let id = args[0].clone();
    let mut tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    let (mut worker, mut only, mut list) = (None, None, false);
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => { tier = if args[i + 1] == "thorough" { Tier::Thorough } else { Tier::Quick }; i += 2; }
            "--worker" => { worker = Some(std::path::PathBuf::from(&args[i + 1])); i += 2; }
            "--only" => { only = Some((args[i + 1].clone(), args[i + 2].parse::<u64>().expect("index"))); i += 3; }
            "--family" => { only = Some((args[i + 1].clone(), u64::MAX)); i += 2; }
            "--list" => { list = true; i += 1; }
            x => { eprintln!("unknown argument {}", x); std::process::exit(2); }
        }
    }
    if list { for f in families(&id, tier) { println!("{:<28} {:>10}  {}", f.name, f.n, f.bound); } return; }
    if let Some(dir) = worker {
        let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16));
        runner::worker(families(&id, tier), &dir, only, threads);
        return;
    }
    let verif = std::env::var("MC_VERIF").map(std::path::PathBuf::from).unwrap_or_else(|_| std::path::PathBuf::from("/verif"));
    std::process::exit(supervise(&info(&id), tier, &verif, only));
}
