#![allow(unused_unsafe, unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod annos;
mod aql;
mod aqlcheck;
mod corpora;
mod crash;
mod conc;
mod cs;
mod descr;
mod diskmap;
mod evalcheck;
mod faultfs;
mod freq;
mod gml;
mod gs;
mod life;
mod lock;
mod model;
mod optimize;
mod parse;
mod persist;
mod regexes;
mod run;
mod sched;
mod subgr;
mod tokidx;
mod updates;
mod updlist;
use run::Run;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        eprintln!("usage: mc PROPERTY quick|thorough [--replay FILE]");
        std::process::exit(2);
    }
    let prop = args[0].clone();
    if prop == "--hold" {
        lock::holder(&args[1]);
    }
    let thorough = args.get(1).map(|s| s == "thorough").unwrap_or(false);
    let mut only = None;
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let txt = std::fs::read_to_string(&args[i + 1]).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&txt).expect("replay json");
        only = v["case"].as_str().map(|s| s.to_string());
    }
    let verif = std::path::PathBuf::from(std::env::var("MC_VERIF").unwrap_or("/verif".into()));
    if std::env::var("MC_CHILD").is_err() {
        // all temporary files of the library go to a scratch directory in memory
        let scratch = run::tmpdir("root");
        unsafe {
            std::env::set_var("TMPDIR", scratch.path());
        }
        let code = run::supervise(&prop, thorough, verif, scratch.path());
        drop(scratch);
        std::process::exit(code);
    }
    run::install_panic_hook();
    faultfs::fake_memory_usage(&run::scratch(), 1_000_000);
    let run: &'static Run = Box::leak({
        let mut r = Run::new(&prop, thorough, verif, only);
        r.resume();
        Box::new(r)
    });
    run.watchdog();
    match prop.as_str() {
        "C01" => updates::check(run),
        "C02" => crash::check(run),
        "C03" => persist::check(run),
        "C04" => gs::check(run),
        "C05" => optimize::check(run),
        "C06" => annos::check(run),
        "C07" => diskmap::check(run),
        "C08" => updlist::check(run),
        "C09" => aqlcheck::check(run),
        "C10" => evalcheck::check_eval(run),
        "C11" => evalcheck::check_paging(run),
        "C12" => subgr::check(run),
        "C13" => freq::check(run),
        "C14" => conc::check(run),
        "C15" => life::check(run),
        "C16" => gml::check(run),
        "C17" => parse::check(run),
        "C20" => corpora::check(run),
        "C23" => lock::check(run),
        "C25" => descr::check(run),
        "C18" => tokidx::check(run),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
    std::process::exit(run.finish());
}
