#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_lexer;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate rustc_trait_selection;
mod checks;
mod dom;
mod effects;
mod interp;
mod json;
mod lower;
mod models;
mod spec;
mod fin;
mod sym;
use rustc_middle::ty::TyCtxt;
use std::ops::ControlFlow;

fn analyze(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    checks::run(tcx);
    ControlFlow::Break(())
}
/// Used in two ways: as RUSTC_WORKSPACE_WRAPPER it records the compiler command line of the
/// library crate; started with that command line and NTRU_JOB it analyses the crate.
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let rargs: Vec<String> = args[1..].to_vec();
    let lib = rargs.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "ntrust_native");
    if std::env::var("NTRU_JOB").is_err() || !lib {
        if lib {
            if let Ok(f) = std::env::var("NTRU_RECORD") {
                let env: Vec<(String, json::J)> = std::env::vars().filter(|(k, _)| k.starts_with("CARGO") || k == "OUT_DIR").map(|(k, v)| (k, json::J::S(v))).collect();
                let j = json::J::O(vec![("args".into(), json::J::strs(&rargs)), ("env".into(), json::J::O(env)), ("cwd".into(), json::J::s(&std::env::current_dir().unwrap().to_string_lossy()))]);
                std::fs::write(f, j.show()).unwrap();
            }
        }
        let st = std::process::Command::new(&rargs[0]).args(&rargs[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || match rustc_public::run_with_tcx!(&rargs, analyze) { Ok(_) | Err(rustc_public::CompilerError::Interrupted(_)) => 0, Err(_) => 1 }).unwrap();
    std::process::exit(h.join().unwrap_or(101));
}
