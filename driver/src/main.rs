//! Fact extractor: runs as RUSTC_WORKSPACE_WRAPPER and dumps the resolved program
//! (types, signatures, trait-solver answers, layouts, instantiated MIR) as JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod body;
mod items;
mod json;
mod tys;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;
use std::process::exit;

struct Cb {
    out: String,
    with_bodies: bool,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut top = json::Obj::new();
        rustc_middle::ty::print::with_no_trimmed_paths!({
            top.put("krate", json::s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()));
            items::dump(tcx, &mut top);
            if self.with_bodies {
                body::dump(tcx, &mut top);
            }
        });
        std::fs::write(&self.out, top.done().to_string()).expect("write facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // workspace wrapper: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_target = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && Some(&w[1]) == std::env::var("FACTS_CRATE").ok().as_ref())
        && !args.iter().any(|a| a == "--test");
    let code = rustc_driver::catch_with_exit_code(|| {
        if is_target {
            let mut cb = Cb {
                out: std::env::var("FACTS_OUT").expect("FACTS_OUT"),
                with_bodies: std::env::var("FACTS_BODIES").map(|v| v != "0").unwrap_or(true),
            };
            rustc_driver::compiler_entrypoint(&args, &mut cb);
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    });
    let _ = code;
    exit(if format!("{:?}", code).contains("(0)") || format!("{:?}", code).contains("unix_exit_status(0)") { 0 } else { 1 });
}
