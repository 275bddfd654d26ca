//! rustc driver that dumps the resolved, monomorphised MIR reachable from a crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: for crates named in MOLLDUMP_CRATES the analysis callback
//! runs after type checking and writes `$MOLLDUMP_OUT/<crate>.json`; every other crate is
//! compiled unchanged.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Dump {
    out: String,
}

impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump::dump_crate(tcx, &self.out);
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As a wrapper we're invoked as `molldump /path/to/rustc <args>`.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    args[0] = "rustc".into();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let crates = std::env::var("MOLLDUMP_CRATES").unwrap_or_default();
    let out = std::env::var("MOLLDUMP_OUT").unwrap_or_default();
    let wanted = !out.is_empty()
        && crates.split(',').any(|c| c == name)
        && !args.iter().any(|a| a == "--print" || a.starts_with("--print="));
    rustc_driver::catch_with_exit_code(|| {
        if wanted {
            rustc_driver::compiler_entrypoint(&args, &mut Dump { out });
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    })
}
