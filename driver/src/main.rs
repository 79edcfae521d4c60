// figfacts: a rustc driver that dumps the type-checked program (MIR, types,
// resolved callees, attributes) of the crate `figment` as JSON facts.
#![feature(rustc_private)]
#![allow(rustc::internal, clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate rustc_infer;
extern crate rustc_type_ir;

mod json;
mod dump;

use rustc_driver::Compilation;
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb { out: String }

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let j = dump::dump(tcx);
        let tmp = format!("{}.tmp", self.out);
        std::fs::write(&tmp, j).expect("write facts");
        std::fs::rename(&tmp, &self.out).expect("rename facts");
        Compilation::Continue
    }
}

fn main() {
    // RUSTC_WRAPPER protocol: argv[1] is the real rustc.
    let args: Vec<String> = std::env::args().collect();
    let mut rustc_args: Vec<String> = args[1..].to_vec();
    let crate_name = rustc_args.iter().position(|a| a == "--crate-name")
        .and_then(|i| rustc_args.get(i + 1)).cloned().unwrap_or_default();
    let target = std::env::var("FIGFACTS_CRATE").unwrap_or_else(|_| "figment".into());
    let out = std::env::var("FIGFACTS_OUT").unwrap_or_default();
    let is_build_script = rustc_args.iter().any(|a| a == "build_script_build");
    if crate_name == target && !out.is_empty() && !is_build_script {
        rustc_args[0] = "rustc".into();
        let mut cb = Cb { out };
        rustc_driver::compiler_entrypoint(&rustc_args, &mut cb);
    } else {
        let st = std::process::Command::new(&rustc_args[0]).args(&rustc_args[1..]).status()
            .expect("spawn rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
