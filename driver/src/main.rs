#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let s = dump::dump_crate(tcx);
        let tmp = format!("{}.tmp", self.out);
        std::fs::write(&tmp, s).unwrap();
        std::fs::rename(&tmp, &self.out).unwrap();
        Compilation::Stop
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER protocol: argv[1] is the real rustc.
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let out = std::env::var("MIRDUMP_OUT").ok();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_target = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == want)
        && !args.iter().any(|a| a == "--print" || a.starts_with("--print="));
    if let (Some(out), true) = (out, is_target) {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Coverflow-checks=on".into());
        let da = std::env::var("MIRDUMP_DEBUG_ASSERTIONS").unwrap_or("off".into());
        args.push(format!("-Cdebug-assertions={}", da));
        args.push("-Coverflow-checks=on".into());
        args.push("-Awarnings".into());
        args.push("--cap-lints=allow".into());
        let mut cb = Cb { out };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct N;
        impl Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
