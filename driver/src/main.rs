#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}

type S<T> = rustc_data_structures::steal::Steal<T>;
type Prov = for<'tcx> fn(
    TyCtxt<'tcx>,
    rustc_span::def_id::LocalDefId,
) -> (&'tcx S<rustc_middle::mir::Body<'tcx>>, &'tcx S<rustc_index::IndexVec<rustc_middle::mir::Promoted, rustc_middle::mir::Body<'tcx>>>);
static ORIG: std::sync::OnceLock<Prov> = std::sync::OnceLock::new();

/// Keeps coroutine bodies as they are before the state transform (awaits are still yields).
fn stash<'tcx>(
    tcx: TyCtxt<'tcx>,
    d: rustc_span::def_id::LocalDefId,
) -> (&'tcx S<rustc_middle::mir::Body<'tcx>>, &'tcx S<rustc_index::IndexVec<rustc_middle::mir::Promoted, rustc_middle::mir::Body<'tcx>>>) {
    let r = (ORIG.get().unwrap())(tcx, d);
    if tcx.is_coroutine(d.to_def_id()) {
        let b: Box<rustc_middle::mir::Body<'tcx>> = Box::new(r.0.borrow().clone());
        dump::STASH.lock().unwrap().insert(d.local_def_index.as_usize(), Box::into_raw(b) as usize);
    }
    r
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_promoted);
            p.queries.mir_promoted = stash;
        });
    }

    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let j = dump::dump_crate(tcx);
        let mut st = String::new();
        j.write(&mut st);
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, st).expect("write dump");
        std::fs::rename(&tmp, &self.out).expect("rename dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    if crate_name == want && !out.is_empty() && !is_test {
        let mut cb = Cb { out };
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
    } else {
        struct N;
        impl Callbacks for N {}
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut N))
    }
}
