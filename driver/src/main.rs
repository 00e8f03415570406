//! `RUSTC_WRAPPER` that dumps the resolved, monomorphised MIR reachable from the
//! functions of one crate (SA_MONO), and HIR level facts of others (SA_FACTS).
//! Every other crate is compiled by the real rustc.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod facts;
mod json;
mod mono;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;
use std::process::Command;

struct Cb {
    name: String,
    mono: bool,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("SA_OUT").expect("SA_OUT");
        let mut text = String::new();
        if self.mono {
            mono::dump(tcx).write(&mut text);
        } else {
            facts::dump(tcx).write(&mut text);
        }
        let tmp = format!("{out}/{}.json.tmp{}", self.name, std::process::id());
        std::fs::write(&tmp, text).expect("write facts");
        std::fs::rename(&tmp, format!("{out}/{}.json", self.name)).expect("rename facts");
        Compilation::Continue
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let listed = |var: &str| {
        std::env::var(var)
            .unwrap_or_default()
            .split(',')
            .any(|x| !x.is_empty() && x == name)
    };
    let (mono, facts) = (listed("SA_MONO"), listed("SA_FACTS"));
    if !(mono || facts) {
        let status = Command::new(&args[1]).args(&args[2..]).status().expect("rustc");
        std::process::exit(status.code().unwrap_or(1));
    }
    let mut cb = Cb { name, mono };
    rustc_driver::compiler_entrypoint(&args[1..], &mut cb);
}
