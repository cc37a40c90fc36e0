#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod guard;
mod interp;
mod intrin;
mod lower;
mod mem;
mod props;
mod real;
mod report;
mod spec;
mod val;
mod witness;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;
use rustc_span::source_map::{FileLoader, RealFileLoader};
use std::path::{Path, PathBuf};
use std::sync::Arc;

struct Loader {
    repo: PathBuf,
    add: Vec<(String, String)>,
}
impl FileLoader for Loader {
    fn file_exists(&self, p: &Path) -> bool {
        p.exists()
    }
    fn read_file(&self, p: &Path) -> std::io::Result<String> {
        let mut s = RealFileLoader.read_file(p)?;
        let abs = if p.is_absolute() { p.to_path_buf() } else { std::env::current_dir()?.join(p) };
        if let Ok(rel) = abs.strip_prefix(&self.repo) {
            for (f, t) in &self.add {
                if Path::new(f) == rel {
                    s.push_str(t);
                }
            }
        }
        Ok(s)
    }
    fn read_binary_file(&self, p: &Path) -> std::io::Result<Arc<[u8]>> {
        RealFileLoader.read_binary_file(p)
    }
    fn current_directory(&self) -> std::io::Result<PathBuf> {
        std::env::current_dir()
    }
}

struct Cb {
    job: props::Job,
    out: report::Report,
    ran: bool,
}

impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.file_loader = Some(Box::new(Loader { repo: self.job.repo.clone(), add: props::harness(&self.job) }));
    }
    fn after_analysis<'tcx>(&mut self, _: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        self.ran = true;
        props::run(tcx, &self.job, &mut self.out);
        Compilation::Stop
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // cargo wrapper: remember how the crate is compiled
    if args.len() > 1 && args[1].ends_with("rustc") {
        let mut crate_name = "";
        for i in 2..args.len() {
            if args[i] == "--crate-name" {
                crate_name = &args[i + 1];
            }
        }
        if crate_name == "rqrr" {
            let f = std::env::var("QRAI_RECORD").expect("QRAI_RECORD");
            std::fs::write(f, args[1..].join("\n")).unwrap();
        }
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&args[1]).args(&args[2..]).exec();
        panic!("{e}");
    }
    let job = props::Job::parse(&args[1..]);
    let rec = std::fs::read_to_string(&job.args).expect("recorded arguments");
    let mut rargs: Vec<String> = vec!["rustc".into()];
    let mut skip = false;
    for a in rec.lines().skip(1) {
        if skip {
            skip = false;
            continue;
        }
        if a == "-C" || a.starts_with("--error-format") || a.starts_with("--json") || a == "--out-dir" || a.starts_with("--diagnostic-width") {
            if a == "-C" || a == "--out-dir" {
                skip = true;
            }
            continue;
        }
        if a.starts_with("--emit") || a.starts_with("-Cincremental") || a.starts_with("-Cmetadata") {
            continue;
        }
        rargs.push(a.to_string());
    }
    for a in ["--emit=metadata", "--cap-lints=allow", "-Zalways-encode-mir", "-Cdebug-assertions=on", "-Coverflow-checks=on", "-Cpanic=abort", "-Zmir-opt-level=1"] {
        rargs.push(a.into());
    }
    rargs.push("--out-dir".into());
    rargs.push(job.tmp.clone());
    std::env::set_current_dir(&job.repo).unwrap();
    let out_path = job.out.clone();
    let _ = report::OUT.set(std::path::absolute(&out_path).unwrap().to_str().unwrap().to_string());
    let mut cb = Cb { job, out: report::Report::default(), ran: false };
    // deep recursion in layout/normalisation is fine on a big stack
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&rargs, &mut cb));
    if !cb.ran {
        cb.out.undecided("the crate (with the analysis entry points) does not type-check");
    }
    let _ = code;
    std::fs::write(out_path, cb.out.json()).unwrap();
}
