pub mod cli;
pub mod codec_checks;
pub mod cost;
pub mod decode;
pub mod api;
pub mod evolution;
pub mod front;
pub mod imports;
pub mod io;
pub mod naming;
pub mod portable;
pub mod pure;
pub mod runtime;
pub mod sanitize;
pub mod semantic;
pub mod syntax;

use crate::{report::Report, typical::Typical};
use std::path::Path;

pub fn run(prop: &str, tier: &str, seed: u64, root: &Path) -> i32 {
    let mut rep = Report::new(prop, tier, seed, root);
    let typ = match Typical::build(root) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot build the compiler: {e}");
            return 2;
        }
    };
    if crate::util::contained() {
        rep.count("compiler contained by an unprivileged user", 1);
    }
    rep.rule = rule(prop).to_owned();
    if prop == "C19" {
        rep.level = "fault_enumeration";
    }
    if ["C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"].contains(&prop) {
        crate::util::fast_mode();
    }
    match prop {
        "C01" | "C02" | "C03" => codec_checks::run_codec(&rep, &typ, prop),
        "C04" => evolution::run(&rep, &typ),
        "C05" => decode::c05(&rep, &typ),
        "C06" => decode::c06(&rep, &typ),
        "C07" => io::run(&rep, &typ),
        "C08" => sanitize::run(&rep, &typ),
        "C09" => api::c09(&rep, &typ),
        "C10" => api::c10(&rep, &typ),
        "C11" => front::c11(&rep, &typ),
        "C12" => front::c12_c14(&rep, &typ, false),
        "C13" => front::c13(&rep, &typ),
        "C14" => front::c12_c14(&rep, &typ, true),
        "C15" => syntax::c15(&rep, &typ),
        "C18" => imports::c18(&rep, &typ),
        "C19" => cli::c19(&rep, &typ),
        "C20" => naming::c20(&rep, &typ),
        "C21" => portable::run_check(&rep, &typ),
        "C22" => pure::run(&rep, &typ),
        "C23" => cost::run(&rep, &typ),
        "C16" => semantic::c16_c17(&rep, &typ, false),
        "C17" => semantic::c16_c17(&rep, &typ, true),
        _ => {
            eprintln!("unknown property {prop}");
            return 2;
        }
    }
    rep.finish()
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" | "C02" | "C03" => "an evaluation is one random message of a random schema; non-trivial and distinct by its encoding, if longer than two bytes",
        "C04" => "an evaluation is one message written with one version of a random schema and read with another; distinct by its bytes and the pair of versions",
        "C05" => "an evaluation is one well-formed message of a random schema, decoded; non-trivial if it has unknown fields, non-minimal representations or lacks something mandatory; distinct by its bytes",
        "C06" => "an evaluation is one byte string given to a decoder of a random schema; distinct by the bytes",
        "C07" => "an evaluation is one serialization or deserialization through an instrumented writer or reader; distinct by message, chunking and fault position",
        "C08" => "an evaluation is one message written or byte string read under a sanitizer or interpreter; distinct by the bytes",
        "C09" => "an evaluation is one random schema whose output is compiled together with code using all of its API; distinct by the output",
        "C10" => "an evaluation is one random schema whose output is type-checked together with right and wrong uses of its API; distinct by the output",
        "C11" => "an evaluation is one random schema, respelled, generated under other circumstances and changed in meaning; distinct by its output",
        "C12" => "an evaluation is one random schema formatted, read back by the reference parser and generated again; distinct by its text",
        "C13" => "an evaluation is one random schema formatted in several spellings and states; distinct by its text",
        "C14" => "an evaluation is one random schema with comments formatted and read back by the reference parser; distinct by its text",
        "C15" => "an evaluation is one file given to the compiler and the formatter and to the reference front end; distinct by its bytes, if longer than ten bytes or rejected",
        "C16" => "an evaluation is one program of several files, changed at random, judged by the compiler and by the reference validator; distinct by its text",
        "C17" => "an evaluation is one program of several files, changed at random, whose report is compared with the problems found by the reference validator; distinct by its text",
        "C18" => "an evaluation is one directory tree with links and schemas that import each other by random spellings; distinct by the tree",
        "C19" => "an evaluation is one run of the compiler in one prior state of the file system with at most one failing call (or all calls of one kind failing), judged by exit status, report and what changed on disk; distinct by the program it was given",
        "C20" => "an evaluation is one program whose names are respelled at every occurrence, or one pair of names placed side by side; distinct by its text",
        "C21" => "an evaluation is one message or byte string of a random schema given to the generated code on several platforms; distinct by its bytes",
        "C22" => "an evaluation is one message written or byte string read within a session of many interleaved, nested or concurrent ones; distinct by its bytes",
        "C23" => "an evaluation is one message or byte string whose handling is measured, or one pair of messages of which one is sixteen times as large; distinct by its bytes",
        _ => "",
    }
}
