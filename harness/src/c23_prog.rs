//! The program of C23: models with every name; prints what came of everything done with them.
#![allow(dead_code, non_camel_case_types, non_snake_case, non_upper_case_globals, unused_imports, uncommon_codepoints, mixed_script_confusables, confusable_idents)]
#[path = "HARNESS/src/backends.rs"]
mod backends;
#[path = "HARNESS/src/engine.rs"]
mod engine;
#[path = "HARNESS/src/host.rs"]
mod host;
mod names;
use backends::*;
use butane::db::Connection;

pub type Out = Vec<String>;
pub fn note<T: std::fmt::Debug>(what: &str, r: butane::Result<T>, out: &mut Out) {
    out.push(match r {
        Ok(v) => format!("{what}: {v:?}"),
        Err(e) => format!("{what}: failed: {e}"),
    });
}
pub fn checks() -> Vec<host::Check> {
    vec![]
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cfg = *ALL.iter().find(|c| format!("{c:?}") == args[1]).expect("ENGINE cfg");
    std::panic::set_hook(Box::new(|_| {}));
    let all = names::all();
    let mut db: Option<Db> = None;
    for (i, (n, f)) in all.iter().enumerate() {
        let mut reset = true;
        if cfg.be() != Be::Pg || db.is_none() {
            db = Some(Db::new(cfg.be(), false));
            reset = false;
        }
        let mut out = vec![];
        let r = engine::catch(|| {
            let Any::S(mut c) = open(cfg, &db.as_ref().unwrap().conn_str).expect("ENGINE open") else { panic!("ENGINE") };
            use butane::db::{BackendConnection, ConnectionMethods};
            if reset {
                c.execute("DROP SCHEMA public CASCADE; CREATE SCHEMA public").expect("ENGINE reset");
            }
            let tables: Vec<String> = [n.to_string(), format!("x{i}"), format!("y{i}"), format!("z{i}"), format!("S{i}"), format!("q{i}"), format!("o{i}")].to_vec();
            let s = schema(&tables.iter().map(|s| s.as_str()).collect::<Vec<_>>());
            note("create", c.execute(&ddl(cfg.be(), &s)), &mut out);
            f(&mut c, &mut out);
        });
        if let Err(m) = r {
            out.push(format!("panic: {m}"));
        }
        for l in out {
            println!("{n}\t{}", l.replace('\n', " "));
        }
    }
    backends::shutdown();
    std::process::exit(0);
}
