#![allow(dead_code)]
//! Sets up a database with the schema of the models declared in this program.
use butane::db::{BackendConnection, Connection, ConnectionSpec};
use butane::migrations::{adb, Migration, MigrationsMut};
pub fn schema() -> adb::ADB {
    let root = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join(".butane/migrations");
    let mut m = butane::migrations::from_root(root);
    let db = m.current().db().unwrap();
    db
}
pub fn ddl(backend: &str) -> String {
    let b = butane::db::get_backend(backend).unwrap();
    b.create_migration_sql(&adb::ADB::new(), adb::diff(&adb::ADB::new(), &schema())).unwrap()
}
pub fn scratch(name: &str) -> String {
    format!("{}/{name}", std::env::var("DEMO_SCRATCH").unwrap())
}
pub fn sqlite() -> Connection {
    let c = butane::db::connect(&ConnectionSpec::new("sqlite", &scratch("demo.db"))).unwrap();
    c.execute(&ddl("sqlite")).unwrap();
    c
}
pub fn check(what: &str, ok: bool) {
    if !ok {
        eprintln!("FAILED: {what}");
        std::process::exit(1);
    }
}
