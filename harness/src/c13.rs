//! C13: the file and in-memory migration stores agree and convert losslessly.
use crate::backends::*;
use crate::engine::*;
use butane::migrations::adb::{ARef, AColumn, ATable, DeferredSqlType, TypeIdentifier, TypeKey, ADB};
use butane::migrations::{copy_migration, FsMigrations, MemMigrations, Migration, MigrationMut, Migrations, MigrationsMut};
use butane::{SqlType, SqlVal};
use std::collections::BTreeMap;
use std::path::Path;

pub const RULE: &str = "breadth-first search over every history, up to the stated depth, of recording tables (keys of two types, references declared before or after their target, custom types, aliases, link tables, awkward names and texts) and types, deleting a table, clearing what is recorded, creating a migration from the latest or from the first one, detaching, and deleting all migrations, executed on a store in memory, a store on disk and a disk store re-opened before every step; after the last operation every observable answer of the three is compared (recorded schema, chain, latest, every migration ever created with its predecessor, schema and SQL, migrations since each, detached ones), every migration is compared with what it was when created, and the chain is copied between the stores and through text in every direction and compared again; states = distinct contents of the stores, transitions = operations, non-trivial = histories that end with at least one migration";

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Table(u8),
    Type(u8),
    DelTable(u8),
    ClearCurrent,
    Create,
    CreateFromFirst,
    Detach,
    DeleteAll,
}
use Op::*;
pub fn ty(t: SqlType) -> DeferredSqlType {
    DeferredSqlType::KnownId(TypeIdentifier::Ty(t))
}
fn acol(n: &str, t: DeferredSqlType, pk: bool, nullable: bool, default: Option<SqlVal>, r: Option<ARef>) -> AColumn {
    AColumn::new(n, t, nullable, pk, false, false, default, r)
}
pub fn table(k: u8) -> ATable {
    let mk = |n: &str, cs: Vec<AColumn>| {
        let mut t = ATable::new(n.into());
        cs.into_iter().for_each(|c| t.add_column(c));
        t
    };
    let def = |n: &str| DeferredSqlType::Deferred(TypeKey::PK(n.into()));
    match k {
        0 => mk("A", vec![acol("id", ty(SqlType::Int), true, false, None, None), acol("x", ty(SqlType::Int), false, false, None, None)]),
        1 => mk("A", vec![acol("k", ty(SqlType::Text), true, false, None, None), acol("x", ty(SqlType::Text), false, false, Some(SqlVal::Text("it's \"#\\ ü\n".into())), None)]),
        2 => mk("B", vec![acol("id", ty(SqlType::BigInt), true, false, None, None), acol("a", def("A"), false, true, None, Some(ARef::Deferred(def("A")))), acol("c", DeferredSqlType::Deferred(TypeKey::CustomType("Col".into())), false, false, None, None)]),
        3 => mk("B", vec![acol("id", ty(SqlType::BigInt), true, false, None, None)]),
        4 => butane::migrations::adb::create_many_table("A", "bs", def("B"), "id", ty(SqlType::Int)),
        _ => mk("s p.ace", vec![acol("id", ty(SqlType::Int), true, false, None, None), acol("r", def("Alias"), false, true, None, Some(ARef::Deferred(def("Alias"))))]),
    }
}
pub fn typ(k: u8) -> (TypeKey, DeferredSqlType) {
    match k {
        0 => (TypeKey::CustomType("Col".into()), ty(SqlType::Int)),
        1 => (TypeKey::CustomType("Col".into()), ty(SqlType::Text)),
        _ => (TypeKey::PK("Alias".into()), DeferredSqlType::Deferred(TypeKey::PK("A".into()))),
    }
}
const TABLES: [&str; 4] = ["A", "B", "A_bs_Many", "s p.ace"];
const NAMES: [&str; 6] = ["m", "m2", "b\"#a'ü", "m10", "z", "zz"];
pub fn tables_json(a: &ADB) -> String {
    let mut m: BTreeMap<String, serde_json::Value> = BTreeMap::new();
    for t in a.tables() {
        m.insert(t.name.clone(), serde_json::to_value(t).unwrap());
    }
    serde_json::to_string(&m).unwrap()
}
fn types_json(a: &ADB) -> String {
    format!("{:?}", a.types())
}
type Res = Result<String, String>;
fn apply<M: MigrationsMut>(ms: &mut M, op: Op, next: &str) -> Res
where
    M::M: MigrationMut,
{
    let e = |e: butane::Error| crate::c09::estr(e);
    match op {
        Table(k) => ms.current().add_modified_table(&table(k)).map_err(e).map(|_| String::new()),
        Type(k) => {
            let (a, b) = typ(k);
            ms.current().add_type(a, b).map_err(e).map(|_| String::new())
        }
        DelTable(k) => ms.current().delete_table(TABLES[k as usize]).map_err(e).map(|_| String::new()),
        ClearCurrent => ms.clear_current().map_err(e).map(|_| String::new()),
        Create | CreateFromFirst => {
            let from = match op {
                Create => ms.latest(),
                _ => ms.all_migrations().map_err(e)?.into_iter().next(),
            };
            let bs = nonempty::nonempty![Be::Sq.backend(), Be::Pg.backend(), Be::Tu.backend()];
            ms.create_migration(&bs, next, from.as_ref()).map_err(e).map(|b| b.to_string())
        }
        DeleteAll => ms.delete_migrations().map_err(e).map(|_| String::new()),
        Detach => unreachable!(),
    }
}
fn mig(m: &impl Migration) -> Vec<String> {
    let s = |e: butane::Error| format!("error {}", crate::c09::estr(e));
    let mut v = vec![
        m.name().to_string(),
        format!("from {:?}", m.migration_from().map_err(s)),
        match m.db() {
            Ok(d) => tables_json(&d),
            Err(e) => s(e),
        },
        match m.sql_backends() {
            Ok(mut b) => {
                b.sort();
                format!("{b:?}")
            }
            Err(e) => s(e),
        },
    ];
    for b in ["sqlite", "pg", "turso", "other"] {
        let n = |r: butane::Result<Option<String>>| r.map(|o| o.map(|t| t.trim_end_matches('\n').to_string())).map_err(s);
        v.push(format!("{b} up {:?} down {:?}", n(m.up_sql(b)), n(m.down_sql(b))));
    }
    v
}
/// Every answer a store gives.
fn look<M: MigrationsMut>(ms: &mut M, names: &[String]) -> Vec<String>
where
    M::M: MigrationMut,
{
    let list = |r: butane::Result<Vec<M::M>>| match r {
        Ok(v) => format!("{:?}", v.iter().map(|m| m.name().to_string()).collect::<Vec<_>>()),
        Err(_) => "error".to_string(),
    };
    let mut v = vec![
        match ms.current().db() {
            Ok(d) => format!("current {} {}", tables_json(&d), types_json(&d)),
            Err(_) => "current unresolvable".to_string(),
        },
        format!("latest {:?}", ms.latest().map(|m| m.name().to_string())),
        format!("all {}", list(ms.all_migrations())),
    ];
    for n in names {
        match ms.get_migration(n) {
            None => v.push(format!("{n} none")),
            Some(m) => {
                v.extend(mig(&m));
                v.push(format!("since {n} {}", list(ms.migrations_since(&m))));
            }
        }
    }
    v
}
fn copy_all<A: Migrations, B: MigrationsMut>(a: &A, b: &mut B) -> Result<(), String>
where
    B::M: MigrationMut,
{
    for m in a.all_migrations().map_err(crate::c09::estr)? {
        let mut n = b.new_migration(&m.name());
        copy_migration(&m, &mut n).map_err(crate::c09::estr)?;
        b.add_migration(n).map_err(crate::c09::estr)?;
    }
    Ok(())
}
fn chain<M: Migrations>(m: &M) -> Vec<Vec<String>> {
    match m.all_migrations() {
        Ok(v) => v.iter().map(mig).collect(),
        Err(e) => vec![vec![crate::c09::estr(e)]],
    }
}
pub fn dir_text(p: &Path) -> Vec<(String, Vec<u8>)> {
    let mut v = Vec::new();
    if let Ok(r) = std::fs::read_dir(p) {
        for e in r.flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            if e.path().is_dir() {
                v.push((format!("{n}/"), vec![]));
                v.extend(dir_text(&e.path()).into_iter().map(|(x, b)| (format!("{n}/{x}"), b)));
            } else if n != "lock" {
                v.push((n, std::fs::read(e.path()).unwrap_or_default()));
            }
        }
    }
    v.sort();
    v
}
fn history(dir: &Path, ops: &[Op], h: &[usize]) -> Result<Option<(u64, usize)>, String> {
    let (da, db, dc) = (dir.join("a"), dir.join("b"), dir.join("c"));
    for d in [&da, &db, &dc] {
        let _ = std::fs::remove_dir_all(d);
        std::fs::create_dir_all(d).expect("ENGINE: scratch");
    }
    let mut mem = Some(MemMigrations::new());
    let mut fs = butane::migrations::from_root(&da);
    let mut names: Vec<String> = Vec::new();
    let mut born: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut order: Vec<String> = Vec::new(); // the chain
    for (i, o) in h.iter().enumerate() {
        let op = ops[*o];
        let mut re = butane::migrations::from_root(&db);
        let next = NAMES[names.len().min(NAMES.len() - 1)];
        if matches!(op, Create | CreateFromFirst) && names.len() == NAMES.len() || op == CreateFromFirst && order.len() < 2 {
            return Ok(None);
        }
        let files = |d: &Path| dir_text(d).into_iter().filter(|f| !f.0.ends_with('/')).collect::<Vec<_>>();
        let before = files(&da);
        if op == Detach {
            let (a, b) = (fs.detach_latest_migration(), re.detach_latest_migration());
            if a.is_ok() != b.is_ok() || a.is_ok() != (order.len() > 1) {
                return Err(format!("step {i} detaching gives {a:?} and {b:?} with the chain {order:?}"));
            }
            if a.is_err() {
                return Ok(None);
            }
            order.pop();
            mem = None;
            continue;
        }
        let a = apply(&mut fs, op, next);
        let b = apply(&mut re, op, next);
        if a.is_ok() != b.is_ok() || a.is_ok() && a != b {
            return Err(format!("step {i} {op:?}: the open disk store answers {a:?}, the re-opened one {b:?}"));
        }
        if let Some(m) = &mut mem {
            let c = apply(m, op, next);
            // removing what is not there may be refused or ignored
            let removal = matches!(op, DelTable(_) | ClearCurrent | DeleteAll);
            if (a.is_ok() != c.is_ok() || a.is_ok() && a != c) && !(removal && files(&da) == before) {
                return Err(format!("step {i} {op:?}: the disk store answers {a:?}, the one in memory {c:?}"));
            }
        }
        if matches!(op, Create | CreateFromFirst) && a == Ok("true".into()) {
            names.push(next.to_string());
            if op == Create {
                order.push(next.to_string());
            }
            let m = fs.get_migration(next).ok_or(format!("step {i}: the created migration is not there"))?;
            born.insert(next.to_string(), mig(&m));
            let d = fs.current().db().map_err(crate::c09::estr)?;
            if m.db().map(|d| tables_json(&d)).map_err(crate::c09::estr)? != tables_json(&d) {
                return Err(format!("step {i}: the created migration's schema is not the recorded one"));
            }
            if let Some(f) = order.first().filter(|_| op == CreateFromFirst) {
                if m.migration_from().ok().flatten().as_deref() != Some(f.as_str()) {
                    return Err(format!("step {i}: created from {f} but is from {:?}", m.migration_from()));
                }
            }
        }
        if op == DeleteAll {
            names.clear();
            order.clear();
            born.clear();
        }
    }
    let x = look(&mut fs, &names);
    let mut re = butane::migrations::from_root(&db);
    let y = look(&mut re, &names);
    let diff = |x: &[String], y: &[String]| x.iter().zip(y).find(|(a, b)| a != b).map(|(a, b)| format!("\n    {a}\n  and\n    {b}")).unwrap_or_default();
    if x != y {
        return Err(format!("the open and the re-opened disk store differ:{}", diff(&x, &y)));
    }
    if let Some(m) = &mut mem {
        let z = look(m, &names);
        if x != z {
            return Err(format!("the disk store and the one in memory differ:{}", diff(&x, &z)));
        }
    }
    let all: Vec<String> = fs.all_migrations().map_err(crate::c09::estr)?.iter().map(|m| m.name().to_string()).collect();
    if all != order {
        return Err(format!("the chain is {all:?} instead of {order:?}"));
    }
    for (n, b) in &born {
        let now = fs.get_migration(n).map(|m| mig(&m)).unwrap_or_default();
        if &now != b {
            return Err(format!("migration {n} is no longer what it was when created:{}", diff(b, &now)));
        }
    }
    let mut det: Vec<String> = match fs.detached_migration_paths() {
        Ok(v) => v.iter().map(|p| Path::new(p).file_name().unwrap().to_string_lossy().to_string()).collect(),
        Err(e) => return Err(format!("detached_migration_paths: {}", crate::c09::estr(e))),
    };
    det.sort();
    let mut exp: Vec<String> = names.iter().filter(|n| !order.contains(n)).cloned().collect();
    exp.sort();
    if det != exp {
        return Err(format!("detached are {det:?} instead of {exp:?}"));
    }
    // copies
    if !order.is_empty() {
        let want = chain(&fs);
        let mut m1 = MemMigrations::new();
        copy_all(&fs, &mut m1).map_err(|e| format!("copying from disk to memory: {e}"))?;
        let text = serde_json::to_string(&m1).map_err(|e| e.to_string())?;
        let m2 = MemMigrations::from_json(&text).map_err(|e| format!("reading the embedded text: {e}"))?;
        let mut f2 = butane::migrations::from_root(&dc);
        copy_all(&m2, &mut f2).map_err(|e| format!("copying from memory to disk: {e}"))?;
        let mut m3 = MemMigrations::new();
        copy_all(&m1, &mut m3).map_err(|e| format!("copying in memory: {e}"))?;
        for (k, got) in [("disk to memory", chain(&m1)), ("memory to text and back", chain(&m2)), ("memory to disk", chain(&f2)), ("memory to memory", chain(&m3))] {
            if got != want {
                let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
                return Err(format!("copy from {k} differs:{}", diff(got.get(i).unwrap_or(&vec![]), want.get(i).unwrap_or(&vec![]))));
            }
        }
    }
    let memt = mem.as_ref().map(|m| serde_json::to_string(m).unwrap());
    Ok(Some((hash64(&(dir_text(&da), memt)), order.len())))
}
pub fn run(ctx: &Ctx) {
    ctx.assume("new migrations get names not used before and other than the reserved `current`; deleting what is not there may be refused or ignored; a trailing newline of stored SQL is insignificant; the in-memory store has no detach, so histories with one compare the two disk stores and the model");
    let mut ops: Vec<Op> = (0..6).map(Table).collect();
    ops.extend((0..3).map(Type));
    ops.extend([Create, CreateFromFirst, Detach, DelTable(0), DelTable(1), ClearCurrent, DeleteAll]);
    let depth = if ctx.thorough { 7 } else { 6 };
    ctx.bound("depth", depth as u64);
    bfs(ctx, "stores", &ops, depth, |_| scratch(), |dir, h| {
        match catch(|| history(dir.path(), &ops, h)) {
            Ok(Ok(Some((k, n)))) => {
                if n > 0 {
                    ctx.nontriv();
                }
                ctx.outcome(format!("chain of {n}"));
                Some(k)
            }
            Ok(Ok(None)) => None,
            e => {
                let e = match e {
                    Ok(Err(e)) => e,
                    Err(e) => format!("panic: {e}"),
                    _ => unreachable!(),
                };
                let list: Vec<Op> = h.iter().map(|i| ops[*i]).collect();
                ctx.violation(&format!("{list:?}"), format!("{e}\nhistory {list:?}"));
                None
            }
        }
    });
    let _: Option<FsMigrations> = None;
}
