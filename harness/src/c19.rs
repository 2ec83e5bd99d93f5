//! C19: type and reference resolution is independent of declaration order.
use crate::engine::*;
use butane::migrations::adb::{AColumn, ARef, ATable, DeferredSqlType, TypeIdentifier, TypeKey, ADB};
use butane::migrations::{MemMigrations, Migration, MigrationsMut};
use butane::SqlType;
use std::collections::BTreeMap;

pub const RULE: &str = "every schema of two tables (key column and optional second column; three tables with only keys; more deeply: three tables with both) whose columns have every type among two known ones, two custom types, a reference to each model and to a missing one, combined with every definition of the two custom types (missing, known, named, each other, themselves, a reference) and every naming of the models relative to the tables (own name, another name, swapped, each other's), resolved at once, twice, after serialisation, and table by table; and every such small program of model and type declarations put through the real macro code in every order, in memory and in files; every column and reference is compared with a recursive evaluation of the declarations; non-trivial = a schema in which a column's type has to be looked up";

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Ty {
    Int,
    Text,
    Ct(u8),
    /// Reference to the model of the table with the number, or to a missing model.
    Fk(u8),
}
const MISSING: u8 = 9;
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Def {
    Absent,
    Known,
    Name,
    Is(Ty),
}
#[derive(Clone, Debug, Hash)]
struct G {
    /// Key and second column of every table.
    tabs: Vec<(Ty, Option<Ty>)>,
    defs: [Def; 2],
    /// Name of the model of every table.
    structs: Vec<&'static str>,
    legacy: bool,
}
const TABLES: [&str; 3] = ["a", "b", "c"];
const CTS: [&str; 2] = ["T", "U"];

/// The right answer: the type a declaration leads to.
fn want(g: &G, t: Ty, seen: &mut Vec<Ty>) -> Option<TypeIdentifier> {
    if seen.contains(&t) {
        return None;
    }
    seen.push(t);
    let r = match t {
        Ty::Int => Some(SqlType::Int.into()),
        Ty::Text => Some(SqlType::Text.into()),
        Ty::Ct(c) => match g.defs[c as usize] {
            Def::Absent => None,
            Def::Known => Some(SqlType::BigInt.into()),
            Def::Name => Some(TypeIdentifier::Name("custom".into())),
            Def::Is(t) => want(g, t, seen),
        },
        Ty::Fk(i) => g.tabs.get(i as usize).and_then(|t| want(g, t.0, seen)),
    };
    seen.pop();
    r
}
fn sname(g: &G, i: u8) -> &'static str {
    g.structs.get(i as usize).copied().unwrap_or("missing")
}
fn dt(g: &G, t: Ty) -> DeferredSqlType {
    let known = |t: SqlType| if g.legacy { DeferredSqlType::Known(t) } else { DeferredSqlType::KnownId(t.into()) };
    match t {
        Ty::Int => known(SqlType::Int),
        Ty::Text => known(SqlType::Text),
        Ty::Ct(c) => DeferredSqlType::Deferred(TypeKey::CustomType(CTS[c as usize].into())),
        Ty::Fk(i) => DeferredSqlType::Deferred(TypeKey::PK(sname(g, i).into())),
    }
}
fn acol(g: &G, name: &str, t: Ty, pk: bool) -> AColumn {
    let d = dt(g, t);
    let r = matches!(t, Ty::Fk(_)).then(|| ARef::Deferred(d.clone()));
    AColumn::new(name, d, false, pk, false, false, None, r)
}
fn table(g: &G, i: usize) -> ATable {
    let mut t = ATable::new(TABLES[i].into());
    t.add_column(acol(g, &format!("{}_id", TABLES[i]), g.tabs[i].0, true));
    if let Some(c) = g.tabs[i].1 {
        t.add_column(acol(g, "x", c, false));
    }
    t
}
fn add_types(g: &G, db: &mut ADB) {
    for (c, d) in g.defs.iter().enumerate() {
        let d = match d {
            Def::Absent => continue,
            Def::Known if g.legacy => DeferredSqlType::Known(SqlType::BigInt),
            Def::Known => DeferredSqlType::KnownId(SqlType::BigInt.into()),
            Def::Name => DeferredSqlType::KnownId(TypeIdentifier::Name("custom".into())),
            Def::Is(t) => dt(g, *t),
        };
        db.add_type(TypeKey::CustomType(CTS[c].into()), d);
    }
    for (i, s) in g.structs.iter().enumerate() {
        if *s != TABLES[i] {
            db.add_type(TypeKey::PK(s.to_string()), DeferredSqlType::Deferred(TypeKey::PK(TABLES[i].into())));
        }
    }
}
type Want = BTreeMap<String, Vec<(String, Option<TypeIdentifier>, Option<(String, String)>)>>;
fn refs(g: &G, t: Ty) -> Option<(String, String)> {
    match t {
        Ty::Fk(i) if (i as usize) < g.tabs.len() => Some((TABLES[i as usize].into(), format!("{}_id", TABLES[i as usize]))),
        _ => None,
    }
}
fn wanted(g: &G) -> Want {
    let one = |n: String, t: Ty| (n, want(g, t, &mut vec![]), refs(g, t));
    let mut w = Want::new();
    for (i, (pk, x)) in g.tabs.iter().enumerate() {
        let mut cols = vec![one(format!("{}_id", TABLES[i]), *pk)];
        if let Some(t) = x {
            cols.push(one("x".into(), *t));
        }
        w.insert(TABLES[i].into(), cols);
    }
    w
}
/// Compares a schema after resolution with what was wanted.
fn judge(w: &Want, db: &ADB, res: &butane::Result<()>) -> Result<(), (&'static str, String)> {
    let all = w.values().flatten().all(|c| c.1.is_some());
    match res {
        Ok(()) if !all => return Err(("unresolved-accepted", "a column which leads nowhere was accepted".into())),
        Err(e) if all => return Err(("resolvable-refused", e.to_string())),
        Err(butane::Error::CannotResolveType(_)) | Ok(()) => {}
        Err(e) => return Err(("error", e.to_string())),
    }
    if db.tables().count() != w.len() {
        return Err(("tables", format!("{:?}", db.tables().map(|t| t.name.clone()).collect::<Vec<_>>())));
    }
    for (name, cols) in w {
        let t = db.get_table(name).ok_or(("tables", format!("{name} is missing")))?;
        if t.columns.len() != cols.len() {
            return Err(("columns", format!("{name}: {:?}", t.columns)));
        }
        for (cn, ty, r) in cols {
            let c = t.column(cn).ok_or(("columns", format!("{name}.{cn} is missing")))?;
            // A column whose own type is known is never left unresolved, even if others are
            if c.typeid().ok() != *ty {
                return Err(("type", format!("{name}.{cn} has type {:?}, its declaration leads to {ty:?}", c.typeid().ok())));
            }
            let have = match c.reference() {
                Some(ARef::Literal(l)) => Some((l.table_name().to_string(), l.column_name().to_string())),
                _ => None,
            };
            if have != *r {
                return Err(("reference", format!("{name}.{cn} refers to {have:?}, its declaration to {r:?}")));
            }
        }
    }
    Ok(())
}
fn check(ctx: &Ctx, g: &G, w: &Want, how: &str, f: impl FnOnce() -> (ADB, butane::Result<()>)) {
    ctx.exec();
    match catch(f) {
        Err(p) => ctx.violation(&format!("C19:{how}:panic"), format!("{g:?}: {p}")),
        Ok((db, r)) => match judge(w, &db, &r) {
            Ok(()) => ctx.outcome(format!("{how}:{}", if r.is_ok() { "resolved" } else { "reported" })),
            Err((k, d)) => ctx.violation(&format!("C19:{how}:{k}"), format!("{g:?}: {d}")),
        },
    }
}
fn graph(ctx: &Ctx, g: &G, deep: bool) {
    ctx.state(hash64(g));
    let w = wanted(g);
    if g.tabs.iter().any(|t| matches!(t.0, Ty::Ct(_) | Ty::Fk(_)) || matches!(t.1, Some(Ty::Ct(_) | Ty::Fk(_)))) {
        ctx.nontriv();
    }
    ctx.valid();
    let full = |rev: bool| {
        let mut db = ADB::new();
        let mut ts: Vec<usize> = (0..g.tabs.len()).collect();
        if rev {
            ts.reverse();
        }
        ts.into_iter().for_each(|i| db.replace_table(table(g, i)));
        add_types(g, &mut db);
        db
    };
    check(ctx, g, &w, "once", || {
        let mut db = full(false);
        let r = db.resolve_types();
        (db, r)
    });
    if !deep {
        return;
    }
    check(ctx, g, &w, "twice", || {
        let mut db = full(true);
        let _ = db.resolve_types();
        let r = db.resolve_types();
        (db, r)
    });
    check(ctx, g, &w, "stored", || {
        let mut db: ADB = serde_json::from_str(&serde_json::to_string(&full(false)).unwrap()).unwrap();
        let _ = db.resolve_types();
        let mut db: ADB = serde_json::from_str(&serde_json::to_string(&db).unwrap()).unwrap();
        let r = db.resolve_types();
        (db, r)
    });
    // One table after the other, resolving as far as possible in between
    let n = g.tabs.len();
    for order in perms(n) {
        check(ctx, g, &w, "step by step", || {
            let mut db = ADB::new();
            add_types(g, &mut db);
            let mut r = Ok(());
            for i in &order {
                db.replace_table(table(g, *i));
                r = db.resolve_types();
            }
            (db, r)
        });
    }
    // A later table which refers to every model
    if n == 2 && g.tabs.iter().all(|t| want(g, t.0, &mut vec![]).is_some()) {
        let mut g2 = g.clone();
        g2.tabs.push((Ty::Fk(0), Some(Ty::Fk(1))));
        g2.structs.push("c");
        let w2 = wanted(&g2);
        check(ctx, &g2, &w2, "later", || {
            let mut db = full(false);
            let _ = db.resolve_types();
            db.replace_table(table(&g2, 2));
            let r = db.resolve_types();
            (db, r)
        });
    }
}
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n - 1);
            out.push(q);
        }
    }
    out
}
fn tys(n: u8) -> Vec<Ty> {
    let mut v = vec![Ty::Int, Ty::Text, Ty::Ct(0), Ty::Ct(1)];
    v.extend((0..n).map(Ty::Fk));
    v.push(Ty::Fk(MISSING));
    v
}
fn defs(n: u8) -> Vec<Def> {
    let mut v = vec![Def::Absent, Def::Known, Def::Name, Def::Is(Ty::Ct(0)), Def::Is(Ty::Ct(1)), Def::Is(Ty::Fk(MISSING))];
    v.extend((0..n).map(|i| Def::Is(Ty::Fk(i))));
    v
}
/// Injective namings of the models.
fn namings(n: usize) -> Vec<Vec<&'static str>> {
    let names: Vec<&'static str> = TABLES[..n].iter().copied().chain(["s", "t"]).collect();
    let mut out: Vec<Vec<&'static str>> = vec![vec![]];
    for _ in 0..n {
        out = out.into_iter().flat_map(|v| names.iter().filter(|x| !v.contains(x)).map(|x| [v.clone(), vec![*x]].concat()).collect::<Vec<_>>()).collect();
    }
    // "s" and "t" are interchangeable
    out.retain(|v| match (v.iter().position(|x| *x == "s"), v.iter().position(|x| *x == "t")) {
        (None, Some(_)) => false,
        (Some(a), Some(b)) => a < b,
        _ => true,
    });
    out
}
fn part_graphs(ctx: &Ctx) {
    let mut jobs: Vec<(usize, bool, Vec<&'static str>, Def, Def)> = vec![];
    for n in [1usize, 2, 3] {
        for s in namings(n) {
            for d0 in defs(n as u8) {
                for d1 in defs(n as u8) {
                    // Known and named types behave alike, as do the two custom types
                    let alike = d1 == Def::Name || n == 3 && !matches!(d1, Def::Absent | Def::Is(Ty::Ct(0)) | Def::Is(Ty::Fk(1)));
                    if ctx.thorough || !alike {
                        jobs.push((n, n < 3, s.clone(), d0, d1));
                    }
                }
            }
        }
    }
    ctx.bound("tables", 3);
    ctx.bound("custom types", 2);
    let opt = |v: &[Ty]| -> Vec<Option<Ty>> { std::iter::once(None).chain(v.iter().map(|t| Some(*t))).collect() };
    par(ctx, jobs.len(), |_| (), |_, j| {
        let (n, second, s, d0, d1) = &jobs[j];
        let ts = tys(*n as u8);
        let xs = if *second || ctx.thorough { opt(&ts) } else { vec![None] };
        let total = (ts.len() * xs.len()).pow(*n as u32);
        for k in 0..total {
            if k % 256 == 0 && ctx.stop() {
                return;
            }
            let mut k2 = k;
            let mut tabs = vec![];
            for _ in 0..*n {
                let pk = ts[k2 % ts.len()];
                k2 /= ts.len();
                let x = xs[k2 % xs.len()];
                k2 /= xs.len();
                tabs.push((pk, x));
            }
            let g = G { tabs, defs: [*d0, *d1], structs: s.clone(), legacy: k % 2 == 1 };
            let deep = *n < 3 && (*d1 == Def::Absent || *d1 == Def::Is(Ty::Fk(0)) || ctx.thorough) || *n == 3 && *d1 == Def::Absent && (xs.len() == 1 || *d0 == Def::Absent);
            graph(ctx, &g, deep);
        }
    });
}

// ---- the real macro code
fn rust_ty(g: &G, t: Ty) -> String {
    match t {
        Ty::Int => "i32".into(),
        Ty::Text => "String".into(),
        Ty::Ct(c) => CTS[c as usize].into(),
        Ty::Fk(i) => format!("ForeignKey<{}>", sname(g, i)),
    }
}
#[derive(Clone, Debug)]
enum Item {
    Model(String),
    Type(String, String),
}
fn items(g: &G, opt: bool, many: Option<(usize, u8)>) -> Vec<Item> {
    let mut v = vec![];
    for (c, d) in g.defs.iter().enumerate() {
        let n = CTS[c];
        match d {
            Def::Absent => {}
            Def::Known => v.push(Item::Type(String::new(), format!("type {n} = i64;"))),
            Def::Name => v.push(Item::Type("Custom(custom)".into(), format!("pub struct {n} {{ v: i32 }}"))),
            Def::Is(t) => v.push(Item::Type(String::new(), format!("pub type {n} = {};", rust_ty(g, *t)))),
        }
    }
    for (i, (pk, x)) in g.tabs.iter().enumerate() {
        let mut s = String::new();
        if g.structs[i] != TABLES[i] {
            s += &format!("#[table = \"{}\"] ", TABLES[i]);
        }
        s += &format!("pub struct {} {{ #[pk] {}_id: {}, ", g.structs[i], TABLES[i], rust_ty(g, *pk));
        if let Some(t) = x {
            let t = rust_ty(g, *t);
            s += &if opt { format!("x: Option<{t}>, ") } else { format!("x: {t}, ") };
        }
        if let Some((o, h)) = many {
            if o == i {
                s += &format!("m: Many<{}>, ", sname(g, h));
            }
        }
        v.push(Item::Model(s + "}"));
    }
    v
}
fn declare<M: butane::migrations::MigrationMut>(ms: &mut impl MigrationsMut<M = M>, it: &Item) -> Result<(), String> {
    let parse = |s: &str| s.parse::<proc_macro2::TokenStream>().expect("ENGINE tokens");
    let out = match it {
        Item::Model(s) => butane_core::codegen::model_with_migrations(parse(s), ms),
        Item::Type(a, s) => butane_core::codegen::butane_type_with_migrations(parse(a), parse(s), ms),
    };
    let s = out.to_string();
    if s.contains("compile_error") {
        return Err(s.chars().take(300).collect());
    }
    Ok(())
}
fn program(ctx: &Ctx, g: &G, opt: bool, many: Option<(usize, u8)>, files: bool) {
    let mut w = wanted(g);
    if let Some((o, h)) = many {
        let pk = &w[TABLES[o]][0];
        let owner = ("owner".to_string(), pk.1.clone(), Some((TABLES[o].to_string(), pk.0.clone())));
        let t = Ty::Fk(h);
        w.insert(format!("{}_m_Many", TABLES[o]), vec![owner, ("has".into(), want(g, t, &mut vec![]), refs(g, t))]);
    }
    let its = items(g, opt, many);
    ctx.state(hash64(&format!("{its:?}")));
    for order in perms(its.len()) {
        if ctx.stop() {
            return;
        }
        ctx.trans(its.len() as u64);
        for again in [false, true] {
            // Every declaration is processed again when the program is built again
            let seq: Vec<usize> = if again { order.iter().chain(order.iter().rev()).copied().collect() } else { order.clone() };
            let text = || format!("{:?}", seq.iter().map(|i| &its[*i]).collect::<Vec<_>>());
            let run = |how: &str, r: Result<Result<(ADB, butane::Result<()>), String>, String>| match r {
                Err(p) => ctx.violation(&format!("C19:{how}:panic"), format!("{}: {p}", text())),
                Ok(Err(e)) => ctx.violation(&format!("C19:{how}:refused"), format!("{}: {e}", text())),
                Ok(Ok((db, r))) => {
                    if r.is_err() {
                        // Nothing more to look at, db() reports the error
                        if w.values().flatten().all(|c| c.1.is_some()) || !matches!(r, Err(butane::Error::CannotResolveType(_))) {
                            ctx.violation(&format!("C19:{how}:resolvable-refused"), format!("{}: {r:?}", text()));
                        } else {
                            ctx.outcome(format!("{how}:reported"));
                        }
                    } else if let Err((k, d)) = judge(&w, &db, &r) {
                        ctx.violation(&format!("C19:{how}:{k}"), format!("{}: {d}", text()));
                    } else {
                        ctx.outcome(format!("{how}:resolved"));
                    }
                }
            };
            ctx.exec();
            run("program", catch(|| {
                let mut ms = MemMigrations::new();
                for i in &seq {
                    declare(&mut ms, &its[*i])?;
                }
                Ok(match ms.current().db() {
                    Ok(db) => (db, Ok(())),
                    Err(e) => (ADB::new(), Err(e)),
                })
            }));
            if files {
                ctx.exec();
                let dir = crate::backends::scratch();
                run("program in files", catch(|| {
                    let mut ms = butane::migrations::from_root(dir.path().join("m"));
                    for i in &seq {
                        declare(&mut ms, &its[*i])?;
                    }
                    Ok(match ms.current().db() {
                        Ok(db) => (db, Ok(())),
                        Err(e) => (ADB::new(), Err(e)),
                    })
                }));
            }
        }
    }
}
fn part_programs(ctx: &Ctx) {
    let mut jobs: Vec<(G, bool, Option<(usize, u8)>, bool)> = vec![];
    let two = tys(2);
    for s in namings(2) {
        for d0 in [Def::Absent, Def::Known, Def::Name, Def::Is(Ty::Fk(0)), Def::Is(Ty::Fk(1)), Def::Is(Ty::Ct(1))] {
            for d1 in if d0 == Def::Is(Ty::Ct(1)) { vec![Def::Absent, Def::Known, Def::Is(Ty::Ct(0)), Def::Is(Ty::Fk(0))] } else { vec![Def::Absent] } {
                for (k, pk0) in two.iter().enumerate() {
                    for x0 in two.iter().map(|t| Some(*t)).chain([None]) {
                        for pk1 in if ctx.thorough { vec![Ty::Text, Ty::Fk(0), Ty::Int, Ty::Ct(0)] } else { vec![Ty::Text, Ty::Fk(0)] } {
                            let g = G { tabs: vec![(*pk0, x0), (pk1, None)], defs: [d0, d1], structs: s.clone(), legacy: false };
                            let many = match jobs.len() % 4 {
                                0 => Some((0, 1)),
                                1 => Some((1, 0)),
                                2 => Some((0, 0)),
                                _ => None,
                            };
                            let files = ctx.thorough || (k == 0 || k == 2) && pk1 == Ty::Text && jobs.len() % 3 == 0;
                            jobs.push((g, jobs.len() % 5 == 0, many, files));
                        }
                    }
                }
            }
        }
    }
    par(ctx, jobs.len(), |_| (), |_, j| {
        let (g, opt, many, files) = &jobs[j];
        program(ctx, g, *opt, *many, *files);
    });
}
/// The text form of type keys.
fn part_keys(ctx: &Ctx) {
    let al = ["P", "K", "C", "T", ":", "é", ""];
    let n = 5usize;
    for k in 0..al.len().pow(n as u32) {
        let mut s = String::new();
        let mut k2 = k;
        for _ in 0..n {
            s += al[k2 % al.len()];
            k2 /= al.len();
        }
        if !ctx.state(hash64(&s)) {
            continue;
        }
        ctx.exec();
        let want = match (s.strip_prefix("PK:"), s.strip_prefix("CT:")) {
            (Some(r), _) => Some(TypeKey::PK(r.into())),
            (_, Some(r)) => Some(TypeKey::CustomType(r.into())),
            _ => None,
        };
        match catch(|| serde_json::from_value::<TypeKey>(serde_json::Value::String(s.clone())).ok()) {
            Err(p) => ctx.violation("C19:keys:panic", format!("{s:?}: {p}")),
            Ok(have) if have != want => ctx.violation("C19:keys:value", format!("{s:?}: {have:?}")),
            Ok(Some(k)) if serde_json::to_value(&k).ok() != Some(serde_json::Value::String(s.clone())) => ctx.violation("C19:keys:written", format!("{k:?}")),
            Ok(_) => {}
        }
    }
}
pub fn run(ctx: &Ctx) {
    ctx.assume("every model has exactly one key column, and the renaming of a model is known before a schema which holds references to it is resolved");
    part_keys(ctx);
    part_graphs(ctx);
    part_programs(ctx);
    ctx.sample("#[table = \"b\"] struct a { #[pk] b_id: i32, x: ForeignKey<b> }, #[table = \"a\"] struct b { #[pk] a_id: String }");
}
