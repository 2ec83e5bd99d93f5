// ---- compiled models ------------------------------------------------------------------------------------
#[derive(Clone, Copy)]
enum Src {
    T(&'static Ty),
    Fk(usize),
    Many(usize),
    Auto,
}
#[derive(Clone)]
struct CF {
    f: Field,
    src: Src,
}
struct CDef {
    def: Def,
    fields: Vec<CF>,
}
impl CF {
    fn opt(&self) -> bool {
        matches!(&self.f.kind, Kind::Col(c) if c.nullable)
    }
    /// Expression and stored form of the k-th value.
    fn val(&self, k: usize) -> (String, String) {
        let wrap = |e: String| if self.opt() { format!("Some({e})") } else { e };
        match self.src {
            Src::T(t) => (wrap(t.vals[k].0.into()), t.vals[k].1.into()),
            Src::Fk(t) => (wrap(format!("ForeignKey::from_pk({})", TARGETS[t].4[k].0)), TARGETS[t].4[k].1.into()),
            Src::Many(_) => ("Many::new()".into(), String::new()),
            Src::Auto => ("AutoPk::uninitialized()".into(), (k + 1).to_string()),
        }
    }
}
fn cf(f: Field, src: Src) -> CF {
    CF { f, src }
}
fn cty(name: &'static str, sp: &str) -> CF {
    cf(plain(name, ty(sp)), Src::T(ty(sp)))
}
fn cdefs(thorough: bool) -> Vec<CDef> {
    let mut out: Vec<Vec<CF>> = vec![];
    let id = || cty("id", "i64");
    let copt = |o: &str, c: CF| CF { f: opt(o, c.f), src: c.src };
    let cattr = |c: CF, a: &str| CF { f: attr(c.f, a), src: c.src };
    for (i, t) in TYPES.iter().enumerate() {
        let p = |n| cf(plain(n, t), Src::T(t));
        out.push(vec![id(), p("a"), copt(OPTIONS[i % 4], p("b")), cattr(p("c"), "#[unique]")]);
        out.push(vec![copt(OPTIONS[(i + 1) % 4], p("b")), p("a"), id(), cty("z", "String")]);
        if t.key {
            out.push(vec![cty("v", "String"), cattr(p("k"), "#[pk]"), cty("w", "i32"), cf(many("tags", "Many", 0), Src::Many(0))]);
            out.push(vec![p("id"), cf(many("tags", "Many", 1), Src::Many(1)), cty("w", "i32")]);
        }
    }
    for (i, _) in TARGETS.iter().enumerate() {
        for (k, s) in FKS.iter().enumerate() {
            out.push(vec![id(), cf(fk("a", s, i), Src::Fk(i)), copt(OPTIONS[k], cf(fk("b", FKS[(k + 1) % 4], i), Src::Fk(i)))]);
        }
        for s in MANYS {
            out.push(vec![cf(auto("id", "AutoPk", ty("i64")), Src::Auto), cf(many("tags", s, i), Src::Many(i)), cf(many("more", "Many", 1), Src::Many(1)), cty("v", "i32")]);
        }
    }
    for s in AUTOS {
        for t in ["u8", "i8", "u16", "i16", "i32", "u32", "i64"] {
            out.push(vec![cty("v", "String"), cattr(cf(auto("key", s, ty(t)), Src::Auto), "#[pk]"), cty("w", "i32")]);
            out.push(vec![cf(auto("id", s, ty(t)), Src::Auto), cty("v", "Vec<u8>")]);
        }
    }
    // every list of fields over the kinds, with the key anywhere
    let keys: [fn(&'static str) -> CF; 3] = [|n| cty(n, "i32"), |n| cf(auto(n, "AutoPk", ty("i64")), Src::Auto), |n| cty(n, "String")];
    let kinds: [fn(&'static str) -> CF; 5] = [|n| cty(n, "i32"), |n| CF { f: opt("Option", plain(n, ty("String"))), src: Src::T(ty("String")) }, |n| cf(fk(n, "ForeignKey", 1), Src::Fk(1)), |n| CF { f: opt("Option", fk(n, "ForeignKey", 0)), src: Src::Fk(0) }, |n| cf(many(n, "Many", 1), Src::Many(1))];
    let max = if thorough { 4 } else { 3 };
    for len in 1..=max {
        for pos in 0..len {
            for (ki, key) in keys.iter().enumerate() {
                for c in 0..5usize.pow(len as u32 - 1) {
                    let mut v = vec![];
                    let mut rest = c;
                    for i in 0..len {
                        if i == pos {
                            v.push(if (c + ki) % 2 == 0 { key("id") } else { CF { f: attr(key("key").f, "#[pk]"), src: key("key").src } });
                        } else {
                            v.push(kinds[rest % 5](["a", "b", "c", "d"][i]));
                            rest /= 5;
                        }
                    }
                    out.push(v);
                }
            }
        }
    }
    let mut defs: Vec<CDef> = out
        .into_iter()
        .enumerate()
        .map(|(i, fields)| {
            let name: &'static str = Box::leak(format!("M{i}").into_boxed_str());
            let mut def = def(name, fields.iter().map(|f| f.f.clone()).collect());
            def.derive = i % 3 == 0;
            if i % 4 == 0 {
                def.table = Some(format!("tbl_{i}"));
            }
            CDef { def, fields }
        })
        .collect();
    // names which could collide with what is generated
    for n in ["default", "fields", "pk", "query", "save", "delete", "get", "load", "obj", "row", "values", "conn", "_conn", "include_pk", "i", "eq", "clone", "name", "len", "new", "tbl", "value", "columns", "r#type", "r#struct", "r#match", "r#fn", "r#select", "order", "group", "table", "index", "r#where", "user", "_x", "r#yield", "to_string", "from_row", "try_get", "butane", "std", "res", "ret", "e", "s"] {
        let mut fields = vec![cty("id", "i32"), cty(n, "i32"), cf(many("tags", "Many", 0), Src::Many(0))];
        if n == "tags" {
            continue;
        }
        let name: &'static str = Box::leak(format!("N_{}", strip(n)).into_boxed_str());
        defs.push(CDef { def: def(name, fields.iter().map(|f| f.f.clone()).collect()), fields: fields.clone() });
        if !["pk", "i"].contains(&n) {
            // as the key, and as the many-to-many field
            let name: &'static str = Box::leak(format!("K_{}", strip(n)).into_boxed_str());
            fields = vec![CF { f: attr(cty(n, "String").f, "#[pk]"), src: Src::T(ty("String")) }, cty("v", "i32"), cf(many("tags", "Many", 0), Src::Many(0))];
            defs.push(CDef { def: def(name, fields.iter().map(|f| f.f.clone()).collect()), fields });
            let name: &'static str = Box::leak(format!("T_{}", strip(n)).into_boxed_str());
            let fields = vec![cty("id", "i64"), cf(many(n, "Many", 1), Src::Many(1))];
            defs.push(CDef { def: def(name, fields.iter().map(|f| f.f.clone()).collect()), fields });
        }
    }
    for n in ["r#struct", "lowercase", "Row", "Error", "Query", "Column", "Table", "Backend", "Connection", "Migration", "Select", "r#Match", "User", "Order", "Group", "Default", "Index", "T", "O", "F"] {
        let fields = vec![cf(auto("id", "AutoPk", ty("i32")), Src::Auto), cty("v", "i32"), cf(many("tags", "Many", 0), Src::Many(0))];
        defs.push(CDef { def: def(n, fields.iter().map(|f| f.f.clone()).collect()), fields });
    }
    defs
}
const LIB: &str = r#"#![allow(unused, non_camel_case_types, non_snake_case)]
pub mod x {
pub use butane::{model, butane_type, FieldType, AutoPk, ForeignKey, Many, DataObject, DataResult};
pub use butane::prelude::*;
pub use butane::db::Column as Col;
pub use butane::internal::DataObjectInternal;
pub use serde_json::Value;
pub use uuid::Uuid;
pub use chrono::{NaiveDateTime, NaiveDate, DateTime, Utc};
pub use std::collections::{HashMap, BTreeMap};
pub fn ap(n: i32) -> AutoPk<i32> { butane::FromSql::from_sql(butane::SqlVal::Int(n)).unwrap() }
pub fn dt(n: i64) -> NaiveDateTime { DateTime::from_timestamp(86400 * n + 3600 * n, 0).unwrap().naive_utc() }
#[derive(FieldType, Clone, Debug, PartialEq)] pub enum Cust { A, B, r#Type }
#[derive(FieldType, Clone, Debug, PartialEq)] pub enum r#Raw { A, B }
#[derive(FieldType, Clone, Debug, PartialEq)] pub enum HashMapish { A, B }
#[derive(FieldType, Clone, Debug, PartialEq)] pub struct BTreeMapped(pub i32);
#[derive(FieldType, Clone, Debug, PartialEq)] pub struct Newt(pub i64);
#[derive(FieldType, serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)] pub struct Pair { pub a: i32, pub b: String }
#[derive(FieldType, serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)] pub enum Shape { Dot, Circle(i32) }
#[butane_type] pub type Alias = i32;
#[butane_type] pub type AliasStr = String;
#[butane_type(Text)] #[derive(Clone, Debug, PartialEq)] pub struct Hand(pub bool);
impl butane::ToSql for Hand {
    fn to_sql(&self) -> butane::SqlVal { butane::SqlVal::Text(if self.0 { "yes" } else { "no" }.into()) }
    fn to_sql_ref(&self) -> butane::SqlValRef<'_> { butane::SqlValRef::Text(if self.0 { "yes" } else { "no" }) }
}
impl butane::FromSql for Hand {
    fn from_sql_ref(v: butane::SqlValRef) -> Result<Self, butane::Error> {
        match v { butane::SqlValRef::Text("yes") => Ok(Hand(true)), butane::SqlValRef::Text("no") => Ok(Hand(false)), v => Err(butane::Error::CannotConvertSqlVal(butane::SqlType::Text, v.into())) }
    }
}
impl butane::FieldType for Hand { type RefType = Self; const SQLTYPE: butane::SqlType = butane::SqlType::Text; }
pub fn cols(c: &[Col]) -> String { c.iter().map(|c| format!("{}:{:?}", c.name(), c.ty())).collect::<Vec<_>>().join(",") }
pub fn q(s: &str) -> String { format!("\"{}\"", s.replace('"', "\"\"")) }
/// The stored rows, as SQL literals; columns which are not compared are given as "*".
pub fn raw(r: &rusqlite::Connection, table: &str, cols: &[&str]) -> String {
    let list: Vec<String> = cols.iter().map(|c| match c.strip_prefix("*") { Some(_) => "'*'".to_string(), None => format!("quote({})", q(c)) }).collect();
    let sql = format!("SELECT {} FROM {} ORDER BY rowid", list.join(","), q(table));
    let mut st = match r.prepare(&sql) { Ok(s) => s, Err(e) => return format!("ERR {e}") };
    let n = cols.len();
    let rows = st.query_map([], |row| { let mut v = vec![]; for i in 0..n { v.push(row.get::<_, String>(i)?); } Ok(v.join("|")) }).unwrap();
    rows.map(|r| r.unwrap_or_else(|e| format!("ERR {e}"))).collect::<Vec<_>>().join(";")
}
pub fn fail(k: usize, what: &str, e: impl std::fmt::Display) { println!("{k} {what} ERR {e}") }
pub fn setup(dir: &str) -> (butane::db::Connection, rusqlite::Connection) {
    use butane::migrations::{adb, Migration, MigrationsMut};
    let file = format!("{dir}/db.sqlite");
    let _ = std::fs::remove_file(&file);
    let c = butane::db::connect(&butane::db::ConnectionSpec::new("sqlite", &file)).unwrap();
    let mut ms = butane::migrations::from_root(concat!(env!("CARGO_MANIFEST_DIR"), "/.butane/migrations"));
    let cur = ms.current().db().unwrap();
    let be = butane::db::get_backend("sqlite").unwrap();
    let ops = adb::diff(&adb::ADB::default(), &cur);
    c.execute("PRAGMA synchronous=OFF; PRAGMA journal_mode=MEMORY; BEGIN").unwrap();
    c.execute(&be.create_migration_sql(&adb::ADB::default(), ops).unwrap()).unwrap();
    c.execute("INSERT INTO Tgt VALUES (1); INSERT INTO Tgt VALUES (2); INSERT INTO TgtS VALUES ('a'); INSERT INTO TgtS VALUES ('b'); INSERT INTO \"tgt_ren\" VALUES (1); INSERT INTO \"tgt_ren\" VALUES (2)").unwrap();
    c.execute("COMMIT").unwrap();
    (c, rusqlite::Connection::open(&file).unwrap())
}
}
pub use x::*;
"#;
const CBINS: usize = 8;
fn compiled(ctx: &Ctx) {
    let defs = cdefs(ctx.thorough);
    ctx.bound("definitions compiled and used", defs.len() as u64);
    let mut lib = String::from(LIB);
    lib += &TARGET_DEFS.replace("#[model]", "#[model] #[derive(Debug, Clone)]");
    for d in &defs {
        let mut d2 = d.def.clone();
        d2.attrs.push("#[derive(Debug, Clone)]".into());
        // modules which the recogniser knows but butane does not export
        lib += &d2.text(true).replace("butane::fkey::", "butane::").replace("butane::many::", "butane::").replace("butane::autopk::", "butane::");
    }
    let mut bins: Vec<String> = vec!["#![allow(unused, warnings)]\nuse gen_c18::*;\n".into(); CBINS];
    let mut calls = vec![String::new(); CBINS];
    for (i, d) in defs.iter().enumerate() {
        let b = i % CBINS;
        let name = d.def.name;
        let key = &d.fields[d.def.key().expect("ENGINE")];
        let kn = key.f.name;
        let cols: Vec<&CF> = d.fields.iter().filter(|f| matches!(f.f.kind, Kind::Col(_))).collect();
        let manys: Vec<&CF> = d.fields.iter().filter(|f| matches!(f.f.kind, Kind::Many(..))).collect();
        let rawcols: String = cols.iter().map(|c| format!("{:?},", if c.val(0).1.is_empty() { format!("*{}", strip(c.f.name)) } else { strip(c.f.name) })).collect();
        let make = |k: usize| d.fields.iter().map(|f| format!("{}: {}", f.f.name, f.val(k).0)).collect::<Vec<_>>().join(", ");
        let shown: String = cols.iter().map(|c| format!("format!(\"{{:?}}\", o.{}),", c.f.name)).collect();
        let (auto, init) = (matches!(key.src, Src::Auto), |k: usize| make(k));
        let mut f = format!("fn m{i}(c: &butane::db::Connection, r: &rusqlite::Connection) {{\n    let k = {i}usize;\n");
        f += &format!("    println!(\"{{k}} const {{}} {{}} {{}} {{}} {{}}\", <{name} as DataObject>::TABLE, <{name} as DataObject>::PKCOL, <{name} as DataObject>::AUTO_PK, cols(<{name} as DataResult>::COLUMNS), cols(<{name} as DataObjectInternal>::NON_AUTO_COLUMNS));\n");
        f += &format!("    let show = |o: &{name}| -> Vec<String> {{ vec![{shown}] }};\n    let raw1 = |what: &str| println!(\"{{k}} {{what}} {{}}\", raw(r, {:?}, &[{rawcols}]));\n", d.def.table());
        f += &format!("    let mut o = {name} {{ {} }};\n", init(0));
        for m in &manys {
            let Src::Many(t) = m.src else { unreachable!() };
            f += &format!("    o.{}.add(&{}).unwrap();\n", m.f.name, target(t, 0));
        }
        let save = |o: &str, what: &str| format!("    if let Err(e) = butane::DataObjectOpsSync::save(&mut {o}, c) {{ return fail(k, {what:?}, e); }}\n");
        f += &save("o", "save1");
        f += "    raw1(\"raw1\");\n";
        for m in &manys {
            f += &format!("    println!(\"{{k}} link {} {{}}\", raw(r, \"{}_{}_Many\", &[\"owner\", \"has\"]));\n", strip(m.f.name), d.def.table(), strip(m.f.name));
        }
        f += &format!("    let key = o.{kn}.clone();\n");
        let get = |what: &str| format!("    match <{name} as butane::DataObjectOpsSync<{name}>>::get(c, key.clone()) {{ Ok(g) => println!(\"{{k}} {what} {{}}\", show(&g) == show(&o)), Err(e) => fail(k, {what:?}, e) }}\n");
        f += &get("get1");
        for m in &manys {
            f += &format!("    match <{name} as butane::DataObjectOpsSync<{name}>>::get(c, key.clone()) {{ Ok(g) => println!(\"{{k}} load {} {{}}\", butane::ManyOpsSync::load(&g.{}, c).map(|l| l.count()).unwrap_or(99)), Err(e) => fail(k, \"load\", e) }}\n", strip(m.f.name), m.f.name);
        }
        for c in cols.iter().filter(|c| c.f.name != kn) {
            f += &format!("    o.{} = {};\n", c.f.name, c.val(1).0);
        }
        f += &save("o", "save2");
        f += "    raw1(\"raw2\");\n";
        f += &get("get2");
        for c in cols.iter().filter(|c| c.f.name != kn) {
            f += &format!("    o.{} = {};\n", c.f.name, if c.opt() { "None".to_string() } else { c.val(0).0 });
        }
        f += &save("o", "save3");
        f += &get("get3");
        f += &format!("    let mut p = {name} {{ {} }};\n", init(1));
        f += &save("p", "save4");
        f += "    raw1(\"raw3\");\n";
        for c in &cols {
            let json = matches!(&c.f.kind, Kind::Col(c) if c.sql == "Json");
            if !json {
                f += &format!("    println!(\"{{k}} where {0} {{}}\", butane::query::QueryOpsSync::load(<{name} as DataResult>::query().filter({name}::fields().{1}().eq(&o.{1})), c).map(|v| v.len().to_string()).unwrap_or_else(|e| e.to_string()));\n", strip(c.f.name), c.f.name);
            }
        }
        for m in &manys {
            let Src::Many(t) = m.src else { unreachable!() };
            f += &format!("    println!(\"{{k}} has {} {{}}\", butane::query::QueryOpsSync::load(<{name} as DataResult>::query().filter({name}::fields().{}().containspk({})), c).map(|v| v.len().to_string()).unwrap_or_else(|e| e.to_string()));\n", strip(m.f.name), m.f.name, TARGETS[t].4[0].0.replace("ap(1)", "1"));
        }
        if manys.is_empty() {
            f += "    if let Err(e) = butane::DataObjectOpsSync::delete(&o, c) { return fail(k, \"delete\", e); }\n    raw1(\"raw4\");\n";
        }
        f += "    let _ = &key;\n}\n";
        let _ = auto;
        bins[b] += &f;
        calls[b] += &format!("    m{i}(&c, &r);\n");
    }
    fn target(t: usize, k: usize) -> String {
        let (m, _, key, _, vals) = TARGETS[t];
        format!("{m} {{ {key}: {} }}", vals[k].0)
    }
    let mut files: Vec<(String, String)> = vec![("lib.rs".into(), lib)];
    for (i, b) in bins.iter().enumerate() {
        files.push((format!("bin/c18p{i}.rs"), format!("{b}fn main() {{\n    let dir = std::env::args().nth(1).unwrap();\n    let (c, r) = setup(&dir);\n    c.execute(\"BEGIN\").ok();\n    c.execute(\"COMMIT\").ok();\n{}}}\n", calls[i])));
    }
    let krate = gen::lay(ctx, "c18", &files);
    if let Err(e) = krate.build(ctx) {
        ctx.violation("a legal definition does not compile", gen::pointed(&krate, &e));
        return;
    }
    let outs: Vec<std::sync::Mutex<String>> = (0..CBINS).map(|_| Default::default()).collect();
    par(ctx, CBINS, |_| (), |_, p| {
        let dir = crate::backends::scratch();
        match krate.run(ctx, &format!("c18p{p}"), &[dir.path().to_str().unwrap()], 300) {
            Ok(s) => *outs[p].lock().unwrap() = s,
            Err(e) => ctx.violation("the program of the models fails", e.chars().take(1500).collect::<String>()),
        }
    });
    if ctx.n_violations() > 0 {
        return;
    }
    let mut got: std::collections::HashMap<String, Vec<String>> = Default::default();
    for o in &outs {
        for l in o.lock().unwrap().lines() {
            if let Some((k, v)) = l.split_once(' ') {
                got.entry(k.to_string()).or_default().push(v.to_string());
            }
        }
    }
    for (i, d) in defs.iter().enumerate() {
        ctx.exec();
        ctx.nontriv();
        let key = &d.fields[d.def.key().unwrap()];
        let cols: Vec<(&CF, &Col)> = d.fields.iter().filter_map(|f| match &f.f.kind { Kind::Col(c) => Some((f, c)), _ => None }).collect();
        let manys: Vec<&CF> = d.fields.iter().filter(|f| matches!(f.f.kind, Kind::Many(..))).collect();
        let list = |auto: bool| cols.iter().filter(|(_, c)| auto || !c.auto).map(|(_, c)| format!("{}:{}", c.name, c.sql)).collect::<Vec<_>>().join(",");
        let row = |k: Option<usize>, keyk: usize| cols.iter().map(|(f, _)| {
            let is_key = f.f.name == key.f.name;
            let k = if is_key { Some(keyk) } else { k };
            let any = f.val(0).1.is_empty();
            if any { "*".to_string() } else { match k { Some(k) => f.val(k).1, None => if f.opt() { "NULL".into() } else { f.val(0).1 } } }
        }).collect::<Vec<_>>().join("|");
        let auto = matches!(key.src, Src::Auto);
        let mut want = vec![format!("const {} {} {auto} {} {}", d.def.table(), strip(key.f.name), list(true), list(false)), format!("raw1 {}", row(Some(0), 0)), "get1 true".into(), format!("raw2 {}", row(Some(1), 0)), "get2 true".into(), "get3 true".into()];
        // rows in the order they were stored; keys of other types than integers keep it
        let (a, b) = (row(None, 0), row(Some(1), 1));
        let swapped = format!("raw3 {b};{a}");
        let w3 = format!("raw3 {a};{b}");
        want.push(w3.clone());
        for m in &manys {
            let Src::Many(t) = m.src else { unreachable!() };
            let kv = key.val(0).1;
            if !kv.is_empty() {
                want.push(format!("link {} {}|{}", strip(m.f.name), kv, TARGETS[t].4[0].1));
            }
            want.push(format!("load {} 1", strip(m.f.name)));
            want.push(format!("has {} 1", strip(m.f.name)));
        }
        for (f, c) in &cols {
            if c.sql != "Json" {
                want.push(format!("where {} 1", strip(f.f.name)));
            }
        }
        let mut w4 = String::new();
        if manys.is_empty() {
            w4 = format!("raw4 {b}");
            want.push(w4);
        }
        let have = got.get(&i.to_string()).cloned().unwrap_or_default();
        for w in &want {
            ctx.trans(1);
            if !have.contains(w) && !(*w == w3 && have.contains(&swapped)) {
                let head = w.split(' ').next().unwrap_or("");
                let g: Vec<&String> = have.iter().filter(|h| h.starts_with(head) || h.contains("ERR")).collect();
                ctx.violation(&format!("compiled: {head}"), format!("{}expected {w}\ngot {g:?}", d.def.text(true)));
            } else {
                ctx.valid();
            }
        }
    }
    refused(ctx);
}
/// Definitions which the compiler must refuse.
fn refused(ctx: &Ctx) {
    let mut bad: Vec<(String, String)> = vec![];
    for b in ["Option<i32>", "Option<String>", "ForeignKey<Tgt>", "Option<ForeignKey<Tgt>>", "Many<Tgt>", "Option<AutoPk<i64>>", "AutoPk<String>", "AutoPk<bool>", "AutoPk<f64>", "AutoPk<Uuid>", "Vec<i32>", "u64", "char", "()"] {
        bad.push((format!("key of type {b}"), format!("pub id: {b}, pub v: i32")));
    }
    for b in BAD_TYPES.iter().filter(|b| !b.contains("Nosuch") && !b.contains("Unregistered")) {
        bad.push((format!("field of type {b}"), format!("pub id: i64, pub v: {b}")));
    }
    for (w, f) in [("no key", "pub a: i32, pub b: i32"), ("two keys", "#[pk] pub a: i32, #[pk] pub b: i32"), ("automatic, not the key", "pub id: i64, pub b: AutoPk<i64>"), ("unique many", "pub id: i64, #[unique] pub b: Many<Tgt>"), ("default of many", "pub id: i64, #[default = 5] pub b: Many<Tgt>"),
        ("text default of a number", "pub id: i64, #[default = \"a\"] pub b: i32"), ("default out of range", "pub id: i64, #[default = 256] pub b: u8"), ("negative default of an unsigned number", "pub id: i64, #[default = -1] pub b: u8"), ("char default", "pub id: i64, #[default = 'c'] pub b: String"),
        ("computed default", "pub id: i64, #[default = 1 + 1] pub b: i32"), ("default without a value", "pub id: i64, #[default] pub b: i32"), ("no fields", ""), ("option of option", "pub id: i64, pub v: Option<Option<i32>>"), ("target is no model", "pub id: i64, pub v: ForeignKey<i32>"), ("many of no model", "pub id: i64, pub v: Many<i32>")] {
        bad.push((w.into(), f.into()));
    }
    let mut files: Vec<(String, String)> = vec![("lib.rs".into(), format!("{LIB}{}", TARGET_DEFS.replace("#[model]", "#[model] #[derive(Debug, Clone)]")))];
    let prog = |f: &str, derive: bool| format!("#![allow(unused, warnings)]\nuse gen_c18r::*;\nuse chrono::{{Local, FixedOffset}};\n{}\npub struct Mdl {{ {f} }}\nfn main() {{}}\n", if derive { "#[derive(butane::DataObject)]" } else { "#[butane::model]" });
    for derive in [false, true] {
        let d = derive as u8;
        files.push((format!("bin/c18ok{d}.rs"), prog("pub id: i64, #[default = 5] #[unique] pub v: Option<i32>, pub t: Many<Tgt>", derive)));
        for (i, (_, f)) in bad.iter().enumerate() {
            files.push((format!("bin/c18r{d}x{i}.rs"), prog(f, derive)));
        }
    }
    let krate = gen::lay(ctx, "c18r", &files);
    let ok = krate.accepted(ctx);
    for d in 0..2 {
        assert!(ok.contains(&format!("c18ok{d}")), "ENGINE legal definition refused");
        for (i, (w, f)) in bad.iter().enumerate() {
            ctx.exec();
            ctx.trans(1);
            if ok.contains(&format!("c18r{d}x{i}")) {
                ctx.violation(&format!("compiled: accepted: {w}"), format!("{{ {f} }}"));
            } else {
                ctx.valid();
            }
        }
    }
    ctx.bound("definitions the compiler must refuse", 2 * bad.len() as u64);
}
