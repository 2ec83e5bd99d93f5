//! C09: generated migrations run, build the declared schema, keep data and undo.
use crate::backends::*;
use crate::both;
use crate::c08::{adb, attrs, col, graphs, ty, Schema, C};
use crate::engine::*;
use butane::db::{BackendRow, BackendRows, Column, ConnectionMethods, ConnectionMethodsAsync};
use butane::migrations::adb::ADB;
use butane::migrations::{MemMigration, MemMigrations, Migration, MigrationMut, Migrations, MigrationsMut};
use butane::{SqlType, SqlVal};
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

pub const RULE: &str = "all ordered pairs (a, b), and triples (c, a, b), of schemas from the stated universes (one table over key, type, nullability, uniqueness and default of its columns; two tables with every reference graph; a key moved between columns; a new column of every type with every listed default), on sqlite, PostgreSQL and turso: the migrations are generated by the real code, the database at a (itself reached from c) is filled with rows that fit both schemas, the migration is applied and undone, and after each step the database's own catalogue and every stored value are compared with the schema and with the rows carried over; states = schemas, transitions = schema/data comparisons, non-trivial = executions with rows";

/// Everything a database says about its schema, in a comparable form.
pub type Shape = Vec<String>;

pub fn query_all<T>(any: &mut Any, table: &'static str, cols: &'static [Column], f: impl Fn(&dyn BackendRow) -> butane::Result<T>) -> Result<Vec<T>, String> {
    let mut out = Vec::new();
    let mut drain = |mut rows: Box<dyn BackendRows + '_>| -> butane::Result<()> {
        while let Some(r) = rows.next()? {
            out.push(f(r)?);
        }
        Ok(())
    };
    match any {
        Any::S(c) => c.query(table, cols, None, None, None, None).and_then(drain),
        Any::A(c) => RT.block_on(async { drain(c.query(table, cols, None, None, None, None).await?) }),
    }
    .map_err(|e| e.to_string())?;
    Ok(out)
}
pub fn rows_text(be: Be, any: &mut Any, table: &'static str, cols: &'static [Column]) -> Result<Vec<Vec<String>>, String> {
    let _ = be;
    fn get(r: &dyn BackendRow, n: usize) -> Vec<String> {
        (0..n).map(|i| r.get(i, SqlType::Text).map(|v| match SqlVal::from(v) { SqlVal::Text(s) => s, o => format!("{o:?}") }).unwrap_or_else(|e| e.to_string())).collect()
    }
    query_all(any, table, cols, |r| Ok(get(r, cols.len())))
}
static SCHEMA_COLS: [Column; 3] = [Column::new("type", SqlType::Text), Column::new("name", SqlType::Text), Column::new("sql", SqlType::Text)];

pub fn shape(be: Be, any: &mut Any, pg: Option<&PgRaw>) -> Result<Shape, String> {
    let mut out = Vec::new();
    if be == Be::Pg {
        let raw = pg.unwrap();
        for r in raw.q("select c.relname||'.'||a.attname||' '||format_type(a.atttypid,a.atttypmod)||case when a.attnotnull then ' notnull' else '' end||case when pg_get_expr(d.adbin,d.adrelid) like 'nextval%' then ' auto' else '' end from pg_attribute a join pg_class c on c.oid=a.attrelid left join pg_attrdef d on d.adrelid=c.oid and d.adnum=a.attnum where c.relnamespace='public'::regnamespace and c.relkind='r' and a.attnum>0 and not a.attisdropped order by 1")? {
            out.push(r[0].clone().unwrap_or_default());
        }
        for r in raw.q("select conrelid::regclass::text||' '||contype::text||' '||pg_get_constraintdef(oid) from pg_constraint where connamespace='public'::regnamespace and contype in ('p','u','f','c') order by 1")? {
            out.push(r[0].clone().unwrap_or_default());
        }
        for r in raw.q("select relname from pg_class where relnamespace='public'::regnamespace and relkind in ('v','m','f') order by 1")? {
            out.push(r[0].clone().unwrap_or_default());
        }
    } else {
        // The database's own account of its schema, read by (real) sqlite.
        let mem = rusqlite::Connection::open_in_memory().expect("ENGINE: sqlite");
                for r in rows_text(be, any, "sqlite_schema", &SCHEMA_COLS)? {
            if r[1].starts_with("sqlite_") || r[1].starts_with("__turso") {
                continue;
            }
            if r[0] != "table" {
                out.push(format!("{} {}", r[0], r[1]));
                continue;
            }
            mem.execute_batch(&r[2]).map_err(|e| format!("schema text {}: {e}", r[2]))?;
        }
        let q = |sql: &str, n: usize| -> Vec<Vec<String>> {
            let mut st = mem.prepare(sql).expect("ENGINE: pragma");
            let v = st.query_map([], |r| Ok((0..n).map(|i| r.get::<_, rusqlite::types::Value>(i).map(|v| match v { rusqlite::types::Value::Text(s) => s, rusqlite::types::Value::Integer(i) => i.to_string(), _ => "-".into() })).collect::<Result<Vec<_>, _>>().unwrap())).unwrap().map(|x| x.unwrap()).collect();
            v
        };
        for n in q("select name from sqlite_schema where type='table' order by 1", 1).into_iter().map(|r| r[0].clone()) {
            let mut part = Vec::new();
            for r in q(&format!("select name,type,\"notnull\",pk from pragma_table_xinfo('{n}')"), 4) {
                part.push(format!("{n}.{} {}{}{}", r[0], r[1], if r[2] == "1" { " notnull" } else { "" }, if r[3] != "0" { " pk" } else { "" }));
            }
            for r in q(&format!("select name from pragma_index_list('{n}') where \"unique\"=1 and origin<>'pk'"), 1) {
                let cols: Vec<String> = q(&format!("select name from pragma_index_info('{}')", r[0]), 1).into_iter().map(|r| r[0].clone()).collect();
                part.push(format!("{n} unique {}", cols.join(",")));
            }
            for r in q(&format!("select \"from\",\"table\",\"to\" from pragma_foreign_key_list('{n}')"), 3) {
                part.push(format!("{n} reference {} {}.{}", r[0], r[1], r[2]));
            }
            let strict = q(&format!("select strict from pragma_table_list('{n}') where name='{n}'"), 1);
            part.push(format!("{n} strict {}", strict.first().map(|r| r[0].as_str()).unwrap_or("-")));
            part.sort();
            out.extend(part);
        }
    }
    Ok(out)
}
/// What the shape must be for a schema (plus the migration bookkeeping table).
pub fn want(be: Be, s: &Schema) -> Shape {
    let mut out = Vec::new();
    let ty = |c: &C| match (be, c.ty) {
        (Be::Pg, 0) => "integer",
        (Be::Pg, 1) => "bigint",
        (Be::Pg, 2) => "text",
        (Be::Pg, 3) => "boolean",
        (Be::Pg, 4) => "double precision",
        (_, 0 | 1 | 3) => "INTEGER",
        (_, 2) => "TEXT",
        (_, 4) => "REAL",
        _ => unreachable!(),
    };
    let mut s = s.clone();
    s.insert("butane_migrations", vec![C { pk: true, ..col("name", 2) }]);
    for (t, cs) in &s {
        for c in cs {
            out.push(format!("{t}.{} {}{}{}{}", c.name, ty(c), if !c.nullable { " notnull" } else { "" }, if c.pk && be != Be::Pg { " pk" } else { "" }, if c.auto && be == Be::Pg { " auto" } else { "" }));
            if be == Be::Pg {
                if c.pk {
                    out.push(format!("{t} p PRIMARY KEY ({})", c.name));
                }
                if c.unique {
                    out.push(format!("{t} u UNIQUE ({})", c.name));
                }
                if let Some((rt, rc)) = c.r {
                    out.push(format!("{t} f FOREIGN KEY ({}) REFERENCES {rt}({rc})", c.name));
                }
            } else {
                if c.unique {
                    out.push(format!("{t} unique {}", c.name));
                }
                if let Some((rt, rc)) = c.r {
                    out.push(format!("{t} reference {} {rt}.{rc}", c.name));
                }
            }
        }
        if be != Be::Pg {
            out.push(format!("{t} strict {}", if be == Be::Tu { 0 } else { 1 }));
        }
    }
    out
}
pub fn sorted(be: Be, v: &[String]) -> Vec<String> {
    let mut v: Vec<String> = v.iter().map(|s| if be != Be::Sq { s.replace('"', "").to_lowercase() } else { s.clone() }).collect();
    v.sort();
    v
}

type Val = Option<String>;
fn sqlval(t: u8, v: &Val) -> SqlVal {
    match v {
        None => SqlVal::Null,
        Some(s) => match t {
            0 => SqlVal::Int(s.parse().unwrap()),
            1 => SqlVal::BigInt(s.parse().unwrap()),
            2 => SqlVal::Text(s.clone()),
            3 => SqlVal::Bool(s != "0"),
            _ => SqlVal::Real(s.parse().unwrap()),
        },
    }
}
fn textof(v: &SqlVal) -> Val {
    match v {
        SqlVal::Null => None,
        SqlVal::Int(i) => Some(i.to_string()),
        SqlVal::BigInt(i) => Some(i.to_string()),
        SqlVal::Text(s) => Some(s.clone()),
        SqlVal::Bool(b) => Some((*b as i32).to_string()),
        SqlVal::Real(r) => Some(r.to_string()),
        o => Some(format!("{o:?}")),
    }
}
fn default_of(c: &C) -> Val {
    if c.auto {
        return Some("1".into()); // the first number
    }
    match c.default {
        Some(d) => Some(match c.ty { 2 => format!("d{d}"), 3 => (d % 2).to_string(), 4 => (d as f64 + 0.5).to_string(), _ => d.to_string() }),
        None if c.nullable => None,
        None => Some(match c.ty { 2 => String::new(), 4 => "0".into(), _ => "0".into() }),
    }
}
type Data = BTreeMap<&'static str, Vec<BTreeMap<&'static str, Val>>>;

fn cols_of<'a>(s: &'a Schema, t: &str) -> &'a [C] {
    s.get(t).map(|v| &v[..]).unwrap_or(&[])
}
fn find<'a>(s: &'a Schema, t: &str, c: &str) -> Option<&'a C> {
    cols_of(s, t).iter().find(|x| x.name == c)
}
/// Rows of `a` that also fit `b` (and, since the change is undone, whatever is filled in on the way).
fn populate(a: &Schema, b: &Schema) -> Data {
    // how many rows each table may hold
    let mut n: BTreeMap<&'static str, usize> = a.keys().map(|t| (*t, 2)).collect();
    for (t, cs) in a {
        if !b.contains_key(t) {
            continue;
        }
        for (x, y) in cs.iter().map(|c| (c, find(b, t, c.name))).chain(cols_of(b, t).iter().map(|c| (c, find(a, t, c.name)))) {
            // a column only one side has: filled with one value for all rows on the other side's way
            if y.is_none() {
                if (x.unique && default_of(x).is_some()) || x.pk {
                    n.insert(t, n[t].min(1));
                }
                if x.r.is_some() && default_of(x).is_some() {
                    n.insert(t, 0);
                }
            }
        }
    }
    // an order in which rows can be inserted: references to what comes later are left out
    let mut later: std::collections::BTreeSet<(&str, &str)> = Default::default();
    let mut placed: Vec<&str> = Vec::new();
    while placed.len() < a.len() {
        let rest: Vec<&&'static str> = a.keys().filter(|t| !placed.contains(t)).collect();
        let ok = |t: &str, c: &C, placed: &[&str]| c.r.is_none_or(|(rt, _)| rt == t || placed.contains(&rt));
        let optional = |t: &str, c: &C| c.nullable && find(b, t, c.name).is_none_or(|o| o.nullable);
        let pick = rest.iter().find(|t| a[**t].iter().all(|c| ok(t, c, &placed)));
        let pick = pick.or_else(|| rest.iter().find(|t| a[**t].iter().all(|c| ok(t, c, &placed) || optional(t, c))));
        let t = **pick.unwrap_or_else(|| { n.insert(rest[0], 0); &rest[0] });
        for c in &a[t] {
            if !ok(t, c, &placed) {
                later.insert((t, c.name));
            }
        }
        placed.push(t);
    }
    // references that must hold on both sides
    loop {
        let before = n.clone();
        for (t, cs) in a {
            for c in cs {
                let other = find(b, t, c.name);
                for (s, x) in [(a, Some(c)), (b, other)] {
                    let Some((rt, rc)) = x.and_then(|x| x.r) else { continue };
                    let _ = s;
                    let there = find(a, rt, rc).is_some() && (!b.contains_key(t) || other.is_none() || x.map(|x| std::ptr::eq(x, c)) == Some(true) && other.unwrap().r.is_none() || find(b, rt, rc).is_some());
                    let optional = c.nullable && other.is_none_or(|o| o.nullable);
                    let none = !there || n.get(rt).copied().unwrap_or(0) == 0;
                    if none && !optional {
                        n.insert(t, 0);
                    }
                }
            }
        }
        if n == before {
            break;
        }
    }
    let mut d = Data::new();
    for (t, cs) in a {
        let mut rows = Vec::new();
        for i in 1..=n[t] {
            let mut row = BTreeMap::new();
            for c in cs {
                let other = find(b, t, c.name);
                let rs: Vec<(&str, &str)> = [Some(c), other].into_iter().flatten().filter_map(|x| x.r).collect();
                let optional = c.nullable && other.is_none_or(|o| o.nullable);
                let v: Val = if c.pk || other.is_some_and(|o| o.pk) {
                    Some(i.to_string())
                } else if !rs.is_empty() {
                    let lim = rs.iter().map(|(rt, rc)| if find(a, rt, rc).is_some() && (!b.contains_key(t) || find(b, rt, rc).is_some()) { n.get(rt).copied().unwrap_or(0) } else { 0 }).min().unwrap();
                    if lim == 0 || later.contains(&(*t, c.name)) {
                        assert!(optional, "ENGINE: unsatisfiable reference");
                        None
                    } else if optional && i == 2 {
                        None
                    } else {
                        Some(i.min(lim).to_string())
                    }
                } else if optional && i == 2 {
                    None
                } else if c.unique || other.is_some_and(|o| o.unique) {
                    Some((10 + i).to_string())
                } else if c.ty == 3 {
                    Some("1".into())
                } else if c.ty == 2 && other.is_none_or(|o| o.ty == 2) {
                    Some("it's; \"5\"".into())
                } else {
                    Some("5".into())
                };
                row.insert(c.name, v);
            }
            rows.push(row);
        }
        d.insert(*t, rows);
    }
    d
}
/// The data after going from `a` to `b`.
fn carry(d: &Data, a: &Schema, b: &Schema) -> Data {
    let mut out = Data::new();
    for (t, cs) in b {
        let mut rows = Vec::new();
        if a.contains_key(t) {
            for r in &d[t] {
                rows.push(cs.iter().map(|c| (c.name, r.get(c.name).cloned().unwrap_or_else(|| default_of(c)))).collect());
            }
        }
        out.insert(*t, rows);
    }
    out
}
fn leak(cs: &[C]) -> &'static [Column] {
    static CACHE: Mutex<Option<HashMap<Vec<(&'static str, u8)>, &'static [Column]>>> = Mutex::new(None);
    let k: Vec<(&'static str, u8)> = cs.iter().map(|c| (c.name, c.ty)).collect();
    let mut g = CACHE.lock().unwrap();
    g.get_or_insert_with(HashMap::new).entry(k).or_insert_with_key(|k| Box::leak(k.iter().map(|(n, t)| Column::new(n, ty(*t))).collect::<Vec<_>>().into_boxed_slice()))
}
#[maybe_async_cfg::maybe(idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync")), sync(), async())]
async fn fill(c: &impl ConnectionMethods, s: Schema, d: Data) -> Result<(), String> {
    // referenced tables first: insert with null references, then set them
    let mut todo: Vec<(&'static str, usize)> = d.iter().flat_map(|(t, r)| (0..r.len()).map(move |i| (*t, i))).collect();
    let mut last = String::new();
    while !todo.is_empty() {
        let before = todo.len();
        let mut rest = Vec::new();
        for (t, i) in todo {
            let cs = &s[t];
            let vals: Vec<SqlVal> = cs.iter().map(|c| sqlval(c.ty, &d[t][i][c.name])).collect();
            let refs: Vec<_> = vals.iter().map(|v| v.as_ref()).collect();
            if let Err(e) = c.insert_only(t, leak(cs), &refs).await {
                last = e.to_string();
                rest.push((t, i));
            }
        }
        if rest.len() == before {
            return Err(format!("cannot fill {rest:?}: {last}"));
        }
        todo = rest;
    }
    Ok(())
}
fn data(any: &mut Any, s: &Schema) -> Result<Data, String> {
    fn get(r: &dyn BackendRow, cs: &[C]) -> butane::Result<BTreeMap<&'static str, Val>> {
        cs.iter().enumerate().map(|(i, c)| Ok((c.name, textof(&SqlVal::from(r.get(i, ty(c.ty))?))))).collect()
    }
    let mut out = Data::new();
    for (t, cs) in s {
        let mut rows = query_all(any, t, leak(cs), |r| get(r, cs))?;
        rows.sort();
        out.insert(*t, rows);
    }
    Ok(out)
}
pub fn estr(e: butane::Error) -> String {
    let mut s = e.to_string();
    let mut c: Option<&dyn std::error::Error> = std::error::Error::source(&e);
    while let Some(x) = c {
        s.push_str(&format!(": {x}"));
        c = x.source();
    }
    s
}
fn apply(any: &mut Any, m: &MemMigration) -> Result<(), String> {
    match any {
        Any::S(c) => m.apply(c).map_err(estr),
        Any::A(c) => {
            let m = m.clone();
            RT.block_on(c.with_sync(move |c| m.apply(c))).map_err(estr)
        }
    }
}
fn undo(any: &mut Any, m: &MemMigration) -> Result<(), String> {
    match any {
        Any::S(c) => m.downgrade(c).map_err(estr),
        Any::A(c) => {
            let m = m.clone();
            RT.block_on(c.with_sync(move |c| m.downgrade(c))).map_err(estr)
        }
    }
}
pub fn set_current(ms: &mut MemMigrations, a: &ADB) {
    ms.clear_current().unwrap();
    for t in a.tables() {
        ms.current().add_modified_table(t).unwrap();
    }
}
/// A short account of what kind of change this is (identifies findings).
fn summary(a: &Schema, b: &Schema) -> String {
    let flags = |c: &C| format!("{}{}{}{}{}", if c.pk { "key " } else { "" }, if c.r.is_some() { "reference " } else { "" }, if c.unique { "unique " } else { "" }, if c.nullable { "optional " } else { "" }, ["int", "bigint", "text", "bool", "real"][c.ty as usize]);
    let mut v = Vec::new();
    for (t, cs) in a {
        if !b.contains_key(t) {
            v.push("-table".to_string());
            continue;
        }
        for c in cs {
            match find(b, t, c.name) {
                None => v.push(format!("-{}", flags(c))),
                Some(o) if o != c => v.push({
                    let mut w = Vec::new();
                    if o.ty != c.ty { w.push(format!("type {}>{}", c.ty, o.ty)) }
                    if o.nullable != c.nullable { w.push(if o.nullable { "optional" } else { "required" }.into()) }
                    if o.unique != c.unique { w.push(if o.unique { "unique" } else { "not unique" }.into()) }
                    if o.auto != c.auto { w.push(if o.auto { "auto" } else { "not auto" }.into()) }
                    if o.pk != c.pk { w.push(if o.pk { "key" } else { "not key" }.into()) }
                    if o.default != c.default { w.push("default".into()) }
                    if o.r != c.r { w.push("reference".into()) }
                    format!("~{}", w.join("+"))
                }),
                _ => {}
            }
        }
        for c in &b[t] {
            if find(a, t, c.name).is_none() {
                v.push(format!("+{}", flags(c)));
            }
        }
    }
    for t in b.keys() {
        if !a.contains_key(t) {
            v.push("+table".into());
        }
    }
    v.sort();
    v.dedup();
    v.join(", ")
}
/// Kinds of change with one cause, told from the schemas and the error together.
fn known_class(be: Be, a: &Schema, b: &Schema, k: &str, e: &str) -> Option<String> {
    let (from, to) = if k.starts_with("down") { (b, a) } else { (a, b) };
    for (t, cs) in from {
        let Some(pk) = cs.iter().find(|c| c.pk) else { continue };
        if to.get(t).is_none_or(|o| o.iter().any(|c| c.pk && c.name == pk.name)) {
            continue;
        }
        // the key of t is replaced
        let referrers: Vec<&str> = from.iter().filter(|(_, cs)| cs.iter().any(|c| c.r.is_some_and(|(rt, _)| rt == *t))).map(|(o, _)| *o).collect();
        if be == Be::Pg && !referrers.is_empty() && e.contains("cannot drop constraint") && e.to_lowercase().contains(&format!("{}_pkey", t.to_lowercase())) {
            return Some("key of a referenced table replaced".into());
        }
        if be == Be::Sq && e.contains("foreign key mismatch") && referrers.iter().any(|o| !to.contains_key(o) && cs.iter().any(|c| c.r.is_some_and(|(rt, _)| rt == *o))) {
            return Some("key replaced in one of two tables referring to each other, the other removed".into());
        }
    }
    if be != Be::Pg && e.contains("more than one primary key") && from.iter().any(|(t, cs)| cs.iter().any(|c| c.pk && find(to, t, c.name).is_some_and(|o| !o.pk))) {
        return Some("key moved to another existing column".into());
    }
    if be == Be::Tu && from.keys().any(|t| t.to_lowercase() != **t && to.contains_key(t)) {
        return Some("table with a capital letter in its name altered".into());
    }
    if be == Be::Tu && e.contains("already exists") && e.contains("sqlite_autoindex_") && e.contains("__butane_tmp") {
        return Some("second rebuild of a table with a unique column".into());
    }
    None
}
pub struct W {
    any: Option<Any>,
    db: Option<Db>,
    raw: Option<PgRaw>,
}
fn fresh(w: &mut W, cfg: Cfg) -> Result<Any, String> {
    w.any = None;
    if cfg.be() == Be::Pg {
        if w.db.is_none() {
            let db = Db::new(Be::Pg, false);
            w.raw = Some(PgRaw::open(&db.conn_str));
            w.db = Some(db);
        }
        w.raw.as_ref().unwrap().q("DROP SCHEMA public CASCADE; CREATE SCHEMA public").expect("ENGINE: reset");
        open(cfg, &w.db.as_ref().unwrap().conn_str).map_err(|e| e.to_string())
    } else {
        open(cfg, ":memory:").map_err(|e| e.to_string())
    }
}
pub fn one(ctx: &Ctx, w: &mut W, cfg: Cfg, prior: Option<&Schema>, a: &Schema, b: &Schema) {
    let be = cfg.be();
    ctx.exec();
    let mut log: Vec<String> = Vec::new();
    let r = catch(|| -> Result<(), (String, String)> {
        let bad = |k: &str, e: String| (k.to_string(), e);
        let mut ms = MemMigrations::new();
        let backends = nonempty::nonempty![be.backend()];
        let mut m0 = None;
        if let Some(c) = prior {
            set_current(&mut ms, &adb(c, false, false));
            ms.create_migration(&backends, "m0", None).map_err(|e| bad("cannot create the prior migration", e.to_string()))?;
            m0 = ms.latest();
        }
        set_current(&mut ms, &adb(a, false, false));
        ms.create_migration(&backends, "m1", m0.as_ref()).map_err(|e| bad("cannot create the first migration", e.to_string()))?;
        let m1 = ms.latest().ok_or(bad("no migration", String::new()))?;
        set_current(&mut ms, &adb(b, false, false));
        let made = ms.create_migration(&backends, "m2", Some(&m1)).map_err(|e| bad("cannot create the migration", e.to_string()))?;
        if made != (a != b) {
            return Err(bad("migration made", format!("{made}")));
        }
        let m2 = ms.latest().unwrap();
        log.push(format!("up: {}", m2.up_sql(be.name()).unwrap().unwrap_or_default()));
        log.push(format!("down: {}", m2.down_sql(be.name()).unwrap().unwrap_or_default()));
        let mut any = fresh(w, cfg).map_err(|e| bad("open", e))?;
        let look = |any: &mut Any, s: &Schema, d: &Data, k: &str| -> Result<(), (String, String)> {
            let got = sorted(be, &shape(be, any, w.raw.as_ref()).map_err(|e| bad(&format!("{k}: schema"), e))?);
            let exp = sorted(be, &want(be, s));
            if got != exp {
                let g: Vec<_> = got.iter().filter(|x| !exp.contains(x)).collect();
                let m: Vec<_> = exp.iter().filter(|x| !got.contains(x)).collect();
                return Err(bad(&format!("{k}: schema"), format!("has {g:?} instead of {m:?}")));
            }
            let mut d = d.clone();
            d.values_mut().for_each(|v| v.sort());
            let got = data(any, s).map_err(|e| bad(&format!("{k}: data"), e))?;
            if got != d {
                return Err(bad(&format!("{k}: data"), format!("has {got:?} instead of {d:?}")));
            }
            Ok(())
        };
        if let Some(m0) = &m0 {
            apply(&mut any, m0).map_err(|e| bad("create: fails", e))?;
        }
        if m0.as_ref().map(|m| m.name()) != Some(m1.name()) {
            apply(&mut any, &m1).map_err(|e| bad("create: fails", e))?;
        }
        let d = populate(a, b);
        let h = &mut any;
        both!(h, fill_sync, fill_async, a.clone(), d.clone()).map_err(|e| bad("create: cannot be filled", e))?;
        log.push(format!("rows: {d:?}"));
        look(&mut any, a, &d, "create")?;
        ctx.valid();
        ctx.trans(1);
        if d.values().any(|r| !r.is_empty()) {
            ctx.nontriv();
        }
        if made {
            apply(&mut any, &m2).map_err(|e| bad("up: fails", e))?;
            let d2 = carry(&d, a, b);
            look(&mut any, b, &d2, "up")?;
            ctx.trans(2);
            undo(&mut any, &m2).map_err(|e| bad("down: fails", e))?;
            let d3 = carry(&d2, b, a);
            look(&mut any, a, &d3, "down")?;
        }
        if m0.is_none() {
            undo(&mut any, &m1).map_err(|e| bad("undo all: fails", e))?;
        }
        w.any = Some(any);
        Ok(())
    });
    let after = prior.map(|c| format!(" after [{}]", summary(c, a))).unwrap_or_default();
    match r {
        Ok(Ok(())) => {}
        Ok(Err((k, e))) => {
            let (x, y) = prior.filter(|_| k == "create: fails").map(|c| (c, a)).unwrap_or((a, b));
            let (what, after) = known_class(be, x, y, &k, &e).map(|s| (s, String::new())).unwrap_or_else(|| (format!("[{}]", summary(a, b)), after));
            ctx.violation(&format!("{} {what} {k}{}", be.name(), after), format!("{k}: {e}\n prior {prior:?}\n from {a:?}\n to {b:?}\n {}", log.join("\n ")));
        }
        Err(p) => {
            let what = known_class(be, a, b, "", &p).unwrap_or_else(|| format!("[{}]{after}", summary(a, b)));
            ctx.violation(&format!("{} {what} panic", be.name()), format!("panic: {p}\n from {a:?}\n to {b:?}\n {}", log.join("\n ")))
        }
    }
}
fn pairs(ctx: &Ctx, tag: &str, cfg: Cfg, u: &[Schema]) {
    let mut ps = Vec::new();
    for (i, a) in u.iter().enumerate() {
        ctx.state(hash64(a));
        for j in 0..u.len() {
            if !a.is_empty() {
                ps.push((i, j));
            }
        }
    }
    ctx.bound(&format!("{tag} {}", cfg.be().name()), ps.len() as u64);
    par(ctx, ps.len(), |_| W { any: None, db: None, raw: None }, |w, i| one(ctx, w, cfg, None, &u[ps[i].0], &u[ps[i].1]));
}
/// Changes of a schema which itself came about by a change.
fn triples(ctx: &Ctx, tag: &str, cfg: Cfg, u: &[Schema]) {
    let n = u.len();
    ctx.bound(&format!("{tag} {}", cfg.be().name()), (n * n * n) as u64);
    par(ctx, n * n * n, |_| W { any: None, db: None, raw: None }, |w, i| {
        let (c, a, b) = (&u[i / n / n], &u[i / n % n], &u[i % n]);
        if !c.is_empty() && !a.is_empty() && c != a && a != b {
            one(ctx, w, cfg, Some(c), a, b)
        }
    });
}
/// References all optional or all required.
fn uniform(s: &Schema) -> bool {
    let mut v: Vec<bool> = s.values().flatten().filter(|c| c.r.is_some()).map(|c| c.nullable).collect();
    v.dedup();
    v.len() < 2
}

/// New columns of every type, with every kind of default.
fn values() -> Vec<(SqlType, Vec<SqlVal>)> {
    use chrono::NaiveDate;
    let d = |y, m, d| NaiveDate::from_ymd_opt(y, m, d).unwrap();
    vec![
        (SqlType::Bool, vec![SqlVal::Bool(true), SqlVal::Bool(false)]),
        (SqlType::Int, vec![SqlVal::Int(0), SqlVal::Int(7), SqlVal::Int(-7), SqlVal::Int(i32::MAX), SqlVal::Int(i32::MIN)]),
        (SqlType::BigInt, vec![SqlVal::BigInt(0), SqlVal::BigInt(-1), SqlVal::BigInt(i64::MAX), SqlVal::BigInt(i64::MIN)]),
        (SqlType::Real, vec![SqlVal::Real(0.0), SqlVal::Real(1.0), SqlVal::Real(-0.5), SqlVal::Real(0.1), SqlVal::Real(1e300), SqlVal::Real(0.001), SqlVal::Real(1e15), SqlVal::Real(9007199254740993.0)]),
        (SqlType::Text, ["", "x", "it's", "''", "a;b", "\"q\"", "a\nb", "\\", "%_", "NULL", "7", "é😀", "--c", "/*"].map(|s| SqlVal::Text(s.into())).to_vec()),
        (SqlType::Blob, vec![SqlVal::Blob(vec![]), SqlVal::Blob(vec![0]), SqlVal::Blob(vec![1, 0xab, 0xff, 0x27])]),
        (SqlType::Json, ["{}", "[]", "[1,\"a\"]", "{\"k\":\"it's; \\\"q\\\"\"}", "1", "\"s\"", "true"].map(|s| SqlVal::Json(serde_json::from_str(s).unwrap())).to_vec()),
        (SqlType::Date, vec![SqlVal::Date(d(2024, 2, 29)), SqlVal::Date(d(1, 1, 1)), SqlVal::Date(d(1969, 12, 31))]),
        (SqlType::Timestamp, vec![SqlVal::Timestamp(d(2024, 2, 29).and_hms_opt(1, 2, 3).unwrap()), SqlVal::Timestamp(d(2024, 2, 29).and_hms_micro_opt(23, 59, 59, 123456).unwrap()), SqlVal::Timestamp(d(1970, 1, 1).and_hms_opt(0, 0, 0).unwrap())]),
    ]
}
fn new_column(ctx: &Ctx, w: &mut W, cfg: Cfg, ty: &SqlType, nullable: bool, default: Option<&SqlVal>) {
    use butane::migrations::adb::{AColumn, ATable, DeferredSqlType, TypeIdentifier};
    let be = cfg.be();
    ctx.exec();
    let t = if be == Be::Tu { "t" } else { "T" };
    let expect = match (default, nullable) {
        (Some(v), _) => v.clone(),
        (None, true) => SqlVal::Null,
        (None, false) => match ty {
            SqlType::Bool => SqlVal::Bool(false),
            SqlType::Int => SqlVal::Int(0),
            SqlType::BigInt => SqlVal::BigInt(0),
            SqlType::Real => SqlVal::Real(0.0),
            SqlType::Text => SqlVal::Text(String::new()),
            SqlType::Blob => SqlVal::Blob(vec![]),
            SqlType::Json => SqlVal::Json(serde_json::Value::Null),
            SqlType::Date => SqlVal::Date(chrono::NaiveDate::from_ymd_opt(1, 1, 1).unwrap()),
            _ => SqlVal::Timestamp(chrono::DateTime::from_timestamp(0, 0).unwrap().naive_utc()),
        },
    };
    let key = format!("{} new {}{ty:?} column, {}", be.name(), if nullable { "optional " } else { "" }, default.map(|d| format!("default {d:?}")).unwrap_or("no default".into()));
    let mut log = String::new();
    let r = catch(|| -> Result<(), String> {
        let mut ta = ATable::new(t.to_string());
        ta.add_column(AColumn::new("id", DeferredSqlType::KnownId(TypeIdentifier::Ty(SqlType::Int)), false, true, false, false, None, None));
        let mut tb = ta.clone();
        tb.add_column(AColumn::new("x", DeferredSqlType::KnownId(TypeIdentifier::Ty(ty.clone())), nullable, false, false, false, default.cloned(), None));
        let mut ms = MemMigrations::new();
        let backends = nonempty::nonempty![be.backend()];
        ms.current().add_modified_table(&ta).unwrap();
        ms.create_migration(&backends, "m1", None).map_err(|e| e.to_string())?;
        let m1 = ms.latest().unwrap();
        ms.current().add_modified_table(&tb).unwrap();
        ms.create_migration(&backends, "m2", Some(&m1)).map_err(|e| e.to_string())?;
        let m2 = ms.latest().unwrap();
        log = m2.up_sql(be.name()).unwrap().unwrap_or_default();
        let mut any = fresh(w, cfg)?;
        let h = &mut any;
        apply(h, &m1)?;
        let s = Schema::from([(t, vec![C { pk: true, ..col("id", 0) }])]);
        let d = Data::from([(t, vec![BTreeMap::from([("id", Some("1".to_string()))])])]);
        both!(h, fill_sync, fill_async, s.clone(), d.clone())?;
        ctx.valid();
        ctx.nontriv();
        apply(h, &m2).map_err(|e| format!("up fails: {e}"))?;
        static COLS: Mutex<Option<HashMap<String, &'static [Column]>>> = Mutex::new(None);
        let cols: &'static [Column] = COLS.lock().unwrap().get_or_insert_with(HashMap::new).entry(format!("{ty:?}")).or_insert_with(|| Box::leak(vec![Column::new("x", ty.clone())].into_boxed_slice()));
        let got = query_all(h, t, cols, |r| Ok(SqlVal::from(r.get(0, ty.clone())?))).map_err(|e| format!("cannot be read: {e}"))?;
        if got != vec![expect.clone()] {
            return Err(format!("reads as {got:?} instead of {expect:?}"));
        }
        ctx.trans(2);
        undo(h, &m2).map_err(|e| format!("down fails: {e}"))?;
        if data(h, &s)? != d {
            return Err("down: data".into());
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => ctx.violation(&key, format!("{e}\n {log}")),
        Err(p) => ctx.violation(&key, format!("panic: {p}\n {log}")),
    }
}
pub fn run(ctx: &Ctx) {
    let cfgs = std::env::var("BMC_CFG").unwrap_or("SqSync PgSync TuAsync".into());
    for c in [Cfg::SqSync, Cfg::TuAsync, Cfg::PgSync] {
        if !cfgs.contains(&format!("{c:?}")) {
            continue;
        }
        // turso cannot alter a table with a capital letter in its name at all (a finding of its own)
        let (t, ab): (_, [_; 2]) = if c == Cfg::TuAsync { ("t", ["a", "b"]) } else { ("T", ["A", "B"]) };
        let attrs3 = attrs(t, if ctx.thorough { &[0, 1, 2] } else { &[0, 2] }, &[None, Some(7)]);
        let attrs2 = attrs(t, &[0, 2], &[None]);
        let graph = graphs(&ab, false);
        let even: Vec<Schema> = graph.iter().filter(|s| uniform(s)).cloned().collect();
        let required: Vec<Schema> = graph.iter().filter(|s| s.values().flatten().all(|c| c.r.is_none() || !c.nullable)).cloned().collect();
        let few: Vec<Schema> = attrs2.iter().filter(|s| s.values().flatten().all(|c| c.name != "a")).cloned().collect();
        let mid: Vec<Schema> = attrs3.iter().filter(|s| s.values().flatten().all(|c| c.name != "a")).cloned().collect();
        let fewer: Vec<Schema> = few.iter().filter(|s| s.values().flatten().all(|c| c.name != "y")).cloned().collect();
        let (t3, g) = match (c, ctx.thorough) {
            (Cfg::PgSync, false) => (&fewer, &required),
            (Cfg::PgSync, true) => (&attrs3, &even),
            (Cfg::TuAsync, false) => (&few, &required),
            (_, false) => (&mid, &even),
            (_, true) => (&attrs3, &graph),
        };
        pairs(ctx, "attributes", c, t3);
        pairs(ctx, "references", c, g);
        if c == Cfg::TuAsync {
            pairs(ctx, "capital names", c, &attrs("T", &[0], &[None]));
        }
        // the key moves between columns which stay
        let k = |id: C, k: C| Schema::from([(t, vec![id, k])]);
        let id = || col("id", 0);
        let kk = || col("k", 2);
        let mut moved = vec![k(C { pk: true, ..id() }, C { unique: true, ..kk() }), k(C { unique: true, ..id() }, C { pk: true, ..kk() }), k(C { pk: true, ..id() }, kk()), k(id(), C { pk: true, ..kk() })];
        pairs(ctx, "moved key", c, &moved);
        moved.truncate(0);
        // changes after changes
        let n = match (c, ctx.thorough) {
            (Cfg::PgSync, false) => 8,
            (Cfg::TuAsync, false) => 4,
            (_, false) => 3,
            (Cfg::PgSync, true) => 2,
            (_, true) => 1,
        };
        triples(ctx, "attributes, sequences", c, &few.iter().step_by(n).cloned().collect::<Vec<_>>());
        triples(ctx, "references, sequences", c, &required.iter().step_by(n).cloned().collect::<Vec<_>>());
        let vs: Vec<_> = values().into_iter().flat_map(|(t, d)| [false, true].into_iter().flat_map(move |n| { let t = t.clone(); d.clone().into_iter().map(Some).chain([None]).map(move |d| (t.clone(), n, d)).collect::<Vec<_>>() })).collect();
        ctx.bound(&format!("new columns {}", c.be().name()), vs.len() as u64);
        par(ctx, vs.len(), |_| W { any: None, db: None, raw: None }, |w, i| new_column(ctx, w, c, &vs[i].0, vs[i].1, vs[i].2.as_ref()));
    }
}
