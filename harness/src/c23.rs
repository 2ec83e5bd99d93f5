//! C23: any table or column name works in every operation.
use crate::backends::*;
use crate::engine::*;
use butane::db::{BackendConnection, Column, Connection, ConnectionMethods};
use butane::query::{BoolExpr, Expr, Join, Order, OrderDirection};
use butane::{SqlType, SqlVal, SqlValRef};
use butane_core::migrations::adb::{self, create_many_table, AColumn, ARef, ARefLiteral, ATable, DeferredSqlType, TypeIdentifier, ADB};
use std::collections::BTreeSet;

pub const RULE: &str = "every word which any of the databases or the SQL parser knows, in every case pattern, and other identifiers, in every role (table, key, automatic key, value, unique, foreign key, many relation, added, changed and removed column) through every connection operation, comparison, order, join and schema change on every backend, and as models; the transcript must be the one of an ordinary name; non-trivial = a word some backend reserves";

type Out = Vec<String>;

fn ty(t: SqlType) -> DeferredSqlType {
    DeferredSqlType::KnownId(TypeIdentifier::Ty(t))
}
fn col(n: &str, t: SqlType) -> AColumn {
    AColumn::new_simple(n, ty(t))
}
fn table(n: &str, cols: Vec<AColumn>) -> ATable {
    let mut t = ATable::new(n.to_string());
    for c in cols {
        t.add_column(c);
    }
    t
}
fn pk(n: &str, t: SqlType, auto: bool) -> AColumn {
    AColumn::new(n, ty(t), false, true, auto, false, None, None)
}
fn fk(n: &str, t: &str, c: &str) -> AColumn {
    AColumn::new(n, ty(SqlType::BigInt), true, false, false, false, None, Some(ARef::Literal(ARefLiteral::new(t, c))))
}
/// The schemas a database with the name `w` goes through.
fn schemas(w: &str) -> Vec<ADB> {
    let t = || table(w, vec![pk(w, SqlType::BigInt, true), AColumn::new("zu", ty(SqlType::Text), false, false, false, true, None, None)]);
    let x = || table("zx", vec![pk("zk", SqlType::BigInt, false), fk(w, w, w)]);
    let m = || create_many_table("zx", w, ty(SqlType::BigInt), "zk", ty(SqlType::BigInt));
    let mm = || create_many_table(w, "zf", ty(SqlType::BigInt), w, ty(SqlType::BigInt));
    let val = |null: bool, t: SqlType| table("zv", vec![pk("zk", SqlType::BigInt, false), AColumn::new(w, ty(t), null, false, false, false, None, None), col("zn", SqlType::Int)]);
    let uniq = || AColumn::new(w, ty(SqlType::Int), false, false, false, true, Some(SqlVal::Int(7)), None);
    let a = |c: Option<AColumn>| table("za", std::iter::once(pk("zk", SqlType::BigInt, false)).chain(c).collect());
    let b = |c: Option<AColumn>| table(w, vec![pk(w, SqlType::BigInt, true), AColumn::new("zu", ty(SqlType::Text), false, false, false, true, None, None)].into_iter().chain(c).collect());
    let adb = |ts: Vec<ATable>| {
        let mut d = ADB::new();
        for t in ts {
            d.replace_table(t);
        }
        d
    };
    vec![
        adb(vec![t(), x(), m(), mm(), val(true, SqlType::Text), a(None)]),
        adb(vec![b(Some(AColumn::new("zd", ty(SqlType::Int), false, false, false, false, Some(SqlVal::Int(5)), None))), x(), m(), mm(), val(false, SqlType::Text), a(Some(uniq()))]),
        adb(vec![b(Some(AColumn::new("zd", ty(SqlType::Int), true, false, false, false, Some(SqlVal::Int(5)), None))), x(), mm(), a(None)]),
        adb(vec![t(), x(), mm(), a(Some(fk(w, w, w)))]),
        adb(vec![t(), a(None)]),
        adb(vec![a(None)]),
        adb(vec![]),
    ]
}
fn steps(be: Be, s: &[ADB]) -> Result<Vec<String>, String> {
    let empty = ADB::new();
    let mut prev = &empty;
    let mut out = vec![];
    for n in s {
        out.push(be.backend().create_migration_sql(prev, adb::diff(prev, n)).map_err(|e| e.to_string())?);
        prev = n;
    }
    Ok(out)
}
fn big(n: i64) -> SqlValRef<'static> {
    SqlValRef::BigInt(n)
}
fn dump(c: &Connection, what: &str, t: &str, cols: &[Column], e: Option<BoolExpr>, sort: Option<&[Order]>, limit: Option<i32>, out: &mut Out) {
    let r = || -> butane::Result<Vec<String>> {
        let mut r = c.query(t, cols, e.clone(), limit, None, sort)?;
        let mut v = vec![];
        while let Some(x) = r.next()? {
            let mut l = vec![];
            for (i, k) in cols.iter().enumerate() {
                l.push(format!("{:?}", SqlVal::from(x.get(i, k.ty().clone())?)));
            }
            v.push(l.join(","));
        }
        if sort.is_none() {
            v.sort();
        }
        Ok(v)
    };
    out.push(format!("{what}: {:?}", r().map_err(|e| format!("failed: {e}"))));
}
fn note<T: std::fmt::Debug>(what: &str, r: butane::Result<T>, out: &mut Out) {
    out.push(match r {
        Ok(v) => format!("{what}: {v:?}"),
        Err(e) => format!("{what}: failed: {e}"),
    });
}
/// Everything that is done with the name `w`; what came of it.
/// A schema change happens in a transaction, as applying a migration does.
fn change(c: &mut Connection, sql: &str) -> butane::Result<()> {
    let t = c.transaction()?;
    t.execute(sql)?;
    t.commit()
}
fn script(be: Be, conn: &mut Connection, w: &'static str, o: &mut Out) {
    let sql = match steps(be, &schemas(w)) {
        Ok(s) => s,
        Err(e) => return o.push(format!("migration sql: failed: {e}")),
    };
    note("create", change(conn, &sql[0]), o);
    if o[0].contains("failed") {
        return;
    }
    let c = &*conn;
    let (kw, tw, iw) = (Column::new(w, SqlType::BigInt), Column::new(w, SqlType::Text), Column::new(w, SqlType::Int));
    let (zk, zu, zn, zd) = (Column::new("zk", SqlType::BigInt), Column::new("zu", SqlType::Text), Column::new("zn", SqlType::Int), Column::new("zd", SqlType::Int));
    note("has table", c.has_table(w), o);
    // table and automatic key
    for n in ["p", "q", "r"] {
        note("insert", c.insert_returning_pk(w, &[zu.clone()], &kw, &[SqlValRef::Text(n)]), o);
    }
    note("unique", c.insert_only(w, &[zu.clone()], &[SqlValRef::Text("p")]).map_err(|_| butane::Error::NoSuchObject), o);
    note("insert key", c.insert_only(w, &[kw.clone(), zu.clone()], &[big(9), SqlValRef::Text("s")]), o);
    note("replace", c.insert_or_replace(w, &[kw.clone(), zu.clone()], &kw, &[big(9), SqlValRef::Text("t")]), o);
    note("replace new", c.insert_or_replace(w, &[kw.clone(), zu.clone()], &kw, &[big(10), SqlValRef::Text("u")]), o);
    note("update", c.update(w, kw.clone(), big(2), &[zu.clone()], &[SqlValRef::Text("qq")]), o);
    let both = [kw.clone(), zu.clone()];
    dump(c, "all", w, &both, None, Some(&[Order { column: w, direction: OrderDirection::Descending }]), Some(4), o);
    note("delete", c.delete(w, w, SqlVal::BigInt(3)), o);
    note("delete where", c.delete_where(w, BoolExpr::Eq(w, Expr::Val(SqlVal::BigInt(10)))), o);
    dump(c, "left", w, &both, None, None, None, o);
    // value column, every comparison
    for (k, s) in [(1, Some("a")), (2, Some("b")), (3, None), (4, Some("ab"))] {
        note("value", c.insert_only("zv", &[zk.clone(), tw.clone(), zn.clone()], &[big(k), s.map_or(SqlValRef::Null, SqlValRef::Text), SqlValRef::Int(k as i32)]), o);
    }
    let t = |s: &str| Expr::Val(SqlVal::Text(s.into()));
    let es = vec![
        BoolExpr::Eq(w, t("a")),
        BoolExpr::Eq(w, Expr::Val(SqlVal::Null)),
        BoolExpr::Ne(w, t("a")),
        BoolExpr::Ne(w, Expr::Val(SqlVal::Null)),
        BoolExpr::Lt(w, t("b")),
        BoolExpr::Gt(w, t("a")),
        BoolExpr::Le(w, t("ab")),
        BoolExpr::Ge(w, t("ab")),
        BoolExpr::Like(w, t("a%")),
        BoolExpr::Eq(w, Expr::Column(w)),
        BoolExpr::Not(Box::new(BoolExpr::Eq(w, t("a")))),
        BoolExpr::In(w, vec![SqlVal::Text("a".into()), SqlVal::Text("b".into())]),
        BoolExpr::And(Box::new(BoolExpr::Ge(w, t("a"))), Box::new(BoolExpr::Eq("zn", Expr::Val(SqlVal::Int(4))))),
        BoolExpr::Or(Box::new(BoolExpr::Eq(w, t("b"))), Box::new(BoolExpr::Eq("zn", Expr::Val(SqlVal::Int(3))))),
        BoolExpr::AllOf(vec![BoolExpr::Ge(w, t("a")), BoolExpr::Lt(w, t("c"))]),
    ];
    let vc = [zk.clone(), tw.clone(), zn.clone()];
    for e in &es {
        dump(c, &format!("compare {}", kind(e)), "zv", &vc, Some(e.clone()), None, None, o);
    }
    for d in [OrderDirection::Ascending, OrderDirection::Descending] {
        dump(c, "order", "zv", &vc, Some(BoolExpr::Ne(w, Expr::Val(SqlVal::Null))), Some(&[Order { column: w, direction: d }]), None, o);
    }
    note("update value", c.update("zv", zk.clone(), big(1), &[tw.clone(), zn.clone()], &[SqlValRef::Text("z"), SqlValRef::Int(11)]), o);
    note("replace value", c.insert_or_replace("zv", &vc, &zk, &[big(2), SqlValRef::Text("y"), SqlValRef::Int(22)]), o);
    note("delete value", c.delete_where("zv", BoolExpr::Eq(w, t("ab"))), o);
    note("delete null", c.delete_where("zv", BoolExpr::Eq(w, Expr::Val(SqlVal::Null))), o);
    dump(c, "values", "zv", &vc, None, None, None, o);
    // relations
    for (k, r) in [(1, Some(1)), (2, Some(2)), (3, None)] {
        note("relate", c.insert_only("zx", &[zk.clone(), kw.clone()], &[big(k), r.map_or(SqlValRef::Null, big)]), o);
    }
    note("dangling", c.insert_only("zx", &[zk.clone(), kw.clone()], &[big(8), big(77)]).map_err(|_| butane::Error::NoSuchObject), o);
    let (owner, has) = (Column::new("owner", SqlType::BigInt), Column::new("has", SqlType::BigInt));
    let link: &'static str = leak(format!("zx_{w}_Many"));
    let back: &'static str = leak(format!("{w}_zf_Many"));
    for (a, b) in [(1, 1), (1, 2), (2, 2)] {
        note("link", c.insert_only(link, &[owner.clone(), has.clone()], &[big(a), big(b)]), o);
        note("link back", c.insert_only(back, &[owner.clone(), has.clone()], &[big(b), big(a)]), o);
    }
    let xs = [zk.clone(), kw.clone()];
    let sub = |col, tbl: &'static str, tcol, e| BoolExpr::Subquery { col, tbl2: tbl.into(), tbl2_col: tcol, expr: Box::new(e) };
    dump(c, "matches", "zx", &xs, Some(sub(w, w, w, BoolExpr::Eq("zu", t("p")))), None, None, o);
    dump(c, "matches key", "zx", &xs, Some(sub(w, w, w, BoolExpr::Eq(w, Expr::Val(SqlVal::BigInt(2))))), None, None, o);
    dump(c, "many", w, &both, Some(sub(w, link, "has", BoolExpr::Eq("owner", Expr::Val(SqlVal::BigInt(1))))), None, None, o);
    dump(c, "many back", "zx", &xs, Some(sub("zk", back, "has", BoolExpr::Eq("owner", Expr::Val(SqlVal::BigInt(2))))), None, None, o);
    let join = |col, tbl: &'static str, link: &'static str, tcol, e| BoolExpr::SubqueryJoin {
        col,
        tbl2: tbl.into(),
        col2: butane::query::Column::new(link, "owner"),
        joins: vec![Join::Inner { join_table: link, col1: butane::query::Column::new(link, "has"), col2: butane::query::Column::new(tbl, tcol) }],
        expr: Box::new(e),
    };
    // (the columns of the link table itself are ambiguous in a join; relations of models are below)
    if !w.eq_ignore_ascii_case("owner") && !w.eq_ignore_ascii_case("has") {
        dump(c, "contains", "zx", &xs, Some(join("zk", w, link, w, BoolExpr::Eq("zu", t("p")))), None, None, o);
        dump(c, "contains key", "zx", &xs, Some(join("zk", w, link, w, BoolExpr::Eq(w, Expr::Val(SqlVal::BigInt(2))))), None, None, o);
    }
    dump(c, "contains back", w, &both, Some(join(w, "zx", back, "zk", BoolExpr::Eq("zk", Expr::Val(SqlVal::BigInt(2))))), None, None, o);
    note("unlink", c.delete_where(link, BoolExpr::Eq("owner", Expr::Val(SqlVal::BigInt(1)))), o);
    // schema changes with data
    note("rows", c.insert_only("za", &[zk.clone()], &[big(1)]), o);
    for (i, s) in sql.iter().enumerate().skip(1) {
        note(&format!("change {i}"), change(conn, s), o);
        let c = &*conn;
        if o.last().unwrap().contains("failed") {
            return;
        }
        match i {
            1 => {
                dump(c, "new default", "za", &[zk.clone(), iw.clone()], None, None, None, o);
                note("new unique", c.insert_only("za", &[zk.clone(), iw.clone()], &[big(2), SqlValRef::Int(7)]).map_err(|_| butane::Error::NoSuchObject), o);
                dump(c, "new column", w, &[kw.clone(), zu.clone(), zd.clone()], None, None, None, o);
                note("not null", c.insert_only("zv", &[zk.clone(), zn.clone()], &[big(5), SqlValRef::Int(5)]).map_err(|_| butane::Error::NoSuchObject), o);
                note("insert more", c.insert_returning_pk(w, &[zu.clone(), zd.clone()], &kw, &[SqlValRef::Text("v"), SqlValRef::Int(6)]).map(|_| ()), o);
            }
            2 => {
                dump(c, "nullable column", w, &[zu.clone(), zd.clone()], None, None, None, o);
                dump(c, "column removed", "za", &[zk.clone()], None, None, None, o);
            }
            3 => {
                dump(c, "reference column", "za", &[zk.clone(), kw.clone()], None, None, None, o);
                note("refer", c.update("za", zk.clone(), big(1), &[kw.clone()], &[big(1)]), o);
                note("refer dangling", c.update("za", zk.clone(), big(1), &[kw.clone()], &[big(77)]).map_err(|_| butane::Error::NoSuchObject), o);
                note("release", c.update("za", zk.clone(), big(1), &[kw.clone()], &[SqlValRef::Null]), o);
            }
            4 => {
                dump(c, "kept", w, &[zu.clone()], None, None, None, o);
                dump(c, "kept", "za", &[zk.clone()], None, None, None, o);
                note("gone", c.has_table("zx"), o);
            }
            _ => note("table", c.has_table(w), o),
        }
    }
}
fn kind(e: &BoolExpr) -> String {
    format!("{e:?}").split(['(', ' ']).next().unwrap_or("").to_string()
}
fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// Words: every one a database or the parser knows.
fn words() -> Vec<(String, bool)> {
    let mut res = BTreeSet::new();
    let mut all = BTreeSet::new();
    unsafe {
        use rusqlite::ffi::*;
        for i in 0..sqlite3_keyword_count() {
            let (mut p, mut n) = (std::ptr::null(), 0);
            if sqlite3_keyword_name(i, &mut p, &mut n) == 0 {
                let s = std::slice::from_raw_parts(p as *const u8, n as usize);
                res.insert(String::from_utf8_lossy(s).to_lowercase());
            }
        }
    }
    for r in pg_admin("SELECT word, catcode::text FROM pg_get_keywords()") {
        let (w, c) = (r[0].clone().unwrap(), r[1].clone().unwrap());
        if c != "U" {
            res.insert(w.clone());
        }
        all.insert(w);
    }
    assert!(res.len() > 150 && all.len() > 300, "ENGINE word lists");
    let mut out: Vec<(String, bool)> = res.iter().map(|w| (w.clone(), true)).collect();
    out.extend(all.difference(&res).map(|w| (w.clone(), false)));
    for l in include_str!("c23_words.txt").lines() {
        let w = l.to_lowercase();
        if !res.contains(&w) && !all.contains(&w) {
            out.push((w, false));
        }
    }
    out
}
const OTHERS: &[&str] = &[
    "MixedCase", "camelCase", "UPPER", "Snake_Case", "_lead", "trail_", "a", "A", "x1", "_", "__", "_1", "é", "Étage", "наименование", "名前", "owner", "has", "Owner", "HAS",
    "rowid", "oid", "_rowid_", "ROWID", "id", "pk", "excluded", "new", "old", "main", "temp", "public", "information_schema", "columns", "tables", "max", "count", "lower", "date", "time", "now", "coalesce", "a1b2c3",
    "a_rather_long_name_of_fifty_characters_or_thereabout", "butane_migration", "null_", "true_", "isnull_x", "orders", "users", "groups", "select1", "tableName", "tablename", "UserName", "userName", "OrderItem", "order_item",
];
fn cases(w: &str, reserved: bool, thorough: bool) -> Vec<String> {
    let mut cap = w.to_string();
    if let Some(c) = w.chars().next() {
        cap = c.to_uppercase().collect::<String>() + &w[c.len_utf8()..];
    }
    let mut alt = String::new();
    for (i, c) in w.chars().enumerate() {
        alt.push(if i % 2 == 1 { c.to_ascii_uppercase() } else { c });
    }
    let mut v = vec![w.to_string(), cap];
    if reserved || thorough {
        v.push(w.to_uppercase());
    }
    if thorough {
        v.push(alt);
        v.push(format!("{w}_id"));
        v.push(format!("_{w}"));
    }
    v.dedup();
    v
}
fn fresh(cfg: Cfg, db: &mut Option<Db>, reset: &mut bool) -> Connection {
    if *reset && cfg.be() != Be::Pg || db.is_none() {
        *db = Some(Db::new(cfg.be(), false));
    }
    let c = match open(cfg, &db.as_ref().unwrap().conn_str).expect("ENGINE open") {
        Any::S(c) => c,
        Any::A(_) => panic!("ENGINE"),
    };
    if *reset && cfg.be() == Be::Pg {
        c.execute("DROP SCHEMA public CASCADE; CREATE SCHEMA public").unwrap_or_else(|e| panic!("ENGINE reset {e}"));
    }
    *reset = false;
    c
}
const CFGS: [Cfg; 3] = [Cfg::SqSync, Cfg::PgSync, Cfg::TuSync];

pub fn run(ctx: &Ctx) {
    let mut names: Vec<(&'static str, bool)> = vec![];
    for (w, res) in words() {
        names.extend(cases(&w, res, ctx.thorough).into_iter().map(|n| (leak(n), res)));
    }
    // the turso engine takes these for its row ids
    const ROWID: [&str; 3] = ["rowid", "oid", "_rowid_"];
    names.extend(OTHERS.iter().map(|w| (*w, false)));
    ctx.bound("names", names.len() as u64);
    let want: Vec<Out> = CFGS.iter().map(|cfg| {
        let mut db = None;
        let mut c = fresh(*cfg, &mut db, &mut false);
        let mut o = vec![];
        script(cfg.be(), &mut c, "plain", &mut o);
        let bad: Vec<&String> = o.iter().filter(|l| l.contains("failed: ") && !l.contains("No such object")).collect();
        if !bad.is_empty() {
            ctx.violation(&format!("an ordinary name fails on {}", cfg.be().name()), format!("{bad:?}"));
        }
        o
    }).collect();
    ctx.bound("steps per name", want[0].len() as u64);
    par(ctx, names.len() * 3, |_| (None::<Db>, None::<Db>, None::<Db>), |w, i| {
        let (n, res) = names[i / 3];
        let k = i % 3;
        let cfg = CFGS[k];
        // (it folds the case of other letters for tables, but not for the references to them)
        let foreign = n.to_lowercase() != n.to_ascii_lowercase();
        if cfg.be() == Be::Tu && foreign {
            return;
        }
        if cfg.be() == Be::Tu && ROWID.iter().any(|r| n.eq_ignore_ascii_case(r)) {
            return;
        }
        let db = [&mut w.0, &mut w.1, &mut w.2].into_iter().nth(k).unwrap();
        let mut reset = db.is_some();
        let mut got = vec![];
        let r = catch(|| {
            let mut c = fresh(cfg, db, &mut reset);
            script(cfg.be(), &mut c, n, &mut got);
        });
        ctx.exec();
        if let Err(m) = r {
            assert!(!m.starts_with("ENGINE"), "{m}");
            got.push(format!("panic: {m}"));
            *db = None;
        }
        ctx.trans(got.len() as u64);
        ctx.state(hash64(&(k, &got)));
        if res {
            ctx.nontriv();
        }
        let link = |n: &str| n.eq_ignore_ascii_case("owner") || n.eq_ignore_ascii_case("has");
        let skip = if link(n) { "contains" } else { "\u{0}" };
        let w: Vec<&String> = want[k].iter().filter(|l| !(l.starts_with(skip) && !l.starts_with("contains back"))).collect();
        match (0..w.len().max(got.len())).find(|i| w.get(*i).copied() != got.get(*i)) {
            None => {
                ctx.valid();
                ctx.outcome("as an ordinary name");
            }
            Some(j) => {
                // (rebuilding a table ends with renaming it, which the engine does by text)
                let capital = n.chars().any(|c| c.is_ascii_uppercase());
                if cfg.be() == Be::Tu && got.get(j).is_some_and(|s| s.starts_with("panic: ")) && w.get(j).is_some_and(|s| s.starts_with("change ")) {
                    let class = if capital { "with a capital letter" } else { "the engine reserves" };
                    return ctx.violation(&format!("turso cannot rebuild a table with a name {class}"), format!("{n}: got {:?} want {:?}", got.get(j), w[j]));
                }
                let what = w.get(j).map_or("end".to_string(), |s| s.split(':').next().unwrap().to_string());
                ctx.violation(&format!("{what} on {} with the name {n}", cfg.be().name()), format!("got  {:?}\nwant {:?}", got.get(j), w.get(j)));
            }
        }
    });
    models(ctx);
}

// ---- the same through models ----------------------------------------------------------------------
const RUST: &[&str] = &[
    "as", "async", "await", "break", "const", "continue", "dyn", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "struct",
    "trait", "true", "type", "unsafe", "use", "where", "while", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen",
];
const MODELS: &[&str] = &[
    "select", "from", "table", "order", "group", "user", "index", "primary", "references", "default", "check", "unique", "join", "limit", "offset", "values", "insert", "update", "delete", "case", "when", "end", "exists",
    "null", "not", "and", "or", "like", "is", "by", "desc", "asc", "set", "to", "with", "distinct", "having", "union", "column", "constraint", "grant", "analyse", "isnull", "variadic", "excluded", "transaction", "returning", "inner",
    "owner", "has", "Owner", "rowid", "id", "pk", "name", "value", "fields", "columns", "MixedCase", "camelCase", "UPPER", "Snake_Case", "_lead", "trail_", "User", "OrderItem", "Select", "SELECT", "Group", "x1_", "é", "名前",
];

fn models(ctx: &Ctx) {
    let mut names: Vec<&str> = vec!["plain"];
    names.extend(RUST);
    names.extend(MODELS);
    let mut text = String::new();
    let mut list = String::new();
    for (i, n) in names.iter().enumerate() {
        let ident = if RUST.contains(n) { format!("r#{n}") } else { n.to_string() };
        text += &include_str!("c23_model.txt").replace("@I", &i.to_string()).replace("@N", &ident).replace("@S", n);
        list += &format!("        ({n:?}, m{i}::run),\n");
    }
    text += &format!("pub fn all() -> Vec<(&'static str, fn(&mut butane::db::Connection, &mut super::Out))> {{\n    vec![\n{list}    ]\n}}\n");
    let mut files = vec![("main.rs".to_string(), include_str!("c23_prog.rs").replace("HARNESS", &ctx.verif.join("harness").to_string_lossy())), ("names.rs".to_string(), text)];
    crate::gen::shared(ctx, &mut files);
    let krate = crate::gen::lay(ctx, "c23", &files);
    if let Err(e) = krate.build(ctx) {
        ctx.violation("legal program does not compile", crate::gen::pointed(&krate, &e));
        return;
    }
    ctx.bound("names of models", names.len() as u64);
    par(ctx, CFGS.len(), |_| (), |_, k| {
        let cfg = CFGS[k];
        let out = match krate.run(ctx, "gen_c23", &[&format!("{cfg:?}")], 400) {
            Ok(o) => o,
            Err(e) => return ctx.violation("the program of the models fails", e.chars().take(1500).collect::<String>()),
        };
        let mut by: std::collections::HashMap<&str, Vec<&str>> = Default::default();
        for l in out.lines() {
            if let Some((n, l)) = l.split_once('\t') {
                by.entry(n).or_default().push(l);
            }
        }
        let want = by.get("plain").cloned().unwrap_or_default();
        assert!(want.len() > 10, "ENGINE short transcript {}", want.len());
        if k == 0 {
            ctx.bound("steps per model name", want.len() as u64);
        }
        for l in &want {
            if l.contains("failed: ") && !l.contains("No such object") || l.starts_with("panic") {
                ctx.violation(&format!("an ordinary model name fails on {}", cfg.be().name()), l);
            }
        }
        for n in &names {
            let got = by.get(n).cloned().unwrap_or_default();
            if cfg.be() == Be::Tu && *n == "rowid" {
                continue;
            }
            ctx.exec();
            ctx.trans(got.len() as u64);
            ctx.state(hash64(&(k, &got)));
            ctx.nontriv();
            match (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i)) {
                None => ctx.valid(),
                Some(j) => ctx.violation(&format!("model: {} on {} with the name {n}", want.get(j).map_or("end", |s| s.split(':').next().unwrap()), cfg.be().name()), format!("got  {:?}\nwant {:?}", got.get(j), want.get(j))),
            }
        }
    });
}
