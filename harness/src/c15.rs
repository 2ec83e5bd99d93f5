//! C15: every way of reaching a backend behaves the same.
use crate::backends::*;
use crate::engine::*;
use crate::models::*;
use butane::db::{BackendConnection, BackendConnectionAsync, BackendRows, Column, ConnectionAsync, ConnectionMethods, ConnectionMethodsAsync};
use butane::query::{BoolExpr, Expr, Order, OrderDirection, QueryOpsAsync, QueryOpsSync};
use butane::{DataObjectOpsAsync, DataObjectOpsSync, Error, ForeignKey, ForeignKeyOpsAsync, ForeignKeyOpsSync, DataResult, FromSql, Many, ManyOpsAsync, ManyOpsSync, SqlType, SqlVal, SqlValRef};
use butane_core::db::SyncAdapter;

pub const RULE: &str = "every sequence, up to the stated length, of object, query, relation, raw and transaction operations (half of them failing: constraint, syntax, missing table, wrong type, missing object) is run through every way of reaching a backend - blocking, async, adapters of one over the other up to three deep, blocking work borrowed from an async connection, whole or per step - and the outcome or kind of error of each step and the final contents of all tables are compared with the backend's first way; states deduplicated on (contents, transaction open, failure in it, last step failed; thorough: last two outcomes); non-trivial = a step which fails in the same way everywhere";

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Begin,
    Commit,
    Rollback,
    DropTx,
    SaveAuto(i32),
    Resave,       // the first row, changed
    SaveInt(i64, i32),
    SaveOwner(bool),
    AddMember,
    LoadMembers,
    SaveRef(i64), // a reference to a key which may not exist
    LoadRef,
    Get(i64),
    Gone(i64),
    First,
    Page,
    Delete,
    DeleteWhere(i32),
    DeleteTarget,
    Rows,
    RowsPart,
    WrongType,
    WrongColumn,
    Wide,
    RawOk,
    RawBad,
    RawPartly,
    RawTx,
    NoTable,
    InsertOnly(i64),
    Replace(i64),
    Returning,
    UpdateNone,
    UpdateNothing,
    Has(&'static str),
    Ddl,
    Names,
}
use Op::*;
fn ops() -> Vec<Op> {
    vec![
        Begin, Commit, Rollback, DropTx, SaveAuto(1), SaveAuto(2), Resave, SaveInt(1, 1), SaveInt(2, 1), SaveOwner(true), SaveOwner(false), AddMember, LoadMembers, SaveRef(1), SaveRef(9), LoadRef, Get(1), Get(7), Gone(2), First, Page, Delete,
        DeleteWhere(1), DeleteTarget, Rows, RowsPart, WrongType, WrongColumn, Wide, RawOk, RawBad, RawPartly, RawTx, NoTable, InsertOnly(1), Replace(1), Returning, UpdateNone, UpdateNothing, Has("KInt"), Has("nosuch"), Ddl, Names,
    ]
}

fn kind(e: &Error) -> String {
    match e {
        Error::Postgres(e) => format!("Postgres {:?}", e.code().map(|c| c.code().to_string())),
        Error::SQLite(rusqlite::Error::SqliteFailure(e, _)) => format!("SQLite {}", e.extended_code),
        e => {
            let s = format!("{e:?}");
            s.chars().take_while(|c| c.is_alphanumeric()).collect()
        }
    }
}
fn say<T: std::fmt::Debug>(r: butane::Result<T>) -> String {
    match r {
        Ok(x) => format!("{x:?}"),
        Err(e) => format!("failed: {}", kind(&e)),
    }
}
fn auto_view(x: &KAuto) -> String {
    format!("{:?} {} {:?}", x.id.clone().map(|i| i), x.u, x.v)
}

const KCOLS: [Column; 3] = [Column::new("id", SqlType::BigInt), Column::new("u", SqlType::Int), Column::new("v", SqlType::Text)];

/// As objects decode their fields.
fn decoded(v: SqlValRef, ty: &SqlType) -> butane::Result<String> {
    Ok(match ty {
        SqlType::Int => format!("{:?}", Option::<i32>::from_sql_ref(v)?),
        SqlType::BigInt => format!("{:?}", Option::<i64>::from_sql_ref(v)?),
        _ => format!("{:?}", Option::<String>::from_sql_ref(v)?),
    })
}

#[maybe_async_cfg::maybe(
    idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), DataObjectOps, QueryOps, ManyOps, ForeignKeyOps),
    sync(), async())]
async fn step(c: &impl ConnectionMethods, op: Op) -> String {
    
    
    match op {
        Begin | Commit | Rollback | DropTx => unreachable!(),
        SaveAuto(u) => {
            let mut x = KAuto { id: butane::AutoPk::uninitialized(), u, v: None };
            let r = DataObjectOps::save(&mut x, c).await;
            format!("{} {}", say(r), auto_view(&x))
        }
        Resave => match QueryOps::load_first(KAuto::query().order("u", OrderDirection::Ascending), c).await {
            Ok(Some(mut x)) => {
                x.v = Some(format!("{}+", x.v.unwrap_or_default()));
                say(DataObjectOps::save(&mut x, c).await)
            }
            r => say(r.map(|_| "none")),
        },
        SaveInt(id, u) => {
            let mut x = KInt { id, u, v: Some("v".into()) };
            say(DataObjectOps::save(&mut x, c).await)
        }
        SaveOwner(with) => {
            let mut m = MInt { id: 1, note: None };
            let a = DataObjectOps::save(&mut m, c).await;
            let mut o = OText { name: "o".into(), v: 1, a: Many::new(), b: Many::new() };
            if with {
                o.a.add(&m).expect("ENGINE add");
            }
            let b = DataObjectOps::save(&mut o, c).await;
            format!("{} {}", say(a), say(b))
        }
        AddMember => match <OText as DataObjectOps<OText>>::get(c, "o").await {
            Ok(mut o) => {
                let mut m = MInt { id: 2, note: Some("n".into()) };
                let a = DataObjectOps::save(&mut m, c).await;
                o.a.add(&m).expect("ENGINE add");
                let b = DataObjectOps::save(&mut o, c).await;
                format!("{} {}", say(a), say(b))
            }
            Err(e) => say::<()>(Err(e)),
        },
        LoadMembers => match <OText as DataObjectOps<OText>>::try_get(c, "o").await {
            Ok(Some(o)) => say(ManyOps::load(&o.a, c).await.map(|l| {
                let mut v: Vec<i64> = l.map(|m| m.id).collect();
                v.sort();
                v
            })),
            r => say(r.map(|_| "none")),
        },
        SaveRef(k) => {
            let mut f = FInt { id: 1, v: 11 };
            let a = DataObjectOps::save(&mut f, c).await;
            let mut r = RInt { id: 1, f: ForeignKey::from_pk(k), o: None };
            let b = DataObjectOps::save(&mut r, c).await;
            format!("{} {}", say(a), say(b))
        }
        LoadRef => match <RInt as DataObjectOps<RInt>>::try_get(c, 1).await {
            Ok(Some(r)) => say(ForeignKeyOps::load(&r.f, c).await.map(|f| f.v)),
            r => say(r.map(|_| "none")),
        },
        Get(k) => say(<KInt as DataObjectOps<KInt>>::get(c, k).await.map(|x| (x.id, x.u, x.v))),
        Gone(k) => say(<KInt as DataObjectOps<KInt>>::try_get(c, k).await.map(|x| x.map(|x| (x.id, x.u, x.v)))),
        First => say(QueryOps::load_first(KAuto::query().order("id", OrderDirection::Descending), c).await.map(|x| x.map(|x| auto_view(&x)))),
        Page => say(QueryOps::load(KAuto::query().order("id", OrderDirection::Ascending).limit(1).offset(1), c).await.map(|x| x.iter().map(auto_view).collect::<Vec<_>>())),
        Delete => match QueryOps::load_first(KAuto::query().order("u", OrderDirection::Ascending), c).await {
            Ok(Some(x)) => say(DataObjectOps::delete(&x, c).await),
            r => say(r.map(|_| "none")),
        },
        DeleteWhere(u) => say(QueryOps::delete(KAuto::query().filter(BoolExpr::Eq("u", Expr::Val(SqlVal::Int(u)))), c).await),
        DeleteTarget => say(QueryOps::delete(FInt::query(), c).await),
        Rows | RowsPart | WrongType | WrongColumn | Wide | NoTable => {
            let mut cols = KCOLS.to_vec();
            let mut table = "KInt";
            match op {
                WrongType => cols[2] = Column::new("v", SqlType::Int),
                WrongColumn => cols[2] = Column::new("w", SqlType::Text),
                Wide => cols[0] = Column::new("id", SqlType::Int),
                NoTable => table = "nosuch",
                _ => {}
            }
            let order = [Order { column: "id", direction: OrderDirection::Ascending }];
            match c.query(table, &cols, None, None, None, Some(&order)).await {
                Err(e) => say::<()>(Err(e)),
                Ok(mut rows) => {
                    let mut out = vec![];
                    loop {
                        match rows.next() {
                            Err(e) => out.push(say::<()>(Err(e))),
                            Ok(None) => out.push("end".to_string()),
                            Ok(Some(r)) => {
                                let vals: Vec<String> = cols.iter().enumerate().map(|(i, col)| say(r.get(i, col.ty().clone()).and_then(|v| decoded(v, col.ty())))).collect();
                                out.push(format!("{} {vals:?} {}", r.len(), r.is_empty()));
                                if op != RowsPart {
                                    continue;
                                }
                            }
                        }
                        break;
                    }
                    // values may be decoded when the row is read, or when the query is run
                    match out.iter().find_map(|o| o.find("failed: ").map(|i| o[i..].chars().take_while(|c| *c != '"' && *c != '\\').collect::<String>())) {
                        Some(e) => e,
                        None => format!("{out:?}"),
                    }
                }
            }
        }
        RawOk => say(c.execute("UPDATE KInt SET u = u + 10").await),
        RawBad => say(c.execute("UPDATE KInt SET").await),
        RawPartly => say(c.execute("DELETE FROM KInt WHERE id = 2; SELEKT").await),
        RawTx => say(c.execute("SELECT 1").await),
        InsertOnly(id) => say(c.insert_only("KInt", &KCOLS, &[SqlValRef::BigInt(id), SqlValRef::Int(5), SqlValRef::Text("i")]).await),
        Replace(id) => say(c.insert_or_replace("KInt", &KCOLS, &KCOLS[0], &[SqlValRef::BigInt(id), SqlValRef::Int(6), SqlValRef::Null]).await),
        Returning => say(c.insert_returning_pk("KAuto", &KCOLS[1..], &KCOLS[0], &[SqlValRef::Int(7), SqlValRef::Null]).await),
        UpdateNone => say(c.update("KInt", KCOLS[0].clone(), SqlValRef::BigInt(5), &KCOLS[1..], &[SqlValRef::Int(8), SqlValRef::Text("u")]).await),
        UpdateNothing => say(c.update("KInt", KCOLS[0].clone(), SqlValRef::BigInt(1), &KCOLS[1..], &[SqlValRef::Int(8), SqlValRef::Int(3)]).await),
        Has(t) => say(c.has_table(t).await),
        Ddl => say(c.execute("CREATE TABLE made (a INT)").await),
        Names => "-".into(),
    }
}

#[maybe_async_cfg::maybe(
    idents(BackendConnection(sync, async = "BackendConnectionAsync"), ConnectionMethods(sync, async = "ConnectionMethodsAsync"), step(sync = "step_sync", async = "step_async")),
    sync(), async())]
async fn drive(c: &mut impl BackendConnection, ops: &[Op]) -> Vec<String> {
    let mut out = vec![];
    let mut i = 0;
    while i < ops.len() {
        match ops[i] {
            Begin => match c.transaction().await {
                Err(e) => {
                    out.push(say::<()>(Err(e)));
                    return out;
                }
                Ok(tx) => {
                    out.push("begun".into());
                    i += 1;
                    while i < ops.len() && !matches!(ops[i], Commit | Rollback | DropTx) {
                        out.push(step(&tx, ops[i]).await);
                        i += 1;
                    }
                    match ops.get(i) {
                        Some(Commit) => out.push(say(tx.commit().await)),
                        Some(Rollback) => out.push(say(tx.rollback().await)),
                        _ => out.push("dropped".into()),
                    }
                }
            },
            Names => out.push(format!("{} {} {}", c.backend_name(), c.backend().name(), c.is_closed())),
            op => out.push(step(c, op).await),
        }
        i += 1;
    }
    out
}

#[maybe_async_cfg::maybe(
    idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), QueryOps),
    sync(), async())]
async fn contents(c: &impl ConnectionMethods) -> String {
    
    let mut out = String::new();
    for (t, cols) in [("KAuto", &KCOLS[..]), ("KInt", &KCOLS[..]), ("MInt", &[Column::new("id", SqlType::BigInt), Column::new("note", SqlType::Text)][..]), ("OText", &[Column::new("name", SqlType::Text), Column::new("v", SqlType::Int)][..]), ("OText_a_Many", &[Column::new("owner", SqlType::Text), Column::new("has", SqlType::BigInt)][..]), ("FInt", &[Column::new("id", SqlType::BigInt), Column::new("v", SqlType::Int)][..]), ("RInt", &[Column::new("id", SqlType::BigInt), Column::new("f", SqlType::BigInt)][..])] {
        let order: Vec<Order> = cols.iter().map(|c| Order { column: c.name(), direction: OrderDirection::Ascending }).collect();
        match c.query(t, cols, None, None, None, Some(&order)).await {
            Err(e) => out += &format!("{t}: {e}\n"),
            Ok(mut rows) => {
                out += t;
                loop {
                    match rows.next() {
                        Ok(Some(r)) => out += &format!(" {:?}", cols.iter().enumerate().map(|(i, c)| r.get(i, c.ty().clone()).map(SqlVal::from).map_err(|e| e.to_string())).collect::<Vec<_>>()),
                        Ok(None) => break,
                        Err(e) => {
                            out += &format!("{e}");
                            break;
                        }
                    }
                }
                out.push('\n');
            }
        }
    }
    out += &say(c.has_table("made").await);
    out
}

/// A way of reaching a backend: how to open it, and how the operations are run on it.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Plain(Cfg),
    Wrapped(Cfg, u8),  // wrapped in that many further adapters
    Borrowed(Cfg),     // the whole sequence in one with_sync
    Stepwise(Cfg),     // each top-level operation in a with_sync of its own
}
use Way::*;
impl Way {
    fn open(self, s: &str) -> Any {
        let (cfg, n) = match self {
            Plain(c) | Borrowed(c) | Stepwise(c) => (c, 0),
            Wrapped(c, n) => (c, n),
        };
        let mut x = open(cfg, s).expect("ENGINE connect");
        for _ in 0..n {
            let _g = RT.enter();
            x = match x {
                Any::S(c) => Any::A(c.into_async().expect("ENGINE into_async")),
                Any::A(c) => Any::S(c.into_sync().expect("ENGINE into_sync")),
            };
        }
        x
    }
    fn run(self, c: &mut Any, ops: &[Op]) -> Vec<String> {
        match self {
            Borrowed(_) => {
                let v = ops.to_vec();
                match RT.block_on(c.a().with_sync(move |c: &mut SyncAdapter<ConnectionAsync>| Ok(drive_sync(c, &v)))) {
                    Ok(v) => v,
                    Err(e) => vec![format!("with_sync: {e}")],
                }
            }
            Stepwise(_) => {
                let mut out = vec![];
                let mut i = 0;
                while i < ops.len() {
                    let mut j = i + 1;
                    if ops[i] == Begin {
                        while j < ops.len() && !matches!(ops[j], Commit | Rollback | DropTx) {
                            j += 1;
                        }
                        j = (j + 1).min(ops.len());
                    }
                    let v = ops[i..j].to_vec();
                    match RT.block_on(c.a().with_sync(move |c: &mut SyncAdapter<ConnectionAsync>| Ok(drive_sync(c, &v)))) {
                        Ok(v) => out.extend(v),
                        Err(e) => out.push(format!("with_sync: {e}")),
                    }
                    i = j;
                }
                out
            }
            _ => crate::both!(c, drive_sync, drive_async, ops),
        }
    }
}
fn ways(be: Be) -> Vec<Way> {
    match be {
        Be::Sq => vec![Plain(Cfg::SqSync), Plain(Cfg::SqAsync), Plain(Cfg::SqRound), Wrapped(Cfg::SqSync, 1), Wrapped(Cfg::SqSync, 3), Borrowed(Cfg::SqAsync), Stepwise(Cfg::SqAsync)],
        Be::Pg => vec![Plain(Cfg::PgAsync), Plain(Cfg::PgSync), Plain(Cfg::PgAdapt), Wrapped(Cfg::PgAsync, 1), Wrapped(Cfg::PgSync, 2), Borrowed(Cfg::PgAsync), Stepwise(Cfg::PgAdapt)],
        Be::Tu => vec![Plain(Cfg::TuAsync), Plain(Cfg::TuSync), Wrapped(Cfg::TuAsync, 2), Borrowed(Cfg::TuAsync), Stepwise(Cfg::TuAsync)],
    }
}

struct W {
    ways: Vec<(Way, Any)>,
    dbs: Vec<(Db, Option<PgRaw>)>,
}
/// The committed contents in one query.
fn pg_contents(c: &PgRaw) -> String {
    let agg = |t: &str| format!("(SELECT json_agg(t ORDER BY 1, 2)::text FROM (SELECT * FROM {t} ORDER BY 1, 2) t)").replace("json_agg(t ORDER BY 1, 2)", "json_agg(t)");
    let sql = format!("SELECT {}, to_regclass('made')::text", ["KAuto", "KInt", "MInt", "OText", "OText_a_Many", "FInt", "RInt"].map(|t| agg(t)).join(", "));
    format!("{:?}", c.q(&sql).expect("ENGINE contents"))
}
const TABLES: [&str; 6] = ["KAuto", "KInt", "MInt", "OText", "FInt", "RInt"];
fn fresh(be: Be) -> W {
    let mut w = W { ways: vec![], dbs: vec![] };
    for way in ways(be) {
        let db = Db::new(be, false);
        let c = way.open(&db.conn_str);
        c.execute(&ddl(be, &schema(&TABLES))).expect("ENGINE schema");
        w.ways.push((way, c));
        let raw = (be == Be::Pg).then(|| PgRaw::open(&db.conn_str));
        w.dbs.push((db, raw));
    }
    w
}
fn reset(be: Be, c: &Any) -> butane::Result<()> {
    let mut all = String::from("DROP TABLE IF EXISTS made;");
    for t in ["RInt", "FInt", "OText_a_Many", "OText", "MInt", "KInt", "KAuto"] {
        all += &format!("DELETE FROM {t};");
    }
    if be == Be::Pg {
        all += "ALTER SEQUENCE KAuto_id_seq RESTART;";
    }
    c.execute(&all)
}

pub fn run(ctx: &Ctx) {
    let all = ops();
    let only = std::env::var("BMC_CFG").ok();
    // a committed row of each kind to fail and to change on
    let seeds: Vec<Vec<Op>> = vec![vec![], vec![SaveInt(1, 1), SaveAuto(2), SaveOwner(true), SaveRef(1)]];
    for be in [Be::Sq, Be::Pg, Be::Tu] {
        if only.as_ref().is_some_and(|o| *o != format!("{be:?}")) {
            continue;
        }
        for (si, seed) in seeds.iter().enumerate() {
            let depth = std::env::var("DEPTH").ok().and_then(|d| d.parse().ok()).unwrap_or(if ctx.thorough { 4 } else if si == 0 || be != Be::Pg { 3 } else { 2 });
            bfs(ctx, &format!("{be:?}/{si}"), &all, depth, |_| Some(fresh(be)), |slot: &mut Option<W>, h| {
                let seq: Vec<Op> = h.iter().map(|i| all[*i]).collect();
                // transactions do not nest, and only end when open
                let mut open = false;
                for o in &seq {
                    match o {
                        Begin if open => return None,
                        Commit | Rollback | DropTx if !open => return None,
                        Names if open => return None,
                        Begin => open = true,
                        Commit | Rollback | DropTx => open = false,
                        _ => {}
                    }
                }
                let mut w = slot.take().unwrap_or_else(|| fresh(be));
                let full: Vec<Op> = seed.iter().chain(&seq).copied().collect();
                let mut first: Option<(Vec<String>, String)> = None;
                let mut ok = true;
                for ((way, c), (_, raw)) in w.ways.iter_mut().zip(&w.dbs) {
                    let r = catch(|| {
                        reset(be, c).map_err(|e| format!("reset: {e}"))?;
                        let out = way.run(c, &full);
                        let end = match raw {
                            Some(raw) => pg_contents(raw),
                            None => crate::both!(c, contents_sync, contents_async),
                        };
                        Ok::<_, String>((out, end))
                    });
                    let got = match r {
                        Ok(Ok(x)) => x,
                        Ok(Err(e)) => (vec![format!("unusable: {e}")], String::new()),
                        Err(p) => (vec![format!("panicked: {p}")], String::new()),
                    };
                    match &first {
                        None => {
                            if got.0.iter().any(|s| s.starts_with("panicked") || s.starts_with("unusable")) {
                                ctx.violation(&format!("{be:?} {seq:?}"), format!("{way:?}: {:?}", got.0));
                                ok = false;
                                break;
                            }
                            first = Some(got)
                        }
                        Some(f) if *f != got => {
                            let at = f.0.iter().zip(&got.0).position(|(a, b)| a != b).unwrap_or(f.0.len().min(got.0.len()));
                            ctx.violation(&format!("{be:?} {seq:?}"), format!("sequence {full:?}\nstep {at}: {:?}\nthrough {:?}: {:?}\nthrough {way:?}: {:?}\ncontents\n{}\nand\n{}", full.get(at), ways(be)[0], f.0.get(at), got.0.get(at), f.1, got.1));
                            ok = false;
                            break;
                        }
                        _ => {}
                    }
                }
                if !ok {
                    return None; // with fresh connections from here
                }
                *slot = Some(w);
                let (out, end) = first.unwrap();
                let begun = if open { full.iter().rposition(|o| *o == Begin).unwrap_or(0) } else { out.len() };
                let failed = out.get(begun..).is_some_and(|o| o.iter().any(|s| s.contains("failed")));
                let tail = if ctx.thorough { out.len().saturating_sub(if open { 3 } else { 2 }) } else { out.len() };
                if let Some(x) = out.last() {
                    let last = if open && out.len() > 1 { &out[out.len() - 2] } else { x };
                    if last.contains("failed") {
                        ctx.nontriv();
                    }
                    ctx.outcome(format!("{be:?}: {}", last.split(|c: char| c.is_ascii_digit()).next().unwrap_or("").chars().take(40).collect::<String>()));
                }
                let last = out.iter().rev().nth(open as usize).is_some_and(|s| s.contains("failed"));
                Some(hash64(&(end, open, failed, last, &out[tail..])))
            });
        }
    }
    ctx.assume("the error text is not compared, only the variant and the database's error code");
}
