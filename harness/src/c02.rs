//! C02: order, limit, offset, first and bulk delete.
use crate::backends::*;
use crate::both;
use crate::c01::{self, many, sub, universe, Uni, MANY};
use crate::engine::*;
use crate::models::*;
use crate::refmodel::*;
use butane::db::{BackendConnection, BackendConnectionAsync, ConnectionMethods, ConnectionMethodsAsync};
use butane::query::{BoolExpr, Expr, OrderDirection, QueryOpsAsync, QueryOpsSync};
use butane::{query::Query, DataResult, SqlVal};
use std::cmp::Ordering;
use BoolExpr::*;

pub const RULE: &str = "every combination of filter, sort columns and directions, limit and offset within the stated bounds, loaded and loaded-first through every backend and interface, on a connection and in a transaction, compared with a sorted and sliced reference; every filter bulk-deleted and the survivors compared; non-trivial = some but not all rows are returned or removed";

fn v(x: SqlVal) -> Expr {
    Expr::Val(x)
}
fn i(x: i32) -> SqlVal {
    SqlVal::Int(x)
}
fn t(x: &str) -> SqlVal {
    SqlVal::Text(x.into())
}
#[derive(Clone, Debug)]
pub struct Q {
    pub filter: Option<BoolExpr>,
    pub sort: Vec<(&'static str, bool)>, // true = descending
    pub limit: Option<i32>,
    pub offset: Option<i32>,
}
impl Q {
    pub fn build<T: DataResult>(&self) -> Query<T> {
        let mut q = T::query();
        if let Some(f) = &self.filter {
            q = q.filter(f.clone());
        }
        for (c, d) in &self.sort {
            q = match (c.len() % 2 == 0, d) {
                (_, true) if c.len() == 1 => q.order_desc(c),
                (_, false) if c.len() == 1 => q.order_asc(c),
                (_, true) => q.order(c, OrderDirection::Descending),
                (_, false) => q.order(c, OrderDirection::Ascending),
            };
        }
        if let Some(l) = self.limit {
            q = q.limit(l);
        }
        if let Some(o) = self.offset {
            q = q.offset(o);
        }
        q
    }
}

#[maybe_async_cfg::maybe(idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), QueryOps), sync(), async())]
async fn run_q(c: &impl ConnectionMethods, q: &Q) -> Result<(Vec<QItem>, Option<QItem>), String> {
    let all: Vec<QItem> = QueryOps::load(q.build::<QItem>(), c).await.map_err(|e| format!("load: {e}"))?;
    let first: Option<QItem> = QueryOps::load_first(q.build::<QItem>(), c).await.map_err(|e| format!("first: {e}"))?;
    Ok((all, first))
}
#[maybe_async_cfg::maybe(
    idents(BackendConnection(sync, async = "BackendConnectionAsync"), run_q(sync = "run_q_sync", async = "run_q_async")),
    sync(), async())]
async fn query(c: &mut impl BackendConnection, q: &Q, tx: bool) -> Result<(Vec<QItem>, Option<QItem>), String> {
    if tx {
        let t = c.transaction().await.map_err(|e| e.to_string())?;
        let r = run_q(&t, q).await;
        t.rollback().await.map_err(|e| e.to_string())?;
        r
    } else {
        run_q(c, q).await
    }
}
#[maybe_async_cfg::maybe(
    idents(BackendConnection(sync, async = "BackendConnectionAsync"), ConnectionMethods(sync, async = "ConnectionMethodsAsync"), QueryOps),
    sync(), async())]
async fn bulk(c: &mut impl BackendConnection, q: &Q, tx: bool) -> Result<usize, String> {
    if tx {
        let t = c.transaction().await.map_err(|e| e.to_string())?;
        let r = QueryOps::delete(q.build::<QItem>(), &t).await.map_err(|e| e.to_string());
        if r.is_ok() {
            t.commit().await.map_err(|e| e.to_string())?;
        }
        r
    } else {
        QueryOps::delete(q.build::<QItem>(), c).await.map_err(|e| e.to_string())
    }
}
#[maybe_async_cfg::maybe(idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), QueryOps), sync(), async())]
async fn survivors(c: &mut impl ConnectionMethods) -> Result<(Vec<i64>, usize, usize), String> {
    let mut a: Vec<i64> = QueryOps::load(QItem::query(), c).await.map_err(|e| e.to_string())?.into_iter().map(|x| x.id).collect();
    a.sort();
    let g = QueryOps::load(QGrp::query(), c).await.map_err(|e| e.to_string())?.len();
    let t = QueryOps::load(QTag::query(), c).await.map_err(|e| e.to_string())?.len();
    Ok((a, g, t))
}

pub fn filters() -> Vec<Option<BoolExpr>> {
    vec![
        None,
        Some(True),
        Some(Eq("n", v(i(1)))),
        Some(Eq("s", v(SqlVal::Null))),
        Some(Or(Box::new(Like("s", v(t("a%")))), Box::new(Gt("m", v(i(1)))))),
        Some(Eq("s", v(t("none")))),
    ]
}
/// Sort orders: every sequence of up to `n` columns, also repeated ones, in both directions.
pub fn sorts(n: usize, cols: &[&'static str]) -> Vec<Vec<(&'static str, bool)>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for s in &last {
            for c in cols {
                for d in [false, true] {
                    let mut s2: Vec<(&'static str, bool)> = s.clone();
                    s2.push((c, d));
                    next.push(s2);
                }
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
fn row_key<'a>(r: &'a RTable, row: usize, c: &str) -> &'a SqlVal {
    &r.rows[row][r.cols.iter().position(|x| *x == c).unwrap()]
}
/// Compare rows by the sort order; where absent values sort is up to the database.
fn ord(r: &RTable, a: usize, b: usize, sort: &[(&'static str, bool)], nulls_small: bool) -> Ordering {
    for (c, d) in sort {
        let (x, y) = (row_key(r, a, c), row_key(r, b, c));
        let o = match (x, y) {
            (SqlVal::Null, SqlVal::Null) => Ordering::Equal,
            (SqlVal::Null, _) => if nulls_small { Ordering::Less } else { Ordering::Greater },
            (_, SqlVal::Null) => if nulls_small { Ordering::Greater } else { Ordering::Less },
            _ => cmp(x, y).unwrap(),
        };
        let o = if *d { o.reverse() } else { o };
        if o != Ordering::Equal {
            return o;
        }
    }
    Ordering::Equal
}
/// Is `got` (row indices) an answer to `q` over `matching`?
pub fn acceptable(r: &RTable, matching: &[usize], q: &Q, got: &[usize], limit: Option<i32>) -> Result<(), String> {
    let off = q.offset.unwrap_or(0) as usize;
    let n = matching.len().saturating_sub(off).min(limit.map(|l| l as usize).unwrap_or(usize::MAX));
    if got.len() != n {
        return Err(format!("{} rows instead of {n}", got.len()));
    }
    let mut g = got.to_vec();
    g.sort();
    g.dedup();
    if g.len() != got.len() || g.iter().any(|x| !matching.contains(x)) {
        return Err("rows repeated or not matching".into());
    }
    'null: for nulls_small in [true, false] {
        let mut m = matching.to_vec();
        m.sort_by(|a, b| ord(r, *a, *b, &q.sort, nulls_small));
        for (k, x) in got.iter().enumerate() {
            if ord(r, *x, m[off + k], &q.sort, nulls_small) != Ordering::Equal {
                continue 'null;
            }
        }
        return Ok(());
    }
    Err("not the rows at these positions of the sorted sequence".into())
}

pub fn run(ctx: &Ctx) {
    let uni = universe(Uni::Rich);
    let tab = uni.table("QItem").clone();
    // --- loads ---
    let mut qs = vec![];
    let ncols = if ctx.thorough { 3 } else { 2 };
    let lims: &[Option<i32>] = &[None, Some(0), Some(1), Some(2), Some(5), Some(36), Some(100), Some(i32::MAX)];
    let offs: &[Option<i32>] = &[None, Some(0), Some(1), Some(3), Some(35), Some(36), Some(50)];
    for filter in filters() {
        for sort in sorts(ncols, &["n", "s", "m", "d", "b", "id", "big"]) {
            for limit in lims {
                for offset in offs {
                    if sort.len() >= 2 && (matches!(limit, Some(0 | 36 | 100)) || matches!(offset, Some(0 | 35 | 36))) {
                        continue;
                    }
                    if sort.len() >= 2 && !ctx.thorough && filter.is_some() && filter != Some(Eq("n", v(i(1)))) {
                        continue;
                    }
                    qs.push(Q { filter: filter.clone(), sort: sort.clone(), limit: *limit, offset: *offset });
                }
            }
        }
    }
    // Three terms, where an earlier one decides most rows
    for sort in sorts(3, &["n", "m", "s"]).into_iter().filter(|s| s.len() == 3 && !ctx.thorough) {
        qs.push(Q { filter: None, sort: sort.clone(), limit: None, offset: None });
        qs.push(Q { filter: None, sort, limit: Some(5), offset: Some(3) });
    }
    ctx.bound("queries", qs.len());
    let matching: Vec<(Option<BoolExpr>, Vec<usize>)> = filters().into_iter().map(|f| {
        let m = uni.select("QItem", f.as_ref().unwrap_or(&True));
        (f, m)
    }).collect();
    for cfg in ALL {
        for tx in [false, true] {
            if tx && !ctx.thorough && !matches!(cfg, Cfg::SqSync | Cfg::PgAsync | Cfg::TuAsync) {
                continue;
            }
            let step = if ctx.thorough || matches!(cfg, Cfg::SqSync | Cfg::PgAsync | Cfg::TuAsync) && !tx { 1 } else { 5 };
            let pick: Vec<&Q> = qs.iter().enumerate().filter(|(k, q)| step == 1 || q.sort.len() < 2 && (q.limit.is_some() != (k % 2 == 0) || q.sort.is_empty())).map(|x| x.1).collect();
            par(ctx, pick.len().div_ceil(64), |_| {
                let db = Db::new(cfg.be(), false);
                let c = open(cfg, &db.conn_str).expect("open");
                c01::fill(&c, cfg.be(), &uni);
                (db, c)
            }, |(_, c), chunk| {
                for q in pick.iter().copied().skip(chunk * 64).take(64) {
                    ctx.trans(1);
                    ctx.valid();
                    let got = catch(|| both!(c, query_sync, query_async, q, tx));
                    let m = &matching.iter().find(|x| x.0 == q.filter).unwrap().1;
                    let verdict = match &got {
                        Ok(Ok((all, first))) => {
                            let rows: Vec<usize> = all.iter().map(|x| (x.id - 1) as usize).collect();
                            if !rows.is_empty() && rows.len() < tab.rows.len() {
                                ctx.nontriv();
                            }
                            ctx.state(hash64(&(&rows, q.sort.len(), q.limit, q.offset)));
                            let mut r = acceptable(&tab, m, q, &rows, q.limit);
                            if r.is_ok() && q.limit != Some(0) {
                                let f: Vec<usize> = first.iter().map(|x| (x.id - 1) as usize).collect();
                                r = acceptable(&tab, m, q, &f, Some(1)).map_err(|e| format!("first: {e}"));
                            }
                            r
                        }
                        e => Err(format!("{e:?}")),
                    };
                    if let Err(e) = verdict {
                        ctx.violation(&format!("{:?} tx={tx} {q:?}", cfg.be()), format!("{e}\ninterface {cfg:?}\n{q:#?}\n{got:?}"));
                    }
                }
            });
            if ctx.stop() {
                return;
            }
        }
    }
    ctx.sample(serde_json::json!(format!("{:?}", qs[qs.len() / 2])));
    // --- bulk deletes ---
    // Links keep their owners: a delete that would orphan one is refused as a whole.
    let mut del: Vec<BoolExpr> = filters().into_iter().flatten().collect();
    let g = [True, Eq("name", v(t("a"))), Not(Box::new(Eq("name", v(t("a"))))), Eq("rank", v(SqlVal::Null))];
    for e in g {
        del.push(sub(e.clone()));
        del.push(Not(Box::new(sub(e.clone()))));
        del.push(And(Box::new(sub(e.clone())), Box::new(Eq("n", v(i(1))))));
    }
    for e in [Eq("weight", v(i(1))), Eq("name", v(t("z"))), sub(Eq("name", v(t("a"))))] {
        del.push(many(e.clone()));
        del.push(Not(Box::new(many(e.clone()))));
        del.push(AllOf(vec![many(e.clone()), Eq("n", v(i(2)))]));
    }
    del.push(In("n", vec![]));
    del.push(In("m", vec![i(0), i(2)]));
    del.push(In("s", vec![t("a"), t("b")]));
    del.push(AllOf(vec![]));
    del.push(Eq("id", v(SqlVal::BigInt(7))));
    del.push(And(Box::new(Or(Box::new(Eq("n", v(i(1)))), Box::new(Eq("n", v(i(2)))))), Box::new(Eq("s", v(t("b"))))));
    for (k, kind) in [Uni::Rich, Uni::Poor, Uni::NoNull].into_iter().enumerate() {
        let mut uni = universe(kind);
        // which owners may go: without links all of them
        for links in [true, false] {
            if !links {
                if k == 1 {
                    continue;
                }
                uni.t.get_mut(MANY).unwrap().rows.retain(|r| matches!(r[0], SqlVal::BigInt(x) if x % 3 == 0));
            }
            for cfg in ALL {
                let work: Vec<(usize, bool)> = (0..del.len()).flat_map(|j| [(j, false), (j, true)]).collect();
                par(ctx, work.len(), |_| {
                    let db = Db::new(cfg.be(), false);
                    let c = open(cfg, &db.conn_str).expect("open");
                    c01::fill(&c, cfg.be(), &uni);
                    (db, c, false)
                }, |(_, c, dirty), w| {
                    let (j, tx) = work[w];
                    let e = &del[j];
                    if cfg.be() == Be::Tu && kind != Uni::NoNull && c01::membership(e) {
                        return;
                    }
                    ctx.trans(1);
                    ctx.valid();
                    if *dirty {
                        for tb in [MANY, "QItem", "QTag", "QGrp"] {
                            c.execute(&format!("DELETE FROM {tb}")).unwrap();
                        }
                        for s in uni.inserts(&["QGrp", "QTag", "QItem", MANY]) {
                            c.execute(&s).unwrap();
                        }
                        *dirty = false;
                    }
                    let gone = uni.select("QItem", e);
                    let linked = gone.iter().any(|r| uni.table(MANY).rows.iter().any(|l| l[0] == SqlVal::BigInt(*r as i64 + 1)));
                    let q = Q { filter: Some(e.clone()), sort: vec![], limit: None, offset: None };
                    let got = catch(|| both!(c, bulk_sync, bulk_async, &q, tx));
                    *dirty = true;
                    let all: Vec<i64> = (1..=tab.rows.len() as i64).collect();
                    let rest: Vec<i64> = all.iter().copied().filter(|x| !gone.contains(&((*x - 1) as usize))).collect();
                    let left = catch(|| both!(c, survivors_sync, survivors_async));
                    let (ng, nt) = (uni.table("QGrp").rows.len(), uni.table("QTag").rows.len());
                    let ok = match (&got, &left) {
                        (Ok(Ok(n)), Ok(Ok((ids, g, t)))) => !linked && *n == gone.len() && *ids == rest && *g == ng && *t == nt,
                        (Ok(Err(_)), Ok(Ok((ids, g, t)))) => linked && *ids == all && *g == ng && *t == nt,
                        _ => false,
                    };
                    if !gone.is_empty() && gone.len() < tab.rows.len() {
                        ctx.nontriv();
                    }
                    if !ok {
                        ctx.violation(&format!("{:?} delete {kind:?} links={links} tx={tx} {e:?}", cfg.be()),
                            format!("expected {} of {} removed, refused={linked}\ngot {got:?}\nleft {left:?}\ninterface {cfg:?}\n{e:#?}", gone.len(), all.len()));
                    }
                });
                if ctx.stop() {
                    return;
                }
            }
        }
    }
    // --- deletes by the values of unique columns and keys ---
    let fs: Vec<BoolExpr> = vec![
        Eq("u", v(i(1))), Eq("u", v(i(9))), In("u", vec![i(1), i(2)]), Gt("u", v(i(1))), Eq("id", v(SqlVal::BigInt(1))),
        In("id", vec![SqlVal::BigInt(1), SqlVal::BigInt(3)]), Ge("id", v(SqlVal::BigInt(2))), Eq("v", v(t("x"))), Ne("u", v(i(2))),
        Not(Box::new(Eq("u", v(i(2))))), And(Box::new(Eq("u", v(i(1)))), Box::new(Eq("v", v(t("x"))))), True,
    ];
    let rows: [(i64, i32, Option<&str>); 4] = [(1, 1, Some("x")), (2, 2, None), (3, 3, Some("x")), (4, 4, Some("y"))];
    let mut u = RDb::default();
    u.t.insert("KInt".into(), RTable {
        cols: vec!["id", "u", "v"],
        rows: rows.iter().map(|r| vec![SqlVal::BigInt(r.0), i(r.1), r.2.map(t).unwrap_or(SqlVal::Null)]).collect(),
    });
    for cfg in ALL {
        par(ctx, fs.len(), |_| {
            let db = Db::new(cfg.be(), false);
            let c = open(cfg, &db.conn_str).expect("open");
            c.execute(&ddl(cfg.be(), &crate::backends::schema(&["KInt"]))).unwrap();
            (db, c)
        }, |(_, c), k| {
            ctx.trans(1);
            ctx.valid();
            c.execute("DELETE FROM KInt").unwrap();
            for s in u.inserts(&["KInt"]) {
                c.execute(&s).unwrap();
            }
            let gone = u.select("KInt", &fs[k]);
            let rest: Vec<i64> = (0..4).filter(|x| !gone.contains(x)).map(|x| x as i64 + 1).collect();
            let got = catch(|| both!(c, bulk_keyed_sync, bulk_keyed_async, fs[k].clone()));
            if got != Ok(Ok((gone.len(), rest.clone()))) {
                ctx.violation(&format!("{:?} keyed delete {:?}", cfg.be(), fs[k]), format!("{got:?}, expected {} gone, left {rest:?}\ninterface {cfg:?}", gone.len()));
            }
        });
    }
}
#[maybe_async_cfg::maybe(idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), QueryOps), sync(), async())]
async fn bulk_keyed(c: &mut impl ConnectionMethods, e: BoolExpr) -> Result<(usize, Vec<i64>), String> {
    let n = QueryOps::delete(KInt::query().filter(e), c).await.map_err(|e| e.to_string())?;
    let mut left: Vec<i64> = QueryOps::load(KInt::query(), c).await.map_err(|e| e.to_string())?.into_iter().map(|x| x.id).collect();
    left.sort();
    Ok((n, left))
}
