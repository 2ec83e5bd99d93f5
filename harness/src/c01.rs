//! C01: a filtered query returns exactly the rows its expression is true for.
use crate::backends::*;
use crate::both;
use crate::engine::*;
use crate::models::*;
use crate::refmodel::*;
use butane::db::{ConnectionMethods, ConnectionMethodsAsync};
use butane::query::{BoolExpr, Column, Expr, Join, QueryOpsAsync, QueryOpsSync};
use butane::{DataResult, SqlVal};
use std::borrow::Cow;
use BoolExpr::*;

pub const RULE: &str = "every filter expression of the stated grammar and size is run on a table holding the product of all column values, through every backend and interface, and its rows compared with a three-valued-logic evaluation of the tree; non-trivial = selects some but not all rows";

pub const TABLES: [&str; 3] = ["QGrp", "QTag", "QItem"];
pub const MANY: &str = "QItem_tags_Many";
fn i(x: i32) -> SqlVal {
    SqlVal::Int(x)
}
fn l(x: i64) -> SqlVal {
    SqlVal::BigInt(x)
}
fn t(x: &str) -> SqlVal {
    SqlVal::Text(x.into())
}
fn v(x: SqlVal) -> Expr {
    Expr::Val(x)
}
pub const BIG: i64 = 5_000_000_000;
/// The universe: every combination of the nullable columns; `rich` = related tables populated.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Uni {
    Poor,   // related tables empty
    Rich,
    NoNull, // as Rich, without absent values
}
pub fn universe(u: Uni) -> RDb {
    let rich = u != Uni::Poor;
    let nn = u == Uni::NoNull;
    let or = |v: SqlVal, d: SqlVal| if nn && v == SqlVal::Null { d } else { v };
    let mut db = RDb::default();
    let grps = if rich {
        vec![
            vec![l(1), t("a"), i(1), or(SqlVal::Null, l(8))],
            vec![l(2), t("b"), or(SqlVal::Null, i(7)), l(1)],
            vec![l(3), t("ab"), i(2), l(9)],
        ]
    } else {
        vec![]
    };
    db.t.insert("QGrp".into(), RTable { cols: vec!["id", "name", "rank", "parent"], rows: grps });
    let tags = if rich {
        vec![vec![t("x"), i(1), l(1)], vec![t("y"), i(2), or(SqlVal::Null, l(3))], vec![t("z"), i(2), l(2)]]
    } else {
        vec![]
    };
    db.t.insert("QTag".into(), RTable { cols: vec!["name", "weight", "grp"], rows: tags });
    let mut rows = vec![];
    let mut many = vec![];
    let mut id = 0i64;
    for n in [SqlVal::Null, i(1), i(2)] {
        for s in [SqlVal::Null, t("a"), t("ab"), t("b")] {
            for g in [SqlVal::Null, l(1), l(2)] {
                id += 1;
                let (n, s, g) = (or(n.clone(), i(7)), or(s.clone(), t("q")), or(g, l(3)));
                let g = if rich { g } else { SqlVal::Null };
                rows.push(vec![l(id), n.clone(), i((id % 3) as i32), s.clone(), SqlVal::Bool(id % 2 == 0),
                    SqlVal::Real([-1.5, 0.0, 0.25][(id % 3) as usize]), l([0, -1, BIG, i64::MIN + 1][(id % 4) as usize]), g]);
                if rich {
                    for (k, name) in [(1, "x"), (2, "y"), (4, "z")] {
                        if (id % 7) & k != 0 {
                            many.push(vec![l(id), t(name)]);
                        }
                    }
                }
            }
        }
    }
    db.t.insert("QItem".into(), RTable { cols: vec!["id", "n", "m", "s", "b", "d", "big", "grp"], rows });
    db.t.insert(MANY.into(), RTable { cols: vec!["owner", "has"], rows: many });
    db
}
pub fn fill(env: &Any, be: Be, db: &RDb) {
    for s in ddl(be, &schema(&TABLES)).split(';').map(|s| s.trim()).filter(|s| !s.is_empty()) {
        env.execute(s).unwrap_or_else(|e| panic!("setup {s}: {e}"));
    }
    for s in db.inserts(&["QGrp", "QTag", "QItem", MANY]) {
        env.execute(&s).unwrap_or_else(|e| panic!("setup {s}: {e}"));
    }
}

#[maybe_async_cfg::maybe(idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), QueryOps), sync(), async())]
async fn load_ids(c: &mut impl ConnectionMethods, e: BoolExpr) -> Result<Vec<i64>, String> {
    let r: Vec<QItem> = QueryOps::load(QItem::query().filter(e), c).await.map_err(|e| e.to_string())?;
    Ok(r.into_iter().map(|x| x.id).collect())
}

fn bx(e: BoolExpr) -> Box<BoolExpr> {
    Box::new(e)
}
pub fn sub(e: BoolExpr) -> BoolExpr {
    Subquery { col: "grp", tbl2: Cow::Borrowed("QGrp"), tbl2_col: "id", expr: bx(e) }
}
/// Through the key of the group a group's `parent` column names.
fn subparent(e: BoolExpr) -> BoolExpr {
    Subquery { col: "parent", tbl2: Cow::Borrowed("QGrp"), tbl2_col: "id", expr: bx(e) }
}
/// id in (select parent ...): the set can contain an absent value.
fn subnull(e: BoolExpr) -> BoolExpr {
    Subquery { col: "id", tbl2: Cow::Borrowed("QGrp"), tbl2_col: "parent", expr: bx(e) }
}
pub fn many(e: BoolExpr) -> BoolExpr {
    SubqueryJoin {
        col: "id", tbl2: Cow::Borrowed("QTag"), col2: Column::new(MANY, "owner"),
        joins: vec![Join::Inner { join_table: MANY, col1: Column::new(MANY, "has"), col2: Column::new("QTag", "name") }],
        expr: bx(e),
    }
}
type Op = fn(&'static str, Expr) -> BoolExpr;
const OPS: [Op; 6] = [Eq, Ne, Lt, Gt, Le, Ge];

/// Every comparison of every column with every value of its kind.
fn atoms() -> Vec<BoolExpr> {
    let mut a = vec![True];
    let cols: Vec<(&'static str, Vec<SqlVal>, bool)> = vec![
        ("id", vec![l(1), l(17), l(40)], false),
        ("n", vec![i(0), i(1), i(2), i(-1), i(i32::MAX), i(i32::MIN)], true),
        ("m", vec![i(0), i(1), i(-3)], false),
        ("s", vec![t(""), t("a"), t("ab"), t("b"), t("it's"), t("a%")], true),
        ("b", vec![SqlVal::Bool(true), SqlVal::Bool(false)], false),
        ("d", vec![SqlVal::Real(0.0), SqlVal::Real(-1.5), SqlVal::Real(0.25), SqlVal::Real(1e300)], false),
        ("big", vec![l(0), l(-1), l(BIG), l(i64::MAX), l(i64::MIN + 1)], false),
        ("grp", vec![l(1), l(2), l(7)], true),
    ];
    for (c, vals, nullable) in &cols {
        for op in OPS {
            for x in vals {
                a.push(op(c, v(x.clone())));
            }
            if *nullable {
                a.push(op(c, v(SqlVal::Null)));
            }
        }
        for n in 0..=vals.len().min(3) {
            a.push(In(c, vals[..n].to_vec()));
            a.push(In(c, vals[vals.len() - n..].to_vec()));
        }
        if *nullable {
            a.push(In(c, vec![SqlVal::Null]));
            a.push(In(c, vec![SqlVal::Null, vals[1].clone()]));
        }
    }
    for p in ["", "%", "_", "a", "a%", "%b", "_b", "%a%", "__", "c%", "a'%"] {
        a.push(Like("s", v(t(p))));
    }
    a.push(Like("s", v(SqlVal::Null)));
    for op in OPS {
        a.push(op("n", Expr::Column("m")));
        a.push(op("m", Expr::Column("n")));
        a.push(op("m", Expr::Column("m")));
    }
    // large membership lists
    a.push(In("n", (0..300).map(i).collect()));
    for n in [100, 126, 127, 128, 129, 254, 255, 256, 257, 300] {
        let mut w: Vec<SqlVal> = (0..n).map(|k| t(&format!("k{k}"))).collect();
        a.push(In("s", w.clone()));
        w[n - 1] = t("ab");
        a.push(In("s", w));
    }
    a
}
/// Comparisons inside relation lookups.
fn inner_grp() -> Vec<BoolExpr> {
    vec![
        True, Eq("name", v(t("a"))), Ne("name", v(t("a"))), Like("name", v(t("a%"))), Eq("rank", v(i(1))), Eq("rank", v(SqlVal::Null)),
        Ne("rank", v(SqlVal::Null)), Gt("rank", v(i(1))), Eq("id", v(l(2))), In("name", vec![t("a"), t("b")]), In("id", vec![]),
        Eq("name", v(t("none"))),
    ]
}
fn inner_tag() -> Vec<BoolExpr> {
    vec![
        True, Eq("weight", v(i(1))), Ne("weight", v(i(1))), Ge("weight", v(i(2))), Eq("name", v(t("x"))), Eq("grp", v(SqlVal::Null)),
        In("name", vec![t("x"), t("z")]), Like("name", v(t("y"))), Eq("name", v(t("none"))), In("weight", vec![]),
    ]
}
/// All expressions with exactly `n` leaves and a Not allowed at every node.
fn trees(n: usize, leaves: &[BoolExpr], memo: &mut Vec<Vec<BoolExpr>>) {
    while memo.len() <= n {
        let k = memo.len();
        let mut out = vec![];
        if k == 1 {
            out.extend(leaves.iter().cloned());
        }
        for a in 1..k {
            let b = k - a;
            for x in &memo[a] {
                for y in &memo[b] {
                    out.push(And(bx(x.clone()), bx(y.clone())));
                    out.push(Or(bx(x.clone()), bx(y.clone())));
                }
            }
        }
        if k > 0 {
            let neg: Vec<BoolExpr> = out.iter().map(|e| Not(bx(e.clone()))).collect();
            out.extend(neg);
        }
        memo.push(out);
    }
}
/// The expressions, and the index where those of several operands start.
fn exprs(thorough: bool) -> (Vec<BoolExpr>, usize) {
    let mut out = vec![];
    let at = atoms();
    // 1. atoms and their negations
    for a in &at {
        out.push(a.clone());
        out.push(Not(bx(a.clone())));
    }
    // 2. relation lookups around every small inner expression, negated inside and outside
    let g = inner_grp();
    let tg = inner_tag();
    let mut ig = g.clone();
    let mut it = tg.clone();
    for (src, dst) in [(&g, &mut ig), (&tg, &mut it)] {
        for a in src {
            dst.push(Not(bx(a.clone())));
            for b in src {
                dst.push(And(bx(a.clone()), bx(b.clone())));
                dst.push(Or(bx(a.clone()), bx(b.clone())));
            }
        }
        dst.push(AllOf(vec![]));
        dst.push(AllOf(vec![src[1].clone(), src[2].clone()]));
    }
    for e in &g {
        ig.push(subparent(e.clone()));
        ig.push(Not(bx(subparent(e.clone()))));
        ig.push(subnull(e.clone()));
        it.push(sub(e.clone()));
        it.push(Not(bx(sub(e.clone()))));
        it.push(Or(bx(sub(e.clone())), bx(tg[1].clone())));
    }
    let mut rel = vec![];
    for e in &ig {
        rel.push(sub(e.clone()));
        rel.push(subnull(e.clone()));
    }
    for e in &it {
        rel.push(many(e.clone()));
    }
    for e in rel {
        out.push(Not(bx(e.clone())));
        out.push(e);
    }
    let flat = out.len();
    // 3. conjunction lists
    let basis = [
        Eq("n", v(i(1))), Like("s", v(t("a%"))), Eq("b", v(SqlVal::Bool(true))), Eq("s", v(SqlVal::Null)), sub(g[1].clone()),
        many(tg[1].clone()), In("n", vec![i(1), i(2)]), Gt("m", v(i(0))), Or(bx(Eq("n", v(i(2)))), bx(Eq("s", v(t("b"))))),
        Not(bx(Eq("n", v(i(1))))),
    ];
    out.push(AllOf(vec![]));
    out.push(Not(bx(AllOf(vec![]))));
    for a in &basis {
        out.push(AllOf(vec![a.clone()]));
        out.push(Not(bx(AllOf(vec![a.clone()]))));
        out.push(Or(bx(AllOf(vec![])), bx(a.clone())));
        out.push(And(bx(a.clone()), bx(AllOf(vec![]))));
        for b in &basis {
            let ab = AllOf(vec![a.clone(), b.clone()]);
            out.push(ab.clone());
            out.push(Not(bx(ab.clone())));
            for c in &basis {
                out.push(AllOf(vec![a.clone(), b.clone(), c.clone()]));
                out.push(Or(bx(ab.clone()), bx(c.clone())));
                out.push(Or(bx(c.clone()), bx(ab.clone())));
                out.push(Not(bx(AllOf(vec![Or(bx(a.clone()), bx(b.clone())), c.clone()]))));
            }
        }
    }
    // 4. every grouping of and / or / not
    let mut memo = vec![];
    trees(2, &basis, &mut memo);
    out.append(&mut memo[2]);
    let mut memo = vec![];
    let three = [Eq("n", v(i(1))), Like("s", v(t("a%"))), Gt("m", v(i(0)))];
    trees(3, &three, &mut memo);
    out.append(&mut memo[3]);
    if thorough {
        let mut memo = vec![];
        let five = [basis[0].clone(), basis[1].clone(), basis[4].clone(), basis[5].clone(), basis[7].clone()];
        trees(3, &five, &mut memo);
        out.append(&mut memo[3]);
        let mut memo = vec![];
        trees(4, &[basis[0].clone(), basis[1].clone()], &mut memo);
        out.append(&mut memo[4]);
    }
    (out, flat)
}

/// turso's own engine mis-evaluates membership tests on absent values (see known_findings.txt): such
/// expressions are judged on the universe without absent values there.
pub fn membership(e: &BoolExpr) -> bool {
    match e {
        In(..) | Subquery { .. } | SubqueryJoin { .. } => true,
        Not(a) => membership(a),
        And(a, b) | Or(a, b) => membership(a) || membership(b),
        AllOf(v) => v.iter().any(membership),
        _ => false,
    }
}

/// A membership test on a column that can be absent, outside any relation lookup.
fn on_nullable(e: &BoolExpr) -> bool {
    match e {
        In(c, _) | Subquery { col: c, .. } => ["n", "s", "grp"].contains(c),
        Not(a) => on_nullable(a),
        And(a, b) | Or(a, b) => on_nullable(a) || on_nullable(b),
        AllOf(v) => v.iter().any(on_nullable),
        _ => false,
    }
}

/// A constant as an operand: the turso engine loops for ever on `(a IN (b, c) AND TRUE)`.
fn const_operand(e: &BoolExpr) -> bool {
    let k = |e: &BoolExpr| *e == True || matches!(e, AllOf(v) if v.is_empty());
    match e {
        Not(a) => k(a) || const_operand(a),
        And(a, b) | Or(a, b) => k(a) || k(b) || const_operand(a) || const_operand(b),
        AllOf(v) => v.iter().any(|a| k(a) || const_operand(a)),
        Subquery { expr, .. } | SubqueryJoin { expr, .. } => const_operand(expr),
        _ => false,
    }
}

pub fn run(ctx: &Ctx) {
    let (es, flat) = exprs(ctx.thorough);
    ctx.bound("expressions", es.len());
    let total = universe(Uni::Rich).table("QItem").rows.len();
    for uni in [Uni::Rich, Uni::NoNull, Uni::Poor] {
        let rdb = universe(uni);
        let want: Vec<Vec<i64>> = {
            let out: Vec<std::sync::Mutex<Vec<i64>>> = es.iter().map(|_| Default::default()).collect();
            std::thread::scope(|s| {
                for k in 0..ctx.threads {
                    let (out, es, rdb) = (&out, &es, &rdb);
                    s.spawn(move || {
                        for j in (k..es.len()).step_by(ctx.threads) {
                            *out[j].lock().unwrap() = rdb.select("QItem", &es[j]).into_iter().map(|r| r as i64 + 1).collect();
                        }
                    });
                }
            });
            out.into_iter().map(|m| m.into_inner().unwrap()).collect()
        };
        for cfg in ALL {
            if std::env::var("BMC_CFG").is_ok_and(|c| c != format!("{cfg:?}")) {
                continue;
            }
            if uni == Uni::NoNull && cfg.be() != Be::Tu {
                continue;
            }
            // the unpopulated variant only matters where related tables do
            let pick: Vec<usize> = (0..es.len()).filter(|j| match (uni, cfg.be()) {
                (_, Be::Tu) if const_operand(&es[*j]) && membership(&es[*j]) => false,
                _ if cfg == Cfg::TuSync && !ctx.thorough && *j > flat => false,
                (Uni::Poor, Be::Tu) => membership(&es[*j]) && !on_nullable(&es[*j]),
                (Uni::Poor, _) => membership(&es[*j]),
                (Uni::Rich, Be::Tu) => !membership(&es[*j]) || es[*j] == In("n", vec![i(0)]),
                _ => true,
            }).collect();
            const CHUNK: usize = 64;
            par(ctx, pick.len().div_ceil(CHUNK), |_| {
                let db = Db::new(cfg.be(), false);
                let c = open(cfg, &db.conn_str).expect("open");
                fill(&c, cfg.be(), &rdb);
                (db, c)
            }, |(_, c), chunk| {
                for j in pick.iter().copied().skip(chunk * CHUNK).take(CHUNK) {
                    let e = &es[j];
                    ctx.trans(1);
                    let got = catch(|| both!(c, load_ids_sync, load_ids_async, e.clone()));
                    let ok = match &got {
                        Ok(Ok(ids)) => {
                            let mut g = ids.clone();
                            g.sort();
                            g == want[j]
                        }
                        _ => false,
                    };
                    ctx.valid();
                    if !want[j].is_empty() && want[j].len() < total {
                        ctx.nontriv();
                    }
                    ctx.state(hash64(&(uni, &want[j])));
                    if j % 997 == 3 {
                        ctx.sample(serde_json::json!({"expr": format!("{e:?}"), "rows": want[j]}));
                    }
                    if !ok {
                        ctx.violation(&format!("{:?} {uni:?} {e:?}", cfg.be()),
                            format!("expected ids {:?}\ngot {got:?}\ninterface {cfg:?}\nexpression {e:#?}", want[j]));
                    }
                }
            });
            if ctx.stop() {
                return;
            }
        }
    }
}
