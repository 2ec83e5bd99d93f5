//! The program of C25: every generated partial type against the full objects.
#![allow(dead_code)]
#[path = "HARNESS/src/backends.rs"]
mod backends;
#[path = "HARNESS/src/engine.rs"]
mod engine;
#[path = "HARNESS/src/host.rs"]
mod host;
mod parts;
use backends::*;
use butane::query::{BoolExpr, Query, QueryOpsAsync, QueryOpsSync};
use butane::{filter, model, AutoPk, DataObjectOpsAsync, DataObjectOpsSync, DataResult, ForeignKey, Many, PrimaryKeyType};
use engine::*;
use std::collections::HashMap;

#[model]
#[table = "lots"]
pub struct G {
    #[pk]
    pub name: String,
    pub a: Option<i32>,
    pub b: i32,
}
#[model]
#[table = "whole"]
pub struct W {
    pub id: AutoPk<i64>,
    pub a: Option<i32>,
    pub b: i32,
    pub name: String,
    pub r#type: Option<String>,
    pub g: ForeignKey<G>,
    pub tags: Many<G>,
    pub og: Option<ForeignKey<G>>,
    pub j: serde_json::Value,
}
#[model]
pub struct v {
    pub b: i32,
    #[pk]
    pub name: String,
    #[unique]
    pub e: f64,
    pub a: Option<i32>,
}
pub trait Show {
    fn show(&self) -> String;
}
macro_rules! dbg { ($($t:ty),*) => { $(impl Show for $t { fn show(&self) -> String { format!("{self:?}") } })* } }
dbg!(Option<i32>, i32, String, Option<String>, serde_json::Value, f64);
impl<K: PrimaryKeyType + std::fmt::Debug> Show for AutoPk<K> {
    fn show(&self) -> String {
        format!("{self:?}")
    }
}
impl Show for ForeignKey<G> {
    fn show(&self) -> String {
        self.pk()
    }
}
impl Show for Option<ForeignKey<G>> {
    fn show(&self) -> String {
        format!("{:?}", self.as_ref().map(|g| g.pk()))
    }
}
pub type Row = Vec<(&'static str, String)>;
pub trait Dump: Sized {
    fn dump(&self) -> Row;
}
macro_rules! dump { ($t:ty: $($f:ident)*) => { impl Dump for $t { fn dump(&self) -> Row { vec![$((stringify!($f), self.$f.show())),*] } } } }
pub(crate) use dump;
dump!(W: id a b name r#type g og j);
dump!(v: b name e a);

#[derive(Clone, Debug)]
pub struct Q {
    filter: Option<(usize, BoolExpr)>,
    sort: &'static [(&'static str, bool)],
    limit: Option<i32>,
    offset: Option<i32>,
    first: bool,
}
impl Q {
    fn build<T: DataResult>(&self) -> Query<T> {
        let mut q = T::query();
        if let Some((_, f)) = &self.filter {
            q = q.filter(f.clone());
        }
        for (c, d) in self.sort {
            q = if *d { q.order_desc(c) } else { q.order_asc(c) };
        }
        if let Some(l) = self.limit {
            q = q.limit(l);
        }
        if let Some(o) = self.offset {
            q = q.offset(o);
        }
        q
    }
}
pub type Rows = Result<Vec<Row>, String>;
pub fn rows<T: DataResult + Dump>(q: &Q, c: &Any) -> Rows {
    let b = q.build::<T>();
    let r: Result<Vec<T>, butane::Error> = match (c, q.first) {
        (Any::S(c), false) => QueryOpsSync::load(b, c),
        (Any::S(c), true) => QueryOpsSync::load_first(b, c).map(|o| o.into_iter().collect()),
        (Any::A(c), false) => RT.block_on(QueryOpsAsync::load(b, c)),
        (Any::A(c), true) => RT.block_on(QueryOpsAsync::load_first(b, c)).map(|o| o.into_iter().collect()),
    };
    r.map(|v| v.iter().map(|x| x.dump()).collect()).map_err(|e| e.to_string())
}
pub struct Part {
    pub name: &'static str,
    pub cols: &'static [&'static str],
    pub run: fn(&Q, &Any) -> Rows,
}

fn filters() -> Vec<BoolExpr> {
    vec![
        filter!(W, a == {Some(1)}),
        filter!(W, b >= 2),
        filter!(W, name.like("a%")),
        filter!(W, r#type == {Some("t".to_string())}),
        filter!(W, b < 3 && name != "b"),
        filter!(W, g.matches(b == 1)),
        filter!(W, g == {&*GP}),
        filter!(W, tags.contains(a == {Some(1)})),
        filter!(W, tags.contains("p")),
        filter!(W, a == {None::<i32>} || name == "b"),
    ]
}
static GP: std::sync::LazyLock<G> = std::sync::LazyLock::new(|| G { name: "p".into(), a: Some(1), b: 1 });
fn vfilters() -> Vec<BoolExpr> {
    vec![filter!(v, b >= 2), filter!(v, name == "a"), filter!(v, e < 2.0), filter!(v, a == {None::<i32>})]
}
const SORTS: &[&[(&str, bool)]] = &[
    &[("id", false)],
    &[("id", true)],
    &[("name", false), ("id", true)],
    &[("b", true), ("name", true), ("id", false)],
    &[("a", false), ("id", false)],
    &[("type", true), ("g", false), ("id", false)],
];
const VSORTS: &[&[(&str, bool)]] = &[&[("name", false)], &[("e", true)], &[("b", true), ("name", true)], &[("a", false), ("e", false)]];
const LIMITS: &[Option<i32>] = &[None, Some(0), Some(1), Some(2), Some(50)];
const OFFSETS: &[Option<i32>] = &[None, Some(0), Some(1), Some(3)];

fn queries(fs: Vec<BoolExpr>, sorts: &'static [&'static [(&'static str, bool)]]) -> Vec<Q> {
    let fs: Vec<Option<(usize, BoolExpr)>> = std::iter::once(None).chain(fs.into_iter().enumerate().map(Some)).collect();
    let mut out = vec![];
    for f in &fs {
        for first in [false, true] {
            // without a total order only the set of rows is determined
            if !first {
                out.push(Q { filter: f.clone(), sort: &[], limit: None, offset: None, first });
            }
            for sort in sorts {
                for limit in LIMITS {
                    for offset in OFFSETS {
                        if first && limit.is_some_and(|l| l != 2) {
                            continue;
                        }
                        out.push(Q { filter: f.clone(), sort, limit: *limit, offset: *offset, first });
                    }
                }
            }
        }
    }
    out
}
/// A few queries which show every filter, every order and every limit and offset.
fn some(all: &[Q], step: usize) -> Vec<usize> {
    (0..all.len()).filter(|i| i % step == 0 || i + 1 == all.len() || *i < 3).collect()
}

macro_rules! fill { ($name:ident, $save:path, $many:path, $c:ty $(, $aw:tt $asy:tt)?) => {
    $($asy)? fn $name(c: &$c) -> butane::Result<()> {
        for (n, a, b) in [("p", Some(1), 1), ("q", None, 2), ("r", Some(1), 3)] {
            let mut g = G { name: n.into(), a, b };
            $save(&mut g, c)$(.$aw)??;
        }
        let js = [serde_json::json!({"k": 1}), serde_json::json!("s"), serde_json::json!([null])];
        for i in 0..7usize {
            let fk = |i: usize| ForeignKey::<G>::from_pk(["p", "q", "r"][i % 3].to_string());
            let mut w = W {
                id: AutoPk::uninitialized(),
                a: [None, Some(1), Some(2)][i % 3],
                b: i as i32 % 4,
                name: ["a", "b", "ab"][i / 2 % 3].into(),
                r#type: [Some("t".to_string()), None][i % 2].clone(),
                g: fk(i / 3),
                tags: Many::new(),
                og: if i % 3 == 1 { None } else { Some(fk(i + 1)) },
                j: js[i % 3].clone(),
            };
            $save(&mut w, c)$(.$aw)??;
            if i % 2 == 0 {
                w.tags.add(&GP)?;
                $save(&mut w, c)$(.$aw)??;
            }
        }
        for (b, name, e, a) in [(1, "a", 1.5, None), (2, "b", 0.5, Some(2)), (2, "c", 2.5, Some(1)), (3, "d", -1.0, None)] {
            let mut x = v { b, name: name.into(), e, a };
            $save(&mut x, c)$(.$aw)??;
        }
        Ok(())
    }
} }
fill!(fill_s, DataObjectOpsSync::save, butane::many::ManyOpsSync::load, butane::db::Connection);
fill!(fill_a, DataObjectOpsAsync::save, butane::many::ManyOpsAsync::load, butane::db::ConnectionAsync, await async);

struct World {
    dbs: HashMap<String, Db>,
    conns: HashMap<String, Any>,
    full: HashMap<(String, bool, usize), Rows>,
}
fn conn(w: &mut World, cfg: Cfg) -> String {
    let k = format!("{cfg:?}");
    if !w.conns.contains_key(&k) {
        let bk = if cfg.be() == Be::Pg { "Pg".to_string() } else { k.clone() };
        let new = !w.dbs.contains_key(&bk);
        let db = w.dbs.entry(bk).or_insert_with(|| Db::new(cfg.be(), false));
        let c = open(cfg, &db.conn_str).expect("ENGINE open");
        if new {
            c.execute(&ddl(cfg.be(), recorded())).unwrap_or_else(|e| panic!("ENGINE ddl {e}"));
            match &c {
                Any::S(c) => fill_s(c),
                Any::A(c) => RT.block_on(fill_a(c)),
            }
            .unwrap_or_else(|e| panic!("ENGINE fill {cfg:?} {e}"));
        }
        w.conns.insert(k.clone(), c);
    }
    k
}
fn project(full: &Row, cols: &[&str]) -> Row {
    cols.iter().map(|c| full.iter().find(|(n, _)| n == c).expect("ENGINE column").clone()).collect()
}
fn run(ctx: &Ctx) {
    let sets: [(Vec<Part>, Vec<Q>, fn(&Q, &Any) -> Rows); 2] =
        [(parts::w(), queries(filters(), SORTS), rows::<W>), (parts::v(), queries(vfilters(), VSORTS), rows::<v>)];
    ctx.bound("partial types", (sets[0].0.len() + sets[1].0.len()) as u64);
    ctx.bound("queries", (sets[0].1.len() + sets[1].1.len()) as u64);
    let mut jobs = vec![];
    let cfgs: Vec<Cfg> = ALL.into_iter().filter(|c| std::env::var("BMC_CFG").map_or(true, |s| format!("{c:?}") == s)).collect();
    for (si, s) in sets.iter().enumerate() {
        for pi in 0..s.0.len() {
            for cfg in &cfgs {
                jobs.push((*cfg, si, pi));
            }
        }
    }
    let thin = [some(&sets[0].1, if ctx.thorough { 7 } else { 67 }), some(&sets[1].1, if ctx.thorough { 3 } else { 13 })];
    ctx.bound("queries on every partial type", (thin[0].len() + thin[1].len()) as u64);
    let every = if ctx.thorough { 8 } else { 64 };
    par(ctx, jobs.len(), |_| World { dbs: HashMap::new(), conns: HashMap::new(), full: HashMap::new() }, |w, i| {
        let (cfg, si, pi) = jobs[i];
        let (ps, qs, whole) = &sets[si];
        let p = &ps[pi];
        let k = conn(w, cfg);
        let all: Vec<usize> = if pi % every == every / 2 { (0..qs.len()).collect() } else { thin[si].clone() };
        for qi in all {
            if ctx.stop() {
                return;
            }
            let q = &qs[qi];
            let want = w.full.entry((k.clone(), si == 0, qi)).or_insert_with(|| whole(q, &w.conns[&k])).clone();
            let want = match want {
                Ok(r) => r,
                Err(e) => return ctx.violation(&format!("full objects do not load on {}: {e}", cfg.be().name()), format!("{cfg:?} {q:?}")),
            };
            let mut want: Vec<Row> = want.iter().map(|r| project(r, p.cols)).collect();
            ctx.exec();
            ctx.trans(2);
            match catch(|| (p.run)(q, &w.conns[&k])) {
                Err(m) => return ctx.violation(&format!("partial result panics on {}", cfg.be().name()), format!("{cfg:?} {} {q:?}: {m}", p.name)),
                Ok(Err(e)) => return ctx.violation(&format!("partial result fails on {}", cfg.be().name()), format!("{cfg:?} {} {q:?}: {e}", p.name)),
                Ok(Ok(mut got)) => {
                    if q.sort.is_empty() {
                        got.sort();
                        want.sort();
                    }
                    ctx.valid();
                    ctx.state(hash64(&(p.name, &got)));
                    if got.len() > 1 {
                        ctx.nontriv();
                    }
                    if got != want {
                        let what = if got.len() != want.len() { "rows" } else if { let (mut a, mut b) = (got.clone(), want.clone()); a.sort(); b.sort(); a == b } { "order" } else { "values" };
                        return ctx.violation(&format!("partial result has other {what} on {}", cfg.be().name()), format!("{cfg:?} {} {q:?}\n got {got:?}\nwant {want:?}", p.name));
                    }
                    ctx.outcome(format!("{} rows, sorted={}", got.len(), !q.sort.is_empty()));
                }
            }
        }
    });
}
pub fn checks() -> Vec<host::Check> {
    vec![host::Check { id: "C25", level: "model_checking", rule: include_str!("rule.txt"), run }]
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    host::go(checks().remove(0), &a[1], std::path::PathBuf::from(&a[2]));
}
