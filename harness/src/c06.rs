//! C06: a foreign key always refers to, loads and compares as the row with that key.
use crate::backends::*;
use crate::both;
use crate::engine::*;
use crate::models::*;
use butane::db::{ConnectionMethods, ConnectionMethodsAsync};
use butane::query::{BoolExpr, OrderDirection, QueryOpsAsync, QueryOpsSync};
use butane::{DataObject, DataObjectOpsAsync, DataObjectOpsSync, ForeignKey, ForeignKeyOpsAsync, ForeignKeyOpsSync, FromSql, SqlVal, ToSql};

pub const RULE: &str = "every sequence of building a reference (from a key, from an owned object, from a borrowed object, by cloning, through JSON), loading it, storing it in a required and an optional field, reading the row back, clearing, and creating, changing and deleting (by handle, by key, by query) the targets, over two reference handles, two stored keys and one referring row, up to the stated depth, for integer-, text-, automatic- and uuid-keyed targets, through every backend and interface; after every step the key, cached object, equality with every key, object and other reference, the stored rows of both tables and queries by the reference are compared with a model; non-trivial = a step which loads, stores or refuses";

pub trait Tgt: DataObject<PKType: Sync + serde::Serialize + serde::de::DeserializeOwned> + Clone + Send + Sync + std::fmt::Debug {
    const AUTO: bool = false;
    fn key(i: usize) -> Self::PKType;
    fn make(i: usize, v: i32) -> Self;
    fn ver(&self) -> i32;
    fn setver(&mut self, v: i32);
    fn by_key(i: usize) -> BoolExpr;
    fn ix(k: &Self::PKType) -> usize {
        (0..4).find(|i| k.to_sql() == Self::key(*i).to_sql()).unwrap_or(9)
    }
}
const TXT: [&str; 4] = ["", "a'b", "A", "zz"];
impl Tgt for FInt {
    fn key(i: usize) -> i64 {
        [0, -5, i64::MAX, 7][i]
    }
    fn make(i: usize, v: i32) -> Self {
        FInt { id: Self::key(i), v }
    }
    fn ver(&self) -> i32 {
        self.v
    }
    fn setver(&mut self, v: i32) {
        self.v = v
    }
    fn by_key(i: usize) -> BoolExpr {
        FInt::fields().id().eq(&Self::key(i))
    }
}
impl Tgt for FText {
    fn key(i: usize) -> String {
        TXT[i].into()
    }
    fn make(i: usize, v: i32) -> Self {
        FText { name: Self::key(i), v }
    }
    fn ver(&self) -> i32 {
        self.v
    }
    fn setver(&mut self, v: i32) {
        self.v = v
    }
    fn by_key(i: usize) -> BoolExpr {
        FText::fields().name().eq(&Self::key(i))
    }
}
impl Tgt for FAuto {
    const AUTO: bool = true;
    fn key(i: usize) -> butane::AutoPk<i32> {
        butane::AutoPk::from_sql(SqlVal::Int(i as i32 + 1)).unwrap()
    }
    fn make(i: usize, v: i32) -> Self {
        FAuto { id: Self::key(i), v }
    }
    fn ver(&self) -> i32 {
        self.v
    }
    fn setver(&mut self, v: i32) {
        self.v = v
    }
    fn by_key(i: usize) -> BoolExpr {
        FAuto::fields().id().eq(&Self::key(i))
    }
}
impl Tgt for FUuid {
    fn key(i: usize) -> uuid::Uuid {
        uuid::Uuid::from_u128([0, 0x27_0000_0000_5c00, u128::MAX, 3][i])
    }
    fn make(i: usize, v: i32) -> Self {
        FUuid { id: Self::key(i), v }
    }
    fn ver(&self) -> i32 {
        self.v
    }
    fn setver(&mut self, v: i32) {
        self.v = v
    }
    fn by_key(i: usize) -> BoolExpr {
        FUuid::fields().id().eq(&Self::key(i))
    }
}
pub trait Row: DataObject<PKType = i64> + Clone + Send + Sync + std::fmt::Debug {
    type T: Tgt;
    fn make(f: ForeignKey<Self::T>, o: Option<ForeignKey<Self::T>>) -> Self;
    fn split(self) -> (ForeignKey<Self::T>, Option<ForeignKey<Self::T>>);
    fn qf(k: &ForeignKey<Self::T>) -> BoolExpr;
    fn qo(k: &Option<ForeignKey<Self::T>>) -> BoolExpr;
    fn qsub(i: usize) -> BoolExpr;
    fn eqs(f: &ForeignKey<Self::T>, o: &Self::T) -> [bool; 2];
}
macro_rules! row {
    ($r:ident, $t:ident) => {
        impl Row for $r {
            type T = $t;
            fn make(f: ForeignKey<$t>, o: Option<ForeignKey<$t>>) -> Self {
                $r { id: 1, f, o }
            }
            fn split(self) -> (ForeignKey<$t>, Option<ForeignKey<$t>>) {
                (self.f, self.o)
            }
            fn qf(k: &ForeignKey<$t>) -> BoolExpr {
                $r::fields().f().eq(k)
            }
            fn qo(k: &Option<ForeignKey<$t>>) -> BoolExpr {
                $r::fields().o().eq(k)
            }
            fn eqs(f: &ForeignKey<$t>, o: &$t) -> [bool; 2] {
                [*f == *o, *f == o]
            }
            fn qsub(i: usize) -> BoolExpr {
                $r::fields().f().subfilter(<$t as Tgt>::by_key(i))
            }
        }
    };
}
row!(RInt, FInt);
row!(RText, FText);
row!(RAuto, FAuto);
row!(RUuid, FUuid);

#[derive(Clone, Debug, PartialEq)]
enum Op {
    FromPk(usize, usize),
    FromObj(usize, usize),
    FromRef(usize, usize),
    CloneOf(usize, usize),
    Json(usize),
    Load(usize),
    Put(usize, i32),
    DelHandle(usize),
    DelKey(usize),
    DelQuery(usize),
    SaveRow(usize, Option<usize>),
    SaveRead(usize),
    ReadRow(usize),
    ReadOpt(usize),
    DelRow,
}
fn ops() -> Vec<Op> {
    use Op::*;
    vec![
        FromPk(0, 0), FromPk(0, 1), FromPk(1, 0), FromPk(1, 1), FromObj(0, 0), FromObj(1, 1), FromRef(0, 1), FromRef(1, 0), CloneOf(1, 0), CloneOf(0, 1), Json(0), Json(1), Load(0), Load(1), Put(0, 1), Put(0, 2), Put(1, 1), Put(1, 2), DelHandle(0), DelHandle(1), DelKey(0), DelQuery(1), DelQuery(0),
        SaveRow(0, None), SaveRow(0, Some(1)), SaveRow(1, Some(0)), SaveRow(1, None), SaveRead(0), ReadRow(0), ReadOpt(1), DelRow,
    ]
}
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
struct Hd {
    key: usize,
    obj: Option<i32>,
}
type RowM = Option<(usize, Option<usize>)>;

enum Did<T: DataObject> {
    Unit,
    Ver(i32),
    Row(Option<(ForeignKey<T>, Option<ForeignKey<T>>)>),
    Count(usize),
}
#[maybe_async_cfg::maybe(
    idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), DataObjectOps, QueryOps, ForeignKeyOps),
    sync(), async())]
async fn act<R: Row>(c: &impl ConnectionMethods, fs: &mut [Option<ForeignKey<R::T>>; 2], op: &Op) -> Result<Did<R::T>, String> {
    let e = |e: butane::Error| e.to_string();
    Ok(match op {
        Op::Load(h) => Did::Ver(ForeignKeyOps::load(fs[*h].as_ref().unwrap(), c).await.map_err(e)?.ver()),
        Op::Put(k, v) => {
            let mut t = R::T::make(*k, *v);
            <R::T as DataObjectOps<R::T>>::save(&mut t, c).await.map_err(e)?;
            Did::Unit
        }
        Op::DelHandle(k) => {
            <R::T as DataObjectOps<R::T>>::delete(&R::T::make(*k, 0), c).await.map_err(e)?;
            Did::Unit
        }
        Op::DelKey(k) => {
            c.delete(R::T::TABLE, R::T::PKCOL, R::T::key(*k).to_sql()).await.map_err(e)?;
            Did::Unit
        }
        Op::DelQuery(k) => Did::Count(QueryOps::delete(<R::T as butane::DataResult>::query().filter(R::T::by_key(*k)), c).await.map_err(e)?),
        Op::SaveRow(f, o) => {
            let mut r = R::make(fs[*f].clone().unwrap(), o.map(|o| fs[o].clone().unwrap()));
            <R as DataObjectOps<R>>::save(&mut r, c).await.map_err(e)?;
            Did::Unit
        }
        Op::SaveRead(h) => {
            // change the required field of the row as read
            let r = <R as DataObjectOps<R>>::try_get(c, 1i64).await.map_err(e)?;
            if r.is_none() {
                return Ok(Did::Row(None));
            }
            let r = r.unwrap();
            let mut r = R::make(fs[*h].clone().unwrap(), r.split().1);
            <R as DataObjectOps<R>>::save(&mut r, c).await.map_err(e)?;
            Did::Row(Some(r.split()))
        }
        Op::ReadRow(_) | Op::ReadOpt(_) => Did::Row(<R as DataObjectOps<R>>::try_get(c, 1i64).await.map_err(e)?.map(|r| r.split())),
        Op::DelRow => Did::Count(QueryOps::delete(R::query(), c).await.map_err(e)?),
        _ => unreachable!(),
    })
}
/// The targets' versions, the row's keys, and the keys which queries by the row's references find.
#[maybe_async_cfg::maybe(
    idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), DataObjectOps, QueryOps, ForeignKeyOps),
    sync(), async())]
async fn observe<R: Row>(c: &impl ConnectionMethods, fs: &[Option<ForeignKey<R::T>>; 2]) -> Result<([Option<i32>; 2], RowM), String> {
    let e = |e: butane::Error| e.to_string();
    let mut t = [None; 2];
    for x in QueryOps::load(<R::T as butane::DataResult>::query(), c).await.map_err(e)? {
        *t.get_mut(R::T::ix(x.pk())).ok_or("an unknown target")? = Some(x.ver());
    }
    let rows = QueryOps::load(R::query().order("id", OrderDirection::Ascending), c).await.map_err(e)?;
    if rows.len() > 1 {
        return Err("two rows".into());
    }
    let mut row = None;
    for r in rows {
        let (f, o) = r.split();
        row = Some((R::T::ix(&f.pk()), o.map(|o| R::T::ix(&o.pk()))));
    }
    for i in 0..3 {
        let f = match fs.get(i) {
            Some(f) => f.clone(),
            None => Some(ForeignKey::from_pk(R::T::key(1))),
        };
        if f.is_none() {
            continue;
        }
        let f = f.unwrap();
        let k = R::T::ix(&f.pk());
        for (what, q, want) in [
            ("required", R::qf(&f), row.is_some_and(|r| r.0 == k)),
            ("optional", R::qo(&Some(f.clone())), row.is_some_and(|r| r.1 == Some(k))),
            ("by target", R::qsub(k), row.is_some_and(|r| r.0 == k)),
        ] {
            let n = QueryOps::load(R::query().filter(q), c).await.map_err(e)?.len();
            if n != want as usize {
                return Err(format!("a query by the {what} reference to key {k} finds {n} rows, stored {row:?}"));
            }
        }
    }
    let n = QueryOps::load(R::query().filter(R::qo(&None)), c).await.map_err(e)?.len();
    if n != row.is_some_and(|r| r.1.is_none()) as usize {
        return Err(format!("a query for an absent reference finds {n} rows, stored {row:?}"));
    }
    Ok((t, row))
}
struct W {
    _db: Db,
    c: Any,
}
fn insert<R: Row>(c: &Any, k: usize, v: i32) -> Result<(), String> {
    c.execute(&format!("INSERT INTO {} (id, v) VALUES ({}, {v})", R::T::TABLE, k + 1)).map_err(|e| e.to_string())
}
/// Checks which need no database: what the handles say about themselves.
fn pure<R: Row>(fs: &[Option<ForeignKey<R::T>>; 2], hs: &[Option<Hd>; 2]) -> Option<String> {
    for i in 0..2 {
        let (Some(f), Some(h)) = (&fs[i], hs[i]) else { continue };
        let say = |w: String| Some(format!("reference {i} ({h:?}): {w}"));
        if R::T::ix(&f.pk()) != h.key {
            return say(format!("pk() is key {}", R::T::ix(&f.pk())));
        }
        if f.to_sql() != R::T::key(h.key).to_sql() || SqlVal::from(f.to_sql_ref()) != f.to_sql() || f.clone().into_sql() != f.to_sql() {
            return say("is stored as another key".into());
        }
        match f.get() {
            Ok(o) if Some(o.ver()) == h.obj && R::T::ix(o.pk()) == h.key => {}
            Err(_) if h.obj.is_none() => {}
            r => return say(format!("get() gives {r:?}")),
        }
        for k in 0..4 {
            let key = R::T::key(k);
            let obj = R::T::make(k, 9);
            let same = k == h.key;
            let other = ForeignKey::<R::T>::from_pk(R::T::key(k));
            let owned = ForeignKey::<R::T>::from(obj.clone());
            if (*f == key) != same || R::eqs(f, &obj) != [same; 2] || (*f == other) != same || (other == *f) != same || (*f == owned) != same || (owned == *f) != same {
                return say(format!("equality with key {k}"));
            }
        }
        if R::T::ix(&f.pk()) != h.key || f.get().is_ok() != h.obj.is_some() {
            return say("comparing changed it".into());
        }
        let j = serde_json::to_value(f).unwrap();
        if j != serde_json::to_value(R::T::key(h.key)).unwrap() {
            return say(format!("is written as {j}"));
        }
    }
    None
}
fn history<R: Row>(ctx: &Ctx, cfg: Cfg, w: &W, ops: &[Op], h: &[usize]) -> Option<u64> {
    let c = &w.c;
    for t in [R::TABLE, R::T::TABLE] {
        c.execute(&format!("DELETE FROM {t}")).expect("ENGINE: reset");
    }
    let names = || h.iter().map(|o| format!("{:?}", ops[*o])).collect::<Vec<_>>();
    let report = |what: String| {
        ctx.violation(&format!("{:?} {} {:?}", cfg.be(), R::TABLE, names()), format!("{what}\ninterface {cfg:?}\nhistory {:#?}", names()));
    };
    let mut fs: [Option<ForeignKey<R::T>>; 2] = [None, None];
    let mut hs: [Option<Hd>; 2] = [None, None];
    let mut t: [Option<i32>; 2] = [Some(1), None];
    let mut row: RowM = None;
    if R::T::AUTO {
        insert::<R>(c, 0, 1).expect("ENGINE: insert");
    } else {
        let r = both!(c, act_sync::<R>, act_async::<R>, &mut fs, &Op::Put(0, 1));
        if let Err(e) = r {
            report(format!("save: {e}"));
            return None;
        }
    }
    for (n, o) in h.iter().enumerate() {
        let last = n + 1 == h.len();
        let op = &ops[*o];
        let mut bad = None;
        // what does not apply in this state is not a history
        let need: &[usize] = match op {
            Op::Json(h) | Op::Load(h) | Op::SaveRow(h, None) | Op::SaveRead(h) => &[*h],
            Op::CloneOf(_, j) => &[*j],
            Op::SaveRow(f, Some(o)) => &[*f, *o],
            _ => &[],
        };
        if need.iter().any(|h| hs[*h].is_none()) {
            return None;
        }
        match op {
            Op::Put(k, v) if t[*k] == Some(*v) || R::T::AUTO && t[*k].is_none() && *v == 2 => return None,
            Op::DelHandle(k) | Op::DelKey(k) if t[*k].is_none() => return None,
            Op::ReadRow(_) | Op::ReadOpt(_) | Op::SaveRead(_) | Op::DelRow if row.is_none() => return None,
            _ => {}
        }
        match op {
            Op::FromPk(h, k) => {
                fs[*h] = Some(ForeignKey::from_pk(R::T::key(*k)));
                hs[*h] = Some(Hd { key: *k, obj: None });
            }
            Op::FromObj(h, k) => {
                fs[*h] = Some(ForeignKey::from(R::T::make(*k, 7)));
                hs[*h] = Some(Hd { key: *k, obj: Some(7) });
            }
            Op::FromRef(h, k) => {
                fs[*h] = Some(ForeignKey::from(&R::T::make(*k, 7)));
                hs[*h] = Some(Hd { key: *k, obj: None });
            }
            Op::CloneOf(i, j) => {
                fs[*i] = fs[*j].clone();
                hs[*i] = hs[*j];
            }
            Op::Json(h) => {
                let s = serde_json::to_string(fs[*h].as_ref().unwrap()).unwrap();
                match serde_json::from_str::<ForeignKey<R::T>>(&s) {
                    Ok(f) => {
                        fs[*h] = Some(f);
                        hs[*h] = hs[*h].map(|h| Hd { obj: None, ..h });
                    }
                    Err(e) => bad = Some(format!("reading {s}: {e}")),
                }
            }
            Op::Put(k, v) if R::T::AUTO && t[*k].is_none() => {
                insert::<R>(c, *k, *v).expect("ENGINE: insert");
                t[*k] = Some(*v);
            }
            _ => {
                let r = catch(|| both!(c, act_sync::<R>, act_async::<R>, &mut fs, op));
                let used = |k: usize| row.is_some_and(|r| r.0 == k || r.1 == Some(k));
                let say = |r: &Result<Result<Did<R::T>, String>, String>| match r {
                    Ok(Ok(_)) => "succeeded".to_string(),
                    Ok(Err(e)) => format!("failed: {e}"),
                    Err(e) => format!("panicked: {e}"),
                };
                let mut refuse = |r: &Result<Result<Did<R::T>, String>, String>, why: &str| {
                    if !matches!(r, Ok(Err(_))) {
                        bad = Some(format!("{why}, but it {}", say(r)));
                    }
                    ctx.nontriv();
                };
                match op {
                    Op::Load(i) => {
                        let hd = hs[*i].as_mut().unwrap();
                        ctx.nontriv();
                        match (hd.obj, t[hd.key]) {
                            (None, None) => refuse(&r, "the row does not exist"),
                            (have, stored) => {
                                let v = have.or(stored).unwrap();
                                match &r {
                                    Ok(Ok(Did::Ver(x))) if *x == v => hd.obj = Some(v),
                                    Ok(Ok(Did::Ver(x))) => bad = Some(format!("loaded version {x}, expected {v}")),
                                    r => bad = Some(format!("load {}", say(r))),
                                }
                            }
                        }
                    }
                    Op::Put(k, v) => match &r {
                        Ok(Ok(_)) => t[*k] = Some(*v),
                        r => bad = Some(format!("save {}", say(r))),
                    },
                    Op::DelHandle(k) | Op::DelKey(k) | Op::DelQuery(k) => {
                        if used(*k) {
                            refuse(&r, "the row is referred to");
                        } else {
                            let n = t[*k].is_some() as usize;
                            match &r {
                                Ok(Ok(Did::Count(x))) if *x != n => bad = Some(format!("{x} rows reported deleted instead of {n}")),
                                Ok(Ok(_)) => t[*k] = None,
                                r => bad = Some(format!("delete {}", say(r))),
                            }
                        }
                    }
                    Op::SaveRow(..) | Op::SaveRead(_) => {
                        let new = match op {
                            Op::SaveRow(f, o) => (hs[*f].unwrap().key, o.map(|o| hs[o].unwrap().key)),
                            Op::SaveRead(h) => (hs[*h].unwrap().key, row.unwrap().1),
                            _ => unreachable!(),
                        };
                        if t[new.0].is_none() || new.1.is_some_and(|k| t[k].is_none()) {
                            refuse(&r, "the referred row does not exist");
                        } else if !matches!(r, Ok(Ok(_))) {
                            bad = Some(format!("save {}", say(&r)));
                        } else {
                            row = Some(new);
                            ctx.nontriv();
                        }
                    }
                    Op::ReadRow(i) | Op::ReadOpt(i) => {
                        let opt = matches!(op, Op::ReadOpt(_));
                        let stored = row.unwrap();
                        let want = if opt { stored.1 } else { Some(stored.0) };
                        match r {
                            Ok(Ok(Did::Row(Some((f, o))))) => {
                                let f = if opt { o } else { Some(f) };
                                if f.as_ref().map(|f| R::T::ix(&f.pk())) != want {
                                    bad = Some(format!("read {f:?}, expected key {want:?}"));
                                } else {
                                    hs[*i] = want.map(|key| Hd { key, obj: None });
                                    fs[*i] = f;
                                }
                            }
                            r => bad = Some(format!("read {}", say(&r))),
                        }
                    }
                    Op::DelRow => match &r {
                        Ok(Ok(Did::Count(1))) => row = None,
                        r => bad = Some(format!("delete {}", say(r))),
                    },
                    _ => unreachable!(),
                }
            }
        }
        if last || bad.is_some() {
            ctx.outcome(format!("{op:?}").split('(').next().unwrap().to_string());
            if bad.is_none() {
                bad = match catch(|| pure::<R>(&fs, &hs)) {
                    Ok(b) => b,
                    Err(e) => Some(format!("panic: {e}")),
                };
            }
            if bad.is_none() {
                match catch(|| both!(c, observe_sync::<R>, observe_async::<R>, &fs)) {
                    Ok(Ok(x)) if x == (t, row) => {}
                    r => bad = Some(format!("stored: {r:?}\nexpected {:?}", (t, row))),
                }
            }
            if let Some(b) = bad {
                report(b);
                return None;
            }
        }
    }
    Some(hash64(&(&t, &row, &hs)))
}
fn explore<R: Row>(ctx: &Ctx) {
    let o = ops();
    for cfg in ALL {
        let main = matches!(cfg, Cfg::SqSync | Cfg::PgAsync | Cfg::TuAsync);
        let small = R::T::AUTO || R::TABLE == "RUuid";
        let depth = match (ctx.thorough, cfg.be(), main) {
            (false, Be::Sq, true) => 5,
            (false, Be::Tu, true) => if small { 3 } else { 4 },
            (false, Be::Pg, true) => if small { 3 } else { 4 },
            (false, Be::Sq, false) => 3,
            (false, _, false) => if small { 2 } else { 3 },
            (true, Be::Sq, true) => 7,
            (true, _, true) => 5,
            (true, _, false) => 4,
        };
        let t0 = std::time::Instant::now();
        bfs(ctx, &format!("{cfg:?} {}", R::TABLE), &o, depth, |_| {
            let db = Db::new(cfg.be(), false);
            let c = open(cfg, &db.conn_str).expect("ENGINE: open");
            c.execute(&ddl(cfg.be(), &schema(&[R::TABLE, R::T::TABLE]))).expect("ENGINE: create");
            W { _db: db, c }
        }, |w, h| history::<R>(ctx, cfg, w, &o, h));
        if std::env::var("BMC_TIMES").is_ok() {
            eprintln!("{cfg:?} {} {:?}", R::TABLE, t0.elapsed());
        }
        if ctx.stop() {
            return;
        }
    }
}
pub fn run(ctx: &Ctx) {
    ctx.assume("a reference that holds an object (built from it, or loaded before) keeps showing that object; only a reference without one consults the database");
    ctx.assume("building a reference from an object whose automatic key is not assigned yet is outside the property: it has no key");
    explore::<RInt>(ctx);
    explore::<RText>(ctx);
    explore::<RAuto>(ctx);
    explore::<RUuid>(ctx);
}
