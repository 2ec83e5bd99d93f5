//! C03: saving, reloading and deleting behave like a map keyed by primary key.
use crate::backends::*;
use crate::both;
use crate::engine::*;
use crate::models::*;
use butane::db::{ConnectionMethods, ConnectionMethodsAsync};
use butane::query::{BoolExpr, Expr, QueryOpsAsync, QueryOpsSync};
use butane::{DataObject, DataObjectOpsAsync, DataObjectOpsSync, SqlVal};
use std::collections::BTreeMap;

pub const RULE: &str = "every sequence of new / set / save / get / copy / delete / bulk delete over two object handles, two keys and two unique values up to the stated depth, states deduplicated on (table contents, handles), for automatic (64 and 32 bit, lone), integer, text and key-only models through every backend and interface; after every step the outcome, the handle and the whole table are compared with a map model; non-trivial = a save or delete that changes the table or is refused";

/// (key, unique value, optional value)
type View = (Option<String>, i32, Option<String>);

pub trait K: DataObject<PKType: Sync> + Clone + Send + Sync + std::fmt::Debug {
    const AUTO: bool;
    const PLAIN: bool; // no columns besides the key
    fn make(key: &str, u: i32, v: Option<String>) -> Self;
    fn view(&self) -> View;
    fn set(&mut self, u: i32, v: Option<String>);
    type Key: butane::ToSql + Clone + Send + Sync;
    fn keyval(s: &str) -> Self::Key;
}
macro_rules! kmodel {
    (auto $t:ident, $kv:ty) => {
        impl K for $t {
            const AUTO: bool = true;
            const PLAIN: bool = false;
            fn make(_: &str, u: i32, v: Option<String>) -> Self {
                $t { id: butane::AutoPk::uninitialized(), u, v }
            }
            fn view(&self) -> View {
                (self.id.map(|x| x.to_string()), self.u, self.v.clone())
            }
            fn set(&mut self, u: i32, v: Option<String>) {
                self.u = u;
                self.v = v;
            }
            type Key = $kv;
            fn keyval(s: &str) -> $kv {
                s.parse().unwrap()
            }
        }
    };
}
kmodel!(auto KAuto, i64);
kmodel!(auto KAutoSmall, i32);
impl K for KAutoOnly {
    const AUTO: bool = true;
    const PLAIN: bool = true;
    fn make(_: &str, _: i32, _: Option<String>) -> Self {
        KAutoOnly { id: butane::AutoPk::uninitialized() }
    }
    fn view(&self) -> View {
        (self.id.map(|x| x.to_string()), 0, None)
    }
    fn set(&mut self, _: i32, _: Option<String>) {}
    type Key = i64;
    fn keyval(s: &str) -> i64 {
        s.parse().unwrap()
    }
}
impl K for KInt {
    const AUTO: bool = false;
    const PLAIN: bool = false;
    fn make(k: &str, u: i32, v: Option<String>) -> Self {
        KInt { id: k.parse().unwrap(), u, v }
    }
    fn view(&self) -> View {
        (Some(self.id.to_string()), self.u, self.v.clone())
    }
    fn set(&mut self, u: i32, v: Option<String>) {
        self.u = u;
        self.v = v;
    }
    type Key = i64;
    fn keyval(s: &str) -> i64 {
        s.parse().unwrap()
    }
}
impl K for KText {
    const AUTO: bool = false;
    const PLAIN: bool = false;
    fn make(k: &str, u: i32, v: Option<String>) -> Self {
        KText { name: k.into(), u, v }
    }
    fn view(&self) -> View {
        (Some(self.name.clone()), self.u, self.v.clone())
    }
    fn set(&mut self, u: i32, v: Option<String>) {
        self.u = u;
        self.v = v;
    }
    type Key = String;
    fn keyval(s: &str) -> String {
        s.into()
    }
}
impl K for KOnly {
    const AUTO: bool = false;
    const PLAIN: bool = true;
    fn make(k: &str, _: i32, _: Option<String>) -> Self {
        KOnly { name: k.into() }
    }
    fn view(&self) -> View {
        (Some(self.name.clone()), 0, None)
    }
    fn set(&mut self, _: i32, _: Option<String>) {}
    type Key = String;
    fn keyval(s: &str) -> String {
        s.into()
    }
}

const H: usize = 2;
#[derive(Clone, Debug, PartialEq)]
enum Op {
    New(usize, usize, i32),  // handle, key index, unique value
    Set(usize, i32, bool),   // handle, unique value, some text
    Save(usize),
    Get(usize, usize),       // handle <- row with the key (of the key index, or the n-th stored key)
    TryGet(usize),           // a key that was never stored
    Copy(usize, usize),
    Delete(usize),
    DeleteBy(i32),           // bulk delete by unique value
    DeleteAll,
}
fn ops<T: K>() -> Vec<Op> {
    use Op::*;
    let mut o = vec![];
    for h in 0..H {
        for k in 0..if T::AUTO { 1 } else { 2 } {
            for u in if T::PLAIN { 1..2 } else { 1..3 } {
                o.push(New(h, k, u));
            }
        }
        if !T::PLAIN {
            for u in 1..3 {
                o.push(Set(h, u, false));
                o.push(Set(h, u, true));
            }
        }
        o.push(Save(h));
        o.push(Get(h, 0));
        o.push(Get(h, 1));
        o.push(Copy(h, 1 - h));
        o.push(Delete(h));
    }
    o.push(TryGet(0));
    if T::PLAIN {
        o.push(DeleteAll);
    } else {
        o.push(DeleteBy(1));
    }
    o
}
type Map = BTreeMap<String, (i32, Option<String>)>;

#[maybe_async_cfg::maybe(
    idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), DataObjectOps, QueryOps),
    sync(), async())]
async fn contents<T: K>(c: &impl ConnectionMethods) -> Result<Map, String> {
    let mut m = Map::new();
    for r in QueryOps::load(T::query(), c).await.map_err(|e| e.to_string())? {
        let (k, u, v) = r.view();
        if m.insert(k.expect("ENGINE: loaded without key"), (u, v)).is_some() {
            return Err("two rows with one key".into());
        }
    }
    Ok(m)
}
#[maybe_async_cfg::maybe(
    idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), DataObjectOps, QueryOps),
    sync(), async())]
async fn get_by_key<T: K>(c: &impl ConnectionMethods, key: T::Key) -> (Result<T, String>, Result<Option<T>, String>) {
    let a = <T as DataObjectOps<T>>::get(c, key.clone()).await.map_err(|e| match e {
        butane::Error::NoSuchObject => "NoSuchObject".into(),
        e => e.to_string(),
    });
    let b = <T as DataObjectOps<T>>::try_get(c, key).await.map_err(|e| e.to_string());
    (a, b)
}
#[maybe_async_cfg::maybe(
    idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), DataObjectOps, QueryOps),
    sync(), async())]
async fn store<T: K>(c: &impl ConnectionMethods, h: &mut T) -> Result<(), String> {
    <T as DataObjectOps<T>>::save(h, c).await.map_err(|e| e.to_string())
}
#[maybe_async_cfg::maybe(
    idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), DataObjectOps, QueryOps),
    sync(), async())]
async fn remove<T: K>(c: &impl ConnectionMethods, h: &T) -> Result<(), String> {
    <T as DataObjectOps<T>>::delete(h, c).await.map_err(|e| e.to_string())
}
#[maybe_async_cfg::maybe(
    idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), DataObjectOps, QueryOps),
    sync(), async())]
async fn remove_by<T: K>(c: &impl ConnectionMethods, f: Option<i32>) -> Result<usize, String> {
    let mut q = T::query();
    if let Some(u) = f {
        q = q.filter(BoolExpr::Eq("u", Expr::Val(SqlVal::Int(u))));
    }
    QueryOps::delete(q, c).await.map_err(|e| e.to_string())
}

struct W {
    _db: Db,
    c: Any,
}
fn reset<T: K>(cfg: Cfg, w: &W) {
    w.c.execute(&format!("DELETE FROM {}", T::TABLE)).expect("ENGINE: reset");
    if cfg.be() == Be::Pg && T::AUTO {
        w.c.execute(&format!("ALTER SEQUENCE {}_id_seq RESTART", T::TABLE)).expect("ENGINE: reset");
    }
}

fn history<T: K>(ctx: &Ctx, cfg: Cfg, w: &W, ops: &[Op], h: &[usize]) -> Option<u64> {
    reset::<T>(cfg, w);
    let c = &w.c;
    let mut map = Map::new();
    let mut hs: Vec<Option<T>> = (0..H).map(|_| None).collect();
    let names = || h.iter().map(|o| format!("{:?}", ops[*o])).collect::<Vec<_>>();
    let report = |what: String| {
        ctx.violation(&format!("{:?} {} {:?}", cfg.be(), T::TABLE, names()), format!("{what}\ninterface {cfg:?}\nhistory {:#?}", names()));
    };
    for (n, o) in h.iter().enumerate() {
        let last = n + 1 == h.len();
        let conflict = |map: &Map, u: i32, key: Option<&String>| !T::PLAIN && map.iter().any(|(k, r)| r.0 == u && Some(k) != key);
        let mut exp = map.clone();
        let before: Vec<Option<View>> = hs.iter().map(|x| x.as_ref().map(|x| x.view())).collect();
        let mut views = before.clone();
        let mut bad: Option<String> = None;
        match &ops[*o] {
            Op::New(i, k, u) => {
                let key = ["1", "2"][*k];
                hs[*i] = Some(T::make(key, *u, None));
                views[*i] = hs[*i].as_ref().map(|x| x.view());
            }
            Op::Set(i, u, some) => {
                let x = hs[*i].as_mut()?;
                x.set(*u, some.then(|| "t".to_string()));
                views[*i] = Some(x.view());
            }
            Op::Copy(i, j) => {
                hs[*i] = Some(hs[*j].clone()?);
                views[*i] = views[*j].clone();
            }
            Op::Save(i) => {
                let x = hs[*i].as_mut()?;
                let (k, u, v) = x.view();
                let r = catch(|| both!(c, store_sync, store_async, &mut *x));
                if last {
                    ctx.outcome(format!("save {}", if matches!(r, Ok(Ok(()))) { "ok" } else { "refused" }));
                    ctx.nontriv();
                }
                let refuse = match &k {
                    Some(k) if T::AUTO && !map.contains_key(k) => false,
                    _ => conflict(&map, u, k.as_ref()),
                };
                match (&r, refuse) {
                    (Ok(Ok(())), false) => {
                        let k2 = x.view().0;
                        match (&k, &k2) {
                            (_, None) => bad = Some("saved but the handle has no key".into()),
                            (None, Some(k2)) => {
                                if map.contains_key(k2) {
                                    bad = Some(format!("assigned the key {k2}, which is in use"));
                                }
                                exp.insert(k2.clone(), (u, v));
                            }
                            (Some(a), Some(b)) if a != b => bad = Some(format!("the key changed from {a} to {b}")),
                            (Some(a), _) => {
                                if !T::AUTO || exp.contains_key(a) {
                                    exp.insert(a.clone(), (u, v));
                                } else {
                                    // The row is gone: whether it comes back is not specified.
                                    let now = catch(|| both!(c, contents_sync::<T>, contents_async::<T>));
                                    if now.as_ref().ok().and_then(|x| x.as_ref().ok()).is_some_and(|m| m.contains_key(a)) {
                                        exp.insert(a.clone(), (u, v));
                                    }
                                }
                            }
                        }
                        views[*i] = Some((k2, u, x.view().2));
                    }
                    (Ok(Err(_)), true) => {}
                    _ => bad = Some(format!("save: {r:?}, refusal expected: {refuse}")),
                }
            }
            Op::Get(i, k) => {
                let key = if T::AUTO {
                    map.keys().nth(*k)?.clone()
                } else {
                    ["1", "2"][*k].to_string()
                };
                let (a, b) = match catch(|| both!(c, get_by_key_sync::<T>, get_by_key_async::<T>, T::keyval(&key))) {
                    Ok(x) => x,
                    Err(e) => {
                        report(format!("get panicked: {e}"));
                        return None;
                    }
                };
                let want = map.get(&key).map(|(u, v)| (Some(key.clone()), *u, v.clone()));
                let ga = match &a {
                    Ok(x) => Ok(Some(x.view())),
                    Err(e) if e == "NoSuchObject" => Ok(None),
                    Err(e) => Err(e.clone()),
                };
                let gb = b.as_ref().map(|x| x.as_ref().map(|x| x.view())).map_err(|e| e.clone());
                if ga != Ok(want.clone()) || gb != Ok(want.clone()) {
                    bad = Some(format!("get {key}: {ga:?}, try_get {gb:?}, expected {want:?}"));
                }
                if let Ok(x) = a {
                    views[*i] = Some(x.view());
                    hs[*i] = Some(x);
                }
            }
            Op::TryGet(_) => {
                let r = catch(|| both!(c, get_by_key_sync::<T>, get_by_key_async::<T>, T::keyval("777")));
                match r {
                    Ok((Err(a), Ok(None))) if a == "NoSuchObject" => {}
                    r => bad = Some(format!("a missing key: {r:?}")),
                }
            }
            Op::Delete(i) => {
                let x = hs[*i].as_ref()?;
                let r = catch(|| both!(c, remove_sync, remove_async, x));
                match x.view().0 {
                    // deleting what was never saved: nothing may happen to the rows
                    None => {}
                    Some(k) => {
                        if !matches!(r, Ok(Ok(()))) {
                            bad = Some(format!("delete: {r:?}"));
                        }
                        exp.remove(&k);
                    }
                }
            }
            Op::DeleteBy(u) => {
                let r = catch(|| both!(c, remove_by_sync::<T>, remove_by_async::<T>, Some(*u)));
                let n = exp.len();
                exp.retain(|_, r| r.0 != *u);
                // The count turso reports is C02's subject (a known finding there).
                let ok = if cfg.be() == Be::Tu { matches!(r, Ok(Ok(_))) } else { r == Ok(Ok(n - exp.len())) };
                if !ok {
                    bad = Some(format!("bulk delete: {r:?}, expected {}", n - exp.len()));
                }
            }
            Op::DeleteAll => {
                let r = catch(|| both!(c, remove_by_sync::<T>, remove_by_async::<T>, None));
                if r != Ok(Ok(exp.len())) {
                    bad = Some(format!("bulk delete: {r:?}, expected {}", exp.len()));
                }
                exp.clear();
            }
        }
        map = exp;
        if last || bad.is_some() {
            let now = catch(|| both!(c, contents_sync::<T>, contents_async::<T>));
            let after: Vec<Option<View>> = hs.iter().map(|x| x.as_ref().map(|x| x.view())).collect();
            if bad.is_none() && now != Ok(Ok(map.clone())) {
                bad = Some(format!("table is {now:?}\n   expected {map:?}"));
            }
            if bad.is_none() && after != views {
                bad = Some(format!("handles are {after:?}, expected {views:?}"));
            }
            if let Some(b) = bad {
                report(b);
                return None;
            }
        }
    }
    let vs: Vec<Option<View>> = hs.iter().map(|x| x.as_ref().map(|x| x.view())).collect();
    Some(hash64(&(&map, &vs)))
}
fn explore<T: K>(ctx: &Ctx) {
    let o = ops::<T>();
    for cfg in ALL {
        let main = matches!(cfg, Cfg::SqSync | Cfg::PgAsync | Cfg::TuAsync);
        let depth = match (ctx.thorough, cfg.be(), main) {
            (false, Be::Sq, true) => 8,
            (false, _, true) => 5,
            (false, Be::Sq, false) => 4,
            (false, _, false) => 3,
            (true, Be::Sq, true) => 12,
            (true, _, true) => 8,
            (true, _, false) => 6,
        };
        bfs(ctx, &format!("{cfg:?} {}", T::TABLE), &o, depth, |_| {
            let db = Db::new(cfg.be(), false);
            let c = open(cfg, &db.conn_str).expect("ENGINE: open");
            c.execute(&ddl(cfg.be(), &schema(&[T::TABLE]))).expect("create");
            W { _db: db, c }
        }, |w, h| history::<T>(ctx, cfg, w, &o, h));
        if ctx.stop() {
            return;
        }
    }
}
pub fn run(ctx: &Ctx) {
    ctx.assume("a handle whose row was deleted elsewhere may or may not bring the row back when saved (only automatic keys); automatic keys need only differ from every stored key");
    explore::<KInt>(ctx);
    explore::<KText>(ctx);
    explore::<KAuto>(ctx);
    explore::<KAutoSmall>(ctx);
    explore::<KAutoOnly>(ctx);
    explore::<KOnly>(ctx);
}
