//! C05: a many-to-many relation is, for each owner, exactly the set last saved.
use crate::backends::*;
use crate::both;
use crate::engine::*;
use crate::models::*;
use butane::db::{BackendRow, Column, ConnectionMethods, ConnectionMethodsAsync};
use butane::query::{BoolExpr, OrderDirection, QueryOpsAsync, QueryOpsSync};
use butane::{DataObject, DataObjectOpsAsync, DataObjectOpsSync, Many, ManyOpsAsync, ManyOpsSync, SqlType, SqlVal};
use std::collections::BTreeSet;

pub const RULE: &str = "every sequence of add / remove / save (object, relation) / load (plain, ordered) / clear / set / reload / copy / delete over handles of two owners (a third handle being a second copy of an owner) and two members, up to the stated depth, with states deduplicated on link tables and handles, for integer- and text-keyed owners and members, through every backend and interface; after every step what load returns, the link tables of both relations of the owner and a query by contained member are compared with a set model; non-trivial = a step which changes a link table";

pub trait M: DataObject<PKType: Sync> + Clone + Send + Sync + std::fmt::Debug {
    fn make(i: usize) -> Self;
    fn ix(&self) -> usize;
    const HAS: SqlType;
}
impl M for MText {
    fn make(i: usize) -> Self {
        MText { name: ["m0", "m1"][i].into() }
    }
    fn ix(&self) -> usize {
        self.name[1..].parse().unwrap()
    }
    const HAS: SqlType = SqlType::Text;
}
impl M for MInt {
    fn make(i: usize) -> Self {
        MInt { id: i as i64, note: None }
    }
    fn ix(&self) -> usize {
        self.id as usize
    }
    const HAS: SqlType = SqlType::BigInt;
}
pub trait O: DataObject<PKType: Sync> + Clone + Send + Sync + std::fmt::Debug {
    type Mem: M;
    type Key: butane::ToSql + Clone + Send + Sync;
    const AUTO: bool;
    const OWNER: SqlType;
    const TABLES: [&'static str; 2]; // the link tables
    const COLS: [Column; 2] = [Column::new("owner", Self::OWNER), Column::new("has", Self::Mem::HAS)];
    fn make(i: usize) -> Self;
    fn key(i: usize) -> Self::Key;
    fn keyval(i: usize) -> SqlVal;
    fn a(&mut self) -> &mut Many<Self::Mem>;
    fn b(&mut self) -> &mut Many<Self::Mem>;
    fn q(m: &Self::Mem) -> BoolExpr;
}
impl O for OAuto {
    type Mem = MText;
    type Key = i64;
    const AUTO: bool = true;
    const OWNER: SqlType = SqlType::BigInt;
    const TABLES: [&'static str; 2] = ["OAuto_a_Many", "OAuto_b_Many"];
    fn make(_: usize) -> Self {
        OAuto { id: butane::AutoPk::uninitialized(), a: Many::new(), v: 0, b: Many::new() }
    }
    fn key(i: usize) -> i64 {
        i as i64 + 1
    }
    fn keyval(i: usize) -> SqlVal {
        SqlVal::BigInt(i as i64 + 1)
    }
    fn a(&mut self) -> &mut Many<MText> {
        &mut self.a
    }
    fn b(&mut self) -> &mut Many<MText> {
        &mut self.b
    }
    fn q(m: &MText) -> BoolExpr {
        OAuto::fields().a().contains(MText::fields().name().eq(&m.name))
    }
}
impl O for OText {
    type Mem = MInt;
    type Key = String;
    const AUTO: bool = false;
    const OWNER: SqlType = SqlType::Text;
    const TABLES: [&'static str; 2] = ["OText_a_Many", "OText_b_Many"];
    fn make(i: usize) -> Self {
        OText { name: ["o0", "o1"][i].into(), v: 0, a: Many::new(), b: Many::new() }
    }
    fn key(i: usize) -> String {
        ["o0", "o1"][i].into()
    }
    fn keyval(i: usize) -> SqlVal {
        SqlVal::Text(["o0", "o1"][i].into())
    }
    fn a(&mut self) -> &mut Many<MInt> {
        &mut self.a
    }
    fn b(&mut self) -> &mut Many<MInt> {
        &mut self.b
    }
    fn q(m: &MInt) -> BoolExpr {
        OText::fields().a().contains(MInt::fields().id().eq(&m.id))
    }
}

/// Handles 0 and 1 start as owners 0 and 1, handle 2 is a copy.
#[derive(Clone, Debug, PartialEq)]
enum Op {
    Add(usize, usize),
    Remove(usize, usize),
    Save(usize),
    SaveRel(usize),
    Load(usize),
    LoadOrdered(usize),
    Clear(usize),
    Set(usize, usize), // bit mask of members
    Reload(usize, usize),
    Copy(usize, usize),
    Delete(usize),
}
fn ops<T: O>() -> Vec<Op> {
    use Op::*;
    let mut o = vec![];
    for h in 0..2 {
        for m in 0..2 {
            o.push(Add(h, m));
            o.push(Remove(h, m));
        }
        o.push(Save(h));
        o.push(SaveRel(h));
        o.push(Load(h));
        o.push(LoadOrdered(h));
        o.push(Clear(h));
        o.push(Reload(h, h));
    }
    for s in 0..4 {
        o.push(Set(0, s));
    }
    o.push(Set(1, 3));
    o.push(Copy(1, 0));
    o.push(Reload(1, 0));
    if !T::AUTO {
        o.push(Delete(0));
    }
    o
}
type S = BTreeSet<usize>;
#[derive(Clone, Debug, Default, Hash, PartialEq)]
struct H {
    owner: usize,
    saved: bool,
    new: Vec<usize>,
    removed: Vec<usize>,
    cache: Option<S>,
}

#[maybe_async_cfg::maybe(
    idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), DataObjectOps, QueryOps, ManyOps),
    sync(), async())]
async fn act<T: O>(c: &impl ConnectionMethods, x: &mut T, op: &Op) -> Result<Option<Vec<usize>>, String> {
    let e = |e: butane::Error| e.to_string();
    match op {
        Op::Save(_) => <T as DataObjectOps<T>>::save(x, c).await.map_err(e)?,
        Op::SaveRel(_) => ManyOps::save(x.a(), c).await.map_err(e)?,
        Op::Load(_) => return Ok(Some(ManyOps::load(x.a(), c).await.map_err(e)?.map(|m| m.ix()).collect())),
        Op::LoadOrdered(_) => return Ok(Some(ManyOps::load_ordered(x.a(), c, OrderDirection::Descending).await.map_err(e)?.map(|m| m.ix()).collect())),
        Op::Clear(_) => ManyOps::delete(x.a(), c).await.map_err(e)?,
        Op::Set(_, s) => ManyOps::set(x.a(), c, (0..2).filter(|m| s >> m & 1 == 1).map(|m| M::make(m)).collect()).await.map_err(e)?,
        Op::Delete(_) => <T as DataObjectOps<T>>::delete(x, c).await.map_err(e)?,
        _ => unreachable!(),
    }
    Ok(None)
}
#[maybe_async_cfg::maybe(
    idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), DataObjectOps, QueryOps, ManyOps),
    sync(), async())]
async fn fetch<T: O>(c: &impl ConnectionMethods, o: usize) -> Result<T, String> {
    <T as DataObjectOps<T>>::get(c, T::key(o)).await.map_err(|e| e.to_string())
}
#[maybe_async_cfg::maybe(
    idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), DataObjectOps, QueryOps, ManyOps),
    sync(), async())]
async fn setup<T: O>(c: &impl ConnectionMethods) -> Result<(), String> {
    for i in 0..2 {
        let mut m: T::Mem = M::make(i);
        <T::Mem as DataObjectOps<T::Mem>>::save(&mut m, c).await.map_err(|e| e.to_string())?;
    }
    Ok(())
}
/// Both link tables, and the owners a query by contained member finds.
#[maybe_async_cfg::maybe(
    idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), DataObjectOps, QueryOps, ManyOps),
    sync(), async())]
async fn observe<T: O>(c: &impl ConnectionMethods) -> Result<(Vec<S>, Vec<S>, Vec<usize>), String> {
    let own = |v: SqlVal| (0..2).find(|i| T::keyval(*i) == v).unwrap_or(9);
    let mut links = Vec::new();
    for t in T::TABLES {
        let mut per = vec![S::new(), S::new()];
        let cols = T::COLS;
        let mut rows = c.query(t, &cols, None, None, None, None).await.map_err(|e| e.to_string())?;
        while let Some(r) = rows.next().map_err(|e| e.to_string())? {
            let r: &dyn BackendRow = r;
            let o = own(r.get(0, T::OWNER).map_err(|e| e.to_string())?.into());
            let h: SqlVal = r.get(1, T::Mem::HAS).map_err(|e| e.to_string())?.into();
            let m = (0..2).find(|i| <T::Mem as M>::make(*i).pk().to_sql_val() == h).unwrap_or(9);
            per.get_mut(o).ok_or("a link of an unknown owner")?.insert(m);
        }
        links.push(per);
    }
    let mut found = vec![S::new(), S::new()];
    for m in 0..2 {
        for x in QueryOps::load(T::query().filter(T::q(&M::make(m))), c).await.map_err(|e| e.to_string())? {
            let o = own(butane::ToSql::to_sql(x.pk()));
            if !found[o].insert(m) {
                return Err("an owner was found twice".into());
            }
        }
    }
    let mut owners = Vec::new();
    for x in QueryOps::load(T::query().order("v", OrderDirection::Ascending), c).await.map_err(|e| e.to_string())? {
        owners.push(own(butane::ToSql::to_sql(x.pk())));
    }
    owners.sort();
    let b = links.pop().unwrap();
    let a = links.pop().unwrap();
    if a != found {
        return Err(format!("a query by contained member finds {found:?}, the links are {a:?}"));
    }
    Ok((a, b, owners))
}
trait ToVal {
    fn to_sql_val(&self) -> SqlVal;
}
impl<T: butane::ToSql> ToVal for T {
    fn to_sql_val(&self) -> SqlVal {
        self.to_sql()
    }
}
struct W {
    _db: Db,
    c: Any,
}
fn history<T: O>(ctx: &Ctx, cfg: Cfg, w: &W, ops: &[Op], h: &[usize]) -> Option<u64> {
    let c = &w.c;
    for t in T::TABLES.iter().chain([&T::TABLE]) {
        c.execute(&format!("DELETE FROM {t}")).expect("ENGINE: reset");
    }
    if cfg.be() == Be::Pg && T::AUTO {
        c.execute(&format!("ALTER SEQUENCE {}_id_seq RESTART", T::TABLE)).expect("ENGINE: reset");
    }
    let mut links = vec![S::new(), S::new()];
    let mut guard = vec![S::new(), S::new()];
    let mut owners: Vec<usize> = vec![];
    let names = || h.iter().map(|o| format!("{:?}", ops[*o])).collect::<Vec<_>>();
    let report = |what: String| {
        ctx.violation(&format!("{:?} {} {:?}", cfg.be(), T::TABLE, names()), format!("{what}\ninterface {cfg:?}\nhistory {:#?}", names()));
    };
    let mut xs: Vec<T> = Vec::new();
    let mut hs: Vec<H> = Vec::new();
    for i in 0..2 {
        let mut x = T::make(i);
        // Owner 0 is stored at the start, with another relation that nothing touches;
        // owner 1 is only made and gets its first members before it is saved.
        if i == 0 {
            x.b().add(&M::make(1)).unwrap();
            if let Err(e) = both!(c, act_sync, act_async, &mut x, &Op::Save(0)) {
                report(format!("save: {e}"));
                return None;
            }
            guard[0].insert(1);
            owners.push(0);
        } else {
            x.b().add(&M::make(0)).unwrap();
        }
        hs.push(H { owner: i, saved: i == 0, ..H::default() });
        xs.push(x);
    }
    for (n, o) in h.iter().enumerate() {
        let last = n + 1 == h.len();
        let mut bad = None;
        let op = &ops[*o];
        let before = links.clone();
        let set = |v: &Vec<usize>| -> S { v.iter().copied().collect() };
        match op {
            Op::Add(i, m) => {
                // one pending addition of a member is enough
                if hs[*i].new.contains(m) && hs[*i].new.len() > 2 {
                    return None;
                }
                xs[*i].a().add(&M::make(*m)).unwrap();
                hs[*i].new.push(*m);
                hs[*i].new.sort();
                hs[*i].cache = None;
            }
            Op::Remove(i, m) => {
                if hs[*i].removed.contains(m) && hs[*i].removed.len() > 1 {
                    return None;
                }
                xs[*i].a().remove(&M::make(*m));
                hs[*i].removed.push(*m);
                hs[*i].removed.sort();
                hs[*i].cache = None;
            }
            Op::Copy(i, j) => {
                if hs[*j].owner != 0 || !hs[*j].saved {
                    return None;
                }
                xs[*i] = xs[*j].clone();
                hs[*i] = hs[*j].clone();
            }
            Op::Reload(i, o) => {
                let r = catch(|| both!(c, fetch_sync::<T>, fetch_async::<T>, *o));
                match r {
                    Ok(Ok(x)) if owners.contains(o) => {
                        xs[*i] = x;
                        hs[*i] = H { owner: *o, saved: true, ..H::default() };
                    }
                    Ok(Err(_)) if !owners.contains(o) => return None,
                    r => bad = Some(format!("get: {:?}", r.map(|r| r.map(|_| ())))),
                }
            }
            Op::Save(i) | Op::SaveRel(i) | Op::Clear(i) | Op::Set(i, _) => {
                let was = hs[*i].clone();
                let obj = matches!(op, Op::Save(_));
                let x = &mut xs[*i];
                let r = catch(|| both!(c, act_sync, act_async, &mut *x, op));
                let own = was.owner;
                // an unsaved or deleted owner has no relation to save yet
                if !obj && (!was.saved || !owners.contains(&own)) {
                    match r {
                        Ok(Err(_)) => return None,
                        Ok(Ok(_)) if was.saved => {
                            // nothing to store
                            if !was.new.is_empty() && matches!(op, Op::SaveRel(_)) {
                                bad = Some("members were stored for a missing owner".into());
                            }
                            if matches!(op, Op::Set(_, s) if *s != 0) {
                                bad = Some("members were stored for a missing owner".into());
                            }
                        }
                        r => bad = Some(format!("on an unsaved owner: {r:?}")),
                    }
                } else if !matches!(r, Ok(Ok(_))) {
                    bad = Some(format!("{r:?}"));
                } else {
                    if obj && !owners.contains(&own) {
                        owners.push(own);
                        owners.sort();
                        if own == 1 && !was.saved {
                            guard[1].insert(0);
                        }
                    }
                    hs[*i].saved = true;
                    links[own] = match op {
                        Op::Clear(_) => S::new(),
                        Op::Set(_, s) => (0..2).filter(|m| s >> m & 1 == 1).collect(),
                        _ => links[own].union(&set(&was.new)).copied().collect::<S>().difference(&set(&was.removed)).copied().collect(),
                    };
                }
                let hh = &mut hs[*i];
                hh.new.clear();
                hh.removed.clear();
                match op {
                    Op::Clear(_) | Op::Set(..) => hh.cache = Some(links[own].clone()),
                    _ => {
                        if !was.saved {
                            hh.cache = None;
                        }
                        if let Some(k) = &mut hh.cache {
                            // what was loaded, less what was removed
                            k.extend(was.new.iter());
                            was.removed.iter().for_each(|m| {
                                k.remove(m);
                            });
                        }
                    }
                }
            }
            Op::Load(i) | Op::LoadOrdered(i) => {
                let x = &mut xs[*i];
                let r = catch(|| both!(c, act_sync, act_async, &mut *x, op));
                let hh = &mut hs[*i];
                let fresh: S = if hh.saved { links[hh.owner].union(&set(&hh.new)).copied().collect() } else { S::new() };
                match &r {
                    Ok(Ok(Some(v))) => {
                        let s = set(v);
                        if s.len() != v.len() {
                            bad = Some(format!("load returned a member twice: {v:?}"));
                        } else if s != fresh && hh.cache.as_ref() != Some(&s) {
                            bad = Some(format!("load returned {v:?}, expected {fresh:?} (or as loaded before, {:?})", hh.cache));
                        } else if matches!(op, Op::LoadOrdered(_)) && hh.cache.is_none() && hh.new.is_empty() && !v.is_sorted_by(|a, b| a > b) {
                            bad = Some(format!("load in descending order returned {v:?}"));
                        }
                        if hh.saved {
                            hh.cache = Some(s);
                        }
                    }
                    r => bad = Some(format!("load: {r:?}")),
                }
                // what was loaded is what get returns
                if bad.is_none() && hh.saved {
                    let g: Option<S> = x.a().get().ok().map(|g| g.map(|m| m.ix()).collect());
                    if g != hh.cache {
                        bad = Some(format!("get returned {g:?} after {:?}", hh.cache));
                    }
                }
            }
            Op::Delete(i) => {
                let own = hs[*i].owner;
                if !hs[*i].saved {
                    return None;
                }
                let x = &mut xs[*i];
                let r = catch(|| both!(c, act_sync, act_async, &mut *x, op));
                let linked = !links[own].is_empty() || !guard[own].is_empty();
                match (&r, linked) {
                    (Ok(Ok(_)), false) => owners.retain(|o| *o != own),
                    (Ok(Err(_)), true) => {}
                    _ => bad = Some(format!("delete of an owner, linked {linked}: {r:?}")),
                }
            }
        }
        if last || bad.is_some() {
            ctx.outcome(format!("{op:?}").split('(').next().unwrap().to_string());
            if links != before {
                ctx.nontriv();
            }
            if bad.is_none() {
                match catch(|| both!(c, observe_sync::<T>, observe_async::<T>)) {
                    Ok(Ok((a, b, o))) if a == links && b == guard && o == owners => {}
                    r => bad = Some(format!("stored: {r:?}\nexpected ({links:?}, {guard:?}, {owners:?})")),
                }
            }
            if let Some(b) = bad {
                report(b);
                return None;
            }
        }
    }
    Some(hash64(&(&links, &guard, &owners, &hs)))
}
fn explore<T: O>(ctx: &Ctx) {
    let o = ops::<T>();
    for cfg in ALL {
        let main = matches!(cfg, Cfg::SqSync | Cfg::PgAsync | Cfg::TuAsync);
        let depth = match (ctx.thorough, cfg.be(), main) {
            (false, Be::Sq, true) => 6,
            (false, Be::Tu, true) => 5,
            (false, _, true) => if T::AUTO { 3 } else { 4 },
            (false, Be::Sq, false) => 3,
            (false, _, false) => 2,
            (true, Be::Sq, true) => 8,
            (true, _, true) => 6,
            (true, _, false) => 4,
        };
        let t0 = std::time::Instant::now();
        bfs(ctx, &format!("{cfg:?} {}", T::TABLE), &o, depth, |_| {
            let db = Db::new(cfg.be(), false);
            let c = open(cfg, &db.conn_str).expect("ENGINE: open");
            c.execute(&ddl(cfg.be(), &schema(&[T::TABLE, T::Mem::TABLE, T::TABLES[0], T::TABLES[1]]))).expect("ENGINE: create");
            {
                let c = &c;
                both!(c, setup_sync::<T>, setup_async::<T>).expect("ENGINE: setup");
            }
            W { _db: db, c }
        }, |w, h| history::<T>(ctx, cfg, w, &o, h));
        if std::env::var("BMC_TIMES").is_ok() {
            eprintln!("{cfg:?} {} {:?}", T::TABLE, t0.elapsed());
        }
        if ctx.stop() {
            return;
        }
    }
}
pub fn run(ctx: &Ctx) {
    ctx.assume("members loaded earlier through a handle may be shown again until that handle is changed or reloaded, even when the relation was changed through another handle");
    ctx.assume("additions are stored before removals (as documented), so a member both added and removed before a save is absent");
    explore::<OAuto>(ctx);
    explore::<OText>(ctx);
}
