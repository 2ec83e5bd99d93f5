//! C10: migrating up, down and to a given version keeps schema and record in step.
use crate::backends::*;
use crate::c08::{adb, col, Schema, C};
use crate::c09::{estr, rows_text, set_current, shape, sorted, want};
use crate::engine::*;
use butane::db::{BackendConnection, Column};
use butane::migrations::{FsMigrations, MemMigrations, Migration, MigrationMut, Migrations, MigrationsMut};
use butane::SqlType;

pub const RULE: &str = "breadth-first search over every history, up to the stated depth, of extending the chain of migrations, migrating to the latest, applying or undoing one migration, applying again one already applied, migrating with an older copy of the chain, undoing all, storing a row and reconnecting, for each listed chain, each store (memory, embedded text, disk) and each interface of each backend; after the last operation of every history the database's own catalogue, its rows, the recorded names, the last applied and the unapplied migrations are compared with a model (number of migrations made, number applied, rows); states = model states, transitions = operations, non-trivial = histories with at least two applied or undone migrations";

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Extend,
    MigrateAll,
    UpNext,
    AgainFirst,
    AgainLast,
    OldMigrate,
    DownLast,
    UnmigrateAll,
    Ins,
    Reopen,
}
use Op::*;
const OPS: [Op; 10] = [Extend, MigrateAll, UpNext, AgainFirst, AgainLast, OldMigrate, DownLast, UnmigrateAll, Ins, Reopen];

pub struct Chain {
    pub name: &'static str,
    pub steps: Vec<(&'static str, Schema)>,
}
fn keep() -> (&'static str, Vec<C>) {
    ("keep", vec![C { pk: true, ..col("id", 0) }])
}
pub fn chains() -> Vec<Chain> {
    let id = || C { pk: true, auto: true, ..col("id", 0) };
    let s = |v: Vec<(&'static str, Vec<C>)>| -> Schema { v.into_iter().chain([keep()]).collect() };
    let r = |n, t| C { nullable: true, r: Some((t, "id")), ..col(n, 0) };
    vec![
        Chain {
            name: "grow and shrink",
            steps: vec![
                ("z_first", s(vec![("a", vec![id(), C { default: Some(3), ..col("x", 0) }])])),
                ("a_second", s(vec![("a", vec![id(), C { default: Some(3), ..col("x", 0) }]), ("b", vec![id(), r("r", "a")])])),
                ("m_third", s(vec![("a", vec![id(), C { nullable: true, ..col("y", 2) }]), ("b", vec![id(), r("r", "a")])])),
                ("a_fourth", s(vec![("a", vec![id(), C { nullable: true, ..col("y", 2) }])])),
            ],
        },
        Chain {
            name: "there and back",
            steps: vec![
                ("m", s(vec![("a", vec![id()]), ("b", vec![id(), r("r", "a"), r("s", "b")])])),
                ("m1", s(vec![("a", vec![id()])])),
                ("m10", s(vec![("a", vec![id()]), ("b", vec![id(), r("r", "a"), r("s", "b")])])),
                ("m2", s(vec![])),
            ],
        },
        Chain {
            name: "columns",
            steps: vec![
                ("c'1", s(vec![("a", vec![id(), C { nullable: true, ..col("x", 0) }])])),
                ("C'1", s(vec![("a", vec![id(), C { nullable: true, ..col("x", 1) }])])),
                ("c\"1 ü", s(vec![("a", vec![id(), col("x", 1)]), ("b", vec![C { pk: true, ..col("k", 2) }])])),
                ("c%1", s(vec![("a", vec![id(), col("x", 1)]), ("b", vec![C { pk: true, ..col("k", 2) }, C { default: Some(1), unique: false, ..col("v", 4) }])])),
            ],
        },
    ]
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Mem,
    Text,
    Fs,
}
#[derive(Clone)]
enum Store {
    M(MemMigrations),
    F(FsMigrations),
}
macro_rules! st {
    ($s:expr, $m:ident => $e:expr) => {
        match $s {
            Store::M($m) => $e,
            Store::F($m) => $e,
        }
    };
}
fn fill<M: MigrationsMut>(ms: &mut M, be: Be, chain: &Chain, n: usize, set: impl Fn(&mut M, &butane::migrations::adb::ADB))
where
    M::M: MigrationMut,
{
    let backends = nonempty::nonempty![be.backend()];
    for (name, s) in &chain.steps[..n] {
        set(ms, &adb(s, false, false));
        let from = ms.latest();
        assert!(ms.create_migration(&backends, name, from.as_ref()).expect("ENGINE: create_migration"), "ENGINE: step {name} is empty");
    }
}
fn set_fs(ms: &mut FsMigrations, a: &butane::migrations::adb::ADB) {
    let _ = ms.clear_current();
    for t in a.tables() {
        ms.current().add_modified_table(t).unwrap();
    }
}
fn stores(kind: Kind, be: Be, chain: &Chain, dir: &std::path::Path) -> Vec<Store> {
    (0..=chain.steps.len())
        .map(|n| match kind {
            Kind::Fs => {
                let mut f = butane::migrations::from_root(dir.join(format!("{kind:?}{}{n}", chain.name)));
                fill(&mut f, be, chain, n, set_fs);
                Store::F(f)
            }
            _ => {
                let mut m = MemMigrations::new();
                fill(&mut m, be, chain, n, set_current);
                if kind == Kind::Text {
                    m = serde_json::from_str(&serde_json::to_string(&m).unwrap()).expect("ENGINE: embedded text");
                }
                Store::M(m)
            }
        })
        .collect()
}
#[derive(Clone, Debug, Hash, PartialEq, Eq, Default)]
struct Model {
    made: usize,
    applied: usize,
    ever: bool,
    rows: usize,
    fresh: bool,
    failed: bool,
    moves: bool,
}
struct W {
    db: Option<Db>,
    raw: Option<PgRaw>,
    any: Option<Any>,
}
fn migrate(any: &mut Any, s: &Store) -> butane::Result<()> {
    st!(s, m => match any {
        Any::S(c) => m.migrate(c),
        Any::A(c) => RT.block_on(m.migrate_async(c)),
    })
}
fn unmigrate(any: &mut Any, s: &Store) -> butane::Result<()> {
    st!(s, m => match any {
        Any::S(c) => m.unmigrate(c),
        Any::A(c) => RT.block_on(m.unmigrate_async(c)),
    })
}
fn single(any: &mut Any, s: &Store, name: &str, up: bool) -> butane::Result<()> {
    st!(s, m => {
        let x = m.get_migration(name).expect("ENGINE: migration missing");
        fn f(x: &impl Migration, c: &mut impl BackendConnection, up: bool) -> butane::Result<()> {
            if up { x.apply(c) } else { x.downgrade(c) }
        }
        match any {
            Any::S(c) => f(&x, c, up),
            Any::A(c) => RT.block_on(c.with_sync(move |c| f(&x, c, up))),
        }
    })
}
/// (last applied, unapplied) by the code's account
fn account(any: &mut Any, s: &Store) -> butane::Result<(Option<String>, Vec<String>)> {
    st!(s, m => {
        let m = m.clone();
        fn f(m: &impl Migrations, c: &mut impl BackendConnection) -> butane::Result<(Option<String>, Vec<String>)> {
            let l = m.last_applied_migration(c)?.map(|x| x.name().to_string());
            let u = m.unapplied_migrations(c)?.iter().map(|x| x.name().to_string()).collect();
            Ok((l, u))
        }
        match any {
            Any::S(c) => f(&m, c),
            Any::A(c) => RT.block_on(c.with_sync(move |c| f(&m, c))),
        }
    })
}
static NAME: [Column; 1] = [Column::new("name", SqlType::Text)];
static ID: [Column; 1] = [Column::new("id", SqlType::Int)];
fn ids(any: &mut Any) -> Result<usize, String> {
    let v = crate::c09::query_all(any, "keep", &ID, |r| Ok(butane::SqlVal::from(r.get(0, SqlType::Int)?)))?;
    Ok(v.len())
}
fn history(cfg: Cfg, chain: &Chain, stores: &[Store], w: &mut W, h: &[usize]) -> Result<Option<Model>, String> {
    let be = cfg.be();
    let mut m = Model::default();
    // which operations are enabled is decided by the model alone
    {
        let mut x = Model::default();
        for (i, o) in h.iter().enumerate() {
            let ok = match OPS[*o] {
                Extend => x.made < chain.steps.len(),
                UpNext => x.applied < x.made,
                AgainFirst | DownLast | OldMigrate => x.applied > 0,
                AgainLast => x.applied > 1,
                Ins => x.applied > 0 && x.rows == 0,
                Reopen => be == Be::Pg || w.db.is_some(),
                _ => true,
            };
            if !ok {
                return Ok(None);
            }
            let _ = i;
            step(&mut x, OPS[*o]);
        }
    }
    w.any = None;
    let conn_str = match &mut w.db {
        Some(db) if be == Be::Pg => {
            w.raw.as_ref().unwrap().q("DROP SCHEMA public CASCADE; CREATE SCHEMA public").expect("ENGINE: reset");
            db.conn_str.clone()
        }
        Some(db) => {
            *db = Db::new(be, true);
            db.conn_str.clone()
        }
        None => ":memory:".into(),
    };
    w.any = Some(open(cfg, &conn_str).map_err(|e| format!("open: {}", estr(e)))?);
    for (i, o) in h.iter().enumerate() {
        let op = OPS[*o];
        let name = |k: usize| chain.steps[k].0;
        let before = m.clone();
        step(&mut m, op);
        let s = &stores[m.made];
        let any = w.any.as_mut().unwrap();
        let r: butane::Result<()> = match op {
            Extend => Ok(()),
            MigrateAll => migrate(any, s),
            UpNext => single(any, s, name(before.applied), true),
            AgainFirst => single(any, s, name(0), true),
            AgainLast => single(any, s, name(before.applied - 1), true),
            OldMigrate => migrate(any, &stores[1]),
            DownLast => single(any, s, name(before.applied - 1), false),
            UnmigrateAll => unmigrate(any, s),
            Ins => any.execute(&format!("INSERT INTO keep (id) VALUES ({})", m.rows)),
            Reopen => {
                w.any = None;
                w.any = Some(open(cfg, &conn_str).map_err(|e| format!("reopen: {}", estr(e)))?);
                Ok(())
            }
        };
        match (op, r) {
            (AgainFirst | AgainLast, Ok(())) => return Err(format!("step {i}: applying an applied migration again is accepted")),
            (AgainFirst | AgainLast, Err(_)) => {}
            (_, Err(e)) => return Err(format!("step {i} {op:?} fails: {}", estr(e))),
            _ => {}
        }
    }
    let any = w.any.as_mut().unwrap();
    let got = sorted(be, &shape(be, any, w.raw.as_ref()).map_err(|e| format!("schema: {e}"))?);
    let exp = if m.applied > 0 { want(be, &chain.steps[m.applied - 1].1) } else if m.ever { want(be, &Schema::new()) } else { vec![] };
    let exp = sorted(be, &exp);
    if got != exp {
        return Err(format!("schema is {got:?} instead of {exp:?}"));
    }
    if m.applied > 0 && ids(any)? != m.rows {
        return Err(format!("{} rows instead of {}", ids(any)?, m.rows));
    }
    if m.ever {
        let mut names: Vec<String> = rows_text(be, any, "butane_migrations", &NAME)?.into_iter().map(|r| r[0].clone()).collect();
        names.sort();
        let mut exp: Vec<String> = chain.steps[..m.applied].iter().map(|x| x.0.to_string()).collect();
        exp.sort();
        if names != exp {
            return Err(format!("recorded as applied: {names:?} instead of {exp:?}"));
        }
    }
    let (last, un) = account(any, &stores[m.made]).map_err(|e| format!("account: {}", estr(e)))?;
    if last.as_deref() != m.applied.checked_sub(1).map(|k| chain.steps[k].0) {
        return Err(format!("last applied is {last:?} with {} applied", m.applied));
    }
    if un.iter().map(|x| x.as_str()).ne(chain.steps[m.applied..m.made].iter().map(|x| x.0)) {
        return Err(format!("unapplied are {un:?} with {} of {} applied", m.applied, m.made));
    }
    Ok(Some(m))
}
fn step(m: &mut Model, op: Op) {
    m.fresh = op == Reopen;
    m.failed = matches!(op, AgainFirst | AgainLast);
    let was = m.applied;
    match op {
        Extend => m.made += 1,
        MigrateAll => m.applied = m.made,
        UpNext => m.applied += 1,
        DownLast => m.applied -= 1,
        UnmigrateAll => m.applied = 0,
        Ins => m.rows += 1,
        _ => {}
    }
    m.ever |= m.applied > 0;
    if m.applied == 0 {
        m.rows = 0;
    }
    m.moves |= m.applied < was;
}
pub fn run(ctx: &Ctx) {
    ctx.assume("a migration is applied only on top of the one before it and undone only when it is the last applied, as the documentation demands; applying one again that is already applied must be refused without effect");
    let dir = scratch();
    let chains = chains();
    for cfg in ALL {
        let be = cfg.be();
        let depth = match (be, ctx.thorough) {
            (Be::Pg, false) => 6,
            (Be::Pg, true) => 12,
            (_, false) => 11,
            (_, true) => 16,
        };
        ctx.bound(&format!("depth {be:?}"), depth as u64);
        for (ci, chain) in chains.iter().enumerate() {
            for kind in [Kind::Mem, Kind::Text, Kind::Fs] {
                // in the quick tier every chain with one store and every store with one chain
                let k = [Kind::Mem, Kind::Text, Kind::Fs][(ci + cfg as usize) % 3];
                if !ctx.thorough && kind != k {
                    continue;
                }
                let d = dir.path().join(format!("{cfg:?}"));
                let st = stores(kind, be, chain, &d);
                let tag = format!("{cfg:?} {} {kind:?}", chain.name);
                let t0 = std::time::Instant::now();
                bfs(ctx, &tag, &OPS, depth, |_| {
                    let db = (be == Be::Pg || kind == Kind::Fs).then(|| Db::new(be, true));
                    let raw = (be == Be::Pg).then(|| PgRaw::open(&db.as_ref().unwrap().conn_str));
                    W { db, raw, any: None }
                }, |w, h| {
                    match catch(|| history(cfg, chain, &st, w, h)) {
                        Ok(Ok(Some(m))) => {
                            if m.moves && m.applied > 0 {
                                ctx.nontriv();
                            }
                            ctx.outcome(format!("made {} applied {} rows {}", m.made, m.applied, m.rows));
                            Some(hash64(&m))
                        }
                        Ok(Ok(None)) => None,
                        e => {
                            w.any = None;
                            let e = match e {
                                Ok(Err(e)) => e,
                                Err(e) => format!("panic: {e}"),
                                _ => unreachable!(),
                            };
                            let list: Vec<Op> = h.iter().map(|i| OPS[*i]).collect();
                            ctx.violation(&format!("{be:?} {} {list:?}", chain.name), format!("{e}\ninterface {cfg:?}, store {kind:?}\nhistory {list:?}"));
                            None
                        }
                    }
                });
                if std::env::var("BMC_TIMES").is_ok() {
                    eprintln!("{tag} {:?}", t0.elapsed());
                }
                if ctx.stop() {
                    return;
                }
            }
        }
    }
}
