//! C07: transactions are all-or-nothing and invisible until committed.
use crate::backends::*;
use crate::engine::*;
use crate::models::*;
use butane::db::{BackendConnection, BackendConnectionAsync, ConnectionMethods, ConnectionMethodsAsync};
use butane::query::{QueryOpsAsync, QueryOpsSync};
use butane::{DataObjectOpsAsync, DataObjectOpsSync, DataResult};
use std::collections::BTreeMap;

pub const RULE: &str = "every history of begin / save / conflicting save / invalid statement / delete / bulk delete / create table / commit / rollback / drop / write by a second connection (and loss of the server connection) up to the stated depth, states deduplicated on (committed, transaction's view, failed), through every backend and interface and in single-threaded and multi-threaded runtimes; after every step the transaction's own view and a second connection's view are compared with the model, and after every history the connection is used for another transaction; non-trivial = the history ends a transaction that wrote";

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Begin,
    Save(i64, i32),
    Bad,
    Del(i64),
    DelAll,
    Ddl,
    Commit,
    Rollback,
    Drop,
    Other(i64, i32), // by the second connection
    Kill,
}
use Op::*;
pub type Map = BTreeMap<i64, i32>;
#[derive(Clone, Debug, Default, Hash, PartialEq)]
struct S {
    rows: Map,
    table: bool, // the table created along the way exists
}
#[derive(Clone, Debug, Default, Hash)]
struct M {
    done: S,
    tx: Option<(S, bool)>, // own view; a statement failed in it
}
fn conflict(m: &Map, k: i64, u: i32) -> bool {
    m.iter().any(|(a, b)| *a != k && *b == u)
}

#[maybe_async_cfg::maybe(idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), DataObjectOps, QueryOps), sync(), async())]
async fn look(c: &impl ConnectionMethods) -> Result<S, String> {
    let mut rows = Map::new();
    for r in QueryOps::load(KInt::query(), c).await.map_err(|e| e.to_string())? {
        rows.insert(r.id, r.u);
    }
    Ok(S { rows, table: c.has_table("kx").await.map_err(|e| e.to_string())? })
}
#[maybe_async_cfg::maybe(idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), DataObjectOps, QueryOps), sync(), async())]
async fn act(c: &impl ConnectionMethods, op: Op) -> Result<(), String> {
    match op {
        Save(k, u) => DataObjectOps::save(&mut KInt { id: k, u, v: None }, c).await,
        Bad => c.execute("INSERT INTO nosuch VALUES (1)").await,
        Del(k) => DataObjectOps::delete(&KInt { id: k, u: 0, v: None }, c).await,
        DelAll => QueryOps::delete(KInt::query(), c).await.map(|_| ()),
        Ddl => c.execute("CREATE TABLE kx (a INTEGER)").await,
        _ => unreachable!(),
    }
    .map_err(|e| e.to_string())
}
/// The effect `op` must have on `s`; Err: it must be refused.
fn effect(s: &mut S, op: Op) -> Result<(), ()> {
    match op {
        Save(k, u) if conflict(&s.rows, k, u) => return Err(()),
        Save(k, u) => _ = s.rows.insert(k, u),
        Bad => return Err(()),
        Del(k) => _ = s.rows.remove(&k),
        DelAll => s.rows.clear(),
        Ddl if s.table => return Err(()),
        Ddl => s.table = true,
        _ => unreachable!(),
    }
    Ok(())
}
pub struct Env<'a> {
    pub kill: &'a (dyn Fn() + Sync),
    pub dead: std::sync::atomic::AtomicBool,
}
/// Ok(None): not enabled.
#[maybe_async_cfg::maybe(
    idents(BackendConnection(sync, async = "BackendConnectionAsync"), ConnectionMethods(sync, async = "ConnectionMethodsAsync"),
        look(sync = "look_sync", async = "look_async"), act(sync = "act_sync", async = "act_async")),
    sync(), async())]
async fn drive<A: BackendConnection, B: ConnectionMethods>(a: &mut A, b: &B, ops: &[Op], env: &Env<'_>) -> Result<Option<M>, String> {
    let mut m = M::default();
    let mut i = 0;
    let mut open_at_end = None;
    while i < ops.len() {
        match ops[i] {
            Begin => {
                let t = a.transaction().await.map_err(|e| format!("step {i}: begin: {e}"))?;
                m.tx = Some((m.done.clone(), false));
                i += 1;
                // inside
                loop {
                    let (own, failed) = m.tx.clone().unwrap();
                    if !failed && !env.dead.load(std::sync::atomic::Ordering::SeqCst) {
                        let see = look(&t).await;
                        if see.as_ref() != Ok(&own) {
                            return Err(format!("step {i}: the transaction sees {see:?}\n  expected {own:?}"));
                        }
                    }
                    let see = look(b).await;
                    if see.as_ref() != Ok(&m.done) {
                        return Err(format!("step {i}: a second connection sees {see:?}\n  expected {:?}", m.done));
                    }
                    if i >= ops.len() {
                        open_at_end = m.tx.clone();
                        break; // dropped
                    }
                    let op = ops[i];
                    i += 1;
                    match op {
                        Begin | Other(..) => return Ok(None),
                        Kill => {
                            if env.dead.load(std::sync::atomic::Ordering::SeqCst) {
                                return Ok(None);
                            }
                            (env.kill)();
                            env.dead.store(true, std::sync::atomic::Ordering::SeqCst);
                            m.tx = Some((own, true));
                        }
                        Commit => {
                            let r = t.commit().await;
                            if failed {
                                // all of the successful writes, or none
                                let see = look(b).await;
                                if see.as_ref() == Ok(&own) && !env.dead.load(std::sync::atomic::Ordering::SeqCst) {
                                    m.done = own;
                                }
                            } else {
                                r.map_err(|e| format!("step {i}: commit: {e}"))?;
                                m.done = own;
                            }
                            m.tx = None;
                            break;
                        }
                        Rollback => {
                            let r = t.rollback().await;
                            if !env.dead.load(std::sync::atomic::Ordering::SeqCst) {
                                r.map_err(|e| format!("step {i}: rollback: {e}"))?;
                            }
                            m.tx = None;
                            break;
                        }
                        Drop => {
                            drop(t);
                            m.tx = None;
                            break;
                        }
                        op => {
                            let mut next = own.clone();
                            let want = effect(&mut next, op);
                            let r = act(&t, op).await;
                            match (want, &r) {
                                (Ok(()), Ok(())) => m.tx = Some((next, failed)),
                                (Err(()), Err(_)) => m.tx = Some((own, true)),
                                // after a failure the transaction may refuse everything
                                (Ok(()), Err(_)) if failed => {}
                                _ => return Err(format!("step {i}: {op:?} in the transaction: {r:?}")),
                            }
                        }
                    }
                }
                if m.tx.is_none() && i >= ops.len() {
                    break;
                }
            }
            Commit | Rollback | Drop | Kill => return Ok(None),
            Other(k, u) => {
                let mut next = m.done.clone();
                let want = effect(&mut next, Save(k, u));
                let r = act(b, Save(k, u)).await;
                if want.is_ok() != r.is_ok() {
                    return Err(format!("step {i}: write by the second connection: {r:?}"));
                }
                if want.is_ok() {
                    m.done = next;
                }
                i += 1;
            }
            op => {
                if env.dead.load(std::sync::atomic::Ordering::SeqCst) {
                    return Ok(None);
                }
                let mut next = m.done.clone();
                let want = effect(&mut next, op);
                let r = act(a, op).await;
                if want.is_ok() != r.is_ok() {
                    return Err(format!("step {i}: {op:?}: {r:?}"));
                }
                if want.is_ok() {
                    m.done = next;
                }
                i += 1;
            }
        }
    }
    // Whatever happened, the committed rows are there and nothing else...
    let see = look(b).await;
    if see.as_ref() != Ok(&m.done) {
        return Err(format!("afterwards a second connection sees {see:?}\n  expected {:?}", m.done));
    }
    if !env.dead.load(std::sync::atomic::Ordering::SeqCst) {
        let see = look(a).await;
        if see.as_ref() != Ok(&m.done) {
            return Err(format!("afterwards the connection sees {see:?}\n  expected {:?}", m.done));
        }
        // ... and the connection can be used for another transaction.
        let mut next = m.done.clone();
        next.rows.insert(99, 99);
        let t = a.transaction().await.map_err(|e| format!("another transaction: {e}"))?;
        act(&t, Save(99, 99)).await.map_err(|e| format!("another transaction: {e}"))?;
        let see = (look(&t).await, look(b).await);
        if see.0.as_ref() != Ok(&next) || see.1.as_ref() != Ok(&m.done) {
            return Err(format!("another transaction: {see:?}, expected {next:?}"));
        }
        t.commit().await.map_err(|e| format!("another transaction: {e}"))?;
        let see = look(b).await;
        if see.as_ref() != Ok(&next) {
            return Err(format!("after another transaction {see:?}, expected {next:?}"));
        }
    }
    m.tx = open_at_end;
    Ok(Some(m))
}

/// How the two connections are driven.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Run {
    Plain,
    CurrentThread, // everything on one single-threaded runtime
}
struct W {
    db: Db,
    ab: Option<(Any, Any)>,
    rt: Option<tokio::runtime::Runtime>,
    raw: Option<PgRaw>,
    ddl: bool,
}
fn connect(cfg: Cfg, run: Run, w: &mut W) {
    let s = &w.db.conn_str;
    let ab = match run {
        Run::CurrentThread => {
            let rt = w.rt.get_or_insert_with(|| tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap());
            let spec = butane::db::ConnectionSpec::new(cfg.be().name(), s);
            let mut f = || Any::A(rt.block_on(butane::db::connect_async(&spec)).expect("ENGINE: open"));
            (f(), f())
        }
        _ => (open(cfg, s).expect("ENGINE: open"), open(cfg, s).expect("ENGINE: open")),
    };
    w.ab = Some(ab);
}
fn history(ctx: &Ctx, cfg: Cfg, run: Run, w: &mut W, ops: &[Op], h: &[usize]) -> Option<u64> {
    let list: Vec<Op> = h.iter().map(|i| ops[*i]).collect();
    if w.ab.is_none() {
        connect(cfg, run, w);
    }
    let be = cfg.be();
    let (a, b) = w.ab.as_mut().unwrap();
    let rt = w.rt.as_ref().unwrap_or(&RT);
    let run_sql = |c: &Any, s: &str| match c {
        Any::S(c) => c.execute(s),
        Any::A(c) => rt.block_on(c.execute(s)),
    };
    if w.ddl {
        run_sql(b, "DROP TABLE IF EXISTS kx").expect("ENGINE: reset");
    }
    w.ddl = list.contains(&Ddl);
    run_sql(b, "DELETE FROM KInt").expect("ENGINE: reset");
    let raw = w.raw.as_ref();
    let kill = || {
        // The connection in a transaction is A.
        let r = raw.unwrap();
        let r = std::thread::scope(|s| {
            s.spawn(|| {
                r.q("SELECT pg_terminate_backend(pid, 5000) FROM pg_stat_activity WHERE datname = current_database() AND pid <> pg_backend_pid() AND state LIKE 'idle in transaction%'")
            }).join().unwrap()
        });
        assert!(r.expect("ENGINE: terminate").len() == 1, "ENGINE: terminated nothing");
    };
    let env = Env { kill: &kill, dead: false.into() };
    let r = catch(|| match (a, b) {
        (Any::S(a), Any::S(b)) => drive_sync(a, b, &list, &env),
        (Any::A(a), Any::A(b)) => rt.block_on(drive_async(a, b, &list, &env)),
        _ => unreachable!(),
    });
    if env.dead.load(std::sync::atomic::Ordering::SeqCst) {
        w.ab = None;
    }
    match r {
        Ok(Ok(Some(m))) => {
            if list.iter().any(|o| matches!(o, Commit | Rollback | Drop | Kill)) {
                ctx.nontriv();
            }
            let dead = env.dead.load(std::sync::atomic::Ordering::SeqCst);
            ctx.outcome(format!("rows {} open {} dead {dead}", m.done.rows.len(), m.tx.is_some()));
            if dead && m.tx.is_none() {
                return None;
            }
            Some(hash64(&(m, dead)))
        }
        Ok(Ok(None)) => None,
        e => {
            w.ab = None;
            let e = match e {
                Ok(Err(e)) => e,
                Err(e) => format!("panic: {e}"),
                _ => unreachable!(),
            };
            ctx.violation(&format!("{be:?} {run:?} {list:?}"), format!("{e}\ninterface {cfg:?}\nhistory {list:#?}"));
            None
        }
    }
}
pub fn run(ctx: &Ctx) {
    ctx.assume("after a failed statement inside a transaction its commit may keep all of the successful writes or none (PostgreSQL aborts the transaction)");
    ctx.assume("a second connection only writes while no transaction is open (the databases would make it wait)");
    let base = vec![Begin, Save(1, 1), Save(2, 2), Save(2, 1), Del(1), DelAll, Bad, Ddl, Commit, Rollback, Drop, Other(1, 3)];
    let mut runs: Vec<(Cfg, Run)> = ALL.iter().map(|c| (*c, Run::Plain)).collect();
    runs.extend([(Cfg::TuAsync, Run::CurrentThread), (Cfg::PgAsync, Run::CurrentThread), (Cfg::SqAsync, Run::CurrentThread)]);
    for (cfg, run) in runs {
        let be = cfg.be();
        let mut ops = base.clone();
        if be == Be::Pg {
            ops.push(Kill);
        }
        let main = matches!(cfg, Cfg::SqSync | Cfg::PgAsync | Cfg::TuAsync) && run == Run::Plain;
        let depth = match (ctx.thorough, be == Be::Pg, main) {
            (false, false, _) => 8,
            (false, true, true) => 5,
            (false, true, false) => 4,
            (true, false, _) => 12,
            (true, true, true) => 8,
            (true, true, false) => 6,
        };
        let t0 = std::time::Instant::now();
        bfs(ctx, &format!("{cfg:?} {run:?}"), &ops, depth, |_| {
            let db = Db::new(be, true);
            let raw = (be == Be::Pg).then(|| PgRaw::open(&db.conn_str));
            let mut w = W { db, ab: None, rt: None, raw, ddl: false };
            connect(cfg, run, &mut w);
            let rt = w.rt.as_ref().unwrap_or(&RT);
            let sql = ddl(be, &schema(&["KInt"]));
            match &w.ab.as_ref().unwrap().0 {
                Any::S(c) => c.execute(&sql),
                Any::A(c) => rt.block_on(c.execute(&sql)),
            }.expect("create");
            w
        }, |w, h| history(ctx, cfg, run, w, &ops, h));
        if std::env::var("BMC_TIMES").is_ok() {
            eprintln!("{cfg:?} {run:?} {:?}", t0.elapsed());
        }
        if ctx.stop() {
            return;
        }
    }
}
