//! C21: a pooled connection is always working and carries no unfinished work.
use crate::backends::*;
use crate::engine::*;
use butane::db::{BackendConnection, BackendConnectionAsync, Column, ConnectionManager, ConnectionMethods, ConnectionMethodsAsync, ConnectionSpec};
use butane::{SqlType, SqlVal};
use std::collections::BTreeSet;
use std::time::Duration;

pub const RULE: &str = "every sequence, up to the stated length, of getting and returning connections by one or two users of a pool, and of committed writes, transactions left open by SQL, dropped, forgotten, failed or committed, panics and abandoned waits while holding one, killed server sessions and failing statements in between, for both pools and every backend; each connection handed out must answer, show exactly the committed rows and commit what is written to it; non-trivial = a connection handed out after an earlier user left something behind";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Pl {
    R2,
    Dead,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Get,
    Put,
    Write,
    /// BEGIN as SQL, a write, and neither commit nor rollback.
    Begin,
    /// The same with a failing statement at the end.
    BeginBad,
    /// A failing statement alone.
    Bad,
    TxDrop,
    TxForget,
    TxCommit,
    /// Roll back or commit what Begin has begun.
    End(bool),
    /// The server ends the session.
    Kill,
    /// A panic unwinds through the holder.
    Panic,
    /// Blocking work on the async connection panics.
    WorkPanic,
    /// The wait for blocking work is abandoned while it is in the middle of a transaction.
    WorkAbandon,
    /// Blocking work leaves a transaction begun as SQL.
    WorkBegin,
    /// The holder keeps rows of a query unread.
    Unread,
}
use Op::*;
const OPS: [Op; 18] = [Get, Put, Write, Begin, BeginBad, Bad, TxDrop, TxForget, TxCommit, End(true), End(false), Kill, Panic, WorkPanic, WorkAbandon, WorkBegin, Unread, Put];

/// (one for all pools: they would otherwise each start three threads)
static THREADS: std::sync::LazyLock<std::sync::Arc<scheduled_thread_pool::ScheduledThreadPool>> = std::sync::LazyLock::new(|| std::sync::Arc::new(scheduled_thread_pool::ScheduledThreadPool::new(8)));

enum Pool {
    R(r2d2::Pool<ConnectionManager>),
    D(deadpool::managed::Pool<ConnectionManager>),
}
enum Held {
    R(r2d2::PooledConnection<ConnectionManager>),
    D(deadpool::managed::Object<ConnectionManager>),
}
const COLS: fn() -> [Column; 1] = || [Column::new("n", SqlType::BigInt)];
impl Held {
    fn exec(&self, sql: &str) -> Result<(), String> {
        match self {
            Held::R(c) => ConnectionMethods::execute(&**c, sql),
            Held::D(c) => RT.block_on(ConnectionMethodsAsync::execute(&**c, sql)),
        }
        .map_err(|e| e.to_string())
    }
    fn rows(&self) -> Result<BTreeSet<i64>, String> {
        let r = || -> butane::Result<BTreeSet<i64>> {
            let cols = COLS();
            let mut v = BTreeSet::new();
            let mut add = |x: &dyn butane::db::BackendRow| -> butane::Result<()> {
                if let SqlVal::BigInt(n) = x.get(0, SqlType::BigInt)?.into() {
                    v.insert(n);
                }
                Ok(())
            };
            match self {
                Held::R(c) => {
                    let mut r = ConnectionMethods::query(&**c, "w21", &cols, None, None, None, None)?;
                    while let Some(x) = r.next()? {
                        add(x)?;
                    }
                }
                Held::D(c) => RT.block_on(async {
                    let mut r = ConnectionMethodsAsync::query(&**c, "w21", &cols, None, None, None, None).await?;
                    while let Some(x) = r.next()? {
                        add(x)?;
                    }
                    Ok::<(), butane::Error>(())
                })?,
            }
            Ok(v)
        };
        r().map_err(|e| e.to_string())
    }
    fn pid(&self) -> Option<i64> {
        // through a table, as the interface has no other way to read
        self.exec("DELETE FROM p21; INSERT INTO p21 SELECT pg_backend_pid()").ok()?;
        pg_pid(self)
    }
    /// A transaction with a write: committed, dropped or forgotten.
    fn tx(&mut self, sql: &str, how: Op) -> Result<(), String> {
        let r = match self {
            Held::R(c) => (|| {
                let t = BackendConnection::transaction(&mut **c)?;
                ConnectionMethods::execute(&t, sql)?;
                match how {
                    TxCommit => t.commit()?,
                    TxForget => std::mem::forget(t),
                    _ => drop(t),
                }
                Ok::<(), butane::Error>(())
            })(),
            Held::D(c) => RT.block_on(async {
                let t = BackendConnectionAsync::transaction(&mut **c).await?;
                ConnectionMethodsAsync::execute(&t, sql).await?;
                match how {
                    TxCommit => t.commit().await?,
                    TxForget => std::mem::forget(t),
                    _ => drop(t),
                }
                Ok(())
            }),
        };
        r.map_err(|e| e.to_string())
    }
}
fn pg_pid(h: &Held) -> Option<i64> {
    let cols = [Column::new("pid", SqlType::BigInt)];
    let get = |x: Option<&dyn butane::db::BackendRow>| match x?.get(0, SqlType::BigInt).ok()?.into() {
        SqlVal::BigInt(n) => Some(n),
        _ => None,
    };
    match h {
        Held::R(c) => get(ConnectionMethods::query(&**c, "p21", &cols, None, None, None, None).ok()?.next().ok()?),
        Held::D(c) => RT.block_on(async { get(ConnectionMethodsAsync::query(&**c, "p21", &cols, None, None, None, None).await.ok()?.next().ok()?) }),
    }
}
fn mk(pl: Pl, be: Be, cs: &str, size: u32) -> Pool {
    let m = ConnectionManager::new(ConnectionSpec::new(be.name(), cs));
    match pl {
        Pl::R2 => Pool::R(r2d2::Pool::builder().thread_pool(THREADS.clone()).max_size(size).min_idle(Some(0)).connection_timeout(Duration::from_secs(20)).build(m).unwrap_or_else(|e| panic!("ENGINE pool {e}"))),
        Pl::Dead => Pool::D(deadpool::managed::Pool::builder(m).max_size(size as usize).build().unwrap_or_else(|e| panic!("ENGINE pool {e}"))),
    }
}
impl Pool {
    fn get(&self) -> Result<Held, String> {
        match self {
            Pool::R(p) => {
                let _g = RT.enter();
                p.get().map(Held::R).map_err(|e| e.to_string())
            }
            Pool::D(p) => RT.block_on(async {
                match tokio::time::timeout(Duration::from_secs(20), p.get()).await {
                    Ok(r) => r.map(Held::D).map_err(|e| e.to_string()),
                    Err(_) => Err("no connection within 20 s".into()),
                }
            }),
        }
    }
}
struct User {
    held: Option<Held>,
    open: BTreeSet<i64>, // written in the transaction which is open
    in_tx: bool,
    dead: bool,
    /// Work may go on in the background.
    lost: bool,
}
struct World {
    db: Db,
    raw: Option<Any>,
}
fn world(be: Be) -> World {
    let db = Db::new(be, true);
    let cfg = match be {
        Be::Sq => Cfg::SqSync,
        Be::Pg => Cfg::PgSync,
        Be::Tu => Cfg::TuAsync,
    };
    let raw = open(cfg, &db.conn_str).expect("ENGINE open");
    raw.execute("CREATE TABLE w21 (n BIGINT PRIMARY KEY)").expect("ENGINE ddl");
    if be == Be::Pg {
        raw.execute("CREATE TABLE p21 (pid BIGINT)").expect("ENGINE ddl");
    }
    World { db, raw: Some(raw) }
}
fn outside(w: &World) -> BTreeSet<i64> {
    let cols = COLS();
    let mut v = BTreeSet::new();
    let mut add = |x: &dyn butane::db::BackendRow| {
        if let Ok(SqlVal::BigInt(n)) = x.get(0, SqlType::BigInt).map(SqlVal::from) {
            v.insert(n);
        }
    };
    match w.raw.as_ref().unwrap() {
        Any::S(c) => {
            let mut r = ConnectionMethods::query(c, "w21", &cols, None, None, None, None).expect("ENGINE outside");
            while let Some(x) = r.next().expect("ENGINE outside") {
                add(x);
            }
        }
        Any::A(c) => RT.block_on(async {
            let mut r = ConnectionMethodsAsync::query(c, "w21", &cols, None, None, None, None).await.expect("ENGINE outside");
            while let Some(x) = r.next().expect("ENGINE outside") {
                add(x);
            }
        }),
    }
    v
}

pub fn run(ctx: &Ctx) {
    let n1 = std::env::var("DEPTH").ok().and_then(|d| d.parse().ok()).unwrap_or(if ctx.thorough { 7 } else { 6 });
    let mut plans = vec![];
    for be in [Be::Sq, Be::Pg, Be::Tu] {
        for pl in [Pl::R2, Pl::Dead] {
            if (be, pl) == (Be::Tu, Pl::R2) {
                ctx.assume("turso has no blocking connection, so no r2d2 pool");
                continue;
            }
            plans.push((be, pl, 1usize, if be == Be::Sq { n1 } else { n1 - 1 }));
            plans.push((be, pl, 2usize, if be == Be::Sq { n1 - 1 } else { n1 - 2 }));
        }
    }
    for (be, pl, users, depth) in plans {
        if ctx.stop() {
            return;
        }
        if std::env::var("BMC_TIME").is_ok() {
            eprintln!("{be:?} {pl:?} {users} {depth} {:?}", std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs() % 10000));
        }
        ctx.bound(&format!("{be:?} {pl:?} steps of {users} users"), depth as u64);
        dfs(ctx, |_| None::<World>, |w, ch| {
            let w = w.get_or_insert_with(|| world(be));
            if be == Be::Pg {
                // sessions the last execution has left
                pg_admin(&format!("SELECT count(pg_terminate_backend(pid)) FROM pg_stat_activity WHERE datname = '{}' AND state LIKE 'idle in transaction%'", dbname(w)));
            }
            w.raw.as_ref().unwrap().execute("DELETE FROM w21").unwrap_or_else(|e| panic!("ENGINE reset {be:?} {e}"));
            let r = one(ctx, w, be, pl, users, depth, ch);
            if r != Ok(false) && be != Be::Pg || r.is_err() {
                // locks may be left
                w.raw = None;
                *w = world(be);
            }
        });
    }
}
fn dbname(w: &World) -> String {
    w.db.conn_str.split("dbname=").nth(1).unwrap_or("").split(' ').next().unwrap_or("").to_string()
}
/// Whether something may be left in the database's locks.
fn one(ctx: &Ctx, w: &World, be: Be, pl: Pl, users: usize, depth: usize, ch: &mut Chooser) -> Result<bool, ()> {
    let t0 = std::time::Instant::now();
    let pool = mk(pl, be, &w.db.conn_str, users as u32);
    let mut us: Vec<User> = (0..users).map(|_| User { held: None, open: BTreeSet::new(), in_tx: false, dead: false, lost: false }).collect();
    let mut committed: BTreeSet<i64> = BTreeSet::new();
    let mut next = 0i64;
    let mut trace: Vec<(usize, Op)> = vec![];
    let mut dirty = false; // something was left behind
    let mut after = false; // and a connection handed out since
    let key = |what: &str| format!("{what}: {pl:?} {be:?}");
    let one_writer = be != Be::Pg;
    for step in 0..depth {
        let mut en: Vec<(usize, Op)> = vec![];
        let last = step + 1 == depth;
        for u in 0..users {
            // a user who never had one comes after those who had
            if u > 0 && !trace.iter().any(|(v, _)| *v == u - 1) {
                continue;
            }
            let x = &us[u];
            let others_write = one_writer && us.iter().enumerate().any(|(i, y)| i != u && y.in_tx);
            if x.held.is_none() {
                en.push((u, Get));
                continue;
            }
            en.push((u, Put));
            if last {
                continue;
            }
            if x.dead {
                en.push((u, Panic));
                continue;
            }
            if x.in_tx {
                en.push((u, Panic));
                if !x.lost {
                    en.extend([(u, End(true)), (u, End(false))]);
                }
            } else {
                en.extend([(u, Bad), (u, Panic), (u, Unread)]);
                if pl == Pl::Dead {
                    en.push((u, WorkPanic));
                }
                if !others_write {
                    en.extend([(u, Write), (u, Begin), (u, BeginBad), (u, TxDrop), (u, TxForget), (u, TxCommit)]);
                    if pl == Pl::Dead {
                        en.extend([(u, WorkAbandon), (u, WorkBegin)]);
                    }
                }
            }
            if be == Be::Pg {
                en.push((u, Kill));
            }
        }
        let (u, op) = *ch.pick(&en);
        trace.push((u, op));
        ctx.trans(1);
        next += 1;
        let sql = format!("INSERT INTO w21 VALUES ({next})");
        let x = &mut us[u];
        let fail = |what: &str, d: String| {
            ctx.violation(&key(what), format!("{trace:?}: {d}"));
            Err(())
        };
        let must = |what: &str, r: Result<(), String>| r.map_err(|e| {
            ctx.violation(&key(what), format!("{trace:?}: {e}"));
        });
        match op {
            Get => {
                let h = match catch(|| pool.get()) {
                    Ok(Ok(h)) => h,
                    Ok(Err(e)) => return fail("the pool gives no connection", e),
                    Err(m) => return fail("the pool panics", m),
                };
                after = after || dirty;
                match catch(|| h.rows()) {
                    Ok(Ok(r)) if r == committed => (),
                    Ok(Ok(r)) => return fail("the connection shows other than the committed rows", format!("{r:?} instead of {committed:?}")),
                    Ok(Err(e)) | Err(e) => return fail("the connection does not work", e),
                }
                let x_writes = !one_writer || us.iter().all(|y| !y.in_tx);
                if x_writes {
                    match catch(|| h.exec(&sql)) {
                        Ok(Ok(())) => (),
                        Ok(Err(e)) | Err(e) => return fail("the connection does not take a write", e),
                    }
                    committed.insert(next);
                    let o = outside(w);
                    if o != committed {
                        return fail("a write on the connection is not committed", format!("{o:?} instead of {committed:?}"));
                    }
                } else {
                    match catch(|| h.exec("BEGIN").and_then(|()| h.exec("ROLLBACK"))) {
                        Ok(Ok(())) => (),
                        Ok(Err(e)) | Err(e) => return fail("the connection is inside a transaction", e),
                    }
                }
                let x = &mut us[u];
                *x = User { held: Some(h), open: BTreeSet::new(), in_tx: false, dead: false, lost: false };
                if be == Be::Pg {
                    // the pid is asked for here, where the connection is known to work
                    let _ = x;
                }
            }
            Put | Panic => {
                let h = x.held.take();
                dirty = dirty || x.in_tx || x.dead || x.lost || op == Panic;
                let lost = x.lost;
                x.in_tx = false;
                x.open.clear();
                let r = catch(|| {
                    let _h = h;
                    if op == Panic {
                        panic!("the holder panics");
                    }
                });
                if op == Put && r.is_err() {
                    return fail("returning the connection panics", r.err().unwrap_or_default());
                }
                if lost {
                    std::thread::sleep(Duration::from_millis(30));
                }
            }
            Write => {
                must("a write fails", x.held.as_ref().unwrap().exec(&sql))?;
                committed.insert(next);
            }
            Begin | BeginBad => {
                let h = x.held.as_ref().unwrap();
                must("BEGIN fails", h.exec("BEGIN"))?;
                must("a write fails", h.exec(&sql))?;
                x.in_tx = true;
                x.open = [next].into();
                if op == BeginBad {
                    let _ = h.exec("INSERT INTO nosuch VALUES (1)");
                    x.open.clear();
                    x.lost = true; // (whether the transaction is still usable depends on the backend)
                }
            }
            Bad => {
                let r = x.held.as_ref().unwrap().exec("INSERT INTO nosuch VALUES (1)");
                if r.is_ok() {
                    return fail("a wrong statement succeeds", String::new());
                }
            }
            TxDrop | TxForget | TxCommit => {
                must("a transaction fails", x.held.as_mut().unwrap().tx(&sql, op))?;
                if op == TxCommit {
                    committed.insert(next);
                }
                if op == TxForget {
                    x.in_tx = true;
                    x.lost = true;
                }
                dirty = true;
            }
            End(commit) => {
                must("the end of a transaction fails", x.held.as_ref().unwrap().exec(if commit { "COMMIT" } else { "ROLLBACK" }))?;
                if commit {
                    committed.append(&mut x.open);
                }
                x.in_tx = false;
                x.open.clear();
            }
            Kill => {
                let h = x.held.as_ref().unwrap();
                let pid = if x.in_tx { None } else { h.pid() };
                // inside a transaction the pid cannot be asked for without writing; all sessions of the pool which are in one are ended
                let cond = match pid {
                    Some(p) => format!("pid = {p}"),
                    None => "state LIKE 'idle in transaction%'".to_string(),
                };
                let name = dbname(w);
                pg_admin(&format!("SELECT pg_terminate_backend(pid) FROM pg_stat_activity WHERE datname = '{name}' AND {cond}"));
                if pid.is_none() {
                    for y in us.iter_mut().filter(|y| y.in_tx) {
                        y.in_tx = false;
                        y.dead = true;
                        y.open.clear();
                    }
                }
                us[u].dead = true;
                dirty = true;
            }
            WorkPanic | WorkAbandon | WorkBegin => {
                let Some(Held::D(c)) = &mut x.held else { panic!("ENGINE held") };
                let s = sql.clone();
                match op {
                    WorkPanic => {
                        let r = RT.block_on(c.with_sync(|_| -> butane::Result<()> { panic!("the work panics") }));
                        if r.is_ok() {
                            return fail("panicking work succeeds", String::new());
                        }
                        x.dead = true;
                    }
                    WorkBegin => {
                        let r = RT.block_on(c.with_sync(move |c| {
                            c.execute("BEGIN")?;
                            c.execute(&s)
                        }));
                        must("blocking work fails", r.map_err(|e| e.to_string()))?;
                        x.in_tx = true;
                        x.open = [next].into();
                    }
                    _ => {
                        let (tx, rx) = std::sync::mpsc::channel::<()>();
                        let (tx2, rx2) = std::sync::mpsc::channel::<()>();
                        RT.block_on(async {
                            let f = c.with_sync(move |c| {
                                // (turso itself does not end what SQL has begun when the connection goes)
                                let t = BackendConnection::transaction(c)?;
                                ConnectionMethods::execute(&t, &s)?;
                                let _ = tx2.send(());
                                let _ = rx.recv_timeout(Duration::from_secs(10));
                                Ok(())
                            });
                            let _ = tokio::time::timeout(Duration::from_millis(1), async {
                                f.await
                            }).await;
                        });
                        let _ = rx2.recv_timeout(Duration::from_secs(10));
                        let _ = tx.send(());
                        // (the work ends on its own, and with it the connection)
                        x.in_tx = true;
                        x.lost = true;
                        x.dead = true;
                        std::thread::sleep(Duration::from_millis(30));
                        x.in_tx = false;
                    }
                }
                dirty = true;
            }
            Unread => {
                let cols = COLS();
                match x.held.as_ref().unwrap() {
                    Held::R(c) => {
                        if let Ok(mut r) = ConnectionMethods::query(&**c, "w21", &cols, None, None, None, None) {
                            let _ = r.next();
                        }
                    }
                    Held::D(c) => RT.block_on(async {
                        if let Ok(mut r) = ConnectionMethodsAsync::query(&**c, "w21", &cols, None, None, None, None).await {
                            let _ = r.next();
                        }
                    }),
                }
            }
        }
    }
    if after {
        ctx.nontriv();
    }
    ctx.state(hash64(&(pl, be as u8, &trace)));
    ctx.valid();
    ctx.outcome(format!("{} committed", committed.len()));
    if std::env::var("BMC_TIME").is_ok() && t0.elapsed().as_millis() > 300 {
        eprintln!("{:?} {trace:?}", t0.elapsed());
    }
    let abandoned = dirty || us.iter().any(|u| u.in_tx || u.lost) || trace.iter().any(|(_, o)| matches!(o, TxForget | WorkAbandon));
    drop(us);
    if let Pool::D(p) = &pool {
        p.close();
    }
    drop(pool);
    Ok(abandoned)
}
