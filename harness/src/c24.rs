//! C24: borrowing an async connection for blocking work always gives it back.
use crate::backends::*;
use crate::engine::*;
use butane::db::{BackendConnection, BackendConnectionAsync, Column, ConnectionAsync, ConnectionMethods, ConnectionMethodsAsync, ConnectionSpec};
use butane::{Error, SqlType, SqlVal};
use butane_core::db::SyncAdapter;
use std::future::Future;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

pub const RULE: &str = "every sequence, up to the stated length, of borrowing an async connection for blocking work which returns, fails, fails in the database, panics, or commits, drops or panics in a transaction, of abandoning the wait before it starts, at the start, in the middle or at the end of the work, and of direct requests, on a multi-threaded and a single-threaded runtime and every backend; results, the stored rows seen by another connection, a session marker and the uniformity of later failures are compared with a model; non-trivial = a step after a panic or an abandoned wait";

type B = SyncAdapter<ConnectionAsync>;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Work,
    WorkErr,
    WorkSqlErr,
    WorkPanic,
    WorkTx(bool), // committed or dropped
    WorkTxPanic,
    WorkMany, // two writes and a read
    Abandon(u8),
    Exec,
    Read,
    Tx(bool),
    Names,
}
use Ev::*;
const EVS: [Ev; 17] = [Work, WorkErr, WorkSqlErr, WorkPanic, WorkTx(true), WorkTx(false), WorkTxPanic, WorkMany, Abandon(0), Abandon(1), Abandon(2), Abandon(3), Exec, Read, Tx(true), Tx(false), Names];

fn ins(n: i64) -> String {
    format!("INSERT INTO w24 VALUES ({n})")
}
fn rows_sync(c: &impl ConnectionMethods) -> butane::Result<Vec<i64>> {
    let mut r = c.query("w24", &[Column::new("n", SqlType::BigInt)], None, None, None, None)?;
    let mut v = vec![];
    while let Some(x) = r.next()? {
        if let SqlVal::BigInt(n) = x.get(0, SqlType::BigInt)?.into() {
            v.push(n);
        }
    }
    v.sort();
    Ok(v)
}
async fn rows_async(c: &impl ConnectionMethodsAsync) -> butane::Result<Vec<i64>> {
    let mut r = c.query("w24", &[Column::new("n", SqlType::BigInt)], None, None, None, None).await?;
    let mut v = vec![];
    while let Some(x) = r.next()? {
        if let SqlVal::BigInt(n) = x.get(0, SqlType::BigInt)?.into() {
            v.push(n);
        }
    }
    v.sort();
    Ok(v)
}

/// Where the work waits until it is told to go on.
#[derive(Default)]
struct Stage {
    s: Mutex<(u8, u8)>, // reached, allowed
    cv: Condvar,
    over: AtomicBool,
}
impl Stage {
    fn at(&self, n: u8) {
        let mut g = self.s.lock().unwrap();
        g.0 = n;
        self.cv.notify_all();
        while g.1 < n {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn allow(&self, n: u8) {
        self.s.lock().unwrap().1 = n;
        self.cv.notify_all();
    }
    fn reached(&self) -> u8 {
        self.s.lock().unwrap().0
    }
}

struct W {
    rt: Option<tokio::runtime::Runtime>,
    db: Db,
    look: Any,
}
impl W {
    fn rt(&self) -> &tokio::runtime::Runtime {
        self.rt.as_ref().unwrap_or(&RT)
    }
}
fn init(cfg: Cfg, single: bool) -> W {
    let rt = single.then(|| tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap());
    let db = Db::new(cfg.be(), true);
    let look = open(match cfg.be() { Be::Sq => Cfg::SqSync, Be::Pg => Cfg::PgSync, Be::Tu => Cfg::TuAsync }, &db.conn_str).expect("ENGINE connect");
    look.execute("CREATE TABLE w24 (n BIGINT NOT NULL)").expect("ENGINE schema");
    W { rt, db, look }
}
fn seen(w: &mut W) -> Vec<i64> {
    match &mut w.look {
        Any::S(c) => rows_sync(c),
        Any::A(c) => RT.block_on(rows_async(c)),
    }
    .expect("ENGINE look")
}

/// Err: what is wrong.
fn history(w: &mut W, cfg: Cfg, evs: &[Ev]) -> Result<Option<(u64, bool)>, String> {
    w.look.execute("DELETE FROM w24").expect("ENGINE reset");
    let limit = Duration::from_secs(15);
    let spec = ConnectionSpec::new(cfg.be().name(), w.db.conn_str.clone());
    let mut c = match cfg {
        Cfg::PgAdapt => match open(Cfg::PgAdapt, &w.db.conn_str).expect("ENGINE connect") {
            Any::A(c) => c,
            Any::S(_) => unreachable!(),
        },
        _ => w.rt().block_on(butane::db::connect_async(&spec)).expect("ENGINE connect"),
    };
    let marked = cfg.be() != Be::Tu;
    if marked {
        w.rt().block_on(c.execute("CREATE TEMP TABLE mark24 (x INT)")).expect("ENGINE mark");
    }
    let mut want: Vec<i64> = vec![];
    let mut doubtful = false; // a panic or an abandoned wait has happened
    let mut works: Option<bool> = None; // what was found of the connection after that
    for (i, ev) in evs.iter().enumerate() {
        let n = i as i64 + 1;
        let step = format!("step {} ({ev:?})", i + 1);
        // a request fails because the connection is unusable: that must be so from then on, and said
        let mut usable = true;
        let rt = w.rt.as_ref().unwrap_or(&RT);
        let mut verdict = |r: Result<(), &Error>| -> Result<bool, String> {
            match r {
                Ok(()) => {
                    if works == Some(false) {
                        return Err(format!("{step}: the connection works again"));
                    }
                    if doubtful {
                        works = Some(true);
                    }
                    Ok(true)
                }
                Err(Error::PoisonedConnection) if doubtful && works != Some(true) => {
                    works = Some(false);
                    usable = false;
                    Ok(false)
                }
                Err(e) => Err(format!("{step}: {e}")),
            }
        };
        macro_rules! run {
            ($f:expr) => {
                match rt.block_on(async { tokio::time::timeout(limit, $f).await }) {
                    Ok(x) => x,
                    Err(_) => return Err(format!("{step}: hangs")),
                }
            };
        }
        match *ev {
            Work => {
                let r = run!(c.with_sync(move |c: &mut B| c.execute(&ins(n)).map(|_| n)));
                if verdict(r.as_ref().map(|_| ()))? {
                    if r.ok() != Some(n) {
                        return Err(format!("{step}: a different result"));
                    }
                    want.push(n);
                }
            }
            WorkMany => {
                let r = run!(c.with_sync(move |c: &mut B| {
                    c.execute(&ins(n))?;
                    c.execute(&ins(n + 100))?;
                    rows_sync(c)
                }));
                if verdict(r.as_ref().map(|_| ()))? {
                    want.extend([n, n + 100]);
                    want.sort();
                    if r.as_ref().ok() != Some(&want) {
                        return Err(format!("{step}: the work sees {r:?}, expected {want:?}"));
                    }
                }
            }
            WorkErr => {
                let r = run!(c.with_sync(move |c: &mut B| {
                    c.execute(&ins(n))?;
                    Err::<(), _>(Error::Internal(format!("mine {n}")))
                }));
                match r {
                    Err(Error::Internal(m)) if m == format!("mine {n}") => {
                        verdict(Ok(()))?;
                        want.push(n);
                    }
                    Ok(()) => return Err(format!("{step}: the failure is not reported")),
                    Err(e) => _ = verdict(Err(&e))?,
                }
            }
            WorkSqlErr => {
                let r = run!(c.with_sync(move |c: &mut B| c.execute("INSERT INTO nosuch24 VALUES (1)")));
                match r {
                    Ok(()) => return Err(format!("{step}: the failure is not reported")),
                    Err(Error::PoisonedConnection) => _ = verdict(Err(&Error::PoisonedConnection))?,
                    Err(_) => _ = verdict(Ok(()))?,
                }
            }
            WorkPanic | WorkTxPanic => {
                let tx = *ev == WorkTxPanic;
                let started = Arc::new(AtomicBool::new(false));
                let s2 = started.clone();
                let r = run!(c.with_sync(move |c: &mut B| {
                    s2.store(true, SeqCst);
                    if tx {
                        let t = c.transaction()?;
                        t.execute(&ins(n))?;
                        panic!("the work panics");
                    }
                    c.execute(&ins(n))?;
                    if n > 0 {
                        panic!("the work panics");
                    }
                    Ok(())
                }));
                match r {
                    Ok(()) => return Err(format!("{step}: the panic is not reported")),
                    Err(e) if !started.load(SeqCst) => {
                        if verdict(Err(&e))? {
                            return Err(format!("{step}: not run"));
                        }
                    }
                    Err(Error::PoisonedConnection) if doubtful => {
                        // it has been run on an unusable connection
                        _ = verdict(Err(&Error::PoisonedConnection))?;
                    }
                    Err(_) => {
                        if !tx {
                            want.push(n);
                        }
                        doubtful = true;
                    }
                }
            }
            WorkTx(commit) => {
                let r = run!(c.with_sync(move |c: &mut B| {
                    let t = c.transaction()?;
                    t.execute(&ins(n))?;
                    if commit {
                        t.commit()?;
                    }
                    Ok(())
                }));
                if verdict(r.as_ref().map(|_| ()))? && commit {
                    want.push(n);
                }
            }
            Abandon(stage) => {
                let st: Arc<Stage> = Default::default();
                let s2 = st.clone();
                struct Over(Arc<Stage>);
                impl Drop for Over {
                    fn drop(&mut self) {
                        self.0.over.store(true, SeqCst);
                        self.0.cv.notify_all();
                    }
                }
                let over = Over(st.clone());
                let ran = Arc::new(Mutex::new(None));
                let ran2 = ran.clone();
                let mut fut = Box::pin(c.with_sync(move |c: &mut B| {
                    let _over = over;
                    s2.at(1);
                    let r = c.execute(&ins(n));
                    *ran2.lock().unwrap() = Some(r.is_ok());
                    s2.at(2);
                    r
                }));
                if stage > 0 {
                    if stage > 1 {
                        st.allow(stage - 1);
                    }
                    let mut early = None;
                    let ok = rt.block_on(async {
                        let t = std::time::Instant::now();
                        loop {
                            let p = std::future::poll_fn(|cx| {
                                std::task::Poll::Ready(if early.is_some() { std::task::Poll::Pending } else { fut.as_mut().poll(cx) })
                            })
                            .await;
                            if let std::task::Poll::Ready(r) = p {
                                early = Some(r);
                                return true;
                            }
                            if st.reached() >= stage.min(2) && (stage < 3 || st.over.load(SeqCst)) {
                                return true;
                            }
                            if t.elapsed() > limit {
                                return false;
                            }
                            if stage == 3 && st.reached() >= 2 {
                                // it ends without being looked at
                                while !st.over.load(SeqCst) && t.elapsed() < limit {
                                    tokio::time::sleep(Duration::from_micros(50)).await;
                                }
                                return st.over.load(SeqCst);
                            }
                            tokio::time::sleep(Duration::from_micros(50)).await;
                        }
                    });
                    if !ok {
                        return Err(format!("{step}: hangs"));
                    }
                    if let Some(r) = early {
                        // not abandoned: it was over
                        drop(fut);
                        st.allow(9);
                        if verdict(r.as_ref().map(|_| ()))? {
                            want.push(n);
                        }
                        continue;
                    }
                }
                drop(fut);
                st.allow(9);
                // the work which has begun goes on to its end
                let ok = rt.block_on(async {
                    let t = std::time::Instant::now();
                    while !st.over.load(SeqCst) {
                        if t.elapsed() > limit {
                            return false;
                        }
                        tokio::time::sleep(Duration::from_micros(50)).await;
                    }
                    true
                });
                if !ok {
                    return Err(format!("{step}: the abandoned work does not end"));
                }
                let r = *ran.lock().unwrap();
                if stage == 0 {
                    if r.is_some() {
                        return Err(format!("{step}: the work ran, though it was never waited for"));
                    }
                } else {
                    if r == Some(true) {
                        want.push(n);
                    } else if r == Some(false) && !doubtful {
                        return Err(format!("{step}: the work failed"));
                    }
                    doubtful = true;
                }
            }
            Exec => {
                let r = run!(c.execute(&ins(n)));
                if verdict(r.as_ref().map(|_| ()))? {
                    want.push(n);
                }
            }
            Read => {
                let r = run!(async {
                    if marked {
                        c.execute("INSERT INTO mark24 VALUES (1)").await?;
                    }
                    rows_async(&c).await
                });
                if verdict(r.as_ref().map(|_| ()))? {
                    want.sort();
                    if r.as_ref().ok() != Some(&want) {
                        return Err(format!("{step}: sees {r:?}, expected {want:?}"));
                    }
                }
            }
            Tx(commit) => {
                let r: butane::Result<()> = run!(async {
                    let t = c.transaction().await?;
                    t.execute(&ins(n)).await?;
                    if commit { t.commit().await } else { t.rollback().await }
                });
                if verdict(r.as_ref().map(|_| ()))? && commit {
                    want.push(n);
                }
            }
            Names => {
                let (name, back) = (c.backend_name(), c.backend().name());
                _ = c.is_closed();
                if works != Some(false) && !doubtful && (name != cfg.be().name() || back != name) {
                    return Err(format!("{step}: {name} {back}"));
                }
            }
        }
        _ = usable;
    }
    drop(c);
    want.sort();
    let mut got = seen(w);
    let t = std::time::Instant::now();
    while got != want && t.elapsed() < Duration::from_millis(500) {
        // a connection being released elsewhere rolls back
        std::thread::sleep(Duration::from_millis(5));
        got = seen(w);
    }
    if got != want {
        return Err(format!("stored {got:?}, expected {want:?}"));
    }
    Ok(Some((hash64(&(want, doubtful, works, evs.last().map(|e| format!("{e:?}")))), doubtful)))
}

pub fn run(ctx: &Ctx) {
    let only = std::env::var("BMC_CFG").ok();
    for (cfg, single) in [(Cfg::SqAsync, false), (Cfg::SqAsync, true), (Cfg::PgAsync, false), (Cfg::PgAsync, true), (Cfg::PgAdapt, false), (Cfg::TuAsync, false), (Cfg::TuAsync, true)] {
        if only.as_ref().is_some_and(|o| *o != format!("{cfg:?}")) {
            continue;
        }
        let depth = std::env::var("DEPTH").ok().and_then(|d| d.parse().ok()).unwrap_or(if ctx.thorough { 4 } else if cfg.be() == Be::Pg { 2 } else { 3 });
        let tag = format!("{cfg:?}/{}", if single { "one thread" } else { "threads" });
        bfs(ctx, &tag, &EVS, depth, |_| None, |w: &mut Option<W>, h| {
            let evs: Vec<Ev> = h.iter().map(|i| EVS[*i]).collect();
            let mut x = w.take().unwrap_or_else(|| init(cfg, single));
            match catch(|| history(&mut x, cfg, &evs)) {
                Ok(Ok(k)) => {
                    *w = Some(x);
                    let (k, doubtful) = k?;
                    if doubtful {
                        ctx.nontriv();
                    }
                    ctx.outcome(format!("{:?}: {}", cfg.be(), if doubtful { "after a panic or an abandoned wait" } else { "usable" }));
                    Some(k)
                }
                Ok(Err(e)) => {
                    ctx.violation(&format!("{tag} {evs:?}"), format!("{e}\nevents {evs:#?}"));
                    std::mem::forget(x);
                    None
                }
                Err(p) => {
                    if p.starts_with("ENGINE") {
                        panic!("{p}");
                    }
                    ctx.violation(&format!("{tag} {evs:?}"), format!("panicked: {p}\nevents {evs:#?}"));
                    std::mem::forget(x);
                    None
                }
            }
        });
    }
}
