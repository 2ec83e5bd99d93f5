//! C16: the async wrapper of a blocking connection.
use crate::engine::*;
use butane::db::{Backend, BackendConnection, BackendConnectionAsync, Column, Connection, ConnectionAsync, ConnectionMethods, ConnectionMethodsAsync, Transaction, TransactionAsync};
use butane::query::{BoolExpr, Expr, Order};
use butane::{SqlType, SqlVal, SqlValRef};
use rusqlite::ffi;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

pub const RULE: &str = "every order of issuing (insert, statement, query, delete, failing and panicking requests), releasing, polling and abandoning requests on an async wrapper of a blocking sqlite connection, of opening, committing, rolling back, dropping and abandoning transactions and of dropping the connection, up to the stated number of events; each statement is held at a gate on the wrapper's thread until released, arguments are overwritten as soon as their request is abandoned; results, executed requests and their order, what is left open and what is released are compared with a sequential model; non-trivial = a request abandoned before it ran";

// ---- the gate ----
#[derive(Default)]
struct GateState {
    on: bool,
    free: bool,
    permits: usize,
}
#[derive(Default)]
pub struct Gate {
    s: Mutex<GateState>,
    cv: Condvar,
}
impl Gate {
    fn pass(&self) {
        let mut g = self.s.lock().unwrap();
        while g.on && !g.free && g.permits == 0 {
            g = self.cv.wait(g).unwrap();
        }
        if g.on && !g.free {
            g.permits -= 1;
        }
    }
    fn permit(&self) {
        self.s.lock().unwrap().permits += 1;
        self.cv.notify_all();
    }
    fn free(&self, f: bool) {
        let mut g = self.s.lock().unwrap();
        g.free = f;
        if f {
            g.permits = 0;
        }
        self.cv.notify_all();
    }
}
impl std::fmt::Debug for Gate {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Gate")
    }
}
thread_local! {
    static OPENING: RefCell<Option<Arc<Gate>>> = const { RefCell::new(None) };
    static INSIDE: RefCell<bool> = const { RefCell::new(false) };
}
unsafe extern "C" fn traced(_mask: u32, gate: *mut std::ffi::c_void, _p: *mut std::ffi::c_void, x: *mut std::ffi::c_void) -> i32 {
    // an abandoned transaction rolls back by itself
    let sql = std::ffi::CStr::from_ptr(x as *const std::ffi::c_char).to_bytes();
    if sql.len() >= 8 && sql[..8].eq_ignore_ascii_case(b"ROLLBACK") {
        return 0;
    }
    if !INSIDE.with(|i| *i.borrow()) {
        (*(gate as *const Gate)).pass();
    }
    0
}
unsafe extern "C" fn opened(db: *mut ffi::sqlite3, _e: *mut *mut std::ffi::c_char, _a: *const ffi::sqlite3_api_routines) -> i32 {
    OPENING.with(|o| {
        if let Some(g) = &*o.borrow() {
            ffi::sqlite3_trace_v2(db, ffi::SQLITE_TRACE_STMT as u32, Some(traced), Arc::as_ptr(g) as *mut _);
        }
    });
    0
}

/// The blocking connection: sqlite's, which tells when it is released and holds each request at the gate.
#[derive(Debug)]
struct Spy {
    inner: Connection,
    gate: Arc<Gate>,
    drops: Arc<AtomicUsize>,
}
impl Drop for Spy {
    fn drop(&mut self) {
        self.drops.fetch_add(1, SeqCst);
    }
}
impl Spy {
    fn enter<T>(&self, f: impl FnOnce(&Connection) -> T) -> T {
        self.gate.pass();
        INSIDE.with(|i| *i.borrow_mut() = true);
        let r = f(&self.inner);
        INSIDE.with(|i| *i.borrow_mut() = false);
        r
    }
}
type R<T> = butane::Result<T>;
impl ConnectionMethods for Spy {
    fn execute(&self, sql: &str) -> R<()> {
        self.enter(|c| {
            if sql.starts_with("PANIC") {
                INSIDE.with(|i| *i.borrow_mut() = false);
                panic!("the request panics");
            }
            c.execute(sql)
        })
    }
    fn query<'c>(&'c self, table: &str, columns: &[Column], expr: Option<BoolExpr>, limit: Option<i32>, offset: Option<i32>, sort: Option<&[Order]>) -> R<butane_core::db::RawQueryResult<'c>> {
        self.gate.pass();
        INSIDE.with(|i| *i.borrow_mut() = true);
        let r = self.inner.query(table, columns, expr, limit, offset, sort);
        // rows are read after this
        r
    }
    fn insert_returning_pk(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> R<SqlVal> {
        self.enter(|c| c.insert_returning_pk(table, columns, pkcol, values))
    }
    fn insert_only(&self, table: &str, columns: &[Column], values: &[SqlValRef<'_>]) -> R<()> {
        self.enter(|c| c.insert_only(table, columns, values))
    }
    fn insert_or_replace(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> R<()> {
        self.enter(|c| c.insert_or_replace(table, columns, pkcol, values))
    }
    fn update(&self, table: &str, pkcol: Column, pk: SqlValRef<'_>, columns: &[Column], values: &[SqlValRef<'_>]) -> R<()> {
        self.enter(|c| c.update(table, pkcol, pk, columns, values))
    }
    fn delete_where(&self, table: &str, expr: BoolExpr) -> R<usize> {
        self.enter(|c| c.delete_where(table, expr))
    }
    fn has_table(&self, table: &str) -> R<bool> {
        self.enter(|c| c.has_table(table))
    }
}
impl BackendConnection for Spy {
    fn transaction(&mut self) -> R<Transaction<'_>> {
        self.gate.pass();
        INSIDE.with(|i| *i.borrow_mut() = true);
        let r = self.inner.transaction();
        INSIDE.with(|i| *i.borrow_mut() = false);
        r
    }
    fn backend(&self) -> Box<dyn Backend> {
        self.inner.backend()
    }
    fn backend_name(&self) -> &'static str {
        self.inner.backend_name()
    }
    fn is_closed(&self) -> bool {
        self.inner.is_closed()
    }
}

// ---- requests ----
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Insert,
    Exec,
    Query,
    Del,
    Bad,
    Panic,
    Returning,
}
use Kind::*;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Issue(Kind),
    Unpolled(Kind), // created and dropped without ever being polled
    Begin,
    Commit,
    Rollback,
    DropTx,
    Release,
    PollAt(usize),
    Abandon(usize),
    Info,
}
/// Arguments of a request, which live as long as its future.
struct Args {
    sql: String,
    text: String,
    id: i64,
    table: String,
    cols: Vec<Column>,
}
enum Out {
    Val(String),
    Tx(TransactionAsync<'static>),
}
type Fut = Pin<Box<dyn Future<Output = Result<Out, String>> + Send>>;
#[derive(Default)]
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}
struct Live {
    fut: Fut,
    args: *mut Args,
    flag: Arc<Flag>,
    ordinal: usize,
    want: Option<Result<String, ()>>, // None: a transaction
    tx: bool,                           // issued on the transaction (or ends it)
    ends: bool,
    what: String,
}
impl Live {
    fn poll(&mut self) -> Poll<Result<Out, String>> {
        let w = Waker::from(self.flag.clone());
        self.fut.as_mut().poll(&mut Context::from_waker(&w))
    }
}
fn scribble(a: *mut Args) {
    // SAFETY: the future which borrowed the arguments is gone
    let a = unsafe { &mut *a };
    for s in [&mut a.sql, &mut a.text, &mut a.table] {
        unsafe { s.as_bytes_mut() }.fill(b'x');
    }
    a.id = -1;
    for c in &mut a.cols {
        *c = Column::new("xx", SqlType::Text);
    }
}

fn log_cols() -> Vec<Column> {
    vec![Column::new("req", SqlType::BigInt), Column::new("txt", SqlType::Text)]
}
async fn request(c: &impl ConnectionMethodsAsync, k: Kind, a: &Args) -> Result<Out, String> {
    let e = |e: butane::Error| e.to_string();
    Ok(Out::Val(match k {
        Exec | Bad | Panic => c.execute(&a.sql).await.map(|_| "done".to_string()).map_err(e)?,
        Insert => c.insert_only(&a.table, &a.cols, &[SqlValRef::BigInt(a.id), SqlValRef::Text(&a.text)]).await.map(|_| "done".to_string()).map_err(e)?,
        Returning => {
            let pk = Column::new("seq", SqlType::BigInt);
            format!("{:?}", c.insert_returning_pk(&a.table, &a.cols, &pk, &[SqlValRef::BigInt(a.id), SqlValRef::Text(&a.text)]).await.map_err(e)?)
        }
        Del => format!("{}", c.delete_where(&a.table, BoolExpr::Eq("req", Expr::Val(SqlVal::BigInt(a.id - 1)))).await.map_err(e)?),
        Query => {
            let order = [Order { column: "seq", direction: butane::query::OrderDirection::Ascending }];
            let mut rows = c.query(&a.table, &a.cols, None, None, None, Some(&order)).await.map_err(e)?;
            let mut out = vec![];
            while let Some(r) = rows.next().map_err(e)? {
                out.push(format!("{:?}", r.get(0, SqlType::BigInt).map(SqlVal::from).map_err(e)?));
            }
            out.join(" ")
        }
    }))
}

/// What a sequential execution does.
#[derive(Clone, Default, Debug)]
struct Model {
    rows: Vec<(i64, i64, String)>, // seq, req, txt
    saved: Option<Vec<(i64, i64, String)>>,
}
impl Model {
    fn next_seq(&self) -> i64 {
        self.rows.iter().map(|r| r.0).max().unwrap_or(0) + 1
    }
    fn run(&mut self, k: Kind, id: i64) -> Result<String, ()> {
        let s = self.next_seq();
        match k {
            Exec => self.rows.push((s, id, "exec".into())),
            Insert => self.rows.push((s, id, format!("text{id}"))),
            Returning => {
                self.rows.push((s, id, format!("text{id}")));
                return Ok(format!("BigInt({s})"));
            }
            Bad | Panic => return Err(()),
            Del => {
                let n = self.rows.len();
                self.rows.retain(|r| r.1 != id - 1);
                return Ok((n - self.rows.len()).to_string());
            }
            Query => return Ok(self.rows.iter().map(|r| format!("BigInt({})", r.1)).collect::<Vec<_>>().join(" ")),
        }
        Ok("done".into())
    }
}

struct Run<'a> {
    conn: *mut ConnectionAsync,
    tx: Option<*mut TransactionAsync<'static>>,
    live: Vec<Live>,
    args: Vec<*mut Args>,
    gate: Arc<Gate>,
    accepted: usize,
    released: usize,
    next: i64,
    m: Model,
    trace: &'a Mutex<Vec<String>>,
    abandoned_unrun: bool,
}
impl Run<'_> {
    fn args(&mut self, k: Kind) -> *mut Args {
        let id = self.next;
        self.next += 1;
        let sql = match k {
            Exec => format!("INSERT INTO log (req, txt) VALUES ({id}, 'exec')"),
            Bad => "INSERT INTO uniq VALUES (0)".into(),
            _ => format!("PANIC {id}"),
        };
        let a = Box::into_raw(Box::new(Args { sql, text: format!("text{id}"), id, table: "log".into(), cols: log_cols() }));
        self.args.push(a);
        a
    }
    fn note(&self, s: impl Into<String>) {
        self.trace.lock().unwrap().push(s.into());
    }
    /// Wait until what was released has answered.
    fn answered(&self, i: usize) -> Result<(), String> {
        let l = &self.live[i];
        let t = Instant::now();
        while !l.flag.0.load(SeqCst) {
            if t.elapsed() > Duration::from_secs(10) {
                return Err(format!("{} was executed, but its caller is never told", l.what));
            }
            std::hint::spin_loop();
            if t.elapsed() > Duration::from_micros(50) {
                std::thread::yield_now();
            }
        }
        Ok(())
    }
    fn push(&mut self, fut: Fut, args: *mut Args, want: Option<Result<String, ()>>, tx: bool, ends: bool, what: String) -> Result<(), String> {
        self.accepted += 1;
        let mut l = Live { fut, args, flag: Default::default(), ordinal: self.accepted, want, tx, ends, what };
        let p = l.poll();
        if let Poll::Ready(r) = p {
            if ends && self.gate.s.lock().unwrap().free {
                self.live.push(l);
                return self.finish(self.live.len() - 1, r);
            }
            let r = match r {
                Ok(Out::Val(v)) => format!("Ok {v}"),
                Ok(Out::Tx(_)) => "a transaction".into(),
                Err(e) => format!("Err {e}"),
            };
            return Err(format!("{} answered before it was executed: {r}", l.what));
        }
        self.live.push(l);
        // it may have been let through already
        if self.released >= self.accepted {
            self.answered(self.live.len() - 1)?;
        }
        Ok(())
    }
    fn finish(&mut self, i: usize, r: Result<Out, String>) -> Result<(), String> {
        let l = self.live.remove(i);
        match (&l.want, r) {
            (None, Ok(Out::Tx(t))) => {
                self.tx = Some(Box::into_raw(Box::new(t)));
                self.m.saved = Some(self.m.rows.clone());
                Ok(())
            }
            (Some(Ok(w)), Ok(Out::Val(v))) if *w == v => Ok(()),
            (Some(Err(())), Err(_)) => Ok(()),
            (w, r) => Err(format!("{}: {:?}, expected {w:?}", l.what, r.map(|o| match o { Out::Val(v) => v, Out::Tx(_) => "a transaction".into() }))),
        }
    }
    fn event(&mut self, e: Ev) -> Result<(), String> {
        self.note(format!("{e:?}"));
        match e {
            Ev::Issue(k) | Ev::Unpolled(k) => {
                let a = self.args(k);
                let ar: &'static Args = unsafe { &*a };
                let fut: Fut = match self.tx {
                    Some(t) => Box::pin(request(unsafe { &*t }, k, ar)),
                    None => Box::pin(request(unsafe { &*self.conn }, k, ar)),
                };
                if let Ev::Unpolled(_) = e {
                    drop(fut);
                    scribble(a);
                    return Ok(());
                }
                let id = self.next - 1;
                let want = self.m.run(k, id);
                self.push(fut, a, Some(want), self.tx.is_some(), false, format!("{k:?} #{id}"))
            }
            Ev::Begin => {
                let a = self.args(Query);
                let c: &'static mut ConnectionAsync = unsafe { &mut *self.conn };
                let fut: Fut = Box::pin(async move { c.transaction().await.map(Out::Tx).map_err(|e| e.to_string()) });
                self.push(fut, a, None, false, false, "begin".into())
            }
            Ev::Commit | Ev::Rollback => {
                let a = self.args(Query);
                let t: TransactionAsync<'static> = *unsafe { Box::from_raw(self.tx.take().unwrap()) };
                let saved = self.m.saved.take().unwrap();
                let fut: Fut = if e == Ev::Commit {
                    Box::pin(async move { t.commit().await.map(|_| Out::Val("ended".into())).map_err(|e| e.to_string()) })
                } else {
                    self.m.rows = saved;
                    Box::pin(async move { t.rollback().await.map(|_| Out::Val("ended".into())).map_err(|e| e.to_string()) })
                };
                if e == Ev::Rollback {
                    self.gate.free(true);
                }
                self.push(fut, a, Some(Ok("ended".into())), true, true, format!("{e:?}"))?;
                if e == Ev::Rollback {
                    self.settle()?;
                }
                Ok(())
            }
            Ev::DropTx => {
                // waits for the wrapper's thread
                self.gate.free(true);
                drop(unsafe { Box::from_raw(self.tx.take().unwrap()) });
                self.settle()?;
                self.m.rows = self.m.saved.take().unwrap();
                Ok(())
            }
            Ev::Info => {
                self.gate.free(true);
                let c = unsafe { &*self.conn };
                let r = catch(|| (c.backend_name(), c.backend().name(), c.is_closed()));
                self.settle()?;
                match r {
                    Ok(("sqlite", "sqlite", false)) => Ok(()),
                    r => Err(format!("backend and state: {r:?}")),
                }
            }
            Ev::Release => {
                self.released += 1;
                self.gate.permit();
                match self.live.iter().position(|l| l.ordinal == self.released) {
                    Some(i) => self.answered(i),
                    None => Ok(()),
                }
            }
            Ev::PollAt(i) => {
                let due = self.live[i].ordinal <= self.released;
                match self.live[i].poll() {
                    Poll::Pending if due => Err(format!("{} woke its caller, but has no result", self.live[i].what)),
                    Poll::Ready(_) if !due => Err(format!("{} answered before it was executed", self.live[i].what)),
                    Poll::Ready(r) => {
                        let tx_end = self.live[i].ends;
                        if tx_end {
                            // the transaction object is dropped with the future: nothing to wait for but its release
                            self.gate.free(true);
                            let r = self.finish(i, r);
                            self.settle()?;
                            return r;
                        }
                        self.finish(i, r)
                    }
                    Poll::Pending => Ok(()),
                }
            }
            Ev::Abandon(i) => {
                let l = self.live.remove(i);
                if l.ordinal > self.released {
                    self.abandoned_unrun = true;
                }
                let a = l.args;
                if l.ends {
                    self.gate.free(true);
                    drop(l);
                    self.settle()?;
                } else {
                    let done = l.ordinal <= self.released;
                    if l.want.is_none() && done {
                        // a transaction which was opened, and is nobody's
                        self.gate.free(true);
                        drop(l);
                        self.settle()?;
                    } else {
                        drop(l);
                    }
                }
                scribble(a);
                Ok(())
            }
        }
    }
    /// Everything accepted has been let through: hold again what comes.
    fn settle(&mut self) -> Result<(), String> {
        for i in 0..self.live.len() {
            self.answered(i)?;
        }
        // a request of our own comes after all others
        let c = unsafe { &*self.conn };
        if self.tx.is_none() && !self.live.iter().any(|l| l.want.is_none()) {
            _ = c.is_closed();
        }
        self.released = self.accepted;
        self.gate.free(false);
        Ok(())
    }
    fn enabled(&self, left: usize, kinds: &[Kind]) -> Vec<Ev> {
        let mut v = vec![];
        let begun = self.live.iter().any(|l| l.want.is_none());
        let txlive = self.live.iter().any(|l| l.tx && !l.ends);
        let ending = self.live.iter().any(|l| l.ends);
        if !begun && !ending && self.live.len() < 3 && left > 0 {
            for k in kinds {
                // a panic cannot be provoked inside a transaction
                // (and a request of two statements is held at each)
                if !(matches!(k, Panic | Returning) && self.tx.is_some()) {
                    v.push(Ev::Issue(*k));
                }
            }
            if self.live.is_empty() {
                v.push(Ev::Unpolled(Insert));
            }
            if self.tx.is_none() && self.live.is_empty() {
                v.push(Ev::Begin);
            }
        }
        if self.tx.is_some() && !txlive {
            v.extend([Ev::Commit, Ev::Rollback, Ev::DropTx]);
        }
        if self.released < self.accepted {
            v.push(Ev::Release);
        }
        for i in 0..self.live.len() {
            let due = self.live[i].ordinal <= self.released;
            if due || i == 0 {
                v.push(Ev::PollAt(i));
            }
            v.push(Ev::Abandon(i));
        }
        if self.tx.is_none() && !begun && !ending && self.live.len() == 1 {
            v.push(Ev::Info);
        }
        v
    }
}

static SEQ: AtomicUsize = AtomicUsize::new(0);
/// One execution. Err: what is wrong.
fn execution(ch: &mut Chooser, depth: usize, kinds: &[Kind], trace: &Mutex<Vec<String>>) -> Result<(bool, usize, String), String> {
    let gate: Arc<Gate> = Default::default();
    let drops: Arc<AtomicUsize> = Default::default();
    let url = format!("file:c16x{}?mode=memory&cache=shared", SEQ.fetch_add(1, SeqCst));
    let keeper = rusqlite::Connection::open(&url).expect("ENGINE keeper");
    keeper.execute_batch("CREATE TABLE log (seq INTEGER PRIMARY KEY, req BIGINT, txt TEXT); CREATE TABLE uniq (k INT UNIQUE); INSERT INTO uniq VALUES (0)").expect("ENGINE schema");
    OPENING.with(|o| *o.borrow_mut() = Some(gate.clone()));
    let inner = butane::db::connect(&butane::db::ConnectionSpec::new("sqlite", &url));
    OPENING.with(|o| *o.borrow_mut() = None);
    let spy = Spy { inner: inner.expect("ENGINE connect"), gate: gate.clone(), drops: drops.clone() };
    let conn = Connection::new(Box::new(spy)).into_async().map_err(|e| format!("wrapping: {e}"))?;
    gate.s.lock().unwrap().on = true;
    let mut r = Run { conn: Box::into_raw(Box::new(conn)), tx: None, live: vec![], args: vec![], gate: gate.clone(), accepted: 0, released: 0, next: 1, m: Model::default(), trace, abandoned_unrun: false };
    let mut events = 0;
    while events < depth {
        let en = r.enabled(depth - events - 1, kinds);
        if en.is_empty() {
            break;
        }
        let e = *ch.pick(&en);
        events += 1;
        r.event(e)?;
    }
    // let go of everything
    r.note("end");
    gate.free(true);
    while !r.live.is_empty() {
        r.answered(0)?;
        match r.live[0].poll() {
            Poll::Ready(x) => r.finish(0, x)?,
            Poll::Pending => return Err(format!("{} woke its caller, but has no result", r.live[0].what)),
        }
    }
    if let Some(t) = r.tx.take() {
        drop(unsafe { Box::from_raw(t) });
        r.m.rows = r.m.saved.take().unwrap();
    }
    let conn = unsafe { Box::from_raw(r.conn) };
    match catch(move || drop(conn)) {
        Ok(()) => {}
        Err(p) => return Err(format!("dropping the connection panics: {p}")),
    }
    if drops.load(SeqCst) != 1 {
        return Err(format!("the underlying connection was released {} times", drops.load(SeqCst)));
    }
    let mut st = keeper.prepare("SELECT seq, req, txt FROM log ORDER BY seq").map_err(|e| e.to_string())?;
    let rows: Result<Vec<(i64, i64, String)>, _> = st.query_map([], |r| Ok((r.get(0)?, r.get(1)?, r.get(2)?))).map_err(|e| e.to_string())?.collect();
    let rows = rows.map_err(|e| format!("something is left open: {e}"))?;
    if rows != r.m.rows {
        return Err(format!("executed and committed {rows:?}\nexpected {:?}", r.m.rows));
    }
    for a in r.args.drain(..) {
        drop(unsafe { Box::from_raw(a) });
    }
    Ok((r.abandoned_unrun, events, format!("{rows:?}")))
}

pub fn run(ctx: &Ctx) {
    unsafe { ffi::sqlite3_auto_extension(Some(opened)) };
    // a hang is found by this thread
    let slots: Vec<Mutex<(Option<Instant>, Arc<Mutex<Vec<String>>>)>> = (0..ctx.threads).map(|_| Mutex::new((None, Default::default()))).collect();
    let stop = AtomicBool::new(false);
    std::thread::scope(|s| {
        s.spawn(|| {
            while !stop.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                for sl in &slots {
                    let g = sl.lock().unwrap();
                    if g.0.is_some_and(|t| t.elapsed() > Duration::from_secs(20)) {
                        let t = g.1.lock().unwrap().clone();
                        ctx.violation(&format!("hang {t:?}"), format!("the wrapper hangs after\n{t:#?}"));
                        let code = ctx.finish();
                        std::process::exit(code);
                    }
                }
            }
        });
        let spaces: Vec<(&str, Vec<Kind>, usize)> = vec![
            ("all kinds", vec![Insert, Exec, Query, Del, Bad, Panic, Returning], if ctx.thorough { 6 } else { 5 }),
            ("inserts and failures", vec![Insert, Panic], if ctx.thorough { 8 } else { 7 }),
        ];
        for (name, kinds, depth) in &spaces {
            let depth = std::env::var("DEPTH").ok().and_then(|d| d.parse().ok()).unwrap_or(*depth);
            dfs(ctx, |t| t, |t, ch| {
                let trace: Arc<Mutex<Vec<String>>> = Default::default();
                *slots[*t].lock().unwrap() = (Some(Instant::now()), trace.clone());
                let r = catch(|| execution(ch, depth, kinds, &trace));
                slots[*t].lock().unwrap().0 = None;
                let tr = trace.lock().unwrap().clone();
                match r {
                    Ok(Ok((ab, n, end))) => {
                        ctx.trans(n as u64);
                        ctx.valid();
                        if ab {
                            ctx.nontriv();
                        }
                        ctx.state(hash64(&(name, &tr)));
                        ctx.outcome(end.chars().take(30).collect::<String>());
                    }
                    Ok(Err(e)) => ctx.violation(&format!("{tr:?}"), format!("{e}\nevents {tr:#?}")),
                    Err(p) => {
                        if p.starts_with("ENGINE") {
                            panic!("{p}");
                        }
                        ctx.violation(&format!("{tr:?}"), format!("panicked: {p}\nevents {tr:#?}"))
                    }
                }
            });
            ctx.bound(&format!("events[{name}]"), depth as u64);
        }
        stop.store(true, SeqCst);
    });
    ctx.assume("the wrapper's own steps between two gates (sending a command, sending a result) are not interleaved further; sqlite executes on the wrapper's thread");
}
