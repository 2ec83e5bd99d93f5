//! Real databases and every way of connecting to them.
use butane::db::{Connection, ConnectionAsync, ConnectionSpec};
use butane_core::migrations::adb::{self, Operation, ADB};
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::{LazyLock, Mutex};

pub static RT: LazyLock<tokio::runtime::Runtime> = LazyLock::new(|| {
    tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_all().build().unwrap()
});

/// A way of reaching a database.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Cfg {
    SqSync,
    SqAsync, // async adapter over the blocking connection
    SqRound, // blocking adapter over the async adapter
    PgSync,
    PgAsync,
    PgAdapt, // async adapter over the blocking connection (itself an adapter)
    TuAsync,
    TuSync,
}
use Cfg::*;
pub const ALL: [Cfg; 8] = [SqSync, SqAsync, SqRound, PgSync, PgAsync, PgAdapt, TuAsync, TuSync];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Be {
    Sq,
    Pg,
    Tu,
}
impl Be {
    pub fn name(self) -> &'static str {
        match self {
            Be::Sq => "sqlite",
            Be::Pg => "pg",
            Be::Tu => "turso",
        }
    }
    pub fn backend(self) -> Box<dyn butane_core::db::Backend> {
        butane_core::db::get_backend(self.name()).unwrap()
    }
}
impl Cfg {
    pub fn be(self) -> Be {
        match self {
            SqSync | SqAsync | SqRound => Be::Sq,
            PgSync | PgAsync | PgAdapt => Be::Pg,
            TuAsync | TuSync => Be::Tu,
        }
    }
    pub fn is_async(self) -> bool {
        matches!(self, SqAsync | PgAsync | PgAdapt | TuAsync)
    }
}

pub enum Any {
    S(Connection),
    A(ConnectionAsync),
}
impl Any {
    pub fn execute(&self, sql: &str) -> butane::Result<()> {
        match self {
            Any::S(c) => c.execute(sql),
            Any::A(c) => RT.block_on(c.execute(sql)),
        }
    }
    pub fn s(&mut self) -> &mut Connection {
        match self {
            Any::S(c) => c,
            Any::A(_) => panic!("ENGINE: not a blocking connection"),
        }
    }
    pub fn a(&mut self) -> &mut ConnectionAsync {
        match self {
            Any::A(c) => c,
            Any::S(_) => panic!("ENGINE: not an async connection"),
        }
    }
}

/// Call the blocking or the async twin of a driver function on a connection.
#[macro_export]
macro_rules! both {
    ($any:expr, $s:path, $a:path $(, $arg:expr)*) => {
        match $any {
            $crate::backends::Any::S(c) => $s(c $(, $arg)*),
            $crate::backends::Any::A(c) => $crate::backends::RT.block_on($a(c $(, $arg)*)),
        }
    };
}

/// Open `conn_str` through `cfg`.
pub fn open(cfg: Cfg, conn_str: &str) -> butane::Result<Any> {
    let spec = ConnectionSpec::new(cfg.be().name(), conn_str);
    Ok(match cfg {
        SqSync => Any::S(butane::db::connect(&spec)?),
        SqAsync | PgAsync | TuAsync => Any::A(RT.block_on(butane::db::connect_async(&spec))?),
        SqRound | TuSync => {
            let c = RT.block_on(butane::db::connect_async(&spec))?;
            let _g = RT.enter();
            Any::S(c.into_sync()?)
        }
        PgSync => {
            let _g = RT.enter();
            Any::S(butane::db::connect(&spec)?)
        }
        PgAdapt => {
            let _g = RT.enter();
            Any::A(butane::db::connect(&spec)?.into_async()?)
        }
    })
}

static COUNTER: AtomicUsize = AtomicUsize::new(0);

/// A database of its own: an in-memory or file database, or a fresh database on the PostgreSQL server.
pub struct Db {
    pub be: Be,
    pub conn_str: String,
    dir: Option<tempfile::TempDir>,
    pgname: Option<String>,
}
impl Db {
    /// `file`: several connections must see the same data.
    pub fn new(be: Be, file: bool) -> Db {
        match be {
            Be::Pg => {
                let n = COUNTER.fetch_add(1, SeqCst);
                let name = format!("w{n}");
                pg_admin(&format!("CREATE DATABASE {name}"));
                Db { be, conn_str: pg().conn_str(&name), dir: None, pgname: Some(name) }
            }
            _ if file => {
                let d = scratch();
                Db { be, conn_str: d.path().join("t.db").display().to_string(), dir: Some(d), pgname: None }
            }
            _ => Db { be, conn_str: ":memory:".into(), dir: None, pgname: None },
        }
    }
    pub fn dir(&self) -> &Path {
        self.dir.as_ref().unwrap().path()
    }
}
impl Drop for Db {
    fn drop(&mut self) {
        if let Some(n) = &self.pgname {
            let _ = n;
        }
    }
}

/// A scratch directory in memory where possible.
pub fn scratch() -> tempfile::TempDir {
    let shm = Path::new("/dev/shm");
    let b = tempfile::Builder::new().prefix("bmc-").tempdir_in(shm);
    b.unwrap_or_else(|_| tempfile::tempdir().expect("ENGINE: scratch dir"))
}

// ---- PostgreSQL server --------------------------------------------------------------------------
pub struct Pg {
    child: Mutex<Option<Child>>,
    dir: PathBuf,
}
impl Pg {
    pub fn conn_str(&self, db: &str) -> String {
        format!("host={} user=postgres dbname={}", self.dir.display(), db)
    }
    pub fn sock(&self) -> PathBuf {
        self.dir.join(".s.PGSQL.5432")
    }
}
static PG: LazyLock<Pg> = LazyLock::new(start_pg);
static PG_UP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn pg() -> &'static Pg {
    &PG
}
fn pgbin(n: &str) -> PathBuf {
    for v in ["16", "15", "14", "17"] {
        let p = PathBuf::from(format!("/usr/lib/postgresql/{v}/bin/{n}"));
        if p.exists() {
            return p;
        }
    }
    PathBuf::from(n)
}
fn as_pg(prog: PathBuf) -> Command {
    // The server refuses to run as root.
    let is_root = unsafe { libc::geteuid() } == 0;
    if is_root {
        let mut c = Command::new("setpriv");
        c.args(["--reuid", "postgres", "--regid", "postgres", "--clear-groups", "--"]).arg(prog);
        c
    } else {
        Command::new(prog)
    }
}
fn start_pg() -> Pg {
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let dir = tempfile::Builder::new().prefix("bmcpg-").tempdir_in(base).expect("ENGINE: pg dir").keep();
    let _ = Command::new("chown").arg("postgres").arg(&dir).status();
    let data = dir.join("data");
    let out = as_pg(pgbin("initdb"))
        .args(["-U", "postgres", "-E", "UTF8", "--locale=C", "-A", "trust", "--nosync", "-D"]).arg(&data)
        .stdin(Stdio::null()).output().expect("ENGINE: cannot run initdb");
    if !out.status.success() {
        eprintln!("ENGINE: initdb failed: {}", String::from_utf8_lossy(&out.stderr));
        std::process::exit(2);
    }
    let log = std::fs::File::create(dir.join("log")).unwrap();
    let mut cmd = as_pg(pgbin("postgres"));
    cmd.arg("-k").arg(&dir).args(["-h", "", "-c", "fsync=off", "-c", "full_page_writes=off", "-c", "synchronous_commit=off",
        "-c", "max_connections=400", "-c", "shared_buffers=64MB", "-c", "autovacuum=off", "-c", "jit=off",
        "-c", "dynamic_shared_memory_type=posix", "-D"]).arg(&data)
        .stdin(Stdio::null()).stdout(log.try_clone().unwrap()).stderr(log);
    unsafe {
        use std::os::unix::process::CommandExt;
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGTERM);
            Ok(())
        });
    }
    // setpriv clears the parent death signal on the uid change: a watchdog kills the server instead.
    let child = cmd.spawn().expect("ENGINE: cannot run postgres");
    let pid = child.id();
    let _ = Command::new("sh").arg("-c")
        .arg(format!("while kill -0 {} 2>/dev/null; do sleep 1; done; kill -QUIT {pid} 2>/dev/null; sleep 1; kill -KILL {pid} 2>/dev/null; rm -rf {}",
            std::process::id(), dir.display()))
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn();
    let pg = Pg { child: Mutex::new(Some(child)), dir };
    for _ in 0..600 {
        if std::os::unix::net::UnixStream::connect(pg.sock()).is_ok() {
            let spec = ConnectionSpec::new("pg", pg.conn_str("postgres"));
            if RT.block_on(raw_pg(&spec.conn_str, "SELECT 1")).is_ok() {
                PG_UP.store(true, SeqCst);
                return pg;
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    let mut s = String::new();
    let _ = std::fs::File::open(pg.dir.join("log")).map(|mut f| f.read_to_string(&mut s));
    eprintln!("ENGINE: postgres did not start: {s}");
    std::process::exit(2);
}
async fn raw_pg(conn_str: &str, sql: &str) -> Result<Vec<Vec<Option<String>>>, String> {
    let (c, conn) = tokio_postgres::connect(conn_str, tokio_postgres::NoTls).await.map_err(|e| e.to_string())?;
    let h = tokio::spawn(conn);
    let r = simple(&c, sql).await;
    drop(c);
    let _ = h.await;
    r
}
pub async fn simple(c: &tokio_postgres::Client, sql: &str) -> Result<Vec<Vec<Option<String>>>, String> {
    let ms = c.simple_query(sql).await.map_err(|e| {
        e.as_db_error().map(|d| d.to_string()).unwrap_or_else(|| e.to_string())
    })?;
    Ok(ms.into_iter().filter_map(|m| match m {
        tokio_postgres::SimpleQueryMessage::Row(r) => Some((0..r.len()).map(|i| r.get(i).map(|s| s.to_string())).collect()),
        _ => None,
    }).collect())
}
/// Run SQL on the server outside butane.
pub fn pg_admin(sql: &str) -> Vec<Vec<Option<String>>> {
    static L: Mutex<()> = Mutex::new(()); // CREATE DATABASE takes an exclusive lock on the template
    let _g = L.lock().unwrap_or_else(|e| e.into_inner());
    RT.block_on(raw_pg(&pg().conn_str("postgres"), sql)).unwrap_or_else(|e| panic!("ENGINE: {sql}: {e}"))
}
/// A direct client connection to a database, outside butane.
pub struct PgRaw(pub tokio_postgres::Client);
impl PgRaw {
    pub fn open(conn_str: &str) -> PgRaw {
        RT.block_on(async {
            let (c, conn) = tokio_postgres::connect(conn_str, tokio_postgres::NoTls).await
                .unwrap_or_else(|e| panic!("ENGINE: pg connect: {e}"));
            tokio::spawn(conn);
            PgRaw(c)
        })
    }
    pub fn q(&self, sql: &str) -> Result<Vec<Vec<Option<String>>>, String> {
        RT.block_on(simple(&self.0, sql))
    }
}
pub fn shutdown() {
    if PG_UP.load(SeqCst) {
        if let Some(mut c) = PG.child.lock().unwrap().take() {
            unsafe { libc::kill(c.id() as i32, libc::SIGQUIT) };
            let _ = c.wait();
            let _ = std::fs::remove_dir_all(&PG.dir);
        }
    }
}

// ---- schema ---------------------------------------------------------------------------------------
/// The models recorded when this harness was compiled.
pub fn recorded() -> &'static ADB {
    static R: LazyLock<ADB> = LazyLock::new(|| {
        use butane_core::migrations::{Migration, MigrationsMut};
        let p = Path::new(env!("CARGO_MANIFEST_DIR")).join(".butane/migrations");
        let mut ms = butane_core::migrations::from_root(p);
        ms.current().db().unwrap_or_else(|e| panic!("ENGINE: recorded models: {e}"))
    });
    &R
}
/// The recorded schema restricted to `tables` (and their many-to-many tables).
pub fn schema(tables: &[&str]) -> ADB {
    let all = recorded();
    let mut out = ADB::new();
    for t in all.tables() {
        let n = t.name.as_str();
        if tables.iter().any(|x| *x == n || n.starts_with(&format!("{x}_")) && n.ends_with("_Many")) {
            out.replace_table(t.clone());
        }
    }
    out
}
/// SQL creating `schema` on an empty database.
pub fn ddl(be: Be, schema: &ADB) -> String {
    let ops: Vec<Operation> = adb::diff(&ADB::new(), schema);
    be.backend().create_migration_sql(&ADB::new(), ops).unwrap_or_else(|e| panic!("ddl: {e}"))
}
