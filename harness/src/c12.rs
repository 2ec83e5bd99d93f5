//! C12: recorded schema files survive a crash at any point of recording.
use crate::backends::scratch;
use crate::engine::*;
use crate::fsctl::{self, Ev, Proc};
use butane::migrations::{from_root, Migration, MigrationMut, Migrations, MigrationsMut};
use std::path::{Path, PathBuf};
use std::str::FromStr;

pub const RULE: &str = "for every listed history of recording models and types, creating and detaching migrations, and each of its steps: a real process performing the step dies before each of its file operations in turn, and inside each write after one byte, half and all but one of its bytes; the store is opened and compared with the one before and the one after, and the step repeated (in the thorough tier dying once more at every point of the repetition); non-trivial = something had been written";

/// What processes record: sets of models and types.
pub fn models(set: &str) -> &'static [(&'static str, &'static str)] {
    match set {
        "a" => &[("model", "pub struct Alpha { pub id: AutoPk<i64>, pub name: String }")],
        "a2" => &[("model", "pub struct Alpha { pub id: AutoPk<i64>, pub name: String, pub rather_long_name_of_a_column: Option<i32> }")],
        "b" => &[("Text", "pub enum Kind { One, Two }"), ("model", "pub struct Beta { pub id: i64, pub kind: Kind, pub alpha: ForeignKey<Alpha> }")],
        "c" => &[("model", "#[table = \"cc\"] pub struct Gamma { #[pk] pub name: String, pub alphas: Many<Alpha> }")],
        "d" => &[("", "pub type Num = i32;"), ("model", "pub struct Delta { pub id: i64, pub gamma: Option<ForeignKey<Gamma>>, pub n: Num }")],
        "k" => &[("Text", "pub enum Kind { One, Two }")],
        "k2" => &[("Int", "pub struct Kind(i32);")],
        "n" => &[("", "pub type Num = i32;")],
        "s" => &[("", "pub type Some2 = String;")],
        "t" => &[("model", "#[table = \"tt\"] pub struct Tau { pub id: i64 }")],
        "u" => &[("model", "#[table = \"uu\"] pub struct Ups { pub id: i64 }")],
        _ => panic!("ENGINE set {set}"),
    }
}
pub fn record(root: &Path, set: &str) -> Result<(), String> {
    let mut ms = from_root(root);
    let tok = |s: &str| proc_macro2::TokenStream::from_str(s).expect("ENGINE tokens");
    for (how, text) in models(set) {
        let out = catch(|| match *how {
            "model" => butane_core::codegen::model_with_migrations(tok(text), &mut ms),
            args => butane_core::codegen::butane_type_with_migrations(tok(args), tok(text), &mut ms),
        })
        .map_err(|m| format!("recording panics: {m}"))?
        .to_string();
        if out.contains("compile_error") {
            return Err(format!("refused: {out}"));
        }
    }
    Ok(())
}
/// One step: record:<sets>, create:<name>, detach
pub fn step(root: &Path, s: &str) -> Result<String, String> {
    let (op, arg) = s.split_once(':').unwrap_or((s, ""));
    let e = |e: butane::Error| e.to_string();
    match op {
        "record" => arg.split(',').try_for_each(|x| record(root, x)).map(|()| "ok".into()),
        "fresh" => {
            // what the models no longer have goes
            from_root(root).clear_current().map_err(e)?;
            Ok("ok".into())
        }
        "create" => {
            let mut ms = from_root(root);
            let backends = nonempty::nonempty![butane::db::get_backend("sqlite").unwrap(), butane::db::get_backend("pg").unwrap()];
            let latest = ms.latest();
            ms.create_migration(&backends, arg, latest.as_ref()).map(|c| format!("created {c}")).map_err(e)
        }
        "detach" => from_root(root).detach_latest_migration().map(|()| "ok".into()).map_err(e),
        "addsql" => {
            let mut m = from_root(root).latest().ok_or("no latest")?;
            m.add_sql("turso", "SELECT 1;", "SELECT 2;").map(|()| "ok".into()).map_err(e)
        }
        _ => panic!("ENGINE step {s}"),
    }
}
pub fn child(root: &str, script: &str) -> ! {
    std::panic::set_hook(Box::new(|_| ()));
    let root = PathBuf::from(root);
    butane::db::get_backend("sqlite");
    fsctl::begin();
    let r = script.split(' ').map(|s| step(&root, s)).collect::<Result<Vec<_>, _>>();
    fsctl::end(&format!("{r:?}"))
}
type Mig = (String, Option<String>, String, Vec<(String, Option<String>, Option<String>)>);
/// All a store says of its migrations.
pub fn chain(root: &Path) -> Result<Vec<Mig>, String> {
    let r = catch(|| -> butane::Result<Vec<Mig>> {
        let ms = from_root(root);
        let mut v = vec![];
        for m in ms.all_migrations()? {
            let mut sqls = vec![];
            let mut bs = m.sql_backends()?;
            bs.sort();
            for b in bs {
                sqls.push((b.clone(), m.up_sql(&b)?, m.down_sql(&b)?));
            }
            v.push((m.name().to_string(), m.migration_from()?.map(|s| s.to_string()), serde_json::to_string(&m.db()?)?, sqls));
        }
        let latest = ms.latest().map(|m| m.name().to_string());
        if latest != v.last().map(|m| m.0.clone()) {
            panic!("latest is {latest:?}");
        }
        Ok(v)
    });
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.to_string()),
        Err(m) => Err(m),
    }
}
pub fn current(root: &Path) -> Result<String, String> {
    match catch(|| { let mut ms = from_root(root); ms.current().db() }.and_then(|d| Ok(serde_json::to_string(&d)?))) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.to_string()),
        Err(m) => Err(m),
    }
}
pub fn copy(from: &Path, to: &Path) {
    let _ = std::fs::remove_dir_all(to);
    std::fs::create_dir_all(to).expect("ENGINE copy");
    for (p, c) in fsctl::tree(from) {
        let p = to.join(&p[1..]);
        match c {
            None => std::fs::create_dir_all(&p).expect("ENGINE copy"),
            Some(c) => std::fs::write(&p, c).expect("ENGINE copy"),
        }
    }
}
/// The points at which a process performing the step can die.
fn points(so: &Path, root: &Path, s: &str) -> Vec<(usize, char, String)> {
    let mut p = Proc::start(so, "fsop", root, s, &[]);
    let mut v = vec![];
    let mut k = 0;
    let mut after_read = false;
    loop {
        match p.next() {
            Ev::Op(op, path, n, _) => {
                // dying between two operations which change nothing is the same
                let quiet = op == "stat" || op == "read" || op == "list" || op == "open";
                if !quiet || !after_read {
                    v.push((k, 'd', format!("before {op} {path}")));
                }
                after_read = quiet;
                if op == "write" {
                    for (c, least) in [('o', 1), ('h', 3), ('l', 2)] {
                        if n > least {
                            v.push((k, c, format!("inside ({c}) {op} {path}")));
                        }
                    }
                }
                p.tell('g');
                k += 1;
            }
            Ev::Done(r) => {
                assert!(r.starts_with("Ok"), "ENGINE step {s} does not succeed undisturbed: {r}");
                v.push((usize::MAX, 'g', "not at all".into()));
                return v;
            }
            Ev::Died => panic!("ENGINE {s} died on its own"),
        }
    }
}
/// Performs the step, dying at the point.
fn die(so: &Path, root: &Path, s: &str, at: usize, how: char) -> Option<String> {
    let mut p = Proc::start(so, "fsop", root, s, &[]);
    let mut k = 0;
    loop {
        match p.next() {
            Ev::Op(..) => {
                p.tell(if k == at { how } else { 'g' });
                k += 1;
            }
            Ev::Done(r) => return Some(r),
            Ev::Died => return None,
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("a process dies; the machine does not (what was written is there). A migration repeated after its completion is the empty one, as the command line treats it");
    let so = fsctl::shim(&ctx.verif);
    let histories: Vec<Vec<&str>> = vec![
        vec!["record:a", "create:m1", "record:a2,b", "create:m2", "detach"],
        vec!["record:c,a", "create:m1", "fresh", "record:a,k", "create:m2", "record:d,c,b", "addsql", "create:m3", "detach", "detach"],
        vec!["record:k,n,s,t,u", "create:m1", "record:k2,t", "record:a,b", "create:m2"],
        vec!["record:a,b,c,d", "create:m1", "record:a2", "create:m2", "addsql", "record:a", "create:m3", "record:a2", "create:m4", "detach"],
    ];
    let dir = scratch();
    let base = dir.path().join("c12");
    let mut jobs = vec![];
    for (h, hist) in histories.iter().enumerate() {
        let root = base.join(format!("h{h}"));
        std::fs::create_dir_all(&root).expect("ENGINE dir");
        for (i, s) in hist.iter().enumerate() {
            let before = base.join(format!("h{h}s{i}"));
            copy(&root, &before);
            let probe = base.join("probe");
            copy(&root, &probe);
            if *s == "fresh" {
                step(&root, s).expect("ENGINE step");
                continue;
            }
            let ps = points(&so, &probe, s);
            step(&root, s).unwrap_or_else(|e| panic!("ENGINE step {s}: {e}"));
            let b = chain(&before).expect("ENGINE before");
            let a = chain(&root).expect("ENGINE after");
            let cur = current(&root);
            for p in ps {
                jobs.push((format!("{} of {:?}", s, &hist[..i]), s.to_string(), before.clone(), b.clone(), a.clone(), cur.clone(), p));
            }
        }
    }
    ctx.bound("histories", histories.len() as u64);
    ctx.bound("crash points", jobs.len() as u64);
    let twice = ctx.thorough;
    ctx.bound("deaths", if twice { 2u64 } else { 1 });
    par(ctx, jobs.len(), |t| base.join(format!("w{t}")), |root, i| {
        let (what, s, before, b, a, cur, (at, how, name)) = &jobs[i];
        let op = s.split(':').next().unwrap();
        // the file, without what varies
        let place: String = name.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
        let judge = |root: &Path, key: &str, detail: &str| -> bool {
            match chain(root) {
                Err(e) => ctx.violation(&format!("{key}: the store cannot be read: {op}"), format!("{what}, {detail}: {e}")),
                Ok(c) if c == *b || c == *a => return true,
                Ok(c) => ctx.violation(&format!("{key}: other migrations: {op}"), format!("{what}, {detail}: {c:?}\nbefore {b:?}\nafter {a:?}")),
            }
            false
        };
        let finish = |root: &Path, detail: &str| {
            // the step is repeated by a process of its own
            let done = |r: &Path| chain(r).as_ref() == Ok(a);
            if matches!(op, "detach") && done(root) && a != b {
                return; // it has happened
            }
            match die(&so, root, s, usize::MAX, 'g') {
                Some(r) if r.starts_with("Ok") => (),
                r => return ctx.violation(&format!("repeating fails: {op}"), format!("{what}, {detail}: {r:?}")),
            }
            if chain(root).as_ref() != Ok(a) {
                ctx.violation(&format!("repeating gives other migrations: {op}"), format!("{what}, {detail}: {:?}\ninstead of {a:?}", chain(root)));
            }
            if current(root) != *cur {
                ctx.violation(&format!("repeating gives another recorded schema: {op}"), format!("{what}, {detail}: {:?}\ninstead of {cur:?}", current(root)));
            }
        };
        copy(before, root);
        let _ = die(&so, root, s, *at, *how);
        ctx.trans(1);
        ctx.state(hash64(&fsctl::tree(root)));
        ctx.valid();
        ctx.outcome(format!("{op} {}", if chain(root).as_ref() == Ok(b) { "old" } else { "new" }));
        if fsctl::tree(root) != fsctl::tree(before) {
            ctx.nontriv();
        }
        ctx.sample(format!("{what} dies {place}"));
        if !judge(root, "after dying", name) {
            return;
        }
        if !twice {
            finish(root, name);
            return;
        }
        // a second death, in the repetition
        let mid = root.with_extension("mid");
        copy(root, &mid);
        finish(root, name);
        if matches!(op, "detach") && chain(&mid).as_ref() == Ok(a) {
            return;
        }
        for k in 0.. {
            if ctx.stop() {
                break;
            }
            let mut ended = false;
            for c in ['d', 'h'] {
                copy(&mid, root);
                if die(&so, root, s, k, c).is_some() {
                    ended = true;
                    break;
                }
                ctx.exec();
                ctx.trans(1);
                ctx.state(hash64(&fsctl::tree(root)));
                let d = format!("{name}, then {c} at {k}");
                if judge(root, "after dying twice", &d) {
                    finish(root, &d);
                }
            }
            if ended {
                break;
            }
        }
    });
    let _ = std::fs::remove_dir_all(&base);
}
