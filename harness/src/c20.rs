//! C20: a connection specification survives parsing, extending, saving and loading.
use crate::backends::scratch;
use crate::engine::*;
use butane::db::{get_backend, ConnectionSpec};
use std::path::{Path, PathBuf};
use std::str::FromStr;

pub const RULE: &str = "every connection string from the stated grammar (schemes in either case x authorities x paths x queries x fragments; key-value lists of up to three pairs with quoting and spacing; plain paths) parsed through each conversion, every sequence of parameter additions over the stated names and values up to the stated length, and every sequence of save / load / change over two files and a directory, with every truncation of a saved file loaded; results are compared with independent parsers of URI queries and key-value lists, and with what the PostgreSQL client library and sqlite itself read; non-trivial = a string with a scheme or pairs, or an accepted parameter";

#[derive(Clone, Debug, PartialEq)]
struct Pairs {
    base: String,
    kv: Vec<(String, String)>,
    frag: String,
}
fn decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = std::str::from_utf8(b.get(i + 1..i + 3)?).ok()?;
            out.push(u8::from_str_radix(h, 16).ok()?);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).ok()
}
/// The query of a URI; PostgreSQL's have no fragment.
fn uri_pairs(s: &str, frag: bool) -> Option<Pairs> {
    let (s, f) = match s.split_once('#') {
        Some((a, b)) if frag => (a, format!("#{b}")),
        _ => (s, String::new()),
    };
    let (base, q) = s.split_once('?').unwrap_or((s, ""));
    let mut kv = vec![];
    for p in q.split('&').filter(|p| !p.is_empty()) {
        let (k, v) = p.split_once('=')?;
        kv.push((decode(k)?, decode(v)?));
    }
    Some(Pairs { base: base.into(), kv, frag: f })
}
/// libpq's key-value syntax.
fn kv_pairs(s: &str) -> Option<Pairs> {
    let mut kv = vec![];
    let mut c = s.chars().peekable();
    loop {
        while c.peek().is_some_and(|x| x.is_whitespace()) {
            c.next();
        }
        if c.peek().is_none() {
            return Some(Pairs { base: String::new(), kv, frag: String::new() });
        }
        let mut k = String::new();
        while c.peek().is_some_and(|x| *x != '=' && !x.is_whitespace()) {
            k.push(c.next()?);
        }
        while c.peek().is_some_and(|x| x.is_whitespace()) {
            c.next();
        }
        if c.next()? != '=' || k.is_empty() {
            return None;
        }
        while c.peek().is_some_and(|x| x.is_whitespace()) {
            c.next();
        }
        let mut v = String::new();
        if c.peek() == Some(&'\'') {
            c.next();
            loop {
                match c.next()? {
                    '\'' => break,
                    '\\' => v.push(c.next()?),
                    x => v.push(x),
                }
            }
        } else {
            while let Some(x) = c.peek().copied() {
                if x.is_whitespace() {
                    break;
                }
                c.next();
                v.push(if x == '\\' { c.next()? } else { x });
            }
        }
        kv.push((k, v));
    }
}
/// What the string's form denotes: backend and connection string.
fn denotes(s: &str) -> (String, String) {
    if let Some((sch, rest)) = s.split_once(':') {
        let ok = !sch.is_empty() && sch.as_bytes()[0].is_ascii_alphabetic() && sch.bytes().all(|b| b.is_ascii_alphanumeric() || matches!(b, b'+' | b'-' | b'.'));
        if ok {
            let low = sch.to_lowercase();
            return match low.as_str() {
                "sqlite" => ("sqlite".into(), format!("file:{rest}")),
                "file" => ("sqlite".into(), s.into()),
                "postgres" | "postgresql" => ("pg".into(), s.into()),
                "libsql" => ("turso".into(), format!("turso:{rest}")),
                _ => (low, s.into()),
            };
        }
    }
    for k in ["host", "hostaddr", "dbname", "user", "port"] {
        let mut at = 0;
        while let Some(i) = s[at..].find(k) {
            if s[at + i + k.len()..].trim_start().starts_with('=') {
                return ("pg".into(), s.into());
            }
            at += i + 1;
        }
    }
    ("sqlite".into(), s.into())
}
fn strings(thorough: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let auth = ["", "//", "//host", "//u@h", "//u:p@h:5432", "//a:1,b:2", "//[::1]:5432", "//[::1]:1,[::2]:2", "//[::1", "//%2Ftmp", "//:5432", "///", "//h:x", "//a b", "//u:p:q@h", "//localhost"];
    let path = ["", "/db", "/d/e.db", "x.db", "/a b", "/%41", ":memory:", "/é", "/host=1"];
    let query = ["", "?", "?a=b", "?a=b&", "?a=b&c=", "?host=%2Ftmp", "?a=x://y"];
    let frag = ["", "#f", "#f?x=1"];
    for sch in ["sqlite", "file", "postgres", "postgresql", "libsql", "turso", "SQLite", "LibSQL", "mysql", "a+b-c.1"] {
        for a in auth {
            for p in path {
                for q in query {
                    for f in frag {
                        if !thorough && (!f.is_empty() && q.len() > 4 || sch.starts_with('L') && q.len() > 2) {
                            continue;
                        }
                        v.push(format!("{sch}:{a}{p}{q}{f}"));
                    }
                }
            }
        }
    }
    let pair = ["host=h", "hostaddr=1.2.3.4", "dbname = 'a b'", "user=u", "port= 5432", "password=a://b", "password='it\\'s'", "application_name=x:y", "sslmode=disable", "options='-c a=b'", "host=/tmp/a", "host='/t:m/p'"];
    for a in pair {
        v.push(a.into());
        v.push(format!(" {a} "));
        for b in pair {
            v.push(format!("{a} {b}"));
            v.push(format!("{a}\t{b}\n"));
            if thorough {
                for c in pair {
                    v.push(format!("{a} {b} {c}"));
                }
            }
        }
    }
    for p in ["", "x", "x.db", "./x.db", "/abs/x y.db", ":memory:", "é.db", "a?b", "a&b", "./a:b", "/a:b", "1a:b", "hostx", "nothost", "a=b", "=", ":", "://", "./C:/x", "x#y", "%41", "path/user", "_a:b"] {
        v.push(p.into());
        v.push(format!("{p}/host"));
        v.push(format!("{p}?mode=ro"));
    }
    v
}
const NAMES: [&str; 9] = ["dbname", "application_name", "mode", "a b", "x=y", "", "q?&#", "é", "it's"];
const VALUES: [&str; 16] = ["v", "", "a b", "it's", "back\\slash", "a=b", "x&y=z", "100%", "%41", "a+b", "h#f", "q?r", "é😀", "tab\tnl\n", "://", "\""];

fn pairs(spec: &ConnectionSpec) -> Option<(bool, Pairs)> {
    let s = &spec.conn_str;
    let uri = denotes(s) != ("pg".into(), s.clone()) || s.starts_with("postgres");
    if uri { uri_pairs(s, spec.backend_name != "pg").map(|p| (true, p)) } else { kv_pairs(s).map(|p| (false, p)) }
}
/// What the PostgreSQL client library reads.
fn pg_read(s: &str, name: &str) -> Result<Option<String>, String> {
    let c = tokio_postgres::Config::from_str(s).map_err(|e| format!("{e:?}"))?;
    Ok(match name {
        "dbname" => c.get_dbname().map(|s| s.to_string()),
        "application_name" => c.get_application_name().map(|s| s.to_string()),
        "user" => c.get_user().map(|s| s.to_string()),
        _ => None,
    })
}
/// What sqlite itself reads as a parameter of an open database.
fn sqlite_read(s: &str, name: &str) -> Result<Option<String>, String> {
    use rusqlite::ffi;
    let c = rusqlite::Connection::open(s).map_err(|e| e.to_string())?;
    let n = std::ffi::CString::new(name).unwrap();
    unsafe {
        let f = ffi::sqlite3_db_filename(c.handle(), c"main".as_ptr());
        if f.is_null() {
            return Err("no file name".into());
        }
        let p = ffi::sqlite3_uri_parameter(f, n.as_ptr());
        Ok(if p.is_null() { None } else { Some(std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned()) })
    }
}
fn add(ctx: &Ctx, spec: &ConnectionSpec, name: &str, value: &str, hist: &str) -> Option<ConnectionSpec> {
    let mut new = spec.clone();
    ctx.trans(1);
    let r = catch(|| new.add_parameter(name, value).map_err(|e| e.to_string()));
    let report = |w: String| ctx.violation(&format!("{hist} + {name:?}={value:?}"), format!("{w}\nspecification {spec:?}\nafterwards {new:?}"));
    let has_scheme = denotes(&spec.conn_str).0 == spec.backend_name && spec.conn_str.split_once(':').is_some_and(|(s, _)| s.bytes().all(|b| b.is_ascii_alphanumeric() || b"+-.".contains(&b)) && s.starts_with(|c: char| c.is_ascii_alphabetic())) || spec.conn_str.starts_with("file:") || spec.conn_str.starts_with("turso:");
    let kv = spec.backend_name == "pg" && !has_scheme;
    match r {
        Err(p) => {
            report(format!("panic: {p}"));
            None
        }
        Ok(Err(e)) => {
            if new != *spec {
                report(format!("failed with {e} but changed the specification"));
            } else if (has_scheme && !name.is_empty()) || (kv && name.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') && !name.is_empty()) {
                report(format!("refused: {e}"));
            }
            None
        }
        Ok(Ok(())) => {
            let (Some((u0, old)), Some((u1, now))) = (pairs(spec), pairs(&new)) else {
                // a malformed string is extended as it is, but never made unreadable
                if pairs(spec).is_some() {
                    report("no longer readable".into());
                }
                return None;
            };
            let mut want = old.clone();
            want.kv.push((name.into(), value.into()));
            if !(has_scheme || kv) {
                report("a parameter was added to a string which cannot have any".into());
                return None;
            }
            if new.backend_name != spec.backend_name || u0 != u1 || now != want {
                report(format!("reads as {now:?}\nexpected {want:?}"));
                return None;
            }
            ctx.nontriv();
            Some(new)
        }
    }
}
fn files(ctx: &Ctx) {
    // Every sequence of saving and loading over two files and a directory.
    let texts = ["", "x", "a\"b\\c", "é😀\u{0}\n", "postgres://u:p@h/d?a=b#c"];
    let mut specs = vec![];
    for b in ["sqlite", "pg", "b\"\n"] {
        for t in texts {
            specs.push(ConnectionSpec::new(b, t));
        }
    }
    specs.push(ConnectionSpec::new("pg", "p".repeat(5000)));
    #[derive(Clone, Debug)]
    enum Op {
        Save(usize, usize),
        Load(usize),
    }
    let mut ops = vec![];
    for f in 0..3 {
        ops.push(Op::Load(f));
        for s in 0..specs.len() {
            if f != 2 || s % 4 == 0 {
                ops.push(Op::Save(f, s));
            }
        }
    }
    let paths = |d: &Path| -> [PathBuf; 3] { [d.join("a.json"), d.join("sub/b"), d.join("dir")] };
    let depth = if ctx.thorough { 4 } else { 3 };
    bfs(ctx, "files", &ops, depth, |_| scratch(), |dir, h| {
        let d = dir.path();
        for f in ["a.json", "sub/b", "dir/connection.json"] {
            let _ = std::fs::remove_file(d.join(f));
        }
        let _ = std::fs::create_dir_all(d.join("sub"));
        let _ = std::fs::create_dir_all(d.join("dir"));
        let mut have: [Option<usize>; 3] = [None; 3];
        let ps = paths(d);
        for (n, o) in h.iter().enumerate() {
            let last = n + 1 == h.len();
            let bad = match &ops[*o] {
                Op::Save(f, s) => match specs[*s].save(&ps[*f]) {
                    Ok(()) => {
                        have[*f] = Some(*s);
                        None
                    }
                    Err(e) => Some(format!("save: {e}")),
                },
                Op::Load(_) => None,
            };
            let bad = bad.or_else(|| {
                if !last {
                    return None;
                }
                for f in 0..3 {
                    match (ConnectionSpec::load(&ps[f]), have[f]) {
                        (Ok(s), Some(i)) if s == specs[i] => ctx.nontriv(),
                        (Err(_), None) => {}
                        (r, w) => return Some(format!("file {f} loads as {r:?}, saved {:?}", w.map(|i| &specs[i]))),
                    }
                }
                None
            });
            if let Some(b) = bad {
                let names: Vec<_> = h.iter().map(|o| format!("{:?}", ops[*o])).collect();
                ctx.violation(&format!("files {names:?}"), b);
                return None;
            }
        }
        Some(hash64(&have))
    });
    // A truncated or damaged file is an error, never another specification.
    let dir = scratch();
    let p = dir.path().join("t");
    for s in &specs {
        s.save(&p).expect("ENGINE: save");
        let text = std::fs::read(&p).expect("ENGINE: read");
        for n in 0..text.len().min(400) {
            ctx.exec();
            ctx.valid();
            std::fs::write(&p, &text[..n]).unwrap();
            match ConnectionSpec::load(&p) {
                Err(_) => {}
                Ok(l) if l == *s => {}
                Ok(l) => ctx.violation(&format!("truncated {s:?} at {n}"), format!("loads as {l:?}")),
            }
            ctx.trans(1);
        }
    }
    for (text, want) in [
        ("{}", None), ("null", None), ("[]", None), (r#"{"backend_name":"pg"}"#, None), (r#"{"conn_str":"x"}"#, None), (r#"{"backend_name":1,"conn_str":"x"}"#, None),
        (r#"{"conn_str":"x","backend_name":"pg"}"#, Some(("pg", "x"))), (r#"{"conn_str":"x","backend_name":"pg"} x"#, None),
    ] {
        ctx.exec();
        ctx.valid();
        std::fs::write(&p, text).unwrap();
        let r = ConnectionSpec::load(&p);
        if r.as_ref().ok() != want.map(|(b, c)| ConnectionSpec::new(b, c)).as_ref() {
            ctx.violation(&format!("load {text}"), format!("{r:?}"));
        }
    }
    for bad in [dir.path().join("missing/x"), dir.path().join("none")] {
        if ConnectionSpec::load(&bad).is_ok() {
            ctx.violation("load of a missing file", "succeeded".to_string());
        }
    }
    if specs[0].save(&dir.path().join("missing/x")).is_ok() {
        ctx.violation("save to a missing directory", "succeeded".to_string());
    }
}
pub fn run(ctx: &Ctx) {
    ctx.assume("the scheme of a URI is its part before the first colon when that consists of letters, digits, '+', '-' and '.' and starts with a letter, in either case; a parameter name which the syntax cannot express is refused");
    let ss = strings(ctx.thorough);
    ctx.sample(format!("{} strings, {} names x {} values", ss.len(), NAMES.len(), VALUES.len()));
    // --- parsing ---
    par(ctx, ss.len(), |_| (), |_, i| {
        let s = &ss[i];
        ctx.exec();
        ctx.valid();
        ctx.trans(3);
        let want = denotes(s);
        ctx.outcome(format!("backend {}", want.0));
        ctx.state(hash64(s));
        if want.0 != "sqlite" || s.contains(':') {
            ctx.nontriv();
        }
        let got = catch(|| {
            let a = ConnectionSpec::try_from(s.as_str()).map_err(|e| e.to_string())?;
            let b = ConnectionSpec::try_from(s).map_err(|e| e.to_string())?;
            let c = ConnectionSpec::try_from(s.clone()).map_err(|e| e.to_string())?;
            if a != b || a != c {
                return Err("the conversions differ".to_string());
            }
            Ok(a)
        });
        match got {
            Ok(Ok(a)) if (a.backend_name.clone(), a.conn_str.clone()) == want => {
                let known = ["sqlite", "pg", "turso"].contains(&want.0.as_str());
                if a.get_backend().is_ok() != known || get_backend(&want.0).is_some() != known || a.get_backend().is_ok_and(|b| b.name() != want.0) {
                    ctx.violation(&format!("backend of {s:?}"), format!("{:?}", a.get_backend().map(|b| b.name().to_string())));
                }
                if *a.backend_name() != want.0 || *a.connection_string() != want.1 {
                    ctx.violation(&format!("accessors of {s:?}"), format!("{a:?}"));
                }
            }
            r => ctx.violation(&format!("parse {s:?}"), format!("gives {r:?}\nexpected {want:?}")),
        }
    });
    // --- one parameter added to every string ---
    par(ctx, ss.len(), |_| (), |_, i| {
        let Ok(spec) = ConnectionSpec::try_from(ss[i].as_str()) else { return };
        for n in NAMES {
            for v in VALUES {
                ctx.exec();
                ctx.valid();
                add(ctx, &spec, n, v, &ss[i]);
            }
        }
    });
    // --- sequences of parameters ---
    let dir = scratch();
    let file = format!("file:{}/x.db", dir.path().display());
    let bases = ["host=h user=u", "port=1", "postgres://u@h/d", "postgresql://a:1,b:2/d?user=z", "sqlite:x.db", &file, &format!("{file}?vfs=unix"), &format!("{file}#frag"), "libsql://h/d", "file:x?"];
    let n = if ctx.thorough { 3 } else { 2 };
    let params: Vec<(&str, &str)> = NAMES.iter().flat_map(|n| VALUES.iter().map(move |v| (*n, *v))).filter(|(n, v)| ["dbname", "application_name", "mode", "a b"].contains(n) && (*n != "mode" || ["v", "", "a b"].contains(v))).collect();
    let work: Vec<(usize, usize)> = (0..bases.len()).flat_map(|b| (0..params.len()).map(move |p| (b, p))).collect();
    par(ctx, work.len(), |_| (), |_, w| {
        let (b, p) = work[w];
        fn go(ctx: &Ctx, spec: &ConnectionSpec, hist: String, params: &[(&str, &str)], set: &mut Vec<(String, String)>, left: usize, only: Option<usize>) {
            for (i, (n, v)) in params.iter().enumerate() {
                if only.is_some_and(|o| o != i) {
                    continue;
                }
                ctx.exec();
                ctx.valid();
                let Some(new) = add(ctx, spec, n, v, &hist) else { continue };
                set.push((n.to_string(), v.to_string()));
                // as the databases' own libraries read it
                if new.backend_name == "pg" && set.iter().all(|(n, _)| ["dbname", "application_name"].contains(&n.as_str())) {
                    let mut last: Vec<&(String, String)> = vec![];
                    for x in set.iter().rev() {
                        if !last.iter().any(|l| l.0 == x.0) {
                            last.push(x);
                        }
                    }
                    for (n, v) in last {
                        match pg_read(&new.conn_str, n) {
                            Ok(Some(x)) if x == *v => {}
                            Ok(None) if v.is_empty() => {}
                            r => ctx.violation(&format!("{hist} {set:?} as read by PostgreSQL's client"), format!("{n} is {r:?} in {new:?}")),
                        }
                    }
                }
                if new.conn_str.starts_with("file:/") && n != &"mode" && !set.iter().any(|s| s.0 == "mode") {
                    // sqlite finds the first of a name
                    let first = &set.iter().find(|s| s.0 == *n).unwrap().1;
                    match sqlite_read(&new.conn_str, n) {
                        Ok(Some(x)) if x == *first => {}
                        r => ctx.violation(&format!("{hist} {set:?} as read by sqlite"), format!("{n} is {r:?} in {new:?}")),
                    }
                }
                if left > 1 {
                    go(ctx, &new, format!("{hist} + {n:?}={v:?}"), params, set, left - 1, None);
                }
                set.pop();
            }
        }
        let spec = ConnectionSpec::try_from(bases[b]).expect("ENGINE: base");
        go(ctx, &spec, bases[b].replace(dir.path().to_str().unwrap(), "/scratch"), &params, &mut vec![], n, Some(p));
    });
    // --- specifications whose backend does not fit their string ---
    for (b, s) in [("sqlite", "host=h"), ("turso", "host=h"), ("pg", "just text"), ("sqlite", ":memory:"), ("sqlite", "x.db")] {
        let spec = ConnectionSpec::new(b, s);
        let mut new = spec.clone();
        ctx.exec();
        ctx.valid();
        if new.add_parameter("a", "b").is_ok() || new != spec {
            ctx.violation(&format!("parameter added to {b} {s:?}"), format!("{new:?}"));
        }
    }
    files(ctx);
}
