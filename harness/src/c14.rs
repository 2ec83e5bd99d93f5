//! C14: processes recording models at the same time lose nothing.
use crate::backends::scratch;
use crate::c12::{chain, copy, current, record, step};
use crate::engine::*;
use crate::fsctl::{self, Ev, Proc};
use std::collections::HashMap;
use std::path::Path;
use std::sync::Mutex;

pub const RULE: &str = "for every listed set of two or three processes recording models and types into one store: every interleaving of their file operations (the steps of creating, opening, reading, writing, renaming, deleting and locking), explored on real processes held before each operation, states deduplicated on (files, what each process has learned, its place, its open files); with the stated number of processes dying at any point; all others must end well and the recorded schema must be that of a sequential recording; non-trivial = the processes alternate";

/// Replaces the processes' numbers, which appear in names.
fn plain(s: &str, pids: &[u32]) -> String {
    let mut s = s.to_string();
    for (i, p) in pids.iter().enumerate() {
        s = s.replace(&p.to_string(), &format!("<{i}>"));
    }
    s
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum St {
    Ready,
    /// Waits for a lock; becomes ready when another has released something.
    Blocked,
    Done,
    Dead,
}

pub fn run(ctx: &Ctx) {
    ctx.assume("a run of reads of one file is split before the first and second read and in its middle; a process may read what it has open whatever happens to the name");
    let so = fsctl::shim(&ctx.verif);
    // (store before, processes, deaths)
    let mut plans: Vec<(&str, Vec<&str>, usize)> = vec![
        ("", vec!["record:n", "record:s"], 1),
        ("", vec!["record:t", "record:u"], 1),
        ("", vec!["record:n,s", "record:k"], 1),
        ("record:a", vec!["record:n", "record:t"], 1),
        ("", vec!["record:a", "record:a"], 1),
        ("", vec!["record:a,n", "record:b"], 0),
        ("record:a", vec!["record:a2", "record:a"], 0),
        ("record:a2", vec!["record:a2", "record:a"], 0),
        ("", vec!["record:k", "record:k2"], 0),
        ("", vec!["record:c", "record:t"], 0),
        ("", vec!["record:n", "record:s", "record:k"], 0),
        ("record:a,b create:m1", vec!["record:a2,k", "record:b"], 0),
    ];
    if ctx.thorough {
        plans.extend([
            ("", vec!["record:n,s,k", "record:t,u"], 1),
            ("", vec!["record:n", "record:s", "record:k"], 1),
            ("", vec!["record:t", "record:u", "record:k"], 1),
            ("record:a", vec!["record:a2", "record:a", "record:n"], 0),
            ("", vec!["record:a,b", "record:c,d"], 1),
            ("", vec!["record:a,b,c,d", "record:a,b,c,d"], 0),
            ("record:a,b create:m1", vec!["record:a2,k,t", "record:b,u"], 1),
        ]);
    }
    ctx.bound("sets of processes", plans.len() as u64);
    let dir = scratch();
    for (n, (before, procs, deaths)) in plans.iter().enumerate() {
        let tmpl = dir.path().join(format!("t{n}"));
        std::fs::create_dir_all(&tmpl).expect("ENGINE dir");
        for s in before.split(' ').filter(|s| !s.is_empty()) {
            step(&tmpl, s).expect("ENGINE before");
        }
        // what sequential recordings give
        let mut allowed: Vec<(String, String)> = vec![];
        let mut order: Vec<usize> = (0..procs.len()).collect();
        permute(&mut order, 0, &mut |o| {
            let d = dir.path().join("seq");
            copy(&tmpl, &d);
            for i in o {
                step(&d, procs[*i]).expect("ENGINE sequential");
            }
            let r = (shown(&d), format!("{:?}", chain(&d)));
            if !allowed.contains(&r) {
                allowed.push(r);
            }
        });
        let visited: Vec<Mutex<HashMap<u64, u64>>> = (0..64).map(|_| Mutex::default()).collect();
        ctx.bound(&format!("deaths of {procs:?} after {before:?}"), *deaths as u64);
        dfs(ctx, |t| dir.path().join(format!("w{t}")), |root, ch| one(ctx, &so, &tmpl, root, before, procs, *deaths, &allowed, &visited, ch));
        if ctx.stop() {
            return;
        }
    }
}
fn permute(v: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize])) {
    if k == v.len() {
        return f(v);
    }
    for i in k..v.len() {
        v.swap(k, i);
        permute(v, k + 1, f);
        v.swap(k, i);
    }
}
/// The recorded schema; models which refer to others may not all be there, so the tables and types are what counts.
fn shown(root: &Path) -> String {
    match current(root) {
        Ok(c) => c,
        Err(e) => {
            // with what is missing, recorded last
            let d = root.with_extension("more");
            copy(root, &d);
            let _ = record(&d, "a");
            let r = format!("{e}; {:?}", current(&d));
            let _ = std::fs::remove_dir_all(&d);
            r
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn one(ctx: &Ctx, so: &Path, tmpl: &Path, root: &Path, before: &str, procs: &[&str], deaths: usize, allowed: &[(String, String)], visited: &[Mutex<HashMap<u64, u64>>], ch: &mut Chooser) {
    copy(tmpl, root);
    let mut ps: Vec<Proc> = procs.iter().map(|s| Proc::start(so, "fsop", root, s, &[])).collect();
    let pids: Vec<u32> = ps.iter().map(|p| p.pid).collect();
    let mut at: Vec<Ev> = ps.iter_mut().map(Proc::next).collect();
    let mut st = vec![St::Ready; ps.len()];
    let mut dead = 0;
    let mut trace: Vec<String> = vec![];
    let mut mine = hash64(&"");
    let mut switches = 0;
    let mut last = usize::MAX;
    let key = |what: &str| format!("{what}: {procs:?} after {before:?}{}", if deaths > 0 { " with deaths" } else { "" });
    loop {
        for i in 0..ps.len() {
            match &at[i] {
                Ev::Done(r) if st[i] != St::Done => {
                    st[i] = St::Done;
                    if !r.starts_with("Ok") {
                        ctx.violation(&key("a process fails"), format!("process {i}: {r}\n{trace:#?}"));
                        return;
                    }
                }
                Ev::Died if st[i] != St::Dead => {
                    ctx.violation(&key("a process crashes"), format!("process {i}\n{trace:#?}"));
                    return;
                }
                _ => (),
            }
        }
        let ready: Vec<usize> = (0..ps.len()).filter(|i| st[*i] == St::Ready).collect();
        if ready.is_empty() {
            break;
        }
        // the state; the files behind open descriptors are known by their names
        let files: Vec<(String, u64)> = fsctl::tree(root).into_iter().map(|(p, c)| (plain(&p, &pids), hash64(&c))).collect();
        let places: Vec<_> = (0..ps.len()).map(|i| (st[i], match &at[i] {
            Ev::Op(o, p, n, d) => (o.clone(), plain(p, &pids), *n, d.clone()),
            _ => Default::default(),
        }, if matches!(st[i], St::Ready | St::Blocked) { ps[i].open_files(root).into_iter().map(|(f, p)| (f, plain(&p, &pids))).collect() } else { vec![] })).collect();
        let state = hash64(&(files, places, dead, before, procs));
        ctx.state(state);
        let owner = *visited[state as usize % 64].lock().unwrap().entry(state).or_insert(mine);
        if owner != mine {
            ctx.outcome("joins another");
            return;
        }
        let mut en: Vec<(usize, char)> = ready.iter().map(|i| (*i, 'g')).collect();
        if dead < deaths {
            for i in &ready {
                en.push((*i, 'd'));
                if matches!(&at[*i], Ev::Op(o, _, n, _) if o == "write" && *n > 2) {
                    en.push((*i, 'h'));
                }
            }
        }
        let (i, c) = *ch.pick(&en);
        mine = hash64(&(mine, i, c));
        ctx.trans(1);
        if i != last {
            switches += 1;
            last = i;
        }
        let Ev::Op(op, path, ..) = at[i].clone() else { panic!("ENGINE place") };
        trace.push(format!("{i}{} {op} {}", if c == 'g' { "" } else { " dies at" }, plain(&path, &pids)));
        ps[i].tell(c);
        if c == 'g' {
            at[i] = ps[i].next();
            if matches!(&at[i], Ev::Op(o, ..) if o == "blocked") {
                st[i] = St::Blocked;
            }
        } else {
            st[i] = St::Dead;
            at[i] = Ev::Died;
            dead += 1;
        }
        if c != 'g' || matches!(op.as_str(), "close" | "unlock") || matches!(at[i], Ev::Done(_)) {
            st.iter_mut().filter(|s| **s == St::Blocked).for_each(|s| *s = St::Ready);
        }
    }
    if let Some(i) = st.iter().position(|s| *s == St::Blocked) {
        return ctx.violation(&key("a process waits for ever"), format!("process {i}\n{trace:#?}"));
    }
    if switches > procs.len() {
        ctx.nontriv();
    }
    ctx.valid();
    // one which died records again, as the next build does
    for (i, s) in st.iter().enumerate() {
        if *s == St::Dead {
            if let Err(e) = step(root, procs[i]) {
                return ctx.violation(&key("recording again fails"), format!("process {i}: {e}\n{trace:#?}"));
            }
        }
    }
    let got = (shown(root), format!("{:?}", chain(root)));
    ctx.outcome(format!("{dead} dead, outcome {:?}", allowed.iter().position(|a| *a == got)));
    ctx.sample(trace.join("; ").chars().take(400).collect::<String>());
    if !allowed.contains(&got) {
        ctx.violation(&key("something recorded is lost"), format!("{}\ninstead of {}\n{trace:#?}", got.0, allowed[0].0));
    }
}
