//! C17: the filter and query macros mean the expression that was written.
//!
//! A generated crate holds every expression of the macros' grammar up to a size, compiled with the
//! real macros; the rows each selects are compared with the expression read as ordinary logic.
use crate::engine::*;
use crate::gen;
use std::sync::Arc;

pub const RULE: &str = "no expression selects other rows than the written one, legal expressions compile, others are refused when compiling";

type F<R> = Arc<dyn Fn(&R) -> bool + Send + Sync>;
struct X<R> {
    text: String,
    f: F<R>,
}
impl<R> Clone for X<R> {
    fn clone(&self) -> Self {
        X { text: self.text.clone(), f: self.f.clone() }
    }
}
fn x<R>(t: &str, f: impl Fn(&R) -> bool + Send + Sync + 'static) -> X<R> {
    X { text: t.into(), f: Arc::new(f) }
}
/// A chain without parentheses: `&&` binds tighter than `||`.
fn chain<R: 'static>(atoms: &[&X<R>], ors: &[bool]) -> X<R> {
    let mut text = atoms[0].text.clone();
    let mut groups: Vec<Vec<F<R>>> = vec![vec![atoms[0].f.clone()]];
    for (a, or) in atoms[1..].iter().zip(ors) {
        text += if *or { " || " } else { " && " };
        text += &a.text;
        if *or {
            groups.push(vec![]);
        }
        groups.last_mut().unwrap().push(a.f.clone());
    }
    X { text, f: Arc::new(move |r| groups.iter().any(|g| g.iter().all(|f| f(r)))) }
}
#[derive(Clone)]
struct P {
    id: i64,
    title: &'static str,
    tags: Vec<T>,
}
#[derive(Clone)]
struct T {
    label: &'static str,
    w: i32,
}
#[derive(Clone)]
struct G {
    name: &'static str,
    rank: i32,
    boss: P,
}
struct Q {
    id: i64,
    n: i32,
    m: Option<i32>,
    s: &'static str,
    t: Option<&'static str>,
    b: bool,
    r: f64,
    u: u32,
    ty: i32,
    g: G,
    og: Option<G>,
    tags: Vec<T>,
}
fn world() -> (Vec<T>, Vec<P>, Vec<G>, Vec<Q>) {
    let ts = vec![T { label: "red", w: 1 }, T { label: "blue", w: 2 }, T { label: "x", w: 2 }];
    let ps = vec![
        P { id: 1, title: "x", tags: vec![ts[0].clone()] },
        P { id: 2, title: "y", tags: vec![ts[0].clone(), ts[1].clone()] },
        P { id: 3, title: "x", tags: vec![] },
    ];
    let gs = vec![
        G { name: "ga", rank: 1, boss: ps[0].clone() },
        G { name: "gb", rank: 2, boss: ps[1].clone() },
        G { name: "x", rank: 1, boss: ps[2].clone() },
    ];
    let mut qs = vec![];
    for i in 0..288usize {
        let j = i.wrapping_mul(2654435761) >> 7;
        qs.push(Q {
            id: i as i64 + 1,
            n: 1 + (i % 2) as i32,
            m: [None, Some(1), Some(2)][i / 2 % 3],
            s: ["ab", "b"][i / 6 % 2],
            t: [None, Some("ab")][i / 12 % 2],
            g: gs[i / 24 % 3].clone(),
            tags: [vec![], vec![ts[0].clone()], vec![ts[1].clone()], vec![ts[0].clone(), ts[1].clone()]][i / 72 % 4].clone(),
            b: j % 2 == 1,
            r: [0.5, 2.0][j / 2 % 2],
            u: [0, 4_000_000_000][j / 4 % 2],
            ty: 1 + (j / 8 % 2) as i32,
            og: [None, Some(gs[0].clone())][j / 16 % 2].clone(),
        });
    }
    (ts, ps, gs, qs)
}
const MODELS: &str = r#"
use butane::{model, ForeignKey, Many};
#[model]
#[derive(Clone, Debug)]
pub struct T { #[pk] pub label: String, pub w: i32 }
#[model]
#[derive(Clone, Debug)]
pub struct P { pub id: i64, pub title: String, pub tags: Many<T> }
#[model]
#[derive(Clone, Debug)]
pub struct G { #[pk] pub name: String, pub rank: i32, pub boss: ForeignKey<P> }
#[model]
#[derive(Clone, Debug)]
pub struct Q {
    pub id: i64,
    pub n: i32,
    pub m: Option<i32>,
    pub s: String,
    pub t: Option<String>,
    pub b: bool,
    pub r: f64,
    pub u: u32,
    pub g: ForeignKey<G>,
    pub og: Option<ForeignKey<G>>,
    pub tags: Many<T>,
    pub r#type: i32,
}
pub const ONE: i32 = 1;
pub struct Holder { pub n: i32, pub name: String }
pub fn two() -> i32 { 2 }
pub use butane::db::{Connection, BackendConnection};
pub use butane::query::{BoolExpr, Query};
pub use butane::{DataObject, DataResult};
pub use butane::prelude::*;
pub fn bits(ids: &[i64]) -> String {
    let mut v = vec![0u8; 73];
    for i in ids { v[*i as usize / 4] |= 1 << (*i as usize % 4); }
    v.iter().map(|b| char::from_digit(*b as u32, 16).unwrap()).collect()
}
pub fn q(k: &str, c: &Connection, q: Query<Q>) {
    match butane::query::QueryOpsSync::load(q, c) {
        Ok(v) => { let ids: Vec<i64> = v.iter().map(|r| r.id).collect(); println!("{k} {} {}", ids.len(), bits(&ids)) }
        Err(e) => println!("{k} ERR {e}"),
    }
}
pub fn f(k: &str, c: &Connection, e: BoolExpr) { q(k, c, <Q as DataResult>::query().filter(e)) }
pub fn fnd(k: &str, r: Result<Q, butane::Error>) {
    match r { Ok(r) => println!("{k} {}", r.id), Err(butane::Error::NoSuchObject) => println!("{k} none"), Err(e) => println!("{k} ERR {e}") }
}
pub fn setup() -> Connection {
    use butane::migrations::{adb, Migration, MigrationsMut};
    let c = butane::db::connect(&butane::db::ConnectionSpec::new("sqlite", ":memory:")).unwrap();
    let mut ms = butane::migrations::from_root(concat!(env!("CARGO_MANIFEST_DIR"), "/.butane/migrations"));
    let cur = ms.current().db().unwrap();
    let be = butane::db::get_backend("sqlite").unwrap();
    let ops = adb::diff(&adb::ADB::default(), &cur);
    c.execute(&be.create_migration_sql(&adb::ADB::default(), ops).unwrap()).unwrap();
    c.execute("BEGIN").unwrap();
    rows(&c);
    c.execute("COMMIT").unwrap();
    c
}
"#;
fn rows_fn() -> String {
    let (ts, ps, gs, qs) = world();
    let mut s = String::from("fn rows(c: &Connection) {\n");
    let strs = |v: &[T]| v.iter().map(|t| format!("'{}'", t.label)).collect::<Vec<_>>();
    // written as SQL: what the macros select is under test here, not how rows are saved
    let mut sql: Vec<String> = vec![];
    for t in &ts {
        sql.push(format!("INSERT INTO T (label,w) VALUES ('{}',{})", t.label, t.w));
    }
    for p in &ps {
        sql.push(format!("INSERT INTO P (id,title) VALUES ({},'{}')", p.id, p.title));
        for t in strs(&p.tags) {
            sql.push(format!("INSERT INTO P_tags_Many (owner,has) VALUES ({},{t})", p.id));
        }
    }
    for g in &gs {
        sql.push(format!("INSERT INTO G (name,\"rank\",boss) VALUES ('{}',{},{})", g.name, g.rank, g.boss.id));
    }
    for q in &qs {
        sql.push(format!("INSERT INTO Q (id,n,m,s,t,b,r,u,g,og,\"type\") VALUES ({},{},{},'{}',{},{},{:?},{},'{}',{},{})",
            q.id, q.n, q.m.map_or("NULL".into(), |m| m.to_string()), q.s, q.t.map_or("NULL".into(), |t| format!("'{t}'")), q.b as i32, q.r, q.u,
            q.g.name, q.og.as_ref().map_or("NULL".into(), |g| format!("'{}'", g.name)), q.ty));
        for t in strs(&q.tags) {
            sql.push(format!("INSERT INTO Q_tags_Many (owner,has) VALUES ({},{t})", q.id));
        }
    }
    for l in sql {
        s += &format!("    c.execute({l:?}).unwrap();\n");
    }
    s + "}\n"
}
/// Values of the surrounding function which the expressions use.
const LOCALS: &str = "    let one = 1; let neg = -3; let vs = String::from(\"ab\"); let h = Holder { n: 2, name: \"b\".to_string() };\n    let arr = [1, 2]; let ga = G { name: \"ga\".into(), rank: 7, boss: ForeignKey::from_pk(1) };\n    let inner = filter!(G, rank == 1); let tagf = filter!(T, w == 2); let whole = filter!(Q, n == 1 || s == \"b\");\n    let _ = (&one, &neg, &vs, &h, &arr, &ga, &inner, &tagf, &whole);\n";

fn tatoms() -> Vec<X<T>> {
    vec![
        x("label == \"red\"", |t: &T| t.label == "red"),
        x("label != \"red\"", |t: &T| t.label != "red"),
        x("label < { String::from(\"red\") }", |t: &T| t.label < "red"),
        x("w == 2", |t: &T| t.w == 2),
        x("w >= { h.n }", |t: &T| t.w >= 2),
        x("label.like(\"%e\")", |t: &T| t.label.ends_with('e')),
        x("label.is_in(vec![\"blue\", \"x\"])", |t: &T| t.label == "blue" || t.label == "x"),
    ]
}
fn patoms() -> Vec<X<P>> {
    let mut v = vec![
        x("title == \"x\"", |p: &P| p.title == "x"),
        x("id > 1i64", |p: &P| p.id > 1),
        x("tags.contains(\"blue\")", |p: &P| p.tags.iter().any(|t| t.label == "blue")),
    ];
    for t in tatoms() {
        v.push(X { text: format!("tags.contains({})", t.text), f: Arc::new(move |p: &P| p.tags.iter().any(|r| (t.f)(r))) });
    }
    v
}
fn gatoms() -> Vec<X<G>> {
    let mut v = vec![
        x("name == \"x\"", |g: &G| g.name == "x"),
        x("name != { h.name.clone() }", |g: &G| g.name != "b"),
        x("rank == 1", |g: &G| g.rank == 1),
        x("rank > { one }", |g: &G| g.rank > 1),
        x("name.like(\"g%\")", |g: &G| g.name.starts_with('g')),
        x("rank.is_in(vec![2, 3])", |g: &G| g.rank == 2),
        x("boss.matches(2)", |g: &G| g.boss.id == 2),
    ];
    for p in patoms() {
        v.push(X { text: format!("boss.matches({})", p.text), f: Arc::new(move |g: &G| (p.f)(&g.boss)) });
    }
    v
}
fn all_chains<R: 'static>(atoms: &[X<R>], len: usize) -> Vec<X<R>> {
    let n = atoms.len();
    let mut out = vec![];
    for c in 0..n.pow(len as u32) {
        let a: Vec<&X<R>> = (0..len).map(|i| &atoms[c / n.pow(i as u32) % n]).collect();
        for o in 0..1usize << (len - 1) {
            let ors: Vec<bool> = (0..len - 1).map(|i| o >> i & 1 == 1).collect();
            out.push(chain(&a, &ors));
        }
    }
    out
}
/// `{ … }` around a chain, as the macros' way of grouping.
fn grouped<R: 'static>(model: &str, e: &X<R>) -> X<R> {
    X { text: format!("{{ filter!({model}, {}) }}", e.text), f: e.f.clone() }
}
fn qatoms() -> Vec<X<Q>> {
    let mut v: Vec<X<Q>> = vec![];
    // every comparison, of every kind of field, with every kind of value
    fn cmp<V: PartialOrd + Send + Sync + 'static>(v: &mut Vec<X<Q>>, field: &str, get: fn(&Q) -> Option<V>, vals: Vec<(&'static str, V)>, eq: bool, ord: bool) {
        for (t, val) in vals {
            let val = Arc::new(val);
            let mut push = |op: &str, test: fn(&V, &V) -> bool| {
                let val = val.clone();
                v.push(x(&format!("{field} {op} {t}"), move |q: &Q| get(q).is_some_and(|a| test(&a, &val))));
            };
            if eq {
                push("==", |a, b| a == b);
                push("!=", |a, b| a != b);
            }
            if ord {
                push("<", |a, b| a < b);
                push("<=", |a, b| a <= b);
                push(">", |a, b| a > b);
                push(">=", |a, b| a >= b);
            }
        }
    }
    let ints = || vec![("1", 1), ("2i32", 2), ("0x2", 2), ("{ one }", 1), ("{ -1 }", -1), ("{ neg }", -3), ("{ h.n }", 2), ("{ two() }", 2), ("{ ONE }", 1), ("{ arr[1] }", 2), ("{ arr.len() as i32 }", 2),
        ("{ one + 1 }", 2), ("{ one as i32 }", 1), ("{ let y = one; y + 1 }", 2), ("{ if one == 1 { 2 } else { 1 } }", 2), ("{ *&one }", 1), ("{ one.max(2) }", 2), ("{ (neg + 5) }", 2), ("{ { one } }", 1), ("{ i32::from(1u8) }", 1)];
    cmp(&mut v, "n", |q| Some(q.n), ints(), true, true);
    cmp(&mut v, "r#type", |q| Some(q.ty), vec![("1", 1), ("{ two() }", 2)], true, true);
    cmp(&mut v, "m", |q| q.m, vec![("{ Some(1) }", 1), ("{ Some(one + 1) }", 2)], true, false);
    cmp(&mut v, "m", |q| q.m, vec![("1", 1), ("2", 2), ("{ one }", 1), ("{ h.n }", 2)], false, true);
    cmp(&mut v, "s", |q| Some(q.s), vec![("\"ab\"", "ab"), ("\"b\"", "b"), ("r\"ab\"", "ab"), ("\"a\\x62\"", "ab"), ("\"\"", ""), ("{ \"b\" }", "b")], true, false);
    cmp(&mut v, "s", |q| Some(q.s), vec![("{ vs.clone() }", "ab"), ("{ h.name.clone() }", "b"), ("{ format!(\"{}{}\", \"a\", \"b\") }", "ab")], true, true);
    cmp(&mut v, "t", |q| q.t, vec![("{ Some(vs.clone()) }", "ab"), ("{ Some(String::from(\"b\")) }", "b")], true, false);
    cmp(&mut v, "t", |q| q.t, vec![("{ vs.clone() }", "ab")], false, true);
    cmp(&mut v, "b", |q| Some(q.b), vec![("true", true), ("false", false), ("{ one == 1 }", true), ("{ !true }", false)], true, true);
    cmp(&mut v, "r", |q| Some(q.r), vec![("0.5", 0.5), ("2.0", 2.0), ("2e0", 2.0), ("{ 1.0 / 2.0 }", 0.5), ("{ f64::from(two()) }", 2.0)], true, true);
    cmp(&mut v, "u", |q| Some(q.u), vec![("0u32", 0), ("4000000000u32", 4_000_000_000), ("{ u32::MAX }", u32::MAX)], true, true);
    cmp(&mut v, "id", |q| Some(q.id), vec![("7i64", 7), ("{ i64::from(two()) }", 2), ("200i64", 200)], true, true);
    cmp(&mut v, "g", |q| Some(q.g.name), vec![("{ String::from(\"gb\") }", "gb"), ("{ &ga }", "ga"), ("{ ga.clone() }", "ga")], true, false);
    for (f, get) in [("m", (|q: &Q| q.m.is_none()) as fn(&Q) -> bool), ("t", |q: &Q| q.t.is_none()), ("og", |q: &Q| q.og.is_none())] {
        v.push(x(&format!("{f} == None"), get));
        v.push(x(&format!("{f} != None"), move |q: &Q| !get(q)));
    }
    v.push(x("m == { None::<i32> }", |q: &Q| q.m.is_none()));
    v.push(x("og == { Some(ForeignKey::from(&ga)) }", |q: &Q| q.og.as_ref().is_some_and(|g| g.name == "ga")));
    v.push(x("og != { Some(ForeignKey::from_pk(\"gb\".to_string())) }", |q: &Q| q.og.as_ref().is_some_and(|g| g.name != "gb")));
    // like
    v.push(x("s.like(\"a%\")", |q: &Q| q.s.starts_with('a')));
    v.push(x("s.like(\"%b\")", |q: &Q| q.s.ends_with('b')));
    v.push(x("s.like(\"_\")", |q: &Q| q.s.len() == 1));
    v.push(x("s.like({ h.name.clone() })", |q: &Q| q.s == "b"));
    v.push(x("s.like({ format!(\"{}%\", \"a\") })", |q: &Q| q.s.starts_with('a')));
    v.push(x("t.like(\"a%\")", |q: &Q| q.t.is_some_and(|s| s.starts_with('a'))));
    // is_in
    v.push(x("n.is_in(vec![1])", |q: &Q| q.n == 1));
    v.push(x("n.is_in(vec![2, 7])", |q: &Q| q.n == 2));
    v.push(x("n.is_in(vec![1, 2])", |_: &Q| true));
    v.push(x("n.is_in(Vec::<i32>::new())", |_: &Q| false));
    v.push(x("n.is_in({ arr[..1].to_vec() })", |q: &Q| q.n == 1));
    v.push(x("n.is_in(vec![one, neg])", |q: &Q| q.n == 1));
    v.push(x("s.is_in(vec![\"b\", \"c\"])", |q: &Q| q.s == "b"));
    v.push(x("s.is_in({ vec![vs.clone()] })", |q: &Q| q.s == "ab"));
    v.push(x("m.is_in(vec![2, 3])", |q: &Q| q.m == Some(2)));
    v.push(x("t.is_in(vec![\"ab\"])", |q: &Q| q.t == Some("ab")));
    v.push(x("g.is_in(vec![\"ga\", \"x\"])", |q: &Q| q.g.name != "gb"));
    // relations
    v.push(x("g.matches({ inner.clone() })", |q: &Q| q.g.rank == 1));
    v.push(x("tags.contains(\"red\")", |q: &Q| q.tags.iter().any(|t| t.label == "red")));
    v.push(x("tags.contains({ tagf.clone() })", |q: &Q| q.tags.iter().any(|t| t.w == 2)));
    let mut gs = gatoms();
    let pair: Vec<X<G>> = [0, 2, 6, 7].iter().map(|i| gs[*i].clone()).collect();
    gs.extend(all_chains(&pair, 2));
    let pp: Vec<X<P>> = patoms()[..4].to_vec();
    for p in all_chains(&pp, 2) {
        gs.push(X { text: format!("boss.matches({})", p.text), f: Arc::new(move |g: &G| (p.f)(&g.boss)) });
    }
    for g in gs {
        v.push(X { text: format!("g.matches({})", g.text), f: Arc::new(move |q: &Q| (g.f)(&q.g)) });
    }
    let ta = tatoms();
    let mut ts = ta.clone();
    ts.extend(all_chains(&[ta[0].clone(), ta[1].clone(), ta[3].clone(), ta[6].clone()], 2));
    for t in ts {
        v.push(X { text: format!("tags.contains({})", t.text), f: Arc::new(move |q: &Q| q.tags.iter().any(|r| (t.f)(r))) });
    }
    v.push(x("{ whole.clone() }", |q: &Q| q.n == 1 || q.s == "b"));
    v
}
struct Case {
    x: X<Q>,
    forms: u8, // 1 filter!, 2 query!, 4 find!, 8 through a macro of the user's
}
fn cases(thorough: bool) -> Vec<Case> {
    let atoms = qatoms();
    let mut v: Vec<Case> = atoms.iter().map(|x| Case { x: x.clone(), forms: 15 }).collect();
    let pick = |texts: &[&str]| -> Vec<X<Q>> {
        texts.iter().map(|t| atoms.iter().find(|a| a.text == *t).unwrap_or_else(|| panic!("ENGINE no atom {t}")).clone()).collect()
    };
    let one_of_each = pick(&["n == 1", "r#type != { two() }", "m == None", "m < 2", "s == \"ab\"", "t != None", "b == true", "r <= 0.5", "s.like(\"a%\")", "t.is_in(vec![\"ab\"])", "n.is_in(Vec::<i32>::new())",
        "g == { &ga }", "g.matches(rank == 1)", "g.matches(boss.matches(tags.contains(\"blue\")))", "tags.contains(\"red\")", "tags.contains(w == 2)", "{ whole.clone() }", "og == None", "n > { if one == 1 { 2 } else { 1 } }"]);
    for c in all_chains(&one_of_each, 2) {
        v.push(Case { x: c, forms: if thorough { 7 } else { 1 } });
    }
    let four = pick(&["n == 1", "m < 2", "s == \"ab\"", "tags.contains(\"red\")"]);
    let five = pick(&["n == 1", "m < 2", "s == \"ab\"", "tags.contains(\"red\")", "g.matches(rank == 1)", "t == None"]);
    for c in all_chains(if thorough { &five } else { &four }, 3) {
        v.push(Case { x: c, forms: 3 });
    }
    for c in all_chains(if thorough { &four } else { &four[..3] }, 4) {
        v.push(Case { x: c, forms: 1 });
    }
    if thorough {
        for a in &atoms {
            for b in &five {
                v.push(Case { x: chain(&[a, b], &[false]), forms: 1 });
                v.push(Case { x: chain(&[b, a], &[true]), forms: 1 });
            }
        }
        for c in all_chains(&four[..2], 5).into_iter().chain(all_chains(&four[..2], 6)) {
            v.push(Case { x: c, forms: 1 });
        }
    }
    // grouping with braces
    for g in all_chains(&four, 2) {
        let g = grouped("Q", &g);
        for a in &four {
            for or in [false, true] {
                v.push(Case { x: chain(&[&g, a], &[or]), forms: 3 });
                v.push(Case { x: chain(&[a, &g], &[or]), forms: 1 });
            }
        }
    }
    v
}
/// Expressions which are not in the macros' language, or do not have the fields' types.
const REFUSED: &[&str] = &[
    "n + 1 == 2", "n - 1 == 1", "n * 2 == 2", "n % 2 == 1", "n == 1 | n == 2", "n == 1 & m == 2", "b ^ true", "n << 1 == 2", "!b", "!{ whole.clone() }", "-n == 1", "*n == 1", "&n == &1",
    "n = 1", "n += 1", "n..2", "n", "b", "true", "1", "1 == 1", "\"a\" == \"b\"", "None", "None == None", "None == m", "1 == n", "\"ab\" == s", "{ one } == n", "n == m", "n == n", "s == t",
    "n == \"ab\"", "s == 1", "s == true", "b == 1", "r == \"0.5\"", "n == 1.5", "n < \"a\"", "s < 1", "m == \"a\"", "t == 1", "n == None", "g == 1", "g == None", "tags == \"red\"", "tags == None",
    "n == 1 == true", "n < 1 < 2", "nosuch == 1", "nosuch.like(\"a\")", "g.nosuch == 1", "n.abs() == 1", "s.len() == 1", "s.starts_with(\"a\")", "s.contains(\"a\")", "n.contains(1)", "n.matches(1)", "tags.matches(\"red\")", "tags.matches(w == 1)",
    "g.contains(\"ga\")", "g.contains(rank == 1)", "og.matches(\"ga\")", "og.contains(rank == 1)", "g.matches(1)", "g.matches(n == 1)", "g.matches(nosuch == 1)", "g.matches(boss == \"a\")", "g.matches(rank)", "tags.contains(1)", "tags.contains(n == 1)", "tags.contains(w == \"a\")",
    "g.matches()", "g.matches(\"ga\", \"gb\")", "g.matches(rank == 1, rank == 2)", "tags.contains()", "tags.contains(\"red\", \"blue\")", "tags.contains(w == 1, w == 2)",
    "s.like()", "s.like(\"a%\", \"b%\")", "s.like(\"a%\", '!')", "n.is_in()", "n.is_in(vec![1], vec![2])", "n.is_in(1)", "n.is_in(1, 2)", "n.is_in([1, 2])",
    "s.like(s == \"a\")", "s.like(t)", "s.like(f(\"a\"))", "n.is_in(m)", "n.like(m)", "is_in(n, vec![1])", "like(s, \"a\")", "f(n)", "n as i64 == 1i64", "[n] == [1]", "(n, m) == (1, 2)", "if b { n == 1 } else { n == 2 }",
    "|n| n == 1", "n == 1;", "n == 1, m == 2", "n == 1 m == 2", "n == 1 and m == 2", "", "n ==", "== 1", "n === 1", "n <> 1", "n == 1 && ", "n == 1 && b", "b && n == 1", "n == 1 || true", "Q::n == 1", "self.n == 1", "q.n == 1", "n == 1 && { 1 }", "{ one }", "{ }", "n == { }",
    "g.rank == 1", "g.boss.matches(title == \"x\")", "g.matches(boss.title == \"x\")", "s.like(\"a\").like(\"b\")", "matches!(n, 1)", "n == 1 && matches!(n, 1)", "n.is_in(vec![1]) == true", "s.eq(\"ab\")", "n.eq(1)", "n.ne(1)", "n.lt(1)", "n.is_in::<i32>(vec![1]).x", "tags.len() == 0", "n?", "return n == 1", "loop { }", "unsafe { whole.clone() }.x",
];
/// Malformed uses of the macro itself.
const REFUSED_RAW: &[&str] = &["filter!(Q)", "filter!()", "filter!(Q,)", "filter!(n == 1)", "filter!(Q n == 1)", "filter!(Q - n == 1)", "filter!(Q ! n == 1)", "filter!(Q & n == 1)", "filter!(Q * n == 1)", "filter!(Nosuch, n == 1)", "filter!(i32, n == 1)", "filter!(crate::Q, n == 1)", "filter!(\"Q\", n == 1)", "filter!(Q, Q, n == 1)"];
/// Mismatched types in operations which take any value.
const REFUSED_TYPES: &[&str] = &["n.is_in(vec![\"a\"])", "s.is_in(vec![1])", "b.is_in(vec![\"a\"])", "s.like(1)", "s.like(true)", "n.like(\"a%\")", "b.like(\"a%\")", "g.is_in(vec![1])", "tags.is_in(vec![1])", "tags.like(\"a\")"];

const BINS: usize = 8;
pub fn run(ctx: &Ctx) {
    let cs = cases(ctx.thorough);
    let (_, _, _, qs) = world();
    ctx.assume("programs are compiled by the installed rustc against /repo's current crates, and run on sqlite (what other backends select for the same expression: C01)");
    ctx.assume("a comparison with a value which is absent is not true, except == None and != None; letters are lower case");
    ctx.bound("rows", qs.len() as u64);
    ctx.bound("expressions", cs.len() as u64);
    ctx.bound("boolean chain length", if ctx.thorough { 6 } else { 4 });
    let mut progs: Vec<String> = (0..BINS).map(|_| String::new()).collect();
    for (p, out) in progs.iter_mut().enumerate() {
        let mine: Vec<(usize, &Case)> = cs.iter().enumerate().filter(|(i, _)| i % BINS == p).collect();
        *out += "#![allow(unused, warnings)]\nuse gen_c17::*;\nuse butane::{filter, query, find, ForeignKey};\nmacro_rules! mine { ($m:ident, $($e:tt)+) => { filter!($m, $($e)+) } }\n";
        let mut calls = String::new();
        for (k, group) in mine.chunks(40).enumerate() {
            *out += &format!("fn g{k}(c: &Connection) {{\n{LOCALS}");
            for (i, c) in group {
                let t = &c.x.text;
                for (bit, l) in [(1, format!("f(\"{i}f\", c, filter!(Q, {t}));")), (2, format!("q(\"{i}q\", c, query!(Q, {t}));")), (4, format!("fnd(\"{i}o\", find!(Q, {t}, c));")), (8, format!("f(\"{i}m\", c, mine!(Q, {t}));"))] {
                    if c.forms & bit != 0 {
                        *out += &format!("    {l}\n");
                    }
                }
            }
            *out += "}\n";
            calls += &format!("    g{k}(&c);\n");
        }
        *out += &format!("fn main() {{\n    let c = setup();\n{calls}}}\n");
    }
    let mut files: Vec<(String, String)> = vec![("lib.rs".into(), format!("{MODELS}{}", rows_fn()))];
    for (i, p) in progs.into_iter().enumerate() {
        files.push((format!("bin/c17p{i}.rs"), p));
    }
    let krate = gen::lay(ctx, "c17", &files);
    let t0 = std::time::Instant::now();
    if let Err(e) = krate.build(ctx) {
        ctx.violation("legal expression does not compile", gen::pointed(&krate, &e));
        return;
    }
    ctx.bound("seconds to compile", t0.elapsed().as_secs());
    let outs: Vec<std::sync::Mutex<String>> = (0..BINS).map(|_| Default::default()).collect();
    par(ctx, BINS, |_| (), |_, p| match krate.run(ctx, &format!("c17p{p}"), &[], 300) {
        Ok(s) => *outs[p].lock().unwrap() = s,
        Err(e) => ctx.violation("the program of the expressions fails", e.chars().take(1500).collect::<String>()),
    });
    if ctx.n_violations() > 0 {
        return;
    }
    let mut got: std::collections::HashMap<String, String> = Default::default();
    for o in &outs {
        for l in o.lock().unwrap().lines() {
            if let Some((k, v)) = l.split_once(' ') {
                got.insert(k.to_string(), v.to_string());
            }
        }
    }
    for (i, c) in cs.iter().enumerate() {
        ctx.exec();
        let ids: Vec<i64> = qs.iter().filter(|q| (c.x.f)(q)).map(|q| q.id).collect();
        ctx.state(hash64(&ids));
        if !ids.is_empty() && ids.len() < qs.len() {
            ctx.nontriv();
        }
        let mut v = vec![0u8; 73];
        for k in &ids {
            v[*k as usize / 4] |= 1 << (*k as usize % 4);
        }
        let want = format!("{} {}", ids.len(), v.iter().map(|b| char::from_digit(*b as u32, 16).unwrap()).collect::<String>());
        for (bit, l, mac) in [(1, "f", "filter!"), (2, "q", "query!"), (8, "m", "filter! in a macro")] {
            if c.forms & bit == 0 {
                continue;
            }
            ctx.trans(1);
            match got.get(&format!("{i}{l}")) {
                Some(g) if *g == want => ctx.valid(),
                g => {
                    let first = |s: &str| s.split(' ').next().unwrap_or("").to_string();
                    ctx.violation(&format!("{mac} selects other rows"), format!("{}: {} rows selected, {} expected{}", c.x.text, g.map(|g| first(g)).unwrap_or("none".into()), ids.len(),
                        g.filter(|g| g.starts_with("ERR")).map(|g| format!(" ({g})")).unwrap_or_default()));
                }
            }
        }
        if c.forms & 4 != 0 {
            ctx.trans(1);
            let g = got.get(&format!("{i}o")).cloned().unwrap_or("nothing".into());
            let fine = match g.parse::<i64>() {
                Ok(id) => ids.contains(&id),
                Err(_) => g == "none" && ids.is_empty(),
            };
            if !fine {
                ctx.violation("find! finds another row", format!("{}: {g}", c.x.text));
            }
        }
    }
    ctx.sample("n == 1 || m < 2 && g.matches(boss.matches(tags.contains(\"blue\")))");

    // Refused when compiling: one program each, checked in one go.
    let mut all: Vec<(String, &str, String)> = vec![];
    for t in REFUSED {
        all.push((format!("filter!(Q, {t})"), "expression outside the language is accepted", String::new()));
    }
    for t in REFUSED_RAW {
        all.push((t.to_string(), "malformed use of the macro is accepted", String::new()));
    }
    for t in REFUSED_TYPES {
        all.push((format!("filter!(Q, {t})"), "value of another type is accepted", t.to_string()));
    }
    let mut files: Vec<(String, String)> = vec![("lib.rs".into(), format!("{MODELS}{}", "fn rows(_c: &Connection) {}\n"))];
    let prog = |e: &str| format!("#![allow(unused, warnings)]\nuse gen_c17r::*;\nuse butane::{{filter, query, find, ForeignKey}};\nfn main() {{\n{LOCALS}    let e: BoolExpr = {e};\n}}\n");
    // programs known to be legal show that the others are refused for the expression only
    let legal = ["filter!(Q, n == 1)", "filter!(Q, s.like(\"a%\"))", "filter!(Q, g.matches(rank == 1))"];
    for (i, e) in legal.iter().enumerate() {
        files.push((format!("bin/c17ok{i}.rs"), prog(e)));
    }
    for (i, (e, ..)) in all.iter().enumerate() {
        files.push((format!("bin/c17r{i}.rs"), prog(e)));
    }
    let krate = gen::lay(ctx, "c17r", &files);
    let ok = krate.accepted(ctx);
    for i in 0..legal.len() {
        assert!(ok.contains(&format!("c17ok{i}")), "ENGINE legal program {i} refused");
    }
    for (i, (e, what, key)) in all.iter().enumerate() {
        ctx.exec();
        ctx.trans(1);
        if ok.contains(&format!("c17r{i}")) {
            let key = if key.is_empty() { what.to_string() } else { format!("{what}: {key}") };
            ctx.violation(&key, e);
        } else {
            ctx.outcome("refused");
            ctx.valid();
        }
    }
    ctx.bound("refused programs", all.len() as u64);
}
