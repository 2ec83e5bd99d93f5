//! C08: diff(a, b), applied to a, yields b; empty iff equal; executable in order; independent of
//! declaration order.
use crate::engine::*;
use butane::migrations::adb::{diff, ARef, ARefLiteral, ATable, AColumn, DeferredSqlType, Operation, TypeIdentifier, ADB};
use butane::{SqlType, SqlVal};
use std::collections::{BTreeMap, BTreeSet};

pub const RULE: &str = "all ordered pairs of schemas from the stated universes (columns over type, nullability, key, automatic, uniqueness, default and reference; one to three tables with every reference graph between them); for every pair the change list is executed by an interpreter that refuses any step naming something that does not exist yet or removing something still referenced, and by the code's own transform, both of which must end in the second schema; recomputed with every table's columns declared in reverse and tables inserted in reverse, with the legacy spelling of types, and through the stored (JSON) form; states = schemas, transitions = change operations executed, non-trivial = pairs with a non-empty change list";

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct C {
    pub name: &'static str,
    pub ty: u8, // 0 Int 1 BigInt 2 Text 3 Bool 4 Real
    pub nullable: bool,
    pub pk: bool,
    pub auto: bool,
    pub unique: bool,
    pub default: Option<i32>,
    pub r: Option<(&'static str, &'static str)>,
}
pub fn col(name: &'static str, ty: u8) -> C {
    C { name, ty, nullable: false, pk: false, auto: false, unique: false, default: None, r: None }
}
pub type Schema = BTreeMap<&'static str, Vec<C>>;
pub fn ty(t: u8) -> SqlType {
    [SqlType::Int, SqlType::BigInt, SqlType::Text, SqlType::Bool, SqlType::Real][t as usize].clone()
}
fn val(t: u8, d: i32) -> SqlVal {
    match t {
        0 => SqlVal::Int(d),
        1 => SqlVal::BigInt(d as i64),
        2 => SqlVal::Text(format!("d{d}")),
        3 => SqlVal::Bool(d % 2 == 1),
        _ => SqlVal::Real(d as f64 + 0.5),
    }
}
pub fn acol(c: &C, legacy: bool) -> AColumn {
    let t = if legacy { DeferredSqlType::Known(ty(c.ty)) } else { DeferredSqlType::KnownId(TypeIdentifier::Ty(ty(c.ty))) };
    AColumn::new(c.name, t, c.nullable, c.pk, c.auto, c.unique, c.default.map(|d| val(c.ty, d)), c.r.map(|(t, k)| ARef::Literal(ARefLiteral::new(t, k))))
}
pub fn adb(s: &Schema, rev: bool, legacy: bool) -> ADB {
    let mut ts: Vec<ATable> = s
        .iter()
        .map(|(n, cs)| {
            let mut t = ATable::new(n.to_string());
            let mut cs: Vec<&C> = cs.iter().collect();
            if rev {
                cs.reverse();
            }
            for c in cs {
                t.add_column(acol(c, legacy));
            }
            t
        })
        .collect();
    if rev {
        ts.reverse();
    }
    let mut a = ADB::new();
    for t in ts {
        a.replace_table(t);
    }
    a
}
/// Tables as name -> column name -> column: what a schema means.
fn meaning(a: &ADB) -> Result<BTreeMap<String, BTreeMap<String, AColumn>>, String> {
    let mut m = BTreeMap::new();
    for t in a.tables() {
        let mut cs = BTreeMap::new();
        for c in &t.columns {
            if cs.insert(c.name().to_string(), c.clone()).is_some() {
                return Err(format!("column {} twice in {}", c.name(), t.name));
            }
        }
        if m.insert(t.name.clone(), cs).is_some() {
            return Err(format!("table {} twice", t.name));
        }
    }
    Ok(m)
}
/// What a column is, read off its parts: the code's own equality is not trusted here.
fn same_col(c: &AColumn, d: &AColumn) -> bool {
    c.name() == d.name()
        && match (c.typeid(), d.typeid()) {
            (Ok(x), Ok(y)) => x == y,
            _ => false,
        }
        && (c.nullable(), c.is_pk(), c.is_auto(), c.unique()) == (d.nullable(), d.is_pk(), d.is_auto(), d.unique())
        && c.default() == d.default()
        && lit(c) == lit(d)
}
type Cols = BTreeMap<String, BTreeMap<String, AColumn>>;
fn same(a: &Cols, b: &Cols) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|((t, x), (u, y))| t == u && x.len() == y.len() && x.iter().zip(y).all(|((n, c), (m, d))| n == m && same_col(c, d)))
}
fn lit(c: &AColumn) -> Option<(String, String)> {
    match c.reference() {
        Some(ARef::Literal(l)) => Some((l.table_name().into(), l.column_name().into())),
        _ => None,
    }
}
type Fk = ((String, String), (String, String));
/// A database that executes change operations and refuses the ones that cannot be executed.
struct Db {
    t: BTreeMap<String, BTreeMap<String, AColumn>>,
    fks: BTreeSet<Fk>,
}
impl Db {
    fn fk(&mut self, t: &str, c: &AColumn) -> Result<(), String> {
        let Some(target) = lit(c) else { return Ok(()) };
        if !self.t.get(&target.0).is_some_and(|x| x.contains_key(&target.1)) {
            return Err(format!("{t}.{} would reference {}.{} which does not exist", c.name(), target.0, target.1));
        }
        if !self.fks.insert(((t.into(), c.name().into()), target)) {
            return Err(format!("reference of {t}.{} is added twice", c.name()));
        }
        Ok(())
    }
    fn step(&mut self, op: &Operation) -> Result<(), String> {
        use Operation::*;
        match op {
            AddTable(t) | AddTableIfNotExists(t) => {
                if self.t.contains_key(&t.name) {
                    return Err(format!("table {} already exists", t.name));
                }
                self.t.insert(t.name.clone(), t.columns.iter().map(|c| (c.name().to_string(), c.clone())).collect());
            }
            AddTableConstraints(t) => {
                let Some(cur) = self.t.get(&t.name).cloned() else { return Err(format!("no table {}", t.name)) };
                for c in &t.columns {
                    if !cur.get(c.name()).is_some_and(|x| same_col(x, c)) {
                        return Err(format!("constraints for a column {}.{} that is not there", t.name, c.name()));
                    }
                    self.fk(&t.name, c)?;
                }
            }
            RemoveTableConstraints(t) => {
                if !self.t.contains_key(&t.name) {
                    return Err(format!("no table {}", t.name));
                }
                for c in &t.columns {
                    if lit(c).is_some() && !self.fks.remove(&((t.name.clone(), c.name().into()), lit(c).unwrap())) {
                        return Err(format!("no reference on {}.{} to drop", t.name, c.name()));
                    }
                }
            }
            RemoveTable(n) => {
                if self.t.remove(n).is_none() {
                    return Err(format!("no table {n}"));
                }
                self.fks.retain(|(from, _)| &from.0 != n);
                if let Some((from, _)) = self.fks.iter().find(|(_, to)| &to.0 == n) {
                    return Err(format!("table {n} is dropped while {}.{} still references it", from.0, from.1));
                }
            }
            AddColumn(t, c) => {
                let Some(cur) = self.t.get_mut(t) else { return Err(format!("no table {t}")) };
                if cur.insert(c.name().into(), c.clone()).is_some() {
                    return Err(format!("column {t}.{} already exists", c.name()));
                }
                self.fk(t, c)?;
            }
            RemoveColumn(t, c) => {
                let Some(cur) = self.t.get_mut(t) else { return Err(format!("no table {t}")) };
                if cur.remove(c).is_none() {
                    return Err(format!("no column {t}.{c}"));
                }
                self.fks.retain(|(from, _)| !(&from.0 == t && &from.1 == c));
                if let Some((from, _)) = self.fks.iter().find(|(_, to)| &to.0 == t && &to.1 == c) {
                    return Err(format!("column {t}.{c} is dropped while {}.{} still references it", from.0, from.1));
                }
            }
            ChangeColumn(t, old, new) => {
                let Some(cur) = self.t.get_mut(t) else { return Err(format!("no table {t}")) };
                if !cur.get(old.name()).is_some_and(|x| same_col(x, old)) {
                    return Err(format!("column {t}.{} is not as the change expects", old.name()));
                }
                cur.remove(old.name());
                cur.insert(new.name().into(), new.clone());
                if lit(old) != lit(new) {
                    self.fks.retain(|(from, _)| !(&from.0 == t && from.1 == old.name()));
                    self.fk(t, new)?;
                }
            }
        }
        Ok(())
    }
}
fn fks_of(m: &BTreeMap<String, BTreeMap<String, AColumn>>) -> BTreeSet<Fk> {
    m.iter().flat_map(|(t, cs)| cs.values().filter_map(move |c| lit(c).map(|l| ((t.clone(), c.name().to_string()), l)))).collect()
}
/// An operation without the declaration order of its table's columns.
fn norm(op: &Operation) -> Operation {
    let f = |t: &ATable| {
        let mut t = t.clone();
        t.columns.sort_by(|a, b| a.name().cmp(b.name()));
        t
    };
    match op {
        Operation::AddTable(t) => Operation::AddTable(f(t)),
        Operation::AddTableIfNotExists(t) => Operation::AddTableIfNotExists(f(t)),
        Operation::AddTableConstraints(t) => Operation::AddTableConstraints(f(t)),
        Operation::RemoveTableConstraints(t) => Operation::RemoveTableConstraints(f(t)),
        o => o.clone(),
    }
}
fn check_pair(ctx: &Ctx, tag: &str, a: &Pre, b: &Pre) {
    ctx.exec();
    let bad = |k: &str, d: String| {
        ctx.violation(&format!("{tag} {k}"), format!("{k}: {d}\n  from: {:?}\n  to:   {:?}\n  ops:  {:?}", a.s, b.s, diff(&a.adb, &b.adb)))
    };
    let ops = match catch(|| diff(&a.adb, &b.adb)) {
        Ok(o) => o,
        Err(e) => return ctx.violation(&format!("{tag} panic"), format!("diff panics: {e}\n  from: {:?}\n  to: {:?}", a.s, b.s)),
    };
    ctx.valid();
    ctx.trans(ops.len() as u64);
    if ops.is_empty() != (a.s == b.s) {
        return bad("emptiness", format!("schemas {} but {} changes", if a.s == b.s { "equal" } else { "differ" }, ops.len()));
    }
    if !ops.is_empty() {
        ctx.nontriv();
    }
    let mut db = Db { t: a.m.clone(), fks: a.fks.clone() };
    for (i, op) in ops.iter().enumerate() {
        if let Err(e) = db.step(op) {
            return bad("not executable", format!("step {i} {op:?}: {e}"));
        }
    }
    if !same(&db.t, &b.m) {
        return bad("wrong result", format!("executing gives {:?}", db.t));
    }
    if db.fks != b.fks {
        return bad("wrong references", format!("executing gives references {:?}", db.fks));
    }
    let mut t = a.adb.clone();
    for op in &ops {
        t.transform_with(op.clone());
    }
    match meaning(&t) {
        Ok(m) if same(&m, &b.m) => {}
        x => return bad("transform", format!("transform_with gives {x:?}")),
    }
    let want: Vec<Operation> = ops.iter().map(norm).collect();
    for (k, x, y) in [("declaration order", &a.rev, &b.rev), ("declaration order of the first", &a.rev, &b.adb), ("legacy types", &a.legacy, &b.adb), ("stored form", &a.json, &b.adb), ("stored form", &a.adb, &b.json)] {
        let o: Vec<Operation> = diff(x, y).iter().map(norm).collect();
        if o != want {
            return bad(k, format!("gives {o:?}"));
        }
    }
}
struct Pre {
    s: Schema,
    adb: ADB,
    rev: ADB,
    legacy: ADB,
    json: ADB,
    m: BTreeMap<String, BTreeMap<String, AColumn>>,
    fks: BTreeSet<Fk>,
}
fn pre(s: Schema) -> Pre {
    let a = adb(&s, false, false);
    let m = meaning(&a).expect("ENGINE: bad schema");
    let json = serde_json::from_str(&serde_json::to_string(&a).expect("ENGINE: serialise")).expect("ENGINE: deserialise");
    Pre { rev: adb(&s, true, false), legacy: adb(&s, false, true), fks: fks_of(&m), json, m, adb: a, s }
}
/// One table, all attributes of a column, the key's shape and a second column.
pub fn attrs(table: &'static str, types: &[u8], defaults: &[Option<i32>]) -> Vec<Schema> {
    let mut xs: Vec<Option<C>> = vec![None];
    for t in types {
        for nullable in [false, true] {
            for unique in [false, true] {
                for default in defaults.iter().copied() {
                    xs.push(Some(C { nullable, unique, default, ..col("x", *t) }));
                }
            }
        }
    }
    let mut out = vec![Schema::new()];
    for pk in [C { pk: true, auto: true, ..col("id", 0) }, C { pk: true, ..col("id", 0) }, C { pk: true, auto: true, ..col("id", 1) }, C { pk: true, ..col("k", 2) }] {
        for x in &xs {
            for y in [None, Some(C { nullable: true, ..col("y", 2) }), Some(col("a", 0))] {
                out.push(Schema::from([(table, [Some(pk.clone()), x.clone(), y].into_iter().flatten().collect())]));
            }
        }
    }
    out
}
/// Every reference graph between the tables A, B, C (keys id Int or k Text), one reference per table
/// (two for B when `two`), optional or not.
pub fn graphs(names: &[&'static str], two: bool) -> Vec<Schema> {
    // shape per table: 0 absent, 1 key id, 2 key k
    let mut out = Vec::new();
    let n = names.len();
    for sh in 0..3usize.pow(n as u32) {
        let shape: Vec<usize> = (0..n).map(|i| sh / 3usize.pow(i as u32) % 3).collect();
        let key = |i: usize| if shape[i] == 1 { C { pk: true, auto: true, ..col("id", 0) } } else { C { pk: true, ..col("k", 2) } };
        let mut parts: Vec<Vec<Vec<C>>> = Vec::new(); // per table: column lists
        for i in 0..n {
            if shape[i] == 0 {
                parts.push(vec![]);
                continue;
            }
            let refs = |name: &'static str| {
                let mut v: Vec<Option<C>> = vec![None];
                for j in 0..n {
                    if shape[j] != 0 {
                        let k = key(j);
                        for nullable in [false, true] {
                            v.push(Some(C { nullable, r: Some((names[j], k.name)), ..col(name, k.ty) }));
                        }
                    }
                }
                v
            };
            let mut opts = Vec::new();
            for r in refs("r") {
                let seconds = if two && i == 1 { refs("a") } else { vec![None] };
                for s in seconds {
                    opts.push([Some(key(i)), r.clone(), s].into_iter().flatten().collect());
                }
            }
            parts.push(opts);
        }
        let mut acc: Vec<Schema> = vec![Schema::new()];
        for i in 0..n {
            if shape[i] == 0 {
                continue;
            }
            acc = acc.iter().flat_map(|s| parts[i].iter().map(move |cs| { let mut s = s.clone(); s.insert(names[i], cs.clone()); s })).collect();
        }
        out.extend(acc);
    }
    out
}
fn all_pairs(ctx: &Ctx, tag: &str, u: Vec<Schema>) {
    ctx.bound(tag, u.len() as u64);
    let u: Vec<Pre> = u.into_iter().map(pre).collect();
    for p in &u {
        ctx.state(hash64(&p.s));
    }
    ctx.sample(format!("{tag}: {:?} -> {:?}", u[u.len() / 3].s, u[u.len() / 2].s));
    par(ctx, u.len(), |_| (), |_, i| {
        for b in &u {
            if ctx.stop() {
                return;
            }
            check_pair(ctx, tag, &u[i], b);
        }
    });
}
pub fn run(ctx: &Ctx) {
    ctx.assume("references point at primary keys, as model definitions produce them; the change list is judged with deferred table constraints (constraints of a new table are added by the later AddTableConstraints step)");
    let thorough = ctx.thorough;
    all_pairs(ctx, "column attributes", attrs("T", if thorough { &[0, 1, 2, 3, 4] } else { &[0, 1, 2] }, &[None, Some(0), Some(7)]));
    all_pairs(ctx, "reference graphs AB", graphs(&["A", "B"], true));
    // names one of which begins with another or differs from another by case
    all_pairs(ctx, "reference graphs Bb B bB", graphs(&["Bb", "B", "bB"], thorough));
    if thorough {
        all_pairs(ctx, "reference graphs ABC", graphs(&["A", "B", "C"], false));
    }
    all_pairs(ctx, "names", graphs(&["a_x_Many", "B"], true));
    all_pairs(ctx, "case names", graphs(&["t", "T"], false));
}
