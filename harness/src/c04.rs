//! C04: every value of every supported field type survives storage unchanged.
use crate::backends::*;
use crate::engine::*;
use crate::values::*;
use butane::db::{ConnectionMethods, ConnectionMethodsAsync};
use butane::query::{BoolExpr, Expr, QueryOpsAsync, QueryOpsSync};
use butane::{DataObjectOpsAsync, DataObjectOpsSync, ToSql};
use chrono::{DateTime, NaiveDate, NaiveDateTime, NaiveTime, Utc};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use uuid::Uuid;

pub const RULE: &str = "for every supported field type and key type and every value of the stated sets (all 8-bit integers; in the thorough tier all 16-bit ones; the powers of two and their neighbours for the wider ones; every float exponent with the stated mantissas; every string and byte string up to the stated length over the stated alphabets; every combination of the stated years, days, seconds and fractions; every JSON tree of the stated grammar), through every interface of every backend: the value is stored by insert and by update as required and as optional column and as key, read back, looked up by equality among all the other values of its set, and deleted by key; numbers that fit and do not fit each integer type are planted in the database directly and read; states = (type, value) pairs, transitions = store/read/lookup comparisons, non-trivial = values stored and compared";

type Fails = Vec<(String, String, String)>; // value, kind, detail
type Eqf<T> = fn(&T, &T) -> bool;

#[maybe_async_cfg::maybe(idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), DataObjectOps, QueryOps), sync(), async())]
async fn values<M: VModel>(c: &impl ConnectionMethods, vals: Vec<M::T>, eq: Eqf<M::T>) -> Result<(usize, Fails), String>
where
    M: butane::DataResult<DBO = M>,
{
    let mut bad: Fails = Vec::new();
    let err = crate::c09::estr;
    QueryOps::delete(M::query(), c).await.map_err(|e| format!("ENGINE: clear: {}", err(e)))?;
    let mut ok: Vec<usize> = Vec::new();
    for (i, v) in vals.iter().enumerate() {
        let id = i as i64;
        match DataObjectOps::save(&mut M::make(id, v.clone(), Some(v.clone())), c).await {
            Ok(()) => ok.push(i),
            Err(_) => {
                let n = QueryOps::load(M::query().filter(BoolExpr::Eq("id", Expr::Val(id.to_sql()))), c).await.map(|r| r.len()).unwrap_or(99);
                if n != 0 {
                    bad.push((format!("{v:?}"), "refused but stored".into(), String::new()));
                }
            }
        }
    }
    for (i, v) in vals.iter().enumerate() {
        if !ok.contains(&i) {
            continue;
        }
        let id = i as i64;
        let mut put = |k: &str, d: String| bad.push((format!("{v:?}"), k.to_string(), d));
        match <M as DataObjectOps<M>>::get(c, id).await {
            Err(e) => put("stored but not readable", err(e)),
            Ok(m) if !eq(m.v(), v) => put("altered", format!("read as {:?}", m.v())),
            Ok(m) if !m.o().as_ref().is_some_and(|o| eq(o, v)) => put("optional altered", format!("read as {:?}", m.o())),
            Ok(mut m) => {
                // replace by the next value, then by nothing, then by this one again
                let other = vals[ok[(i + 1) % ok.len()]].clone();
                m.set(other.clone(), None);
                let r1 = DataObjectOps::save(&mut m, c).await.map_err(err);
                let got = <M as DataObjectOps<M>>::get(c, id).await.map_err(err);
                match (&r1, &got) {
                    (Ok(()), Ok(g)) if eq(g.v(), &other) && g.o().is_none() => {}
                    (Ok(()), Ok(g)) => put("next value altered by update", format!("{other:?} and none read as {:?} {:?}", g.v(), g.o())),
                    (r, g) => put("update fails", format!("{r:?} {:?}", g.as_ref().err())),
                }
                m.set(v.clone(), Some(v.clone()));
                let r1 = DataObjectOps::save(&mut m, c).await.map_err(err);
                match (&r1, <M as DataObjectOps<M>>::get(c, id).await.map_err(err)) {
                    (Ok(()), Ok(g)) if eq(g.v(), v) && g.o().as_ref().is_some_and(|o| eq(o, v)) => {}
                    (Ok(()), Ok(g)) => put("altered by update", format!("read as {:?} {:?}", g.v(), g.o())),
                    (r, g) => put("update fails", format!("{r:?} {:?}", g.err())),
                }
            }
        }
    }
    for i in &ok {
        let v = &vals[*i];
        let want: BTreeSet<i64> = ok.iter().filter(|j| eq(&vals[**j], v)).map(|j| *j as i64).collect();
        for col in ["v", "o"] {
            let q = M::query().filter(BoolExpr::Eq(col, Expr::Val(v.to_sql())));
            match QueryOps::load(q, c).await {
                Err(e) => bad.push((format!("{v:?}"), format!("lookup in {col} fails"), err(e))),
                Ok(rows) => {
                    let got: BTreeSet<i64> = rows.iter().map(|m| *m.pk()).collect();
                    if got != want {
                        let d: Vec<&M::T> = got.symmetric_difference(&want).map(|i| &vals[*i as usize]).collect();
                        bad.push((format!("{v:?}"), format!("lookup in {col}"), format!("finds {} rows instead of {}; differing on {d:?}", got.len(), want.len())));
                    }
                }
            }
        }
    }
    Ok((ok.len(), bad))
}
#[maybe_async_cfg::maybe(idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), DataObjectOps, QueryOps), sync(), async())]
async fn keys<M: KModel>(c: &impl ConnectionMethods, vals: Vec<M::K>, eq: Eqf<M::K>) -> Result<(usize, Fails), String>
where
    M: butane::DataResult<DBO = M>,
{
    let mut bad: Fails = Vec::new();
    let err = crate::c09::estr;
    QueryOps::delete(M::query(), c).await.map_err(|e| format!("ENGINE: clear: {}", err(e)))?;
    let mut ok: Vec<usize> = Vec::new();
    for (i, k) in vals.iter().enumerate() {
        if DataObjectOps::save(&mut M::make(k.clone(), i as i32), c).await.is_ok() {
            // a key equal to an earlier one replaces it
            ok.retain(|j| !eq(&vals[*j], k));
            ok.push(i);
        }
    }
    let count = QueryOps::load(M::query(), c).await.map(|r| r.len()).map_err(|e| format!("load: {}", err(e)));
    if count != Ok(ok.len()) {
        bad.push(("all".into(), "number of rows".into(), format!("{count:?} instead of {}", ok.len())));
    }
    for i in &ok {
        let k = &vals[*i];
        let mut put = |w: &str, d: String| bad.push((format!("{k:?}"), w.to_string(), d));
        match <M as DataObjectOps<M>>::get(c, k.clone()).await {
            Err(e) => put("stored but not found by key", err(e)),
            Ok(mut m) => {
                if !eq(m.pk(), k) || m.n() != *i as i32 {
                    put("key altered", format!("read as {:?} {}", m.pk(), m.n()));
                }
                m.set(1000 + *i as i32);
                if let Err(e) = DataObjectOps::save(&mut m, c).await {
                    put("update by key fails", err(e));
                }
            }
        }
    }
    let mut left = ok.clone();
    for i in &ok {
        let k = &vals[*i];
        match <M as DataObjectOps<M>>::get(c, k.clone()).await {
            Ok(m) if m.n() == 1000 + *i as i32 => {
                left.retain(|j| j != i);
                let r = DataObjectOps::delete(&m, c).await.map_err(err);
                let n = QueryOps::load(M::query(), c).await.map(|r| r.len()).map_err(err);
                if r.is_err() || n != Ok(left.len()) {
                    bad.push((format!("{k:?}"), "delete by key".into(), format!("{r:?}, {n:?} rows left instead of {}", left.len())));
                }
            }
            Ok(m) => bad.push((format!("{k:?}"), "update by key".into(), format!("reads {}", m.n()))),
            Err(e) => bad.push((format!("{k:?}"), "not found after update".into(), err(e))),
        }
    }
    Ok((ok.len(), bad))
}
#[maybe_async_cfg::maybe(idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), DataObjectOps, QueryOps), sync(), async())]
async fn read_one<M: VModel>(c: &impl ConnectionMethods, literal: &'static str) -> Result<Result<M::T, String>, String>
where
    M: butane::DataResult<DBO = M>,
{
    QueryOps::delete(M::query(), c).await.map_err(|e| format!("ENGINE: clear: {}", crate::c09::estr(e)))?;
    if let Err(e) = c.execute(&format!("INSERT INTO {} (id, v, o) VALUES (1, {literal}, {literal})", M::TABLE)).await {
        return Err(crate::c09::estr(e));
    }
    Ok(<M as DataObjectOps<M>>::get(c, 1).await.map(|m| m.v().clone()).map_err(crate::c09::estr))
}

// ---- the value sets -------------------------------------------------------------------------------
fn ints(lo: i128, hi: i128, all: bool) -> Vec<i64> {
    let mut s: BTreeSet<i64> = BTreeSet::new();
    if all {
        s.extend((lo..=hi).map(|x| x as i64));
    }
    for p in 0..64 {
        for d in [-1i128, 0, 1] {
            for sg in [-1i128, 1] {
                let x = sg * (1i128 << p) + d;
                if x >= lo && x <= hi {
                    s.insert(x as i64);
                }
            }
        }
    }
    s.insert(lo as i64);
    s.insert(hi as i64);
    s.into_iter().collect()
}
fn f64s(step: usize) -> Vec<f64> {
    let mut v = vec![0.0, 0.1, 0.1 + 0.2, 1.0 / 3.0, 9007199254740993.0, 123456789.125, f64::EPSILON, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NAN, 9.2233720368547758e18, 1e16, 1e21];
    for e in (1..2047u64).step_by(step) {
        for m in [0u64, 1, 0x8_0000_0000_0000, 0xf_ffff_ffff_ffff] {
            v.push(f64::from_bits(e << 52 | m));
        }
    }
    let neg: Vec<f64> = v.iter().map(|x| -x).collect();
    v.extend(neg);
    v
}
fn f32s(step: usize) -> Vec<f32> {
    let mut v = vec![0.0, 0.1, 0.1 + 0.2, 1.0 / 3.0, 16777217.0, f32::EPSILON, f32::MAX, f32::MIN_POSITIVE, 1e-45, f32::INFINITY, f32::NAN];
    for e in (1..255u32).step_by(step) {
        for m in [0u32, 1, 0x40_0000, 0x7f_ffff] {
            v.push(f32::from_bits(e << 23 | m));
        }
    }
    let neg: Vec<f32> = v.iter().map(|x| -x).collect();
    v.extend(neg);
    v
}
fn words<T: Clone>(alpha: &[T], len: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..len {
        last = last.iter().flat_map(|w| alpha.iter().map(move |a| { let mut w = w.clone(); w.push(a.clone()); w })).collect();
        out.extend(last.clone());
    }
    out
}
fn strings(len: usize) -> Vec<String> {
    let alpha = ["a", "A", "'", "\"", "\\", "%", "_", " ", "\n", "\t", "é", "e\u{301}", "😀", "\0", "$1", "?", "?1", "{", "0", "NULL", "\u{feff}", "ß", "--"];
    let mut v: Vec<String> = words(&alpha, len).into_iter().map(|w| w.concat()).collect();
    v.extend(["1e5", "1.0", "007", "0x10", "true", "inf", "2020-01-01", "a  ", "  a", "İ"].map(String::from));
    v.push("x'y\"z".repeat(50_000));
    v.sort();
    v.dedup();
    v
}
fn blobs(len: usize) -> Vec<Vec<u8>> {
    let mut v = words(&[0u8, 1, 0x27, 0x5c, 0x78, 0x7f, 0x80, 0xc3, 0xff], len);
    v.push((0..=255).collect());
    v.push(vec![0xfe; 300_000]);
    v
}
fn dates() -> Vec<NaiveDate> {
    let mut v = Vec::new();
    for y in [-262143, -10000, -9999, -4800, -4713, -1, 0, 1, 99, 1582, 1899, 1900, 1969, 1970, 1999, 2000, 2024, 2038, 9999, 10000, 99999, 262142] {
        for (m, d) in [(1, 1), (2, 28), (2, 29), (3, 1), (12, 31), (10, 10)] {
            v.extend(NaiveDate::from_ymd_opt(y, m, d));
        }
    }
    v
}
fn times(sub: bool) -> Vec<NaiveDateTime> {
    let mut v = Vec::new();
    let nanos: &[u32] = if sub { &[1, 999, 123_456_789, 999_999_999, 1_000_000_000, 1_500_000_000] } else { &[0, 1_000, 100_000_000, 123_456_000, 999_999_000, 120_000] };
    for d in [-262143, -4800, -1, 0, 1, 1582, 1969, 1970, 1999, 2000, 2038, 9999, 10000, 262142] {
        for (m, day) in [(1, 1), (2, 28), (12, 31)] {
            for s in [0, 1, 43_200, 86_399] {
                for n in nanos {
                    let (Some(date), Some(t)) = (NaiveDate::from_ymd_opt(d, m, day), NaiveTime::from_num_seconds_from_midnight_opt(s, *n)) else { continue };
                    v.push(date.and_time(t));
                }
            }
        }
    }
    v
}
fn jsons(deep: bool) -> Vec<Value> {
    let mut atoms = vec![json!(null), json!(true), json!(false), json!(0), json!(-1), json!(9223372036854775807i64), json!(-9223372036854775808i64), json!(18446744073709551615u64), json!(0.1), json!(0.1 + 0.2), json!(1.0), json!(-0.5), json!(1e22), json!(5e-324), json!(1e16), json!(""), json!("a'b\"c\\"), json!("é😀\n\u{1}"), json!("\u{0}"), json!("null"), json!("1")];
    atoms.extend([2.2250738585072014e-308, 123456.789e3, 4.35, 2.675, 1.005, 8.41e21, 9.5e-7, 1e-7].map(|f| json!(f)));
    let mut v = atoms.clone();
    v.push(json!([]));
    v.push(json!({}));
    for a in &atoms {
        v.push(json!([a]));
        v.push(json!({"": a}));
        v.push(json!({"k'\"": a, "b": [a, {"c": a}]}));
        if deep {
            for b in &atoms {
                v.push(json!([a, b]));
                v.push(json!({"b": a, "a": b}));
            }
        }
    }
    v
}
fn same<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}
fn feq64(a: &f64, b: &f64) -> bool {
    a == b || a.is_nan() && b.is_nan()
}
fn feq32(a: &f32, b: &f32) -> bool {
    a == b || a.is_nan() && b.is_nan()
}
/// The same JSON value: numbers are compared as numbers.
fn jeq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            x == y || (x.is_f64() || y.is_f64()) && x.as_f64() == y.as_f64()
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| jeq(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| jeq(v, w))),
        _ => a == b,
    }
}
// ---- driving --------------------------------------------------------------------------------------
struct W {
    db: Option<Db>,
    any: Option<(Cfg, Any)>,
}
type Job = Box<dyn Fn(&Ctx, &mut W) + Sync + Send>;

fn conn<'a>(w: &'a mut W, cfg: Cfg, tables: &[&str]) -> &'a mut Any {
    if cfg.be() == Be::Pg {
        if w.db.is_none() {
            let db = Db::new(Be::Pg, false);
            let raw = PgRaw::open(&db.conn_str);
            let all: Vec<String> = recorded().tables().map(|t| t.name.clone()).filter(|n| is_value_table(n)).collect();
            let all: Vec<&str> = all.iter().map(|s| s.as_str()).collect();
            raw.q(&ddl(Be::Pg, &schema(&all))).expect("ENGINE: ddl");
            w.db = Some(db);
        }
        let s = w.db.as_ref().unwrap().conn_str.clone();
        if w.any.as_ref().is_none_or(|(c, _)| *c != cfg) {
            w.any = None;
            w.any = Some((cfg, open(cfg, &s).expect("ENGINE: open")));
        }
    } else {
        w.any = None;
        let any = open(cfg, ":memory:").expect("ENGINE: open");
        any.execute(&ddl(cfg.be(), &schema(tables))).expect("ENGINE: ddl");
        w.any = Some((cfg, any));
    }
    &mut w.any.as_mut().unwrap().1
}
fn is_value_table(n: &str) -> bool {
    let mut c = n.chars();
    matches!(c.next(), Some('V' | 'P')) && c.next().is_some_and(|c| c.is_uppercase())
}
fn short(v: &str) -> String {
    let v: String = v.chars().take(60).collect();
    v
}
fn report(ctx: &Ctx, be: Be, cfg: Cfg, table: &str, class: &str, n: usize, r: Result<Result<(usize, Fails), String>, String>) {
    match r {
        Ok(Ok((ok, bad))) => {
            for _ in 0..n {
                ctx.exec();
                ctx.valid();
            }
            for _ in 0..ok {
                ctx.nontriv();
            }
            ctx.trans(5 * ok as u64);
            ctx.outcome(format!("{be:?} {table}: {}", if ok == n { "all stored" } else if ok == 0 { "all refused" } else { "some refused" }));
            for (v, k, d) in bad {
                let (v, d) = (short(&v), d.chars().take(400).collect::<String>());
                let key = if class.is_empty() { format!("{be:?} {table} {v} {k}") } else { format!("{be:?} {class}") };
                ctx.violation(&key, format!("{table} {v}: {k}: {d}\ninterface {cfg:?}"));
            }
        }
        Ok(Err(e)) | Err(e) => ctx.violation(&format!("{be:?} {table} {class} fails"), format!("{e}\ninterface {cfg:?}, {n} values")),
    }
}
/// A job storing `vals` in chunks.  `class` names a set of values with a finding of its own.
fn vjobs<M: VModel>(out: &mut Vec<Job>, cfg: Cfg, vals: Vec<M::T>, eq: Eqf<M::T>, class: &'static str)
where
    M: butane::DataResult<DBO = M>,
{
    for ch in vals.chunks(150) {
        let ch = ch.to_vec();
        out.push(Box::new(move |ctx, w| {
            let r = catch(|| {
                let any = conn(w, cfg, &[M::TABLE]);
                match any {
                    Any::S(c) => values_sync::<M>(c, ch.clone(), eq),
                    Any::A(c) => RT.block_on(values_async::<M>(c, ch.clone(), eq)),
                }
            });
            if r.is_err() {
                w.any = None;
            }
            for v in &ch {
                ctx.state(hash64(&(M::TABLE, format!("{v:?}"))));
            }
            report(ctx, cfg.be(), cfg, M::TABLE, class, ch.len(), r);
        }));
    }
}
fn kjobs<M: KModel>(out: &mut Vec<Job>, cfg: Cfg, vals: Vec<M::K>, eq: Eqf<M::K>, class: &'static str)
where
    M: butane::DataResult<DBO = M>,
{
    for ch in vals.chunks(100) {
        let ch = ch.to_vec();
        out.push(Box::new(move |ctx, w| {
            let r = catch(|| {
                let any = conn(w, cfg, &[M::TABLE]);
                match any {
                    Any::S(c) => keys_sync::<M>(c, ch.clone(), eq),
                    Any::A(c) => RT.block_on(keys_async::<M>(c, ch.clone(), eq)),
                }
            });
            if r.is_err() {
                w.any = None;
            }
            report(ctx, cfg.be(), cfg, M::TABLE, class, ch.len(), r);
        }));
    }
}
const PLANTED: [&str; 23] = ["0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775807"];
fn planted<M: VModel>(out: &mut Vec<Job>, cfg: Cfg, fits: fn(i64) -> Option<M::T>)
where
    M: butane::DataResult<DBO = M>,
{
    out.push(Box::new(move |ctx, w| {
        for lit in PLANTED {
            ctx.exec();
            let n: i64 = lit.parse().unwrap();
            let r = catch(|| {
                let any = conn(w, cfg, &[M::TABLE]);
                match any {
                    Any::S(c) => read_one_sync::<M>(c, lit),
                    Any::A(c) => RT.block_on(read_one_async::<M>(c, lit)),
                }
            });
            let key = format!("{:?} {} reading a stored {lit}", cfg.be(), M::TABLE);
            match (r, fits(n)) {
                (Err(e), _) => {
                    w.any = None;
                    ctx.violation(&key, format!("panic: {e}\ninterface {cfg:?}"))
                }
                (Ok(Err(_)), _) => {} // the database itself refuses to store it
                (Ok(Ok(Ok(v))), Some(x)) if v == x => ctx.nontriv(),
                (Ok(Ok(Err(_))), None) => ctx.nontriv(),
                (Ok(Ok(x)), f) => ctx.violation(&key, format!("gives {x:?} instead of {f:?}\ninterface {cfg:?}")),
            }
            ctx.valid();
            ctx.trans(1);
        }
    }));
}
pub fn run(ctx: &Ctx) {
    ctx.assume("values are compared with the type's own equality, except that NaN is the same as NaN; numbers inside JSON are compared as numbers; the values of JSON maps and derived JSON types are themselves representable in JSON");
    ctx.assume("a backend may refuse a value with an error (zero bytes in PostgreSQL text, NaN in sqlite)");
    let t = ctx.thorough;
    let mut jobs: Vec<Job> = Vec::new();
    for cfg in ALL {
        let be = cfg.be();
        let main = matches!(cfg, Cfg::SqSync | Cfg::PgAsync | Cfg::TuAsync);
        let deep = t && main;
        let o = &mut jobs;
        macro_rules! num {
            ($v:ident, $p:ident, $t:ty, $all:expr) => {{
                let vals: Vec<$t> = ints(<$t>::MIN as i128, <$t>::MAX as i128, $all).into_iter().map(|x| x as $t).collect();
                vjobs::<$v>(o, cfg, vals.clone(), same, "");
                kjobs::<$p>(o, cfg, vals, same, "");
                planted::<$v>(o, cfg, |n| n.try_into().ok());
            }};
        }
        vjobs::<VBool>(o, cfg, vec![true, false], same, "");
        kjobs::<PBool>(o, cfg, vec![true, false], same, "");
        let small = main && be != Be::Pg || t;
        num!(VI8, PI8, i8, small);
        num!(VU8, PU8, u8, small);
        num!(VI16, PI16, i16, deep && be != Be::Pg);
        num!(VU16, PU16, u16, deep && be != Be::Pg);
        num!(VI32, PI32, i32, false);
        num!(VU32, PU32, u32, false);
        num!(VI64, PI64, i64, false);
        planted::<VNewI>(o, cfg, |n| n.try_into().ok().map(NewInt));
        let st = if deep { 1 } else if main { 64 } else { 200 };
        vjobs::<VF64>(o, cfg, f64s(st), feq64, "");
        kjobs::<PF64>(o, cfg, f64s(200), feq64, "");
        vjobs::<VF32>(o, cfg, f32s(if deep { 1 } else { 40 }), feq32, "");
        kjobs::<PF32>(o, cfg, f32s(60), feq32, "");
        let len = if main { 2 } else { 1 };
        vjobs::<VStr>(o, cfg, strings(len), same, "");
        kjobs::<PStr>(o, cfg, strings(1), same, "");
        vjobs::<VNewS>(o, cfg, strings(1).into_iter().map(NewText).collect(), same, "");
        kjobs::<PNewS>(o, cfg, strings(1).into_iter().map(NewText).collect(), same, "");
        vjobs::<VNewI>(o, cfg, [i16::MIN, -1, 0, 1, i16::MAX].map(NewInt).to_vec(), same, "");
        kjobs::<PNewI>(o, cfg, [i16::MIN, -1, 0, 1, i16::MAX].map(NewInt).to_vec(), same, "");
        vjobs::<VBlob>(o, cfg, blobs(if deep { 3 } else { len }), same, "");
        kjobs::<PBlob>(o, cfg, blobs(1), same, "");
        let uu: Vec<Uuid> = (0..16).flat_map(|i| [0u8, 1, 0x27, 0x80, 0xff].map(|b| { let mut a = [0x41u8; 16]; a[i] = b; Uuid::from_bytes(a) })).chain([Uuid::nil(), Uuid::max()]).collect();
        vjobs::<VUuid>(o, cfg, uu.clone(), same, "");
        kjobs::<PUuid>(o, cfg, uu, same, "");
        vjobs::<VDate>(o, cfg, dates(), same, "");
        kjobs::<PDate>(o, cfg, dates(), same, "");
        let utc = |v: Vec<NaiveDateTime>| -> Vec<DateTime<Utc>> { v.into_iter().map(|x| x.and_utc()).collect() };
        for (sub, class) in [(false, ""), (true, "timestamp finer than a microsecond")] {
            vjobs::<VTs>(o, cfg, times(sub), same, if be == Be::Pg { class } else { "" });
            vjobs::<VUtc>(o, cfg, utc(times(sub)), same, if be == Be::Pg { class } else { "" });
            if main {
                kjobs::<PTs>(o, cfg, times(sub), same, if be == Be::Pg { class } else { "" });
                kjobs::<PUtc>(o, cfg, utc(times(sub)), same, if be == Be::Pg { class } else { "" });
            }
        }
        vjobs::<VJson>(o, cfg, jsons(deep), jeq, "");
        vjobs::<VJson>(o, cfg, vec![json!(f64::MAX), json!([f64::MIN]), json!(1.797693134862315e308), json!({"k": 1e300})], jeq, if be == Be::Pg { "JSON number above 1e300" } else { "" });
        kjobs::<PJson>(o, cfg, jsons(false), jeq, "");
        let hm: Vec<HashMap<String, i8>> = [vec![], vec![("", 0)], vec![("a'\"", -128), ("b", 127)], vec![("a", 1), ("A", 2), ("é😀", 3)]].into_iter().map(|v| v.into_iter().map(|(k, x)| (k.to_string(), x)).collect()).collect();
        vjobs::<VHMap>(o, cfg, hm, same, "");
        let bm: Vec<BTreeMap<String, String>> = strings(1).into_iter().filter(|s| s.len() < 100).map(|s| BTreeMap::from([(s.clone(), s.clone()), ("k".into(), s)])).collect();
        vjobs::<VBMap>(o, cfg, bm, same, "");
        vjobs::<VEnm>(o, cfg, vec![Shade::Light, Shade::light, Shade::r#type, Shade::Très], same, "");
        vjobs::<VJStr>(o, cfg, ints(i64::MIN as i128, i64::MAX as i128, false).into_iter().flat_map(|a| [JStruct { a, b: None, c: vec![] }, JStruct { a, b: Some("null".into()), c: vec![0, 255] }]).collect(), same, "");
        vjobs::<VJEnm>(o, cfg, vec![JEnum::Unit, JEnum::One(0), JEnum::One(-1), JEnum::Named { x: "".into(), y: None }, JEnum::Named { x: "Unit".into(), y: Some(0.1) }, JEnum::Named { x: "'".into(), y: Some(1e300) }], same, "");
        vjobs::<VCust>(o, cfg, vec![Custom('a'), Custom('A'), Custom('\''), Custom('\u{1f600}')], same, "");
    }
    ctx.bound("jobs", jobs.len() as u64);
    ctx.sample(format!("{} strings up to {} pieces, {} JSON trees, {} timestamps", strings(2).len(), 2, jsons(t).len(), times(false).len() + times(true).len()));
    par(ctx, jobs.len(), |_| W { db: None, any: None }, |w, i| jobs[i](ctx, w));
}
