//! Reference semantics: a database is a set of named tables of values, an expression is evaluated on a
//! row in SQL's three-valued logic, exactly as the expression tree says.
use butane_core::query::{BoolExpr, Expr, Join};
use butane_core::SqlVal;
use std::cmp::Ordering;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct RTable {
    pub cols: Vec<&'static str>,
    pub rows: Vec<Vec<SqlVal>>,
}
#[derive(Clone, Debug, Default)]
pub struct RDb {
    pub t: BTreeMap<String, RTable>,
}
/// A row in scope: columns are looked up in the innermost tables first.
pub struct Scope<'a> {
    tabs: Vec<(&'a str, &'a RTable, &'a [SqlVal])>,
}
impl<'a> Scope<'a> {
    fn get(&self, col: &str) -> &'a SqlVal {
        let mut hit = None;
        for (_, t, r) in &self.tabs {
            if let Some(i) = t.cols.iter().position(|c| *c == col) {
                assert!(hit.is_none(), "ENGINE: ambiguous column {col}");
                hit = Some(&r[i]);
            }
        }
        hit.unwrap_or_else(|| panic!("ENGINE: no column {col}"))
    }
    fn qual(&self, tbl: Option<&str>, col: &str) -> &'a SqlVal {
        match tbl {
            None => self.get(col),
            Some(t) => {
                let (_, tt, r) = self.tabs.iter().find(|(n, _, _)| *n == t).unwrap_or_else(|| panic!("ENGINE: no table {t}"));
                &r[tt.cols.iter().position(|c| *c == col).unwrap()]
            }
        }
    }
}
type B3 = Option<bool>;
fn not3(a: B3) -> B3 {
    a.map(|x| !x)
}
fn and3(a: B3, b: B3) -> B3 {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}
fn or3(a: B3, b: B3) -> B3 {
    not3(and3(not3(a), not3(b)))
}
/// Numeric / text / bool comparison; None when either side is null.
pub fn cmp(a: &SqlVal, b: &SqlVal) -> Option<Ordering> {
    use SqlVal::*;
    let int = |v: &SqlVal| match v {
        Int(i) => Some(*i as i64),
        BigInt(i) => Some(*i),
        _ => None,
    };
    Some(match (a, b) {
        (Null, _) | (_, Null) => return None,
        (Bool(x), Bool(y)) => x.cmp(y),
        (Text(x), Text(y)) => x.cmp(y),
        (Real(x), Real(y)) => x.partial_cmp(y)?,
        (Blob(x), Blob(y)) => x.cmp(y),
        (Date(x), Date(y)) => x.cmp(y),
        (Timestamp(x), Timestamp(y)) => x.cmp(y),
        _ => match (int(a), int(b)) {
            (Some(x), Some(y)) => x.cmp(&y),
            _ => panic!("ENGINE: comparison of {a:?} and {b:?}"),
        },
    })
}
/// SQL LIKE on lower-case ASCII, `%` and `_`.
pub fn like(s: &[u8], p: &[u8]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(b'%') => (0..=s.len()).any(|i| like(&s[i..], &p[1..])),
        Some(b'_') => !s.is_empty() && like(&s[1..], &p[1..]),
        Some(c) => s.first() == Some(c) && like(&s[1..], &p[1..]),
    }
}
impl RDb {
    pub fn table(&self, t: &str) -> &RTable {
        self.t.get(t).unwrap_or_else(|| panic!("ENGINE: no table {t}"))
    }
    fn in3<'a>(v: &SqlVal, set: impl Iterator<Item = &'a SqlVal>) -> B3 {
        let mut r = Some(false);
        for s in set {
            r = or3(r, cmp(v, s).map(|o| o == Ordering::Equal));
        }
        r
    }
    pub fn eval(&self, e: &BoolExpr, sc: &Scope) -> B3 {
        use BoolExpr::*;
        let val = |x: &Expr| -> SqlVal {
            match x {
                Expr::Val(v) => v.clone(),
                Expr::Column(c) => sc.get(c).clone(),
                Expr::Condition(c) => self.eval(c, sc).map(SqlVal::Bool).unwrap_or(SqlVal::Null),
                Expr::Placeholder => panic!("ENGINE: placeholder"),
            }
        };
        let c = |col: &str, x: &Expr, f: fn(Ordering) -> bool| cmp(sc.get(col), &val(x)).map(f);
        match e {
            True => Some(true),
            // Comparison with an absent value given as such is a null test.
            Eq(col, Expr::Val(SqlVal::Null)) => Some(*sc.get(col) == SqlVal::Null),
            Ne(col, Expr::Val(SqlVal::Null)) => Some(*sc.get(col) != SqlVal::Null),
            Eq(col, x) => c(col, x, |o| o == Ordering::Equal),
            Ne(col, x) => c(col, x, |o| o != Ordering::Equal),
            Lt(col, x) => c(col, x, |o| o == Ordering::Less),
            Gt(col, x) => c(col, x, |o| o == Ordering::Greater),
            Le(col, x) => c(col, x, |o| o != Ordering::Greater),
            Ge(col, x) => c(col, x, |o| o != Ordering::Less),
            Like(col, x) => match (sc.get(col), val(x)) {
                (SqlVal::Text(s), SqlVal::Text(p)) => Some(like(s.as_bytes(), p.as_bytes())),
                (SqlVal::Null, _) | (_, SqlVal::Null) => None,
                x => panic!("ENGINE: like {x:?}"),
            },
            AllOf(v) => v.iter().fold(Some(true), |a, x| and3(a, self.eval(x, sc))),
            And(a, b) => and3(self.eval(a, sc), self.eval(b, sc)),
            Or(a, b) => or3(self.eval(a, sc), self.eval(b, sc)),
            Not(a) => not3(self.eval(a, sc)),
            In(col, vs) => Self::in3(sc.get(col), vs.iter()),
            Subquery { col, tbl2, tbl2_col, expr } => {
                let t = self.table(tbl2);
                let i = t.cols.iter().position(|c| c == tbl2_col).unwrap();
                let set: Vec<&SqlVal> = t.rows.iter()
                    .filter(|r| self.eval(expr, &Scope { tabs: vec![(tbl2, t, r)] }) == Some(true))
                    .map(|r| &r[i]).collect();
                Self::in3(sc.get(col), set.into_iter())
            }
            SubqueryJoin { col, tbl2, col2, joins, expr } => {
                let t = self.table(tbl2);
                let mut scopes: Vec<Scope> = t.rows.iter().map(|r| Scope { tabs: vec![(&**tbl2, t, r.as_slice())] }).collect();
                for Join::Inner { join_table, col1, col2 } in joins {
                    let jt = self.table(join_table);
                    let mut next = vec![];
                    for s in &scopes {
                        for r in &jt.rows {
                            let mut tabs = s.tabs.clone();
                            tabs.push((join_table, jt, r.as_slice()));
                            let s2 = Scope { tabs };
                            if cmp(s2.qual(col1.table(), col1.name()), s2.qual(col2.table(), col2.name())) == Some(Ordering::Equal) {
                                next.push(s2);
                            }
                        }
                    }
                    scopes = next;
                }
                let set: Vec<&SqlVal> = scopes.iter().filter(|s| self.eval(expr, s) == Some(true))
                    .map(|s| s.qual(col2.table(), col2.name())).collect();
                Self::in3(sc.get(col), set.into_iter())
            }
        }
    }
    /// Indices of the rows of `t` for which `e` is true.
    pub fn select(&self, t: &str, e: &BoolExpr) -> Vec<usize> {
        let tab = self.table(t);
        (0..tab.rows.len()).filter(|i| self.eval(e, &Scope { tabs: vec![(t, tab, &tab.rows[*i])] }) == Some(true)).collect()
    }
    /// INSERT statements filling a real database of this content.
    pub fn inserts(&self, order: &[&str]) -> Vec<String> {
        let mut out = vec![];
        for t in order {
            let tab = self.table(t);
            for r in &tab.rows {
                let vals: Vec<String> = r.iter().map(lit).collect();
                out.push(format!("INSERT INTO {t} ({}) VALUES ({})", tab.cols.join(","), vals.join(",")));
            }
        }
        out
    }
}
pub fn lit(v: &SqlVal) -> String {
    match v {
        SqlVal::Null => "NULL".into(),
        SqlVal::Bool(b) => if *b { "TRUE".into() } else { "FALSE".into() },
        SqlVal::Int(i) => i.to_string(),
        SqlVal::BigInt(i) => i.to_string(),
        SqlVal::Real(r) => format!("{r:?}"),
        SqlVal::Text(s) => format!("'{}'", s.replace('\'', "''")),
        x => panic!("ENGINE: literal {x:?}"),
    }
}
