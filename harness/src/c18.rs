//! C18: a model definition yields the table its fields declare.
use crate::engine::*;
use crate::gen;
use butane::migrations::adb::{ARef, ATable, DeferredSqlType, TypeIdentifier, TypeKey, ADB};
use butane::migrations::{MemMigrations, Migration, MigrationsMut};
use butane::SqlVal;
use std::str::FromStr;

pub const RULE: &str = "no definition is recorded as another table than its fields declare, or read and written through other columns; what cannot be represented is refused and not recorded";

// ---- the language of definitions --------------------------------------------------------------------
/// A spelling of a plain (not optional, not relational) type.
struct Ty {
    sp: &'static str,
    sql: &'static str,
    /// Two values: expression and sqlite's quote() of what is stored.
    vals: [(&'static str, &'static str); 2],
    key: bool,
}
const fn t(sp: &'static str, sql: &'static str, vals: [(&'static str, &'static str); 2], key: bool) -> Ty {
    Ty { sp, sql, vals, key }
}
const ANY: &str = "";
const TYPES: &[Ty] = &[
    t("bool", "Bool", [("true", "1"), ("false", "0")], true),
    t("u8", "Int", [("7", "7"), ("255", "255")], true),
    t("i8", "Int", [("-7", "-7"), ("127", "127")], true),
    t("u16", "Int", [("8", "8"), ("65535", "65535")], true),
    t("i16", "Int", [("-9", "-9"), ("32767", "32767")], true),
    t("i32", "Int", [("10", "10"), ("-2147483648", "-2147483648")], true),
    t("u32", "BigInt", [("11", "11"), ("4294967295", "4294967295")], true),
    t("i64", "BigInt", [("12", "12"), ("i64::MAX", "9223372036854775807")], true),
    t("f32", "Real", [("1.5", "1.5"), ("-0.25", "-0.25")], false),
    t("f64", "Real", [("2.5", "2.5"), ("-1000000.5", "-1000000.5")], false),
    t("String", "Text", [("\"a'b\".to_string()", "'a''b'"), ("String::new()", "''")], true),
    t("std::string::String", "Text", [("\"x\".to_string()", "'x'"), ("\"y\".to_string()", "'y'")], true),
    t("::std::string::String", "Text", [("\"x\".to_string()", "'x'"), ("\"y\".to_string()", "'y'")], true),
    t("Vec<u8>", "Blob", [("vec![1, 2]", "X'0102'"), ("vec![]", "X''")], true),
    t("std::vec::Vec<u8>", "Blob", [("vec![1]", "X'01'"), ("vec![255]", "X'FF'")], true),
    t("::std::vec::Vec<u8>", "Blob", [("vec![1]", "X'01'"), ("vec![255]", "X'FF'")], true),
    t("serde_json::Value", "Json", [("serde_json::json!({\"a\": [1]})", ANY), ("serde_json::json!(null)", ANY)], false),
    t("Value", "Json", [("serde_json::json!([true])", ANY), ("serde_json::json!({})", ANY)], false),
    t("Uuid", "Blob", [("Uuid::from_u128(1)", "X'00000000000000000000000000000001'"), ("Uuid::from_u128(2)", "X'00000000000000000000000000000002'")], true),
    t("uuid::Uuid", "Blob", [("Uuid::from_u128(3)", "X'00000000000000000000000000000003'"), ("Uuid::from_u128(4)", "X'00000000000000000000000000000004'")], true),
    t("NaiveDateTime", "Timestamp", [("dt(1)", ANY), ("dt(2)", ANY)], true),
    t("chrono::NaiveDateTime", "Timestamp", [("dt(1)", ANY), ("dt(2)", ANY)], true),
    t("chrono::naive::NaiveDateTime", "Timestamp", [("dt(1)", ANY), ("dt(2)", ANY)], true),
    t("DateTime<Utc>", "Timestamp", [("dt(1).and_utc()", ANY), ("dt(2).and_utc()", ANY)], true),
    t("chrono::DateTime<chrono::Utc>", "Timestamp", [("dt(1).and_utc()", ANY), ("dt(2).and_utc()", ANY)], true),
    t("chrono::DateTime<chrono::offset::Utc>", "Timestamp", [("dt(1).and_utc()", ANY), ("dt(2).and_utc()", ANY)], true),
    t("NaiveDate", "Date", [("dt(1).date()", ANY), ("dt(99999).date()", ANY)], true),
    t("chrono::NaiveDate", "Date", [("dt(1).date()", ANY), ("dt(99999).date()", ANY)], true),
    t("chrono::naive::NaiveDate", "Date", [("dt(1).date()", ANY), ("dt(99999).date()", ANY)], true),
    t("HashMap<String, i32>", "Json", [("HashMap::from([(\"k\".to_string(), 1)])", ANY), ("HashMap::new()", ANY)], false),
    t("std::collections::HashMap<String, String>", "Json", [("HashMap::from([(\"k\".to_string(), \"v\".to_string())])", ANY), ("HashMap::new()", ANY)], false),
    t("BTreeMap<String, Vec<u8>>", "Json", [("BTreeMap::from([(\"k\".to_string(), vec![1])])", ANY), ("BTreeMap::new()", ANY)], false),
    t("std::collections::BTreeMap<String, f64>", "Json", [("BTreeMap::from([(\"k\".to_string(), 0.5)])", ANY), ("BTreeMap::new()", ANY)], false),
    // the user's own types
    t("Cust", "Text", [("Cust::A", "'A'"), ("Cust::r#Type", "'Type'")], false),
    t("r#Cust", "Text", [("Cust::A", "'A'"), ("Cust::B", "'B'")], false),
    t("HashMapish", "Text", [("HashMapish::A", "'A'"), ("HashMapish::B", "'B'")], false),
    t("BTreeMapped", "Int", [("BTreeMapped(5)", "5"), ("BTreeMapped(6)", "6")], false),
    t("Newt", "BigInt", [("Newt(50)", "50"), ("Newt(-60)", "-60")], false),
    t("Pair", "Json", [("Pair { a: 1, b: \"x\".into() }", ANY), ("Pair { a: 2, b: \"y\".into() }", ANY)], false),
    t("Shape", "Json", [("Shape::Dot", ANY), ("Shape::Circle(3)", ANY)], false),
    t("Alias", "Int", [("70", "70"), ("71", "71")], true),
    t("AliasStr", "Text", [("\"al\".to_string()", "'al'"), ("\"ia\".to_string()", "'ia'")], true),
    t("Hand", "Text", [("Hand(true)", "'yes'"), ("Hand(false)", "'no'")], false),
    t("r#Raw", "Text", [("r#Raw::A", "'A'"), ("r#Raw::B", "'B'")], false),
];
const OPTIONS: &[&str] = &["Option", "std::option::Option", "core::option::Option", "::std::option::Option"];
const FKS: &[&str] = &["ForeignKey", "butane::ForeignKey", "butane::fkey::ForeignKey", "::butane::ForeignKey"];
const MANYS: &[&str] = &["Many", "butane::Many", "butane::many::Many", "::butane::Many"];
const AUTOS: &[&str] = &["AutoPk", "butane::AutoPk", "butane::autopk::AutoPk", "::butane::AutoPk"];
/// Model spelling, table, key column, key type, values of keys.
const TARGETS: &[(&str, &str, &str, &str, [(&str, &str); 2])] = &[
    ("Tgt", "Tgt", "id", "BigInt", [("1", "1"), ("2", "2")]),
    ("TgtS", "TgtS", "name", "Text", [("\"a\".to_string()", "'a'"), ("\"b\".to_string()", "'b'")]),
    ("crate::TgtS", "TgtS", "name", "Text", [("\"a\".to_string()", "'a'"), ("\"b\".to_string()", "'b'")]),
    ("r#Tgt", "Tgt", "id", "BigInt", [("1", "1"), ("2", "2")]),
    ("TgtRen", "tgt_ren", "id", "Int", [("ap(1)", "1"), ("ap(2)", "2")]),
];
/// Types which have no column type: a field of them must be refused, now or when the schema is resolved.
const BAD_TYPES: &[&str] = &["u64", "usize", "i128", "char", "Vec<i32>", "Vec<String>", "Box<i32>", "std::rc::Rc<String>", "Option<Vec<i32>>", "DateTime<Local>", "DateTime<FixedOffset>", "chrono::DateTime<chrono::Local>", "Unregistered", "m::Unregistered",
    "Option<Unregistered>", "&'static str", "[u8; 4]", "(i32, i32)", "()", "fn()", "<i32 as X>::Y", "Option<&'static str>", "Option<(i32, i32)>", "ForeignKey", "Many", "AutoPk", "Option", "ForeignKey<Nosuch>", "Option<ForeignKey<Nosuch>>", "Many<Nosuch>",
    "ForeignKey<Tgt, TgtS>", "Many<Tgt, Tgt>", "ForeignKey<(Tgt,)>", "ForeignKey<5>", "Many<5>", "Option<5>", "ForeignKey<&Tgt>", "Vec<Tgt>", "Option<Many<Tgt>>"];

#[derive(Clone, Debug, Default)]
struct Col {
    name: String,
    sql: String,
    nullable: bool,
    pk: bool,
    auto: bool,
    unique: bool,
    default: Option<SqlVal>,
    r: Option<(String, String)>,
}
#[derive(Clone, Debug)]
struct Field {
    name: &'static str,
    /// The type as written.
    sp: String,
    attrs: Vec<String>,
    /// A column, or a many-to-many field with target table, key column and type.
    kind: Kind,
}
#[derive(Clone, Debug)]
enum Kind {
    Col(Col),
    Many(String, String, String),
}
#[derive(Clone, Debug)]
struct Def {
    name: &'static str,
    table: Option<String>,
    attrs: Vec<String>,
    fields: Vec<Field>,
    derive: bool,
}
fn strip(s: &str) -> String {
    s.strip_prefix("r#").unwrap_or(s).to_string()
}
fn plain(name: &'static str, ty: &Ty) -> Field {
    Field { name, sp: ty.sp.into(), attrs: vec![], kind: Kind::Col(Col { name: strip(name), sql: ty.sql.into(), ..Default::default() }) }
}
fn opt(o: &str, mut f: Field) -> Field {
    f.sp = format!("{o}<{}>", f.sp);
    if let Kind::Col(c) = &mut f.kind {
        c.nullable = true;
    }
    f
}
fn fk(name: &'static str, sp: &str, tgt: usize) -> Field {
    let (m, table, key, sql, _) = TARGETS[tgt];
    Field { name, sp: format!("{sp}<{m}>"), attrs: vec![], kind: Kind::Col(Col { name: strip(name), sql: sql.into(), r: Some((table.into(), key.into())), ..Default::default() }) }
}
fn many(name: &'static str, sp: &str, tgt: usize) -> Field {
    let (m, table, key, sql, _) = TARGETS[tgt];
    Field { name, sp: format!("{sp}<{m}>"), attrs: vec![], kind: Kind::Many(table.into(), key.into(), sql.into()) }
}
fn auto(name: &'static str, sp: &str, ty: &Ty) -> Field {
    Field { name, sp: format!("{sp}<{}>", ty.sp), attrs: vec![], kind: Kind::Col(Col { name: strip(name), sql: ty.sql.into(), auto: true, ..Default::default() }) }
}
fn attr(mut f: Field, a: &str) -> Field {
    f.attrs.push(a.into());
    if let Kind::Col(c) = &mut f.kind {
        match a {
            "#[pk]" => c.pk = true,
            "#[unique]" => c.unique = true,
            _ => (),
        }
    }
    f
}
fn ty(sp: &str) -> &'static Ty {
    TYPES.iter().find(|t| t.sp == sp).unwrap_or_else(|| panic!("ENGINE no type {sp}"))
}
fn def(name: &'static str, fields: Vec<Field>) -> Def {
    Def { name, table: None, attrs: vec![], fields, derive: false }
}
impl Def {
    fn text(&self, macro_: bool) -> String {
        let mut s = String::new();
        if macro_ {
            s += if self.derive { "#[derive(butane::DataObject)]\n" } else { "#[butane::model]\n" };
        }
        for a in &self.attrs {
            s += &format!("{a}\n");
        }
        if let Some(t) = &self.table {
            s += &format!("#[table = {t:?}]\n");
        }
        s += &format!("pub struct {} {{\n", self.name);
        for f in &self.fields {
            s += &format!("    {} pub {}: {},\n", f.attrs.join("\n    "), f.name, f.sp);
        }
        s + "}\n"
    }
    fn table(&self) -> String {
        self.table.clone().unwrap_or(strip(self.name))
    }
    fn cols(&self) -> impl Iterator<Item = (&Field, &Col)> {
        self.fields.iter().filter_map(|f| match &f.kind {
            Kind::Col(c) => Some((f, c)),
            _ => None,
        })
    }
    /// The key as declared: the one field with the attribute, else the one called id.
    fn key(&self) -> Result<usize, ()> {
        let attrs: Vec<usize> = (0..self.fields.len()).filter(|i| self.fields[*i].attrs.iter().any(|a| a == "#[pk]")).collect();
        match attrs.len() {
            0 => self.fields.iter().position(|f| strip(f.name) == "id").ok_or(()),
            1 => Ok(attrs[0]),
            _ => Err(()),
        }
    }
    /// The tables this declares, by name.
    fn expected(&self) -> Vec<(String, Vec<Col>)> {
        let key = self.key().expect("ENGINE key");
        let table = self.table();
        let mut cols = vec![];
        let mut out = vec![];
        let mut kcol = Col::default();
        for (i, f) in self.fields.iter().enumerate() {
            if let Kind::Col(c) = &f.kind {
                let mut c = c.clone();
                c.pk = i == key;
                if c.pk {
                    kcol = c.clone();
                }
                cols.push(c);
            }
        }
        for f in &self.fields {
            if let Kind::Many(t, k, sql) = &f.kind {
                out.push((format!("{table}_{}_Many", strip(f.name)), vec![
                    Col { name: "owner".into(), sql: kcol.sql.clone(), r: Some((table.clone(), kcol.name.clone())), ..Default::default() },
                    Col { name: "has".into(), sql: sql.clone(), r: Some((t.clone(), k.clone())), ..Default::default() },
                ]));
            }
        }
        out.push((table, cols));
        out.sort_by(|a, b| a.0.cmp(&b.0));
        out
    }
}

// ---- through the code generator, in process ------------------------------------------------------------
const TARGET_DEFS: &str = "#[model] pub struct Tgt { pub id: i64 }\n#[model] pub struct TgtS { #[pk] pub name: String }\n#[model] #[table = \"tgt_ren\"] pub struct TgtRen { pub id: AutoPk<i32> }\n";
fn tokens(s: &str) -> Option<proc_macro2::TokenStream> {
    proc_macro2::TokenStream::from_str(s).ok()
}
fn base() -> MemMigrations {
    let mut ms = MemMigrations::new();
    for d in ["pub struct Tgt { pub id: i64 }", "pub struct TgtS { #[pk] pub name: String }", "#[table = \"tgt_ren\"] pub struct TgtRen { pub id: AutoPk<i32> }"] {
        let out = butane_core::codegen::model_with_migrations(tokens(d).unwrap(), &mut ms);
        assert!(!refusal(&out), "target refused");
    }
    // what #[butane_type] and #[derive(FieldType)] record
    for (args, d) in [("Text", "enum Cust { A }"), ("Text", "enum HashMapish { A }"), ("Int", "struct BTreeMapped(i32);"), ("BigInt", "struct Newt(i64);"), ("Json", "struct Pair { a: i32 }"), ("Json", "enum Shape { Dot, Circle(i32) }"),
        ("", "pub type Alias = i32;"), ("", "pub type AliasStr = String;"), ("Text", "struct Hand(bool);"), ("Text", "enum r#Raw { A }")] {
        let out = butane_core::codegen::butane_type_with_migrations(tokens(args).unwrap(), tokens(d).unwrap(), &mut ms);
        assert!(!refusal(&out), "custom type refused");
    }
    ms
}
fn refusal(out: &proc_macro2::TokenStream) -> bool {
    out.to_string().contains("compile_error")
}
enum Got {
    Refused,
    Schema(ADB),
}
/// What is recorded for a definition; Err if it is refused but something has been recorded.
fn record(text: &str, derive: bool) -> Result<Got, String> {
    let mut ms = base();
    let show = |r: std::result::Result<ADB, butane::Error>| r.map(|d| format!("{d:?}")).ok();
    let before = show(ms.current().db());
    let Some(toks) = tokens(text) else { panic!("ENGINE tokens: {text}") };
    let r = catch(|| if derive { butane_core::codegen::derive_dataobject_with_migrations(toks, &mut ms) } else { butane_core::codegen::model_with_migrations(toks, &mut ms) });
    let after = catch(|| ms.current().db());
    match (r, after) {
        (Ok(out), Ok(Ok(db))) if !refusal(&out) => Ok(Got::Schema(db)),
        (Ok(out), Ok(after)) if refusal(&out) => {
            if before != show(after) {
                return Err("the definition is refused, but recorded".into());
            }
            Ok(Got::Refused)
        }
        (Err(_), after) => {
            if before != after.ok().and_then(show) {
                return Err("the definition is refused, but recorded".into());
            }
            Ok(Got::Refused)
        }
        _ => Ok(Got::Refused), // the types cannot be resolved: refused when the migration is made
    }
}
fn same_default(a: &Option<SqlVal>, b: &Option<SqlVal>) -> bool {
    let num = |v: &SqlVal| match v {
        SqlVal::Int(i) => Some(*i as f64),
        SqlVal::BigInt(i) => Some(*i as f64),
        SqlVal::Real(f) => Some(*f),
        _ => None,
    };
    match (a, b) {
        (Some(a), Some(b)) => a == b || (num(a).is_some() && num(a) == num(b)),
        (None, None) => true,
        _ => false,
    }
}
fn compare(t: Option<&ATable>, cols: &[Col]) -> Result<(), String> {
    let Some(t) = t else { return Err("not recorded".into()) };
    let names: Vec<&str> = t.columns.iter().map(|c| c.name()).collect();
    let want: Vec<&str> = cols.iter().map(|c| c.name.as_str()).collect();
    if names != want {
        return Err(format!("columns {names:?}, declared {want:?}"));
    }
    for (g, w) in t.columns.iter().zip(cols) {
        let ty = g.typeid();
        let fine = matches!(&ty, Ok(TypeIdentifier::Ty(s)) if format!("{s:?}") == w.sql);
        if !fine {
            return Err(format!("column {} has type {ty:?}, declared {}", w.name, w.sql));
        }
        let r = match g.reference() {
            None => None,
            Some(ARef::Literal(l)) => Some((l.table_name().to_string(), l.column_name().to_string())),
            Some(other) => return Err(format!("column {}: unresolved reference {other:?}", w.name)),
        };
        if r != w.r {
            return Err(format!("column {} refers to {r:?}, declared {:?}", w.name, w.r));
        }
        for (what, a, b) in [("nullable", g.nullable(), w.nullable), ("key", g.is_pk(), w.pk), ("automatic", g.is_auto(), w.auto), ("unique", g.unique(), w.unique)] {
            if a != b {
                return Err(format!("column {} {what}: {a}, declared {b}", w.name));
            }
        }
        if !same_default(g.default(), &w.default) {
            return Err(format!("column {} default {:?}, declared {:?}", w.name, g.default(), w.default));
        }
    }
    Ok(())
}
fn matches_schema(db: &ADB, d: &Def) -> Result<(), String> {
    let exp = d.expected();
    for (n, cols) in &exp {
        compare(db.get_table(n), cols).map_err(|e| format!("table {n}: {e}"))?;
    }
    let extra: Vec<&String> = db.tables().map(|t| &t.name).filter(|n| !exp.iter().any(|(e, _)| e == *n) && !["Tgt", "TgtS", "tgt_ren"].contains(&n.as_str())).collect();
    if !extra.is_empty() {
        return Err(format!("tables {extra:?} are not declared"));
    }
    Ok(())
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Accept,
    Refuse,
    Either,
}
fn judge(ctx: &Ctx, group: &str, d: &Def, want: Want) {
    ctx.exec();
    let text = d.text(false);
    match record(&text, d.derive) {
        Err(e) => ctx.violation(&format!("{group}: {e}"), &text),
        Ok(Got::Refused) => {
            ctx.trans(1);
            ctx.outcome(format!("{group}: refused"));
            if want == Want::Accept {
                ctx.violation(&format!("{group}: a definition is refused"), &text);
            } else {
                ctx.valid();
            }
        }
        Ok(Got::Schema(db)) => {
            ctx.trans(1);
            ctx.nontriv();
            ctx.outcome(format!("{group}: recorded"));
            ctx.state(hash64(&format!("{db:?}")));
            if want == Want::Refuse {
                let several = d.fields.iter().filter(|f| f.attrs.iter().any(|a| a == "#[pk]")).count() > 1;
                ctx.violation(&if several { "a definition with several keys is accepted".to_string() } else { format!("{group}: what cannot be represented is accepted") }, &text);
                return;
            }
            if d.key().is_err() {
                if want == Want::Either {
                    ctx.violation(&format!("{group}: a definition without a definite key is accepted"), &text);
                }
                return;
            }
            match matches_schema(&db, d) {
                Ok(()) => ctx.valid(),
                Err(e) => ctx.violation(&format!("{group}: recorded as another table"), format!("{text}\n{e}")),
            }
        }
    }
}
/// Literals of defaults: text, value, class.
fn literals() -> Vec<(&'static str, Option<SqlVal>, &'static str)> {
    use SqlVal::*;
    vec![
        ("0", Some(Int(0)), "int"), ("5", Some(Int(5)), "int"), ("200", Some(Int(200)), "int"), ("70000", Some(Int(70000)), "int"), ("2147483647", Some(Int(i32::MAX)), "int"), ("1_000", Some(Int(1000)), "int"), ("0x10", Some(Int(16)), "int"), ("7u8", Some(Int(7)), "int"),
        ("2147483648", Some(BigInt(2147483648)), "int"), ("1.5", Some(Real(1.5)), "float"), ("2e3", Some(Real(2000.0)), "float"), ("0.0", Some(Real(0.0)), "float"),
        ("true", Some(Bool(true)), "bool"), ("false", Some(Bool(false)), "bool"), ("\"\"", Some(Text("".into())), "str"), ("\"it's\"", Some(Text("it's".into())), "str"), ("r\"a\\b\"", Some(Text("a\\b".into())), "str"),
        ("b\"\\x00\\xff\"", Some(Blob(vec![0, 255])), "bytes"), ("b\"\"", Some(Blob(vec![])), "bytes"), ("'c'", None, "bad"), ("b'c'", None, "bad"), ("-1", Some(SqlVal::Int(-1)), "neg"), ("NONE", None, "bad"), ("1 + 1", None, "bad"), ("String::new()", None, "bad"),
    ]
}
fn default_want(ty: &Ty, lit: &(&str, Option<SqlVal>, &str)) -> Want {
    let class = match (ty.sp, ty.sql) {
        ("Cust" | "r#Cust" | "HashMapish" | "BTreeMapped" | "Newt" | "Pair" | "Shape" | "Alias" | "AliasStr" | "Hand" | "r#Raw", _) => return if lit.2 == "bad" { Want::Refuse } else { Want::Either },
        (_, "Int" | "BigInt") => "int",
        (_, "Real") => "float",
        (_, "Bool") => "bool",
        (_, "Text") => "str",
        (_, "Blob") => "bytes",
        _ => return if lit.2 == "bad" { Want::Refuse } else { Want::Either },
    };
    match lit.2 {
        "bad" => Want::Refuse,
        "neg" => Want::Either,
        c if c == class => {
            if class != "int" {
                return Want::Accept;
            }
            let v = match lit.1 { Some(SqlVal::Int(i)) => i as i64, Some(SqlVal::BigInt(i)) => i, _ => 0 };
            let max = match ty.sp { "u8" => 255, "i8" => 127, "u16" => 65535, "i16" => 32767, "i32" => i32::MAX as i64, _ => i64::MAX };
            if v > max { Want::Refuse } else if v > i32::MAX as i64 { Want::Either } else { Want::Accept }
        }
        // the databases convert a number to a text
        "int" if class == "float" || class == "str" => Want::Either,
        _ => Want::Refuse,
    }
}
fn in_process(ctx: &Ctx) {
    let idf = || plain("id", ty("i64"));
    let mut jobs: Vec<(&'static str, Def, Want)> = vec![];
    // every spelling of every type, plain and optional, with every combination of attributes
    let mut all: Vec<(Field, Option<&Ty>)> = vec![];
    for t in TYPES {
        all.push((plain("f", t), Some(t)));
        for o in OPTIONS {
            all.push((opt(o, plain("f", t)), Some(t)));
        }
    }
    for (i, _) in TARGETS.iter().enumerate() {
        for s in FKS {
            all.push((fk("f", s, i), None));
            for o in OPTIONS {
                all.push((opt(o, fk("f", s, i)), None));
            }
        }
    }
    for (f, t) in &all {
        for derive in [false, true] {
            for attrs in [&[][..], &["#[unique]"], &["/// documented", "#[unique]", "#[allow(dead_code)]"], &["#[pk]"], &["#[unique]", "#[pk]"]] {
                for first in [true, false] {
                    let mut g = f.clone();
                    for a in attrs {
                        g = attr(g, a);
                    }
                    let key = attrs.contains(&"#[pk]");
                    // a key of a type which is no key type is refused by the compiler, not by the macro
                    let want = if !key { Want::Accept } else if t.is_some_and(|t| t.key) && !matches!(&f.kind, Kind::Col(c) if c.nullable) { Want::Accept } else { Want::Either };
                    let name = if key { "o" } else { "id" };
                    let other = plain(name, ty("i64"));
                    let mut d = def("Mdl", if first { vec![g, other] } else { vec![other, g] });
                    d.derive = derive;
                    jobs.push(("types", d, want));
                }
            }
        }
        if let Some(t) = t {
            for lit in literals() {
                let mut g = f.clone();
                g.attrs.push(format!("#[default = {}]", lit.0));
                if let Kind::Col(c) = &mut g.kind {
                    c.default = lit.1.clone();
                }
                jobs.push(("defaults", def("Mdl", vec![idf(), g]), default_want(t, &lit)));
            }
        }
        for bad in ["#[default]", "#[default(5)]", "#[default = ]"] {
            if bad == "#[default = ]" {
                continue; // not tokens
            }
            let mut g = f.clone();
            g.attrs.push(bad.into());
            jobs.push(("defaults", def("Mdl", vec![idf(), g]), Want::Refuse));
        }
    }
    for lit in ["5", "\"a\""] {
        for t in 0..TARGETS.len() {
            let mut g = fk("f", "ForeignKey", t);
            g.attrs.push(format!("#[default = {lit}]"));
            if let Kind::Col(c) = &mut g.kind {
                c.default = Some(if lit == "5" { SqlVal::Int(5) } else { SqlVal::Text("a".into()) });
            }
            jobs.push(("defaults", def("Mdl", vec![idf(), g]), Want::Either));
        }
    }
    let mut g = plain("f", ty("i32"));
    g.attrs = vec!["#[default = 5]".into(), "#[default = 6]".into()];
    jobs.push(("defaults", def("Mdl", vec![idf(), g]), Want::Refuse));
    // automatic keys
    for s in AUTOS {
        for t in TYPES {
            let int = ["Int", "BigInt"].contains(&t.sql) && !["Alias", "BTreeMapped", "Newt"].contains(&t.sp);
            let want = if int { Want::Accept } else if ["Alias"].contains(&t.sp) { Want::Either } else { Want::Refuse };
            jobs.push(("auto", def("Mdl", vec![auto("id", s, t)]), want));
            jobs.push(("auto", def("Mdl", vec![plain("v", ty("String")), attr(auto("k", s, t), "#[pk]"), plain("id", ty("i32"))]), want));
            jobs.push(("auto", def("Mdl", vec![idf(), auto("k", s, t)]), Want::Refuse));
            jobs.push(("auto", def("Mdl", vec![attr(plain("p", ty("String")), "#[pk]"), auto("id", s, t)]), Want::Refuse));
            jobs.push(("auto", def("Mdl", vec![auto("id", s, t), auto("k", s, t)]), Want::Refuse));
        }
    }
    // many-to-many fields
    for s in MANYS {
        for (i, _) in TARGETS.iter().enumerate() {
            for k in TYPES.iter().filter(|t| t.key) {
                jobs.push(("many", def("Mdl", vec![plain("id", k), many("f", s, i)]), Want::Accept));
                jobs.push(("many", def("Mdl", vec![many("f", s, i), attr(plain("k", k), "#[pk]"), many("g", s, 0), plain("v", ty("bool"))]), Want::Accept));
            }
            jobs.push(("many", def("Mdl", vec![auto("id", "AutoPk", ty("i32")), many("f", s, i)]), Want::Accept));
            for a in ["#[unique]", "#[default = 5]", "#[pk]"] {
                jobs.push(("many", def("Mdl", vec![idf(), attr(many("f", s, i), a)]), Want::Refuse));
            }
            jobs.push(("many", def("Mdl", vec![many("id", s, i)]), Want::Refuse));
            jobs.push(("many", def("Mdl", vec![plain("v", ty("i32")), many("f", s, i)]), Want::Refuse));
        }
    }
    // types which have no column type
    for b in BAD_TYPES {
        for first in [true, false] {
            let f = Field { name: "f", sp: b.to_string(), attrs: vec![], kind: Kind::Col(Col { name: "f".into(), sql: "none".into(), ..Default::default() }) };
            jobs.push(("types without a column", def("Mdl", if first { vec![f, idf()] } else { vec![idf(), f] }), Want::Refuse));
        }
    }
    // names and attributes of the model
    for name in ["Mdl", "r#Mdl", "r#struct", "lower", "_U", "Ünï"] {
        for table in [None, Some("t"), Some("Mdl2"), Some("a table"), Some("select"), Some("日本"), Some("Qu\"ote")] {
            for (attrs, want) in [(&[][..], Want::Accept), (&["/// doc", "#[derive(Clone)]", "#[allow(unused)]"], Want::Accept), (&["#[table]"], Want::Refuse), (&["#[table(\"x\")]"], Want::Refuse), (&["#[table = 5]"], Want::Refuse), (&["#[table = x]"], Want::Refuse)] {
                for derive in [false, true] {
                    for fname in ["f", "r#type", "default", "table", "_x", "ñ", "select"] {
                        let mut d = def(name, vec![idf(), plain(fname, ty("i32")), many("tags", "Many", 0), fk("r#ref", "ForeignKey", 1)]);
                        d.table = table.map(|s| s.to_string());
                        d.attrs = attrs.iter().map(|s| s.to_string()).collect();
                        d.derive = derive;
                        jobs.push(("names", d, want));
                    }
                }
            }
        }
    }
    let mut d = def("Mdl", vec![idf()]);
    d.attrs = vec!["#[table = \"a\"]".into()];
    d.table = Some("b".into());
    jobs.push(("names", d, Want::Refuse));
    // a reference to itself
    for (sp, nullable) in [("ForeignKey<Mdl>", false), ("Option<ForeignKey<Mdl>>", true)] {
        for table in [None, Some("other")] {
            let tn = table.unwrap_or("Mdl");
            let f = Field { name: "up", sp: sp.into(), attrs: vec![], kind: Kind::Col(Col { name: "up".into(), sql: "BigInt".into(), nullable, r: Some((tn.into(), "id".into())), ..Default::default() }) };
            let m = Field { name: "peers", sp: "Many<Mdl>".into(), attrs: vec![], kind: Kind::Many(tn.into(), "id".into(), "BigInt".into()) };
            let mut d = def("Mdl", vec![f, idf(), m]);
            d.table = table.map(|s| s.to_string());
            jobs.push(("self reference", d, Want::Accept));
        }
    }
    // every list of up to three (four) fields over the kinds of field, the keys declared in every way
    let kinds: Vec<fn(&'static str) -> Field> = vec![
        |n| plain(n, ty("i32")), |n| opt("Option", plain(n, ty("String"))), |n| fk(n, "ForeignKey", 1), |n| opt("Option", fk(n, "ForeignKey", 0)), |n| many(n, "Many", 1), |n| auto(n, "AutoPk", ty("i64")), |n| plain(n, ty("Cust")),
    ];
    let max = if ctx.thorough { 4 } else { 3 };
    const NAMES: [&str; 4] = ["a", "b", "c", "d"];
    for len in 1..=max {
        for c in 0..(kinds.len() * 2).pow(len as u32) {
            for id in 0..=len {
                let mut fields = vec![];
                for i in 0..len {
                    let k = c / (kinds.len() * 2).pow(i as u32) % (kinds.len() * 2);
                    let mut f = kinds[k / 2](if id == i { "id" } else { NAMES[i] });
                    if k % 2 == 1 {
                        f = attr(f, "#[pk]");
                    }
                    fields.push(f);
                }
                let d = def("Mdl", fields);
                let want = match d.key() {
                    Err(()) => Want::Refuse,
                    Ok(k) => {
                        let autos = (0..len).filter(|i| matches!(&d.fields[*i].kind, Kind::Col(c) if c.auto)).any(|i| i != k);
                        match &d.fields[k].kind {
                            _ if autos => Want::Refuse,
                            Kind::Many(..) => Want::Refuse,
                            Kind::Col(c) if c.nullable || c.r.is_some() || d.fields[k].sp == "Cust" => Want::Either,
                            _ => Want::Accept,
                        }
                    }
                };
                jobs.push(("fields", d, want));
            }
        }
    }
    for text in ["pub struct Mdl;", "pub struct Mdl {}", "pub struct Mdl(i64);", "pub struct Mdl(#[pk] i64, String);", "pub enum Mdl { A }", "pub fn f() {}", "pub union Mdl { id: i64 }", "pub type Mdl = i64;", "pub struct Mdl<T> { id: T }"] {
        ctx.exec();
        ctx.trans(1);
        match record(text, false) {
            Ok(Got::Refused) => ctx.valid(),
            Err(e) => ctx.violation(&format!("not a model: {e}"), text),
            Ok(Got::Schema(_)) => ctx.violation("not a model: what cannot be represented is accepted", text),
        }
    }
    ctx.bound("definitions through the code generator", jobs.len() as u64);
    par(ctx, jobs.len(), |_| (), |_, i| judge(ctx, jobs[i].0, &jobs[i].1, jobs[i].2));
    // custom types
    let sqls = ["Bool", "Int", "BigInt", "Real", "Text", "Blob", "Json", "Date", "Timestamp"];
    let mut customs: Vec<(String, String, Want, String, bool)> = vec![];
    for s in sqls {
        for d in ["pub enum Own { A }", "pub struct Own(i32);", "pub struct Own { a: i32 }", "pub struct r#Own;", "#[derive(Clone)] enum Own { A, B(i32) }"] {
            customs.push((s.into(), d.into(), Want::Accept, s.into(), false));
        }
    }
    for t in TYPES {
        customs.push(("".into(), format!("pub type Own = {};", t.sp), Want::Accept, t.sql.into(), false));
    }
    customs.push(("Custom(POINT)".into(), "pub struct Own(i32);".into(), Want::Accept, "POINT".into(), true));
    // an alias cannot say that a column is nullable, automatic or a reference
    for a in ["Option<i32>", "std::option::Option<String>", "ForeignKey<Tgt>", "Option<ForeignKey<TgtS>>", "AutoPk<i64>", "butane::AutoPk<i32>", "Many<Tgt>", "Vec<i32>", "u64", "Nosuch"] {
        customs.push(("".into(), format!("pub type Own = {a};"), Want::Refuse, "".into(), false));
    }
    for a in ["", "Nosuch", "5", "Custom", "Custom()", "Custom(5)", "\"Text\"", "Text(5)"] {
        customs.push((a.into(), "pub enum Own { A }".into(), Want::Refuse, "".into(), false));
    }
    for d in ["pub fn own() {}", "pub trait Own {}", "pub const OWN: i32 = 5;"] {
        customs.push(("Text".into(), d.into(), Want::Refuse, "".into(), false));
    }
    for (args, d, want, sql, named) in customs {
        ctx.exec();
        ctx.trans(1);
        let mut ms = base();
        let r = catch(|| {
            let out = butane_core::codegen::butane_type_with_migrations(tokens(&args).unwrap(), tokens(&d).unwrap(), &mut ms);
            if refusal(&out) {
                return None;
            }
            let m = butane_core::codegen::model_with_migrations(tokens("pub struct Mdl { id: i64, f: Own, g: Option<Own> }").unwrap(), &mut ms);
            assert!(!refusal(&m), "model refused");
            ms.current().db().ok()
        });
        let what = format!("#[butane_type({args})] {d}");
        match (r, want) {
            (Ok(Some(db)), Want::Accept) => {
                for f in ["f", "g"] {
                    let c = db.get_table("Mdl").and_then(|t| t.column(f));
                    let ty = c.map(|c| c.typeid());
                    let fine = match &ty {
                        Some(Ok(TypeIdentifier::Ty(s))) => !named && format!("{s:?}") == sql,
                        Some(Ok(TypeIdentifier::Name(n))) => named && *n == sql,
                        _ => false,
                    };
                    if !fine || c.is_some_and(|c| c.nullable() != (f == "g")) {
                        ctx.violation("custom type: recorded with another type", format!("{what}: column {f} {ty:?}"));
                    } else {
                        ctx.valid();
                    }
                }
            }
            (Ok(Some(db)), _) => ctx.violation(&format!("custom type: what cannot be represented is accepted: {what}"), format!(" {:?}", db.get_table("Mdl").and_then(|t| t.column("f")).map(|c| (c.typeid(), c.nullable(), c.is_auto())))),
            (_, Want::Accept) => ctx.violation("custom type: refused", what),
            _ => ctx.valid(),
        }
    }
    let _ = (DeferredSqlType::Known(butane::SqlType::Int), TypeKey::PK(String::new()));
}
include!("c18b.rs");
pub fn run(ctx: &Ctx) {
    ctx.assume("which Rust type a path names is only known from its spelling: the spellings listed, and names registered with butane_type or derive(FieldType)");
    ctx.bound("spellings of types", TYPES.len() as u64);
    in_process(ctx);
    compiled(ctx);
}
