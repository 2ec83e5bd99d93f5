//! Models for C04: one per supported type, as required and optional column and as key (generated by hand-run script).
#![allow(dead_code)]
use butane::{butane_type, model, FieldType, FromSql, PrimaryKeyType, SqlType, SqlVal, SqlValRef, ToSql};
use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use uuid::Uuid;

#[derive(Clone, Debug, PartialEq, FieldType)]
pub enum Shade {
    Light,
    light,
    r#type,
    Très,
}
#[derive(Clone, Debug, PartialEq, FieldType, PrimaryKeyType)]
pub struct NewInt(pub i16);
#[derive(Clone, Debug, PartialEq, FieldType, PrimaryKeyType)]
pub struct NewText(pub String);
#[derive(Clone, Debug, PartialEq, FieldType, Serialize, Deserialize)]
pub struct JStruct {
    pub a: i64,
    pub b: Option<String>,
    pub c: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, FieldType, Serialize, Deserialize)]
pub enum JEnum {
    Unit,
    One(i32),
    Named { x: String, y: Option<f64> },
}
#[butane_type(Text)]
#[derive(Clone, Debug, PartialEq)]
pub struct Custom(pub char);
impl ToSql for Custom {
    fn to_sql(&self) -> SqlVal {
        SqlVal::Text(self.0.to_string())
    }
    fn to_sql_ref(&self) -> SqlValRef<'_> {
        SqlValRef::Text(match self.0 {
            'a' => "a",
            'A' => "A",
            '\'' => "\'",
            _ => "\u{1f600}",
        })
    }
}
impl FromSql for Custom {
    fn from_sql_ref(v: SqlValRef) -> butane::Result<Self> {
        match v {
            SqlValRef::Text(t) if t.chars().count() == 1 => Ok(Custom(t.chars().next().unwrap())),
            _ => Err(butane::Error::CannotConvertSqlVal(SqlType::Text, v.into())),
        }
    }
}
impl FieldType for Custom {
    type RefType = Self;
    const SQLTYPE: SqlType = SqlType::Text;
}
pub trait VModel: butane::DataObject<PKType = i64> + Clone + Send + Sync + 'static {
    type T: butane::FieldType + Clone + PartialEq + std::fmt::Debug + Send + Sync + 'static;
    fn make(id: i64, v: Self::T, o: Option<Self::T>) -> Self;
    fn v(&self) -> &Self::T;
    fn o(&self) -> &Option<Self::T>;
    fn set(&mut self, v: Self::T, o: Option<Self::T>);
}
pub trait KModel: butane::DataObject<PKType = Self::K> + Clone + Send + Sync + 'static {
    type K: butane::PrimaryKeyType + std::fmt::Debug + Send + Sync + 'static;
    fn make(k: Self::K, n: i32) -> Self;
    fn n(&self) -> i32;
    fn set(&mut self, n: i32);
}
macro_rules! v {
    ($m:ident, $t:ty) => {
        impl VModel for $m {
            type T = $t;
            fn make(id: i64, v: $t, o: Option<$t>) -> Self {
                $m { id, v, o }
            }
            fn v(&self) -> &$t {
                &self.v
            }
            fn o(&self) -> &Option<$t> {
                &self.o
            }
            fn set(&mut self, v: $t, o: Option<$t>) {
                self.v = v;
                self.o = o;
            }
        }
    };
}
macro_rules! k {
    ($m:ident, $t:ty) => {
        impl KModel for $m {
            type K = $t;
            fn make(k: $t, n: i32) -> Self {
                $m { k, n }
            }
            fn n(&self) -> i32 {
                self.n
            }
            fn set(&mut self, n: i32) {
                self.n = n;
            }
        }
    };
}
#[model]
#[derive(Clone, Debug)]
pub struct VBool {
    #[pk]
    pub id: i64,
    pub v: bool,
    pub o: Option<bool>,
}
v!(VBool, bool);
#[model]
#[derive(Clone, Debug)]
pub struct PBool {
    #[pk]
    pub k: bool,
    pub n: i32,
}
k!(PBool, bool);
#[model]
#[derive(Clone, Debug)]
pub struct VI8 {
    #[pk]
    pub id: i64,
    pub v: i8,
    pub o: Option<i8>,
}
v!(VI8, i8);
#[model]
#[derive(Clone, Debug)]
pub struct PI8 {
    #[pk]
    pub k: i8,
    pub n: i32,
}
k!(PI8, i8);
#[model]
#[derive(Clone, Debug)]
pub struct VU8 {
    #[pk]
    pub id: i64,
    pub v: u8,
    pub o: Option<u8>,
}
v!(VU8, u8);
#[model]
#[derive(Clone, Debug)]
pub struct PU8 {
    #[pk]
    pub k: u8,
    pub n: i32,
}
k!(PU8, u8);
#[model]
#[derive(Clone, Debug)]
pub struct VI16 {
    #[pk]
    pub id: i64,
    pub v: i16,
    pub o: Option<i16>,
}
v!(VI16, i16);
#[model]
#[derive(Clone, Debug)]
pub struct PI16 {
    #[pk]
    pub k: i16,
    pub n: i32,
}
k!(PI16, i16);
#[model]
#[derive(Clone, Debug)]
pub struct VU16 {
    #[pk]
    pub id: i64,
    pub v: u16,
    pub o: Option<u16>,
}
v!(VU16, u16);
#[model]
#[derive(Clone, Debug)]
pub struct PU16 {
    #[pk]
    pub k: u16,
    pub n: i32,
}
k!(PU16, u16);
#[model]
#[derive(Clone, Debug)]
pub struct VI32 {
    #[pk]
    pub id: i64,
    pub v: i32,
    pub o: Option<i32>,
}
v!(VI32, i32);
#[model]
#[derive(Clone, Debug)]
pub struct PI32 {
    #[pk]
    pub k: i32,
    pub n: i32,
}
k!(PI32, i32);
#[model]
#[derive(Clone, Debug)]
pub struct VU32 {
    #[pk]
    pub id: i64,
    pub v: u32,
    pub o: Option<u32>,
}
v!(VU32, u32);
#[model]
#[derive(Clone, Debug)]
pub struct PU32 {
    #[pk]
    pub k: u32,
    pub n: i32,
}
k!(PU32, u32);
#[model]
#[derive(Clone, Debug)]
pub struct VI64 {
    #[pk]
    pub id: i64,
    pub v: i64,
    pub o: Option<i64>,
}
v!(VI64, i64);
#[model]
#[derive(Clone, Debug)]
pub struct PI64 {
    #[pk]
    pub k: i64,
    pub n: i32,
}
k!(PI64, i64);
#[model]
#[derive(Clone, Debug)]
pub struct VF32 {
    #[pk]
    pub id: i64,
    pub v: f32,
    pub o: Option<f32>,
}
v!(VF32, f32);
#[model]
#[derive(Clone, Debug)]
pub struct PF32 {
    #[pk]
    pub k: f32,
    pub n: i32,
}
k!(PF32, f32);
#[model]
#[derive(Clone, Debug)]
pub struct VF64 {
    #[pk]
    pub id: i64,
    pub v: f64,
    pub o: Option<f64>,
}
v!(VF64, f64);
#[model]
#[derive(Clone, Debug)]
pub struct PF64 {
    #[pk]
    pub k: f64,
    pub n: i32,
}
k!(PF64, f64);
#[model]
#[derive(Clone, Debug)]
pub struct VStr {
    #[pk]
    pub id: i64,
    pub v: String,
    pub o: Option<String>,
}
v!(VStr, String);
#[model]
#[derive(Clone, Debug)]
pub struct PStr {
    #[pk]
    pub k: String,
    pub n: i32,
}
k!(PStr, String);
#[model]
#[derive(Clone, Debug)]
pub struct VBlob {
    #[pk]
    pub id: i64,
    pub v: Vec<u8>,
    pub o: Option<Vec<u8>>,
}
v!(VBlob, Vec<u8>);
#[model]
#[derive(Clone, Debug)]
pub struct PBlob {
    #[pk]
    pub k: Vec<u8>,
    pub n: i32,
}
k!(PBlob, Vec<u8>);
#[model]
#[derive(Clone, Debug)]
pub struct VUuid {
    #[pk]
    pub id: i64,
    pub v: Uuid,
    pub o: Option<Uuid>,
}
v!(VUuid, Uuid);
#[model]
#[derive(Clone, Debug)]
pub struct PUuid {
    #[pk]
    pub k: Uuid,
    pub n: i32,
}
k!(PUuid, Uuid);
#[model]
#[derive(Clone, Debug)]
pub struct VDate {
    #[pk]
    pub id: i64,
    pub v: NaiveDate,
    pub o: Option<NaiveDate>,
}
v!(VDate, NaiveDate);
#[model]
#[derive(Clone, Debug)]
pub struct PDate {
    #[pk]
    pub k: NaiveDate,
    pub n: i32,
}
k!(PDate, NaiveDate);
#[model]
#[derive(Clone, Debug)]
pub struct VTs {
    #[pk]
    pub id: i64,
    pub v: NaiveDateTime,
    pub o: Option<NaiveDateTime>,
}
v!(VTs, NaiveDateTime);
#[model]
#[derive(Clone, Debug)]
pub struct PTs {
    #[pk]
    pub k: NaiveDateTime,
    pub n: i32,
}
k!(PTs, NaiveDateTime);
#[model]
#[derive(Clone, Debug)]
pub struct VUtc {
    #[pk]
    pub id: i64,
    pub v: DateTime<Utc>,
    pub o: Option<DateTime<Utc>>,
}
v!(VUtc, DateTime<Utc>);
#[model]
#[derive(Clone, Debug)]
pub struct PUtc {
    #[pk]
    pub k: DateTime<Utc>,
    pub n: i32,
}
k!(PUtc, DateTime<Utc>);
#[model]
#[derive(Clone, Debug)]
pub struct VJson {
    #[pk]
    pub id: i64,
    pub v: Value,
    pub o: Option<Value>,
}
v!(VJson, Value);
#[model]
#[derive(Clone, Debug)]
pub struct PJson {
    #[pk]
    pub k: Value,
    pub n: i32,
}
k!(PJson, Value);
#[model]
#[derive(Clone, Debug)]
pub struct VHMap {
    #[pk]
    pub id: i64,
    pub v: HashMap<String, i8>,
    pub o: Option<HashMap<String, i8>>,
}
v!(VHMap, HashMap<String, i8>);
#[model]
#[derive(Clone, Debug)]
pub struct VBMap {
    #[pk]
    pub id: i64,
    pub v: BTreeMap<String, String>,
    pub o: Option<BTreeMap<String, String>>,
}
v!(VBMap, BTreeMap<String, String>);
#[model]
#[derive(Clone, Debug)]
pub struct VEnm {
    #[pk]
    pub id: i64,
    pub v: Shade,
    pub o: Option<Shade>,
}
v!(VEnm, Shade);
#[model]
#[derive(Clone, Debug)]
pub struct VNewI {
    #[pk]
    pub id: i64,
    pub v: NewInt,
    pub o: Option<NewInt>,
}
v!(VNewI, NewInt);
#[model]
#[derive(Clone, Debug)]
pub struct PNewI {
    #[pk]
    pub k: NewInt,
    pub n: i32,
}
k!(PNewI, NewInt);
#[model]
#[derive(Clone, Debug)]
pub struct VNewS {
    #[pk]
    pub id: i64,
    pub v: NewText,
    pub o: Option<NewText>,
}
v!(VNewS, NewText);
#[model]
#[derive(Clone, Debug)]
pub struct PNewS {
    #[pk]
    pub k: NewText,
    pub n: i32,
}
k!(PNewS, NewText);
#[model]
#[derive(Clone, Debug)]
pub struct VJStr {
    #[pk]
    pub id: i64,
    pub v: JStruct,
    pub o: Option<JStruct>,
}
v!(VJStr, JStruct);
#[model]
#[derive(Clone, Debug)]
pub struct VJEnm {
    #[pk]
    pub id: i64,
    pub v: JEnum,
    pub o: Option<JEnum>,
}
v!(VJEnm, JEnum);
#[model]
#[derive(Clone, Debug)]
pub struct VCust {
    #[pk]
    pub id: i64,
    pub v: Custom,
    pub o: Option<Custom>,
}
v!(VCust, Custom);
