//! Models shared by the checks.  Field order and kinds are chosen to exercise every code path.
#![allow(dead_code)]
use butane::{model, ForeignKey, Many};

// ---- queries (C01, C02, C17, C25) ----
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct QGrp {
    #[pk]
    pub id: i64,
    pub name: String,
    pub rank: Option<i32>,
    pub parent: Option<i64>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct QTag {
    #[pk]
    pub name: String,
    pub weight: i32,
    pub grp: Option<ForeignKey<QGrp>>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct QItem {
    #[pk]
    pub id: i64,
    pub n: Option<i32>,
    pub m: i32,
    pub s: Option<String>,
    pub b: bool,
    pub d: f64,
    pub big: i64,
    pub grp: Option<ForeignKey<QGrp>>,
    pub tags: Many<QTag>,
}

// ---- saving and deleting (C03) ----
#[model]
#[derive(Clone, Debug)]
pub struct KAuto {
    pub v: Option<String>,
    pub id: butane::AutoPk<i64>,
    #[unique]
    pub u: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct KAutoSmall {
    pub id: butane::AutoPk<i32>,
    #[unique]
    pub u: i32,
    pub v: Option<String>,
}
#[model]
#[derive(Clone, Debug)]
pub struct KAutoOnly {
    pub id: butane::AutoPk<i64>,
}
#[model]
#[derive(Clone, Debug)]
pub struct KInt {
    #[pk]
    pub id: i64,
    #[unique]
    pub u: i32,
    pub v: Option<String>,
}
#[model]
#[derive(Clone, Debug)]
pub struct KText {
    pub v: Option<String>,
    #[unique]
    pub u: i32,
    #[pk]
    pub name: String,
}
#[model]
#[derive(Clone, Debug)]
pub struct KOnly {
    #[pk]
    pub name: String,
}

// ---- many-to-many (C05) ----
#[model]
#[derive(Clone, Debug)]
pub struct MText {
    #[pk]
    pub name: String,
}
#[model]
#[derive(Clone, Debug)]
pub struct MInt {
    #[pk]
    pub id: i64,
    pub note: Option<String>,
}
#[model]
#[derive(Clone, Debug)]
pub struct OAuto {
    pub id: butane::AutoPk<i64>,
    pub a: Many<MText>,
    pub v: i32,
    pub b: Many<MText>,
}
#[model]
#[derive(Clone, Debug)]
pub struct OText {
    #[pk]
    pub name: String,
    pub v: i32,
    pub a: Many<MInt>,
    pub b: Many<MInt>,
}

// ---- foreign keys (C06) ----
#[model]
#[derive(Clone, Debug)]
pub struct FInt {
    #[pk]
    pub id: i64,
    pub v: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct FText {
    pub v: i32,
    #[pk]
    pub name: String,
}
#[model]
#[derive(Clone, Debug)]
pub struct FAuto {
    pub v: i32,
    pub id: butane::AutoPk<i32>,
}
#[model]
#[derive(Clone, Debug)]
pub struct FUuid {
    #[pk]
    pub id: uuid::Uuid,
    pub v: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct RInt {
    #[pk]
    pub id: i64,
    pub f: ForeignKey<FInt>,
    pub o: Option<ForeignKey<FInt>>,
}
#[model]
#[derive(Clone, Debug)]
pub struct RText {
    #[pk]
    pub id: i64,
    pub o: Option<ForeignKey<FText>>,
    pub f: ForeignKey<FText>,
}
#[model]
#[derive(Clone, Debug)]
pub struct RAuto {
    pub f: ForeignKey<FAuto>,
    #[pk]
    pub id: i64,
    pub o: Option<ForeignKey<FAuto>>,
}
#[model]
#[derive(Clone, Debug)]
pub struct RUuid {
    #[pk]
    pub id: i64,
    pub f: ForeignKey<FUuid>,
    pub o: Option<ForeignKey<FUuid>>,
}
