//! C25: partial-column results agree with the full objects.
use crate::engine::*;
use crate::gen;

pub const RULE: &str = "every ordered choice of columns within the stated bounds, as a partial result type, loaded and loaded-first through every backend and interface with every combination of filter, order, limit and offset (a fixed selection of them on most types), compared field by field with the full objects the same query loads; non-trivial = more than one row";

const W: &[(&str, &str)] = &[
    ("id", "AutoPk<i64>"), ("a", "Option<i32>"), ("b", "i32"), ("name", "String"), ("r#type", "Option<String>"),
    ("g", "ForeignKey<G>"), ("og", "Option<ForeignKey<G>>"), ("j", "serde_json::Value"),
];
const V: &[(&str, &str)] = &[("b", "i32"), ("name", "String"), ("e", "f64"), ("a", "Option<i32>")];

fn ordered(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    for _ in 0..k {
        all = all.into_iter().flat_map(|v: Vec<usize>| (0..n).filter(|i| !v.contains(i)).map(|i| { let mut v = v.clone(); v.push(i); v }).collect::<Vec<_>>()).collect();
    }
    all
}
fn module(model: &str, f: &str, cols: &[(&str, &str)], sets: &[Vec<usize>]) -> String {
    let (mut types, mut list) = (String::new(), String::new());
    for s in sets {
        let name = format!("{}{}", model.to_uppercase(), s.iter().map(|i| i.to_string()).collect::<String>());
        types += &format!("#[dataresult({model})]\npub struct {name} {{\n");
        for i in s {
            types += &format!("    pub {}: {},\n", cols[*i].0, cols[*i].1);
        }
        types += &format!("}}\ndump!({name}: {});\n", s.iter().map(|i| cols[*i].0).collect::<Vec<_>>().join(" "));
        list += &format!("        Part {{ name: \"{name}\", cols: &[{}], run: rows::<{name}> }},\n", s.iter().map(|i| format!("\"{}\"", cols[*i].0)).collect::<Vec<_>>().join(", "));
    }
    format!("{types}pub fn {f}() -> Vec<Part> {{\n    vec![\n{list}    ]\n}}\n")
}
pub fn run(ctx: &Ctx) {
    // every set of columns in the order of the model, every order of up to `k` of them, and turns of all
    let sets = |n: usize, k: usize| -> Vec<Vec<usize>> {
        let mut out: Vec<Vec<usize>> = (1..1u32 << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect();
        out.extend((1..=k).flat_map(|k| ordered(n, k)));
        out.extend((0..n).map(|r| (0..n).map(|i| (i + r) % n).collect()));
        out.push((0..n).rev().collect());
        out.sort();
        out.dedup();
        out
    };
    let k = if ctx.thorough { 4 } else { 3 };
    ctx.bound("columns in any order", k);
    let parts = format!(
        "use super::*;\nuse butane::dataresult;\n{}{}",
        module("W", "w", W, &sets(W.len(), if ctx.thorough { 4 } else { 3 })),
        module("v", "v", V, &sets(V.len(), 4))
    );
    let prog = include_str!("c25_prog.rs").replace("HARNESS", &ctx.verif.join("harness").to_string_lossy());
    let name = if ctx.thorough { "c25t" } else { "c25" };
    gen::host(ctx, name, &[("main.rs".into(), prog), ("parts.rs".into(), parts), ("rule.txt".into(), RULE.into())]);
}
