//! Programs written, compiled and run by a check: generated crates which use butane the way its users do.
use crate::engine::*;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub struct Crate {
    pub dir: PathBuf,
    pub name: String,
    fresh: bool,
    hash: String,
}
fn write(p: &Path, text: &str) {
    if let Some(d) = p.parent() {
        std::fs::create_dir_all(d).expect("ENGINE mkdir");
    }
    std::fs::write(p, text).expect("ENGINE write");
}
/// Lays out a crate with the same dependencies as the harness, so that those are not built again.
/// `files` are below its src directory.
pub fn lay(ctx: &Ctx, name: &str, files: &[(String, String)]) -> Crate {
    let dir = ctx.verif.join("build/gen").join(name);
    let src = std::fs::read_to_string(ctx.verif.join("build/src.hash")).unwrap_or_default();
    let mut all: Vec<&(String, String)> = files.iter().collect();
    all.sort();
    let toml = std::fs::read_to_string(ctx.verif.join("harness/Cargo.toml")).expect("ENGINE harness/Cargo.toml");
    let toml = toml.replace("name = \"bmc\"", &format!("name = \"gen_{name}\"")) + &format!("\n[profile.dev.package.gen_{name}]\nopt-level = 0\n");
    let hash = format!("{:016x}", hash64(&(&src, &all, &toml)));
    let fresh = std::fs::read_to_string(dir.join("done")).ok().as_deref() == Some(&hash);
    if !fresh {
        let _ = std::fs::remove_dir_all(&dir);
        write(&dir.join("Cargo.toml"), &toml);
        std::fs::copy(ctx.verif.join("harness/Cargo.lock"), dir.join("Cargo.lock")).expect("ENGINE lock");
        for (f, text) in files {
            write(&dir.join("src").join(f), text);
        }
    }
    Crate { dir, name: name.into(), fresh, hash }
}
impl Crate {
    fn target(ctx: &Ctx) -> PathBuf {
        ctx.verif.join("harness/target")
    }
    fn cargo(&self, ctx: &Ctx, args: &[&str]) -> std::process::Output {
        Command::new("cargo").args(args).arg("--offline").current_dir(&self.dir)
            .env("CARGO_TARGET_DIR", Self::target(ctx)).env("CARGO_NET_OFFLINE", "true")
            .stdin(Stdio::null()).output().expect("ENGINE cargo")
    }
    /// Builds the whole crate; the compiler's errors if it does not compile.
    pub fn build(&self, ctx: &Ctx) -> Result<(), String> {
        if self.fresh {
            return Ok(());
        }
        let out = self.cargo(ctx, &["build", "-q"]);
        if out.status.success() {
            std::fs::write(self.dir.join("done"), &self.hash).expect("ENGINE write");
            return Ok(());
        }
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        assert!(out.status.code().is_some() && !err.contains("failed to select a version") && !err.contains("no matching package") && !err.contains("No space left"), "ENGINE cargo: {err}");
        let lines: Vec<&str> = err.lines().skip_while(|l| !l.starts_with("error")).take(40).collect();
        Err(lines.join("\n"))
    }
    pub fn bin(&self, ctx: &Ctx, name: &str) -> PathBuf {
        Self::target(ctx).join("debug").join(name)
    }
    /// Runs one of the programs; its output, or how it failed.
    pub fn run(&self, ctx: &Ctx, name: &str, args: &[&str], secs: u64) -> Result<String, String> {
        let out = Command::new("timeout").arg(secs.to_string()).arg(self.bin(ctx, name)).args(args).current_dir(&self.dir)
            .stdin(Stdio::null()).output().expect("ENGINE run");
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        if out.status.success() {
            Ok(text)
        } else {
            let err = String::from_utf8_lossy(&out.stderr).to_string();
            Err(format!("{:?}\n{text}\n{err}", out.status))
        }
    }
    /// Which of the programs (bins) compile? For programs which are meant to be rejected.
    pub fn accepted(&self, ctx: &Ctx) -> Vec<String> {
        let cached = self.dir.join("accepted");
        if self.fresh {
            if let Ok(s) = std::fs::read_to_string(&cached) {
                return s.lines().map(|l| l.to_string()).collect();
            }
        }
        let out = self.cargo(ctx, &["check", "--keep-going", "--bins", "--message-format=json"]);
        let text = String::from_utf8_lossy(&out.stdout);
        let mut ok = vec![];
        let mut lib = false;
        for l in text.lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if v["reason"] == "compiler-artifact" {
                if v["target"]["kind"][0] == "bin" {
                    ok.push(v["target"]["name"].as_str().unwrap_or("").to_string());
                } else if v["target"]["name"] == format!("gen_{}", self.name) {
                    lib = true;
                }
            }
        }
        assert!(lib || !self.dir.join("src/lib.rs").exists(), "ENGINE the library does not compile: {}", String::from_utf8_lossy(&out.stderr));
        ok.sort();
        std::fs::write(&cached, ok.join("\n")).expect("ENGINE write");
        std::fs::write(self.dir.join("done"), &self.hash).expect("ENGINE write");
        ok
    }
}
/// The compiler's errors, headed by the line of the program which the first points at.
pub fn pointed(krate: &Crate, e: &str) -> String {
    let line = e.lines().find(|l| l.contains("-->")).and_then(|l| {
        let mut p = l.rsplit("-->").next()?.trim().split(':');
        let (f, n) = (p.next()?, p.next()?.parse::<usize>().ok()?);
        let text = std::fs::read_to_string(krate.dir.join(f)).ok()?;
        text.lines().nth(n - 1).map(|s| s.trim().to_string())
    });
    format!("{}\n{e}", line.unwrap_or_default())
}
/// Lays out, builds and becomes a program which itself is the check. Returns only if it does not compile.
pub fn host(ctx: &Ctx, name: &str, files: &[(String, String)]) {
    let mut files = files.to_vec();
    shared(ctx, &mut files);
    let krate = lay(ctx, name, &files);
    if let Err(e) = krate.build(ctx) {
        ctx.violation("legal program does not compile", pointed(&krate, &e));
        return;
    }
    let code = Command::new(krate.bin(ctx, &format!("gen_{name}"))).arg(&ctx.tier).arg(&ctx.verif).current_dir(&krate.dir)
        .stdin(Stdio::null()).status().expect("ENGINE run").code().unwrap_or(2);
    std::process::exit(code);
}
/// What a program shares with the harness counts as its source.
pub fn shared(ctx: &Ctx, files: &mut Vec<(String, String)>) {
    for f in ["backends.rs", "engine.rs", "host.rs"] {
        files.push((format!("shared/{f}"), std::fs::read_to_string(ctx.verif.join("harness/src").join(f)).expect("ENGINE source")));
    }
}
