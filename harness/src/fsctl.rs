//! Real processes whose file operations are controlled one by one (see shim/shim.c).
use std::io::{BufRead, BufReader, Write};
use std::os::fd::{FromRawFd, IntoRawFd, OwnedFd};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    /// About to do this: operation, path below the root, length, digest of everything learned so far.
    Op(String, String, i64, String),
    /// Ended, with what it said.
    Done(String),
    Died,
}
pub struct Proc {
    child: Child,
    to: std::fs::File,
    from: BufReader<std::fs::File>,
    pub pid: u32,
}
fn pipe() -> (OwnedFd, OwnedFd) {
    let mut p = [0i32; 2];
    let r = unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) };
    assert!(r == 0, "ENGINE pipe");
    unsafe { (OwnedFd::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1])) }
}
/// The compiled shim.
pub fn shim(verif: &Path) -> PathBuf {
    let src = verif.join("harness/shim/shim.c");
    let so = verif.join("build/shim.so");
    let new = |p: &Path| std::fs::metadata(p).and_then(|m| m.modified()).ok();
    if new(&so) <= new(&src) {
        let tmp = verif.join(format!("build/shim.{}.so", std::process::id()));
        let ok = Command::new("gcc").args(["-O1", "-shared", "-fPIC", "-o"]).arg(&tmp).arg(&src).arg("-ldl").status().map(|s| s.success());
        assert!(matches!(ok, Ok(true)), "ENGINE shim");
        std::fs::rename(&tmp, &so).expect("ENGINE shim");
    }
    so
}
impl Proc {
    pub fn start(so: &Path, sub: &str, root: &Path, script: &str, env: &[(&str, &str)]) -> Proc {
        let (cr, pw) = pipe();
        let (pr, cw) = pipe();
        let (a, b) = (cr.into_raw_fd(), cw.into_raw_fd());
        let mut c = Command::new(std::env::current_exe().expect("ENGINE exe"));
        c.arg(sub).arg(root).arg(script).env("LD_PRELOAD", so).env("SHIM_ROOT", root).stdin(Stdio::null()).stdout(Stdio::null());
        if std::env::var("BMC_PANICS").is_err() {
            c.stderr(Stdio::null());
        }
        c.envs(env.iter().copied());
        unsafe {
            c.pre_exec(move || {
                // the pipes may themselves have these numbers
                let x = libc::fcntl(a, libc::F_DUPFD, 300);
                let y = libc::fcntl(b, libc::F_DUPFD, 300);
                libc::dup2(x, 198);
                libc::dup2(y, 199);
                libc::close(x);
                libc::close(y);
                Ok(())
            });
        }
        let child = c.spawn().unwrap_or_else(|e| panic!("ENGINE spawn {e}"));
        unsafe {
            libc::close(a);
            libc::close(b);
        }
        Proc { pid: child.id(), child, to: std::fs::File::from(pw), from: BufReader::new(std::fs::File::from(pr)) }
    }
    /// The next thing it wants to do.
    pub fn next(&mut self) -> Ev {
        let mut l = String::new();
        match self.from.read_line(&mut l) {
            Ok(0) | Err(_) => {
                let _ = self.child.wait();
                return Ev::Died;
            }
            _ => (),
        }
        let f: Vec<&str> = l.trim_end_matches('\n').split('\t').collect();
        match f[..] {
            ["done", what] => {
                let what = what.to_string();
                let _ = self.child.wait();
                Ev::Done(what)
            }
            [op, path, n, dig] => Ev::Op(op.into(), path.into(), n.parse().unwrap_or(0), dig.into()),
            _ => panic!("ENGINE shim said {l:?}"),
        }
    }
    pub fn tell(&mut self, c: char) {
        let _ = self.to.write_all(&[c as u8]);
        if c != 'g' {
            let _ = self.child.wait();
        }
    }
    /// Descriptors below the root: which file each is, and whether that has been deleted.
    pub fn open_files(&self, root: &Path) -> Vec<(String, String)> {
        let mut v = vec![];
        for e in std::fs::read_dir(format!("/proc/{}/fd", self.pid)).into_iter().flatten().flatten() {
            if let Ok(t) = std::fs::read_link(e.path()) {
                if t.starts_with(root) {
                    v.push((e.file_name().to_string_lossy().into_owned(), t.to_string_lossy()[root.to_string_lossy().len()..].to_string()));
                }
            }
        }
        v.sort();
        v
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
/// In the child: what follows is controlled.
pub fn begin() {
    let _ = std::fs::File::open("/shim/on");
}
pub fn end(what: &str) -> ! {
    let _ = std::fs::File::open("/shim/off");
    let mut f = unsafe { std::fs::File::from_raw_fd(199) };
    let _ = f.write_all(format!("done\t{}\n", what.replace(['\n', '\t'], " ")).as_bytes());
    std::process::exit(0)
}
/// Everything below a directory: (path, contents; None for a directory).
pub fn tree(root: &Path) -> Vec<(String, Option<Vec<u8>>)> {
    fn rec(d: &Path, rel: &str, v: &mut Vec<(String, Option<Vec<u8>>)>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let rel = format!("{rel}/{}", e.file_name().to_string_lossy());
            if e.path().is_dir() {
                v.push((rel.clone(), None));
                rec(&e.path(), &rel, v);
            } else {
                v.push((rel, Some(std::fs::read(e.path()).unwrap_or_default())));
            }
        }
    }
    let mut v = vec![];
    rec(root, "", &mut v);
    v.sort();
    v
}
