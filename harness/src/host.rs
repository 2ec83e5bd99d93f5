//! Runs one check: in this program, or in a program which a check has generated.
use crate::{backends, engine};

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    #[allow(dead_code)]
    pub rule: &'static str,
    pub run: fn(&engine::Ctx),
}
pub fn go(c: Check, tier: &str, verif: std::path::PathBuf) -> ! {
    // Panics of the code under test are outcomes; only the engine's own are worth printing.
    if std::env::var("BMC_PANICS").is_err() {
        std::panic::set_hook(Box::new(|info| {
            let m = info.payload().downcast_ref::<String>().cloned()
                .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if m.starts_with("ENGINE") {
                eprintln!("{info}");
            }
        }));
    }
    // Resource limits: a run-away must end as "no answer", not take the machine down.
    unsafe {
        // sqlite's memory statistics serialise all allocations of all threads on one mutex.
        rusqlite::ffi::sqlite3_config(rusqlite::ffi::SQLITE_CONFIG_MEMSTATUS, 0 as libc::c_int);
        let lim = libc::rlimit { rlim_cur: 26 << 30, rlim_max: 26 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    let hard = if tier == "thorough" { 4 * 3600 } else { 860 };
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(hard));
        eprintln!("ENGINE: hard time limit");
        std::process::exit(2);
    });
    let ctx = engine::Ctx::new(c.id, tier, c.level, verif);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.run)(&ctx)));
    let code = match r {
        Ok(()) => ctx.finish(),
        Err(e) => {
            let m = e.downcast_ref::<String>().map(|s| s.as_str()).or(e.downcast_ref::<&str>().copied()).unwrap_or("");
            eprintln!("{}: the checker itself failed: {m}", c.id);
            2
        }
    };
    backends::shutdown();
    std::process::exit(code);
}
