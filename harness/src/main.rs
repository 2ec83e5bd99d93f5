//! Bounded exhaustive checker for butane.  `bmc <property> <quick|thorough>`
mod backends;
mod c01;
mod c02;
mod c03;
mod c07;
mod c08;
mod c09;
mod c05;
mod c10;
mod c13;
mod c04;
mod c06;
mod c20;
mod c19;
mod gen;
mod c17;
mod c18;
mod c15;
mod c16;
mod c24;
mod c25;
mod c23;
mod c21;
mod c12;
mod c14;
mod engine;
mod fsctl;
mod host;
mod models;
mod refmodel;
mod values;

use host::Check;
pub fn checks() -> Vec<Check> {
    const MC: &str = "model_checking";
    vec![
        Check { id: "C01", level: MC, run: c01::run, rule: c01::RULE },
        Check { id: "C02", level: MC, run: c02::run, rule: c02::RULE },
        Check { id: "C03", level: MC, run: c03::run, rule: c03::RULE },
        Check { id: "C07", level: MC, run: c07::run, rule: c07::RULE },
        Check { id: "C08", level: MC, run: c08::run, rule: c08::RULE },
        Check { id: "C09", level: MC, run: c09::run, rule: c09::RULE },
        Check { id: "C05", level: MC, run: c05::run, rule: c05::RULE },
        Check { id: "C10", level: MC, run: c10::run, rule: c10::RULE },
        Check { id: "C13", level: MC, run: c13::run, rule: c13::RULE },
        Check { id: "C04", level: MC, run: c04::run, rule: c04::RULE },
        Check { id: "C06", level: MC, run: c06::run, rule: c06::RULE },
        Check { id: "C20", level: MC, run: c20::run, rule: c20::RULE },
        Check { id: "C19", level: MC, run: c19::run, rule: c19::RULE },
        Check { id: "C17", level: MC, run: c17::run, rule: c17::RULE },
        Check { id: "C18", level: MC, run: c18::run, rule: c18::RULE },
        Check { id: "C15", level: MC, run: c15::run, rule: c15::RULE },
        Check { id: "C16", level: MC, run: c16::run, rule: c16::RULE },
        Check { id: "C24", level: MC, run: c24::run, rule: c24::RULE },
        Check { id: "C25", level: MC, run: c25::run, rule: c25::RULE },
        Check { id: "C23", level: MC, run: c23::run, rule: c23::RULE },
        Check { id: "C21", level: MC, run: c21::run, rule: c21::RULE },
        Check { id: "C12", level: MC, run: c12::run, rule: c12::RULE },
        Check { id: "C14", level: MC, run: c14::run, rule: c14::RULE },
    ]
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).is_some_and(|a| a == "fsop") {
        c12::child(&args[2], &args[3]);
    }
    if args.get(1).is_some_and(|a| a == "sql") {
        // debugging aid: bmc sql <cfg> <sql>...   (last one is a query printing column 0)
        let cfg = *backends::ALL.iter().find(|c| format!("{c:?}") == args[2]).expect("cfg");
        let db = backends::Db::new(cfg.be(), false);
        let c = backends::open(cfg, &db.conn_str).expect("open");
        for s in &args[3..] {
            eprintln!("{s}: {:?}", c.execute(s));
        }
        backends::shutdown();
        std::process::exit(0);
    }
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = args.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let verif = std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/..").into()));
    let verif = verif.canonicalize().unwrap_or(verif);
    let Some(c) = checks().into_iter().find(|c| c.id == id) else {
        eprintln!("unknown check {id}");
        std::process::exit(2);
    };
    host::go(c, &tier, verif);
}
