// Root of the in-crate harness (included into tonbo under cfg(tonbo_verif)).
// Lines tagged `//@s_xxx` are dropped by check.sh when module s_xxx does not compile against the
// tree under test (a changed internal signature), so that the remaining suites still decide.
#[path = "/verif/engine/incrate/core.rs"]
pub mod core;
#[path = "/verif/engine/incrate/exec.rs"]
pub mod exec;
#[path = "/verif/engine/incrate/tracefs.rs"]
pub mod tracefs;
#[path = "/verif/engine/incrate/util.rs"]
pub mod util;
#[path = "/verif/engine/incrate/s_frame.rs"] mod s_frame; //@s_frame
#[path = "/verif/engine/incrate/s_mem.rs"] mod s_mem; //@s_mem
#[path = "/verif/engine/incrate/s_key.rs"] mod s_key; //@s_key
#[path = "/verif/engine/incrate/s_schema.rs"] mod s_schema; //@s_schema
#[path = "/verif/engine/incrate/s_merge.rs"] mod s_merge; //@s_merge
#[path = "/verif/engine/incrate/s_walstore.rs"] mod s_walstore; //@s_walstore
#[path = "/verif/engine/incrate/s_walwriter.rs"] mod s_walwriter; //@s_walwriter
#[path = "/verif/engine/incrate/s_manifest.rs"] mod s_manifest; //@s_manifest
#[path = "/verif/engine/incrate/s_plan.rs"] mod s_plan; //@s_plan
#[path = "/verif/engine/incrate/s_driver.rs"] mod s_driver; //@s_driver
#[path = "/verif/engine/incrate/s_sst.rs"] mod s_sst; //@s_sst
#[path = "/verif/engine/incrate/s_db.rs"] mod s_db; //@s_db
#[path = "/verif/engine/incrate/s_txn.rs"] mod s_txn; //@s_txn
#[path = "/verif/engine/incrate/s_dbcrash.rs"] mod s_dbcrash; //@s_dbcrash
#[path = "/verif/engine/incrate/s_dbmore.rs"] mod s_dbmore; //@s_dbmore
#[path = "/verif/engine/incrate/s_conc.rs"] mod s_conc; //@s_conc
#[path = "/verif/engine/incrate/s_dbfault.rs"] mod s_dbfault; //@s_dbfault
#[path = "/verif/engine/incrate/s_throttle.rs"] mod s_throttle; //@s_throttle
#[path = "/verif/engine/incrate/s_reject.rs"] mod s_reject; //@s_reject
#[path = "/verif/engine/incrate/s_filter.rs"] mod s_filter; //@s_filter
#[path = "/verif/engine/incrate/s_types.rs"] mod s_types; //@s_types

const _SRC_HASH: Option<&str> = option_env!("TONBO_VERIF_HASH");
const DROPPED: Option<&str> = option_env!("TONBO_VERIF_DROPPED");

type SuiteFn = fn(&core::Ctx);

fn registry() -> Vec<(&'static [&'static str], SuiteFn)> {
    vec![
        (&["C08"], s_frame::run), //@s_frame
        (&["C24", "C01", "C22", "C23", "C04", "C20"], s_mem::run), //@s_mem
        (&["C21", "C22"], s_key::run), //@s_key
        (&["C22", "C15"], s_schema::run), //@s_schema
        (&["C01", "C05", "C20", "C23"], s_merge::run), //@s_merge
        (&["C09", "C07", "C11", "C27"], s_walstore::run), //@s_walstore
        (&["C10", "C25", "C27", "C06", "C07"], s_walwriter::run), //@s_walwriter
        (&["C13", "C14", "C15", "C25"], s_manifest::run), //@s_manifest
        (&["C17", "C18", "C29", "C11"], s_plan::run), //@s_plan
        (&["C18", "C26", "C29", "C25"], s_driver::run), //@s_driver
        (&["C16", "C19", "C01", "C02", "C23", "C25"], s_sst::run), //@s_sst
        (&["C01", "C02", "C23", "C12", "C06", "C03", "C05", "C28"], s_db::run), //@s_db
        (&["C04", "C05"], s_txn::run), //@s_txn
        (&["C05", "C06", "C07", "C11", "C12", "C23", "C27"], s_dbcrash::run), //@s_dbcrash
        (&["C01", "C02", "C06", "C11", "C12", "C20", "C23", "C24", "C27"], s_dbmore::run), //@s_dbmore
        (&["C28", "C04", "C03", "C06", "C11", "C12"], s_conc::run), //@s_conc
        (&["C25", "C05"], s_dbfault::run), //@s_dbfault
        (&["C26"], s_throttle::run), //@s_throttle
        (&["C22"], s_reject::run), //@s_reject
        (&["C20"], s_filter::run), //@s_filter
        (&["C01", "C20"], s_types::run), //@s_types
    ]
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let mode = args.get(2).cloned().unwrap_or_else(|| "quick".into());
    let mut tier = if mode == "thorough" { core::Tier::Thorough } else { core::Tier::Quick };
    let mut filter = None;
    if mode == "replay" {
        let f = args.get(3).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).expect("read")).expect("json");
        filter = Some((v["suite"].as_str().unwrap_or("").to_string(), v["case"].as_str().unwrap_or("").to_string()));
        if v["tier"].as_str() == Some("thorough") {
            tier = core::Tier::Thorough;
        }
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let listed = core::parse_known(&core::verif_dir().join("known_findings.txt"), &prop);
    let ctx: &'static core::Ctx = Box::leak(Box::new(core::Ctx {
        prop: prop.clone(),
        tier,
        seed,
        filter,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8),
        suites: Default::default(),
        violations: Default::default(),
        known: Default::default(),
        listed,
        started: std::time::Instant::now(),
    }));
    core::install_panic_hook();
    core::watchdog(ctx);
    let mut ran = 0;
    for (props, f) in registry() {
        if props.contains(&prop.as_str()) {
            f(ctx);
            ran += 1;
        }
    }
    if let Some(d) = DROPPED {
        for m in d.split_whitespace() {
            ctx.suites.lock().unwrap().entry(m.to_string()).or_default().skipped =
                Some("does not compile against this tree (internal interface changed)".into());
        }
    }
    if ran == 0 {
        eprintln!("no suite registered for {prop}");
        if DROPPED.is_none_or(|d| d.is_empty()) {
            std::process::exit(2);
        }
    }
    let code = core::finish(ctx);
    std::process::exit(code);
}
