mod alloc_guard;
mod drive;
mod enc;
mod engine;
mod props;
mod spec;
mod val;

use engine::Cfg;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::Command;

#[global_allocator]
static ALLOC: alloc_guard::Guard = alloc_guard::Guard;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let env = |k: &str| std::env::var(k).ok();
    let verif = PathBuf::from(env("VERIF_DIR").unwrap_or_else(|| "/verif".into()));
    let mut cfg = Cfg {
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        tier: env("VERIF_TIER").unwrap_or_else(|| "quick".into()),
        verif,
        scale: env("VERIF_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        status: None,
        only: env("VERIF_ONLY"),
    };
    let flag = |n: &str| args.iter().position(|a| a == n).map(|i| args.get(i + 1).cloned().unwrap_or_default());
    if let Some(t) = flag("--tier") {
        cfg.tier = t;
    }
    if args.first().map(String::as_str) == Some("--list") {
        for p in props::all() {
            println!("{}", p.id);
        }
        return;
    }
    let Some(id) = args.first().cloned() else {
        eprintln!("usage: bcverif ID [--tier quick|thorough] [--replay FILE]");
        std::process::exit(2);
    };
    let Some(prop) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    if let Some(st) = flag("--child") {
        cfg.status = Some(st.into());
        engine::install_hook();
        std::process::exit(engine::run_prop(&cfg, &prop));
    }
    if let Some(f) = flag("--replay") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("json");
        if v["crash"].as_bool() == Some(true) && flag("--direct").is_none() {
            let st = limited(&[&id, "--replay", &f, "--direct", "1", "--tier", v["tier"].as_str().unwrap_or("quick")], v["seed"].as_u64().unwrap_or(1));
            if crashed(&st) {
                println!("{}", died(&st));
                println!("VIOLATION property={id} replay={f}");
                std::process::exit(1);
            }
            println!("replayed case passes");
            return;
        }
        engine::install_hook();
        std::process::exit(engine::replay(&cfg, &prop, &f));
    }
    if let Some(ix) = flag("--index") {
        engine::install_hook();
        let sub = flag("--sub").unwrap_or_default();
        std::process::exit(engine::run_index(&cfg, &prop, &sub, ix.parse().expect("index")));
    }
    // supervisor: a crash or hang of the code under test must not take the verdict with it
    let status = std::env::temp_dir().join(format!("bcverif-{}-{}.status", id, std::process::id()));
    std::fs::write(&status, vec![0u8; 64 * 8]).expect("status file");
    let exe = std::env::current_exe().expect("exe");
    let st = Command::new(&exe).args([&id, "--tier", &cfg.tier, "--child"]).arg(&status).status().expect("spawn");
    let data = std::fs::read(&status).unwrap_or_default();
    let pend_path = status.with_extension("pending");
    let pend: Option<serde_json::Value> = std::fs::read_to_string(&pend_path).ok().and_then(|s| serde_json::from_str(&s).ok());
    let _ = std::fs::remove_file(&status);
    let _ = std::fs::remove_file(&pend_path);
    let hung = st.code() == Some(engine::HANG_EXIT);
    if let (Some(c), false) = (st.code(), hung) {
        std::process::exit(c);
    }
    if !hung && !crashed(&st) {
        eprintln!("ERROR: the check was ended from outside: {st}");
        std::process::exit(3);
    }
    let violation = |name: &str, what: String, mut v: serde_json::Value| -> ! {
        v["failure"] = what.clone().into();
        let p = engine::write_replay(&cfg, &id, name, &v);
        engine::crash_evidence(&cfg, &prop, &format!("{name}: {what}"));
        println!("{id} / {name}: {what}");
        println!("VIOLATION property={id} replay={p}");
        std::process::exit(1);
    };
    if let Some(mut v) = pend {
        if v["unconfirmed"].as_bool() != Some(true) {
            // the failure was established; only its minimisation died
            let name = v["sub"].as_str().unwrap_or("case").to_string();
            let what = v["failure"].as_str().unwrap_or("").to_string();
            violation(&name, what, v);
        }
        v["crash"] = true.into();
        v["seed"] = cfg.seed.into();
        let name = format!("pin-{}", v["pin"].as_str().unwrap_or(""));
        let tmp = std::env::temp_dir().join(format!("bcverif-{}-{}.replay", id, std::process::id()));
        std::fs::write(&tmp, v.to_string()).expect("replay");
        let again = limited(&[&id, "--replay", tmp.to_str().unwrap(), "--direct", "1"], cfg.seed);
        let _ = std::fs::remove_file(&tmp);
        if crashed(&again) {
            violation(&name, died(&again), v);
        }
    }
    for rec in data.chunks(64) {
        let n = u64::from_le_bytes(rec[..8].try_into().unwrap());
        if n == 0 {
            continue;
        }
        let sub = String::from_utf8_lossy(&rec[8..]).trim_end_matches('\0').to_string();
        let again = limited(&[&id, "--tier", &cfg.tier, "--index", &(n - 1).to_string(), "--sub", &sub], cfg.seed);
        if crashed(&again) {
            let v = serde_json::json!({"property": id, "crash": true, "sub": sub, "index": n - 1, "seed": cfg.seed, "tier": cfg.tier});
            violation(&format!("crash-{sub}"), died(&again), v);
        }
    }
    eprintln!("ERROR: the check died ({st}) and no single case reproduces it");
    std::process::exit(3);
}
/// Runs this program under a limit on processor time.
fn limited(args: &[&str], seed: u64) -> std::process::ExitStatus {
    let exe = std::env::current_exe().expect("exe");
    Command::new("/bin/bash")
        .args(["-c", &format!("ulimit -c 0; ulimit -S -t {}; exec \"$0\" \"$@\"", engine::HANG_CPU_SECS)])
        .arg(exe)
        .args(args)
        .env("VERIF_SEED", seed.to_string())
        .status()
        .expect("spawn")
}
fn died(st: &std::process::ExitStatus) -> String {
    match st.signal() {
        Some(24) => format!("a case of a few bytes does not end within {} s of processor time", engine::HANG_CPU_SECS),
        _ => format!("the process dies: {st}"),
    }
}
/// Died of a fault, an abort, or the limit on processor time (SIGXCPU).
fn crashed(st: &std::process::ExitStatus) -> bool {
    matches!(st.signal(), Some(4 | 6 | 7 | 8 | 11 | 24))
}
