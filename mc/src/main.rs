#![allow(dead_code, static_mut_refs)]
mod explore;
mod http;
mod inflate;
mod net;
mod os;
mod props;
mod rt;
mod run;
mod tsan;

use run::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    unsafe {
        // fixed address space layout (replays across processes), UTC
        let p = libc::personality(0xffffffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var("MC_NOASLR").is_err() {
            if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
                std::env::set_var("MC_NOASLR", "1");
                use std::os::unix::process::CommandExt;
                let _ = std::process::Command::new("/proc/self/exe").args(&args[1..]).exec();
            }
        }
    }
    std::env::set_var("TZ", "UTC");
    // private scratch directory, removed at the end: starry's logger writes into the working directory
    let scratch = format!("/tmp/mc-{}", std::process::id());
    std::fs::create_dir_all(&scratch).expect("scratch");
    std::env::set_current_dir(&scratch).expect("chdir");
    rt::init_process();
    let code = real_main(&args, &scratch);
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(code);
}

fn real_main(args: &[String], _scratch: &str) -> i32 {
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = args[2].clone();
            let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
            load_known(&prop);
            // thorough: first everything within the quick bounds, then as deep as the time allows
            let mut r = Run::new(&prop, false);
            if !props::run(&prop, &mut r) {
                eprintln!("unknown property {}", prop);
                return 2;
            }
            if thorough && !r.failed() {
                let mut d = Run::new(&prop, true);
                d.t0 = r.t0;
                d.assumptions = std::mem::take(&mut r.assumptions);
                d.earlier = std::mem::take(&mut r.stats);
                props::run(&prop, &mut d);
                r = d;
            }
            r.finish()
        }
        Some("replay") => {
            let (prop, thorough, rp) = read_replay(&args[2]).expect("replay file");
            let mut r = Run::new(&prop, thorough);
            r.replay = Some(rp);
            props::run(&prop, &mut r);
            r.finish()
        }
        _ => {
            eprintln!("usage: mc check <property> | mc replay <file>");
            2
        }
    }
}
