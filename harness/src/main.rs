//! mqttmon: runtime monitors for mqttbytes. See ../../DESIGN.md.
//!
//!   mqttmon check ID [--part LABEL=PROGRAM ARG.. --] ...   run a check, write evidence, report
//!   mqttmon case ID WORKLOAD INDEX                          run one case (VERIF_SEED, VERIF_TIER)
//!   mqttmon replay FILE                                     run the case a replay file names
//!   mqttmon worker ID SLOTS OUT                             (internal) run the workloads

mod alloc;
mod conv;
mod gen;
mod mon;
mod p_bad;
mod p_codec;
mod p_env;
mod p_eq;
mod p_err;
mod p_stream;
mod p_time;
mod p_topic;
mod p_write;
mod refm;
mod rng;
mod world;

#[cfg(not(miri))]
#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn all() -> Vec<mon::Check> {
    let mut v = vec![];
    v.extend(p_codec::checks());
    v.extend(p_bad::checks());
    v.extend(p_stream::checks());
    v.extend(p_topic::checks());
    v.extend(p_write::checks());
    v.extend(p_env::checks());
    v.extend(p_eq::checks());
    v.extend(p_err::checks());
    v.extend(p_time::checks());
    v
}

/// Random workloads of the quick tier are sized so that a check takes 10 to 30 seconds on 8 cores.
fn scale(id: &str) -> u64 {
    match id {
        "C01" | "C13" | "C14" | "C02" => 1,
        "C18" | "C27" => 2,
        "C33" => 4,
        "C17" | "C08" | "C29" => 8,
        "C07" => 12,
        "C09" | "C11" => 40,
        "C19" | "C05" | "C16" | "C21" | "C22" | "C24" | "C25" | "C30" => 8,
        _ => 12,
    }
}

fn find(id: &str) -> mon::Check {
    match all().into_iter().find(|c| c.id == id) {
        Some(mut c) => {
            for w in c.workloads.iter_mut() {
                // those that enumerate have the same number of cases in both tiers
                if w.quick < w.thorough && w.threads == 0 && w.chunk == 64 {
                    w.quick = (w.quick * scale(id)).min(w.thorough);
                }
            }
            c
        }
        None => {
            eprintln!("no check {}", id);
            std::process::exit(3)
        }
    }
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let a = mon::Args::from_env();
    let arg = |i: usize| argv.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => {
            let me = std::env::current_exe().unwrap().to_string_lossy().to_string();
            let mut parts = vec![mon::Part { label: "main".into(), cmd: vec![me], salt: 0 }];
            let mut i = 3;
            while i < argv.len() {
                if argv[i] == "--part" {
                    let (label, prog) = argv[i + 1].split_once('=').unwrap();
                    let mut cmd = vec![prog.to_string()];
                    i += 2;
                    while i < argv.len() && argv[i] != "--" {
                        cmd.push(argv[i].clone());
                        i += 1;
                    }
                    parts.push(mon::Part { label: label.into(), cmd, salt: if arg(2) == "C31" { 0 } else { parts.len() as u64 } });
                }
                i += 1;
            }
            mon::supervise(&find(arg(2)), &a, &parts)
        }
        "worker" => mon::worker(&find(arg(2)), &a, arg(3), arg(4)),
        "case" => mon::run_case(&find(arg(2)), &a, arg(3), arg(4).parse().unwrap_or(0)),
        "replay" => {
            let text = std::fs::read_to_string(arg(2)).unwrap_or_default();
            let get = |k: &str| {
                text.lines().find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix(": "))).unwrap_or("").to_string()
            };
            let mut a = a;
            a.seed = get("seed").parse().unwrap_or(1);
            a.tier = if get("tier") == "thorough" { mon::Tier::Thorough } else { mon::Tier::Quick };
            mon::run_case(&find(&get("property")), &a, &get("workload"), get("index").parse().unwrap_or(0))
        }
        "list" => {
            for c in all() {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("see main.rs");
            3
        }
    };
    std::process::exit(code)
}
