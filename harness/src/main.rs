mod core;
mod fake;
mod gen;
mod p_cancel;
mod p_cluster;
mod p_defense;
mod p_master;
mod p_memory;
mod p_queue;
mod p_redis;
mod p_system;
mod p_threads;
mod p_wait;
mod vt;

use crate::core::*;

#[global_allocator]
static ALLOC: p_memory::Counting = p_memory::Counting;

macro_rules! props {
    ($mac:ident, $id:expr) => {
        match $id {
            "P05" => $mac!(p_defense::P05),
            "P06" => $mac!(p_defense::P06),
            "P07" => $mac!(p_defense::P07),
            "P08" => $mac!(p_master::P08),
            "P09" => $mac!(p_master::P09),
            "P10" => $mac!(p_master::P10),
            "P11" => $mac!(p_master::P11),
            "P12" => $mac!(p_master::P12),
            "P13" => $mac!(p_queue::P13),
            "P14" => $mac!(p_queue::P14),
            "P15" => $mac!(p_queue::P15),
            "P16" => $mac!(p_queue::P16),
            "P01" => $mac!(p_system::P01),
            "P02" => $mac!(p_system::P02),
            "P03" => $mac!(p_system::P03),
            "P04" => $mac!(p_system::P04),
            "P17" => $mac!(p_system::P17),
            "P18" => $mac!(p_redis::P18),
            "P19" => $mac!(p_redis::P19),
            "P20" => $mac!(p_redis::P20),
            "P21" => $mac!(p_redis::P21),
            "P22" => $mac!(p_cancel::P22),
            "P23" => $mac!(p_system::P23),
            "P24" => $mac!(p_defense::P24),
            "P25" => $mac!(p_threads::P25),
            "P26" => $mac!(p_memory::P26),
            "P27" => $mac!(p_cluster::P27),
            "P28" => $mac!(p_wait::P28),
            o => {
                eprintln!("unknown property {o}");
                std::process::exit(2)
            }
        }
    };
}

fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let out = opt(&args, "--out").unwrap();
            let seed: u64 = opt(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let shard: u64 = opt(&args, "--shard").and_then(|s| s.parse().ok()).unwrap_or(0);
            let shards: u64 = opt(&args, "--shards").and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough = opt(&args, "--tier").as_deref() == Some("thorough");
            let scale: f64 = opt(&args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
            install_panic_hook(Some(format!("{out}.journal")));
            start_watchdog(true);
            macro_rules! w {
                ($p:ty) => {
                    worker::<$p>(seed, shard, shards, thorough, scale, &out)
                };
            }
            props!(w, args[2].as_str());
            std::process::exit(0);
        }
        Some("strings") => {
            install_panic_hook(None);
            // strings SALT N NAMES... OUT
            let names = args[4..args.len() - 1].to_vec();
            p_system::strings_main(&args[2], args[3].parse().unwrap(), names);
        }
        Some("serve") => {
            // the model server on a socket, to be compared with a real one (tools/compare_redis.py)
            let f = fake::Fake::start();
            println!("{}", f.path);
            let _ = std::io::Read::read(&mut std::io::stdin(), &mut [0]);
        }
        Some("replay") => {
            install_panic_hook(None);
            start_watchdog(true);
            let text = std::fs::read_to_string(&args[3]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("json");
            let case = v.get("case").cloned().unwrap_or(v);
            macro_rules! r {
                ($p:ty) => {
                    replay::<$p>(case)
                };
            }
            let r: R = props!(r, args[2].as_str());
            match r {
                Ok(()) => {
                    eprintln!("held");
                    std::process::exit(0)
                }
                Err(m) => {
                    eprintln!("violated: {m}");
                    std::process::exit(1)
                }
            }
        }
        _ => {
            eprintln!("usage: mcap-verif worker|replay <property> ...");
            std::process::exit(2)
        }
    }
}
