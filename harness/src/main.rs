mod jmtdrv;
mod jmtmore;
mod jmtreplay;
mod jmttrace;
mod memdb;
mod pmt;
mod pmtreplay;
mod restorereplay;
mod serreplay;
mod util;
use std::collections::HashMap;

fn main() {
    util::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args[1].as_str();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut i = 2;
    while i + 1 < args.len() {
        opt.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
        i += 2;
    }
    let num = |k: &str, d: u64| opt.get(k).map(|x| x.parse().expect("number")).unwrap_or(d);
    let s = |k: &str| opt.get(k).cloned().unwrap_or_default();
    match cmd {
        // --focus ID --seed N --count histories per shard --shards N --out prefix [--scale 1]
        "jmt-trace" => shards(&s("out"), num("shards", 1), num("count", 10), num("seed", 1), &|rng, shard| {
            jmtdrv::SCALE.with(|c| c.set(match s("scale").as_str() {
                "" => jmtdrv::Scale::Small,
                // half of them wide, half of them long
                _ if shard % 2 == 0 => jmtdrv::Scale::Crowd,
                _ => jmtdrv::Scale::Long,
            }));
            let mut evs = jmttrace::history(&s("focus"), rng);
            // whether updates can be computed and stored is for the checks of the properties about updates
            if !["C01", "C02", "C05", "C06", "C07", "C12"].contains(&s("focus").as_str()) {
                if let Some(i) = evs.iter().position(|e| (e["e"] == "commit" || e["e"] == "stored") && e["res"] != "ok") {
                    evs.truncate(i);
                }
            }
            evs
        }),
        "pmt-trace" => shards(&s("out"), num("shards", 1), num("count", 10), num("seed", 1), &|rng, _| pmt::history(&s("focus"), rng)),
        // --keep histories per shard put into the traces, out of --count run; --big with a large table
        "memdb-trace" => memdb::traces(&s("out"), num("shards", 1), num("keep", 50) as usize, num("count", 1000), num("big", 4), num("seed", 1), num("budget", 60)),
        "jmt-replay" => std::process::exit(jmtreplay::run(&s("focus"), &s("table"), &s("hist"), num("stride", 1), num("offset", 0), num("threads", 8) as usize, num("modes", 1) as usize)),
        // --table file --hist file --light 0|1 --stride N --offset N --threads N
        "pmt-replay" => std::process::exit(pmtreplay::run(&s("focus"), &s("table"), &s("hist"), num("light", 0) == 1, num("stride", 1), num("offset", 0), num("threads", 8) as usize)),
        "jmt-attack" => std::process::exit(jmtreplay::run_attack(&s("table"), num("stride", 1), num("inner", 1), num("offset", 0), num("threads", 8) as usize)),
        "restore-replay" => std::process::exit(restorereplay::run(&s("focus"), &s("table"), &s("hist"), num("stride", 1), num("inner", 1), num("offset", 0), num("threads", 8) as usize)),
        "pmt-known" => println!("{}", pmt::known_shared_leaf()),
        _ => {
            eprintln!("unknown command {cmd}");
            std::process::exit(2);
        }
    }
}

/// Write `shards` trace files with `count` histories each; shard i uses its own random stream.
fn shards(out: &str, shards: u64, count: u64, seed: u64, f: &(dyn Fn(&mut util::Rng, u64) -> Vec<serde_json::Value> + Sync)) {
    std::thread::scope(|sc| {
        for i in 0..shards {
            sc.spawn(move || {
                let mut evs = vec![];
                for j in 0..count {
                    let mut rng = util::Rng::new(seed, i * 1_000_003 + j);
                    evs.extend(f(&mut rng, i));
                }
                util::write_ndjson(&format!("{out}{i}.ndjson"), &evs);
            });
        }
    });
}
