mod engine;
mod ffi;
mod hist;
mod step;
mod hw;
mod props;

use std::collections::HashMap;

fn main() {
    let mut a: HashMap<String, String> = HashMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let v = it.next().unwrap_or_default();
        a.insert(k.trim_start_matches('-').to_string(), v);
    }
    let tab = ffi::load(&a["lib"]);
    let job = props::Job {
        tab,
        part: a["part"].clone(),
        cases: a.get("cases").map(|s| s.parse().unwrap()).unwrap_or(1000),
        seed: a.get("seed").map(|s| s.parse().unwrap()).unwrap_or(1),
        cpus: a.get("cpus").cloned().unwrap_or_default(),
    };
    let res = if let Some(f) = a.get("replay") {
        let s = std::fs::read_to_string(f).unwrap();
        let v: serde_json::Value = serde_json::from_str(&s).unwrap();
        props::replay(&job, v["case"].clone())
    } else {
        props::run(&job)
    };
    let s = serde_json::to_string(&res).unwrap();
    match a.get("out") {
        Some(f) => std::fs::write(f, s).unwrap(),
        None => println!("{s}"),
    }
}
