//! The command line every program of the harness speaks.
use crate::cx::*;
pub fn run() {
    let av: Vec<String> = std::env::args().collect();
    let get = |k: &str| av.iter().position(|a| a == k).and_then(|i| av.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).map_or(d, |v| v.parse().unwrap());
    let sh = get("--shard").unwrap_or("0/1".into());
    let (i, n) = sh.split_once('/').unwrap();
    let a = Args {
        prop: av.get(1).cloned().unwrap_or_default(), seed: num("--seed", 1), thorough: get("--tier").as_deref() == Some("thorough"),
        shard: i.parse().unwrap(), shards: n.parse().unwrap(), out: get("--out").unwrap_or_default(),
        scratch: get("--scratch").unwrap_or("/tmp/hz-scratch".into()), work: num("--work", 100), secs: num("--secs", 600), only: get("--only"),
    };
    std::fs::create_dir_all(&a.scratch).unwrap();
    let hang = num("--hang", 30);
    let crash = get("--crash").unwrap_or(format!("{}/crash-{}", a.scratch, a.shard));
    let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        crate::sut::install();
        crate::sut::arm(&crash, hang);
        let mut cx = Cx::new(a);
        if !crate::checks::run(&mut cx) { eprintln!("no such check"); std::process::exit(2); }
        cx.finish();
    });
    if r.unwrap().join().is_err() { std::process::exit(78); }
}
