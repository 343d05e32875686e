//! native driver: runs /repo's compiled code against the reference (search for failing inputs, replay)
mod codec;
#[allow(unused)] mod types;
mod probe;
mod refc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    if a.get(1).map(|s| s.as_str()) == Some("probe") { println!("{}", probe::probe()); return; }
    std::panic::set_hook(Box::new(|_| {}));
    let want: Vec<String> = arg("--props").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let lits: Vec<u64> = arg("--lits").map(|f| std::fs::read_to_string(f).unwrap().split_whitespace().filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let n: usize = arg("--n").and_then(|s| s.parse().ok()).unwrap_or(20);
    let only = arg("--only");
    let replay = arg("--replay").map(|h| codec::unhex(&h));
    let run = move || {
        let mut d = codec::Driver { want, only, r: refc::Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1), n, lits, fails: vec![], cases: 0, replay, alias: None };
        for _ in 0..8 { d.r.next(); }
        types::drive_all(&mut d);
        for (p, t, m) in &d.fails { println!("FAIL\t{p}\t{t}\t{}", m.replace(['\t', '\n'], " ")); }
        println!("DONE\t{}\t{}", d.cases, d.fails.len());
    };
    std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap().join().unwrap();
}
