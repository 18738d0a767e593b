use sv::{drive, find::Finder};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    if a.get(1).map(|s| s == "replay").unwrap_or(false) {
        println!("{}", std::fs::read_to_string(&a[2]).unwrap_or_default());
        return;
    }
    let prop = a[1].clone();
    let quick = get("--tier").map(|t| t == "quick").unwrap_or(true);
    let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = get("--out").unwrap_or("finder.json".into());
    let trace = a.iter().any(|x| x == "--trace");
    drive::quiet();
    let o2 = out.clone();
    let th = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut f = Finder::new(&prop, quick, seed, trace, o2.clone());
        if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sv::run(&prop, &mut f))) {
            f.fail("the search completes", format!("panic outside a script run: {}", drive::panic_text(e)));
        }
        std::fs::write(&o2, f.report(&prop)).unwrap();
        if let Some(v) = &f.violation { println!("FAILED {v:?}"); }
        println!("{} evaluations, {:?}", f.evaluations, f.start.elapsed());
    }).unwrap();
    if th.join().is_err() { std::process::exit(3); }
    std::process::exit(0);
}
