//! replay NAME hex,hex,...   runs one obligation on the real code with the verifier's values
//! search NAME SEED SECONDS  draws values until the obligation fails on the real code (used only after an obligation failed or stayed undecided)
//! list                      names of all obligations
#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() { native::main() }
#[cfg(not(kani))]
mod native {
use obligations::{nd, registry};
/// Ok: the obligation holds; Err(None): the values do not meet the precondition; Err(Some): it fails
fn run(f: fn(), must_panic: bool) -> Result<(), Option<String>> {
    nd::NEVER.with(|n| n.set(false));
    let r = std::panic::catch_unwind(f);
    let never = nd::NEVER.with(|n| n.get());
    match r {
        Ok(()) => Ok(()),
        Err(e) => if e.is::<nd::Rejected>() { Err(None) } else if never { Err(Some("reached a point that the contract excludes (no panic where one is required, or an access before it)".into())) } else if must_panic { Ok(()) } else {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(Some(m))
        },
    }
}
thread_local! { static LOC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
/// Evaluates the obligations with one of the given prefixes on drawn values for `secs` seconds altogether. One JSON-like line per obligation:
/// name TAB tried TAB held TAB values-of-a-failure-or-dash TAB message
fn sweep(prefixes: &[&str], seed: u64, secs: f64) {
    let todo: Vec<_> = registry().into_iter().filter(|(n, _, _)| prefixes.iter().any(|p| n.starts_with(p))).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let threads = 8usize;
    // the executed contracts (x..) get half of the time, the obligations shared with the model checker the other half
    let nx = todo.iter().filter(|t| t.0.starts_with('x')).count();
    let nc = todo.len() - nx;
    let share = |n: &str| if n.starts_with('x') { secs * threads as f64 * (if nc == 0 { 1.0 } else { 0.5 }) / nx as f64 } else { secs * threads as f64 * (if nx == 0 { 1.0 } else { 0.5 }) / nc as f64 };
    let out = std::sync::Mutex::new(());
    let ghost = std::sync::Mutex::new(());
    std::thread::scope(|s| { for _ in 0..threads { s.spawn(|| loop {
        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if i >= todo.len() { break }
        let (n, f, mp) = todo[i];
        let _ghost = if n.starts_with("wrap") { Some(ghost.lock().unwrap()) } else { None }; // these share the ghost state
        let t = std::time::Instant::now();
        let (mut tried, mut held, mut fail) = (0u64, 0u64, None);
        let budget = share(n);
        let h = n.bytes().fold(seed, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
        while tried < 4 || (t.elapsed().as_secs_f64() < budget && tried < 200_000) {
            tried += 1;
            nd::SRC.with(|s| *s.borrow_mut() = nd::Src::Random(h.wrapping_mul(1_000_003).wrapping_add(tried)));
            nd::LOG.with(|l| l.borrow_mut().clear());
            match run(f, mp) {
                Ok(()) => held += 1,
                Err(None) => {}
                Err(Some(m)) => { fail = Some((nd::LOG.with(|l| hex(&l.borrow())), format!("{} (at {})", m, LOC.with(|c| c.borrow().clone())))); break }
            }
        }
        let _g = out.lock().unwrap();
        let (v, m) = fail.unwrap_or(("-".into(), String::new()));
        println!("{}\t{}\t{}\t{}\t{}", n, tried, held, v, m.replace('\n', " "));
    }); } });
}
fn hex(v: &[Vec<u8>]) -> String { v.iter().map(|b| b.iter().map(|x| format!("{:02x}", x)).collect::<String>()).collect::<Vec<_>>().join(",") }
pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(move |i| { let l = i.location().map(|l| l.to_string()).unwrap_or_default(); LOC.with(|c| *c.borrow_mut() = l); }));
    let loc = || LOC.with(|c| c.borrow().clone());
    let all = registry();
    if a[1] == "list" { for (n, _, _) in &all { println!("{}", n) } return; }
    if a[1] == "sweep" { return sweep(&a[4..].iter().map(|s| s.as_str()).collect::<Vec<_>>(), a[2].parse().unwrap(), a[3].parse().unwrap()); }
    let (f, mp) = match all.iter().find(|(n, _, _)| *n == a[2]) { Some((_, f, p)) => (*f, *p), None => { println!("UNKNOWN {}", a[2]); std::process::exit(3) } };
    match a[1].as_str() {
        "replay" => {
            let vals = a.get(3).map(|s| s.as_str()).unwrap_or("").split(',').filter(|s| !s.is_empty())
                .map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
            nd::SRC.with(|s| *s.borrow_mut() = nd::Src::Replay(vals));
            match run(f, mp) {
                Ok(()) => println!("HOLDS"),
                Err(None) => println!("PRECONDITION-NOT-MET"),
                Err(Some(m)) => { println!("FAILS at {}: {}", loc(), m); std::process::exit(1) }
            }
        }
        "search" => {
            let seed: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            let t = std::time::Instant::now();
            let mut n = 0u64;
            let mut held = 0u64;
            while t.elapsed().as_secs_f64() < secs {
                n += 1;
                nd::SRC.with(|s| *s.borrow_mut() = nd::Src::Random(seed.wrapping_mul(1_000_003).wrapping_add(n)));
                nd::LOG.with(|l| l.borrow_mut().clear());
                match run(f, mp) {
                    Ok(()) => held += 1,
                    Err(None) => {}
                    Err(Some(m)) => { println!("FOUND {}", nd::LOG.with(|l| hex(&l.borrow()))); println!("FAILS at {}: {}", loc(), m); std::process::exit(1) }
                }
            }
            println!("NOTFOUND tried={} held={}", n, held);
        }
        _ => std::process::exit(3),
    }
}
}
