//! replays a counterexample on the natively compiled code: `r <contract> <tape file>`, one value
//! (space separated bytes) per line.  Exit 10: the violation is reproduced, 11: the tape is not a
//! legal input, 0: nothing happened.  `r <contract> search <seconds>` tries pseudo-random inputs instead.
fn main() { std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap().join().unwrap() }
fn run() {
    let a: Vec<String> = std::env::args().collect();
    if a[2] == "search" { return search(&a[1], a[3].parse().unwrap()); }
    let tape: Vec<Vec<u8>> = std::fs::read_to_string(&a[2]).unwrap().lines().map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect()).collect();
    let f = match h::ALL.iter().find(|(n, _)| *n == a[1]) { Some((_, f)) => *f, None => { println!("no contract {}", a[1]); std::process::exit(12) } };
    unsafe { mf::REPLAY = true }
    mf::nd::set_tape(tape);
    std::panic::set_hook(Box::new(|i| { if i.payload().downcast_ref::<mf::nd::Rejected>().is_none() { println!("{}", i) } }));
    let c = match std::panic::catch_unwind(f) {
        Ok(_) => { println!("the contract holds on this input"); 0 }
        Err(e) => if e.downcast_ref::<mf::nd::Rejected>().is_some() { println!("the input is outside the precondition"); 11 } else { 10 },
    };
    std::process::exit(c)
}

fn search(name: &str, secs: u64) {
    let f = match h::ALL.iter().find(|(n, _)| *n == name) { Some((_, f)) => *f, None => { println!("no contract {}", name); std::process::exit(12) } };
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = std::time::Instant::now();
    let (mut seed, mut legal) = (1u64, 0u64);
    while t0.elapsed().as_secs() < secs {
        mf::nd::set_seed(seed);
        match std::panic::catch_unwind(f) {
            Ok(_) => legal += 1,
            Err(e) => if e.downcast_ref::<mf::nd::Rejected>().is_none() {
                let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                if !msg.contains("MF-LIMIT") { println!("seed {seed}: {msg}"); std::process::exit(10) }
            },
        }
        seed += 1;
    }
    println!("{} inputs tried, {legal} within the precondition", seed - 1);
}
