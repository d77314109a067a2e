//! Replays a counterexample: `replay MODULE HARNESS FILE` (FILE: one value per
//! line, bytes separated by blanks). Exit 10: the property is violated;
//! 11: the code under test panics although it must not; 0: neither.
use crossbeam_channel as model;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let txt = std::fs::read_to_string(&a[3]).unwrap();
    let vals: Vec<Vec<u8>> = txt
        .lines()
        .filter(|l| !l.starts_with('#'))
        .map(|l| l.split_whitespace().map(|b| b.parse().unwrap()).collect())
        .collect();
    unsafe { model::nd::VALUES = vals; }
    let (m, n) = (a[1].clone(), a[2].clone());
    let r = std::panic::catch_unwind(move || h::dispatch(&m, &n));
    match r {
        Ok(true) => std::process::exit(0),
        Ok(false) => { eprintln!("no such harness"); std::process::exit(15) }
        Err(_) => {
            if unsafe { model::world::ENV.nopanic } {
                println!("VIOLATED: the code under test panics");
                std::process::exit(11)
            }
            println!("refused (panic)");
            std::process::exit(0)
        }
    }
}
