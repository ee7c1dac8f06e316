//! `replay HARNESS VALUE...`: run a harness natively on given values (hexadecimal).
//! Exit 1 and the reason if it fails, 0 if it holds, 3 if the values are not an input of the harness.
use kani_harness::input::{Given, REJECTED};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    let mut arguments = std::env::args().skip(1);
    let name = arguments.next().expect("HARNESS");
    let values = arguments.map(|v| u128::from_str_radix(&v, 16).expect("VALUE")).collect();
    let Some((body, refuses)) = kani_harness::bodies::find(&name) else { std::process::exit(3) };
    std::panic::set_hook(Box::new(|_| {}));
    let mut given = Given::new(values);
    let outcome = catch_unwind(AssertUnwindSafe(|| body(&mut given)));
    println!("inputs: {}", given.read.join(", "));
    let message = outcome.err().map(|p| {
        p.downcast_ref::<String>().cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default()
    });
    match message {
        Some(m) if m == REJECTED => std::process::exit(3),
        Some(m) if !refuses => {
            println!("failed: {m}");
            std::process::exit(1);
        }
        None if refuses => {
            println!("failed: accepted, but has to be refused");
            std::process::exit(1);
        }
        _ => println!("holds"),
    }
}
