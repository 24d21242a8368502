//! replay ENTRY FILE: runs one harness natively on the values of a counterexample.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    vph::native::load(&a[2]);
    let n = a[1].clone();
    // memory images are passed by value through several frames
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || vph::run(&n)).expect("thread");
    match h.join() {
        Ok(true) => println!("REPLAY-OK"),
        _ => {
            println!("REPLAY-ERROR no such entry");
            std::process::exit(3);
        }
    }
}
