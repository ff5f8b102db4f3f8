mod bmc;
mod cert;
mod forms;
mod sat;

fn main() {
    std::thread::Builder::new().stack_size(1 << 30).spawn(real).unwrap().join().unwrap()
}

fn real() {
    match std::env::args().nth(1).as_deref() {
        Some("P13") => cert::run(),
        Some("P14") => bmc::run(),
        Some("P12") => sat::run(),
        x => {
            eprintln!("unknown check {x:?}");
            std::process::exit(2)
        }
    }
}
