mod journal;
mod vfs;

fn main() {
    let arg: Vec<String> = std::env::args().collect();
    match arg.get(1).map(String::as_str) {
        Some("--confined") => vfs::child(std::path::Path::new(&arg[2])),
        Some("P05") => journal::run(),
        Some("P06") => vfs::run(),
        x => {
            eprintln!("unknown check {x:?}");
            std::process::exit(2)
        }
    }
}
