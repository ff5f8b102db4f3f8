mod kern;
mod tactics;

use std::os::unix::process::ExitStatusExt;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 2 || !args.get(1).is_some_and(|x| x == "P15") {
        return std::thread::Builder::new().stack_size(1 << 30).spawn(real).unwrap().join().unwrap();
    }
    // A checker that runs out of stack takes its process down, so it runs in one of its own.
    let dir = std::env::temp_dir().join(format!("h_kernel-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let status = std::process::Command::new(&args[0]).arg(&args[1]).arg(&dir).status().unwrap();
    let mut seen: Vec<String> = Vec::new();
    for f in std::fs::read_dir(&dir).unwrap().flatten() {
        seen.extend(std::fs::read_to_string(f.path()).unwrap_or_default().lines().next().map(String::from));
    }
    std::fs::remove_dir_all(&dir).unwrap();
    match status.signal() {
        None => std::process::exit(status.code().unwrap_or(3)),
        // Stack overflow ends in one of these; running out of memory or time does not.
        Some(signal @ (6 | 11)) => {
            let c = mc::Check::new("P15", "model_checking");
            seen.sort();
            c.state(seen.len() as u64);
            c.trans(seen.len() as u64);
            c.violation(&format!("crash/{}", seen.first().map_or("", |s| s)), &format!("the checker ended with signal {signal} on one of\n{}", seen.join("\n")));
            c.finish()
        }
        Some(_) => std::process::exit(3),
    }
}

fn real() {
    match std::env::args().nth(1).as_deref() {
        Some("P15") => kern::run(),
        Some("P16") => tactics::run(),
        x => {
            eprintln!("unknown check {x:?}");
            std::process::exit(2)
        }
    }
}
