//! Runs enumerated cases in forked children, so that a case that crashes, hangs or
//! exhausts the stack is itself an observable result.
use std::io::{Read, Write};
use std::os::fd::{FromRawFd, RawFd};
use std::time::{Duration, Instant};

#[repr(C)]
struct PollFd {
    fd: RawFd,
    events: i16,
    revents: i16,
}

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
    fn _exit(code: i32) -> !;
}

struct Kid {
    pid: i32,
    out: std::fs::File,
    fd: RawFd,
    buf: Vec<u8>,
    stripe: usize,
    /// Case being run.
    at: Option<usize>,
    since: Instant,
}

fn start(stripe: usize, from: usize, n: usize, width: usize, f: &(dyn Fn(usize) -> String + Sync)) -> Kid {
    let mut p = [0i32; 2];
    // SAFETY: plain system calls; the parent has no other thread at this point.
    unsafe {
        assert_eq!(pipe(p.as_mut_ptr()), 0);
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            let mut w = std::fs::File::from_raw_fd(p[1]);
            let ok = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let mut i = from;
                        while i < n {
                            let mut m = vec![1u8];
                            m.extend((i as u64).to_le_bytes());
                            let _ = w.write_all(&m);
                            let r = f(i);
                            let mut m = vec![2u8];
                            m.extend((i as u64).to_le_bytes());
                            m.extend((r.len() as u64).to_le_bytes());
                            m.extend(r.as_bytes());
                            if w.write_all(&m).is_err() {
                                break;
                            }
                            i += width;
                        }
                    })
                    .unwrap()
                    .join()
                    .is_ok()
            });
            _exit(if ok { 0 } else { 101 });
        }
        let out = std::fs::File::from_raw_fd(p[0]);
        // Close the write end in the parent.
        drop(std::fs::File::from_raw_fd(p[1]));
        Kid { pid, out, fd: p[0], buf: vec![], stripe, at: None, since: Instant::now() }
    }
}

/// Runs `f(i)` for every i in 0..n in forked children and hands each result to
/// `merge` in the parent. A child that dies or exceeds `limit` on a case yields
/// `Err(reason)` for that case; the remaining cases still run. Call it while the
/// process has a single thread.
pub fn isolated(n: usize, limit: Duration, f: &(dyn Fn(usize) -> String + Sync), merge: &mut dyn FnMut(usize, Result<String, String>)) {
    use std::os::fd::AsRawFd;
    let width = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(n.max(1));
    let mut kids: Vec<Kid> = (0..width).filter(|&s| s < n).map(|s| start(s, s, n, width, f)).collect();
    while !kids.is_empty() {
        let mut fds: Vec<PollFd> = kids.iter().map(|k| PollFd { fd: k.out.as_raw_fd(), events: 1, revents: 0 }).collect();
        // SAFETY: valid array of poll entries.
        unsafe { poll(fds.as_mut_ptr(), fds.len() as u64, 500) };
        let mut gone: Vec<(usize, Option<String>)> = vec![];
        for (ki, k) in kids.iter_mut().enumerate() {
            if fds[ki].revents != 0 {
                let mut tmp = [0u8; 1 << 16];
                match k.out.read(&mut tmp) {
                    Ok(0) | Err(_) => gone.push((ki, None)),
                    Ok(m) => {
                        k.buf.extend_from_slice(&tmp[..m]);
                        let mut o = 0;
                        loop {
                            let b = &k.buf[o..];
                            if b.len() < 9 {
                                break;
                            }
                            let i = u64::from_le_bytes(b[1..9].try_into().unwrap()) as usize;
                            if b[0] == 1 {
                                k.at = Some(i);
                                k.since = Instant::now();
                                o += 9;
                                continue;
                            }
                            if b.len() < 17 {
                                break;
                            }
                            let l = u64::from_le_bytes(b[9..17].try_into().unwrap()) as usize;
                            if b.len() < 17 + l {
                                break;
                            }
                            let s = String::from_utf8_lossy(&b[17..17 + l]).into_owned();
                            k.at = None;
                            o += 17 + l;
                            merge(i, Ok(s));
                        }
                        k.buf.drain(..o);
                    }
                }
            }
            if k.at.is_some() && k.since.elapsed() > limit && !gone.iter().any(|g| g.0 == ki) {
                // SAFETY: signals a child of ours.
                unsafe { kill(k.pid, 9) };
                gone.push((ki, Some(format!("no answer within {} s", limit.as_secs()))));
            }
        }
        for (ki, why) in gone.into_iter().rev() {
            let k = kids.swap_remove(ki);
            let mut st = 0;
            // SAFETY: reaps a child of ours.
            unsafe { waitpid(k.pid, &mut st, 0) };
            let _ = k.fd;
            if let Some(i) = k.at {
                let why = why.unwrap_or_else(|| match st & 0x7f {
                    0 => format!("process exited with code {}", (st >> 8) & 0xff),
                    s => format!("process killed by signal {s}"),
                });
                merge(i, Err(why));
                if i + width < n {
                    kids.push(start(k.stripe, i + width, n, width, f));
                }
            }
        }
    }
}
