//! P06: the file layer is a tree of files confined to its directory; replacing is atomic.
use crate::journal::{block, Store, KINDS};
use logicaffeine_data::crdt::GCounter;
use logicaffeine_system::fs::{NativeVfs, Vfs};
use mc::{pick, Check};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::CStr;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

// ------------------------------------------- recording what reaches the kernel
// The harness defines these symbols itself, so the file layer's calls arrive here.

#[derive(Clone, Debug)]
enum Sys {
    Create(PathBuf),
    Truncate(PathBuf, u64),
    /// File, offset, bytes.
    Write(PathBuf, u64, Vec<u8>),
    Sync(PathBuf),
    Rename(PathBuf, PathBuf),
    Unlink(PathBuf),
    Mkdir(PathBuf),
}
static LOG: Mutex<Option<(PathBuf, Vec<Sys>)>> = Mutex::new(None);

fn log(path: Option<PathBuf>, f: impl FnOnce(PathBuf) -> Sys) {
    if let (Some(p), Ok(mut g)) = (path, LOG.lock()) {
        if let Some((root, log)) = g.as_mut() {
            if p.starts_with(&*root) {
                log.push(f(p));
            }
        }
    }
}
fn recording() -> bool {
    LOG.lock().map(|g| g.is_some()).unwrap_or(false)
}
fn abs(dir: i32, p: *const libc::c_char) -> Option<PathBuf> {
    let p = Path::new(unsafe { CStr::from_ptr(p) }.to_str().ok()?).to_path_buf();
    if p.is_absolute() {
        Some(p)
    } else if dir == libc::AT_FDCWD {
        Some(std::env::current_dir().ok()?.join(p))
    } else {
        Some(of_fd(dir)?.join(p))
    }
}
fn of_fd(fd: i32) -> Option<PathBuf> {
    std::fs::read_link(format!("/proc/self/fd/{fd}")).ok()
}
fn ret(r: i64) -> i64 {
    r
}
unsafe fn do_open(dir: i32, p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    if recording() && flags & (libc::O_WRONLY | libc::O_RDWR) != 0 {
        let path = abs(dir, p);
        let exists = path.as_ref().map_or(false, |p| p.exists());
        let r = libc::syscall(libc::SYS_openat, dir, p, flags, mode) as i32;
        if r >= 0 {
            if !exists {
                log(path, Sys::Create);
            } else if flags & libc::O_TRUNC != 0 {
                log(path, |p| Sys::Truncate(p, 0));
            }
        }
        return r;
    }
    libc::syscall(libc::SYS_openat, dir, p, flags, mode) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const libc::c_void, n: usize) -> isize {
    if fd > 2 && recording() {
        let path = of_fd(fd);
        let append = libc::syscall(libc::SYS_fcntl, fd, libc::F_GETFL) as i32 & libc::O_APPEND != 0;
        let at = if append { path.as_ref().and_then(|p| std::fs::metadata(p).ok()).map_or(0, |m| m.len()) } else { libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_CUR).max(0) as u64 };
        let r = libc::syscall(libc::SYS_write, fd, b, n) as isize;
        if r > 0 {
            let bytes = std::slice::from_raw_parts(b as *const u8, r as usize).to_vec();
            log(path, |p| Sys::Write(p, at, bytes));
        }
        return r;
    }
    libc::syscall(libc::SYS_write, fd, b, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, b: *const libc::c_void, n: usize, at: i64) -> isize {
    let r = libc::syscall(libc::SYS_pwrite64, fd, b, n, at) as isize;
    if r > 0 && recording() {
        let bytes = std::slice::from_raw_parts(b as *const u8, r as usize).to_vec();
        log(of_fd(fd), |p| Sys::Write(p, at as u64, bytes));
    }
    r
}
/// Recorded, not carried out: scratch files need not reach the disk.
fn synced(fd: i32) -> i32 {
    if recording() {
        log(of_fd(fd), Sys::Sync);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    synced(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    synced(fd)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    let r = libc::syscall(libc::SYS_ftruncate, fd, n) as i32;
    if r == 0 && recording() {
        log(of_fd(fd), |p| Sys::Truncate(p, n as u64));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const libc::c_char, b: *const libc::c_char) -> i32 {
    let (pa, pb) = (abs(libc::AT_FDCWD, a), abs(libc::AT_FDCWD, b));
    let r = ret(libc::syscall(libc::SYS_rename, a, b)) as i32;
    if r == 0 && recording() {
        if let Some(pb) = pb {
            log(pa, |p| Sys::Rename(p, pb));
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const libc::c_char) -> i32 {
    let r = libc::syscall(libc::SYS_unlink, a) as i32;
    if r == 0 && recording() {
        log(abs(libc::AT_FDCWD, a), Sys::Unlink);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const libc::c_char, mode: u32) -> i32 {
    let r = libc::syscall(libc::SYS_mkdir, a, mode) as i32;
    if r == 0 && recording() {
        log(abs(libc::AT_FDCWD, a), Sys::Mkdir);
    }
    r
}

// ------------------------------------------------------------------ crash states

/// A file as the disk has it: what is certain to be there, and what was written since.
#[derive(Clone, Default, Debug)]
struct Inode {
    now: Vec<u8>,
    synced: Vec<u8>,
}
#[derive(Clone, Default, Debug)]
struct Tree {
    inodes: Vec<Inode>,
    names: BTreeMap<PathBuf, usize>,
}
impl Tree {
    fn step(&mut self, s: &Sys) {
        match s {
            Sys::Create(p) => {
                self.inodes.push(Inode::default());
                self.names.insert(p.clone(), self.inodes.len() - 1);
            }
            Sys::Truncate(p, n) => {
                if let Some(i) = self.names.get(p) {
                    self.inodes[*i].now.resize(*n as usize, 0);
                }
            }
            Sys::Write(p, at, b) => {
                if let Some(i) = self.names.get(p) {
                    let f = &mut self.inodes[*i].now;
                    let end = *at as usize + b.len();
                    if f.len() < end {
                        f.resize(end, 0);
                    }
                    f[*at as usize..end].copy_from_slice(b);
                }
            }
            Sys::Sync(p) => {
                if let Some(i) = self.names.get(p) {
                    self.inodes[*i].synced = self.inodes[*i].now.clone();
                }
            }
            Sys::Rename(a, b) => {
                if let Some(i) = self.names.remove(a) {
                    self.names.insert(b.clone(), i);
                }
            }
            Sys::Unlink(p) => {
                self.names.remove(p);
            }
            Sys::Mkdir(_) => {}
        }
    }
    /// Every content the disk may show after a power cut now: each file with unsynced bytes
    /// keeps all of them, none of them, or half of what grew.
    fn after_power_cut(&self) -> BTreeSet<Vec<(PathBuf, Vec<u8>)>> {
        let mut out: BTreeSet<Vec<(PathBuf, Vec<u8>)>> = BTreeSet::from([vec![]]);
        for (p, i) in &self.names {
            let f = &self.inodes[*i];
            let mut contents = BTreeSet::from([f.now.clone()]);
            if f.now != f.synced {
                contents.insert(f.synced.clone());
                if f.now.len() > f.synced.len() && f.now.starts_with(&f.synced) {
                    for k in [1, (f.now.len() - f.synced.len()) / 2, f.now.len() - f.synced.len() - 1] {
                        contents.insert(f.now[..f.synced.len() + k].to_vec());
                    }
                }
            }
            out = out
                .iter()
                .flat_map(|base| {
                    contents.iter().map(move |c| {
                        let mut b = base.clone();
                        b.push((p.clone(), c.clone()));
                        b
                    })
                })
                .collect();
        }
        out
    }
}

fn scratch(tag: &str) -> PathBuf {
    let p = std::env::temp_dir().join(format!("verif-{tag}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).unwrap();
    p
}

fn record(root: &Path, f: impl FnOnce()) -> Vec<Sys> {
    *LOG.lock().unwrap() = Some((root.to_path_buf(), vec![]));
    f();
    LOG.lock().unwrap().take().unwrap().1
}

fn clear(dir: &Path) {
    for e in std::fs::read_dir(dir).unwrap().flatten() {
        if e.path().is_dir() {
            let _ = std::fs::remove_dir_all(e.path());
        } else {
            let _ = std::fs::remove_file(e.path());
        }
    }
}

/// Journal operations on real files; every point of the sequence of system calls as a power cut.
fn power_cuts(c: &Check, rt: &tokio::runtime::Runtime) -> (u64, u64, u64) {
    let (mut states, mut trans, mut traces) = (0, 0, 0);
    let live = scratch("live");
    let dead = scratch("dead");
    let mut all = vec![];
    mc::words(3, pick(4, 6), &mut |w| {
        if !w.is_empty() {
            all.push(w.to_vec())
        }
    });
    for kind in 0..2u8 {
        for ops in &all {
            if c.violation_count() > 10 {
                break;
            }
            clear(&live);
            // What had been acknowledged and begun when each system call was made.
            let mut marks: Vec<(usize, u64, u64)> = vec![];
            let (mut acked, mut begun) = (0u64, 0u64);
            let log = record(&live, || {
                rt.block_on(async {
                    let seen = |acked, begun, marks: &mut Vec<(usize, u64, u64)>| marks.push((LOG.lock().unwrap().as_ref().map_or(0, |l| l.1.len()), acked, begun));
                    let mut s = Store::<GCounter>::mount(kind, Arc::new(NativeVfs::new(&live))).await.unwrap();
                    for (i, op) in ops.iter().enumerate() {
                        let bit = 1u64 << i;
                        if *op == 0 {
                            begun |= bit;
                        }
                        seen(acked, begun, &mut marks);
                        match op {
                            0 => s.mutate(move |t| t.increment(bit)).await.unwrap(),
                            1 => s.compact().await.unwrap(),
                            _ => s = Store::<GCounter>::mount(kind, Arc::new(NativeVfs::new(&live))).await.unwrap(),
                        }
                        if *op == 0 {
                            acked |= bit;
                        }
                        seen(acked, begun, &mut marks);
                    }
                })
            });
            traces += 1;
            if log.is_empty() && ops.contains(&0) {
                c.truncated("the file layer's system calls were not seen");
                eprintln!("no system calls were recorded for {ops:?}");
                std::process::exit(3);
            }
            let mut tree = Tree::default();
            for k in 0..=log.len() {
                if k > 0 {
                    tree.step(&log[k - 1]);
                    trans += 1;
                }
                // Acknowledged: by marks reached at or before this point. Begun: the last mark before it counts too.
                let must = marks.iter().filter(|m| m.0 < k || (m.0 == k && k == log.len())).map(|m| m.1).max().unwrap_or(0);
                let may = marks.iter().filter(|m| m.0 <= k).map(|m| m.2).max().unwrap_or(0);
                for content in tree.after_power_cut() {
                    clear(&dead);
                    for (p, b) in &content {
                        let q = dead.join(p.strip_prefix(&live).unwrap());
                        std::fs::create_dir_all(q.parent().unwrap()).unwrap();
                        std::fs::write(q, b).unwrap();
                    }
                    states += 1;
                    let r: Result<(), String> = rt.block_on(async {
                        let s = Store::<GCounter>::mount(kind, Arc::new(NativeVfs::new(&dead))).await.map_err(|e| format!("cannot be opened: {e}"))?;
                        let v = s.get().await.value();
                        if v & must != must || v & !may != 0 {
                            return Err(format!("updates {v:b} survive; acknowledged {must:b}, begun {may:b}"));
                        }
                        s.mutate(|t| t.increment(1 << 40)).await.map_err(|e| e.to_string())?;
                        let s = Store::<GCounter>::mount(kind, Arc::new(NativeVfs::new(&dead))).await.map_err(|e| format!("cannot be opened again: {e}"))?;
                        let w = s.get().await.value();
                        if w != v | 1 << 40 {
                            return Err(format!("after recovery and one more update {w:b} is read back, not {:b}", v | 1 << 40));
                        }
                        Ok(())
                    });
                    if let Err(e) = r {
                        let word: Vec<&str> = ops.iter().map(|o| ["update", "compact", "reopen"][*o]).collect();
                        let sizes: Vec<(String, usize)> = content.iter().map(|(p, b)| (p.file_name().unwrap().to_string_lossy().into_owned(), b.len())).collect();
                        c.violation(&format!("{} journal on files: {} power cut after call {k}, files {sizes:?}", KINDS[kind as usize], word.join(" ")), &e);
                        break;
                    }
                }
            }
        }
    }
    // Replacing a file: old or new, at every point.
    let names = ["a", "a.x", "a.tmp", "d/a", "d/e/a.txt"];
    for name in names {
        for (old, new) in [("", "new"), ("old", "newer content"), ("old content", "n"), ("old", "")] {
            clear(&live);
            let vfs = NativeVfs::new(&live);
            let log = record(&live, || {
                rt.block_on(async {
                    vfs.append(name, old.as_bytes()).await.unwrap();
                })
            });
            let before = log.len();
            let log2 = record(&live, || {
                rt.block_on(async {
                    vfs.write(name, new.as_bytes()).await.unwrap();
                })
            });
            let all: Vec<Sys> = log.into_iter().chain(log2).collect();
            let mut tree = Tree::default();
            traces += 1;
            for (k, s) in all.iter().enumerate() {
                tree.step(s);
                trans += 1;
                if k + 1 < before {
                    continue;
                }
                for content in tree.after_power_cut() {
                    states += 1;
                    let got = content.iter().find(|(p, _)| *p == live.join(name)).map(|(_, b)| String::from_utf8_lossy(b).into_owned());
                    let done = k + 1 == all.len();
                    if got.as_deref() != Some(new) && (done || got.as_deref() != Some(old)) {
                        c.violation(&format!("replace {name} {old:?} by {new:?}, power cut after call {k}"), &format!("holds {got:?}"));
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&live);
    let _ = std::fs::remove_dir_all(&dead);
    (states, trans, traces)
}

// ------------------------------------------------------------------- confinement

/// The directory as text: every file with its content, every directory.
fn picture(dir: &Path) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            let name = p.strip_prefix(dir).unwrap().to_string_lossy().into_owned();
            if p.is_dir() {
                out.insert(name + "/", String::new());
                todo.push(p);
            } else {
                out.insert(name, String::from_utf8_lossy(&std::fs::read(&p).unwrap_or_default()).into_owned());
            }
        }
    }
    out
}

const SECRET: &str = "outside";
fn lay(world: &Path) {
    clear(world);
    std::fs::create_dir_all(world.join("l1/l2/base/a")).unwrap();
    std::fs::write(world.join("l1/l2/base/f"), "inside").unwrap();
    std::fs::write(world.join("l1/l2/base/a/f"), "deeper").unwrap();
    for out in ["", "l1", "l1/l2"] {
        std::fs::create_dir_all(world.join(out).join("a")).unwrap();
        std::fs::write(world.join(out).join("f"), SECRET).unwrap();
        std::fs::write(world.join(out).join("a/f"), SECRET).unwrap();
    }
}

/// Runs in a child without privileges, inside `world`: every path, every operation.
pub fn child(world: &Path) -> ! {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let parts = ["a", "f", "..", ".", "", "...", "..f"];
    let len = pick(4, 5);
    let mut paths: BTreeSet<String> = BTreeSet::new();
    mc::words(parts.len(), len, &mut |w| {
        let p: Vec<&str> = w.iter().map(|i| parts[*i]).collect();
        paths.insert(p.join("/"));
        paths.insert(format!("/{}", p.join("/")));
    });
    // Towards things that exist elsewhere on the machine, for reading.
    for up in 0..12 {
        let d = "../".repeat(up);
        for tail in ["etc/hostname", "etc/passwd"] {
            paths.insert(format!("{d}{tail}"));
            paths.insert(format!("a/{d}{tail}"));
            paths.insert(format!("/{d}{tail}"));
            paths.insert(format!(".//{d}{tail}"));
        }
    }
    let base = world.join("l1/l2/base");
    let outside = |w: &Path| -> BTreeMap<String, String> { picture(w).into_iter().filter(|(k, _)| !k.starts_with("l1/l2/base")).collect() };
    lay(world);
    let (clean_out, clean_in) = (outside(world), picture(&base));
    let (mut n, mut changed) = (0u64, 0u64);
    let mut bad = vec![];
    for p in &paths {
        for op in 0..9 {
            let vfs = NativeVfs::new(&base);
            let told: String = rt.block_on(async {
                match op {
                    0 => vfs.read(p).await.map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default(),
                    1 => vfs.read_to_string(p).await.unwrap_or_default(),
                    2 => vfs.write(p, b"w").await.map(|_| String::new()).unwrap_or_default(),
                    3 => vfs.append(p, b"w").await.map(|_| String::new()).unwrap_or_default(),
                    4 => {
                        let _ = vfs.exists(p).await;
                        String::new()
                    }
                    5 => vfs.remove(p).await.map(|_| String::new()).unwrap_or_default(),
                    6 => vfs.create_dir_all(p).await.map(|_| String::new()).unwrap_or_default(),
                    7 => vfs.rename("f", p).await.map(|_| String::new()).unwrap_or_default(),
                    _ => vfs.list_dir(p).await.map(|l| l.iter().map(|e| e.name.clone() + "|").collect()).unwrap_or_default(),
                }
            });
            n += 1;
            let name = ["read", "read text", "write", "append", "exists", "remove", "make directory", "rename to", "list"][op];
            let after = outside(world);
            if after != clean_out {
                bad.push(format!("{name} {p:?}: changes files outside"));
            }
            let lists_outside = op == 8 && (told.contains("base|") || told.contains("l1|") || told.contains("l2|"));
            if told.contains(SECRET) || told.contains("root:") || lists_outside {
                bad.push(format!("{name} {p:?}: shows {:?} from outside", told.chars().take(40).collect::<String>()));
            }
            if after != clean_out || picture(&base) != clean_in {
                changed += 1;
                lay(world);
            }
        }
    }
    println!("N {n} {changed}");
    for b in bad {
        println!("BAD {b}");
    }
    std::process::exit(0)
}

fn confinement(c: &Check) -> (u64, u64) {
    let world = scratch("confined");
    let exe = world.join("child");
    std::fs::copy(std::env::current_exe().unwrap(), &exe).unwrap();
    let inner = world.join("w");
    std::fs::create_dir_all(&inner).unwrap();
    std::fs::set_permissions(&world, std::fs::Permissions::from_mode(0o755)).unwrap();
    std::fs::set_permissions(&exe, std::fs::Permissions::from_mode(0o755)).unwrap();
    std::os::unix::fs::chown(&inner, Some(65534), Some(65534)).unwrap();
    use std::os::unix::process::CommandExt;
    let out = std::process::Command::new(&exe).arg("--confined").arg(&inner).uid(65534).gid(65534).current_dir(&inner).env("HOME", &inner).output().unwrap();
    let _ = std::fs::remove_dir_all(&world);
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    if !out.status.success() || !text.starts_with("N ") {
        eprintln!("the unprivileged child failed: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr));
        std::process::exit(3);
    }
    let mut counts = (0, 0);
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("N ") {
            let v: Vec<u64> = rest.split(' ').map(|x| x.parse().unwrap()).collect();
            counts = (v[0], v[1]);
        } else if let Some(b) = l.strip_prefix("BAD ") {
            if c.violation_count() < 20 {
                c.violation(&format!("confinement: {}", b.split(": ").next().unwrap()), b);
            }
        }
    }
    counts
}

// -------------------------------------------------------------- a tree of files

#[derive(Clone, Debug)]
enum F {
    Write(&'static str, &'static str),
    Append(&'static str, &'static str),
    Remove(&'static str),
    Rename(&'static str, &'static str),
}

/// All sequences of operations against a map from path to content.
fn tree(c: &Check, rt: &tokio::runtime::Runtime) -> (u64, u64, u64) {
    let mut alphabet = vec![];
    for p in ["a", "a.x", "a.tmp", "/d/a"] {
        alphabet.push(F::Write(p, "1"));
        alphabet.push(F::Append(p, "2"));
        alphabet.push(F::Remove(p));
    }
    alphabet.push(F::Rename("a", "a.x"));
    alphabet.push(F::Rename("a.x", "d/a"));
    alphabet.push(F::Rename("a.x", "a.x"));
    alphabet.push(F::Rename("d/a", "a"));
    let dir = scratch("tree");
    let (mut states, mut trans, mut traces) = (BTreeSet::new(), 0, 0);
    let mut words = vec![];
    mc::words(alphabet.len(), pick(3, 4), &mut |w| words.push(w.to_vec()));
    let norm = |p: &str| p.trim_start_matches('/').to_string();
    for w in &words {
        clear(&dir);
        let vfs = NativeVfs::new(&dir);
        let mut model: BTreeMap<String, String> = BTreeMap::new();
        let mut dirs = BTreeSet::new();
        for (k, i) in w.iter().enumerate() {
            trans += 1;
            let op = &alphabet[*i];
            let (got, want): (bool, bool) = rt.block_on(async {
                match op {
                    F::Write(p, t) | F::Append(p, t) => {
                        let r = if matches!(op, F::Write(..)) { vfs.write(p, t.as_bytes()).await } else { vfs.append(p, t.as_bytes()).await };
                        let e = model.entry(norm(p)).or_default();
                        if matches!(op, F::Write(..)) {
                            e.clear();
                        }
                        e.push_str(t);
                        if norm(p).starts_with("d/") {
                            dirs.insert("d".to_string());
                        }
                        (r.is_ok(), true)
                    }
                    F::Remove(p) => (vfs.remove(p).await.is_ok(), model.remove(&norm(p)).is_some()),
                    F::Rename(p, q) => {
                        let r = vfs.rename(p, q).await.is_ok();
                        let ok = model.contains_key(&norm(p)) && (!norm(q).starts_with("d/") || dirs.contains("d"));
                        if ok {
                            let v = model.remove(&norm(p)).unwrap();
                            model.insert(norm(q), v);
                        }
                        (r, ok)
                    }
                }
            });
            let text: Vec<String> = w[..=k].iter().map(|i| format!("{:?}", alphabet[*i])).collect();
            let key = format!("files: {}", text.join(" "));
            if got != want {
                c.violation(&key, &format!("succeeded: {got}, expected: {want}"));
                break;
            }
            let shown: BTreeMap<String, String> = picture(&dir).into_iter().filter(|(k, _)| !k.ends_with('/')).collect();
            if shown != model {
                c.violation(&key, &format!("files are {shown:?}, expected {model:?}"));
                break;
            }
            let probe: Result<(), String> = rt.block_on(async {
                for p in ["a", "a.x", "/d/a", "d//a", "./a", "none"] {
                    let m = model.get(&norm(p).replace("//", "/").replace("./", "")).cloned();
                    let r = vfs.read(p).await.ok().map(|b| String::from_utf8_lossy(&b).into_owned());
                    let t = vfs.read_to_string(p).await.ok();
                    let e = vfs.exists(p).await.unwrap_or(false);
                    if r != m || t != m || e != m.is_some() {
                        return Err(format!("{p}: reads {r:?} {t:?}, exists {e}, expected {m:?}"));
                    }
                }
                let mut names: Vec<(String, bool)> = vfs.list_dir("").await.map_err(|e| e.to_string())?.into_iter().map(|e| (e.name, e.is_directory)).collect();
                let mut want: Vec<(String, bool)> = model.keys().filter(|k| !k.contains('/')).map(|k| (k.clone(), false)).collect();
                want.extend(dirs.iter().map(|d| (d.clone(), true)));
                let sorted = names.windows(2).all(|w| (!w[0].1, w[0].0.to_lowercase()) <= (!w[1].1, w[1].0.to_lowercase()));
                names.sort();
                want.sort();
                if names != want || !sorted {
                    return Err(format!("lists {names:?} (sorted: {sorted}), expected {want:?}"));
                }
                Ok(())
            });
            if let Err(e) = probe {
                c.violation(&key, &e);
                break;
            }
            states.insert(mc::hash64(&model));
        }
        traces += 1;
        if c.want_sample() && w.len() > 2 {
            c.sample(w.iter().map(|i| format!("{:?}", alphabet[*i])).collect::<Vec<_>>().join(" "));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    (states.len() as u64, trans, traces)
}

pub fn run() -> ! {
    let c = Check::new("P06", "model_checking");
    c.assume("after a power cut directory changes are in order, and of file bytes written since the last sync any prefix may survive");
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let _ = logicaffeine_system::network::gossip::local_peer_id().await;
    });
    let (n, changed) = confinement(&c);
    c.note("path operations tried without privileges", n);
    c.note("of which changed a file", changed);
    let (s1, t1, r1) = power_cuts(&c, &rt);
    c.note("disk states after power cuts", s1);
    let (s2, t2, r2) = tree(&c, &rt);
    c.state(s1 + s2 + changed);
    c.trans(t1 + t2 + n);
    c.trace(r1 + r2);
    let _ = block(async {});
    c.finish()
}
