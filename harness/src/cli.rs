//! Contained execution of the gc-* binaries: each case has its own scratch directory,
//! the commands run as an unprivileged user (when the check is root) with limits on
//! CPU time, memory and file size, so that a command that deletes or writes where it
//! should not can only reach scratch files.
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::CString;
use std::io::{Read, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

use crate::model::M;
use crate::run::inconclusive;

static BASE: OnceLock<PathBuf> = OnceLock::new();
static NEXT: AtomicU64 = AtomicU64::new(0);
const NOBODY: u32 = 65534;
pub const CPU_LIMIT_S: u64 = 60;
pub const WALL_LIMIT_S: u64 = 200;

fn base() -> &'static PathBuf {
    BASE.get_or_init(|| {
        let p = PathBuf::from(format!("/tmp/gcv-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        if let Err(e) = std::fs::create_dir(&p) {
            inconclusive(&format!("cannot create scratch directory: {}", e));
        }
        let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755));
        p
    })
}

/// Removes the scratch directory of this process.
pub fn cleanup() {
    if let Some(p) = BASE.get() {
        let _ = std::fs::remove_dir_all(p);
    }
}

fn is_root() -> bool {
    unsafe { libc::geteuid() == 0 }
}

fn chown(p: &Path) {
    if is_root() {
        let c = CString::new(p.as_os_str().as_bytes()).unwrap();
        unsafe {
            libc::lchown(c.as_ptr(), NOBODY, NOBODY);
        }
    }
}

/// A binary, copied next to the scratch directories, because an unprivileged user may
/// not be able to reach /verif.
fn bin(name: &str) -> PathBuf {
    static DONE: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
    let dst = base().join("bin");
    let to = dst.join(name);
    let mut done = DONE.lock().unwrap_or_else(|e| e.into_inner());
    if done.contains(name) {
        return to;
    }
    let src = PathBuf::from(
        std::env::var("GCV_BIN").unwrap_or_else(|_| "/verif/target/repo/debug".to_string()),
    )
    .join(name);
    // a check may run itself, to call the library in a process of its own
    let src = if name == "self" { std::env::current_exe().unwrap_or(src) } else { src };
    let _ = std::fs::create_dir(&dst);
    if let Err(e) = std::fs::copy(&src, &to) {
        inconclusive(&format!("binary {} cannot be used: {}", src.display(), e));
    }
    let _ = std::fs::set_permissions(&to, std::fs::Permissions::from_mode(0o755));
    done.insert(name.to_string());
    to
}

fn shim_file() -> PathBuf {
    static DONE: OnceLock<PathBuf> = OnceLock::new();
    DONE.get_or_init(|| {
        let src = std::env::var("GCV_SHIM").unwrap_or_else(|_| "/verif/target/shim.so".to_string());
        let to = base().join("shim.so");
        if let Err(e) = std::fs::copy(&src, &to) {
            inconclusive(&format!("{} cannot be used: {}", src, e));
        }
        let _ = std::fs::set_permissions(&to, std::fs::Permissions::from_mode(0o755));
        to
    })
    .clone()
}

struct Fs(bool);
impl Drop for Fs {
    fn drop(&mut self) {
        if self.0 {
            unsafe {
                libc::setfsuid(0);
                libc::setfsgid(0);
            }
        }
    }
}
/// Runs code under test in this thread with the file permissions of an unprivileged
/// user, so that it can only reach scratch files.
pub fn confined<T>(f: impl FnOnce() -> T) -> T {
    let root = is_root();
    if root {
        base();
        unsafe {
            libc::setfsgid(NOBODY);
            libc::setfsuid(NOBODY);
            if libc::setfsuid(NOBODY) as u32 != NOBODY {
                inconclusive("cannot drop file permissions");
            }
        }
    }
    let _back = Fs(root);
    f()
}
/// Makes sure these binaries are in place, before permissions are dropped.
pub fn warm(names: &[&str]) {
    for n in names {
        bin(n);
    }
    base();
}

/// Names of a graph's directory. One byte picks one; half of them pick the plain "d".
pub fn name(k: u8) -> &'static str {
    static LONG: OnceLock<(String, String, String)> = OnceLock::new();
    let long = LONG.get_or_init(|| ("n".repeat(230), vec!["p"; 40].join("/"), vec!["q".repeat(200); 14].join("/")));
    const ODD: [&str; 29] = [
        "my.graph", ".graph", "x.graph/y", "lock", "commands", "with space", ".hidden", "a,b", "k=v", "\u{e9}\u{65e5}\u{672c}", "q'\"q", "#h", "st*r?", "$HOME", "a:b", "%s{}", "end.",
        "..d", "d..", "12", "back\\slash", "~", "new\nline", " lead", "trail ", "UPPER", "d/d/d", "my.lock", "graph",
    ];
    match k {
        0..=127 => "d",
        _ => match (k - 128) as usize % (ODD.len() + 3) {
            0 => &long.0,
            1 => &long.1,
            2 => &long.2,
            i => ODD[i - 3],
        },
    }
}

/// Scratch directory of one case.
pub struct Scratch {
    pub root: PathBuf,
}
impl Scratch {
    pub fn new() -> Scratch {
        let root = base().join(format!("c{}", NEXT.fetch_add(1, Ordering::SeqCst)));
        if let Err(e) = std::fs::create_dir(&root) {
            inconclusive(&format!("cannot create case directory: {}", e));
        }
        chown(&root);
        Scratch { root }
    }
    pub fn path(&self, p: &str) -> PathBuf {
        self.root.join(p)
    }
    pub fn mkdir(&self, p: &str) -> PathBuf {
        let mut cur = self.root.clone();
        for part in p.split('/') {
            cur = cur.join(part);
            if !cur.exists() {
                if let Err(e) = std::fs::create_dir(&cur) {
                    inconclusive(&format!("scratch mkdir: {}", e));
                }
                chown(&cur);
            }
        }
        cur
    }
    pub fn write(&self, p: &str, content: &[u8]) {
        let f = self.path(p);
        if let Err(e) = std::fs::write(&f, content) {
            inconclusive(&format!("scratch write: {}", e));
        }
        chown(&f);
    }
    /// The lock of another program: with something in it, taken some time ago (or by a clock
    /// that is ahead), readable or not.
    pub fn take_lock(&self, dir: &str, content: &[u8], how: u8) {
        use std::os::unix::fs::PermissionsExt;
        let p = format!("{}/lock", dir);
        self.write(&p, content);
        let f = self.path(&p);
        const AGO: [i64; 12] = [0, 3, 61, 11 * 60, 61 * 60, 25 * 3600, 8 * 86400, 400 * 86400, 1 << 31, 3600, -3600, -400 * 86400];
        let now = std::time::SystemTime::now();
        let ago = AGO[how as usize % AGO.len()];
        let d = std::time::Duration::from_secs(ago.unsigned_abs());
        let then = if ago >= 0 { now.checked_sub(d) } else { now.checked_add(d) };
        let then = then.unwrap_or(now).max(std::time::UNIX_EPOCH);
        let times = std::fs::FileTimes::new().set_accessed(then).set_modified(then);
        let done = std::fs::File::options().write(true).open(&f).and_then(|x| x.set_times(times));
        if let Err(e) = done {
            inconclusive(&format!("scratch lock: {}", e));
        }
        let mode = [0o644, 0o644, 0o600, 0o444, 0o666][how as usize / 12 % 5];
        if let Err(e) = std::fs::set_permissions(&f, std::fs::Permissions::from_mode(mode)) {
            inconclusive(&format!("scratch lock: {}", e));
        }
    }
    /// Everything below the case directory: path -> content (None for directories,
    /// the target for symbolic links).
    pub fn snapshot(&self) -> BTreeMap<String, Option<Vec<u8>>> {
        let mut out = BTreeMap::new();
        snap(&self.root, &self.root, &mut out);
        out
    }
}
fn snap(root: &Path, p: &Path, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
    for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
        let q = e.path();
        let rel = q.strip_prefix(root).unwrap().to_string_lossy().to_string();
        let ft = match e.file_type() {
            Ok(t) => t,
            Err(_) => continue,
        };
        if ft.is_dir() {
            out.insert(rel, None);
            snap(root, &q, out);
        } else if ft.is_symlink() {
            let t = std::fs::read_link(&q).map(|t| t.as_os_str().as_bytes().to_vec()).unwrap_or_default();
            out.insert(rel, Some([b"-> ".to_vec(), t].concat()));
        } else {
            out.insert(rel, Some(std::fs::read(&q).unwrap_or_default()));
        }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}

#[derive(Debug)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn brief(&self) -> String {
        let cut = |s: &str| s.chars().take(300).collect::<String>();
        format!(
            "exit {:?} signal {:?} stdout {:?} stderr {:?}",
            self.code,
            self.signal,
            cut(&self.stdout),
            cut(&self.stderr)
        )
    }
}

#[derive(Clone)]
pub struct Cmd {
    pub bin: &'static str,
    pub args: Vec<String>,
    pub cwd: PathBuf,
    pub stdin: Option<Vec<u8>>,
    pub fsize: Option<u64>,
    pub shim: Vec<(&'static str, String)>,
}

pub fn cmd(bin: &'static str, cwd: &Path) -> Cmd {
    Cmd {
        bin,
        args: vec![],
        cwd: cwd.to_path_buf(),
        stdin: None,
        fsize: None,
        shim: vec![],
    }
}

impl Cmd {
    pub fn arg(mut self, a: impl ToString) -> Cmd {
        self.args.push(a.to_string());
        self
    }
    pub fn args<T: ToString>(mut self, a: impl IntoIterator<Item = T>) -> Cmd {
        self.args.extend(a.into_iter().map(|x| x.to_string()));
        self
    }
    pub fn stdin(mut self, s: &[u8]) -> Cmd {
        self.stdin = Some(s.to_vec());
        self
    }
    /// No file may grow beyond this many bytes (writes fail with EFBIG).
    pub fn fsize(mut self, n: Option<u64>) -> Cmd {
        self.fsize = n;
        self
    }
    /// A setting of the preloaded shim (see shim/shim.c).
    pub fn shim(mut self, name: &'static str, v: impl ToString) -> Cmd {
        self.shim.push((name, v.to_string()));
        self
    }
    pub fn show(&self) -> String {
        let shim: String = self.shim.iter().map(|(k, v)| format!("{}={} ", k, v)).collect();
        format!("{}{} {}", shim, self.bin, self.args.join(" "))
    }
    pub fn spawn(&self) -> Running {
        let mut c = Command::new(bin(self.bin));
        c.args(&self.args)
            .current_dir(&self.cwd)
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", "/nonexistent")
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .stdin(if self.stdin.is_some() {
                Stdio::piped()
            } else {
                Stdio::null()
            });
        if !self.shim.is_empty() {
            c.env("LD_PRELOAD", shim_file());
            for (k, v) in &self.shim {
                c.env(k, v);
            }
        }
        let fsize = self.fsize;
        let root = is_root();
        unsafe {
            c.pre_exec(move || {
                let set = |what: libc::__rlimit_resource_t, v: u64| {
                    let l = libc::rlimit {
                        rlim_cur: v,
                        rlim_max: v,
                    };
                    libc::setrlimit(what, &l);
                };
                set(libc::RLIMIT_CORE, 0);
                let l = libc::rlimit { rlim_cur: CPU_LIMIT_S, rlim_max: CPU_LIMIT_S + 5 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
                set(libc::RLIMIT_AS, 4 << 30);
                if let Some(n) = fsize {
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                    set(libc::RLIMIT_FSIZE, n);
                } else {
                    set(libc::RLIMIT_FSIZE, 1 << 30);
                }
                if root {
                    if libc::setgroups(0, std::ptr::null()) != 0
                        || libc::setgid(NOBODY) != 0
                        || libc::setuid(NOBODY) != 0
                    {
                        return Err(std::io::Error::last_os_error());
                    }
                }
                Ok(())
            });
        }
        let mut child = match c.spawn() {
            Ok(c) => c,
            Err(e) => inconclusive(&format!("cannot run {}: {}", self.bin, e)),
        };
        let mut feeder = None;
        if let Some(s) = &self.stdin {
            let mut pipe = child.stdin.take().unwrap();
            let s = s.clone();
            feeder = Some(std::thread::spawn(move || {
                let _ = pipe.write_all(&s);
            }));
        }
        let mut so = child.stdout.take().unwrap();
        let mut se = child.stderr.take().unwrap();
        let reader = std::thread::spawn(move || {
            let mut b = vec![];
            let _ = (&mut se).take(1 << 22).read_to_end(&mut b);
            b
        });
        let out = std::thread::spawn(move || {
            let mut b = vec![];
            let _ = (&mut so).take(1 << 26).read_to_end(&mut b);
            b
        });
        Running {
            child,
            out: Some(out),
            err: Some(reader),
            feeder,
            started: Instant::now(),
            name: self.show(),
        }
    }
    /// Runs to completion. Err when it had to be stopped: on the small inputs of
    /// these checks, that is a command that does not end.
    pub fn run(&self) -> Result<Out, String> {
        self.spawn().wait()
    }
}

pub struct Running {
    child: Child,
    out: Option<std::thread::JoinHandle<Vec<u8>>>,
    err: Option<std::thread::JoinHandle<Vec<u8>>>,
    feeder: Option<std::thread::JoinHandle<()>>,
    started: Instant,
    name: String,
}
impl Running {
    fn asleep(&self) -> bool {
        let st = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).unwrap_or_default();
        st.rsplit(") ").next().map(|r| r.starts_with('S')).unwrap_or(false)
    }
    /// Waits until the process has stopped itself (true) or ended (false).
    pub fn wait_stop(&mut self) -> bool {
        let mut nap = 100u64;
        loop {
            let mut info: libc::siginfo_t = unsafe { std::mem::zeroed() };
            let r = unsafe { libc::waitid(libc::P_PID, self.child.id(), &mut info, libc::WSTOPPED | libc::WEXITED | libc::WNOWAIT | libc::WNOHANG) };
            if r != 0 {
                inconclusive("waitid failed");
            }
            if unsafe { info.si_pid() } != 0 {
                return info.si_code == libc::CLD_STOPPED;
            }
            if self.started.elapsed() > Duration::from_secs(WALL_LIMIT_S) {
                let _ = self.child.kill();
                inconclusive(&format!("'{}' was still running after {} s", self.name, WALL_LIMIT_S));
            }
            std::thread::sleep(Duration::from_micros(nap));
            nap = (nap * 5 / 4).min(5_000);
        }
    }
    pub fn resume(&mut self) {
        unsafe {
            libc::kill(self.child.id() as i32, libc::SIGCONT);
        }
        self.started = Instant::now();
    }
    /// Kills the process at once and waits until it is gone.
    pub fn kill(mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
    pub fn wait(mut self) -> Result<Out, String> {
        let mut nap = 200u64;
        let mut asleep = 0;
        let mut next_look = Duration::ZERO;
        let status = loop {
            match self.child.try_wait() {
                Ok(Some(s)) => break s,
                Ok(None) => {}
                Err(e) => inconclusive(&format!("wait: {}", e)),
            }
            // A process asleep at every look over ten seconds, long after its start, waits
            // for something that does not come. Slowness alone is no verdict.
            if self.started.elapsed() > Duration::from_secs(30) && self.started.elapsed() > next_look {
                next_look = self.started.elapsed() + Duration::from_millis(100);
                asleep = if self.asleep() { asleep + 1 } else { 0 };
                if asleep >= 100 {
                    let _ = self.child.kill();
                    let _ = self.child.wait();
                    return Err(format!("HANG: '{}' waits without ending", self.name));
                }
            }
            if self.started.elapsed() > Duration::from_secs(WALL_LIMIT_S) {
                let _ = self.child.kill();
                let _ = self.child.wait();
                inconclusive(&format!("'{}' was still running after {} s", self.name, WALL_LIMIT_S));
            }
            std::thread::sleep(Duration::from_micros(nap));
            nap = (nap * 5 / 4).min(20_000);
        };
        let join = |h: Option<std::thread::JoinHandle<Vec<u8>>>| {
            String::from_utf8_lossy(&h.unwrap().join().unwrap_or_default()).to_string()
        };
        let stdout = join(self.out.take());
        let stderr = join(self.err.take());
        if let Some(f) = self.feeder.take() {
            let _ = f.join();
        }
        if status.signal() == Some(libc::SIGXCPU) {
            return Err(format!(
                "HANG: '{}' used its {} s of CPU time without ending",
                self.name, CPU_LIMIT_S
            ));
        }
        if status.signal() == Some(libc::SIGKILL) {
            inconclusive(&format!("'{}' was killed from outside", self.name));
        }
        Ok(Out {
            code: status.code(),
            signal: status.signal(),
            stdout,
            stderr,
        })
    }
}

// ---- the stored graph, read by the checks' own parser -------------------------------

pub const STORE: &str = ".graph/commands";

/// The checks' own reader of a command file.
pub fn parse_store(bytes: &[u8]) -> Result<M, String> {
    let text = std::str::from_utf8(bytes).map_err(|_| "stored graph is not UTF-8".to_string())?;
    let mut m = M::new();
    for (i, l) in text.lines().enumerate() {
        let t = l.trim();
        if t.is_empty() || t.starts_with('#') {
            continue;
        }
        let w: Vec<&str> = t.split_whitespace().collect();
        let n: Vec<u64> = w[1..]
            .iter()
            .map(|x| x.parse::<u64>().map_err(|_| format!("stored line {}: {:?}", i + 1, l)))
            .collect::<Result<_, _>>()?;
        match (w[0], n.as_slice()) {
            ("AddVertex", [a]) => {
                m.add_v(*a);
            }
            ("RemoveVertex", [a]) => {
                m.rm_v(*a);
            }
            ("AddEdge", [a, b]) => {
                m.add_e(*a, *b);
            }
            ("RemoveEdge", [a, b]) => {
                m.rm_e(*a, *b);
            }
            _ => return Err(format!("stored line {}: {:?}", i + 1, l)),
        }
    }
    Ok(m)
}

/// The graph stored under a directory, as the code under test itself reads it;
/// None when there is no graph.
pub fn stored(dir: &Path) -> Result<Option<M>, String> {
    if !dir.join(STORE).exists() {
        return Ok(None);
    }
    let d = dir.to_str().unwrap();
    match crate::run::guarded(|| gc_command::graph_utils::load_graph(d)) {
        Err(p) => Err(format!("loading the stored graph panicked: {}", p)),
        Ok(Err(e)) => Err(format!("the stored graph cannot be read: {}", e)),
        Ok(Ok(g)) => Ok(Some(M::of(&g))),
    }
}

/// A command file holding exactly this graph, written by the checks themselves.
pub fn store_text(vs: &[u64], es: &[(u64, u64)]) -> String {
    let mut s = String::new();
    for v in vs {
        s.push_str(&format!("AddVertex {}\n", v));
    }
    for (a, b) in es {
        s.push_str(&format!("AddEdge {} {}\n", a, b));
    }
    s
}
impl Scratch {
    /// Puts a graph into <dir>/.graph/commands.
    pub fn put_graph(&self, dir: &str, vs: &[u64], es: &[(u64, u64)]) {
        self.mkdir(&format!("{}/.graph", dir));
        self.write(&format!("{}/{}", dir, STORE), store_text(vs, es).as_bytes());
    }
}
