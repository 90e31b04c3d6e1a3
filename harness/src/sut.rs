//! The program of the repository as a process of its own, with the monitor of
//! file-system calls (/verif/fsmon) preloaded.
use crate::ev::Run;
use crate::http::{Conn, Out, Rq};
use crate::util::TempDir;
use crate::world::{AK, SK};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::os::unix::fs::FileExt;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::Stdio;
use std::time::{Duration, Instant};
use tokio::process::{Child, Command};

pub fn program() -> PathBuf {
    std::env::current_exe().expect("path of the monitor").parent().expect("directory").join("s3-server-sut")
}
pub fn fsmon() -> PathBuf {
    program().parent().and_then(Path::parent).expect("directory").join("fsmon.so")
}

/// a port which nobody else of this run takes: below those of outgoing connections
pub fn free_port(ip: IpAddr) -> Option<u16> {
    use std::sync::atomic::{AtomicU32, Ordering};
    static NEXT: AtomicU32 = AtomicU32::new(0);
    let start = 10_000 + std::process::id() % 200 * 100;
    for _ in 0..2000 {
        let n = NEXT.fetch_add(1, Ordering::SeqCst);
        let port = (10_000 + (start - 10_000 + n) % 20_000) as u16;
        match std::net::TcpListener::bind((ip, port)) {
            Ok(_) => return Some(port),
            Err(e) if e.kind() == std::io::ErrorKind::AddrInUse => {}
            Err(_) => return None,
        }
    }
    None
}

/// whether this process (our child) listens on `port`: somebody else's server may have got it first
pub fn listens(pid: Option<u32>, port: u16) -> bool {
    let Some(pid) = pid else { return false };
    let mut tables = String::new();
    for f in ["tcp", "tcp6"] {
        tables.push_str(&std::fs::read_to_string(format!("/proc/{pid}/net/{f}")).unwrap_or_default());
    }
    if tables.is_empty() {
        return true;
    }
    let inodes: Vec<&str> = tables
        .lines()
        .filter_map(|l| {
            let f: Vec<&str> = l.split_whitespace().collect();
            let at = f.get(1)?.rsplit(':').next()?;
            (f.get(3) == Some(&"0A") && u16::from_str_radix(at, 16) == Ok(port)).then(|| f.get(9).copied())?
        })
        .collect();
    let Ok(d) = std::fs::read_dir(format!("/proc/{pid}/fd")) else { return true };
    let mut hidden = false;
    for e in d.flatten() {
        match std::fs::read_link(e.path()) {
            Ok(l) if inodes.iter().any(|i| l.to_str() == Some(&format!("socket:[{i}]"))) => return true,
            Ok(_) => {}
            // (descriptors of another user's process may be secret, even to root)
            Err(e) => hidden |= e.kind() == std::io::ErrorKind::PermissionDenied,
        }
    }
    hidden
}

pub const MUTATE: u32 = 1;
pub const READ: u32 = 2;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Off = 0,
    Crash = 1,
    FailOnce = 2,
    FailOn = 3,
    Short = 4,
}

pub const OPS: [&str; 18] = [
    "", "open", "open for writing", "read", "write", "seek", "stat", "opendir", "readdir", "mkdir", "rmdir", "unlink", "rename", "truncate", "sync", "link", "chmod", "copy",
];
pub const OP_UNLINK: u32 = 11;
pub const OP_RMDIR: u32 = 10;

#[derive(Clone, Debug)]
pub struct Entry {
    pub op: &'static str,
    pub outside: bool,
    /// the destination of the entry that follows
    pub dest: bool,
    pub err: i32,
    pub path: String,
}

const MAGIC: u64 = 0x314e_4f4d_5346;
const NLOG: u64 = 4096;
const ENTRY: u64 = 2048;

/// the control file of the monitor
pub struct Ctl {
    f: std::fs::File,
    pub path: PathBuf,
}

impl Ctl {
    fn create(path: &Path) -> std::io::Result<Self> {
        let f = std::fs::File::options().read(true).write(true).create(true).truncate(true).open(path)?;
        f.set_len(4096 + NLOG * ENTRY)?;
        f.write_all_at(&MAGIC.to_le_bytes(), 0)?;
        f.set_permissions(std::fs::Permissions::from_mode(0o666))?;
        Ok(Self { f, path: path.to_owned() })
    }
    fn w32(&self, off: u64, v: u32) {
        self.f.write_all_at(&v.to_le_bytes(), off).expect("control file");
    }
    fn w64(&self, off: u64, v: u64) {
        self.f.write_all_at(&v.to_le_bytes(), off).expect("control file");
    }
    fn r32(&self, off: u64) -> u32 {
        let mut b = [0; 4];
        self.f.read_exact_at(&mut b, off).expect("control file");
        u32::from_le_bytes(b)
    }
    fn r64(&self, off: u64) -> u64 {
        let mut b = [0; 8];
        self.f.read_exact_at(&mut b, off).expect("control file");
        u64::from_le_bytes(b)
    }
    pub fn off(&self) {
        self.w32(8, 0);
        self.w32(56, 0);
    }
    /// from now on, something happens at the `target`-th call of these classes
    pub fn arm(&self, mode: Mode, target: u64, errno: i32, partial: bool, classes: u32) {
        self.w32(8, 0);
        self.w32(12, errno as u32);
        self.w64(16, target);
        self.w64(24, 0);
        self.w32(32, classes);
        self.w32(36, 0);
        self.w32(40, u32::from(partial));
        self.w32(84, 0);
        self.w32(8, mode as u32);
    }
    /// calls counted since `arm`
    pub fn calls(&self) -> u64 {
        self.r64(24)
    }
    pub fn fired(&self) -> u32 {
        self.r32(36)
    }
    pub fn fired_op(&self) -> u32 {
        self.r32(84)
    }
    pub fn total(&self) -> u64 {
        self.r64(88)
    }
    pub fn delayed(&self) -> u64 {
        self.r64(96)
    }
    /// bytes allocated now, and the most at a time since `reset_peak`
    pub fn live(&self) -> i64 {
        self.r64(112) as i64
    }
    pub fn peak(&self) -> i64 {
        self.r64(120) as i64
    }
    pub fn reset_peak(&self) {
        let l = self.r64(112);
        self.w64(120, l);
    }
    pub fn guarded(&self) -> u64 {
        self.r64(48)
    }
    pub fn ready(&self) -> bool {
        self.r32(108) == 1
    }
    pub fn delays(&self, per_mille: u32, micros: u32, seed: u64) {
        self.w64(64, seed);
        self.w32(60, micros);
        self.w32(56, per_mille);
    }
    /// how far the program's clock is ahead, in milliseconds
    pub fn clock(&self, ahead: i64) {
        self.w64(136, ahead as u64);
    }
    pub fn guard(&self, on: bool) {
        self.w32(44, u32::from(on));
    }
    pub fn start_log(&self) {
        self.w32(80, 0);
        let n = self.r64(72).min(NLOG);
        for i in 0..n {
            self.w32(4096 + i * ENTRY, 0);
        }
        self.w64(72, 0);
        self.w32(80, 1);
    }
    /// what was recorded since `start_log`, and whether that is everything
    pub fn take_log(&self) -> (Vec<Entry>, bool) {
        self.w32(80, 0);
        let n = self.r64(72);
        let mut out = Vec::new();
        for i in 0..n.min(NLOG) {
            let mut b = vec![0u8; ENTRY as usize];
            self.f.read_exact_at(&mut b, 4096 + i * ENTRY).expect("control file");
            let op = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
            let err = i32::from_le_bytes([b[4], b[5], b[6], b[7]]);
            let p = &b[16..];
            let len = p.iter().position(|&c| c == 0).unwrap_or(p.len());
            out.push(Entry {
                op: OPS.get((op & 0xff) as usize).copied().unwrap_or("?"),
                outside: op & 0x100 != 0,
                dest: op & 0x200 != 0,
                err,
                path: String::from_utf8_lossy(&p[..len]).into_owned(),
            });
        }
        (out, n <= NLOG)
    }
}

pub struct Server {
    pub child: Child,
    pub addr: SocketAddr,
    pub ctl: Ctl,
    dir: TempDir,
}

#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub auth: bool,
    /// run as this user; the directory must be usable by it
    pub uid: Option<u32>,
    /// address space limit
    pub cwd: Option<PathBuf>,
    pub log_level: Option<String>,
    /// another program, e.g. a copy which that user may run
    pub program: Option<PathBuf>,
    pub fsmon: Option<PathBuf>,
    /// access key and secret key
    pub keys: Option<(String, String)>,
    /// keep what is written to the standard output
    pub capture: bool,
}

impl Server {
    pub async fn start(run: &Run, root: &Path, o: &Opts) -> Option<Self> {
        let mut last = String::new();
        let ip = IpAddr::V4(Ipv4Addr::LOCALHOST);
        for _ in 0..5 {
            let Some(port) = free_port(ip) else {
                run.problem("no free port");
                return None;
            };
            let dir = TempDir::new();
            let ctl = match Ctl::create(&dir.path.join("ctl")) {
                Ok(c) => c,
                Err(e) => {
                    run.problem(format!("control file: {e}"));
                    return None;
                }
            };
            let mut cmd = Command::new(o.program.clone().unwrap_or_else(program));
            cmd.arg("--fs-root").arg(root).args(["--host", "127.0.0.1", "--port", &port.to_string()]);
            if let Some((a, s)) = &o.keys {
                cmd.arg(format!("--access-key={a}")).arg(format!("--secret-key={s}"));
            } else if o.auth {
                cmd.args(["--access-key", AK, "--secret-key", SK]);
            }
            cmd.current_dir(o.cwd.as_deref().unwrap_or(&dir.path)).stdin(Stdio::null()).stdout(Stdio::null()).kill_on_drop(true);
            match std::fs::File::create(dir.path.join("stderr")) {
                Ok(f) => cmd.stderr(f),
                Err(_) => cmd.stderr(Stdio::null()),
            };
            if o.capture {
                if let Ok(f) = std::fs::File::create(dir.path.join("stdout")) {
                    cmd.stdout(f);
                }
            }
            cmd.env_remove("RUST_LOG");
            if let Some(l) = &o.log_level {
                cmd.env("RUST_LOG", l);
            }
            cmd.env("FSMON_CTL", &ctl.path).env("FSMON_ROOT", root).env("LD_PRELOAD", o.fsmon.clone().unwrap_or_else(fsmon));
            if let Some(u) = o.uid {
                cmd.uid(u).gid(u);
            }
            let mut child = match cmd.spawn() {
                Ok(c) => c,
                Err(e) => {
                    run.problem(format!("cannot run the program: {e}"));
                    return None;
                }
            };
            let addr = SocketAddr::new(ip, port);
            let end = Instant::now() + Duration::from_secs(30);
            let mut wait = 2;
            while Instant::now() < end {
                if let Ok(Some(st)) = child.try_wait() {
                    last = format!("{st}: {}", std::fs::read_to_string(dir.path.join("stderr")).unwrap_or_default());
                    break;
                }
                // (somebody else may listen there)
                if ctl.ready() && tokio::net::TcpStream::connect(addr).await.is_ok() && matches!(child.try_wait(), Ok(None)) && listens(child.id(), port) {
                    run.count("servers started", 1);
                    return Some(Self { child, addr, ctl, dir });
                }
                tokio::time::sleep(Duration::from_millis(wait)).await;
                wait = (wait + 1).min(20);
                last = if ctl.ready() { "not listening after 30 s".into() } else { "the monitor library is not loaded".into() };
            }
            let _ = child.kill().await;
        }
        run.problem(format!("the server does not start: {last}"));
        None
    }
    /// one request on a connection of its own
    pub async fn call(&self, rq: &Rq) -> Out {
        crate::http::tcp(self.addr, rq).await
    }
    pub async fn conn(&self) -> std::io::Result<Conn> {
        Conn::open(self.addr).await
    }
    pub fn pid(&self) -> Option<u32> {
        self.child.id()
    }
    /// open files and threads
    pub fn holds(&self) -> (usize, usize) {
        let n = |d: &str| self.child.id().and_then(|p| std::fs::read_dir(format!("/proc/{p}/{d}")).ok()).map_or(0, Iterator::count);
        (n("fd"), n("task"))
    }
    /// what the open files are
    pub fn files(&self) -> Vec<String> {
        let Some(p) = self.child.id() else { return vec![] };
        let Ok(d) = std::fs::read_dir(format!("/proc/{p}/fd")) else { return vec![] };
        let mut v: Vec<String> = d.flatten().filter_map(|e| std::fs::read_link(e.path()).ok()).map(|l| l.display().to_string()).collect();
        v.sort();
        v
    }
    /// a line of /proc/PID/status, in KiB
    pub fn status(&self, field: &str) -> u64 {
        let text = self.child.id().and_then(|p| std::fs::read_to_string(format!("/proc/{p}/status")).ok()).unwrap_or_default();
        let line = text.lines().find_map(|l| l.strip_prefix(field).and_then(|l| l.strip_prefix(':')));
        line.and_then(|l| l.split_whitespace().next()).and_then(|n| n.parse().ok()).unwrap_or(0)
    }
    /// processor time used so far, in ticks of 10 ms
    pub fn ticks(&self) -> u64 {
        let text = self.child.id().and_then(|p| std::fs::read_to_string(format!("/proc/{p}/stat")).ok()).unwrap_or_default();
        let f: Vec<&str> = text.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        let n = |i: usize| f.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
        n(11) + n(12)
    }
    pub fn running(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }
    pub fn stderr(&self) -> String {
        let s = std::fs::read_to_string(self.dir.path.join("stderr")).unwrap_or_default();
        s.chars().take(2000).collect()
    }
    /// all it has written
    pub fn output(&self) -> Vec<u8> {
        let mut all = std::fs::read(self.dir.path.join("stdout")).unwrap_or_default();
        all.extend(std::fs::read(self.dir.path.join("stderr")).unwrap_or_default());
        all
    }
    pub fn signal(&self, sig: i32) {
        if let Some(pid) = self.child.id() {
            unsafe {
                libc::kill(pid as i32, sig);
            }
        }
    }
    /// wait until it has died
    pub async fn gone(&mut self, within: Duration) -> bool {
        tokio::time::timeout(within, self.child.wait()).await.is_ok()
    }
    pub async fn kill(mut self) {
        let _ = self.child.kill().await;
    }
}

/// copy a directory tree
pub fn copy_tree(from: &Path, to: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(to)?;
    for e in std::fs::read_dir(from)? {
        let e = e?;
        let t = to.join(e.file_name());
        if e.file_type()?.is_dir() {
            copy_tree(&e.path(), &t)?;
        } else {
            std::fs::copy(e.path(), &t)?;
        }
    }
    Ok(())
}
