//! C24: the program.
use super::parallel;
use crate::ev::Run;
use crate::http::{Conn, Fail, Out, Rq, Rs, H2};
use crate::sig::{self, Cred, Pay};
use crate::sut::{free_port, listens, program};
use crate::util::{etag, snapshot, tree_diff, Rng, TempDir};
use crate::world::{self, AK, SK};
use serde_json::json;
use std::collections::BTreeMap;
use std::net::{IpAddr, SocketAddr};
use std::path::{Path, PathBuf};
use std::process::Stdio;
use std::time::{Duration, Instant};
use tokio::process::{Child, Command};

fn command(args: &[String], cwd: &Path, log: &Path) -> Command {
    let mut c = Command::new(program());
    c.args(args).current_dir(cwd).stdin(Stdio::null()).kill_on_drop(true);
    c.stdout(Stdio::null());
    match std::fs::File::create(log) {
        Ok(f) => c.stderr(f),
        Err(_) => c.stderr(Stdio::null()),
    };
    c.env_remove("RUST_LOG");
    c
}

/// a running server
struct Sut {
    child: Child,
    addr: SocketAddr,
    _log: TempDir,
}

impl Sut {
    /// `args` without the address
    async fn start(run: &Run, args: &[String], cwd: &Path, host: &str, ip: IpAddr, log_level: Option<&str>) -> Option<Self> {
        let mut last = String::new();
        for _ in 0..6 {
            let Some(port) = free_port(ip) else {
                run.count("addresses not available here", 1);
                return None;
            };
            let dir = TempDir::new();
            let log = dir.path.join("stderr");
            let mut all = args.to_vec();
            all.extend(["--host".into(), host.into(), "--port".into(), port.to_string()]);
            let mut cmd = command(&all, cwd, &log);
            if let Some(l) = log_level {
                cmd.env("RUST_LOG", l);
            }
            let mut child = match cmd.spawn() {
                Ok(c) => c,
                Err(e) => {
                    run.problem(format!("cannot run the program: {e}"));
                    return None;
                }
            };
            let addr = SocketAddr::new(ip, port);
            let end = Instant::now() + Duration::from_secs(30);
            while Instant::now() < end {
                if let Ok(Some(st)) = child.try_wait() {
                    last = format!("{st}: {}", std::fs::read_to_string(&log).unwrap_or_default());
                    break;
                }
                if tokio::net::TcpStream::connect(addr).await.is_ok() && matches!(child.try_wait(), Ok(None)) && listens(child.id(), port) {
                    run.count("servers started", 1);
                    return Some(Self { child, addr, _log: dir });
                }
                tokio::time::sleep(Duration::from_millis(20)).await;
                last = "not listening after 30 s".into();
            }
            let _ = child.kill().await;
        }
        run.violation("program:does not start", json!({"args": args, "host": host, "last": last}));
        None
    }
    async fn call(&self, rq: &Rq) -> Out {
        crate::http::tcp(self.addr, rq).await
    }
    fn signal(&self, sig: i32) {
        if let Some(pid) = self.child.id() {
            unsafe {
                libc::kill(pid as i32, sig);
            }
        }
    }
    async fn stop(mut self, sig: i32) {
        self.signal(sig);
        let _ = tokio::time::timeout(Duration::from_secs(10), self.child.wait()).await;
        let _ = self.child.kill().await;
    }
    fn running(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }
}

fn args_of(root: Option<&str>, cred: Option<&Cred>, r: &mut Rng) -> Vec<String> {
    let mut parts: Vec<Vec<String>> = Vec::new();
    let mut opt = |name: &str, v: &str, r: &mut Rng| {
        // a value which starts with a dash can only be given in this way
        if v.starts_with('-') || r.chance(1, 2) {
            parts.push(vec![format!("{name}={v}")]);
        } else {
            parts.push(vec![name.into(), v.into()]);
        }
    };
    if let Some(p) = root {
        opt("--fs-root", p, r);
    }
    if let Some(c) = cred {
        opt("--access-key", &c.ak, r);
        opt("--secret-key", &c.sk, r);
    }
    r.shuffle(&mut parts);
    parts.concat()
}

fn holds(root: &Path, data: &[u8]) -> bool {
    fn walk(d: &Path, data: &[u8]) -> bool {
        std::fs::read_dir(d).map_or(false, |it| {
            it.flatten().any(|e| {
                let p = e.path();
                match e.file_type() {
                    Ok(t) if t.is_dir() => walk(&p, data),
                    Ok(t) if t.is_file() => std::fs::read(&p).map_or(false, |b| b == data),
                    _ => false,
                }
            })
        })
    }
    walk(root, data)
}

fn status(o: &Out) -> u16 {
    o.as_ref().map_or(0, |r| r.status)
}

fn brief(o: &Out) -> serde_json::Value {
    match o {
        Ok(r) => r.brief(),
        Err(e) => json!(format!("{e:?}")),
    }
}

fn key_material(r: &mut Rng) -> Cred {
    let ak = match r.below(4) {
        0 => AK.to_owned(),
        1 => "A".to_owned(),
        2 => format!("user-{:x}.name_{}", r.u64(), r.below(9)),
        _ => "x=+y@z".to_owned(),
    };
    let sk = match r.below(5) {
        0 => SK.to_owned(),
        1 => "s".to_owned(),
        2 => "-dash at the start, spaces, ünïcode/=+'\"$`\\".to_owned(),
        3 => "x".repeat(200),
        _ => format!("{:x}/{:x}", r.u64(), r.u64()),
    };
    Cred::new(&ak, &sk)
}

/// one server: its directory, its address, its keys
async fn matrix(run: &'static Run, seed: u64, n: u64) {
    let mut r = Rng::from(seed, "program", n);
    let top = TempDir::new();
    let cwd = top.path.join("cwd");
    let sub = (*r.pick(&["data", "with space", "ünï", "-dash", "a/b/c", ".hidden"])).to_owned();
    // decoys: where data must not go
    for d in ["cwd", "cwd/data", "decoy", "cwd/a/b"] {
        std::fs::create_dir_all(top.path.join(d)).expect("directory");
    }
    let (style, root_arg, root): (&str, Option<String>, PathBuf) = match r.below(7) {
        0 => ("default", None, cwd.clone()),
        1 => ("dot", Some(".".into()), cwd.clone()),
        2 => ("relative", Some(sub.clone()), cwd.join(&sub)),
        3 => ("relative, above", Some(format!("../other/{sub}/")), top.path.join("other").join(&sub)),
        4 => ("symbolic link", Some("link".into()), top.path.join("linked").join(&sub)),
        5 => ("dotted", Some(format!("{}/./x/../{sub}", cwd.display())), cwd.join(&sub)),
        _ => {
            let p = top.path.join("abs").join(&sub);
            ("absolute", Some(p.display().to_string()), p)
        }
    };
    std::fs::create_dir_all(&root).expect("directory");
    std::fs::create_dir_all(cwd.join("x")).expect("directory");
    if style == "symbolic link" {
        let _ = std::os::unix::fs::symlink(&root, cwd.join("link"));
    }
    // data which is there already
    let there = crate::util::hex(&r.bytes(250)).into_bytes();
    std::fs::create_dir_all(root.join("present/dir")).expect("directory");
    std::fs::write(root.join("present/dir/object"), &there).expect("file");
    let outside = |p: &Path| -> crate::util::Tree {
        let mut t = snapshot(p);
        if let Ok(rel) = root.strip_prefix(p) {
            use std::os::unix::ffi::OsStrExt;
            let rel = rel.as_os_str().as_bytes().to_vec();
            let below = [rel.as_slice(), b"/"].concat();
            t.retain(|k, _| !(rel.is_empty() || *k == rel || k.starts_with(&below)));
        }
        t
    };
    let before = outside(&top.path);

    let hosts: [(&str, &str); 6] = [("127.0.0.1", "127.0.0.1"), ("localhost", "127.0.0.1"), ("127.0.0.2", "127.0.0.2"), ("0.0.0.0", "127.0.0.1"), ("::1", "::1"), ("127.0.0.1", "127.0.0.1")];
    let (host, ip) = *r.pick(&hosts);
    let mut ip: IpAddr = ip.parse().expect("address");
    if host == "localhost" {
        // whatever the name stands for here
        use std::net::ToSocketAddrs;
        if let Some(a) = ("localhost", 0).to_socket_addrs().ok().and_then(|mut it| it.next()) {
            ip = a.ip();
        }
    }
    let cred = r.chance(2, 3).then(|| key_material(&mut r));
    let args = args_of(root_arg.as_deref(), cred.as_ref(), &mut r);
    let level = *r.pick(&[None, None, Some("off"), Some("debug")]);
    let Some(mut sut) = Sut::start(run, &args, &cwd, host, ip, level).await else { return };
    let note = |what: &str, o: &Out| json!({"what": what, "args": args, "host": host, "root": style, "answer": brief(o)});
    let what = format!("{style}, {host}, keys: {}, log: {level:?}", cred.is_some());
    run.eval(&what, true);

    // the address it listens on
    if ip == "127.0.0.2".parse::<IpAddr>().expect("address") {
        let other = SocketAddr::new("127.0.0.1".parse().expect("address"), sut.addr.port());
        // another server of this run may have got the port there: it has other data
        if let Ok(rs) = crate::http::tcp(other, &Rq::new("GET", "/present/dir/object")).await {
            run.check(rs.body != there, "address:also served at 127.0.0.1", || json!({"args": args}));
        }
        run.count("addresses not configured were tried", 1);
    }

    let o = sut.call(&world::sign(cred.as_ref(), Rq::new("GET", "/present/dir/object"), &mut r)).await;
    run.check(o.as_ref().map_or(false, |rs| rs.ok() && rs.body == there), "root:data there before", || note("object there before the start", &o));
    let o = sut.call(&world::sign(cred.as_ref(), Rq::new("PUT", "/bucket-a"), &mut r)).await;
    run.check(status(&o) == 200, "root:create bucket", || note("create bucket", &o));

    let mut stored: Vec<(String, Vec<u8>, BTreeMap<String, String>)> = Vec::new();
    for (i, key) in world::key_pool(&mut r, 5, false).into_iter().enumerate() {
        let mut data = world::content(&mut r, true);
        data.extend_from_slice(format!("unique {n} {i}").as_bytes());
        let meta = world::metadata(&mut r);
        let mut rq = Rq::new("PUT", world::target_any("bucket-a", &key, &mut r));
        for (k, v) in &meta {
            rq = rq.h(&format!("x-amz-meta-{k}"), v);
        }
        let (mut rq, how) = world::upload(cred.as_ref(), rq, &data, &mut r);
        if r.chance(1, 4) {
            rq = rq.h("expect", "100-continue");
        }
        run.eval(&format!("upload {how}, {}", cred.is_some()), true);
        let o = sut.call(&rq).await;
        if !run.check(status(&o) == 200, &format!("keys:accepted upload refused ({how})"), || note(how, &o)) {
            continue;
        }
        run.check(holds(&root, &data), "root:data elsewhere", || json!({"args": args, "root": root, "key": key}));
        stored.push((key, data, meta));
    }
    if let Some(good) = &cred {
        // what is not signed with the keys
        let tree = snapshot(&root);
        let mut bad_sk = good.clone();
        bad_sk.sk.push('x');
        let mut bad_ak = good.clone();
        bad_ak.ak.push('x');
        let mut swapped = good.clone();
        std::mem::swap(&mut swapped.ak, &mut swapped.sk);
        let mut short = good.clone();
        short.sk.pop();
        for i in 0..18 {
            let mut rq = match i % 6 {
                0 => Rq::new("GET", "/"),
                1 => Rq::new("GET", "/present/dir/object"),
                2 => Rq::new("DELETE", "/present/dir/object"),
                3 => Rq::new("PUT", "/bucket-a/new").body("new"),
                4 => Rq::new("PUT", "/bucket-new"),
                _ => Rq::new("GET", "/bucket-a"),
            };
            let (c, who) = match i / 6 {
                0 => (None, "unsigned"),
                1 => (Some(if r.chance(1, 2) { &bad_sk } else { &short }), "wrong secret key"),
                _ if r.chance(1, 3) && !swapped.ak.contains(['/', ' ', ',']) && swapped.ak.is_ascii() => (Some(&swapped), "keys swapped"),
                _ => (Some(&bad_ak), "unknown access key"),
            };
            if let Some(c) = c {
                if c.sk.is_empty() {
                    continue;
                }
                if r.chance(1, 3) {
                    sig::presign(&mut rq, c, 600, &[]);
                } else {
                    sig::sign_header(&mut rq, c, Pay::Hash, &[]);
                }
            }
            let o = sut.call(&rq).await;
            run.eval(&format!("{who}: {} {}", rq.method, i % 6), true);
            run.check(matches!(&o, Ok(rs) if (400..500).contains(&rs.status) && !rs.body.windows(there.len()).any(|w| w == there.as_slice())), &format!("keys:{who} not refused"), || note(who, &o));
        }
        let d = tree_diff(&tree, &snapshot(&root), false);
        run.check(d.is_empty(), "keys:refused request changed the directory", || json!({"args": args, "changes": d}));
    }
    // everything is there, over one connection
    if let Ok(mut c) = Conn::open(sut.addr).await {
        for (key, data, meta) in &stored {
            let o = c.send(&world::sign(cred.as_ref(), Rq::new("GET", world::target("bucket-a", key)), &mut r)).await;
            let good = matches!(&o, Ok(rs) if rs.ok() && rs.body == *data && rs.get("etag") == Some(etag(data)) && rs.meta() == *meta);
            run.check(good, "served:object differs", || note(key, &o));
        }
    }
    let d = tree_diff(&before, &outside(&top.path), false);
    run.check(d.is_empty(), "root:changes outside the root directory", || json!({"args": args, "changes": d}));
    run.check(sut.running(), "program:ended", || json!({"args": args}));
    sut.stop(libc::SIGKILL).await;
}

/// what makes the program refuse to start
async fn refusals(run: &'static Run, seed: u64, n: u64) {
    let mut r = Rng::from(seed, "refusals", n);
    let top = TempDir::new();
    let root = top.path.join("root");
    std::fs::create_dir_all(&root).expect("directory");
    let root_s = root.display().to_string();
    let ip: IpAddr = "127.0.0.1".parse().expect("address");
    let Some(taken) = free_port(ip).and_then(|p| std::net::TcpListener::bind((ip, p)).ok()) else {
        run.problem("no port");
        return;
    };
    let taken_port = taken.local_addr().expect("address").port().to_string();
    let free = free_port(ip).unwrap_or(0).to_string();
    let s = |v: &[&str]| -> Vec<String> { v.iter().map(|s| (*s).to_owned()).collect() };
    let missing = top.path.join("missing").display().to_string();
    let below = top.path.join("missing/below").display().to_string();
    let under_file = top.path.join("file/below").display().to_string();
    std::fs::write(top.path.join("file"), "x").expect("file");
    let cases: Vec<(&str, Vec<String>)> = vec![
        ("only the access key", s(&["--fs-root", &root_s, "--host", "127.0.0.1", "--port", &free, "--access-key", AK])),
        ("only the secret key", s(&["--fs-root", &root_s, "--host", "127.0.0.1", "--port", &free, "--secret-key", SK])),
        ("missing root", s(&["--fs-root", &missing, "--host", "127.0.0.1", "--port", &free])),
        ("missing root, with keys", s(&["--fs-root", &missing, "--host", "127.0.0.1", "--port", &free, "--access-key", AK, "--secret-key", SK])),
        ("missing root, two levels", s(&["--fs-root", &below, "--host", "127.0.0.1", "--port", &free])),
        ("missing relative root", s(&["--fs-root", "nothing", "--host", "127.0.0.1", "--port", &free])),
        ("root below a file", s(&["--fs-root", &under_file, "--host", "127.0.0.1", "--port", &free])),
        ("port in use", s(&["--fs-root", &root_s, "--host", "127.0.0.1", "--port", &taken_port])),
        ("address of another machine", s(&["--fs-root", &root_s, "--host", "192.0.2.1", "--port", &free])),
        ("not an address", s(&["--fs-root", &root_s, "--host", "300.1.1.1", "--port", &free])),
        ("unknown host", s(&["--fs-root", &root_s, "--host", "no-such-host.invalid", "--port", &free])),
        ("not a port", s(&["--fs-root", &root_s, "--host", "127.0.0.1", "--port", "abc"])),
        ("port out of range", s(&["--fs-root", &root_s, "--host", "127.0.0.1", "--port", "70000"])),
    ];
    for (what, args) in &cases {
        let before = snapshot(&top.path);
        let log = TempDir::new();
        let mut cmd = command(args, &top.path, &log.path.join("stderr"));
        let Ok(mut child) = cmd.spawn() else {
            run.problem("cannot run the program");
            return;
        };
        run.eval(what, true);
        match tokio::time::timeout(Duration::from_secs(60), child.wait()).await {
            Ok(Ok(st)) => {
                run.check(!st.success(), &format!("start:{what}: exit status 0"), || json!({"args": args}));
            }
            Ok(Err(e)) => run.problem(e.to_string()),
            Err(_) => {
                // slow, or running?
                let port: u16 = args.iter().position(|a| a == "--port").and_then(|i| args[i + 1].parse().ok()).unwrap_or(0);
                let answers = match tokio::net::TcpStream::connect((ip, port)).await {
                    Ok(_) if *what != "port in use" => true,
                    _ => matches!(child.try_wait(), Ok(None)) && *what != "unknown host",
                };
                run.check(!answers, &format!("start:{what}: started"), || json!({"args": args}));
                run.problem(format!("{what}: no exit within 60 s"));
            }
        }
        let _ = child.kill().await;
        let d = tree_diff(&before, &snapshot(&top.path), true);
        run.check(d.is_empty(), "start:a refused start changed the directory", || json!({"args": args, "changes": d}));
        if r.chance(1, 200) {
            break;
        }
    }
}

/// restarts and kills
async fn restarts(run: &'static Run, seed: u64, n: u64) {
    let mut r = Rng::from(seed, "restarts", n);
    let top = TempDir::new();
    let root = top.path.join("root");
    std::fs::create_dir_all(&root).expect("directory");
    let cred = r.chance(1, 2).then(|| Cred::new(AK, SK));
    let ip: IpAddr = "127.0.0.1".parse().expect("address");
    let args = args_of(Some("root"), cred.as_ref(), &mut r);
    let mut objects: BTreeMap<String, (Vec<u8>, BTreeMap<String, String>)> = BTreeMap::new();
    let mut uploads: Vec<(String, String, BTreeMap<i64, Vec<u8>>, BTreeMap<String, String>)> = Vec::new();
    let keys = world::key_pool(&mut r, 6, false);
    for round in 0..run.by(4, 8) {
        let Some(sut) = Sut::start(run, &args, &top.path, "127.0.0.1", ip, None).await else { return };
        let note = |what: &str, o: &Out| json!({"what": what, "round": round, "args": args, "answer": brief(o)});
        if round == 0 {
            let o = sut.call(&world::sign(cred.as_ref(), Rq::new("PUT", "/bucket-r"), &mut r)).await;
            run.check(status(&o) == 200, "restart:create bucket", || note("create", &o));
        }
        // what was acknowledged before
        for key in &keys {
            let o = sut.call(&world::sign(cred.as_ref(), Rq::new("GET", world::target("bucket-r", key)), &mut r)).await;
            run.eval(&format!("object after {round} restarts, stored: {}", objects.contains_key(key)), true);
            let good = match objects.get(key) {
                Some((data, meta)) => matches!(&o, Ok(rs) if rs.ok() && rs.body == *data && rs.meta() == *meta),
                None => status(&o) == 404,
            };
            run.check(good, "restart:object differs", || note(key, &o));
        }
        let o = sut.call(&world::sign(cred.as_ref(), Rq::new("GET", "/bucket-r"), &mut r)).await;
        let mut listed: Vec<String> = o.as_ref().ok().and_then(|rs| crate::xml::parse_lenient(&rs.body).ok()).map_or_else(Vec::new, |d| d.all("Contents").filter_map(|c| c.text_of("Key")).collect());
        listed.sort();
        run.check(listed == objects.keys().cloned().collect::<Vec<_>>(), "restart:listing differs", || note("list", &o));
        // go on
        for _ in 0..r.range(3, 9) {
            let key = r.pick(&keys).clone();
            match r.below(6) {
                0 => {
                    let o = sut.call(&world::sign(cred.as_ref(), Rq::new("DELETE", world::target("bucket-r", &key)), &mut r)).await;
                    run.check(status(&o) == 204, "restart:delete", || note(&key, &o));
                    objects.remove(&key);
                }
                1 => {
                    let meta = world::metadata(&mut r);
                    let mut rq = Rq::new("POST", format!("{}?uploads", world::target("bucket-r", &key)));
                    for (k, v) in &meta {
                        rq = rq.h(&format!("x-amz-meta-{k}"), v);
                    }
                    let o = sut.call(&world::sign(cred.as_ref(), rq, &mut r)).await;
                    let id = o.as_ref().ok().and_then(|rs| crate::xml::parse_lenient(&rs.body).ok()).and_then(|d| d.text_of("UploadId"));
                    if run.check(id.is_some(), "restart:initiate", || note(&key, &o)) {
                        uploads.push((key, id.unwrap_or_default(), BTreeMap::new(), meta));
                    }
                }
                2 if !uploads.is_empty() => {
                    let i = r.below(uploads.len());
                    let no = r.range(1, 4) as i64;
                    let data = world::content(&mut r, false);
                    let rq = Rq::new("PUT", format!("{}?partNumber={no}&uploadId={}", world::target("bucket-r", &uploads[i].0), uploads[i].1));
                    let (rq, _) = world::upload(cred.as_ref(), rq, &data, &mut r);
                    let o = sut.call(&rq).await;
                    if run.check(status(&o) == 200, "restart:part", || note(&uploads[i].0.clone(), &o)) {
                        uploads[i].2.insert(no, data);
                    }
                }
                3 if uploads.iter().any(|u| !u.2.is_empty()) => {
                    let i = uploads.iter().position(|u| !u.2.is_empty()).unwrap_or(0);
                    let (key, id, parts, meta) = uploads.remove(i);
                    let mut doc = String::from("<CompleteMultipartUpload>");
                    for (no, data) in &parts {
                        doc.push_str(&format!("<Part><PartNumber>{no}</PartNumber><ETag>{}</ETag></Part>", crate::util::xml_escape(&etag(data))));
                    }
                    doc.push_str("</CompleteMultipartUpload>");
                    let rq = Rq::new("POST", format!("{}?uploadId={id}", world::target("bucket-r", &key))).body(doc);
                    let o = sut.call(&world::sign(cred.as_ref(), rq, &mut r)).await;
                    run.eval("completion, possibly after a restart", true);
                    if run.check(matches!(&o, Ok(rs) if rs.ok() && rs.code().is_none()), "restart:completion", || note(&key, &o)) {
                        objects.insert(key, (parts.values().flatten().copied().collect(), meta));
                    }
                }
                _ => {
                    let data = world::content(&mut r, true);
                    let meta = world::metadata(&mut r);
                    let mut rq = Rq::new("PUT", world::target("bucket-r", &key));
                    for (k, v) in &meta {
                        rq = rq.h(&format!("x-amz-meta-{k}"), v);
                    }
                    let (rq, _) = world::upload(cred.as_ref(), rq, &data, &mut r);
                    let o = sut.call(&rq).await;
                    if run.check(status(&o) == 200, "restart:put", || note(&key, &o)) {
                        objects.insert(key, (data, meta));
                    }
                }
            }
        }
        let sig = *r.pick(&[libc::SIGKILL, libc::SIGTERM, libc::SIGINT]);
        run.seen("signals", &sig.to_string());
        sut.stop(sig).await;
        run.count("restarts", 1);
    }
}

/// many connections, each with its own conversation
async fn connections(run: &'static Run, seed: u64, n: u64) {
    let mut r = Rng::from(seed, "connections", n);
    let top = TempDir::new();
    let cred = r.chance(1, 2).then(|| Cred::new(AK, SK));
    let ip: IpAddr = "127.0.0.1".parse().expect("address");
    let args = args_of(Some(&top.path.display().to_string()), cred.as_ref(), &mut r);
    let Some(mut sut) = Sut::start(run, &args, &top.path, "127.0.0.1", ip, None).await else { return };
    let o = sut.call(&world::sign(cred.as_ref(), Rq::new("PUT", "/bucket-c"), &mut r)).await;
    run.check(status(&o) == 200, "connections:create bucket", || brief(&o));
    // connections which say nothing, or only half of a request
    let mut idle = Vec::new();
    for i in 0..run.by(150, 400) {
        if let Ok(mut c) = Conn::open(sut.addr).await {
            match i % 4 {
                0 => {
                    let _ = c.write(b"GET /bucket-c HTTP/1.1\r\nhos").await;
                }
                1 => {
                    let _ = c.write(b"PUT /bucket-c/slow HTTP/1.1\r\nhost: x\r\ncontent-length: 1000\r\n\r\nsome").await;
                }
                2 => {
                    let (head, _) = Conn::head_bytes(&world::sign(cred.as_ref(), Rq::new("GET", "/bucket-c"), &mut r));
                    let _ = c.write(&head).await;
                }
                _ => {}
            }
            idle.push(c);
        }
    }
    run.max("idle connections", idle.len() as u64);
    let addr = sut.addr;
    let mut tasks = Vec::new();
    // conversations side by side on one connection, with HTTP/2
    let shared = match H2::open(addr).await {
        Ok(c) => c,
        Err(e) => return run.problem(format!("HTTP/2: {e}")),
    };
    for t in 0..run.by(32u64, 80) {
        let cred = cred.clone();
        let shared = (t % 4 == 3).then(|| shared.clone());
        tasks.push(tokio::spawn(async move {
            let mut r = Rng::from(seed, "conversation", n * 1000 + t);
            let key = format!("own/{t}");
            let other = |i: usize| format!("absent/{t}/{i}");
            let mut conn = match Conn::open(addr).await {
                Ok(c) => c,
                Err(e) => {
                    run.violation("connections:refused", json!(e.to_string()));
                    return;
                }
            };
            let mut now: Option<Vec<u8>> = None;
            for i in 0..12 {
                // a few requests at once, the answers in their order
                let depth = if shared.is_some() { 1 } else { *r.pick(&[1usize, 1, 3, 8]) };
                let mut batch: Vec<(Rq, String, u16, Option<Vec<u8>>)> = Vec::new();
                for j in 0..depth {
                    match r.below(6) {
                        0 | 1 => {
                            let mut data = format!("conversation {t} {i} {j} ").into_bytes();
                            let m = r.below(3000);
                            data.extend(r.bytes(m));
                            let rq = Rq::new("PUT", format!("/bucket-c/{key}"));
                            let (mut rq, _) = world::upload(cred.as_ref(), rq, &data, &mut r);
                            if rq.get("content-length").is_none() {
                                rq.set("content-length", rq.all_body().len().to_string());
                            }
                            batch.push((rq, format!("put {}", etag(&data)), 200, None));
                            now = Some(data);
                        }
                        2 => {
                            let rq = world::sign(cred.as_ref(), Rq::new("GET", format!("/bucket-c/{}", other(j))), &mut r);
                            batch.push((rq, "absent".into(), 404, None));
                        }
                        3 => {
                            let rq = world::sign(cred.as_ref(), Rq::new("HEAD", format!("/bucket-c/{key}")), &mut r);
                            batch.push((rq, format!("head {}", now.as_ref().map_or(0, Vec::len)), if now.is_some() { 200 } else { 404 }, None));
                        }
                        _ => {
                            let rq = world::sign(cred.as_ref(), Rq::new("GET", format!("/bucket-c/{key}")), &mut r);
                            batch.push((rq, "get".into(), if now.is_some() { 200 } else { 404 }, now.clone()));
                        }
                    }
                }
                let mut all = Vec::new();
                for (rq, ..) in &batch {
                    let (head, chunked) = Conn::head_bytes(rq);
                    assert!(!chunked);
                    all.extend(head);
                    all.extend(rq.all_body());
                }
                if shared.is_none() && conn.write(&all).await.is_err() {
                    run.violation("connections:closed", json!({"conversation": t, "step": i}));
                    return;
                }
                for (rq, what, want, body) in &batch {
                    let o = match &shared {
                        Some(c) => c.call(rq).await,
                        None => match tokio::time::timeout(crate::http::WATCHDOG, conn.read(rq.method == "HEAD")).await {
                            Ok(o) => o,
                            Err(_) => Err(Fail::Hang),
                        },
                    };
                    let way = if shared.is_some() { "HTTP/2 streams" } else { "HTTP/1.1" };
                    run.count(&format!("answers over {way}"), 1);
                    run.eval(&format!("{} of {depth} at once: {want}, {way}", rq.method), depth > 1 || shared.is_some());
                    let good = match &o {
                        Ok(rs) => {
                            rs.status == *want
                                && body.as_ref().map_or(true, |b| *b == rs.body)
                                && what.strip_prefix("put ").map_or(true, |e| rs.get("etag").as_deref() == Some(e))
                                && (!what.starts_with("head ") || *want != 200 || rs.get("content-length").as_deref() == what.strip_prefix("head "))
                        }
                        Err(_) => false,
                    };
                    if !run.check(good, "connections:answer does not match its request", || json!({"conversation": t, "step": i, "depth": depth, "request": rq.brief(), "expected": what, "answer": brief(&o)})) {
                        return;
                    }
                }
                if r.chance(1, 6) {
                    if let Ok(c) = Conn::open(addr).await {
                        conn = c;
                    }
                }
            }
            run.count("conversations", 1);
        }));
    }
    for t in tasks {
        if let Err(e) = t.await {
            run.problem(format!("conversation: {e}"));
        }
    }
    // finish what was begun
    for (i, c) in idle.iter_mut().enumerate().take(40) {
        if i % 4 == 0 && cred.is_none() {
            let _ = c.write(b"t: x\r\n\r\n").await;
            let o = match tokio::time::timeout(crate::http::WATCHDOG, c.read(false)).await {
                Ok(o) => o,
                Err(_) => Err(Fail::Hang),
            };
            run.check(status(&o) == 200, "connections:request in two pieces", || brief(&o));
        }
    }
    drop(idle);
    let o: Result<Rs, Fail> = sut.call(&world::sign(cred.as_ref(), Rq::new("GET", "/"), &mut r)).await;
    run.check(status(&o) == 200, "connections:served afterwards", || brief(&o));
    run.check(sut.running(), "program:ended", || json!({"args": args}));
    sut.stop(libc::SIGKILL).await;
}

pub async fn run(run: &'static Run) -> i32 {
    if !program().is_file() {
        run.problem("the program has not been built");
        return run.finish(&[]);
    }
    let seed = run.seed;
    parallel(run, 8, |i| async move {
        let mut n = i;
        while run.more() || n == i {
            match (n / 8 + n) % 8 {
                0 => refusals(run, seed, n).await,
                1 => connections(run, seed, n).await,
                2 | 3 => restarts(run, seed, n).await,
                _ => matrix(run, seed, n).await,
            }
            n += 8;
        }
    })
    .await;
    run.finish(&["the program is built by the monitor from src/bin/s3-server.rs, with its dependencies at their latest cached versions", "no other program on this machine takes the chosen ports"])
}
