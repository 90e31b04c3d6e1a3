//! C09: what requests reach in the file system.
//!
//! The program runs as an unprivileged user below a scratch directory of its
//! own, and the monitor library refuses every change outside its root.
use super::parallel;
use crate::ev::Run;
use crate::http::{self, Fail, Rq};
use crate::sig::{policy_doc, Cred, Form};
use crate::sut::{self, Entry, Opts, Server};
use crate::util::{hex, md5_b64, pct_path, show, snapshot, tree_diff, unpct, xml_escape, Rng, TempDir, Tree};
use crate::world::{self, AK, SK};
use crate::xml;
use serde_json::json;
use std::collections::BTreeSet;
use std::os::unix::fs::{chown, PermissionsExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

const UID: u32 = 54_321;

/// the program and the monitor library, where that user may run them
struct Tools {
    _dir: TempDir,
    program: PathBuf,
    fsmon: PathBuf,
}

fn tools() -> std::io::Result<Tools> {
    let dir = TempDir::new();
    let set = |p: &Path| std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755));
    set(&dir.path)?;
    let (program, fsmon) = (dir.path.join("s3-server"), dir.path.join("fsmon.so"));
    std::fs::copy(sut::program(), &program)?;
    std::fs::copy(sut::fsmon(), &fsmon)?;
    set(&program)?;
    set(&fsmon)?;
    Ok(Tools { _dir: dir, program, fsmon })
}

/// names of buckets, by the letter of the rules which matter here
fn bucket_like(b: &str) -> bool {
    let ends = |c: Option<char>| c.is_some_and(|c| c.is_ascii_lowercase() || c.is_ascii_digit());
    (3..64).contains(&b.len())
        && b.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '.' || c == '-')
        && ends(b.chars().next())
        && ends(b.chars().last())
}

/// Where a key of a bucket is, taken as a path: whether that is not in the
/// bucket. `None`: absolute paths, which can be understood in two ways.
fn leaves(bucket: &str, key: &str) -> Option<bool> {
    if key.starts_with('/') {
        return None;
    }
    // the bucket is two levels below the scratch directory
    let mut at: Vec<&str> = vec!["root", bucket];
    for s in key.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                at.pop();
            }
            s => at.push(s),
        }
    }
    Some(at.len() < 2 || at[0] != "root" || at[1] != bucket)
}

struct Area {
    scratch: TempDir,
    root: PathBuf,
    srv: Server,
    auth: bool,
    /// uploads in progress: of `bkt/src` and of `other/secret`
    ids: [String; 2],
    /// what is in files that no request to `bkt` may reach
    secrets: Vec<String>,
    outer: Tree,
    strays: Tree,
    other: Tree,
}

const STRAYS: [&str; 5] = ["stray.txt", "Plain_Dir", "Plain_Dir/src", ".hidden", ".secretdir/src"];

fn write(p: &Path, s: &str) -> std::io::Result<()> {
    if let Some(d) = p.parent() {
        std::fs::create_dir_all(d)?;
    }
    std::fs::write(p, s)
}
fn own(p: &Path) -> std::io::Result<()> {
    chown(p, Some(UID), Some(UID))?;
    if p.is_dir() {
        for e in std::fs::read_dir(p)? {
            own(&e?.path())?;
        }
    }
    Ok(())
}
/// everything below `scratch` but the root
fn outer(scratch: &Path) -> Tree {
    snapshot(scratch).into_iter().filter(|(k, _)| !(k == b"root" || k.starts_with(b"root/"))).collect()
}
fn some(root: &Path, keep: impl Fn(&str) -> bool) -> Tree {
    snapshot(root).into_iter().filter(|(k, _)| keep(&String::from_utf8_lossy(k))).collect()
}
fn stray(p: &str) -> bool {
    STRAYS.iter().any(|s| p == *s) || p == ".secretdir"
}

impl Area {
    async fn new(run: &Run, t: &Tools, r: &mut Rng) -> Option<Self> {
        let scratch = TempDir::new();
        let root = scratch.path.join("root");
        let mut secrets = Vec::new();
        let mut canary = |n: &str| {
            let s = format!("CANARY-{n}-{}", hex(&[secrets.len() as u8]).repeat(8));
            secrets.push(s.clone());
            s
        };
        let setup = (|| -> std::io::Result<()> {
            std::fs::create_dir(&root)?;
            for f in ["src", "canary-outside", "root2/src", "rootsrc", "bkt/src", "other/secret", ".hidden"] {
                write(&scratch.path.join(f), &canary("outside"))?;
            }
            for f in ["stray.txt", "Plain_Dir/src", ".hidden", ".secretdir/src"] {
                write(&root.join(f), &canary("stray"))?;
            }
            own(&scratch.path)?;
            std::fs::set_permissions(&scratch.path, std::fs::Permissions::from_mode(0o755))
        })();
        if let Err(e) = setup {
            run.problem(format!("setup: {e}"));
            return None;
        }
        let auth = r.chance(1, 3);
        let opts = Opts { auth, uid: Some(UID), program: Some(t.program.clone()), fsmon: Some(t.fsmon.clone()), ..Opts::default() };
        let srv = Server::start(run, &root, &opts).await?;
        srv.ctl.guard(true);
        let mut a = Self { scratch, root, srv, auth, ids: Default::default(), secrets: vec![], outer: Tree::new(), strays: Tree::new(), other: Tree::new() };
        let (sec, sec_meta) = (canary("object"), canary("metadata"));
        let setup = [
            Rq::new("PUT", "/bkt"),
            Rq::new("PUT", "/other"),
            Rq::new("PUT", "/bkt/src").h("x-amz-meta-a", "mine").body("the source".as_bytes()),
            Rq::new("PUT", "/bkt/deep/er/x").body("deep".as_bytes()),
            Rq::new("PUT", "/other/secret").h("x-amz-meta-secret", &sec_meta).body(sec),
            Rq::new("PUT", "/other/src").h("x-amz-meta-secret", &sec_meta).body(canary("object")),
            Rq::new("PUT", "/other/public").body("for everyone".as_bytes()),
            Rq::new("POST", "/bkt/src?uploads"),
            Rq::new("POST", "/other/secret?uploads"),
        ];
        let part_secret = canary("part");
        a.secrets = secrets;
        for rq in setup {
            let rs = a.must(run, rq.clone(), r).await?;
            if rq.target.ends_with("?uploads") {
                let id = xml::parse_lenient(&rs.body).ok().and_then(|d| d.text_of("UploadId")).unwrap_or_default();
                a.ids[usize::from(rq.target.contains("other"))] = id;
            }
        }
        for (i, (t, body)) in [("bkt/src", "part".to_owned()), ("other/secret", part_secret)].into_iter().enumerate() {
            let rq = Rq::new("PUT", format!("/{t}?partNumber=1&uploadId={}", a.ids[i])).body(body);
            a.must(run, rq, r).await?;
        }
        a.outer = outer(&a.scratch.path);
        a.strays = some(&a.root, stray);
        a.other = a.of_other(&a.whole());
        // the monitor has to see what an ordinary request does
        a.srv.ctl.start_log();
        a.must(run, Rq::new("GET", "/bkt/src"), r).await?;
        let (log, _) = a.srv.ctl.take_log();
        let want = a.root.join("bkt/src").display().to_string();
        if !log.iter().any(|e| e.path == want && !e.outside) {
            run.problem(format!("the monitor does not see the object read: {log:?}"));
            return None;
        }
        Some(a)
    }
    fn cred(&self) -> Option<Cred> {
        self.auth.then(|| Cred::new(AK, SK))
    }
    async fn must(&self, run: &Run, rq: Rq, r: &mut Rng) -> Option<http::Rs> {
        let rq = world::sign(self.cred().as_ref(), rq, r);
        match self.srv.call(&rq).await {
            Ok(rs) if rs.ok() => Some(rs),
            o => {
                run.problem(format!("setup: {} {}: {o:?}, {}", rq.method, rq.target, self.srv.stderr()));
                None
            }
        }
    }
    fn whole(&self) -> Tree {
        snapshot(&self.root)
    }
    /// what belongs to the other bucket, as far as names tell: its tree, and
    /// side files with its name in them
    fn of_other(&self, t: &Tree) -> Tree {
        let enc = b64url("other");
        let meta = format!(".bucket-{enc}.");
        let up = format!(".upload_id-{}.", self.ids[1]);
        let mine = |k: &str| k == "other" || k.starts_with("other/") || k.starts_with(&meta) || k.starts_with(&up);
        t.iter().filter(|(k, _)| mine(&String::from_utf8_lossy(k))).map(|(k, v)| (k.clone(), v.clone())).collect()
    }
}
fn b64url(s: &str) -> String {
    crate::util::b64(s.as_bytes()).replace('+', "-").replace('/', "_").replace('=', "")
}

/// What a request names.
struct Attack {
    kind: &'static str,
    rq: Rq,
    /// buckets it may touch
    named: BTreeSet<String>,
    /// it has to be refused
    refuse: bool,
    /// keys that must not be reported deleted
    keys: Vec<String>,
    label: String,
}

/// a string that leads away, as it is after decoding
fn wicked(a: &Area, r: &mut Rng) -> String {
    let ups = |n: usize| "../".repeat(n);
    let abs_root = a.root.display().to_string();
    let abs = a.scratch.path.display().to_string();
    let b = b64url("other");
    let side = format!(".bucket-{b}.object-{}.metadata.json", b64url("secret"));
    let own_side = format!(".bucket-{}.object-{}.metadata.json", b64url("bkt"), b64url("src"));
    let targets: Vec<(usize, String)> = vec![
        (1, "other/secret".into()),
        (1, "other/src".into()),
        (1, "other/new".into()),
        (1, "other".into()),
        (1, "other/".into()),
        (1, "stray.txt".into()),
        (1, "Plain_Dir/src".into()),
        (1, ".hidden".into()),
        (1, ".secretdir/src".into()),
        (1, ".secretdir/".into()),
        (1, side),
        (1, own_side),
        (1, format!(".upload_id-{}.json", a.ids[1])),
        (1, format!(".upload_id-{}.part-1", a.ids[1])),
        (1, format!(".upload_id-{}.part-1", a.ids[0])),
        (1, ".tmp-canary-leaf".into()),
        (1, "canary-leaf".into()),
        (1, "bkt".into()),
        (1, "bkt/src".into()),
        (1, String::new()),
        // these have namesakes in the other bucket
        (0, "secret".into()),
        (0, "src".into()),
        (0, "secret".into()),
        (2, "src".into()),
        (2, "canary-outside".into()),
        (2, "canary-leaf".into()),
        (2, "root2/src".into()),
        (2, "bkt/src".into()),
        (2, "rootsrc".into()),
        (2, "root/other/secret".into()),
        (2, "root/bkt/src".into()),
        (2, String::new()),
        (12, format!("{}/canary-outside", abs.trim_start_matches('/'))),
        (12, "etc/canary-leaf".into()),
    ];
    let (n, t) = r.pick(&targets).clone();
    let s = match r.below(12) {
        0..=3 => format!("{}{t}", ups(n)),
        4 => format!("deep/{}{t}", ups(n + 1)),
        5 => format!("deep/er/x/{}{t}", ups(n + 3)),
        6 => format!("src/{}{t}", ups(n + 1)),
        7 => format!("nothing/./{}{t}", ups(n + 1)),
        8 => {
            let base = if r.chance(1, 2) { &abs_root } else { &abs };
            format!("{base}/{t}")
        }
        9 => format!("./{}{t}", ups(n)),
        10 => format!("deep//{}{t}", ups(n + 1)),
        _ => format!("{}{t}", ups(n).replace("../", "..//")),
    };
    // now and then damaged, so that it is something else, or nothing
    match r.below(14) {
        0 => s.replace("../", "..\\"),
        1 => s.replace("..", "%2e%2e"),
        2 => s.replace('/', "%2f"),
        3 => s.replace("..", ". ."),
        4 => s.replace("..", "..."),
        5 => s.replace("../", "..\0/"),
        6 => format!("{s}\0"),
        7 => s.replace("..", "\u{ff0e}\u{ff0e}"),
        8 => s.replace("../", "....//"),
        9 => format!("{s}/"),
        10 => format!("{s}/."),
        11 => format!("{s}/.."),
        _ => s,
    }
}

/// percent-encode a path in one of many ways
fn encode(s: &str, r: &mut Rng) -> String {
    match r.below(5) {
        // as it is, but for what can not be in a request line
        0 => s.bytes().map(|b| if b <= b' ' || b >= 0x7f || b"%?#\"".contains(&b) { format!("%{b:02x}") } else { char::from(b).to_string() }).collect(),
        1 => pct_path(s.as_bytes()),
        2 => s.bytes().map(|b| format!("%{b:02X}")).collect(),
        3 => s.bytes().map(|b| if b.is_ascii_alphanumeric() { char::from(b).to_string() } else { format!("%{b:02x}") }).collect(),
        _ => s.bytes().map(|b| if b.is_ascii_alphanumeric() && r.chance(3, 4) || b"/.-_".contains(&b) && r.chance(1, 2) { char::from(b).to_string() } else { format!("%{b:02x}") }).collect(),
    }
}

fn doc(keys: &[String]) -> String {
    let o: String = keys.iter().map(|k| format!("<Object><Key>{}</Key></Object>", xml_escape(k))).collect();
    format!("<Delete>{o}</Delete>")
}

fn attack(a: &Area, r: &mut Rng) -> Attack {
    let w = wicked(a, r);
    let away = leaves("bkt", &w) == Some(true);
    let mut named: BTreeSet<String> = ["bkt".to_owned()].into();
    let mut keys = Vec::new();
    let mut refuse = away;
    let t = format!("/bkt/{}", encode(&w, r));
    let id = |r: &mut Rng| a.ids[r.below(2)].clone();
    let body = |r: &mut Rng| format!("NEW-{:x}", r.u64()).into_bytes();
    let ranges = ["bytes=0-", "bytes=-9"];
    let q = |t: &str, q: &str| format!("{t}?{q}");
    let (kind, rq) = match r.below(20) {
        0 => ("get", Rq::new("GET", t)),
        1 => ("get range", Rq::new("GET", t).h("range", *r.pick(&ranges))),
        2 => ("head", Rq::new("HEAD", t)),
        3 => ("put", Rq::new("PUT", t).h("x-amz-meta-new", "new").body(body(r))),
        4 => ("put", Rq::new("PUT", t).body(vec![])),
        5 | 6 => ("delete", Rq::new("DELETE", t)),
        7 => {
            named.insert("other".into());
            ("copy onto", Rq::new("PUT", t).h("x-amz-copy-source", "other/public"))
        }
        8 | 9 => {
            let odd = ["Plain_Dir", "..", ".", ".secretdir", "stray.txt", "../root2", "%2e%2e", "bkt/../other", "", ".hidden", "../../etc"];
            let (b, raw) = match r.below(8) {
                0 => ("other", w.clone()),
                1 | 2 => (*r.pick(&odd), (*r.pick(&["src", "secret", "x/../src", "../other/secret", "canary-leaf"])).to_owned()),
                _ => ("bkt", w.clone()),
            };
            let whole = format!("{b}/{raw}");
            let (b1, raw1) = whole.strip_prefix('/').unwrap_or(&whole).split_once('/').unwrap_or(("", ""));
            if bucket_like(b1) {
                named.insert(b1.into());
            }
            let (b2, raw2) = if b == "%2e%2e" { (b.to_owned(), encode(&raw, r)) } else { (encode(b, r), encode(&raw, r)) };
            let src = format!("{}{b2}/{raw2}", if r.chance(1, 2) && !b.is_empty() { "/" } else { "" });
            refuse = !bucket_like(b1) || leaves(b1, raw1) == Some(true);
            ("copy from", Rq::new("PUT", format!("/bkt/{}{}", if b == "other" { "from" } else { "copied" }, r.below(3))).h("x-amz-copy-source", src))
        }
        10 => ("start upload", Rq::new("POST", q(&t, "uploads"))),
        11 => ("part", Rq::new("PUT", q(&t, &format!("partNumber=1&uploadId={}", id(r)))).body(body(r))),
        12 => {
            let n = r.range(1, 3);
            ("complete", Rq::new("POST", q(&t, &format!("uploadId={}", id(r)))).body(format!("<CompleteMultipartUpload><Part><PartNumber>{n}</PartNumber></Part></CompleteMultipartUpload>")))
        }
        13 => {
            // upload ids which lead away
            let u = match r.below(6) {
                0 => w.clone(),
                1 => format!("x/{w}"),
                2 => format!("{}/../{w}", a.ids[0]),
                3 => a.ids[1].clone(),
                4 => format!("{}.part-1/../..", a.ids[0]),
                _ => format!("{{{}}}", a.ids[0]),
            };
            refuse = true;
            let u: String = u.bytes().map(|b| if b.is_ascii_alphanumeric() { char::from(b).to_string() } else { format!("%{b:02x}") }).collect();
            let n = *r.pick(&["1", "2", "10000"]);
            if r.chance(1, 2) {
                ("upload id of a part", Rq::new("PUT", format!("/bkt/src?partNumber={n}&uploadId={u}")).body(body(r)))
            } else {
                let x = format!("<CompleteMultipartUpload><Part><PartNumber>{n}</PartNumber></Part></CompleteMultipartUpload>");
                ("upload id to complete", Rq::new("POST", format!("/bkt/src?uploadId={u}")).body(x))
            }
        }
        14 => {
            let bad = ["../../canary-leaf", "1/../../canary-leaf", "%2e%2e%2fcanary-leaf", "-1", "0", "1%00", "99999999999999999999", "1.json", "+1", " 1"];
            let n = *r.pick(&bad);
            refuse = false;
            if r.chance(1, 2) {
                ("part number", Rq::new("PUT", format!("/bkt/src?partNumber={}&uploadId={}", n.replace(' ', "%20"), a.ids[0])).body(body(r)))
            } else {
                let x = format!("<CompleteMultipartUpload><Part><PartNumber>{n}</PartNumber></Part></CompleteMultipartUpload>");
                ("part number to complete", Rq::new("POST", format!("/bkt/src?uploadId={}", a.ids[0])).body(x))
            }
        }
        15 => {
            keys = (0..r.range(1, 4)).map(|_| wicked(a, r)).filter(|k| !k.contains('\0')).collect();
            if keys.is_empty() {
                keys.push("../other/secret".into());
            }
            refuse = false;
            let d = doc(&keys);
            ("delete many", Rq::new("POST", "/bkt?delete").h("content-md5", md5_b64(d.as_bytes())).body(d))
        }
        16 => {
            refuse = false;
            let p: String = w.bytes().map(|b| if b.is_ascii_alphanumeric() { char::from(b).to_string() } else { format!("%{b:02x}") }).collect();
            let field = *r.pick(&["prefix", "delimiter", "marker", "start-after", "continuation-token"]);
            let v2 = if r.chance(1, 2) { "list-type=2&" } else { "" };
            ("list", Rq::new("GET", format!("/bkt?{v2}{field}={p}")))
        }
        17 if a.auth => {
            let mut f = Form::new(&w, &body(r), r);
            if r.chance(1, 3) {
                f.file_name = w.replace(['"', '\r', '\n', '\0'], "");
            }
            let c = a.cred().expect("credential");
            f.sign(&c, &policy_doc("bkt", chrono::Utc::now() + chrono::Duration::hours(1), &[json!(["starts-with", "$key", ""]), json!(["starts-with", "$x-amz-algorithm", ""]), json!(["starts-with", "$x-amz-credential", ""]), json!(["starts-with", "$x-amz-date", ""])]));
            ("form", f.request("bkt"))
        }
        _ => {
            // names of buckets which lead away
            let names = [
                "..", ".", "%2e%2e", "..%2froot2", "..%2f..%2fetc", ".hidden", ".secretdir", "Plain_Dir", "stray.txt", "%2e%2e%2f%2e%2e%2fcanary-leaf", "bkt%2fdeep", "bkt%2f..%2fother", "..%5croot2", "...", "....", "a%00b",
                "bkt%00", ".upload_id-x", ".tmp-canary-leaf", "%2fetc", "%2e", "other%2f..", "~", "-", "bkt%2f",
            ];
            let b = *r.pick(&names);
            let rest = *r.pick(&["", "", "/", "/src", "/../other/secret", "/canary-leaf"]);
            let path = String::from_utf8_lossy(&unpct(&format!("{b}{rest}"))).into_owned();
            let (b1, k1) = path.split_once('/').unwrap_or((&path, ""));
            named.clear();
            if bucket_like(b1) {
                named.insert(b1.into());
            }
            // (without a bucket, it may be the list of buckets)
            refuse = (!b1.is_empty() && !bucket_like(b1)) || leaves(b1, k1) == Some(true);
            let m = *r.pick(&["GET", "HEAD", "PUT", "DELETE", "PUT", "DELETE"]);
            let rq = Rq::new(m, format!("/{b}{rest}"));
            ("bucket name", if m == "PUT" { rq.body(vec![]) } else { rq })
        }
    };
    let label = format!("{kind} {} {}", rq.target, show(w.as_bytes()));
    let rq = world::sign(if kind == "form" { None } else { a.cred() }.as_ref(), rq, r);
    Attack { kind, rq, named, refuse, keys, label }
}

/// whether this entry of the log is a place the request must not reach
fn wrong_place(a: &Area, at: &Attack, e: &Entry) -> Option<&'static str> {
    let p = Path::new(&e.path);
    if e.path.is_empty() || p == a.root {
        return None;
    }
    if let Ok(rel) = p.strip_prefix(&a.root) {
        let rel = rel.to_string_lossy();
        let (first, rest) = rel.split_once('/').unwrap_or((&rel, ""));
        if stray(first) && !at.named.contains(first) {
            return Some("a file of somebody else in the root");
        }
        if first.starts_with('.') {
            // side files of the server
            let meta = first.strip_prefix(".bucket-").and_then(|s| s.split_once(".object-")).map(|(b, _)| b);
            if let Some(b) = meta {
                if b == b64url("other") && !at.named.contains("other") {
                    return Some("metadata of another bucket");
                }
            }
            if first.contains("canary") {
                return Some("a side file through a name in the request");
            }
            return None;
        }
        if at.named.contains(first) {
            return None;
        }
        // a list of all buckets looks at all of them
        if at.rq.method == "GET" && at.named.is_empty() && rest.is_empty() && e.op == "stat" {
            return None;
        }
        return Some("another bucket");
    }
    if a.root.starts_with(p) {
        // directories above the root
        return (e.op != "stat").then_some("a directory above the root");
    }
    if p.starts_with(&a.scratch.path) || e.path.contains("canary") {
        return Some("a file outside the root");
    }
    None
}

async fn one(run: &Run, a: &mut Area, r: &mut Rng) -> bool {
    let at = attack(a, r);
    let before = at.refuse.then(|| a.whole());
    let guarded = a.srv.ctl.guarded();
    a.srv.ctl.start_log();
    let o = a.srv.call(&at.rq).await;
    let (log, all) = a.srv.ctl.take_log();
    if !all {
        run.problem("too many calls of one request for the log");
    }
    let det = |e: String| json!({"attack": at.label, "kind": at.kind, "request": at.rq.brief(), "answer": match &o { Ok(rs) => rs.brief(), Err(e) => json!(format!("{e:?}")) }, "problem": e});
    let bad = |sig: &str, e: String| {
        run.violation(&format!("{sig}: {}", at.kind), det(e));
        false
    };
    for e in &log {
        if let Some(w) = wrong_place(a, &at, e) {
            return bad(w, format!("{} {}", e.op, e.path));
        }
    }
    if a.srv.ctl.guarded() > guarded {
        return bad("a change outside the root", format!("{:?}", log.iter().filter(|e| e.outside).map(|e| format!("{} {}", e.op, e.path)).collect::<Vec<_>>()));
    }
    let d = tree_diff(&a.outer, &outer(&a.scratch.path), true);
    if !d.is_empty() {
        return bad("a file outside the root has changed", d.join("; "));
    }
    let now = a.whole();
    let d = tree_diff(&a.strays, &some(&a.root, stray), true);
    if !d.is_empty() {
        return bad("a file of somebody else in the root has changed", d.join("; "));
    }
    if !(at.named.contains("other") && at.kind == "bucket name") {
        let d = tree_diff(&a.other, &a.of_other(&now), true);
        if !d.is_empty() {
            return bad("another bucket has changed", d.join("; "));
        }
    }
    let rs = match &o {
        Ok(rs) => rs,
        // (what hyper refuses to parse it may just close)
        Err(Fail::Transport(_)) if a.srv.running() => {
            run.count("closed without an answer", 1);
            return true;
        }
        Err(e) => {
            run.problem(format!("{}: {e:?} {}", at.label, a.srv.stderr()));
            return true;
        }
    };
    // nothing of what is there shows
    if !(at.named.contains("other") || (at.rq.method == "GET" && at.named.is_empty())) {
        let hs: Vec<u8> = rs.headers.iter().flat_map(|(_, v)| v.iter().copied().chain([b'\n'])).collect();
        for s in &a.secrets {
            if http::find(&rs.body, s.as_bytes()).is_some() || http::find(&hs, s.as_bytes()).is_some() {
                return bad("the content of a file elsewhere is told", s.clone());
            }
        }
    }
    if at.kind == "copy from" && !at.named.contains("other") && rs.ok() {
        for i in 0..3 {
            let data = std::fs::read(a.root.join(format!("bkt/copied{i}"))).unwrap_or_default();
            if a.secrets.iter().any(|s| http::find(&data, s.as_bytes()).is_some()) {
                return bad("the content of a file elsewhere is copied", show(&data));
            }
        }
    }
    if at.refuse {
        // (copying a "directory" is not supported, which is the answer 500)
        let unsupported = rs.status >= 500 && rs.code().as_deref() == Some("NotSupported");
        if !(400..500).contains(&rs.status) && !unsupported {
            return bad("not refused", format!("{}", rs.status));
        }
        let d = tree_diff(before.as_ref().unwrap_or(&now), &now, true);
        if !d.is_empty() {
            return bad("refused, but changed", d.join("; "));
        }
    }
    if at.kind == "delete many" && rs.ok() {
        let doc = xml::parse_lenient(&rs.body).ok();
        let deleted: Vec<String> = doc.iter().flat_map(|d| d.all("Deleted")).filter_map(|e| e.text_of("Key")).collect();
        for k in &at.keys {
            if leaves("bkt", k) == Some(true) && deleted.contains(k) {
                return bad("a key elsewhere is reported deleted", k.clone());
            }
        }
    }
    run.eval(&at.label, true);
    run.count(if at.refuse { "requests that had to be refused" } else { "requests judged by what they reach" }, 1);
    run.count("file-system calls judged", log.len() as u64);
    run.seen("kinds of requests", &format!("{} {}", at.kind, rs.status));
    for e in &log {
        if let Ok(rel) = Path::new(&e.path).strip_prefix(&a.root) {
            let rel = rel.to_string_lossy();
            let place = match rel.split('/').next().unwrap_or("") {
                "" => "the root",
                s if s.starts_with('.') => "a side file",
                _ => "a named bucket",
            };
            run.seen("places reached", &format!("{} {place} by {}", e.op, at.kind));
        }
    }
    true
}

/// after all of it, the other bucket is in order, and so is its upload
async fn still(run: &Run, a: &Area, r: &mut Rng) {
    let Some(rs) = a.must(run, Rq::new("GET", "/other/secret"), r).await else { return };
    let ok = rs.meta().values().any(|v| v.starts_with("CANARY-metadata")) && rs.body.starts_with(b"CANARY-object");
    run.check(ok, "another object has changed", || json!({"answer": rs.brief()}));
    let rq = Rq::new("POST", format!("/other/secret?uploadId={}", a.ids[1])).body("<CompleteMultipartUpload><Part><PartNumber>1</PartNumber></Part></CompleteMultipartUpload>");
    let rq = world::sign(a.cred().as_ref(), rq, r);
    let done = a.srv.call(&rq).await;
    let got = a.srv.call(&world::sign(a.cred().as_ref(), Rq::new("GET", "/other/secret"), r)).await;
    let ok = matches!((&done, &got), (Ok(d), Ok(g)) if d.ok() && g.body.starts_with(b"CANARY-part"));
    run.check(ok, "another upload has changed", || json!({"completion": format!("{done:?}"), "then": format!("{got:?}")}));
}

pub async fn run(run: &'static Run) -> i32 {
    let t: &'static Tools = match tools() {
        Ok(t) => Box::leak(Box::new(t)),
        Err(e) => {
            eprintln!("cannot copy the program: {e}");
            return 2;
        }
    };
    let next: &'static AtomicU64 = Box::leak(Box::default());
    parallel(run, 8, |_| async move {
        while run.more() {
            let mut r = Rng::from(run.seed, "contain", next.fetch_add(1, Ordering::SeqCst));
            let Some(mut a) = Area::new(run, t, &mut r).await else {
                if run.counter("areas") == 0 {
                    break;
                }
                continue;
            };
            run.count("areas", 1);
            let mut fine = true;
            for _ in 0..250 {
                if !run.more() || !one(run, &mut a, &mut r).await {
                    fine = false;
                    break;
                }
                // a request to the own bucket may have removed it
                if !a.root.join("bkt").is_dir() {
                    run.count("own bucket removed", 1);
                    break;
                }
            }
            if fine {
                still(run, &a, &mut r).await;
            }
            a.srv.kill().await;
        }
    })
    .await;
    let _ = std::fs::remove_dir_all(&t._dir.path);
    run.finish(&[
        "the server runs as an unprivileged user; changes outside its root are refused by the monitor library",
        "names whose first character is a dot, directly below the root, are the server's own",
        "keys with a leading slash have to stay in the bucket, but need not be refused",
    ])
}
