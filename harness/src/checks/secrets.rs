//! C27: what the program says, in answers and in its log, keeps the secrets.
use super::hostile::any_request;
use super::parallel;
use crate::ev::Run;
use crate::http::{Out, Rq};
use crate::reqs;
use crate::sig::{self, policy_doc, Cred, Form, Pay};
use crate::sut::{Mode, Opts, Server, MUTATE, READ};
use crate::util::{b64, hex, hmac, pct, Rng, TempDir};
use crate::world::{self, target, World};
use serde_json::json;
use std::collections::HashMap;

/// pieces of secrets, by their first eight bytes
struct Needles {
    map: HashMap<u64, Vec<(Vec<u8>, &'static str)>>,
}

fn first(b: &[u8]) -> u64 {
    u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])
}

impl Needles {
    fn new() -> Self {
        Self { map: HashMap::new() }
    }
    fn add(&mut self, text: &[u8], window: usize, what: &'static str) {
        let window = window.min(text.len());
        if window < 8 {
            return;
        }
        for w in text.windows(window) {
            let v = self.map.entry(first(w)).or_default();
            if !v.iter().any(|(x, _)| x == w) {
                v.push((w.to_vec(), what));
            }
        }
    }
    /// bytes in all the ways in which programs write them
    fn bytes(&mut self, b: &[u8], text: bool, what: &'static str) {
        if text {
            // (pieces of hexadecimal digits might occur by chance)
            self.add(b, if b.iter().all(u8::is_ascii_hexdigit) { 16 } else { 8 }, what);
            self.add(format!("{:?}", String::from_utf8_lossy(b)).trim_matches('"').as_bytes(), 16, what);
            self.add(pct(b).as_bytes(), 16, what);
        }
        self.add(hex(b).as_bytes(), 16, what);
        self.add(hex(b).to_uppercase().as_bytes(), 16, what);
        for skip in 0..3.min(b.len()) {
            let t = b64(&b[skip..]);
            let t = t.trim_end_matches('=');
            // (the last character depends on what follows)
            self.add(&t.as_bytes()[..t.len().saturating_sub(1)], 11, what);
            self.add(t[..t.len().saturating_sub(1)].replace('+', "-").replace('/', "_").as_bytes(), 11, what);
        }
        for sep in [", ", ",\n    ", " "] {
            let list: Vec<String> = b.iter().take(10).map(u8::to_string).collect();
            let list = list.join(sep);
            self.add(list.as_bytes(), list.len(), what);
            let list: Vec<String> = b.iter().take(10).map(|x| format!("{x:02x}")).collect();
            self.add(list.join(sep).as_bytes(), 1000, what);
            let list: Vec<String> = b.iter().take(10).map(|x| format!("0x{x:02x}")).collect();
            self.add(list.join(sep).as_bytes(), 1000, what);
        }
    }
    fn find(&self, hay: &[u8]) -> Option<(&'static str, usize)> {
        for i in 0..hay.len().saturating_sub(7) {
            if let Some(v) = self.map.get(&first(&hay[i..])) {
                if let Some((_, what)) = v.iter().find(|(n, _)| hay[i..].starts_with(n)) {
                    return Some((what, i));
                }
            }
        }
        None
    }
}

fn secret_key(r: &mut Rng) -> String {
    let n = *r.pick(&[16usize, 20, 40, 40, 40, 41, 64, 100, 128]);
    let alphabet: Vec<char> = match r.below(4) {
        0 => ('a'..='z').chain('A'..='Z').chain('0'..='9').chain("/+=\"\\ %&<é".chars()).collect(),
        1 => ('a'..='f').chain('0'..='9').collect(),
        _ => ('a'..='z').chain('A'..='Z').chain('0'..='9').chain("/+".chars()).collect(),
    };
    (0..n).map(|_| *r.pick(&alphabet)).collect()
}

/// what follows from the secret and gives as much power
fn derived(c: &Cred) -> Vec<Vec<u8>> {
    let date = hmac(format!("AWS4{}", c.sk).as_bytes(), c.day().as_bytes());
    let region = hmac(&date, c.region.as_bytes());
    let service = hmac(&region, b"s3");
    let key = hmac(&service, b"aws4_request");
    vec![date, region, service, key]
}

/// replace the signature; the right one
fn forge(rq: &mut Rq, r: &mut Rng) -> Option<String> {
    let wrong: String = hex(&r.bytes(32));
    if let Some(a) = rq.get("authorization") {
        let i = a.rfind("Signature=")? + "Signature=".len();
        let right = a[i..].to_owned();
        rq.set("authorization", format!("{}{wrong}", &a[..i]));
        return Some(right);
    }
    let i = rq.target.rfind("X-Amz-Signature=")? + "X-Amz-Signature=".len();
    let right = rq.target[i..].to_owned();
    rq.target.truncate(i);
    rq.target.push_str(&wrong);
    Some(right)
}

struct Case {
    kind: &'static str,
    rq: Rq,
    /// signatures which the client does not know
    right: Vec<String>,
    fault: bool,
}

fn any_signed(c: &Cred, mut rq: Rq, r: &mut Rng) -> Rq {
    match r.below(3) {
        0 => sig::presign(&mut rq, c, 600, &[]),
        1 => {
            sig::sign_header(&mut rq, c, Pay::Unsigned, &[]);
        }
        _ => {
            sig::sign_header(&mut rq, c, Pay::Hash, &[]);
        }
    }
    rq
}

fn case(c: &Cred, w: &World, keys: &[String], r: &mut Rng) -> Case {
    let key = r.pick(keys).clone();
    let plain = |kind, rq| Case { kind, rq, right: vec![], fault: false };
    let object = |r: &mut Rng| match r.below(7) {
        0 | 1 => {
            let d = world::content(r, false);
            Rq::new("PUT", target("bkt", &key)).h("x-amz-meta-a", "b").body(d)
        }
        2 => Rq::new("GET", target("bkt", &key)),
        3 => Rq::new("DELETE", target("bkt", &key)),
        4 => Rq::new("GET", "/bkt?list-type=2"),
        5 => Rq::new("PUT", target("bkt", &key)).h("x-amz-copy-source", &target("bkt", r.pick(keys))[1..]),
        _ => Rq::new("GET", "/"),
    };
    match r.below(12) {
        0 | 1 => {
            let rq = object(r);
            plain("valid", any_signed(c, rq, r))
        }
        2 => {
            let op = r.pick(&reqs::SPECS).op;
            let rq = reqs::case(op, r, true).rq;
            plain("any operation", any_signed(c, rq, r))
        }
        3 | 4 | 5 => {
            let rq = if r.chance(1, 2) { object(r) } else { let op = r.pick(&reqs::SPECS).op; reqs::case(op, r, true).rq };
            let mut rq = any_signed(c, rq, r);
            let right = forge(&mut rq, r).into_iter().collect();
            Case { kind: "wrong signature", rq, right, fault: false }
        }
        6 => {
            let mut f = Form::new(&key, b"file", r);
            f.sign(c, &policy_doc("bkt", c.date + chrono::Duration::hours(1), &[]));
            let mut right = vec![];
            if r.chance(2, 3) {
                let wrong = hex(&r.bytes(32));
                if let Some(s) = f.fields.iter_mut().find(|(n, _)| n == "x-amz-signature") {
                    right.push(String::from_utf8_lossy(&s.1).into_owned());
                    s.1 = wrong.into_bytes();
                }
            }
            Case { kind: "form", rq: f.request("bkt"), right, fault: false }
        }
        7 => {
            let mut rq = Rq::new("PUT", target("bkt", &key));
            let d: Vec<Vec<u8>> = (0..r.range(0, 3)).map(|_| { let n = r.range(1, 100); r.bytes(n) }).collect();
            let mut chunks = sig::sign_stream(&mut rq, c, &d);
            let mut right = vec![];
            let i = r.below(chunks.len() + 1);
            if i < chunks.len() {
                // the client has signed none of the chunks from here on
                for ch in &mut chunks[i..] {
                    right.push(ch.sig.clone());
                    ch.sig = hex(&r.bytes(32));
                }
                rq.chunks = vec![sig::encode_chunks(&chunks)];
            }
            Case { kind: "chunks", rq, right, fault: false }
        }
        // what the file system refuses
        8 => {
            let rq = match r.below(6) {
                0 => Rq::new("PUT", format!("/bkt/{}", "x".repeat(r.range(256, 900)))).body(*b"x"),
                1 => Rq::new("PUT", format!("{}/below", target("bkt", &key))).body(*b"x"),
                2 => Rq::new("PUT", "/bkt/nul%00").body(*b"x"),
                3 => Rq::new("GET", format!("/bkt/{}", "x".repeat(r.range(256, 900)))),
                4 => Rq::new("GET", "/bkt/../../etc/passwd"),
                _ => Rq::new("PUT", "/bkt/copy").h("x-amz-copy-source", format!("bkt/{}", "x".repeat(300))),
            };
            plain("impossible for the file system", any_signed(c, rq, r))
        }
        9 => {
            let rq = object(r);
            Case { kind: "failing file system", rq: any_signed(c, rq, r), right: vec![], fault: true }
        }
        10 => {
            // of somebody else
            let d = Cred::new(if r.chance(1, 2) { &c.ak } else { "AKIANOBODY" }, "not-the-secret-key-of-anybody");
            let rq = object(r);
            plain("other keys", any_signed(&d, rq, r))
        }
        _ => plain("hostile", any_request(w, "0b8f2b4e-0b1c-4b2e-9a55-0d1c2b3a4f5e", r)),
    }
}

async fn session(run: &'static Run, w: &World, seed: u64, n: u64) {
    let mut r = Rng::from(seed, "secrets", n);
    let c = Cred::new(&format!("AK{}", hex(&r.bytes(8))), &secret_key(&mut r));
    let top = TempDir::new();
    let root = top.path.join(format!("root-{}", hex(&r.bytes(6))));
    std::fs::create_dir_all(root.join("bkt")).expect("directory");
    let level = *r.pick(&["trace", "trace", "debug", "debug", "info", "s3_server=debug", "s3_server=trace,hyper=info", "error", ""]);
    let opts = Opts { keys: Some((c.ak.clone(), c.sk.clone())), capture: true, log_level: (!level.is_empty()).then(|| level.to_owned()), ..Opts::default() };
    let Some(mut srv) = Server::start(run, &root, &opts).await else { return };
    let mut secrets = Needles::new();
    secrets.bytes(c.sk.as_bytes(), true, "the secret key");
    for k in derived(&c) {
        secrets.bytes(&k, false, "a signing key");
    }
    let mut answers = Needles::new();
    answers.bytes(c.sk.as_bytes(), true, "the secret key");
    for k in derived(&c) {
        answers.bytes(&k, false, "a signing key");
    }
    for p in [root.clone(), root.canonicalize().unwrap_or_else(|_| root.clone())] {
        let p = p.display().to_string();
        answers.add(p.as_bytes(), 1000, "the path of the root directory");
        let name = p.rsplit('/').next().unwrap_or("").to_owned();
        answers.add(name.as_bytes(), 1000, "the path of the root directory");
    }
    run.seen("log levels", level);
    let keys = world::key_pool(&mut r, 4, false);
    for _ in 0..run.by(40, 120) {
        if !run.more() {
            break;
        }
        let case = case(&c, w, &keys, &mut r);
        if case.fault {
            srv.ctl.arm(if r.chance(1, 2) { Mode::FailOnce } else { Mode::FailOn }, r.range(1, 12) as u64, *r.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::ENAMETOOLONG]), false, MUTATE | READ);
        }
        let o: Out = srv.call(&case.rq).await;
        if case.fault {
            srv.ctl.off();
        }
        let Ok(rs) = &o else {
            run.count("requests without an answer (judged by other checks)", 1);
            continue;
        };
        let mut all: Vec<u8> = Vec::new();
        for (n, v) in &rs.headers {
            all.extend_from_slice(n.as_bytes());
            all.extend_from_slice(b": ");
            all.extend_from_slice(v);
            all.push(b'\n');
        }
        all.extend_from_slice(&rs.body);
        run.eval(&format!("{}, {}, {:?}", case.kind, rs.status, rs.code()), true);
        run.count("answers searched", 1);
        let det = |what: &str| json!({"session": n, "request": case.rq.brief(), "kind": case.kind, "response": rs.brief(), "disclosed": what, "secret key": c.sk, "root": root.display().to_string()});
        if let Some((what, _)) = answers.find(&all) {
            run.violation(&format!("answer discloses {what}"), det(what));
        }
        if !rs.ok() && !case.right.is_empty() {
            let mut right = Needles::new();
            for s in &case.right {
                right.add(s.as_bytes(), 16, "the right signature");
                right.add(s.to_uppercase().as_bytes(), 16, "the right signature");
            }
            run.count("refusals of forged signatures", 1);
            if let Some((what, _)) = right.find(&all) {
                run.violation(&format!("answer discloses {what}"), det(what));
            }
        }
    }
    srv.signal(libc::SIGTERM);
    let _ = srv.gone(std::time::Duration::from_secs(10)).await;
    let log = srv.output();
    run.count("bytes of output searched", log.len() as u64);
    run.max("longest output", log.len() as u64);
    if run.more() && matches!(level, "trace" | "debug") && log.len() < 1000 {
        run.problem(format!("almost no output at level {level}"));
    }
    run.eval(&format!("output, level {level}, length {}", log.len().next_power_of_two()), !log.is_empty());
    if let Some((what, at)) = secrets.find(&log) {
        let near = &log[at.saturating_sub(300)..(at + 300).min(log.len())];
        run.violation(&format!("output discloses {what}"), json!({"session": n, "log level": level, "near": String::from_utf8_lossy(near), "secret key": c.sk}));
    }
    srv.kill().await;
}

pub async fn run(run: &'static Run) -> i32 {
    let seed = run.seed;
    parallel(run, 8, move |i| async move {
        let w = World::new(true);
        let mut k = 0;
        while run.more() {
            session(run, &w, seed, i * 10_000 + k).await;
            k += 1;
        }
    })
    .await;
    run.finish(&["secrets are looked for in pieces of 8 characters, as text, in hexadecimal, base64, percent-encoding and as lists of numbers"])
}
