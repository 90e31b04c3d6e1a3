//! C23: which names are admitted.
use super::parallel;
use crate::ev::Run;
use crate::http::{self, Fail, Rq, Rs};
use crate::record::{Call, Rec};
use crate::sig::{self, Cred, Form};
use crate::util::{pct, pct_path_any, Rng};
use crate::world::{self, World, AK, SK};
use serde_json::json;

/// the naming rules; None: not decided by them
fn bucket_ok(n: &str) -> Option<bool> {
    let b = n.as_bytes();
    let alnum = |c: u8| c.is_ascii_lowercase() || c.is_ascii_digit();
    if b.len() < 3 || b.len() > 63 || !b.iter().all(|&c| alnum(c) || c == b'.' || c == b'-') {
        return Some(false);
    }
    if !alnum(b[0]) || !alnum(b[b.len() - 1]) || n.starts_with("xn--") {
        return Some(false);
    }
    let parts: Vec<&str> = n.split('.').collect();
    if parts.len() == 4 && parts.iter().all(|p| !p.is_empty() && p.len() <= 4 && p.bytes().all(|c| c.is_ascii_digit())) {
        let canonical = parts.iter().all(|p| p.parse::<u32>().map_or(false, |v| v < 256) && (p.len() == 1 || !p.starts_with('0')));
        // whether 300.1.1.1 or 01.2.3.4 looks like an address is a matter of taste
        return if canonical { Some(false) } else { None };
    }
    Some(true)
}

fn bucket_name(r: &mut Rng) -> String {
    let alphabet: Vec<char> = "abcdefghijklmnopqrstuvwxyz0123456789.-".chars().collect();
    let word = |r: &mut Rng, n: usize| -> String { (0..n).map(|_| *r.pick(&alphabet)).collect() };
    match r.below(12) {
        0 => {
            let n = r.range(1, 70);
            word(r, n)
        }
        1 => {
            let n = *r.pick(&[1usize, 2, 3, 4, 62, 63, 64, 65]);
            (0..n).map(|_| *r.pick(&alphabet[..36])).collect()
        }
        2 => format!("{}.{}.{}.{}", r.below(256), r.below(256), r.below(256), r.below(256)),
        3 => (*r.pick(&["192.168.5.4", "127.0.0.1", "0.0.0.0", "255.255.255.255", "1.2.3", "1.2.3.4.5", "1.2.3.4a", "a1.2.3.4", "1-2-3-4", "1.2.3.-4", "1..2.3"])).to_owned(),
        4 => {
            let n = r.range(1, 20);
            format!("{}{}", r.pick(&["xn--", "xn-", "xn", "axn--", "XN--", "xn--a"]), word(r, n))
        }
        5 => {
            let n = r.range(1, 10);
            format!("{}{}", r.pick(&["-", ".", "--", "A", "_"]), word(r, n))
        }
        6 => {
            let n = r.range(1, 10);
            format!("{}{}", word(r, n), r.pick(&["-", ".", "A", "_", " ", "é", "\n", "\0"]))
        }
        7 | 8 => {
            // one strange character anywhere
            let n = r.range(3, 20);
            let mut s: Vec<char> = word(r, n).chars().collect();
            let at = r.below(n);
            s[at] = *r.pick(&['A', 'Z', '_', ' ', '+', '%', '~', '!', 'é', 'ß', '\u{0}', '\t', ':', '@', '`', '{', '&', '=', '?', '#', '\\', '\u{ff41}', '\u{661}', ',', '*']);
            s.into_iter().collect()
        }
        9 => (*r.pick(&["..", "...", ".", "a..b", "a.-b", "a-.b", "abc", "a-b", "a.b", "0-0", "aaa.", "-aa", "con", "nul", "etc", "tmp"])).to_owned(),
        _ => {
            let n = r.range(3, 63);
            let mut s: String = word(r, n - 2);
            s.insert(0, *r.pick(&alphabet[..36]));
            s.push(*r.pick(&alphabet[..36]));
            s
        }
    }
}

fn key_name(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(8) {
        0 | 1 => {
            // around the limit
            let n = r.range(1018, 1030);
            let unit = *r.pick(&["k", "é", "漢", "🦀", "a/", "%", " "]);
            while s.len() + unit.len() <= n {
                s.push_str(unit);
            }
            while s.len() < n {
                s.push('x');
            }
        }
        2 => {
            let n = r.range(1030, 3000);
            s = "y".repeat(n);
        }
        3 => s.clone_from(r.pick(&world::special_keys())),
        4 => s = (*r.pick(&["/", "//", "a//b", "./a", "a/./b", "a/", "a/b/", "../x", "a/../b", ".", "..", "\u{0}", "a\u{0}b", "\n", " ", "\u{7f}", "a\\b", "%2F", "%", "%00", "+", "a?b#c", "&=;"])).to_owned(),
        _ => {
            let n = r.range(1, 20);
            for _ in 0..n {
                let c = match r.below(4) {
                    0 => char::from_u32(r.below(0x80) as u32),
                    1 => char::from_u32(r.below(0x800) as u32),
                    2 => char::from_u32(r.below(0x1_0000) as u32),
                    _ => char::from_u32(r.below(0x11_0000) as u32),
                };
                s.extend(c);
            }
            if s.is_empty() {
                s.push('z');
            }
        }
    }
    s
}

async fn send(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, addr: Option<std::net::SocketAddr>, rq: &Rq) -> Option<(Rs, Vec<Call>)> {
    run.count("requests", 1);
    let out = match addr {
        Some(a) => http::tcp(a, rq).await,
        None => http::call(svc, rq).await,
    };
    let calls = rec.take();
    match out {
        Ok(rs) => Some((rs, calls)),
        Err(Fail::Panic(p)) => {
            run.violation("panic", json!({"request": rq.brief(), "panic": p}));
            None
        }
        Err(Fail::Unbuildable(_)) => None,
        Err(e) => {
            run.problem(format!("{e:?} {}", rq.target));
            None
        }
    }
}

pub async fn run(run: &'static Run) -> i32 {
    parallel(run, 8, |w| async move {
        let rec = Rec::default();
        let svc = rec.service(false);
        let addr = http::serve(svc.clone());
        let forms = Rec::default();
        forms.register(AK, SK);
        let form_svc = forms.service(true);
        let fs = World::new(false);
        let mut i = 0;
        while run.more() {
            i += 1;
            let mut r = Rng::from(run.seed, "C23", (i << 8) | w);
            let tcp = r.chance(1, 12).then_some(addr);
            match r.below(12) {
                0..=4 => path(run, &rec, &svc, tcp, &mut r, i).await,
                5 | 6 => encoding(run, &rec, &svc, tcp, &mut r).await,
                7 | 8 => source(run, &fs, &mut r).await,
                9 | 10 => form(run, &forms, &form_svc, &mut r).await,
                _ => stored_bucket(run, &fs, &mut r).await,
            }
        }
    })
    .await;
    run.finish(&["names of four numbers separated by dots which are no IPv4 address in its usual notation are not judged"])
}

fn op(method: &str, object: bool) -> &'static str {
    match (method, object) {
        ("PUT", false) => "CreateBucket",
        ("GET", false) => "ListObjects",
        ("HEAD", false) => "HeadBucket",
        ("DELETE", false) => "DeleteBucket",
        ("PUT", true) => "PutObject",
        ("GET", true) => "GetObject",
        ("HEAD", true) => "HeadObject",
        (_, _) => "DeleteObject",
    }
}

async fn path(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, addr: Option<std::net::SocketAddr>, r: &mut Rng, i: u64) {
    let bucket = if r.chance(1, 2) { bucket_name(r) } else { (*r.pick(&["bkt", "a-b", "a.b"])).to_owned() };
    let object = r.chance(1, 2);
    let key = if object { key_name(r) } else { String::new() };
    let method = *r.pick(&["PUT", "GET", "HEAD", "DELETE"]);
    let Some(b_ok) = bucket_ok(&bucket) else { return };
    let key_ok = key.len() <= 1024;
    let enc = |s: &str, r: &mut Rng| if r.chance(1, 3) { pct(s.as_bytes()) } else { pct_path_any(s.as_bytes(), r) };
    let mut target = format!("/{}", enc(&bucket, r));
    if object {
        target.push('/');
        target.push_str(&enc(&key, r));
    } else if r.chance(1, 4) {
        target.push('/');
    }
    if target.len() > 8000 {
        return;
    }
    let rq = Rq::new(method, target);
    let Some((rs, calls)) = send(run, rec, svc, addr, &rq).await else { return };
    run.eval(&format!("path/{method}/{bucket}/{key}"), true);
    run.count(if b_ok && key_ok { "admissible names" } else { "inadmissible names" }, 1);
    if i < 10 {
        run.sample(json!({"target": rq.target, "admissible": b_ok && key_ok, "status": rs.status}));
    }
    let detail = |why: &str| json!({"why": why, "bucket": bucket, "key": key, "request": rq.brief(), "response": rs.brief(), "calls": calls.iter().map(|c| format!("{} {}", c.op, c.input)).collect::<Vec<_>>()});
    if b_ok && key_ok {
        let good = calls.len() == 1 && calls[0].op == op(method, object) && calls[0].input["bucket"] == json!(bucket) && (!object || calls[0].input["key"] == json!(key));
        run.check(good, if object { "admissible_key" } else { "admissible_bucket" }, || detail("does not reach the storage as written"));
    } else {
        let refused = calls.is_empty() && (400..500).contains(&rs.status);
        run.check(refused, if b_ok { "long_key" } else { "inadmissible_bucket" }, || detail("is not refused"));
    }
}

/// paths which encode no text
async fn encoding(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, addr: Option<std::net::SocketAddr>, r: &mut Rng) {
    let bad = *r.pick(&["%ff", "%c3%28", "%c0%af", "%c0%80", "%ed%a0%80", "%f4%90%80%80", "%80", "%e2%82", "%f0%9f%a6", "%fe", "%C3", "%e2%28%a1", "%F8%88%80%80%80", "%zz", "%", "%4", "%4g", "%%41", "%u0041"]);
    let (a, b) = (*r.pick(&["", "a", "é", "a/", "%41"]), *r.pick(&["", "z", "/z", "%20"]));
    let method = *r.pick(&["PUT", "GET", "HEAD", "DELETE", "POST"]);
    let target = match r.below(3) {
        0 => format!("/{a}{bad}{b}"),
        _ => format!("/bkt/{a}{bad}{b}"),
    }
    .replace('é', "%C3%A9");
    let rq = Rq::new(method, target);
    let Some((rs, calls)) = send(run, rec, svc, addr, &rq).await else { return };
    run.eval(&format!("encoding/{method}/{}", rq.target), true);
    run.count("paths which are not UTF-8", 1);
    run.check(calls.is_empty() && (400..500).contains(&rs.status), "not_UTF-8", || json!({"request": rq.brief(), "response": rs.brief(), "calls": calls.iter().map(|c| format!("{} {}", c.op, c.input)).collect::<Vec<_>>()}));
}

/// names in copy sources
async fn source(run: &Run, fs: &World, r: &mut Rng) {
    let bucket = if r.chance(1, 2) { bucket_name(r) } else { "src".to_owned() };
    let mut key = key_name(r);
    let Some(b_ok) = bucket_ok(&bucket) else { return };
    // what the file system can name
    let seg_ok = key.split('/').all(|s| !s.is_empty() && s != "." && s != ".." && s.len() <= 255) && !key.contains('\0');
    if !seg_ok {
        if key.len() <= 1024 {
            key = (*r.pick(&["k", "a/b", "é%"])).to_owned();
        }
    }
    let ok = b_ok && key.len() <= 1024;
    let data = r.bytes(10);
    if ok {
        let _ = fs.call(&Rq::new("PUT", format!("/{bucket}"))).await;
        let put = Rq::new("PUT", format!("/{bucket}/{}", pct(key.as_bytes()))).body(data.clone());
        if !fs.call(&put).await.map_or(false, |x| x.ok()) {
            // a file in the way of a directory
            return;
        }
    }
    let _ = fs.call(&Rq::new("PUT", "/dst")).await;
    let _ = fs.call(&Rq::new("DELETE", "/dst/copy")).await;
    let enc = if r.chance(1, 2) { pct(key.as_bytes()) } else { pct_path_any(key.as_bytes(), r) };
    let slash = if r.chance(1, 2) { "/" } else { "" };
    let source = format!("{slash}{}/{enc}", pct_path_any(bucket.as_bytes(), r));
    // encoded as a header
    let rq = Rq::new("PUT", "/dst/copy").h("x-amz-copy-source", &source);
    run.count("requests", 1);
    let rs = match fs.call(&rq).await {
        Ok(x) => x,
        Err(Fail::Panic(p)) => return run.violation("panic", json!({"request": rq.brief(), "panic": p})),
        Err(Fail::Unbuildable(_)) => return,
        Err(e) => return run.problem(format!("{e:?}")),
    };
    let Ok(now) = fs.call(&Rq::new("GET", "/dst/copy")).await else { return run.problem("no answer") };
    run.eval(&format!("source/{bucket}/{key}/{slash}"), true);
    run.count(if ok { "admissible copy sources" } else { "inadmissible copy sources" }, 1);
    let right = if ok { rs.ok() && now.ok() && now.body == data } else { (400..500).contains(&rs.status) && now.status == 404 };
    run.check(right, if ok { "admissible_source" } else { "inadmissible_source" }, || json!({"bucket": bucket, "key": key, "request": rq.brief(), "response": rs.brief(), "GET afterwards": now.brief()}));
    if ok {
        let _ = fs.call(&Rq::new("DELETE", format!("/{bucket}"))).await;
    }
}

/// keys in forms
async fn form(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, r: &mut Rng) {
    let bucket = if r.chance(1, 3) { bucket_name(r) } else { "bkt".to_owned() };
    let key = key_name(r);
    let Some(b_ok) = bucket_ok(&bucket) else { return };
    if key.contains("${") || key.contains('\r') || key.contains('\n') {
        return;
    }
    let ok = b_ok && key.len() <= 1024;
    let mut f = Form::new(&key, b"data", r);
    let policy = sig::policy_doc(&bucket, chrono::Utc::now() + chrono::Duration::seconds(600), &[]);
    f.sign(&Cred::new(AK, SK), &policy);
    let rq = f.request(&pct(bucket.as_bytes()));
    let Some((rs, calls)) = send(run, rec, svc, None, &rq).await else { return };
    run.eval(&format!("form/{bucket}/{key}"), true);
    run.count(if ok { "admissible names in forms" } else { "inadmissible names in forms" }, 1);
    let right = if ok {
        calls.len() == 1 && calls[0].op == "PutObject" && calls[0].input["bucket"] == json!(bucket) && calls[0].input["key"] == json!(key)
    } else {
        calls.is_empty() && (400..500).contains(&rs.status)
    };
    run.check(right, if ok { "admissible_form" } else { "inadmissible_form" }, || json!({"bucket": bucket, "key": key, "response": rs.brief(), "calls": calls.iter().map(|c| format!("{} {}", c.op, c.input)).collect::<Vec<_>>()}));
}

/// an admissible bucket is created under its name, another one is not
async fn stored_bucket(run: &Run, fs: &World, r: &mut Rng) {
    let bucket = bucket_name(r);
    let Some(ok) = bucket_ok(&bucket) else { return };
    let target = format!("/{}", pct(bucket.as_bytes()));
    let rq = Rq::new("PUT", target.clone());
    run.count("requests", 1);
    let before = crate::util::snapshot(&fs.dir.path);
    let rs = match fs.call(&rq).await {
        Ok(x) => x,
        Err(Fail::Panic(p)) => return run.violation("panic", json!({"request": rq.brief(), "panic": p})),
        Err(Fail::Unbuildable(_)) => return,
        Err(e) => return run.problem(format!("{e:?}")),
    };
    run.eval(&format!("bucket/{bucket}"), true);
    if before.contains_key(bucket.as_bytes()) {
        return;
    }
    let Ok(list) = fs.call(&Rq::new("GET", "/")).await else { return run.problem("no answer") };
    let names: Vec<String> = crate::xml::parse_lenient(&list.body)
        .ok()
        .and_then(|d| d.one("Buckets").map(|b| b.all("Bucket").filter_map(|e| e.text_of("Name")).collect()))
        .unwrap_or_default();
    let listed = names.contains(&bucket);
    let after = crate::util::snapshot(&fs.dir.path);
    let right = if ok { rs.ok() && listed } else { (400..500).contains(&rs.status) && !listed && crate::util::tree_diff(&before, &after, false).is_empty() };
    run.check(right, "created_bucket", || json!({"bucket": bucket, "admissible": ok, "response": rs.brief(), "listed": listed}));
    if ok {
        let _ = fs.call(&Rq::new("DELETE", target)).await;
    }
}
