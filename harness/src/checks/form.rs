//! C18 and C25: POST form uploads.
use super::parallel;
use crate::ev::Run;
use crate::http::{self, End, Fail, Out, Rq, Rs};
use crate::record::{Call, Rec};
use crate::sig::{self, Cred, Form};
use crate::util::{b64, etag, Rng};
use crate::world::{self, World, AK, SK};
use chrono::{Duration, Utc};
use serde_json::{json, Value};
use std::collections::BTreeMap;

struct Upload {
    form: Form,
    key: String,
    meta: BTreeMap<String, String>,
    cred: Cred,
    quoted: bool,
    headers: Vec<(String, Vec<u8>)>,
}

impl Upload {
    fn request(&self) -> Rq {
        let ct = if self.quoted { format!("multipart/form-data; boundary=\"{}\"", self.form.boundary) } else { format!("multipart/form-data; boundary={}", self.form.boundary) };
        let mut rq = self.form.request("bkt");
        rq.set("content-type", ct);
        rq.headers.extend(self.headers.iter().cloned());
        rq
    }
    /// the last value of a field
    fn field(&self, name: &str) -> Option<String> {
        self.form.fields.iter().rev().find(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| String::from_utf8_lossy(v).into_owned())
    }
}

/// headers which mean something for other uploads, but nothing for a form
const FOREIGN: [(&str, &str); 19] = [
    ("x-amz-meta-tag", "of the request"),
    ("x-amz-meta-unsigned", "1"),
    ("x-amz-acl", "public-read-write"),
    ("x-amz-storage-class", "GLACIER"),
    ("x-amz-tagging", "a=b"),
    ("x-amz-grant-full-control", "id=evil"),
    ("x-amz-website-redirect-location", "http://evil.example/"),
    ("x-amz-object-lock-mode", "COMPLIANCE"),
    ("x-amz-server-side-encryption", "AES256"),
    ("x-amz-request-payer", "requester"),
    ("x-amz-copy-source", "bkt/other"),
    ("x-amz-date", "20200101T000000Z"),
    ("x-amz-content-sha256", "UNSIGNED-PAYLOAD"),
    ("x-amz-decoded-content-length", "7"),
    ("cache-control", "no-cache"),
    ("content-encoding", "aws-chunked"),
    ("content-language", "tlh"),
    ("content-disposition", "attachment"),
    ("expires", "Thu, 01 Dec 1994 16:00:00 GMT"),
];

/// what a file may contain, up to look-alikes of the boundary
fn file(r: &mut Rng, boundary: &str, big: bool) -> Vec<u8> {
    let d = format!("\r\n--{boundary}").into_bytes();
    let mut out = match r.below(8) {
        0 => Vec::new(),
        1 => world::content(r, big),
        2 => (*r.pick(&[&b"\r"[..], b"\n", b"\r\n", b"\r\n\r\n", b"--", b"\r\n--", b"\0", b"-"])).to_vec(),
        3 => d[..d.len() - 1].to_vec(),
        4 => d[2..].iter().take(d.len() - 3).copied().collect(),
        _ => {
            let mut v = Vec::new();
            for _ in 0..r.below(40) {
                match r.below(9) {
                    0 => v.extend_from_slice(b"\r\n"),
                    1 => v.push(b'\r'),
                    2 => v.push(b'\n'),
                    3 => v.extend_from_slice(&d[..r.range(1, d.len() - 1)]),
                    4 => {
                        // beside the delimiter
                        v.extend_from_slice(&d);
                        let at = v.len() - 1 - r.below(d.len());
                        v[at] ^= *r.pick(&[1u8, 0x20, 0x80]);
                    }
                    5 => v.extend_from_slice(format!("x--{boundary}--\r\n").as_bytes()),
                    6 => v.extend_from_slice(format!("\n--{boundary}\r\n").as_bytes()),
                    7 => v.extend_from_slice(b"\r\nContent-Disposition: form-data; name=\"key\"\r\n\r\nevil"),
                    _ => {
                        let n = r.below(20);
                        v.extend_from_slice(&r.bytes(n));
                    }
                }
            }
            v
        }
    };
    if big && r.chance(1, 20) {
        let n = r.range(60_000, 200_000);
        let fill = r.bytes(n);
        out.extend_from_slice(&fill);
        out.extend_from_slice(&d[..d.len() - 1]);
    }
    // neither the delimiter, nor a file which starts like one
    let mut from = 0;
    while let Some(at) = http::find(&out[from..], &d) {
        out[from + at + 3] = b'=';
        from += at;
    }
    if out.starts_with(&d[2..]) {
        out[0] = b'+';
    }
    out
}

fn boundary(r: &mut Rng) -> (String, bool) {
    match r.below(6) {
        0 => ("x".into(), false),
        1 => ("-".repeat(r.range(1, 20)) + "b", false),
        2 => ("WebKitFormBoundary7MA4YWxkTrZu0gW".into(), false),
        3 => ("a'()+_,-./:=?b".into(), true),
        4 => ("0123456789".repeat(7), false),
        _ => (format!("----------------{:016x}", r.u64()), r.chance(1, 4)),
    }
}

fn upload(r: &mut Rng, big: bool, key: Option<String>) -> Upload {
    let (b, quoted) = boundary(r);
    let key = key.unwrap_or_else(|| {
        let pool = world::key_pool(r, 4, false);
        pool.into_iter().find(|k| !k.ends_with(' ') && !k.contains("${")).unwrap_or_else(|| "k".into())
    });
    let mut cred = Cred::new(AK, SK);
    if r.chance(1, 4) {
        cred.region = "ap-south-1".into();
    }
    let data = file(r, &b, big);
    let mut f = Form::new(&key, &data, r);
    f.boundary = b;
    let mut meta = BTreeMap::new();
    for (n, v) in world::metadata(r) {
        let name = if r.chance(1, 3) { format!("X-Amz-Meta-{n}") } else { format!("x-amz-meta-{n}") };
        f.fields.push((name, v.clone().into_bytes()));
        meta.insert(n, v);
    }
    for (n, v) in [("acl", "public-read"), ("success_action_status", "201"), ("success_action_redirect", "http://example.com/?a=b&c"), ("tagging", "<Tagging/>"), ("x-ignore-a", "any\r\nthing\r\n\r\n--x"), ("comment", "日本語\nline"), ("empty", ""), ("Content-Type", "image/png"), ("x-amz-meta-", "nameless")] {
        if r.chance(1, 6) {
            let v = if v.contains(&format!("\r\n--{}", f.boundary)) { "v" } else { v };
            f.fields.push((n.into(), v.as_bytes().to_vec()));
        }
    }
    if r.chance(1, 12) {
        for i in 0..*r.pick(&[20, 70, 200]) {
            f.fields.push((format!("x-ignore-{i}"), b"1".to_vec()));
        }
    }
    f.sign(&cred, &sig::policy_doc("bkt", Utc::now() + Duration::seconds(3600), &[]));
    if r.chance(2, 3) {
        r.shuffle(&mut f.fields);
    }
    if r.chance(1, 6) {
        f.field_headers.push("Content-Type: text/plain; charset=UTF-8".into());
    }
    if r.chance(1, 6) {
        f.field_headers.push("Content-Transfer-Encoding: 8bit".into());
    }
    match r.below(5) {
        0 => f.file_headers.clear(),
        1 => f.file_headers.push("Content-Transfer-Encoding: binary".into()),
        _ => {}
    }
    f.file_name = (*r.pick(&["f.bin", "日本.txt", "a b (1).png", "x", "C:\\dir\\f", "../../etc/passwd", "f%22.bin", ""])).into();
    f.plain_file = r.chance(1, 8);
    if r.chance(1, 10) {
        // (most clients which give every field a name give it to all of them)
        let all = r.chance(1, 2);
        f.named = f.fields.iter().map(|(n, _)| n.clone()).filter(|_| all || r.chance(1, 3)).collect();
    }
    if r.chance(1, 8) {
        f.trailer.push(("submit".into(), b"Upload".to_vec()));
    }
    if r.chance(1, 10) {
        f.preamble = b"\r\n".to_vec();
    }
    let mut headers = Vec::new();
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 4) {
            let (n, v) = *r.pick(&FOREIGN);
            if headers.iter().all(|(m, _): &(String, Vec<u8>)| m != n) {
                headers.push((n.to_owned(), v.as_bytes().to_vec()));
            }
        }
    }
    Upload { form: f, key, meta, cred, quoted, headers }
}

fn cut(r: &mut Rng, all: &[u8]) -> Vec<Vec<u8>> {
    match r.below(6) {
        0 => vec![all.to_vec()],
        1 => r.split(all, 2),
        2 => r.split(all, 8),
        3 => r.split(all, 60),
        4 => {
            let n = all.len() / 300 + 1;
            all.chunks(n).map(<[u8]>::to_vec).collect()
        }
        _ => {
            let mut cuts = vec![0];
            for i in 1..all.len() {
                if matches!(all[i - 1], b'\r' | b'\n' | b'-') && cuts.len() < 100 && r.chance(2, 3) {
                    cuts.push(i);
                }
            }
            cuts.push(all.len());
            cuts.windows(2).map(|w| all[w[0]..w[1]].to_vec()).collect()
        }
    }
}

async fn send(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, rq: &Rq) -> Option<(Rs, Vec<Call>)> {
    run.count("forms", 1);
    let out = http::call(svc, rq).await;
    let calls = rec.take();
    match out {
        Ok(rs) => Some((rs, calls)),
        Err(Fail::Panic(p)) => {
            run.violation("panic", json!({"request": rq.brief(), "panic": p}));
            None
        }
        Err(e) => {
            run.problem(format!("{e:?}"));
            None
        }
    }
}

fn seen_calls(calls: &[Call]) -> Value {
    calls.iter().map(|c| json!({"op": c.op, "input": c.input, "delivered": c.body.len(), "body": crate::util::show(&c.body), "complete": c.done && c.body_err.is_none()})).collect()
}

/// headers x-amz-* which nobody signed may be a reason to refuse the form
fn refusable(rq: &Rq, rs: &Rs, calls: &[Call]) -> bool {
    rq.headers.iter().any(|(n, _)| n.starts_with("x-amz-")) && (400..500).contains(&rs.status) && !calls.iter().any(|c| c.done && c.body_err.is_none())
}

fn accepted(run: &Run, u: &Upload, rq: &Rq, rs: &Rs, calls: &[Call], what: &str) {
    let is_refused = (400..500).contains(&rs.status) && !calls.iter().any(|c| c.done && c.body_err.is_none());
    if is_refused && !u.form.named.is_empty() {
        run.count("forms refused for a field with a file name", 1);
        return;
    }
    if refusable(rq, rs, calls) {
        run.count("forms refused for a header", 1);
        return;
    }
    let mut why = Vec::new();
    if !rs.ok() {
        why.push("the answer is no success".to_owned());
    }
    if calls.len() != 1 || calls[0].op != "PutObject" {
        why.push(format!("{} calls", calls.len()));
    } else {
        let c = &calls[0];
        if c.input["bucket"] != json!("bkt") || c.input["key"] != json!(u.key) {
            why.push(format!("stored as {}/{}", c.input["bucket"], c.input["key"]));
        }
        if c.body != u.form.file || !c.done || c.body_err.is_some() {
            why.push(format!("{} bytes delivered of {}, {:?}", c.body.len(), u.form.file.len(), c.body_err));
        }
        let got: BTreeMap<String, String> = c.input["metadata"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("?").to_owned())).collect()).unwrap_or_default();
        if got != u.meta {
            why.push(format!("metadata {got:?} instead of {:?}", u.meta));
        }
        // what else is stored comes from the form as well
        let of = |n: &str| match n {
            "acl" | "expires" | "tagging" => u.field(n),
            "content_type" => u.field("content-type"),
            "storage_class" => u.field("x-amz-storage-class"),
            _ => None,
        };
        for (n, v) in c.input.as_object().into_iter().flatten() {
            if !["bucket", "key", "metadata", "content_length"].contains(&n.as_str()) && v.as_str().map(str::to_owned) != of(n) {
                why.push(format!("{n} is {v} instead of {:?}", of(n)));
            }
        }
        for n in ["acl", "content_type", "tagging", "storage_class"] {
            if let (None, Some(v)) = (c.input.get(n), of(n)) {
                why.push(format!("{n} is not {v:?}"));
            }
        }
        if let Some(n) = c.input.get("content_length") {
            if *n != json!(u.form.file.len()) {
                why.push(format!("a content length of {n}"));
            }
        }
    }
    if !why.is_empty() {
        run.violation(what, json!({"why": why, "request": rq.brief(), "response": rs.brief(), "calls": seen_calls(calls)}));
    }
}

fn refused(run: &Run, rq: &Rq, rs: &Rs, calls: &[Call], what: &str, client_error: bool) {
    let mut why = Vec::new();
    if rs.status < 400 {
        why.push("answered with success");
    } else if client_error && rs.status >= 500 {
        why.push("refused as an error of the server");
    }
    if calls.iter().any(|c| c.done && c.body_err.is_none()) {
        why.push("a storage operation was completed");
    }
    if !why.is_empty() {
        run.violation(what, json!({"why": why, "request": rq.brief(), "response": rs.brief(), "calls": seen_calls(calls)}));
    }
}

/// C18
pub async fn uploads(run: &'static Run) -> i32 {
    parallel(run, 8, |w| async move {
        let rec = Rec::default();
        rec.register(AK, SK);
        let svc = rec.service(true);
        let addr = http::serve(svc.clone());
        let fs = World::new(true);
        let bucket = fs.sign(Rq::new("PUT", "/bkt"), &mut Rng::new(1));
        if !fs.call(&bucket).await.map_or(false, |r| r.ok()) {
            return run.problem("cannot create a bucket");
        }
        let mut i = 0;
        while run.more() {
            i += 1;
            let mut r = Rng::from(run.seed, "C18", (i << 8) | w);
            match r.below(12) {
                0 => every_split(run, &rec, &svc, &mut r).await,
                1..=3 => valid(run, &rec, &svc, addr, &mut r, i).await,
                4 => truncated(run, &rec, &svc, &mut r).await,
                5..=8 => malformed(run, &rec, &svc, &mut r).await,
                9 => over_tcp_broken(run, &rec, addr, &mut r).await,
                _ => stored(run, &fs, &mut r, i).await,
            }
        }
    })
    .await;
    run.finish(&["the delimiter of a form does not occur in its file", "field names are matched without regard to case"])
}

async fn every_split(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, r: &mut Rng) {
    let u = upload(r, false, None);
    if u.form.file.len() > 2000 {
        return;
    }
    let mut rq = u.request();
    let all = rq.all_body();
    if all.len() > 6000 {
        return;
    }
    let what = format!("{:x}", crate::util::fnv(&u.form.file));
    for at in 0..=all.len() {
        rq.chunks = vec![all[..at].to_vec(), all[at..].to_vec()];
        let Some((rs, calls)) = send(run, rec, svc, &rq).await else { return };
        run.eval(&format!("split/{what}/{at}"), true);
        accepted(run, &u, &rq, &rs, &calls, "two_pieces");
    }
    run.count("splits", all.len() as u64);
    rq.chunks = all.iter().map(|b| vec![*b]).collect();
    let Some((rs, calls)) = send(run, rec, svc, &rq).await else { return };
    run.eval(&format!("bytes/{what}"), true);
    accepted(run, &u, &rq, &rs, &calls, "single_bytes");
}

async fn valid(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, addr: std::net::SocketAddr, r: &mut Rng, i: u64) {
    let u = upload(r, true, None);
    let mut rq = u.request();
    rq.chunks = cut(r, &rq.all_body());
    if r.chance(1, 8) {
        rq.headers.retain(|(n, _)| n != "content-length");
    }
    if i < 10 {
        run.sample(json!({"file": crate::util::show(&u.form.file), "fields": u.form.fields.iter().map(|(n, _)| n).collect::<Vec<_>>(), "pieces": rq.chunks.len()}));
    }
    run.eval(&format!("valid/{:x}/{:?}/{:?}", crate::util::fnv(&u.form.file), u.form.fields.iter().map(|(n, _)| n).collect::<Vec<_>>(), rq.chunks.iter().map(Vec::len).take(30).collect::<Vec<_>>()), true);
    if r.chance(1, 6) {
        run.count("forms over TCP", 1);
        let out = http::tcp(addr, &rq).await;
        let calls = rec.take();
        match out {
            Ok(rs) => accepted(run, &u, &rq, &rs, &calls, "over_TCP"),
            Err(e) => run.problem(format!("{e:?}")),
        }
        return;
    }
    let Some((rs, calls)) = send(run, rec, svc, &rq).await else { return };
    accepted(run, &u, &rq, &rs, &calls, "valid_form");
}

/// where the delimiter after the file ends
fn file_end(u: &Upload, all: &[u8]) -> usize {
    // the file is followed by its delimiter, and possibly by a trailer
    let mut f = u.form.clone();
    f.trailer.clear();
    let tail = format!("--{}--\r\n", f.boundary).len();
    let without = f.encode();
    let end = without.len() - tail - 2;
    debug_assert!(all[end..].starts_with(b"\r\n--"));
    end + 4 + f.boundary.len()
}

async fn truncated(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, r: &mut Rng) {
    let u = upload(r, false, None);
    if u.form.file.len() > 2000 {
        return;
    }
    let all = u.request().all_body();
    let end = file_end(&u, &all);
    let step = r.range(1, 3) + all.len() / 3000;
    let what = format!("{:x}", crate::util::fnv(&u.form.file));
    for at in (0..end).step_by(step) {
        let mut rq = u.request();
        rq.set("content-length", at.to_string());
        rq.chunks = if r.chance(1, 2) { vec![all[..at].to_vec()] } else { r.split(&all[..at], 4) };
        if r.chance(1, 3) {
            rq.end = End::Err;
        }
        let Some((rs, calls)) = send(run, rec, svc, &rq).await else { return };
        run.eval(&format!("truncated/{what}/{at}/{:?}", rq.end), true);
        run.count("truncations", 1);
        refused(run, &rq, &rs, &calls, "truncated_form", false);
    }
}

fn spoil(u: &mut Upload, r: &mut Rng) -> (&'static str, Rq) {
    u.form.named.clear();
    u.form.plain_file = false;
    let drop = |u: &mut Upload, n: &str| u.form.fields.retain(|(f, _)| !f.eq_ignore_ascii_case(n));
    let with = |u: &Upload, from: &[u8], to: &[u8]| {
        let mut rq = u.request();
        let mut b = rq.all_body();
        if let Some(at) = http::find(&b, from) {
            b.splice(at..at + from.len(), to.iter().copied());
        }
        rq = rq.body(b);
        rq
    };
    let disp: &[u8] = b"Content-Disposition: form-data; name=\"file\"";
    match r.below(20) {
        0 => (drop(u, "key"), ("no_key", u.request())).1,
        1 => (drop(u, "policy"), ("no_policy", u.request())).1,
        2 => (drop(u, "x-amz-algorithm"), ("no_algorithm", u.request())).1,
        3 => (drop(u, "x-amz-credential"), ("no_credential", u.request())).1,
        4 => (drop(u, "x-amz-date"), ("no_date", u.request())).1,
        5 => (drop(u, "x-amz-signature"), ("no_signature", u.request())).1,
        6 => {
            // no file at all
            let mut rq = u.request();
            let b = rq.all_body();
            let at = http::find(&b, disp).unwrap_or(0) - u.form.boundary.len() - 4;
            let mut b = b[..at].to_vec();
            b.extend_from_slice(format!("--{}--\r\n", u.form.boundary).as_bytes());
            rq = rq.body(b);
            ("no_file", rq)
        }
        7 => ("no_disposition", with(u, b"Content-Disposition: form-data; name=\"key\"\r\n", b"")),
        8 => ("other_disposition", with(u, b"Content-Disposition: form-data; name=\"key\"", b"Content-Disposition: attachment")),
        9 => ("nameless_field", with(u, b"form-data; name=\"key\"", b"form-data")),
        10 => {
            // the field is not text
            for (n, v) in &mut u.form.fields {
                if n == "key" {
                    *v = b"\xff\xfe\xfd".to_vec();
                }
            }
            ("key_not_UTF-8", u.request())
        }
        11 => {
            let mut rq = u.request();
            rq.set("content-type", "multipart/form-data");
            ("no_boundary", rq)
        }
        12 => {
            let mut rq = u.request();
            rq.set("content-type", format!("multipart/form-data; boundary={}x", u.form.boundary.replace(['(', ')', ',', '/', ':', '=', '?', '\''], "")));
            ("other_boundary", rq)
        }
        13 => {
            let first = format!("--{}\r\n", u.form.boundary);
            let to = *r.pick(&[&b"garbage\r\n"[..], b"--\r\n", b"\r\n\r\n", b""]);
            ("first_line", with(u, first.as_bytes(), to))
        }
        14 => {
            for (n, v) in &mut u.form.fields {
                if n == "policy" {
                    *v = b"not base64!".to_vec();
                }
            }
            ("policy_not_base64", u.request())
        }
        15 => {
            for (n, v) in &mut u.form.fields {
                if n == "x-amz-date" {
                    *v = (*r.pick(&[&b"yesterday"[..], b"", b"20200101", b"2020-01-01T00:00:00Z"])).to_vec();
                }
            }
            ("date", u.request())
        }
        16 => {
            for (n, v) in &mut u.form.fields {
                if n == "x-amz-credential" {
                    *v = (*r.pick(&[&b"AK"[..], b"", b"a/b/c/d", b"////"])).to_vec();
                }
            }
            ("credential", u.request())
        }
        17 => {
            let mut rq = u.request();
            rq.chunks = vec![];
            rq.set("content-length", "0");
            ("empty_body", rq)
        }
        18 => ("header_without_colon", with(u, disp, b"Content-Disposition form-data; name=\"file\"")),
        _ => {
            // the file is closed by another boundary
            let from = format!("\r\n--{}--\r\n", u.form.boundary);
            u.form.trailer.clear();
            let mut rq = u.request();
            let mut b = rq.all_body();
            let n = b.len() - from.len();
            b.truncate(n);
            b.extend_from_slice(*r.pick(&[&b"\r\n----\r\n"[..], b"\r\n", b"\r\n--", b""]));
            rq = rq.body(b);
            ("not_closed", rq)
        }
    }
}

async fn malformed(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, r: &mut Rng) {
    let mut u = upload(r, false, None);
    let (what, mut rq) = spoil(&mut u, r);
    if r.chance(1, 2) {
        rq.chunks = cut(r, &rq.all_body());
    }
    let Some((rs, calls)) = send(run, rec, svc, &rq).await else { return };
    run.seen("defects of forms", what);
    run.eval(&format!("malformed/{what}/{:x}", crate::util::fnv(&rq.all_body())), true);
    // a form which breaks off is indistinguishable from a connection which does
    refused(run, &rq, &rs, &calls, &format!("malformed_form_{what}"), what != "not_closed");
}

/// a connection which closes in the middle
async fn over_tcp_broken(run: &Run, rec: &Rec, addr: std::net::SocketAddr, r: &mut Rng) {
    let u = upload(r, false, None);
    let all = u.request().all_body();
    let at = r.below(file_end(&u, &all));
    let mut rq = u.request();
    rq.chunks = r.split(&all[..at], 3);
    rq.end = if r.chance(1, 2) { End::Err } else { End::Hang };
    run.count("forms over TCP", 1);
    let out = http::tcp(addr, &rq).await;
    run.eval(&format!("tcp/{at}/{}/{:?}", all.len(), rq.end), true);
    for _ in 0..20 {
        tokio::time::sleep(std::time::Duration::from_millis(1)).await;
    }
    let calls = rec.take();
    let bad = calls.iter().any(|c| c.done && c.body_err.is_none()) || out.as_ref().map_or(false, |rs| rs.status < 400);
    run.check(!bad, "broken_connection", || json!({"request": rq.brief(), "calls": seen_calls(&calls), "response": out.map(|o| o.brief()).ok()}));
}

async fn read(fs: &World, key: &str, r: &mut Rng) -> Out {
    fs.call(&fs.sign(Rq::new("GET", world::target("bkt", key)), r)).await
}

async fn stored(run: &Run, fs: &World, r: &mut Rng, i: u64) {
    let key = format!("k{}/{i} é", r.below(3));
    let old = r.chance(1, 2).then(|| r.bytes(33));
    let t = world::target("bkt", &key);
    if let Some(o) = &old {
        let put = fs.upload(Rq::new("PUT", t.clone()).h("x-amz-meta-old", "1"), o, r).0;
        if !fs.call(&put).await.map_or(false, |x| x.ok()) {
            return run.problem("cannot store");
        }
    }
    let mut u = upload(r, true, Some(key.clone()));
    u.headers.retain(|(n, _)| !n.starts_with("x-amz-"));
    let kind = r.below(3);
    let (what, rq) = match kind {
        0 => {
            let mut rq = u.request();
            rq.chunks = cut(r, &rq.all_body());
            ("valid", rq)
        }
        1 => {
            let mut rq = u.request();
            let all = rq.all_body();
            let at = r.below(file_end(&u, &all));
            rq.chunks = r.split(&all[..at], 5);
            rq.set("content-length", at.to_string());
            rq.end = *r.pick(&[End::Done, End::Err, End::Hang]);
            ("truncated", rq)
        }
        _ => spoil(&mut u, r),
    };
    run.count("forms", 1);
    let good = kind == 0;
    let out = fs.call(&rq).await;
    let success = match &out {
        Ok(rs) => rs.status < 400,
        Err(Fail::Hang) if rq.end == End::Hang => false,
        Err(Fail::Panic(p)) => return run.violation("panic", json!({"request": rq.brief(), "panic": p})),
        Err(e) => return run.problem(format!("{e:?}")),
    };
    run.eval(&format!("stored/{what}/{}/{:x}", old.is_some(), crate::util::fnv(&u.form.file)), true);
    if success != good {
        return run.violation(&format!("stored_{what}"), json!({"expected success": good, "request": rq.brief(), "response": out.map(|o| o.brief()).ok()}));
    }
    let Ok(now) = read(fs, &key, r).await else { return run.problem("cannot read") };
    let right = if good {
        now.ok() && now.body == u.form.file && now.meta() == u.meta && now.get("etag") == Some(etag(&u.form.file))
    } else {
        match &old {
            Some(o) => now.ok() && now.body == *o && now.meta().len() == 1,
            None => now.status == 404,
        }
    };
    run.check(right, &format!("content_after_{what}"), || json!({"request": rq.brief(), "GET afterwards": now.brief(), "metadata": u.meta}));
    let _ = u.cred;
    let _ = fs.call(&fs.sign(Rq::new("DELETE", t), r)).await;
}

// ---------------------------------------------------------------- C25

/// the conditions of a policy, judged independently
#[derive(Clone, Debug)]
enum Cond {
    Eq(String, String),
    Starts(String, String),
    Range(u64, u64),
}

impl Cond {
    fn json(&self, r: &mut Rng) -> Value {
        match self {
            Cond::Eq(n, v) if r.chance(1, 2) => json!({n: v}),
            Cond::Eq(n, v) => json!([r.pick(&["eq", "eq", "EQ"]), format!("${n}"), v]),
            Cond::Starts(n, v) => json!([r.pick(&["starts-with", "starts-with", "Starts-With"]), format!("${n}"), v]),
            Cond::Range(a, b) => json!(["content-length-range", a, b]),
        }
    }
    fn holds(&self, fields: &BTreeMap<String, String>, bucket: &str, len: u64) -> bool {
        let get = |n: &String| if n.eq_ignore_ascii_case("bucket") { Some(bucket.to_owned()) } else { fields.get(&n.to_ascii_lowercase()).cloned() };
        match self {
            Cond::Eq(n, v) => get(n).as_deref() == Some(v),
            Cond::Starts(n, v) => get(n).map_or(false, |x| x.as_bytes().starts_with(v.as_bytes())),
            Cond::Range(a, b) => (*a..=*b).contains(&len),
        }
    }
}

fn near(v: &str, r: &mut Rng) -> String {
    match r.below(7) {
        0 => format!("{v}x"),
        1 => format!("x{v}"),
        2 => v.to_ascii_uppercase(),
        3 if !v.is_empty() => {
            let mut s = v.to_owned();
            s.pop();
            s
        }
        4 => format!(" {v}"),
        5 => String::new(),
        _ => format!("{v} "),
    }
}

/// C25
pub async fn policies(run: &'static Run) -> i32 {
    parallel(run, 8, |w| async move {
        let rec = Rec::default();
        rec.register(AK, SK);
        let svc = rec.service(true);
        let fs = World::new(true);
        let bucket = fs.sign(Rq::new("PUT", "/bkt"), &mut Rng::new(1));
        if !fs.call(&bucket).await.map_or(false, |r| r.ok()) {
            return run.problem("cannot create a bucket");
        }
        let mut calendar = None;
        if w == 0 {
            tokio::spawn(expiring(run, rec_of(), 3));
            calendar = Some(tokio::spawn(self::calendar(run)));
        }
        let mut i = 0;
        while run.more() {
            i += 1;
            let mut r = Rng::from(run.seed, "C25", (i << 8) | w);
            match r.below(12) {
                0..=5 => conditions(run, &rec, &svc, &mut r, i).await,
                10 | 11 => elsewhere(run, &rec, &svc, &mut r).await,
                6 => expired(run, &rec, &svc, &mut r).await,
                7 => malformed_policy(run, &rec, &svc, &mut r).await,
                8 => lengths(run, &rec, &svc, &mut r).await,
                _ => policy_stored(run, &fs, &mut r, i).await,
            }
        }
        if let Some(c) = calendar {
            if let Err(e) = c.await {
                run.problem(format!("calendar: {e}"));
            }
        }
    })
    .await;
    tokio::time::sleep(std::time::Duration::from_secs(5)).await;
    run.finish(&["the clock does not jump", "a condition about a field which the form lacks is violated"])
}

fn rec_of() -> Rec {
    let rec = Rec::default();
    rec.register(AK, SK);
    rec
}

/// fields and conditions which they satisfy
fn satisfied(r: &mut Rng) -> (BTreeMap<String, String>, Vec<Cond>) {
    let mut fields = BTreeMap::new();
    let keys = ["user/a.txt", "k", "user/日本", "u", "User/a", "a b"];
    fields.insert("key".to_owned(), (*r.pick(&keys)).to_owned());
    for (n, v) in [("acl", "public-read"), ("content-type", "image/png"), ("success_action_status", "201"), ("x-amz-meta-tag", "t\"a\\g"), ("x-amz-meta-uuid", "14365123651274"), ("x-amz-storage-class", "STANDARD"), ("comment", "ünïcode"), ("x-amz-meta-empty", "")] {
        if r.chance(1, 2) {
            fields.insert(n.to_owned(), v.to_owned());
        }
    }
    let names: Vec<String> = fields.keys().cloned().collect();
    let mut cs = Vec::new();
    for n in names {
        let v = fields[&n].clone();
        let name = if r.chance(1, 5) { n.to_ascii_uppercase() } else { n.clone() };
        match r.below(5) {
            0 | 1 => cs.push(Cond::Eq(name, v)),
            2 => {
                let mut cut = r.below(v.len() + 1);
                while !v.is_char_boundary(cut) {
                    cut -= 1;
                }
                cs.push(Cond::Starts(name, v[..cut].to_owned()));
            }
            3 => {
                cs.push(Cond::Starts(name.clone(), String::new()));
                cs.push(Cond::Starts(name, v));
            }
            _ => {}
        }
    }
    if r.chance(2, 3) {
        cs.push(Cond::Eq("bucket".into(), "bkt".into()));
    } else if r.chance(1, 3) {
        cs.push(Cond::Starts("bucket".into(), "bk".into()));
    }
    (fields, cs)
}

fn policy_form(fields: &BTreeMap<String, String>, policy: &str, file: &[u8], r: &mut Rng) -> Form {
    let mut f = Form::new("x", file, r);
    f.fields.clear();
    for (n, v) in fields {
        let n = if r.chance(1, 6) { n.to_ascii_uppercase() } else { n.clone() };
        f.fields.push((n, v.clone().into_bytes()));
    }
    f.sign(&Cred::new(AK, SK), policy);
    r.shuffle(&mut f.fields);
    f
}

fn document(expires: &str, cs: &[Value]) -> String {
    json!({"expiration": expires, "conditions": cs}).to_string()
}

fn in_future(r: &mut Rng) -> String {
    let t = Utc::now() + Duration::seconds(*r.pick(&[60i64, 3600, 86400 * 30, 86400 * 365 * 20]));
    t.format(r.pick(&["%Y-%m-%dT%H:%M:%S%.3fZ", "%Y-%m-%dT%H:%M:%SZ"])).to_string()
}

async fn conditions(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, r: &mut Rng, i: u64) {
    let (mut fields, mut cs) = satisfied(r);
    let n = r.below(200);
    let file = r.bytes(n);
    if r.chance(1, 2) {
        let most = if r.chance(1, 3) { u64::try_from(crate::util::wrapping(r.below(n + 1) as u64, r)).unwrap_or(u64::MAX) } else { (n + r.below(100)) as u64 };
        cs.push(Cond::Range(r.below(n + 1) as u64, most));
    }
    let mut how = "satisfied";
    if r.chance(3, 5) && !cs.is_empty() {
        // violate one of them, in the form or in the policy
        let k = r.below(cs.len());
        match cs[k].clone() {
            Cond::Eq(name, v) if !name.eq_ignore_ascii_case("bucket") => {
                how = match r.below(4) {
                    0 => {
                        cs[k] = Cond::Eq(name, near(&v, r));
                        "eq other in policy"
                    }
                    1 => {
                        fields.insert(name.to_ascii_lowercase(), near(&v, r));
                        "eq other in form"
                    }
                    2 if name.to_ascii_lowercase() != "key" => {
                        fields.remove(&name.to_ascii_lowercase());
                        "eq missing field"
                    }
                    _ => {
                        cs.push(Cond::Eq(name, near(&v, r)));
                        "eq twice"
                    }
                }
            }
            Cond::Eq(name, v) => {
                cs[k] = Cond::Eq(name, near(&v, r));
                how = "bucket";
            }
            Cond::Starts(name, v) => {
                how = match r.below(3) {
                    0 => {
                        cs[k] = Cond::Starts(name, near(&v, r));
                        "starts other in policy"
                    }
                    1 if !["key", "bucket"].contains(&name.to_ascii_lowercase().as_str()) => {
                        fields.remove(&name.to_ascii_lowercase());
                        "starts missing field"
                    }
                    _ => {
                        let f = fields.get(&name.to_ascii_lowercase()).cloned().unwrap_or_else(|| "bkt".into());
                        cs[k] = Cond::Starts(name, format!("{f}/"));
                        "starts too long"
                    }
                }
            }
            Cond::Range(..) => {
                let n = n as u64;
                cs[k] = match r.below(5) {
                    0 => Cond::Range(n + 1, n + 1 + r.below(100) as u64),
                    1 if n > 0 => Cond::Range(0, n - 1),
                    2 => Cond::Range(n + 5, n),
                    3 => {
                        let least = u64::try_from(crate::util::wrapping(n - n.min(r.below(10) as u64), r)).unwrap_or(u64::MAX);
                        Cond::Range(least, u64::MAX)
                    }
                    _ => Cond::Range(n + 1, u64::from(u32::MAX)),
                };
                how = "length";
            }
        }
    }
    // a key must stay a key
    let key = fields["key"].clone();
    if key.is_empty() || key.ends_with('/') {
        return;
    }
    r.shuffle(&mut cs);
    let ok = cs.iter().all(|c| c.holds(&fields, "bkt", n as u64));
    let js: Vec<Value> = cs.iter().map(|c| c.json(r)).collect();
    let policy = document(&in_future(r), &js);
    let mut f = policy_form(&fields, &policy, &file, r);
    // a field named twice, with another value, before or after
    let twice = r.chance(1, 4);
    if twice {
        for _ in 0..r.range(1, 3) {
            let at = r.below(f.fields.len());
            let (n, v) = f.fields[at].clone();
            if ["policy", "x-amz-signature", "x-amz-date", "x-amz-credential", "x-amz-algorithm"].contains(&n.to_ascii_lowercase().as_str()) {
                continue;
            }
            let n = if r.chance(1, 3) { n.to_ascii_uppercase() } else { n };
            f.fields.insert(r.below(f.fields.len() + 1), (n, near(&String::from_utf8_lossy(&v), r).into_bytes()));
        }
    }
    let mut rq = f.request("bkt");
    if r.chance(1, 3) {
        let (n, v) = *r.pick(&FOREIGN);
        rq.headers.push((n.into(), v.into()));
    }
    rq.chunks = if r.chance(1, 2) { cut(r, &rq.all_body()) } else { rq.chunks };
    let Some((rs, calls)) = send(run, rec, svc, &rq).await else { return };
    // what is stored satisfies the policy, whichever value of a field counts
    if let Some(c) = calls.iter().find(|c| c.done && c.body_err.is_none()) {
        let broken = cs.iter().find(|cond| {
            let (Cond::Eq(n, _) | Cond::Starts(n, _)) = cond else { return false };
            let n = n.to_ascii_lowercase();
            let stored = match n.as_str() {
                "key" | "acl" => Some(&c.input[n.as_str()]),
                "content-type" => Some(&c.input["content_type"]),
                "x-amz-storage-class" => Some(&c.input["storage_class"]),
                _ => n.strip_prefix("x-amz-meta-").map(|m| &c.input["metadata"][m]),
            };
            stored.map_or(false, |v| !cond.holds(&v.as_str().map(|v| (n.clone(), v.to_owned())).into_iter().collect(), "bkt", 0))
        });
        run.count("stored values judged", 1);
        run.check(broken.is_none(), "stored_against_a_condition", || json!({"condition": format!("{broken:?}"), "policy": policy, "fields": f.fields.iter().map(|(n, v)| format!("{n}={}", String::from_utf8_lossy(v))).collect::<Vec<_>>(), "response": rs.brief(), "calls": seen_calls(&calls)}));
    }
    if twice {
        run.eval(&format!("twice/{policy}/{:?}", f.fields), true);
        run.count("forms with a field named twice", 1);
        run.check(!(500..600).contains(&rs.status), "error_of_the_server", || json!({"policy": policy, "response": rs.brief()}));
        return;
    }
    run.eval(&format!("{how}/{policy}/{fields:?}"), true);
    run.seen("kinds of violation", how);
    run.count(if ok { "satisfied policies" } else { "violated policies" }, 1);
    if i < 12 {
        run.sample(json!({"conditions": js, "fields": fields, "length": n, "satisfied": ok}));
    }
    if ok {
        let good = refusable(&rq, &rs, &calls) || rs.ok() && calls.len() == 1 && calls[0].body == file && calls[0].done && calls[0].body_err.is_none() && calls[0].input["key"] == json!(key);
        run.check(good, "refused_although_satisfied", || json!({"policy": policy, "fields": fields, "length": n, "response": rs.brief(), "calls": seen_calls(&calls)}));
    } else {
        let bad = rs.status < 400 || rs.status >= 500 || calls.iter().any(|c| c.done && c.body_err.is_none());
        run.check(!bad, &format!("accepted_although_violated_{}", how.replace(' ', "_")), || json!({"policy": policy, "fields": fields, "length": n, "response": rs.brief(), "calls": seen_calls(&calls)}));
    }
}

async fn expired(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, r: &mut Rng) {
    let ago = *r.pick(&[2i64, 5, 60, 3599, 3600, 7200, 43_200, 86_400, 86_400 * 365, 86_400 * 365 * 30]);
    let t = Utc::now() - Duration::seconds(ago);
    let exp = t.format(r.pick(&["%Y-%m-%dT%H:%M:%S%.3fZ", "%Y-%m-%dT%H:%M:%SZ"])).to_string();
    let (fields, cs) = satisfied(r);
    let js: Vec<Value> = cs.iter().map(|c| c.json(r)).collect();
    let policy = document(&exp, &js);
    let rq = policy_form(&fields, &policy, b"file", r).request("bkt");
    let Some((rs, calls)) = send(run, rec, svc, &rq).await else { return };
    run.eval(&format!("expired/{ago}/{}", js.len()), true);
    run.count("expired policies", 1);
    let bad = rs.status < 400 || rs.status >= 500 || !calls.is_empty();
    run.check(!bad, "accepted_although_expired", || json!({"policy": policy, "ago": ago, "response": rs.brief(), "calls": seen_calls(&calls)}));
}

/// one policy, before and after its expiration
async fn expiring(run: &'static Run, rec: Rec, n: usize) {
    let svc = rec.service(true);
    for _ in 0..n {
        let mut r = Rng::new(7);
        let until = Utc::now() + Duration::milliseconds(1500);
        let policy = document(&until.format("%Y-%m-%dT%H:%M:%S%.3fZ").to_string(), &[]);
        let fields: BTreeMap<String, String> = std::iter::once(("key".to_owned(), "k".to_owned())).collect();
        loop {
            let rq = policy_form(&fields, &policy, b"file", &mut r).request("bkt");
            let before = Utc::now();
            let Some((rs, calls)) = send(run, &rec, &svc, &rq).await else { return };
            let after = Utc::now();
            run.count("uses of an expiring policy", 1);
            if after < until {
                run.check(rs.ok() && calls.len() == 1, "refused_before_expiration", || json!({"policy": policy, "response": rs.brief()}));
            }
            if before > until {
                run.check((400..500).contains(&rs.status) && calls.is_empty(), "accepted_after_expiration", || json!({"policy": policy, "at": before.to_rfc3339(), "response": rs.brief()}));
                if before > until + Duration::milliseconds(300) {
                    break;
                }
            }
            tokio::time::sleep(std::time::Duration::from_millis(50)).await;
        }
    }
}

/// policies which end near the turn of a day, month or year, used by a program whose clock is set
async fn calendar(run: &'static Run) {
    let dir = crate::util::TempDir::new();
    let opts = crate::sut::Opts { keys: Some((AK.to_owned(), SK.to_owned())), ..crate::sut::Opts::default() };
    let Some(mut srv) = crate::sut::Server::start(run, &dir.path, &opts).await else { return };
    if std::fs::create_dir(dir.path.join("bkt")).is_err() {
        return run.problem("cannot prepare a bucket");
    }
    let mut i = 0;
    while run.more() {
        i += 1;
        let mut r = Rng::from(run.seed, "C25 calendar", i);
        let turn = super::authn::turn(&mut r);
        let until = turn + Duration::milliseconds(*r.pick(&[-1000i64, 0, 0, 1000, 3_600_000, 86_399_000, -86_400_000, -7_200_000, 500]));
        let policy = document(&until.format("%Y-%m-%dT%H:%M:%S%.3fZ").to_string(), &[]);
        let key = format!("k{i}");
        let fields: BTreeMap<String, String> = std::iter::once(("key".to_owned(), key.clone())).collect();
        let rq = policy_form(&fields, &policy, b"file", &mut r).request("bkt");
        let mut at = vec![-2i64, -60, -3600, -86_400, -86_400 * 30, -86_400 * 366, 2, 60, 3600, 86_400, 86_400 * 30, 86_400 * 366];
        r.shuffle(&mut at);
        for after in at {
            srv.ctl.clock((until - Utc::now()).num_milliseconds() + after * 1000);
            let Ok(rs) = srv.call(&rq).await else {
                if !matches!(srv.child.try_wait(), Ok(None)) {
                    return run.violation("stopped", json!({"request": rq.brief()}));
                }
                run.problem("no answer");
                continue;
            };
            let kept = std::fs::remove_file(dir.path.join("bkt").join(&key)).is_ok();
            run.count("uses at a time of our choice", 1);
            run.seen("turns of the calendar", &turn.to_rfc3339());
            run.eval(&format!("calendar/{until}/{after}"), true);
            let detail = || json!({"policy": policy, "seconds after its expiration": after, "request": rq.brief(), "response": rs.brief(), "stored": kept});
            if after < 0 {
                run.check(rs.ok() && kept, "refused_before_expiration", detail);
            } else {
                run.check((400..500).contains(&rs.status) && !kept, "accepted_after_expiration", detail);
            }
        }
    }
}

async fn malformed_policy(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, r: &mut Rng) {
    let exp = in_future(r);
    let c = |v: Value| document(&exp, &[json!({"bucket": "bkt"}), v]);
    let (what, policy): (&str, String) = match r.below(17) {
        0 => ("no JSON", "policy".into()),
        1 => ("empty", String::new()),
        2 => ("no expiration", json!({"conditions": [{"bucket": "bkt"}]}).to_string()),
        3 => ("no conditions", json!({"expiration": exp}).to_string()),
        4 => ("unknown operator", c(json!(["ends-with", "$key", "x"]))),
        5 => ("unknown operator", c(json!(["not-eq", "$key", "x"]))),
        6 => ("short condition", c(json!(["eq", "$key"]))),
        7 => ("condition is text", c(json!("eq"))),
        8 => ("range is no number", c(json!(["content-length-range", "a", "b"]))),
        9 => ("negative range", c(json!(["content-length-range", -5, -1]))),
        10 => ("open range", c(json!(["content-length-range", 0]))),
        11 => ("expiration is no date", document("tomorrow", &[json!({"bucket": "bkt"})])),
        12 => ("expiration is a number", json!({"expiration": 4_102_444_800u64, "conditions": [{"bucket": "bkt"}]}).to_string()),
        13 => ("truncated", c(json!({"key": "k"})).trim_end_matches('}').to_owned()),
        14 => ("conditions are no list", json!({"expiration": exp, "conditions": {"bucket": "bkt"}}).to_string()),
        15 => ("a list", json!([exp, []]).to_string() + "x"),
        _ => ("condition is null", c(Value::Null)),
    };
    let fields: BTreeMap<String, String> = std::iter::once(("key".to_owned(), "k".to_owned())).collect();
    let rq = policy_form(&fields, &policy, b"file", r).request("bkt");
    let Some((rs, calls)) = send(run, rec, svc, &rq).await else { return };
    run.eval(&format!("malformed/{what}/{policy}"), true);
    let bad = rs.status < 400 || rs.status >= 500 || !calls.is_empty();
    run.check(!bad, &format!("malformed_policy_{}", what.replace(' ', "_")), || json!({"policy": policy, "base64": b64(policy.as_bytes()), "response": rs.brief(), "calls": seen_calls(&calls)}));
}

/// queries which name an operation
pub const QUERIES: [&str; 22] = [
    "uploads", "uploads=", "delete", "uploadId=0b8f2b4e-0b1c-4b2e-9a55-0d1c2b3a4f5e", "uploadId=", "partNumber=1&uploadId=0b8f2b4e-0b1c-4b2e-9a55-0d1c2b3a4f5e", "select&select-type=2", "restore", "acl", "tagging", "policy", "versions",
    "location", "list-type=2", "versionId=1", "x-id=PutObject", "max-keys=5", "X-Amz-Expires=5", "uploads&delete", "Uploads", "%75ploads", "x=1",
];

/// a form reaches nothing but the object which its policy permits, wherever it is sent
async fn elsewhere(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, r: &mut Rng) {
    let (fields, mut cs) = satisfied(r);
    let mut ok = true;
    if r.chance(1, 3) {
        cs.push(Cond::Eq("bucket".into(), "another".into()));
        ok = false;
    }
    let n = r.below(300);
    let file = match r.below(4) {
        // a document for another operation
        0 => b"<Delete><Object><Key>victim</Key></Object></Delete>".to_vec(),
        1 => b"<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>&quot;d41d8cd98f00b204e9800998ecf8427e&quot;</ETag></Part></CompleteMultipartUpload>".to_vec(),
        _ => r.bytes(n),
    };
    let js: Vec<Value> = cs.iter().map(|c| c.json(r)).collect();
    let policy = document(&in_future(r), &js);
    let f = policy_form(&fields, &policy, &file, r);
    let mut rq = f.request("bkt");
    let path = *r.pick(&["/", "/bkt", "/bkt", "/bkt/", "/bkt/victim", "/bkt/victim", "/bkt/a/b%20c", "/another", "/bkt//"]);
    let query = if r.chance(4, 5) { format!("?{}", r.pick(&QUERIES)) } else { String::new() };
    rq.target = format!("{path}{query}");
    if r.chance(1, 6) {
        rq.method = (*r.pick(&["PUT", "GET", "DELETE", "HEAD"])).to_owned();
    }
    if r.chance(1, 8) {
        rq = rq.h("x-amz-copy-source", "bkt/secret");
    }
    rq.chunks = if r.chance(1, 2) { cut(r, &rq.all_body()) } else { rq.chunks };
    let Some((rs, calls)) = send(run, rec, svc, &rq).await else { return };
    run.eval(&format!("elsewhere/{}/{}/{ok}", rq.method, rq.target), true);
    run.count("forms sent elsewhere", 1);
    run.seen("targets of forms", &format!("{} {path}{query}", rq.method));
    let bucket = path.trim_matches('/');
    let here = rq.method == "POST" && !bucket.is_empty() && !bucket.contains('/');
    let holds = here && cs.iter().all(|c| c.holds(&fields, bucket, file.len() as u64));
    let mut why = Vec::new();
    for c in &calls {
        let complete = c.done && c.body_err.is_none();
        if c.op != "PutObject" {
            why.push(format!("{} was called", c.op));
        } else if c.input["bucket"] != json!(bucket) || c.input["key"] != json!(fields["key"]) {
            why.push(format!("PutObject of {}/{}", c.input["bucket"], c.input["key"]));
        } else if complete && (!holds || c.body != file) {
            why.push("stored although the policy does not permit it, or with other content".to_owned());
        }
    }
    if calls.len() > 1 {
        why.push(format!("{} calls", calls.len()));
    }
    let done = calls.iter().any(|c| c.done && c.body_err.is_none());
    if !done && rs.status < 400 {
        why.push("answered with success, but nothing is stored".to_owned());
    }
    if done && rs.status >= 400 {
        why.push("stored although refused".to_owned());
    }
    run.check(why.is_empty(), "form_elsewhere", || json!({"why": why, "request": rq.brief(), "policy": policy, "permitted": holds, "response": rs.brief(), "calls": seen_calls(&calls)}));
}

/// the permitted lengths, at their ends
async fn lengths(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, r: &mut Rng) {
    let (a, b) = *r.pick(&[(0u64, 0u64), (0, 1), (1, 1), (5, 10), (4096, 8192), (0, 65_536), (65_536, 65_537), (100, 100_000)]);
    let (c, d) = if r.chance(1, 2) { (a.saturating_sub(1), b + 1) } else { (a, b) };
    let n = *r.pick(&[a.saturating_sub(1), a, a + 1, b.saturating_sub(1), b, b + 1, b * 2 + 1, 0]);
    let ok = (a..=b).contains(&n);
    let mut js = vec![Cond::Range(a, b).json(r), Cond::Range(c, d).json(r)];
    r.shuffle(&mut js);
    let policy = document(&in_future(r), &js);
    let file = r.bytes(n as usize);
    let fields: BTreeMap<String, String> = std::iter::once(("key".to_owned(), "k".to_owned())).collect();
    let mut rq = policy_form(&fields, &policy, &file, r).request("bkt");
    rq.chunks = cut(r, &rq.all_body());
    if r.chance(1, 3) {
        rq.headers.retain(|(n, _)| n != "content-length");
    }
    let Some((rs, calls)) = send(run, rec, svc, &rq).await else { return };
    run.eval(&format!("length/{a}/{b}/{c}/{d}/{n}/{}", rq.chunks.len()), true);
    run.count("lengths", 1);
    let complete = calls.iter().any(|c| c.done && c.body_err.is_none());
    let right = if ok { rs.ok() && complete } else { (400..500).contains(&rs.status) && !complete };
    run.check(right, if ok { "permitted_length_refused" } else { "forbidden_length_accepted" }, || json!({"ranges": js, "length": n, "response": rs.brief(), "calls": seen_calls(&calls)}));
}

/// a refused form leaves the store alone
async fn policy_stored(run: &Run, fs: &World, r: &mut Rng, i: u64) {
    let key = format!("user/{i}");
    let n = r.range(20, 60_000);
    let file = r.bytes(n);
    let kind = r.below(5);
    let n = n as u64;
    let cs = match kind {
        0 => vec![Cond::Range(n, n), Cond::Starts("key".into(), "user/".into())],
        1 => vec![Cond::Range(0, n - 1)],
        2 => vec![Cond::Range(n + 1, n + 1)],
        3 => vec![Cond::Starts("key".into(), "other/".into())],
        _ => vec![Cond::Eq("key".into(), "user/".into())],
    };
    let old = r.chance(1, 2).then(|| r.bytes(20));
    let t = world::target("bkt", &key);
    if let Some(o) = &old {
        let put = fs.upload(Rq::new("PUT", t.clone()), o, r).0;
        if !fs.call(&put).await.map_or(false, |x| x.ok()) {
            return run.problem("cannot store");
        }
    }
    let fields: BTreeMap<String, String> = std::iter::once(("key".to_owned(), key.clone())).collect();
    let js: Vec<Value> = cs.iter().map(|c| c.json(r)).collect();
    let policy = document(&in_future(r), &js);
    let mut rq = policy_form(&fields, &policy, &file, r).request("bkt");
    rq.chunks = cut(r, &rq.all_body());
    let Ok(rs) = fs.call(&rq).await else { return run.problem("no answer") };
    let Ok(now) = read(fs, &key, r).await else { return run.problem("cannot read") };
    run.count("forms", 1);
    run.eval(&format!("stored/{kind}/{}/{n}", old.is_some()), true);
    let right = if kind == 0 {
        rs.ok() && now.ok() && now.body == file
    } else {
        (400..500).contains(&rs.status)
            && match &old {
                Some(o) => now.ok() && now.body == *o,
                None => now.status == 404,
            }
    };
    run.check(right, "stored_against_the_policy", || json!({"policy": policy, "length": n, "response": rs.brief(), "GET afterwards": now.brief()}));
    let _ = fs.call(&fs.sign(Rq::new("DELETE", t), r)).await;
}
