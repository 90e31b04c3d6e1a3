//! C14, C15, C17: signatures.
use super::parallel;
use crate::ev::Run;
use crate::http::{self, Fail, Out, Rq, H2};
use crate::record::Rec;
use crate::reqs::{self, Case, SPECS};
use crate::sig::{self, policy_doc, Cred, Form, Pay};
use crate::util::{b64, hex, pct, sha_hex, Rng};
use chrono::{Duration, Utc};
use s3_server::errors::S3ErrorCode;
use s3_server::SharedS3Service;
use serde_json::{json, Map};

const KEYS: [(&str, &str); 8] = [
    ("AKIAMONITOR0EXAMPLE", "monitor/secret+key/0123456789abcdefghijk"),
    ("AKIAOTHER", "another secret"),
    ("akiamonitor0example", "lower"),
    ("k", "K"),
    ("AKIABLANKS", " blanks at both ends "),
    ("AKIASIXTY", "sixty bytes and AWS4 make one whole block of the hash 0123456"),
    ("AKIASEVENTY", "a secret which is longer than one block of the hash of sixty-four bytes: 0123456789"),
    ("AKIALONGER", "a secret which is longer than two blocks of the hash: 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789"),
];

/// a secret which is not the same, but near to it
fn near(sk: &str, r: &mut Rng) -> String {
    let mut b = sk.as_bytes().to_vec();
    let n = b.len();
    match r.below(11) {
        10 => b = sk.trim().as_bytes().to_vec(),
        0 => b.push(b' '),
        1 => b.insert(0, b' '),
        2 => {
            b.pop();
        }
        3 => b = sk.to_uppercase().into_bytes(),
        4 => b.clear(),
        5 => b = b"guess".to_vec(),
        6 => b.push(b'x'),
        7 if n > 40 => b.truncate(40),
        8 if n > 60 => b.truncate(60),
        _ => {
            let i = if r.chance(1, 2) { n - 1 } else { r.below(n) };
            b[i] = if b[i] == b'z' { b'y' } else { b'z' };
        }
    }
    if b == sk.as_bytes() {
        b.push(b'x');
    }
    String::from_utf8(b).unwrap_or_default()
}

fn recorder() -> Rec {
    let rec = Rec::default();
    for (a, s) in KEYS {
        rec.register(a, s);
    }
    rec
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Scheme {
    Hash,
    Unsigned,
    Stream,
    Presigned,
    Form,
}

/// a valid request and how it is signed
struct Signed {
    case: Case,
    scheme: Scheme,
    cred: Cred,
    form: Option<Form>,
    policy: String,
    boundary: String,
}

fn cred(r: &mut Rng) -> Cred {
    let (a, s) = *r.pick(&KEYS);
    let mut c = Cred::new(a, s);
    c.region = (*r.pick(&["us-east-1", "us-east-1", "eu-central-1", "cn-north-1", "local", "us-gov-west-1", "EU", "x", "my_region.with-all~signs"])).to_owned();
    c.date = Utc::now() + Duration::seconds(r.range(0, 600) as i64 - 300);
    c
}

fn form_case(r: &mut Rng, c: &Cred) -> (Case, Form, String) {
    let mut k = reqs::key(r);
    k.retain(|ch| !ch.is_control());
    if k.is_empty() || k.ends_with('/') {
        k = "form-key".into();
    }
    let b = crate::world::bucket_pool(r, 1).remove(0);
    let data = crate::world::content(r, false);
    let mut f = Form::new(&k, &data, r);
    let mut want = Map::new();
    want.insert("bucket".into(), json!(b));
    want.insert("key".into(), json!(k));
    if r.chance(1, 2) {
        let m = crate::world::metadata(r);
        for (n, v) in &m {
            f.fields.push((format!("x-amz-meta-{n}"), v.as_bytes().to_vec()));
        }
        if !m.is_empty() {
            want.insert("metadata".into(), json!(m));
        }
    }
    let policy = policy_doc(&b, Utc::now() + Duration::seconds(3600), &[json!(["starts-with", "$key", ""])]);
    f.sign(c, &policy);
    if r.chance(1, 2) {
        r.shuffle(&mut f.fields);
    }
    let rq = f.request(&b);
    (Case { op: "PutObject", rq, want, data: Some(data) }, f, policy)
}

/// an arbitrary valid request
fn signed(r: &mut Rng, scheme: Option<Scheme>) -> Signed {
    let c = cred(r);
    if scheme == Some(Scheme::Form) || (scheme.is_none() && r.chance(1, 12)) {
        let (case, form, policy) = form_case(r, &c);
        let boundary = form.boundary.clone();
        return Signed { case, scheme: Scheme::Form, cred: c, form: Some(form), policy, boundary };
    }
    let op = r.pick(SPECS).op;
    let op = if r.chance(1, 4) { "PutObject" } else { op };
    let mut case = reqs::case(op, r, true);
    // a header given twice is signed as one
    if r.chance(1, 6) {
        case.rq = case.rq.h("x-twice", "b  c").h("x-twice", "a");
    }
    let body = case.data.is_some();
    let scheme = scheme.filter(|s| *s != Scheme::Stream || body).unwrap_or_else(|| match r.below(if body { 7 } else { 5 }) {
        0 | 1 => Scheme::Hash,
        2 => Scheme::Unsigned,
        3 | 4 => Scheme::Presigned,
        _ => Scheme::Stream,
    });
    // (a header is valid at any date, a URL around now)
    let mut c = c;
    if scheme != Scheme::Presigned && r.chance(1, 4) {
        c.date = chrono::DateTime::from_timestamp((r.u64() % 2_000_000_000) as i64 + 100_000_000, 0).unwrap_or_default();
    }
    let extra: Vec<String> = case.rq.headers.iter().map(|(n, _)| n.clone()).filter(|_| r.chance(1, 2)).filter(|n| !n.eq_ignore_ascii_case("content-length")).collect();
    let extra: Vec<&str> = extra.iter().map(String::as_str).collect();
    match scheme {
        Scheme::Hash => {
            sig::sign_header(&mut case.rq, &c, Pay::Hash, &extra);
        }
        Scheme::Unsigned => {
            sig::sign_header(&mut case.rq, &c, Pay::Unsigned, &extra);
        }
        Scheme::Presigned => {
            let e = *r.pick(&[400u64, 3600, 604_800]);
            sig::presign(&mut case.rq, &c, e, &extra);
        }
        Scheme::Stream => {
            let d = case.data.clone().unwrap_or_default();
            let n = (*r.pick(&[1usize, 100, 8192, 65536])).max(d.len() / 40 + 1);
            let chunks: Vec<Vec<u8>> = d.chunks(n).map(<[u8]>::to_vec).collect();
            sig::sign_stream(&mut case.rq, &c, &chunks);
            let all = case.rq.all_body();
            case.rq.chunks = r.split(&all, 8).into_iter().filter(|p| !p.is_empty()).collect();
        }
        Scheme::Form => {}
    }
    Signed { case, scheme, cred: c, form: None, policy: String::new(), boundary: String::new() }
}

/// the same request, sent in another order
fn reorder(rq: &mut Rq, r: &mut Rng) {
    if r.chance(1, 2) {
        // the order of equal names is kept: it has a meaning
        let twice: Vec<_> = rq.headers.iter().filter(|(n, _)| n == "x-twice").cloned().collect();
        rq.headers.retain(|(n, _)| n != "x-twice");
        r.shuffle(&mut rq.headers);
        rq.headers.extend(twice);
    }
    if r.chance(1, 2) {
        if let Some((p, q)) = rq.target.clone().split_once('?') {
            let mut ps: Vec<&str> = q.split('&').collect();
            r.shuffle(&mut ps);
            rq.target = format!("{p}?{}", ps.join("&"));
        }
    }
}

/// how a request gets to the service
#[derive(Clone, Copy, Debug)]
enum Way {
    Inside,
    Http1(std::net::SocketAddr),
    Http2(std::net::SocketAddr),
}
impl Way {
    fn some(r: &mut Rng, addr: std::net::SocketAddr, one_in: usize) -> Self {
        match r.below(one_in * 2) {
            0 => Self::Http1(addr),
            1 => Self::Http2(addr),
            _ => Self::Inside,
        }
    }
}

async fn send(run: &Run, svc: &SharedS3Service, way: Way, rq: &Rq) -> Option<Result<crate::http::Rs, Fail>> {
    run.count("requests", 1);
    let out: Out = match way {
        Way::Http2(a) if H2::can(rq) => {
            run.count("requests over HTTP/2", 1);
            http::h2(a, rq).await
        }
        Way::Http1(a) | Way::Http2(a) => {
            run.count("requests over HTTP/1.1", 1);
            http::tcp(a, rq).await
        }
        Way::Inside => http::call(svc, rq).await,
    };
    match out {
        Err(Fail::Hang) => {
            run.problem(format!("no answer to {} {}", rq.method, rq.target));
            None
        }
        Err(Fail::Unbuildable(e)) => {
            run.problem(format!("{} {}: {e}", rq.method, rq.target));
            None
        }
        o => Some(o),
    }
}

/// C15
/// the key map of the crate, filled with similar keys and secrets, some of them replaced later on:
/// a signature counts if it was made with what was registered last for exactly this access key
async fn registry(run: &Run, r: &mut Rng, judge_good: bool) {
    let mut word = |n: usize| -> String { (0..n).map(|_| *r.pick(&['A', 'K', 'I', 'a', 'k', 'z', '0', '7', '-', '_', '.'])).collect() };
    let (ak, sk) = (word(12), word(30));
    let aks = [ak.clone(), ak.to_lowercase(), ak.to_uppercase(), ak[..11].to_owned(), format!("{ak}A"), format!("A{ak}"), ak.chars().rev().collect(), word(12), word(1)];
    let sks = [sk.clone(), sk.to_lowercase(), sk.to_uppercase(), sk[..29].to_owned(), format!("{sk}x"), format!("{sk} "), word(30), word(70), word(1)];
    let mut auth = s3_server::SimpleAuth::new();
    let mut map: std::collections::BTreeMap<String, String> = std::collections::BTreeMap::new();
    let mut former: Vec<(String, String)> = Vec::new();
    for _ in 0..r.range(0, 12) {
        let (a, s) = (r.pick(&aks).clone(), r.pick(&sks).clone());
        auth.register(a.clone(), s.clone());
        if let Some(old) = map.insert(a.clone(), s) {
            former.push((a, old));
        }
    }
    let near = [format!(" {ak}"), format!("{ak} "), format!("{ak}\t"), format!("{ak}/"), format!("{ak}%20"), format!("{ak}\0"), String::new()];
    for a in aks.iter().chain(&near) {
        run.check(auth.lookup(a) == map.get(a).map(String::as_str), "registry_lookup", || json!({"access key": a, "registered": map, "answer": auth.lookup(a)}));
    }
    let rec = Rec::default();
    let mut svc = s3_server::S3Service::new(rec.clone());
    if r.chance(1, 4) {
        // a provider which is replaced before it is used
        let mut all = s3_server::SimpleAuth::new();
        for a in &aks {
            all.register(a.clone(), sk.clone());
        }
        svc.set_auth(all);
    }
    svc.set_auth(auth);
    let svc = svc.into_shared();
    for _ in 0..8 {
        let current: Vec<(String, String)> = map.clone().into_iter().collect();
        let (a, s) = match r.below(4) {
            0 | 1 if !current.is_empty() => r.pick(&current).clone(),
            2 if !former.is_empty() => r.pick(&former).clone(),
            _ => (r.pick(&aks).clone(), r.pick(&sks).clone()),
        };
        let good = map.get(&a) == Some(&s);
        let mut c = Cred::new(&a, &s);
        c.date = Utc::now();
        let (rq, op, scheme) = if r.chance(1, 6) {
            let (case, ..) = form_case(r, &c);
            (case.rq, case.op, Scheme::Form)
        } else {
            let mut b = signed(r, None);
            if b.scheme == Scheme::Form {
                b = signed(r, Some(Scheme::Presigned));
            }
            (resign(&b, &c), b.case.op, b.scheme)
        };
        let Some(out) = send(run, &svc, Way::Inside, &rq).await else { continue };
        let calls = rec.take();
        run.count(if good { "requests signed with a registered secret" } else { "requests signed with another secret" }, 1);
        run.eval(&format!("registry/{op}/{scheme:?}/{good}/{}", map.len()), true);
        let detail = || json!({"access key": a, "secret": s, "registered": map, "scheme": format!("{scheme:?}"), "request": rq.brief(), "response": format!("{out:?}"), "calls": calls.iter().map(|c| c.op).collect::<Vec<_>>()});
        if good {
            run.check(!judge_good || (matches!(&out, Ok(rs) if rs.ok()) && calls.len() == 1), "registered_secret_refused", detail);
        } else {
            run.check(judge_good || (matches!(&out, Ok(rs) if (400..500).contains(&rs.status)) && calls.is_empty()), "other_secret_accepted", detail);
        }
    }
}

pub async fn accepted(run: &'static Run) -> i32 {
    parallel(run, 8, |w| async move {
        let rec = recorder();
        let svc = rec.service(true);
        let addr = http::serve(svc.clone());
        let mut i = 0;
        while run.more() {
            i += 1;
            let mut r = Rng::from(run.seed, "C15", (i << 8) | w);
            if i % 50 == 10 {
                registry(run, &mut r, true).await;
            }
            let mut s = signed(&mut r, None);
            reorder(&mut s.case.rq, &mut r);
            let over_tcp = Way::some(&mut r, addr, 6);
            let Some(out) = send(run, &svc, over_tcp, &s.case.rq).await else { continue };
            let lookups = rec.lookups();
            let calls = rec.take();
            let what = format!("{:?}/{}", s.scheme, s.case.op);
            run.seen("scheme and operation", &what);
            run.count(&format!("accepted {:?}", s.scheme), 1);
            run.eval(&format!("{what}/{:x}", crate::util::fnv(s.case.rq.target.as_bytes())), true);
            if i < 2 {
                run.sample(json!({"scheme": what, "request": s.case.rq.brief(), "calls": calls.len()}));
            }
            let detail = |why: String| json!({"why": why, "scheme": what, "case": i, "worker": w, "request": s.case.rq.brief(), "response": format!("{:?}", out.as_ref().map(crate::http::Rs::brief)), "calls": calls.iter().map(|c| c.op).collect::<Vec<_>>(), "way": format!("{over_tcp:?}")});
            match &out {
                Ok(rs) if rs.ok() => {
                    let verdict = if calls.len() == 1 { reqs::agrees(&s.case, &calls[0]) } else { Err(format!("{} storage calls", calls.len())) };
                    if let Err(e) = verdict {
                        run.violation("wrong_call", detail(e));
                    }
                    run.check(lookups.iter().all(|k| *k == s.cred.ak) && !lookups.is_empty(), "lookup", || detail(format!("the provider was asked for {lookups:?}")));
                }
                _ => run.violation(&format!("refused_{:?}", s.scheme), detail("a correctly signed request was refused".into())),
            }
        }
    })
    .await;
    run.finish(&["the independent signer of the harness implements AWS Signature Version 4", "one region is as good as another: the server has none"])
}

fn set_body(rq: &mut Rq, b: Vec<u8>) {
    rq.set("content-length", b.len().to_string());
    rq.chunks = if b.is_empty() { vec![] } else { vec![b] };
}

fn auth_part(rq: &mut Rq, f: impl FnOnce(&str) -> String) -> bool {
    let Some(a) = rq.get("authorization") else { return false };
    let n = f(&a);
    if n == a {
        return false;
    }
    rq.set("authorization", n);
    true
}

/// replace the value of a query parameter
fn query_part(rq: &mut Rq, name: &str, f: impl FnOnce(&str) -> String) -> bool {
    let Some((p, q)) = rq.target.split_once('?') else { return false };
    let mut f = Some(f);
    let mut hit = false;
    let q: Vec<String> = q
        .split('&')
        .map(|kv| match kv.split_once('=') {
            Some((k, v)) if k == name && f.is_some() => {
                let n = f.take().expect("once")(v);
                hit = n != v;
                format!("{k}={n}")
            }
            _ => kv.to_owned(),
        })
        .collect();
    rq.target = format!("{p}?{}", q.join("&"));
    hit
}

fn flip_hex(s: &str, r: &mut Rng) -> String {
    let mut b: Vec<char> = s.chars().collect();
    if b.is_empty() {
        return "0".into();
    }
    let i = r.below(b.len());
    b[i] = if b[i] == 'a' { 'b' } else { 'a' };
    b.into_iter().collect()
}

fn change(s: &str, r: &mut Rng) -> String {
    match r.below(3) {
        0 => format!("{s}x"),
        1 => format!("y{s}"),
        _ => {
            // one letter becomes another one
            let mut out = String::new();
            let mut done = false;
            for c in s.chars() {
                if !done && c.is_ascii_alphanumeric() {
                    out.push(if c == 'q' { 'r' } else { 'q' });
                    done = true;
                } else {
                    out.push(c);
                }
            }
            if done { out } else { format!("{s}z") }
        }
    }
}

const MUTATIONS: &[&str] = &[
    "method", "path end", "path letter", "path slash", "bucket", "query added", "sub-resource added", "query removed", "query value", "query name", "query duplicated", "query values swapped",
    "signed header value", "signed header removed", "signed header added to", "x-amz header added", "metadata added", "copy source added", "body changed", "body shortened", "body extended",
    "payload hash", "payload unsigned", "date", "signature letter", "signature cut", "signature extended", "signature zero", "signature empty", "region", "scope date", "service", "terminator",
    "other access key", "unknown access key", "access key case", "signed headers extended", "signed headers cut", "no signature", "no credentials", "signature version 2", "other secret", "secret of another key", "expires",
    "scheme downgrade",
];

/// what changes one thing of a signed request; `None` if it has no such thing
fn mutate(name: &str, s: &Signed, rq: &Rq, r: &mut Rng) -> Option<Rq> {
    let mut m = rq.clone();
    let pre = s.scheme == Scheme::Presigned;
    let (path, q) = m.target.split_once('?').map(|(p, q)| (p.to_owned(), Some(q.to_owned()))).unwrap_or((m.target.clone(), None));
    let join = |p: &str, q: Option<&str>| q.map_or(p.to_owned(), |q| format!("{p}?{q}"));
    let signed_names: Vec<String> = {
        let list = if pre {
            sig::query_of(&m.target).into_iter().find(|(k, _)| k == b"X-Amz-SignedHeaders").map(|(_, v)| String::from_utf8_lossy(&v).into_owned())
        } else {
            m.get("authorization").and_then(|a| Some(a.split("SignedHeaders=").nth(1)?.split(',').next()?.to_owned()))
        };
        list.unwrap_or_default().split(';').map(ToOwned::to_owned).filter(|n| m.get(n).is_some()).collect()
    };
    let plain: Vec<(String, String)> = q
        .as_deref()
        .unwrap_or("")
        .split('&')
        .filter_map(|kv| kv.split_once('=').map(|(a, b)| (a.to_owned(), b.to_owned())))
        .filter(|(k, _)| !k.starts_with("X-Amz-"))
        .collect();
    let component = if pre { "X-Amz-Signature" } else { "Signature=" };
    let edit_sig = |m: &mut Rq, f: &mut dyn FnMut(&str) -> String| -> bool {
        if pre {
            query_part(m, component, |v| f(v))
        } else {
            auth_part(m, |a| match a.split_once("Signature=") {
                Some((x, y)) => format!("{x}Signature={}", f(y)),
                None => a.to_owned(),
            })
        }
    };
    let edit_cred = |m: &mut Rq, i: usize, f: &mut dyn FnMut(&str) -> String| -> bool {
        let mut g = |c: &str, sep: &str| -> String {
            let mut ps: Vec<String> = c.split(sep).map(ToOwned::to_owned).collect();
            if let Some(p) = ps.get_mut(i) {
                *p = f(p);
            }
            ps.join(sep)
        };
        if pre {
            query_part(m, "X-Amz-Credential", |v| g(v, "%2F"))
        } else {
            auth_part(m, |a| match a.split_once("Credential=").and_then(|(x, y)| Some((x, y.split_once(',')?))) {
                Some((x, (c, z))) => format!("{x}Credential={},{z}", g(c, "/")),
                None => a.to_owned(),
            })
        }
    };
    let ok = match name {
        "method" => {
            let n = *r.pick(&["GET", "PUT", "POST", "DELETE", "HEAD", "PATCH"]);
            let changed = n != m.method;
            m.method = n.into();
            changed
        }
        "path end" => {
            m.target = join(&format!("{path}x"), q.as_deref());
            path != "/"
        }
        "path slash" => {
            m.target = join(&format!("{path}/"), q.as_deref());
            path != "/"
        }
        "path letter" => {
            let mut b = path.clone().into_bytes();
            let at: Vec<usize> = (1..b.len()).filter(|&i| b[i].is_ascii_lowercase() && !(b[i - 1] == b'%' || (i > 1 && b[i - 2] == b'%'))).collect();
            if at.is_empty() {
                return None;
            }
            let i = *r.pick(&at);
            b[i] = if b[i] == b'm' { b'n' } else { b'm' };
            m.target = join(&String::from_utf8_lossy(&b), q.as_deref());
            true
        }
        "bucket" => {
            let mut ps: Vec<&str> = path.split('/').collect();
            if ps.len() < 2 || ps[1].is_empty() {
                return None;
            }
            ps[1] = if ps[1] == "other-bucket" { "third-bucket" } else { "other-bucket" };
            m.target = join(&ps.join("/"), q.as_deref());
            true
        }
        "query added" => {
            let x = *r.pick(&[
                "prefix=p", "foo=bar", "max-keys=1", "versionId=3", "a", "~=1", "response-content-type=text%2Fhtml", "response-cache-control=no-cache", "response-content-disposition=attachment",
                "response-content-encoding=gzip", "response-content-language=en", "response-expires=0", "partNumber=2", "start-after=a", "continuation-token=x", "marker=m", "delimiter=%2F", "encoding-type=url",
                "x-id=GetObject", "fetch-owner=true", "=v", "=", "X-Amz-Foo=1", "x-amz-acl=public-read", "x-amz-security-token=t", "%61=b", "0=0", "zzz=", "Signature=x", "AWSAccessKeyId=k", "torrent", "select&select-type=2",
            ]);
            m.target = if let Some(q) = q { if r.chance(1, 2) { format!("{path}?{x}&{q}") } else { format!("{path}?{q}&{x}") } } else { format!("{path}?{x}") };
            true
        }
        "sub-resource added" => {
            let x = *r.pick(&["uploads", "delete", "location", "acl", "list-type=2", "uploadId=x", "partNumber=1&uploadId=x", "versioning"]);
            m.target = if let Some(q) = q { format!("{path}?{x}&{q}") } else { format!("{path}?{x}") };
            true
        }
        "query removed" => {
            if plain.is_empty() {
                return None;
            }
            let (k, v) = r.pick(&plain).clone();
            let gone = format!("{k}={v}");
            let rest: Vec<String> = q.as_deref().unwrap_or("").split('&').filter(|kv| *kv != gone).map(ToOwned::to_owned).collect();
            m.target = if rest.is_empty() { path.clone() } else { format!("{path}?{}", rest.join("&")) };
            true
        }
        "query value" => {
            if plain.is_empty() {
                return None;
            }
            let (k, _) = r.pick(&plain).clone();
            query_part(&mut m, &k, |v| format!("{v}9"))
        }
        "query name" => {
            if plain.is_empty() {
                return None;
            }
            let (k, v) = r.pick(&plain).clone();
            m.target = m.target.replacen(&format!("{k}={v}"), &format!("{k}x={v}"), 1);
            true
        }
        "query duplicated" => {
            if plain.is_empty() {
                return None;
            }
            let (k, _) = r.pick(&plain).clone();
            m.target = format!("{path}?{k}=other&{}", q.as_deref().unwrap_or(""));
            true
        }
        "query values swapped" => {
            if plain.len() < 2 || plain[0].1 == plain[1].1 {
                return None;
            }
            let (a, b) = (plain[0].clone(), plain[1].clone());
            query_part(&mut m, &a.0, |_| b.1.clone()) && query_part(&mut m, &b.0, |_| a.1.clone())
        }
        "signed header value" => {
            if signed_names.is_empty() {
                return None;
            }
            let n = r.pick(&signed_names).clone();
            let (_, v) = m.headers.iter_mut().filter(|(h, _)| h.eq_ignore_ascii_case(&n)).last()?;
            *v = change(&String::from_utf8_lossy(v), r).into_bytes();
            true
        }
        "signed header removed" => {
            if signed_names.is_empty() {
                return None;
            }
            let n = r.pick(&signed_names).clone();
            m.headers.retain(|(h, _)| !h.eq_ignore_ascii_case(&n));
            true
        }
        "signed header added to" => {
            if signed_names.is_empty() {
                return None;
            }
            let n = r.pick(&signed_names).clone();
            if r.chance(1, 2) {
                m.headers.push((n, b"more".to_vec()));
            } else {
                m.headers.insert(0, (n, b"more".to_vec()));
            }
            true
        }
        "x-amz header added" => {
            let n = *r.pick(&["x-amz-acl", "x-amz-tagging", "x-amz-grant-full-control", "X-Amz-Storage-Class", "x-amz-request-payer", "x-amz-security-token", "x-amz-bypass-governance-retention", "x-amz-expected-bucket-owner"]);
            m = m.h(n, if n.ends_with("retention") { "true" } else { "evil" });
            true
        }
        "metadata added" => {
            m = m.h(*r.pick(&["x-amz-meta-evil", "X-Amz-Meta-A", "x-amz-meta-z"]), "evil");
            true
        }
        "copy source added" => {
            m = m.h("x-amz-copy-source", "/secret-bucket/secret");
            true
        }
        "body changed" | "body shortened" | "body extended" => {
            if s.scheme != Scheme::Hash {
                return None;
            }
            let mut b = m.all_body();
            match name {
                "body changed" => {
                    if b.is_empty() {
                        return None;
                    }
                    let i = r.below(b.len());
                    b[i] ^= 1 << r.below(8);
                }
                "body shortened" => {
                    if b.is_empty() {
                        return None;
                    }
                    b.truncate(r.below(b.len()));
                }
                _ => {
                    let n = r.range(1, 5);
                    b.extend_from_slice(&r.bytes(n));
                }
            }
            set_body(&mut m, b);
            true
        }
        "payload hash" => {
            if pre || s.scheme == Scheme::Form {
                return None;
            }
            m.set("x-amz-content-sha256", sha_hex(&r.bytes(4)));
            true
        }
        "payload unsigned" => {
            if pre || s.scheme == Scheme::Unsigned || s.scheme == Scheme::Form {
                return None;
            }
            m.set("x-amz-content-sha256", "UNSIGNED-PAYLOAD");
            true
        }
        "date" => {
            let mut c = s.cred.clone();
            c.date = c.date + Duration::seconds(*r.pick(&[1i64, -1, 60, 86400, -86400]));
            if pre {
                query_part(&mut m, "X-Amz-Date", |_| c.stamp())
            } else {
                m.set("x-amz-date", c.stamp());
                true
            }
        }
        "signature letter" => edit_sig(&mut m, &mut |v| flip_hex(v, r)),
        "signature cut" => edit_sig(&mut m, &mut |v| v[..r.below(v.len())].to_owned()),
        "signature extended" => edit_sig(&mut m, &mut |v| format!("{v}0")),
        "signature zero" => edit_sig(&mut m, &mut |_| "0".repeat(64)),
        "signature empty" => edit_sig(&mut m, &mut |_| String::new()),
        "other access key" => edit_cred(&mut m, 0, &mut |v| KEYS.iter().map(|k| k.0).find(|k| *k != v).unwrap_or("k").to_owned()),
        "unknown access key" => edit_cred(&mut m, 0, &mut |v| if r.chance(1, 2) { "AKIANOBODY".into() } else { format!("{v}x") }),
        "access key case" => edit_cred(&mut m, 0, &mut |v| if v == v.to_lowercase() { v.to_uppercase() } else { v.to_lowercase() }),
        "scope date" => edit_cred(&mut m, 1, &mut |v| if v == "20200102" { "20200103".into() } else { "20200102".into() }),
        "region" => edit_cred(&mut m, 2, &mut |v| if v == "us-west-1" { "x".into() } else { "us-west-1".into() }),
        "service" => edit_cred(&mut m, 3, &mut |_| (*r.pick(&["ec2", "S3", "s3s", "iam"])).to_owned()),
        "terminator" => edit_cred(&mut m, 4, &mut |_| "aws5_request".into()),
        "signed headers extended" => {
            if pre {
                query_part(&mut m, "X-Amz-SignedHeaders", |v| format!("{v}%3Bx-not-there"))
            } else {
                // (a name of no header changes no header)
                return None;
            }
        }
        "signed headers cut" => {
            if signed_names.len() < 2 {
                return None;
            }
            let gone = r.pick(&signed_names).clone();
            let rest: Vec<&str> = signed_names.iter().map(String::as_str).filter(|n| *n != gone).collect();
            if pre {
                query_part(&mut m, "X-Amz-SignedHeaders", |_| pct(rest.join(";").as_bytes()))
            } else {
                auth_part(&mut m, |a| a.replacen(&format!("SignedHeaders={}", signed_names.join(";")), &format!("SignedHeaders={}", rest.join(";")), 1))
            }
        }
        "no signature" => {
            if pre {
                let rest: Vec<&str> = q.as_deref().unwrap_or("").split('&').filter(|kv| !kv.starts_with("X-Amz-Signature=")).collect();
                m.target = format!("{path}?{}", rest.join("&"));
            } else {
                m.headers.retain(|(n, _)| n != "authorization");
            }
            true
        }
        "no credentials" => {
            m.headers.retain(|(n, _)| !n.starts_with("x-amz-") && n != "authorization");
            let rest: Vec<&str> = q.as_deref().unwrap_or("").split('&').filter(|kv| !kv.starts_with("X-Amz-") && !kv.is_empty()).collect();
            m.target = if rest.is_empty() { path.clone() } else { format!("{path}?{}", rest.join("&")) };
            true
        }
        "signature version 2" => {
            if pre {
                return None;
            }
            m.set("authorization", *r.pick(&["AWS AKIAMONITOR0EXAMPLE:frJIUN8DYpKDtOLCwo//yllqDzg=", "", "Basic YTpi", "AWS4-HMAC-SHA256", "Bearer x", "AWS4-HMAC-SHA256 Credential=,SignedHeaders=,Signature="]));
            true
        }
        "expires" => pre && query_part(&mut m, "X-Amz-Expires", |v| if v == "604800" { "604799".into() } else { "604800".into() }),
        "other secret" | "secret of another key" => {
            let mut c = s.cred.clone();
            c.sk = if name == "other secret" {
                near(&c.sk, r)
            } else {
                KEYS.iter().find(|k| k.0 != c.ak).map(|k| k.1.to_owned())?
            };
            return Some(resign(s, &c));
        }
        "scheme downgrade" => {
            // the signature of one scheme is presented in another one
            if pre {
                let sigv = sig::query_of(&m.target).into_iter().find(|(k, _)| k == b"X-Amz-Signature")?.1;
                let rest: Vec<&str> = q.as_deref().unwrap_or("").split('&').filter(|kv| !kv.starts_with("X-Amz-") && !kv.is_empty()).collect();
                m.target = if rest.is_empty() { path.clone() } else { format!("{path}?{}", rest.join("&")) };
                m.set("x-amz-date", s.cred.stamp());
                m.set("x-amz-content-sha256", "UNSIGNED-PAYLOAD");
                m.set(
                    "authorization",
                    format!("AWS4-HMAC-SHA256 Credential={}/{}, SignedHeaders=host;x-amz-content-sha256;x-amz-date, Signature={}", s.cred.ak, s.cred.scope(), String::from_utf8_lossy(&sigv)),
                );
            } else {
                let a = m.get("authorization")?;
                let sigv = a.split("Signature=").nth(1)?.to_owned();
                m.headers.retain(|(n, _)| !n.starts_with("x-amz-") && n != "authorization");
                let sep = if m.target.contains('?') { '&' } else { '?' };
                m.target.push_str(&format!(
                    "{sep}X-Amz-Algorithm=AWS4-HMAC-SHA256&X-Amz-Credential={}&X-Amz-Date={}&X-Amz-Expires=3600&X-Amz-SignedHeaders=host&X-Amz-Signature={sigv}",
                    pct(format!("{}/{}", s.cred.ak, s.cred.scope()).as_bytes()),
                    s.cred.stamp()
                ));
            }
            true
        }
        _ => false,
    };
    if ok && m.target == rq.target && m.headers == rq.headers && m.method == rq.method && m.all_body() == rq.all_body() {
        return None;
    }
    ok.then_some(m)
}

/// sign the request of `s` with other credentials
fn resign(s: &Signed, c: &Cred) -> Rq {
    let mut m = s.case.rq.clone();
    match s.scheme {
        Scheme::Presigned => {
            let (p, q) = m.target.split_once('?').map(|(p, q)| (p.to_owned(), q.to_owned())).unwrap_or_default();
            let rest: Vec<&str> = q.split('&').filter(|kv| !kv.starts_with("X-Amz-")).collect();
            m.target = if rest.is_empty() { p } else { format!("{p}?{}", rest.join("&")) };
            sig::presign(&mut m, c, 3600, &[]);
        }
        Scheme::Hash => {
            sig::sign_header(&mut m, c, Pay::Hash, &[]);
        }
        Scheme::Unsigned => {
            sig::sign_header(&mut m, c, Pay::Unsigned, &[]);
        }
        Scheme::Stream => {
            let d = s.case.data.clone().unwrap_or_default();
            sig::sign_stream(&mut m, c, &if d.is_empty() { vec![] } else { vec![d] });
        }
        Scheme::Form => {}
    }
    m
}

const FORM_MUTATIONS: &[&str] = &[
    "policy bucket", "policy expiration", "policy text", "signature letter", "signature cut", "signature empty", "region", "scope date", "service", "date", "other access key", "unknown access key", "other secret",
    "secret of another key", "no policy", "no signature", "no credential", "no date", "no fields", "algorithm", "x-amz header added", "metadata header added", "signature of the policy text", "sent to an object", "sent to another operation", "other method",
];

fn mutate_form(name: &str, s: &Signed, r: &mut Rng) -> Option<Rq> {
    let mut f = s.form.clone()?;
    let bucket = s.case.want["bucket"].as_str()?.to_owned();
    let c = &s.cred;
    let get = |f: &Form, n: &str| f.fields.iter().find(|(k, _)| k == n).map(|(_, v)| String::from_utf8_lossy(v).into_owned());
    fn set(f: &mut Form, n: &str, v: String) {
        for (k, x) in &mut f.fields {
            if k == n {
                *x = v.clone().into_bytes();
            }
        }
    }
    let mut headers: Vec<(&str, &str)> = vec![];
    let scope = |ak: &str, day: &str, region: &str, service: &str| format!("{ak}/{day}/{region}/{service}/aws4_request");
    let mut bucket_to = bucket.clone();
    match name {
        "policy bucket" => {
            bucket_to = "other-bucket".into();
            set(&mut f, "policy", b64(policy_doc(&bucket_to, Utc::now() + Duration::seconds(3600), &[json!(["starts-with", "$key", ""])]).as_bytes()));
        }
        "policy expiration" => set(&mut f, "policy", b64(policy_doc(&bucket, Utc::now() + Duration::seconds(360_000), &[json!(["starts-with", "$key", ""])]).as_bytes())),
        "policy text" => set(&mut f, "policy", b64(format!("{} ", s.policy).as_bytes())),
        "signature letter" => {
            let v = flip_hex(&get(&f, "x-amz-signature")?, r);
            set(&mut f, "x-amz-signature", v);
        }
        "signature cut" => {
            let v = get(&f, "x-amz-signature")?;
            set(&mut f, "x-amz-signature", v[..r.below(v.len())].to_owned());
        }
        "signature empty" => set(&mut f, "x-amz-signature", String::new()),
        "region" => set(&mut f, "x-amz-credential", scope(&c.ak, &c.day(), "us-west-1", "s3")),
        "scope date" => set(&mut f, "x-amz-credential", scope(&c.ak, "20200102", &c.region, "s3")),
        "service" => set(&mut f, "x-amz-credential", scope(&c.ak, &c.day(), &c.region, "ec2")),
        "date" => {
            // the day enters the signing key; the time of day does not
            let mut d = c.clone();
            d.date = d.date + Duration::seconds(*r.pick(&[86400i64, -86400, 864_000]));
            set(&mut f, "x-amz-date", d.stamp());
        }
        "other access key" => set(&mut f, "x-amz-credential", scope(KEYS.iter().map(|k| k.0).find(|k| *k != c.ak)?, &c.day(), &c.region, "s3")),
        "unknown access key" => set(&mut f, "x-amz-credential", scope("AKIANOBODY", &c.day(), &c.region, "s3")),
        "other secret" | "secret of another key" => {
            let mut d = c.clone();
            d.sk = if name == "other secret" { near(&d.sk, r) } else { KEYS.iter().find(|k| k.0 != c.ak)?.1.to_owned() };
            let v = d.sign(&b64(s.policy.as_bytes()));
            set(&mut f, "x-amz-signature", v);
        }
        "signature of the policy text" => {
            let v = c.sign(&s.policy);
            set(&mut f, "x-amz-signature", v);
        }
        "no policy" => f.fields.retain(|(n, _)| n != "policy"),
        "no signature" => f.fields.retain(|(n, _)| n != "x-amz-signature"),
        "no credential" => f.fields.retain(|(n, _)| n != "x-amz-credential"),
        "no date" => f.fields.retain(|(n, _)| n != "x-amz-date"),
        "no fields" => f.fields.retain(|(n, _)| n == "key"),
        "algorithm" => set(&mut f, "x-amz-algorithm", "AWS4-HMAC-SHA1".into()),
        "x-amz header added" => headers.push((*r.pick(&["x-amz-acl", "x-amz-tagging", "x-amz-storage-class"]), "evil")),
        "metadata header added" => headers.push(("x-amz-meta-evil", "evil")),
        "sent to an object" | "sent to another operation" | "other method" => {}
        _ => return None,
    }
    let mut rq = f.request(&bucket_to);
    for (n, v) in headers {
        rq = rq.h(n, v);
    }
    let queries = ["uploads", "uploadId=0b8f2b4e-0b1c-4b2e-9a55-0d1c2b3a4f5e", "partNumber=1&uploadId=0b8f2b4e-0b1c-4b2e-9a55-0d1c2b3a4f5e", "delete", "list-type=2", "location", "x=1"];
    match name {
        // the policy is about an upload, and permits nothing else
        "sent to an object" => {
            let q = if r.chance(3, 4) { format!("?{}", r.pick(&queries)) } else { String::new() };
            rq.target = format!("{}/victim{q}", rq.target);
        }
        "sent to another operation" => rq.target = format!("/?{}", r.pick(&queries)),
        "other method" => {
            rq.method = (*r.pick(&["PUT", "GET", "DELETE", "HEAD"])).to_owned();
            if r.chance(1, 2) {
                rq.target = format!("{}/victim", rq.target);
            }
        }
        _ => {}
    }
    Some(rq)
}

/// whether an altered request happens to be signed correctly: as AWS Signature Version 4
/// has it, and after undoing what is no alteration (an escape written in another way)
fn signed_after_all(m: &Rq) -> bool {
    let q = sig::query_of(&m.target);
    let param = |n: &str| q.iter().find(|(k, _)| k == n.as_bytes()).map(|(_, v)| String::from_utf8_lossy(v).into_owned());
    let (credential, names, signature, stamp, payload, pre) = if let Some(s) = param("X-Amz-Signature") {
        let (Some(c), Some(h), Some(d)) = (param("X-Amz-Credential"), param("X-Amz-SignedHeaders"), param("X-Amz-Date")) else { return false };
        (c, h, s, d, "UNSIGNED-PAYLOAD".to_owned(), true)
    } else {
        let Some(a) = m.get("authorization") else { return false };
        let part = |n: &str| a.split(n).nth(1).map(|x| x.split(',').next().unwrap_or("").trim().to_owned());
        let (Some(c), Some(h), Some(s), Some(d), Some(p)) = (part("Credential="), part("SignedHeaders="), part("Signature="), m.get("x-amz-date"), m.get("x-amz-content-sha256")) else { return false };
        if p != "UNSIGNED-PAYLOAD" && !p.starts_with("STREAMING-") && p != sha_hex(&m.all_body()) {
            return false;
        }
        (c, h, s, d, p, false)
    };
    let ps: Vec<&str> = credential.split('/').collect();
    let [ak, day, region, service, "aws4_request"] = ps[..] else { return false };
    let Some((_, sk)) = KEYS.iter().find(|k| k.0 == ak) else { return false };
    let Ok(date) = chrono::NaiveDateTime::parse_from_str(&stamp, "%Y%m%dT%H%M%SZ") else { return false };
    let mut c = Cred::new(ak, sk);
    c.region = region.into();
    c.service = service.into();
    c.date = date.and_utc();
    let names: Vec<String> = names.split(';').map(ToOwned::to_owned).collect();
    let covered = m.headers.iter().all(|(n, _)| {
        let n = n.to_ascii_lowercase();
        (!n.starts_with("x-amz-") && n != "host") || n == "x-amz-content-sha256" || names.contains(&n)
    });
    let canon = sig::canonical(&m.method, &m.target, &m.headers, &names, &payload, pre);
    service == "s3" && c.day() == day && covered && c.sign(&c.string_to_sign(&canon)) == signature
}

/// C14
pub async fn refused(run: &'static Run) -> i32 {
    parallel(run, 8, |w| async move {
        let rec = recorder();
        let svc = rec.service(true);
        let addr = http::serve(svc.clone());
        let mut i = 0;
        while run.more() {
            i += 1;
            let mut r = Rng::from(run.seed, "C14", (i << 8) | w);
            if i % 30 == 10 {
                registry(run, &mut r, false).await;
            }
            let form = r.chance(1, 6);
            let mut s = signed(&mut r, form.then_some(Scheme::Form));
            if s.scheme != Scheme::Form {
                reorder(&mut s.case.rq, &mut r);
            }
            // the request itself is accepted: what is refused below is refused for what was changed
            let Some(out) = send(run, &svc, Way::Inside, &s.case.rq).await else { continue };
            let lookups = rec.lookups();
            let base = rec.take();
            let good = out.as_ref().map_or(false, crate::http::Rs::ok) && base.len() == 1;
            if !good {
                run.count("base requests refused (see C15)", 1);
                continue;
            }
            run.check(!lookups.is_empty() && lookups.iter().all(|l| *l == s.cred.ak), "lookup", || json!({"asked for": lookups, "claimed": s.cred.ak, "request": s.case.rq.brief()}));
            run.eval(&format!("accepted/{:?}/{}", s.scheme, s.case.op), true);
            if s.scheme != Scheme::Form && !signed_after_all(&s.case.rq) {
                run.problem(format!("the verifier of the harness disagrees about {}", s.case.rq.brief()));
            }
            let names = if s.scheme == Scheme::Form { FORM_MUTATIONS } else { MUTATIONS };
            let double = r.chance(1, 4);
            // each case takes some of the mutations
            let n = if run.thorough() { names.len() } else { 16 };
            let mut order: Vec<&str> = names.to_vec();
            r.shuffle(&mut order);
            for (j, name) in order.iter().take(n).enumerate() {
                let mutated = if s.scheme == Scheme::Form { mutate_form(name, &s, &mut r) } else { mutate(name, &s, &s.case.rq, &mut r) };
                let Some(mut m) = mutated else { continue };
                let mut what = (*name).to_owned();
                if double && s.scheme != Scheme::Form {
                    let second = order[(j + 1) % order.len()];
                    // (two wrongs must not make a right)
                    let fresh = matches!(second, "other secret" | "secret of another key" | "no credentials" | "no signature" | "scheme downgrade");
                    if let Some(n) = if fresh { None } else { mutate(second, &s, &m, &mut r) } {
                        let restored = n.target == s.case.rq.target && n.headers == s.case.rq.headers && n.method == s.case.rq.method && n.all_body() == s.case.rq.all_body();
                        if !restored {
                            what = format!("{name} and {second}");
                            m = n;
                        }
                    }
                }
                if s.scheme != Scheme::Form && signed_after_all(&m) {
                    run.count("alterations which cancelled each other", 1);
                    continue;
                }
                let over_tcp = Way::some(&mut r, addr, 20);
                let Some(out) = send(run, &svc, over_tcp, &m).await else { continue };
                let calls = rec.take();
                run.seen("scheme and alteration", &format!("{:?}/{name}", s.scheme));
                run.count(&format!("altered {:?}", s.scheme), 1);
                run.eval(&format!("{:?}/{}/{what}", s.scheme, s.case.op), true);
                let refused = match &out {
                    Ok(rs) => (400..500).contains(&rs.status),
                    // a connection may be refused as a whole
                    Err(Fail::Transport(_)) => !matches!(over_tcp, Way::Inside),
                    Err(_) => false,
                };
                // an operation the server does not know is refused in its own way
                let unknown_op = matches!(&out, Ok(rs) if rs.status >= 500) && calls.is_empty() && (m.method != s.case.rq.method || matches!(*name, "algorithm" | "sent to another operation"));
                if !calls.is_empty() || !(refused || unknown_op) {
                    let sig = if calls.is_empty() { "not_4xx" } else { "executed" };
                    run.violation(
                        &format!("{sig}_{:?}_{}", s.scheme, name.replace(' ', "-")),
                        json!({"altered": what, "scheme": format!("{:?}", s.scheme), "original": s.case.rq.brief(), "request": m.brief(), "response": format!("{:?}", out.as_ref().map(crate::http::Rs::brief)),
                            "calls": calls.iter().map(|c| format!("{} {}", c.op, c.input)).collect::<Vec<_>>(), "case": i, "worker": w}),
                    );
                }
            }
            if i < 2 {
                run.sample(json!({"base": s.case.rq.brief(), "scheme": format!("{:?}", s.scheme), "boundary": s.boundary}));
            }
            // the provider decides anew for each request
            if r.chance(1, 8) {
                rec.register(&s.cred.ak, "rotated");
                let out = send(run, &svc, Way::Inside, &s.case.rq).await;
                let calls = rec.take();
                run.count("rotated secrets", 1);
                run.eval(&format!("rotated/{:?}", s.scheme), true);
                run.check(calls.is_empty() && matches!(&out, Some(Ok(rs)) if rs.status == 403), "rotated_secret", || {
                    json!({"request": s.case.rq.brief(), "response": format!("{out:?}"), "what": "signed with a secret which the provider has replaced"})
                });
                let old = KEYS.iter().find(|k| k.0 == s.cred.ak).map(|k| k.1).unwrap_or_default();
                rec.register(&s.cred.ak, old);
            }
            // a provider which can not answer lets nobody in, and its error is passed on
            if r.chance(1, 8) {
                let (code, status) = (*r.pick(&[(S3ErrorCode::ServiceUnavailable, 503u16), (S3ErrorCode::InternalError, 500), (S3ErrorCode::AccessDenied, 403), (S3ErrorCode::InvalidAccessKeyId, 403)])).clone();
                let text = format!("provider trouble {:x}", r.u64());
                rec.trouble(Some((code, text.clone())));
                let mut m = s.case.rq.clone();
                if r.chance(1, 3) && s.scheme != Scheme::Form {
                    m = resign(&s, &Cred { sk: String::new(), ..s.cred.clone() });
                }
                let out = send(run, &svc, Way::some(&mut r, addr, 20), &m).await;
                let calls = rec.take();
                rec.trouble(None);
                run.count("failing providers", 1);
                run.eval(&format!("failing provider/{:?}", s.scheme), true);
                let good = match &out {
                    Some(Ok(rs)) => rs.status == status && (rs.body.is_empty() || String::from_utf8_lossy(&rs.body).contains(&text)),
                    Some(Err(Fail::Transport(_))) | None => true,
                    _ => false,
                };
                run.check(calls.is_empty() && good, "failing_provider", || json!({"request": m.brief(), "response": format!("{out:?}"), "provider": text}));
            }
        }
    })
    .await;
    concurrent(run).await;
    run.finish(&["the secret keys are not guessed by chance", "the Authorization algorithm name is not among the things checked"])
}

/// valid and invalid requests at the same time, to one service
async fn concurrent(run: &'static Run) {
    let rec = recorder();
    let svc = rec.service(true);
    let n = 8 * if run.thorough() { 300 } else { 60 };
    let mut tasks = Vec::new();
    for i in 0..n {
        let svc = svc.clone();
        let mut r = Rng::from(run.seed, "C14 concurrent", i);
        tasks.push(tokio::spawn(async move {
            let good = r.chance(1, 2);
            let c = cred(&mut r);
            let mut rq = Rq::new("PUT", format!("/concurrent/{}-{i}", if good { "good" } else { "bad" })).body(r.bytes(20));
            let mut d = c.clone();
            if !good {
                d.sk = KEYS.iter().find(|k| k.0 != c.ak).map(|k| k.1.to_owned()).unwrap_or_default();
            }
            match r.below(3) {
                0 => sig::presign(&mut rq, &d, 3600, &[]),
                1 => {
                    let b = rq.all_body();
                    sig::sign_stream(&mut rq, &d, &[b]);
                }
                _ => {
                    sig::sign_header(&mut rq, &d, Pay::Hash, &[]);
                }
            }
            let out = http::call(&svc, &rq).await;
            (good, rq, out)
        }));
        if i % 64 == 63 {
            for t in tasks.drain(..) {
                judge_concurrent(run, t.await);
            }
        }
    }
    for t in tasks.drain(..) {
        judge_concurrent(run, t.await);
    }
    for c in rec.take() {
        let key = c.input["key"].as_str().unwrap_or_default();
        run.check(!key.starts_with("bad"), "executed_concurrently", || json!({"key": key, "op": c.op}));
    }
}

fn judge_concurrent(run: &Run, t: Result<(bool, Rq, Out), tokio::task::JoinError>) {
    let Ok((good, rq, out)) = t else { return };
    run.eval(&format!("concurrent/{good}"), true);
    run.count("concurrent requests", 1);
    let ok = matches!(&out, Ok(rs) if if good { rs.ok() } else { rs.status == 403 });
    if !ok && !matches!(out, Err(Fail::Hang)) {
        run.violation("concurrent", json!({"signed correctly": good, "request": rq.brief(), "response": format!("{out:?}")}));
    }
}

/// C17
pub async fn validity(run: &'static Run) -> i32 {
    let live = tokio::spawn(live(run));
    let calendar = tokio::spawn(calendar(run));
    parallel(run, 8, |w| async move {
        let rec = recorder();
        let svc = rec.service(true);
        let mut i = 0;
        // the grid first, then at random
        let offsets: Vec<i64> = vec![0, 1, 2, 3, 5, 10, 60, 100, 899, 901, 1000, 3600, 86_399, 86_400, 86_401, 600_000, 604_797, 604_803, 604_900, 700_000, 3_000_000, 400_000_000];
        let expiries: Vec<String> = ["0", "1", "2", "5", "7", "60", "604799", "604800", "604801", "700000", "4294967295", "4294967296", "18446744073709551616", "-1", "-604800", "", "abc", "1e3", "60.0", " 60", "0x10", "99999999999999999999999999"]
            .iter()
            .map(|s| (*s).to_owned())
            .collect();
        let grid: Vec<(i64, String)> = offsets.iter().flat_map(|o| expiries.iter().map(move |e| (*o, e.clone()))).collect();
        while run.more() {
            let n = i * 8 + w;
            i += 1;
            let mut r = Rng::from(run.seed, "C17", n);
            let (age, expires) = if (n as usize) < grid.len() {
                grid[n as usize].clone()
            } else {
                match r.below(5) {
                    // too long, but not to those who lose some of the bits
                    4 => (r.below(600) as i64, crate::util::wrapping(600 + r.below(3000) as u64, &mut r).to_string()),
                    // close to the end
                    0 => {
                        let e = *r.pick(&[1i64, 3, 10, 100, 3600, 604_800]);
                        (e + *r.pick(&[-3i64, -2, -1, 0, 1, 2, 3, 4]), e.to_string())
                    }
                    1 => (r.below(604_900) as i64, r.below(604_900).to_string()),
                    // signed later
                    2 => (-(*r.pick(&[10i64, 60, 300, 890, 910, 1000, 3600, 86_400, 604_800, 10_000_000])), (*r.pick(&["1", "60", "3600", "604800"])).to_owned()),
                    _ => (r.below(20) as i64, r.below(20).to_string()),
                }
            };
            // forms of numbers are not the point here: only plain digits are valid
            let plain = !expires.is_empty() && expires.bytes().all(|b| b.is_ascii_digit());
            let e: Option<u128> = if plain { expires.parse().ok() } else { None };
            let (a, s) = *r.pick(&KEYS);
            let mut c = Cred::new(a, s);
            let now = Utc::now();
            c.date = now - Duration::seconds(age);
            let op = r.pick(SPECS).op;
            let mut case = reqs::case(op, &mut r, false);
            presign_text(&mut case.rq, &c, &expires);
            let t0 = Utc::now();
            let Some(out) = send(run, &svc, Way::Inside, &case.rq).await else { continue };
            let t1 = Utc::now();
            let calls = rec.take();
            // the signing time has a resolution of one second
            let signed_at = c.date.timestamp();
            let age_max = t1.timestamp_millis() - signed_at * 1000;
            let age_min = t0.timestamp_millis() - signed_at * 1000;
            let (must_accept, must_refuse) = match e {
                None => (false, true),
                Some(e) if e > 604_800 => (false, true),
                Some(e) => {
                    let end = e as i64 * 1000;
                    // clocks may differ a little
                    (age_min >= 0 && age_max < end, age_min > end + 1000 || age_max < -900_000 - 1000)
                }
            };
            let kind = if must_accept { "valid" } else if must_refuse { "invalid" } else { "either" };
            run.count(&format!("{kind} urls"), 1);
            run.eval(&format!("{age}/{expires}"), kind != "either");
            let detail = || json!({"age in seconds": age, "X-Amz-Expires": expires, "request": case.rq.brief(), "response": format!("{:?}", out.as_ref().map(crate::http::Rs::brief)), "calls": calls.iter().map(|c| c.op).collect::<Vec<_>>()});
            if must_accept {
                run.check(matches!(&out, Ok(rs) if rs.ok()) && calls.len() == 1, "refused_while_valid", detail);
            } else if must_refuse {
                run.check(matches!(&out, Ok(rs) if rs.status == 403 || rs.status == 400) && calls.is_empty(), "honoured_while_invalid", detail);
            }
        }
    })
    .await;
    if let Err(e) = live.await {
        run.problem(format!("live: {e}"));
    }
    if let Err(e) = calendar.await {
        run.problem(format!("calendar: {e}"));
    }
    run.finish(&["the clock of the sandbox", "the signing time may be up to 15 minutes ahead of the clock (either answer)", "the second in which a URL expires may count either way"])
}

fn presign_text(rq: &mut Rq, c: &Cred, expires: &str) {
    let mut names: Vec<String> = rq.headers.iter().map(|(n, _)| n.to_ascii_lowercase()).filter(|n| n == "host" || n.starts_with("x-amz-")).collect();
    names.sort();
    names.dedup();
    let sep = if rq.target.contains('?') { '&' } else { '?' };
    rq.target.push_str(&format!(
        "{sep}X-Amz-Algorithm=AWS4-HMAC-SHA256&X-Amz-Credential={}&X-Amz-Date={}&X-Amz-Expires={}&X-Amz-SignedHeaders={}",
        pct(format!("{}/{}", c.ak, c.scope()).as_bytes()),
        c.stamp(),
        pct(expires.as_bytes()),
        pct(names.join(";").as_bytes())
    ));
    let canon = sig::canonical(&rq.method, &rq.target, &rq.headers, &names, "UNSIGNED-PAYLOAD", true);
    let signature = hex(&crate::util::hmac(&c.key(), c.string_to_sign(&canon).as_bytes()));
    rq.target.push_str(&format!("&X-Amz-Signature={signature}"));
}

/// the same URL before and after the moment it expires
async fn live(run: &'static Run) {
    let rec = recorder();
    let svc = rec.service(true);
    let mut urls = Vec::new();
    for i in 0..40u64 {
        let mut r = Rng::from(run.seed, "C17 live", i);
        let e = r.range(2, 5) as u64;
        let c = Cred::new(KEYS[0].0, KEYS[0].1);
        let op = r.pick(SPECS).op;
        let mut case = reqs::case(op, &mut r, false);
        sig::presign(&mut case.rq, &c, e, &[]);
        urls.push((case, c.date.timestamp() + e as i64));
    }
    // used again and again
    let mut honoured = 0;
    let start = std::time::Instant::now();
    while start.elapsed().as_secs() < 8 {
        for (case, end) in &urls {
            let t0 = Utc::now().timestamp_millis();
            let Some(out) = send(run, &svc, Way::Inside, &case.rq).await else { continue };
            let t1 = Utc::now().timestamp_millis();
            let calls = rec.take();
            run.eval(&format!("live/{}/{}", case.op, t0 > end * 1000), true);
            let detail = || json!({"request": case.rq.brief(), "expires at": end, "asked at": t0, "response": format!("{:?}", out.as_ref().map(crate::http::Rs::brief))});
            if t1 < end * 1000 {
                honoured += 1;
                run.check(matches!(&out, Ok(rs) if rs.ok()) && calls.len() == 1, "refused_while_valid", detail);
            } else if t0 > end * 1000 + 1000 {
                run.check(matches!(&out, Ok(rs) if rs.status == 403 || rs.status == 400) && calls.is_empty(), "honoured_after_expiry", detail);
            }
        }
        tokio::time::sleep(std::time::Duration::from_millis(200)).await;
    }
    run.count("live uses honoured", honoured);
}

/// moments at which days, months, years or counters of seconds turn
pub const TURNS: [&str; 16] = [
    "2027-01-01T00:00:00Z", "2028-02-29T00:00:00Z", "2028-03-01T00:00:00Z", "2027-03-01T00:00:00Z", "2026-12-01T00:00:00Z", "2029-10-01T00:00:00Z", "2030-09-10T00:00:00Z", "2033-05-18T03:33:20Z", "2038-01-19T03:14:08Z",
    "2040-01-01T00:00:00Z", "2100-01-01T00:00:00Z", "2100-03-01T00:00:00Z", "2001-09-09T01:46:40Z", "2000-03-01T00:00:00Z", "2024-12-31T00:00:00Z", "2099-12-31T23:59:59Z",
];

pub fn turn(r: &mut Rng) -> chrono::DateTime<Utc> {
    chrono::DateTime::parse_from_rfc3339(r.pick(&TURNS)).expect("a moment").to_utc()
}

/// URLs whose validity spans the turn of a day, month or year, used by a program whose clock is set
async fn calendar(run: &'static Run) {
    let dir = crate::util::TempDir::new();
    let opts = crate::sut::Opts { auth: true, ..crate::sut::Opts::default() };
    let Some(mut srv) = crate::sut::Server::start(run, &dir.path, &opts).await else { return };
    if std::fs::create_dir(dir.path.join("bkt")).and_then(|()| std::fs::write(dir.path.join("bkt/obj"), b"content")).is_err() {
        return run.problem("cannot prepare a bucket");
    }
    let mut i = 0;
    while run.more() {
        i += 1;
        let mut r = Rng::from(run.seed, "C17 calendar", i);
        let turn = turn(&mut r);
        let e = *r.pick(&[3i64, 60, 3600, 43_200, 86_400, 172_800, 604_800]);
        // signed before the turn, valid beyond it
        let signed = turn - Duration::seconds(r.below(e as usize) as i64);
        let mut c = Cred::new(crate::world::AK, crate::world::SK);
        c.date = signed;
        let put = r.chance(1, 3);
        let key = if put { format!("new{i}") } else { "obj".to_owned() };
        let mut rq = Rq::new(if put { "PUT" } else { "GET" }, format!("/bkt/{key}"));
        if put {
            rq = rq.body("content");
        }
        presign_text(&mut rq, &c, &e.to_string());
        let mut at = vec![0, e - 2, e + 2, e + 86_400, (turn - signed).num_seconds(), r.below(e as usize) as i64, r.below(e as usize * 2) as i64, 604_799.min(e + 5), -1000, -86_400, 86_400 * 31, 86_400 * 365, 86_400 * 366];
        r.shuffle(&mut at);
        for age in at {
            srv.ctl.clock((signed - Utc::now()).num_milliseconds() + age * 1000);
            let Ok(rs) = srv.call(&rq).await else {
                if !matches!(srv.child.try_wait(), Ok(None)) {
                    return run.violation("stopped", json!({"request": rq.brief(), "age in seconds": age}));
                }
                run.problem("no answer");
                continue;
            };
            let kept = put && std::fs::remove_file(dir.path.join("bkt").join(&key)).is_ok();
            run.count("uses at a time of our choice", 1);
            run.seen("turns of the calendar", &format!("{}/{e}", turn.to_rfc3339()));
            run.eval(&format!("calendar/{turn}/{e}/{age}"), true);
            let detail = || json!({"signed at": signed.to_rfc3339(), "X-Amz-Expires": e, "age in seconds": age, "request": rq.brief(), "response": rs.brief(), "stored": kept});
            if (0..e - 1).contains(&age) {
                run.check(rs.status == 200, "refused_while_valid", detail);
            } else if age > e + 1 || age < -901 {
                run.check((rs.status == 403 || rs.status == 400) && !kept, "honoured_while_invalid", detail);
            }
        }
    }
}
