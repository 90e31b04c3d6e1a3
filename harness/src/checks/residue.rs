//! C11: what fails, breaks off or only reads changes nothing.
use super::parallel;
use super::scen::{self, Kind, Scn};
use crate::ev::Run;
use crate::http::{self, End, Fail, Out, Rq};
use crate::sig::{self, policy_doc, presign, sign_header, Cred, Form, Pay};
use crate::sut::copy_tree;
use crate::util::{etag, md5_b64, sha_hex, snapshot, tree_diff, xml_escape, Node, Rng, TempDir, Tree};
use crate::world::{self, fs_service, target, AK, SK};
use s3_server::SharedS3Service;
use serde_json::json;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const UUID: &str = "0b8f2b4e-0b1c-4b2e-9a55-0d1c2b3a4f5e";

struct Bench<'a> {
    run: &'static Run,
    s: &'a Scn,
    dir: TempDir,
    svc: SharedS3Service,
    addr: SocketAddr,
    cred: Option<Cred>,
    before: Tree,
}

fn brief(o: &Out) -> String {
    match o {
        Ok(rs) => rs.brief().to_string(),
        Err(e) => format!("{e:?}"),
    }
    .chars()
    .take(800)
    .collect()
}

impl<'a> Bench<'a> {
    fn new(run: &'static Run, s: &'a Scn) -> Option<Self> {
        let dir = TempDir::new();
        if let Err(e) = copy_tree(&s.dir.path, &dir.path) {
            run.problem(format!("copy: {e}"));
            return None;
        }
        let svc = fs_service(&dir.path, s.auth);
        let addr = http::serve(svc.clone());
        let before = snapshot(&dir.path);
        Some(Self { run, s, svc, addr, cred: s.auth.then(|| Cred::new(AK, SK)), before, dir })
    }
    fn restore(&mut self) {
        let root = &self.dir.path;
        if let Ok(rd) = std::fs::read_dir(root) {
            for e in rd.flatten() {
                let _ = if e.path().is_dir() { std::fs::remove_dir_all(e.path()) } else { std::fs::remove_file(e.path()) };
            }
        }
        if let Err(e) = copy_tree(&self.s.dir.path, root) {
            self.run.problem(format!("copy: {e}"));
        }
        self.before = snapshot(root);
    }
    /// what has changed, once everything has settled
    async fn changes(&self, empty_dirs: bool) -> Vec<String> {
        let end = Instant::now() + Duration::from_secs(8);
        loop {
            let mut after = snapshot(&self.dir.path);
            if empty_dirs {
                // directories which name no object
                let dirs: Vec<Vec<u8>> = after.iter().filter(|(k, v)| **v == Node::Dir && !self.before.contains_key(*k)).map(|(k, _)| k.clone()).collect();
                for d in dirs.iter().rev() {
                    let mut below = d.clone();
                    below.push(b'/');
                    if !after.keys().any(|k| k.starts_with(&below)) {
                        after.remove(d);
                    }
                }
            }
            let d = tree_diff(&self.before, &after, true);
            if d.is_empty() || Instant::now() > end {
                return d;
            }
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
    }
    async fn send(&self, rq: &Rq, r: &mut Rng) -> (Out, &'static str) {
        if r.chance(1, 5) {
            (http::tcp(self.addr, rq).await, "tcp")
        } else {
            (http::call(&self.svc, rq).await, "in-process")
        }
    }
    fn sign(&self, rq: Rq, r: &mut Rng) -> Rq {
        world::sign(self.cred.as_ref(), rq, r)
    }
    fn upload(&self, rq: Rq, d: &[u8], r: &mut Rng) -> Rq {
        world::upload(self.cred.as_ref(), rq, d, r).0
    }
}

/// a request which should be refused, and its kind
fn refused(b: &Bench<'_>, r: &mut Rng) -> (&'static str, Rq) {
    let s = b.s;
    let key = &s.target.1;
    let t = target("bkt", key);
    let n = *r.pick(&[0usize, 1, 50, 5000, 9000, 70_000]);
    let data = r.bytes(n);
    let (id, parts) = s.upload.clone().unwrap_or_default();
    let put = |t: &str| Rq::new("PUT", t.to_owned());
    let list = |v: &[(String, Option<String>)]| -> String {
        v.iter()
            .map(|(n, e)| format!("<Part><PartNumber>{n}</PartNumber>{}</Part>", e.as_ref().map_or(String::new(), |e| format!("<ETag>{}</ETag>", xml_escape(e)))))
            .collect()
    };
    let good: Vec<(String, Option<String>)> = parts.iter().map(|(n, d)| (n.to_string(), Some(etag(d)))).collect();
    let complete = |t: &str, id: &str, doc: String| Rq::new("POST", format!("{t}?uploadId={id}")).body(format!("<CompleteMultipartUpload>{doc}</CompleteMultipartUpload>"));
    let part_target = |n: &str, id: &str| format!("{t}?partNumber={n}&uploadId={id}");
    // of an upload: to the object, or of a part
    let up = if r.chance(1, 3) { part_target("1", &id) } else { t.clone() };
    let over = *r.pick(&["neighbour", "deep/neighbour", "second", key.as_str()]);
    match r.below(48) {
        0 => ("digest of other content", b.upload(put(&up).h("content-md5", md5_b64(b"something else")), &data, r)),
        1 => ("invalid digest", b.upload(put(&up).h("content-md5", *r.pick(&["", "abc", "====", "AAAA", "not base64!"])), &data, r)),
        2 => ("upload to no bucket", b.upload(put(&target("nobucket", key)), &data, r)),
        3 => ("upload to a bad bucket name", b.upload(put(&target(*r.pick(&["Bkt", "bk", "b_kt", "10.0.0.1", "xn--bkt"]), key)), &data, r)),
        4 => ("storage class", b.upload(put(&t).h("x-amz-storage-class", *r.pick(&["GLACIER", "", "standard"])), &data, r)),
        5 => ("key leaves the bucket", b.upload(put(*r.pick(&["/bkt/../other/src", "/bkt/%2e%2e/other/src", "/bkt/deep/../../other/src", "/bkt/..%2fother/new", "/bkt/../.bucket-x"])), &data, r)),
        6 => ("key too long", b.upload(put(&target("bkt", &"k/".repeat(512).replace("k/k/k/", "kkkkk/").repeat(2)[..1025])), &data, r)),
        7 => ("key below an object", b.upload(put(&target("bkt", &format!("neighbour/{}", r.pick(&["x", "x/y/z"])))), &data, r)),
        8 => ("key of a directory", b.upload(put("/bkt/deep"), &data, r)),
        9 => ("file name too long", b.upload(put(&target("bkt", &format!("{}{}", r.pick(&["", "new/dir/"]), "n".repeat(256)))), &data, r)),
        10 => ("directory object with content", b.upload(put("/bkt/fresh-dir/"), b"x", r)),
        11 => {
            let mut rq = put(&up).body(data.clone());
            if let Some(c) = &b.cred {
                sign_header(&mut rq, c, Pay::Hash, &[]);
                let other = [&data[..], b"!"].concat();
                rq.chunks = vec![if data.is_empty() { other } else { let mut d = data.clone(); let i = r.below(d.len()); d[i] ^= 1; d }];
                rq.set("content-length", rq.chunks[0].len().to_string());
            } else {
                rq = rq.h("x-amz-content-sha256", sha_hex(b"other")).h("content-md5", md5_b64(b"other"));
            }
            ("content not as signed", rq)
        }
        12 | 13 => {
            let mut rq = if r.chance(1, 2) { b.upload(put(&up), &data, r) } else { s.rq.clone() };
            let what = r.below(8);
            if rq.target.contains("Signature=") {
                let flip = |t: &mut String| {
                    let at = t.find("Signature=").map_or(0, |i| i + 12);
                    let c = if t.as_bytes()[at] == b'a' { "b" } else { "a" };
                    t.replace_range(at..=at, c);
                };
                if what < 4 {
                    flip(&mut rq.target);
                } else {
                    rq.target = rq.target.split('?').next().unwrap_or("").to_owned();
                }
            } else if let Some(a) = rq.get("authorization") {
                let a2 = match what {
                    0 => a.replace(AK, "AKIASTRANGER"),
                    1 => a[..a.len() - 1].to_owned(),
                    2 => a.replace("us-east-1", "us-east-2"),
                    3 => a.split("Signature").next().unwrap_or("").to_owned(),
                    4 => String::new(),
                    _ => {
                        let c = if a.ends_with('0') { '1' } else { '0' };
                        format!("{}{c}", &a[..a.len() - 1])
                    }
                };
                rq.set("authorization", a2);
                if what == 5 {
                    rq.headers.retain(|(n, _)| n != "authorization");
                }
            } else {
                rq.set("authorization", "AWS4-HMAC-SHA256 Credential=AKIASTRANGER/20200101/us-east-1/s3/aws4_request, SignedHeaders=host, Signature=00");
            }
            ("signature", rq)
        }
        14 => {
            let mut rq = b.upload(put(&t), &data, r);
            rq.target = rq.target.replacen("/bkt/", "/other/", 1);
            ("signed for another bucket", rq)
        }
        15..=18 => {
            // aws-chunked
            let Some(c) = &b.cred else { return ("no signature wanted", b.upload(put(&up).h("content-md5", md5_b64(b"?")), &data, r)) };
            let data = if data.is_empty() { b"few".to_vec() } else { data };
            let mut rq = put(&up);
            let pieces = r.split(&data, 5);
            let mut chunks = sig::sign_stream(&mut rq, c, &pieces);
            let name = match r.below(7) {
                0 => {
                    let i = r.below(chunks.len());
                    chunks[i].sig = "0".repeat(64);
                    "chunk signature"
                }
                1 => {
                    let i = r.below(chunks.len() - 1);
                    let j = r.below(chunks[i].data.len().max(1));
                    if let Some(x) = chunks[i].data.get_mut(j) {
                        *x ^= 1;
                    }
                    "chunk content"
                }
                2 => {
                    chunks.pop();
                    "no last chunk"
                }
                3 => {
                    let i = r.below(chunks.len() - 1);
                    chunks.remove(i);
                    "chunk missing"
                }
                4 => {
                    chunks.swap(0, 1);
                    "chunks swapped"
                }
                5 => {
                    rq.set("x-amz-decoded-content-length", (data.len() + 1).to_string());
                    "announced length"
                }
                _ => {
                    let i = r.below(chunks.len());
                    let c = chunks[i].clone();
                    chunks.insert(i, c);
                    "chunk twice"
                }
            };
            let mut body = sig::encode_chunks(&chunks);
            if r.chance(1, 6) {
                let i = r.below(body.len());
                body[i] = body[i].wrapping_add(1);
            }
            rq = rq.pieces(r.split(&body, 6));
            (name, rq)
        }
        19..=22 => {
            let Some(c) = &b.cred else {
                let mut f = Form::new(over, &data, r);
                f.fields.clear();
                return ("form without a key", f.request("bkt"));
            };
            let mut f = Form::new(over, &data, r);
            let exp = c.date + chrono::Duration::hours(1);
            let mut bucket = "bkt";
            let name = match r.below(9) {
                0 => "form without a policy",
                1 => {
                    f.sign(c, &policy_doc("bkt", c.date - chrono::Duration::hours(1), &[]));
                    "policy expired"
                }
                2 => {
                    f.sign(c, &policy_doc("bkt", exp, &[json!(["starts-with", "$key", "elsewhere/"])]));
                    "policy for another key"
                }
                3 => {
                    f.sign(c, &policy_doc("bkt", exp, &[json!(["content-length-range", data.len() + 1, data.len() + 9])]));
                    "file too small for the policy"
                }
                4 => {
                    f.sign(c, &policy_doc("bkt", exp, &[json!(["content-length-range", 0, data.len().saturating_sub(1)])]));
                    if data.is_empty() {
                        f.file = b"x".to_vec();
                    }
                    "file too large for the policy"
                }
                5 => {
                    f.sign(c, &policy_doc("bkt", exp, &[]));
                    if let Some(x) = f.fields.last_mut() {
                        x.1 = b"0".repeat(64);
                    }
                    "policy signature"
                }
                6 => {
                    f.sign(c, &policy_doc("other", exp, &[]));
                    "policy for another bucket"
                }
                7 => {
                    f.sign(c, "{not json");
                    "broken policy"
                }
                _ => {
                    f.sign(c, &policy_doc("nobucket", exp, &[]));
                    bucket = "nobucket";
                    "form to no bucket"
                }
            };
            (name, f.request(bucket))
        }
        23..=25 => {
            let (name, src) = *r.pick(&[
                ("copy of nothing", "bkt/nothing"),
                ("copy from no bucket", "nobucket/src"),
                ("copy source without a key", "bkt"),
                ("copy of a directory", "bkt/deep"),
                ("copy of a directory object", "bkt/deep/"),
                ("copy from outside", "bkt/../other/src"),
                ("copy from an access point", "arn:aws:s3:us-west-2:123456789012:accesspoint/my-ap/object/src"),
                ("copy source escape", "bkt/%zz%"),
                ("copy source not utf-8", "bkt/%ff%fe"),
                ("copy from a bad name", "B_/src"),
                ("copy of a side file", "bkt/../.bucket-Ymt0.object-c2Vjb25k.metadata.json"),
                ("empty copy source", ""),
            ]);
            (name, b.sign(put(&t).h("x-amz-copy-source", src).h("x-amz-meta-x", "y"), r))
        }
        26 => {
            let (name, t) = *r.pick(&[
                ("copy to no bucket", "/nobucket/k"),
                ("copy below an object", "/bkt/neighbour/x/y"),
                ("copy over a directory", "/bkt/deep"),
                ("copy to a directory object", "/bkt/deep/"),
                ("copy out of the bucket", "/bkt/../other/src"),
            ]);
            (name, b.sign(put(t).h("x-amz-copy-source", *r.pick(&["other/src", "bkt/neighbour"])), r))
        }
        27..=30 => {
            let mut l = good;
            let name = match r.below(12) {
                0 => {
                    l.push(("3".into(), None));
                    "part missing"
                }
                1 => {
                    l.reverse();
                    "parts out of order"
                }
                2 => {
                    let d = l[0].clone();
                    l.insert(0, d);
                    "part twice"
                }
                3 => {
                    l[1].1 = Some(etag(b"other"));
                    "part digest"
                }
                4 => {
                    l.clear();
                    "no parts"
                }
                5 => {
                    l[1].0 = (*r.pick(&["", "0", "-1", "10001", "x", "1.5", "99999999999999999999", "../x"])).into();
                    "part number"
                }
                6 => return ("completion is no document", b.sign(Rq::new("POST", format!("{t}?uploadId={id}")).body(*r.pick(&["", "<", "<Complete", "{}", "<CompleteMultipartUpload>", "<CompleteMultipartUpload><Part>"])), r)),
                7 => {
                    let doc = list(&l);
                    let bad = *r.pick(&[UUID, "", "x", "../other/src", "..%2f..%2fx", ".", "0"]);
                    return ("completion of no upload", b.sign(complete(&t, bad, doc), r));
                }
                8 => return ("completion for another key", b.sign(complete(&target("bkt", "neighbour"), &id, list(&l)), r)),
                9 => return ("completion for another bucket", b.sign(complete(&target("other", key), &id, list(&l)), r)),
                10 => return ("completion in no bucket", b.sign(complete(&target("nobucket", key), &id, list(&l)), r)),
                _ => {
                    let doc = list(&l);
                    let cut = r.below(doc.len());
                    let doc = doc.get(..cut).unwrap_or("").to_owned();
                    return ("completion cut off", b.sign(Rq::new("POST", format!("{t}?uploadId={id}")).body(format!("<CompleteMultipartUpload>{doc}")), r));
                }
            };
            (name, b.sign(complete(&t, &id, list(&l)), r))
        }
        31..=33 => {
            let (name, t) = match r.below(4) {
                0 => ("part number", part_target(*r.pick(&["0", "-1", "10001", "x", "", "1.5", "99999999999999999999", "%2e%2e"]), &id)),
                1 => ("part of no upload", part_target("1", *r.pick(&[UUID, "", "x", "..%2f..%2fx", "."]))),
                2 => ("part for another key", format!("{}?partNumber=1&uploadId={id}", target("bkt", "neighbour"))),
                _ => ("part for another bucket", format!("{}?partNumber=1&uploadId={id}", target("other", key))),
            };
            (name, b.upload(put(&t), &data, r))
        }
        34 => ("delete in no bucket", b.sign(Rq::new("DELETE", target("nobucket", key)), r)),
        35 => ("delete leaves the bucket", b.sign(Rq::new("DELETE", *r.pick(&["/bkt/../other/src", "/bkt/%2e%2e/other/src", "/bkt/deep/../../other/src"])), r)),
        36..=38 => {
            let k = xml_escape(key);
            let (name, t, doc) = match r.below(6) {
                0 => ("delete list is no document", "/bkt?delete", (*r.pick(&["", "<", "<Delete>", "<Delete><Object>", "{}", "<Delete><Object><Key>neighbour</Key></Object>", "<Delete><Object><Key>neighbour</Key></Object></Wrong>"])).to_owned()),
                1 => ("delete list in no bucket", "/nobucket?delete", format!("<Delete><Object><Key>{k}</Key></Object></Delete>")),
                2 => ("delete list too long", "/bkt?delete", format!("<Delete><Object><Key>neighbour</Key></Object>{}</Delete>", "<Object><Key>nothing</Key></Object>".repeat(1000))),
                3 => ("delete list without keys", "/bkt?delete", "<Delete><Object></Object><Object><Key>neighbour</Key></Object></Delete>".to_owned()),
                4 => ("empty delete list", "/bkt?delete", "<Delete></Delete>".to_owned()),
                _ => ("delete list not utf-8", "/bkt?delete", "<Delete><Object><Key>neighbour</Key></Object><Object><Key>&bogus;</Key></Object></Delete>".to_owned()),
            };
            let mut rq = Rq::new("POST", t).body(doc);
            if r.chance(1, 4) {
                rq = rq.h("content-md5", md5_b64(b"other"));
            }
            (name, b.sign(rq, r))
        }
        39 => ("bucket exists", b.sign(put("/bkt"), r)),
        40 => ("bad bucket name", b.sign(put(*r.pick(&["/Bkt", "/b", "/b_kt", "/-bkt", "/xn--bkt", "/1.2.3.4", "/bkt.", "/.bucket-x"])), r)),
        41 => ("no such bucket", b.sign(Rq::new("DELETE", *r.pick(&["/nobucket", "/nobucket/"])), r)),
        42 => {
            let (name, t) = *r.pick(&[("upload started in no bucket", "/nobucket/k?uploads"), ("upload started outside", "/bkt/../other/x?uploads")]);
            (name, b.sign(Rq::new("POST", t), r))
        }
        43 => {
            let m = *r.pick(&["PUT", "POST", "DELETE", "PATCH", "OPTIONS", "GET", "HEAD"]);
            let q = *r.pick(&["?acl", "?tagging", "?restore", "?select&select-type=2", "?policy", "?versioning", "?retention", "?legal-hold", "?torrent", "?lifecycle", "?website", "?uploads", "?x"]);
            let t = if r.chance(1, 2) { t.clone() } else { "/bkt".to_owned() };
            let rq = Rq::new(m, format!("{t}{q}"));
            let rq = if matches!(m, "PUT" | "POST") { rq.body("<X/>") } else { rq };
            ("unsupported", b.sign(rq, r))
        }
        44 => {
            // in one respect invalid
            let mut rq = put(&up);
            let (n, v) = *r.pick(&[
                ("x-amz-date", "yesterday"),
                ("x-amz-content-sha256", "zz"),
                ("content-length", "-1"),
                ("x-amz-decoded-content-length", "x"),
                ("x-amz-object-lock-retain-until-date", "never"),
                ("x-amz-acl", ""),
                ("expires", "soon"),
            ]);
            rq = b.upload(rq, &data, r);
            rq.set(n, v);
            ("invalid header", rq)
        }
        45 => {
            let mut rq = s.rq.clone();
            if !rq.headers.is_empty() {
                let i = r.below(rq.headers.len());
                if r.chance(1, 2) {
                    rq.headers.remove(i);
                } else {
                    let v = &mut rq.headers[i].1;
                    if v.is_empty() {
                        v.push(b'x');
                    } else {
                        let j = r.below(v.len());
                        v[j] = *r.pick(b"0az/=;, ");
                    }
                }
            }
            ("header altered", rq)
        }
        46 => {
            let mut rq = s.rq.clone();
            let mut body = rq.all_body();
            if body.is_empty() {
                rq.target.push_str(*r.pick(&["?", "&x=y", "?versionId=1", "%00", "?partNumber=1"]));
            } else {
                let i = r.below(body.len());
                match r.below(3) {
                    0 => body[i] ^= 1 << r.below(8),
                    1 => {
                        body.remove(i);
                    }
                    _ => body.insert(i, *r.pick(b"\r\n-0a<>")),
                }
                rq = rq.pieces(r.split(&body, 4));
            }
            ("body altered", rq)
        }
        _ => {
            let mut rq = put(&up).body(data.clone());
            match &b.cred {
                Some(c) => {
                    let mut old = c.clone();
                    old.date = c.date - chrono::Duration::hours(2);
                    presign(&mut rq, &old, 60, &[]);
                    ("expired", rq)
                }
                None => ("digest of other content", rq.h("content-md5", md5_b64(b"o"))),
            }
        }
    }
}

fn read(b: &Bench<'_>, r: &mut Rng) -> (&'static str, Rq) {
    let s = b.s;
    let objs: Vec<(String, String)> = s.before.iter().flat_map(|(b, o)| o.keys().map(move |k| (b.clone(), k.clone()))).collect();
    let (bk, k) = r.pick(&objs).clone();
    let t = target(&bk, &k);
    let (name, rq) = match r.below(12) {
        0 | 1 => ("get", Rq::new("GET", t)),
        2 => ("get range", Rq::new("GET", t).h("range", *r.pick(&["bytes=0-", "bytes=1-5", "bytes=-3", "bytes=99999999-", "bytes=5-1", "bytes=0-0,2-3", "lines=1-2", "bytes=-0"]))),
        3 => ("head", Rq::new("HEAD", t)),
        4 => ("get nothing", Rq::new(*r.pick(&["GET", "HEAD"]), *r.pick(&["/bkt/nothing", "/bkt/deep", "/bkt/deep/", "/bkt/neighbour/x", "/nobucket/x", "/bkt/../other/src", "/bkt/%00", "/bkt/nothing/"]))),
        5 | 6 => ("list", Rq::new("GET", format!("/{bk}{}", r.pick(&["", "?prefix=deep", "?list-type=2", "?list-type=2&prefix=n", "?max-keys=1", "?max-keys=x", "?list-type=2&max-keys=0", "?delimiter=/", "?marker=n", "?list-type=3", "?prefix=../other"])))),
        7 => ("list buckets", Rq::new("GET", "/")),
        8 => ("location", Rq::new("GET", *r.pick(&["/bkt?location", "/nobucket?location"]))),
        9 => ("head bucket", Rq::new("HEAD", *r.pick(&["/bkt", "/other", "/nobucket"]))),
        10 => ("list of nothing", Rq::new("GET", *r.pick(&["/nobucket", "/nobucket?list-type=2", "/B_"]))),
        _ => ("unsupported read", Rq::new("GET", format!("{t}{}", r.pick(&["?acl", "?tagging", "?uploads", "?uploadId=x", "?torrent", "?retention"])))),
    };
    (name, b.sign(rq, r))
}

/// an upload whose body does not end properly; `None`: its body can not be cut
fn broken(b: &Bench<'_>, r: &mut Rng) -> Option<(&'static str, Rq, usize)> {
    let s = b.s;
    let (id, _) = s.upload.clone()?;
    let n = *r.pick(&[1usize, 40, 5000, 9000, 40_000]);
    let data = r.bytes(n);
    let t = target("bkt", *r.pick(&[s.target.1.as_str(), "neighbour", "fresh", "fresh/dir/x"]));
    let part = format!("{}?partNumber={}&uploadId={id}", target("bkt", &s.target.1), r.range(1, 3));
    let (name, rq, end) = match (&b.cred, r.below(5)) {
        (Some(c), 0) => {
            let mut f = Form::new("neighbour", &data, r);
            f.sign(c, &policy_doc("bkt", c.date + chrono::Duration::hours(1), &[]));
            let rq = f.request("bkt");
            let len = rq.all_body().len() - f.boundary.len() - 8;
            ("form", rq, len)
        }
        (Some(c), 1 | 2) => {
            let mut rq = Rq::new("PUT", if r.chance(1, 2) { t } else { part });
            let pieces = r.split(&data, 4);
            sig::sign_stream(&mut rq, c, &pieces);
            let len = rq.all_body().len() - 5;
            ("aws-chunked", rq, len)
        }
        (_, w) => {
            let mut rq = Rq::new("PUT", if w == 3 { part } else { t }).body(data.clone());
            if let Some(c) = &b.cred {
                if r.chance(1, 2) {
                    sign_header(&mut rq, c, Pay::Unsigned, &[]);
                } else {
                    sign_header(&mut rq, c, Pay::Hash, &[]);
                }
            }
            ("plain", rq, data.len())
        }
    };
    if end == 0 {
        return None;
    }
    let at = match r.below(4) {
        0 => r.below(end.min(200)),
        1 => end - 1 - r.below(end.min(120)),
        _ => r.below(end),
    };
    let body = rq.all_body()[..at].to_vec();
    let mut rq = rq;
    rq.chunks = if body.is_empty() { vec![] } else { r.split(&body, 6) };
    Some((name, rq, at))
}

/// drive a request to its `k`-th wait and drop it there; `None`: it was dropped
async fn dropped_at(svc: &SharedS3Service, rq: &Rq, k: usize) -> Result<Option<u16>, Fail> {
    let req = http::build(rq)?;
    let mut fut = Box::pin(svc.hyper_call(req));
    let mut polls = 0;
    let r = std::future::poll_fn(|cx| {
        if polls == k {
            return std::task::Poll::Ready(None);
        }
        polls += 1;
        match fut.as_mut().poll(cx) {
            std::task::Poll::Ready(r) => std::task::Poll::Ready(Some(r)),
            std::task::Poll::Pending if polls == k => std::task::Poll::Ready(None),
            std::task::Poll::Pending => std::task::Poll::Pending,
        }
    })
    .await;
    drop(fut);
    match r {
        None => Ok(None),
        Some(Ok(rs)) => Ok(Some(rs.status().as_u16())),
        Some(Err(e)) => Err(Fail::Transport(e.to_string())),
    }
}
use std::future::Future;

/// whether anything temporary is left, or part files of uploads which are over
fn leftovers(root: &std::path::Path) -> Vec<String> {
    let names: Vec<String> = std::fs::read_dir(root).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    names
        .iter()
        .filter(|n| {
            let part = n.strip_prefix(".upload_id-").and_then(|n| n.split_once(".part-"));
            n.starts_with(".tmp-") || part.is_some_and(|(id, _)| !names.contains(&format!(".upload_id-{id}.json")))
        })
        .cloned()
        .collect()
}

async fn abandoned(b: &mut Bench<'_>, r: &mut Rng) {
    abandon(b, r).await;
    b.restore();
}

async fn abandon(b: &mut Bench<'_>, r: &mut Rng) {
    let (run, s) = (b.run, b.s);
    let keys = scen::all_keys(s);
    let mut k = 1;
    loop {
        b.restore();
        let end = match dropped_at(&b.svc, &s.rq, k).await {
            Ok(e) => e,
            Err(e) => return run.problem(format!("{e:?}")),
        };
        let t = Instant::now();
        let mut left = leftovers(&b.dir.path);
        while !left.is_empty() && t.elapsed() < Duration::from_secs(8) {
            tokio::time::sleep(Duration::from_millis(3)).await;
            left = leftovers(&b.dir.path);
        }
        let det = |e: String| json!({"scenario": s.name, "request": s.rq.brief(), "dropped at wait": k, "problem": e.chars().take(2500).collect::<String>()});
        run.eval(&format!("abandoned/{}/{k}", s.name), end.is_none());
        run.count(if end.is_none() { "requests abandoned" } else { "requests which ended before that" }, 1);
        if !left.is_empty() {
            return run.violation(&format!("left behind by an abandoned request: {:?}", s.kind), det(format!("{left:?}")));
        }
        let svc = fs_service(&b.dir.path, false);
        match scen::look(&svc, &keys).await {
            Err(e) => return run.violation(&format!("state after an abandoned request: {:?}", s.kind), det(e)),
            Ok(seen) => {
                let whole = seen.objs == s.before || seen.objs == s.after || (s.kind == Kind::DeleteMany && scen::judge(s, &seen, None).is_ok());
                if !whole {
                    return run.violation(&format!("half of an abandoned request: {:?}", s.kind), det(format!("{:?}", seen.objs)));
                }
                run.seen("outcomes of abandoned requests", &format!("{:?} {} {}", s.kind, seen.objs == s.before, seen.objs == s.after));
            }
        }
        if end.is_some() || !run.more() {
            break;
        }
        k += if k < 40 { 1 } else { r.range(1, 9) };
    }
    run.max("most waits in a request", k as u64);
}

async fn scenario(run: &'static Run, n: u64) {
    let mut r = Rng::from(run.seed, "residue", n);
    let kind = scen::MUTATIONS[n as usize % scen::MUTATIONS.len()];
    let s = match scen::build(kind, &mut r).await {
        Ok(s) => s,
        Err(e) => return run.problem(e),
    };
    let Some(mut b) = Bench::new(run, &s) else { return };
    abandoned(&mut b, &mut r).await;
    for _ in 0..run.by(120, 200) {
        if !run.more() {
            break;
        }
        match r.below(10) {
            0..=5 => {
                let (name, rq) = refused(&b, &mut r);
                let (o, via) = b.send(&rq, &mut r).await;
                let failed = match &o {
                    Ok(rs) => rs.status >= 400,
                    Err(Fail::Unbuildable(_)) => continue,
                    // the server may close the connection while the client is sending
                    Err(Fail::Transport(_)) if via == "tcp" => {
                        run.count("connections closed", 1);
                        b.restore();
                        continue;
                    }
                    Err(_) => true,
                };
                let status = o.as_ref().map_or(0, |rs| rs.status);
                if !failed {
                    run.count("not refused", 1);
                    run.seen("requests not refused", &format!("{name} {status}"));
                    b.restore();
                    continue;
                }
                run.eval(&format!("refused/{}/{name}/{status}", s.name), true);
                run.seen("refusals", &format!("{name} {status} {:?}", o.as_ref().ok().and_then(http::Rs::code)));
                run.count("refused requests", 1);
                let loose = matches!(name, "file name too long");
                let d = b.changes(loose).await;
                if !d.is_empty() {
                    return run.violation(&format!("changed by a refused request: {name}"), json!({"scenario": s.name, "request": rq.brief(), "answer": brief(&o), "changes": d, "via": via}));
                }
                if loose {
                    b.restore();
                }
            }
            6 | 7 => {
                let (name, rq) = read(&b, &mut r);
                let drop_early = r.chance(1, 4);
                let o = if drop_early {
                    let k = r.range(1, 6);
                    match dropped_at(&b.svc, &rq, k).await {
                        Ok(_) => Err(Fail::Hang),
                        Err(e) => Err(e),
                    }
                } else {
                    b.send(&rq, &mut r).await.0
                };
                run.eval(&format!("read/{}/{name}", s.name), true);
                run.seen("reads", &format!("{name} {}", o.as_ref().map_or(0, |rs| rs.status)));
                let d = b.changes(false).await;
                if !d.is_empty() {
                    return run.violation(&format!("changed by a read: {name}"), json!({"scenario": s.name, "request": rq.brief(), "answer": brief(&o), "changes": d}));
                }
            }
            _ => {
                let Some((name, mut rq, at)) = broken(&b, &mut r) else { continue };
                // a plain body has no framing of its own: its end is the transport's business
                rq.end = match r.below(5) {
                    0 => End::Hang,
                    1 if name != "plain" => {
                        let n: usize = rq.chunks.iter().map(Vec::len).sum();
                        rq.set("content-length", n.to_string());
                        End::Done
                    }
                    _ => End::Err,
                };
                let end = rq.end;
                let (o, via) = if end != End::Done && r.chance(1, 3) { (http::tcp(b.addr, &rq).await, "tcp") } else { (http::call(&b.svc, &rq).await, "in-process") };
                if via == "tcp" {
                    tokio::time::sleep(Duration::from_millis(10)).await;
                }
                run.eval(&format!("broken/{}/{name}/{at}/{end:?}", s.name), true);
                run.seen("broken uploads", &format!("{name} {end:?} {via} {}", o.as_ref().map_or_else(|e| format!("{e:?}").chars().take(9).collect::<String>(), |rs| rs.status.to_string())));
                run.count("broken uploads", 1);
                let d = b.changes(false).await;
                if !d.is_empty() {
                    return run.violation(&format!("changed by a broken upload: {name}"), json!({"scenario": s.name, "request": rq.brief(), "cut at": at, "end": format!("{end:?}"), "answer": brief(&o), "changes": d, "via": via}));
                }
            }
        }
    }
}

pub async fn run(run: &'static Run) -> i32 {
    let next: &'static AtomicU64 = Box::leak(Box::default());
    parallel(run, 8, |_| async move {
        while run.more() {
            scenario(run, next.fetch_add(1, Ordering::SeqCst)).await;
        }
    })
    .await;
    run.finish(&["directories without objects are not judged where a file name is too long for the file system"])
}
