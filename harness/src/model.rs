//! Model-based testing: random histories of requests, each compared with a
//! sequential model of the service, with a look at everything in between.
use crate::ev::Run;
use crate::http::{Fail, Rq, Rs};
use crate::sig::{policy_doc, Form};
use crate::util::{etag, md5_b64, pct, pct_path, pct_path_any, show, xml_escape, Rng};
use crate::world::{bucket_pool, content, key_pool, large_content, metadata, target, target_any, World};
use crate::xml;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

pub type Meta = BTreeMap<String, String>;

#[derive(Clone, Debug)]
pub struct Obj {
    pub data: Arc<Vec<u8>>,
    pub meta: Meta,
    /// the property which is about the operation that wrote it
    pub origin: &'static str,
}

#[derive(Clone, Debug)]
pub struct Upload {
    pub id: String,
    pub bucket: String,
    pub key: String,
    pub meta: Meta,
    pub parts: BTreeMap<i64, Arc<Vec<u8>>>,
    pub live: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub buckets: BTreeMap<String, BTreeMap<String, Obj>>,
    pub uploads: Vec<Upload>,
    /// metadata of directory objects
    pub folders: BTreeMap<(String, String), Meta>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Put,
    Form,
    Get,
    Head,
    Delete,
    DeleteMany,
    Copy,
    List,
    ListBuckets,
    MkBucket,
    RmBucket,
    HeadBucket,
    MpCreate,
    MpPart,
    MpComplete,
    MpBad,
    BadPut,
}
pub const OPS: [Op; 17] = [
    Op::Put, Op::Form, Op::Get, Op::Head, Op::Delete, Op::DeleteMany, Op::Copy, Op::List, Op::ListBuckets, Op::MkBucket, Op::RmBucket, Op::HeadBucket,
    Op::MpCreate, Op::MpPart, Op::MpComplete, Op::MpBad, Op::BadPut,
];

pub struct Profile {
    pub weights: [usize; 17],
    pub keys: usize,
    pub buckets: usize,
    /// control characters in keys (no listings then)
    pub control: bool,
    pub list_always: bool,
    pub big: bool,
}

pub struct Eng<'a> {
    pub run: &'a Run,
    pub w: World,
    pub r: Rng,
    pub m: Model,
    pub log: Vec<Value>,
    pub dead: bool,
    pub episode: u64,
    pub keys: Vec<String>,
    pub buckets: Vec<String>,
    pub control: bool,
    pub big: bool,
    /// the property which is about the last operation, and what it addressed
    last: (&'static str, Vec<(String, String)>),
}

fn op_prop(op: Op) -> &'static str {
    match op {
        Op::Delete | Op::DeleteMany => "C05",
        Op::Copy => "C07",
        Op::MkBucket | Op::RmBucket | Op::HeadBucket => "C06",
        Op::MpCreate | Op::MpPart | Op::MpComplete | Op::MpBad => "C08",
        Op::List | Op::ListBuckets => "C04",
        Op::Form => "C18",
        _ => "C01",
    }
}

impl<'a> Eng<'a> {
    pub fn new(run: &'a Run, episode: u64, p: &Profile) -> Self {
        let mut r = Rng::from(run.seed, &run.prop, episode);
        let auth = r.chance(1, 2);
        let keys = key_pool(&mut r, p.keys, p.control);
        let buckets = bucket_pool(&mut r, p.buckets);
        Self {
            run,
            w: World::new(auth),
            r,
            m: Model::default(),
            log: Vec::new(),
            dead: false,
            episode,
            keys,
            buckets,
            control: p.control,
            big: p.big,
            last: ("", vec![]),
        }
    }

    pub fn bad(&mut self, props: &[&str], sig: &str, detail: Value) {
        if props.contains(&self.run.prop.as_str()) {
            let tail: Vec<Value> = self.log.iter().rev().take(60).rev().cloned().collect();
            self.run.violation(sig, json!({"episode": self.episode, "what": detail, "history": tail, "auth": self.w.auth}));
        } else {
            self.run.count("histories cut short by a deviation outside this property", 1);
        }
        self.dead = true;
    }

    /// send; `None` if there is no response (which is judged here)
    async fn send(&mut self, props: &[&str], rq: &Rq) -> Option<Rs> {
        self.run.count("requests", 1);
        // what was stored is stored for the next server on the directory, too
        if self.r.chance(1, 30) {
            self.w.svc = crate::world::fs_service(&self.w.dir.path, self.w.auth);
            self.run.count("restarts", 1);
            self.log.push(json!("restart"));
        }
        match self.w.call(rq).await {
            Ok(rs) => Some(rs),
            Err(Fail::Hang) => {
                self.run.problem(format!("no answer to {} {}", rq.method, rq.target));
                self.dead = true;
                None
            }
            Err(Fail::Unbuildable(e)) => {
                self.run.problem(format!("request {} {:?}: {e}", rq.method, rq.target));
                self.dead = true;
                None
            }
            Err(f) => {
                self.bad(props, "no_response", json!({"request": rq.brief(), "failure": format!("{f:?}")}));
                None
            }
        }
    }

    fn t(&mut self, b: &str, k: &str) -> String {
        if self.r.chance(1, 3) { target_any(b, k, &mut self.r) } else { target(b, k) }
    }

    fn pick_bucket(&mut self) -> String {
        // mostly an existing one
        let live: Vec<String> = self.m.buckets.keys().cloned().collect();
        if !live.is_empty() && !self.r.chance(1, 12) { self.r.pick(&live).clone() } else { self.r.pick(&self.buckets.clone()).clone() }
    }
    fn pick_key(&mut self) -> String {
        self.r.pick(&self.keys.clone()).clone()
    }
    /// mostly an existing object
    fn pick_object(&mut self) -> (String, String) {
        let all: Vec<(String, String)> = self.m.buckets.iter().flat_map(|(b, o)| o.keys().map(move |k| (b.clone(), k.clone()))).collect();
        if !all.is_empty() && !self.r.chance(1, 6) { self.r.pick(&all).clone() } else { (self.pick_bucket(), self.pick_key()) }
    }
    fn obj(&self, b: &str, k: &str) -> Option<&Obj> {
        self.m.buckets.get(b)?.get(k)
    }
    fn has_bucket(&self, b: &str) -> bool {
        self.m.buckets.contains_key(b)
    }
    fn with_meta(&mut self, mut rq: Rq, meta: &Meta) -> Rq {
        for (n, v) in meta {
            let n = if self.r.chance(1, 6) { n.to_uppercase() } else { n.clone() };
            rq = rq.h(&format!("x-amz-meta-{n}"), v);
        }
        rq
    }
    fn note(&mut self, v: Value) {
        self.log.push(v);
    }
    fn new_content(&mut self) -> Vec<u8> {
        if self.big && self.r.chance(1, 60) { large_content(&mut self.r) } else { content(&mut self.r, self.big) }
    }

    /// expects an error with this status
    fn want_error(&mut self, props: &[&str], sig: &str, rq: &Rq, rs: &Rs, status: &[u16], codes: &[&str]) {
        let code = rs.code();
        let code_ok = rq.method == "HEAD" || codes.is_empty() || code.as_deref().map_or(false, |c| codes.contains(&c));
        if !status.contains(&rs.status) || !code_ok {
            self.bad(props, sig, json!({"request": rq.brief(), "response": rs.brief(), "expected": {"status": status, "code": codes}}));
        }
    }

    pub async fn step(&mut self, op: Op) {
        self.last = (op_prop(op), vec![]);
        match op {
            Op::Put if self.r.chance(1, 40) => self.folder().await,
            Op::Put => self.put().await,
            Op::Form => self.form().await,
            Op::Get => {
                let (b, k) = self.pick_object();
                self.get(&b, &k).await;
            }
            Op::Head => {
                let (b, k) = self.pick_object();
                self.head(&b, &k).await;
            }
            Op::Delete => self.delete().await,
            Op::DeleteMany => self.delete_many().await,
            Op::Copy => self.copy().await,
            Op::List => {
                let b = self.pick_bucket();
                self.list(&b).await;
            }
            Op::ListBuckets => self.list_buckets().await,
            Op::MkBucket => self.mk_bucket().await,
            Op::RmBucket => self.rm_bucket().await,
            Op::HeadBucket => {
                let b = self.r.pick(&self.buckets.clone()).clone();
                self.head_bucket(&b).await;
            }
            Op::MpCreate => self.mp_create().await,
            Op::MpPart => self.mp_part().await,
            Op::MpComplete => self.mp_complete().await,
            Op::MpBad => self.mp_bad().await,
            Op::BadPut => self.bad_put().await,
        }
        self.run.count(&format!("operation {op:?}"), 1);
    }

    pub async fn put(&mut self) {
        let (b, k) = (self.pick_bucket(), self.pick_key());
        let data = self.new_content();
        let meta = metadata(&mut self.r);
        self.put_as(&b, &k, data, meta).await;
    }

    /// an object which stands for a directory: empty, whatever way the (empty) content is framed in
    async fn folder(&mut self) {
        let b = self.pick_bucket();
        if !self.has_bucket(&b) {
            return;
        }
        let n = self.r.below(4);
        let k = format!("a folder {n}{}/", self.r.pick(&["", "", "/b", "/\u{e9}/+"]));
        let data: &[u8] = if self.r.chance(1, 4) { b"some content" } else { b"" };
        let t = self.t(&b, &k);
        let meta = metadata(&mut self.r);
        let mut rq = self.with_meta(Rq::new("PUT", t), &meta);
        if data.is_empty() && self.r.chance(1, 3) {
            rq = rq.h("content-length", "0");
        }
        let wrong = data.is_empty() && self.r.chance(1, 6);
        if wrong || self.r.chance(1, 4) {
            rq = rq.h("content-md5", md5_b64(if wrong { b"something" } else { data }));
        }
        let (rq, framing) = self.w.upload(rq, data, &mut self.r);
        self.note(json!({"folder": [b, k], "len": data.len(), "framing": framing, "meta": meta, "wrong digest": wrong}));
        let before = self.folder_is_there(&b, &k).await;
        let Some(rs) = self.send(&["C01"], &rq).await else { return };
        self.run.seen("folders", &format!("{framing}, {} bytes", data.len()));
        let det = json!({"request": rq.brief(), "response": rs.brief()});
        if !data.is_empty() || wrong {
            // there is no place for the content
            if rs.ok() {
                return self.bad(&["C01"], if wrong { "wrong_content_md5" } else { "folder_with_content_accepted" }, det);
            }
            let after = self.folder_is_there(&b, &k).await;
            if !self.dead && before != after {
                self.bad(&["C01", "C11"], "folder_refused_with_effect", det);
            }
            return;
        }
        if !rs.ok() {
            return self.bad(&["C01"], "folder_refused", det);
        }
        self.m.folders.insert((b.clone(), k.clone()), meta);
        if self.folder_is_there(&b, &k).await != Some(true) && !self.dead {
            return self.bad(&["C01"], "folder_missing", det);
        }
        if self.r.chance(1, 3) && !self.dead {
            let rq = self.w.sign(Rq::new("DELETE", target(&b, &k)), &mut self.r);
            self.note(json!({"delete folder": [b, k]}));
            let Some(rs) = self.send(&["C05"], &rq).await else { return };
            if rs.status != 204 {
                return self.bad(&["C05"], "folder_delete_refused", json!({"request": rq.brief(), "response": rs.brief()}));
            }
            self.m.folders.remove(&(b, k));
        }
    }

    /// whether it is (`None`: neither a clear yes nor a clear no, which is reported)
    async fn folder_is_there(&mut self, b: &str, k: &str) -> Option<bool> {
        let mut all = Vec::new();
        for m in ["GET", "HEAD"] {
            let rq = self.w.sign(Rq::new(m, target(b, k)), &mut self.r);
            let rs = self.send(&["C01"], &rq).await?;
            let empty = rs.body.is_empty() && rs.get("content-length").map_or(true, |l| l == "0");
            let meta = self.m.folders.get(&(b.to_owned(), k.to_owned())).cloned().unwrap_or_default();
            match rs.status {
                200 if rs.meta() != meta => {
                    self.bad(&["C02"], "folder_metadata", json!({"request": rq.brief(), "response": rs.brief(), "expected": meta}));
                    return None;
                }
                200 if empty => all.push(true),
                404 => all.push(false),
                _ => {
                    self.bad(&["C01"], "folder_content", json!({"request": rq.brief(), "response": rs.brief()}));
                    return None;
                }
            }
        }
        if all[0] != all[1] {
            self.bad(&["C01"], "folder_get_head", json!({"folder": [b, k], "get, head": all}));
            return None;
        }
        Some(all[0])
    }

    pub async fn put_as(&mut self, b: &str, k: &str, data: Vec<u8>, meta: Meta) {
        let t = self.t(b, k);
        let mut rq = self.with_meta(Rq::new("PUT", t), &meta);
        if self.r.chance(1, 4) {
            rq = rq.h("content-md5", md5_b64(&data));
        }
        if self.r.chance(1, 4) {
            rq = rq.h("content-type", self.r.pick(&["text/plain", "application/octet-stream", "image/png; x=y"]));
        }
        if self.r.chance(1, 8) {
            rq = rq.h("x-amz-storage-class", self.r.pick(&["STANDARD", "REDUCED_REDUNDANCY"]));
        }
        let (rq, framing) = self.w.upload(rq, &data, &mut self.r);
        self.note(json!({"put": [b, k], "len": data.len(), "meta": meta, "framing": framing, "pieces": rq.chunks.len()}));
        self.last.1 = vec![(b.into(), k.into())];
        self.run.seen("framings", &format!("{framing} {}", rq.chunks.len().min(9)));
        let Some(rs) = self.send(&["C01"], &rq).await else { return };
        if !self.has_bucket(b) {
            self.want_error(&["C06"], "put_into_missing_bucket", &rq, &rs, &[404], &["NoSuchBucket"]);
            return;
        }
        if !rs.ok() {
            let props: &[&str] = if meta.is_empty() { &["C01"] } else { &["C01", "C02"] };
            return self.bad(props, "put_refused", json!({"request": rq.brief(), "response": rs.brief()}));
        }
        if rs.get("etag") != Some(etag(&data)) {
            return self.bad(&["C01"], "put_etag", json!({"request": rq.brief(), "response": rs.brief(), "expected": etag(&data)}));
        }
        self.store(b, k, data, meta, "C01");
    }

    fn store(&mut self, b: &str, k: &str, data: impl Into<Arc<Vec<u8>>>, meta: Meta, origin: &'static str) {
        if let Some(bk) = self.m.buckets.get_mut(b) {
            bk.insert(k.to_owned(), Obj { data: data.into(), meta, origin });
        }
    }

    pub async fn form(&mut self) {
        if !self.w.auth {
            return self.put().await;
        }
        let (b, k) = (self.pick_bucket(), self.pick_key());
        let data = self.new_content();
        let meta = metadata(&mut self.r);
        let mut f = Form::new(&k, &data, &mut self.r);
        for (n, v) in &meta {
            f.fields.push((format!("x-amz-meta-{n}"), v.clone().into_bytes()));
        }
        let cred = self.w.cred();
        f.sign(&cred, &policy_doc(&b, cred.date + chrono::Duration::hours(1), &[]));
        let mut rq = f.request(&b);
        let all = rq.all_body();
        let n = *self.r.pick(&[1usize, 3, 60]);
        rq.chunks = self.r.split(&all, n);
        self.note(json!({"form": [b, k], "len": data.len(), "meta": meta, "pieces": rq.chunks.len()}));
        self.last.1 = vec![(b.clone(), k.clone())];
        let Some(rs) = self.send(&["C18", "C01"], &rq).await else { return };
        if !self.has_bucket(&b) {
            self.want_error(&["C06"], "form_into_missing_bucket", &rq, &rs, &[404], &["NoSuchBucket"]);
            return;
        }
        if !rs.ok() {
            return self.bad(&["C18", "C01"], "form_refused", json!({"request": rq.brief(), "response": rs.brief()}));
        }
        if rs.get("etag") != Some(etag(&data)) {
            return self.bad(&["C18", "C01"], "form_etag", json!({"request": rq.brief(), "response": rs.brief(), "expected": etag(&data)}));
        }
        self.store(&b, &k, data, meta, "C18");
    }

    /// a refused upload
    async fn bad_put(&mut self) {
        let (b, k) = self.pick_object();
        let data = self.new_content();
        let meta = metadata(&mut self.r);
        let t = self.t(&b, &k);
        let rq = self.with_meta(Rq::new("PUT", t), &meta);
        let kind = self.r.below(3);
        let mut other = data.clone();
        other.push(b'x');
        let (sum, codes): (String, &[&str]) = match kind {
            0 => (md5_b64(&other), &["BadDigest"]),
            1 => ("AAAA".into(), &["InvalidDigest"]),
            _ => ("not base64!".into(), &["InvalidDigest"]),
        };
        let rq = rq.h("content-md5", sum);
        let (rq, _) = self.w.upload(rq, &data, &mut self.r);
        self.note(json!({"refused put": [b, k], "kind": kind}));
        let Some(rs) = self.send(&["C01"], &rq).await else { return };
        let codes: Vec<&str> = if self.has_bucket(&b) { codes.to_vec() } else { vec![] };
        self.want_error(&["C01", "C11"], "wrong_content_md5", &rq, &rs, &[400, 404], &codes);
    }

    pub async fn get(&mut self, b: &str, k: &str) {
        let t = self.t(b, k);
        let rq = self.w.sign(Rq::new("GET", t), &mut self.r);
        let Some(rs) = self.send(&["C01"], &rq).await else { return };
        self.judge_read(b, k, &rq, &rs, true);
    }

    /// properties a wrong content of this object speaks against
    fn blame(&self, b: &str, k: &str) -> Vec<&'static str> {
        let mut v = vec!["C01"];
        let addressed = self.last.1.iter().any(|(x, y)| x == b && y == k);
        if let Some(o) = self.obj(b, k) {
            v.push(o.origin);
        }
        if !self.last.0.is_empty() {
            v.push(self.last.0);
        }
        if !addressed && self.last.0 == "C05" {
            v.push("C05");
        }
        v
    }

    fn judge_read(&mut self, b: &str, k: &str, rq: &Rq, rs: &Rs, body: bool) {
        let det = |e: &str| json!({"request": rq.brief(), "response": rs.brief(), "expected": e, "bucket": b, "key": k});
        let blame = self.blame(b, k);
        match self.obj(b, k).cloned() {
            None if !self.has_bucket(b) => {
                self.want_error(&["C06"], "read_in_missing_bucket", rq, rs, &[404], &["NoSuchKey", "NoSuchBucket"]);
            }
            None => self.want_error(&blame, "read_of_absent_key", rq, rs, &[404], &["NoSuchKey"]),
            Some(o) => {
                if rs.status != 200 || rs.body_err.is_some() {
                    return self.bad(&blame, "object_unreadable", det("200"));
                }
                if rs.get("content-length") != Some(o.data.len().to_string()) {
                    return self.bad(&blame, "wrong_length", det(&format!("content-length {}", o.data.len())));
                }
                if body && rs.body != *o.data {
                    let at = rs.body.iter().zip(o.data.iter()).position(|(x, y)| x != y);
                    return self.bad(&blame, "wrong_bytes", det(&format!("{} bytes, first difference at {at:?}", o.data.len())));
                }
                if body && rs.get("etag") != Some(etag(&o.data)) {
                    return self.bad(&blame, "wrong_etag", det(&etag(&o.data)));
                }
                let meta = rs.meta();
                if meta != o.meta || rs.headers.iter().filter(|(n, _)| n.starts_with("x-amz-meta-")).count() != o.meta.len() {
                    let mut props = vec!["C02"];
                    if o.origin == "C07" || o.origin == "C18" {
                        props.push(o.origin);
                    }
                    return self.bad(&props, "wrong_metadata", det(&format!("{:?}", o.meta)));
                }
            }
        }
    }

    pub async fn head(&mut self, b: &str, k: &str) {
        let t = self.t(b, k);
        let rq = self.w.sign(Rq::new("HEAD", t), &mut self.r);
        let Some(rs) = self.send(&["C01"], &rq).await else { return };
        self.judge_read(b, k, &rq, &rs, false);
    }

    async fn delete(&mut self) {
        let (b, k) = self.pick_object();
        let t = self.t(&b, &k);
        let rq = self.w.sign(Rq::new("DELETE", t), &mut self.r);
        self.note(json!({"delete": [b, k]}));
        self.last.1 = vec![(b.clone(), k.clone())];
        let Some(rs) = self.send(&["C05"], &rq).await else { return };
        if !self.has_bucket(&b) {
            return self.want_error(&["C06"], "delete_in_missing_bucket", &rq, &rs, &[404], &["NoSuchBucket"]);
        }
        if rs.status != 204 {
            return self.bad(&["C05"], "delete_refused", json!({"request": rq.brief(), "response": rs.brief()}));
        }
        if let Some(bk) = self.m.buckets.get_mut(&b) {
            bk.remove(&k);
        }
    }

    async fn delete_many(&mut self) {
        let b = self.pick_bucket();
        let mut keys: Vec<String> = Vec::new();
        let n = *self.r.pick(&[1usize, 1, 2, 3, 5, 8]);
        let live: Vec<String> = self.m.buckets.get(&b).map(|o| o.keys().cloned().collect()).unwrap_or_default();
        for _ in 0..n {
            let k = if !live.is_empty() && self.r.chance(2, 3) { self.r.pick(&live).clone() } else { self.pick_key() };
            keys.push(k);
        }
        if keys.iter().any(|k| k.chars().any(|c| c < ' ' || c == '\u{7f}' || c == '\u{85}')) {
            return;
        }
        if self.r.chance(1, 5) {
            keys.push(format!("absent-{}", self.r.below(1000)));
        }
        if self.r.chance(1, 50) {
            // as many as there may be
            let at = self.r.below(keys.len() + 1);
            let fill: Vec<String> = (keys.len()..1000).map(|i| format!("absent-{i}/<&>")).collect();
            keys.splice(at..at, fill);
            self.run.count("deletions of a thousand names", 1);
        }
        let quiet = *self.r.pick(&[None, None, Some(true), Some(false)]);
        let style = self.r.below(4);
        let mut doc = String::new();
        if style != 1 {
            doc.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
        }
        doc.push_str(if style == 2 { "<Delete xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\">" } else { "<Delete>" });
        let q = quiet.map(|q| format!("<Quiet>{q}</Quiet>")).unwrap_or_default();
        let quiet_first = self.r.chance(1, 2);
        if quiet_first {
            doc.push_str(&q);
        }
        for k in &keys {
            let esc: String = if style == 3 { k.chars().map(|c| if c.is_ascii_alphanumeric() { c.to_string() } else { format!("&#{};", c as u32) }).collect() } else { xml_escape(k) };
            doc.push_str(&format!("<Object><Key>{esc}</Key></Object>"));
        }
        if !quiet_first {
            doc.push_str(&q);
        }
        doc.push_str("</Delete>");
        let tgt = (*self.r.pick(&["?delete", "?delete="])).to_owned();
        let rq = Rq::new("POST", format!("/{b}{tgt}")).h("content-md5", md5_b64(doc.as_bytes())).body(doc.clone());
        let rq = self.w.sign(rq, &mut self.r);
        self.note(json!({"delete_many": b, "keys": keys, "quiet": quiet}));
        self.last.1 = keys.iter().map(|k| (b.clone(), k.clone())).collect();
        let Some(rs) = self.send(&["C05"], &rq).await else { return };
        if !self.has_bucket(&b) {
            return self.want_error(&["C06"], "delete_many_in_missing_bucket", &rq, &rs, &[404], &["NoSuchBucket"]);
        }
        let det = |e: &str| json!({"request": rq.brief(), "response": rs.brief(), "expected": e, "keys": keys});
        if !rs.ok() {
            return self.bad(&["C05"], "delete_many_refused", det("200"));
        }
        let doc = match xml::parse_lenient(&rs.body) {
            Ok(d) if d.name == "DeleteResult" => d,
            _ => return self.bad(&["C05"], "delete_many_document", det("a DeleteResult document")),
        };
        let mut got: Vec<String> = doc.all("Deleted").filter_map(|e| e.text_of("Key")).collect();
        let errors = doc.all("Error").count();
        let mut want = if quiet == Some(true) { vec![] } else { keys.clone() };
        got.sort();
        want.sort();
        if got != want || errors != 0 {
            return self.bad(&["C05"], "delete_many_report", det(&format!("deleted {want:?}, no errors; got {got:?} and {errors} errors")));
        }
        if let Some(bk) = self.m.buckets.get_mut(&b) {
            for k in &keys {
                bk.remove(k);
            }
        }
    }

    async fn copy(&mut self) {
        let (sb, sk) = self.pick_object();
        let (db, dk) = match self.r.below(5) {
            0 => (sb.clone(), sk.clone()),
            1 => (sb.clone(), self.pick_key()),
            2 => self.pick_object(),
            _ => (self.pick_bucket(), self.pick_key()),
        };
        if [&sk, &dk].iter().any(|k| k.ends_with('/')) {
            return;
        }
        let source = {
            let body = if self.r.chance(1, 2) { format!("{sb}/{}", pct_path(sk.as_bytes())) } else { format!("{sb}/{}", pct_path_any(sk.as_bytes(), &mut self.r)) };
            match self.r.below(4) {
                0 => format!("/{body}"),
                1 => format!("{sb}/{}", pct(sk.as_bytes())),
                _ => body,
            }
        };
        let directive = *self.r.pick(&[None, None, Some("COPY"), Some("REPLACE")]);
        let t = self.t(&db, &dk);
        let mut rq = Rq::new("PUT", t).h("x-amz-copy-source", &source);
        let mut new_meta = Meta::new();
        if let Some(d) = directive {
            rq = rq.h("x-amz-metadata-directive", d);
        }
        if directive == Some("REPLACE") {
            new_meta = metadata(&mut self.r);
            rq = self.with_meta(rq, &new_meta);
        }
        let rq = self.w.sign(rq, &mut self.r);
        self.note(json!({"copy": [sb, sk], "to": [db, dk], "source": source, "directive": directive}));
        self.last.1 = vec![(db.clone(), dk.clone())];
        let Some(rs) = self.send(&["C07"], &rq).await else { return };
        let det = |e: &str| json!({"request": rq.brief(), "response": rs.brief(), "expected": e, "source": [sb, sk], "destination": [db, dk]});
        if !self.has_bucket(&sb) || !self.has_bucket(&db) || self.obj(&sb, &sk).is_none() {
            let props: &[&str] = if self.has_bucket(&sb) && self.has_bucket(&db) { &["C07"] } else { &["C07", "C06"] };
            return self.want_error(props, "copy_of_missing", &rq, &rs, &[404], &["NoSuchKey", "NoSuchBucket"]);
        }
        if !rs.ok() {
            return self.bad(&["C07"], "copy_refused", det("200"));
        }
        let Some(src) = self.obj(&sb, &sk).cloned() else { return };
        let tag = xml::parse_lenient(&rs.body).ok().filter(|d| d.name == "CopyObjectResult").and_then(|d| d.text_of("ETag"));
        if tag != Some(etag(&src.data)) {
            return self.bad(&["C07", "C01"], "copy_etag", det(&etag(&src.data)));
        }
        let meta = if directive == Some("REPLACE") { new_meta } else { src.meta };
        self.store(&db, &dk, src.data, meta, "C07");
    }

    pub async fn list(&mut self, b: &str) {
        let prefix: Option<String> = if self.r.chance(1, 2) {
            None
        } else {
            let k = if self.r.chance(1, 8) { "no-such".to_owned() } else { self.pick_object().1 };
            let n = self.r.range(0, k.chars().count());
            let part: String = k.chars().take(n).collect();
            let dir = k.rsplit_once('/').map_or("", |d| d.0).to_owned();
            Some(match self.r.below(10) {
                0 => k,
                1 => format!("{k}/"),
                2 => format!("{dir}/"),
                3 => dir,
                4 => format!("{dir}//"),
                5 => {
                    let tail = *self.r.pick(&["/", "/", " ", ".", "*", "%", "\u{301}"]);
                    format!("{part}{tail}")
                }
                6 => part.to_uppercase(),
                _ => part,
            })
        };
        for v2 in [false, true] {
            self.list_as(b, v2, prefix.as_deref()).await;
            if self.dead {
                return;
            }
        }
    }

    pub async fn list_as(&mut self, b: &str, v2: bool, prefix: Option<&str>) {
        let mut q = Vec::new();
        if v2 {
            q.push("list-type=2".to_owned());
        }
        if let Some(p) = prefix {
            q.push(format!("prefix={}", pct(p.as_bytes())));
        }
        // keys may be asked for in a form in which any character can be told
        let coded = self.r.chance(1, 4);
        if coded {
            q.push("encoding-type=url".to_owned());
        }
        if self.r.chance(1, 2) {
            q.reverse();
        }
        let slash = if self.r.chance(1, 4) { "/" } else { "" };
        let t = if q.is_empty() { format!("/{b}{slash}") } else { format!("/{b}{slash}?{}", q.join("&")) };
        let rq = self.w.sign(Rq::new("GET", t), &mut self.r);
        let Some(rs) = self.send(&["C04"], &rq).await else { return };
        if !self.has_bucket(b) {
            return self.want_error(&["C04", "C06"], "list_of_missing_bucket", &rq, &rs, &[404], &["NoSuchBucket"]);
        }
        let want: Vec<(String, usize)> = self.m.buckets.get(b).map_or_else(Vec::new, |o| {
            o.iter().filter(|(k, _)| prefix.map_or(true, |p| k.starts_with(p))).map(|(k, o)| (k.clone(), o.data.len())).collect()
        });
        let mut blame = vec!["C04"];
        blame.push(self.last.0);
        let det = |e: &str| json!({"request": rq.brief(), "status": rs.status, "body": String::from_utf8_lossy(&rs.body[..rs.body.len().min(3000)]), "expected": e});
        if !rs.ok() {
            return self.bad(&["C04"], "list_refused", det("200"));
        }
        let doc = match xml::parse_lenient(&rs.body) {
            Ok(d) if d.name == "ListBucketResult" => d,
            Ok(_) => return self.bad(&["C04"], "list_document", det("a ListBucketResult document")),
            Err(e) => return self.bad(&["C04"], "list_document", det(&format!("well-formed XML: {e}"))),
        };
        // what the answer says about its keys counts
        let coded = match doc.text_of("EncodingType").as_deref() {
            None | Some("") => false,
            Some("url") if coded => true,
            Some(_) => return self.bad(&["C04"], "list_encoding_type", det("the encoding type of the request")),
        };
        let key = |k: String| if coded { uncoded(&k).unwrap_or_else(|| format!("not encoded: {k:?}")) } else { k };
        self.run.count("listings with encoded keys", u64::from(coded));
        let got: Vec<(String, usize)> = doc
            .all("Contents")
            .map(|c| (key(c.text_of("Key").unwrap_or_default()), c.text_of("Size").and_then(|s| s.parse().ok()).unwrap_or(usize::MAX)))
            .collect();
        self.run.count("listings", 1);
        self.run.count("listed entries", got.len() as u64);
        if got != want {
            let mut sorted = got.clone();
            sorted.sort();
            let sig = if sorted == want { "list_order" } else { "list_content" };
            let props: Vec<&str> = if sig == "list_order" { vec!["C04"] } else { blame };
            return self.bad(&props, sig, det(&format!("{want:?}")));
        }
        if v2 && doc.text_of("KeyCount") != Some(want.len().to_string()) {
            return self.bad(&["C04"], "key_count", det(&want.len().to_string()));
        }
    }

    pub async fn list_buckets(&mut self) {
        let rq = self.w.sign(Rq::new("GET", "/"), &mut self.r);
        let Some(rs) = self.send(&["C04", "C06"], &rq).await else { return };
        let want: Vec<String> = self.m.buckets.keys().cloned().collect();
        let det = |e: &str| json!({"request": rq.brief(), "response": rs.brief(), "expected": e});
        let doc = match xml::parse_lenient(&rs.body) {
            Ok(d) if rs.ok() && d.name == "ListAllMyBucketsResult" => d,
            _ => return self.bad(&["C04", "C06"], "list_buckets_refused", det("a ListAllMyBucketsResult document")),
        };
        let mut got: Vec<String> = doc.all("Buckets").flat_map(|b| b.all("Bucket").filter_map(|x| x.text_of("Name")).collect::<Vec<_>>()).collect();
        got.sort();
        if got != want {
            self.bad(&["C04", "C06"], "list_buckets_content", det(&format!("{want:?}")));
        }
    }

    async fn mk_bucket(&mut self) {
        let b = self.r.pick(&self.buckets.clone()).clone();
        self.mk_bucket_as(&b).await;
    }

    pub async fn mk_bucket_as(&mut self, b: &str) {
        let mut rq = Rq::new("PUT", format!("/{b}"));
        if self.r.chance(1, 4) {
            rq = rq.body("<CreateBucketConfiguration xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\"><LocationConstraint>eu-west-1</LocationConstraint></CreateBucketConfiguration>");
        }
        let rq = self.w.sign(rq, &mut self.r);
        self.note(json!({"mk_bucket": b}));
        let Some(rs) = self.send(&["C06"], &rq).await else { return };
        if self.has_bucket(b) {
            return self.want_error(&["C06"], "create_existing_bucket", &rq, &rs, &[409], &["BucketAlreadyExists", "BucketAlreadyOwnedByYou"]);
        }
        if rs.status != 200 {
            return self.bad(&["C06"], "create_bucket_refused", json!({"request": rq.brief(), "response": rs.brief()}));
        }
        self.m.buckets.insert(b.to_owned(), BTreeMap::new());
    }

    async fn rm_bucket(&mut self) {
        let b = self.r.pick(&self.buckets.clone()).clone();
        let rq = self.w.sign(Rq::new("DELETE", format!("/{b}")), &mut self.r);
        self.note(json!({"rm_bucket": b}));
        let Some(rs) = self.send(&["C06"], &rq).await else { return };
        if !self.has_bucket(&b) {
            return self.want_error(&["C06"], "delete_missing_bucket", &rq, &rs, &[404], &["NoSuchBucket"]);
        }
        // a server may refuse to delete a bucket with objects
        if rs.status == 409 && !self.m.buckets.get(&b).map_or(true, BTreeMap::is_empty) {
            self.run.count("non-empty bucket kept", 1);
            return;
        }
        if rs.status != 204 {
            return self.bad(&["C06"], "delete_bucket_refused", json!({"request": rq.brief(), "response": rs.brief()}));
        }
        self.m.buckets.remove(&b);
        self.m.folders.retain(|(x, _), _| *x != b);
        for u in &mut self.m.uploads {
            if u.bucket == b {
                u.live = false;
            }
        }
    }

    pub async fn head_bucket(&mut self, b: &str) {
        for location in [false, true] {
            let rq = if location { Rq::new("GET", format!("/{b}?location")) } else { Rq::new("HEAD", format!("/{b}")) };
            let rq = self.w.sign(rq, &mut self.r);
            let Some(rs) = self.send(&["C06"], &rq).await else { return };
            let want = if self.has_bucket(b) { 200 } else { 404 };
            if rs.status != want {
                return self.bad(&["C06"], "bucket_existence", json!({"request": rq.brief(), "response": rs.brief(), "expected": want}));
            }
            if location && want == 200 && xml::parse_lenient(&rs.body).map_or(true, |d| d.name != "LocationConstraint") {
                return self.bad(&["C20"], "location_document", json!({"response": rs.brief()}));
            }
        }
    }

    async fn mp_create(&mut self) {
        let (b, k) = (self.pick_bucket(), self.pick_key());
        let meta = metadata(&mut self.r);
        let t = self.t(&b, &k);
        let q = *self.r.pick(&["?uploads", "?uploads="]);
        let rq = self.with_meta(Rq::new("POST", format!("{t}{q}")), &meta);
        let rq = self.w.sign(rq, &mut self.r);
        self.note(json!({"mp_create": [b, k], "meta": meta}));
        let Some(rs) = self.send(&["C08"], &rq).await else { return };
        if !self.has_bucket(&b) {
            return self.want_error(&["C06"], "multipart_in_missing_bucket", &rq, &rs, &[404], &["NoSuchBucket"]);
        }
        let id = xml::parse_lenient(&rs.body).ok().and_then(|d| d.text_of("UploadId"));
        match id {
            Some(id) if rs.ok() && !id.is_empty() && !self.m.uploads.iter().any(|u| u.id == id) => {
                self.m.uploads.push(Upload { id, bucket: b, key: k, meta, parts: BTreeMap::new(), live: true });
            }
            _ => self.bad(&["C08"], "multipart_create_refused", json!({"request": rq.brief(), "response": rs.brief()})),
        }
    }

    fn pick_upload(&mut self) -> Option<usize> {
        if self.m.uploads.is_empty() {
            return None;
        }
        let live: Vec<usize> = (0..self.m.uploads.len()).filter(|&i| self.m.uploads[i].live).collect();
        if !live.is_empty() && !self.r.chance(1, 10) { Some(*self.r.pick(&live)) } else { Some(self.r.below(self.m.uploads.len())) }
    }

    async fn mp_part(&mut self) {
        let Some(i) = self.pick_upload() else { return self.mp_create().await };
        let u = self.m.uploads[i].clone();
        let n = *self.r.pick(&[1i64, 2, 3, 4, 5, 9, 10, 11, 100, 9999, 10000]);
        if self.r.chance(1, 15) {
            return self.mp_bad_number(&u, n).await;
        }
        let data = self.new_content();
        let t = self.t(&u.bucket, &u.key);
        let q = if self.r.chance(1, 2) { format!("?partNumber={n}&uploadId={}", u.id) } else { format!("?uploadId={}&partNumber={n}", u.id) };
        let mut rq = Rq::new("PUT", format!("{t}{q}"));
        if self.r.chance(1, 4) {
            rq = rq.h("content-md5", md5_b64(&data));
        }
        let (rq, framing) = self.w.upload(rq, &data, &mut self.r);
        self.note(json!({"mp_part": i, "n": n, "len": data.len(), "framing": framing}));
        let Some(rs) = self.send(&["C08"], &rq).await else { return };
        if !u.live {
            return self.want_error(&["C08"], "part_of_dead_upload", &rq, &rs, &[404], &["NoSuchUpload", "NoSuchBucket"]);
        }
        if !rs.ok() || rs.get("etag") != Some(etag(&data)) {
            return self.bad(&["C08"], "part_refused", json!({"request": rq.brief(), "response": rs.brief(), "expected": etag(&data)}));
        }
        self.m.uploads[i].parts.insert(n, Arc::new(data));
    }

    /// a part whose number is none (which is found by the listings and downloads of what is completed, if it is stored)
    async fn mp_bad_number(&mut self, u: &Upload, n: i64) {
        let n = match self.r.below(4) {
            0 => (*self.r.pick(&["0", "-1", "10001", "x", "", "1.5", "1e3", "0x1", "-0", "1-1", "1/../2"])).to_owned(),
            1 => format!("-{n}"),
            _ => crate::util::wrapping(n.unsigned_abs(), &mut self.r).to_string(),
        };
        let data = self.new_content();
        let t = self.t(&u.bucket, &u.key);
        let rq = Rq::new("PUT", format!("{t}?partNumber={}&uploadId={}", pct(n.as_bytes()), u.id));
        let (rq, _) = self.w.upload(rq, &data, &mut self.r);
        self.note(json!({"part with a bad number": n, "len": data.len()}));
        let Some(rs) = self.send(&["C08"], &rq).await else { return };
        self.run.seen("bad part numbers", &n);
        self.want_error(&["C08"], "bad_part_number", &rq, &rs, &[400, 404], &[]);
    }

    fn complete_rq(&mut self, b: &str, k: &str, id: &str, parts: &[(i64, Option<String>)]) -> Rq {
        let ns = if self.r.chance(1, 2) { " xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\"" } else { "" };
        let mut doc = format!("<CompleteMultipartUpload{ns}>");
        for (n, tag) in parts {
            let num = format!("<PartNumber>{n}</PartNumber>");
            let tag = tag.as_ref().map(|t| format!("<ETag>{}</ETag>", xml_escape(t))).unwrap_or_default();
            if self.r.chance(1, 2) {
                doc.push_str(&format!("<Part>{num}{tag}</Part>"));
            } else {
                doc.push_str(&format!("<Part>{tag}{num}</Part>"));
            }
        }
        doc.push_str("</CompleteMultipartUpload>");
        let t = self.t(b, k);
        let rq = Rq::new("POST", format!("{t}?uploadId={}", pct(id.as_bytes()))).body(doc);
        self.w.sign(rq, &mut self.r)
    }

    async fn mp_complete(&mut self) {
        let Some(i) = self.pick_upload() else { return self.mp_create().await };
        let u = self.m.uploads[i].clone();
        let all: Vec<i64> = u.parts.keys().copied().collect();
        if u.live && all.is_empty() {
            return self.mp_part().await;
        }
        let mut chosen: Vec<i64> = all.clone();
        if self.r.chance(1, 3) {
            let keep = self.r.range(1, all.len().max(1));
            self.r.shuffle(&mut chosen);
            chosen.truncate(keep);
            chosen.sort_unstable();
        }
        if !u.live {
            chosen = vec![1];
        }
        let parts: Vec<(i64, Option<String>)> = chosen
            .iter()
            .map(|n| {
                let tag = u.parts.get(n).map_or_else(|| "\"x\"".into(), |d| etag(d));
                let tag = match self.r.below(3) {
                    0 => tag.trim_matches('"').to_owned(),
                    _ => tag,
                };
                (*n, Some(tag))
            })
            .collect();
        let rq = self.complete_rq(&u.bucket, &u.key, &u.id, &parts);
        self.note(json!({"mp_complete": i, "to": [u.bucket, u.key], "parts": chosen}));
        self.last.1 = vec![(u.bucket.clone(), u.key.clone())];
        let Some(rs) = self.send(&["C08"], &rq).await else { return };
        if !u.live {
            return self.want_error(&["C08"], "completion_of_dead_upload", &rq, &rs, &[404], &["NoSuchUpload", "NoSuchBucket"]);
        }
        let data: Vec<u8> = chosen.iter().filter_map(|n| u.parts.get(n)).flat_map(|d| d.iter().copied()).collect();
        let det = |e: &str| json!({"request": rq.brief(), "response": rs.brief(), "expected": e});
        if !rs.ok() {
            return self.bad(&["C08"], "completion_refused", det("200"));
        }
        let tag = xml::parse_lenient(&rs.body).ok().and_then(|d| d.text_of("ETag"));
        if tag != Some(etag(&data)) {
            return self.bad(&["C08", "C01"], "completion_etag", det(&etag(&data)));
        }
        self.m.uploads[i].live = false;
        self.store(&u.bucket, &u.key, data, u.meta, "C08");
        self.run.count("completed multipart uploads", 1);
        self.run.seen("part lists", &format!("{chosen:?}"));
    }

    async fn mp_bad(&mut self) {
        let Some(i) = self.pick_upload() else { return self.mp_create().await };
        let u = self.m.uploads[i].clone();
        let mut parts: Vec<(i64, Option<String>)> = u.parts.iter().map(|(n, d)| (*n, Some(etag(d)))).collect();
        let (mut b, mut k, mut id) = (u.bucket.clone(), u.key.clone(), u.id.clone());
        let kind = self.r.below(9);
        match kind {
            0 => {
                // a part which was not uploaded
                let n = (1..).find(|n| !u.parts.contains_key(n)).unwrap_or(1);
                parts.push((n, Some(etag(b"nothing"))));
                parts.sort();
            }
            1 => {
                let Some(p) = parts.last_mut() else { return };
                let good = p.1.clone().unwrap_or_default().trim_matches('"').to_owned();
                let bad = etag(b"something else").trim_matches('"').to_owned();
                let mut off = good.clone().into_bytes();
                let at = self.r.below(off.len());
                off[at] = if off[at] == b'0' { b'1' } else { b'0' };
                let off = String::from_utf8_lossy(&off).into_owned();
                p.1 = Some(match self.r.below(12) {
                    0 | 1 => bad,
                    2 => off,
                    3 => format!("\"{off}\""),
                    4 => good[..31].to_owned(),
                    5 => format!("\"{}\"", &good[1..]),
                    6 => format!("{good}0"),
                    7 => format!("\"{good}-1\""),
                    8 => "*".to_owned(),
                    9 => format!("\"{good}\", \"{bad}\""),
                    10 => md5_b64(u.parts.values().next_back().map_or(b"".as_slice(), |d| d.as_slice())),
                    _ => format!("\"{bad}\""),
                });
            }
            2 => {
                if parts.len() < 2 {
                    return;
                }
                parts.reverse();
            }
            3 => parts.clear(),
            4 => {
                let Some(p) = parts.last().cloned() else { return };
                parts.push(p);
            }
            5 => {
                k = self.pick_key();
                if k == u.key {
                    return;
                }
            }
            6 => {
                let Some(other) = self.m.buckets.keys().find(|x| **x != u.bucket) else { return };
                b = other.clone();
            }
            7 => id = (*self.r.pick(&["00000000-0000-4000-8000-000000000000", "nonsense", "../../x", "", "%2e%2e"])).to_owned(),
            _ => {
                // an old version of a part
                let Some((n, _)) = parts.first().cloned() else { return };
                let old = etag(u.parts.get(&n).map_or(b"".as_slice(), |d| d.as_slice()));
                let data = format!("newer content {}", self.r.u64()).into_bytes();
                if u.live {
                    let t = self.t(&u.bucket, &u.key);
                    let rq = Rq::new("PUT", format!("{t}?partNumber={n}&uploadId={}", u.id));
                    let (rq, _) = self.w.upload(rq, &data, &mut self.r);
                    let Some(rs) = self.send(&["C08"], &rq).await else { return };
                    if rs.status != 200 {
                        return self.bad(&["C08"], "part_refused", json!({"request": rq.brief(), "response": rs.brief()}));
                    }
                    self.m.uploads[i].parts.insert(n, Arc::new(data));
                }
                parts[0].1 = Some(old);
            }
        }
        if parts.is_empty() && kind != 3 {
            parts.push((1, Some(etag(b"x"))));
        }
        let rq = self.complete_rq(&b, &k, &id, &parts);
        self.note(json!({"mp_bad": i, "kind": kind, "bucket": b, "key": k, "id": id, "parts": parts}));
        let Some(rs) = self.send(&["C08"], &rq).await else { return };
        self.run.seen("refused completions", &format!("{kind} {} {:?}", rs.status, rs.code()));
        if !(400..500).contains(&rs.status) || rs.code().is_none() {
            self.bad(&["C08"], &format!("bad_completion_{kind}_accepted"), json!({"request": rq.brief(), "response": rs.brief()}));
        }
    }

    /// look at every object that was ever named
    pub async fn verify(&mut self) {
        if self.dead {
            return;
        }
        let mut touched = 0;
        for b in self.buckets.clone() {
            if self.dead {
                return;
            }
            if !self.has_bucket(&b) {
                if self.r.chance(1, 3) {
                    self.head_bucket(&b).await;
                }
                continue;
            }
            for k in self.keys.clone() {
                if self.dead {
                    return;
                }
                let data_len = self.obj(&b, &k).map_or(0, |o| o.data.len());
                let fresh = self.last.1.iter().any(|(x, y)| *x == b && *y == k);
                if data_len > 100_000 && !fresh && self.r.chance(3, 4) {
                    self.head(&b, &k).await;
                } else {
                    self.get(&b, &k).await;
                    if fresh || self.r.chance(1, 4) {
                        self.head(&b, &k).await;
                    }
                }
                touched += 1;
            }
        }
        self.run.count("objects compared with the model", touched);
        if self.r.chance(1, 3) && !self.dead {
            self.list_buckets().await;
        }
    }

    pub fn state_key(&self) -> String {
        let mut s = String::new();
        for (b, os) in &self.m.buckets {
            s.push_str(b);
            for (k, o) in os {
                s.push_str(&format!("|{k}:{}:{}", o.data.len(), o.meta.len()));
            }
            s.push('\n');
        }
        for u in &self.m.uploads {
            s.push_str(&format!("{}:{:?};", u.live, u.parts.keys().collect::<Vec<_>>()));
        }
        s
    }
}

/// run histories, several at a time, until the budget is used up
pub async fn explore(run: &'static Run, p: &'static Profile, steps: usize) {
    if let Some(n) = std::env::var("S3MON_EPISODE").ok().and_then(|s| s.parse().ok()) {
        history(run, p, steps, n).await;
        return;
    }
    let workers: Vec<_> = (0..8u64)
        .map(|w| {
            tokio::spawn(async move {
                let mut ep = w;
                if p.list_always && w < 2 {
                    many(run, p, 1_000_000 + w).await;
                }
                while run.more() {
                    history(run, p, steps, ep).await;
                    run.count("histories", 1);
                    ep += 8;
                }
            })
        })
        .collect();
    for w in workers {
        if let Err(e) = w.await {
            run.problem(format!("worker: {e}"));
        }
    }
}

/// a bucket with more objects than a page of S3 has
pub async fn many(run: &Run, p: &Profile, n: u64) {
    let mut e = Eng::new(run, n, p);
    let b = "many-objects".to_owned();
    e.mk_bucket_as(&b).await;
    let count = *e.r.pick(&[1001usize, 1003, 1100, 2002]);
    let width = *e.r.pick(&[1usize, 40, 400]);
    let mut keys: Vec<String> = (0..count).map(|i| if i % width == 0 { format!("flat-{i}") } else { format!("d{}/{}/k{i}", i % width, i % 7) }).collect();
    e.r.shuffle(&mut keys);
    for k in &keys {
        if e.dead || !run.more() {
            return;
        }
        let data = k.as_bytes()[..e.r.below(k.len())].to_vec();
        e.put_as(&b, k, data, Meta::new()).await;
    }
    for prefix in [None, Some("d"), Some("flat-"), Some("d1"), Some("d1/"), Some("d1/3/k1"), Some("")] {
        for v2 in [false, true] {
            if !e.dead {
                e.list_as(&b, v2, prefix).await;
                run.eval(&format!("{count} objects in {width} directories, {prefix:?} {v2}"), true);
            }
        }
    }
    run.max("objects in one listing", count as u64);
}

pub async fn history(run: &Run, p: &Profile, steps: usize, n: u64) {
    let mut e = Eng::new(run, n, p);
    // start with some buckets
    let initial: Vec<String> = e.buckets.iter().take((p.buckets + 1) / 2).cloned().collect();
    for b in initial {
        e.mk_bucket_as(&b).await;
    }
    for _ in 0..steps {
        if e.dead || !run.more() {
            break;
        }
        let op = OPS[e.r.weighted(&p.weights)];
        let before = e.state_key();
        e.step(op).await;
        if !e.dead {
            e.verify().await;
        }
        if !e.dead && p.list_always {
            let b = e.pick_bucket();
            e.list(&b).await;
        }
        let after = e.state_key();
        run.eval(&format!("{op:?}\n{before}\n{after}"), before != after || !e.m.buckets.is_empty());
        run.seen("model states", &after);
    }
    let tail: Vec<Value> = e.log.iter().take(12).cloned().collect();
    run.sample(json!({"history": n, "auth": e.w.auth, "first operations": tail}));
    let _ = show(b"");
}

/// what the percent-encoded `s` stands for; `None` if it contains something which needs to be encoded and is not
fn uncoded(s: &str) -> Option<String> {
    let mut out = Vec::new();
    let mut b = s.bytes();
    while let Some(c) = b.next() {
        match c {
            b'%' => {
                let mut hex = || char::from(b.next()?).to_digit(16);
                let (h, l) = (hex()?, hex()?);
                out.push(u8::try_from(h * 16 + l).ok()?);
            }
            b'+' => out.push(b' '),
            c if c.is_ascii_graphic() => out.push(c),
            _ => return None,
        }
    }
    String::from_utf8(out).ok()
}
