//! C10 (and part of C06): concurrent histories over a server whose file-system
//! calls are delayed at random, checked for linearizability.
use super::parallel;
use crate::ev::Run;
use crate::http::{self, Conn, Out, Rq, Rs};
use crate::lin::{self, Call, Verdict};
use crate::sig::{policy_doc, Cred, Form};
use crate::sut::{Mode, Opts, Server, MUTATE};
use crate::util::{etag, fnv, Rng, TempDir};
use crate::world::{self, target, World, AK, SK};
use crate::xml;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// content and metadata of an object (0: no metadata)
type Version = (u32, u32);

#[derive(Clone, Debug, PartialEq, Eq)]
enum KOp {
    Write(Version),
    Remove,
    Read(Option<Version>),
    /// only content and length were seen (no metadata can be told from it)
    ReadContent(u32),
}

const BASE: [usize; 6] = [1, 2000, 8000, 40_000, 200_000, 900_000];

/// contents by number: all of different length and digest
fn data_of(n: u32) -> Vec<u8> {
    let class = match n % 16 {
        0..=5 => 0,
        6..=9 => 1,
        10 | 11 => 2,
        12 | 13 => 3,
        14 => 4,
        _ => usize::from(n % 64 == 15) + 4,
    };
    let mut v = format!("<{n}>").into_bytes();
    v.extend(Rng::new(u64::from(n)).bytes(BASE[class] + n as usize));
    v
}
fn len_of(n: u32) -> usize {
    data_of(n).len()
}

struct Book {
    by_tag: HashMap<String, u32>,
    by_len: HashMap<usize, u32>,
    /// metadata a content was uploaded with
    meta: HashMap<u32, u32>,
}

struct Ep {
    run: &'static Run,
    n: u64,
    start: Instant,
    next: AtomicU32,
    book: Mutex<Book>,
    calls: Mutex<BTreeMap<usize, Vec<(Call<KOp>, String)>>>,
    lists: Mutex<Vec<(u64, u64, BTreeMap<String, usize>)>>,
    keys: Vec<String>,
    stable: Vec<(String, u32)>,
    absent: Vec<String>,
    bucket: String,
    cred: Option<Cred>,
    addr: std::net::SocketAddr,
    dead: std::sync::atomic::AtomicBool,
    /// the server may die any time
    crashing: bool,
}

fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(std::sync::PoisonError::into_inner)
}

impl Ep {
    fn now(&self) -> u64 {
        self.start.elapsed().as_nanos() as u64
    }
    fn fresh(&self, with_meta: bool) -> (u32, u32, Vec<u8>) {
        let n = self.next.fetch_add(1, Ordering::SeqCst) + 1;
        let d = data_of(n);
        let m = if with_meta { n } else { 0 };
        let mut b = lock(&self.book);
        b.by_tag.insert(etag(&d), n);
        b.by_len.insert(d.len(), n);
        b.meta.insert(n, m);
        (n, m, d)
    }
    fn bad(&self, sig: &str, detail: Value) {
        self.dead.store(true, Ordering::SeqCst);
        self.run.violation(sig, json!({"episode": self.n, "what": detail}));
    }
    fn note(&self, key: usize, inv: u64, res: u64, op: KOp, what: &str) {
        lock(&self.calls).entry(key).or_default().push((Call { inv, res, op, optional: false }, what.to_owned()));
    }
    /// no (whole) answer came because the server died
    fn lost(&self, o: &Out) -> bool {
        let gone = self.crashing && (matches!(o, Err(http::Fail::Transport(_))) || matches!(o, Ok(rs) if rs.body_err.is_some()));
        if gone {
            self.dead.store(true, Ordering::SeqCst);
        }
        gone
    }
    fn maybe(&self, key: usize, inv: u64, op: KOp, what: &str) {
        lock(&self.calls).entry(key).or_default().push((Call { inv, res: u64::MAX, op, optional: true }, format!("{what} (unanswered)")));
    }
    async fn call(&self, conn: &mut Option<Conn>, rq: &Rq) -> Out {
        if conn.is_none() {
            *conn = Conn::open(self.addr).await.ok();
        }
        let Some(c) = conn else { return Err(http::Fail::Transport("cannot connect".into())) };
        let o = c.send(rq).await;
        let close = match &o {
            Err(_) => true,
            Ok(rs) => rs.body_err.is_some() || rs.status >= 400 || rs.get("connection").map_or(false, |v| v.eq_ignore_ascii_case("close")),
        };
        if close {
            *conn = None;
        }
        o
    }
    /// the version an answer shows, or what is wrong with it
    fn version(&self, rs: &Rs, head: bool, range: Option<(usize, usize)>) -> Result<(u32, u32), String> {
        let b = lock(&self.book);
        let total = match range {
            Some(_) => rs.get("content-range").and_then(|v| v.rsplit('/').next()?.parse::<usize>().ok()).ok_or("no Content-Range")?,
            None => rs.get("content-length").and_then(|v| v.parse().ok()).unwrap_or(rs.body.len()),
        };
        let n = *b.by_len.get(&total).ok_or(format!("no version has the length {total}"))?;
        if !head {
            if let Some(e) = &rs.body_err {
                return Err(format!("the body broke off: {e}"));
            }
            let tag = rs.get("etag").ok_or("no ETag")?;
            if b.by_tag.get(&tag) != Some(&n) {
                return Err(format!("length of version {n}, but ETag of {:?}", b.by_tag.get(&tag)));
            }
            let d = data_of(n);
            let want = match range {
                Some((a, z)) => &d[a.min(d.len())..(z + 1).min(d.len())],
                None => &d[..],
            };
            if rs.body != want {
                return Err(format!("not the content of version {n}"));
            }
        }
        let meta = rs.meta();
        let m = match meta.get("v") {
            None if meta.is_empty() => 0,
            Some(v) if meta.len() == 2 && meta.get("w") == Some(v) => v.parse().map_err(|_| "metadata")?,
            _ => return Err(format!("metadata of no version: {meta:?}")),
        };
        Ok((n, m))
    }

    fn sign(&self, rq: Rq, r: &mut Rng) -> Rq {
        world::sign(self.cred.as_ref(), rq, r)
    }
    fn with_meta(rq: Rq, m: u32) -> Rq {
        if m == 0 { rq } else { rq.h("x-amz-meta-v", m.to_string()).h("x-amz-meta-w", m.to_string()) }
    }

    fn put_rq(&self, key: &str, m: u32, d: &[u8], r: &mut Rng) -> Rq {
        if self.cred.is_some() && r.chance(1, 6) {
            if let Some(c) = &self.cred {
                let mut f = Form::new(key, d, r);
                if m != 0 {
                    for n in ["x-amz-meta-v", "x-amz-meta-w"] {
                        f.fields.push((n.into(), m.to_string().into_bytes()));
                    }
                }
                f.sign(c, &policy_doc(&self.bucket, c.date + chrono::Duration::hours(1), &[]));
                return f.request(&self.bucket);
            }
        }
        let rq = Self::with_meta(Rq::new("PUT", target(&self.bucket, key)), m);
        let (mut rq, _) = world::upload(self.cred.as_ref(), rq, d, r);
        if r.chance(1, 4) && rq.chunks.len() < 20 {
            rq.pause = Some(Duration::from_micros(r.range(50, 1500) as u64));
        }
        rq
    }

    async fn step(&self, conn: &mut Option<Conn>, r: &mut Rng, sink: usize) {
        let k = if r.chance(1, 3) { 0 } else { r.below(self.keys.len()) };
        let key = self.keys[k].clone();
        let t = target(&self.bucket, &key);
        let unexpected = |o: &Out| match o {
            Ok(rs) => rs.brief(),
            Err(f) => json!(format!("{f:?}")),
        };
        match r.below(20) {
            0..=4 => {
                let (n, m, d) = self.fresh(r.chance(2, 3));
                let rq = self.put_rq(&key, m, &d, r);
                let inv = self.now();
                let o = self.call(conn, &rq).await;
                let res = self.now();
                if self.lost(&o) {
                    self.maybe(k, inv, KOp::Write((n, m)), "put");
                    return;
                }
                match &o {
                    Ok(rs) if rs.ok() && rs.get("etag") == Some(etag(&d)) => self.note(k, inv, res, KOp::Write((n, m)), "put"),
                    _ => self.bad("upload failed", json!({"request": rq.brief(), "answer": unexpected(&o)})),
                }
            }
            5..=9 => {
                let range = (r.chance(1, 3)).then(|| {
                    let a = *r.pick(&[0usize, 0, 1, 3]);
                    (a, a + *r.pick(&[0usize, 1, 2000, 1 << 20]))
                });
                let mut rq = Rq::new("GET", t);
                if let Some((a, z)) = range {
                    rq = rq.h("range", format!("bytes={a}-{z}"));
                }
                let rq = self.sign(rq, r);
                let inv = self.now();
                let o = self.call(conn, &rq).await;
                let res = self.now();
                if self.lost(&o) {
                    return;
                }
                match &o {
                    Ok(rs) if rs.status == 404 && rs.code().as_deref() == Some("NoSuchKey") => self.note(k, inv, res, KOp::Read(None), "get"),
                    Ok(rs) if rs.status == if range.is_some() { 206 } else { 200 } => match self.version(rs, false, range) {
                        Ok(v) => self.note(k, inv, res, KOp::Read(Some(v)), "get"),
                        Err(e) => self.bad("read of no single version", json!({"request": rq.brief(), "answer": rs.brief(), "problem": e})),
                    },
                    _ => self.bad("read failed", json!({"request": rq.brief(), "answer": unexpected(&o)})),
                }
            }
            10 | 11 => {
                let rq = self.sign(Rq::new("HEAD", t), r);
                let inv = self.now();
                let o = self.call(conn, &rq).await;
                let res = self.now();
                if self.lost(&o) {
                    return;
                }
                match &o {
                    Ok(rs) if rs.status == 404 => self.note(k, inv, res, KOp::Read(None), "head"),
                    Ok(rs) if rs.status == 200 => match self.version(rs, true, None) {
                        Ok(v) => self.note(k, inv, res, KOp::Read(Some(v)), "head"),
                        Err(e) => self.bad("head of no single version", json!({"request": rq.brief(), "answer": rs.brief(), "problem": e})),
                    },
                    _ => self.bad("head failed", json!({"request": rq.brief(), "answer": unexpected(&o)})),
                }
            }
            12 | 13 => {
                let rq = self.sign(Rq::new("DELETE", t), r);
                let inv = self.now();
                let o = self.call(conn, &rq).await;
                let res = self.now();
                if self.lost(&o) {
                    self.maybe(k, inv, KOp::Remove, "delete");
                    return;
                }
                match &o {
                    Ok(rs) if rs.status == 204 => self.note(k, inv, res, KOp::Remove, "delete"),
                    _ => self.bad("delete failed", json!({"request": rq.brief(), "answer": unexpected(&o)})),
                }
            }
            14 => {
                let mut ks: Vec<usize> = (0..self.keys.len()).collect();
                r.shuffle(&mut ks);
                ks.truncate(r.range(1, 3));
                let doc: String = ks.iter().map(|&k| format!("<Object><Key>{}</Key></Object>", crate::util::xml_escape(&self.keys[k]))).collect();
                let rq = Rq::new("POST", format!("/{}?delete", self.bucket)).body(format!("<Delete>{doc}</Delete>"));
                let rq = self.sign(rq, r);
                let inv = self.now();
                let o = self.call(conn, &rq).await;
                let res = self.now();
                if self.lost(&o) {
                    ks.iter().for_each(|&k| self.maybe(k, inv, KOp::Remove, "delete several"));
                    return;
                }
                let gone: Vec<String> = match &o {
                    Ok(rs) if rs.ok() => xml::parse_lenient(&rs.body).map(|d| d.all("Deleted").filter_map(|e| e.text_of("Key")).collect()).unwrap_or_default(),
                    _ => vec![],
                };
                let mut want: Vec<String> = ks.iter().map(|&k| self.keys[k].clone()).collect();
                let mut got = gone;
                want.sort();
                got.sort();
                if want != got {
                    return self.bad("delete of several objects failed", json!({"request": rq.brief(), "answer": unexpected(&o)}));
                }
                for k in ks {
                    self.note(k, inv, res, KOp::Remove, "delete several");
                }
            }
            15 | 16 if !self.crashing => {
                // metadata may only be replaced where nothing is copied from, so that
                // the metadata of a copy can be told from its content
                let d = if r.chance(1, 4) { k } else { r.below(self.keys.len()) };
                let replace = d == sink && r.chance(1, 2);
                let k = if k == sink { 0 } else { k };
                let key = &self.keys[k];
                let mut rq = Rq::new("PUT", target(&self.bucket, &self.keys[d])).h("x-amz-copy-source", format!("{}/{}", self.bucket, crate::util::pct_path(key.as_bytes())));
                let mut new_meta = 0;
                if replace {
                    new_meta = self.fresh(true).0;
                    rq = Self::with_meta(rq.h("x-amz-metadata-directive", "REPLACE"), new_meta);
                }
                let rq = self.sign(rq, r);
                let inv = self.now();
                let o = self.call(conn, &rq).await;
                let res = self.now();
                if self.lost(&o) {
                    return;
                }
                match &o {
                    Ok(rs) if rs.status == 404 && rs.code().as_deref() == Some("NoSuchKey") => self.note(k, inv, res, KOp::Read(None), "copy source"),
                    Ok(rs) if rs.ok() => {
                        let tag = xml::parse_lenient(&rs.body).ok().and_then(|d| d.text_of("ETag")).unwrap_or_default();
                        let (n, m) = {
                            let b = lock(&self.book);
                            let n = b.by_tag.get(&tag).copied();
                            (n, n.and_then(|n| b.meta.get(&n).copied()))
                        };
                        let (Some(n), Some(m)) = (n, m) else {
                            return self.bad("copy of no single version", json!({"request": rq.brief(), "answer": rs.brief()}));
                        };
                        self.note(k, inv, res, KOp::ReadContent(n), "copy source");
                        self.note(d, inv, res, KOp::Write((n, if replace { new_meta } else { m })), "copy");
                    }
                    _ => self.bad("copy failed", json!({"request": rq.brief(), "answer": unexpected(&o)})),
                }
            }
            15..=18 => self.multipart(conn, r, k).await,
            _ => {
                let v2 = r.chance(1, 2);
                let rq = self.sign(Rq::new("GET", format!("/{}{}", self.bucket, if v2 { "?list-type=2" } else { "" })), r);
                let inv = self.now();
                let o = self.call(conn, &rq).await;
                let res = self.now();
                if self.lost(&o) {
                    return;
                }
                let doc = match &o {
                    Ok(rs) if rs.ok() => xml::parse_lenient(&rs.body).ok(),
                    _ => None,
                };
                let Some(doc) = doc else {
                    return self.bad("listing failed", json!({"request": rq.brief(), "answer": unexpected(&o)}));
                };
                let mut seen = BTreeMap::new();
                for c in doc.all("Contents") {
                    let key = c.text_of("Key").unwrap_or_default();
                    let size = c.text_of("Size").and_then(|s| s.parse().ok()).unwrap_or(usize::MAX);
                    if seen.insert(key.clone(), size).is_some() {
                        return self.bad("listing names an object twice", json!({"key": key, "answer": unexpected(&o)}));
                    }
                }
                lock(&self.lists).push((inv, res, seen));
            }
        }
    }

    async fn multipart(&self, conn: &mut Option<Conn>, r: &mut Rng, k: usize) {
        let (n, m, d) = self.fresh(r.chance(2, 3));
        let t = target(&self.bucket, &self.keys[k]);
        let rq = self.sign(Self::with_meta(Rq::new("POST", format!("{t}?uploads")), m), r);
        let o = self.call(conn, &rq).await;
        if self.lost(&o) {
            return;
        }
        let id = match &o {
            Ok(rs) if rs.ok() => xml::parse_lenient(&rs.body).ok().and_then(|d| d.text_of("UploadId")),
            _ => None,
        };
        let Some(id) = id else {
            return self.bad("multipart upload not initiated", json!({"request": rq.brief(), "answer": format!("{o:?}")}));
        };
        let parts = r.split(&d, 3);
        let mut tags = Vec::new();
        let jobs = parts.iter().enumerate().map(|(i, p)| {
            let rq = Rq::new("PUT", format!("{t}?partNumber={}&uploadId={id}", i + 1));
            let (rq, _) = world::upload(self.cred.as_ref(), rq, p, r);
            async move {
                let mut c = None;
                (self.call(&mut c, &rq).await, rq)
            }
        });
        for (i, (o, rq)) in futures::future::join_all(jobs.collect::<Vec<_>>()).await.into_iter().enumerate() {
            if self.lost(&o) {
                return;
            }
            match &o {
                Ok(rs) if rs.ok() && rs.get("etag") == Some(etag(&parts[i])) => tags.push(etag(&parts[i])),
                _ => return self.bad("part refused", json!({"request": rq.brief(), "answer": format!("{o:?}")})),
            }
        }
        let doc: String = tags.iter().enumerate().map(|(i, t)| format!("<Part><PartNumber>{}</PartNumber><ETag>{}</ETag></Part>", i + 1, crate::util::xml_escape(t))).collect();
        let rq = Rq::new("POST", format!("{t}?uploadId={id}")).body(format!("<CompleteMultipartUpload>{doc}</CompleteMultipartUpload>"));
        let rq = self.sign(rq, r);
        let twice = r.chance(1, 3);
        let inv = self.now();
        let (mut c1, mut c2) = (conn.take(), None);
        let (a, b) = futures::future::join(self.call(&mut c1, &rq), async {
            if twice { Some(self.call(&mut c2, &rq).await) } else { None }
        })
        .await;
        let res = self.now();
        *conn = c1;
        let unanswered = [Some(&a), b.as_ref()].into_iter().flatten().filter(|o| self.lost(o)).count() > 0;
        let done = |o: &Out| matches!(o, Ok(rs) if rs.ok() && xml::parse_lenient(&rs.body).ok().and_then(|x| x.text_of("ETag")) == Some(etag(&d)));
        let lost = |o: &Out| matches!(o, Ok(rs) if rs.status == 404 && rs.code().as_deref() == Some("NoSuchUpload")) || matches!(o, Ok(rs) if rs.status == 400 && rs.code().as_deref() == Some("InvalidPart"));
        let ok = match (&a, &b) {
            (a, None) => done(a),
            (a, Some(b)) => (done(a) && lost(b)) || (lost(a) && done(b)),
        };
        if unanswered && !done(&a) && !b.as_ref().is_some_and(done) {
            return self.maybe(k, inv, KOp::Write((n, m)), "complete");
        }
        let ok = ok || unanswered;
        if !ok {
            return self.bad("multipart completion", json!({"request": rq.brief(), "answer": format!("{a:?}"), "answer to the same request at the same time": format!("{b:?}")}));
        }
        self.note(k, inv, res, KOp::Write((n, m)), "complete");
    }
}

fn apply(s: &Option<Version>, op: &KOp) -> Option<Option<Version>> {
    match op {
        KOp::Write(v) => Some(Some(*v)),
        KOp::Remove => Some(None),
        KOp::Read(v) => (v == s).then_some(*s),
        KOp::ReadContent(n) => (s.map(|v| v.0) == Some(*n)).then_some(*s),
    }
}

async fn episode(run: &'static Run, n: u64) {
    let mut r = Rng::from(run.seed, "conc", n);
    let dir = TempDir::new();
    let auth = r.chance(1, 2);
    let Some(mut srv) = Server::start(run, &dir.path, &Opts { auth, ..Opts::default() }).await else { return };
    let nkeys = r.range(2, 4);
    let all = ["a", "dir/b", "dir/sub/c", "é ü", "dir/long-name-0123456789", "x"];
    let mut keys: Vec<String> = all.iter().map(|s| (*s).to_owned()).collect();
    r.shuffle(&mut keys);
    keys.truncate(nkeys);
    let ep = Arc::new(Ep {
        run,
        n,
        start: Instant::now(),
        next: AtomicU32::new(0),
        book: Mutex::new(Book { by_tag: HashMap::new(), by_len: HashMap::new(), meta: HashMap::new() }),
        calls: Mutex::default(),
        lists: Mutex::default(),
        keys,
        stable: Vec::new(),
        absent: ["never", "dir/never", "dir/sub"].iter().map(|s| (*s).to_owned()).collect(),
        bucket: "bkt".into(),
        cred: auth.then(|| Cred::new(AK, SK)),
        addr: srv.addr,
        dead: std::sync::atomic::AtomicBool::new(false),
        crashing: false,
    });
    let mut ep = ep;
    let mut conn = None;
    {
        let rq = ep.sign(Rq::new("PUT", "/bkt"), &mut r);
        if !matches!(ep.call(&mut conn, &rq).await, Ok(rs) if rs.ok()) {
            return run.problem("cannot make a bucket");
        }
        let mut stable = Vec::new();
        for k in ["stable", "dir/stable", "dir/sub/stable", "zz/stable"] {
            let (n, m, d) = ep.fresh(true);
            let rq = ep.put_rq(k, m, &d, &mut r);
            if !matches!(ep.call(&mut conn, &rq).await, Ok(rs) if rs.ok()) {
                return run.problem("cannot make an object");
            }
            stable.push((k.to_owned(), n));
        }
        if let Some(e) = Arc::get_mut(&mut ep) {
            e.stable = stable;
        }
    }
    let (prob, delay) = *r.pick(&[(0u32, 1u32), (100, 300), (300, 1000), (300, 3000), (700, 500), (1000, 200)]);
    srv.ctl.delays(prob, delay, r.u64());
    let workers = r.range(3, 9);
    let steps = run.by(r.range(6, 14), r.range(8, 18));
    let sink = ep.keys.len() - 1;
    let jobs: Vec<_> = (0..workers)
        .map(|w| {
            let ep = ep.clone();
            let mut r = Rng::from(run.seed, "conc-worker", n * 100 + w as u64);
            tokio::spawn(async move {
                let mut conn = None;
                for _ in 0..steps {
                    if ep.dead.load(Ordering::SeqCst) {
                        break;
                    }
                    ep.step(&mut conn, &mut r, sink).await;
                    if r.chance(1, 5) {
                        tokio::time::sleep(Duration::from_micros(r.below(3000) as u64)).await;
                    }
                }
            })
        })
        .collect();
    for j in jobs {
        if let Err(e) = j.await {
            run.problem(format!("worker: {e}"));
            return;
        }
    }
    srv.ctl.delays(0, 1, 0);
    run.count("delayed file-system calls", srv.ctl.delayed());
    if ep.dead.load(Ordering::SeqCst) {
        srv.kill().await;
        return;
    }
    // what is left in the end, also after a restart
    let survivors = r.chance(1, 3);
    if survivors {
        srv.signal(libc::SIGKILL);
        let _ = srv.gone(Duration::from_secs(10)).await;
    }
    let w = world::fs_service(&dir.path, false);
    let mut live = BTreeMap::new();
    for (k, key) in ep.keys.iter().enumerate() {
        let rq = Rq::new("GET", target(&ep.bucket, key));
        let inv = ep.now();
        let o = if survivors { http::call(&w, &rq).await } else { ep.call(&mut None, &ep.sign(rq, &mut r)).await };
        let res = ep.now();
        match &o {
            Ok(rs) if rs.status == 404 => ep.note(k, inv, res, KOp::Read(None), "final get"),
            Ok(rs) if rs.status == 200 => match ep.version(rs, false, None) {
                Ok(v) => {
                    live.insert(key.clone(), len_of(v.0));
                    ep.note(k, inv, res, KOp::Read(Some(v)), "final get");
                }
                Err(e) => ep.bad("read of no single version", json!({"key": key, "answer": rs.brief(), "problem": e})),
            },
            _ => ep.bad("read failed", json!({"key": key, "answer": format!("{o:?}")})),
        }
    }
    for (k, n) in &ep.stable {
        live.insert(k.clone(), len_of(*n));
        let o = http::call(&w, &Rq::new("GET", target(&ep.bucket, k))).await;
        if !matches!(&o, Ok(rs) if ep.version(rs, false, None) == Ok((*n, *n))) {
            ep.bad("an object nobody touched has changed", json!({"key": k, "answer": format!("{o:?}").chars().take(600).collect::<String>()}));
        }
    }
    // listings
    let calls = lock(&ep.calls).clone();
    let lists = lock(&ep.lists).clone();
    let inv = ep.now();
    let final_list = match http::call(&w, &Rq::new("GET", "/bkt")).await {
        Ok(rs) => xml::parse_lenient(&rs.body)
            .map(|d| d.all("Contents").map(|c| (c.text_of("Key").unwrap_or_default(), c.text_of("Size").and_then(|s| s.parse().ok()).unwrap_or(usize::MAX))).collect::<BTreeMap<_, _>>())
            .unwrap_or_default(),
        Err(_) => BTreeMap::new(),
    };
    let _ = inv;
    if final_list != live {
        ep.bad("final listing", json!({"listed": format!("{final_list:?}"), "readable": format!("{live:?}")}));
    }
    for (inv, res, seen) in &lists {
        run.count("listings judged", 1);
        for (k, n) in &ep.stable {
            if seen.get(k) != Some(&len_of(*n)) {
                ep.bad("listing misses an untouched object", json!({"key": k, "listed": format!("{seen:?}")}));
            }
        }
        for k in seen.keys() {
            if !ep.keys.contains(k) && !ep.stable.iter().any(|(s, _)| s == k) || ep.absent.contains(k) {
                ep.bad("listing names what was never there", json!({"key": k, "listed": format!("{seen:?}")}));
            }
        }
        for (i, k) in ep.keys.iter().enumerate() {
            let none = Vec::new();
            let ops = calls.get(&i).unwrap_or(&none);
            let muts: Vec<_> = ops.iter().filter(|(c, _)| matches!(c.op, KOp::Write(_) | KOp::Remove)).collect();
            if muts.iter().any(|(c, _)| c.inv <= *res && c.res >= *inv) {
                // changed meanwhile: any size it had is fine
                if let Some(s) = seen.get(k) {
                    if !muts.iter().any(|(c, _)| matches!(c.op, KOp::Write(v) if len_of(v.0) == *s)) {
                        ep.bad("listing shows a size no version had", json!({"key": k, "size": s}));
                    }
                }
                continue;
            }
            // the mutations which may be the last one before it
            let before: Vec<_> = muts.iter().filter(|(c, _)| c.res < *inv).collect();
            let last: Vec<_> = before.iter().filter(|(c, _)| !before.iter().any(|(d, _)| d.inv > c.res)).collect();
            let sizes: BTreeSet<Option<usize>> =
                if last.is_empty() { [None].into() } else { last.iter().map(|(c, _)| if let KOp::Write(v) = c.op { Some(len_of(v.0)) } else { None }).collect() };
            run.count("entries judged in listings", 1);
            if !sizes.contains(&seen.get(k).copied()) {
                ep.bad("listing is wrong about an object nobody touched meanwhile", json!({"key": k, "listed": format!("{:?}", seen.get(k)), "possible": format!("{sizes:?}")}));
            }
        }
    }
    for (i, key) in ep.keys.iter().enumerate() {
        let Some(ops) = calls.get(&i) else { continue };
        let cs: Vec<Call<KOp>> = ops.iter().map(|(c, _)| c.clone()).collect();
        let (v, steps) = lin::check(None, &cs, apply, |o| matches!(o, KOp::Read(_) | KOp::ReadContent(_)), 400_000);
        run.count("search steps", steps as u64);
        run.max("most overlapping calls on a key", overlap(&cs) as u64);
        let mut shape: Vec<(u64, String)> = Vec::new();
        for (c, w) in ops {
            shape.push((c.inv, format!("({w}")));
            shape.push((c.res, format!("{w})")));
        }
        shape.sort();
        let shape: String = shape.into_iter().map(|s| s.1).collect();
        run.seen("interleavings of invocations and answers", &shape);
        run.eval(&format!("{n}/{i}/{:x}", fnv(shape.as_bytes())), overlap(&cs) > 1);
        run.count("calls checked", cs.len() as u64);
        match v {
            Verdict::Yes => {}
            Verdict::Open => run.count("searches given up", 1),
            Verdict::No => {
                let mut h: Vec<_> = ops.iter().collect();
                h.sort_by_key(|(c, _)| c.inv);
                let h: Vec<String> = h.iter().map(|(c, w)| format!("{}-{} {w} {:?}", c.inv / 1000, c.res / 1000, c.op)).collect();
                ep.bad("history is not linearizable", json!({"key": key, "calls (µs)": h, "minimal": minimal(&cs)}));
            }
        }
    }
    if !survivors && !srv.running() {
        ep.bad("the server died", json!({"stderr": srv.stderr()}));
    }
    srv.kill().await;
}

/// a concurrent workload during which the server dies
pub async fn crash_episode(run: &'static Run, n: u64) {
    let mut r = Rng::from(run.seed, "conc-crash", n);
    let dir = TempDir::new();
    let auth = r.chance(1, 2);
    let Some(mut srv) = Server::start(run, &dir.path, &Opts { auth, ..Opts::default() }).await else { return };
    let mut keys: Vec<String> = ["a", "dir/b", "é ü"].iter().map(|s| (*s).to_owned()).collect();
    r.shuffle(&mut keys);
    let mut ep = Arc::new(Ep {
        run,
        n,
        start: Instant::now(),
        next: AtomicU32::new(0),
        book: Mutex::new(Book { by_tag: HashMap::new(), by_len: HashMap::new(), meta: HashMap::new() }),
        calls: Mutex::default(),
        lists: Mutex::default(),
        keys,
        stable: Vec::new(),
        absent: Vec::new(),
        bucket: "bkt".into(),
        cred: auth.then(|| Cred::new(AK, SK)),
        addr: srv.addr,
        dead: std::sync::atomic::AtomicBool::new(false),
        crashing: true,
    });
    let mut conn = None;
    let rq = ep.sign(Rq::new("PUT", "/bkt"), &mut r);
    if !matches!(ep.call(&mut conn, &rq).await, Ok(rs) if rs.ok()) {
        return run.problem("cannot make a bucket");
    }
    let mut stable = Vec::new();
    for k in ["stable", "dir/stable"] {
        let (n, m, d) = ep.fresh(true);
        let rq = ep.put_rq(k, m, &d, &mut r);
        if !matches!(ep.call(&mut conn, &rq).await, Ok(rs) if rs.ok()) {
            return run.problem("cannot make an object");
        }
        stable.push((k.to_owned(), n));
    }
    if let Some(e) = Arc::get_mut(&mut ep) {
        e.stable = stable;
    }
    let (prob, delay) = *r.pick(&[(0u32, 1u32), (100, 300), (300, 1000), (1000, 200)]);
    srv.ctl.delays(prob, delay, r.u64());
    let target_call = r.range(1, 120) as u64;
    srv.ctl.arm(Mode::Crash, target_call, 0, r.chance(1, 3), MUTATE);
    let workers = r.range(3, 7);
    let jobs: Vec<_> = (0..workers)
        .map(|w| {
            let ep = ep.clone();
            let mut r = Rng::from(run.seed, "conc-crash-worker", n * 100 + w as u64);
            tokio::spawn(async move {
                let mut conn = None;
                for _ in 0..40 {
                    if ep.dead.load(Ordering::SeqCst) {
                        break;
                    }
                    ep.step(&mut conn, &mut r, 99).await;
                }
            })
        })
        .collect();
    for j in jobs {
        if let Err(e) = j.await {
            return run.problem(format!("worker: {e}"));
        }
    }
    let died = srv.ctl.fired() > 0;
    if died {
        let _ = srv.gone(Duration::from_secs(10)).await;
    }
    srv.kill().await;
    run.count(if died { "crashes in concurrent workloads" } else { "concurrent workloads which ended before the crash" }, 1);
    let w = world::fs_service(&dir.path, false);
    let mut live = BTreeMap::new();
    let short = |o: &Out| format!("{o:?}").chars().take(600).collect::<String>();
    for (k, key) in ep.keys.iter().enumerate() {
        let o = http::call(&w, &Rq::new("GET", target(&ep.bucket, key))).await;
        let (inv, res) = (ep.now(), ep.now() + 1);
        match &o {
            Ok(rs) if rs.status == 404 => ep.note(k, inv, res, KOp::Read(None), "final get"),
            Ok(rs) if rs.status == 200 => match ep.version(rs, false, None) {
                Ok((v, m)) => {
                    live.insert(key.clone(), rs.body.len());
                    let own = lock(&ep.book).meta.get(&v).copied();
                    if m != 0 && own != Some(m) {
                        ep.bad("after a crash an object has the metadata of another version", json!({"key": key, "answer": rs.brief(), "version": v, "metadata": m}));
                    }
                    ep.note(k, inv, res, KOp::ReadContent(v), "final get");
                }
                Err(e) => ep.bad("after a crash a read shows no single version", json!({"key": key, "answer": rs.brief(), "problem": e})),
            },
            _ => ep.bad("after a crash a read failed", json!({"key": key, "answer": short(&o)})),
        }
    }
    for (k, n) in &ep.stable {
        live.insert(k.clone(), len_of(*n));
        let o = http::call(&w, &Rq::new("GET", target(&ep.bucket, k))).await;
        if !matches!(&o, Ok(rs) if ep.version(rs, false, None) == Ok((*n, *n))) {
            ep.bad("a crash changed an object nobody touched", json!({"key": k, "answer": short(&o)}));
        }
    }
    match http::call(&w, &Rq::new("GET", "/bkt")).await {
        Ok(rs) if rs.ok() => {
            let l: BTreeMap<String, usize> = xml::parse_lenient(&rs.body)
                .map(|d| d.all("Contents").map(|c| (c.text_of("Key").unwrap_or_default(), c.text_of("Size").and_then(|s| s.parse().ok()).unwrap_or(usize::MAX))).collect())
                .unwrap_or_default();
            if l != live {
                ep.bad("listing after a crash", json!({"listed": format!("{l:?}"), "readable": format!("{live:?}")}));
            }
        }
        o => ep.bad("listing after a crash failed", json!({"answer": short(&o)})),
    }
    let calls = lock(&ep.calls).clone();
    for (i, key) in ep.keys.iter().enumerate() {
        let Some(ops) = calls.get(&i) else { continue };
        let cs: Vec<Call<KOp>> = ops.iter().map(|(c, _)| c.clone()).collect();
        let open = cs.iter().filter(|c| c.optional).count();
        let (v, _) = lin::check(None, &cs, apply, |o| matches!(o, KOp::Read(_) | KOp::ReadContent(_)), 400_000);
        run.eval(&format!("concurrent/{n}/{i}/{target_call}"), died && open > 0);
        run.count("unanswered calls judged", open as u64);
        match v {
            Verdict::Yes => {}
            Verdict::Open => run.count("searches given up", 1),
            Verdict::No => {
                let mut h: Vec<_> = ops.iter().collect();
                h.sort_by_key(|(c, _)| c.inv);
                let h: Vec<String> = h.iter().map(|(c, w)| format!("{}-{} {w} {:?}", c.inv / 1000, if c.optional { 0 } else { c.res / 1000 }, c.op)).collect();
                ep.bad("what is left after a crash fits no order of the calls", json!({"key": key, "calls (µs)": h}));
            }
        }
    }
}

/// the shortest prefix (by answer) which is not linearizable
fn minimal(cs: &[Call<KOp>]) -> Vec<String> {
    let mut s: Vec<_> = cs.to_vec();
    s.sort_by_key(|c| c.res);
    for n in 1..=s.len() {
        // what is invoked later can not matter, what is not answered yet may
        let t = s[n - 1].res;
        let part: Vec<Call<KOp>> = s
            .iter()
            .filter(|c| c.inv <= t && (c.res <= t || matches!(c.op, KOp::Write(_) | KOp::Remove)))
            .map(|c| if c.res <= t { c.clone() } else { Call { res: u64::MAX, optional: true, ..c.clone() } })
            .collect();
        if lin::check(None, &part, apply, |o| matches!(o, KOp::Read(_) | KOp::ReadContent(_)), 100_000).0 == Verdict::No {
            return part.iter().rev().take(12).map(|c| format!("{}-{} {:?}", c.inv / 1000, if c.res == u64::MAX { 0 } else { c.res / 1000 }, c.op)).collect();
        }
    }
    vec![]
}

fn overlap<O>(cs: &[Call<O>]) -> usize {
    cs.iter().map(|c| cs.iter().filter(|d| d.inv <= c.inv && d.res >= c.inv).count()).max().unwrap_or(0)
}

// ---------------------------------------------------------------- reads and uploads in progress

/// a read is started, something happens to the object, and the read goes on
async fn in_progress(run: &'static Run, n: u64) {
    let mut r = Rng::from(run.seed, "progress", n);
    let w = World::new(r.chance(1, 2));
    let cred = w.auth.then(|| w.cred());
    let size = *r.pick(&[9000usize, 20_000, 70_000]);
    let old = r.bytes(size);
    let ok = |o: &Out| matches!(o, Ok(rs) if rs.ok() || rs.status == 204);
    for rq in [Rq::new("PUT", "/bkt"), Rq::new("PUT", "/other")] {
        if !ok(&w.call(&w.sign(rq, &mut r)).await) {
            return run.problem("cannot make a bucket");
        }
    }
    let key = *r.pick(&["k", "dir/k", "é"]);
    let t = target("bkt", key);
    let (rq, _) = w.upload(Rq::new("PUT", t.clone()).h("x-amz-meta-v", "old"), &old, &mut r);
    if !ok(&w.call(&rq).await) {
        return run.problem("cannot make an object");
    }
    let (rq, _) = w.upload(Rq::new("PUT", "/other/src").h("x-amz-meta-v", "src"), b"source", &mut r);
    let _ = w.call(&rq).await;
    let range = r.chance(1, 2).then(|| {
        let a = r.below(old.len() / 2);
        (a, r.range(a + 4100, old.len() - 1))
    });
    let mut rq = Rq::new("GET", t.clone());
    if let Some((a, z)) = range {
        rq = rq.h("range", format!("bytes={a}-{z}"));
    }
    let want = range.map_or(&old[..], |(a, z)| &old[a..=z]).to_vec();
    let rq = w.sign(rq, &mut r);
    let Ok(req) = http::build(&rq) else { return run.problem("request") };
    let Ok(resp) = w.svc.hyper_call(req).await else {
        return run.violation("read failed", json!({"request": rq.brief()}));
    };
    let (parts, mut body) = resp.into_parts();
    let mut got = Vec::new();
    let mut broke = None;
    let upto = *r.pick(&[0usize, 1, 4096, 8192]);
    use futures::StreamExt;
    while got.len() < upto {
        match body.next().await {
            Some(Ok(b)) => got.extend_from_slice(&b),
            Some(Err(e)) => {
                broke = Some(e.to_string());
                break;
            }
            None => break,
        }
    }
    let happened = *r.pick(&["put longer", "put shorter", "put same length", "put empty", "delete", "delete several", "delete bucket", "delete and put", "copy onto", "copy onto itself", "multipart", "form", "refused put"]);
    let new: Vec<u8> = match happened {
        "put longer" => r.bytes(old.len() * 2),
        "put empty" => vec![],
        "put shorter" | "delete and put" => r.bytes(old.len() / 3),
        _ => r.bytes(old.len()),
    };
    let put = |r: &mut Rng| w.upload(Rq::new("PUT", t.clone()), &new, r).0;
    let mut after: Option<Vec<u8>> = Some(new.clone());
    let mut answers = Vec::new();
    match happened {
        "delete" => {
            answers.push(w.call(&w.sign(Rq::new("DELETE", t.clone()), &mut r)).await);
            after = None;
        }
        "delete several" => {
            answers.push(w.call(&w.sign(Rq::new("POST", "/bkt?delete").body(format!("<Delete><Object><Key>{key}</Key></Object></Delete>")), &mut r)).await);
            after = None;
        }
        "delete bucket" => {
            answers.push(w.call(&w.sign(Rq::new("DELETE", "/bkt"), &mut r)).await);
            after = None;
        }
        "delete and put" => {
            answers.push(w.call(&w.sign(Rq::new("DELETE", t.clone()), &mut r)).await);
            {
                let rq = put(&mut r);
                answers.push(w.call(&rq).await);
            }
        }
        "copy onto" => {
            answers.push(w.call(&w.sign(Rq::new("PUT", t.clone()).h("x-amz-copy-source", "other/src"), &mut r)).await);
            after = Some(b"source".to_vec());
        }
        "copy onto itself" => {
            let src = format!("bkt/{}", crate::util::pct_path(key.as_bytes()));
            answers.push(w.call(&w.sign(Rq::new("PUT", t.clone()).h("x-amz-copy-source", src).h("x-amz-metadata-directive", "REPLACE"), &mut r)).await);
            after = Some(old.clone());
        }
        "multipart" => {
            let o = w.call(&w.sign(Rq::new("POST", format!("{t}?uploads")), &mut r)).await;
            let id = o.ok().and_then(|rs| xml::parse_lenient(&rs.body).ok()).and_then(|d| d.text_of("UploadId")).unwrap_or_default();
            answers.push(w.call(&w.upload(Rq::new("PUT", format!("{t}?partNumber=1&uploadId={id}")), &new, &mut r).0).await);
            let doc = format!("<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>{}</ETag></Part></CompleteMultipartUpload>", etag(&new));
            answers.push(w.call(&w.sign(Rq::new("POST", format!("{t}?uploadId={id}")).body(doc), &mut r)).await);
        }
        "form" => {
            if let Some(c) = &cred {
                let mut f = Form::new(key, &new, &mut r);
                f.sign(c, &policy_doc("bkt", c.date + chrono::Duration::hours(1), &[]));
                answers.push(w.call(&f.request("bkt")).await);
            } else {
                {
                let rq = put(&mut r);
                answers.push(w.call(&rq).await);
            }
            }
        }
        "refused put" => {
            let (rq, _) = w.upload(Rq::new("PUT", t.clone()).h("content-md5", crate::util::md5_b64(b"else")), &new, &mut r);
            let _ = w.call(&rq).await;
            after = Some(old.clone());
        }
        _ => answers.push(w.call(&put(&mut r)).await),
    }
    if answers.iter().any(|o| !ok(o)) {
        return run.violation("mutation during a read failed", json!({"what": happened, "answers": format!("{answers:?}")}));
    }
    while broke.is_none() {
        match body.next().await {
            Some(Ok(b)) => got.extend_from_slice(&b),
            Some(Err(e)) => broke = Some(e.to_string()),
            None => break,
        }
    }
    run.eval(&format!("{happened}/{upto}/{}/{}", old.len(), range.is_some()), true);
    run.count("reads in progress judged", 1);
    let rs = Rs { status: parts.status.as_u16(), headers: parts.headers.iter().map(|(n, v)| (n.as_str().to_owned(), v.as_bytes().to_vec())).collect(), body: got, body_err: broke };
    let good = rs.body == want && rs.body_err.is_none() && rs.get("etag") == Some(etag(&old)) && rs.meta().get("v").map(String::as_str) == Some("old");
    run.check(good, "read in progress changed", || json!({"what happened": happened, "after bytes": upto, "range": format!("{range:?}"), "got": rs.brief(), "bytes that differ from": rs.body.iter().zip(&want).position(|(a, b)| a != b)}));
    let o = w.call(&w.sign(Rq::new("GET", t), &mut r)).await;
    let now = match &o {
        Ok(rs) if rs.status == 404 => Some(None),
        Ok(rs) if rs.ok() => Some(Some(rs.body.clone())),
        _ => None,
    };
    run.check(now == Some(after), "object after a mutation during a read", || json!({"what happened": happened, "answer": format!("{o:?}").chars().take(500).collect::<String>()}));
}

/// an upload is held up at every piece while others read, list, overwrite or delete the object
async fn held_up(run: &'static Run, n: u64) {
    let mut r = Rng::from(run.seed, "held", n);
    let w = World::new(r.chance(1, 2));
    let ok = |o: &Out| matches!(o, Ok(rs) if rs.ok() || rs.status == 204);
    if !ok(&w.call(&w.sign(Rq::new("PUT", "/bkt"), &mut r)).await) {
        return run.problem("cannot make a bucket");
    }
    let t = target("bkt", "d/k");
    let old = r.bytes(5000);
    let exists = r.chance(2, 3);
    if exists {
        let (rq, _) = w.upload(Rq::new("PUT", t.clone()).h("x-amz-meta-v", "old"), &old, &mut r);
        let _ = w.call(&rq).await;
    }
    let new = r.bytes(30_000);
    let (mut rq, framing) = w.upload(Rq::new("PUT", t.clone()).h("x-amz-meta-v", "new"), &new, &mut r);
    let all = rq.all_body();
    let size = all.len() / 6 + 1;
    rq.chunks = all.chunks(size).map(<[u8]>::to_vec).collect();
    // a body which waits to be fed
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel::<Vec<u8>>();
    let chunks = std::mem::take(&mut rq.chunks);
    let Ok(req) = http::build(&rq) else { return run.problem("request") };
    let (parts, _) = req.into_parts();
    let stream = futures::stream::unfold(rx, |mut rx| async move { rx.recv().await.map(|b| (Ok::<_, std::io::Error>(bytes::Bytes::from(b)), rx)) });
    let req = hyper::Request::from_parts(parts, hyper::Body::wrap_stream(stream));
    let svc = w.svc.clone();
    let task = tokio::spawn(async move { svc.hyper_call(req).await });
    let mut state: Option<(Vec<u8>, &str)> = exists.then(|| (old.clone(), "old"));
    let mut did = Vec::new();
    for c in chunks {
        let _ = tx.send(c);
        for _ in 0..20 {
            tokio::task::yield_now().await;
        }
        if r.chance(1, 2) {
            tokio::time::sleep(Duration::from_micros(300)).await;
        }
        match r.below(6) {
            0 => {
                if !ok(&w.call(&w.sign(Rq::new("DELETE", t.clone()), &mut r)).await) {
                    return run.violation("delete failed", json!({"during": framing}));
                }
                state = None;
                did.push("delete");
            }
            1 => {
                let d = r.bytes(100);
                let (rq, _) = w.upload(Rq::new("PUT", t.clone()).h("x-amz-meta-v", "other"), &d, &mut r);
                if !ok(&w.call(&rq).await) {
                    return run.violation("upload failed", json!({"during": framing}));
                }
                state = Some((d, "other"));
                did.push("put");
            }
            _ => {}
        }
        let rq = w.sign(Rq::new("GET", t.clone()), &mut r);
        let o = w.call(&rq).await;
        let seen = match &o {
            Ok(rs) if rs.status == 404 => Some(None),
            Ok(rs) if rs.ok() => Some(Some((rs.body.clone(), rs.meta().get("v").cloned().unwrap_or_default()))),
            _ => None,
        };
        let want = state.as_ref().map(|(d, m)| (d.clone(), (*m).to_owned()));
        run.check(seen == Some(want), "read during an upload", || json!({"framing": framing, "answer": format!("{o:?}").chars().take(500).collect::<String>(), "did": did}));
        let o = w.call(&w.sign(Rq::new("GET", "/bkt"), &mut r)).await;
        let keys: Vec<(String, String)> = match &o {
            Ok(rs) => xml::parse_lenient(&rs.body).map(|d| d.all("Contents").map(|c| (c.text_of("Key").unwrap_or_default(), c.text_of("Size").unwrap_or_default())).collect()).unwrap_or_default(),
            Err(_) => vec![],
        };
        let want: Vec<(String, String)> = state.iter().map(|(d, _)| ("d/k".to_owned(), d.len().to_string())).collect();
        run.check(keys == want, "listing during an upload", || json!({"framing": framing, "listed": format!("{keys:?}"), "expected": format!("{want:?}"), "did": did}));
    }
    drop(tx);
    let o = tokio::time::timeout(http::WATCHDOG, task).await;
    let done = match o {
        Ok(Ok(Ok(resp))) => http::read_response(resp).await,
        _ => return run.problem("upload not answered"),
    };
    let o = w.call(&w.sign(Rq::new("GET", t), &mut r)).await;
    run.eval(&format!("{framing}/{did:?}/{exists}"), true);
    run.count("uploads held up", 1);
    run.check(done.ok() && matches!(&o, Ok(rs) if rs.body == new && rs.meta().get("v").map(String::as_str) == Some("new")), "upload overtaken by others", || {
        json!({"framing": framing, "did": did, "answer": done.brief(), "then": format!("{o:?}").chars().take(500).collect::<String>()})
    });
}

pub async fn run(run: &'static Run) -> i32 {
    let next: &'static std::sync::atomic::AtomicU64 = Box::leak(Box::default());
    parallel(run, 8, |w| async move {
        while run.more() {
            let n = next.fetch_add(1, Ordering::SeqCst);
            if w == 7 {
                bucket_episode(run, n).await;
            } else if w < 5 {
                episode(run, n).await;
            } else if n % 2 == 0 {
                in_progress(run, n).await;
            } else {
                held_up(run, n).await;
            }
        }
    })
    .await;
    run.finish(&["a copy counts as a read of its source followed by a write of its destination", "one server process per directory"])
}

// ---------------------------------------------------------------- buckets come and go

/// the state of one bucket: its objects, its uploads
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Bucket {
    objs: BTreeMap<u8, u32>,
    uploads: BTreeSet<u32>,
}

#[derive(Clone, Debug)]
enum BOp {
    Make(bool),
    Drop(bool),
    /// is it there?
    Seen(bool),
    Put(u8, u32, bool),
    /// an upload which leaves no object (a directory object)
    Dir(bool),
    Del(u8, bool),
    Get(u8, Option<u32>),
    Start(u32, bool),
    Part(u32, bool),
    Complete(u32, u8, u32, bool),
}

fn bapply(s: &Option<Bucket>, op: &BOp) -> Option<Option<Bucket>> {
    let same = |ok: bool| ok.then(|| s.clone());
    match (op, s) {
        (BOp::Make(ok), None) => ok.then(|| Some(Bucket::default())),
        (BOp::Make(ok), Some(_)) => same(!ok),
        (BOp::Drop(ok), None) => same(!ok),
        (BOp::Drop(ok), Some(_)) => ok.then_some(None),
        (BOp::Seen(ok), s) => same(*ok == s.is_some()),
        (BOp::Dir(ok), s) => same(*ok == s.is_some()),
        (BOp::Get(k, v), s) => same(s.as_ref().and_then(|b| b.objs.get(k)) == v.as_ref()),
        (BOp::Part(u, ok), s) => same(*ok == s.as_ref().map_or(false, |b| b.uploads.contains(u))),
        (BOp::Put(_, _, ok) | BOp::Del(_, ok) | BOp::Start(_, ok), None) => same(!ok),
        (BOp::Put(k, v, true), Some(b)) => {
            let mut b = b.clone();
            b.objs.insert(*k, *v);
            Some(Some(b))
        }
        (BOp::Del(k, true), Some(b)) => {
            let mut b = b.clone();
            b.objs.remove(k);
            Some(Some(b))
        }
        (BOp::Start(u, true), Some(b)) => {
            let mut b = b.clone();
            b.uploads.insert(*u);
            Some(Some(b))
        }
        (BOp::Complete(u, k, v, ok), s) => {
            let can = s.as_ref().map_or(false, |b| b.uploads.contains(u));
            match s {
                Some(b) if can && *ok => {
                    let mut b = b.clone();
                    b.uploads.remove(u);
                    b.objs.insert(*k, *v);
                    Some(Some(b))
                }
                _ => same(!can && !ok),
            }
        }
        (BOp::Put(_, _, false) | BOp::Del(_, false) | BOp::Start(_, false), Some(_)) => None,
    }
}

async fn bucket_episode(run: &'static Run, n: u64) {
    let mut r = Rng::from(run.seed, "buckets", n);
    let dir = TempDir::new();
    let auth = r.chance(1, 2);
    let Some(srv) = Server::start(run, &dir.path, &Opts { auth, ..Opts::default() }).await else { return };
    let cred = auth.then(|| Cred::new(AK, SK));
    let (prob, delay) = *r.pick(&[(0u32, 1u32), (300, 1000), (300, 3000), (1000, 300), (1000, 1500)]);
    srv.ctl.delays(prob, delay, r.u64());
    let start = Instant::now();
    let calls: Arc<Mutex<Vec<(Call<BOp>, String)>>> = Arc::default();
    let failed: Arc<Mutex<Vec<Value>>> = Arc::default();
    let next = Arc::new(AtomicU32::new(0));
    let started: Arc<Mutex<Vec<(u32, u8, String)>>> = Arc::default();
    let addr = srv.addr;
    let workers = r.range(3, 5);
    let steps = r.range(4, 8);
    let keys = ["k", "d/k"];
    let jobs: Vec<_> = (0..workers)
        .map(|w| {
            let (calls, failed, next, started, cred) = (calls.clone(), failed.clone(), next.clone(), started.clone(), cred.clone());
            let mut r = Rng::from(run.seed, "buckets-worker", n * 100 + w as u64);
            tokio::spawn(async move {
                for _ in 0..steps {
                    let k = r.below(2);
                    let t = target("bkt", keys[k]);
                    let v = next.fetch_add(1, Ordering::SeqCst) + 1;
                    let data = format!("content {v}").into_bytes();
                    let kind = r.below(22);
                    let pick = |r: &mut Rng| -> Option<(u32, u8, String)> {
                        let s = lock(&started);
                        (!s.is_empty()).then(|| s[s.len() - 1 - r.below(s.len().min(2))].clone())
                    };
                    let up = pick(&mut r);
                    let rq = match kind {
                        0..=3 => world::sign(cred.as_ref(), Rq::new("PUT", "/bkt"), &mut r),
                        4..=6 => world::sign(cred.as_ref(), Rq::new("DELETE", "/bkt"), &mut r),
                        7 => world::sign(cred.as_ref(), Rq::new("HEAD", "/bkt"), &mut r),
                        8 => world::sign(cred.as_ref(), Rq::new("GET", "/bkt?location"), &mut r),
                        9 => world::sign(cred.as_ref(), Rq::new("GET", "/"), &mut r),
                        10..=12 => world::upload(cred.as_ref(), Rq::new("PUT", t.clone()), &data, &mut r).0,
                        13 => world::sign(cred.as_ref(), Rq::new("PUT", "/bkt/dir/").h("content-length", "0"), &mut r),
                        14 => world::sign(cred.as_ref(), Rq::new("DELETE", t.clone()), &mut r),
                        15..=17 => world::sign(cred.as_ref(), Rq::new("GET", t.clone()), &mut r),
                        18 => world::sign(cred.as_ref(), Rq::new("POST", format!("{t}?uploads")), &mut r),
                        _ => {
                            let Some((_, k, id)) = &up else { continue };
                            let t = target("bkt", keys[usize::from(*k)]);
                            let one = b"part".to_vec();
                            if kind == 19 {
                                world::upload(cred.as_ref(), Rq::new("PUT", format!("{t}?partNumber=1&uploadId={id}")), &one, &mut r).0
                            } else {
                                // its part was uploaded when it was started
                                let doc = format!("<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>{}</ETag></Part></CompleteMultipartUpload>", etag(&one));
                                world::sign(cred.as_ref(), Rq::new("POST", format!("{t}?uploadId={id}")).body(doc), &mut r)
                            }
                        }
                    };
                    let now = || start.elapsed().as_nanos() as u64;
                    let inv = now();
                    let o = http::tcp(addr, &rq).await;
                    let res = now();
                    let (st, code) = match &o {
                        Ok(rs) => (rs.status, rs.code().unwrap_or_default()),
                        Err(_) => (0, String::new()),
                    };
                    let body = o.as_ref().map(|rs| rs.body.clone()).unwrap_or_default();
                    let gone = st == 404;
                    let op = match kind {
                        0..=3 if st == 200 || st == 409 => Some(BOp::Make(st == 200)),
                        4..=6 if st == 204 || gone => Some(BOp::Drop(st == 204)),
                        7 | 8 if st == 200 || gone => Some(BOp::Seen(st == 200)),
                        9 if st == 200 => {
                            let names: Option<Vec<String>> = xml::parse_lenient(&body).ok().filter(|d| d.name == "ListAllMyBucketsResult").map(|d| d.all("Buckets").flat_map(|b| b.all("Bucket").filter_map(|b| b.text_of("Name"))).collect());
                            // (no other name has ever been a bucket)
                            match names.as_deref() {
                                Some([]) => Some(BOp::Seen(false)),
                                Some([b]) if b == "bkt" => Some(BOp::Seen(true)),
                                _ => None,
                            }
                        }
                        10..=12 if st == 200 || (gone && code == "NoSuchBucket") => Some(BOp::Put(k as u8, v, st == 200)),
                        13 if st == 200 || (gone && code == "NoSuchBucket") => Some(BOp::Dir(st == 200)),
                        14 if st == 204 || gone => Some(BOp::Del(k as u8, st == 204)),
                        15..=17 if st == 200 => String::from_utf8_lossy(&body).strip_prefix("content ").and_then(|s| s.parse().ok()).or((body == b"part").then_some(0)).map(|v| BOp::Get(k as u8, Some(v))),
                        15..=17 if gone => Some(BOp::Get(k as u8, None)),
                        18 if gone => Some(BOp::Start(v, false)),
                        18 if st == 200 => match xml::parse_lenient(&body).ok().and_then(|d| d.text_of("UploadId")) {
                            Some(id) => {
                                lock(&calls).push((Call { inv, res, op: BOp::Start(v, true), optional: false }, "start".into()));
                                let (prq, _) = world::upload(cred.as_ref(), Rq::new("PUT", format!("{t}?partNumber=1&uploadId={id}")), b"part", &mut r);
                                let inv = now();
                                let o = http::tcp(addr, &prq).await;
                                let res = now();
                                match &o {
                                    Ok(rs) if rs.status == 200 || (rs.status == 404 && rs.code().as_deref() == Some("NoSuchUpload")) => {
                                        if rs.status == 200 {
                                            lock(&started).push((v, k as u8, id));
                                        }
                                        lock(&calls).push((Call { inv, res, op: BOp::Part(v, rs.status == 200), optional: false }, "part".into()));
                                    }
                                    _ => lock(&failed).push(json!({"request": prq.brief(), "answer": format!("{o:?}")})),
                                }
                                continue;
                            }
                            None => None,
                        },
                        19 => up.as_ref().and_then(|u| if st == 200 || (gone && code == "NoSuchUpload") { Some(BOp::Part(u.0, st == 200)) } else { None }),
                        20 | 21 => up.as_ref().and_then(|u| {
                            // the part files of an upload vanish with it
                            if st == 200 || (gone && (code == "NoSuchUpload" || code == "NoSuchBucket")) || (st == 400 && code == "InvalidPart") {
                                Some(BOp::Complete(u.0, u.1, 0, st == 200))
                            } else {
                                None
                            }
                        }),
                        _ => None,
                    };
                    match op {
                        Some(op) => lock(&calls).push((Call { inv, res, op, optional: false }, format!("{kind}"))),
                        None => lock(&failed).push(json!({"request": rq.brief(), "answer": format!("{o:?}").chars().take(700).collect::<String>()})),
                    }
                }
            })
        })
        .collect();
    for j in jobs {
        if let Err(e) = j.await {
            run.problem(format!("worker: {e}"));
        }
    }
    srv.ctl.delays(0, 1, 0);
    let svc = world::fs_service(&dir.path, false);
    let now = || start.elapsed().as_nanos() as u64;
    // what is left in the end
    let inv = now();
    let there = matches!(http::call(&svc, &Rq::new("HEAD", "/bkt")).await, Ok(rs) if rs.status == 200);
    let res = now();
    lock(&calls).push((Call { inv, res, op: BOp::Seen(there), optional: false }, "final".into()));
    for (k, key) in keys.iter().enumerate() {
        let inv = now();
        let o = http::call(&svc, &Rq::new("GET", target("bkt", key))).await;
        let res = now();
        let v = match &o {
            Ok(rs) if rs.status == 200 => String::from_utf8_lossy(&rs.body).strip_prefix("content ").and_then(|s| s.parse().ok()).or((rs.body == b"part").then_some(0)),
            _ => None,
        };
        lock(&calls).push((Call { inv, res, op: BOp::Get(k as u8, v), optional: false }, "final".into()));
    }
    if !there {
        // nothing of it may come back with a new bucket of that name
        let _ = http::call(&svc, &Rq::new("PUT", "/bkt")).await;
        if let Ok(rs) = http::call(&svc, &Rq::new("GET", "/bkt")).await {
            run.check(rs.ok() && http::find(&rs.body, b"<Contents>").is_none(), "a new bucket is not empty", || json!({"episode": n, "listing": rs.brief()}));
        }
        let left = lock(&started).clone();
        for (u, k, id) in left {
            let doc = format!("<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>{}</ETag></Part></CompleteMultipartUpload>", etag(b"part"));
            let o = http::call(&svc, &Rq::new("POST", format!("{}?uploadId={id}", target("bkt", keys[usize::from(k)]))).body(doc)).await;
            run.check(matches!(&o, Ok(rs) if rs.status == 404), "an upload to a deleted bucket is still alive", || json!({"episode": n, "upload": u, "answer": format!("{o:?}").chars().take(500).collect::<String>()}));
        }
    }
    for f in lock(&failed).iter() {
        run.violation("request on a bucket that comes and goes", json!({"episode": n, "what": f}));
    }
    let mut ops = lock(&calls).clone();
    ops.sort_by_key(|(c, _)| c.inv);
    let cs: Vec<Call<BOp>> = ops.iter().map(|(c, _)| c.clone()).collect();
    let (v, steps) = lin::check(None, &cs, bapply, |o| matches!(o, BOp::Seen(_) | BOp::Dir(_) | BOp::Get(..) | BOp::Part(..)), 300_000);
    run.count("search steps (buckets)", steps as u64);
    run.count("calls checked (buckets)", cs.len() as u64);
    let shape: Vec<String> = ops.iter().map(|(c, _)| format!("{:?}", c.op)).collect();
    run.eval(&shape.join(";"), overlap(&cs) > 1);
    run.seen("histories of a bucket", &shape.join(";"));
    match v {
        Verdict::Yes => {}
        Verdict::Open => run.count("searches given up", 1),
        Verdict::No => {
            let h: Vec<String> = ops.iter().map(|(c, _)| format!("{}-{} {:?}", c.inv / 1000, c.res / 1000, c.op)).collect();
            run.violation("bucket history is not linearizable", json!({"episode": n, "calls (µs)": h}));
        }
    }
    srv.kill().await;
}

pub async fn buckets(run: &'static Run, workers: u64) {
    let next: &'static std::sync::atomic::AtomicU64 = Box::leak(Box::default());
    parallel(run, workers, |_| async move {
        while run.more() {
            bucket_episode(run, next.fetch_add(1, Ordering::SeqCst)).await;
        }
    })
    .await;
}
