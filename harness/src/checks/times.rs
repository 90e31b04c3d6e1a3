//! C26: what is said about when objects and buckets came into being.
use super::parallel;
use crate::ev::Run;
use crate::http::{Out, Rq, Rs};
use crate::sig::{policy_doc, Form};
use crate::util::{etag, md5_b64, xml_escape, Rng};
use crate::world::{self, fs_service, target, target_any, World};
use chrono::{DateTime, NaiveDateTime, Utc};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::Duration;

const SECOND: i128 = 1_000_000_000;
/// time stamps of files come from a clock which is behind by a tick
const TICK: i128 = 30_000_000;

fn now() -> i128 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_nanos() as i128)
}
fn sec(t: i128) -> i128 {
    t.div_euclid(SECOND)
}

/// a time in a header
fn header_time(s: &str) -> Option<i128> {
    let form = "%a, %d %b %Y %H:%M:%S GMT";
    let t = NaiveDateTime::parse_from_str(s, form).ok()?;
    (t.format(form).to_string() == s).then(|| i128::from(t.and_utc().timestamp()) * SECOND)
}
/// a time in a document
fn doc_time(s: &str) -> Option<i128> {
    let t = DateTime::parse_from_rfc3339(s).ok()?.with_timezone(&Utc);
    Some(i128::from(t.timestamp()) * SECOND + i128::from(t.timestamp_subsec_nanos()))
}

/// when something came into being: between these moments, and what has been said about it so far
#[derive(Clone, Debug)]
struct Born {
    lo: i128,
    hi: i128,
    /// to the second
    coarse: Option<i128>,
    fine: Option<i128>,
    how: &'static str,
}

impl Born {
    fn new(lo: i128, how: &'static str) -> Self {
        Self { lo, hi: now(), coarse: None, fine: None, how }
    }
    /// `Err`: this can not be
    fn said(&mut self, t: i128, fine: bool) -> Result<(), String> {
        let show = |t: i128| format!("{}.{:09}", sec(t), t.rem_euclid(SECOND));
        let whole = t.rem_euclid(SECOND) == 0;
        let early = if whole { sec(t) < sec(self.lo - TICK) } else { t < self.lo - TICK };
        if early || t > self.hi + TICK {
            return Err(format!("{} is said, but it came into being between {} and {} ({})", show(t), show(self.lo), show(self.hi), self.how));
        }
        if let Some(c) = self.coarse {
            if c != sec(t) {
                return Err(format!("{} is said, {c} was said before ({})", show(t), self.how));
            }
        }
        if fine {
            if let Some(f) = self.fine {
                if f != t {
                    return Err(format!("{} is said, {} was said before ({})", show(t), show(f), self.how));
                }
            }
            self.fine = Some(t);
        }
        self.coarse = Some(sec(t));
        Ok(())
    }
}

struct Hist {
    run: &'static Run,
    w: World,
    r: Rng,
    objects: BTreeMap<(String, String), Born>,
    buckets: BTreeMap<String, Born>,
    keys: Vec<String>,
    log: Vec<Value>,
    n: u64,
}

impl Hist {
    fn bad(&self, sig: &str, rq: &Rq, o: &Out, why: &str) {
        let tail: Vec<Value> = self.log.iter().rev().take(30).rev().cloned().collect();
        let rs = o.as_ref().map_or_else(|e| json!(format!("{e:?}")), Rs::brief);
        self.run.violation(sig, json!({"history": self.n, "request": rq.brief(), "response": rs, "why": why, "before": tail}));
    }
    async fn call(&mut self, rq: &Rq) -> Out {
        self.w.call(rq).await
    }
    async fn send(&mut self, rq: Rq) -> (Rq, Out) {
        let rq = self.w.sign(rq, &mut self.r);
        let o = self.call(&rq).await;
        (rq, o)
    }
    fn note(&mut self, what: &str, b: &str, k: &str, o: &Out) {
        let st = o.as_ref().map_or(0, |rs| rs.status);
        self.log.push(json!({"op": what, "bucket": b, "key": k.chars().take(60).collect::<String>(), "status": st, "at": sec(now()), "frac": now().rem_euclid(SECOND)}));
    }
    fn ok(&self, o: &Out) -> bool {
        let good = matches!(o, Ok(rs) if rs.ok() && rs.code().is_none());
        if !good {
            self.run.count("requests refused unexpectedly (judged by other checks)", 1);
        }
        good
    }

    async fn step(&mut self) {
        let b = {
            let all: Vec<String> = self.buckets.keys().cloned().collect();
            if all.is_empty() { "first".to_owned() } else { self.r.pick(&all).clone() }
        };
        let k = self.r.pick(&self.keys.clone()).clone();
        let lo = now();
        match self.r.weighted(&[8, 2, 6, 3, 3, 2, 3, 2, 2, 8]) {
            0 => {
                let data = world::content(&mut self.r, false);
                let rq = Rq::new("PUT", target_any(&b, &k, &mut self.r));
                let (mut rq, _) = self.w.upload(rq, &data, &mut self.r);
                if self.r.chance(1, 4) && rq.chunks.len() < 20 {
                    rq.pause = Some(Duration::from_millis(self.r.range(1, 2500) as u64 / rq.chunks.len().max(1) as u64));
                }
                let o = self.call(&rq).await;
                self.note("put", &b, &k, &o);
                if self.ok(&o) {
                    self.objects.insert((b, k), Born::new(lo, "PutObject"));
                }
            }
            1 if self.w.auth => {
                let data = world::content(&mut self.r, false);
                let mut f = Form::new(&k, &data, &mut self.r);
                let cred = self.w.cred();
                f.sign(&cred, &policy_doc(&b, cred.date + chrono::Duration::hours(1), &[]));
                let o = self.call(&f.request(&b)).await;
                self.note("form", &b, &k, &o);
                if self.ok(&o) {
                    self.objects.insert((b, k), Born::new(lo, "form"));
                }
            }
            2 if !self.objects.is_empty() => {
                let all: Vec<(String, String)> = self.objects.keys().cloned().collect();
                let src = self.r.pick(&all).clone();
                let k = if self.r.chance(1, 4) { src.1.clone() } else { k };
                let mut rq = Rq::new("PUT", target(&b, &k)).h("x-amz-copy-source", &target(&src.0, &src.1)[1..]);
                if self.r.chance(1, 3) {
                    rq = rq.h("x-amz-metadata-directive", "REPLACE").h("x-amz-meta-new", "1");
                }
                let (rq, o) = self.send(rq).await;
                self.note("copy", &b, &k, &o);
                if self.ok(&o) {
                    let mut born = Born::new(lo, "CopyObject");
                    let said = o.as_ref().ok().and_then(|rs| crate::xml::parse_lenient(&rs.body).ok()).and_then(|d| d.text_of("LastModified"));
                    match said.as_deref().map(doc_time) {
                        None => {}
                        Some(None) => self.bad("result of a copy", &rq, &o, "no time"),
                        Some(Some(t)) => {
                            self.run.eval(&format!("copy of {}s", sec(lo - self.objects.get(&src).map_or(lo, |b| b.hi))), true);
                            if let Err(e) = born.said(t, false) {
                                self.bad("result of a copy", &rq, &o, &e);
                            }
                        }
                    }
                    self.objects.insert((b, k), born);
                }
            }
            3 => {
                let (_, o) = self.send(Rq::new("POST", format!("{}?uploads", target(&b, &k)))).await;
                let id = o.as_ref().ok().and_then(|rs| crate::xml::parse_lenient(&rs.body).ok()).and_then(|d| d.text_of("UploadId")).unwrap_or_default();
                let data = world::content(&mut self.r, false);
                let (rq, _) = self.w.upload(Rq::new("PUT", format!("{}?partNumber=1&uploadId={id}", target(&b, &k))), &data, &mut self.r);
                let _ = self.call(&rq).await;
                if self.r.chance(1, 2) {
                    tokio::time::sleep(Duration::from_millis(self.r.range(10, 1800) as u64)).await;
                }
                let doc = format!("<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>{}</ETag></Part></CompleteMultipartUpload>", xml_escape(&etag(&data)));
                let (_, o) = self.send(Rq::new("POST", format!("{}?uploadId={id}", target(&b, &k))).body(doc)).await;
                self.note("multipart", &b, &k, &o);
                if self.ok(&o) {
                    // (S3 says when the upload was started, others when it was completed)
                    self.objects.insert((b, k), Born::new(lo, "multipart upload"));
                }
            }
            4 => {
                let (_, o) = self.send(Rq::new("DELETE", target(&b, &k))).await;
                self.note("delete", &b, &k, &o);
                if self.ok(&o) {
                    self.objects.remove(&(b, k));
                }
            }
            // what is refused
            5 => {
                let data = world::content(&mut self.r, false);
                let mut rq = Rq::new("PUT", target(&b, &k)).h("content-md5", md5_b64(b"something else"));
                rq = if self.r.chance(1, 2) { rq.body([&data[..], b"!"].concat()) } else { Rq::new("PUT", target(&b, &k)).h("x-amz-copy-source", format!("{b}/no-such-object-here")) };
                let (_, o) = self.send(rq).await;
                self.note("refused", &b, &k, &o);
                if o.as_ref().map_or(true, |rs| rs.ok()) {
                    self.run.count("requests accepted unexpectedly (judged by other checks)", 1);
                    self.objects.remove(&(b, k));
                }
            }
            6 => {
                let name = (*self.r.pick(&["first", "second", "third.one"])).to_owned();
                let lo = now();
                let (_, o) = self.send(Rq::new("PUT", format!("/{name}"))).await;
                self.note("create bucket", &name, "", &o);
                if !self.buckets.contains_key(&name) && self.ok(&o) {
                    self.buckets.insert(name, Born::new(lo, "CreateBucket"));
                }
            }
            7 if self.buckets.len() > 1 => {
                let (_, o) = self.send(Rq::new("DELETE", format!("/{b}"))).await;
                self.note("delete bucket", &b, "", &o);
                if self.ok(&o) {
                    self.buckets.remove(&b);
                    self.objects.retain(|(x, _), _| *x != b);
                }
            }
            9 => self.age(),
            _ => {
                self.w.svc = fs_service(&self.w.dir.path, self.w.auth);
                self.log.push(json!({"op": "restart"}));
                self.run.count("restarts", 1);
            }
        }
    }

    /// years pass for an object (whose time is that of its file, as far as can be seen)
    fn age(&mut self) {
        let all: Vec<(String, String)> = self.objects.keys().cloned().collect();
        if all.is_empty() {
            return;
        }
        let (b, k) = self.r.pick(&all).clone();
        let path = self.w.dir.path.join(&b).join(&k);
        let since = |t: std::time::SystemTime| t.duration_since(std::time::UNIX_EPOCH).map_or(-1, |d| d.as_nanos() as i128);
        let was = std::fs::metadata(&path).ok().filter(|m| m.is_file()).and_then(|m| m.modified().ok()).map_or(-1, since);
        let born = &self.objects[&(b.clone(), k.clone())];
        if was < born.lo - TICK || was > born.hi + TICK || born.coarse.map_or(true, |c| c != sec(was)) {
            return;
        }
        let day = |y, m, d| chrono::NaiveDate::from_ymd_opt(y, m, d).map(|d| d.and_time(chrono::NaiveTime::MIN).and_utc().timestamp());
        let r = &mut self.r;
        let (y, m) = (*r.pick(&[1970, 1972, 1999, 2000, 2001, 2009, 2016, 2020, 2024, 2025]), r.range(1, 12) as u32);
        let last = (28..=31).rev().find(|d| day(y, m, *d).is_some()).unwrap_or(28);
        let d = match r.below(4) {
            0 => 1,
            1 => last,
            2 => r.range(1, 9) as u32,
            _ => r.range(1, last as usize) as u32,
        };
        let of_day = match r.below(4) {
            0 => 0,
            1 => 86_399,
            2 => r.range(0, 23) * 3600 + r.range(0, 59) * 60,
            _ => r.range(0, 86_399),
        };
        let frac = match r.below(5) {
            0 => 0,
            1 => 999_999_999,
            2 => r.range(1, 999),
            3 => r.range(0, 999) * 1_000_000,
            _ => r.range(0, 999_999_999),
        };
        let t = i128::from(day(y, m, d).unwrap_or(0) + of_day as i64) * SECOND + frac as i128;
        let when = std::time::UNIX_EPOCH + Duration::new(sec(t) as u64, t.rem_euclid(SECOND) as u32);
        if std::fs::File::open(&path).and_then(|f| f.set_modified(when)).is_err() {
            return;
        }
        self.log.push(json!({"op": "time set", "bucket": b, "key": k, "to": sec(t), "frac": frac}));
        self.run.seen("times of old objects", &format!("{y}-{m}-{d}"));
        self.objects.insert((b, k), Born { lo: t, hi: t, coarse: Some(sec(t)), fine: None, how: "old" });
    }

    /// look at everything
    async fn look(&mut self) {
        let run = self.run;
        let (rq, o) = self.send(Rq::new("GET", "/")).await;
        if let Some(doc) = o.as_ref().ok().filter(|rs| rs.ok()).and_then(|rs| crate::xml::parse_lenient(&rs.body).ok()) {
            for e in doc.one("Buckets").into_iter().flat_map(|b| b.all("Bucket")) {
                let (Some(n), Some(t)) = (e.text_of("Name"), e.text_of("CreationDate")) else { continue };
                let verdict = match (self.buckets.get_mut(&n), doc_time(&t)) {
                    (None, _) => continue,
                    (_, None) => Err("no time".into()),
                    (Some(born), Some(t)) => born.said(t, true),
                };
                run.eval(&format!("bucket, age {}", now() / SECOND - self.buckets.get(&n).map_or(0, |b| sec(b.hi))), true);
                if let Err(e) = verdict {
                    self.bad("creation date of a bucket", &rq, &o, &e);
                }
            }
        }
        for b in self.buckets.keys().cloned().collect::<Vec<_>>() {
            let q = *self.r.pick(&["", "?list-type=2"]);
            let (rq, o) = self.send(Rq::new("GET", format!("/{b}{q}"))).await;
            let Some(doc) = o.as_ref().ok().filter(|rs| rs.ok()).and_then(|rs| crate::xml::parse_lenient(&rs.body).ok()) else { continue };
            for e in doc.all("Contents") {
                let (Some(k), Some(t)) = (e.text_of("Key"), e.text_of("LastModified")) else { continue };
                let verdict = match (self.objects.get_mut(&(b.clone(), k.clone())), doc_time(&t)) {
                    (None, _) => continue,
                    (_, None) => Err("no time".into()),
                    (Some(born), Some(t)) => born.said(t, true),
                };
                run.eval(&format!("listing{q}, {}, age {}", self.objects[&(b.clone(), k.clone())].how, sec(now()) - sec(self.objects[&(b.clone(), k.clone())].hi)), true);
                if let Err(e) = verdict {
                    self.bad("time in a listing", &rq, &o, &format!("{k}: {e}"));
                }
            }
        }
        for (b, k) in self.objects.keys().cloned().collect::<Vec<_>>() {
            let (how, rq) = match self.r.below(4) {
                0 => ("GET", Rq::new("GET", target(&b, &k))),
                1 => ("range", Rq::new("GET", target(&b, &k)).h("range", "bytes=0-0")),
                _ => ("HEAD", Rq::new("HEAD", target(&b, &k))),
            };
            let (rq, o) = self.send(rq).await;
            let Some(text) = o.as_ref().ok().filter(|rs| rs.ok()).and_then(|rs| rs.get("last-modified")) else { continue };
            let verdict = match (self.objects.get_mut(&(b.clone(), k.clone())), header_time(&text)) {
                (None, _) => continue,
                (_, None) => Err(format!("{text:?} is no time")),
                (Some(born), Some(t)) => born.said(t, false),
            };
            let born = &self.objects[&(b.clone(), k.clone())];
            run.eval(&format!("{how}, {}, age {}", born.how, sec(now()) - sec(born.hi)), true);
            if let Err(e) = verdict {
                self.bad(how, &rq, &o, &e);
            }
        }
    }
}

async fn history(run: &'static Run, seed: u64, n: u64) {
    let mut r = Rng::from(seed, "times", n);
    let keys = world::key_pool(&mut r, 4, false);
    let auth = r.chance(1, 2);
    let mut h = Hist { run, w: World::new(auth), r, objects: BTreeMap::new(), buckets: BTreeMap::new(), keys, log: vec![], n };
    let lo = now();
    let (_, o) = h.send(Rq::new("PUT", "/first")).await;
    if !h.ok(&o) {
        return;
    }
    h.buckets.insert("first".into(), Born::new(lo, "CreateBucket"));
    run.count("histories", 1);
    for _ in 0..40 {
        if !run.more() {
            break;
        }
        h.step().await;
        if h.r.chance(2, 3) {
            h.look().await;
        }
        tokio::time::sleep(Duration::from_millis(h.r.range(0, 2200) as u64)).await;
    }
    h.look().await;
}

/// the time zone of this process is none of the usual ones; to be called first of all
pub fn zone(seed: u64) {
    let zones = ["<+0545>-5:45", "<-0930>9:30", "EST5EDT,M3.2.0,M11.1.0", "<+14>-14", "NZST-12NZDT,M9.5.0,M4.1.0/3"];
    std::env::set_var("TZ", zones[(seed % zones.len() as u64) as usize]);
}

pub async fn run(run: &'static Run) -> i32 {
    let seed = run.seed;
    run.seen("offset of the time zone", &chrono::Local::now().offset().to_string());
    parallel(run, run.by(160, 300), move |i| async move {
        let mut k = 0;
        while run.more() {
            history(run, seed, i * 10_000 + k).await;
            k += 1;
        }
    })
    .await;
    run.finish(&["the clock of this machine is not set during the check", "one request at a time per server"])
}
