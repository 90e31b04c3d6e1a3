//! Requests with a known state before and after, for the checks which crash
//! the server, or let calls fail, in the middle of them.
use crate::http::{self, Out, Rq, Rs};
use crate::sig::{policy_doc, Cred, Form};
use crate::util::{etag, md5_b64, pct_path, xml_escape, Rng, TempDir};
use crate::world::{self, fs_service, target, AK, SK};
use crate::xml;
use s3_server::SharedS3Service;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub type Meta = BTreeMap<String, String>;

#[derive(Clone, PartialEq, Eq)]
pub struct Obj {
    pub data: Vec<u8>,
    pub meta: Meta,
}
impl std::fmt::Debug for Obj {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{} bytes {} {:?}", self.data.len(), crate::util::show(&self.data[..self.data.len().min(24)]), self.meta)
    }
}
pub type State = BTreeMap<String, BTreeMap<String, Obj>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Put,
    Form,
    Copy,
    CopySelf,
    Complete,
    Delete,
    DeleteMany,
    MkBucket,
    RmBucket,
    Start,
    Part,
    PutDir,
    // these change nothing
    Get,
    Range,
    Head,
    List,
    List2,
    ListBuckets,
    HeadBucket,
    Location,
}
pub const MUTATIONS: [Kind; 12] = [
    Kind::Put, Kind::Form, Kind::Copy, Kind::CopySelf, Kind::Complete, Kind::Delete, Kind::DeleteMany, Kind::MkBucket, Kind::RmBucket, Kind::Start, Kind::Part, Kind::PutDir,
];
pub const READS: [Kind; 8] = [Kind::Get, Kind::Range, Kind::Head, Kind::List, Kind::List2, Kind::ListBuckets, Kind::HeadBucket, Kind::Location];

pub struct Scn {
    pub kind: Kind,
    pub name: String,
    pub dir: TempDir,
    pub auth: bool,
    pub rq: Rq,
    pub before: State,
    pub after: State,
    /// the object the request is about (some of them for `DeleteMany`)
    pub addressed: BTreeSet<(String, String)>,
    pub ok: u16,
    /// id and newest parts of the upload in progress on the target
    pub upload: Option<(String, BTreeMap<u32, Vec<u8>>)>,
    /// the part to be uploaded, for `Part`
    pub part: Option<(u32, Vec<u8>)>,
    /// the metadata of the upload to be started, for `Start`
    pub start_meta: Meta,
    pub target: (String, String),
    pub range: (usize, usize),
}

fn meta_of(v: &str) -> Meta {
    [("v".to_owned(), v.to_owned()), (format!("of-{v}"), "1".to_owned())].into()
}
fn with_meta(mut rq: Rq, m: &Meta) -> Rq {
    for (n, v) in m {
        rq = rq.h(&format!("x-amz-meta-{n}"), v);
    }
    rq
}
fn bytes(r: &mut Rng, tag: &str, n: usize) -> Vec<u8> {
    let mut v = tag.as_bytes().to_vec();
    v.extend(r.bytes(n));
    v
}

async fn must(svc: &SharedS3Service, rq: Rq) -> Result<Rs, String> {
    match http::call(svc, &rq).await {
        Ok(rs) if rs.ok() => Ok(rs),
        o => Err(format!("setup: {} {}: {o:?}", rq.method, rq.target)),
    }
}

pub async fn build(kind: Kind, r: &mut Rng) -> Result<Scn, String> {
    let dir = TempDir::new();
    let svc = fs_service(&dir.path, false);
    let auth = kind == Kind::Form || r.chance(1, 2);
    let cred = Cred::new(AK, SK);
    let cred = auth.then_some(&cred);
    let key: String = match r.below(4) {
        0 => "deep/er/target é".into(),
        1 => format!("{}/{}", "l".repeat(190), "k".repeat(60)),
        _ => "target".into(),
    };
    let mut before = State::new();
    for b in ["bkt", "other"] {
        must(&svc, Rq::new("PUT", format!("/{b}"))).await?;
        before.insert(b.into(), BTreeMap::new());
    }
    let mut objs: Vec<(&str, String, Obj)> = vec![
        ("bkt", "neighbour".into(), Obj { data: bytes(r, "neighbour", 700), meta: meta_of("neighbour") }),
        ("bkt", "deep/neighbour".into(), Obj { data: bytes(r, "deep", 10), meta: Meta::new() }),
        ("bkt", "second".into(), Obj { data: bytes(r, "second", 100), meta: meta_of("second") }),
        ("other", key.clone(), Obj { data: bytes(r, "namesake", 300), meta: meta_of("namesake") }),
        ("other", "src".into(), Obj { data: vec![], meta: meta_of("src") }),
    ];
    let size = *r.pick(&[0usize, 9, 5000, 20_000, 300_000]);
    objs[4].2.data = bytes(r, "src", size);
    if r.chance(1, 2) {
        objs[4].2.meta = Meta::new();
    }
    let exists = r.chance(3, 4) || matches!(kind, Kind::Get | Kind::Range | Kind::Head | Kind::CopySelf);
    if exists {
        let meta = if r.chance(2, 3) { meta_of("old") } else { Meta::new() };
        let n = *r.pick(&[4usize, 6000, 100_000]);
        objs.push(("bkt", key.clone(), Obj { data: bytes(r, "old", n), meta }));
    }
    for (b, k, o) in objs {
        must(&svc, with_meta(Rq::new("PUT", target(b, &k)), &o.meta).body(o.data.clone())).await?;
        before.get_mut(b).ok_or("bucket")?.insert(k, o);
    }
    // uploads in progress, on the target and elsewhere
    let t = target("bkt", &key);
    let mp_meta = if r.chance(1, 2) { meta_of("assembled") } else { Meta::new() };
    let start = |t: String, m: Meta| {
        let svc = svc.clone();
        async move {
            let rs = must(&svc, with_meta(Rq::new("POST", format!("{t}?uploads")), &m)).await?;
            xml::parse_lenient(&rs.body).ok().and_then(|d| d.text_of("UploadId")).ok_or("setup: no upload id".to_owned())
        }
    };
    let id = start(t.clone(), mp_meta.clone()).await?;
    let mut parts = BTreeMap::new();
    for n in [1u32, 2] {
        let size = *r.pick(&[0usize, 10, 9000, 70_000]);
        let d = bytes(r, &format!("part{n}"), size);
        must(&svc, Rq::new("PUT", format!("{t}?partNumber={n}&uploadId={id}")).body(d.clone())).await?;
        parts.insert(n, d);
    }
    let other_id = start(target("other", "src"), meta_of("foreign")).await?;
    must(&svc, Rq::new("PUT", format!("/other/src?partNumber=1&uploadId={other_id}")).body("foreign part")).await?;

    let size = *r.pick(&[0usize, 3, 9000, 9000, 300_000]);
    let new = Obj { data: bytes(r, "new", size), meta: if r.chance(1, 2) { meta_of("new") } else { Meta::new() } };
    let mut after = before.clone();
    let set = |after: &mut State, o: Option<Obj>| {
        if let Some(b) = after.get_mut("bkt") {
            match o {
                Some(o) => {
                    b.insert(key.clone(), o);
                }
                None => {
                    b.remove(&key);
                }
            }
        }
    };
    let mut addressed: BTreeSet<(String, String)> = [("bkt".to_owned(), key.clone())].into();
    let mut ok = 200;
    let mut part = None;
    let mut range = (0, 0);
    let rq = match kind {
        Kind::Put => {
            set(&mut after, Some(new.clone()));
            let mut rq = with_meta(Rq::new("PUT", t.clone()), &new.meta);
            if r.chance(1, 3) {
                rq = rq.h("content-md5", md5_b64(&new.data));
            }
            world::upload(cred, rq, &new.data, r).0
        }
        Kind::Form => {
            set(&mut after, Some(new.clone()));
            let mut f = Form::new(&key, &new.data, r);
            for (n, v) in &new.meta {
                f.fields.push((format!("x-amz-meta-{n}"), v.clone().into_bytes()));
            }
            if let Some(c) = cred {
                f.sign(c, &policy_doc("bkt", c.date + chrono::Duration::hours(3), &[]));
            }
            f.request("bkt")
        }
        Kind::Copy => {
            let src = before["other"]["src"].clone();
            let mut rq = Rq::new("PUT", t.clone()).h("x-amz-copy-source", "other/src");
            if r.chance(1, 2) {
                rq = with_meta(rq.h("x-amz-metadata-directive", "REPLACE"), &new.meta);
                set(&mut after, Some(Obj { data: src.data, meta: new.meta.clone() }));
            } else {
                set(&mut after, Some(src));
            }
            world::sign(cred, rq, r)
        }
        Kind::CopySelf => {
            let old = before["bkt"][&key].clone();
            set(&mut after, Some(Obj { data: old.data, meta: new.meta.clone() }));
            let rq = Rq::new("PUT", t.clone()).h("x-amz-copy-source", format!("bkt/{}", pct_path(key.as_bytes()))).h("x-amz-metadata-directive", "REPLACE");
            world::sign(cred, with_meta(rq, &new.meta), r)
        }
        Kind::Complete => {
            let data: Vec<u8> = parts.values().flatten().copied().collect();
            set(&mut after, Some(Obj { data, meta: mp_meta }));
            let doc: String = parts.iter().map(|(n, d)| format!("<Part><PartNumber>{n}</PartNumber><ETag>{}</ETag></Part>", xml_escape(&etag(d)))).collect();
            world::sign(cred, Rq::new("POST", format!("{t}?uploadId={id}")).body(format!("<CompleteMultipartUpload>{doc}</CompleteMultipartUpload>")), r)
        }
        Kind::Delete => {
            set(&mut after, None);
            ok = 204;
            world::sign(cred, Rq::new("DELETE", t.clone()), r)
        }
        Kind::DeleteMany => {
            set(&mut after, None);
            after.get_mut("bkt").ok_or("bucket")?.remove("second");
            addressed.insert(("bkt".into(), "second".into()));
            let mut ks = vec![key.clone(), "second".to_owned(), "not-there".to_owned()];
            r.shuffle(&mut ks);
            let doc: String = ks.iter().map(|k| format!("<Object><Key>{}</Key></Object>", xml_escape(k))).collect();
            world::sign(cred, Rq::new("POST", "/bkt?delete").body(format!("<Delete>{doc}</Delete>")), r)
        }
        Kind::MkBucket => {
            after.insert("fresh".into(), BTreeMap::new());
            addressed.clear();
            world::sign(cred, Rq::new("PUT", "/fresh"), r)
        }
        Kind::RmBucket => {
            after.remove("bkt");
            ok = 204;
            addressed = before["bkt"].keys().map(|k| ("bkt".to_owned(), k.clone())).collect();
            world::sign(cred, Rq::new("DELETE", "/bkt"), r)
        }
        Kind::Start => {
            addressed.clear();
            world::sign(cred, with_meta(Rq::new("POST", format!("{t}?uploads")), &new.meta), r)
        }
        Kind::Part => {
            addressed.clear();
            let n = *r.pick(&[1u32, 2, 3]);
            part = Some((n, new.data.clone()));
            world::upload(cred, Rq::new("PUT", format!("{t}?partNumber={n}&uploadId={id}")), &new.data, r).0
        }
        Kind::PutDir => {
            addressed.clear();
            world::sign(cred, Rq::new("PUT", "/bkt/new-dir/sub/").h("content-length", "0"), r)
        }
        Kind::Get => world::sign(cred, Rq::new("GET", t.clone()), r),
        Kind::Range => {
            let len = before["bkt"][&key].data.len();
            let a = r.below(len);
            range = (a, r.range(a, len - 1));
            ok = 206;
            world::sign(cred, Rq::new("GET", t.clone()).h("range", format!("bytes={}-{}", range.0, range.1)), r)
        }
        Kind::Head => world::sign(cred, Rq::new("HEAD", t.clone()), r),
        Kind::List => world::sign(cred, Rq::new("GET", "/bkt"), r),
        Kind::List2 => world::sign(cred, Rq::new("GET", "/bkt?list-type=2"), r),
        Kind::ListBuckets => world::sign(cred, Rq::new("GET", "/"), r),
        Kind::HeadBucket => world::sign(cred, Rq::new("HEAD", "/bkt"), r),
        Kind::Location => world::sign(cred, Rq::new("GET", "/bkt?location"), r),
    };
    if READS.contains(&kind) {
        addressed.clear();
    }
    let shape = |o: Option<&Obj>| o.map_or("absent".to_owned(), |o| format!("{}{}", o.data.len(), if o.meta.is_empty() { "" } else { "+meta" }));
    let name = format!("{kind:?} {} -> {} key of {} bytes", shape(before["bkt"].get(&key)), shape(after.get("bkt").and_then(|b| b.get(&key))), key.len());
    Ok(Scn { kind, name, dir, auth, rq, before, after, addressed, ok, upload: Some((id, parts)), part, start_meta: new.meta, target: ("bkt".into(), key), range })
}

/// everything a client can see
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Seen {
    pub objs: State,
}

/// look at everything through the service; `keys` are looked at even if they are not listed
pub async fn look(svc: &SharedS3Service, keys: &BTreeSet<(String, String)>) -> Result<Seen, String> {
    let get = |t: String| {
        let svc = svc.clone();
        async move { http::call(&svc, &Rq::new("GET", t)).await }
    };
    let rs = get("/".into()).await.map_err(|e| format!("list of buckets: {e:?}"))?;
    let doc = xml::parse_lenient(&rs.body).map_err(|e| format!("list of buckets: {e}: {}", rs.brief()))?;
    if !rs.ok() {
        return Err(format!("list of buckets: {}", rs.brief()));
    }
    let mut seen = Seen::default();
    let names: Vec<String> = doc.all("Bucket").filter_map(|b| b.text_of("Name")).chain(doc.all("Buckets").flat_map(|b| b.all("Bucket").filter_map(|b| b.text_of("Name")).collect::<Vec<_>>())).collect();
    for b in names {
        let mut listed = BTreeMap::new();
        for q in ["", "?list-type=2"] {
            let rs = get(format!("/{b}{q}")).await.map_err(|e| format!("listing of {b}: {e:?}"))?;
            let doc = xml::parse_lenient(&rs.body).map_err(|e| format!("listing of {b}: {e}"))?;
            if !rs.ok() {
                return Err(format!("listing of {b}: {}", rs.brief()));
            }
            let l: BTreeMap<String, String> = doc.all("Contents").map(|c| (c.text_of("Key").unwrap_or_default(), c.text_of("Size").unwrap_or_default())).collect();
            if !q.is_empty() && l != listed {
                return Err(format!("the two listings of {b} differ: {l:?} and {listed:?}"));
            }
            listed = l;
        }
        let mut objs = BTreeMap::new();
        let more: BTreeSet<String> = keys.iter().filter(|k| k.0 == b).map(|k| k.1.clone()).chain(listed.keys().cloned()).collect();
        for k in more {
            let rs = get(target(&b, &k)).await.map_err(|e| format!("{b}/{k}: {e:?}"))?;
            let head = http::call(svc, &Rq::new("HEAD", target(&b, &k))).await.map_err(|e| format!("{b}/{k}: {e:?}"))?;
            match rs.status {
                404 => {
                    if listed.contains_key(&k) || head.status != 404 {
                        return Err(format!("{b}/{k} is listed ({:?}), or found by HEAD ({}), but can not be read", listed.get(&k), head.status));
                    }
                }
                200 if rs.body_err.is_none() => {
                    if rs.get("etag") != Some(etag(&rs.body)) {
                        return Err(format!("{b}/{k}: the ETag is not that of the content: {}", rs.brief()));
                    }
                    if listed.get(&k) != Some(&rs.body.len().to_string()) || head.status != 200 || head.get("content-length") != Some(rs.body.len().to_string()) || head.meta() != rs.meta() {
                        return Err(format!("{b}/{k}: listed with {:?} bytes, HEAD {}, GET {}", listed.get(&k), head.brief(), rs.brief()));
                    }
                    objs.insert(k, Obj { meta: rs.meta(), data: rs.body });
                }
                _ => return Err(format!("{b}/{k}: {}", rs.brief())),
            }
        }
        seen.objs.insert(b, objs);
    }
    Ok(seen)
}

/// whether what is seen is allowed: `Some(true)`: the request must have taken
/// effect, `Some(false)`: it must not, `None`: either of it, per object, where an
/// object with lost metadata is allowed
pub fn judge(s: &Scn, seen: &Seen, effect: Option<bool>) -> Result<(), String> {
    let exact = match effect {
        Some(true) => Some(&s.after),
        Some(false) => Some(&s.before),
        None => None,
    };
    if let Some(want) = exact {
        return if seen.objs == *want { Ok(()) } else { Err(format!("expected {want:?}, seen {:?}", seen.objs)) };
    }
    let names: BTreeSet<&String> = seen.objs.keys().chain(s.before.keys()).chain(s.after.keys()).collect();
    for b in names {
        let (old, new, is) = (s.before.get(b), s.after.get(b), seen.objs.get(b));
        if is.is_some() != old.is_some() && is.is_some() != new.is_some() {
            return Err(format!("bucket {b}: {}", if is.is_some() { "from nowhere" } else { "lost" }));
        }
        let Some(is) = is else { continue };
        // a bucket which may be deleted is there with everything in it
        let new = if s.kind == Kind::RmBucket { old } else { new };
        let empty = BTreeMap::new();
        let (old, new) = (old.unwrap_or(&empty), new.unwrap_or(&empty));
        let keys: BTreeSet<&String> = is.keys().chain(old.keys()).chain(new.keys()).collect();
        for k in keys {
            let (o, n, i) = (old.get(k), new.get(k), is.get(k));
            let untouched = !s.addressed.contains(&(b.clone(), k.clone())) || s.kind == Kind::RmBucket;
            let fits = |v: Option<&Obj>| match (v, i) {
                (None, None) => true,
                (Some(v), Some(i)) => v.data == i.data && (v.meta == i.meta || (!untouched && i.meta.is_empty())),
                _ => false,
            };
            if !(fits(o) || (!untouched && fits(n))) {
                return Err(format!("{b}/{k}: before {o:?}, after {n:?}, seen {i:?}"));
            }
        }
    }
    Ok(())
}

/// whether an answer says that the request took effect; `Err` if the answer is wrong
pub fn claims(s: &Scn, o: &Out) -> Result<bool, String> {
    let rs = match o {
        Ok(rs) => rs,
        Err(_) => return Ok(false),
    };
    if rs.status != s.ok || rs.body_err.is_some() {
        if (200..300).contains(&rs.status) && rs.body_err.is_none() {
            return Err(format!("status {} instead of {}", rs.status, s.ok));
        }
        return Ok(false);
    }
    let after = s.after.get(&s.target.0).and_then(|b| b.get(&s.target.1));
    let doc = || xml::parse_lenient(&rs.body).map_err(|e| format!("document: {e}"));
    let tag = match s.kind {
        Kind::Put | Kind::Form | Kind::Get => rs.get("etag"),
        Kind::Copy | Kind::CopySelf | Kind::Complete => doc()?.text_of("ETag"),
        Kind::Part => {
            let want = s.part.as_ref().map(|p| etag(&p.1));
            return if rs.get("etag") == want { Ok(true) } else { Err(format!("ETag {:?} instead of {want:?}", rs.get("etag"))) };
        }
        Kind::DeleteMany => {
            let d = doc()?;
            let mut gone: Vec<String> = d.all("Deleted").filter_map(|e| e.text_of("Key")).collect();
            let mut bad: Vec<String> = d.all("Error").filter_map(|e| e.text_of("Key")).collect();
            let mut all: Vec<String> = s.addressed.iter().map(|k| k.1.clone()).chain(["not-there".to_owned()]).collect();
            all.sort();
            gone.sort();
            bad.sort();
            let mut both = gone.clone();
            both.extend(bad.iter().cloned());
            both.sort();
            return if both == all { Ok(bad.is_empty()) } else { Err(format!("reported deleted {gone:?} and failed {bad:?}, requested {all:?}")) };
        }
        Kind::Range => {
            let want = after.map(|o| &o.data[s.range.0..=s.range.1]);
            return if Some(&rs.body[..]) == want { Ok(true) } else { Err("not the requested bytes".into()) };
        }
        Kind::Head => {
            return if rs.get("content-length") == after.map(|o| o.data.len().to_string()) && Some(rs.meta()) == after.map(|o| o.meta.clone()) {
                Ok(true)
            } else {
                Err(format!("not the object: {}", rs.brief()))
            }
        }
        Kind::List | Kind::List2 => {
            let d = doc()?;
            let got: Vec<(String, String)> = d.all("Contents").map(|c| (c.text_of("Key").unwrap_or_default(), c.text_of("Size").unwrap_or_default())).collect();
            let want: Vec<(String, String)> = s.after["bkt"].iter().map(|(k, o)| (k.clone(), o.data.len().to_string())).collect();
            return if got == want { Ok(true) } else { Err(format!("listed {got:?} instead of {want:?}")) };
        }
        Kind::ListBuckets => {
            let d = doc()?;
            let mut got: Vec<String> = d.all("Bucket").filter_map(|b| b.text_of("Name")).chain(d.all("Buckets").flat_map(|b| b.all("Bucket").filter_map(|b| b.text_of("Name")).collect::<Vec<_>>())).collect();
            got.sort();
            let want: Vec<String> = s.after.keys().cloned().collect();
            return if got == want { Ok(true) } else { Err(format!("listed {got:?} instead of {want:?}")) };
        }
        Kind::Start => {
            return match doc()?.text_of("UploadId") {
                Some(id) if !id.is_empty() => Ok(true),
                _ => Err("no upload id".into()),
            }
        }
        _ => return Ok(true),
    };
    if s.kind == Kind::Get && (Some(&rs.body) != after.map(|o| &o.data) || Some(rs.meta()) != after.map(|o| o.meta.clone())) {
        return Err(format!("not the object: {}", rs.brief()));
    }
    let want = after.map(|o| etag(&o.data));
    if tag == want { Ok(true) } else { Err(format!("ETag {tag:?} instead of {want:?}")) }
}

/// whether the parts of the upload in progress are whole: it is completed (without
/// a digest of the parts); `effect` as in `judge`
pub async fn upload_whole(s: &Scn, svc: &SharedS3Service, effect: Option<bool>) -> Result<(), String> {
    let Some((id, parts)) = &s.upload else { return Ok(()) };
    let t = target(&s.target.0, &s.target.1);
    let mut wants: Vec<BTreeMap<u32, Vec<u8>>> = Vec::new();
    if effect != Some(true) || s.part.is_none() {
        wants.push(parts.clone());
    }
    if let Some((n, d)) = &s.part {
        if effect != Some(false) {
            let mut p = parts.clone();
            p.insert(*n, d.clone());
            wants.push(p);
        }
    }
    let mut last = String::new();
    // the one with more parts first: it can only be completed if they are there
    wants.sort_by_key(|w| std::cmp::Reverse(w.len()));
    let n_wants = wants.len();
    for (i, w) in wants.iter().enumerate() {
        let digests = n_wants == 2 && wants[0].len() == wants[1].len();
        let doc: String = w
            .iter()
            .map(|(n, d)| {
                let tag = if digests { format!("<ETag>{}</ETag>", xml_escape(&etag(d))) } else { String::new() };
                format!("<Part><PartNumber>{n}</PartNumber>{tag}</Part>")
            })
            .collect();
        let o = http::call(svc, &Rq::new("POST", format!("{t}?uploadId={id}")).body(format!("<CompleteMultipartUpload>{doc}</CompleteMultipartUpload>"))).await;
        match &o {
            Ok(rs) if rs.ok() => {
                let want: Vec<u8> = w.values().flatten().copied().collect();
                return match http::call(svc, &Rq::new("GET", t)).await {
                    Ok(rs) if rs.body == want => Ok(()),
                    o => Err(format!("completed upload: {o:?}").chars().take(600).collect()),
                };
            }
            Ok(rs) if i + 1 < n_wants && rs.status == 400 => {}
            o => last = format!("completion: {o:?}").chars().take(600).collect(),
        }
    }
    Err(last)
}

/// use the directory normally after what happened
pub async fn works(s: &Scn, root: &Path, keys: &BTreeSet<(String, String)>) -> Result<(), String> {
    let svc = fs_service(root, false);
    let (b, k) = &s.target;
    let t = target(b, k);
    let there = matches!(http::call(&svc, &Rq::new("HEAD", format!("/{b}"))).await, Ok(rs) if rs.status == 200);
    if !there {
        must(&svc, Rq::new("PUT", format!("/{b}"))).await?;
        let seen = look(&svc, keys).await?;
        if seen.objs.get(b).map_or(true, |o| !o.is_empty()) {
            return Err(format!("a new bucket is not empty: {:?}", seen.objs.get(b)));
        }
    }
    let plain = |data: &'static [u8]| Rq::new("PUT", t.clone()).body(data);
    for (rq, want) in [
        (plain(b"plain"), Some(("plain", Meta::new()))),
        (Rq::new("DELETE", t.clone()), None),
        (plain(b"again"), Some(("again", Meta::new()))),
        (with_meta(plain(b"meta"), &meta_of("m")), Some(("meta", meta_of("m")))),
    ] {
        must(&svc, rq.clone()).await?;
        let seen = look(&svc, &[(b.clone(), k.clone())].into()).await?;
        let is = seen.objs.get(b).and_then(|o| o.get(k));
        let want = want.map(|(d, m)| Obj { data: d.as_bytes().to_vec(), meta: m });
        if is != want.as_ref() {
            return Err(format!("after {} {}: {is:?} instead of {want:?}", rq.method, rq.target));
        }
    }
    must(&svc, Rq::new("DELETE", format!("/{b}"))).await?;
    must(&svc, Rq::new("PUT", format!("/{b}"))).await?;
    let seen = look(&svc, keys).await?;
    if seen.objs.get(b).map_or(true, |o| !o.is_empty()) {
        return Err(format!("a new bucket is not empty: {:?}", seen.objs.get(b)));
    }
    must(&svc, plain(b"x")).await?;
    let seen = look(&svc, &[(b.clone(), k.clone())].into()).await?;
    if seen.objs.get(b).and_then(|o| o.get(k)).map(|o| o.meta.clone()) != Some(Meta::new()) {
        return Err(format!("metadata of an object in a deleted bucket came back: {:?}", seen.objs.get(b)));
    }
    Ok(())
}

pub fn all_keys(s: &Scn) -> BTreeSet<(String, String)> {
    [&s.before, &s.after].iter().flat_map(|st| st.iter().flat_map(|(b, o)| o.keys().map(move |k| (b.clone(), k.clone())))).collect()
}

/// the keys an answer reports deleted
pub fn reported_deleted(o: &Out) -> BTreeSet<String> {
    match o {
        Ok(rs) if rs.ok() && rs.body_err.is_none() => xml::parse_lenient(&rs.body).map(|d| d.all("Deleted").filter_map(|e| e.text_of("Key")).collect()).unwrap_or_default(),
        _ => BTreeSet::new(),
    }
}

/// an upload reported as started can be used; one of a deleted bucket can not
pub async fn uploads_follow(s: &Scn, svc: &SharedS3Service, o: &Out) -> Result<(), String> {
    let (b, k) = &s.target;
    let t = target(b, k);
    let brief = |o: &Out| format!("{o:?}").chars().take(500).collect::<String>();
    match s.kind {
        Kind::Start => {
            let Ok(rs) = o else { return Ok(()) };
            let Some(id) = xml::parse_lenient(&rs.body).ok().and_then(|d| d.text_of("UploadId")) else { return Ok(()) };
            let a = http::call(svc, &Rq::new("PUT", format!("{t}?partNumber=7&uploadId={id}")).body("seven")).await;
            let doc = "<CompleteMultipartUpload><Part><PartNumber>7</PartNumber></Part></CompleteMultipartUpload>";
            let c = http::call(svc, &Rq::new("POST", format!("{t}?uploadId={id}")).body(doc)).await;
            let g = http::call(svc, &Rq::new("GET", t)).await;
            match &g {
                Ok(rs) if rs.body == b"seven" && rs.meta() == s.start_meta => Ok(()),
                _ => Err(format!("the upload reported as started can not be used: {} {} {}", brief(&a), brief(&c), brief(&g))),
            }
        }
        Kind::RmBucket => {
            let Some((id, _)) = &s.upload else { return Ok(()) };
            must(svc, Rq::new("PUT", format!("/{b}"))).await?;
            let a = http::call(svc, &Rq::new("PUT", format!("{t}?partNumber=1&uploadId={id}")).body("x")).await;
            must(svc, Rq::new("DELETE", format!("/{b}"))).await?;
            match &a {
                Ok(rs) if rs.status == 404 => Ok(()),
                a => Err(format!("an upload of the deleted bucket can still be used: {}", brief(a))),
            }
        }
        _ => Ok(()),
    }
}
