//! C16: signed chunked uploads.
use super::parallel;
use crate::ev::Run;
use crate::http::{self, End, Fail, Rq, Rs};
use crate::record::{Call, Rec};
use crate::sig::{self, Chunk, Cred};
use crate::util::{etag, Rng};
use crate::world::{self, World, AK, SK};
use serde_json::json;

/// what a lenient reader makes of a stream: its chunks, if it is well-formed up to the final one
fn read(stream: &[u8]) -> Option<Vec<(Vec<u8>, String)>> {
    let mut i = 0;
    let mut out = Vec::new();
    loop {
        let end = http::find(&stream[i..], b"\r\n")? + i;
        let line = std::str::from_utf8(&stream[i..end]).ok()?;
        let (size, rest) = line.split_once(';')?;
        let sig = rest.strip_prefix("chunk-signature=")?;
        let n = usize::from_str_radix(size.trim(), 16).ok()?;
        let start = end + 2;
        let data = stream.get(start..start.checked_add(n)?)?;
        if stream.get(start + n..start + n + 2)? != b"\r\n" {
            return None;
        }
        out.push((data.to_vec(), sig.to_ascii_lowercase()));
        i = start + n + 2;
        if n == 0 {
            return (i == stream.len()).then_some(out);
        }
    }
}

/// whether an altered stream still says the same
fn equivalent(altered: &[u8], chunks: &[Chunk]) -> bool {
    read(altered).map_or(false, |got| got.len() == chunks.len() && got.iter().zip(chunks).all(|((d, s), c)| *d == c.data && *s == c.sig))
}

fn raw(size: &str, sig: &str, data: &[u8]) -> Vec<u8> {
    let mut o = format!("{size};chunk-signature={sig}\r\n").into_bytes();
    o.extend_from_slice(data);
    o.extend_from_slice(b"\r\n");
    o
}

struct Stream {
    rq: Rq,
    cred: Cred,
    chunks: Vec<Chunk>,
    encoded: Vec<u8>,
    data: Vec<u8>,
}

fn make(method: &str, target: String, r: &mut Rng, size: usize) -> Stream {
    let data = match size {
        0 => {
            let n = r.below(40);
            r.bytes(n)
        }
        1 => world::content(r, false),
        _ => world::content(r, true),
    };
    let (data, many) = match (size, r.below(40)) {
        // as many chunks as this
        (1 | 2, 0) => {
            let n = *r.pick(&[256, 300, 1000, 1025, 3000]);
            (r.bytes(n), true)
        }
        // one chunk of this size
        (2, 1) => (vec![r.u64() as u8; (*r.pick(&[9usize, 17, 33])) << 20], false),
        _ => (data, false),
    };
    let mut parts: Vec<Vec<u8>> = match r.below(5) {
        _ if many => data.chunks(1).map(<[u8]>::to_vec).collect(),
        0 => vec![data.clone()],
        _ if data.len() > 8 << 20 => vec![data.clone()],
        1 => r.split(&data, 3),
        2 => r.split(&data, 12),
        _ => {
            let n = (*r.pick(&[1usize, 5, 16, 17, 255, 4096, 8192, 65536])).max(data.len() / 60 + 1);
            data.chunks(n).map(<[u8]>::to_vec).collect()
        }
    };
    parts.retain(|p| !p.is_empty());
    let mut cred = Cred::new(AK, SK);
    if r.chance(1, 3) {
        cred.region = (*r.pick(&["eu-central-1", "x", "us-gov-west-1"])).into();
    }
    let mut rq = Rq::new(method, target);
    let chunks = sig::sign_stream(&mut rq, &cred, &parts);
    let encoded = rq.all_body();
    Stream { rq, cred, chunks, encoded, data }
}

fn cut(r: &mut Rng, all: &[u8]) -> Vec<Vec<u8>> {
    match r.below(6) {
        0 => vec![all.to_vec()],
        1 => r.split(all, 2),
        2 => r.split(all, 8),
        3 => r.split(all, 100),
        4 => {
            let n = all.len() / 500 + 1;
            all.chunks(n).map(<[u8]>::to_vec).collect()
        }
        _ => {
            // exactly at the line ends, and beside them
            let mut cuts = vec![0];
            for i in 1..all.len() {
                if all[i - 1] == b'\n' && cuts.len() < 200 {
                    let c = (i + r.below(3)).saturating_sub(1);
                    if c > *cuts.last().unwrap_or(&0) {
                        cuts.push(c);
                    }
                }
            }
            cuts.push(all.len());
            cuts.windows(2).map(|w| all[w[0]..w[1]].to_vec()).collect()
        }
    }
}

pub async fn run(run: &'static Run) -> i32 {
    parallel(run, 8, |w| async move {
        let rec = Rec::default();
        rec.register(AK, SK);
        let svc = rec.service(true);
        let addr = http::serve(svc.clone());
        let fs = World::new(true);
        let bucket = fs.sign(Rq::new("PUT", "/bkt"), &mut Rng::new(1));
        if !fs.call(&bucket).await.map_or(false, |r| r.ok()) {
            run.problem("cannot create a bucket");
            return;
        }
        let mut i = 0;
        while run.more() {
            i += 1;
            let mut r = Rng::from(run.seed, "C16", (i << 8) | w);
            match r.below(10) {
                0 => every_split(run, &rec, &svc, &mut r).await,
                1 | 2 => valid(run, &rec, &svc, addr, &mut r, i).await,
                3 => every_truncation(run, &rec, &svc, &mut r).await,
                4 => every_flip(run, &rec, &svc, &mut r).await,
                5..=7 => altered(run, &rec, &svc, &mut r).await,
                8 => stored(run, &fs, &mut r, i).await,
                _ => part(run, &fs, &mut r).await,
            }
        }
    })
    .await;
    run.finish(&["the letter case of the hexadecimal size and signature of a chunk carries no meaning", "the SHA-256 and HMAC implementations used by the monitor are right"])
}

async fn send(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, rq: &Rq) -> Option<(Rs, Vec<Call>)> {
    run.count("streams", 1);
    let out = http::call(svc, rq).await;
    let calls = rec.take();
    match out {
        Ok(rs) => Some((rs, calls)),
        Err(Fail::Panic(p)) => {
            run.violation("panic", json!({"request": rq.brief(), "panic": p}));
            None
        }
        Err(e) => {
            run.problem(format!("{e:?}"));
            None
        }
    }
}

fn accepted(run: &Run, s: &Stream, rs: &Rs, calls: &[Call], what: &str) {
    let ok = rs.ok() && calls.len() == 1 && calls[0].body == s.data && calls[0].body_err.is_none() && calls[0].done;
    run.check(ok, &format!("valid_stream_{what}"), || {
        json!({"request": s.rq.brief(), "response": rs.brief(), "sizes": s.chunks.iter().map(|c| c.data.len()).take(50).collect::<Vec<_>>(),
               "calls": calls.iter().map(|c| json!({"op": c.op, "delivered": c.body.len(), "prefix": s.data.starts_with(&c.body), "error": c.body_err, "of": s.data.len()})).collect::<Vec<_>>()})
    });
}

fn refused(run: &Run, s: &Stream, rq: &Rq, rs: &Rs, calls: &[Call], what: &str) {
    let mut why = None;
    if calls.len() > 1 {
        why = Some("more than one call");
    }
    for c in calls {
        if !s.data.starts_with(&c.body) {
            why = Some("delivered bytes which were not signed");
        } else if c.done && c.body_err.is_none() {
            why = Some("the storage saw a complete body");
        }
    }
    if rs.status < 400 {
        why = Some("answered with success");
    }
    if let Some(w) = why {
        run.violation(&format!("altered_stream_{what}"), json!({"why": w, "request": rq.brief(), "response": rs.brief(), "original": crate::util::show(&s.encoded),
            "calls": calls.iter().map(|c| json!({"op": c.op, "delivered": c.body.len(), "error": c.body_err, "of": s.data.len()})).collect::<Vec<_>>()}));
    }
}

fn upload_target(r: &mut Rng) -> (&'static str, String) {
    if r.chance(1, 3) {
        ("UploadPart", "/bkt/key?partNumber=3&uploadId=u".into())
    } else {
        ("PutObject", "/bkt/key".into())
    }
}

async fn every_split(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, r: &mut Rng) {
    let (op, t) = upload_target(r);
    let mut s = make("PUT", t, r, 0);
    for at in 0..=s.encoded.len() {
        s.rq.chunks = vec![s.encoded[..at].to_vec(), s.encoded[at..].to_vec()];
        let Some((rs, calls)) = send(run, rec, svc, &s.rq).await else { return };
        run.eval(&format!("split/{op}/{:?}/{at}", s.chunks.iter().map(|c| c.data.len()).collect::<Vec<_>>()), true);
        accepted(run, &s, &rs, &calls, "two_pieces");
    }
    s.rq.chunks = s.encoded.iter().map(|b| vec![*b]).collect();
    let Some((rs, calls)) = send(run, rec, svc, &s.rq).await else { return };
    run.eval(&format!("bytes/{op}/{}", s.encoded.len()), true);
    accepted(run, &s, &rs, &calls, "single_bytes");
}

async fn valid(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, addr: std::net::SocketAddr, r: &mut Rng, i: u64) {
    let (op, t) = upload_target(r);
    let mut s = make("PUT", t, r, 2);
    s.rq.chunks = cut(r, &s.encoded);
    if r.chance(1, 6) {
        let at = r.below(s.rq.chunks.len() + 1);
        s.rq.chunks.insert(at, vec![]);
    }
    let key = format!("valid/{op}/{:?}/{:?}", s.chunks.iter().map(|c| c.data.len()).take(40).collect::<Vec<_>>(), s.rq.chunks.iter().map(Vec::len).take(40).collect::<Vec<_>>());
    run.count("bytes of valid streams", s.data.len() as u64);
    if r.chance(1, 5) {
        let out = http::tcp(addr, &s.rq).await;
        let calls = rec.take();
        run.count("streams over TCP", 1);
        match out {
            Ok(rs) => accepted(run, &s, &rs, &calls, "tcp"),
            Err(e) => run.problem(format!("{e:?}")),
        }
        run.eval(&key, true);
        return;
    }
    let Some((rs, calls)) = send(run, rec, svc, &s.rq).await else { return };
    run.eval(&key, true);
    if i < 20 {
        run.sample(json!({"valid stream, chunks": s.chunks.iter().map(|c| c.data.len()).take(10).collect::<Vec<_>>(), "transport pieces": s.rq.chunks.len()}));
    }
    accepted(run, &s, &rs, &calls, "pieces");
}

fn with(s: &Stream, body: Vec<u8>, r: &mut Rng) -> Rq {
    let mut rq = s.rq.clone();
    rq.set("content-length", body.len().to_string());
    rq.chunks = if r.chance(1, 2) { vec![body] } else { r.split(&body, 5) };
    rq
}

async fn every_truncation(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, r: &mut Rng) {
    let (op, t) = upload_target(r);
    let s = make("PUT", t, r, 0);
    for at in 0..s.encoded.len() {
        let mut rq = with(&s, s.encoded[..at].to_vec(), r);
        if r.chance(1, 3) {
            rq.end = End::Err;
        }
        let Some((rs, calls)) = send(run, rec, svc, &rq).await else { return };
        run.eval(&format!("truncated/{op}/{:?}/{at}/{:?}", s.chunks.iter().map(|c| c.data.len()).collect::<Vec<_>>(), rq.end), true);
        run.count("truncations", 1);
        refused(run, &s, &rq, &rs, &calls, "truncated");
    }
}

async fn every_flip(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, r: &mut Rng) {
    let (op, t) = upload_target(r);
    let s = make("PUT", t, r, 0);
    let kind = r.below(4);
    for at in 0..s.encoded.len() {
        let mut b = s.encoded.clone();
        match kind {
            0 => b[at] ^= 1 << r.below(8),
            1 => {
                b.remove(at);
            }
            2 => b.insert(at, *r.pick(&[b'0', b'\r', b'\n', 0, b'a', b';', b' '])),
            _ => b[at] = r.u64() as u8,
        }
        if equivalent(&b, &s.chunks) {
            run.count("alterations without effect", 1);
            continue;
        }
        let rq = with(&s, b, r);
        let Some((rs, calls)) = send(run, rec, svc, &rq).await else { return };
        run.eval(&format!("byte/{op}/{kind}/{:?}/{at}", s.chunks.iter().map(|c| c.data.len()).collect::<Vec<_>>()), true);
        run.count("altered bytes", 1);
        refused(run, &s, &rq, &rs, &calls, ["flipped", "removed_byte", "inserted_byte", "changed_byte"][kind]);
    }
}

/// an altered stream and the name of the alteration
fn alter(s: &Stream, r: &mut Rng) -> (&'static str, Vec<u8>) {
    let c = &s.chunks;
    let n = c.len();
    let mut d = c.clone();
    match r.below(19) {
        0 if n > 2 => {
            let i = r.below(n - 1);
            let j = (i + 1 + r.below(n - 2)) % (n - 1);
            d.swap(i, j);
            ("swapped", sig::encode_chunks(&d))
        }
        1 if n > 1 => {
            let i = r.below(n - 1);
            let again = d[i].clone();
            d.insert(i + r.below(2), again);
            ("duplicated", sig::encode_chunks(&d))
        }
        2 if n > 1 => {
            d.remove(r.below(n - 1));
            ("dropped", sig::encode_chunks(&d))
        }
        3 => {
            d.pop();
            ("no_final_chunk", sig::encode_chunks(&d))
        }
        4 if n > 1 => {
            let i = r.below(n - 1);
            d[i].data = r.bytes(d[i].data.len());
            ("other_data", sig::encode_chunks(&d))
        }
        5 if n > 1 => {
            // chunks of another upload of other data, signed with the same key
            let other: Vec<Vec<u8>> = c[..n - 1].iter().map(|x| r.bytes(x.data.len())).collect();
            let mut rq = Rq::new("PUT", "/bkt/other");
            let foreign = sig::sign_stream(&mut rq, &s.cred, &other);
            let i = r.below(n - 1);
            d[i] = foreign[i].clone();
            ("foreign_chunk", sig::encode_chunks(&d))
        }
        6 => {
            let bad = Cred { sk: "other-secret".into(), ..s.cred.clone() };
            let seed = seed_of(s);
            ("other_key", sig::encode_chunks(&sig::sign_chunks(&bad, &seed, &c[..n - 1].iter().map(|x| x.data.clone()).collect::<Vec<_>>())))
        }
        7 if n > 2 => {
            // each chunk signed as if it were the first
            let seed = seed_of(s);
            let mut out = Vec::new();
            for x in c {
                let one = sig::sign_chunks(&s.cred, &seed, &[x.data.clone()]);
                out.push(one[0].clone());
            }
            ("not_chained", sig::encode_chunks(&out))
        }
        8 if n > 2 => {
            let i = r.below(n - 2);
            let tail = d.remove(i + 1);
            d[i].data.extend_from_slice(&tail.data);
            if r.chance(1, 2) {
                d[i].sig = tail.sig;
            }
            ("merged", sig::encode_chunks(&d))
        }
        9 if n > 2 => {
            let i = r.below(n - 2);
            let x = d[i].data.pop();
            d[i + 1].data.splice(0..0, x);
            ("moved_boundary", sig::encode_chunks(&d))
        }
        10 => {
            let extra = Chunk { data: r.bytes(9), sig: c[r.below(n)].sig.clone() };
            d.insert(r.below(n), extra);
            ("inserted_chunk", sig::encode_chunks(&d))
        }
        11 => {
            let mut b = sig::encode_chunks(&d);
            let last = sig::sign_chunks(&s.cred, &c[n - 1].sig, &[r.bytes(5)]);
            b.extend_from_slice(&sig::encode_chunks(&last[..1 + r.below(2)]));
            ("after_the_end", b)
        }
        12 => {
            let mut b = sig::encode_chunks(&d);
            b.extend_from_slice(*r.pick(&[&b"x"[..], b"\r\n", b"0;", b"\0", b"trailing data"]));
            ("bytes_after_the_end", b)
        }
        13 => {
            // a lying size
            let i = r.below(n);
            let len = d[i].data.len();
            let size = match r.below(13) {
                9..=11 => format!("{:x}", crate::util::wrapping(len as u64, r)),
                0 => format!("{:x}", len + 1),
                1 if len > 0 => format!("{:x}", len - 1),
                2 => "ffffffff".into(),
                3 => "fffffffff".into(),
                4 => "ffffffffffffffff".into(),
                5 => format!("-{len:x}"),
                6 => format!("0x{len:x}"),
                7 => String::new(),
                8 => "zz".into(),
                _ => format!("{:x}", len * 2 + 7),
            };
            let mut b = sig::encode_chunks(&d[..i]);
            b.extend_from_slice(&raw(&size, &d[i].sig, &d[i].data));
            b.extend_from_slice(&sig::encode_chunks(&d[i + 1..]));
            ("size", b)
        }
        14 => {
            let i = r.below(n);
            let sig = d[i].sig.clone();
            let bad = match r.below(6) {
                0 => String::new(),
                1 => sig[..63].to_owned(),
                2 => format!("{sig}0"),
                3 => "0".repeat(64),
                4 => c[(i + 1) % n].sig.clone() + if n == 1 { "x" } else { "" },
                _ => seed_of(s),
            };
            let mut b = sig::encode_chunks(&d[..i]);
            b.extend_from_slice(&raw(&format!("{:x}", d[i].data.len()), &bad, &d[i].data));
            b.extend_from_slice(&sig::encode_chunks(&d[i + 1..]));
            ("signature", b)
        }
        15 => {
            let i = r.below(n);
            let mut b = sig::encode_chunks(&d[..i]);
            match r.below(4) {
                0 => b.extend_from_slice(format!("{:x}\r\n", d[i].data.len()).as_bytes()),
                1 => b.extend_from_slice(format!("{:x};chunk-signature={}\n", d[i].data.len(), d[i].sig).as_bytes()),
                2 => b.extend_from_slice(format!("{:x};chunk-sig={}\r\n", d[i].data.len(), d[i].sig).as_bytes()),
                _ => b.extend_from_slice(format!("{:x};{}\r\n", d[i].data.len(), d[i].sig).as_bytes()),
            }
            b.extend_from_slice(&d[i].data);
            b.extend_from_slice(b"\r\n");
            b.extend_from_slice(&sig::encode_chunks(&d[i + 1..]));
            ("header_of_a_chunk", b)
        }
        16 => {
            // no line end after the data of a chunk
            let i = r.below(n);
            let mut b = sig::encode_chunks(&d[..i]);
            let mut one = sig::encode_chunks(&d[i..=i]);
            let k = one.len();
            match r.below(3) {
                0 => one.truncate(k - 2),
                1 => one[k - 2] = b'\n',
                _ => one[k - 1] = b'\r',
            }
            b.extend_from_slice(&one);
            b.extend_from_slice(&sig::encode_chunks(&d[i + 1..]));
            ("line_end", b)
        }
        17 => {
            // the data itself, not framed
            ("not_framed", s.data.clone())
        }
        _ => {
            // a final chunk, signed as such, comes too early
            let i = r.below(n);
            let prev = if i == 0 { seed_of(s) } else { c[i - 1].sig.clone() };
            if i == n - 1 {
                return ("empty", vec![]);
            }
            let end = sig::sign_chunks(&s.cred, &prev, &[]);
            let mut b = sig::encode_chunks(&d[..i]);
            b.extend_from_slice(&sig::encode_chunks(&end));
            b.extend_from_slice(&sig::encode_chunks(&d[i..]));
            ("early_end", b)
        }
    }
}

fn seed_of(s: &Stream) -> String {
    s.rq.get("authorization").and_then(|a| a.rsplit_once("Signature=").map(|(_, s)| s.to_owned())).unwrap_or_default()
}

async fn altered(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, r: &mut Rng) {
    let (op, t) = upload_target(r);
    let size = r.below(2);
    let s = make("PUT", t, r, size);
    let (what, b) = alter(&s, r);
    if b == s.encoded || equivalent(&b, &s.chunks) {
        return;
    }
    let rq = with(&s, b, r);
    let Some((rs, calls)) = send(run, rec, svc, &rq).await else { return };
    run.seen("alterations", what);
    run.eval(&format!("altered/{op}/{what}/{:?}", s.chunks.iter().map(|c| c.data.len()).take(30).collect::<Vec<_>>()), true);
    refused(run, &s, &rq, &rs, &calls, what);
}

/// the same against the file system: what is stored afterwards?
async fn stored(run: &Run, fs: &World, r: &mut Rng, i: u64) {
    let key = format!("k{}-{i}", r.below(3));
    let t = world::target("bkt", &key);
    let old = r.chance(1, 2).then(|| r.bytes(50));
    if let Some(o) = &old {
        let put = fs.upload(Rq::new("PUT", t.clone()), o, r).0;
        if !fs.call(&put).await.map_or(false, |x| x.ok()) {
            return run.problem("cannot store");
        }
    }
    let size = r.below(3);
    let s = make("PUT", t.clone(), r, size);
    let good = r.chance(1, 3);
    let (what, rq) = if good {
        let mut rq = s.rq.clone();
        rq.chunks = cut(r, &s.encoded);
        ("valid", rq)
    } else if r.chance(1, 2) {
        let at = r.below(s.encoded.len());
        let mut rq = with(&s, s.encoded[..at].to_vec(), r);
        rq.end = *r.pick(&[End::Done, End::Err, End::Hang]);
        ("truncated", rq)
    } else {
        let (what, b) = alter(&s, r);
        if equivalent(&b, &s.chunks) {
            return;
        }
        (what, with(&s, b, r))
    };
    run.count("streams", 1);
    let out = fs.call(&rq).await;
    let success = match &out {
        Ok(rs) => rs.status < 400,
        Err(Fail::Hang) if rq.end == End::Hang => false,
        Err(Fail::Panic(p)) => return run.violation("panic", json!({"request": rq.brief(), "panic": p})),
        Err(e) => return run.problem(format!("{e:?}")),
    };
    run.seen("alterations of stored objects", what);
    run.eval(&format!("stored/{what}/{}/{:?}", old.is_some(), rq.end), true);
    if success != good {
        return run.violation(&format!("stored_{what}"), json!({"expected success": good, "request": rq.brief(), "response": out.map(|o| o.brief()).ok()}));
    }
    let get = fs.sign(Rq::new("GET", t.clone()), r);
    let Ok(now) = fs.call(&get).await else { return run.problem("cannot read") };
    let want = if good { Some(&s.data) } else { old.as_ref() };
    let right = match want {
        Some(d) => now.ok() && now.body == *d && now.get("etag") == Some(etag(d)),
        None => now.status == 404,
    };
    run.check(right, &format!("content_after_{what}"), || json!({"request": rq.brief(), "GET afterwards": now.brief(), "wanted length": want.map(Vec::len)}));
    let del = fs.sign(Rq::new("DELETE", t), r);
    let _ = fs.call(&del).await;
}

/// a part whose stream fails can not be completed
async fn part(run: &Run, fs: &World, r: &mut Rng) {
    let key = format!("part{}", r.u64());
    let t = world::target("bkt", &key);
    let init = fs.sign(Rq::new("POST", format!("{t}?uploads")), r);
    let Some(id) = fs.call(&init).await.ok().and_then(|x| crate::xml::parse_lenient(&x.body).ok()).and_then(|d| d.text_of("UploadId")) else { return run.problem("cannot initiate") };
    let s = make("PUT", format!("{t}?partNumber=1&uploadId={id}"), r, 1);
    let good = r.chance(1, 3);
    let (what, rq) = if good {
        let mut rq = s.rq.clone();
        rq.chunks = cut(r, &s.encoded);
        ("valid", rq)
    } else {
        let (what, b) = alter(&s, r);
        if equivalent(&b, &s.chunks) {
            return;
        }
        (what, with(&s, b, r))
    };
    run.count("streams", 1);
    let Ok(rs) = fs.call(&rq).await else { return run.problem("no answer") };
    run.eval(&format!("part/{what}"), true);
    let ok = (rs.status < 400) == good && (!good || rs.get("etag") == Some(etag(&s.data)));
    if !run.check(ok, &format!("part_{what}"), || json!({"expected success": good, "request": rq.brief(), "response": rs.brief()})) {
        return;
    }
    let doc = format!("<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>{}</ETag></Part></CompleteMultipartUpload>", etag(&s.data));
    let done = fs.sign(Rq::new("POST", format!("{t}?uploadId={id}")).body(doc), r);
    let Ok(done) = fs.call(&done).await else { return run.problem("no answer") };
    let get = fs.sign(Rq::new("GET", t.clone()), r);
    let Ok(now) = fs.call(&get).await else { return run.problem("cannot read") };
    let right = if good { done.ok() && done.code().is_none() && now.ok() && now.body == s.data } else { (done.status >= 400 || done.code().is_some()) && now.status == 404 };
    run.check(right, &format!("completed_after_{what}"), || json!({"request": rq.brief(), "completion": done.brief(), "GET afterwards": now.brief()}));
    let del = fs.sign(Rq::new("DELETE", t), r);
    let _ = fs.call(&del).await;
}
