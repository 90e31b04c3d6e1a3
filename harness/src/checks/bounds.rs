//! C22: what requests hold: memory while they run, anything after they end.
use super::parallel;
use crate::ev::Run;
use crate::http::{self, find, Conn, Fail, Rq};
use crate::record::{Answer, Rec};
use crate::sig::{self, policy_doc, Cred, Form, Pay};
use crate::sut::{Opts, Server};
use crate::util::{md5_b64, Rng, TempDir};
use crate::world::{self, AK, SK};
use crate::xml;
use bytes::Bytes;
use hyper::Body;
use serde_json::json;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;

const MIB: usize = 1 << 20;
/// what a request may take besides one signed chunk; a pipe of 8 MiB, and
/// buffers, are part of it
const SLACK: i64 = 40 * MIB as i64;

fn cred() -> Cred {
    Cred::new(AK, SK)
}

/// a body as pieces, which share their memory
type Pieces = Vec<Bytes>;

/// `n` bytes without anything that looks like the end of a form
fn filler(n: usize, r: &mut Rng) -> Bytes {
    let mut v = r.bytes(n);
    for b in &mut v {
        if *b == b'\r' {
            *b = b'.';
        }
    }
    Bytes::from(v)
}
fn repeat(piece: &Bytes, total: usize) -> Pieces {
    let mut out = Vec::new();
    let mut left = total;
    while left > 0 {
        let n = left.min(piece.len());
        out.push(piece.slice(..n));
        left -= n;
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Way {
    Presigned,
    Chunked(usize),
    Form,
}

/// an upload of `total` bytes, without its body, and its body
fn upload(target: &str, way: Way, total: usize, r: &mut Rng) -> (Rq, Pieces) {
    let c = cred();
    let piece = filler(MIB.min(total.max(1)), r);
    match way {
        Way::Presigned => {
            let mut rq = Rq::new("PUT", target).h("content-length", total.to_string());
            sig::presign(&mut rq, &c, 600, &[]);
            (rq, repeat(&piece, total))
        }
        Way::Chunked(n) => {
            let piece = filler(n.min(total.max(1)), r);
            let data = repeat(&piece, total);
            // (the signatures depend on the seed, the length does not)
            let mut rq = Rq::new("PUT", target);
            let len: usize = data.iter().map(|d| d.len() + format!("{:x}", d.len()).len()).sum::<usize>() + data.len() * 85 + 86;
            rq.set("content-length", len.to_string());
            rq.set("x-amz-decoded-content-length", total.to_string());
            let seed = sig::sign_header(&mut rq, &c, Pay::Stream, &[]);
            let mut prev = seed;
            let mut out = Vec::new();
            for d in data.iter().chain([&Bytes::new()]) {
                let s = sig::chunk_signature(&c, &prev, d);
                out.push(Bytes::from(format!("{:x};chunk-signature={s}\r\n", d.len())));
                if !d.is_empty() {
                    out.push(d.clone());
                }
                out.push(Bytes::from_static(b"\r\n"));
                prev = s;
            }
            debug_assert_eq!(out.iter().map(Bytes::len).sum::<usize>(), len);
            (rq, out)
        }
        Way::Form => {
            let mut path = target.trim_start_matches('/').splitn(2, '/');
            let (b, k) = (path.next().unwrap_or(""), path.next().unwrap_or(""));
            let mut f = Form::new(k, b"@@file@@", r);
            let any = |n: &str| json!(["starts-with", n, ""]);
            f.sign(&c, &policy_doc(b, chrono::Utc::now() + chrono::Duration::hours(1), &[any("$key"), any("$x-amz-algorithm"), any("$x-amz-credential"), any("$x-amz-date")]));
            let whole = f.encode();
            let p = find(&whole, b"@@file@@").expect("mark");
            let mut out = vec![Bytes::copy_from_slice(&whole[..p])];
            out.extend(repeat(&piece, total));
            out.push(Bytes::copy_from_slice(&whole[p + 8..]));
            let mut rq = f.request(b);
            rq.chunks.clear();
            rq.set("content-length", out.iter().map(Bytes::len).sum::<usize>().to_string());
            (rq, out)
        }
    }
}

/// send a request with a large body; the status of the answer, and its body
async fn push(srv: &Server, rq: &Rq, body: &[Bytes], sent: &AtomicUsize) -> Result<http::Rs, Fail> {
    let t = |e: std::io::Error| Fail::Transport(e.to_string());
    let mut c = Conn::open(srv.addr).await.map_err(t)?;
    c.write(&Conn::head_bytes(rq).0).await.map_err(t)?;
    for p in body {
        if c.write(p).await.is_err() {
            break;
        }
        sent.fetch_add(p.len(), Ordering::SeqCst);
    }
    tokio::time::timeout(http::WATCHDOG, c.read(rq.method == "HEAD")).await.unwrap_or(Err(Fail::Hang))
}

/// receive an answer with a large body, `stall` in the middle; status and bytes
async fn pull(srv: &Server, rq: &Rq, stall: Duration) -> Result<(u16, usize), String> {
    let e = |e: std::io::Error| e.to_string();
    let mut s = TcpStream::connect(srv.addr).await.map_err(e)?;
    let mut rq = rq.clone();
    rq.set("connection", "close");
    s.write_all(&Conn::head_bytes(&rq).0).await.map_err(e)?;
    let mut buf = vec![0; MIB];
    let mut head = Vec::new();
    let mut n = 0;
    let mut stalled = false;
    let mut status = 0;
    loop {
        let k = tokio::time::timeout(http::WATCHDOG, s.read(&mut buf)).await.map_err(|_| "no more data".to_owned())?.map_err(e)?;
        if k == 0 {
            return Ok((status, n));
        }
        if status == 0 {
            head.extend_from_slice(&buf[..k]);
            if let Some(p) = find(&head, b"\r\n\r\n") {
                status = String::from_utf8_lossy(&head[..p]).split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(999);
                n = head.len() - p - 4;
            }
        } else {
            n += k;
        }
        if !stalled && n > 100_000 {
            stalled = true;
            tokio::time::sleep(stall).await;
        }
    }
}

async fn idle(srv: &Server) {
    // until nothing changes any more
    let mut last = (0, (0, 0));
    for _ in 0..60 {
        let now = (srv.ctl.live(), srv.holds());
        if now == last {
            return;
        }
        last = now;
        tokio::time::sleep(Duration::from_millis(40)).await;
    }
}

struct Meter<'a> {
    run: &'a Run,
    srv: Server,
    r: Rng,
    total: usize,
}

impl Meter<'_> {
    fn signed(&mut self, rq: Rq) -> Rq {
        world::sign(Some(&cred()), rq, &mut self.r)
    }
    async fn start(&self) -> i64 {
        idle(&self.srv).await;
        self.srv.ctl.reset_peak();
        self.srv.ctl.live()
    }
    /// judge what a request took
    fn peak(&self, what: &str, base: i64, chunk: usize) {
        let took = self.srv.ctl.peak() - base;
        self.run.eval(&format!("{what} of {} MiB", self.total / MIB), true);
        self.run.max(&format!("most KiB of heap: {what}"), (took.max(0) / 1024) as u64);
        self.run.check(took <= SLACK + 3 * chunk as i64, &format!("memory: {what}"), || {
            json!({"request": what, "size of the object": self.total, "bytes of memory taken at a time": took, "allowed": SLACK + 3 * chunk as i64})
        });
    }
    async fn put(&mut self, target: &str, way: Way, what: &str) -> bool {
        let (rq, body) = upload(target, way, self.total, &mut self.r);
        let base = self.start().await;
        let sent = AtomicUsize::new(0);
        let o = push(&self.srv, &rq, &body, &sent).await;
        let ok = matches!(&o, Ok(rs) if rs.ok());
        if !ok {
            self.run.problem(format!("{what}: {o:?} {}", self.srv.stderr()));
            return false;
        }
        let chunk = if let Way::Chunked(n) = way { n } else { 0 };
        self.peak(what, base, chunk);
        true
    }
    async fn get(&mut self, target: &str, range: Option<String>, stall: Duration, want: usize, what: &str) {
        let mut rq = Rq::new("GET", target);
        if let Some(g) = range {
            rq = rq.h("range", g);
        }
        let rq = self.signed(rq);
        let base = self.start().await;
        match pull(&self.srv, &rq, stall).await {
            Ok((200 | 206, n)) if n == want => self.peak(what, base, 0),
            o => self.run.problem(format!("{what}: {o:?}")),
        }
    }
    async fn small(&mut self, rq: Rq, what: &str) -> Option<http::Rs> {
        let rq = self.signed(rq);
        let base = self.start().await;
        match self.srv.call(&rq).await {
            Ok(rs) if rs.ok() => {
                self.peak(what, base, 0);
                Some(rs)
            }
            o => {
                self.run.problem(format!("{what}: {o:?}"));
                None
            }
        }
    }
}

async fn meter(run: &Run, total: usize, r: Rng) -> Option<(TempDir, Meter<'_>)> {
    let dir = TempDir::new();
    let srv = Server::start(run, &dir.path, &Opts { auth: true, ..Opts::default() }).await?;
    let mut m = Meter { run, srv, r, total };
    for b in ["bkt", "other"] {
        m.small(Rq::new("PUT", format!("/{b}")), "create a bucket").await?;
    }
    // (the first ones fill caches; those for the names of functions in reports of errors take a lot)
    let (rq, mut body) = upload("/bkt/none", Way::Chunked(8192), 50_000, &mut m.r);
    let p = body.len() / 2;
    body[p] = Bytes::from(vec![0; body[p].len()]);
    let _ = push(&m.srv, &rq, &body, &AtomicUsize::new(0)).await;
    for _ in 0..3 {
        m.small(Rq::new("PUT", "/bkt/small").body("small".as_bytes()), "a small upload").await?;
        m.small(Rq::new("GET", "/bkt/small"), "a small download").await?;
    }
    Some((dir, m))
}

/// objects of a size that would be noticed
async fn large(run: &Run, total: usize, part: usize, mut r: Rng) {
    let chunk = *r.pick(&[8 * 1024, 65_536, 65_536, MIB]);
    let Some((_dir, mut m)) = meter(run, total, r).await else { return };
    let mut big = false;
    match part % 4 {
        0 => {
            big = m.put("/bkt/big", Way::Presigned, "upload").await;
            let stall = Duration::from_millis(400);
            if big {
                m.get("/bkt/big", None, stall, total, "download, the client stalls").await;
                m.get("/bkt/big", Some(format!("bytes=1000-{}", total - 500)), Duration::ZERO, total - 1499, "range").await;
                m.srv.ctl.delays(1000, 1000, m.r.u64());
                let way = *m.r.pick(&[Way::Presigned, Way::Chunked(chunk)]);
                big = m.put("/bkt/big", way, "upload, slow disk").await;
                run.max("file-system calls delayed", m.srv.ctl.delayed());
                m.srv.ctl.delays(0, 0, 0);
            }
        }
        1 => {
            big = m.put("/bkt/big", Way::Chunked(chunk), "aws-chunked upload").await;
            if big {
                m.small(Rq::new("PUT", "/other/copy").h("x-amz-copy-source", "bkt/big"), "copy").await;
                m.get("/other/copy", None, Duration::ZERO, total, "download").await;
            }
        }
        2 => {
            big = m.put("/bkt/big", Way::Form, "form").await;
            if big {
                m.small(Rq::new("HEAD", "/bkt/big"), "head").await;
                m.get("/bkt/big", Some(format!("bytes=-{}", total - 3)), Duration::from_millis(300), total - 3, "range, the client stalls").await;
                m.small(Rq::new("PUT", "/bkt/big").h("x-amz-copy-source", "/bkt/big").h("x-amz-metadata-directive", "REPLACE"), "copy onto itself").await;
                m.small(Rq::new("GET", "/bkt?list-type=2"), "list").await;
            }
        }
        _ => {
            m.total = total / 2;
            let Some(rs) = m.small(Rq::new("POST", "/bkt/big?uploads"), "start an upload").await else { return };
            let id = xml::parse_lenient(&rs.body).ok().and_then(|d| d.text_of("UploadId")).unwrap_or_default();
            let a = m.put(&format!("/bkt/big?partNumber=1&uploadId={id}"), Way::Presigned, "part").await;
            let b = a && m.put(&format!("/bkt/big?partNumber=2&uploadId={id}"), Way::Chunked(chunk), "aws-chunked part").await;
            if b {
                let doc = "<CompleteMultipartUpload><Part><PartNumber>1</PartNumber></Part><Part><PartNumber>2</PartNumber></Part></CompleteMultipartUpload>";
                m.small(Rq::new("POST", format!("/bkt/big?uploadId={id}")).body(doc), "complete an upload").await;
                m.get("/bkt/big", None, Duration::ZERO, total, "download").await;
                big = true;
            }
        }
    }
    if big {
        m.small(Rq::new("DELETE", "/bkt/big"), "delete").await;
    }
    let hwm = m.srv.status("VmHWM");
    run.max("most KiB of resident memory", hwm);
    let lim = (SLACK as u64 + (3 * chunk) as u64) / 1024 * 2 + 60_000;
    run.check(hwm < lim, "resident memory", || json!({"KiB at most": hwm, "allowed": lim, "size of the objects": total}));
    m.srv.kill().await;
}

/// endless headers, which are no content
async fn endless(run: &Run, mut r: Rng) {
    let Some((_dir, m)) = meter(run, 100 * MIB, Rng::new(r.u64())).await else { return };
    let junk = Bytes::from(vec![b'a'; MIB]);
    for what in ["size of a chunk", "extension of a chunk", "signature of a chunk", "header of a form file"] {
        let (mut rq, mut body) = upload("/bkt/big", if what.contains("form") { Way::Form } else { Way::Chunked(65_536) }, 200_000, &mut r);
        let first = if what.contains("form") {
            let head = &body[0];
            // (the empty line before the file)
            head.slice(..head.len() - 4)
        } else {
            Bytes::copy_from_slice(match what {
                "size of a chunk" => b"",
                "extension of a chunk" => b"100;",
                _ => b"100;chunk-signature=",
            })
        };
        body = vec![first];
        body.extend(std::iter::repeat(junk.clone()).take(100));
        rq.set("content-length", body.iter().map(Bytes::len).sum::<usize>().to_string());
        if !what.contains("form") {
            sig::sign_header(&mut rq, &cred(), Pay::Stream, &[]);
        }
        let base = m.start().await;
        let sent = AtomicUsize::new(0);
        let o = push(&m.srv, &rq, &body, &sent).await;
        match &o {
            Err(Fail::Hang) => run.violation(&format!("no answer: endless {what}"), json!({"sent": sent.load(Ordering::SeqCst)})),
            Ok(rs) if rs.ok() => run.violation(&format!("accepted: endless {what}"), rs.brief()),
            // (the answer may be lost when the connection is closed)
            _ => m.peak(&format!("endless {what}"), base, 0),
        }
    }
    m.srv.kill().await;
}

/// wait until a number does not change any more
async fn steady(f: impl Fn() -> usize) -> usize {
    let mut last = f();
    let mut same = 0;
    while same < 12 {
        tokio::time::sleep(Duration::from_millis(5)).await;
        let now = f();
        same = if now == last { same + 1 } else { 0 };
        last = now;
    }
    last
}

/// bodies are read as fast as the storage takes them, not faster
async fn upload_pressure(run: &Run, mut r: Rng) {
    let rec = Rec::default();
    rec.register(AK, SK);
    rec.0.gated.store(true, Ordering::SeqCst);
    let total = r.range(6, 14) * MIB;
    let chunk = *r.pick(&[8192, 65_536, MIB]);
    let (way, name) = match r.below(5) {
        0 => (Way::Presigned, "plain"),
        1 => (Way::Presigned, "presigned"),
        2 | 3 => (Way::Chunked(chunk), "aws-chunked"),
        _ => (Way::Form, "form"),
    };
    let part = way != Way::Form && r.chance(1, 2);
    let (mut rq, body) = upload(if part { "/bkt/big?partNumber=3&uploadId=abc" } else { "/bkt/big" }, way, total, &mut r);
    let auth = name != "plain";
    if !auth {
        rq = Rq::new("PUT", if part { "/bkt/big?partNumber=3&uploadId=abc" } else { "/bkt/big" }).h("content-length", total.to_string());
    }
    let what = format!("{name}, {}", if part { "part" } else { "object" });
    // as they arrive
    let max = *r.pick(&[1500, 16_384, 65_536, 400_000]);
    let pieces: Vec<Bytes> = body.iter().flat_map(|b| (0..b.len()).step_by(max).map(move |i| b.slice(i..b.len().min(i + max)))).collect();
    let given = Arc::new(AtomicUsize::new(0));
    let g = given.clone();
    let stream = futures::stream::iter(pieces.into_iter().map(move |p| {
        g.fetch_add(p.len(), Ordering::SeqCst);
        Ok::<_, std::io::Error>(p)
    }));
    let Ok(req) = http::build(&rq) else {
        run.problem("cannot build the request");
        return;
    };
    let (head, _) = req.into_parts();
    let req = hyper::Request::from_parts(head, Body::wrap_stream(stream));
    let svc = rec.service(auth);
    let task = tokio::spawn(async move { Ok::<_, Fail>(http::read_response(svc.hyper_call(req).await.map_err(|e| Fail::Transport(e.to_string()))?).await) });
    let window = if matches!(way, Way::Chunked(_)) { chunk } else { 0 } + 2 * max + MIB;
    let mut gate = 0;
    for step in 0..3 {
        let ahead = steady(|| given.load(Ordering::SeqCst)).await as i64 - rec.0.read.load(Ordering::SeqCst) as i64;
        run.eval(&format!("{what}: storage waits, step {step}"), true);
        run.max(&format!("most KiB read ahead: {name}"), ahead.max(0) as u64 / 1024);
        if task.is_finished() {
            break;
        }
        run.check(ahead <= window as i64, &format!("reads ahead of the storage: {what}"), || {
            json!({"upload": what, "taken from the connection and not yet by the storage": ahead, "allowed": window, "chunk": chunk, "pieces of": max, "after": gate})
        });
        gate += r.range(1, total / 3);
        rec.0.gate.store(gate, Ordering::SeqCst);
    }
    if r.chance(1, 4) {
        // the client goes away
        task.abort();
        let _ = task.await;
        let freed = steady(|| Arc::strong_count(&given)).await == 1;
        run.eval(&format!("{what}: client goes away"), true);
        run.check(freed, &format!("body kept after the client went away: {what}"), || json!({"upload": what}));
        return;
    }
    rec.0.gate.store(usize::MAX, Ordering::SeqCst);
    match tokio::time::timeout(http::WATCHDOG, task).await {
        Ok(Ok(Ok(rs))) if rs.ok() && rec.0.read.load(Ordering::SeqCst) == total => {}
        o => run.problem(format!("{what}: {o:?}, {} of {total} bytes", rec.0.read.load(Ordering::SeqCst))),
    }
}

/// bodies of answers are produced as fast as they are taken
async fn download_pressure(run: &Run, mut r: Rng) {
    let rec = Rec::default();
    let (size, n) = *r.pick(&[(1000, 3000), (65_536, 200), (MIB, 20)]);
    rec.script("GetObject", Answer::Output(json!({"content_length": size * n}), vec![vec![7; size]; n]));
    let svc = rec.service(false);
    let Ok(req) = http::build(&Rq::new("GET", "/bkt/big")) else { return };
    let Ok(rs) = svc.hyper_call(req).await else {
        run.problem("no answer");
        return;
    };
    let mut body = rs.into_body();
    let mut got = 0;
    let pulled = rec.0.pulled.clone();
    for step in 0..3 {
        let ahead = steady(|| pulled.load(Ordering::SeqCst)).await * size;
        let ahead = ahead as i64 - got as i64;
        run.eval(&format!("download: client waits, step {step}"), true);
        run.max("most KiB produced ahead", ahead.max(0) as u64 / 1024);
        run.check(ahead <= (2 * size + MIB) as i64, "produces ahead of the client", || json!({"taken from the storage and not yet by the client": ahead, "pieces of": size}));
        let upto = got + r.below(size * n / 3);
        while got < upto {
            match hyper::body::HttpBody::data(&mut body).await {
                Some(Ok(b)) => got += b.len(),
                o => {
                    run.problem(format!("download: {o:?}"));
                    return;
                }
            }
        }
    }
    drop((body, svc));
    let freed = {
        let rec = &rec;
        rec.clear();
        steady(|| Arc::strong_count(&pulled)).await == 2
    };
    run.eval("download: client goes away", true);
    run.check(freed, "body kept after the client went away: download", || json!({}));
}

/// how a client uses its connection
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Client {
    /// takes the whole answer
    Polite,
    /// closes it in the middle of the request's body
    CutBody,
    /// the same, after a pause
    StallBody,
    /// closes it in the middle of the header
    CutHead,
    /// does not wait for the answer
    NoAnswer,
    /// reads only the start of the answer
    CutAnswer,
}

struct Errand {
    what: &'static str,
    rq: Rq,
    how: Client,
    /// the status to expect, 0 for any
    status: u16,
}

/// requests after which everything is as before
fn errands(r: &mut Rng, n: usize, id: &str) -> Vec<Errand> {
    let c = cred();
    let mut out = Vec::new();
    for i in 0..n {
        let key = format!("/bkt/{}", i % 5);
        let size = *r.pick(&[0, 10, 70_000, 300_000]);
        let data = r.bytes(size);
        let part = format!("/bkt/up?partNumber={}&uploadId={id}", 1 + i % 2);
        let to = if r.chance(1, 4) { part } else { key.clone() };
        let put = || Rq::new("PUT", to.clone());
        let post = |cond: &str, r: &mut Rng| {
            let mut f = Form::new(key.trim_start_matches("/bkt/"), &data, r);
            let any = |n: &str| json!(["starts-with", n, ""]);
            f.sign(&c, &policy_doc("bkt", chrono::Utc::now() + chrono::Duration::hours(1), &[json!(["starts-with", "$key", cond]), any("$x-amz-algorithm"), any("$x-amz-credential"), any("$x-amz-date")]));
            f.request("bkt")
        };
        let chunks: Vec<Vec<u8>> = data.chunks(65_536).map(<[u8]>::to_vec).collect();
        let streamed = |good: bool| {
            let mut rq = put();
            sig::sign_stream(&mut rq, &c, &chunks);
            if !good {
                // the signature of the last chunk
                let mut b = rq.all_body();
                let p = b.len() - 8;
                b[p] = if b[p] == b'a' { b'b' } else { b'a' };
                rq.chunks = vec![b];
            }
            rq
        };
        let presigned = |mut rq: Rq| {
            sig::presign(&mut rq, &c, 600, &[]);
            rq
        };
        let signed = |rq: Rq| {
            let mut rq = rq;
            sig::sign_header(&mut rq, &c, Pay::Hash, &[]);
            rq
        };
        let get = Rq::new("GET", "/bkt/large");
        let (what, rq, status) = match i % 30 {
            0 => ("put", presigned(put().body(data.clone())), 200),
            1 => ("put, signed content", signed(put().body(data.clone())), 200),
            2 | 3 => ("aws-chunked put", streamed(true), 200),
            4 => ("aws-chunked put, bad signature", streamed(false), 0),
            5 => ("form", post("", r), 200),
            6 => ("form, refused", post("nothing", r), 403),
            7 | 8 => ("get", signed(get), 200),
            9 => ("range", presigned(get.h("range", "bytes=100000-2000000")), 206),
            10 => ("head", presigned(Rq::new("HEAD", "/bkt/large")), 200),
            11 => ("get, missing", presigned(Rq::new("GET", "/bkt/missing")), 404),
            12 => ("get, range not satisfiable", presigned(get.h("range", "bytes=99999999-")), 416),
            13 => ("list", presigned(Rq::new("GET", "/bkt?list-type=2&prefix=")), 200),
            14 => ("list, no bucket", presigned(Rq::new("GET", "/missing")), 404),
            15 => ("put, no bucket", presigned(Rq::new("PUT", "/missing/k").body(data.clone())), 404),
            16 => ("put, bad digest", presigned(put().h("content-md5", md5_b64(b"other")).body(data.clone())), 400),
            17 => ("put, not signed", put().body(data.clone()), 403),
            18 => {
                let mut rq = presigned(put().body(data.clone()));
                let t = rq.target.replace("X-Amz-Signature=", "X-Amz-Signature=0");
                rq.target = t[..t.len() - 1].to_owned();
                ("put, bad signature", rq, 403)
            }
            19 => ("copy", presigned(Rq::new("PUT", key).h("x-amz-copy-source", "/bkt/large")), 200),
            20 => ("copy, no source", presigned(Rq::new("PUT", key).h("x-amz-copy-source", "/bkt/missing")), 404),
            21 => ("delete several", signed(Rq::new("POST", "/bkt?delete").body("<Delete><Object><Key>0</Key></Object><Object><Key>gone</Key></Object></Delete>")), 200),
            22 => ("malformed document", signed(Rq::new("POST", "/bkt?delete").body("<Delete><Object>")), 400),
            23 => ("part of no upload", presigned(Rq::new("PUT", "/bkt/up?partNumber=1&uploadId=0b8f2b4e-0b1c-4b2e-9a55-0d1c2b3a4f5e").body(data.clone())), 404),
            24 => ("no method", presigned(Rq::new("PATCH", "/bkt/x").body(data.clone())), 0),
            25 => ("delete", presigned(Rq::new("DELETE", key)), 204),
            26 => ("create, exists", presigned(Rq::new("PUT", "/bkt")), 0),
            27 => ("list buckets", presigned(Rq::new("GET", "/")), 200),
            28 => ("part", presigned(Rq::new("PUT", format!("/bkt/up?partNumber=2&uploadId={id}")).body(data.clone())), 200),
            _ => ("put", presigned(put().body(data.clone())), 200),
        };
        let up = rq.all_body().len() > 1000;
        let down = what == "get" || what == "range";
        let how = match r.below(8) {
            0 if up => Client::CutBody,
            1 if up => Client::StallBody,
            2 if down => Client::CutAnswer,
            3 if down => Client::NoAnswer,
            4 => Client::CutHead,
            5 if r.chance(1, 3) => Client::NoAnswer,
            _ => Client::Polite,
        };
        out.push(Errand { what, rq, how, status });
    }
    out
}

async fn carry_out(run: &Run, srv: &Server, e: &Errand) {
    run.eval(&format!("{}, {:?}", e.what, e.how), true);
    if e.how == Client::Polite {
        match srv.call(&e.rq).await {
            Ok(rs) if e.status == 0 || rs.status == e.status => {}
            o => run.problem(format!("{}: {}", e.what, o.map_or_else(|f| format!("{f:?}"), |rs| rs.brief().to_string()))),
        }
        return;
    }
    let Ok(mut s) = TcpStream::connect(srv.addr).await else {
        run.problem("cannot connect");
        return;
    };
    let head = Conn::head_bytes(&e.rq).0;
    let body = e.rq.all_body();
    match e.how {
        Client::CutHead => {
            let _ = s.write_all(&head[..head.len() / 2]).await;
        }
        Client::CutBody | Client::StallBody => {
            let _ = s.write_all(&head).await;
            let _ = s.write_all(&body[..body.len() / 2]).await;
            let wait = if e.how == Client::CutBody { 1 } else { 60 };
            tokio::time::sleep(Duration::from_millis(wait)).await;
        }
        _ => {
            let _ = s.write_all(&head).await;
            let _ = s.write_all(&body).await;
            if e.how == Client::CutAnswer {
                let mut b = vec![0; 100_000];
                let _ = tokio::time::timeout(Duration::from_secs(10), s.read(&mut b)).await;
                tokio::time::sleep(Duration::from_millis(30)).await;
            }
        }
    }
}

/// what the server holds when it has nothing to do
#[derive(Clone, Debug)]
struct Held {
    files: Vec<String>,
    threads: usize,
    live: i64,
    temporary: Vec<String>,
}

fn temporary(root: &std::path::Path) -> Vec<String> {
    let names = std::fs::read_dir(root).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    let mut v: Vec<String> = names;
    v.retain(|n| n.starts_with(".tmp-"));
    v
}

async fn settled(srv: &Server, root: &std::path::Path, files: usize, threads: usize) -> Held {
    // (threads for file-system calls go when they have been idle)
    let end = Instant::now() + Duration::from_secs(20);
    let mut last = -1;
    loop {
        tokio::time::sleep(Duration::from_millis(100)).await;
        let h = Held { files: srv.files(), threads: srv.holds().1, live: srv.ctl.live(), temporary: temporary(root) };
        let calm = h.live == last;
        last = h.live;
        if (calm && h.files.len() <= files && h.threads <= threads && h.temporary.is_empty()) || Instant::now() > end {
            return h;
        }
    }
}

/// the same requests, again and again
async fn rounds(run: &Run, seed: u64, n: usize, count: usize) {
    let mut r = Rng::new(seed);
    let Some((dir, m)) = meter(run, 0, Rng::new(r.u64())).await else { return };
    let srv = &m.srv;
    let mut large = Rq::new("PUT", "/bkt/large").body(r.bytes(3 * MIB));
    sig::presign(&mut large, &cred(), 600, &[]);
    let mut start = Rq::new("POST", "/bkt/up?uploads");
    sig::presign(&mut start, &cred(), 600, &[]);
    let id = match (srv.call(&large).await, srv.call(&start).await) {
        (Ok(a), Ok(b)) if a.ok() && b.ok() => xml::parse_lenient(&b.body).ok().and_then(|d| d.text_of("UploadId")).unwrap_or_default(),
        o => {
            run.problem(format!("preparations: {o:?}"));
            return;
        }
    };
    // (connections to come: the reactor of the file system, and the like)
    let (files, threads) = (srv.holds().0 + 3, srv.holds().1 + 8);
    let mut held: Vec<Held> = vec![];
    let mut n = n;
    let mut more = 2;
    let before = run.violation_count();
    let inside = dir.path.display().to_string();
    while held.len() < n {
        let round = held.len();
        let list = futures::stream::iter(errands(&mut Rng::new(seed), count, &id));
        futures::StreamExt::for_each_concurrent(list, 8, |e| async move { carry_out(run, srv, &e).await }).await;
        let h = settled(srv, dir.path.as_path(), files, threads).await;
        run.count("rounds", 1);
        run.max("most open files when idle", h.files.len() as u64);
        run.max("most threads when idle", h.threads as u64);
        run.eval(&format!("round {round}"), true);
        let open: Vec<&String> = h.files.iter().filter(|f| f.starts_with(&inside)).collect();
        run.check(open.is_empty(), "files of objects still open", || json!({"after round": round, "open": open}));
        run.check(h.files.len() <= files, "descriptors still open", || json!({"after round": round, "at first": files - 3, "open": h.files}));
        run.check(h.threads <= threads, "threads remain", || json!({"after round": round, "at first": threads - 8, "now": h.threads}));
        run.check(h.temporary.is_empty(), "temporary files remain", || json!({"after round": round, "files": h.temporary}));
        if round % 4 == 3 {
            // does it do anything?
            let mut least = u64::MAX;
            for _ in 0..5 {
                let t = srv.ticks();
                tokio::time::sleep(Duration::from_millis(200)).await;
                least = least.min(srv.ticks() - t);
            }
            run.max("processor time when idle, ticks in 200 ms", least);
            run.check(least <= 5, "busy when idle", || json!({"after round": round, "ticks in 200 ms": least}));
        }
        held.push(h);
        if run.violation_count() > before {
            break;
        }
        let live = |r: std::ops::Range<usize>| held[r].iter().map(|h| h.live);
        if held.len() == n && n >= 8 {
            // the median of all slopes (the first rounds fill caches)
            let v: Vec<i64> = live(3..n).collect();
            let mut slopes: Vec<i64> = (0..v.len()).flat_map(|i| (i + 1..v.len()).map(move |j| (i, j))).map(|(i, j)| (v[j] - v[i]) / (j - i) as i64).collect();
            slopes.sort_unstable();
            let slope = slopes.get(slopes.len() / 2).copied().unwrap_or(0);
            run.max("bytes of heap gained in a round, at most", slope.max(0) as u64);if std::env::var("DBG").is_ok() {eprintln!("{slope} {v:?}");}
            if slope > 150 {
                if more > 0 {
                    more -= 1;
                    n *= 2;
                    continue;
                }
                run.violation("memory remains", json!({"bytes of heap after each round": live(0..n).collect::<Vec<_>>(), "requests in a round": count}));
            }
        }
    }
    m.srv.kill().await;
}

pub async fn run(run: &'static Run) -> i32 {
    let total = run.by(160, 400) * MIB;
    let next: &'static AtomicU64 = Box::leak(Box::default());
    let only = std::env::var("S3MON_PART").unwrap_or_default();
    let on = move |p: &str| only.is_empty() || only == p;
    if on("pressure") {
        parallel(run, 6, |w| async move {
            for i in 0..run.by(5, 200) {
                upload_pressure(run, Rng::from(run.seed, "up", w * 1000 + i)).await;
                download_pressure(run, Rng::from(run.seed, "down", w * 1000 + i)).await;
            }
        })
        .await;
    }
    if on("rounds") {
        rounds(run, run.seed, run.by(8, 40), 150).await;
    }
    if on("endless") {
        for i in 0..run.by(1, 3) {
            endless(run, Rng::from(run.seed, "endless", i)).await;
        }
    }
    if on("large") {
        loop {
            parallel(run, 4, |_| async move {
                let n = next.fetch_add(1, Ordering::SeqCst);
                large(run, total, n as usize, Rng::from(run.seed, "large", n)).await;
            })
            .await;
            if !run.thorough() || !run.more() {
                break;
            }
        }
    }
    run.finish(&[
        "The memory counted is what the process allocates through malloc, aligned or not; stacks and mapped files are not part of it, resident memory is bounded as well.",
        "Fields of forms in front of the file, XML documents, and bodies signed as a whole are not streamed by design and are not measured here.",
    ])
}
