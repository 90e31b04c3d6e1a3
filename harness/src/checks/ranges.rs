//! C03: range reads.
use crate::ev::Run;
use crate::http::{self, Conn, Fail, Rq, Rs};
use crate::util::{etag, Rng};
use crate::world::{target, World};
use serde_json::json;

#[derive(Clone, Debug, PartialEq, Eq)]
enum Want {
    /// these bytes
    Part(usize, usize),
    Unsatisfiable,
    /// not a range: anything but a part of the object
    NotPart,
    /// these bytes, or a refusal (numbers no object can reach)
    PartOrRefusal(Option<(usize, usize)>),
}

/// what a range header means, by RFC 9110
fn meaning(h: &str, len: usize) -> Want {
    let Some(spec) = h.strip_prefix("bytes=") else { return Want::NotPart };
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    let Some((a, b)) = spec.split_once('-') else { return Want::NotPart };
    let num = |s: &str| s.parse::<u64>().ok();
    let cap = |n: u64| usize::try_from(n).unwrap_or(usize::MAX);
    if a.is_empty() && digits(b) {
        return match num(b) {
            None => Want::PartOrRefusal((len > 0).then_some((0, len))),
            Some(0) => Want::Unsatisfiable,
            Some(_) if len == 0 => Want::Unsatisfiable,
            Some(n) => Want::Part(len - cap(n).min(len), len),
        };
    }
    if !digits(a) || !(b.is_empty() || digits(b)) {
        return Want::NotPart;
    }
    let Some(x) = num(a) else { return Want::PartOrRefusal(None) };
    if b.is_empty() {
        return if cap(x) >= len { Want::Unsatisfiable } else { Want::Part(cap(x), len) };
    }
    match num(b) {
        None if cap(x) >= len => Want::PartOrRefusal(None),
        None => Want::PartOrRefusal(Some((cap(x), len))),
        Some(y) if y < x => Want::NotPart,
        Some(_) if cap(x) >= len => Want::Unsatisfiable,
        Some(y) => Want::Part(cap(x), cap(y).saturating_add(1).min(len)),
    }
}

fn judge(run: &Run, h: &str, data: &[u8], rs: &Rs, how: &str) {
    let want = meaning(h, data.len());
    let is_slice = |a: usize, b: usize| -> Result<(), String> {
        if rs.status != 206 {
            return Err(format!("status {} instead of 206", rs.status));
        }
        if let Some(e) = &rs.body_err {
            return Err(format!("body broke off: {e}"));
        }
        if rs.body != data[a..b] {
            return Err(format!("wrong bytes ({} instead of {})", rs.body.len(), b - a));
        }
        if rs.get("content-length") != Some((b - a).to_string()) {
            return Err("wrong content-length".into());
        }
        let cr = format!("bytes {a}-{}/{}", b - 1, data.len());
        if rs.get("content-range") != Some(cr) || rs.headers.iter().filter(|(n, _)| n == "content-range").count() != 1 {
            return Err("wrong content-range".into());
        }
        match rs.get("etag") {
            Some(t) if t != etag(data) => Err("wrong etag".into()),
            _ => Ok(()),
        }
    };
    let refused = || rs.status >= 400 && rs.code().is_some() && rs.get("content-range").map_or(true, |c| c.starts_with("bytes */"));
    let whole = || rs.status == 200 && rs.body_err.is_none() && rs.body == data;
    let (kind, res) = match &want {
        Want::Part(a, b) => ("part", is_slice(*a, *b)),
        Want::Unsatisfiable => {
            let ok = rs.status == 416 && rs.code().as_deref() == Some("InvalidRange");
            ("unsatisfiable", if ok { Ok(()) } else { Err(format!("status {} code {:?} instead of 416 InvalidRange", rs.status, rs.code())) })
        }
        Want::NotPart => ("malformed", if refused() || whole() { Ok(()) } else { Err(format!("status {}, neither a refusal nor the whole object", rs.status)) }),
        Want::PartOrRefusal(s) => (
            "beyond 64 bits",
            if refused() {
                Ok(())
            } else {
                s.map_or_else(|| Err(format!("status {}", rs.status)), |(a, b)| is_slice(a, b))
            },
        ),
    };
    run.count(&format!("{kind} ranges"), 1);
    run.eval(&format!("{h} of {}", data.len()), true);
    if let Err(e) = res {
        run.violation(
            &format!("range_{}", kind.replace(' ', "_")),
            json!({"range": h, "object length": data.len(), "transport": how, "meaning": format!("{want:?}"), "problem": e, "response": rs.brief()}),
        );
    }
}

fn candidates(len: usize, r: &mut Rng) -> Vec<String> {
    let mut pts: Vec<usize> = vec![0, 1, 2, 3];
    for base in [len, len / 2, 4096, 8192, 65536, 131_072] {
        for d in -2i64..=2 {
            if let Ok(p) = usize::try_from(base as i64 + d) {
                if p <= len + 3 {
                    pts.push(p);
                }
            }
        }
    }
    pts.push(len + 1000);
    for _ in 0..3 {
        pts.push(r.below(len + 1));
    }
    pts.sort_unstable();
    pts.dedup();
    let mut v = Vec::new();
    for &a in &pts {
        v.push(format!("bytes={a}-"));
        v.push(format!("bytes=-{a}"));
        for &b in &pts {
            v.push(format!("bytes={a}-{b}"));
        }
    }
    for n in ["9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "4294967295", "4294967296"] {
        v.push(format!("bytes=0-{n}"));
        v.push(format!("bytes={n}-"));
        v.push(format!("bytes=-{n}"));
        v.push(format!("bytes={n}-{n}"));
        v.push(format!("bytes=1-{n}"));
    }
    v.push("bytes=007-0009".into());
    v.push("bytes=-0".into());
    v.push("bytes=-00".into());
    v
}

const MALFORMED: &[&str] = &[
    "", "bytes", "bytes=", "bytes=-", "bytes=--1", "bytes=a-b", "bytes=1-b", "bytes=a-1", "bytes=0x1-0x2", "bytes=1--2", "bytes=1-2-3", "bytes=+1-2", "bytes=1-+2", "bytes=-+1", "bytes=-1-",
    "bytes=1.0-2", "bytes=1-2.5", "bytes=1 -2x", "items=0-1", "bytes:0-1", "0-1", "bytes=0-1;", "bytes=0-1x", "bytes=x0-1", "bytes=\u{664}-\u{665}", "bytes=5-3", "bytes=1-0", "bytes=-1x", "bytes=1_0-2_0",
    "bytes=-  ", "bytes=1e1-20", "byte=0-1", "bytes==0-1", "bytes=0-1-", "bytes=,", "bytes==", "=0-1", "bytes = 0-1x",
];

async fn put(run: &Run, w: &World, b: &str, k: &str, data: &[u8], kind: usize, r: &mut Rng) -> bool {
    let _ = w.call(&Rq::new("PUT", format!("/{b}"))).await;
    let t = target(b, k);
    let rs = match kind {
        // assembled
        0 if data.len() > 1 => {
            let rs = w.call(&Rq::new("POST", format!("{t}?uploads"))).await;
            let id = rs.ok().and_then(|rs| crate::xml::parse_lenient(&rs.body).ok()).and_then(|d| d.text_of("UploadId")).unwrap_or_default();
            let cut = r.range(1, data.len() - 1);
            let mut doc = String::from("<CompleteMultipartUpload>");
            for (i, p) in [&data[..cut], &data[cut..]].iter().enumerate() {
                let _ = w.call(&Rq::new("PUT", format!("{t}?partNumber={}&uploadId={id}", i + 1)).body(p.to_vec())).await;
                doc.push_str(&format!("<Part><PartNumber>{}</PartNumber><ETag>{}</ETag></Part>", i + 1, etag(p)));
            }
            doc.push_str("</CompleteMultipartUpload>");
            w.call(&Rq::new("POST", format!("{t}?uploadId={id}")).body(doc)).await
        }
        1 => {
            let _ = w.call(&Rq::new("PUT", target(b, "source")).body(data.to_vec())).await;
            w.call(&Rq::new("PUT", t.clone()).h("x-amz-copy-source", format!("{b}/source"))).await
        }
        _ => w.call(&Rq::new("PUT", t.clone()).body(data.to_vec())).await,
    };
    if !rs.as_ref().map_or(false, Rs::ok) {
        run.count("objects which could not be set up", 1);
        // another way
        let rs = w.call(&Rq::new("PUT", t).body(data.to_vec())).await;
        if !rs.as_ref().map_or(false, Rs::ok) {
            run.problem(format!("setting up an object: {rs:?}"));
            return false;
        }
    }
    true
}

async fn worker(run: &'static Run, n: u64) {
    let mut r = Rng::from(run.seed, "C03", n);
    let w = World::new(false);
    let addr = http::serve(w.svc.clone());
    let sizes = [0usize, 1, 2, 3, 7, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12_288, 65_535, 65_536, 65_537, 131_072, 131_073, 300_000, (1 << 20) + 1, (4 << 20) + 3];
    let mut round = 0usize;
    while run.more() {
        // the sizes are shared out; then random ones
        let i = round * 8 + n as usize;
        let len = if i < sizes.len() { sizes[i] } else if r.chance(1, 3) { *r.pick(&sizes) } else { r.below(200_000) };
        round += 1;
        let data = r.bytes(len);
        let key = format!("o{round}");
        let kind = r.below(4);
        if !put(run, &w, "bkt", &key, &data, kind, &mut r).await {
            break;
        }
        run.seen("object lengths", &len.to_string());
        let mut hs = candidates(len, &mut r);
        r.shuffle(&mut hs);
        let limit = if len > 1 << 19 { 120 } else { 700 };
        hs.truncate(limit);
        for m in MALFORMED {
            hs.push((*m).to_owned());
        }
        for _ in 0..40 {
            let (a, b) = (r.below(len + 5), r.below(len + 5));
            hs.push(format!("bytes={a}-{b}"));
            hs.push(format!("bytes={}-{}", a.min(b), a.max(b)));
            hs.push(format!("bytes=-{a}"));
        }
        let mut conn = match Conn::open(addr).await {
            Ok(c) => c,
            Err(e) => return run.problem(format!("connect: {e}")),
        };
        for (j, h) in hs.iter().enumerate() {
            if !run.more() {
                break;
            }
            let rq = Rq::new("GET", target("bkt", &key)).h("range", h);
            let over_tcp = j % 4 == 0;
            let out = if over_tcp { conn.send(&rq).await } else { w.call(&rq).await };
            match out {
                Ok(rs) => judge(run, h, &data, &rs, if over_tcp { "TCP" } else { "in-process" }),
                Err(Fail::Unbuildable(_)) => run.count("unbuildable requests", 1),
                Err(Fail::Hang) => run.problem(format!("no answer to {h}")),
                Err(e) => {
                    // a panic or a broken connection: no slice was returned
                    if matches!(meaning(h, len), Want::Part(..) | Want::Unsatisfiable) {
                        run.violation("range_no_response", json!({"range": h, "object length": len, "failure": format!("{e:?}")}));
                    }
                    match Conn::open(addr).await {
                        Ok(c) => conn = c,
                        Err(e) => return run.problem(format!("connect: {e}")),
                    }
                }
            }
        }
        // the same object, several ranges at once and piecewise
        if len > 10 {
            let mut got = Vec::new();
            let step = r.range(1, len / 3 + 1);
            let mut at = 0;
            while at < len {
                let rq = Rq::new("GET", target("bkt", &key)).h("range", format!("bytes={at}-{}", at + step - 1));
                match w.call(&rq).await {
                    Ok(rs) if rs.status == 206 => got.extend_from_slice(&rs.body),
                    o => {
                        run.violation("range_part", json!({"range": format!("bytes={at}-{}", at + step - 1), "object length": len, "outcome": format!("{:?}", o.map(|r| r.status))}));
                        break;
                    }
                }
                at += step;
            }
            run.eval(&format!("pieces of {step} of {len}"), true);
            if run.violation_count() == 0 {
                run.check(got == data, "range_pieces", || json!({"object length": len, "piece": step, "got": got.len()}));
            }
        }
        // absent objects have no ranges
        let rq = Rq::new("GET", target("bkt", "absent")).h("range", "bytes=0-1");
        if let Ok(rs) = w.call(&rq).await {
            run.check(rs.status == 404, "range_of_absent_object", || json!({"response": rs.brief()}));
        }
        if round == 1 {
            run.sample(json!({"object length": len, "ranges": hs.iter().take(8).collect::<Vec<_>>()}));
        }
    }
}

/// an object whose offsets do not fit in 32 bits: mostly a hole
async fn giant(run: &'static Run, n: u64) {
    use std::os::unix::fs::FileExt;
    let mut r = Rng::from(run.seed, "C03 giant", n);
    let w = World::new(false);
    let marker = r.bytes(4097);
    if !put(run, &w, "bkt", "giant", &marker, 3, &mut r).await {
        return;
    }
    // the file it is kept in
    let mut dirs = vec![w.dir.path.clone()];
    let mut found = None;
    while let Some(d) = dirs.pop() {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            if e.path().is_dir() {
                dirs.push(e.path());
            } else if std::fs::read(e.path()).map_or(false, |b| b == marker) {
                found = Some(e.path());
            }
        }
    }
    let Some(path) = found else { return run.count("giant objects which could not be set up", 1) };
    const G: u64 = 1 << 32;
    let len = G + r.range(5000, 70_000) as u64;
    let f = match std::fs::File::options().read(true).write(true).open(&path) {
        Ok(f) => f,
        Err(e) => return run.problem(format!("giant: {e}")),
    };
    if let Err(e) = f.set_len(len) {
        // no room for it
        return run.count(&format!("giant objects which could not be set up: {e}"), 1);
    }
    for at in [(1 << 31) - 300, G - 300, len - 500] {
        if let Err(e) = f.write_all_at(&r.bytes(500), at) {
            return run.problem(format!("giant: {e}"));
        }
    }
    let slice = |a: u64, b: u64| {
        let mut v = vec![0; (b - a) as usize];
        f.read_exact_at(&mut v, a).map(|()| v)
    };
    let rq = Rq::new("HEAD", target("bkt", "giant"));
    match w.call(&rq).await {
        Ok(rs) => {
            run.check(rs.get("content-length") == Some(len.to_string()), "giant_length", || json!({"length": len, "response": rs.brief()}));
        }
        Err(e) => run.problem(format!("giant: {e:?}")),
    }
    let k = r.range(1, 400) as u64;
    let mut ranges = vec![
        (format!("bytes={}-{}", G + k, G + k + 99), G + k, G + k + 100),
        (format!("bytes={}-{}", G - k, G + k), G - k, G + k + 1),
        (format!("bytes=-{k}"), len - k, len),
        (format!("bytes={}-", G + k), G + k, len),
        (format!("bytes={}-{}", (1u64 << 31) - k, (1u64 << 31) + k), (1 << 31) - k, (1 << 31) + k + 1),
        (format!("bytes={k}-{}", k + 7), k, k + 8),
        (format!("bytes={}-{}", len - 1, G * 4), len - 1, len),
    ];
    if run.thorough() {
        r.shuffle(&mut ranges);
    } else {
        // (the whole object is read for its ETag, which takes seconds)
        ranges = vec![ranges.swap_remove(if n == 0 { 0 } else { 2 })];
    }
    for (h, a, b) in ranges {
        let rq = Rq::new("GET", target("bkt", "giant")).h("range", &h);
        let rs = match w.call(&rq).await {
            Ok(rs) => rs,
            Err(Fail::Hang) => return run.count("giant objects read too slowly", 1),
            Err(e) => return run.violation("giant_no_response", json!({"range": h, "object length": len, "failure": format!("{e:?}")})),
        };
        let Ok(want) = slice(a, b) else { return run.problem("giant: cannot read") };
        run.count("ranges of giant objects", 1);
        run.eval(&format!("giant {h}"), true);
        let right = rs.status == 206 && rs.body_err.is_none() && rs.body == want && rs.get("content-length") == Some((b - a).to_string()) && rs.get("content-range") == Some(format!("bytes {a}-{}/{len}", b - 1));
        run.check(right, "giant_range", || json!({"range": h, "object length": len, "response": rs.brief()}));
    }
    let rq = Rq::new("GET", target("bkt", "giant")).h("range", format!("bytes={len}-"));
    if let Ok(rs) = w.call(&rq).await {
        run.check(rs.status == 416, "giant_range", || json!({"range": format!("bytes={len}-"), "object length": len, "response": rs.brief()}));
    }
}

pub async fn run(run: &'static Run) -> i32 {
    let giants: Vec<_> = (0..run.by(2, 4)).map(|n| tokio::spawn(giant(run, n as u64))).collect();
    super::parallel(run, 8, |n| worker(run, n)).await;
    for g in giants {
        if let Err(e) = g.await {
            run.problem(format!("giant: {e}"));
        }
    }
    run.finish(&["objects of up to 4 MiB, and of just over 4 GiB (mostly a hole)", "one range per request"])
}
