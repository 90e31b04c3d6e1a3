//! C21: whatever arrives is answered, and the server goes on.
//!
//! The server runs in a child process: if that dies, the parent reports it.
use super::parallel;
use crate::ev::Run;
use crate::http::{self, Conn, End, Fail, Out, Rq, Rs};
use crate::reqs;
use crate::sig::{self, Form, Pay};
use crate::util::{pct, Rng};
use crate::world::{self, World};
use crate::xml;
use serde_json::json;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Duration;

static PANICS: AtomicU64 = AtomicU64::new(0);
static PANIC_TEXT: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// panics of the code under test, wherever they end up
pub fn watch_panics() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let at = info.location().map_or_else(String::new, |l| format!("{}:{}", l.file(), l.line()));
        // the monitor's own sources are relative paths
        if at.starts_with("src/") && std::path::Path::new(concat!(env!("CARGO_MANIFEST_DIR"), "/src")).join(at.trim_start_matches("src/").split(':').next().unwrap_or("")).exists() && !at.contains("repo") {
            old(info);
            return;
        }
        PANICS.fetch_add(1, Ordering::SeqCst);
        if let Ok(mut v) = PANIC_TEXT.lock() {
            if v.len() < 20 {
                v.push(format!("{at}: {info}"));
            }
        }
    }));
}

const METHODS: [&str; 14] = ["GET", "PUT", "POST", "DELETE", "HEAD", "GET", "PUT", "POST", "OPTIONS", "PATCH", "TRACE", "LINK", "get", "X-YZ"];

const HEADERS: [&str; 62] = [
    "authorization", "x-amz-date", "x-amz-content-sha256", "content-type", "content-md5", "range", "x-amz-copy-source", "x-amz-metadata-directive", "x-amz-storage-class", "x-amz-acl",
    "x-amz-meta-a", "x-amz-meta-", "x-amz-meta-é", "content-encoding", "cache-control", "content-disposition", "content-language", "expires", "if-match", "if-none-match", "if-modified-since",
    "if-unmodified-since", "x-amz-tagging", "x-amz-tagging-directive", "x-amz-object-lock-mode", "x-amz-object-lock-retain-until-date", "x-amz-object-lock-legal-hold",
    "x-amz-server-side-encryption", "x-amz-server-side-encryption-aws-kms-key-id", "x-amz-server-side-encryption-customer-algorithm", "x-amz-server-side-encryption-customer-key",
    "x-amz-server-side-encryption-customer-key-MD5", "x-amz-server-side-encryption-context", "x-amz-website-redirect-location", "x-amz-request-payer", "x-amz-expected-bucket-owner", "x-amz-mfa",
    "x-amz-bypass-governance-retention", "x-amz-bucket-object-lock-enabled", "x-amz-grant-read", "x-amz-decoded-content-length", "content-length", "transfer-encoding", "connection", "host", "date",
    "x-amz-security-token", "x-amz-user-agent", "accept-encoding", "cookie", "expect", "upgrade", "te", "trailer", "x-amz-copy-source-if-match", "x-amz-copy-source-if-none-match", "x-amz-copy-source-if-modified-since",
    "x-amz-copy-source-range", "x-amz-trailer", "x-amz-checksum-crc32", "user-agent", "x-amz-copy-source-server-side-encryption-customer-key",
];

const PARAMS: [&str; 44] = [
    "uploads", "uploadId", "partNumber", "delete", "location", "list-type", "prefix", "delimiter", "marker", "max-keys", "encoding-type", "continuation-token", "start-after", "fetch-owner", "versionId", "versions",
    "acl", "policy", "tagging", "cors", "torrent", "select", "select-type", "restore", "X-Amz-Signature", "X-Amz-Algorithm", "X-Amz-Credential", "X-Amz-Date", "X-Amz-Expires", "X-Amz-SignedHeaders",
    "X-Amz-Security-Token", "x-amz-signature", "response-content-type", "response-expires", "bypassGovernanceRetention", "x-id", "", "=", "a", "key-marker", "attributes", "session", "legal-hold", "retention",
];

const DATES: [&str; 20] = [
    "20130524T000000Z", "00000000T000000Z", "20130230T000000Z", "20131399T999999Z", "99991231T235959Z", "20130524T240000Z", "2013-05-24T00:00:00Z", "20130524", "", "Z", "20130524T000000", "20130524t000000z",
    "２０１３0524T000000Z", "20160229T235960Z", "20150229T000000Z", "+0130524T000000Z", "20130524T000000ZZ", "-2013524T000000Z", "20130524T00000Z0", "18000101T000000Z",
];

const NUMBERS: [&str; 26] = [
    "0", "1", "-1", "00", "+1", "1.5", "1e3", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "4294967295", "4294967296",
    "2147483648", "-2147483649", "99999999999999999999999999", "0x10", "1_000", "", " 1", "١", "NaN", "true", "10001",
];

fn long(r: &mut Rng) -> usize {
    *r.pick(&[100usize, 255, 256, 1023, 1025, 4096, 8191, 30_000])
}

/// any text
fn junk(r: &mut Rng) -> String {
    match r.below(20) {
        0 => String::new(),
        1 => (*r.pick(&NUMBERS)).to_owned(),
        2 => (*r.pick(&DATES)).to_owned(),
        3 => r.pick(&["a", "/", "%", ";", "=", "&", "\"", "A/"]).repeat(long(r)),
        4 => (*r.pick(&["bytes=0-0", "bytes=-", "bytes=5-1", "bytes=--1", "bytes=0-18446744073709551615", "bytes=18446744073709551615-", "bytes=-18446744073709551616", "bytes=a-b", "bytes=0-1,2-3", "bytes", "bytes=", "BYTES=0-1", "bytes=0 - 1", "items=0-1", "bytes=99999999999999999999-", "bytes=-0", "bytes=1-\u{661}"])).to_owned(),
        5 => (*r.pick(&["/", "//", "bkt", "bkt/", "/bkt/", "bkt/obj", "/bkt/obj", "bkt/obj?versionId=", "bkt/obj?", "arn:aws:s3:us-west-2:123456789012:accesspoint/ap/object/k", "arn:aws:s3:::", "arn:", "arn:aws:s3:a:b:accesspoint/", "%2Fbkt%2Fobj", "%", "%zz", "bkt/%ff", "../etc/passwd", "bkt/../../x", "bkt//", "/bkt/%00", "BAD/k"])).to_owned(),
        6 => format!("AWS4-HMAC-SHA256 Credential={}/{}/us-east-1/s3/aws4_request, SignedHeaders={}, Signature={}", r.pick(&["AK", "", "a/b", "é"]), r.pick(&DATES), r.pick(&["host", "", ";", ";;", "HOST", "host;host", "a;b;c", "x-amz-date;host"]), r.pick(&["0", "", "zz"]).repeat(r.range(0, 70))),
        7 => (*r.pick(&["AWS4-HMAC-SHA256", "AWS4-HMAC-SHA256 ", "AWS4-HMAC-SHA256 Credential=", "AWS4-HMAC-SHA256 Credential=a/b/c/d/e,SignedHeaders=,Signature=", "AWS AK:sig", "Basic Zm9vOmJhcg==", "Bearer x", "AWS4-HMAC-SHA256 Signature=0, SignedHeaders=host, Credential=AK/20130524/us-east-1/s3/aws4_request", "AWS4-HMAC-SHA256 Credential=AK/20130524/us-east-1/s3/aws4_request,,", "AWS4-HMAC-SHA256 Credential=////, SignedHeaders=;, Signature="])).to_owned(),
        8 => (*r.pick(&["UNSIGNED-PAYLOAD", "STREAMING-AWS4-HMAC-SHA256-PAYLOAD", "STREAMING-UNSIGNED-PAYLOAD-TRAILER", "STREAMING-AWS4-HMAC-SHA256-PAYLOAD-TRAILER", "STREAMING-", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", "E3B0C44298FC1C149AFBF4C8996FB92427AE41E4649B934CA495991B7852B855", "e3b0c"])).to_owned(),
        9 => (*r.pick(&["text/plain", "multipart/form-data", "multipart/form-data; boundary=", "multipart/form-data; boundary=\"", "multipart/form-data; boundary=\"\"", "multipart/form-data;boundary=x;boundary=y", "MULTIPART/FORM-DATA; BOUNDARY=x", "multipart/form-data; boundary=\"a b\\\"c\"", "multipart/mixed; boundary=x", "text", "/", ";", "text/plain;", "text/plain; a", "application/xml; charset=utf-16"])).to_owned(),
        10 => (*r.pick(&["AAAAAAAAAAAAAAAAAAAAAA==", "AAAA", "=", "====", "1B2M2Y8AsgTpgAmY7PhCfg==", "1B2M2Y8AsgTpgAmY7PhCfg", "\u{e9}", "1B2M2Y8AsgTpgAmY7PhCfg==\n", "A=A="])).to_owned(),
        11 => (*r.pick(&["COPY", "REPLACE", "copy", "STANDARD", "GLACIER", "REDUCED_REDUNDANCY", "url", "GOVERNANCE", "ON", "requester", "private", "aws:kms", "AES256", "true", "false", "TRUE", "Sun, 06 Nov 1994 08:49:37 GMT", "Thu, 01 Jan 1970 00:00:00 GMT", "Sun, 99 Nov 9999 99:99:99 GMT", "2020-01-01T00:00:00Z"])).to_owned(),
        12 => (*r.pick(&["0b8f2b4e-0b1c-4b2e-9a55-0d1c2b3a4f5e", "0B8F2B4E-0B1C-4B2E-9A55-0D1C2B3A4F5E", "{0b8f2b4e-0b1c-4b2e-9a55-0d1c2b3a4f5e}", "0b8f2b4e0b1c4b2e9a550d1c2b3a4f5e", "urn:uuid:0b8f2b4e-0b1c-4b2e-9a55-0d1c2b3a4f5e", "../../x", "*", ".", "\u{0}"])).to_owned(),
        13 => {
            let n = r.range(1, 40);
            (0..n).map(|_| char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}')).collect()
        }
        14 => {
            let n = r.range(1, 40);
            (0..n).map(|_| (r.below(128) as u8) as char).collect()
        }
        15 => reqs::query_value(r),
        16 => reqs::header_value(r),
        17 => format!("AKIAMONITOR0EXAMPLE/{}/us-east-1/s3/aws4_request", r.pick(&DATES)),
        _ => {
            let n = r.range(1, 30);
            (0..n).map(|_| (b' ' + r.below(95) as u8) as char).collect()
        }
    }
}

fn any_key(r: &mut Rng) -> String {
    match r.below(6) {
        0 => "obj".into(),
        1 => world::key_pool(r, 1, true).pop().unwrap_or_default(),
        2 => (*r.pick(&["..", ".", "../x", "a/../b", "/", "//", "a//b", "a/", "\0", "a\0b", "./a", "a/.", "a/..", ".tmp-x", "obj/below", "obj/", "../canary-bkt/obj", "dir", "dir/"])).to_owned(),
        3 => "k".repeat(long(r).min(2000)),
        4 => junk(r),
        _ => format!("k{}", r.below(20)),
    }
}

fn any_bucket(r: &mut Rng) -> String {
    match r.below(9) {
        0 => junk(r),
        1 => (*r.pick(&["", ".", "..", "a", "ab", "BKT", "xn--a", "1.2.3.4", "bkt.", ".tmp-x", "new-bkt", "new-bkt2", "no-such"])).to_owned(),
        _ => "bkt".into(),
    }
}

fn any_target(r: &mut Rng) -> String {
    let mut t = match r.below(12) {
        0 => "/".to_owned(),
        1 | 2 => format!("/{}", pct(any_bucket(r).as_bytes())),
        3 => format!("/bkt/{}", ["%", "%2", "%zz", "%ff", "%c3%28", "%00", "%2e%2e", "%2E%2E%2F", "%f0%9f", "a%", "%%", "%25"][r.below(12)]),
        4 => ["//", "///", "/bkt//", "//bkt/obj", "/%2f", "/bkt%2fobj", "/.", "/..", "/../..", "/bkt/./obj", "*", "http://example.com/bkt/obj", "http://example.com", "/bkt/obj;a=b", "/bkt/!$&'()*+,;=:@"][r.below(15)].to_owned(),
        5 => {
            let n = r.range(1, 60);
            let s: String = (0..n).map(|_| *r.pick(&['/', '%', '.', 'a', '2', 'f', 'F', '0', '-', '~', '!'])).collect();
            format!("/{s}")
        }
        _ => {
            let b = any_bucket(r);
            let k = any_key(r);
            world::target_any(&pct(b.as_bytes()), &k, r)
        }
    };
    let n = *r.pick(&[0usize, 0, 0, 1, 1, 2, 4]);
    let n = if r.chance(1, 200) { 800 } else { n };
    for i in 0..n {
        t.push(if i == 0 && !t.contains('?') { '?' } else { '&' });
        let p = if r.chance(1, 8) { junk(r) } else { (*r.pick(&PARAMS)).to_owned() };
        t.push_str(&pct(p.as_bytes()));
        if r.chance(4, 5) {
            t.push('=');
            if r.chance(1, 6) {
                t.push_str(*r.pick(&["%", "%zz", "%ff", "+", "a+b", "%00", "==", "%c3"]));
            } else {
                t.push_str(&pct(junk(r).as_bytes()));
            }
        }
    }
    t.truncate(60_000);
    t
}

fn any_xml(r: &mut Rng) -> Vec<u8> {
    let complete = r.chance(1, 2);
    match r.below(16) {
        0 => {
            let tag = *r.pick(&["a", "Delete", "Object", "CompleteMultipartUpload", "Part", "x:y"]);
            let n = *r.pick(&[100usize, 10_000, 60_000]);
            let mut d = format!("<{tag}>").repeat(n);
            if r.chance(1, 2) {
                d.push_str(&format!("</{tag}>").repeat(n));
            }
            d.into_bytes()
        }
        1 => {
            let mut d = String::from("<?xml version=\"1.0\"?><!DOCTYPE Delete [<!ENTITY a \"aaaaaaaaaa\">");
            for i in 0..9 {
                let prev = (b'a' + i) as char;
                let cur = (b'b' + i) as char;
                d.push_str(&format!("<!ENTITY {cur} \"{}\">", format!("&{prev};").repeat(10)));
            }
            d.push_str("]><Delete><Object><Key>&j;</Key></Object></Delete>");
            d.into_bytes()
        }
        2 => b"<?xml version=\"1.0\"?><!DOCTYPE d [<!ENTITY x SYSTEM \"file:///etc/hostname\">]><Delete><Object><Key>&x;</Key></Object></Delete>".to_vec(),
        3 => {
            let doc = "<Delete><Object><Key>k</Key></Object></Delete>";
            match r.below(4) {
                0 => doc.encode_utf16().flat_map(u16::to_le_bytes).collect(),
                1 => [b"\xff\xfe".to_vec(), doc.encode_utf16().flat_map(u16::to_le_bytes).collect()].concat(),
                2 => [b"\xef\xbb\xbf".to_vec(), doc.as_bytes().to_vec()].concat(),
                _ => format!("<?xml version=\"1.0\" encoding=\"{}\"?>{doc}", r.pick(&["utf-16", "latin1", "x", "", "UTF-8", "ebcdic"])).into_bytes(),
            }
        }
        4 => {
            let n = *r.pick(&[1001usize, 5000, 20_000]);
            let one = if complete { "<Part><PartNumber>1</PartNumber><ETag>x</ETag></Part>" } else { "<Object><Key>nothing</Key></Object>" };
            let tag = if complete { "CompleteMultipartUpload" } else { "Delete" };
            format!("<{tag}>{}</{tag}>", one.repeat(n)).into_bytes()
        }
        5 => {
            let v = r.pick(&NUMBERS);
            format!("<CompleteMultipartUpload><Part><PartNumber>{v}</PartNumber><ETag>{}</ETag></Part></CompleteMultipartUpload>", crate::util::xml_escape(&junk(r))).into_bytes()
        }
        6 => format!("<Delete><Quiet>{}</Quiet><Object><Key>{}</Key><VersionId>{}</VersionId></Object></Delete>", r.pick(&["true", "false", "TRUE", "1", "", "maybe"]), crate::util::xml_escape(&any_key(r)), r.pick(&NUMBERS)).into_bytes(),
        7 => (*r.pick(&["", "<", "<>", "</>", "<a", "<a/>", "<a></b>", "<?", "<?xml?>", "<!", "<!--", "<![CDATA[", "]]>", "&", "&amp;", "<Delete/>", "<Delete></Delete>", "<CompleteMultipartUpload/>", "<a b=>", "<a b='\"/>", "\0", "text", "<Delete><Object/></Delete>", "<Delete><Object><Key/></Object></Delete>", "<Delete>&#0;</Delete>", "<Delete>&#xFFFFFFFFF;</Delete>", "<Delete><Object><Key>&#x110000;</Key></Object></Delete>", "<Delete><Object><Key>&#xD800;</Key></Object></Delete>"])).as_bytes().to_vec(),
        8 => {
            let n = r.range(1, 300);
            r.bytes(n)
        }
        9 => format!("<Delete {}=\"{}\"><Object><Key>k</Key></Object></Delete>", "a".repeat(long(r)), "b".repeat(long(r))).into_bytes(),
        10 => format!("<Delete><Object><Key>{}</Key></Object></Delete>", r.pick(&["x", "&lt;", "<!-- c -->", "<![CDATA[y]]>", "<b/>"]).repeat(long(r))).into_bytes(),
        _ => {
            // a proper document, damaged
            let mut d = if complete {
                let n = r.range(1, 4);
                let parts: Vec<(i64, String)> = (1..=n as i64).map(|i| (i, junk(r))).collect();
                reqs::complete_doc(&parts, r).into_bytes()
            } else {
                let n = r.range(1, 4);
                let objs: Vec<(String, Option<String>)> = (0..n).map(|_| (any_key(r), r.chance(1, 3).then(|| "null".to_owned()))).collect();
                reqs::delete_doc(&objs, Some(r.chance(1, 2)), r).into_bytes()
            };
            damage(&mut d, r);
            d
        }
    }
}

fn damage(d: &mut Vec<u8>, r: &mut Rng) {
    for _ in 0..r.below(5) {
        if d.is_empty() {
            return;
        }
        let at = r.below(d.len());
        match r.below(7) {
            0 => d[at] ^= 1 << r.below(8),
            1 => {
                d.remove(at);
            }
            2 => d.insert(at, r.below(256) as u8),
            3 => d.truncate(at),
            4 => {
                let end = (at + r.range(1, 20)).min(d.len());
                let piece = d[at..end].to_vec();
                let to = r.below(d.len());
                d.splice(to..to, piece);
            }
            5 => {
                let end = (at + r.range(1, 30)).min(d.len());
                d.drain(at..end);
            }
            _ => {
                let j = junk(r).into_bytes();
                d.splice(at..at, j.into_iter().take(200));
            }
        }
    }
}

/// a value which is at the edge of something
fn edge(r: &mut Rng) -> String {
    match r.below(7) {
        0 => (*r.pick(&NUMBERS)).to_owned(),
        1 => {
            let n = (1i128 << *r.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 120])) + r.below(3) as i128 - 1;
            (if r.chance(1, 2) { n } else { -n }).to_string()
        }
        2 => crate::util::wrapping(r.below(10_001) as u64, r).to_string(),
        // characters of several bytes at every offset
        3 | 4 => {
            let n = *r.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 63, 64]);
            format!("{}{}{}", "a".repeat(n), r.pick(&["\u{e9}", "\u{20ac}", "\u{1f600}", "\u{301}"]), "b".repeat(r.below(8)))
        }
        5 => (*r.pick(&DATES)).to_owned(),
        _ => junk(r),
    }
}

/// a change of some characters of a text, which remains a text
fn vary(s: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let at = r.below(c.len() + 1);
    match r.below(7) {
        0 => c.insert(at, *r.pick(&['\u{e9}', '\u{20ac}', '\u{1f600}', '\u{0}', ' ', '/', ';', '=', ',', '-', '"', '%'])),
        1 if at < c.len() => c[at] = *r.pick(&['\u{e9}', '\u{20ac}', '\u{1f600}', ' ', '/', ';', '=', '-', '9']),
        2 => c.truncate(at),
        3 => c = c.split_off(at),
        4 => return edge(r),
        5 => {
            let again = c.clone();
            c.extend(again);
        }
        _ => {
            let e = edge(r);
            c.splice(at..at, e.chars());
        }
    }
    c.into_iter().take(9000).collect()
}

/// change the value of one of the parameters
fn vary_query(rq: &mut Rq, r: &mut Rng) {
    let Some((p, q)) = rq.target.split_once('?') else { return };
    let mut ps: Vec<(String, String)> = q.split('&').map(|kv| kv.split_once('=').map_or((kv.to_owned(), String::new()), |(k, v)| (k.to_owned(), v.to_owned()))).collect();
    let at = r.below(ps.len());
    let plain = String::from_utf8_lossy(&crate::util::unpct(&ps[at].1)).into_owned();
    ps[at].1 = pct(vary(&plain, r).as_bytes());
    let q: Vec<String> = ps.into_iter().map(|(k, v)| format!("{k}={v}")).collect();
    rq.target = format!("{p}?{}", q.join("&"));
}

fn any_form(w: &World, r: &mut Rng) -> Rq {
    let n = r.range(0, 3000);
    let file = r.bytes(n);
    let mut f = Form::new(&any_key(r), &file, r);
    if r.chance(1, 3) {
        f.boundary = match r.below(8) {
            0 => String::new(),
            1 => "x".into(),
            2 => "-".into(),
            3 => "b".repeat(long(r).min(5000)),
            4 => "é".into(),
            5 => "a b".into(),
            6 => "\"q\"".into(),
            _ => "\r\n".into(),
        };
    }
    let cond = |r: &mut Rng| -> serde_json::Value {
        match r.below(12) {
            0 => json!(["starts-with", "$key", ""]),
            1 => json!(["content-length-range", 0, 10_000]),
            2 => json!(["content-length-range", -1, 1e300]),
            3 => json!(["content-length-range", "5", null]),
            4 => json!(["eq"]),
            5 => json!([]),
            6 => json!({}),
            7 => json!(null),
            8 => json!({"key": 5}),
            9 => json!(["eq", "$", "x"]),
            10 => json!(["starts-with", "key", [1]]),
            _ => json!({junk(r): junk(r)}),
        }
    };
    let policy = match r.below(8) {
        0 => junk(r),
        1 => format!("{{\"expiration\": \"{}\", \"conditions\": []}}", junk(r).replace(['"', '\\'], "")),
        2 => "[".repeat(long(r)),
        3 => format!("{{\"expiration\":\"2099-01-01T00:00:00Z\",\"conditions\":{}}}", r.pick(&["{}", "null", "5", "[[[[]]]]", "[{}]", "\"x\""])),
        _ => {
            let n = r.below(4);
            let mut cs: Vec<serde_json::Value> = (0..n).map(|_| cond(r)).collect();
            if r.chance(1, 2) {
                cs = vec![json!(["starts-with", "$key", ""])];
            }
            sig::policy_doc("bkt", chrono::Utc::now() + chrono::Duration::hours(1), &cs)
        }
    };
    if r.chance(5, 6) {
        f.sign(&w.cred(), &policy);
    }
    for _ in 0..r.below(3) {
        let n = if r.chance(1, 2) { (*r.pick(&HEADERS)).to_owned() } else { junk(r).replace(['"', '\r', '\n'], "") };
        f.fields.push((n, junk(r).into_bytes()));
    }
    if r.chance(1, 4) && !f.fields.is_empty() {
        let at = r.below(f.fields.len());
        match r.below(3) {
            0 => {
                f.fields.remove(at);
            }
            1 => f.fields[at].1 = if r.chance(1, 2) { junk(r) } else { vary(&String::from_utf8_lossy(&f.fields[at].1.clone()), r) }.into_bytes(),
            _ => f.fields[at].1 = r.bytes(50),
        }
    }
    if r.chance(1, 6) {
        f.field_headers = (0..r.range(1, 20)).map(|i| format!("X-H{i}: {}", junk(r).replace(['\r', '\n'], " "))).collect();
    }
    if r.chance(1, 6) {
        f.file_name = junk(r).replace(['\r', '\n'], "");
    }
    if r.chance(1, 6) {
        f.file_headers = vec![format!("Content-Type: {}", junk(r).replace(['\r', '\n'], ""))];
    }
    if r.chance(1, 8) {
        f.preamble = junk(r).into_bytes();
    }
    let mut rq = f.request(if r.chance(1, 5) { "bkt/obj" } else { "bkt" });
    if r.chance(1, 4) {
        rq.target = format!("{}?{}", rq.target, r.pick(&super::form::QUERIES));
    }
    if r.chance(1, 3) {
        let mut b = rq.all_body();
        damage(&mut b, r);
        rq = rq.body(b);
    }
    if r.chance(1, 10) {
        rq.set("content-type", junk(r).bytes().filter(|b| *b >= 32 && *b != 127).collect::<Vec<u8>>());
    }
    let b = rq.all_body();
    rq.pieces(r.split(&b, 12))
}

fn any_chunked(w: &World, r: &mut Rng) -> Rq {
    let t = if r.chance(1, 3) { "/bkt/obj?partNumber=1&uploadId=0b8f2b4e-0b1c-4b2e-9a55-0d1c2b3a4f5e" } else { "/bkt/chunked" };
    let mut rq = Rq::new("PUT", t);
    if r.chance(1, 5) {
        rq = rq.h("x-amz-decoded-content-length", r.pick(&NUMBERS).chars().filter(char::is_ascii).collect::<String>());
    }
    let parts: Vec<Vec<u8>> = (0..r.below(4)).map(|_| {
        let n = r.range(1, 3000);
        r.bytes(n)
    }).collect();
    sig::sign_stream(&mut rq, &w.cred(), &parts);
    let mut b = rq.all_body();
    match r.below(8) {
        0 => b = format!("{};chunk-signature={}\r\n", r.pick(&["ffffffff", "fffffffe", "100000000", "7fffffff", "80000000", "-1", "0x5", "", " 5", "5 ", "g", "00000000000000005", "+5"]), "0".repeat(r.range(60, 68))).into_bytes(),
        1 => b = vec![*r.pick(&[b'a', b'0', b';', b'\r', 0]); *r.pick(&[1usize, 100, 100_000])],
        2 => b = b"\n".repeat(r.range(1, 1000)),
        3 => b.clear(),
        4 => {
            let extra = r.bytes(20);
            b.extend(extra);
        }
        _ => damage(&mut b, r),
    }
    rq.chunks = r.split(&b, 30);
    if r.chance(1, 2) {
        rq.set("content-length", b.len().to_string());
    }
    rq
}

/// the operation with this value of the parameter or header at this place
fn odd_request(s: &reqs::Spec, at: usize, v: &str, r: &mut Rng) -> Rq {
    let mut c = reqs::case(s.op, r, false).rq;
    let q = c.target.find('?').map_or(String::new(), |p| c.target[p..].to_owned());
    c.target = format!("{}{q}", ["/", "/bkt", "/bkt/obj"][s.level as usize]);
    if let Some((n, ..)) = s.query.get(at) {
        let mut ps: Vec<String> = q.trim_start_matches('?').split('&').filter(|kv| !kv.is_empty() && kv.split('=').next() != Some(n)).map(ToOwned::to_owned).collect();
        ps.push(format!("{n}={}", pct(v.as_bytes())));
        c.target = format!("{}?{}", c.target.split('?').next().unwrap_or("/"), ps.join("&"));
    } else if let Some((n, ..)) = s.headers.get(at.wrapping_sub(s.query.len())) {
        c.set(n, v.bytes().filter(|b| *b >= 32 && *b != 127).collect::<Vec<u8>>());
    }
    c
}

/// every parameter and header of every operation with every value of a list, once
fn grid() -> &'static [(&'static reqs::Spec, usize, String)] {
    static GRID: std::sync::OnceLock<Vec<(&'static reqs::Spec, usize, String)>> = std::sync::OnceLock::new();
    GRID.get_or_init(|| {
        let mut vs: Vec<String> = NUMBERS.iter().chain(&DATES).map(|s| (*s).to_owned()).collect();
        for k in [8u32, 15, 16, 31, 32, 63, 64] {
            vs.extend([((1i128 << k) + 1).to_string(), (-(1i128 << k) - 1).to_string(), ((1i128 << k) - 1).to_string()]);
        }
        for n in [0usize, 1, 2, 3, 4, 7, 15, 31] {
            for c in ["\u{e9}", "\u{1f600}x"] {
                vs.push(format!("{}{c}", "a".repeat(n)));
            }
        }
        let fields = reqs::SPECS.iter().flat_map(|s| (0..s.query.len() + s.headers.len()).map(move |at| (s, at)));
        fields.flat_map(|(s, at)| vs.iter().map(move |v| (s, at, v.clone()))).collect()
    })
}
static GRID_AT: AtomicUsize = AtomicUsize::new(0);

fn next_of_grid(w: &World, r: &mut Rng) -> Option<Rq> {
    // neighbours of the list are far from each other in time
    let all = grid();
    let at = GRID_AT.fetch_add(1, Ordering::SeqCst);
    if at >= all.len() {
        return None;
    }
    let (s, field, v) = &all[(at * 7919) % all.len()];
    let rq = odd_request(s, *field, v, r);
    Some(if w.auth { w.sign(rq, r) } else { rq })
}

pub fn any_request(w: &World, upload_id: &str, r: &mut Rng) -> Rq {
    let mut rq = match r.below(13) {
        // an operation, one of whose parameters is odd
        10 | 11 => {
            let s = r.pick(reqs::SPECS);
            let n = s.query.len() + s.headers.len();
            let at = r.below(n.max(1));
            let v = edge(r);
            odd_request(s, at, &v, r)
        }
        0 if w.auth => return any_form(w, r),
        1 if w.auth => return any_chunked(w, r),
        2 => {
            let t = *r.pick(&["/bkt?delete", "/bkt/obj?uploadId=0b8f2b4e-0b1c-4b2e-9a55-0d1c2b3a4f5e", "UPLOAD", "/bkt?delete=", "/new-bkt", "/bkt"]);
            let t = if t == "UPLOAD" { format!("/bkt/mp?uploadId={upload_id}") } else { t.to_owned() };
            let m = if t == "/new-bkt" || t == "/bkt" { "PUT" } else { "POST" };
            let x = any_xml(r);
            Rq::new(m, t).body(x)
        }
        3 => {
            // multipart uploads
            let n = *r.pick(&NUMBERS);
            let id = if r.chance(1, 2) { upload_id.to_owned() } else { junk(r) };
            let m = r.range(0, 200);
            let d = r.bytes(m);
            Rq::new(r.pick(&["PUT", "POST", "DELETE", "GET"]), format!("/bkt/mp?partNumber={}&uploadId={}", pct(n.as_bytes()), pct(id.as_bytes()))).body(d)
        }
        4 | 5 => {
            let s = r.pick(reqs::SPECS);
            let mut c = reqs::case(s.op, r, true).rq;
            if r.chance(1, 2) {
                let q = c.target.find('?').map_or(String::new(), |p| c.target[p..].to_owned());
                c.target = format!("{}{q}", ["/", "/bkt", "/bkt/obj"][s.level as usize]);
            }
            c
        }
        6 => Rq::new("PUT", format!("/bkt/{}", pct(any_key(r).as_bytes()))).h("x-amz-copy-source", junk(r).bytes().filter(|b| *b >= 32 && *b != 127).collect::<Vec<u8>>()),
        _ => {
            let t = any_target(r);
            let n = *r.pick(&[0usize, 0, 1, 100, 5000]);
            let d = r.bytes(n);
            Rq::new(*r.pick(&METHODS), t).body(d)
        }
    };
    for _ in 0..*r.pick(&[0usize, 0, 1, 1, 2, 5]) {
        let v: Vec<u8> = match r.below(5) {
            0 => {
                let n = r.below(20);
                r.bytes(n)
            }
            _ => junk(r).into_bytes(),
        };
        // what a header can hold
        let v: Vec<u8> = v.into_iter().filter(|b| (*b >= 32 && *b != 127) || *b == b'\t').collect();
        let n = *r.pick(&HEADERS);
        if !n.is_ascii() || n == "connection" || n == "upgrade" || n == "transfer-encoding" || n == "te" {
            continue;
        }
        if r.chance(1, 3) {
            rq.set(n, v);
        } else {
            rq = rq.h(n, v);
        }
    }
    if w.auth {
        match r.below(10) {
            0 => {}
            1 => {
                let mut c = w.cred();
                match r.below(5) {
                    0 => c.sk = "wrong".into(),
                    1 => c.ak = junk(r).bytes().filter(|b| *b > 32 && *b < 127).map(char::from).collect(),
                    2 => c.region = junk(r).bytes().filter(|b| *b > 32 && *b < 127).map(char::from).collect(),
                    3 => c.date = c.date - chrono::Duration::days(r.below(100_000) as i64),
                    _ => c.service = "ec2".into(),
                }
                sig::sign_header(&mut rq, &c, Pay::Hash, &[]);
            }
            2 => {
                let e = *r.pick(&[0u64, 1, 600, 604_800, 604_801, u64::MAX]);
                sig::presign(&mut rq, &w.cred(), e, &[]);
                if r.chance(1, 2) {
                    vary_query(&mut rq, r);
                } else if r.chance(1, 2) {
                    let mut t = rq.target.clone().into_bytes();
                    damage(&mut t, r);
                    rq.target = t.into_iter().filter(|b| *b > 32 && *b < 127).map(char::from).collect();
                }
            }
            3 => {
                sig::sign_header(&mut rq, &w.cred(), Pay::Hash, &[]);
                let mut a = rq.get("authorization").unwrap_or_default().into_bytes();
                damage(&mut a, r);
                a.retain(|b| *b >= 32 && *b < 127);
                rq.set("authorization", a);
            }
            _ => rq = w.sign(rq, r),
        }
    }
    if r.chance(1, 25) {
        rq.end = End::Err;
    } else if r.chance(1, 25) {
        rq.set("content-length", *r.pick(&NUMBERS));
    }
    if r.chance(1, 10) {
        let b = rq.all_body();
        rq.chunks = r.split(&b, 10);
    }
    rq
}

/// what is wrong with an answer
fn fault(rq: &Rq, rs: &Rs) -> Option<String> {
    if !(200..600).contains(&rs.status) {
        return Some(format!("status {}", rs.status));
    }
    if let Some(e) = &rs.body_err {
        return Some(format!("body {e}"));
    }
    if rq.method != "HEAD" && !rs.body.is_empty() {
        let is_xml = rs.get("content-type").map_or(false, |t| t.contains("xml"));
        if rs.status >= 400 {
            match xml::parse_lenient(&rs.body) {
                Err(e) => return Some(format!("error document: {e}")),
                Ok(d) if d.name != "Error" || d.text_of("Code").map_or(true, |c| c.is_empty()) => return Some("error document: no code".into()),
                Ok(_) => {}
            }
        } else if is_xml && !rs.headers.iter().any(|(n, _)| n == "etag") {
            if let Err(e) = xml::parse_lenient(&rs.body) {
                return Some(format!("document: {e}"));
            }
        }
    }
    let mut lengths: Vec<&Vec<u8>> = rs.headers.iter().filter(|(n, _)| n == "content-length").map(|(_, v)| v).collect();
    lengths.dedup();
    if lengths.len() > 1 || lengths.first().map_or(false, |v| String::from_utf8_lossy(v).parse::<u64>().is_err()) {
        return Some("content-length".into());
    }
    None
}

struct Journal(std::path::PathBuf);
impl Journal {
    fn note(&self, worker: u64, rq: &serde_json::Value) {
        let _ = std::fs::write(self.0.join(worker.to_string()), rq.to_string());
    }
}

fn journal() -> Option<Journal> {
    std::env::var_os("S3MON_JOURNAL").map(|p| Journal(p.into()))
}

/// requests whose answers nothing else may change
async fn reference(w: &World, addr: Option<SocketAddr>) -> Vec<(String, Out)> {
    let mut r = Rng::new(7);
    let mut out = Vec::new();
    let mut rqs = vec![
        Rq::new("GET", "/canary-bkt/obj"),
        Rq::new("HEAD", "/canary-bkt/obj"),
        Rq::new("GET", "/canary-bkt/obj").h("range", "bytes=2-5"),
        Rq::new("GET", "/canary-bkt"),
        Rq::new("GET", "/canary-bkt?list-type=2"),
        Rq::new("GET", "/canary-bkt/none"),
        Rq::new("GET", "/canary-bkt?location"),
        Rq::new("HEAD", "/canary-bkt"),
        Rq::new("GET", "/Bad"),
        Rq::new("POST", "/canary-bkt?delete").body("<Delete>"),
        Rq::new("PUT", "/canary-bkt/obj").h("x-amz-meta-a", "b").body("canary object"),
        Rq::new("DELETE", "/canary-bkt/none"),
    ];
    for rq in &mut rqs {
        let mut q = rq.clone();
        if w.auth {
            q = w.sign(q, &mut r);
        }
        let o = match addr {
            None => w.call(&q).await,
            Some(a) => http::tcp(a, &q).await,
        };
        out.push((format!("{} {}", rq.method, rq.target), o));
    }
    if w.auth {
        out.push(("unsigned".into(), w.call(&Rq::new("GET", "/canary-bkt/obj")).await));
    }
    out
}

fn same(a: &[(String, Out)], b: &[(String, Out)]) -> Option<String> {
    for ((n, x), (_, y)) in a.iter().zip(b) {
        let eq = match (x, y) {
            (Ok(x), Ok(y)) => {
                let key = |rs: &Rs| {
                    // dates in listings, which are not always of the same length
                    let listing = rs.body.windows(12).any(|w| w == b"LastModified");
                    let mut h: Vec<_> = rs.headers.iter().filter(|(n, _)| n != "last-modified" && n != "date" && !(listing && n == "content-length")).cloned().collect();
                    h.sort();
                    let body = String::from_utf8_lossy(&rs.body).split("LastModified").enumerate().filter(|(i, _)| i % 2 == 0).map(|(_, s)| s.to_owned()).collect::<String>();
                    (rs.status, h, body)
                };
                key(x) == key(y)
            }
            (x, y) => x == y,
        };
        if !eq {
            return Some(format!("{n}: {} instead of {}", brief(y), brief(x)));
        }
    }
    None
}

fn brief(o: &Out) -> serde_json::Value {
    match o {
        Ok(r) => r.brief(),
        Err(e) => json!(format!("{e:?}")),
    }
}

fn judge_panics(run: &Run, rq: &serde_json::Value) {
    if PANICS.swap(0, Ordering::SeqCst) > 0 {
        let texts: Vec<String> = PANIC_TEXT.lock().map(|mut v| v.drain(..).collect()).unwrap_or_default();
        let at = texts.first().map_or("?".to_owned(), |t| t.split(": ").next().unwrap_or("?").to_owned());
        let file = at.rsplit('/').next().unwrap_or("?").split(':').next().unwrap_or("?").to_owned();
        run.violation(&format!("panic in {file}"), json!({"panics": texts, "request": rq}));
    }
}

async fn fresh(r: &mut Rng, auth: bool) -> (World, String) {
    let w = World::new(auth);
    for b in ["bkt", "canary-bkt"] {
        let _ = w.call(&w.sign(Rq::new("PUT", format!("/{b}")), r)).await;
    }
    let _ = w.call(&w.sign(Rq::new("PUT", "/canary-bkt/obj").h("x-amz-meta-a", "b").body("canary object"), r)).await;
    let _ = w.call(&w.sign(Rq::new("PUT", "/bkt/obj").h("x-amz-meta-a", "b").body("some object"), r)).await;
    let _ = w.call(&w.sign(Rq::new("PUT", "/bkt/dir/obj").body("some other object"), r)).await;
    let o = w.call(&w.sign(Rq::new("POST", "/bkt/mp?uploads"), r)).await;
    let id = o.ok().and_then(|rs| xml::parse_lenient(&rs.body).ok()).and_then(|d| d.text_of("UploadId")).unwrap_or_default();
    let _ = w.call(&w.sign(Rq::new("PUT", format!("/bkt/mp?partNumber=1&uploadId={id}")).body("part"), r)).await;
    (w, id)
}

/// requests as hyper delivers them
async fn in_process(run: &'static Run, seed: u64, n: u64, worker: u64) {
    let mut r = Rng::from(seed, "hostile", n);
    let j = journal();
    let (w, id) = fresh(&mut r, n % 3 != 0).await;
    let base = reference(&w, None).await;
    let tcp = r.chance(1, 4).then(|| http::serve(w.svc.clone()));
    for i in 0..400u64 {
        if !run.more() {
            break;
        }
        let odd = if i % 3 == 0 { next_of_grid(&w, &mut r) } else { None };
        run.count("requests with one odd value", u64::from(odd.is_some()));
        let rq = odd.unwrap_or_else(|| any_request(&w, &id, &mut r));
        if let Some(j) = &j {
            j.note(worker, &rq.brief());
        }
        let over_tcp = tcp.filter(|_| rq.chunks.is_empty() && rq.end == End::Done && rq.get("expect").is_none() && rq.headers.iter().all(|(n, _)| n != "content-length" && n != "upgrade" && n != "trailer") && http::build(&rq).is_ok() && rq.target.starts_with('/') && rq.target.len() < 8000);
        let o = match over_tcp {
            Some(a) => http::tcp(a, &rq).await,
            None => w.call(&rq).await,
        };
        judge_panics(run, &rq.brief());
        match &o {
            Err(Fail::Unbuildable(_)) => {
                run.count("not expressible as a request", 1);
                continue;
            }
            Ok(rs) => {
                run.seen("answers", &format!("{} {}", rs.status, rs.code().unwrap_or_default()));
                run.count(&format!("status {}xx", rs.status / 100), 1);
                run.eval(&format!("{} {} {:?}", rq.method, rs.status, rs.code()), rs.status != 403);
                if let Some(f) = fault(&rq, rs) {
                    run.violation(&format!("answer: {}", f.split(&[':', ' '][..]).next().unwrap_or("")), json!({"fault": f, "request": rq.brief(), "answer": rs.brief()}));
                }
            }
            Err(Fail::Panic(p)) => {
                run.violation("panic", json!({"panic": p, "request": rq.brief()}));
            }
            Err(Fail::Transport(t)) => {
                run.violation("no answer", json!({"error": t, "request": rq.brief(), "tcp": over_tcp.is_some()}));
            }
            Err(Fail::Hang) => {
                // slow, or stuck?
                let mut stuck = true;
                for _ in 0..2 {
                    if !matches!(w.call(&rq).await, Err(Fail::Hang)) {
                        stuck = false;
                        break;
                    }
                }
                if stuck {
                    run.violation("hang", json!({"request": rq.brief()}));
                } else {
                    run.problem("an answer took more than 60 s");
                }
            }
        }
        if i % 100 == 99 {
            let now = reference(&w, None).await;
            run.count("comparisons of later answers", 1);
            if let Some(d) = same(&base, &now) {
                run.violation("later answers changed", json!({"difference": d, "server": n, "requests": i + 1}));
                break;
            }
        }
    }
}

/// bytes
async fn raw(run: &'static Run, seed: u64, n: u64, worker: u64) {
    let mut r = Rng::from(seed, "raw", n);
    let j = journal();
    let (w, id) = fresh(&mut r, n % 3 != 0).await;
    let addr = http::serve(w.svc.clone());
    let base = reference(&w, Some(addr)).await;
    for i in 0..150u64 {
        if !run.more() {
            break;
        }
        let mut bytes = Vec::new();
        for _ in 0..r.range(1, 4) {
            let rq = any_request(&w, &id, &mut r);
            let (head, chunked) = Conn::head_bytes(&rq);
            bytes.extend(head);
            if chunked {
                for c in rq.chunks.iter().filter(|c| !c.is_empty()) {
                    bytes.extend(format!("{:x}\r\n", c.len()).into_bytes());
                    bytes.extend(c);
                    bytes.extend(b"\r\n");
                }
                bytes.extend(b"0\r\n\r\n");
            } else {
                bytes.extend(rq.all_body());
            }
        }
        match r.below(4) {
            0 => {}
            1 => {
                let n = r.range(1, 600);
                bytes = r.bytes(n);
            }
            _ => damage(&mut bytes, &mut r),
        }
        bytes.truncate(300_000);
        if let Some(j) = &j {
            j.note(worker, &json!({"bytes": crate::util::show(&bytes)}));
        }
        run.eval(&format!("bytes {}", crate::util::fnv(&bytes) % 5000), true);
        let Ok(s) = tokio::net::TcpStream::connect(addr).await else {
            run.violation("raw: connection refused", json!({"server": n, "requests": i}));
            break;
        };
        let (mut rd, mut wr) = s.into_split();
        let pieces = r.split(&bytes, 5);
        let half_open = r.chance(1, 3);
        let talk = async {
            use tokio::io::{AsyncReadExt, AsyncWriteExt};
            let write = async {
                for p in &pieces {
                    if wr.write_all(p).await.is_err() {
                        break;
                    }
                    tokio::task::yield_now().await;
                }
                if half_open {
                    // the reader sees the end of what was asked
                    tokio::time::sleep(Duration::from_millis(3)).await;
                }
                let _ = wr.shutdown().await;
            };
            let read = async {
                let mut out = Vec::new();
                let _ = rd.read_to_end(&mut out).await;
                out
            };
            tokio::join!(write, read).1
        };
        match tokio::time::timeout(Duration::from_secs(120), talk).await {
            Err(_) => {
                run.violation("raw: connection neither answered nor closed", json!({"bytes": crate::util::show(&bytes)}));
            }
            Ok(out) => {
                if out.is_empty() {
                    run.count("byte streams closed without an answer", 1);
                } else {
                    run.count("byte streams answered", 1);
                    run.check(out.starts_with(b"HTTP/1."), "raw: answer is not HTTP", || json!({"bytes": crate::util::show(&bytes), "answer": crate::util::show(&out)}));
                }
            }
        }
        judge_panics(run, &json!({"bytes": crate::util::show(&bytes)}));
        if i % 50 == 49 {
            let now = reference(&w, Some(addr)).await;
            run.count("comparisons of later answers", 1);
            if let Some(d) = same(&base, &now) {
                run.violation("later answers changed", json!({"difference": d, "server": n, "streams": i + 1}));
                break;
            }
        }
    }
}

/// what is logged, counted
struct Sink(&'static Run);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.count("bytes logged", b.len() as u64);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// as the program does it, but part of the time only: what is written to the log must not matter
fn logging(run: &'static Run) {
    use std::sync::atomic::{AtomicBool, Ordering};
    use tracing_subscriber::fmt::time::UtcTime;
    use tracing_subscriber::layer::{Layer, SubscriberExt};
    use tracing_subscriber::util::SubscriberInitExt;
    static ON: AtomicBool = AtomicBool::new(true);
    let layer = tracing_subscriber::fmt::layer()
        .event_format(tracing_subscriber::fmt::format::Format::default().pretty())
        .with_timer(UtcTime::rfc_3339())
        .with_writer(move || Sink(run))
        .with_filter(tracing_subscriber::filter::dynamic_filter_fn(|_, _| ON.load(Ordering::Relaxed)));
    if tracing_subscriber::registry().with(layer).with(tracing_error::ErrorLayer::default()).try_init().is_err() {
        run.problem("the log can not be set up");
    }
    std::thread::spawn(move || loop {
        ON.store(true, Ordering::Relaxed);
        std::thread::sleep(std::time::Duration::from_millis(100));
        ON.store(false, Ordering::Relaxed);
        std::thread::sleep(std::time::Duration::from_millis(250));
    });
}

async fn child(run: &'static Run) -> i32 {
    watch_panics();
    logging(run);
    let seed = run.seed;
    parallel(run, 8, |i| async move {
        let mut n = i;
        while run.more() {
            if (n / 8 + n) % 4 == 3 {
                raw(run, seed, n, i).await;
            } else {
                in_process(run, seed, n, i).await;
            }
            n += 8;
        }
    })
    .await;
    run.finish(&["the transport (hyper) itself answers or closes connections whose bytes are not HTTP"])
}

pub async fn run(run: &'static Run) -> i32 {
    if std::env::var_os("S3MON_CHILD").is_some() {
        return child(run).await;
    }
    let dir = crate::util::TempDir::new();
    let st = tokio::process::Command::new(std::env::current_exe().expect("path of the monitor"))
        .args([&run.prop, &run.tier])
        .env("S3MON_CHILD", "1")
        .env("S3MON_JOURNAL", &dir.path)
        .kill_on_drop(true)
        .status()
        .await;
    use std::os::unix::process::ExitStatusExt;
    match st {
        Err(e) => {
            run.problem(e.to_string());
            2
        }
        Ok(st) => match (st.code(), st.signal()) {
            (Some(c), _) => c,
            (_, Some(s)) if [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&s) => {
                let mut last = Vec::new();
                for e in std::fs::read_dir(&dir.path).into_iter().flatten().flatten() {
                    last.push(std::fs::read_to_string(e.path()).unwrap_or_default());
                }
                run.eval("process died", true);
                run.violation("the server process died", json!({"signal": s, "one of the last requests": last}));
                run.finish(&[])
            }
            (_, s) => {
                eprintln!("child ended by signal {s:?}");
                2
            }
        },
    }
}
