//! C19, C20: from requests to storage calls, and from storage results to responses.
use super::parallel;
use crate::ev::Run;
use crate::http::{self, Fail, Out, Rq, Rs};
use crate::record::{Answer, Rec, OP_ERRORS};
use crate::reqs::{self, SPECS};
use crate::util::{pct, Rng};
use crate::xml::{self, El};
use s3_server::errors::S3ErrorCode;
use serde_json::{json, Map, Value};

/// sub-resources of the S3 API without an operation here
const SUBS: &[&str] = &[
    "accelerate", "acl", "analytics", "attributes", "cors", "encryption", "intelligent-tiering", "inventory", "legal-hold", "lifecycle", "logging", "metadataTable", "metrics", "notification",
    "object-lock", "ownershipControls", "policy", "policyStatus", "publicAccessBlock", "replication", "requestPayment", "restore", "retention", "select", "session", "tagging", "torrent", "versioning",
    "versions", "website",
];
const METHODS: &[&str] = &["GET", "HEAD", "PUT", "POST", "DELETE", "PATCH", "OPTIONS", "TRACE", "CONNECT", "PROPFIND", "get", "Put", "X"];

/// the one operation a request names; `Err` when it names none, or several
fn named(method: &str, level: usize, q: &[&str], copy: bool) -> Result<&'static str, ()> {
    let has = |n: &str| q.iter().any(|p| p.split('=').next() == Some(n));
    if SUBS.iter().any(|s| has(s)) {
        return Err(());
    }
    let only = |ok: &[&str]| ["delete", "location", "uploads", "uploadId", "partNumber", "list-type"].iter().all(|n| ok.contains(n) || !has(n));
    match (method, level) {
        ("GET", 0) if only(&[]) => Ok("ListBuckets"),
        ("PUT", 1) if only(&[]) => Ok("CreateBucket"),
        ("DELETE", 1) if only(&[]) => Ok("DeleteBucket"),
        ("HEAD", 1) if only(&[]) => Ok("HeadBucket"),
        ("GET", 1) if has("location") && only(&["location"]) => Ok("GetBucketLocation"),
        ("GET", 1) if has("list-type") && only(&["list-type"]) && q.contains(&"list-type=2") => Ok("ListObjectsV2"),
        ("GET", 1) if only(&[]) => Ok("ListObjects"),
        ("POST", 1) if has("delete") && only(&["delete"]) => Ok("DeleteObjects"),
        ("PUT", 2) if has("partNumber") && has("uploadId") && only(&["partNumber", "uploadId"]) && !copy => Ok("UploadPart"),
        ("PUT", 2) if only(&[]) => Ok(if copy { "CopyObject" } else { "PutObject" }),
        ("POST", 2) if has("uploads") && only(&["uploads"]) => Ok("CreateMultipartUpload"),
        ("POST", 2) if has("uploadId") && only(&["uploadId"]) => Ok("CompleteMultipartUpload"),
        ("GET", 2) if only(&[]) => Ok("GetObject"),
        ("HEAD", 2) if only(&[]) => Ok("HeadObject"),
        ("DELETE", 2) if only(&[]) => Ok("DeleteObject"),
        _ => Err(()),
    }
}

async fn send(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, addr: Option<std::net::SocketAddr>, rq: &Rq) -> Option<(Rs, Vec<crate::record::Call>)> {
    let out: Out = match addr {
        Some(a) => http::tcp(a, rq).await,
        None => http::call(svc, rq).await,
    };
    let calls = rec.take();
    run.count("requests", 1);
    match out {
        Ok(rs) => Some((rs, calls)),
        Err(Fail::Panic(e)) => {
            run.violation("panic", json!({"request": rq.brief(), "panic": e}));
            None
        }
        Err(e) => {
            run.problem(format!("{} {}: {e:?}", rq.method, rq.target));
            None
        }
    }
}

/// C19
pub async fn dispatch(run: &'static Run) -> i32 {
    parallel(run, 8, |w| async move {
        let rec = Rec::default();
        let svc = rec.service(false);
        let addr = http::serve(svc.clone());
        if w < 4 {
            grid(run, &rec, &svc, w).await;
        }
        let mut i = 0;
        while run.more() {
            i += 1;
            let mut r = Rng::from(run.seed, "C19", (i << 8) | w);
            match r.below(10) {
                0..=5 => exact(run, &rec, &svc, addr, &mut r, i).await,
                6 | 7 => mixture(run, &rec, &svc, &mut r).await,
                8 => malformed_value(run, &rec, &svc, &mut r).await,
                _ => malformed_document(run, &rec, &svc, &mut r).await,
            }
        }
    })
    .await;
    run.finish(&["the table of operations and their parameters of the harness follows the S3 API", "parameters which the server does not know of are ignored by it"])
}

async fn exact(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, addr: std::net::SocketAddr, r: &mut Rng, i: u64) {
    let op = r.pick(SPECS).op;
    let case = reqs::case(op, r, true);
    let via = r.chance(1, 10).then_some(addr);
    let Some((rs, calls)) = send(run, rec, svc, via, &case.rq).await else { return };
    run.seen("operation and fields", &format!("{op}/{:?}", case.want.keys().collect::<Vec<_>>()));
    run.eval(&format!("{op}/{:?}", case.want.keys().collect::<Vec<_>>()), true);
    if i < 2 {
        run.sample(json!({"request": case.rq.brief(), "call": calls.first().map(|c| c.input.clone())}));
    }
    let verdict = match calls.len() {
        1 => reqs::agrees(&case, &calls[0]),
        n => Err(format!("{n} storage calls")),
    };
    let verdict = verdict.and_then(|()| if rs.ok() { Ok(()) } else { Err("the answer is no success".into()) });
    if let Err(e) = verdict {
        run.violation(&format!("wrong_call_{op}"), json!({"why": e, "request": case.rq.brief(), "response": rs.brief(), "calls": calls.iter().map(|c| format!("{} {}", c.op, c.input)).collect::<Vec<_>>(), "over TCP": via.is_some()}));
    }
}

/// parameters which qualify an operation and name none: where they have no meaning, the request
/// may be refused or they may be ignored
fn unnamed<'a>(method: &str, level: usize, q: &[&'a str], copy: bool) -> Option<Vec<&'a str>> {
    let has = |n: &str| q.iter().any(|p| p.split('=').next() == Some(n));
    let part = (method, level) == ("PUT", 2) && has("uploadId") && !copy;
    let rest: Vec<&str> = q.iter().copied().filter(|p| match p.split('=').next() {
        Some("partNumber") => part,
        Some("list-type") => *p == "list-type=2" && (method, level) == ("GET", 1) && !has("location"),
        _ => true,
    }).collect();
    (rest.len() != q.len()).then_some(rest)
}

fn verdict(run: &Run, method: &str, level: usize, q: &[&str], copy: bool, rq: &Rq, rs: &Rs, calls: &[crate::record::Call], what: &str) {
    let mut want = named(method, level, q, copy);
    if let (Err(()), Some(rest), false) = (want, unnamed(method, level, q, copy), calls.is_empty() && rs.status >= 400) {
        want = named(method, level, &rest, copy);
    }
    // which of two names counts is not said
    let has = |n: &str| q.iter().any(|p| p.split('=').next() == Some(n));
    if (method, level) == ("POST", 2) && has("uploads") && has("uploadId") && calls.len() == 1 && ["CreateMultipartUpload", "CompleteMultipartUpload"].contains(&calls[0].op) {
        let rest: Vec<&str> = q.iter().copied().filter(|p| !["uploads", "partNumber", "list-type"].contains(&p.split('=').next().unwrap_or(""))).collect();
        if named(method, level, &rest, copy).is_ok() {
            return;
        }
    }
    judge(run, rq, want, rs, calls, what);
}

fn judge(run: &Run, rq: &Rq, want: Result<&'static str, ()>, rs: &Rs, calls: &[crate::record::Call], what: &str) {
    let detail = |why: &str| json!({"why": why, "request": rq.brief(), "response": rs.brief(), "calls": calls.iter().map(|c| c.op).collect::<Vec<_>>()});
    match want {
        Ok(op) => {
            if calls.len() > 1 || calls.iter().any(|c| c.op != op) {
                run.violation(&format!("misdirected_{op}"), detail(&format!("this request names {op}")));
            }
        }
        Err(()) => {
            if !calls.is_empty() {
                run.violation(&format!("executed_{what}"), detail("this request names no operation of the server"));
            } else if rs.status < 400 {
                run.violation(&format!("answered_{what}"), detail("a request for an operation which is not offered is to be refused"));
            }
        }
    }
}

/// every method, level and sub-resource
async fn grid(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, part: u64) {
    let mut params: Vec<Vec<&str>> = vec![vec![], vec!["uploads"], vec!["uploadId=u"], vec!["partNumber=1"], vec!["partNumber=1", "uploadId=u"], vec!["delete"], vec!["location"], vec!["list-type=2"]];
    params.extend(SUBS.iter().map(|s| vec![*s]));
    params.extend([vec!["acl="], vec!["tagging=1"], vec!["select", "select-type=2"], vec!["policy=x"], vec!["uploads="], vec!["delete="], vec!["location="], vec!["list-type=3"], vec!["list-type=1"], vec!["list-type="], vec!["uploads", "prefix=p"], vec!["versions", "list-type=2"], vec!["uploadId=u", "max-parts=3"], vec!["restore", "versionId=1"], vec!["acl", "uploads"], vec!["acl", "delete"], vec!["tagging", "partNumber=1", "uploadId=u"]]);
    let mut n = 0;
    for m in METHODS {
        for level in 0..3usize {
            for q in &params {
                for copy in [false, true] {
                    n += 1;
                    if n % 4 != part {
                        continue;
                    }
                    let path = ["/", "/bucket", "/bucket/key"][level];
                    let target = if q.is_empty() { path.to_owned() } else { format!("{path}?{}", q.join("&")) };
                    let mut rq = Rq::new(m, target);
                    if copy {
                        rq = rq.h("x-amz-copy-source", "/bucket/source");
                    }
                    if *m == "POST" {
                        let d = if level == 1 { "<Delete><Object><Key>k</Key></Object></Delete>" } else { "<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>e</ETag></Part></CompleteMultipartUpload>" };
                        rq = rq.body(d);
                    }
                    let want = named(m, level, q, copy);
                    let Some((rs, calls)) = send(run, rec, svc, None, &rq).await else { continue };
                    run.seen("method, level and parameters", &format!("{m}{level}{q:?}{copy}"));
                    run.eval(&format!("grid/{m}/{level}/{q:?}/{copy}"), true);
                    // a plain request of each kind is executed
                    if let Ok(op) = want {
                        let plain = q.len() <= 2 && !q.iter().any(|p| p.ends_with('=')) && !copy;
                        if plain && calls.is_empty() {
                            run.violation(&format!("not_executed_{op}"), json!({"request": rq.brief(), "response": rs.brief()}));
                        }
                    }
                    verdict(run, m, level, q, copy, &rq, &rs, &calls, &q.join("&").replace('=', "_"));
                }
            }
        }
    }
}

/// parameters and headers of several operations at the same time
async fn mixture(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, r: &mut Rng) {
    let m = *r.pick(&METHODS[..5]);
    let level = r.below(3);
    let mut q: Vec<&str> = Vec::new();
    let all = ["uploads", "uploadId=u", "partNumber=1", "delete", "location", "list-type=2", "acl", "tagging", "prefix=p", "max-keys=3", "versionId=v", "marker=m", "foo=bar", "policy", "x-id=GetObject"];
    for p in all {
        if r.chance(1, 5) {
            q.push(p);
        }
    }
    r.shuffle(&mut q);
    let path = ["/", "/bucket", "/bucket/key"][level];
    let target = if q.is_empty() { path.to_owned() } else { format!("{path}?{}", q.join("&")) };
    let mut rq = Rq::new(m, target);
    let copy = r.chance(1, 4);
    if copy {
        rq = rq.h("x-amz-copy-source", "/bucket/source");
    }
    if r.chance(1, 2) {
        rq = rq.body(*r.pick(&[
            "<Delete><Object><Key>k</Key></Object></Delete>",
            "<CompleteMultipartUpload><Part><PartNumber>1</PartNumber><ETag>e</ETag></Part></CompleteMultipartUpload>",
            "<CreateBucketConfiguration><LocationConstraint>x</LocationConstraint></CreateBucketConfiguration>",
            "data",
        ]));
    }
    let Some((rs, calls)) = send(run, rec, svc, None, &rq).await else { return };
    run.eval(&format!("mix/{m}/{level}/{q:?}/{copy}"), true);
    verdict(run, m, level, &q, copy, &rq, &rs, &calls, "mixture");
}

/// a parameter or header whose value is none
async fn malformed_value(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, r: &mut Rng) {
    let numbers = ["abc", "1.5", "99999999999999999999999", "0x1", "1 2", "--1", "１", "9223372036854775808", "18446744073709551617", "-9223372036854775809", "340282366920938463463374607431768211457"];
    let bools = ["yes", "2", "maybe", "truee"];
    let (op, query, header): (&str, Option<(&str, &str)>, Option<(&str, &str)>) = match r.below(6) {
        0 => ("ListObjects", Some(("max-keys", *r.pick(&numbers))), None),
        1 => ("ListObjectsV2", Some(("max-keys", *r.pick(&numbers))), None),
        2 => ("UploadPart", Some(("partNumber", *r.pick(&numbers))), None),
        3 => ("ListObjectsV2", Some(("fetch-owner", *r.pick(&bools))), None),
        4 => ("DeleteObjects", None, Some(("x-amz-bypass-governance-retention", *r.pick(&bools)))),
        _ => ("CreateBucket", None, Some(("x-amz-bucket-object-lock-enabled", *r.pick(&bools)))),
    };
    let mut case = reqs::case(op, r, false);
    if let Some((n, v)) = query {
        let (p, q) = case.rq.target.split_once('?').map(|(p, q)| (p.to_owned(), q.to_owned())).unwrap_or((case.rq.target.clone(), String::new()));
        let mut ps: Vec<String> = q.split('&').filter(|kv| !kv.is_empty() && kv.split('=').next() != Some(n)).map(ToOwned::to_owned).collect();
        ps.push(format!("{n}={}", pct(v.as_bytes())));
        case.rq.target = format!("{p}?{}", ps.join("&"));
    }
    if let Some((n, v)) = header {
        case.rq.set(n, v);
    }
    let Some((rs, calls)) = send(run, rec, svc, None, &case.rq).await else { return };
    run.eval(&format!("value/{op}/{query:?}/{header:?}"), true);
    run.check(calls.is_empty() && (400..500).contains(&rs.status), &format!("malformed_value_{op}"), || {
        json!({"request": case.rq.brief(), "response": rs.brief(), "calls": calls.iter().map(|c| format!("{} {}", c.op, c.input)).collect::<Vec<_>>()})
    });
}

/// a document which is none
async fn malformed_document(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service, r: &mut Rng) {
    let op = *r.pick(&["DeleteObjects", "CompleteMultipartUpload", "CreateBucket"]);
    let mut case = reqs::case(op, r, false);
    let doc = case.rq.all_body();
    if doc.is_empty() {
        return;
    }
    let text = String::from_utf8_lossy(&doc).into_owned();
    let (kind, bad): (&str, Vec<u8>) = match r.below(5) {
        0 => {
            // within the elements of the root
            let start = text.find("?>").map_or(0, |i| i + 2);
            let start = start + text[start..].find('>').unwrap_or(0) + 1;
            let end = text.rfind("</").unwrap_or(0);
            if end <= start {
                return;
            }
            ("truncated", doc[..r.range(start, end)].to_vec())
        }
        1 => ("crossed tags", text.replacen("</", "</x", 1).into_bytes()),
        2 => ("no document", r.bytes(20).into_iter().map(|b| if b == b'<' { b'?' } else { b }).collect()),
        3 => {
            let mut d = doc.clone();
            let at = text.find("</").unwrap_or(0);
            d.splice(at..at, [0xff, 0xfe]);
            ("not UTF-8", d)
        }
        _ => ("unknown reference", text.replacen("</", "&nosuch;</", 1).into_bytes()),
    };
    case.rq.headers.retain(|(n, _)| n != "content-md5");
    case.rq = case.rq.body(bad.clone());
    let Some((rs, calls)) = send(run, rec, svc, None, &case.rq).await else { return };
    run.eval(&format!("document/{op}/{kind}/{}", bad.len()), true);
    run.check(calls.is_empty() && (400..500).contains(&rs.status), &format!("malformed_document_{op}_{}", kind.replace(' ', "-")), || {
        json!({"document": String::from_utf8_lossy(&bad), "request": case.rq.brief(), "response": rs.brief(), "calls": calls.iter().map(|c| format!("{} {}", c.op, c.input)).collect::<Vec<_>>()})
    });
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Copy, PartialEq, Eq)]
enum V {
    Str,
    Bool,
    Int,
    /// RFC 3339 to HTTP date
    Date,
}

struct OutSpec {
    op: &'static str,
    status: u16,
    headers: &'static [(&'static str, &'static str, V)],
    root: &'static str,
    elems: &'static [(&'static str, &'static str, V)],
    meta: bool,
}

const CHARGED: (&str, &str, V) = ("x-amz-request-charged", "request_charged", V::Str);
const EXPIRATION: (&str, &str, V) = ("x-amz-expiration", "expiration", V::Str);
const VERSION: (&str, &str, V) = ("x-amz-version-id", "version_id", V::Str);
const SSE: (&str, &str, V) = ("x-amz-server-side-encryption", "server_side_encryption", V::Str);
const BKE: (&str, &str, V) = ("x-amz-server-side-encryption-bucket-key-enabled", "bucket_key_enabled", V::Bool);
const ALG: (&str, &str, V) = ("x-amz-server-side-encryption-customer-algorithm", "sse_customer_algorithm", V::Str);
const KMD5: (&str, &str, V) = ("x-amz-server-side-encryption-customer-key-md5", "sse_customer_key_md5", V::Str);
const KMS: (&str, &str, V) = ("x-amz-server-side-encryption-aws-kms-key-id", "ssekms_key_id", V::Str);
const CTX: (&str, &str, V) = ("x-amz-server-side-encryption-context", "ssekms_encryption_context", V::Str);
const ETAG: (&str, &str, V) = ("etag", "e_tag", V::Str);

macro_rules! object_headers {
    ($($more:expr),*) => {
        &[
            ("x-amz-delete-marker", "delete_marker", V::Bool), ("accept-ranges", "accept_ranges", V::Str), EXPIRATION, ("x-amz-restore", "restore", V::Str), ("last-modified", "last_modified", V::Date),
            ETAG, ("x-amz-missing-meta", "missing_meta", V::Int), VERSION, ("cache-control", "cache_control", V::Str), ("content-disposition", "content_disposition", V::Str),
            ("content-encoding", "content_encoding", V::Str), ("content-language", "content_language", V::Str), ("content-type", "content_type", V::Str), ("expires", "expires", V::Str),
            ("x-amz-website-redirect-location", "website_redirect_location", V::Str), SSE, BKE, ALG, KMD5, KMS, ("x-amz-storage-class", "storage_class", V::Str), CHARGED,
            ("x-amz-replication-status", "replication_status", V::Str), ("x-amz-mp-parts-count", "parts_count", V::Int), ("x-amz-object-lock-mode", "object_lock_mode", V::Str),
            ("x-amz-object-lock-retain-until-date", "object_lock_retain_until_date", V::Str), ("x-amz-object-lock-legal-hold", "object_lock_legal_hold_status", V::Str), $($more),*
        ]
    };
}

static OUTS: &[OutSpec] = &[
    OutSpec { op: "ListBuckets", status: 200, headers: &[], root: "ListAllMyBucketsResult", elems: &[], meta: false },
    OutSpec { op: "CreateBucket", status: 200, headers: &[("location", "location", V::Str)], root: "", elems: &[], meta: false },
    OutSpec { op: "DeleteBucket", status: 204, headers: &[], root: "", elems: &[], meta: false },
    OutSpec { op: "HeadBucket", status: 200, headers: &[], root: "", elems: &[], meta: false },
    OutSpec { op: "GetBucketLocation", status: 200, headers: &[], root: "LocationConstraint", elems: &[], meta: false },
    OutSpec {
        op: "ListObjects",
        status: 200,
        headers: &[],
        root: "ListBucketResult",
        elems: &[
            ("IsTruncated", "is_truncated", V::Bool), ("Marker", "marker", V::Str), ("NextMarker", "next_marker", V::Str), ("Name", "name", V::Str), ("Prefix", "prefix", V::Str), ("Delimiter", "delimiter", V::Str),
            ("MaxKeys", "max_keys", V::Int), ("EncodingType", "encoding_type", V::Str),
        ],
        meta: false,
    },
    OutSpec {
        op: "ListObjectsV2",
        status: 200,
        headers: &[],
        root: "ListBucketResult",
        elems: &[
            ("IsTruncated", "is_truncated", V::Bool), ("Name", "name", V::Str), ("Prefix", "prefix", V::Str), ("Delimiter", "delimiter", V::Str), ("MaxKeys", "max_keys", V::Int), ("EncodingType", "encoding_type", V::Str),
            ("KeyCount", "key_count", V::Int), ("ContinuationToken", "continuation_token", V::Str), ("NextContinuationToken", "next_continuation_token", V::Str), ("StartAfter", "start_after", V::Str),
        ],
        meta: false,
    },
    OutSpec { op: "DeleteObjects", status: 200, headers: &[CHARGED], root: "DeleteResult", elems: &[], meta: false },
    OutSpec { op: "PutObject", status: 200, headers: &[EXPIRATION, ETAG, SSE, BKE, VERSION, ALG, KMD5, KMS, CTX, CHARGED], root: "", elems: &[], meta: false },
    OutSpec {
        op: "CopyObject",
        status: 200,
        headers: &[EXPIRATION, ("x-amz-copy-source-version-id", "copy_source_version_id", V::Str), VERSION, SSE, BKE, ALG, KMD5, KMS, CTX, CHARGED],
        root: "CopyObjectResult",
        elems: &[],
        meta: false,
    },
    OutSpec {
        op: "CreateMultipartUpload",
        status: 200,
        headers: &[("x-amz-abort-date", "abort_date", V::Str), ("x-amz-abort-rule-id", "abort_rule_id", V::Str), SSE, BKE, ALG, KMD5, KMS, CTX, CHARGED],
        root: "InitiateMultipartUploadResult",
        elems: &[("Bucket", "bucket", V::Str), ("Key", "key", V::Str), ("UploadId", "upload_id", V::Str)],
        meta: false,
    },
    OutSpec { op: "UploadPart", status: 200, headers: &[ETAG, SSE, BKE, ALG, KMD5, KMS, CHARGED], root: "", elems: &[], meta: false },
    OutSpec {
        op: "CompleteMultipartUpload",
        status: 200,
        headers: &[EXPIRATION, SSE, BKE, VERSION, KMS, CHARGED],
        root: "CompleteMultipartUploadResult",
        elems: &[("Location", "location", V::Str), ("Bucket", "bucket", V::Str), ("Key", "key", V::Str), ("ETag", "e_tag", V::Str)],
        meta: false,
    },
    OutSpec { op: "GetObject", status: 200, headers: object_headers![("x-amz-tagging-count", "tag_count", V::Int)], root: "", elems: &[], meta: true },
    OutSpec { op: "HeadObject", status: 200, headers: object_headers![("x-amz-archive-status", "archive_status", V::Str), ("content-length", "content_length", V::Int)], root: "", elems: &[], meta: true },
    OutSpec { op: "DeleteObject", status: 204, headers: &[("x-amz-delete-marker", "delete_marker", V::Bool), VERSION, CHARGED], root: "", elems: &[], meta: false },
];

/// any text XML can represent
fn xml_value(r: &mut Rng) -> String {
    match r.below(14) {
        0 => String::new(),
        1 => "<&>\"'".to_owned(),
        2 => "]]>".to_owned(),
        3 => "&amp;&lt;&#65;<![CDATA[x]]><!-- y -->".to_owned(),
        4 => " lead and trail ".to_owned(),
        5 => "\t\n".to_owned(),
        6 => "日本語🦀é\u{85}\u{2028}\u{7f}\u{9f}\u{feff}x".to_owned(),
        7 => " ".to_owned(),
        8 => "a\r\nb\rc".to_owned(),
        9 => "x".repeat(r.range(1, 3000)),
        10 => "\u{10ffff}\u{fffd}\u{e000}\u{d7ff}".to_owned(),
        _ => {
            let n = r.range(1, 30);
            (0..n).map(|_| *r.pick(&['a', 'Z', '0', '<', '>', '&', '\'', '"', ';', '#', ' ', '\n', '\t', 'é', '漢', '🦀', '/', '=', '%', '\r', ']', '!', '-', '?'])).collect()
        }
    }
}

/// any text a header can carry
fn head_value(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "日本語 é".to_owned(),
        1 => "a\tb".to_owned(),
        2 => String::new(),
        _ => reqs::header_value(r),
    }
}

fn int(r: &mut Rng) -> i64 {
    *r.pick(&[0i64, 1, 9, 1000, 65536, 2_147_483_647, 2_147_483_648, 5_497_558_138_880, i64::MAX])
}

fn date(r: &mut Rng) -> (String, String) {
    let t = chrono::DateTime::from_timestamp((r.u64() % 4_000_000_000) as i64, 0).unwrap_or_default();
    let http = t.format("%a, %d %b %Y %H:%M:%S GMT").to_string();
    let offset = *r.pick(&[0, 0, 3600, -28800, 19800, 43200]);
    let tz = chrono::FixedOffset::east_opt(offset).expect("offset");
    let local = t.with_timezone(&tz);
    let s = match r.below(4) {
        0 => local.to_rfc3339(),
        1 => local.format("%Y-%m-%dT%H:%M:%S%.3f%:z").to_string(),
        2 => t.format("%Y-%m-%dT%H:%M:%S%.9fZ").to_string(),
        _ => t.format("%Y-%m-%dT%H:%M:%SZ").to_string(),
    };
    (s, http)
}

fn leaf(name: &str, text: impl Into<String>) -> El {
    El { name: name.into(), text: text.into(), ..El::default() }
}
fn node(name: &str, kids: Vec<El>) -> El {
    El { name: name.into(), kids, ..El::default() }
}

/// fields, present at random, and their elements
fn fields(r: &mut Rng, dense: usize, of: &[(&str, &str, V)]) -> (Map<String, Value>, Vec<El>) {
    let mut m = Map::new();
    let mut kids = Vec::new();
    for &(name, field, kind) in of {
        if !present(r, dense) {
            continue;
        }
        let v = match kind {
            V::Bool => json!(r.chance(1, 2)),
            V::Int => json!(int(r)),
            _ => json!(xml_value(r)),
        };
        kids.push(leaf(name, v.as_str().map_or_else(|| v.to_string(), ToOwned::to_owned)));
        m.insert(field.into(), v);
    }
    (m, kids)
}

fn present(r: &mut Rng, dense: usize) -> bool {
    match dense {
        0 => false,
        1 => true,
        2 => r.chance(1, 2),
        _ => r.chance(1, 8),
    }
}

struct Wanted {
    output: Value,
    pieces: Vec<Vec<u8>>,
    status: u16,
    headers: Vec<(String, Vec<u8>)>,
    doc: Option<El>,
    body: Option<Vec<u8>>,
}

fn wanted(s: &OutSpec, r: &mut Rng) -> Wanted {
    let dense = r.below(4);
    let mut out = Map::new();
    let mut headers: Vec<(String, Vec<u8>)> = Vec::new();
    for &(name, field, kind) in s.headers {
        if !present(r, dense) {
            continue;
        }
        let (v, text) = match kind {
            V::Bool => {
                let b = r.chance(1, 2);
                (json!(b), b.to_string())
            }
            V::Int => {
                let n = int(r);
                (json!(n), n.to_string())
            }
            V::Date => {
                let (a, b) = date(r);
                (json!(a), b)
            }
            V::Str => {
                let v = if field == "content_type" { (*r.pick(&["text/plain", "application/x-thing; a=b", "image/png"])).to_owned() } else { head_value(r) };
                (json!(v), v)
            }
        };
        out.insert(field.into(), v);
        headers.push((name.into(), text.into_bytes()));
    }
    if s.meta && present(r, dense) {
        let m: std::collections::BTreeMap<String, String> = (0..r.below(6)).map(|i| (format!("{}{i}", r.pick(&["a", "x-amz-meta-", "under_score", "dash-", "0"])), head_value(r))).collect();
        for (n, v) in &m {
            headers.push((format!("x-amz-meta-{n}"), v.clone().into_bytes()));
        }
        out.insert("metadata".into(), json!(m));
    }
    let mut status = s.status;
    let mut pieces = vec![];
    let mut body = None;
    if s.op == "GetObject" {
        let d = crate::world::content(r, false);
        if !d.is_empty() {
            pieces = r.split(&d, 7);
        }
        if r.chance(1, 2) {
            out.insert("content_length".into(), json!(d.len()));
            headers.push(("content-length".into(), d.len().to_string().into_bytes()));
        }
        if r.chance(1, 3) {
            let v = format!("bytes 0-{}/{}", d.len(), d.len() + 5);
            out.insert("content_range".into(), json!(v));
            headers.push(("content-range".into(), v.into_bytes()));
            status = 206;
        }
        body = Some(d);
    }
    let doc = if s.root.is_empty() {
        None
    } else {
        let (m, mut kids) = fields(r, dense, s.elems);
        out.extend(m);
        let n = *r.pick(&[0usize, 1, 2, 3, 30]);
        match s.op {
            "ListBuckets" => {
                if present(r, dense) {
                    let (l, k): (Vec<_>, Vec<_>) = (0..n)
                        .map(|_| {
                            let (m, k) = fields(r, 2, &[("CreationDate", "creation_date", V::Str), ("Name", "name", V::Str)]);
                            (Value::Object(m), node("Bucket", k))
                        })
                        .unzip();
                    out.insert("buckets".into(), Value::Array(l));
                    kids.push(node("Buckets", k));
                }
                if present(r, dense) {
                    let (m, k) = fields(r, 2, &[("DisplayName", "display_name", V::Str), ("ID", "id", V::Str)]);
                    out.insert("owner".into(), Value::Object(m));
                    kids.push(node("Owner", k));
                }
            }
            "ListObjects" | "ListObjectsV2" => {
                if present(r, dense) {
                    let mut l = Vec::new();
                    for _ in 0..n {
                        let (mut m, mut k) = fields(r, 2, &[("Key", "key", V::Str), ("LastModified", "last_modified", V::Str), ("ETag", "e_tag", V::Str), ("Size", "size", V::Int), ("StorageClass", "storage_class", V::Str)]);
                        if r.chance(1, 3) {
                            let (o, ok) = fields(r, 2, &[("ID", "id", V::Str), ("DisplayName", "display_name", V::Str)]);
                            m.insert("owner".into(), Value::Object(o));
                            k.push(node("Owner", ok));
                        }
                        l.push(Value::Object(m));
                        kids.push(node("Contents", k));
                    }
                    out.insert("contents".into(), Value::Array(l));
                }
                if present(r, dense) {
                    let mut l = Vec::new();
                    for _ in 0..n {
                        let (m, k) = fields(r, 1, &[("Prefix", "prefix", V::Str)]);
                        l.push(Value::Object(m));
                        kids.push(node("CommonPrefixes", k));
                    }
                    out.insert("common_prefixes".into(), Value::Array(l));
                }
            }
            "DeleteObjects" => {
                for (field, name, of) in [
                    ("deleted", "Deleted", &[("DeleteMarker", "delete_marker", V::Bool), ("DeleteMarkerVersionId", "delete_marker_version_id", V::Str), ("Key", "key", V::Str), ("VersionId", "version_id", V::Str)]),
                    ("errors", "Error", &[("Code", "code", V::Str), ("Key", "key", V::Str), ("Message", "message", V::Str), ("VersionId", "version_id", V::Str)]),
                ] {
                    if present(r, dense) {
                        let mut l = Vec::new();
                        for _ in 0..*r.pick(&[0usize, 1, 2, 9]) {
                            let (m, k) = fields(r, 2, of);
                            l.push(Value::Object(m));
                            kids.push(node(name, k));
                        }
                        out.insert(field.into(), Value::Array(l));
                    }
                }
            }
            "CopyObject" => {
                if present(r, dense) {
                    let (m, k) = fields(r, 2, &[("ETag", "e_tag", V::Str), ("LastModified", "last_modified", V::Str)]);
                    out.insert("copy_object_result".into(), Value::Object(m));
                    kids.extend(k);
                }
            }
            _ => {}
        }
        let mut d = node(s.root, kids);
        if s.op == "GetBucketLocation" && present(r, dense) {
            let v = xml_value(r);
            out.insert("location_constraint".into(), json!(v));
            d.text = v;
        }
        Some(d)
    };
    Wanted { output: Value::Object(out), pieces, status, headers, doc, body }
}

/// the same elements; the order of equal names matters, that of different names does not
fn same(want: &El, got: &El) -> Result<(), String> {
    if want.name != got.name {
        return Err(format!("<{}> instead of <{}>", got.name, want.name));
    }
    if want.kids.is_empty() && got.kids.is_empty() && want.text != got.text {
        return Err(format!("<{}> has the text {:?} instead of {:?}", got.name, got.text, want.text));
    }
    if !want.kids.is_empty() && !got.text.trim().is_empty() {
        return Err(format!("text {:?} between the elements of <{}>", got.text, got.name));
    }
    let sorted = |e: &El| {
        let mut k = e.kids.clone();
        k.sort_by(|a, b| a.name.cmp(&b.name));
        k
    };
    let (a, b) = (sorted(want), sorted(got));
    if a.len() != b.len() || a.iter().zip(&b).any(|(x, y)| x.name != y.name) {
        let names = |v: &[El]| v.iter().map(|e| e.name.clone()).collect::<Vec<_>>();
        return Err(format!("<{}> has the elements {:?} instead of {:?}", got.name, names(&b), names(&a)));
    }
    a.iter().zip(&b).try_for_each(|(x, y)| same(x, y))
}

/// headers which any answer may carry
const FREE: &[&str] = &["content-length", "transfer-encoding", "connection", "date", "server", "x-amz-request-id", "x-amz-id-2", "keep-alive"];

fn compare(w: &Wanted, rs: &Rs, op: &str) -> Result<(), String> {
    if rs.status != w.status {
        return Err(format!("status {} instead of {}", rs.status, w.status));
    }
    for (n, v) in &w.headers {
        let got: Vec<&Vec<u8>> = rs.headers.iter().filter(|(h, _)| h.eq_ignore_ascii_case(n)).map(|(_, v)| v).collect();
        if got.len() != 1 || got[0] != v {
            return Err(format!("header {n} should be {:?} and is {:?}", String::from_utf8_lossy(v), got.iter().map(|g| String::from_utf8_lossy(g).into_owned()).collect::<Vec<_>>()));
        }
    }
    for (n, v) in &rs.headers {
        let known = w.headers.iter().any(|(h, _)| h.eq_ignore_ascii_case(n)) || FREE.contains(&n.as_str());
        let xml_type = n == "content-type" && w.doc.is_some();
        if !known && !xml_type {
            return Err(format!("the header {n}: {} stands for nothing in the result", String::from_utf8_lossy(v)));
        }
    }
    if let Some(d) = &w.doc {
        if !rs.get("content-type").map_or(false, |t| t.contains("xml")) {
            return Err(format!("a document of type {:?}", rs.get("content-type")));
        }
        let got = xml::parse(&rs.body).map_err(|e| format!("the document is malformed: {e}"))?;
        same(d, &got)?;
    } else if let Some(b) = &w.body {
        if rs.body_err.is_some() || rs.body != *b {
            return Err(format!("the body ({} bytes, {:?}) is not the one of the result ({} bytes)", rs.body.len(), rs.body_err, b.len()));
        }
    } else if !rs.body.is_empty() {
        return Err(format!("{op} has a body"));
    }
    Ok(())
}

/// header values as a TCP client sees them
fn trim(w: &mut Wanted) {
    for (_, v) in &mut w.headers {
        while matches!(v.first(), Some(b' ' | b'\t')) {
            v.remove(0);
        }
        while matches!(v.last(), Some(b' ' | b'\t')) {
            v.pop();
        }
    }
}

macro_rules! codes {
    ($($c:ident $s:expr),* $(,)?) => { const CODES: &[(S3ErrorCode, &str, u16)] = &[$((S3ErrorCode::$c, stringify!($c), $s)),*]; };
}
// statuses of the S3 API; 0 where it names none
codes! {
    AccessDenied 403, AccountProblem 403, AllAccessDisabled 403, AmbiguousGrantByEmailAddress 400, AuthorizationHeaderMalformed 400, BadDigest 400, BucketAlreadyExists 409, BucketAlreadyOwnedByYou 409,
    BucketNotEmpty 409, CredentialsNotSupported 400, CrossLocationLoggingProhibited 403, EntityTooSmall 400, EntityTooLarge 400, ExpiredToken 400, IllegalLocationConstraintException 400,
    IllegalVersioningConfigurationException 400, IncompleteBody 400, IncorrectNumberOfFilesInPostRequest 400, InlineDataTooLarge 400, InternalError 500, InvalidAccessKeyId 403, InvalidAddressingHeader 0,
    InvalidArgument 400, InvalidBucketName 400, InvalidBucketState 409, InvalidDigest 400, InvalidEncryptionAlgorithmError 400, InvalidLocationConstraint 400, InvalidObjectState 403, InvalidPart 400,
    InvalidPartOrder 400, InvalidPayer 403, InvalidPolicyDocument 400, InvalidRange 416, InvalidRequest 400, InvalidSecurity 403, InvalidSOAPRequest 400, InvalidStorageClass 400,
    InvalidTargetBucketForLogging 400, InvalidToken 400, InvalidURI 400, KeyTooLongError 400, MalformedACLError 400, MalformedPOSTRequest 400, MalformedXML 400, MaxMessageLengthExceeded 400,
    MaxPostPreDataLengthExceededError 400, MetadataTooLarge 400, MethodNotAllowed 405, MissingAttachment 0, MissingContentLength 411, MissingRequestBodyError 400, MissingSecurityElement 400,
    MissingSecurityHeader 400, NoLoggingStatusForKey 400, NoSuchBucket 404, NoSuchBucketPolicy 404, NoSuchKey 404, NoSuchLifecycleConfiguration 404, NoSuchUpload 404, NoSuchVersion 404, NotImplemented 501,
    NotSignedUp 403, NotSupported 0, ObjectNotInActiveTierError 403, OperationAborted 409, PermanentRedirect 301, PreconditionFailed 412, Redirect 307, RestoreAlreadyInProgress 409,
    RequestIsNotMultiPartContent 400, RequestTimeout 400, RequestTimeTooSkewed 403, RequestTorrentOfBucketError 400, ServerSideEncryptionConfigurationNotFoundError 400, ServiceUnavailable 503,
    SignatureDoesNotMatch 403, SlowDown 503, TemporaryRedirect 307, TokenRefreshRequired 400, TooManyBuckets 400, UnexpectedContent 400, UnresolvableGrantByEmailAddress 400, UserKeyMustBeSpecified 400,
    XAmzContentSHA256Mismatch 400,
}

fn compare_error(rs: &Rs, head: bool, code: &str, status: u16, msg: Option<&str>) -> Result<(), String> {
    let ok = if status == 0 { rs.status >= 400 } else { rs.status == status };
    if !ok {
        return Err(format!("status {} instead of {status} for {code}", rs.status));
    }
    if head {
        return Ok(());
    }
    if !rs.get("content-type").map_or(false, |t| t.contains("xml")) {
        return Err(format!("an error of type {:?}", rs.get("content-type")));
    }
    let doc = xml::parse(&rs.body).map_err(|e| format!("the document is malformed: {e}"))?;
    if doc.name != "Error" || doc.text_of("Code").as_deref() != Some(code) || doc.all("Code").count() != 1 {
        return Err(format!("{doc:?} instead of {code}"));
    }
    let m = doc.text_of("Message");
    if m.as_deref() != msg && !(msg.is_none() && m.as_deref() == Some("")) {
        return Err(format!("message {m:?} instead of {msg:?}"));
    }
    Ok(())
}

/// C20
pub async fn results(run: &'static Run) -> i32 {
    parallel(run, 8, |w| async move {
        let rec = Rec::default();
        let svc = rec.service(false);
        let addr = http::serve(svc.clone());
        // all codes, by all operations
        let mut n = 0u64;
        let mut i = 0;
        while run.more() {
            i += 1;
            let mut r = Rng::from(run.seed, "C20", (i << 8) | w);
            let via = r.chance(1, 6).then_some(addr);
            rec.clear();
            if i % 2 == 0 {
                n += 1;
                let turn = (n * 8 + w) as usize;
                let s = &OUTS[turn % OUTS.len()];
                let op_error = r.chance(1, 10);
                let (code, status, answer, msg): (&str, u16, Answer, Option<String>) = if op_error {
                    let (op, name) = *r.pick(OP_ERRORS);
                    let m = xml_value(&mut r);
                    let status = CODES.iter().find(|c| c.1 == name).map_or(0, |c| c.2);
                    rec.script(op, Answer::OpError(name, m.clone()));
                    let case = reqs::case(op, &mut r, false);
                    let Some((rs, _)) = send(run, &rec, &svc, via, &case.rq).await else { continue };
                    run.eval(&format!("operation error/{op}/{name}"), true);
                    if let Err(e) = compare_error(&rs, case.rq.method == "HEAD", name, status, Some(&m)) {
                        run.violation(&format!("error_{op}_{name}"), json!({"why": e, "request": case.rq.brief(), "response": rs.brief()}));
                    }
                    continue;
                } else {
                    let (c, name, status) = CODES[(turn / OUTS.len()) % CODES.len()];
                    let m = if r.chance(1, 5) { None } else { Some(xml_value(&mut r)) };
                    (name, status, Answer::Error(c, m.clone()), m)
                };
                rec.script(s.op, answer);
                let case = reqs::case(s.op, &mut r, false);
                let Some((rs, calls)) = send(run, &rec, &svc, via, &case.rq).await else { continue };
                if calls.len() != 1 {
                    run.problem(format!("{} calls", calls.len()));
                    continue;
                }
                run.eval(&format!("error/{}/{code}/{}", s.op, msg.is_some()), true);
                run.seen("operation and error code", &format!("{}/{code}", s.op));
                if let Err(e) = compare_error(&rs, case.rq.method == "HEAD", code, status, msg.as_deref()) {
                    run.violation(&format!("error_{code}"), json!({"why": e, "operation": s.op, "request": case.rq.brief(), "response": rs.brief()}));
                }
                continue;
            }
            let s = r.pick(OUTS);
            let mut wt = wanted(s, &mut r);
            if via.is_some() {
                trim(&mut wt);
                // a length which does not belong to the body sent
                if s.op == "GetObject" && wt.headers.iter().any(|(n, _)| n == "content-range") {
                    run.count("ranges", 1);
                }
            }
            rec.script(s.op, Answer::Output(wt.output.clone(), wt.pieces.clone()));
            let case = reqs::case(s.op, &mut r, false);
            let Some((rs, calls)) = send(run, &rec, &svc, via, &case.rq).await else { continue };
            if calls.len() != 1 {
                run.problem(format!("{} calls", calls.len()));
                continue;
            }
            let keys: Vec<&String> = wt.output.as_object().map(|m| m.keys().collect()).unwrap_or_default();
            run.eval(&format!("{}/{keys:?}", s.op), true);
            run.seen("operation and fields", &format!("{}/{keys:?}", s.op));
            if i < 3 {
                run.sample(json!({"operation": s.op, "result": wt.output, "response": rs.brief()}));
            }
            if let Err(e) = compare(&wt, &rs, s.op) {
                run.violation(&format!("result_{}", s.op), json!({"why": e, "result": wt.output, "response": rs.brief(), "over TCP": via.is_some()}));
            }
        }
        if w == 0 {
            controls(run, &rec, &svc).await;
        }
    })
    .await;
    run.finish(&["values are such that a header can carry them", "XML 1.0"])
}

/// characters XML 1.0 can not represent
async fn controls(run: &Run, rec: &Rec, svc: &s3_server::SharedS3Service) {
    for c in ('\u{1}'..='\u{1f}').filter(|c| !matches!(c, '\t' | '\n' | '\r')).chain(['\u{fffe}', '\u{ffff}']) {
        rec.clear();
        rec.script("ListObjects", Answer::Output(json!({"contents": [{"key": format!("a{c}b")}, {"key": "plain"}]}), vec![]));
        let rq = Rq::new("GET", "/bucket");
        let Some((rs, _)) = send(run, rec, svc, None, &rq).await else { continue };
        run.eval(&format!("control/{c:?}"), true);
        run.count("characters beyond XML 1.0", 1);
        let keys: Option<Vec<String>> = xml::parse_lenient(&rs.body).ok().map(|d| d.all("Contents").filter_map(|e| e.text_of("Key")).collect());
        run.check(keys == Some(vec![format!("a{c}b"), "plain".to_owned()]), "control_character", || json!({"character": format!("{c:?}"), "response": rs.brief()}));
    }
}

/// C05: whatever the storage did with the entries of a deletion is what the client is told
pub async fn deletions(run: &'static Run) {
    let rec = Rec::default();
    let svc = rec.service(false);
    let Some(s) = OUTS.iter().find(|s| s.op == "DeleteObjects") else { return };
    for i in 0..run.by(1500u64, 20_000) {
        if !run.more() {
            return;
        }
        let mut r = Rng::from(run.seed, "deletions", i);
        rec.clear();
        let wt = wanted(s, &mut r);
        rec.script(s.op, Answer::Output(wt.output.clone(), wt.pieces.clone()));
        let case = reqs::case(s.op, &mut r, false);
        let Some((rs, calls)) = send(run, &rec, &svc, None, &case.rq).await else { continue };
        if calls.len() != 1 {
            run.problem(format!("{} calls", calls.len()));
            continue;
        }
        let n = |f: &str| wt.output.get(f).and_then(Value::as_array).map_or(0, Vec::len);
        run.eval(&format!("report of {} deleted and {} errors, {i}", n("deleted"), n("errors")), true);
        run.count("scripted reports of deletions", 1);
        if let Err(e) = compare(&wt, &rs, s.op) {
            run.violation("report_of_deletions", json!({"why": e, "result of the storage": wt.output, "response": rs.brief()}));
        }
    }
}
