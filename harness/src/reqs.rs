//! Requests for all operations, and what each of them asks for, from the S3 API:
//! a table of operations which is independent of the code under test.
use crate::http::Rq;
use crate::util::{md5_b64, pct, xml_escape, Rng};
use crate::world::{bucket_pool, key_pool, target, target_any};
use serde_json::{json, Map, Value};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Str,
    Bool,
    Int,
    /// a MIME type
    Mime,
    /// an HTTP date
    Date,
    /// the MD5 of the body
    Md5,
}
use K::{Bool, Date, Int, Md5, Mime, Str};

pub struct Spec {
    pub op: &'static str,
    pub method: &'static str,
    /// 0 service, 1 bucket, 2 object
    pub level: u8,
    pub headers: &'static [(&'static str, &'static str, K)],
    pub query: &'static [(&'static str, &'static str, K)],
    /// takes user metadata
    pub meta: bool,
    /// takes an object as its body
    pub body: bool,
}

const SSE_C: [(&str, &str, K); 3] = [
    ("x-amz-server-side-encryption-customer-algorithm", "sse_customer_algorithm", Str),
    ("x-amz-server-side-encryption-customer-key", "sse_customer_key", Str),
    ("x-amz-server-side-encryption-customer-key-MD5", "sse_customer_key_md5", Str),
];
const PAYER: (&str, &str, K) = ("x-amz-request-payer", "request_payer", Str);
const OWNER: (&str, &str, K) = ("x-amz-expected-bucket-owner", "expected_bucket_owner", Str);

pub static SPECS: &[Spec] = &[
    Spec { op: "ListBuckets", method: "GET", level: 0, headers: &[], query: &[], meta: false, body: false },
    Spec {
        op: "CreateBucket",
        method: "PUT",
        level: 1,
        headers: &[
            ("x-amz-acl", "acl", Str),
            ("x-amz-grant-full-control", "grant_full_control", Str),
            ("x-amz-grant-read", "grant_read", Str),
            ("x-amz-grant-read-acp", "grant_read_acp", Str),
            ("x-amz-grant-write", "grant_write", Str),
            ("x-amz-grant-write-acp", "grant_write_acp", Str),
            ("x-amz-bucket-object-lock-enabled", "object_lock_enabled_for_bucket", Bool),
        ],
        query: &[],
        meta: false,
        body: false,
    },
    Spec { op: "DeleteBucket", method: "DELETE", level: 1, headers: &[OWNER], query: &[], meta: false, body: false },
    Spec { op: "HeadBucket", method: "HEAD", level: 1, headers: &[OWNER], query: &[], meta: false, body: false },
    Spec { op: "GetBucketLocation", method: "GET", level: 1, headers: &[OWNER], query: &[("location", "", Str)], meta: false, body: false },
    Spec {
        op: "ListObjects",
        method: "GET",
        level: 1,
        headers: &[PAYER],
        query: &[
            ("delimiter", "delimiter", Str),
            ("encoding-type", "encoding_type", Str),
            ("marker", "marker", Str),
            ("max-keys", "max_keys", Int),
            ("prefix", "prefix", Str),
        ],
        meta: false,
        body: false,
    },
    Spec {
        op: "ListObjectsV2",
        method: "GET",
        level: 1,
        headers: &[PAYER],
        query: &[
            ("list-type", "", Str),
            ("continuation-token", "continuation_token", Str),
            ("delimiter", "delimiter", Str),
            ("encoding-type", "encoding_type", Str),
            ("fetch-owner", "fetch_owner", Bool),
            ("max-keys", "max_keys", Int),
            ("prefix", "prefix", Str),
            ("start-after", "start_after", Str),
        ],
        meta: false,
        body: false,
    },
    Spec {
        op: "DeleteObjects",
        method: "POST",
        level: 1,
        headers: &[PAYER, ("x-amz-mfa", "mfa", Str), ("x-amz-bypass-governance-retention", "bypass_governance_retention", Bool)],
        query: &[("delete", "", Str)],
        meta: false,
        body: false,
    },
    Spec {
        op: "PutObject",
        method: "PUT",
        level: 2,
        headers: &[
            ("x-amz-acl", "acl", Str),
            ("cache-control", "cache_control", Str),
            ("content-disposition", "content_disposition", Str),
            ("content-encoding", "content_encoding", Str),
            ("content-language", "content_language", Str),
            ("content-length", "content_length", Int),
            ("content-md5", "content_md5", Md5),
            ("content-type", "content_type", Mime),
            ("expires", "expires", Str),
            ("x-amz-grant-full-control", "grant_full_control", Str),
            ("x-amz-grant-read", "grant_read", Str),
            ("x-amz-grant-read-acp", "grant_read_acp", Str),
            ("x-amz-grant-write-acp", "grant_write_acp", Str),
            ("x-amz-server-side-encryption", "server_side_encryption", Str),
            ("x-amz-storage-class", "storage_class", Str),
            ("x-amz-website-redirect-location", "website_redirect_location", Str),
            SSE_C[0],
            SSE_C[1],
            SSE_C[2],
            ("x-amz-server-side-encryption-aws-kms-key-id", "ssekms_key_id", Str),
            ("x-amz-server-side-encryption-context", "ssekms_encryption_context", Str),
            PAYER,
            ("x-amz-tagging", "tagging", Str),
            ("x-amz-object-lock-mode", "object_lock_mode", Str),
            ("x-amz-object-lock-retain-until-date", "object_lock_retain_until_date", Str),
            ("x-amz-object-lock-legal-hold", "object_lock_legal_hold_status", Str),
        ],
        query: &[],
        meta: true,
        body: true,
    },
    Spec {
        op: "CopyObject",
        method: "PUT",
        level: 2,
        headers: &[
            ("x-amz-acl", "acl", Str),
            ("cache-control", "cache_control", Str),
            ("content-disposition", "content_disposition", Str),
            ("content-encoding", "content_encoding", Str),
            ("content-language", "content_language", Str),
            ("content-type", "content_type", Mime),
            ("x-amz-copy-source", "copy_source", Str),
            ("x-amz-copy-source-if-match", "copy_source_if_match", Str),
            ("x-amz-copy-source-if-modified-since", "copy_source_if_modified_since", Date),
            ("x-amz-copy-source-if-none-match", "copy_source_if_none_match", Str),
            ("x-amz-copy-source-if-unmodified-since", "copy_source_if_unmodified_since", Date),
            ("expires", "expires", Str),
            ("x-amz-grant-full-control", "grant_full_control", Str),
            ("x-amz-grant-read", "grant_read", Str),
            ("x-amz-grant-read-acp", "grant_read_acp", Str),
            ("x-amz-grant-write-acp", "grant_write_acp", Str),
            ("x-amz-metadata-directive", "metadata_directive", Str),
            ("x-amz-tagging-directive", "tagging_directive", Str),
            ("x-amz-server-side-encryption", "server_side_encryption", Str),
            ("x-amz-storage-class", "storage_class", Str),
            ("x-amz-website-redirect-location", "website_redirect_location", Str),
            SSE_C[0],
            SSE_C[1],
            SSE_C[2],
            ("x-amz-server-side-encryption-aws-kms-key-id", "ssekms_key_id", Str),
            ("x-amz-server-side-encryption-context", "ssekms_encryption_context", Str),
            ("x-amz-copy-source-server-side-encryption-customer-algorithm", "copy_source_sse_customer_algorithm", Str),
            ("x-amz-copy-source-server-side-encryption-customer-key", "copy_source_sse_customer_key", Str),
            ("x-amz-copy-source-server-side-encryption-customer-key-MD5", "copy_source_sse_customer_key_md5", Str),
            PAYER,
            ("x-amz-tagging", "tagging", Str),
            ("x-amz-object-lock-mode", "object_lock_mode", Str),
            ("x-amz-object-lock-retain-until-date", "object_lock_retain_until_date", Str),
            ("x-amz-object-lock-legal-hold", "object_lock_legal_hold_status", Str),
        ],
        query: &[],
        meta: true,
        body: false,
    },
    Spec {
        op: "CreateMultipartUpload",
        method: "POST",
        level: 2,
        headers: &[
            ("x-amz-acl", "acl", Str),
            ("cache-control", "cache_control", Str),
            ("content-disposition", "content_disposition", Str),
            ("content-encoding", "content_encoding", Str),
            ("content-language", "content_language", Str),
            ("content-type", "content_type", Mime),
            ("expires", "expires", Str),
            ("x-amz-grant-full-control", "grant_full_control", Str),
            ("x-amz-grant-read", "grant_read", Str),
            ("x-amz-grant-read-acp", "grant_read_acp", Str),
            ("x-amz-grant-write-acp", "grant_write_acp", Str),
            ("x-amz-server-side-encryption", "server_side_encryption", Str),
            ("x-amz-storage-class", "storage_class", Str),
            ("x-amz-website-redirect-location", "website_redirect_location", Str),
            SSE_C[0],
            SSE_C[1],
            SSE_C[2],
            ("x-amz-server-side-encryption-aws-kms-key-id", "ssekms_key_id", Str),
            ("x-amz-server-side-encryption-context", "ssekms_encryption_context", Str),
            PAYER,
            ("x-amz-tagging", "tagging", Str),
            ("x-amz-object-lock-mode", "object_lock_mode", Str),
            ("x-amz-object-lock-retain-until-date", "object_lock_retain_until_date", Str),
            ("x-amz-object-lock-legal-hold", "object_lock_legal_hold_status", Str),
        ],
        query: &[("uploads", "", Str)],
        meta: true,
        body: false,
    },
    Spec {
        op: "UploadPart",
        method: "PUT",
        level: 2,
        headers: &[("content-length", "content_length", Int), ("content-md5", "content_md5", Md5), SSE_C[0], SSE_C[1], SSE_C[2]],
        query: &[("partNumber", "part_number", Int), ("uploadId", "upload_id", Str)],
        meta: false,
        body: true,
    },
    Spec {
        op: "CompleteMultipartUpload",
        method: "POST",
        level: 2,
        headers: &[PAYER],
        query: &[("uploadId", "upload_id", Str)],
        meta: false,
        body: false,
    },
    Spec {
        op: "GetObject",
        method: "GET",
        level: 2,
        headers: &[
            ("if-match", "if_match", Str),
            ("if-modified-since", "if_modified_since", Date),
            ("if-none-match", "if_none_match", Str),
            ("if-unmodified-since", "if_unmodified_since", Date),
            ("range", "range", Str),
            SSE_C[0],
            SSE_C[1],
            SSE_C[2],
            PAYER,
        ],
        query: &[],
        meta: false,
        body: false,
    },
    Spec {
        op: "HeadObject",
        method: "HEAD",
        level: 2,
        headers: &[
            ("if-match", "if_match", Str),
            ("if-modified-since", "if_modified_since", Date),
            ("if-none-match", "if_none_match", Str),
            ("if-unmodified-since", "if_unmodified_since", Date),
            ("range", "range", Str),
            SSE_C[0],
            SSE_C[1],
            SSE_C[2],
            PAYER,
        ],
        query: &[],
        meta: false,
        body: false,
    },
    Spec {
        op: "DeleteObject",
        method: "DELETE",
        level: 2,
        headers: &[PAYER, ("x-amz-mfa", "mfa", Str), ("x-amz-bypass-governance-retention", "bypass_governance_retention", Bool)],
        query: &[("versionId", "version_id", Str)],
        meta: false,
        body: false,
    },
];

pub fn spec(op: &str) -> &'static Spec {
    SPECS.iter().find(|s| s.op == op).expect("operation")
}

/// a request for an operation
#[derive(Clone, Debug)]
pub struct Case {
    pub op: &'static str,
    pub rq: Rq,
    /// what the storage must be asked, but for `content_length` and `content_encoding`
    pub want: Map<String, Value>,
    /// the object uploaded
    pub data: Option<Vec<u8>>,
}

/// printable ASCII without blanks at the ends
pub fn header_value(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "a, b;c=\"d e\" 'f' (g) [h] {i} <j> @k \\ / ? = :".to_owned(),
        1 => "%20%2F+%zz".to_owned(),
        2 => "x".repeat(r.range(1, 300)),
        3 => "0".to_owned(),
        4 => "\"quoted\"".to_owned(),
        _ => {
            let n = r.range(1, 24);
            let s: String = (0..n).map(|_| (b'!' + r.below(94) as u8) as char).collect();
            s
        }
    }
}

fn mime(r: &mut Rng) -> String {
    (*r.pick(&["text/plain", "application/octet-stream", "text/html; charset=utf-8", "image/svg+xml", "application/xml", "application/x-www-form-urlencoded", "multipart/mixed; boundary=abc", "binary/octet-stream", "binary", "text/", "a/b; c", "application/json;", "x y", "text/plain; charset=\"utf-8"])).to_owned()
}

/// any text a query parameter can carry
pub fn query_value(r: &mut Rng) -> String {
    match r.below(9) {
        0 => String::new(),
        1 => "a b&c=d+e%20/?#;".to_owned(),
        2 => "日本語🦀é".to_owned(),
        3 => "\r\n\t\u{1}".to_owned(),
        4 => "dir/".to_owned(),
        5 => "~!*'()-_.".to_owned(),
        _ => {
            let n = r.range(1, 12);
            (0..n).map(|_| (b' ' + r.below(95) as u8) as char).collect()
        }
    }
}

fn pct_any(s: &str, r: &mut Rng) -> String {
    if r.chance(1, 4) {
        // more than needed, and lower case
        s.bytes().map(|b| if r.chance(1, 2) || !b.is_ascii_alphanumeric() { format!("%{b:02x}") } else { (b as char).to_string() }).collect()
    } else {
        pct(s.as_bytes())
    }
}

pub fn http_date(r: &mut Rng) -> String {
    format!("{}, {:02} {} {} {:02}:{:02}:{:02} GMT", "Sun", r.range(1, 28), r.pick(&["Jan", "Feb", "Nov"]), r.range(1990, 2030), r.below(24), r.below(60), r.below(60))
}

fn ws(r: &mut Rng, on: bool) -> &'static str {
    if on { *r.pick(&["", "\n  ", " ", "\r\n\t"]) } else { "" }
}

pub fn complete_doc(parts: &[(i64, String)], r: &mut Rng) -> String {
    let on = r.chance(1, 2);
    let mut d = String::new();
    if r.chance(1, 3) {
        d.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
        d.push_str(ws(r, on));
    }
    d.push_str(if r.chance(1, 2) { "<CompleteMultipartUpload xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\">" } else { "<CompleteMultipartUpload>" });
    for (n, e) in parts {
        d.push_str(ws(r, on));
        d.push_str("<Part>");
        let a = format!("<PartNumber>{n}</PartNumber>");
        let b = format!("<ETag>{}</ETag>", xml_escape(e));
        let (a, b) = if r.chance(1, 2) { (a, b) } else { (b, a) };
        for x in [a, b] {
            d.push_str(ws(r, on));
            d.push_str(&x);
        }
        d.push_str(ws(r, on));
        d.push_str("</Part>");
    }
    d.push_str(ws(r, on));
    d.push_str("</CompleteMultipartUpload>");
    d
}

pub fn delete_doc(objects: &[(String, Option<String>)], quiet: Option<bool>, r: &mut Rng) -> String {
    let on = r.chance(1, 2);
    let mut d = String::new();
    if r.chance(1, 3) {
        d.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
        d.push_str(ws(r, on));
    }
    d.push_str(if r.chance(1, 2) { "<Delete xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\">" } else { "<Delete>" });
    let q = quiet.map(|q| format!("<Quiet>{q}</Quiet>")).unwrap_or_default();
    let first = r.chance(1, 2);
    if first {
        d.push_str(ws(r, on));
        d.push_str(&q);
    }
    for (k, v) in objects {
        d.push_str(ws(r, on));
        d.push_str("<Object>");
        let mut xs = vec![format!("<Key>{}</Key>", xml_text(k, r))];
        if let Some(v) = v {
            xs.push(format!("<VersionId>{}</VersionId>", xml_escape(v)));
        }
        r.shuffle(&mut xs);
        for x in xs {
            d.push_str(ws(r, on));
            d.push_str(&x);
        }
        d.push_str(ws(r, on));
        d.push_str("</Object>");
    }
    if !first {
        d.push_str(ws(r, on));
        d.push_str(&q);
    }
    d.push_str(ws(r, on));
    d.push_str("</Delete>");
    d
}

/// text as the content of an element, some characters as references
pub fn xml_text(s: &str, r: &mut Rng) -> String {
    let many = r.chance(1, 4);
    s.chars()
        .map(|c| match c {
            '\r' => "&#13;".to_owned(),
            c if many && r.chance(1, 3) => format!("&#x{:x};", c as u32),
            c if many && r.chance(1, 6) => format!("&#{};", c as u32),
            '>' if r.chance(1, 2) => "&gt;".to_owned(),
            '"' if r.chance(1, 2) => "\"".to_owned(),
            '\'' if r.chance(1, 2) => "'".to_owned(),
            c => xml_escape(&c.to_string()),
        })
        .collect()
}

fn bucket(r: &mut Rng) -> String {
    bucket_pool(r, 1).remove(0)
}

/// a key which names a file and not a directory
pub fn key(r: &mut Rng) -> String {
    key_pool(r, 1, true).remove(0)
}

/// query parameters in any order; a name without a value, too
fn with_query(target: &str, mut q: Vec<(String, Option<String>)>, r: &mut Rng) -> String {
    r.shuffle(&mut q);
    if q.is_empty() {
        return target.to_owned();
    }
    let q: Vec<String> = q
        .into_iter()
        .map(|(n, v)| match v {
            None => {
                if r.chance(1, 3) { format!("{n}=") } else { n }
            }
            Some(v) => format!("{n}={}", pct_any(&v, r)),
        })
        .collect();
    format!("{target}?{}", q.join("&"))
}

/// any request for `op`; `extra` unknown parameters and headers are added at times
pub fn case(op: &str, r: &mut Rng, extra: bool) -> Case {
    let s = spec(op);
    let b = bucket(r);
    let k = key(r);
    let mut want = Map::new();
    let path = match s.level {
        0 => "/".to_owned(),
        1 => {
            want.insert("bucket".into(), json!(b));
            if r.chance(1, 4) { format!("/{b}/") } else { format!("/{b}") }
        }
        _ => {
            want.insert("bucket".into(), json!(b));
            want.insert("key".into(), json!(k));
            if r.chance(1, 2) { target_any(&b, &k, r) } else { target(&b, &k) }
        }
    };
    // the parameters
    let dense = r.below(4);
    let pick = |r: &mut Rng| match dense {
        0 => false,
        1 => true,
        2 => r.chance(1, 2),
        _ => r.chance(1, 8),
    };
    let mut query: Vec<(String, Option<String>)> = Vec::new();
    for &(n, f, kind) in s.query {
        let v = match (n, kind) {
            ("location" | "delete" | "uploads", _) => {
                query.push((n.into(), None));
                continue;
            }
            ("list-type", _) => {
                query.push((n.into(), Some("2".into())));
                continue;
            }
            ("partNumber", _) => json!(*r.pick(&[1i64, 2, 9999, 10000, 77])),
            ("uploadId", _) => {
                let v = if r.chance(1, 2) { format!("{:08x}-0000-4000-8000-{:012x}", r.u64() as u32, r.u64() & 0xffff_ffff_ffff) } else { format!("u{}", query_value(r)) };
                json!(v)
            }
            _ if !pick(r) => continue,
            (_, Int) => json!(*r.pick(&[0i64, 1, 1000, 999, 2_147_483_647])),
            (_, Bool) => json!(r.chance(1, 2)),
            _ => json!(query_value(r)),
        };
        let text = v.as_str().map_or_else(|| v.to_string(), ToOwned::to_owned);
        query.push((n.into(), Some(text)));
        want.insert(f.into(), v);
    }
    if extra && r.chance(1, 4) {
        let (n, v) = *r.pick(&[("x-id", op), ("foo", "bar"), ("Acl", "x"), ("zzz", ""), ("x-amz-acl", "private"), ("X-Amz-Meta-A", "b"), ("tag", "1")]);
        query.push((n.into(), Some(v.into())));
    }
    if extra && r.chance(1, 5) {
        // names and values whose order depends on their encoding, some of them twice
        for _ in 0..r.range(2, 5) {
            let n = *r.pick(&["x", "x", "xé", "x{", "x~", "xa", "X", "x y", "x+", "x%", "é", "~", "[a]", "a[]", "a.b", "-", "x-", "x/", "x=", "日"]);
            let v = *r.pick(&["", "é", "z", "~", "a b", "a+b", "/", "=", "&", "%41", "{", "A", "a", "|", "日本", "a/b", "\u{10ffff}", "-", "."]);
            query.push((crate::util::pct(n.as_bytes()), Some(v.into())));
        }
    }
    let mut rq = Rq::new(s.method, with_query(&path, query, r));
    // the document or object
    let mut data = None;
    match op {
        "CreateBucket" => {
            if r.chance(1, 2) {
                let loc = r.pick(&["eu-west-1", "us-west-2", "a&b<c>"]).to_string();
                let d = format!(
                    "{}<CreateBucketConfiguration{}><LocationConstraint>{}</LocationConstraint></CreateBucketConfiguration>",
                    if r.chance(1, 2) { "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" } else { "" },
                    if r.chance(1, 2) { " xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\"" } else { "" },
                    xml_escape(&loc)
                );
                want.insert("create_bucket_configuration".into(), json!({"location_constraint": loc}));
                rq = rq.body(d);
            }
        }
        "DeleteObjects" => {
            let n = *r.pick(&[1usize, 1, 2, 5, 40]);
            let objects: Vec<(String, Option<String>)> = (0..n)
                .map(|_| {
                    let mut k = key(r);
                    k.retain(|c| !matches!(c, '\u{0}'..='\u{8}' | '\u{b}' | '\u{c}' | '\u{e}'..='\u{1f}'));
                    if k.is_empty() {
                        k.push('k');
                    }
                    if r.chance(1, 8) {
                        k = format!(" {k}\t");
                    }
                    (k, if r.chance(1, 4) { Some("v&1".to_owned()) } else { None })
                })
                .collect();
            let quiet = *r.pick(&[None, Some(true), Some(false)]);
            let mut m = Map::new();
            m.insert(
                "objects".into(),
                Value::Array(
                    objects
                        .iter()
                        .map(|(k, v)| match v {
                            Some(v) => json!({"key": k, "version_id": v}),
                            None => json!({"key": k}),
                        })
                        .collect(),
                ),
            );
            if let Some(q) = quiet {
                m.insert("quiet".into(), json!(q));
            }
            want.insert("delete".into(), Value::Object(m));
            let d = delete_doc(&objects, quiet, r);
            rq = rq.body(d);
            if r.chance(1, 2) {
                let md5 = md5_b64(&rq.all_body());
                rq = rq.h("content-md5", md5);
            }
        }
        "CompleteMultipartUpload" => {
            let n = *r.pick(&[1usize, 2, 3, 30]);
            let mut no = 0;
            let parts: Vec<(i64, String)> = (0..n)
                .map(|_| {
                    no += r.range(1, 300) as i64;
                    (no, if r.chance(1, 2) { format!("\"{:032x}\"", r.u64()) } else { format!("{:032x}", r.u64()) })
                })
                .collect();
            want.insert(
                "multipart_upload".into(),
                json!({"parts": parts.iter().map(|(n, e)| json!({"part_number": n, "e_tag": e})).collect::<Vec<_>>()}),
            );
            let d = complete_doc(&parts, r);
            rq = rq.body(d);
        }
        _ if s.body => {
            let d = crate::world::content(r, false);
            let pieces = if d.is_empty() { vec![] } else { r.split(&d, 6).into_iter().filter(|p| !p.is_empty()).collect() };
            rq = rq.pieces(pieces);
            data = Some(d);
        }
        _ => {}
    }
    // the headers
    for &(n, f, kind) in s.headers {
        if n == "content-length" || (n != "x-amz-copy-source" && !pick(r)) {
            continue;
        }
        let v = match (n, kind) {
            ("x-amz-copy-source", _) => {
                let (sb, sk) = (bucket(r), key(r));
                let v = if r.chance(1, 2) { target_any(&sb, &sk, r) } else { target(&sb, &sk) };
                json!(if r.chance(1, 2) { v[1..].to_owned() } else { v })
            }
            ("x-amz-metadata-directive" | "x-amz-tagging-directive", _) => json!(*r.pick(&["COPY", "REPLACE"])),
            (_, Bool) => json!(r.chance(1, 2)),
            (_, Mime) => json!(mime(r)),
            (_, Date) => json!(http_date(r)),
            (_, Md5) => json!(md5_b64(data.as_deref().unwrap_or_default())),
            ("range", _) => json!(*r.pick(&["bytes=0-4", "bytes=5-", "bytes=-3", "bytes=0-0"])),
            _ => json!(header_value(r)),
        };
        let text = v.as_str().map_or_else(|| v.to_string(), ToOwned::to_owned);
        let name = if r.chance(1, 4) { n.to_ascii_uppercase() } else { n.to_owned() };
        rq = rq.h(&name, text);
        want.insert(f.into(), v);
    }
    if s.meta && r.chance(1, 2) {
        let m = crate::world::metadata(r);
        if !m.is_empty() {
            want.insert("metadata".into(), json!(m));
        }
        for (n, v) in m {
            let n = format!("x-amz-meta-{n}");
            let n = if r.chance(1, 4) { n.to_ascii_uppercase() } else { n };
            rq = rq.h(&n, v);
        }
    }
    if extra && r.chance(1, 4) {
        let (n, v) = *r.pick(&[("user-agent", "s3mon/1"), ("x-forwarded-for", "::1"), ("accept-encoding", "identity"), ("x-custom", "  "), ("x-amz-unknown-thing", "1"), ("cookie", "a=b"), ("accept", "*/*")]);
        rq = rq.h(n, v);
    }
    Case { op: s.op, rq, want, data }
}

/// whether the call recorded is the one asked for
pub fn agrees(case: &Case, call: &crate::record::Call) -> Result<(), String> {
    if call.op != case.op {
        return Err(format!("{} was called instead of {}", call.op, case.op));
    }
    let mut got = call.input.as_object().cloned().unwrap_or_default();
    // these depend on how the body is sent
    let length = got.remove("content_length");
    if let Some(n) = length {
        let declared = case.rq.get("content-length");
        if declared.as_deref() != Some(n.to_string().as_str()) {
            return Err(format!("content_length is {n} and not {declared:?}"));
        }
    }
    let mut want = case.want.clone();
    if case.rq.get("content-encoding").map_or(false, |e| e.contains("aws-chunked")) {
        got.remove("content_encoding");
        want.remove("content_encoding");
    }
    // an absent list of parts
    if got != want {
        let mut diff = Vec::new();
        for (k, v) in &want {
            if got.get(k) != Some(v) {
                diff.push(format!("{k} should be {v} and is {:?}", got.get(k)));
            }
        }
        for (k, v) in &got {
            if !want.contains_key(k) {
                diff.push(format!("{k} should be absent and is {v}"));
            }
        }
        return Err(diff.join("; "));
    }
    match &case.data {
        None => {}
        Some(d) => {
            if call.body_err.is_some() || call.body != *d {
                return Err(format!("the body delivered ({} bytes, {:?}) is not the body sent ({} bytes)", call.body.len(), call.body_err, d.len()));
            }
        }
    }
    Ok(())
}
