//! AWS Signature Version 4, written from the specification.
use crate::http::Rq;
use crate::util::{b64, hex, hmac, pct, pct_path, sha_hex, unpct, Rng};
use chrono::{DateTime, Utc};

pub const EMPTY_SHA: &str = "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855";

#[derive(Clone, Debug)]
pub struct Cred {
    pub ak: String,
    pub sk: String,
    pub region: String,
    pub service: String,
    pub date: DateTime<Utc>,
}

impl Cred {
    pub fn new(ak: &str, sk: &str) -> Self {
        Self { ak: ak.into(), sk: sk.into(), region: "us-east-1".into(), service: "s3".into(), date: Utc::now() }
    }
    pub fn stamp(&self) -> String {
        self.date.format("%Y%m%dT%H%M%SZ").to_string()
    }
    pub fn day(&self) -> String {
        self.date.format("%Y%m%d").to_string()
    }
    pub fn scope(&self) -> String {
        format!("{}/{}/{}/aws4_request", self.day(), self.region, self.service)
    }
    pub fn key(&self) -> Vec<u8> {
        let k = hmac(format!("AWS4{}", self.sk).as_bytes(), self.day().as_bytes());
        let k = hmac(&k, self.region.as_bytes());
        let k = hmac(&k, self.service.as_bytes());
        hmac(&k, b"aws4_request")
    }
    pub fn sign(&self, string_to_sign: &str) -> String {
        hex(&hmac(&self.key(), string_to_sign.as_bytes()))
    }
    pub fn string_to_sign(&self, canonical: &str) -> String {
        format!("AWS4-HMAC-SHA256\n{}\n{}\n{}", self.stamp(), self.scope(), sha_hex(canonical.as_bytes()))
    }
}

/// decoded query parameters of a target, in the order sent
pub fn query_of(target: &str) -> Vec<(Vec<u8>, Vec<u8>)> {
    let Some((_, q)) = target.split_once('?') else { return vec![] };
    q.split('&')
        .filter(|s| !s.is_empty())
        .map(|kv| {
            let (k, v) = kv.split_once('=').unwrap_or((kv, ""));
            (unpct(k), unpct(v))
        })
        .collect()
}

pub fn canonical(method: &str, target: &str, headers: &[(String, Vec<u8>)], signed: &[String], payload: &str, skip_signature: bool) -> String {
    let path = target.split('?').next().unwrap_or("");
    let mut q: Vec<(String, String)> = query_of(target)
        .into_iter()
        .filter(|(k, _)| !(skip_signature && k == b"X-Amz-Signature"))
        .map(|(k, v)| (pct(&k), pct(&v)))
        .collect();
    q.sort();
    let q = q.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join("&");
    let mut signed: Vec<String> = signed.iter().map(|s| s.to_ascii_lowercase()).collect();
    signed.sort();
    signed.dedup();
    let mut hs = String::new();
    for n in &signed {
        let vals: Vec<String> = headers
            .iter()
            .filter(|(h, _)| h.eq_ignore_ascii_case(n))
            .map(|(_, v)| String::from_utf8_lossy(v).split([' ', '\t']).filter(|s| !s.is_empty()).collect::<Vec<_>>().join(" "))
            .collect();
        hs.push_str(&format!("{n}:{}\n", vals.join(",")));
    }
    format!("{method}\n{}\n{q}\n{hs}\n{}\n{payload}", pct_path(&unpct(path)), signed.join(";"))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pay {
    /// hash of the body
    Hash,
    Unsigned,
    /// aws-chunked
    Stream,
}

/// headers which are signed by default
pub fn default_signed(rq: &Rq) -> Vec<String> {
    let mut v: Vec<String> = rq
        .headers
        .iter()
        .map(|(n, _)| n.to_ascii_lowercase())
        .filter(|n| n == "host" || n == "content-type" || n == "content-md5" || n.starts_with("x-amz-"))
        .collect();
    v.sort();
    v.dedup();
    v
}

/// sign with the Authorization header; returns the signature
pub fn sign_header(rq: &mut Rq, c: &Cred, pay: Pay, extra_signed: &[&str]) -> String {
    let payload = match pay {
        Pay::Hash => sha_hex(&rq.all_body()),
        Pay::Unsigned => "UNSIGNED-PAYLOAD".to_owned(),
        Pay::Stream => "STREAMING-AWS4-HMAC-SHA256-PAYLOAD".to_owned(),
    };
    rq.set("x-amz-date", c.stamp());
    rq.set("x-amz-content-sha256", &payload);
    let mut signed = default_signed(rq);
    for e in extra_signed {
        signed.push(e.to_ascii_lowercase());
    }
    signed.sort();
    signed.dedup();
    let canon = canonical(&rq.method, &rq.target, &rq.headers, &signed, &payload, false);
    let signature = c.sign(&c.string_to_sign(&canon));
    // both ways of writing it are in use
    let gap = if matches!(signature.as_bytes()[0], b'0'..=b'3') { "" } else { " " };
    rq.set(
        "authorization",
        format!("AWS4-HMAC-SHA256 Credential={}/{},{gap}SignedHeaders={},{gap}Signature={signature}", c.ak, c.scope(), signed.join(";")),
    );
    signature
}

/// sign in the query; all headers in `signed` take part
pub fn presign(rq: &mut Rq, c: &Cred, expires: u64, signed: &[&str]) {
    let mut names: Vec<String> = signed.iter().map(|s| s.to_ascii_lowercase()).collect();
    names.push("host".into());
    for (n, _) in &rq.headers {
        let n = n.to_ascii_lowercase();
        if n.starts_with("x-amz-") {
            names.push(n);
        }
    }
    names.sort();
    names.dedup();
    let sep = if rq.target.contains('?') { '&' } else { '?' };
    rq.target.push(sep);
    rq.target.push_str(&format!(
        "X-Amz-Algorithm=AWS4-HMAC-SHA256&X-Amz-Credential={}&X-Amz-Date={}&X-Amz-Expires={expires}&X-Amz-SignedHeaders={}",
        pct(format!("{}/{}", c.ak, c.scope()).as_bytes()),
        c.stamp(),
        pct(names.join(";").as_bytes())
    ));
    let canon = canonical(&rq.method, &rq.target, &rq.headers, &names, "UNSIGNED-PAYLOAD", true);
    let signature = c.sign(&c.string_to_sign(&canon));
    rq.target.push_str(&format!("&X-Amz-Signature={signature}"));
}

/// one chunk of an aws-chunked body
#[derive(Clone, Debug)]
pub struct Chunk {
    pub data: Vec<u8>,
    pub sig: String,
}

pub fn chunk_signature(c: &Cred, prev: &str, data: &[u8]) -> String {
    c.sign(&format!("AWS4-HMAC-SHA256-PAYLOAD\n{}\n{}\n{prev}\n{EMPTY_SHA}\n{}", c.stamp(), c.scope(), sha_hex(data)))
}

/// sign chunks (without the final empty one, which is added)
pub fn sign_chunks(c: &Cred, seed: &str, data: &[Vec<u8>]) -> Vec<Chunk> {
    let mut prev = seed.to_owned();
    let mut out = Vec::new();
    for d in data.iter().chain(std::iter::once(&Vec::new())) {
        prev = chunk_signature(c, &prev, d);
        out.push(Chunk { data: d.clone(), sig: prev.clone() });
    }
    out
}

pub fn encode_chunks(chunks: &[Chunk]) -> Vec<u8> {
    let mut out = Vec::new();
    for ch in chunks {
        out.extend_from_slice(format!("{:x};chunk-signature={}\r\n", ch.data.len(), ch.sig).as_bytes());
        out.extend_from_slice(&ch.data);
        out.extend_from_slice(b"\r\n");
    }
    out
}

/// make `rq` an aws-chunked upload of `data`; returns the signed chunks
pub fn sign_stream(rq: &mut Rq, c: &Cred, data: &[Vec<u8>]) -> Vec<Chunk> {
    let n: usize = data.iter().map(Vec::len).sum();
    rq.set("x-amz-decoded-content-length", n.to_string());
    rq.set("content-encoding", "aws-chunked");
    let len: usize = data.iter().map(|d| format!("{:x}", d.len()).len() + 17 + 64 + 4 + d.len()).sum::<usize>() + 1 + 17 + 64 + 4;
    rq.set("content-length", len.to_string());
    let seed = sign_header(rq, c, Pay::Stream, &["content-encoding"]);
    let chunks = sign_chunks(c, &seed, data);
    rq.chunks = vec![encode_chunks(&chunks)];
    debug_assert_eq!(rq.chunks[0].len(), len);
    chunks
}

/// a POST form
#[derive(Clone, Debug)]
pub struct Form {
    pub boundary: String,
    pub fields: Vec<(String, Vec<u8>)>,
    pub file_name: String,
    pub file_headers: Vec<String>,
    pub file: Vec<u8>,
    /// fields after the file
    pub trailer: Vec<(String, Vec<u8>)>,
    pub field_headers: Vec<String>,
    pub preamble: Vec<u8>,
    /// the file is given as text, without a name
    pub plain_file: bool,
    /// fields which have a file name as well
    pub named: Vec<String>,
}

pub fn policy_doc(bucket: &str, expires: DateTime<Utc>, conditions: &[serde_json::Value]) -> String {
    let mut cs = vec![serde_json::json!({"bucket": bucket})];
    cs.extend_from_slice(conditions);
    serde_json::json!({"expiration": expires.format("%Y-%m-%dT%H:%M:%S%.3fZ").to_string(), "conditions": cs}).to_string()
}

impl Form {
    pub fn new(key: &str, file: &[u8], r: &mut Rng) -> Self {
        Self {
            boundary: format!("----s3mon{:016x}", r.u64()),
            fields: vec![("key".into(), key.as_bytes().to_vec())],
            file_name: "f.bin".into(),
            file_headers: vec!["Content-Type: application/octet-stream".into()],
            file: file.to_vec(),
            trailer: vec![],
            field_headers: vec![],
            preamble: vec![],
            plain_file: false,
            named: vec![],
        }
    }
    /// add the fields which sign the policy
    pub fn sign(&mut self, c: &Cred, policy: &str) {
        let p = b64(policy.as_bytes());
        let sig = c.sign(&p);
        for (n, v) in [
            ("policy", p),
            ("x-amz-algorithm", "AWS4-HMAC-SHA256".to_owned()),
            ("x-amz-credential", format!("{}/{}", c.ak, c.scope())),
            ("x-amz-date", c.stamp()),
            ("x-amz-signature", sig),
        ] {
            self.fields.push((n.into(), v.into_bytes()));
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut o = self.preamble.clone();
        let field = |o: &mut Vec<u8>, n: &str, v: &[u8]| {
            o.extend_from_slice(format!("--{}\r\nContent-Disposition: form-data; name=\"{n}\"{}\r\n", self.boundary, if self.named.contains(&n.to_owned()) { "; filename=\"n\"" } else { "" }).as_bytes());
            for h in &self.field_headers {
                o.extend_from_slice(format!("{h}\r\n").as_bytes());
            }
            o.extend_from_slice(b"\r\n");
            o.extend_from_slice(v);
            o.extend_from_slice(b"\r\n");
        };
        for (n, v) in &self.fields {
            field(&mut o, n, v);
        }
        let name = if self.plain_file { String::new() } else { format!("; filename=\"{}\"", self.file_name) };
        o.extend_from_slice(format!("--{}\r\nContent-Disposition: form-data; name=\"file\"{name}\r\n", self.boundary).as_bytes());
        for h in &self.file_headers {
            o.extend_from_slice(format!("{h}\r\n").as_bytes());
        }
        o.extend_from_slice(b"\r\n");
        o.extend_from_slice(&self.file);
        o.extend_from_slice(b"\r\n");
        for (n, v) in &self.trailer {
            field(&mut o, n, v);
        }
        o.extend_from_slice(format!("--{}--\r\n", self.boundary).as_bytes());
        o
    }
    pub fn request(&self, bucket: &str) -> Rq {
        Rq::new("POST", format!("/{bucket}")).h("content-type", format!("multipart/form-data; boundary={}", self.boundary)).body(self.encode())
    }
}
