//! A server over a scratch directory, and generators of names and contents.
use crate::http::{self, Out, Rq};
use crate::sig::{self, Cred, Pay};
use crate::util::{Rng, TempDir};
use s3_server::storages::fs::FileSystem;
use s3_server::{S3Service, SharedS3Service, SimpleAuth};
use std::collections::BTreeMap;

pub const AK: &str = "AKIAMONITOR0EXAMPLE";
pub const SK: &str = "monitor/secret+key/0123456789abcdefghijk";

pub fn fs_service(root: &std::path::Path, auth: bool) -> SharedS3Service {
    let mut s = S3Service::new(FileSystem::new(root).expect("file system"));
    if auth {
        let mut a = SimpleAuth::new();
        a.register(AK.into(), SK.into());
        a.register("AKIASECOND".into(), "second-secret".into());
        s.set_auth(a);
    }
    s.into_shared()
}

pub struct World {
    pub dir: TempDir,
    pub svc: SharedS3Service,
    pub auth: bool,
}

impl World {
    pub fn new(auth: bool) -> Self {
        let dir = TempDir::new();
        let svc = fs_service(&dir.path, auth);
        Self { dir, svc, auth }
    }
    pub fn cred(&self) -> Cred {
        Cred::new(AK, SK)
    }
    pub fn sign(&self, rq: Rq, r: &mut Rng) -> Rq {
        sign(self.auth.then(|| self.cred()).as_ref(), rq, r)
    }
    pub fn upload(&self, rq: Rq, data: &[u8], r: &mut Rng) -> (Rq, &'static str) {
        upload(self.auth.then(|| self.cred()).as_ref(), rq, data, r)
    }
    pub async fn call(&self, rq: &Rq) -> Out {
        http::call(&self.svc, rq).await
    }
}

pub fn target(bucket: &str, key: &str) -> String {
    format!("/{bucket}/{}", crate::util::pct_path(key.as_bytes()))
}
pub fn target_any(bucket: &str, key: &str, r: &mut Rng) -> String {
    format!("/{bucket}/{}", crate::util::pct_path_any(key.as_bytes(), r))
}

/// contents of sizes around the buffer sizes in use
pub fn content(r: &mut Rng, big: bool) -> Vec<u8> {
    let n = match r.below(if big { 14 } else { 10 }) {
        0 => 0,
        1 => 1,
        2 | 3 | 4 => r.range(2, 300),
        5 => r.range(4094, 4098),
        6 => r.range(8190, 8194),
        7 => r.range(300, 20_000),
        8 => r.range(1, 40),
        9 => r.range(65_534, 65_538),
        10 => r.range(100_000, 400_000),
        11 => 131_072 + r.below(3),
        12 => (1 << 20) + r.below(3) - 1,
        _ => r.range(0, 2000),
    };
    match r.below(6) {
        0 => vec![*r.pick(&[0u8, b'\n', b'\r', 0xff, b'A']); n],
        1 => b"\r\n--x\r\n0;chunk-signature=\r\n".iter().copied().cycle().take(n).collect(),
        _ => r.bytes(n),
    }
}

/// a few large contents, beyond the 4 MiB buffer of the digest
pub fn large_content(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[(4usize << 20) - 1, 4 << 20, (4 << 20) + 1, (8 << 20) + 5, (5 << 20) + 123]);
    r.bytes(n)
}

pub fn metadata(r: &mut Rng) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let n = *r.pick(&[0usize, 0, 1, 1, 2, 3, 8]);
    let n = if r.chance(1, 40) { *r.pick(&[17, 33, 60]) } else { n };
    for i in 0..n {
        let name = match r.below(6) {
            _ if n > 8 => format!("many-{i}"),
            5 if r.chance(1, 8) => "long-name-".repeat(r.range(2, 30)),
            0 => "a".to_owned(),
            1 => "owner".to_owned(),
            2 => format!("x-{}", r.below(100)),
            3 => "under_score.dot-dash".to_owned(),
            4 => "meta-x-amz-meta-y".to_owned(),
            _ => format!("n{}", r.below(5)),
        };
        let value = match r.below(8) {
            0 => String::new(),
            1 => "with inner  spaces; and, punctuation=\"q\" \\ / {json:1} 'x' <&>".to_owned(),
            2 if n < 9 && r.chance(1, 6) => "w".repeat(r.range(900, 5000)),
            2 => "v".repeat(r.range(1, 900)),
            3 => "%41%2F+%".to_owned(),
            _ => format!("v{:x}", r.u64()),
        };
        m.insert(name, value);
    }
    m
}

/// keys of which none is below another one, as file names
pub fn conflict_free(keys: &mut Vec<String>) {
    let mut out: Vec<String> = Vec::new();
    for k in keys.drain(..) {
        let bad = out.iter().any(|o| *o == k || k.starts_with(&format!("{o}/")) || o.starts_with(&format!("{k}/")));
        if !bad {
            out.push(k);
        }
    }
    *keys = out;
}

pub fn special_keys() -> Vec<String> {
    let mut v: Vec<String> = [
        "a",
        "b",
        "A",
        "key",
        "Key",
        "KEY",
        "p",
        "pp",
        "p-",
        "p.",
        "p0",
        "dir/a",
        "dir/ab",
        "dir/b",
        "dir2/a",
        "dir-/a",
        "Dir/a",
        "dir/sub/deep/x",
        "naïve",
        "nai\u{308}ve",
        "日本語/キー",
        "🦀",
        "é",
        "e\u{301}",
        "ß",
        "ﬀ",
        "a b",
        "a+b",
        "a%20b",
        "a%2Fb",
        "100%",
        "%",
        "%zz",
        "a&b=c",
        "<x>",
        "\"q\"",
        "'q'",
        "a?b",
        "a#b",
        "semi;colon",
        "co,mma",
        "back\\slash",
        "~t",
        "*",
        "$HOME",
        "`id`",
        "end ",
        " lead",
        " ",
        ".hidden",
        "..x",
        "x..",
        "...",
        "d/.b/c",
        "-dash",
        "a:b",
        "@at",
        "(p)",
        "[b]",
        "{c}",
        "|",
        "^",
        ".tmp-0b8f2b4e-0b1c-4b2e-9a55-0d1c2b3a4f5e",
        ".bucket-Ymt0.object-YQ.metadata.json",
        ".upload_id-0b8f2b4e-0b1c-4b2e-9a55-0d1c2b3a4f5e.json",
        ".upload_id-0b8f2b4e-0b1c-4b2e-9a55-0d1c2b3a4f5e.part-1",
        "metadata.json",
        "x.metadata.json",
        "bkt",
        "bkt/a",
        "index.html",
        "a=b",
        "a.b.c",
        "0",
        "00",
        "-1",
        "null",
        "a&amp;b",
        "]]>",
        "favicon.ico",
        "uploads",
        "location",
        "delete",
        "z/y/x/w/v/u/t/s/r/q",
        "trailing.",
        "CON",
        "key ",
        "\u{feff}bom",
        "\u{202e}rtl",
        "z\u{200d}wj",
    ]
    .iter()
    .map(|s| (*s).to_owned())
    .collect();
    v.push("s".repeat(255));
    v.push("é".repeat(127));
    v.push(format!("{}/{}/{}/{}/z", "m".repeat(255), "n".repeat(255), "o".repeat(255), "q".repeat(254)));
    v.push(format!("{}/{}", "l".repeat(200), "k".repeat(200)));
    v.push("w".repeat(140));
    v.push("w".repeat(141));
    v.push(format!("{}x", "w".repeat(253)));
    v.push("日".repeat(85));
    v
}

/// keys of a few segments which are near to each other, so that the order and
/// the prefixes of whole keys and of their segments differ
pub fn family_pool(r: &mut Rng, n: usize) -> Vec<String> {
    let all = ["a", "b", "a-", "a.", "a!", "a0", "aa", "A", ".a", "é", "a b", "ab", "a\u{ffff}", "a🦀", ".b", "b.", "a+", "a%", "-", "a~", ".s3", ".git", ".DS_Store", ".tmp", ".upload", ".bucket-a"];
    let m = r.range(3, 8);
    let segs: Vec<&str> = (0..m).map(|_| *r.pick(&all)).collect();
    let mut out = Vec::new();
    for _ in 0..n * 3 {
        let d = *r.pick(&[1usize, 1, 2, 2, 2, 3, 4]);
        let k: Vec<&str> = (0..d).map(|_| *r.pick(&segs)).collect();
        out.push(k.join("/"));
        conflict_free(&mut out);
        if out.len() >= n {
            break;
        }
    }
    out
}

pub fn key_pool(r: &mut Rng, n: usize, control: bool) -> Vec<String> {
    if r.chance(1, 3) {
        return family_pool(r, n);
    }
    let sp = special_keys();
    let mut out = Vec::new();
    while out.len() < n {
        let mut k = match r.below(10) {
            0..=6 => r.pick(&sp).clone(),
            7 => format!("k{}", r.below(4)),
            8 => format!("t/{}/{}", r.below(3), r.below(3)),
            _ => {
                let m = r.range(1, 30);
                (0..m)
                    .map(|_| *r.pick(&['a', 'B', '1', '-', '_', 'é', '漢', '%', '+', ' ', '&', '~', '\'', '"', '<', '.']))
                    .collect()
            }
        };
        if control && r.chance(1, 12) {
            k.push_str(r.pick(&["\t", "\n", "\r", "\u{1}", "\u{7f}", "\u{85}"]));
        }
        let seg_ok = k.split('/').all(|s| !s.is_empty() && s != "." && s != ".." && s.len() <= 255);
        if seg_ok && k.len() <= 1024 {
            out.push(k);
            conflict_free(&mut out);
        }
    }
    // relatives of what is there
    if n > 3 && r.chance(1, 2) {
        let base = r.pick(&out).clone();
        for k in [format!("{base}x"), base.to_uppercase(), format!("{base}.")] {
            if k.len() <= 1024 && k.split('/').all(|s| s.len() <= 255 && s != "." && s != "..") {
                out.push(k);
            }
        }
        conflict_free(&mut out);
    }
    out
}

pub fn bucket_pool(r: &mut Rng, n: usize) -> Vec<String> {
    let sp = [
        "bkt",
        "bkt1",
        "bkt-1",
        "bkt.1",
        "abc",
        "a-b",
        "0zero",
        "zz9",
        "my.dotted.bucket",
        "n-n-n-n",
        "xn-x",
        "1.2.3",
        "bk",
    ];
    let mut out: Vec<String> = Vec::new();
    while out.len() < n {
        let b = match r.below(8) {
            0 => "l".repeat(63),
            1 => format!("b{}", r.range(10, 9999)),
            _ => (*r.pick(&sp)).to_owned(),
        };
        if b.len() >= 3 && !out.contains(&b) {
            out.push(b);
        }
    }
    out
}

/// sign a request without a streamed body, in one of the possible ways
pub fn sign(cred: Option<&Cred>, mut rq: Rq, r: &mut Rng) -> Rq {
    if let Some(cred) = cred {
        match r.below(4) {
            0 => sig::presign(&mut rq, cred, 600, &[]),
            1 => {
                sig::sign_header(&mut rq, cred, Pay::Unsigned, &[]);
            }
            _ => {
                sig::sign_header(&mut rq, cred, Pay::Hash, &[]);
            }
        }
        if r.chance(1, 3) {
            r.shuffle(&mut rq.headers);
        }
    }
    rq
}
/// make `rq` an upload of `data`, framed in one of the possible ways
pub fn upload(cred: Option<&Cred>, rq: Rq, data: &[u8], r: &mut Rng) -> (Rq, &'static str) {
    let pieces = |r: &mut Rng| -> Vec<Vec<u8>> {
        match r.below(4) {
            0 => vec![data.to_vec()],
            1 => r.split(data, 3),
            2 => r.split(data, 40),
            _ => {
                let n = *r.pick(&[1usize, 7, 100, 4096, 8192, 65536]);
                let n = n.max(data.len() / 300 + 1);
                data.chunks(n).map(<[u8]>::to_vec).collect()
            }
        }
    };
    let Some(cred) = cred else {
        let p = pieces(r);
        let mut rq = rq.pieces(p);
        if r.chance(1, 5) {
            rq.headers.retain(|(n, _)| n != "content-length");
            return (rq, "no length");
        }
        return (rq, "plain");
    };
    match r.below(5) {
        0 => {
            let mut rq = rq.pieces(pieces(r));
            sig::presign(&mut rq, cred, 600, &[]);
            (rq, "presigned")
        }
        1 => {
            let mut rq = rq.pieces(pieces(r));
            sig::sign_header(&mut rq, cred, Pay::Unsigned, &[]);
            (rq, "unsigned payload")
        }
        2 => {
            let mut rq = rq.pieces(pieces(r));
            sig::sign_header(&mut rq, cred, Pay::Hash, &[]);
            (rq, "signed")
        }
        _ => {
            let mut rq = rq;
            let chunks: Vec<Vec<u8>> = if data.is_empty() {
                vec![]
            } else {
                let n = *r.pick(&[1usize, 16, 1000, 8192, 65536, 1 << 20]);
                let n = n.max(data.len() / 50 + 1);
                data.chunks(n).map(<[u8]>::to_vec).collect()
            };
            sig::sign_stream(&mut rq, cred, &chunks);
            let all = rq.all_body();
            rq.chunks = match r.below(4) {
                0 => vec![all],
                1 => r.split(&all, 4),
                2 => r.split(&all, 60),
                _ => {
                    let n = (*r.pick(&[1usize, 3, 50, 1024])).max(all.len() / 400 + 1);
                    all.chunks(n).map(<[u8]>::to_vec).collect()
                }
            };
            (rq, "aws-chunked")
        }
    }
}
