//! Small helpers: random numbers, encodings, digests, scratch directories.
//! Nothing here uses the code under test.
use hmac::{Hmac, Mac};
use md5::Md5;
use sha2::{Digest, Sha256};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

/// xoshiro256** seeded by splitmix64
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed.wrapping_add(0x1234_5678_9abc_def1);
        let mut next = || {
            z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            x ^ (x >> 31)
        };
        Self { s: [next(), next(), next(), next()] }
    }
    pub fn from(seed: u64, label: &str, n: u64) -> Self {
        let h = Sha256::digest(format!("{seed}/{label}/{n}").as_bytes());
        let mut b = [0u8; 8];
        b.copy_from_slice(&h[..8]);
        Self::new(u64::from_le_bytes(b))
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    /// a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// index by weight
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut x = self.below(total);
        for (i, &n) in w.iter().enumerate() {
            if x < n {
                return i;
            }
            x -= n;
        }
        0
    }
    /// split bytes at random places
    pub fn split(&mut self, data: &[u8], max_pieces: usize) -> Vec<Vec<u8>> {
        let n = self.range(1, max_pieces.max(1));
        let mut cuts: Vec<usize> = (1..n).map(|_| self.below(data.len() + 1)).collect();
        cuts.sort_unstable();
        let mut out = Vec::new();
        let mut prev = 0;
        for c in cuts {
            out.push(data[prev..c].to_vec());
            prev = c;
        }
        out.push(data[prev..].to_vec());
        out
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn md5_hex(b: &[u8]) -> String {
    hex(&Md5::digest(b))
}
pub fn md5_b64(b: &[u8]) -> String {
    b64(&Md5::digest(b))
}
pub fn etag(b: &[u8]) -> String {
    format!("\"{}\"", md5_hex(b))
}
pub fn sha_hex(b: &[u8]) -> String {
    hex(&Sha256::digest(b))
}
pub fn hmac(key: &[u8], data: &[u8]) -> Vec<u8> {
    let mut m = <Hmac<Sha256>>::new_from_slice(key).expect("hmac key");
    m.update(data);
    m.finalize().into_bytes().to_vec()
}
pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ u64::from(x)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub fn b64(b: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        s.push(T[(n >> 18) as usize & 63] as char);
        s.push(T[(n >> 12) as usize & 63] as char);
        s.push(if c.len() > 1 { T[(n >> 6) as usize & 63] as char } else { '=' });
        s.push(if c.len() > 2 { T[n as usize & 63] as char } else { '=' });
    }
    s
}

fn unreserved(b: u8) -> bool {
    b.is_ascii_alphanumeric() || matches!(b, b'-' | b'.' | b'_' | b'~')
}
/// a number which is `v` to those who keep too few of its bits (all of them are more than `u16::MAX`)
pub fn wrapping(v: u64, r: &mut Rng) -> u128 {
    let k = *r.pick(&[16u32, 31, 32, 32, 33, 63, 64, 64, 65, 120]);
    u128::from(v) + (1u128 << k) * (1 + r.below(2) as u128)
}

/// RFC 3986 encoding of everything but unreserved characters
pub fn pct(s: &[u8]) -> String {
    s.iter().map(|&b| if unreserved(b) { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}
/// like `pct`, but keeps '/'
pub fn pct_path(s: &[u8]) -> String {
    s.iter().map(|&b| if unreserved(b) || b == b'/' { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}
/// an arbitrary, but valid encoding of a path
pub fn pct_path_any(s: &[u8], r: &mut Rng) -> String {
    let lower = r.chance(1, 3);
    let over = r.chance(1, 3);
    let raw_ok = b"!$&'()*+,;=:@";
    s.iter()
        .map(|&b| {
            let must = !(unreserved(b) || b == b'/' || raw_ok.contains(&b));
            if must || (over && b != b'/' && r.chance(1, 4)) || (!unreserved(b) && b != b'/' && r.chance(1, 2)) {
                if lower { format!("%{b:02x}") } else { format!("%{b:02X}") }
            } else {
                (b as char).to_string()
            }
        })
        .collect()
}
pub fn unpct(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && s.get(i + 1..i + 3).map_or(false, |h| u8::from_str_radix(h, 16).is_ok()) {
            out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(0));
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

pub fn xml_escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&apos;"),
            c => o.push(c),
        }
    }
    o
}

/// printable rendering of arbitrary bytes, shortened
pub fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(300)]).into_owned();
    if b.len() > 300 { format!("{s:?}…({} bytes)", b.len()) } else { format!("{s:?}") }
}

static COUNTER: AtomicU64 = AtomicU64::new(0);

/// A scratch directory, removed on drop
#[derive(Debug)]
pub struct TempDir {
    pub path: PathBuf,
}
impl TempDir {
    pub fn new() -> Self {
        let n = COUNTER.fetch_add(1, Ordering::SeqCst);
        let path = std::env::temp_dir().join(format!("s3mon-{}-{n}", std::process::id()));
        let _ = std::fs::remove_dir_all(&path);
        std::fs::create_dir_all(&path).expect("scratch directory");
        let path = path.canonicalize().expect("scratch directory");
        Self { path }
    }
}
impl Drop for TempDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.path);
    }
}

/// One entry of a tree snapshot
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    Dir,
    File { len: u64, hash: u64, mtime: i128 },
    Other,
}

/// Everything below a directory: relative path → node
pub type Tree = std::collections::BTreeMap<Vec<u8>, Node>;

pub fn snapshot(root: &Path) -> Tree {
    use std::os::unix::ffi::OsStrExt;
    fn walk(root: &Path, dir: &Path, out: &mut Tree) {
        let Ok(rd) = std::fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(root).unwrap_or(&p).as_os_str().as_bytes().to_vec();
            match e.file_type() {
                Ok(t) if t.is_dir() => {
                    out.insert(rel, Node::Dir);
                    walk(root, &p, out);
                }
                Ok(t) if t.is_file() => {
                    let data = std::fs::read(&p).unwrap_or_default();
                    let mtime = std::fs::metadata(&p)
                        .and_then(|m| m.modified())
                        .ok()
                        .and_then(|t| t.duration_since(std::time::UNIX_EPOCH).ok())
                        .map_or(0, |d| d.as_nanos() as i128);
                    out.insert(rel, Node::File { len: data.len() as u64, hash: fnv(&data), mtime });
                }
                _ => {
                    out.insert(rel, Node::Other);
                }
            }
        }
    }
    let mut out = Tree::new();
    walk(root, root, &mut out);
    out
}

/// what differs between two snapshots (contents only, unless `times`)
pub fn tree_diff(a: &Tree, b: &Tree, times: bool) -> Vec<String> {
    let same = |x: &Node, y: &Node| match (x, y) {
        (Node::File { len: l1, hash: h1, mtime: m1 }, Node::File { len: l2, hash: h2, mtime: m2 }) => {
            l1 == l2 && h1 == h2 && (!times || m1 == m2)
        }
        _ => x == y,
    };
    let mut out = Vec::new();
    for (k, v) in a {
        match b.get(k) {
            None => out.push(format!("gone: {} ({v:?})", show(k))),
            Some(w) if !same(v, w) => out.push(format!("changed: {} ({v:?} -> {w:?})", show(k))),
            _ => {}
        }
    }
    for (k, v) in b {
        if !a.contains_key(k) {
            out.push(format!("new: {} ({v:?})", show(k)));
        }
    }
    out
}
