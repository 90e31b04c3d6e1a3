//! Requests, responses, and the two ways to send a request: in-process and over TCP.
use bytes::Bytes;
use futures::stream::{self, StreamExt};
use hyper::Body;
use s3_server::SharedS3Service;
use std::net::SocketAddr;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;

/// how a request body ends
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    /// completely
    Done,
    /// with a transport error
    Err,
    /// not at all: the client goes away after a while
    Hang,
}

#[derive(Clone, Debug)]
pub struct Rq {
    pub method: String,
    /// path and query, as sent
    pub target: String,
    pub headers: Vec<(String, Vec<u8>)>,
    pub chunks: Vec<Vec<u8>>,
    pub end: End,
    /// pause before each piece of the body
    pub pause: Option<Duration>,
}

impl Rq {
    pub fn new(method: &str, target: impl Into<String>) -> Self {
        Self {
            method: method.into(),
            target: target.into(),
            headers: vec![("host".into(), b"localhost".to_vec())],
            chunks: Vec::new(),
            end: End::Done,
            pause: None,
        }
    }
    pub fn h(mut self, name: &str, value: impl AsRef<[u8]>) -> Self {
        self.headers.push((name.into(), value.as_ref().to_vec()));
        self
    }
    pub fn set(&mut self, name: &str, value: impl AsRef<[u8]>) {
        self.headers.retain(|(n, _)| !n.eq_ignore_ascii_case(name));
        self.headers.push((name.into(), value.as_ref().to_vec()));
    }
    pub fn get(&self, name: &str) -> Option<String> {
        self.headers.iter().find(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| String::from_utf8_lossy(v).into_owned())
    }
    /// body in one piece, with its length
    pub fn body(self, data: impl Into<Vec<u8>>) -> Self {
        let data = data.into();
        self.pieces(if data.is_empty() { vec![] } else { vec![data] })
    }
    /// body in pieces, with its length
    pub fn pieces(mut self, chunks: Vec<Vec<u8>>) -> Self {
        let n: usize = chunks.iter().map(Vec::len).sum();
        self.set("content-length", n.to_string());
        self.chunks = chunks;
        self
    }
    pub fn all_body(&self) -> Vec<u8> {
        self.chunks.concat()
    }
    pub fn brief(&self) -> serde_json::Value {
        let hs: Vec<String> = self.headers.iter().map(|(n, v)| format!("{n}: {}", String::from_utf8_lossy(&v[..v.len().min(400)]))).collect();
        let body = self.all_body();
        serde_json::json!({
            "method": self.method, "target": crate::util::show(self.target.as_bytes()), "headers": hs,
            "body": crate::util::show(&body), "pieces": self.chunks.iter().map(Vec::len).take(40).collect::<Vec<_>>(),
            "end": format!("{:?}", self.end),
        })
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Rs {
    pub status: u16,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
    /// the body broke off
    pub body_err: Option<String>,
}

impl Rs {
    pub fn get(&self, name: &str) -> Option<String> {
        self.headers.iter().find(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| String::from_utf8_lossy(v).into_owned())
    }
    pub fn ok(&self) -> bool {
        (200..300).contains(&self.status) && self.body_err.is_none()
    }
    /// code of an error document
    pub fn code(&self) -> Option<String> {
        let doc = crate::xml::parse_lenient(&self.body).ok()?;
        if doc.name != "Error" {
            return None;
        }
        doc.text_of("Code")
    }
    pub fn meta(&self) -> std::collections::BTreeMap<String, String> {
        self.headers
            .iter()
            .filter_map(|(n, v)| Some((n.to_ascii_lowercase().strip_prefix("x-amz-meta-")?.to_owned(), String::from_utf8_lossy(v).into_owned())))
            .collect()
    }
    pub fn brief(&self) -> serde_json::Value {
        let hs: Vec<String> = self.headers.iter().map(|(n, v)| format!("{n}: {}", String::from_utf8_lossy(v))).collect();
        serde_json::json!({"status": self.status, "headers": hs, "body": crate::util::show(&self.body), "len": self.body.len(), "body_err": self.body_err})
    }
}

/// no (complete) response
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    /// the handler panicked
    Panic(String),
    /// the connection broke, or the service returned no response
    Transport(String),
    /// no answer within the watchdog time
    Hang,
    /// the request can not be expressed
    Unbuildable(String),
}

pub type Out = Result<Rs, Fail>;

pub const WATCHDOG: Duration = Duration::from_secs(60);

pub fn build(rq: &Rq) -> Result<hyper::Request<Body>, Fail> {
    let mut b = hyper::Request::builder().method(rq.method.as_str()).uri(rq.target.as_str());
    for (n, v) in &rq.headers {
        b = b.header(n.as_str(), v.as_slice());
    }
    b.body(make_body(rq)).map_err(|e| Fail::Unbuildable(e.to_string()))
}

fn make_body(rq: &Rq) -> Body {
    let pause = rq.pause;
    match rq.end {
        End::Done if rq.chunks.is_empty() => Body::empty(),
        End::Done if rq.chunks.len() == 1 && pause.is_none() => Body::from(rq.chunks[0].clone()),
        end => {
            let chunks: Vec<Vec<u8>> = rq.chunks.clone();
            let s = stream::iter(chunks)
                .then(move |c| async move {
                    if let Some(p) = pause {
                        tokio::time::sleep(p).await;
                    } else {
                        tokio::task::yield_now().await;
                    }
                    Ok::<_, std::io::Error>(Bytes::from(c))
                })
                .chain(stream::once(async move {
                    match end {
                        End::Hang => {
                            futures::future::pending::<()>().await;
                        }
                        _ => tokio::task::yield_now().await,
                    }
                    Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "client went away"))
                }));
            if end == End::Done {
                let n = rq.chunks.len();
                Body::wrap_stream(s.take(n))
            } else {
                Body::wrap_stream(s)
            }
        }
    }
}

pub async fn read_response(resp: hyper::Response<Body>) -> Rs {
    let (parts, mut body) = resp.into_parts();
    let mut rs = Rs {
        status: parts.status.as_u16(),
        headers: parts.headers.iter().map(|(n, v)| (n.as_str().to_owned(), v.as_bytes().to_vec())).collect(),
        ..Rs::default()
    };
    while let Some(c) = body.next().await {
        match c {
            Ok(c) => rs.body.extend_from_slice(&c),
            Err(e) => {
                rs.body_err = Some(e.to_string());
                break;
            }
        }
    }
    // the transport would enforce the announced length
    if rs.body_err.is_none() {
        if let Some(n) = rs.get("content-length").and_then(|s| s.parse::<usize>().ok()) {
            if rs.body.len() < n {
                rs.body_err = Some(format!("{} of {n} bytes", rs.body.len()));
            } else if rs.body.len() > n {
                rs.body_err = Some(format!("{} instead of {n} bytes", rs.body.len()));
            }
        }
    }
    rs
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_owned())).unwrap_or_else(|| "panic".into())
}

/// send in-process
pub async fn call(svc: &SharedS3Service, rq: &Rq) -> Out {
    let req = build(rq)?;
    let svc = svc.clone();
    let head = rq.method == "HEAD";
    let hang = rq.end == End::Hang;
    let task = tokio::spawn(async move {
        let resp = match svc.hyper_call(req).await {
            Ok(r) => r,
            Err(e) => return Err(Fail::Transport(e.to_string())),
        };
        if head {
            // no body is sent for HEAD, whatever the length says
            let (parts, _body) = resp.into_parts();
            return Ok(Rs {
                status: parts.status.as_u16(),
                headers: parts.headers.iter().map(|(n, v)| (n.as_str().to_owned(), v.as_bytes().to_vec())).collect(),
                ..Rs::default()
            });
        }
        Ok(read_response(resp).await)
    });
    let abort = task.abort_handle();
    let limit = if hang { Duration::from_millis(60) } else { WATCHDOG };
    match tokio::time::timeout(limit, task).await {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => {
            if e.is_panic() {
                Err(Fail::Panic(panic_text(e.into_panic())))
            } else {
                Err(Fail::Transport("cancelled".into()))
            }
        }
        Err(_) => {
            abort.abort();
            // the request is gone when its task is
            for _ in 0..2000 {
                if abort.is_finished() {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            Err(Fail::Hang)
        }
    }
}

/// serve over TCP, as the program does
pub fn serve(svc: SharedS3Service) -> SocketAddr {
    let listener = std::net::TcpListener::bind("127.0.0.1:0").expect("bind");
    let addr = listener.local_addr().expect("addr");
    let make = hyper::service::make_service_fn(move |_| futures::future::ready(Ok::<_, std::convert::Infallible>(svc.clone())));
    let server = hyper::Server::from_tcp(listener).expect("server").serve(make);
    tokio::spawn(async move {
        let _ = server.await;
    });
    addr
}

/// a client connection
pub struct Conn {
    s: TcpStream,
    buf: Vec<u8>,
}

impl Conn {
    pub async fn open(addr: SocketAddr) -> std::io::Result<Self> {
        let s = TcpStream::connect(addr).await?;
        s.set_nodelay(true)?;
        Ok(Self { s, buf: Vec::new() })
    }
    pub async fn write(&mut self, b: &[u8]) -> std::io::Result<()> {
        self.s.write_all(b).await
    }
    pub async fn shutdown(&mut self) {
        let _ = self.s.shutdown().await;
    }
    pub fn head_bytes(rq: &Rq) -> (Vec<u8>, bool) {
        let mut b = format!("{} {} HTTP/1.1\r\n", rq.method, rq.target).into_bytes();
        for (n, v) in &rq.headers {
            b.extend_from_slice(n.as_bytes());
            b.extend_from_slice(b": ");
            b.extend_from_slice(v);
            b.extend_from_slice(b"\r\n");
        }
        let has = |n: &str| rq.headers.iter().any(|(h, _)| h.eq_ignore_ascii_case(n));
        let chunked = !has("content-length") && !has("transfer-encoding") && !rq.chunks.is_empty();
        if chunked {
            b.extend_from_slice(b"transfer-encoding: chunked\r\n");
        }
        b.extend_from_slice(b"\r\n");
        (b, chunked)
    }
    /// send a request and read its response; the body is written while waiting
    pub async fn send(&mut self, rq: &Rq) -> Out {
        let t = |e: std::io::Error| Fail::Transport(e.to_string());
        let (head, chunked) = Self::head_bytes(rq);
        self.s.write_all(&head).await.map_err(t)?;
        let mut write_err = None;
        for c in &rq.chunks {
            if let Some(p) = rq.pause {
                tokio::time::sleep(p).await;
            }
            let mut piece = Vec::new();
            if chunked {
                if c.is_empty() {
                    continue;
                }
                piece.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                piece.extend_from_slice(c);
                piece.extend_from_slice(b"\r\n");
            } else {
                piece.extend_from_slice(c);
            }
            if let Err(e) = self.s.write_all(&piece).await {
                // the server may have answered and closed already
                write_err = Some(e);
                break;
            }
        }
        match rq.end {
            End::Done => {
                if chunked && write_err.is_none() {
                    let _ = self.s.write_all(b"0\r\n\r\n").await;
                }
            }
            End::Err => {
                let _ = self.s.shutdown().await;
            }
            End::Hang => {
                return match tokio::time::timeout(Duration::from_millis(60), self.read(rq.method == "HEAD")).await {
                    Ok(r) => r,
                    Err(_) => Err(Fail::Hang),
                }
            }
        }
        match tokio::time::timeout(WATCHDOG, self.read(rq.method == "HEAD")).await {
            Ok(r) => r,
            Err(_) => Err(Fail::Hang),
        }
    }
    async fn fill(&mut self) -> Result<usize, Fail> {
        let mut b = [0u8; 65536];
        let n = self.s.read(&mut b).await.map_err(|e| Fail::Transport(e.to_string()))?;
        self.buf.extend_from_slice(&b[..n]);
        Ok(n)
    }
    /// read one response
    pub async fn read(&mut self, head_only: bool) -> Out {
        loop {
            let end = loop {
                if let Some(p) = find(&self.buf, b"\r\n\r\n") {
                    break p;
                }
                if self.fill().await? == 0 {
                    return Err(Fail::Transport(format!("connection closed after {} bytes", self.buf.len())));
                }
            };
            let head: Vec<u8> = self.buf.drain(..end + 4).collect();
            let mut rs = parse_head(&head).map_err(Fail::Transport)?;
            if rs.status == 100 {
                continue;
            }
            if head_only || rs.status == 204 || rs.status == 304 {
                return Ok(rs);
            }
            let cl: Option<usize> = rs.get("content-length").and_then(|s| s.parse().ok());
            if rs.get("transfer-encoding").map_or(false, |v| v.eq_ignore_ascii_case("chunked")) {
                loop {
                    let p = loop {
                        if let Some(p) = find(&self.buf, b"\r\n") {
                            break p;
                        }
                        if self.fill().await.unwrap_or(0) == 0 {
                            rs.body_err = Some("broke off".into());
                            return Ok(rs);
                        }
                    };
                    let line: Vec<u8> = self.buf.drain(..p + 2).collect();
                    let n = usize::from_str_radix(String::from_utf8_lossy(&line[..p]).trim(), 16)
                        .map_err(|_| Fail::Transport(format!("bad chunk size {}", crate::util::show(&line))))?;
                    while self.buf.len() < n + 2 {
                        if self.fill().await.unwrap_or(0) == 0 {
                            rs.body.extend_from_slice(&self.buf);
                            rs.body_err = Some("broke off".into());
                            return Ok(rs);
                        }
                    }
                    rs.body.extend_from_slice(&self.buf[..n]);
                    self.buf.drain(..n + 2);
                    if n == 0 {
                        return Ok(rs);
                    }
                }
            } else if let Some(n) = cl {
                while self.buf.len() < n {
                    if self.fill().await.unwrap_or(0) == 0 {
                        rs.body = std::mem::take(&mut self.buf);
                        rs.body_err = Some(format!("{} of {n} bytes", rs.body.len()));
                        return Ok(rs);
                    }
                }
                rs.body = self.buf.drain(..n).collect();
                return Ok(rs);
            }
            while self.fill().await.unwrap_or(0) != 0 {}
            rs.body = std::mem::take(&mut self.buf);
            return Ok(rs);
        }
    }
}

fn parse_head(b: &[u8]) -> Result<Rs, String> {
    let bad = || format!("malformed response head {}", crate::util::show(b));
    let text = &b[..b.len() - 4];
    let mut lines = text.split(|&c| c == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l));
    let first = String::from_utf8_lossy(lines.next().unwrap_or_default()).into_owned();
    let mut it = first.splitn(3, ' ');
    if !it.next().unwrap_or("").starts_with("HTTP/1.") {
        return Err(bad());
    }
    let status: u16 = it.next().and_then(|s| s.parse().ok()).ok_or_else(bad)?;
    let mut rs = Rs { status, ..Rs::default() };
    for l in lines {
        let p = l.iter().position(|&c| c == b':').ok_or_else(bad)?;
        let name = String::from_utf8_lossy(&l[..p]).to_ascii_lowercase();
        let mut v = &l[p + 1..];
        while let [b' ' | b'\t', rest @ ..] = v {
            v = rest;
        }
        while let [rest @ .., b' ' | b'\t'] = v {
            v = rest;
        }
        rs.headers.push((name, v.to_vec()));
    }
    Ok(rs)
}

pub fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}

/// send over a fresh connection
pub async fn tcp(addr: SocketAddr, rq: &Rq) -> Out {
    let mut c = Conn::open(addr).await.map_err(|e| Fail::Transport(e.to_string()))?;
    c.send(rq).await
}

/// a connection with HTTP/2, on which requests may be sent side by side
#[derive(Clone)]
pub struct H2 {
    send: hyper::client::conn::http2::SendRequest<Body>,
}

struct Spawn;
impl<F> hyper::rt::Executor<F> for Spawn
where
    F: std::future::Future + Send + 'static,
    F::Output: Send + 'static,
{
    fn execute(&self, f: F) {
        tokio::spawn(f);
    }
}

impl H2 {
    pub async fn open(addr: SocketAddr) -> Result<Self, String> {
        let s = TcpStream::connect(addr).await.map_err(|e| e.to_string())?;
        let _ = s.set_nodelay(true);
        let (send, conn) = hyper::client::conn::http2::handshake::<_, _, Body>(Spawn, s).await.map_err(|e| e.to_string())?;
        tokio::spawn(async move {
            let _ = conn.await;
        });
        Ok(Self { send })
    }
    /// whether HTTP/2 can carry the request
    pub fn can(rq: &Rq) -> bool {
        rq.target.starts_with('/') && rq.headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case("host")).count() == 1
    }
    pub async fn call(&self, rq: &Rq) -> Out {
        let host = rq.get("host").ok_or_else(|| Fail::Unbuildable("no host".into()))?;
        let mut b = hyper::Request::builder().method(rq.method.as_str()).uri(format!("http://{host}{}", rq.target));
        for (n, v) in &rq.headers {
            let n = n.to_ascii_lowercase();
            // the authority has its place, and the transport has its own framing
            if !["host", "connection", "keep-alive", "transfer-encoding"].contains(&n.as_str()) {
                b = b.header(n, v.as_slice());
            }
        }
        let req = b.body(make_body(rq)).map_err(|e| Fail::Unbuildable(e.to_string()))?;
        let mut send = self.send.clone();
        let head = rq.method == "HEAD";
        let work = async move {
            let resp = send.send_request(req).await.map_err(|e| Fail::Transport(e.to_string()))?;
            if head {
                let (parts, _body) = resp.into_parts();
                return Ok(Rs {
                    status: parts.status.as_u16(),
                    headers: parts.headers.iter().map(|(n, v)| (n.as_str().to_owned(), v.as_bytes().to_vec())).collect(),
                    ..Rs::default()
                });
            }
            Ok(read_response(resp).await)
        };
        let limit = if rq.end == End::Hang { Duration::from_millis(60) } else { WATCHDOG };
        match tokio::time::timeout(limit, work).await {
            Ok(o) => o,
            Err(_) => Err(Fail::Hang),
        }
    }
}

/// send with HTTP/2
pub async fn h2(addr: SocketAddr, rq: &Rq) -> Out {
    let c = H2::open(addr).await.map_err(Fail::Transport)?;
    c.call(rq).await
}
