"""What the demonstrations share: the server under test in a scratch directory, plain requests, signatures."""
import datetime, hashlib, hmac, http.client, os, resource, shutil, signal, socket, subprocess, sys, tempfile, time, urllib.parse

AK, SK = "AKIAEXAMPLE", "secretkeyexample"


class Server:
    def __init__(self, auth=False, env=None, fsize=None, files=None, root=None):
        self.scratch = tempfile.mkdtemp(prefix="s3demo-")
        self.root = root or os.path.join(self.scratch, "root")
        os.makedirs(self.root, exist_ok=True)
        self.auth, self.env, self.fsize, self.files = auth, env, fsize, files
        self.proc = None
        self.start()

    def start(self):
        for _ in range(20):
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
            s.close()
            cmd = [os.path.join(os.getcwd(), "target/debug/s3-server"), "--fs-root", self.root, "--host", "127.0.0.1", "--port", str(self.port)]
            if self.auth:
                cmd += ["--access-key", AK, "--secret-key", SK]

            def limits():
                if self.fsize is not None:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (self.fsize, self.fsize))
                if self.files is not None:
                    resource.setrlimit(resource.RLIMIT_NOFILE, (self.files, self.files))

            env = dict(os.environ, RUST_LOG="off", **(self.env or {}))
            self.proc = subprocess.Popen(cmd, cwd=self.scratch, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=limits)
            for _ in range(200):
                if self.proc.poll() is not None:
                    break
                try:
                    socket.create_connection(("127.0.0.1", self.port), 1).close()
                    return
                except OSError:
                    time.sleep(0.05)
            self.kill()
        sys.exit("cannot start the server")

    def kill(self):
        if self.proc.poll() is None:
            self.proc.kill()
        self.proc.wait()

    def close(self):
        self.kill()
        shutil.rmtree(self.scratch, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def req(self, method, path, body=b"", headers=None, timeout=30):
        """path is sent as given (already encoded, with the query)"""
        c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=timeout)
        try:
            c.putrequest(method, path, skip_accept_encoding=True)
            for k, v in (headers or {}).items():
                c.putheader(k, v)
            if body or method in ("PUT", "POST"):
                c.putheader("content-length", str(len(body)))
            c.endheaders(body if body else None)
            r = c.getresponse()
            data = r.read()
            return r.status, {k.lower(): v for k, v in r.getheaders()}, data
        finally:
            c.close()

    def signed(self, method, path, body=b"", headers=None, **kw):
        h = sign(self.port, method, path, body, headers or {}, **kw)
        return self.req(method, path, body, h)

    def raw(self, pieces, pause=0.05, timeout=30):
        """send pieces of bytes one by one, return the whole answer"""
        s = socket.create_connection(("127.0.0.1", self.port), timeout)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        out = b""
        try:
            for i, p in enumerate(pieces):
                if i:
                    time.sleep(pause)
                s.sendall(p)
            while True:
                b = s.recv(65536)
                if not b:
                    break
                out += b
        except OSError:
            pass
        s.close()
        return out


def now():
    return datetime.datetime.now(datetime.timezone.utc)


def enc(s, slash=False):
    return urllib.parse.quote(s, safe="-_.~" + ("" if slash else "/"))


def hm(k, s):
    return hmac.new(k, s.encode(), hashlib.sha256).digest()


def signing_key(date, sk=SK, region="us-east-1"):
    return hm(hm(hm(hm(b"AWS4" + sk.encode(), date), region), "s3"), "aws4_request")


def canonical_query(query):
    pairs = urllib.parse.parse_qsl(query, keep_blank_values=True)
    return "&".join(f"{k}={v}" for k, v in sorted((enc(k, True), enc(v, True)) for k, v in pairs))


def sign(port, method, path, body=b"", headers=None, payload=None, at=None, region="us-east-1", ak=AK, sk=SK):
    at = at or now()
    stamp, date = at.strftime("%Y%m%dT%H%M%SZ"), at.strftime("%Y%m%d")
    p, _, q = path.partition("?")
    payload = payload or hashlib.sha256(body).hexdigest()
    h = {k.lower(): v for k, v in (headers or {}).items()}
    h.update({"host": f"127.0.0.1:{port}", "x-amz-date": stamp, "x-amz-content-sha256": payload})
    names = ";".join(sorted(h))
    canonical = "\n".join([method, enc(urllib.parse.unquote(p)), canonical_query(q),
                           "".join(f"{k}:{' '.join(h[k].split())}\n" for k in sorted(h)), names, payload])
    scope = f"{date}/{region}/s3/aws4_request"
    sts = "\n".join(["AWS4-HMAC-SHA256", stamp, scope, hashlib.sha256(canonical.encode()).hexdigest()])
    sig = hmac.new(signing_key(date, sk, region), sts.encode(), hashlib.sha256).hexdigest()
    h["authorization"] = f"AWS4-HMAC-SHA256 Credential={ak}/{scope}, SignedHeaders={names}, Signature={sig}"
    del h["host"]
    h["_sig"], h["_stamp"] = sig, stamp
    return {k: v for k, v in h.items() if not k.startswith("_")} if True else h


def presign(port, method, path, expires=600, at=None, region="us-east-1", ak=AK, sk=SK, extra=None):
    at = at or now()
    stamp, date = at.strftime("%Y%m%dT%H%M%SZ"), at.strftime("%Y%m%d")
    scope = f"{date}/{region}/s3/aws4_request"
    p, _, q = path.partition("?")
    add = {"X-Amz-Algorithm": "AWS4-HMAC-SHA256", "X-Amz-Credential": f"{ak}/{scope}", "X-Amz-Date": stamp,
           "X-Amz-Expires": str(expires), "X-Amz-SignedHeaders": "host", **(extra or {})}
    q2 = "&".join(([q] if q else []) + [f"{k}={enc(v, True)}" for k, v in add.items()])
    canonical = "\n".join([method, enc(urllib.parse.unquote(p)), canonical_query(q2), f"host:127.0.0.1:{port}\n", "host", "UNSIGNED-PAYLOAD"])
    sts = "\n".join(["AWS4-HMAC-SHA256", stamp, scope, hashlib.sha256(canonical.encode()).hexdigest()])
    sig = hmac.new(signing_key(date, sk, region), sts.encode(), hashlib.sha256).hexdigest()
    return f"{p}?{q2}&X-Amz-Signature={sig}"


def chunked(port, path, chunks, headers=None, method="PUT"):
    """an aws-chunked upload: (headers, [encoded chunks], [signatures])"""
    total = sum(map(len, chunks))
    h = {"x-amz-decoded-content-length": str(total), "content-encoding": "aws-chunked", **(headers or {})}
    h = sign(port, method, path, b"", h, payload="STREAMING-AWS4-HMAC-SHA256-PAYLOAD")
    stamp = h["x-amz-date"]
    scope = f"{stamp[:8]}/us-east-1/s3/aws4_request"
    prev = h["authorization"].rpartition("Signature=")[2]
    key, empty, out, sigs = signing_key(stamp[:8]), hashlib.sha256(b"").hexdigest(), [], []
    for c in list(chunks) + [b""]:
        sts = "\n".join(["AWS4-HMAC-SHA256-PAYLOAD", stamp, scope, prev, empty, hashlib.sha256(c).hexdigest()])
        prev = hmac.new(key, sts.encode(), hashlib.sha256).hexdigest()
        sigs.append(prev)
        out.append(b"%x;chunk-signature=%s\r\n%s\r\n" % (len(c), prev.encode(), c))
    return h, out, sigs


def head(method, path, port, headers, length):
    lines = [f"{method} {path} HTTP/1.1", f"host: 127.0.0.1:{port}", f"content-length: {length}", "connection: close"]
    lines += [f"{k}: {v}" for k, v in headers.items()]
    return ("\r\n".join(lines) + "\r\n\r\n").encode()


def expect(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)
