"""A small S3-compatible server on the loopback interface: buckets, objects, ranges, V2 signatures, injected faults."""
import base64, hashlib, hmac, json, socket, struct, threading, zlib
from http.server import BaseHTTPRequestHandler, HTTPServer
from socketserver import ThreadingMixIn

LOGIN, SECRET = "user", "secret-key"


class Server(ThreadingMixIn, HTTPServer):
    daemon_threads = True
    request_queue_size = 64

    def __init__(self):
        super().__init__(("127.0.0.1", 0), Handler)
        self.lock = threading.Lock()
        self.reset()
        threading.Thread(target=self.serve_forever, kwargs={"poll_interval": 0.5}, daemon=True).start()

    def handle_error(self, request, client_address):
        pass

    def reset(self):
        self.buckets = {}       # bucket -> {object -> bytes}
        self.fault = None       # [methods, nth, kind, arg, persistent]
        self.seen = 0
        self.fired = 0
        self.lost = {}          # (bucket, object) -> last faulty method
        self.bad = []           # requests a real server would refuse
        self.requests = {}

    @property
    def port(self):
        return self.server_address[1]


class Handler(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    disable_nagle_algorithm = True
    timeout = 60

    def log_message(self, *a):
        pass

    def reply(self, code, body=b"", cut=None, length=None):
        reason = {200: "OK", 204: "No Content", 206: "Partial Content"}.get(code, "Error")
        n = len(body) if length is None else length
        h = "HTTP/1.1 %d %s\r\nContent-Length: %d\r\n\r\n" % (code, reason, n)
        data = h.encode() + (body if cut is None else body[:cut])
        self.wfile.write(data)
        if cut is not None and cut < len(body):
            self.drop()

    def drop(self):
        self.close_connection = True
        try:
            self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass

    def control(self, s):
        cmd = self.path[6:].split("/")
        with s.lock:
            if cmd[0] == "fault":
                s.fault = [cmd[1].split("+"), int(cmd[2]), cmd[3], int(cmd[4]), cmd[5] == "1"]
                s.seen = s.fired = 0
                r = {}
            elif cmd[0] == "off":
                s.fault = None
                r = {"fired": s.fired}
            else:
                r = {"objects": {b: {k: [len(v), '%08x' % zlib.crc32(v)] for k, v in o.items()} for b, o in s.buckets.items()},
                     "lost": ["%s/%s" % k for k in s.lost], "bad": s.bad, "requests": s.requests}
                s.lost = {}
        self.reply(200, json.dumps(r).encode())

    def check(self, body):
        """the request must be one that a server accepts"""
        t = "%s\n\n%s\n%s\n%s" % (self.command, self.headers.get("Content-Type", ""), self.headers.get("Date", ""), self.path)
        want = "AWS %s:%s" % (LOGIN, base64.b64encode(hmac.new(SECRET.encode(), t.encode(), hashlib.sha1).digest()).decode())
        if self.headers.get("Authorization") != want:
            return "bad signature of %s %s" % (self.command, self.path)
        if not self.headers.get("Date"):
            return "no date"
        if self.command == "PUT" and self.headers.get("Content-Length") is None:
            return "no content length"
        return None

    def handle_any(self):
        s = self.server
        if self.path.startswith("/_ctl/"):
            return self.control(s)
        n = int(self.headers.get("Content-Length") or 0)
        f = None
        with s.lock:
            if s.fault and (self.command in s.fault[0]):
                i = s.seen
                s.seen += 1
                if i == s.fault[1] or (s.fault[4] and i > s.fault[1]):
                    f = s.fault
                    s.fired += 1
        parts = self.path.strip("/").split("/")
        key = (parts[0], parts[1] if len(parts) > 1 else "")
        if f and f[2] == "reset":
            with s.lock:
                s.lost[key] = self.command
            return self.drop()
        if f and f[2] == "half":          # read a part of the request
            self.rfile.read(n // 2)
            with s.lock:
                s.lost[key] = self.command
            return self.drop()
        body = self.rfile.read(n) if n else b""
        with s.lock:
            s.requests[self.command] = s.requests.get(self.command, 0) + 1
            if len(body) != n:
                return self.drop()
            e = self.check(body)
            if e:
                s.bad.append(e)
                return self.reply(403, b"SignatureDoesNotMatch")
            if f:
                s.lost[key] = self.command
                if f[2] == "status":
                    return self.reply(f[3], b"<Error>injected</Error>")
            code, data = self.execute(s, key, body)
            if code >= 400 and not f:
                s.bad.append("%s %s answered %d" % (self.command, self.path, code))
        if f and f[2] == "after":
            return self.drop()
        if f and f[2] == "trunc" and len(data) > 1:
            return self.reply(code, data, cut=f[3] % len(data))
        if f and f[2] == "short" and len(data) > 1:
            return self.reply(code, data[:f[3] % len(data)])
        if f and f[2] == "whole" and code == 206:
            return self.reply(200, s.buckets[key[0]][key[1]])
        self.reply(code, data)

    def execute(self, s, key, body):
        b, o = key
        if o == "":
            if self.command == "PUT":
                s.buckets.setdefault(b, {})
                return 200, b""
            if self.command == "DELETE":
                if b not in s.buckets:
                    return 404, b"NoSuchBucket"
                if s.buckets[b]:
                    return 409, b"BucketNotEmpty"
                del s.buckets[b]
                return 204, b""
            return 405, b""
        if b not in s.buckets:
            return 404, b"NoSuchBucket"
        if self.command == "PUT":
            s.buckets[b][o] = body
            return 200, b""
        if self.command == "DELETE":
            s.buckets[b].pop(o, None)
            return 204, b""
        if o not in s.buckets[b]:
            return 404, b"NoSuchKey"
        data = s.buckets[b][o]
        rng = self.headers.get("Range")
        if rng:
            a, z = rng.split("=")[1].split("-")
            a, z = int(a), int(z)
            if a >= len(data):
                return 416, b"InvalidRange"
            return 206, data[a:z + 1]
        return 200, data

    do_GET = do_PUT = do_DELETE = do_POST = do_HEAD = handle_any
