"""A loopback HTTP server that answers by script and records what arrives on the wire."""
import gzip
import select
import socket
import struct
import threading

REASONS = {200: 'OK', 301: 'Moved', 302: 'Found', 404: 'Not Found'}


class Reply(object):
    """status, headers and body, or raw bytes; fault: None, 'reset', 'close', 'cut'."""

    def __init__(self, status=200, headers=(), body=b'', raw=None, fault=None, length=True, hook=None):
        self.status, self.headers, self.body, self.raw = status, list(headers), body, raw
        self.fault, self.length, self.hook = fault, length, hook
        self.interim = b''

    def render(self, gz):
        if self.raw is not None:
            return self.raw
        body = self.body
        headers = list(self.headers)
        if gz and body:
            body = gzip.compress(body)
            headers.append(('Content-Encoding', 'gzip'))
        if self.length:
            headers.append(('Content-Length', str(len(body))))
        headers.append(('Connection', 'close'))
        head = 'HTTP/1.1 %d %s\r\n' % (self.status, REASONS.get(self.status, 'Whatever'))
        # any white space, or none, may follow the colon
        head += ''.join('%s:%s%s\r\n' % (k, ['', ' ', ' ', ' ', '  ', ' \t'][(len(k) + len(v)) % 6], v) for k, v in headers) + '\r\n'
        if self.status in (204, 304):
            body = b''
        return head.encode('utf-8') + body


class Request(object):
    def __init__(self, port, method, target, headers, body):
        self.port, self.method, self.target, self.headers, self.body = port, method, target, headers, body

    def get(self, name):
        return [v for k, v in self.headers if k.lower() == name.lower()]


class Server(object):
    """The last port does not speak HTTP: it says something and hangs up."""

    def __init__(self, ports=3):
        self.socks = []
        self.script = {}             # (port index, target) -> Reply
        self.log = []
        self.gzip = False
        for i in range(ports):
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(('127.0.0.1', 0))
            s.listen(64)
            self.socks.append(s)
        self.ports = [s.getsockname()[1] for s in self.socks]
        dead = socket.socket()
        dead.bind(('127.0.0.1', 0))
        self.dead = dead             # bound, not listening: connections are refused
        self.dead_port = dead.getsockname()[1]
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def base(self, i=0):
        return 'http://127.0.0.1:%d' % self.ports[i]

    def reset(self):
        self.script = {}
        self.log = []
        self.gzip = False

    def loop(self):
        while True:
            try:
                ready, _, _ = select.select(self.socks, [], [])
            except (OSError, ValueError):
                return
            for s in ready:
                try:
                    conn, _ = s.accept()
                except OSError:
                    continue
                threading.Thread(target=self.serve, args=(conn, self.socks.index(s)), daemon=True).start()

    def serve(self, conn, index):
        try:
            conn.settimeout(20)
            if index == len(self.socks) - 1:
                conn.sendall(b'220 no web here\r\n')
                return
            data = b''
            while b'\r\n\r\n' not in data:
                chunk = conn.recv(65536)
                if not chunk:
                    return
                data += chunk
            head, _, body = data.partition(b'\r\n\r\n')
            lines = head.decode('latin-1').split('\r\n')
            parts = lines[0].split(' ')
            headers = [tuple(x.strip() for x in h.split(':', 1)) if ':' in h else (h, '') for h in lines[1:]]
            length = 0
            for k, v in headers:
                if k.lower() == 'content-length':
                    length = int(v)
                if k.lower() == 'expect' and '100' in v:
                    conn.sendall(b'HTTP/1.1 100 Continue\r\n\r\n')
            while len(body) < length:
                chunk = conn.recv(65536)
                if not chunk:
                    break
                body += chunk
            req = Request(index, parts[0], parts[1] if len(parts) > 1 else '', headers, body)
            self.log.append(req)
            reply = self.script.get((index, req.target))
            if reply is None:
                reply = Reply(404, body=b'nothing at ' + req.target.encode('latin-1'))
            if reply.hook is not None:
                reply.hook()
            if reply.fault == 'close':
                return
            if reply.fault == 'reset':
                conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                return
            out = reply.render(self.gzip and any('gzip' in v for v in req.get('accept-encoding')))
            if reply.fault == 'cut':
                out = out[:max(1, len(out) // 2)]
            conn.sendall(reply.interim + out)
            conn.shutdown(socket.SHUT_WR)
        except (OSError, ValueError):
            pass
        finally:
            conn.close()

    def close(self):
        for s in self.socks + [self.dead]:
            s.close()
