"""The network seam: below the real urllib and http.client, connections to any host go to a simulated server that follows a
script.  A connection's script:
  {'open': 'refuse'|'unreachable'|'dns'|'timeout'|'tls'|'cert'}            it cannot be established
  {'answer': bytes, 'sizes': [n, ...], 'end': [k, 'reset'|'timeout'|'eof'] or None}   the k-th byte of the answer is the last
Name lookup, TCP and TLS are stubs; everything above (HTTP framing, redirects, decoding) is real code."""
import errno
import io
import socket
import ssl


class Raw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        d = self.sock.recv(len(b))
        b[:len(d)] = d
        return len(d)


class FakeSocket:
    def __init__(self, net, script):
        self.net, self.script = net, script
        self.sent, self.pos, self.n, self.closed = b'', 0, 0, False

    def sendall(self, data, *a):
        self.sent += bytes(data)
        if b'\r\n\r\n' in self.sent and self not in self.net.requests:
            self.net.requests.append(self)

    def send(self, data, *a):
        self.sendall(data)
        return len(data)

    def recv(self, n, *a):
        s = self.script
        answer, end = s['answer'], s.get('end')
        stop = len(answer) if not end else min(end[0], len(answer))
        if self.pos >= stop:
            if end and end[0] <= len(answer):
                self.net.fired[end[1]] = self.net.fired.get(end[1], 0) + 1
                if end[1] == 'reset':
                    raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
                if end[1] == 'timeout':
                    raise TimeoutError(errno.ETIMEDOUT, 'Connection timed out')
            return b''
        sizes = s.get('sizes') or [65536]
        m = max(1, min(n, sizes[self.n % len(sizes)], stop - self.pos))
        self.n += 1
        self.pos += m
        self.net.pieces += 1
        return answer[self.pos - m:self.pos]

    def recv_into(self, b, nbytes=0, *a):
        d = self.recv(nbytes or len(b))
        b[:len(d)] = d
        return len(d)

    def makefile(self, mode='r', buffering=None, **kw):
        r = io.BufferedReader(Raw(self), 8192 if buffering in (None, -1) else max(1, buffering))
        return r if 'b' in mode else io.TextIOWrapper(r, **kw)

    def setsockopt(self, *a):
        pass

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return getattr(self, 'timeout', None)

    def getpeername(self):
        return '203.0.113.1', 443

    def fileno(self):
        return -1

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # the parts of an SSLSocket that a client may look at
    def do_handshake(self, *a):
        pass

    def getpeercert(self, *a):
        return {}

    def selected_alpn_protocol(self):
        return None

    def version(self):
        return 'TLSv1.3'

    def unwrap(self):
        return self


class Net:
    """with Net(scripts): each connection follows the next script, the last one is for all further ones"""
    def __init__(self, scripts):
        self.scripts = list(scripts)
        self.connections, self.requests, self.fired, self.pieces = 0, [], {}, 0

    def connect(self, address, *a, **k):
        s = self.scripts[min(self.connections, len(self.scripts) - 1)]
        self.connections += 1
        if self.connections > 200:
            raise RuntimeError('sim: more than 200 connections')
        o = s.get('open')
        if o in ('refuse', 'unreachable', 'dns', 'timeout'):
            self.fired[o] = self.fired.get(o, 0) + 1
            if o == 'dns':
                raise socket.gaierror(socket.EAI_AGAIN, 'Temporary failure in name resolution')
            c = {'refuse': errno.ECONNREFUSED, 'unreachable': errno.ENETUNREACH, 'timeout': errno.ETIMEDOUT}[o]
            raise OSError(c, {'refuse': 'Connection refused', 'unreachable': 'Network is unreachable', 'timeout': 'Connection timed out'}[o])
        return FakeSocket(self, s)

    def wrap(self, context, sock, *a, **k):
        if not isinstance(sock, FakeSocket):
            return self._wrap(context, sock, *a, **k)
        o = sock.script.get('open')
        if o in ('tls', 'cert'):
            self.fired[o] = self.fired.get(o, 0) + 1
            if o == 'cert':
                raise ssl.SSLCertVerificationError(1, 'certificate verify failed')
            raise ssl.SSLError(1, 'tlsv1 alert internal error')
        return sock

    def __enter__(self):
        net = self
        self._saved = socket.create_connection, ssl.SSLContext.wrap_socket
        self._wrap = ssl.SSLContext.wrap_socket
        socket.create_connection = self.connect
        ssl.SSLContext.wrap_socket = lambda ctx, sock, *a, **k: net.wrap(ctx, sock, *a, **k)
        return self

    def __exit__(self, *a):
        socket.create_connection, ssl.SSLContext.wrap_socket = self._saved


def http(body, framing='length', status='200 OK', headers=(), chunks=(1000,), kind='text/plain; charset=UTF-8'):
    """the bytes of an HTTP answer"""
    h = [f'HTTP/1.1 {status}', 'Date: Thu, 19 Nov 2026 12:00:00 GMT', 'Server: Apache', f'Content-Type: {kind}', *headers]
    if framing == 'length':
        return '\r\n'.join(h + [f'Content-Length: {len(body)}', 'Connection: close', '', '']).encode() + body
    out, i, n = '\r\n'.join(h + ['Transfer-Encoding: chunked', 'Connection: close', '', '']).encode(), 0, 0
    while i < len(body):
        c = body[i:i + max(1, chunks[n % len(chunks)])]
        i += len(c)
        n += 1
        out += f'{len(c):x}\r\n'.encode() + c + b'\r\n'
    return out + b'0\r\n\r\n'
