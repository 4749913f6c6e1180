"""A small SSH client in plain Python, enough to talk to the example daemon byte by byte."""
import hashlib, os, socket, struct, subprocess, sys, time

# ---- x25519
P = 2**255 - 19
def x25519(k, u):
    k = bytearray(k); k[0] &= 248; k[31] &= 127; k[31] |= 64
    k = int.from_bytes(k, 'little'); u = int.from_bytes(u, 'little') & ((1 << 255) - 1)
    x1, x2, z2, x3, z3, sw = u, 1, 0, u, 1, 0
    for t in range(254, -1, -1):
        b = (k >> t) & 1
        if sw ^ b: x2, x3, z2, z3 = x3, x2, z3, z2
        sw = b
        a = x2 + z2; aa = a*a % P; bb_ = x2 - z2; bb = bb_*bb_ % P; e = aa - bb
        c = x3 + z3; d = x3 - z3; da = d*a % P; cb = c*bb_ % P
        x3 = (da+cb)**2 % P; z3 = x1*(da-cb)**2 % P
        x2 = aa*bb % P; z2 = e*(aa + 121665*e) % P
    if sw: x2, z2 = x3, z3
    return (x2 * pow(z2, P-2, P) % P).to_bytes(32, 'little')

# ---- ed25519
L = 2**252 + 27742317777372353535851937790883648493
D = -121665 * pow(121666, P-2, P) % P
def _add(p, q):
    a = (p[1]-p[0])*(q[1]-q[0]) % P; b = (p[1]+p[0])*(q[1]+q[0]) % P
    c = 2*p[3]*q[3]*D % P; d = 2*p[2]*q[2] % P
    e, f, g, h = b-a, d-c, d+c, b+a
    return (e*f % P, g*h % P, f*g % P, e*h % P)
def _mul(s, p):
    q = (0, 1, 1, 0)
    while s:
        if s & 1: q = _add(q, p)
        p = _add(p, p); s >>= 1
    return q
_gy = 4 * pow(5, P-2, P) % P
_x2 = (_gy*_gy-1) * pow(D*_gy*_gy+1, P-2, P) % P
_gx = pow(_x2, (P+3)//8, P)
if (_gx*_gx - _x2) % P: _gx = _gx * pow(2, (P-1)//4, P) % P
if _gx & 1: _gx = P - _gx
G = (_gx, _gy, 1, _gx*_gy % P)
def _enc(p):
    z = pow(p[2], P-2, P); x = p[0]*z % P; y = p[1]*z % P
    return (y | ((x & 1) << 255)).to_bytes(32, 'little')
class Ed:
    def __init__(self, seed):
        h = bytearray(hashlib.sha512(seed).digest())
        self.pre = bytes(h[32:]); h[0] &= 248; h[31] &= 63; h[31] |= 64
        self.a = int.from_bytes(h[:32], 'little'); self.pub = _enc(_mul(self.a, G))
    def sign(self, m):
        r = int.from_bytes(hashlib.sha512(self.pre + m).digest(), 'little') % L
        R = _enc(_mul(r, G))
        k = int.from_bytes(hashlib.sha512(R + self.pub + m).digest(), 'little') % L
        return R + ((r + k*self.a) % L).to_bytes(32, 'little')

# ---- P-256 verification
p2 = 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff
n2 = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
b2 = 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
G2 = (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
      0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)
def eadd(p, q):
    if p is None: return q
    if q is None: return p
    if p[0] == q[0]:
        if (p[1] + q[1]) % p2 == 0: return None
        l = (3*p[0]*p[0] - 3) * pow(2*p[1], -1, p2) % p2
    else:
        l = (q[1]-p[1]) * pow(q[0]-p[0], -1, p2) % p2
    x = (l*l - p[0] - q[0]) % p2
    return (x, (l*(p[0]-x) - p[1]) % p2)
def emul(k, p):
    r = None
    while k:
        if k & 1: r = eadd(r, p)
        p = eadd(p, p); k >>= 1
    return r
def ecdsa_ok(q, m, r, s):
    if not (0 < r < n2 and 0 < s < n2): return False
    e = int.from_bytes(hashlib.sha256(m).digest(), 'big')
    w = pow(s, -1, n2)
    x = eadd(emul(e*w % n2, G2), emul(r*w % n2, q))
    return x is not None and x[0] % n2 == r

# ---- chacha20-poly1305@openssh.com
M = 0xffffffff
def _block(key, ctr, nonce):
    s = list(struct.unpack('<4I', b'expand 32-byte k')) + list(struct.unpack('<8I', key)) + [ctr & M, ctr >> 32] + list(struct.unpack('<2I', nonce))
    x = s[:]
    def q(a, b, c, d):
        x[a] = (x[a]+x[b]) & M; t = x[d]^x[a]; x[d] = (t << 16 | t >> 16) & M
        x[c] = (x[c]+x[d]) & M; t = x[b]^x[c]; x[b] = (t << 12 | t >> 20) & M
        x[a] = (x[a]+x[b]) & M; t = x[d]^x[a]; x[d] = (t << 8 | t >> 24) & M
        x[c] = (x[c]+x[d]) & M; t = x[b]^x[c]; x[b] = (t << 7 | t >> 25) & M
    for _ in range(10):
        q(0,4,8,12); q(1,5,9,13); q(2,6,10,14); q(3,7,11,15)
        q(0,5,10,15); q(1,6,11,12); q(2,7,8,13); q(3,4,9,14)
    return struct.pack('<16I', *[(a+b) & M for a, b in zip(x, s)])
def chacha(key, ctr, seq, data):
    nonce = struct.pack('>Q', seq); out = b''
    ks = b''.join(_block(key, ctr + i, nonce) for i in range((len(data) + 63)//64))
    return bytes(a ^ b for a, b in zip(data, ks))
def poly(key, msg):
    r = int.from_bytes(key[:16], 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = int.from_bytes(key[16:32], 'little'); a = 0
    for i in range(0, len(msg), 16):
        a = (a + int.from_bytes(msg[i:i+16] + b'\1', 'little')) * r % (2**130 - 5)
    return ((a + s) & (2**128 - 1)).to_bytes(16, 'little')

def s(b): return struct.pack('>I', len(b)) + b
def u32(n): return struct.pack('>I', n)
def mpint(b):
    b = b.lstrip(b'\0')
    if b and b[0] & 128: b = b'\0' + b
    return s(b)
class R:
    def __init__(self, b): self.b = b
    def take(self, n):
        if len(self.b) < n: raise ValueError('short message')
        r, self.b = self.b[:n], self.b[n:]; return r
    def u8(self): return self.take(1)[0]
    def u32(self): return struct.unpack('>I', self.take(4))[0]
    def s(self): return self.take(self.u32())

class Closed(Exception): pass
KEY = Ed(b'demo key'.ljust(32))

class Ssh:
    def __init__(self, port=2222, timeout=20, ident=b'SSH-2.0-demo'):
        self.k = socket.create_connection(('127.0.0.1', port)); self.k.settimeout(timeout)
        self.k.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.ident = ident; self.enc = self.dec = None; self.out = self.inn = 0; self.buf = b''; self.pad = None
    def raw(self, b): self.k.sendall(b)
    def rd(self, n):
        while len(self.buf) < n:
            d = self.k.recv(65536)
            if not d: raise Closed()
            self.buf += d
        r, self.buf = self.buf[:n], self.buf[n:]; return r
    def frame(self, p, pad=None):
        if self.enc is None:
            n = pad or (-(5 + len(p)) % 8); n = n if n >= 4 else n + 8
            self.out += 1
            return u32(1 + len(p) + n) + bytes([n]) + p + bytes(n)
        n = pad or (-(1 + len(p)) % 8); n = n if n >= 4 else n + 8
        body = bytes([n]) + p + bytes(n)
        c = chacha(self.enc[32:], 0, self.out, u32(len(body))) + chacha(self.enc[:32], 1, self.out, body)
        c += poly(_block(self.enc[:32], 0, struct.pack('>Q', self.out))[:32], c)
        self.out += 1
        return c
    def send(self, p, pad=None): self.raw(self.frame(p, pad))
    def recv(self):
        if self.dec is None:
            n = struct.unpack('>I', self.rd(4))[0]; b = self.rd(n); self.inn += 1
            return b[1:n - b[0]]
        l = self.rd(4); n = struct.unpack('>I', chacha(self.dec[32:], 0, self.inn, l))[0]
        if n > 70000: raise ValueError('bad length: out of step')
        b = self.rd(n); t = self.rd(16)
        if poly(_block(self.dec[:32], 0, struct.pack('>Q', self.inn))[:32], l + b) != t: raise ValueError('bad tag')
        b = chacha(self.dec[:32], 1, self.inn, b); self.inn += 1
        return b[1:n - b[0]]
    def kexinit(self, kex=b'curve25519-sha256', host=b'ecdsa-sha2-nistp256', ciph=b'chacha20-poly1305@openssh.com', comp=b'none', follows=0):
        return b'\x14' + bytes(range(16)) + s(kex) + s(host) + s(ciph)*2 + s(b'hmac-sha2-256')*2 + s(comp)*2 + s(b'')*2 + bytes([follows]) + u32(0)
    def kex(self, init=None, guess=None, before=b'', check=True):
        self.raw(before + self.ident + b'\r\n')
        line = b''
        while not line.endswith(b'\r\n'): line += self.rd(1)
        self.sident = line[:-2]
        ic = init or self.kexinit(); self.send(ic)
        isv = self.recv(); assert isv[0] == 20
        if guess: self.send(guess)
        sec = os.urandom(32); pub = x25519(sec, (9).to_bytes(32, 'little'))
        self.send(b'\x1e' + s(pub))
        r = R(self.recv()); assert r.u8() == 31
        hk, sp, sig = r.s(), r.s(), r.s()
        k = mpint(x25519(sec, sp))
        h = hashlib.sha256(s(self.ident) + s(self.sident) + s(ic) + s(isv) + s(hk) + s(pub) + s(sp) + k).digest()
        self.sid = h
        if check:
            q = R(hk); assert q.s() == b'ecdsa-sha2-nistp256' and q.s() == b'nistp256'; pt = q.s()
            g = R(sig); assert g.s() == b'ecdsa-sha2-nistp256'; g = R(g.s())
            a, b = int.from_bytes(g.s(), 'big'), int.from_bytes(g.s(), 'big')
            assert ecdsa_ok((int.from_bytes(pt[1:33], 'big'), int.from_bytes(pt[33:], 'big')), h, a, b), 'host signature'
        assert self.recv() == b'\x15'; self.send(b'\x15')
        def key(c):
            a = hashlib.sha256(k + h + c + h).digest(); return a + hashlib.sha256(k + h + a).digest()
        self.enc, self.dec = key(b'C'), key(b'D')
        return self
    def service(self):
        self.send(b'\x05' + s(b'ssh-userauth')); assert self.recv() == b'\x06' + s(b'ssh-userauth'); return self
    def auth_body(self, user=b'u', method=b'publickey', service=b'ssh-connection'):
        return b'\x32' + s(user) + s(service) + s(method)
    def signed(self, user=b'u', key=KEY, service=b'ssh-connection', sid=None):
        b = self.auth_body(user, service=service) + b'\1' + s(b'ssh-ed25519') + s(s(b'ssh-ed25519') + s(key.pub))
        return b, key.sign(s(sid or self.sid) + b)
    def login(self, user=b'u'):
        self.service(); b, g = self.signed(user)
        self.send(b + s(s(b'ssh-ed25519') + s(g))); r = self.recv(); assert r == b'\x34', r
        return self
    def open(self, ch=0):
        self.send(b'\x5a' + s(b'session') + u32(ch) + u32(1 << 30) + u32(32768))
        r = R(self.recv()); assert r.u8() == 91 and r.u32() == ch; return r.u32()
    def exec(self, ch, cmd, want=True): self.send(b'\x62' + u32(ch) + s(b'exec') + bytes([want]) + s(cmd))
    def data(self, ch, d): self.send(b'\x5e' + u32(ch) + s(d))
    def eof(self, ch): self.send(b'\x60' + u32(ch))
    def close(self, ch): self.send(b'\x61' + u32(ch))
    def collect(self, ch=0):
        """Everything of one channel until it closes: (stdout, stderr, exit status, other message numbers in order)."""
        o = e = b''; st = None; seen = []
        while True:
            m = R(self.recv()); t = m.u8(); assert m.u32() == ch, 'other channel'
            seen.append(t)
            if t == 94: o += m.s()
            elif t == 95: assert m.u32() == 1; e += m.s()
            elif t == 98:
                if m.s() == b'exit-status': m.u8(); st = m.u32()
            elif t == 97: return o, e, st, seen

def run(cmd, data=b'', **kw):
    c = Ssh(**kw).kex(check=False).login(); ch = c.open(); c.exec(ch, cmd)
    if data: c.data(ch, data)
    c.eof(ch); return c.collect()

class Daemon:
    """The daemon of the tree in the current directory, ended when done."""
    def __enter__(self):
        p = os.path.join(os.getcwd(), 'target/debug/nora_sshd')
        self.p = subprocess.Popen([p], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for _ in range(200):
            try: socket.create_connection(('127.0.0.1', 2222)).close(); break
            except OSError: time.sleep(.05)
        return self
    def alive(self): return self.p.poll() is None
    def __exit__(self, *a): self.p.kill(); self.p.wait()
