"""Independent reference: hashes, curve arithmetic, encodings and Ergo serialisation (Python stdlib only)."""
import hashlib, hmac

def blake2b256(b):
    return hashlib.blake2b(b, digest_size=32).digest()
def sha256(b):
    return hashlib.sha256(b).digest()
def hmac_sha256(k, m):
    return hmac.new(k, m, hashlib.sha256).digest()

# ---------- secp256k1 ----------
P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)

def _dbl(p):
    if p is None or p[1] == 0: return None
    x, y, z = p
    s = 4 * x * y * y % P
    m = 3 * x * x % P
    x3 = (m * m - 2 * s) % P
    y3 = (m * (s - x3) - 8 * pow(y, 4, P)) % P
    return (x3, y3, 2 * y * z % P)
def _add(p, q):
    if p is None: return q
    if q is None: return p
    x1, y1, z1 = p; x2, y2, z2 = q
    z1s, z2s = z1 * z1 % P, z2 * z2 % P
    u1, u2 = x1 * z2s % P, x2 * z1s % P
    s1, s2 = y1 * z2s * z2 % P, y2 * z1s * z1 % P
    if u1 == u2:
        return _dbl(p) if s1 == s2 else None
    h, r = (u2 - u1) % P, (s2 - s1) % P
    h2 = h * h % P; h3 = h2 * h % P; v = u1 * h2 % P
    x3 = (r * r - h3 - 2 * v) % P
    return (x3, (r * (v - x3) - s1 * h3) % P, h * z1 * z2 % P)
def _aff(p):
    if p is None: return None
    zi = pow(p[2], -1, P); z2 = zi * zi % P
    return (p[0] * z2 % P, p[1] * z2 * zi % P)
def _jmul(p, k):
    k %= N
    r = None
    t = [None, (p[0], p[1], 1)]
    for i in range(2, 16):
        t.append(_add(t[-1], t[1]))
    for i in range(252, -4, -4):
        if r is not None:
            r = _dbl(_dbl(_dbl(_dbl(r))))
        r = _add(r, t[(k >> i) & 15])
    return r
def mul(p, k):
    return _aff(_jmul(p, k))
_GT = None
def gmul(k):
    global _GT
    if _GT is None:
        _GT = []
        b = (G[0], G[1], 1)
        for _ in range(64):
            row = [None, b]
            for i in range(2, 16): row.append(_add(row[-1], b))
            _GT.append(row)
            for _ in range(4): b = _dbl(b)
            a = _aff(b); b = (a[0], a[1], 1)
    k %= N
    r = None
    for i in range(64):
        r = _add(r, _GT[i][(k >> (4 * i)) & 15])
    return _aff(r)
def neg(p):
    return None if p is None else (p[0], (-p[1]) % P)
def padd(a, b):
    ja = None if a is None else (a[0], a[1], 1)
    jb = None if b is None else (b[0], b[1], 1)
    return _aff(_add(ja, jb))
def compress(p):
    return bytes([2 + (p[1] & 1)]) + p[0].to_bytes(32, 'big')

# ---------- key derivation of the emulated device ----------
def _pathbytes(seed, path):
    return seed.to_bytes(8, 'little') + b''.join(i.to_bytes(4, 'little') for i in path)
def priv(seed, path):
    return int.from_bytes(sha256(b'k' + _pathbytes(seed, path)), 'big')
def chain(seed, path):
    return sha256(b'c' + _pathbytes(seed, path))
_pk = {}
def pubkey(seed, path):
    k = (seed, tuple(path))
    if k not in _pk:
        if len(_pk) > 4000: _pk.clear()
        _pk[k] = compress(gmul(priv(seed, path)))
    return _pk[k]
def pubpoint(seed, path):
    return gmul(priv(seed, path))

# ---------- encodings ----------
def vlq(v):
    o = bytearray()
    while True:
        b = v & 0x7f; v >>= 7
        o.append(b | (0x80 if v else 0))
        if not v: return bytes(o)
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
def b58(b):
    n = int.from_bytes(b, 'big'); s = ''
    while n:
        n, r = divmod(n, 58); s = B58[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s
def address(kind, net, payload):
    b = bytes([(kind + net) & 255]) + payload
    return b + blake2b256(b)[:4]
def p2pk_address(net, pk):
    return address(1, net, pk)
def p2sh_address(net, h24):
    return address(2, net, h24)
H = 0x80000000
def path_str(path):
    return '/'.join('%d%s' % (i & 0x7fffffff, "'" if i >= H else '') for i in path)
def erg(v):
    return '%d.%09d ERG' % (v // 10**9, v % 10**9)
def hexid(idb, small=False):
    h = idb.hex().upper(); n = 7 if small else 26
    return h if len(h) <= 2 * n + 3 else h[:n] + '...' + h[-n:]

P2PK_PREFIX = bytes.fromhex('0008cd')
P2SH_PREFIX = bytes.fromhex('00ea02d193b4cbe4e3010e040004300e18')
P2SH_SUFFIX = bytes.fromhex('d40801')
FEE_TREE = bytes.fromhex(
    '1005040004000e36100204a00b08cd0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798'
    'ea02d192a39a8cc7a701730073011001020402d19683030193a38cc7b2a57300000193c2b2a57301007473027303'
    '830108cdeeac93b1a57304')
assert len(FEE_TREE) == 105
def p2pk_tree(pk):
    return P2PK_PREFIX + pk

def box_body(value, tree, height, tokens, regs, idx=False):
    """tokens: [(32-byte id or index, value)]"""
    o = vlq(value) + tree + vlq(height) + bytes([len(tokens)])
    for t, v in tokens:
        o += (vlq(t) if idx else t) + vlq(v)
    return o + (regs if regs else b'\0')
def box_id(body, txid, index):
    return blake2b256(body + txid + vlq(index))

def tx_bytes(inputs, data_inputs, tokens, outputs):
    """inputs [(id, ext)], data_inputs [id], tokens [id], outputs [bytes]"""
    o = vlq(len(inputs))
    for i, ext in inputs:
        o += i + b'\0' + (ext if ext else b'\0')
    o += vlq(len(data_inputs)) + b''.join(data_inputs)
    o += vlq(len(tokens)) + b''.join(tokens)
    return o + vlq(len(outputs)) + b''.join(outputs)

SIG_PREFIX = bytes.fromhex('010027100108cd'); SIG_SUFFIX = bytes.fromhex('73000021')
def sig_commit(sig, pk_point):
    """the commitment w the signature implies"""
    c = int.from_bytes(sig[:24], 'big'); z = int.from_bytes(sig[24:56], 'big')
    return padd(gmul(z), neg(mul(pk_point, c)) if c else None)
def sig_verify(sig, pk_point, msg):
    if len(sig) != 56: return False, None
    z = int.from_bytes(sig[24:56], 'big')
    if z >= N: return False, None
    w = sig_commit(sig, pk_point)
    if w is None: return False, None
    h = blake2b256(SIG_PREFIX + compress(pk_point) + SIG_SUFFIX + compress(w) + msg)
    return h[:24] == sig[:24], compress(w)
