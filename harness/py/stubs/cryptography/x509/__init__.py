"""certificates of this world: the DER is a JSON text naming subject, key and end of validity, or DER of a certificate with a common name"""
import base64, datetime, json, re, hashlib
def _tlv(b):
    """tag, element, contents, rest"""
    n, h = b[1], 2
    if n & 0x80:
        h += n & 0x7f
        n = int.from_bytes(b[2:h], "big")
    if len(b) < h + n:
        raise ValueError("truncated")
    return b[0], b[:h + n], b[h:h + n], b[h + n:]
def _parse(der):
    t = _tlv(_tlv(der)[2])[2]
    if t[0] == 0xa0:
        t = _tlv(t)[3]
    for _ in range(3):  # serial, algorithm, issuer
        t = _tlv(t)[3]
    _, _, v, t = _tlv(t)
    tag, _, na, _ = _tlv(_tlv(v)[3])
    _, _, subject, t = _tlv(t)
    cn = _tlv(_tlv(_tlv(_tlv(subject)[2])[2])[3])[2].decode()
    na = na.decode() if tag == 0x18 else ("20" if na[:1] < b"5" else "19") + na.decode()
    return {"subject": "CN=" + cn, "key": _tlv(t)[1], "na": datetime.datetime.strptime(na, "%Y%m%d%H%M%SZ").isoformat()}
class _Name:
    def __init__(self, s): self.s = s
    def rfc4514_string(self): return self.s
class _Key:
    def __init__(self, b): self.b = b
    def public_bytes(self, encoding=None, format=None): return self.b
class Certificate:
    def __init__(self, der):
        self.der = der
        d = _parse(der) if der[:1] == b"0" else json.loads(der)
        self.subject, self._key, self._na = _Name(d["subject"]), _Key(d["key"] if isinstance(d["key"], bytes) else d["key"].encode()), d["na"]
    def public_bytes(self, encoding=None): return self.der
    def public_key(self): return self._key
    def fingerprint(self, alg=None): return hashlib.sha256(self.der).digest()
    @property
    def not_valid_after(self): return datetime.datetime.fromisoformat(self._na)
    @property
    def not_valid_after_utc(self): return datetime.datetime.fromisoformat(self._na).replace(tzinfo=datetime.timezone.utc)
def load_der_x509_certificate(data, backend=None):
    try:
        return Certificate(data)
    except Exception as e:
        raise ValueError("cannot parse") from e
def load_pem_x509_certificate(data, backend=None):
    m = re.search(rb"-----BEGIN CERTIFICATE-----(.*?)-----END CERTIFICATE-----", data, re.S)
    if not m:
        raise ValueError("no certificate")
    try:
        der = base64.b64decode(m.group(1))
    except Exception as e:
        raise ValueError("bad base64") from e
    return load_der_x509_certificate(der)
