"""Independent minimal SIP message codec used by the simulated peers and the monitors."""
import re
COMPACT = {'v': 'via', 'f': 'from', 't': 'to', 'm': 'contact', 'i': 'call-id', 'e': 'content-encoding', 'l': 'content-length',
           'c': 'content-type', 's': 'subject', 'k': 'supported', 'o': 'event', 'r': 'refer-to', 'b': 'referred-by', 'u': 'allow-events'}

class Msg:
    __slots__ = ('method', 'uri', 'code', 'reason', 'headers', 'body', 'raw')
    def __init__(self):
        self.method = self.uri = self.code = self.reason = self.raw = None
        self.headers = []
        self.body = b''
    @property
    def is_req(self): return self.code is None
    def hs(self, name):
        return [v for n, v in self.headers if n == name]
    def h(self, name, dflt = None):
        for n, v in self.headers:
            if n == name: return v
        return dflt
    def set(self, name, v):
        for i, (n, _) in enumerate(self.headers):
            if n == name:
                self.headers[i] = (n, v); return self
        self.headers.append((name, v)); return self
    def add(self, name, v):
        self.headers.append((name, v)); return self
    def rem(self, name):
        self.headers = [x for x in self.headers if x[0] != name]; return self
    def enc(self, clen = True):
        sl = '%s %s SIP/2.0' % (self.method, self.uri) if self.code is None else 'SIP/2.0 %d %s' % (self.code, self.reason)
        out = [sl]
        for n, v in self.headers:
            if n == 'content-length' and clen: continue
            out.append('%s: %s' % (_canon(n), v))
        if clen:
            out.append('Content-Length: %d' % len(self.body))
        return ('\r\n'.join(out) + '\r\n\r\n').encode('utf-8', 'surrogateescape') + self.body
    # convenience
    @property
    def cseq(self):
        a = self.h('cseq').split()
        return int(a[0]), a[1]
    @property
    def callid(self): return self.h('call-id')
    @property
    def ftag(self): return tagof(self.h('from'))
    @property
    def ttag(self): return tagof(self.h('to'))
    @property
    def vias(self):
        r = []
        for v in self.hs('via'): r += split_commas(v)
        return r
    @property
    def branch(self):
        v = self.vias
        return param(v[0], 'branch') if v else None
    def copy(self):
        m = Msg()
        m.method, m.uri, m.code, m.reason, m.body = self.method, self.uri, self.code, self.reason, self.body
        m.headers = list(self.headers)
        return m
    def key(self):
        return (self.callid, self.cseq, self.branch)

_CAN = {'call-id': 'Call-ID', 'cseq': 'CSeq', 'www-authenticate': 'WWW-Authenticate', 'mime-version': 'MIME-Version'}
def _canon(n):
    return _CAN.get(n) or '-'.join(x.capitalize() for x in n.split('-'))

def parse(data):
    if isinstance(data, str): data = data.encode()
    i = data.find(b'\r\n\r\n')
    if i < 0: raise ValueError('no header end')
    head, body = data[:i].decode('utf-8', 'surrogateescape'), data[i+4:]
    lines = head.split('\r\n')
    j = 1
    while j < len(lines):
        if lines[j][:1] in (' ', '\t') and j > 1:
            lines[j-1] += ' ' + lines[j].strip()
            del lines[j]
        else: j += 1
    m = Msg()
    m.raw = data
    sl = lines[0]
    if sl.startswith('SIP/2.0 '):
        a = sl.split(' ', 2)
        m.code, m.reason = int(a[1]), a[2] if len(a) > 2 else ''
    else:
        m.method, m.uri, ver = sl.split(' ')
        if ver != 'SIP/2.0': raise ValueError('bad version')
    for l in lines[1:]:
        n, v = l.split(':', 1)
        n = n.strip().lower()
        m.headers.append((COMPACT.get(n, n), v.strip()))
    cl = m.h('content-length')
    if cl is not None:
        if int(cl) != len(body): raise ValueError('content-length %s but %d bytes of body' % (cl, len(body)))
    m.body = body
    return m

def split_commas(v):
    out, cur, q, br, esc = [], '', False, 0, False
    for c in v:
        if esc: cur += c; esc = False; continue
        if q and c == '\\': cur += c; esc = True; continue
        if c == '"': q = not q
        if not q and c == '<': br += 1
        if not q and c == '>': br -= 1
        if c == ',' and not q and br == 0:
            out.append(cur.strip()); cur = ''
        else: cur += c
    out.append(cur.strip())
    return [x for x in out if x]

def _strip_na(v):
    """parameters part of a name-addr / addr-spec header value"""
    v2 = re.sub(r'"(?:[^"\\]|\\.)*"', '""', v)
    if '>' in v2:
        return v2[v2.rindex('>')+1:]
    i = v2.find(';')
    return v2[i:] if i >= 0 else ''

def tagof(v):
    return param_s(_strip_na(v), 'tag')

def param_s(s, name):
    for p in s.split(';')[1:]:
        k, _, val = p.partition('=')
        if k.strip().lower() == name: return val.strip()
    return None

def param(v, name):
    return param_s(_strip_na(v), name)

def has_param(v, name):
    return any(p.partition('=')[0].strip().lower() == name for p in _strip_na(v).split(';')[1:])

def uri_of(v):
    m = re.search(r'<([^>]*)>', re.sub(r'"(?:[^"\\]|\\.)*"', '""', v))
    if m: return m.group(1)
    return v.split(';')[0].strip()

def name_of(v):
    v = v.strip()
    m = re.match(r'"((?:[^"\\]|\\.)*)"\s*<', v)
    if m: return re.sub(r'\\(.)', r'\1', m.group(1))
    m = re.match(r'([^<"]*)<', v)
    return m.group(1).strip() if m and m.group(1).strip() else None

def split_uri(u):
    """scheme, user, host, port, params(list), headers"""
    scheme, rest = u.split(':', 1)
    hdrs = None
    user = None
    if '@' in rest:
        user, rest = rest.split('@', 1)
    if '?' in rest:
        rest, hdrs = rest.split('?', 1)
    ps = rest.split(';')
    hp = ps[0]
    if hp.startswith('['):
        host, _, p = hp.partition(']')
        host += ']'
        port = int(p[1:]) if p.startswith(':') else None
    else:
        host, _, p = hp.partition(':')
        port = int(p) if p else None
    return scheme.lower(), user, host, port, ps[1:], hdrs

def uri_addr(u):
    s = split_uri(u)
    return (s[2], s[3] or 5060)

def via_host(v):
    m = re.match(r'\s*SIP\s*/\s*2\.0\s*/\s*\w+\s+([^;]+)', v)
    hp = m.group(1).strip()
    if hp.startswith('['):
        host, _, p = hp.partition(']'); host += ']'
        return host, (int(p[1:]) if p.startswith(':') else None)
    host, _, p = hp.partition(':')
    return host.strip(), int(p) if p else None

def resp_addr(via):
    """where a response to a request with this top Via goes"""
    host, port = via_host(via)
    r = param(via, 'received')
    rp = param(via, 'rport')
    if r: host = r
    if rp and rp.isdigit(): port = int(rp)
    return (host, port or 5060)

def request(method, uri, headers, body = b''):
    m = Msg()
    m.method, m.uri, m.headers, m.body = method, uri, list(headers), body if isinstance(body, bytes) else body.encode()
    return m

def response(req, code, reason = None, totag = None, headers = (), body = b''):
    m = Msg()
    m.code, m.reason = code, reason or REASONS.get(code, 'Reason')
    for n, v in req.headers:
        if n in ('via', 'from', 'call-id', 'cseq', 'record-route'): m.headers.append((n, v))
        elif n == 'to':
            if totag and tagof(v) is None: v = v + ';tag=' + totag
            m.headers.append((n, v))
    m.headers += list(headers)
    m.body = body if isinstance(body, bytes) else body.encode()
    return m

REASONS = {100: 'Trying', 180: 'Ringing', 183: 'Session Progress', 200: 'OK', 202: 'Accepted', 302: 'Moved Temporarily', 400: 'Bad Request', 401: 'Unauthorized', 403: 'Forbidden',
           404: 'Not Found', 407: 'Proxy Authentication Required', 408: 'Request Timeout', 480: 'Temporarily Unavailable', 481: 'Call/Transaction Does Not Exist', 486: 'Busy Here', 487: 'Request Terminated',
           488: 'Not Acceptable Here', 491: 'Request Pending', 500: 'Server Internal Error', 503: 'Service Unavailable', 600: 'Busy Everywhere', 603: 'Decline'}

def mksdp(host, port, ver = 1, sess = 1, codecs = (0, 8, 101), extra = ''):
    rt = {0: 'PCMU/8000', 8: 'PCMA/8000', 18: 'G729/8000', 101: 'telephone-event/8000', 3: 'GSM/8000', 9: 'G722/8000'}
    return ('v=0\r\no=peer %d %d IN IP4 %s\r\ns=-\r\nc=IN IP4 %s\r\nt=0 0\r\nm=audio %d RTP/AVP %s\r\n' % (sess, ver, host, host, port, ' '.join(map(str, codecs)))
            + ''.join('a=rtpmap:%d %s\r\n' % (c, rt[c]) for c in codecs if c in rt) + extra + 'a=sendrecv\r\n').encode()
