"""A receiver of the sync protocol (framed thrift, binary), and readers for what it is sent."""
import hashlib, os, socket, struct, subprocess, sys, threading, zlib


def fail(*a):
    print('FAIL', *a)
    sys.exit(1)


class Receiver:
    """answers call number k with the code codes.get(k, 0), or closes the connection for 'drop'"""
    def __init__(self, codes):
        self.codes, self.log, self.raw = codes, [], []
        self.s = socket.create_server(('127.0.0.1', 0))
        self.addr = '127.0.0.1:%d' % self.s.getsockname()[1]
        self.t = threading.Thread(target=self.serve, daemon=True)
        self.t.start()

    def serve(self):
        try:
            c, _ = self.s.accept()
        except OSError:
            return
        k = 0
        f = c.makefile('rb')
        while True:
            h = f.read(4)
            if len(h) < 4:
                return
            b = f.read(struct.unpack('>i', h)[0])
            n = struct.unpack('>i', b[:4])[0]
            if n < 0:                       # strict
                n = struct.unpack('>i', b[4:8])[0]
                name, seq, p = b[8:8 + n], b[8 + n:12 + n], b[12 + n:]
            else:
                name, seq, p = b[4:4 + n], b[5 + n:9 + n], b[9 + n:]
            arg = p[7:7 + struct.unpack('>i', p[3:7])[0]] if p[:1] == b'\x0b' else None
            self.log.append((name.decode(), arg))
            self.raw.append(p)
            code = self.codes.get(k, 0)
            k += 1
            if code == 'drop':
                c.close()
                return
            m = b'message'
            r = b'\x08\x00\x01' + struct.pack('>i', code) + b'\x0b\x00\x02' + struct.pack('>i', len(m)) + m + b'\x00'
            body = struct.pack('>i', len(name)) + name + b'\x02' + seq + b'\x0c\x00\x00' + r + b'\x00'
            c.sendall(struct.pack('>i', len(body)) + body)


def answer(binary, args, stdin=''):
    r = subprocess.run([binary] + args, input=stdin, capture_output=True, text=True, timeout=60)
    l = [x for x in r.stdout.splitlines() if x.startswith('ANSWER ')]
    return l[0][7:] if l else 'panic'


def sync(binary, tmp, codes, series='d1 s1 INT64 PLAIN SNAPPY\n', content=b'some bytes'):
    os.chdir(tmp)
    open('data.tsfile', 'wb').write(content)
    r = Receiver(codes)
    a = answer(binary, ['sync', r.addr, 'data.tsfile', 'root.sg'], series)
    return a, r.log


def who(binary, local, uuid):
    """makes a sender; was one handed out, and what it said of itself"""
    r = Receiver({})
    a = answer(binary, ['who', r.addr, local, uuid])
    d, p = {}, 3
    b = r.raw[0] if r.raw else b'\0' * 4
    while b[p]:
        t, i = struct.unpack_from('>bh', b, p)
        if t == 11:
            n = struct.unpack_from('>i', b, p + 3)[0]
            d[i] = b[p + 7:p + 7 + n].decode()
            p += 7 + n
        else:
            d[i] = struct.unpack_from('>q', b, p + 3)[0]
            p += 11
    return a == 'true', d


CODE = {'INT32': 1, 'INT64': 2, 'FLOAT': 3, 'PLAIN': 0, 'TS2DIFF': 4, 'UNCOMPRESSED': 0, 'SNAPPY': 1}


def plans(b):
    out, p = [], 0
    while p < len(b):
        n = struct.unpack_from('>i', b, p)[0]
        e = b[p + 4:p + 4 + n]
        crc = struct.unpack_from('>q', b, p + 4 + n)[0]
        p += 12 + n
        if len(e) != n or crc != zlib.crc32(e):
            fail('an entry of the log has a wrong length or checksum')
        q = 0
        while q < n:
            k, m = e[q], struct.unpack_from('>i', e, q + 1)[0]
            path = e[q + 5:q + 5 + m]
            q += 5 + m
            if k == 3:
                out.append(('sg', path.decode()))
                q += 8
            elif k == 4:
                out.append(('ts', path.decode(), e[q], e[q + 1], e[q + 2]))
                if e[q + 3:q + 23] != struct.pack('>q', -1) + b'\0' * 12:
                    fail('a plan ends with', e[q + 3:q + 23])
                q += 23
            else:
                fail('unknown plan', k)
    return out


def checklog(binary, sg, series):
    a = answer(binary, ['mlog', sg], ''.join(' '.join(s) + '\n' for s in series))
    try:
        got = plans(bytes.fromhex(a))
    except (ValueError, struct.error, IndexError, UnicodeDecodeError) as e:
        fail('the log cannot be read:', e)
    want = {('ts', '%s.%s.%s' % (sg, s[0], s[1]), CODE[s[2]], CODE[s[3]], CODE[s[4]]) for s in series}
    if got[:1] != [('sg', sg)] or len(got) != len(want) + 1 or set(got[1:]) != want:
        fail('plans', got[:4], len(got))
    return got
