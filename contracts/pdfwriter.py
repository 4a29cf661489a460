"""Writes small PDF files (an independent writer for the concrete probes)."""
import zlib


def up_rows(data, n):
    """PNG predictor 2 (Up) on rows of n bytes"""
    out, prev = b'', bytes(n)
    for k in range(0, len(data), n):
        r = data[k:k + n]
        out += b'\x02' + bytes((a - b) % 256 for a, b in zip(r, prev))
        prev = r
    return out


class Writer:
    def __init__(self, header=b'%PDF-1.5\n'):
        self.buf = bytearray(header)

    def pos(self):
        return len(self.buf)

    def add(self, objid, gen, body, nl=b'\n'):
        p = self.pos()
        self.buf += b'%d %d obj' % (objid, gen) + nl + body + nl + b'endobj' + nl
        return p

    @staticmethod
    def stream(attrs, data, nl=b'\n', length=True):
        return b'<< %s %s>>' % (attrs, b'/Length %d ' % len(data) if length else b'') + nl.join([b'', b'stream', b'']).replace(b'\r', b'\r\n' if nl == b'\r' else b'\r') + data + nl + b'endstream'

    @staticmethod
    def ranges(ids, joined=True):
        out = []
        for i in sorted(ids):
            if out and joined and out[-1][0] + out[-1][1] == i:
                out[-1][1] += 1
            else:
                out.append([i, 1])
        return out

    def table(self, entries, trailer, eol=b' \n', nl=b'\n', joined=True):
        """entries: {objid: ('n', offset, gen) | ('f', next, gen)}"""
        p = self.pos()
        self.buf += b'xref' + nl
        for s, n in self.ranges(entries, joined):
            self.buf += b'%d %d' % (s, n) + nl
            for i in range(s, s + n):
                k, a, b = entries[i]
                self.buf += b'%010d %05d %s' % (a, b, k.encode()) + eol
        self.buf += b'trailer' + nl + b'<< ' + trailer + b' >>' + nl
        return p

    def xrefstream(self, objid, entries, attrs, W=None, joined=True, coding='none', nl=b'\n', self_entry=False):
        """entries: as above, or ('c', object stream, index)"""
        p = self.pos()
        if self_entry:
            entries = dict(entries)
            entries[objid] = ('n', p, 0)
        rows = {i: ({'f': 0, 'n': 1, 'c': 2}[k], a, b) for i, (k, a, b) in entries.items()}
        need = [max([((r[j].bit_length() + 7) // 8) for r in rows.values()] + [0]) for j in range(3)]
        if W is None:
            W = [max(need[0], 1), max(need[1], 1), need[2]]
        W = [max(w, n, 1) if w or any(r[j] != (1 if j == 0 else 0) for r in rows.values()) else 0 for j, (w, n) in enumerate(zip(W, need))]
        rng = self.ranges(rows, joined)
        data = b''.join(b''.join(rows[i][j].to_bytes(W[j], 'big') for j in range(3) if W[j]) for s, n in rng for i in range(s, s + n))
        n = sum(W)
        extra = b''
        if coding == 'flate':
            data, extra = zlib.compress(data), b'/Filter /FlateDecode'
        if coding == 'png' and n:
            data, extra = zlib.compress(up_rows(data, n)), b'/Filter /FlateDecode /DecodeParms << /Predictor 12 /Columns %d >>' % n
        size = max(list(rows) + [0]) + 1
        index = b'' if rng == [[0, size]] else b'/Index [%s] ' % b' '.join(b'%d %d' % (s, k) for s, k in rng)
        self.add(objid, 0, self.stream(b'/Type /XRef /Size %d /W [%d %d %d] %s%s %s' % (size, *W, index, extra, attrs), data), nl)
        return p

    def finish(self, start, nl=b'\n'):
        self.buf += b'startxref' + nl + b'%d' % start + nl + b'%%EOF' + nl
        return bytes(self.buf)
