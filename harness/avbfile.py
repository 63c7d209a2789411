"""Independent reader / builder of the .avb container (header and chunks)."""
import struct


class BadFile(Exception):
    pass


def parse(data):
    """-> dict(bo, head (bytes up to the first chunk), n, root, chunks=[(cid, bytes)])"""
    if data[:8] == b'\x06\x00Domain':
        bo, e = 'little', '<'
    elif data[:8] == b'\x00\x06Domain':
        bo, e = 'big', '>'
    else:
        raise BadFile('magic')
    p = 8

    def take(n):
        nonlocal p
        if p + n > len(data):
            raise BadFile('cut short at %d' % p)
        p += n
        return data[p - n:p]

    def fourcc():
        c = take(4)
        return c[::-1] if bo == 'little' else c

    def num(f, n):
        return struct.unpack(e + f, take(n))[0]

    if fourcc() != b'OBJD':
        raise BadFile('OBJD')
    take(num('H', 2))
    take(1)
    take(num('H', 2))
    n, root = num('I', 4), num('I', 4)
    take(4)
    take(4)
    take(4)
    fourcc(), fourcc()
    take(num('H', 2))
    take(16)
    head = data[:p]
    chunks = []
    while p < len(data):
        c = fourcc()
        k = num('I', 4)
        chunks.append((c.decode('latin1'), take(k)))
    if len(chunks) != n:
        raise BadFile('header says %d chunks, file has %d' % (n, len(chunks)))
    return dict(bo=bo, head=head, n=n, root=root, chunks=chunks)


def text(e, b):
    return struct.pack(e + 'H', len(b)) + b


def header(bo, n, root, when=0, creator=b'verif'):
    e = '<' if bo == 'little' else '>'

    def cc(c):
        return c[::-1] if bo == 'little' else c
    h = (b'\x06\x00' if bo == 'little' else b'\x00\x06') + b'Domain' + cc(b'OBJD') + text(e, b'AObjDoc') + b'\x04'
    h += text(e, b'1970/01/01 00:00:00') + struct.pack(e + 'II', n, root)
    h += struct.pack(e + 'I', 0x49494949 if bo == 'little' else 0x4D4D4D4D)
    h += struct.pack(e + 'II', when, 0) + cc(b'ATob') + cc(b'ATve')
    h += text(e, creator[:30].ljust(30)) + bytes(16)
    return h


def build(bo, chunks, root, **kw):
    """chunks: [(class id, bytes)]"""
    e = '<' if bo == 'little' else '>'
    out = [header(bo, len(chunks), root, **kw)]
    for cid, b in chunks:
        c = cid.encode('latin1')
        out.append((c[::-1] if bo == 'little' else c) + struct.pack(e + 'I', len(b)) + bytes(b))
    return b''.join(out)


def parse_attr(bo, b):
    """{key: (type, value)} of an ATTR chunk"""
    e = '<' if bo == 'little' else '>'
    if b[:2] != b'\x02\x01':
        raise BadFile('ATTR')
    n, = struct.unpack_from(e + 'I', b, 2)
    p, out = 6, {}
    for _ in range(n):
        t, k = struct.unpack_from(e + 'IH', b, p)
        p += 6
        key = b[p:p + k].decode('mac_roman')
        p += k
        if t in (1, 3):
            v, = struct.unpack_from(e + ('i' if t == 1 else 'I'), b, p)
            p += 4
        elif t == 2:
            k, = struct.unpack_from(e + 'H', b, p)
            v = b[p + 2:p + 2 + k]
            p += 2 + k
        else:
            k, = struct.unpack_from(e + 'I', b, p)
            v = b[p + 4:p + 4 + k]
            p += 4 + k
        out[key] = (t, v)
    return out


def attr_bytes(bo, items):
    """ATTR chunk of {key: int}"""
    e = '<' if bo == 'little' else '>'
    b = b'\x02\x01' + struct.pack(e + 'I', len(items))
    for k, v in items.items():
        b += struct.pack(e + 'I', 1) + text(e, k.encode('mac_roman')) + struct.pack(e + 'i', v)
    return b + b'\x03'
