"""Character encodings, written from their definitions: (code value -> bytes)."""

ENCS = ['UTF-8', 'EUC-JP', 'Shift_JIS', 'EUC-KR', 'EUC-CN', 'ISO-8859-1']


def enc_char(enc, v):
    """bytes of the character with code value v, None if there is no such character"""
    if v < 0:
        return None
    if enc == 'UTF-8':
        if v > 0x10ffff or 0xd800 <= v <= 0xdfff:
            return None
        return chr(v).encode('utf-8')
    if enc == 'ISO-8859-1':
        return bytes([v]) if v <= 255 else None
    if v <= 0x7f:
        return bytes([v])
    if v > 0xffffff:
        return None
    b = v.to_bytes((v.bit_length() + 7) // 8, 'big')

    def gr(x):
        return 0xa1 <= x <= 0xfe
    if enc == 'Shift_JIS':
        if len(b) == 1:
            return b if 0xa1 <= b[0] <= 0xdf else None
        if len(b) == 2 and (0x81 <= b[0] <= 0x9f or 0xe0 <= b[0] <= 0xfc) and (0x40 <= b[1] <= 0x7e or 0x80 <= b[1] <= 0xfc):
            return b
        return None
    if len(b) == 2 and gr(b[0]) and gr(b[1]):
        return b
    if enc == 'EUC-JP':
        if len(b) == 2 and b[0] == 0x8e and 0xa1 <= b[1] <= 0xdf:
            return b
        if len(b) == 3 and b[0] == 0x8f and gr(b[1]) and gr(b[2]):
            return b
    return None


def encode(enc, vs):
    return b''.join(enc_char(enc, v) for v in vs)


def g_code(s, enc, ascii_ok=True):
    """a character code >= 1 of the encoding, biased to the borders of its width classes"""
    k = s.below(10)
    if k < 4 and ascii_ok:
        return s.choice([0x61, 0x41, 0x7a, 0x5a, 0x30, 0x20, 0x22, 0x5c, 0x62, 0x42, 0x40, 0x60, 0x5b, 0x7b, 0x7f, 0x0a, 0x01, 0x1b, 0x7e, 0x3b]) \
            if s.bool(1, 3) else s.range(0x20, 0x7e)

    def gr():
        return s.choice([0xa1, 0xfe, 0xa2, 0xdf, 0xe0]) if s.bool(1, 4) else s.range(0xa1, 0xfe)
    if enc == 'UTF-8':
        lo, hi = s.choice([(0x80, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff)])
        j = s.below(8)
        return lo if j == 0 else hi if j == 1 else lo + s.below(hi - lo + 1)
    if enc == 'ISO-8859-1':
        return s.choice([0x80, 0xff, 0xa0, 0xc0, 0xe0]) if s.bool(1, 4) else s.range(0x80, 0xff)
    if enc == 'Shift_JIS':
        if s.bool(1, 3):
            return s.range(0xa1, 0xdf)
        lead = s.choice([0x81, 0x9f, 0xe0, 0xfc]) if s.bool(1, 4) else s.choice(list(range(0x81, 0xa0)) + list(range(0xe0, 0xfd)))
        trail = s.choice([0x40, 0x5c, 0x7e, 0x80, 0xfc, 0x61, 0x41, 0xa0, 0xa1]) if s.bool(1, 2) else \
            s.choice(list(range(0x40, 0x7f)) + list(range(0x80, 0xfd)))
        return lead << 8 | trail
    if enc == 'EUC-JP':
        j = s.below(4)
        if j == 0:
            return 0x8e00 | s.range(0xa1, 0xdf)
        if j == 1:
            return 0x8f0000 | gr() << 8 | gr()
    return gr() << 8 | gr()
