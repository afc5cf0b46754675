"""CDB builders (SBC/SPC)."""
import struct

OPS = {'read': {6: 0x08, 10: 0x28, 12: 0xa8, 16: 0x88},
       'write': {6: 0x0a, 10: 0x2a, 12: 0xaa, 16: 0x8a},
       'wverify': {10: 0x2e, 12: 0xae, 16: 0x8e},
       'verify': {10: 0x2f, 12: 0xaf, 16: 0x8f},
       'wsame': {10: 0x41, 16: 0x93},
       'orwrite': {16: 0x8b},
       'sync': {10: 0x35, 16: 0x91},
       'prefetch': {10: 0x34, 16: 0x90}}


def rw(op, size, lba, n, b1=0, ctrl=0):
    o = OPS[op][size]
    if size == 6:
        return bytes([o, (lba >> 16) & 0x1f, (lba >> 8) & 255, lba & 255, n & 255, ctrl])
    if size == 10:
        return struct.pack('>BBIBHB', o, b1, lba, 0, n, ctrl)
    if size == 12:
        return struct.pack('>BBIIBB', o, b1, lba, n, 0, ctrl)
    return struct.pack('>BBQIBB', o, b1, lba, n, 0, ctrl)


FUA, DPO, BYTCHK = 0x08, 0x10, 0x02


def inquiry(alloc=96, evpd=False, page=0):
    return struct.pack('>BBBHB', 0x12, 1 if evpd else 0, page, alloc, 0)


def tur():
    return bytes(6)


def request_sense(alloc=252):
    return bytes([3, 0, 0, 0, alloc, 0])


def report_luns(alloc=4096, sel=0):
    return struct.pack('>BBBBBBIBB', 0xa0, 0, sel, 0, 0, 0, alloc, 0, 0)


def readcap10():
    return bytes([0x25]) + bytes(9)


def readcap16(alloc=32):
    return struct.pack('>BBQIBB', 0x9e, 0x10, 0, alloc, 0, 0)


def mode_sense6(page=0x3f, sub=0, alloc=255, dbd=False, pc=0):
    return bytes([0x1a, 8 if dbd else 0, pc << 6 | page, sub, alloc, 0])


def mode_sense10(page=0x3f, sub=0, alloc=1024, dbd=False, pc=0):
    return struct.pack('>BBBBBBBHB', 0x5a, 8 if dbd else 0, pc << 6 | page, sub, 0, 0, 0, alloc, 0)


def rsoc(opts=0, op=0, sa=0, alloc=4096, rctd=False):
    return struct.pack('>BBBBHIBB', 0xa3, 0x0c, (0x80 if rctd else 0) | opts, op, sa, alloc, 0, 0)


def reserve6(b1=0, ident=0, n=0):
    return bytes([0x16, b1, ident, n >> 8, n & 255, 0])


def release6(b1=0, ident=0, n=0):
    return bytes([0x17, b1, ident, n >> 8, n & 255, 0])


def start_stop(start=True, loej=False, pc=0, immed=False):
    return bytes([0x1b, 1 if immed else 0, 0, 0, pc << 4 | (2 if loej else 0) | (1 if start else 0), 0])


def prevent(p=0):
    return bytes([0x1e, 0, 0, 0, p, 0])


def format_unit():
    return bytes([4, 0, 0, 0, 0, 0])


def unmap(plen, anchor=False):
    return struct.pack('>BBIBHB', 0x42, 1 if anchor else 0, 0, 0, plen, 0)


def unmap_data(ranges):
    d = b''.join(struct.pack('>QII', l, n, 0) for l, n in ranges)
    return struct.pack('>HHI', len(d) + 6, len(d), 0) + d


def pr_in(sa, alloc=1024):
    return struct.pack('>BBBBBBBHB', 0x5e, sa, 0, 0, 0, 0, 0, alloc, 0)


def pr_out(sa, typ=0, scope=0, plen=24):
    return struct.pack('>BBBBBIB', 0x5f, sa, scope << 4 | typ, 0, 0, plen, 0)


def pr_out_data(key=0, sakey=0, aptpl=0, spec_i_pt=0, all_tg_pt=0):
    return struct.pack('>QQIBBH', key, sakey, 0, spec_i_pt << 3 | all_tg_pt << 2 | aptpl, 0, 0)
