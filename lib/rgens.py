"""What misbehaving peers send: behaviours of RobustGen filled in with bytes."""
import random, struct
import iscsi as I, cdb as C, tlc, target as T
T0, T1 = T.TGT, 'iqn.2026-01.verif:t1'
OPS = [0, 3, 4, 8, 0x0a, 0x12, 0x15, 0x16, 0x17, 0x1a, 0x1b, 0x1d, 0x1e, 0x25, 0x28, 0x2a, 0x2e, 0x2f, 0x34, 0x35, 0x41, 0x42, 0x55, 0x56, 0x57, 0x5a, 0x5e,
       0x5f, 0x83, 0x84, 0x85, 0x88, 0x89, 0x8a, 0x8b, 0x8e, 0x8f, 0x90, 0x91, 0x93, 0x9e, 0x9f, 0xa0, 0xa3, 0xa4, 0xa8, 0xaa, 0xae, 0xaf]
LUNS = [b'\0' * 8] * 8 + [bytes([0, k]) + b'\0' * 6 for k in (2, 3, 255)] + [bytes([0x40, 0, 0, 0, 0, 0, 0, 0]), bytes([0x40, 2] + [0] * 6), bytes([0x7f, 0xff] + [0] * 6),
        bytes([0x80] + [0] * 7), bytes([0xc1, 1] + [0] * 6), b'\xff' * 8, bytes([0, 0, 0, 2, 0, 0, 0, 0])]


def rint(rng, bits):
    r = rng.random()
    top = (1 << bits) - 1
    if r < 0.25:
        return rng.choice([0, 1, 2, 3, top, top - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1])
    if r < 0.6:
        return rng.randrange(min(top + 1, 200))
    return rng.randrange(top + 1)


def valid_cdb(rng):
    n = rng.choice([0, 1, 1, 2, 8, 64])
    k = rng.choice(['read', 'write', 'wverify', 'verify', 'wsame', 'orwrite', 'sync', 'prefetch'])
    size = rng.choice(sorted(C.OPS[k]))
    lba = rng.choice([0, 1, 60, 63, 64, 65, rint(rng, 20)])
    return rng.choice([C.rw(k, size, lba, n, rng.choice([0, 0, 2, 8, 0x10, 0x20, 0xff])), C.inquiry(rint(rng, 8), rng.random() < 0.5, rng.randrange(256)),
                       C.mode_sense6(rng.randrange(64), rng.randrange(256), rng.randrange(256)), C.mode_sense10(rng.randrange(64), 0, rint(rng, 16)),
                       C.report_luns(rint(rng, 12)), C.readcap16(rint(rng, 8)), C.rsoc(rng.randrange(8), rng.randrange(256), alloc=rint(rng, 10)),
                       C.request_sense(rng.randrange(256)), C.unmap(rint(rng, 10)), C.pr_in(rng.randrange(32), rint(rng, 10)),
                       C.pr_out(rng.randrange(32), rng.randrange(16), rng.randrange(16), rint(rng, 6)), C.start_stop(bool(rng.randrange(2)), bool(rng.randrange(2))),
                       C.reserve6(), C.release6(), C.prevent(rng.randrange(4)), bytes([0x15, 0x11, 0, 0, rng.randrange(40), 0])])


def random_cdb(rng):
    op = rng.choice(OPS) if rng.random() < 0.8 else rng.randrange(256)
    b = bytearray(rng.randrange(256) for _ in range(16))
    b[0] = op
    if rng.random() < 0.5:
        for i in range(1, 16):
            if rng.random() < 0.7:
                b[i] = 0
    return bytes(b)


def params(rng):
    """CDBs with a parameter list, the list damaged."""
    k = rng.choice(['unmap', 'pr', 'select', 'wsame', 'verify', 'orwrite'])
    if k == 'unmap':
        d = bytearray(C.unmap_data([(rng.choice([0, 1, 60, 63, 64, 1 << 40]), rng.choice([0, 1, 4, 64, 0xffffffff])) for _ in range(rng.randrange(0, 18))]))
        c = C.unmap(len(d))
    elif k == 'pr':
        d = bytearray(C.pr_out_data(rint(rng, 64), rint(rng, 64), rng.randrange(2), rng.randrange(2), rng.randrange(2)) + bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 4, 24, 100]))))
        c = C.pr_out(rng.randrange(9), rng.randrange(9), rng.choice([0, 0, 1, 2]), len(d))
    elif k == 'select':
        d = bytearray(rng.randrange(256) for _ in range(rng.randrange(64)))
        c = bytes([0x15, 0x10, 0, 0, len(d), 0]) if rng.random() < 0.5 else struct.pack('>BBBBBBBHB', 0x55, 0x10, 0, 0, 0, 0, 0, len(d), 0)
    else:
        n = rng.choice([1, 2, 5])
        d = bytearray(512 * n)
        size = rng.choice(sorted(C.OPS[k]))
        c = C.rw(k, size, rng.choice([0, 62, 63, 64]), n, 2 if k == 'verify' else 0)
    r = rng.random()
    if r < 0.3 and d:
        d = d[:rng.randrange(len(d))]
    elif r < 0.6 and d:
        for _ in range(rng.randrange(1, 5)):
            d[rng.randrange(len(d))] = rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)])
    elif r < 0.7:
        d += bytes(rng.randrange(40))
    if rng.random() < 0.3:
        c = bytearray(c)
        i = rng.randrange(1, len(c))
        c[i] = rng.choice([0, 1, 0x7f, 0xff, rng.randrange(256)])
        c = bytes(c)
    return c, bytes(d)


def mutate(rng, b, keep=()):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        i = rng.randrange(min(48, len(b)))
        if i in keep or i in (5, 6):
            continue
        b[i] = rng.choice([0, 1, 2, 0x7f, 0x80, 0xff, b[i] ^ 1 << rng.randrange(8), rng.randrange(256)])
        if i == 4:
            b[i] &= 0x1f
    return bytes(b)


class Fill:
    def __init__(self, rng):
        self.rng = rng
        self.n = 0x1000
        self.last = {}

    def itt(self, c):
        self.n += 1
        if self.rng.random() < 0.1 and c in self.last:
            return self.last[c]
        self.last[c] = self.n
        return self.n

    def lun(self):
        return self.rng.choice(LUNS)

    def cmd(self, c, cdb, data=b'', edtl=None, imm=None):
        rng = self.rng
        e = edtl if edtl is not None else rng.choice([0, len(data), len(data), 512, 4096, rng.randrange(70000), 1 << 20])
        fl = rng.choice(['w', 'w', 'r', 'r', 'n', 'b']) if edtl is None else 'w' if data else 'r'
        return I.scsi_cmd(cdb[:16], self.itt(c), 0, 0, self.lun(), e, read=fl in 'rb', write=fl in 'wb', final=rng.random() < 0.9,
                          imm=rng.random() < 0.2, data=data if imm is None else data[:imm], attr=rng.randrange(8), ahs=b'\0' * rng.choice([0, 0, 0, 0, 4, 8, 100]))

    def login_pdu(self, c):
        rng = self.rng
        name = ('InitiatorName', 'iqn.2026-01.verif:' + c)
        kv = [name, ('SessionType', rng.choice(['Normal', 'Normal', 'Discovery', 'x', ''])), ('TargetName', rng.choice([T0, T0, T1, 'iqn.none', '', 'x' * 300]))]
        for _ in range(rng.choice([0, 1, 3, 8])):
            kv.append((rng.choice(['AuthMethod', 'HeaderDigest', 'DataDigest', 'MaxConnections', 'MaxBurstLength', 'FirstBurstLength', 'MaxRecvDataSegmentLength', 'ErrorRecoveryLevel',
                                   'InitialR2T', 'ImmediateData', 'DefaultTime2Wait', 'OFMarker', 'X-foo', 'SendTargets', 'TargetAlias', '', 'MaxOutstandingR2T', 'InitiatorAlias']),
                       rng.choice(['None', 'CRC32C', 'CRC32C,None', 'Yes', 'No', '0', '1', '512', '-1', '99999999999999999999', '0x', '0xffffffffff', '', 'a' * 5000, '=', ',', 'CHAP', '0x200', '\xff'])))
        rng.shuffle(kv)
        if rng.random() < 0.2:
            kv = [k for k in kv if rng.random() < 0.6]
        d = I.kvtext(kv)
        if rng.random() < 0.2:
            d = d[:rng.randrange(len(d) + 1)]
        if rng.random() < 0.1:
            d = bytes(rng.randrange(256) for _ in range(rng.choice([1, 10, 500, 9000])))
        if rng.random() < 0.1:
            d = d.replace(b'\0', b'', 1) + b'novalue\0=\0\0'
        b = I.login(rng.choice([0, 1, 1, 1, 2, 3]), rng.choice([0, 1, 3, 3, 3, 2]), rng.random() < 0.7, d, isid=rng.choice([0x800000000009, 0, (1 << 48) - 1, rng.randrange(1 << 48)]),
                    tsih=rng.choice([0, 0, 0, 1, 0xffff, rng.randrange(65536)]), cont=rng.random() < 0.15, ver=rng.choice([0, 0, 0, 1, 255]), cid=rng.choice([0, 0, 7]))
        return mutate(rng, b, ()) if rng.random() < 0.2 else b

    def make(self, c, kind, phase):
        """Steps of one act."""
        rng = self.rng
        sn = {'sn': rng.choice([0, 0, 0, 0, 0, 0, 1, 2, -1, 127, 128, 200, 1 << 31, -5])}
        ok = {'sn': 0}
        if phase == 'tcp' and kind in ('mutate', 'mutate-cdb', 'params', 'order', 'text', 'flood', 'valid', 'random-cdb'):
            kind = 'login' if rng.random() < 0.8 else kind
        S = lambda b, o=None: ['send', c, b.hex()] + ([o] if o else [])
        if kind == 'login':
            return [S(self.login_pdu(c)) for _ in range(rng.choice([1, 1, 2, 4]))]
        if kind == 'mutate':
            b = rng.choice([self.cmd(c, valid_cdb(rng)), I.nop_out(self.itt(c), 0, 0, b'x' * rng.randrange(40)), I.tmf(rng.randrange(1, 9), self.itt(c), 0x1000, 0),
                            I.text(self.itt(c), 0, [('SendTargets', 'All')]), I.data_out(self.itt(c), 0xffffffff, 0, 0, bytes(rng.randrange(100)), True)])
            return [S(mutate(rng, b, range(8, 16)), sn if rng.random() < 0.7 else None)]
        if kind == 'random-cdb':
            d = bytes(rng.choice([0, 0, 10, 24, 512, 1024]))
            return [S(self.cmd(c, random_cdb(rng), d), ok if rng.random() < 0.8 else sn) for _ in range(rng.choice([1, 2, 5]))]
        if kind == 'mutate-cdb':
            b = bytearray(valid_cdb(rng))
            for _ in range(rng.randrange(1, 4)):
                b[rng.randrange(len(b))] = rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)])
            return [S(self.cmd(c, bytes(b), bytes(rng.choice([0, 0, 24, 512, 4096]))), ok)]
        if kind == 'params':
            cd, d = params(rng)
            e = rng.choice([len(d), len(d), len(d), len(d) + 1, max(0, len(d) - 1), 0, len(d) + 512])
            b = self.cmd(c, cd, d[:8192], e, rng.choice([None, None, 0, 1, 5, len(d) // 2]))
            r = [S(b, ok)]
            if rng.random() < 0.7:
                r.append(S(I.data_out(self.last.get(c, 0), 0xffffffff, 0, 0, d[:8192], True), {'ttt': True}))
            return r
        if kind == 'dataout':
            r = []
            e = rng.choice([512, 1024, 4096, 100, 70000, 300000])
            itt = self.itt(c)
            if rng.random() < 0.8:
                r.append(S(I.scsi_cmd(C.rw('write', 10, rng.choice([0, 63, 64]), rng.choice([1, e // 512, 8])), itt, 0, 0, 0, e, write=True,
                                      data=bytes(rng.choice([0, 0, 100, min(512, e)]))), ok))
            else:
                itt ^= 0x5000000
            for k in range(rng.choice([1, 1, 2, 4])):
                off = rng.choice([0, 0, 100, 512, e - 1, e, e + 1, 1 << 20, 0xffffffff, 0x7fffffff, 0x80000000])
                n = rng.choice([0, 1, 100, 512, 512, e, e + 512, 65536])
                r.append(S(I.data_out(itt, rng.choice([0xffffffff, 0, itt]), k if rng.random() < 0.8 else rng.randrange(1000), off, bytes(min(n, 300000)),
                                      rng.random() < 0.6, self.lun()), {'ttt': rng.random() < 0.8}))
            return r
        if kind == 'order':
            out = [S(self.cmd(c, valid_cdb(rng)), {'sn': k}) for k in rng.sample([0, 1, 2, 3, 5, 8, 60, 126, 127, 128, 129, -1, -2], rng.randrange(1, 6))]
            return out
        if kind == 'tmf':
            return [S(I.tmf(rng.choice([0, 1, 1, 2, 3, 4, 5, 5, 6, 7, 8, 9, 127]), self.itt(c), rng.choice([0xffffffff, self.last.get(c, 1), 0x1001]), 0, 0, self.lun(), rng.random() < 0.6,
                            rint(rng, 32)), sn) for _ in range(rng.choice([1, 3]))]
        if kind == 'text':
            d = rng.choice([I.kvtext([('SendTargets', rng.choice(['All', '', T0, 'x' * 3000, '\0']))]), b'', b'\0' * 20, b'SendTargets', b'SendTargets=All', b'=\0=\0',
                            bytes(rng.randrange(256) for _ in range(rng.choice([3, 200, 20000])))])
            return [S(I.text(self.itt(c), 0, d, 0, rng.random() < 0.7, rng.random() < 0.3, rng.random() < 0.6, rng.choice([0xffffffff, 0, 1, rint(rng, 32)])), sn)]
        if kind == 'junk':
            b = bytearray(rng.randrange(256) for _ in range(48))
            b[4] &= rng.choice([0, 0, 3, 0xff])
            b[5] = 0
            b[6] &= rng.choice([0, 1, 0x3f])
            if rng.random() < 0.5:
                b[0] = rng.choice([0x02, 0x06, 0x10, 0x1c, 0x1d, 0x1e, 0x1f, 0x3f, 0x20, 0x21, 0x23, 0x25, 0x31, 0x43, 0x07, 0x0a])
            if b[0] & 0x3f in (1, 6) and rng.random() < 0.6:
                b[0] = 0x10
            b[8:16] = self.lun()
            n = b[4] * 4 + (int.from_bytes(b[5:8], 'big') + 3 & ~3)
            return [S(bytes(b) + bytes(rng.randrange(256) for _ in range(n)), sn if rng.random() < 0.5 else None)]
        if kind == 'nop':
            b = I.nop_out(rng.choice([0xffffffff, self.itt(c)]), 0, rint(rng, 32), bytes(rng.choice([0, 1, 5, 100, 8192, 70000])), rng.random() < 0.6, rng.choice([0xffffffff, 0, 77]))
            return [S(b, sn)]
        if kind == 'flood':
            one = lambda: I.scsi_cmd(C.rw('read', 10, 0, 64), self.itt(c), 0, 0, 0, 32768, read=True, imm=rng.random() < 0.5)
            return [S(one(), ok) for _ in range(rng.choice([5, 20]))]
        return [S(self.cmd(c, valid_cdb(rng)), ok)]


def scenarios(rng, num, depth):
    res = []
    for hist in tlc.simulate('RobustGen', 'RobustGen1.cfg', num, depth + 5, rng.randrange(1 << 30))[:num]:
        f = Fill(rng)
        st = []
        ph = {}
        for h in hist:
            c, k = h['c'], h['k']
            if k == 'victim':
                v = rng.choice('vw')
                st.append(['victim', v, 'w', rng.randrange(16), rng.randrange(1 << 24)] if rng.random() < 0.6 else ['victim', v, 'r', rng.randrange(8), rng.randrange(1, 8)])
            elif k == 'open':
                ph[c] = h['ph']
                keys = [] if rng.random() < 0.6 else [['MaxRecvDataSegmentLength', rng.choice(['512', '1024', '65536'])], ['MaxBurstLength', rng.choice(['512', '4096', '262144'])],
                                                     ['ImmediateData', rng.choice(['Yes', 'No'])]]
                st.append(['open', c, h['ph'], {'keys': keys, 'noread': rng.random() < 0.08}])
            elif k == 'probe':
                st.append(['probe', c])
                if rng.random() < 0.1:
                    st.append(['listing'])
            elif k == 'drop':
                st.append(['drop', c, rng.choice(['close', 'close', 'rst', 'shut'])])
            elif k in ('cut', 'part'):
                acts = f.make(c, rng.choice(['mutate', 'params', 'dataout', 'valid', 'text', 'login', 'nop']), ph.get(c, 'tcp'))
                b = bytes.fromhex(acts[0][2])
                n = rng.choice([1, 4, 20, 47, 48, 49, max(1, len(b) - 1), rng.randrange(1, len(b) + 1)])
                st += acts[1:][:0]
                st.append(['part', c, b.hex(), n])
                if k == 'cut':
                    st.append(['drop', c, rng.choice(['close', 'rst', 'shut'])])
            else:
                st += f.make(c, k, ph.get(c, 'tcp'))
        res.append({'steps': st})
    return res
