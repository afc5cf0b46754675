"""Lives for the gotgt program: behaviours of DaemonGen, and configurations drawn at random."""
import json, random
import tlc
N = 'iqn.2026-01.verif:'
SRC = ['127.0.0.1', '127.0.0.1', '127.0.0.9']
BROKEN = ['cut', 'empty', 'text', 'types', 'devtype', 'portalid', 'negative', 'dir']


class Toks:
    def __init__(self, rng):
        self.rng = rng
        self.t = rng.randrange(1, 1000)

    def __call__(self, n):
        r = []
        for _ in range(n):
            self.t += self.rng.randrange(1, 4)
            r.append(self.t)
        return r


def start_opt(rng, o):
    o = dict(o)
    if o.get('busy'):
        o['busy'] = rng.choice(['iscsi', 'api'])
    o['home'] = rng.random() < 0.3
    o['explicit'] = rng.random() < 0.3
    return o


def dress(rng, conf):
    """the ways one configuration can be written down"""
    conf = json.loads(json.dumps(conf))
    for t in conf['targets']:
        for l in t['luns']:
            if not l['num']:
                l['lun'] = rng.choice(['x', '-1', '1x', '', '0x1', '99999999999999999999'])
    conf = dict(conf, indent=rng.choice([None, None, 4]), terse=rng.random() < 0.3)
    if conf['kind'] == 'broken':
        conf['broken'] = rng.choice(BROKEN)
    return conf


def spec(rng, num, depth):
    res = []
    for hist in tlc.simulate('DaemonGen', 'DaemonGen1.cfg', num, depth + 5, rng.randrange(1 << 30))[:num]:
        toks = Toks(rng)
        st = [['file', 'a', 8704, toks(rng.randrange(0, 18))], ['file', 'b', 8192, toks(rng.randrange(0, 17))]]
        first = None
        for h in hist:
            k = h['k']
            if k == 'conf':
                first = True
                st.append(['conf', dress(rng, h['conf'])])
            elif k == 'start':
                if not first:
                    first = True
                    st.append(['conf', dress(rng, GOOD0)])
                st.append(['start', start_opt(rng, h['opt'])])
            elif k == 'end':
                st.append(['end', h['sig']])
            elif k == 'login':
                st.append(['login', h['c'], h['tgt'], h['addr'], h['src']])
            elif k in ('logout', 'drop', 'luns'):
                st.append([k, h['c']])
            elif k in ('list', 'api'):
                st.append([k])
            elif k == 'disc':
                st.append(['disc', h['addr'], h['src']])
            elif k == 'unit':
                st.append(['unit', h['c'], h['lun']])
            elif k == 'read':
                st.append(['read', h['c'], h['lun'], h['lba'], h['blocks']])
            elif k in ('write', 'sendend'):
                st.append([k, h['c'], h['lun'], h['lba'], toks(h['n'])])
                if k == 'sendend' and rng.random() < 0.4:
                    st += [['stored', 'a'], ['stored', 'b']]
        st += [['end', rng.choice(['kill', 'term'])], ['stored', 'a'], ['stored', 'b']]
        res.append({'steps': st})
    return res


GOOD0 = {'kind': 'json', 'portals': [{'id': '0', 'addr': '127.0.0.1:PORT'}, {'id': '7', 'addr': '127.0.0.2:PORT'}],
         'storages': [{'dev': '1', 'scheme': 'file', 'file': 'a', 'online': True, 'thin': False, 'shift': 9},
                      {'dev': '2', 'scheme': 'file', 'file': 'b', 'online': True, 'thin': True, 'shift': 12}],
         'targets': [{'name': N + 't0', 'groups': [{'n': '1', 'ids': ['0']}, {'n': '2', 'ids': ['7']}],
                      'luns': [{'lun': '0', 'num': True, 'dev': '1'}, {'lun': '5', 'num': True, 'dev': '2'}]},
                     {'name': N + 't1', 'groups': [{'n': '3', 'ids': ['7']}], 'luns': [{'lun': '0', 'num': True, 'dev': '2'}]}]}

FILES = ['a', 'disk one.img', 'b:2.img', 'c.raw', 'd', 'e']


def random_conf(rng, files):
    devs = rng.sample(['0', '1', '2', '7', '1000', '65536', '4294967297', '4294967296', '9007199254740993', '18446744073709551615'], rng.randrange(1, 6))
    st = [{'dev': d, 'scheme': 'file', 'file': rng.choice(files), 'online': rng.random() < 0.8, 'thin': rng.random() < 0.5, 'shift': rng.choice([0, 9, 9, 10, 11, 12])}
          for d in devs]
    ids = rng.sample(['0', '1', '2', '5', '255', '65535'], rng.randrange(1, 4))
    addrs = rng.sample(['127.0.0.1:PORT', '127.0.0.2:PORT', '127.0.0.3:PORT', '127.0.0.1:9', '127.0.0.12:PORT'], len(ids))
    if '127.0.0.1:PORT' not in addrs and rng.random() < 0.8:
        addrs[0] = '127.0.0.1:PORT'
    ports = [{'id': i, 'addr': a} for i, a in zip(ids, addrs)]
    names = rng.sample([N + 't0', N + 't1', N + 't10', N + 'disk.one', N + 't', 'eui.02004567a425678d'], rng.randrange(0 if rng.random() < 0.1 else 1, 5))
    tg = []
    for n in names:
        gs = [{'n': g, 'ids': rng.sample(ids, rng.randrange(1, len(ids) + 1)) if rng.random() < 0.93 else ['77']}
              for g in rng.sample(['1', '2', '3', '257', '65535'], rng.randrange(0 if rng.random() < 0.15 else 1, 3))]
        # (two groups on one portal: which of them a login gets is not determined)
        used = set()
        for g in gs:
            g['ids'] = [i for i in g['ids'] if i not in used]
            used |= set(g['ids'])
        ls = [{'lun': l, 'num': True, 'dev': rng.choice(devs)} for l in rng.sample(['0', '1', '2', '5', '255', '256', '300', '16383'], rng.randrange(0 if rng.random() < 0.1 else 1, 5))]
        tg.append({'name': n, 'groups': gs, 'luns': ls})
    c = {'kind': 'json', 'storages': st, 'portals': ports, 'targets': tg}
    if rng.random() < 0.3:
        c['fault'] = rng.choice(['dup', 'nodev', 'nofile', 'scheme', 'noscheme', 'lun', 'broken', 'absent'])
        f = c['fault']
        if f == 'dup':
            st.append(dict(rng.choice(st), file=rng.choice(files)))
        elif f == 'nodev' and tg:
            rng.choice(tg)['luns'].append({'lun': '33', 'num': True, 'dev': '31337'})
        elif f == 'nofile':
            rng.choice(st)['file'] = 'missing'
        elif f == 'scheme':
            rng.choice(st)['scheme'] = rng.choice(['tape', 'File', 'fil'])
        elif f == 'noscheme':
            rng.choice(st)['scheme'] = ''
        elif f == 'lun' and tg:
            rng.choice(tg)['luns'].append({'lun': rng.choice(['x', '-1', '1x', '', '0x1', '99999999999999999999']), 'num': False, 'dev': rng.choice(devs)})
        elif f == 'broken':
            c['broken'] = rng.choice(BROKEN)
        elif f == 'absent':
            c.update(kind='absent', storages=[], portals=[], targets=[])
    c.pop('fault', None)
    return c


def alter(rng, c, files):
    """the same configuration with one thing changed"""
    import copy
    c = copy.deepcopy(c)
    if c['kind'] != 'json' or c.get('broken') or not c['storages'] or not c['targets']:
        return random_conf(rng, files)
    k = rng.randrange(7)
    if k == 0:
        s = rng.choice(c['storages'])
        s['thin'] = not s['thin']
    elif k == 1:
        s = rng.choice(c['storages'])
        s['online'] = not s['online']
    elif k == 2:
        rng.choice(c['storages'])['shift'] = rng.choice([0, 9, 10, 12])
    elif k == 3:
        rng.choice(c['storages'])['file'] = rng.choice(files)
    elif k == 4:
        t = rng.choice(c['targets'])
        if t['luns']:
            rng.choice(t['luns'])['dev'] = rng.choice(c['storages'])['dev']
    elif k == 5:
        c['targets'].remove(rng.choice(c['targets']))
    else:
        t = rng.choice(c['targets'])
        have = {l['lun'] for l in t['luns']}
        t['luns'].append({'lun': rng.choice([x for x in ('3', '4', '77', '511') if x not in have] or ['888']), 'num': True, 'dev': rng.choice(c['storages'])['dev']})
        have = [l['lun'] for l in t['luns']]
        t['luns'] = [l for k, l in enumerate(t['luns']) if l['lun'] not in have[:k]]
    return c


def life(rng, c, files, sizes, toks):
    st = []
    block = rng.random() < 0.25
    st.append(['start', start_opt(rng, {'block': block, 'busy': rng.random() < 0.04, 'log': rng.choice(['info'] * 8 + ['warn', 'debug', 'panic', 'fatal', 'error', 'trace', 'INFO', '']),
                                        'driver': rng.choice(['iscsi'] * 12 + ['fcoe', 'ISCSI'])})])
    look = [['list'], ['api'], ['disc', rng.choice(['127.0.0.1:PORT', '127.0.0.2:PORT']), rng.choice(SRC)]]
    rng.shuffle(look)
    st += look[:rng.randrange(1, 4)]
    served = c['targets'] if c['kind'] == 'json' else []
    where = {q['id']: q['addr'] for q in c['portals']}
    conns = []
    tries = [t for t in served] + ([rng.choice(served)] if served else [])
    rng.shuffle(tries)
    for t in tries[:4]:
        ways = [where[i] for g in t['groups'] for i in g['ids'] if i in where]
        a = rng.choice(ways) if ways and rng.random() < 0.85 else rng.choice(['127.0.0.1:PORT', '127.0.0.2:PORT', '127.0.0.3:PORT'])
        c1 = 'abcdefgh'[len(conns)]
        conns.append((c1, t))
        st.append(['login', c1, t['name'], a if a.endswith('PORT') else '127.0.0.1:PORT', rng.choice(SRC)])
        if rng.random() < 0.6:
            st.append(['luns', c1])
        for l in t['luns'] + ([{'lun': rng.choice(['0', '3', '256', '9'])}] if rng.random() < 0.4 else []):
            st.append(['unit', c1, l['lun']])
        if rng.random() < 0.15:
            st.append(rng.choice([['list'], ['api']]))
    if not served and rng.random() < 0.7:
        st.append(['login', 'a', N + 't0', '127.0.0.1:PORT', '127.0.0.1'])
    if conns:
        for _ in range(rng.randrange(3, 12)):
            c1, t = rng.choice(conns)
            if not t['luns']:
                continue
            l = rng.choice(t['luns'])
            s = next((x for x in c['storages'] if x['dev'] == l['dev']), None)
            if not s or s['file'] not in sizes:
                continue
            bs = 1 << (s['shift'] or 9)
            m = sizes[s['file']] // bs
            n = rng.randrange(1, 4)
            lba = rng.choice([0, m - n, rng.randrange(m - n + 1)])
            r = rng.random()
            if r < 0.5:
                st.append(['write', c1, l['lun'], lba, toks(n * bs // 512)])
            elif r < 0.9:
                st.append(['read', c1, l['lun'], lba, n])
            elif r < 0.94:
                st.append(['read', c1, l['lun'], m - n + 1, n])
            else:
                st.append([rng.choice(['logout', 'drop']), c1])
        if rng.random() < 0.25:
            st.append(['second', {'busy': rng.choice(['iscsi', 'api', True])}])
            st.append(rng.choice([['list'], ['api']]))
    st += [rng.choice([['list'], ['api']])] if rng.random() < 0.5 else []
    last = [x for x in st if x[0] == 'write']
    if last and rng.random() < 0.25:
        x = rng.choice(last)
        st.append(['sendend', x[1], x[2], x[3], toks(len(x[4]))])
    st.append(['end', rng.choice(['kill', 'kill', 'term', 'int'])])
    return st


def lives(rng, tier):
    toks = Toks(rng)
    files = rng.sample(FILES, rng.randrange(1, 5))
    sizes = {f: rng.choice([32768, 32768 + 512, 65536, 65536 + 4096 + 100, 40000]) for f in files}
    st = [['file', f, sizes[f], toks(rng.randrange(0, 12))] for f in files]
    c = random_conf(rng, files)
    for k in range(rng.randrange(2, 5)):
        if k:
            c = alter(rng, c, files) if rng.random() < 0.75 else random_conf(rng, files)
        st.append(['conf', dict(c, indent=rng.choice([None, 2]), terse=rng.random() < 0.3)])
        st += life(rng, c, files, sizes, toks)
        if rng.random() < 0.3:
            st.append(['stored', rng.choice(files)])
        if rng.random() < 0.1:
            f = rng.choice(files)
            sizes[f] += rng.choice([512, 4096, 5000])
            st.append(['grow', f, sizes[f]])
    st += [['stored', f] for f in files]
    return {'steps': st}
