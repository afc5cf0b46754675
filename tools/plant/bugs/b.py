"""Transport, sessions, login, management."""
H = "from lab import *\n"
BUGS = [
 dict(id='c05-window-edge', property='C05',
      needs='a command numbered exactly one beyond the queue depth, taken from the advertised window',
      what='the advertised window is one command larger than what the target accepts',
      edits=[('pkg/port/iscsit/conn.go', 'conn.resp.MaxCmdSN = conn.session.ExpCmdSN + conn.session.MaxQueueCommand',
              'conn.resp.MaxCmdSN = conn.session.ExpCmdSN + conn.session.MaxQueueCommand + 1')],
      py=H + '''
with Lab() as l:
    s = l.sess()
    p = s.ping()
    first, last = s.cmdsn, p['maxcmdsn']
    # the last command of the window comes first, the others follow
    sns = [last] + list(range(first, last))
    for n, sn in enumerate(sns):
        s.c.send(scsi_cmd(cdb.tur(), 1000 + n, sn, s.expstatsn))
    got = set()
    try:
        while len(got) < len(sns):
            got.add(s.c.recv(3)['itt'])
    except (Timeout, Closed):
        pass
    check(len(got) == len(sns), 'every command of the window is answered (%d of %d)' % (len(got), len(sns)))
'''),
 dict(id='c06-r2t-default-burst', property='C06',
      needs='a session that negotiated a smaller MaxBurstLength and a write longer than that',
      what='ready-to-transfer PDUs ask for the default burst length instead of the negotiated one',
      edits=[('pkg/port/iscsit/conn.go', 'if val := conn.loginParam.sessionParam[ISCSI_PARAM_MAX_BURST].Value; task',
              'if val := sessionKeys["MaxBurstLength"].def; task')],
      py=H + '''
with Lab() as l:
    s = l.sess(keys=[('MaxBurstLength', '16384'), ('FirstBurstLength', '4096'), ('ImmediateData', 'No')])
    s.c.send(scsi_cmd(cdb.rw('write', 10, 0, 128), 99, s.cmdsn, s.expstatsn, 0, 65536, write=True))
    p = s.c.recv()
    check(p['t'] == 'r2t' and p['dlen'] <= 16384, 'R2T within the negotiated burst')
'''),
 dict(id='c06-pending-lost', property='C06',
      needs='two writes of a session waiting for data at the same time, the older completed first',
      what='completing a solicited write drops the younger writes that still wait for their data',
      edits=[('pkg/port/iscsit/session.go', '*tq = append(old[:i], old[i+1:]...)', '*tq = old[:i]')],
      py=H + '''
with Lab() as l:
    s = l.sess(keys=[('ImmediateData', 'No')])
    for n, tag in enumerate((21, 22)):
        s.c.send(scsi_cmd(cdb.rw('write', 10, n * 8, 8), tag, s.cmdsn, s.expstatsn, 0, 4096, write=True))
        s.cmdsn += 1
    r = [s.c.recv() for _ in range(2)]
    check([p['t'] for p in r] == ['r2t'] * 2, 'both are asked for data')
    for n, tag in enumerate((21, 22)):
        ttt = [p['ttt'] for p in r if p['itt'] == tag][0]
        s.c.send(data_out(tag, ttt, 0, 0, blk('p%d' % n, 8), True))
        try:
            p = s.c.recv(3)
        except Timeout:
            check(False, 'write %d is answered' % n)
        check(p['itt'] == tag and p['status'] == 0, 'write %d is answered' % n)
    check(l.data(1000, 0, 8192) == blk('p0', 8) + blk('p1', 8), 'both are stored')
'''),
 dict(id='c07-burst-too-long', property='C07',
      needs='a read longer than one burst, i.e. longer than the negotiated MaxBurstLength',
      what='a Data-In burst is one segment longer than negotiated',
      edits=[('pkg/port/iscsit/iscsid.go', 'if count < maxCount {', 'if count <= maxCount {')],
      py=H + '''
with Lab() as l:
    s = l.sess(keys=[('MaxBurstLength', '16384'), ('MaxRecvDataSegmentLength', '4096')])
    s.c.send(scsi_cmd(cdb.rw('read', 10, 0, 128), 99, s.cmdsn, s.expstatsn, 0, 65536, read=True))
    burst = total = 0
    while total < 65536:
        p = s.c.recv()
        burst += len(p['data'])
        total += len(p['data'])
        check(burst <= 16384, 'burst within the negotiated length')
        if p['final']:
            burst = 0
'''),
 dict(id='c08-portal-prefix', property='C08',
      needs='a target whose portal address only begins like the address the initiator connected to',
      what='a normal login through an address that is no portal of the target is accepted',
      edits=[('pkg/port/iscsit/iscsit.go', 'if strings.EqualFold(portal, tgtPortal) {', 'if strings.HasPrefix(portal, tgtPortal) {')],
      py=H + '''
T1 = 'iqn.2026-01.demo:t1'
with Lab(targets={T0: ({'1': [0]}, {'0': 1000}), T1: ({'1': [1]}, {'0': 1000})},
         portals=['127.0.0.1:%d', '127.0.0.2:%d'.replace('%d', '1')]) as l:
    pass
p = freeport()
with Lab(targets={T0: ({'1': [0]}, {'0': 1000}), T1: ({'1': [1]}, {'0': 1000})},
         portals=['127.0.0.1:%d', '127.0.0.1']) as l:
    l.sess().close()
    try:
        l.sess(T1)
        ok = True
    except (LoginError, Closed, Timeout):
        ok = False
    check(not ok, 'a target without such a portal is not reached')
'''),
 dict(id='c09-reinstatement-nexus', property='C09',
      needs='a session reinstated by a login with the same name and ISID and a zero handle',
      what='the replaced session keeps its handle and nexus in the target',
      edits=[('pkg/port/iscsit/session.go', '	s.UnBindISCSISession(existSess)\n	existSess.ConnectionsRWMutex', '	existSess.ConnectionsRWMutex')],
      py=H + '''
with Lab() as l:
    s = l.sess()
    check(s.cmd(cdb.reserve6())['ok'], 'reserve')
    s2 = l.sess()
    check(s.c.wait_closed(5), 'the old connection is closed')
    o = l.sess(isid=0x800000000077)
    check(o.cmd(cdb.tur())['status'] == 0, 'the reservation of the replaced session is gone')
    check(o.cmd(cdb.rw('write', 10, 0, 1), data=blk('o'))['ok'], 'write')
'''),
 dict(id='c09-handle-leak', property='C09',
      needs='about 65000 sessions that have come and gone',
      what='handles of closed sessions are never reused, after 65534 sessions nobody can log in',
      edits=[('pkg/port/iscsit/iscsid.go', '	delete(s.TSIHPool, tsih)\n', '	s.TSIHPool[tsih] = true\n')],
      go=('pkg/port/iscsit', '''package iscsit

import (
	"testing"

	"github.com/gostor/gotgt/pkg/scsi"
)

func TestZZDemo(t *testing.T) {
	d, err := NewISCSITargetDriver(scsi.NewSCSITargetService())
	if err != nil {
		t.Fatal(err)
	}
	s := d.(*ISCSITargetDriver)
	// all handles but some are in use
	for i := uint16(0); i < 65500; i++ {
		s.TSIHPool[i] = true
	}
	for i := 0; i < 100; i++ {
		h := s.AllocTSIH()
		if h == 0 {
			t.Fatalf("no handle left after %d sessions", i)
		}
		s.ReleaseTSIH(h)
	}
}
''')),
 dict(id='c11-release-mismatch', property='C11',
      needs='a PERSISTENT RESERVE OUT release by the holder with another type than the reservation has',
      what='a release naming the wrong type releases the reservation instead of being refused',
      edits=[('pkg/scsi/spc.go', 'if curRes.Scope != resScope || curRes.Type != resType {\n\t\tif', 'if curRes.Scope != resScope && curRes.Type != resType {\n\t\tif')],
      py=H + '''
with Lab() as l:
    s = l.sess()
    check(s.cmd(cdb.pr_out(0), data=cdb.pr_out_data(0, 0xabc))['ok'], 'register')
    check(s.cmd(cdb.pr_out(1, 1), data=cdb.pr_out_data(0xabc))['ok'], 'reserve')
    check(s.cmd(cdb.pr_out(2, 3), data=cdb.pr_out_data(0xabc))['status'] == 2, 'release with another type')
    r = s.cmd(cdb.pr_in(1), read=1024)
    check(int.from_bytes(r['in'][4:8], 'big') == 16, 'the reservation is still there')
'''),
 dict(id='c11-allreg-inherit', property='C11',
      needs='an all-registrants reservation whose recorded holder unregisters while others stay registered',
      what='the type of an all-registrants reservation is lost when its first holder unregisters',
      edits=[('pkg/scsi/scsi_pr.go', '				tmpRes.Type = curRes.Type\n', '				curRes.Type = tmpRes.Type\n')],
      py=H + '''
with Lab() as l:
    s = l.sess()
    o = l.sess(isid=0x800000000077)
    check(s.cmd(cdb.pr_out(0), data=cdb.pr_out_data(0, 0xabc))['ok'], 'register')
    check(o.cmd(cdb.pr_out(0), data=cdb.pr_out_data(0, 0xdef))['ok'], 'register')
    check(s.cmd(cdb.pr_out(1, 7), data=cdb.pr_out_data(0xabc))['ok'], 'reserve')
    check(s.cmd(cdb.pr_out(0), data=cdb.pr_out_data(0xabc, 0))['ok'], 'unregister')
    r = o.cmd(cdb.pr_in(1), read=1024)
    check(int.from_bytes(r['in'][4:8], 'big') == 16 and r['in'][21] == 7, 'the reservation is kept, with its type')
'''),
 dict(id='c12-lun-low-byte', property='C12',
      needs='a LUN above 255, or a LUN field in another addressing form',
      what='only the low byte of the logical unit number selects the device',
      edits=[('pkg/scsi/scsi.go', 'lun := *(*uint64)(unsafe.Pointer(&scmd.Lun))', 'lun := uint64(*(*uint8)(unsafe.Pointer(&scmd.Lun)))')],
      py=H + '''
with Lab() as l:
    s = l.sess()
    r = s.cmd(cdb.rw('read', 10, 0, 1), lun=256, read=512)
    check(r['status'] == 2, 'LUN 256 is not mapped')
'''),
 dict(id='c13-one-portal', property='C13',
      needs='a target with two portals in one portal group',
      what='discovery reports only one portal of each group',
      edits=[('pkg/port/iscsit/iscsid.go', '''								Value: targetPort,
							})
						}
					}
				} else {''', '''								Value: targetPort,
							})
							break
						}
					}
				} else {''')],
      py=H + '''
with Lab(targets={T0: ({'1': [0, 1], '2': [2]}, {'0': 1000})}, portals=['127.0.0.1:%d', '127.0.0.2:%d', '127.0.0.3:%d']) as l:
    d = Sess(l.port)
    d.c.send(text(9, d.cmdsn, [('SendTargets', 'All')], d.expstatsn))
    kv = d.c.recv()['kv']
    check(sorted(kv) == sorted([('TargetName', T0)] + [('TargetAddress', '127.0.0.%d:%d,%d' % (i, l.port, t))
                                                        for i, t in ((1, 1), (2, 1), (3, 2))]), 'all portals: %s' % kv)
'''),
 dict(id='c14-unknown-data-lock', property='C14',
      needs='a Data-Out PDU whose tag no waiting write has, followed by a solicited write',
      what='an unknown Data-Out leaves the pending task lock held, the next solicited write wedges the session',
      edits=[('pkg/port/iscsit/iscsid.go', '''		task := conn.session.PendingTasks.GetByTag(conn.req.TaskTag)
		conn.session.PendingTasksMutex.RUnlock()
		if task == nil {''', '''		task := conn.session.PendingTasks.GetByTag(conn.req.TaskTag)
		if task != nil {
			conn.session.PendingTasksMutex.RUnlock()
		}
		if task == nil {''')],
      py=H + '''
with Lab() as l:
    s = l.sess()
    check(s.cmd(cdb.tur())['ok'], 'unit ready')
    s.c.send(data_out(0x7777, 0xffffffff, 0, 0, b'x' * 512, True))
    try:
        ok = s.cmd(cdb.rw('write', 10, 0, 64), data=blk('w', 64), imm=512, timeout=5)['ok']
    except Timeout:
        ok = False
    except Closed:
        ok = True
    check(ok, 'the session works or is closed')
'''),
 dict(id='c15-tag-truncated', property='C15',
      needs='ABORT TASK for a waiting command whose task tag is above 65535',
      what='only the low half of the referenced task tag is looked at',
      edits=[('pkg/port/iscsit/cmd.go', 'm.ReferencedTaskTag = uint32(ParseUint(data[20:24]))', 'm.ReferencedTaskTag = uint32(ParseUint(data[22:24]))')],
      py=H + '''
with Lab() as l:
    s = l.sess()
    s.c.send(scsi_cmd(cdb.rw('write', 10, 0, 8), 0x12345678, s.cmdsn, s.expstatsn, 0, 4096, write=True))
    s.cmdsn += 1
    check(s.c.recv()['t'] == 'r2t', 'data is asked for')
    s.c.send(tmf(1, 77, 0x12345678, s.cmdsn, s.expstatsn))
    p = s.c.recv()
    check(p['t'] == 'tmf' and p['resp'] == 0, 'the waiting write is aborted')
'''),
 dict(id='c16-host-prefix', property='C16',
      needs='a second host whose address begins with the first one\'s, e.g. 127.0.0.1 and 127.0.0.10',
      what='hosts are compared by prefix, so another host gets in',
      edits=[('pkg/port/iscsit/iscsid.go', 'if s.blockMultipleHostLogin && remoteIP != CurrentHostIP {',
              'if s.blockMultipleHostLogin && (len(remoteIP) < len(CurrentHostIP) || remoteIP[:len(CurrentHostIP)] != CurrentHostIP) {')],
      py=H + '''
with Lab(flags=['--block-multiple-hosts']) as l:
    time.sleep(0.5)
    s = l.sess()
    check(s.cmd(cdb.tur())['ok'], 'the first host is served')
    try:
        o = l.sess(src='127.0.0.10', isid=0x800000000077)
        served = True
    except (Closed, Timeout, LoginError):
        served = False
    check(not served, 'another host is kept out')
    check(s.cmd(cdb.tur())['ok'], 'the first host is still served')
'''),
 dict(id='c17-write12', property='C17',
      needs='statistics enabled and a WRITE(12)',
      what='WRITE(12) commands are missing in the write counters',
      edits=[('pkg/port/iscsit/iscsid.go', 'case api.WRITE_6, api.WRITE_10, api.WRITE_12, api.WRITE_16:\n		s.TargetStats', 'case api.WRITE_6, api.WRITE_10, api.WRITE_16:\n		s.TargetStats')],
      go=('pkg/port/iscsit', '''package iscsit

import (
	"testing"

	"github.com/gostor/gotgt/pkg/scsi"
)

func TestZZDemo(t *testing.T) {
	EnableStats = true
	d, err := NewISCSITargetDriver(scsi.NewSCSITargetService())
	if err != nil {
		t.Fatal(err)
	}
	s := d.(*ISCSITargetDriver)
	for _, op := range []byte{0x0a, 0x2a, 0xaa, 0x8a} {
		s.UpdateStats(&iscsiConnection{resp: &ISCSICommand{SCSIOpCode: op, ExpectedDataLen: 512}})
	}
	if st := s.Stats(); st.WriteIOPS != 4 || st.TotalWriteBlockCount != 2048 {
		t.Fatalf("%+v", st)
	}
}
''')),
 dict(id='c17-snapshot-alias', property='C17',
      needs='a statistics snapshot kept while more commands are served',
      what='a snapshot handed out changes with later commands',
      edits=[('pkg/port/iscsit/iscsid.go', '''	stats.SCSIIOCount = map[int]int64{}
	for key, value := range s.TargetStats.SCSIIOCount {
		stats.SCSIIOCount[key] = value
	}
	s.mu.RUnlock()''', '''	if stats.SCSIIOCount == nil {
		stats.SCSIIOCount = map[int]int64{}
	}
	s.mu.RUnlock()''')],
      go=('pkg/port/iscsit', '''package iscsit

import (
	"testing"

	"github.com/gostor/gotgt/pkg/scsi"
)

func TestZZDemo(t *testing.T) {
	EnableStats = true
	d, err := NewISCSITargetDriver(scsi.NewSCSITargetService())
	if err != nil {
		t.Fatal(err)
	}
	s := d.(*ISCSITargetDriver)
	c := &iscsiConnection{resp: &ISCSICommand{SCSIOpCode: 0x2a, ExpectedDataLen: 512}}
	s.UpdateStats(c)
	st := s.Stats()
	s.UpdateStats(c)
	if st.SCSIIOCount[0x2a] != 1 {
		t.Fatalf("%+v", st)
	}
}
''')),
 dict(id='c20-nop-statsn', property='C20',
      needs='a status sequence number above 65535, from a login that starts high',
      what='status numbers in ping answers lose their upper half',
      edits=[('pkg/port/iscsit/cmd.go', '''		buf.WriteByte(0xff)
	}
	buf.Write(util.MarshalUint64(uint64(m.StatSN))[4:])
	buf.Write(util.MarshalUint64(uint64(m.ExpCmdSN))[4:])
	buf.Write(util.MarshalUint64(uint64(m.MaxCmdSN))[4:])
	for i := 0; i < 3*4; i++ {
		buf.WriteByte(0x00)
	}
	rd := m.RawData
	for len(rd)%4 != 0 {
		rd = append(rd, 0)
	}
	buf.Write(rd)
	return buf.Bytes()
}

func (m *ISCSICommand) reject''', '''		buf.WriteByte(0xff)
	}
	buf.Write(util.MarshalUint64(uint64(uint16(m.StatSN)))[4:])
	buf.Write(util.MarshalUint64(uint64(m.ExpCmdSN))[4:])
	buf.Write(util.MarshalUint64(uint64(m.MaxCmdSN))[4:])
	for i := 0; i < 3*4; i++ {
		buf.WriteByte(0x00)
	}
	rd := m.RawData
	for len(rd)%4 != 0 {
		rd = append(rd, 0)
	}
	buf.Write(rd)
	return buf.Bytes()
}

func (m *ISCSICommand) reject''')],
      py=H + '''
with Lab() as l:
    s = l.sess(expstatsn=0x7fff0000)
    r = s.cmd(cdb.tur())
    check(s.ping()['statsn'] == r['statsn'] + 1, 'status numbers go on in ping answers')
'''),
 dict(id='c21-logout-stays-open', property='C21',
      needs='an initiator that waits for the target to close the connection after its logout',
      what='after a logout the target neither closes the connection nor releases the session',
      edits=[('pkg/port/iscsit/iscsid.go', '	case CONN_STATE_CLOSE, CONN_STATE_EXIT:\n		conn.state = CONN_STATE_CLOSE\n', '	case CONN_STATE_CLOSE:\n	case CONN_STATE_EXIT:\n		conn.txTask = nil\n')],
      py=H + '''
with Lab() as l:
    s = l.sess()
    check(s.cmd(cdb.reserve6())['ok'], 'reserve')
    check(s.logout()['resp'] == 0, 'logout is answered')
    check(s.c.wait_closed(5), 'the connection is closed')
    o = l.sess(isid=0x800000000077)
    check(o.cmd(cdb.rw('write', 10, 0, 1), data=blk('o'))['ok'], 'the reservation is gone')
'''),
 dict(id='c22-duplicate-target', property='C22',
      needs='a target created twice under one name',
      what='a target name can be used again and replaces the first target unless that has sessions',
      edits=[('pkg/port/iscsit/iscsid.go', '''	if _, ok := s.iSCSITargets[tgtName]; ok {
		return fmt.Errorf("target name has been existed")
	}
''', '''	if old, ok := s.iSCSITargets[tgtName]; ok && len(old.Sessions) > 0 {
		return fmt.Errorf("target name has been existed")
	}
''')],
      go=('pkg/port/iscsit', '''package iscsit

import (
	"testing"

	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/scsi"
	_ "github.com/gostor/gotgt/pkg/scsi/backingstore"
)

func TestZZDemo(t *testing.T) {
	d, err := NewISCSITargetDriver(scsi.NewSCSITargetService())
	if err != nil {
		t.Fatal(err)
	}
	c := &config.Config{ISCSITargets: map[string]config.ISCSITarget{"iqn.x:a": {}}}
	if err := d.NewTarget("iqn.x:a", c); err != nil {
		t.Fatal(err)
	}
	if err := d.NewTarget("iqn.x:a", c); err == nil {
		t.Fatal("the second target of that name is accepted")
	}
}
''')),
 dict(id='c23-erl-default', property='C23',
      needs='an initiator that offers ErrorRecoveryLevel 1 or 2',
      what='the target agrees to an error recovery level it does not implement',
      edits=[('pkg/port/iscsit/session.go', '"ErrorRecoveryLevel": {ISCSI_PARAM_ERL, true, 0, 0, 2', '"ErrorRecoveryLevel": {ISCSI_PARAM_ERL, true, 2, 0, 2')],
      py=H + '''
with Lab() as l:
    s = l.sess(keys=[('ErrorRecoveryLevel', '2')])
    check(dict(s.loginrsp['kv'])['ErrorRecoveryLevel'] == '0', 'error recovery level')
'''),
 dict(id='c24-ping-length', property='C24',
      needs='a ping whose data length is not a multiple of four',
      what='ping data is returned with padding as part of it',
      edits=[('pkg/port/iscsit/cmd.go', '''	buf.WriteByte(byte(OpNoopIn))
	var b byte
''', '''	buf.WriteByte(byte(OpNoopIn))
	for len(m.RawData)%4 != 0 {
		m.RawData = append(m.RawData, 0)
	}
	var b byte
''')],
      py=H + '''
with Lab() as l:
    s = l.sess()
    for n in range(0, 9):
        check(s.ping(data=b'abcdefghi'[:n])['data'] == b'abcdefghi'[:n], 'ping of %d bytes' % n)
'''),
 dict(id='c26-fixed-sense-length', property='C26',
      needs='any CHECK CONDITION whose sense data is looked at as a whole',
      what='the additional length of fixed format sense data covers the bytes before it too',
      edits=[('pkg/scsi/scsi.go', '		senseBuffer.WriteByte(byte(length))\n', '		senseBuffer.WriteByte(byte(length) + 8)\n')],
      py=H + '''
with Lab() as l:
    s = l.sess()
    r = s.cmd(cdb.rw('read', 10, 1 << 30, 1), read=512)
    b = r['sense'][2:2 + r['senselen']]
    check(r['status'] == 2 and len(b) == 8 + b[7], 'sense length')
'''),
]
