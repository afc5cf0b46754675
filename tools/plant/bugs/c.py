"""The daemon's life."""
H = "from lab import *\n"
D = '''
def refused(l):
    try:
        l.start()
    except SystemExit:
        return True
    return False


def conf(l, f):
    p = os.path.join(l.dir, 'config.json')
    c = json.load(open(p))
    f(c)
    json.dump(c, open(p, 'w'))
'''
BUGS = [
 dict(id='c28-write-behind', property='C28',
      needs='the daemon is killed right after a write, before the next command reaches the store',
      what='the file store keeps the last small write in memory until the next operation',
      edits=[('pkg/scsi/backingstore/common.go', '''type FileBackingStore struct {
	scsi.BaseBackingStore
	file *os.File
}
''', '''type FileBackingStore struct {
	scsi.BaseBackingStore
	file *os.File

	tailMutex sync.Mutex
	tail      []byte
	tailAt    int64
}

// settle stores the write that was put off
func (bs *FileBackingStore) settle() error {
	bs.tailMutex.Lock()
	defer bs.tailMutex.Unlock()
	if bs.tail == nil {
		return nil
	}
	_, err := bs.file.WriteAt(bs.tail, bs.tailAt)
	bs.tail = nil
	return err
}
'''), ('pkg/scsi/backingstore/common.go', '''	length, err := bs.file.WriteAt(wbuf, offset)
''', '''	if err := bs.settle(); err != nil {
		return err
	}
	if len(wbuf) <= 4096 {
		bs.tailMutex.Lock()
		bs.tail, bs.tailAt = append([]byte{}, wbuf...), offset
		bs.tailMutex.Unlock()
		return nil
	}
	length, err := bs.file.WriteAt(wbuf, offset)
'''), ('pkg/scsi/backingstore/common.go', '''	tmpbuf := make([]byte, tl)
''', '''	if err := bs.settle(); err != nil {
		return nil, err
	}
	tmpbuf := make([]byte, tl)
'''), ('pkg/scsi/backingstore/common.go', '''	return util.Fdatasync(bs.file)
''', '''	if err := bs.settle(); err != nil {
		return err
	}
	return util.Fdatasync(bs.file)
'''), ('pkg/scsi/backingstore/common.go', '''	"io"
	"os"
''', '''	"io"
	"os"
	"sync"
''')],
      py=H + '''
with Lab() as l:
    s = l.sess()
    d = blk('kept')
    check(s.cmd(cdb.rw('write', 10, 7, 1), data=d)['ok'], 'the write is answered')
    l.stop()
    check(l.data(off=7 * 512, n=512) == d, 'what was acknowledged is in the file')
    l.start()
    check(l.sess().cmd(cdb.rw('read', 10, 7, 1), read=512)['in'] == d, 'and is read after the restart')
'''),
 dict(id='c28-device-id-narrow', property='C28',
      needs='two devices whose ids differ only above 32 bits',
      what='the id of a device is cut to 32 bits when its LUN is mapped',
      edits=[('pkg/scsi/scsilumap.go', 'm := LUNMapping{DeviceID: deviceID, LUN: lun, TargetName: tgtName}',
              'm := LUNMapping{DeviceID: uint64(uint32(deviceID)), LUN: lun, TargetName: tgtName}')],
      py=H + '''
with Lab(stores={1: 1 << 20, (1 << 32) + 1: 2 << 20}, targets={T0: ({'1': [0]}, {'0': 1, '1': (1 << 32) + 1})}) as l:
    s = l.sess()
    for lun, n in ((0, 2048), (1, 4096)):
        r = s.cmd(cdb.readcap10(), lun, read=8)
        check(int.from_bytes(r['in'][:4], 'big') == n - 1, 'unit %d has the size of its file' % lun)
'''),
 dict(id='c28-stop-at-bad-target', property='C28',
      needs='a configuration in which one target names a portal that is not configured, besides others',
      what='the daemon stops adding targets at the first one whose portal is not configured',
      edits=[('cmd/daemon.go', '''		targetDriver.NewTarget(tgtname, config)
''', '''		if err := targetDriver.NewTarget(tgtname, config); err != nil {
			log.Error(err)
			break
		}
''')],
      py=H + '''
names = ['iqn.2026-01.demo:g%d' % k for k in range(6)]
t = {n: ({'1': [0]}, {'0': 1000}) for n in names}
t.update({'iqn.2026-01.demo:bad%d' % k: ({'1': [9]}, {'0': 1000}) for k in range(6)})
with Lab(targets=t) as l:
    for n in names:
        try:
            l.sess(n)
        except (Closed, LoginError):
            check(False, 'target %s is served' % n)
'''),
 dict(id='c28-cut-configuration', property='C28',
      needs='a configuration file that ends early, exactly between two of its values',
      what='a configuration file that is cut off is taken for as much as could be read',
      edits=[('pkg/config/config.go', '''	if err = json.NewDecoder(file).Decode(config); err != nil {
		return config, err
	}
''', '''	if err = json.NewDecoder(file).Decode(config); err == io.ErrUnexpectedEOF {
		// still being written: start without it, it is read again on the next start
		err = nil
	} else if err != nil {
		return config, err
	}
'''), ('pkg/config/config.go', '''	"fmt"
	"os"
''', '''	"fmt"
	"io"
	"os"
''')],
      py=H + D + '''
with Lab() as l:
    l.stop()
    p = os.path.join(l.dir, 'config.json')
    s = open(p).read()
    open(p, 'w').write(s[:len(s) - 20])
    check(refused(l), 'a configuration that is cut off is refused')
'''),
 dict(id='c28-size-in-pages', property='C28',
      needs='a backing file whose size is no multiple of 4096 bytes',
      what='the size of a backing file is rounded down to whole pages',
      edits=[('pkg/scsi/backingstore/common.go', '			bs.DataSize = uint64(finfo.Size())\n',
              '			// whole pages only, direct access needs that\n			bs.DataSize = uint64(finfo.Size()) &^ 4095\n')],
      py=H + '''
with Lab(stores={1000: (1 << 20) + 512}) as l:
    r = l.sess().cmd(cdb.readcap10(), 0, read=8)
    check(int.from_bytes(r['in'][:4], 'big') == 2048, 'the unit has all blocks of its file')
'''),

 dict(id='c10-extent', property='C10',
      needs='a RESERVE(6) with a reservation identification or the obsolete extent bit set',
      what='a reservation of an extent is answered GOOD and reserves nothing',
      edits=[('pkg/scsi/sbc.go', '''func SBCReserve(host int, cmd *api.SCSICommand) api.SAMStat {
''', '''func SBCReserve(host int, cmd *api.SCSICommand) api.SAMStat {
	// extents are not tracked
	if cmd.SCB[1]&0x01 != 0 || cmd.SCB[2] != 0 {
		return api.SAMStatGood
	}
''')],
      py=H + '''
with Lab() as l:
    s = l.sess()
    o = l.sess(isid=0x800000000077)
    for b in ([0x16, 0, 0, 0, 0, 0], [0x16, 1, 0, 0, 0, 0], [0x16, 0, 7, 0, 0, 0]):
        r = s.cmd(bytes(b))
        check(r['status'] == 0, 'reserve')
        check(o.cmd(cdb.rw('write', 10, 0, 1), data=blk('o'))['status'] == 24, 'the unit is reserved after %r' % b)
        s.cmd(cdb.release6())
'''),
 dict(id='c10-half-a-pdu', property='C10',
      needs='the holder of the reservation vanishes in the middle of a PDU with data',
      what='a connection that ends inside a data segment is never cleaned up: its session and reservation stay for ever',
      edits=[('pkg/port/iscsit/iscsid.go', '''					log.Error("read data failed:", err)
					conn.state = CONN_STATE_CLOSE
					return
''', '''					log.Error("read data failed:", err)
					return
''')],
      py=H + '''
with Lab() as l:
    s = l.sess()
    o = l.sess(isid=0x800000000077)
    check(s.cmd(cdb.reserve6())['status'] == 0, 'reserve')
    check(o.cmd(cdb.tur())['status'] == 24, 'reserved')
    b = bytearray(48)
    b[0], b[1], b[7] = 0x40, 0x80, 64       # an immediate ping with 64 bytes, of which 20 come
    b[16:20] = (77).to_bytes(4, 'big')
    b[20:24] = b'\\xff' * 4
    s.c.s.sendall(bytes(b) + bytes(20))
    s.c.s.close()
    end = time.time() + 10
    while time.time() < end and o.cmd(cdb.tur())['status'] == 24:
        time.sleep(0.1)
    check(o.cmd(cdb.rw('write', 10, 0, 1), data=blk('o'))['status'] == 0, 'the reservation ended with its session')
'''),
]
