"""Blocks, persistence, backing store."""
H = "from lab import *\n"
GO = '''package scsi_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/scsi"
%(imp)s)

// unit returns a logical unit on a scratch file filled with 0x55
func unit(t *testing.T, size int) *api.SCSILu {
	p := filepath.Join(t.TempDir(), "img")
	b := make([]byte, size)
	for i := range b {
		b[i] = 0x55
	}
	if err := os.WriteFile(p, b, 0600); err != nil {
		t.Fatal(err)
	}
	lu, err := scsi.NewSCSILu(&config.BackendStorage{DeviceID: 77, Path: "%(bs)s:" + p, Online: true, BlockShift: 9})
	if err != nil {
		t.Fatal(err)
	}
	return lu
}

// do runs one command, in is the room for its answer, out the data sent
func do(lu *api.SCSILu, cdb []byte, in int, out []byte) (*api.SCSICommand, byte) {
	c := &api.SCSICommand{SCB: append(append([]byte{}, cdb...), make([]byte, 16-len(cdb))...), Device: lu, OpCode: cdb[0]}
	c.InSDBBuffer = &api.SCSIDataBuffer{Buffer: make([]byte, in), Length: uint32(in)}
	c.OutSDBBuffer = &api.SCSIDataBuffer{Buffer: out, Length: uint32(len(out))}
	return c, lu.PerformCommand(0, c).Stat
}
%(body)s'''
FILEIMP = '\t_ "github.com/gostor/gotgt/pkg/scsi/backingstore"\n'
FAULTY = '''
type faulty struct {
	api.BackingStore
	mem             []byte
	failSync        bool
	failUnmap       bool
	syncOff, syncTL int64
}

var store = &faulty{}

func init() { scsi.RegisterBackingStore("zzfaulty", func() (api.BackingStore, error) { return store, nil }) }

func (f *faulty) Open(dev *api.SCSILu, path string) error { f.mem = make([]byte, 1<<16); return nil }
func (f *faulty) Size(dev *api.SCSILu) uint64             { return uint64(len(f.mem)) }
func (f *faulty) Read(off, tl int64) ([]byte, error) {
	return append([]byte{}, f.mem[off:off+tl]...), nil
}
func (f *faulty) Write(b []byte, off int64) error { copy(f.mem[off:], b); return nil }
func (f *faulty) DataSync(off, tl int64) error {
	f.syncOff, f.syncTL = off, tl
	if f.failSync {
		return os.ErrInvalid
	}
	return nil
}
func (f *faulty) DataAdvise(off, n int64, a uint32) error { return nil }
func (f *faulty) Unmap(d []api.UnmapBlockDescriptor) error {
	if f.failUnmap {
		return os.ErrInvalid
	}
	return nil
}
'''


def go(body, bs='file'):
    return ('pkg/scsi', GO % {'imp': FILEIMP if bs == 'file' else '', 'bs': bs, 'body': body})


BUGS = [
 dict(id='c01-six-byte-lba', property='C01',
      needs='READ(6) or WRITE(6) at a block address of 2^20 or more, i.e. a unit larger than 512 MiB',
      what='6-byte commands lose the top bit of the 21-bit block address and access the wrong block',
      edits=[('pkg/scsi/scsi.go', 'uint64((scb[1]&0x1f))<<16', 'uint64((scb[1]&0x0f))<<16')],
      py=H + '''
with Lab(stores={1000: 600 << 20}) as l:
    s = l.sess()
    check(s.cmd(cdb.rw('write', 16, 5, 1), data=blk('low'))['ok'], 'write')
    check(s.cmd(cdb.rw('write', 16, (1 << 20) + 5, 1), data=blk('high'))['ok'], 'write')
    r = s.cmd(cdb.rw('read', 6, (1 << 20) + 5, 1), read=512)
    check(r['ok'] and r['in'] == blk('high'), 'READ(6) of a high block')
'''),
 dict(id='c02-writesame-protect', property='C02',
      needs='WRITE SAME(16) on a unit that is software write protected or read-only',
      what='WRITE SAME(16) stores into a write-protected unit',
      edits=[('pkg/scsi/sbc.go', 'api.WRITE_VERIFY_16, api.WRITE_SAME, api.WRITE_SAME_16,\n\t\t\tapi.COMPARE', 'api.WRITE_VERIFY_16, api.WRITE_SAME,\n\t\t\tapi.COMPARE')],
      go=go('''
func TestZZDemo(t *testing.T) {
	lu := unit(t, 1<<16)
	lu.Attrs.SWP = true
	_, st := do(lu, []byte{0x93, 0, 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 2}, 0, make([]byte, 512))
	if st != 2 {
		t.Fatalf("status %d", st)
	}
	if b, _ := lu.Storage.Read(4*512, 512); b[0] != 0x55 {
		t.Fatal("the block has changed")
	}
}
''')),
 dict(id='c02-verify-wrap', property='C02',
      needs='VERIFY(16) with a block address so close to 2^64 that address plus length wraps around',
      what='VERIFY(16) of an out-of-range address is accepted',
      edits=[('pkg/scsi/sbc.go', '''		if lba+uint64(tl) < lba || lba+uint64(tl) > dev.Size>>dev.BlockShift {
			key = ILLEGAL_REQUEST
			asc = ASC_LBA_OUT_OF_RANGE
			log.Warnf("sense: lba''', '''		if lba+uint64(tl) > dev.Size>>dev.BlockShift {
			key = ILLEGAL_REQUEST
			asc = ASC_LBA_OUT_OF_RANGE
			log.Warnf("sense: lba''')],
      py=H + '''
with Lab() as l:
    s = l.sess()
    r = s.cmd(cdb.rw('verify', 16, (1 << 64) - 2, 4))
    check(r['status'] == 2 and r.get('asc') == 0x2100, 'VERIFY(16) beyond the end is refused')
'''),
 dict(id='c03-fua-wrong-length', property='C03',
      needs='a write with FUA whose flush range matters: a store that keeps only what it was told to flush',
      what='a forced write flushes a range of length zero instead of the blocks it stored',
      edits=[('pkg/scsi/backingstore.go', '''			if err = bs.DataSync(int64(offset), tl); err != nil {
				key = MEDIUM_ERROR
				asc = ASC_WRITE_ERROR''', '''			if err = bs.DataSync(int64(offset), int64(length)); err != nil {
				key = MEDIUM_ERROR
				asc = ASC_WRITE_ERROR''')],
      go=go(FAULTY + '''
func TestZZDemo(t *testing.T) {
	lu := unit(t, 1<<16)
	_, st := do(lu, []byte{0x2a, 8, 0, 0, 0, 4, 0, 0, 2, 0}, 0, make([]byte, 1024))
	if st != 0 || store.syncOff != 2048 || store.syncTL < 1024 {
		t.Fatalf("status %d, flushed %d+%d", st, store.syncOff, store.syncTL)
	}
}
''', 'zzfaulty')),
 dict(id='c03-sync-to-end', property='C03',
      needs='SYNCHRONIZE CACHE with a number of blocks of zero (to the end of the medium) and a non-zero address',
      what='SYNCHRONIZE CACHE up to the end flushes nothing that matters',
      edits=[('pkg/scsi/backingstore.go', '''		if tl == 0 {
			tl = int64(lu.Size - offset)
		}
''', '''		if tl == 0 && offset == 0 {
			tl = int64(lu.Size)
		}
''')],
      go=go(FAULTY + '''
func TestZZDemo(t *testing.T) {
	lu := unit(t, 1<<16)
	_, st := do(lu, []byte{0x35, 0, 0, 0, 0, 8, 0, 0, 0, 0}, 0, nil)
	if st != 0 || store.syncOff > 4096 || store.syncOff+store.syncTL < 1<<16 {
		t.Fatalf("status %d, flushed %d+%d", st, store.syncOff, store.syncTL)
	}
}
''', 'zzfaulty')),
 dict(id='c04-unmap-error', property='C04',
      needs='UNMAP for which the backing store reports an error',
      what='a failed UNMAP is reported as success',
      edits=[('pkg/scsi/sbc.go', '''	if err := cmd.Device.Storage.Unmap(blockDescs); err != nil {
		BuildSenseData(cmd, MEDIUM_ERROR, NO_ADDITIONAL_SENSE)
		return api.SAMStatCheckCondition
	}
''', '''	if err := cmd.Device.Storage.Unmap(blockDescs); err != nil {
		log.Errorf("unmap: %v", err)
	}
''')],
      go=go(FAULTY + '''
func TestZZDemo(t *testing.T) {
	lu := unit(t, 1<<16)
	store.failUnmap = true
	p := make([]byte, 24)
	p[1], p[3], p[15], p[19] = 22, 16, 4, 2
	_, st := do(lu, []byte{0x42, 0, 0, 0, 0, 0, 0, 0, 24, 0}, 0, p)
	if st != 2 {
		t.Fatalf("status %d", st)
	}
}
''', 'zzfaulty')),
 dict(id='c04-fua-flush-error', property='C04',
      needs='a write with FUA whose flush fails while the write itself succeeds',
      what='the failed flush of a forced write is only logged and the write answered GOOD',
      edits=[('pkg/scsi/backingstore.go', '''			if err = bs.DataSync(int64(offset), tl); err != nil {
				key = MEDIUM_ERROR
				asc = ASC_WRITE_ERROR
				goto sense
			}
''', '''			if syncErr := bs.DataSync(int64(offset), tl); syncErr != nil {
				log.Errorf("sync at 0x%x: %v", offset, syncErr)
			}
''')],
      go=go(FAULTY + '''
func TestZZDemo(t *testing.T) {
	lu := unit(t, 1<<16)
	store.failSync = true
	_, st := do(lu, []byte{0x8a, 8, 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 2}, 0, make([]byte, 1024))
	if st != 2 {
		t.Fatalf("status %d", st)
	}
}
''', 'zzfaulty')),
 dict(id='c18-capacity-saturation', property='C18',
      needs='a unit between 2 and 4 TiB with 512-byte blocks',
      what='READ CAPACITY(10) wraps around instead of saturating',
      edits=[('pkg/scsi/sbc.go', '	if size>>32 != 0 {', '	if size>>33 != 0 {')],
      py=H + '''
with Lab(stores={1000: 3 << 40}) as l:
    s = l.sess()
    r = s.cmd(cdb.readcap10(), read=8)
    check(r['ok'] and r['in'][:4] == b'\\xff' * 4, 'READ CAPACITY(10) saturates')
'''),
 dict(id='c18-resize-one', property='C18',
      needs='a resize with more than one logical unit or a target without units before others',
      what='a resize only reaches the first target',
      edits=[('pkg/scsi/scsi.go', '''				t.Devices[i].Size = size
			}
''', '''				t.Devices[i].Size = size
			}
			break
''')],
      go=('pkg/scsi', '''package scsi

import (
	"testing"

	"github.com/gostor/gotgt/pkg/api"
)

func TestZZDemo(t *testing.T) {
	a, b := &api.SCSILu{Size: 1024}, &api.SCSILu{Size: 1024}
	s := &SCSITargetService{Targets: []*api.SCSITarget{{Devices: api.LUNMap{0: a}}, {Devices: api.LUNMap{0: b}}}}
	s.Resize(4096)
	if a.Size != 4096 || b.Size != 4096 {
		t.Fatal(a.Size, b.Size)
	}
}
''')),
 dict(id='c19-verify-prefix', property='C19',
      needs='VERIFY with byte check that sends fewer bytes than the blocks it addresses, equal as far as they go',
      what='a VERIFY whose data is only the beginning of the stored blocks is answered GOOD',
      edits=[('pkg/scsi/backingstore.go', 'if !bytes.Equal(wbuf, rbuf) {', 'if !bytes.HasPrefix(rbuf, wbuf) {')],
      py=H + '''
with Lab() as l:
    s = l.sess()
    check(s.cmd(cdb.rw('write', 10, 8, 2), data=blk('v', 2))['ok'], 'write')
    check(s.cmd(cdb.rw('verify', 10, 8, 2, cdb.BYTCHK), data=blk('v', 2))['ok'], 'equal data')
    check(s.cmd(cdb.rw('verify', 10, 8, 2, cdb.BYTCHK), data=blk('v', 2)[:512])['status'] == 2, 'half of the data')
'''),
 dict(id='c25-shared-read-buffer', property='C25',
      needs='reads of one unit executing at the same time in several sessions',
      what='concurrent reads share one buffer in the file backing store and return data of other blocks',
      edits=[('pkg/scsi/backingstore/common.go', '	file *os.File\n}', '	file *os.File\n	buf  []byte\n}'),
             ('pkg/scsi/backingstore/common.go', '	tmpbuf := make([]byte, tl)\n', '	if int64(len(bs.buf)) < tl {\n		bs.buf = make([]byte, tl)\n	}\n	tmpbuf := bs.buf[:tl]\n')],
      py=H + '''
import threading
N = 64
with Lab() as l:
    s = l.sess()
    for i in range(8):
        check(s.cmd(cdb.rw('write', 10, i * N, N), data=blk('w%d' % i, N))['ok'], 'write')
    bad = []
    def reader(i):
        r = l.sess(isid=0x800000000010 + i)
        for _ in range(1500):
            if r.cmd(cdb.rw('read', 10, i * N, N), read=N * 512)['in'] != blk('w%d' % i, N):
                bad.append(i)
                return
    ts = [threading.Thread(target=reader, args=(i,)) for i in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    check(not bad, 'concurrent readers get their own data')
'''),
 dict(id='c26-write-error-code', property='C26',
      needs='a write for which the backing store reports an error',
      what='a failed write is reported with the additional sense code of a read error',
      edits=[('pkg/scsi/backingstore.go', '''			log.Error(err)
			key = MEDIUM_ERROR
			asc = ASC_WRITE_ERROR
''', '''			log.Error(err)
			key = MEDIUM_ERROR
			asc = ASC_READ_ERROR
''')],
      go=go(FAULTY.replace('copy(f.mem[off:], b); return nil', 'return os.ErrInvalid') + '''
func TestZZDemo(t *testing.T) {
	lu := unit(t, 1<<16)
	c, st := do(lu, []byte{0x8a, 0, 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 2}, 0, make([]byte, 1024))
	if st != 2 || c.SenseBuffer.Buffer[2] != 3 || c.SenseBuffer.Buffer[12] != 0x0c {
		t.Fatalf("status %d, sense %v", st, c.SenseBuffer)
	}
}
''', 'zzfaulty')),
 dict(id='c27-mode10-length', property='C27',
      needs='MODE SENSE(10)',
      what='the length field of the MODE SENSE(10) data is one too large',
      edits=[('pkg/scsi/spc.go', 'data[1] = uint8(len(data) - 2)', 'data[1] = uint8(len(data) - 1)')],
      py=H + '''
with Lab() as l:
    s = l.sess()
    r = s.cmd(cdb.mode_sense10(8), read=1024)
    check(r['ok'] and int.from_bytes(r['in'][:2], 'big') == len(r['in']) - 2, 'mode data length')
'''),
 dict(id='c27-vpd-b0-length', property='C27',
      needs='INQUIRY of vital product data page B0h with enough room for all of it',
      what='the block limits page is shorter than its page length field says',
      edits=[('pkg/scsi/spc.go', '	buf.Write(make([]byte, 36))', '	buf.Write(make([]byte, 32))')],
      py=H + '''
with Lab() as l:
    s = l.sess()
    for page in (0, 0x80, 0x83, 0xb0, 0xb2):
        r = s.cmd(cdb.inquiry(1024, True, page), read=1024)
        check(r['ok'] and int.from_bytes(r['in'][2:4], 'big') == len(r['in']) - 4, 'page length of %02x' % page)
'''),
]
