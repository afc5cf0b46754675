package main

import (
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"os"
	"sync"
	"syscall"

	"github.com/gostor/gotgt/pkg/api"
)

// recStore is the recording, fault-injecting, gateable, crashable backing
// store behind every "verif:<name>" logical unit.  The volatile image is what
// reads see; the durable image is what DataSync has flushed (range by range).
type recStore struct {
	name    string
	mu      sync.Mutex
	vol     []byte
	dur     []byte
	ops     []map[string]interface{}
	faults  []*fault
	gates   map[string]*gate
	nOps    int
	nFail   int
	crashAt int // freeze the durable image before the k-th operation (1-based); 0 = never
	frozen  bool
	closed  bool
	inside  int
	quiet   bool
}

type fault struct {
	Op    string `json:"op"`
	Nth   int    `json:"nth"`   // 1 = next matching operation
	Mode  string `json:"mode"`  // error | eof | short | partial
	Count int    `json:"count"` // how many consecutive matches fail (<=0: 1)
	seen  int
}

type gate struct {
	arrived int
	release chan struct{}
}

var stores = map[string]*recStore{}
var storesMu sync.Mutex

func newRecStore(name string, img []byte) *recStore {
	s := &recStore{name: name, gates: map[string]*gate{}}
	s.vol = append([]byte{}, img...)
	s.dur = append([]byte{}, img...)
	return s
}

var errInjected = errors.New("injected backing store failure")

// failures are the ways a backend says that it failed; none of them is better than the others
var failures = []error{
	errInjected, io.ErrShortWrite, io.ErrUnexpectedEOF, syscall.EIO, syscall.ENOSPC, io.ErrClosedPipe,
	&os.PathError{Op: "io", Path: "medium", Err: syscall.EIO}, os.ErrClosed, io.EOF, os.ErrNotExist,
}

// failure takes turns; the end of file is no failure of a read
func (s *recStore) failure(op string) error {
	s.nFail++
	err := failures[s.nFail%len(failures)]
	if op == "read" && err == io.EOF {
		return errInjected
	}
	return err
}

// enter logs the operation and decides on a fault; called with mu held.
func (s *recStore) enter(op string, off, n int64) string {
	s.nOps++
	if s.crashAt > 0 && s.nOps >= s.crashAt && !s.frozen {
		s.frozen = true
		s.dur = append([]byte{}, s.dur...)
	}
	mode := ""
	for _, f := range s.faults {
		if n == 0 && op == "read" {
			break // nothing to fail
		}
		if f.Op != op && f.Op != "any" {
			continue
		}
		f.seen++
		c := f.Count
		if c <= 0 {
			c = 1
		}
		if f.seen >= f.Nth && f.seen < f.Nth+c {
			mode = f.Mode
		}
	}
	if !s.quiet {
		s.ops = append(s.ops, map[string]interface{}{"op": op, "off": off, "len": n, "fault": mode})
	}
	return mode
}

func (s *recStore) waitGate(op string) {
	s.mu.Lock()
	g := s.gates[op]
	if g == nil {
		s.mu.Unlock()
		return
	}
	g.arrived++
	ch := g.release
	s.mu.Unlock()
	<-ch
}

func (s *recStore) Open(dev *api.SCSILu, path string) error { return nil }
func (s *recStore) Close(dev *api.SCSILu) error             { return nil }
func (s *recStore) Init(dev *api.SCSILu, Opts string) error { return nil }
func (s *recStore) Exit(dev *api.SCSILu) error              { return nil }
func (s *recStore) Size(dev *api.SCSILu) uint64             { return uint64(len(s.vol)) }

func (s *recStore) Read(offset, tl int64) ([]byte, error) {
	s.waitGate("read")
	s.mu.Lock()
	defer s.mu.Unlock()
	mode := s.enter("read", offset, tl)
	if offset < 0 || tl < 0 {
		return nil, fmt.Errorf("bad range")
	}
	switch mode {
	case "error":
		return nil, s.failure("read")
	case "eof":
		return nil, io.EOF
	}
	n := tl
	var err error
	if offset+n > int64(len(s.vol)) {
		n = int64(len(s.vol)) - offset
		if n < 0 {
			n = 0
		}
		err = io.EOF
	}
	if mode == "short" || mode == "partial" {
		n = n / 2
	}
	out := make([]byte, n)
	if n > 0 {
		copy(out, s.vol[offset:])
	}
	return out, err
}

func (s *recStore) Write(buf []byte, offset int64) error {
	s.waitGate("write")
	s.mu.Lock()
	defer s.mu.Unlock()
	mode := s.enter("write", offset, int64(len(buf)))
	if offset < 0 {
		return fmt.Errorf("bad range")
	}
	switch mode {
	case "error":
		return s.failure("write")
	case "partial", "short":
		u := int64(512)
		if len(buf)%4096 == 0 {
			u = 4096 // never tear a block of a 4096-byte unit
		}
		h := (int64(len(buf)) / 2) / u * u
		if offset+h <= int64(len(s.vol)) {
			copy(s.vol[offset:], buf[:h])
		}
		return s.failure("write")
	}
	if end := offset + int64(len(buf)); end > int64(len(s.vol)) {
		if end > 1<<28 {
			return fmt.Errorf("write too far")
		}
		s.vol = append(s.vol, make([]byte, end-int64(len(s.vol)))...)
	}
	copy(s.vol[offset:], buf)
	return nil
}

func (s *recStore) DataSync(offset, tl int64) error {
	s.waitGate("sync")
	s.mu.Lock()
	defer s.mu.Unlock()
	mode := s.enter("sync", offset, tl)
	if mode != "" {
		return s.failure("sync")
	}
	if s.frozen {
		return nil
	}
	lo, hi := offset, offset+tl
	if lo < 0 || hi < lo {
		return nil
	}
	if hi > int64(len(s.vol)) {
		hi = int64(len(s.vol))
	}
	if lo >= hi {
		return nil
	}
	if hi > int64(len(s.dur)) {
		s.dur = append(s.dur, make([]byte, hi-int64(len(s.dur)))...)
	}
	copy(s.dur[lo:hi], s.vol[lo:hi])
	return nil
}

func (s *recStore) DataAdvise(offset, length int64, advise uint32) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.enter("advise", offset, length) != "" {
		return s.failure("advise")
	}
	return nil
}

func (s *recStore) Unmap(bd []api.UnmapBlockDescriptor) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	var off, n int64
	if len(bd) > 0 {
		off, n = int64(bd[0].Offset), int64(bd[0].TL)
	}
	if s.enter("unmap", off, n) != "" {
		return s.failure("unmap")
	}
	for _, d := range bd {
		lo, hi := int64(d.Offset), int64(d.Offset)+int64(d.TL)
		if lo < 0 || hi < lo || lo > int64(len(s.vol)) {
			continue
		}
		if hi > int64(len(s.vol)) {
			hi = int64(len(s.vol))
		}
		for i := lo; i < hi; i++ {
			s.vol[i] = 0
		}
	}
	return nil
}

// remote backing store (api.RemoteBackingStore) on top of the same image
type remAdapter struct{ s *recStore }

func (r *remAdapter) ReadAt(p []byte, off int64) (int, error) {
	b, err := r.s.Read(off, int64(len(p)))
	n := copy(p, b)
	return n, err
}
func (r *remAdapter) WriteAt(p []byte, off int64) (int, error) {
	if err := r.s.Write(p, off); err != nil {
		return 0, err
	}
	return len(p), nil
}
func (r *remAdapter) Sync() (int, error) {
	return 0, r.s.DataSync(0, int64(len(r.s.vol)))
}
func (r *remAdapter) Unmap(off, n int64) (int, error) { return 0, nil }

// sparseStore keeps the 512-byte pieces that are not zero, of a nominal size that may be anything
type sparseStore struct {
	mu   sync.Mutex
	size int64
	at   map[int64][]byte
	dur  map[int64][]byte // what has been flushed
}

var sparses = map[string]*sparseStore{}

func (s *sparseStore) Open(dev *api.SCSILu, path string) error { return nil }
func (s *sparseStore) Close(dev *api.SCSILu) error             { return nil }
func (s *sparseStore) Init(dev *api.SCSILu, Opts string) error { return nil }
func (s *sparseStore) Exit(dev *api.SCSILu) error              { return nil }
func (s *sparseStore) Size(dev *api.SCSILu) uint64             { return uint64(s.size) }

func (s *sparseStore) Read(offset, tl int64) ([]byte, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if offset < 0 || tl < 0 || tl > 1<<28 {
		return nil, fmt.Errorf("bad range")
	}
	out := make([]byte, tl)
	for k := int64(0); k < tl; {
		p := (offset + k) / 512
		o := (offset + k) % 512
		n := 512 - o
		if n > tl-k {
			n = tl - k
		}
		if b, ok := s.at[p]; ok {
			copy(out[k:k+n], b[o:])
		}
		k += n
	}
	return out, nil
}

func (s *sparseStore) Write(buf []byte, offset int64) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if offset < 0 {
		return fmt.Errorf("bad range")
	}
	tl := int64(len(buf))
	for k := int64(0); k < tl; {
		p := (offset + k) / 512
		o := (offset + k) % 512
		n := 512 - o
		if n > tl-k {
			n = tl - k
		}
		b, ok := s.at[p]
		if !ok {
			b = make([]byte, 512)
			s.at[p] = b
		}
		copy(b[o:], buf[k:k+n])
		k += n
	}
	return nil
}

func (s *sparseStore) DataSync(offset, tl int64) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	for p, b := range s.at {
		if p*512 >= offset && p*512-offset < tl {
			s.dur[p] = append([]byte{}, b...)
		}
	}
	return nil
}
func (s *sparseStore) DataAdvise(offset, length int64, advise uint32) error { return nil }
func (s *sparseStore) Unmap(bd []api.UnmapBlockDescriptor) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, d := range bd {
		for p := range s.at {
			if uint64(p*512) >= d.Offset && uint64(p*512)-d.Offset < d.TL {
				s.at[p] = make([]byte, 512)
			}
		}
	}
	return nil
}

// dump lists what is not zero: offset (as text, it may be large) and bytes
func (s *sparseStore) dump(which string) [][]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	res := [][]string{}
	m := s.at
	if which == "dur" {
		m = s.dur
	}
	for p, b := range m {
		for _, x := range b {
			if x != 0 {
				res = append(res, []string{fmt.Sprint(p * 512), base64.StdEncoding.EncodeToString(b)})
				break
			}
		}
	}
	return res
}
