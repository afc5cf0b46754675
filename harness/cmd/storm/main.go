// storm is an initiator for loads the scripted one is too slow for.
//
//	storm io < scenario        sessions at the same time, each with its commands; prints the history
//	storm PORT KIND N TGT      N consecutive logins that end in the way KIND says
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

var deadline = 12 * time.Second

type op struct {
	K    string `json:"k"`
	CDB  string `json:"cdb"`
	Lun  int    `json:"lun"`
	Dev  string `json:"dev"`
	Lba  int    `json:"lba"`
	N    int    `json:"n"`
	Toks []int  `json:"toks"`
	Imm  int    `json:"imm"`
	Len  int    `json:"len"` // bytes that go out or come in
}
type thread struct {
	Tgt   string `json:"tgt"`
	Ini   string `json:"ini"`
	Isid  uint64 `json:"isid"`
	Depth int    `json:"depth"`
	Ops   []op   `json:"ops"`
}
type scen struct {
	Port    int      `json:"port"`
	Threads []thread `json:"threads"`
	Ms      int      `json:"ms"`
}
type ev map[string]interface{}

var mu sync.Mutex
var evs []ev
var ids int

func add(e ev) {
	mu.Lock()
	evs = append(evs, e)
	mu.Unlock()
}

// ---- block contents
func rotl(v uint32, r int) uint32 { r %= 24; return (v<<uint(r) | v>>uint(24-r)) & 0xffffff }
func block(v int) []byte {
	b := make([]byte, 512)
	for i := 0; i < 128; i++ {
		binary.BigEndian.PutUint32(b[4*i:], rotl(uint32(v), i%24))
	}
	return b
}
func token(b []byte) int {
	v := int(binary.BigEndian.Uint32(b))
	if v > 0xffffff {
		return -1
	}
	w := block(v)
	for i := range b {
		if b[i] != w[i] {
			return -1
		}
	}
	return v
}

// ---- one connection
type conn struct {
	c      net.Conn
	r      *bufio.Reader
	cmdsn  uint32
	estat  uint32
	itt    uint32
	tsih   uint16
	lastIs bool
}

func put(h []byte, off int, v uint32) { binary.BigEndian.PutUint32(h[off:], v) }
func pad(b []byte) []byte {
	for len(b)%4 != 0 {
		b = append(b, 0)
	}
	return b
}
func hdr(opc byte, fl byte, dlen int) []byte {
	h := make([]byte, 48)
	h[0], h[1] = opc, fl
	h[5], h[6], h[7] = byte(dlen>>16), byte(dlen>>8), byte(dlen)
	return h
}
func (c *conn) recv() ([]byte, []byte, error) {
	c.c.SetReadDeadline(time.Now().Add(deadline))
	h := make([]byte, 48)
	if _, err := io.ReadFull(c.r, h); err != nil {
		return nil, nil, err
	}
	n := int(h[5])<<16 | int(h[6])<<8 | int(h[7])
	d := make([]byte, (n+3)/4*4+int(h[4])*4)
	if _, err := io.ReadFull(c.r, d); err != nil {
		return nil, nil, err
	}
	return h, d[int(h[4])*4:][:n], nil
}
// source addresses in turn, so that ports of connections just closed are not needed again soon
var sources uint32

func dial(port int) (*conn, error) {
	k := atomic.AddUint32(&sources, 1)
	d := net.Dialer{Timeout: deadline, LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, 2, byte(1+k%200))}}
	n, err := d.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		return nil, err
	}
	return &conn{c: n, r: bufio.NewReaderSize(n, 65536), cmdsn: 1, itt: 0x10}, nil
}

// keys that every login of a storm carries
var more string

var errRefused = errors.New("login refused")

func (c *conn) login(tgt, ini string, isid uint64) error {
	t := "InitiatorName=" + ini + "\x00"
	if tgt != "" {
		t += "SessionType=Normal\x00TargetName=" + tgt + "\x00"
	} else {
		t += "SessionType=Discovery\x00"
	}
	t += more
	h := hdr(0x43, 0x87, len(t))
	for i := 0; i < 6; i++ {
		h[8+i] = byte(isid >> uint(40-8*i))
	}
	put(h, 16, 1)
	put(h, 24, c.cmdsn)
	if _, err := c.c.Write(append(h, pad([]byte(t))...)); err != nil {
		return err
	}
	a, _, err := c.recv()
	if err != nil {
		return err
	}
	if a[0]&0x3f != 0x23 || a[36] != 0 || a[1]&0x83 != 0x83 {
		return errRefused
	}
	c.tsih = binary.BigEndian.Uint16(a[14:])
	c.estat = binary.BigEndian.Uint32(a[24:]) + 1
	return nil
}
func (c *conn) logout() error {
	h := hdr(0x46, 0x80, 0)
	c.itt++
	put(h, 16, c.itt)
	put(h, 24, c.cmdsn)
	put(h, 28, c.estat)
	if _, err := c.c.Write(h); err != nil {
		return err
	}
	a, _, err := c.recv()
	if err != nil {
		return err
	}
	if a[0]&0x3f != 0x26 {
		return errors.New("no logout response")
	}
	return nil
}
func (c *conn) ping() error {
	h := hdr(0x40, 0x80, 4)
	c.itt++
	put(h, 16, c.itt)
	put(h, 20, 0xffffffff)
	put(h, 24, c.cmdsn)
	if _, err := c.c.Write(append(h, 1, 2, 3, 4)); err != nil {
		return err
	}
	a, d, err := c.recv()
	if err != nil {
		return err
	}
	if a[0]&0x3f != 0x20 || len(d) != 4 {
		return errors.New("no ping answer")
	}
	return nil
}

type pend struct {
	o    op
	id   int
	data []byte
	in   []byte
}

func (c *conn) send(o op, id int, m map[uint32]*pend) error {
	cdb, _ := hex.DecodeString(o.CDB)
	p := &pend{o: o, id: id}
	fl := byte(0x80)
	if o.K == "w" || o.K == "or" || o.K == "vq" || o.K == "same" {
		for _, t := range o.Toks {
			p.data = append(p.data, block(t)...)
		}
		fl |= 0x20
	} else if o.Len > 0 {
		fl |= 0x40
	}
	imm := o.Imm
	if imm > len(p.data) {
		imm = len(p.data)
	}
	h := hdr(1, fl, imm)
	binary.BigEndian.PutUint16(h[8:], uint16(o.Lun))
	c.itt++
	m[c.itt] = p
	put(h, 16, c.itt)
	put(h, 20, uint32(o.Len))
	put(h, 24, c.cmdsn)
	put(h, 28, c.estat)
	copy(h[32:], cdb)
	c.cmdsn++
	_, err := c.c.Write(append(h, pad(append([]byte{}, p.data[:imm]...))...))
	return err
}

// take one PDU; the finished command, if any, with its status
func (c *conn) take(m map[uint32]*pend) (*pend, int, error) {
	a, d, err := c.recv()
	if err != nil {
		return nil, 0, err
	}
	itt := binary.BigEndian.Uint32(a[16:])
	p := m[itt]
	if p == nil {
		return nil, 0, fmt.Errorf("answer %02x to unknown tag %x", a[0], itt)
	}
	switch a[0] & 0x3f {
	case 0x31:
		ttt, off, left := a[20:24], int(binary.BigEndian.Uint32(a[40:])), int(binary.BigEndian.Uint32(a[44:]))
		sn := 0
		for left > 0 {
			n := left
			if n > 8192 {
				n = 8192
			}
			if off+n > len(p.data) {
				return nil, 0, errors.New("R2T beyond the data")
			}
			fl := byte(0)
			if n == left {
				fl = 0x80
			}
			h := hdr(5, fl, n)
			binary.BigEndian.PutUint16(h[8:], uint16(p.o.Lun))
			put(h, 16, itt)
			copy(h[20:], ttt)
			put(h, 28, c.estat)
			put(h, 36, uint32(sn))
			put(h, 40, uint32(off))
			if _, err := c.c.Write(append(h, pad(append([]byte{}, p.data[off:off+n]...))...)); err != nil {
				return nil, 0, err
			}
			off, left, sn = off+n, left-n, sn+1
		}
		return nil, 0, nil
	case 0x25:
		off := int(binary.BigEndian.Uint32(a[40:]))
		if off+len(d) > 1<<24 {
			return nil, 0, errors.New("Data-In far out")
		}
		for len(p.in) < off+len(d) {
			p.in = append(p.in, 0xee)
		}
		copy(p.in[off:], d)
		if a[1]&1 == 0 {
			return nil, 0, nil
		}
		c.estat = binary.BigEndian.Uint32(a[24:]) + 1
		delete(m, itt)
		return p, int(a[3]), nil
	case 0x21:
		c.estat = binary.BigEndian.Uint32(a[24:]) + 1
		delete(m, itt)
		return p, int(a[3]), nil
	}
	return nil, 0, fmt.Errorf("answer %02x", a[0])
}

func work(port int, t thread, start *sync.WaitGroup) {
	c, err := dial(port)
	if err == nil {
		err = c.login(t.Tgt, t.Ini, t.Isid)
	}
	start.Done()
	if err != nil {
		add(ev{"e": "bad", "what": "nologin", "why": err.Error()})
		return
	}
	start.Wait()
	m := map[uint32]*pend{}
	fail := func(err error) {
		what := "noresponse"
		if e, ok := err.(net.Error); !ok || !e.Timeout() {
			what = "closed"
		}
		add(ev{"e": "bad", "what": what, "why": err.Error()})
		c.c.Close()
	}
	drain := func(n int) bool {
		for len(m) > n {
			p, st, err := c.take(m)
			if err != nil {
				fail(err)
				return false
			}
			if p == nil {
				continue
			}
			vals := []int{}
			if p.o.K == "r" && st == 0 {
				for k := 0; k+512 <= len(p.in); k += 512 {
					vals = append(vals, token(p.in[k:k+512]))
				}
			}
			add(ev{"e": "ret", "id": p.id, "st": st, "vals": vals, "len": len(p.in)})
		}
		return true
	}
	for _, o := range t.Ops {
		switch o.K {
		case "relog", "drop", "cut":
			if o.K != "cut" && !drain(0) {
				return
			}
			if o.K == "relog" {
				if err := c.logout(); err != nil {
					fail(err)
					return
				}
			}
			c.c.Close()
			m = map[uint32]*pend{}
			if c, err = dial(port); err == nil {
				err = c.login(t.Tgt, t.Ini, t.Isid)
			}
			if err != nil {
				add(ev{"e": "bad", "what": "nologin", "why": err.Error()})
				return
			}
		case "ping":
			if !drain(0) {
				return
			}
			if err := c.ping(); err != nil {
				fail(err)
				return
			}
		case "sleep":
			time.Sleep(time.Duration(o.N) * time.Microsecond)
		default:
			if !drain(t.Depth - 1) {
				return
			}
			mu.Lock()
			ids++
			id := ids
			evs = append(evs, ev{"e": "call", "id": id, "k": o.K, "dev": o.Dev, "lba": o.Lba, "n": o.N, "toks": o.Toks})
			mu.Unlock()
			if err := c.send(o, id, m); err != nil {
				fail(err)
				return
			}
		}
	}
	if drain(0) {
		c.c.Close()
	}
}

func ioMain() {
	var s scen
	if err := json.NewDecoder(os.Stdin).Decode(&s); err != nil {
		panic(err)
	}
	if s.Ms > 0 {
		deadline = time.Duration(s.Ms) * time.Millisecond
	}
	var wg, st sync.WaitGroup
	st.Add(len(s.Threads))
	for _, t := range s.Threads {
		wg.Add(1)
		go func(t thread) { defer wg.Done(); work(s.Port, t, &st) }(t)
	}
	wg.Wait()
	json.NewEncoder(os.Stdout).Encode(evs)
}

func main() {
	if os.Args[1] == "io" {
		ioMain()
		return
	}
	port, _ := strconv.Atoi(os.Args[1])
	kind, tgt := os.Args[2], os.Args[4]
	n, _ := strconv.Atoi(os.Args[3])
	failed, first, why := 0, -1, ""
	var prev *conn
	bad := func(i int, err error) {
		if failed++; first < 0 {
			first, why = i, fmt.Sprint(err)
		}
	}
	for i := 0; i < n && failed < 3; i++ {
		c, err := dial(port)
		if err != nil {
			bad(i, err)
			continue
		}
		ini := "iqn.2026-01.verif:storm"
		switch kind {
		case "logout", "many", "half":
			more = "InitiatorAlias=host\x00"
		case "drop", "fail":
			more = "HeaderDigest=None\x00DataDigest=None\x00ErrorRecoveryLevel=0\x00MaxConnections=1\x00"
		case "reinst":
			more = "MaxRecvDataSegmentLength=262144\x00InitialR2T=Yes\x00X-com.example.key=1\x00"
		}
		switch kind {
		case "fail": // names nobody
			if err := c.login(tgt+"x", ini, 0x800000000077); err == nil {
				bad(i, errors.New("login accepted"))
			}
			c.c.Close()
			continue
		case "half": // leaves in the middle of the login
			h := hdr(0x43, 0x04, 0)
			put(h, 16, 1)
			put(h, 24, 1)
			c.c.Write(h)
			c.recv()
			c.c.Close()
			continue
		case "open":
			c.c.Close()
			continue
		}
		isid := uint64(0x800000000077)
		if kind == "many" { // another session each time
			isid = 0x800000000000 + uint64(i)
		}
		t := tgt
		if kind == "disc" {
			t = ""
		}
		if err := c.login(t, ini, isid); err != nil {
			bad(i, err)
			c.c.Close()
			continue
		}
		if kind != "disc" && c.tsih == 0 {
			bad(i, errors.New("handle zero"))
		}
		switch kind {
		case "logout", "many", "disc":
			if err := c.logout(); err != nil {
				bad(i, err)
			}
			c.c.Close()
		case "drop":
			c.c.Close()
		case "reinst":
			if prev != nil {
				if _, _, err := prev.recv(); err == nil {
					bad(i, errors.New("the replaced session went on"))
				} else if e, ok := err.(net.Error); ok && e.Timeout() {
					bad(i, errors.New("the replaced session stayed open"))
				}
				prev.c.Close()
			}
			prev = c
		}
		if i%997 == 0 && kind == "reinst" {
			if err := c.ping(); err != nil {
				bad(i, err)
			}
		}
	}
	// and one more that works
	if prev != nil {
		prev.c.Close()
	}
	if failed == 0 {
		c, err := dial(port)
		if err == nil {
			err = c.login(tgt, "iqn.2026-01.verif:last", 0x800000000099)
		}
		if err == nil {
			err = c.ping()
		}
		if err == nil {
			err = c.logout()
		}
		if err != nil {
			bad(n, err)
		}
		if c != nil {
			c.c.Close()
		}
	}
	json.NewEncoder(os.Stdout).Encode(map[string]interface{}{"failed": failed, "first": first, "err": why})
}
