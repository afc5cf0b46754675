// tgtsrv runs the real gotgt target (scsi + iscsit packages built from /repo)
// in one process, configured and observed over a JSON line channel.
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/port/iscsit"
	"github.com/gostor/gotgt/pkg/scsi"
	_ "github.com/gostor/gotgt/pkg/scsi/backingstore"
	"github.com/gostor/gotgt/pkg/scsi/backingstore/remote"
	log "github.com/sirupsen/logrus"
)

type storeCfg struct {
	Size   int64  `json:"size"`
	Sparse bool   `json:"sparse"` // only the blocks written are kept; any size
	Image  string `json:"image"`  // path of a file with the initial image
	Quiet  bool   `json:"quiet"`
}

type remCfg struct {
	Target     string `json:"target"`
	LUN        uint64 `json:"lun"`
	Store      string `json:"store"`
	DeviceID   uint64 `json:"deviceID"`
	BlockShift uint   `json:"blockShift"`
	Thin       bool   `json:"thin"`
}

type srvCfg struct {
	Port      int                 `json:"port"`
	Stats     bool                `json:"stats"`
	ClusterIP string              `json:"cluster_ip"`
	BlockMult bool                `json:"block_multi"`
	NoRun     bool                `json:"norun"`
	Stores    map[string]storeCfg `json:"stores"`
	Rembs     []remCfg            `json:"rembs"`
	Config    config.Config       `json:"config"`
	Order     []string            `json:"order"` // creation order of targets
	Log       string              `json:"log"`
	MaxProcs  int                 `json:"maxprocs"`
}

var (
	outMu sync.Mutex
	out   = bufio.NewWriter(os.Stdout)
)

func reply(m map[string]interface{}) {
	outMu.Lock()
	defer outMu.Unlock()
	b, _ := json.Marshal(m)
	out.Write(b)
	out.WriteByte('\n')
	out.Flush()
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "tgtsrv:", err)
	os.Exit(3)
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	line, err := in.ReadBytes('\n')
	if err != nil {
		die(err)
	}
	var cfg srvCfg
	if err := json.Unmarshal(line, &cfg); err != nil {
		die(err)
	}
	log.SetLevel(log.PanicLevel)
	log.SetOutput(io.Discard)
	if cfg.Log != "" {
		lv, _ := log.ParseLevel(cfg.Log)
		log.SetLevel(lv)
		log.SetOutput(os.Stderr)
	}
	if cfg.MaxProcs > 0 {
		runtime.GOMAXPROCS(cfg.MaxProcs)
	}
	for name, sc := range cfg.Stores {
		if sc.Sparse {
			sparses[name] = &sparseStore{size: sc.Size, at: map[int64][]byte{}, dur: map[int64][]byte{}}
			continue
		}
		img := make([]byte, sc.Size)
		if sc.Image != "" {
			if img, err = os.ReadFile(sc.Image); err != nil {
				die(err)
			}
		}
		stores[name] = newRecStore(name, img)
		stores[name].quiet = sc.Quiet
	}
	// The plug-in is registered under the name "verif"; Open gets the store
	// name as path, so a thin wrapper resolves it there.
	scsi.RegisterBackingStore("verif", func() (api.BackingStore, error) { return &lazyStore{}, nil })
	iscsit.EnableStats = cfg.Stats
	if err := scsi.InitSCSILUMap(&cfg.Config); err != nil {
		die(err)
	}
	for _, r := range cfg.Rembs {
		st := stores[r.Store]
		remote.Size = uint64(len(st.vol))
		bs := &config.BackendStorage{DeviceID: r.DeviceID, Path: "RemBs:" + r.Target, Online: true, BlockShift: r.BlockShift, ThinProvisioning: r.Thin}
		if err := scsi.InitSCSILUMapEx(bs, r.Target, r.LUN, &remAdapter{st}); err != nil {
			die(err)
		}
	}
	svc := scsi.NewSCSITargetService()
	driver, err := scsi.NewTargetDriver("iscsi", svc)
	if err != nil {
		die(err)
	}
	order := cfg.Order
	if len(order) == 0 {
		for n := range cfg.Config.ISCSITargets {
			order = append(order, n)
		}
		sort.Strings(order)
	}
	for _, n := range order {
		if err := driver.NewTarget(n, &cfg.Config); err != nil {
			die(err)
		}
	}
	if cfg.ClusterIP != "" {
		driver.SetClusterIP(cfg.ClusterIP)
	}
	if cfg.BlockMult {
		driver.EnableBlockMultipleHostLogin()
	}
	runDone := make(chan error, 16)
	run := func(port int) { go func() { runDone <- driver.Run(port) }() }
	if !cfg.NoRun {
		run(cfg.Port)
	}
	reply(map[string]interface{}{"ready": true})
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var q map[string]interface{}
		if err := json.Unmarshal(line, &q); err != nil {
			die(err)
		}
		r := handle(q, svc, driver, &cfg, run, runDone)
		r["id"] = q["id"]
		reply(r)
	}
}

type lazyStore struct{ api.BackingStore }

func (l *lazyStore) Open(dev *api.SCSILu, path string) error {
	if st, ok := stores[path]; ok {
		l.BackingStore = st
		return nil
	}
	st, ok := sparses[path]
	if !ok {
		return fmt.Errorf("no store %q", path)
	}
	l.BackingStore = st
	return nil
}

func num(v interface{}) int64 {
	f, _ := v.(float64)
	return int64(f)
}
func str(v interface{}) string {
	s, _ := v.(string)
	return s
}

type statser interface{ Stats() scsi.Stats }

func handle(q map[string]interface{}, svc *scsi.SCSITargetService, driver scsi.SCSITargetDriver, cfg *srvCfg, run func(int), runDone chan error) map[string]interface{} {
	r := map[string]interface{}{}
	st := stores[str(q["store"])]
	fail := func(e error) map[string]interface{} { r["err"] = e.Error(); return r }
	switch str(q["cmd"]) {
	case "ping":
	case "dump":
		st.mu.Lock()
		img := st.vol
		if str(q["which"]) == "dur" {
			img = st.dur
		}
		r["b64"] = base64.StdEncoding.EncodeToString(img)
		st.mu.Unlock()
	case "sdump":
		r["blocks"] = sparses[str(q["store"])].dump(str(q["which"]))
	case "save":
		st.mu.Lock()
		img := st.vol
		if str(q["which"]) == "dur" {
			img = st.dur
		}
		err := os.WriteFile(str(q["path"]), img, 0600)
		st.mu.Unlock()
		if err != nil {
			return fail(err)
		}
	case "ops":
		st.mu.Lock()
		r["ops"] = st.ops
		if r["ops"] == nil || len(st.ops) == 0 {
			r["ops"] = []int{}
		}
		r["n"] = st.nOps
		st.ops = nil
		st.mu.Unlock()
	case "fault":
		b, _ := json.Marshal(q["faults"])
		var fs []*fault
		if err := json.Unmarshal(b, &fs); err != nil {
			return fail(err)
		}
		st.mu.Lock()
		st.faults = fs
		st.mu.Unlock()
	case "crashat":
		st.mu.Lock()
		st.crashAt = int(num(q["n"]))
		if st.crashAt > 0 {
			st.crashAt += st.nOps
		}
		st.mu.Unlock()
	case "gate":
		st.mu.Lock()
		st.gates[str(q["op"])] = &gate{release: make(chan struct{})}
		st.mu.Unlock()
	case "gatewait":
		want := int(num(q["n"]))
		dl := time.Now().Add(time.Duration(num(q["ms"])) * time.Millisecond)
		for {
			st.mu.Lock()
			g := st.gates[str(q["op"])]
			a := 0
			if g != nil {
				a = g.arrived
			}
			st.mu.Unlock()
			r["arrived"] = a
			if a >= want || time.Now().After(dl) {
				break
			}
			time.Sleep(200 * time.Microsecond)
		}
	case "ungate":
		st.mu.Lock()
		if g := st.gates[str(q["op"])]; g != nil {
			close(g.release)
			delete(st.gates, str(q["op"]))
		}
		st.mu.Unlock()
	case "resize":
		if err := driver.Resize(uint64(num(q["size"]))); err != nil {
			return fail(err)
		}
		if num(q["grow"]) != 0 {
			for _, s := range stores {
				s.mu.Lock()
				if n := int(num(q["size"])); n > len(s.vol) {
					s.vol = append(s.vol, make([]byte, n-len(s.vol))...)
				}
				s.mu.Unlock()
			}
		}
	case "attr":
		lu := scsi.GetLU(str(q["target"]), uint64(num(q["lun"])))
		if lu == nil {
			return fail(fmt.Errorf("no lu"))
		}
		switch str(q["attr"]) {
		case "ro":
			lu.Attrs.Readonly = num(q["v"]) != 0
		case "swp":
			lu.Attrs.SWP = num(q["v"]) != 0
		case "online":
			lu.Attrs.Online = num(q["v"]) != 0
		case "removable":
			lu.Attrs.Removable = num(q["v"]) != 0
		}
	case "addlun":
		scsi.AddLUNMapping(scsi.LUNMapping{TargetName: str(q["target"]), LUN: uint64(num(q["lun"])), DeviceID: uint64(num(q["dev"]))})
		if num(q["reread"]) != 0 {
			svc.RereadTargetLUNMap()
		}
	case "dellun":
		scsi.DelLUNMapping(scsi.LUNMapping{TargetName: str(q["target"]), LUN: uint64(num(q["lun"])), DeviceID: uint64(num(q["dev"]))})
		if num(q["reread"]) != 0 {
			svc.RereadTargetLUNMap()
		}
	case "stats":
		s := driver.(statser).Stats()
		c := map[string]int64{}
		for k, v := range s.SCSIIOCount {
			c[fmt.Sprint(k)] = v
		}
		r["stats"] = map[string]interface{}{"riops": s.ReadIOPS, "wiops": s.WriteIOPS, "rvol": s.TotalReadBlockCount, "wvol": s.TotalWriteBlockCount, "io": c}
	case "stats_alias":
		// a snapshot must be an independent copy
		s := driver.(statser).Stats()
		for k := range s.SCSIIOCount {
			s.SCSIIOCount[k] += 1000003
		}
		s.SCSIIOCount[9999] = 7
	case "stats_hold":
		held = append(held, driver.(statser).Stats())
		r["n"] = len(held)
	case "stats_held":
		s := held[int(num(q["i"]))]
		c := map[string]int64{}
		for k, v := range s.SCSIIOCount {
			c[fmt.Sprint(k)] = v
		}
		r["stats"] = map[string]interface{}{"riops": s.ReadIOPS, "wiops": s.WriteIOPS, "rvol": s.TotalReadBlockCount, "wvol": s.TotalWriteBlockCount, "io": c}
	case "list":
		l, err := svc.GetTargetList()
		if err != nil {
			return fail(err)
		}
		res := []map[string]interface{}{}
		for i := range l {
			tags := []string{}
			ids := map[string]bool{}
			for id, n := range l[i].ITNexus {
				tags = append(tags, n.Tag)
				ids[id.String()] = true
			}
			sort.Strings(tags)
			res = append(res, map[string]interface{}{"name": l[i].Name, "nexus": tags, "ids": len(ids)})
		}
		r["targets"] = res
	case "listloop":
		// hammer the management listing (encoded as the API does) for some time
		dl := time.Now().Add(time.Duration(num(q["ms"])) * time.Millisecond)
		n := 0
		sizes := map[int]bool{}
		for time.Now().Before(dl) {
			l, err := svc.GetTargetList()
			if err != nil {
				return fail(err)
			}
			sizes[len(l)] = true
			if _, err := json.Marshal(l); err != nil {
				return fail(err)
			}
			n++
		}
		r["n"] = n
		ks := []int{}
		for k := range sizes {
			ks = append(ks, k)
		}
		r["sizes"] = ks
	case "newtarget":
		var c config.Config
		b, _ := json.Marshal(q["config"])
		if err := json.Unmarshal(b, &c); err != nil {
			return fail(err)
		}
		if err := driver.NewTarget(str(q["name"]), &c); err != nil {
			return fail(err)
		}
	case "close":
		if err := driver.Close(); err != nil {
			return fail(err)
		}
		select {
		case <-runDone:
			r["run_returned"] = true
		case <-time.After(5 * time.Second):
			r["run_returned"] = false
		}
	case "run":
		run(int(num(q["port"])))
	case "goroutines":
		r["n"] = runtime.NumGoroutine()
		if num(q["stack"]) != 0 {
			buf := make([]byte, 1<<20)
			r["stack"] = string(buf[:runtime.Stack(buf, true)])
		}
	case "clusterip":
		driver.SetClusterIP(str(q["ip"]))
	default:
		return fail(fmt.Errorf("unknown cmd %v", strings.TrimSpace(str(q["cmd"]))))
	}
	return r
}

var held []scsi.Stats
