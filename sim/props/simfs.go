package props

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing/fstest"
	"time"

	"verifsim/harness"
	"verifsim/simrt"
)

// fault of one file.
type fileFault struct {
	Kind string `json:"kind"` // missing eio-open eacces emfile eio-read slow short stat
	At   int    `json:"at,omitempty"`
	N    int    `json:"n,omitempty"` // fails only the first N times (0: always)
}

// disk is the simulated local disk: latency, faults and a log of every operation.
type disk struct {
	root   string
	e      *harness.Env
	r      *simrt.Rand
	lat    int // maximum latency of an operation, microseconds
	faults map[string]*fileFault
	opens  map[string]int
	loads  map[string]int // opens whose content was read
	reads  map[string]int
	pos    map[string]int // bytes delivered since the last open
	failed map[string]int // faults that fired
	off    bool
	mu     sync.Mutex
}

const vroot = "/vsim"

var scratch string

// mount makes files visible below /vsim through the os seam; unmount by the returned function.
func (d *disk) mount(files map[string][]byte) func() {
	if scratch == "" {
		dir, err := os.MkdirTemp("", "verifsim")
		if err != nil {
			panic(err)
		}
		scratch = dir
		harness.AtExit(func() { os.RemoveAll(dir) })
	}
	real := filepath.Join(scratch, "d")
	os.RemoveAll(real)
	for p, b := range files {
		if f := d.faults[p]; f != nil && f.Kind == "missing" {
			continue
		}
		fp := filepath.Join(real, p)
		if err := os.MkdirAll(filepath.Dir(fp), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(fp, b, 0o644); err != nil {
			panic(err)
		}
		os.Chtimes(fp, time.Unix(1700000000, 0), time.Unix(1700000000, 0))
	}
	d.init()
	os.VerifRoot, os.VerifReal = vroot, real
	os.VerifOp = func(op, name string, n int) (int, error) { return d.op(op, strings.TrimPrefix(name, vroot+"/"), n) }
	return func() { os.VerifRoot, os.VerifOp = "", nil; os.RemoveAll(real) }
}

func (d *disk) init() {
	d.opens, d.loads, d.reads, d.pos, d.failed = map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
}

func (d *disk) op(op, p string, n int) (int, error) {
	if d.off {
		return n, nil
	}
	var nap time.Duration
	d.mu.Lock()
	if d.lat > 0 {
		if us := d.r.N(d.lat + 1); us > 0 {
			d.e.Fault("io-latency")
			nap = time.Duration(us) * time.Microsecond
		}
	}
	if nap > 0 {
		d.mu.Unlock()
		time.Sleep(nap)
		d.mu.Lock()
		nap = 0
	}
	n, err := d.decide(op, p, n, &nap)
	d.mu.Unlock()
	if nap > 0 {
		time.Sleep(nap)
	}
	return n, err
}

func (d *disk) decide(op, p string, n int, nap *time.Duration) (int, error) {
	f := d.faults[p]
	fire := func() bool {
		if f.N > 0 && d.failed[p] >= f.N {
			return false
		}
		d.failed[p]++
		d.e.Fault("disk-" + f.Kind)
		return true
	}
	switch op {
	case "open":
		d.opens[p]++
		d.pos[p] = 0
		if f != nil {
			switch f.Kind {
			case "eio-open":
				if fire() {
					return 0, syscall.EIO
				}
			case "eacces":
				if fire() {
					return 0, syscall.EACCES
				}
			case "emfile":
				if fire() {
					return 0, syscall.EMFILE
				}
			case "slow":
				fire()
				*nap = time.Duration(f.At) * time.Millisecond
			}
		}
	case "stat", "lstat":
		if f != nil && f.Kind == "stat" && fire() {
			return 0, syscall.EIO
		}
	case "read":
		d.reads[p]++
		if d.pos[p] == 0 && n > 0 {
			d.loads[p]++ // the first read after an open
			d.pos[p] = 0
		}
		if f != nil && f.Kind == "eio-read" {
			if d.pos[p] >= f.At {
				if fire() {
					return 0, syscall.EIO
				}
			} else if n > f.At-d.pos[p] {
				n = f.At - d.pos[p]
			}
		}
		if f != nil && f.Kind == "short" && n > 0 {
			fire()
			n = 1 + d.r.N(min(n, 40))
		}
		d.pos[p] += n
	}
	return n, nil
}

var errInjected = errors.New("injected")

// memFS is a custom fs.FS over the same simulated disk.
type memFS struct {
	d *disk
	m fstest.MapFS
}

func newMemFS(d *disk, files map[string][]byte) *memFS {
	d.mu.Lock()
	if d.opens == nil {
		d.init()
	}
	d.mu.Unlock()
	m := fstest.MapFS{}
	for p, b := range files {
		if f := d.faults[p]; f != nil && f.Kind == "missing" {
			continue
		}
		m[p] = &fstest.MapFile{Data: b, Mode: 0o644, ModTime: time.Unix(1700000000, 0)}
	}
	return &memFS{d, m}
}

func (m *memFS) Open(name string) (fs.File, error) {
	f, err := m.m.Open(name)
	if err != nil {
		return nil, err
	}
	if st, _ := f.Stat(); st != nil && st.IsDir() {
		return f, nil
	}
	if _, err := m.d.op("open", name, 0); err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	return &memFile{f, m.d, name}, nil
}

type memFile struct {
	fs.File
	d    *disk
	name string
}

func (f *memFile) Stat() (fs.FileInfo, error) {
	if _, err := f.d.op("stat", f.name, 0); err != nil {
		return nil, &fs.PathError{Op: "stat", Path: f.name, Err: err}
	}
	return f.File.Stat()
}

func (f *memFile) Read(b []byte) (int, error) {
	n, err := f.d.op("read", f.name, len(b))
	if err != nil {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: err}
	}
	k, err := f.File.Read(b[:n])
	f.d.mu.Lock()
	f.d.pos[f.name] += k - n
	f.d.mu.Unlock()
	return k, err
}

func dumpDisk(d *disk) string {
	return fmt.Sprintf("opens=%v loads=%v reads=%v fired=%v", d.opens, d.loads, d.reads, d.failed)
}
