// Package simfs is the simulated disk: a file system with a page cache, crash and
// power-loss semantics and injected faults.
//
// Model. Every file has its current contents (what processes see) and its durable
// contents plus the operations since its last fsync. A process kill loses nothing
// but a write in progress may be partial. A power loss keeps the durable contents and
// an arbitrary part of the later operations: none, all, a prefix with a torn last
// write, an arbitrary subset, or a grown size with zeros for data. Directory changes
// are journalled in order per directory: fsync of a file makes the changes of its
// directory durable up to that point, a power loss keeps a prefix of the others.
package simfs

import (
	"errors"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"

	"verif.local/ds/simrt"
)

// Kind of an I/O event.
type Kind int

const (
	KOpen Kind = iota
	KCreate
	KRead
	KWrite
	KSync
	KTrunc
	KRemove
	KMkdir
	KStat
	KReadDir
	KRename
	KKVOpen
	KKVGet
	KKVPut
	KKVWrite
	KKVSync
	KKVIter
	NKinds
)

var kindNames = [...]string{"open", "create", "read", "write", "sync", "truncate", "remove", "mkdir", "stat", "readdir", "rename", "kvopen", "kvget", "kvput", "kvwrite", "kvsync", "kviter"}

func (k Kind) String() string { return kindNames[k] }

// Fault to apply at an I/O event.
type Fault struct {
	At    int64  `json:"at"`              // number of the event within the op, counted from 1 (or the n-th of Kind if KindN>=0)
	Kind  int    `json:"kind"`            // restrict counting to this kind (-1: all)
	What  string `json:"what"`            // eio | enospc | short | crash | power | lostsync
	Part  int    `json:"part,omitempty"`  // for writes: how many per mille of the bytes are applied
	Stick bool   `json:"stick,omitempty"` // the fault repeats for all later events of the kind
}

type op struct {
	trunc bool
	off   int64
	data  []byte // written bytes (shared with the file's buffer: never modified)
	size  int64
	lost  bool // fsync reported failure: the pages were marked clean without being written
}

type inode struct {
	data   []byte
	own    bool // data's array is not shared with dur or another clone
	dur    []byte
	pend   []op
	kv     *KV
	nlink  int
	opened int
}

type node struct {
	name   string
	parent *node
	dir    bool
	ents   map[string]*node
	ino    *inode
	// directory journal
	base map[string]*node // durable entries (nil: same as ents)
	jr   []jop
}

type jop struct {
	name string
	n    *node // nil: removed
}

// FS is one simulated disk.
type FS struct {
	root *node
	// Faults of the current op
	Faults []Fault
	Ev     int64 // events in the current op
	EvK    [NKinds]int64
	Count  [NKinds]int64 // over the whole run
	Fired  map[string]int64
	Bytes  int64
	// OnCrash is called (in the running task) for a crash or power fault; it does not return normally if the process dies.
	OnCrash func(power bool)
	rng     simrt.Rng
	// Trace, if set, receives each event
	Trace func(string)
	Open  int
	// KVCompactP is the probability of a key-value compaction at each access.
	KVCompactP float64
	down       bool
}

func New(seed uint64) *FS {
	return &FS{root: &node{dir: true, ents: map[string]*node{}}, Fired: map[string]int64{}, rng: simrt.NewRng(seed)}
}

// Cur is the disk that the system under test uses.
var Cur *FS

var (
	ErrIO    = syscall.EIO
	ErrSpace = syscall.ENOSPC
)

func (f *FS) Reseed(seed uint64) { f.rng = simrt.NewRng(seed) }

// BeginOp restarts event counting.
func (f *FS) BeginOp(faults []Fault) {
	f.Ev = 0
	f.EvK = [NKinds]int64{}
	f.Faults = faults
}

// Event counts one I/O operation, lets other tasks run, and returns the fault to apply.
func (f *FS) Event(k Kind, p string, n int) (*Fault, error) {
	if simrt.Dying() {
		return nil, ErrIO
	}
	simrt.SyncPoint()
	if simrt.Dying() {
		return nil, ErrIO
	}
	if f.down {
		return nil, ErrIO
	}
	f.Ev++
	f.EvK[k]++
	f.Count[k]++
	if f.Trace != nil {
		f.Trace(fmt.Sprintf("%d %s %s %d", f.Ev, k, p, n))
	}
	for i := range f.Faults {
		ft := &f.Faults[i]
		at := f.Ev
		if ft.Kind >= 0 {
			if ft.Kind != int(k) {
				continue
			}
			at = f.EvK[k]
		}
		if at == ft.At || ft.Stick && at > ft.At {
			f.Fired[ft.What+"@"+k.String()]++
			if f.Trace != nil {
				f.Trace("  fault " + ft.What)
			}
			return ft, nil
		}
	}
	return nil, nil
}

// apply handles the faults that do not depend on the operation. ok means go on.
func (f *FS) Simple(ft *Fault) error {
	if ft == nil {
		return nil
	}
	switch ft.What {
	case "crash", "power":
		f.OnCrash(ft.What == "power")
		return ErrIO
	case "enospc":
		return ErrSpace
	default:
		return ErrIO
	}
}

func clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/work/" + p
	}
	return path.Clean(p)
}

func (f *FS) lookup(p string) *node {
	p = clean(p)
	n := f.root
	if p == "/" {
		return n
	}
	for _, c := range strings.Split(p[1:], "/") {
		if n == nil || !n.dir {
			return nil
		}
		n = n.ents[c]
	}
	return n
}

func (f *FS) parent(p string) (*node, string) {
	p = clean(p)
	return f.lookup(path.Dir(p)), path.Base(p)
}

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

func (d *node) set(name string, n *node) {
	if d.base == nil {
		d.base = map[string]*node{}
		for k, v := range d.ents {
			d.base[k] = v
		}
	}
	if n == nil {
		delete(d.ents, name)
	} else {
		d.ents[name] = n
		n.name, n.parent = name, d
	}
	d.jr = append(d.jr, jop{name, n})
}

// commit makes directory changes durable.
func (d *node) commit() { d.base, d.jr = nil, nil }

// Handle is an open file.
type Handle struct {
	fs     *FS
	n      *node
	Path   string
	off    int64
	rd, wr bool
	app    bool
	closed bool
}

const (
	OWronly = 1
	ORdwr   = 2
	OAppend = 0x400
	OCreate = 0x40
	OExcl   = 0x80
	OTrunc  = 0x200
	OSync   = 0x101000
)

func (f *FS) OpenFile(p string, flag int) (*Handle, error) {
	n := f.lookup(p)
	k := KOpen
	if n == nil && flag&OCreate != 0 {
		k = KCreate
	}
	ft, err := f.Event(k, p, flag)
	if err != nil {
		return nil, perr("open", p, err)
	}
	if err := f.Simple(ft); err != nil {
		return nil, perr("open", p, err)
	}
	n = f.lookup(p)
	if n == nil {
		if flag&OCreate == 0 {
			return nil, perr("open", p, syscall.ENOENT)
		}
		d, name := f.parent(p)
		if d == nil || !d.dir {
			return nil, perr("open", p, syscall.ENOENT)
		}
		n = &node{ino: &inode{nlink: 1, own: true}}
		d.set(name, n)
	} else if flag&(OCreate|OExcl) == OCreate|OExcl {
		return nil, perr("open", p, syscall.EEXIST)
	}
	if n.dir && flag&3 != 0 {
		return nil, perr("open", p, syscall.EISDIR)
	}
	h := &Handle{fs: f, n: n, Path: p, rd: flag&3 != OWronly, wr: flag&3 != 0, app: flag&OAppend != 0}
	if flag&OTrunc != 0 && h.wr && !n.dir {
		n.ino.truncate(0)
	}
	f.Open++
	return h, nil
}

func (i *inode) truncate(size int64) {
	if int64(len(i.data)) == size {
		return
	}
	i.pend = append(i.pend, op{trunc: true, size: size})
	if size < int64(len(i.data)) {
		i.data = i.data[:size:size]
	} else {
		i.data = append(i.data[:len(i.data):len(i.data)], make([]byte, size-int64(len(i.data)))...)
		i.own = true
	}
}

func (i *inode) write(off int64, b []byte) {
	if len(b) == 0 {
		return
	}
	c := append([]byte{}, b...)
	i.pend = append(i.pend, op{off: off, data: c})
	i.data, i.own = put(i.data, i.own, off, c)
}

// put writes b at off; appends may extend the array beyond what other users of it see.
func put(d []byte, own bool, off int64, b []byte) ([]byte, bool) {
	n := int64(len(d))
	if off > n {
		d = append(d, make([]byte, off-n)...)
		n = off
	}
	if off == n {
		return append(d, b...), own
	}
	if !own {
		d = append(make([]byte, 0, len(d)+len(d)/4+len(b)), d...)
		own = true
	}
	m := copy(d[off:], b)
	return append(d, b[m:]...), own
}

func (h *Handle) check(op string) error {
	if h == nil {
		return fs.ErrInvalid
	}
	if h.closed {
		return perr(op, h.Path, fs.ErrClosed)
	}
	return nil
}

func (h *Handle) WriteAt(b []byte, off int64) (int, error) {
	if err := h.check("write"); err != nil {
		return 0, err
	}
	if !h.wr {
		return 0, perr("write", h.Path, syscall.EBADF)
	}
	if off < 0 {
		return 0, perr("write", h.Path, syscall.EINVAL)
	}
	ft, err := h.fs.Event(KWrite, h.Path, len(b))
	if err != nil {
		return 0, perr("write", h.Path, err)
	}
	if ft != nil {
		k := len(b) * ft.Part / 1000
		if ft.What == "short" && k >= len(b) && k > 0 {
			k = len(b) - 1
		}
		h.n.ino.write(off, b[:k])
		switch ft.What {
		case "short": // os.File.Write turns a short count into an error only at 0; it retries like the real one
			h.fs.Bytes += int64(k)
			return k, perr("write", h.Path, ErrSpace)
		}
		return k, perr("write", h.Path, h.fs.Simple(ft))
	}
	h.fs.Bytes += int64(len(b))
	h.n.ino.write(off, b)
	return len(b), nil
}

func (h *Handle) Write(b []byte) (int, error) {
	if h == nil {
		return 0, fs.ErrInvalid
	}
	if h.app && !h.closed {
		h.off = int64(len(h.n.ino.data))
	}
	n, err := h.WriteAt(b, h.off)
	h.off += int64(n)
	return n, err
}

var errEOF = errors.New("EOF")

// ReadAt returns n, eof, err.
func (h *Handle) ReadAt(b []byte, off int64) (int, bool, error) {
	if err := h.check("read"); err != nil {
		return 0, false, err
	}
	if h.n.dir {
		return 0, false, perr("read", h.Path, syscall.EISDIR)
	}
	if !h.rd {
		return 0, false, perr("read", h.Path, syscall.EBADF)
	}
	if off < 0 {
		return 0, false, perr("read", h.Path, errors.New("negative offset"))
	}
	ft, err := h.fs.Event(KRead, h.Path, len(b))
	if err != nil {
		return 0, false, perr("read", h.Path, err)
	}
	if ft != nil {
		return 0, false, perr("read", h.Path, h.fs.Simple(ft))
	}
	d := h.n.ino.data
	if off >= int64(len(d)) {
		return 0, len(b) > 0, nil
	}
	n := copy(b, d[off:])
	return n, n < len(b), nil
}

func (h *Handle) Read(b []byte) (int, bool, error) {
	if h == nil {
		return 0, false, fs.ErrInvalid
	}
	n, eof, err := h.ReadAt(b, h.off)
	h.off += int64(n)
	return n, eof && n == 0, err
}

func (h *Handle) Seek(off int64, whence int) (int64, error) {
	if err := h.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
		h.off = off
	case 1:
		h.off += off
	case 2:
		if !h.n.dir {
			h.off = int64(len(h.n.ino.data)) + off
		}
	}
	if h.off < 0 {
		h.off = 0
		return 0, perr("seek", h.Path, syscall.EINVAL)
	}
	return h.off, nil
}

func (h *Handle) Sync() error {
	if err := h.check("sync"); err != nil {
		return err
	}
	ft, err := h.fs.Event(KSync, h.Path, 0)
	if err != nil {
		return perr("sync", h.Path, err)
	}
	if ft != nil {
		switch ft.What {
		case "crash", "power":
			return perr("sync", h.Path, h.fs.Simple(ft))
		case "nosync": // a disk that lies; not part of the fault model by default
			return nil
		}
		// the kernel marks the pages clean although they never reached the disk
		if !h.n.dir {
			for i := range h.n.ino.pend {
				if ft.Part < 500 || h.fs.rng.P(0.5) {
					h.n.ino.pend[i].lost = true
				}
			}
		}
		return perr("sync", h.Path, h.fs.Simple(ft))
	}
	h.fs.syncNode(h.n)
	return nil
}

func (f *FS) syncNode(n *node) {
	if n.dir {
		n.commit()
		return
	}
	i := n.ino
	lost := false
	for _, o := range i.pend {
		lost = lost || o.lost
	}
	if lost { // only the operations after the failed fsync reach the disk
		d, own := i.dur, false
		d = d[:len(d):len(d)]
		for _, o := range i.pend {
			if !o.lost {
				d, own = o.apply(d, own, -1)
			} else if !o.trunc {
				if end := o.off + int64(len(o.data)); end > int64(len(d)) {
					d = append(d, make([]byte, end-int64(len(d)))...)
					own = true
				}
			}
		}
		i.dur = d[:len(d):len(d)]
	} else {
		i.dur = i.data[:len(i.data):len(i.data)]
		i.own = false
	}
	i.pend = nil
	for p := n.parent; p != nil; p = p.parent {
		p.commit()
	}
}

func (o op) apply(d []byte, own bool, torn int) ([]byte, bool) {
	if o.trunc {
		if o.size <= int64(len(d)) {
			return d[:o.size:o.size], own
		}
		return append(d[:len(d):len(d)], make([]byte, o.size-int64(len(d)))...), true
	}
	b := o.data
	if torn >= 0 && torn < len(b) {
		b = b[:torn]
	}
	return put(d, own, o.off, b)
}

func (h *Handle) Truncate(size int64) error {
	if err := h.check("truncate"); err != nil {
		return err
	}
	if !h.wr {
		return perr("truncate", h.Path, syscall.EINVAL)
	}
	if size < 0 {
		return perr("truncate", h.Path, syscall.EINVAL)
	}
	ft, err := h.fs.Event(KTrunc, h.Path, int(size))
	if err != nil {
		return perr("truncate", h.Path, err)
	}
	if err := h.fs.Simple(ft); err != nil {
		return perr("truncate", h.Path, err)
	}
	h.n.ino.truncate(size)
	return nil
}

func (h *Handle) Close() error {
	if err := h.check("close"); err != nil {
		return err
	}
	h.closed = true
	h.fs.Open--
	return nil
}

func (h *Handle) IsDir() bool { return h.n.dir }
func (h *Handle) Size() int64 {
	if h.n.dir {
		return 4096
	}
	return int64(len(h.n.ino.data))
}
func (h *Handle) Stat() (Stat, error) {
	if err := h.check("stat"); err != nil {
		return Stat{}, err
	}
	ft, err := h.fs.Event(KStat, h.Path, 0)
	if err == nil {
		err = h.fs.Simple(ft)
	}
	if err != nil {
		return Stat{}, perr("stat", h.Path, err)
	}
	return statOf(h.n), nil
}

// Stat of a file.
type Stat struct {
	Name string
	Dir  bool
	Size int64
}

func statOf(n *node) Stat {
	s := Stat{Name: n.name, Dir: n.dir}
	if !n.dir {
		s.Size = int64(len(n.ino.data))
	}
	return s
}

func (f *FS) Stat(p string) (Stat, error) {
	ft, err := f.Event(KStat, p, 0)
	if err == nil {
		err = f.Simple(ft)
	}
	if err != nil {
		return Stat{}, perr("stat", p, err)
	}
	n := f.lookup(p)
	if n == nil {
		return Stat{}, perr("stat", p, syscall.ENOENT)
	}
	return statOf(n), nil
}

func (f *FS) ReadDir(p string) ([]Stat, error) {
	ft, err := f.Event(KReadDir, p, 0)
	if err == nil {
		err = f.Simple(ft)
	}
	if err != nil {
		return nil, perr("open", p, err)
	}
	n := f.lookup(p)
	if n == nil {
		return nil, perr("open", p, syscall.ENOENT)
	}
	if !n.dir {
		return nil, perr("open", p, syscall.ENOTDIR)
	}
	return n.list(), nil
}

func (n *node) list() []Stat {
	names := make([]string, 0, len(n.ents))
	for k := range n.ents {
		names = append(names, k)
	}
	sort.Strings(names)
	var res []Stat
	for _, k := range names {
		res = append(res, statOf(n.ents[k]))
	}
	return res
}

// ReadDirHandle lists an open directory.
func (h *Handle) List() ([]Stat, error) {
	if err := h.check("readdir"); err != nil {
		return nil, err
	}
	ft, err := h.fs.Event(KReadDir, h.Path, 0)
	if err == nil {
		err = h.fs.Simple(ft)
	}
	if err != nil {
		return nil, perr("readdir", h.Path, err)
	}
	if !h.n.dir {
		return nil, perr("readdir", h.Path, syscall.ENOTDIR)
	}
	return h.n.list(), nil
}

func (f *FS) Mkdir(p string) error {
	ft, err := f.Event(KMkdir, p, 0)
	if err == nil {
		err = f.Simple(ft)
	}
	if err != nil {
		return perr("mkdir", p, err)
	}
	if f.lookup(p) != nil {
		return perr("mkdir", p, syscall.EEXIST)
	}
	d, name := f.parent(p)
	if d == nil || !d.dir {
		return perr("mkdir", p, syscall.ENOENT)
	}
	n := &node{dir: true, ents: map[string]*node{}, name: name, parent: d}
	d.ents[name] = n
	if d.base != nil {
		d.base[name] = n
	}
	return nil
}

// MkdirQuiet makes a directory (and its parents) without an event.
func (f *FS) MkdirQuiet(p string) {
	p = clean(p)
	n := f.root
	for _, c := range strings.Split(strings.TrimPrefix(p, "/"), "/") {
		if c == "" {
			continue
		}
		m := n.ents[c]
		if m == nil {
			m = &node{dir: true, ents: map[string]*node{}, name: c, parent: n}
			n.ents[c] = m
			if n.base != nil {
				n.base[c] = m
			}
		}
		n = m
	}
}

func (f *FS) Remove(p string) error {
	ft, err := f.Event(KRemove, p, 0)
	if err == nil {
		err = f.Simple(ft)
	}
	if err != nil {
		return perr("remove", p, err)
	}
	n := f.lookup(p)
	if n == nil {
		return perr("remove", p, syscall.ENOENT)
	}
	if n.dir && len(n.ents) > 0 {
		return perr("remove", p, syscall.ENOTEMPTY)
	}
	d, name := f.parent(p)
	d.set(name, nil)
	return nil
}

func (f *FS) RemoveAll(p string) error {
	n := f.lookup(p)
	if n == nil {
		return nil
	}
	if n.dir {
		for _, s := range n.list() {
			if err := f.RemoveAll(path.Join(p, s.Name)); err != nil {
				return err
			}
		}
	}
	return f.Remove(p)
}

func (f *FS) Rename(a, b string) error {
	ft, err := f.Event(KRename, a, 0)
	if err == nil {
		err = f.Simple(ft)
	}
	if err != nil {
		return perr("rename", a, err)
	}
	n := f.lookup(a)
	if n == nil {
		return perr("rename", a, syscall.ENOENT)
	}
	d1, n1 := f.parent(a)
	d2, n2 := f.parent(b)
	if d2 == nil || !d2.dir {
		return perr("rename", a, syscall.ENOENT)
	}
	d1.set(n1, nil)
	m := &node{dir: n.dir, ents: n.ents, ino: n.ino}
	d2.set(n2, m)
	for _, c := range m.ents {
		c.parent = m
	}
	return nil
}

func (f *FS) TruncatePath(p string, size int64) error {
	ft, err := f.Event(KTrunc, p, int(size))
	if err == nil {
		err = f.Simple(ft)
	}
	if err != nil {
		return perr("truncate", p, err)
	}
	n := f.lookup(p)
	if n == nil || n.dir {
		return perr("truncate", p, syscall.ENOENT)
	}
	n.ino.truncate(size)
	return nil
}

// ---- crash semantics -------------------------------------------------------

// Reboot is called after a process died: handles and locks are gone.
func (f *FS) Reboot() {
	f.Open = 0
	f.down = false
	f.walk(f.root, func(n *node) {
		if n.ino != nil && n.ino.kv != nil {
			n.ino.kv.Reboot()
		}
	})
}

// SetDown makes every further operation fail (used between a fatal event and the kill).
func (f *FS) SetDown(b bool) { f.down = b }

func (f *FS) walk(n *node, fn func(*node)) {
	fn(n)
	names := make([]string, 0, len(n.ents))
	for k := range n.ents {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		f.walk(n.ents[k], fn)
	}
}

// Loss says how unsynced data fares in a power loss.
type Loss struct {
	Mode int    `json:"mode"` // 0 nothing kept, 1 all kept, 2 prefix per file, 3 random subset, 4 mixed per file
	Seed uint64 `json:"seed"`
}

// PowerLoss drops what was not durable, within the limits of the model.
func (f *FS) PowerLoss(l Loss) {
	r := simrt.NewRng(l.Seed)
	// directories first (top down), then the files that are still there
	var dirs func(n *node)
	dirs = func(n *node) {
		if n.base != nil {
			keep := 0
			switch l.Mode {
			case 0:
			case 1:
				keep = len(n.jr)
			default:
				keep = r.N(len(n.jr) + 1)
			}
			ents := n.base
			for _, j := range n.jr[:keep] {
				if j.n == nil {
					delete(ents, j.name)
				} else {
					ents[j.name] = j.n
				}
			}
			n.ents = ents
			for k, v := range n.ents {
				v.name, v.parent = k, n
			}
			n.commit()
		}
		names := make([]string, 0, len(n.ents))
		for k := range n.ents {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if c := n.ents[k]; c.dir {
				dirs(c)
			}
		}
	}
	dirs(f.root)
	f.walk(f.root, func(n *node) {
		i := n.ino
		if i == nil {
			return
		}
		if i.kv != nil {
			i.kv.PowerLoss(l.Mode, &r)
			return
		}
		if len(i.pend) == 0 {
			return
		}
		mode := l.Mode
		if mode >= 4 {
			mode = r.N(4)
		}
		d, own := i.dur[:len(i.dur):len(i.dur)], false
		switch mode {
		case 0:
			if l.Mode >= 4 && r.P(0.3) { // the size was journalled, the data was not
				if n := int64(len(i.data)) - int64(len(d)); n > 0 {
					d = append(d, make([]byte, r.N(int(n)+1))...)
					own = true
				}
			}
		case 1:
			for _, o := range i.pend {
				if !o.lost {
					d, own = o.apply(d, own, -1)
				}
			}
		case 2:
			k := r.N(len(i.pend) + 1)
			for _, o := range i.pend[:k] {
				if !o.lost {
					d, own = o.apply(d, own, -1)
				}
			}
			if k < len(i.pend) && !i.pend[k].lost && !i.pend[k].trunc {
				d, own = i.pend[k].apply(d, own, r.N(len(i.pend[k].data)+1))
			}
		case 3:
			for _, o := range i.pend {
				if !o.lost && r.P(0.5) {
					t := -1
					if r.P(0.3) && len(o.data) > 0 {
						t = r.N(len(o.data))
					}
					d, own = o.apply(d, own, t)
				}
			}
		}
		i.data, i.own = d, own
		i.dur, i.pend = d[:len(d):len(d)], nil
		i.own = false
	})
	f.Open = 0
}

// SyncAll makes everything durable (a clean machine, e.g. for a template).
func (f *FS) SyncAll() {
	f.walk(f.root, func(n *node) {
		if n.dir {
			n.commit()
		} else if n.ino.kv == nil {
			f.syncNode(n)
		} else {
			n.ino.kv.SyncAll()
		}
	})
}

// Clone copies the disk (sharing unmodified contents).
func (f *FS) Clone() *FS {
	g := &FS{Fired: map[string]int64{}, rng: f.rng}
	ns := map[*node]*node{}
	is := map[*inode]*inode{}
	var cn func(n *node) *node
	cn = func(n *node) *node {
		if n == nil {
			return nil
		}
		if m := ns[n]; m != nil {
			return m
		}
		m := &node{name: n.name, dir: n.dir}
		ns[n] = m
		if n.ino != nil {
			i := is[n.ino]
			if i == nil {
				o := n.ino
				o.own = false
				o.data = o.data[:len(o.data):len(o.data)]
				i = &inode{data: o.data, dur: o.dur, pend: append([]op{}, o.pend...), nlink: o.nlink}
				if o.kv != nil {
					i.kv = o.kv.Clone()
				}
				is[n.ino] = i
			}
			m.ino = i
		}
		if n.dir {
			m.ents = map[string]*node{}
			for k, c := range n.ents {
				x := cn(c)
				x.parent = m
				m.ents[k] = x
			}
			if n.base != nil {
				m.base = map[string]*node{}
				for k, c := range n.base {
					x := cn(c)
					x.parent = m
					m.base[k] = x
				}
				for _, j := range n.jr {
					x := cn(j.n)
					m.jr = append(m.jr, jop{j.name, x})
				}
			}
		}
		return m
	}
	g.root = cn(f.root)
	return g
}

// ---- direct access for the harness (no events) -------------------------------

// Files lists the regular files below p.
func (f *FS) Files(p string) []string {
	var res []string
	n := f.lookup(p)
	if n == nil {
		return nil
	}
	var rec func(n *node, p string)
	rec = func(n *node, p string) {
		if !n.dir {
			if n.ino.kv == nil {
				res = append(res, p)
			}
			return
		}
		for _, s := range n.list() {
			rec(n.ents[s.Name], path.Join(p, s.Name))
		}
	}
	rec(n, clean(p))
	return res
}

func (f *FS) Content(p string) []byte {
	n := f.lookup(p)
	if n == nil || n.dir {
		return nil
	}
	return n.ino.data
}

// Dirty reports whether a file has content which a power loss may take.
func (f *FS) Dirty(p string) bool {
	n := f.lookup(p)
	return n != nil && !n.dir && len(n.ino.pend) > 0
}

func (f *FS) Exists(p string) bool { return f.lookup(p) != nil }

// SetContent replaces a file's contents durably (at-rest damage).
func (f *FS) SetContent(p string, b []byte) {
	n := f.lookup(p)
	if n == nil {
		f.MkdirQuiet(path.Dir(clean(p)))
		d, name := f.parent(p)
		n = &node{ino: &inode{nlink: 1}, name: name, parent: d}
		d.ents[name] = n
		if d.base != nil {
			d.base[name] = n
		}
	}
	n.ino.data = append([]byte{}, b...)
	n.ino.dur = n.ino.data[:len(b):len(b)]
	n.ino.own = false
	n.ino.pend = nil
}

// Drop removes a file durably.
func (f *FS) Drop(p string) {
	d, name := f.parent(p)
	if d != nil {
		delete(d.ents, name)
		if d.base != nil {
			delete(d.base, name)
		}
	}
}

// KVAt returns the key-value store kept under path p, if any.
func (f *FS) KVAt(p string) *KV {
	n := f.lookup(path.Join(p, "KV"))
	if n == nil || n.ino == nil {
		return nil
	}
	return n.ino.kv
}

// MakeKV creates an empty key-value store under path p (durable at once, like a created database directory).
func (f *FS) MakeKV(p string) *KV {
	f.MkdirQuiet(p)
	d := f.lookup(p)
	n := &node{ino: &inode{kv: NewKV(), nlink: 1}, name: "KV", parent: d}
	d.ents["KV"] = n
	if d.base != nil {
		d.base["KV"] = n
	}
	return n.ino.kv
}
