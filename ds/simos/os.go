// Package simos stands in for os: files live on the simulated disk.
package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"time"
	"unsafe"

	"verif.local/ds/simfmt"
	"verif.local/ds/simfs"
	"verif.local/ds/simrt"
)

// File stands in for os.File.
type File struct {
	h    *simfs.Handle
	name string
	std  bool
	dpos int
}

var (
	Stdin  = &File{name: "/dev/stdin", std: true}
	Stdout = &File{name: "/dev/stdout", std: true}
	Stderr = &File{name: "/dev/stderr", std: true}
)

func disk() *simfs.FS {
	if simfs.Cur == nil {
		panic("simos: file access outside a simulation")
	}
	return simfs.Cur
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	h, err := disk().OpenFile(name, flag)
	if err != nil {
		return nil, err
	}
	return &File{h: h, name: name}, nil
}
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }
func (f *File) bad() bool    { return f == nil }
func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std {
		return simfmt.Sink.Write(b)
	}
	raceBuf(b, false)
	return f.h.Write(b)
}

// raceBuf tells the race detector that the program's buffer is read or filled.
func raceBuf(b []byte, write bool) {
	if !simrt.RaceEnabled || len(b) == 0 {
		return
	}
	if write {
		simrt.RaceWrite(unsafe.Pointer(&b[0]), len(b))
	} else {
		simrt.RaceRead(unsafe.Pointer(&b[0]), len(b))
	}
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f == nil || f.std {
		return 0, os.ErrInvalid
	}
	raceBuf(b, false)
	return f.h.WriteAt(b, off)
}
func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(wr{f}, r) }

type wr struct{ f *File }

func (w wr) Write(b []byte) (int, error) { return w.f.Write(b) }

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std {
		return 0, io.EOF
	}
	n, eof, err := f.h.Read(b)
	raceBuf(b[:n], true)
	if err == nil && eof {
		err = io.EOF
	}
	return n, err
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f == nil || f.std {
		return 0, os.ErrInvalid
	}
	n, eof, err := f.h.ReadAt(b, off)
	raceBuf(b[:n], true)
	if err == nil && eof {
		err = io.EOF
	}
	return n, err
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	if f == nil || f.std {
		return 0, os.ErrInvalid
	}
	return f.h.Seek(off, whence)
}
func (f *File) Sync() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.std {
		return nil
	}
	return f.h.Sync()
}
func (f *File) Truncate(size int64) error {
	if f == nil || f.std {
		return os.ErrInvalid
	}
	return f.h.Truncate(size)
}
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.std {
		return nil
	}
	return f.h.Close()
}
func (f *File) Chmod(FileMode) error             { return nil }
func (f *File) Chown(uid, gid int) error         { return nil }
func (f *File) SetDeadline(time.Time) error      { return os.ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error  { return os.ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return os.ErrNoDeadline }
func (f *File) Stat() (FileInfo, error) {
	if f == nil || f.std {
		return nil, os.ErrInvalid
	}
	s, err := f.h.Stat()
	if err != nil {
		return nil, err
	}
	return info{s, path.Base(f.name)}, nil
}

type info struct {
	s    simfs.Stat
	name string
}

func (i info) Name() string { return i.name }
func (i info) Size() int64 {
	if i.s.Dir {
		return 4096
	}
	return i.s.Size
}
func (i info) Mode() FileMode {
	if i.s.Dir {
		return 0755 | os.ModeDir
	}
	return 0644
}
func (i info) ModTime() time.Time { return time.Unix(1700000000, 0) }
func (i info) IsDir() bool        { return i.s.Dir }
func (i info) Sys() any           { return nil }

func (f *File) Readdir(n int) ([]FileInfo, error) {
	l, err := f.h.List()
	if err != nil {
		return nil, err
	}
	// directory order is arbitrary
	shuffle(l)
	var r []FileInfo
	for _, s := range l {
		r = append(r, info{s, s.Name})
	}
	r = r[min(f.dpos, len(r)):]
	if n > 0 {
		if len(r) == 0 {
			return nil, io.EOF
		}
		r = r[:min(n, len(r))]
	}
	f.dpos += len(r)
	return r, nil
}
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.Readdir(n)
	var r []string
	for _, x := range l {
		r = append(r, x.Name())
	}
	return r, err
}
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	l, err := f.Readdir(n)
	var r []DirEntry
	for _, x := range l {
		r = append(r, fs.FileInfoToDirEntry(x))
	}
	return r, err
}

func shuffle(l []simfs.Stat) {
	r := simrt.Rand()
	for i := len(l) - 1; i > 0; i-- {
		j := r.N(i + 1)
		l[i], l[j] = l[j], l[i]
	}
}

func Stat(name string) (FileInfo, error) {
	s, err := disk().Stat(name)
	if err != nil {
		return nil, err
	}
	return info{s, path.Base(name)}, nil
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x == y
}
func Mkdir(name string, perm FileMode) error { return disk().Mkdir(name) }
func MkdirAll(name string, perm FileMode) error {
	if name == "" || disk().Exists(name) {
		return nil
	}
	if d := path.Dir(path.Clean(name)); d != name && d != "." {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	err := disk().Mkdir(name)
	if errors.Is(err, fs.ErrExist) {
		return nil
	}
	return err
}
func Remove(name string) error                   { return disk().Remove(name) }
func RemoveAll(name string) error                { return disk().RemoveAll(name) }
func Rename(a, b string) error                   { return disk().Rename(a, b) }
func Truncate(name string, size int64) error     { return disk().TruncatePath(name, size) }
func Chmod(string, FileMode) error               { return nil }
func Chown(string, int, int) error               { return nil }
func Lchown(string, int, int) error              { return nil }
func Chtimes(string, time.Time, time.Time) error { return nil }
func Chdir(string) error                         { return nil }
func Getwd() (string, error)                     { return "/work", nil }
func Getpid() int                                { return 4242 }
func Hostname() (string, error)                  { return "sim", nil }
func TempDir() string                            { return "/tmp" }
func Exit(code int)                              { panic(fmt.Sprintf("os.Exit(%d)", code)) }
func Link(a, b string) error                     { return os.ErrPermission }
func Symlink(a, b string) error                  { return os.ErrPermission }
func Readlink(string) (string, error)            { return "", os.ErrInvalid }
func DirFS(string) fs.FS                         { panic("simos: DirFS is not simulated") }
func CopyFS(string, fs.FS) error                 { panic("simos: CopyFS is not simulated") }
func NewFile(uintptr, string) *File              { return nil }
func Pipe() (*File, *File, error)                { return nil, nil, os.ErrPermission }
func FindProcess(int) (*Process, error)          { return nil, os.ErrPermission }
func StartProcess(string, []string, *ProcAttr) (*Process, error) {
	return nil, os.ErrPermission
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func WriteFile(name string, b []byte, perm FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}
func ReadDir(name string) ([]DirEntry, error) {
	l, err := disk().ReadDir(name)
	if err != nil {
		return nil, err
	}
	var r []DirEntry
	for _, s := range l {
		r = append(r, fs.FileInfoToDirEntry(info{s, s.Name}))
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r, nil
}

func tmpName(dir, pat string) string {
	if dir == "" {
		dir = TempDir()
		disk().MkdirQuiet(dir)
	}
	for {
		x := fmt.Sprintf("%09d", simrt.Rand().N(1000000000))
		n := pat + x
		if i := strings.LastIndex(pat, "*"); i >= 0 {
			n = pat[:i] + x + pat[i+1:]
		}
		if p := path.Join(dir, n); !disk().Exists(p) {
			return p
		}
	}
}
func CreateTemp(dir, pat string) (*File, error) {
	return OpenFile(tmpName(dir, pat), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}
func MkdirTemp(dir, pat string) (string, error) {
	n := tmpName(dir, pat)
	return n, Mkdir(n, 0700)
}

// Infos is ReadDir as FileInfo, for ioutil.
func Infos(name string) ([]fs.FileInfo, error) {
	l, err := disk().ReadDir(name)
	if err != nil {
		return nil, err
	}
	r := []fs.FileInfo{}
	for _, s := range l {
		r = append(r, info{s, s.Name})
	}
	return r, nil
}
