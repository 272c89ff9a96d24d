package zzmodels

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"time"

	"github.com/rodb-io/rodb/pkg/zzrt"
)

// An in-memory file system below /vfs. Directories exist implicitly: /vfs and /vfs/dir.

type inode struct {
	data  []byte
	sec   int64
	nsec  int64
	dir   bool
	noAcc bool
}

type handle struct {
	path   string
	ino    *inode
	pos    int64
	write  bool
	appnd  bool
	closed bool
}

var (
	files     = map[string]*inode{}
	handles   = map[*os.File]*handle{}
	openCount = 0
	clock     = int64(1700000000)

	// faults
	frozen     = false // the process has "stopped": nothing reaches the disk any more
	writeCount = 0
	faultAt    = -1 // index of the write operation hit by the fault
	faultBytes = 0  // how many of its bytes still reach the disk
	faultErr   = false
	faulted    = false
	crashDue   = false
)

var (
	errIsDir   = errors.New("is a directory")
	errNotDir  = errors.New("not a directory")
	errInvalid = errors.New("invalid argument")
	errSpace   = errors.New("no space left on device")
	errBadFd   = errors.New("bad file descriptor")
	errNegOff  = errors.New("negative offset")
)

func find(path string) (*inode, error) {
	for i := 0; i < len(path); i++ {
		if path[i] == 0 {
			return nil, errInvalid
		}
	}
	if path == "/vfs" || path == "/vfs/" || path == "/vfs/dir" || path == "/vfs/dir/" || path == "." || path == "/" {
		return &inode{dir: true}, nil
	}
	if ino, ok := files[path]; ok {
		return ino, nil
	}
	// a regular file used as a directory
	for i := 1; i < len(path); i++ {
		if path[i] == '/' {
			if ino, ok := files[path[:i]]; ok && !ino.dir {
				return nil, errNotDir
			}
		}
	}
	return nil, fs.ErrNotExist
}

// validParent: files can only be created in existing directories
func validParent(path string) bool {
	i := len(path) - 1
	for i >= 0 && path[i] != '/' {
		i--
	}
	if i < 0 || i == len(path)-1 {
		return false
	}
	ino, err := find(path[:i])
	return err == nil && ino.dir
}

func pathErr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

type fileInfo struct {
	path string
	ino  *inode
	size int64
	sec  int64
	nsec int64
}

func (i fileInfo) Name() string {
	p := i.path
	for k := len(p) - 1; k >= 0; k-- {
		if p[k] == '/' {
			return p[k+1:]
		}
	}
	return p
}
func (i fileInfo) Size() int64 { return i.size }
func (i fileInfo) Mode() fs.FileMode {
	if i.ino.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i fileInfo) ModTime() time.Time { return time.Unix(i.sec, i.nsec) }
func (i fileInfo) IsDir() bool        { return i.ino.dir }
func (i fileInfo) Sys() interface{}   { return nil }

//sym:redirect os.Stat os.Lstat
func Stat(path string) (os.FileInfo, error) {
	SyncPoint()
	if err := reading("stat", path); err != nil {
		return nil, err
	}
	ino, err := find(path)
	if err != nil {
		return nil, pathErr("stat", path, err)
	}
	return fileInfo{path, ino, int64(len(ino.data)), ino.sec, ino.nsec}, nil
}

//sym:redirect os.IsNotExist
func IsNotExist(err error) bool { return isUnder(err, fs.ErrNotExist) }

//sym:redirect os.IsExist
func IsExist(err error) bool { return isUnder(err, fs.ErrExist) }

//sym:redirect os.IsPermission
func IsPermission(err error) bool { return isUnder(err, fs.ErrPermission) }

func isUnder(err, target error) bool {
	if pe, ok := err.(*fs.PathError); ok {
		err = pe.Err
	}
	return err == target
}

func newHandle(path string, ino *inode, write bool) *os.File {
	f := new(os.File)
	handles[f] = &handle{path: path, ino: ino, write: write}
	openCount++
	return f
}

//sym:redirect os.Open
func Open(path string) (*os.File, error) {
	SyncPoint()
	if err := reading("open", path); err != nil {
		return nil, err
	}
	ino, err := find(path)
	if err != nil {
		return nil, pathErr("open", path, err)
	}
	return newHandle(path, ino, false), nil
}

//sym:redirect os.Create
func Create(path string) (*os.File, error) {
	return OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

//sym:redirect os.OpenFile
func OpenFile(path string, flag int, perm os.FileMode) (*os.File, error) {
	SyncPoint()
	if err := reading("open", path); err != nil {
		return nil, err
	}
	ino, err := find(path)
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if err != nil {
		if err != fs.ErrNotExist || flag&os.O_CREATE == 0 || !validParent(path) {
			return nil, pathErr("open", path, err)
		}
		if proceed, _, ferr := mutate(0); !proceed {
			if ferr != nil {
				return nil, pathErr("open", path, ferr)
			}
			crashIfDue()
			return newHandle(path, &inode{sec: clock}, wr), nil // reaches nothing
		}
		ino = &inode{sec: clock}
		files[path] = ino
	} else {
		if ino.dir && wr {
			return nil, pathErr("open", path, errIsDir)
		}
		if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
			return nil, pathErr("open", path, fs.ErrExist)
		}
		if flag&os.O_TRUNC != 0 {
			proceed, _, ferr := mutate(0)
			if ferr != nil {
				return nil, pathErr("open", path, ferr)
			}
			if proceed {
				ino.data = nil
				ino.sec = clock
			}
			crashIfDue()
		}
	}
	f := newHandle(path, ino, wr)
	handles[f].appnd = flag&os.O_APPEND != 0
	return f, nil
}

// mutate is called before every change of the disk of n bytes: how much of it may happen.
func mutate(n int) (proceed bool, bytes int, err error) {
	if frozen {
		return false, n, nil
	}
	k := writeCount
	writeCount++
	if k == faultAt {
		faulted = true
		if n > 0 && faultBytes < n {
			n = faultBytes
		}
		if faultErr {
			if n > 0 {
				return true, n, errSpace
			}
			return false, 0, errSpace
		}
		frozen, crashDue = true, true
		if n > 0 {
			return true, n, nil
		}
		return false, n, nil
	}
	if faulted && faultErr {
		// the disk stays full
		return false, 0, errSpace
	}
	return true, n, nil
}

// crashIfDue ends the process once the last bytes have reached the disk.
func crashIfDue() {
	if crashDue {
		crashDue = false
		zzrt.Crash()
	}
}

//sym:redirect github.com/rodb-io/rodb/pkg/zzrt.FaultAt
func FaultAt(op, bytes int, fail bool) {
	writeCount, faultAt, faultBytes, faultErr, faulted, frozen, crashDue = 0, op, bytes, fail, false, false, false
}

//sym:redirect github.com/rodb-io/rodb/pkg/zzrt.FaultsOff
func FaultsOff() (ops int, hit bool) {
	h := faulted
	n := writeCount
	writeCount, faultAt, faulted, frozen, crashDue = 0, -1, false, false, false
	return n, h
}

var (
	readCount = 0
	readAt    = -1
	readHit   = false
	errIO     = errors.New("input/output error")
)

//sym:redirect github.com/rodb-io/rodb/pkg/zzrt.FailAt
func FailAt(op int) { readCount, readAt, readHit = 0, op, false }

//sym:redirect github.com/rodb-io/rodb/pkg/zzrt.FailOff
func FailOff() (ops int, hit bool) {
	n, h := readCount, readHit
	readCount, readAt, readHit = 0, -1, false
	return n, h
}

// reading is called before every operation that only reads, and fails at the one chosen.
func reading(op, path string) error {
	if readAt < 0 || len(path) > 3 && path[len(path)-3:] == ".db" {
		return nil
	}
	k := readCount
	readCount++
	if k != readAt {
		return nil
	}
	readHit = true
	return pathErr(op, path, errIO)
}

//sym:redirect github.com/rodb-io/rodb/pkg/zzrt.OpenFiles
func OpenFiles() int { return openCount }

func get(f *os.File, op string) (*handle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	h := handles[f]
	if h == nil {
		return nil, fs.ErrInvalid
	}
	if h.closed {
		return nil, pathErr(op, h.path, fs.ErrClosed)
	}
	return h, nil
}

//sym:redirect (*os.File).Read
func FileRead(f *os.File, b []byte) (int, error) {
	SyncPoint()
	h, err := get(f, "read")
	if err == nil {
		err = reading("read", h.path)
	}
	if err != nil {
		return 0, err
	}
	if h.ino.dir {
		return 0, pathErr("read", h.path, errIsDir)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= int64(len(h.ino.data)) {
		return 0, io.EOF
	}
	n := copy(b, h.ino.data[h.pos:])
	h.pos += int64(n)
	return n, nil
}

//sym:redirect (*os.File).ReadAt
func FileReadAt(f *os.File, b []byte, off int64) (int, error) {
	SyncPoint()
	h, err := get(f, "read")
	if err == nil {
		err = reading("read", h.path)
	}
	if err != nil {
		return 0, err
	}
	if h.ino.dir {
		return 0, pathErr("read", h.path, errIsDir)
	}
	if off < 0 {
		return 0, pathErr("readat", h.path, errNegOff)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if off >= int64(len(h.ino.data)) {
		return 0, io.EOF
	}
	n := copy(b, h.ino.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func grow(ino *inode, size int) {
	if len(ino.data) < size {
		ino.data = append(ino.data, make([]byte, size-len(ino.data))...)
	}
}

func writeAt(h *handle, b []byte, off int64) (int, error) {
	if !h.write {
		return 0, pathErr("write", h.path, errBadFd)
	}
	if len(b) == 0 {
		return 0, nil
	}
	proceed, n, err := mutate(len(b))
	if proceed {
		if off > 1<<30 {
			Unsupported("write beyond the modelled file size")
		}
		grow(h.ino, int(off)+n)
		copy(h.ino.data[off:], b[:n])
		h.ino.sec = clock
	}
	crashIfDue()
	if err != nil {
		if !proceed {
			n = 0
		}
		return n, pathErr("write", h.path, err)
	}
	return len(b), nil
}

//sym:redirect (*os.File).Write
func FileWrite(f *os.File, b []byte) (int, error) {
	SyncPoint()
	h, err := get(f, "write")
	if err != nil {
		return 0, err
	}
	if h.appnd {
		h.pos = int64(len(h.ino.data))
	}
	n, err := writeAt(h, b, h.pos)
	h.pos += int64(n)
	return n, err
}

//sym:redirect (*os.File).WriteString
func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

//sym:redirect (*os.File).WriteAt
func FileWriteAt(f *os.File, b []byte, off int64) (int, error) {
	SyncPoint()
	h, err := get(f, "write")
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, pathErr("writeat", h.path, errNegOff)
	}
	return writeAt(h, b, off)
}

//sym:redirect (*os.File).Seek
func FileSeek(f *os.File, off int64, whence int) (int64, error) {
	SyncPoint()
	h, err := get(f, "seek")
	if err == nil {
		err = reading("seek", h.path)
	}
	if err != nil {
		return 0, err
	}
	n := off
	switch whence {
	case io.SeekCurrent:
		n += h.pos
	case io.SeekEnd:
		n += int64(len(h.ino.data))
	}
	if n < 0 {
		return 0, pathErr("seek", h.path, errInvalid)
	}
	h.pos = n
	return n, nil
}

//sym:redirect (*os.File).Close
func FileClose(f *os.File) error {
	SyncPoint()
	if f == nil {
		return fs.ErrInvalid
	}
	h, err := get(f, "close")
	if err != nil {
		return err
	}
	h.closed = true
	openCount--
	return nil
}

//sym:redirect (*os.File).Sync
func FileSync(f *os.File) error {
	_, err := get(f, "sync")
	return err
}

//sym:redirect (*os.File).Name
func FileName(f *os.File) string {
	h := handles[f]
	if h == nil {
		return ""
	}
	return h.path
}

//sym:redirect (*os.File).Stat
func FileStat(f *os.File) (os.FileInfo, error) {
	h, err := get(f, "stat")
	if err == nil {
		err = reading("stat", h.path)
	}
	if err != nil {
		return nil, err
	}
	return fileInfo{h.path, h.ino, int64(len(h.ino.data)), h.ino.sec, h.ino.nsec}, nil
}

//sym:redirect (*os.File).Truncate
func FileTruncate(f *os.File, size int64) error {
	h, err := get(f, "truncate")
	if err != nil {
		return err
	}
	return truncate(h.ino, size)
}

func truncate(ino *inode, size int64) error {
	proceed, _, err := mutate(0)
	if !proceed {
		crashIfDue()
		return err
	}
	if size < int64(len(ino.data)) {
		ino.data = ino.data[:size:size]
	} else {
		grow(ino, int(size))
	}
	return nil
}

//sym:redirect os.Truncate
func Truncate(path string, size int64) error {
	ino, err := find(path)
	if err != nil {
		return pathErr("truncate", path, err)
	}
	return truncate(ino, size)
}

//sym:redirect os.ReadFile io/ioutil.ReadFile
func ReadFile(path string) ([]byte, error) {
	SyncPoint()
	ino, err := find(path)
	if err != nil {
		return nil, pathErr("open", path, err)
	}
	if ino.dir {
		return nil, pathErr("read", path, errIsDir)
	}
	return append([]byte{}, ino.data...), nil
}

//sym:redirect os.WriteFile io/ioutil.WriteFile
func WriteFile(path string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = FileWrite(f, data)
	if e := FileClose(f); err == nil {
		err = e
	}
	return err
}

//sym:redirect os.Remove
func Remove(path string) error {
	if _, err := find(path); err != nil {
		return pathErr("remove", path, err)
	}
	proceed, _, err := mutate(0)
	if err != nil {
		return pathErr("remove", path, err)
	}
	if proceed {
		delete(files, path)
	}
	crashIfDue()
	return nil
}

//sym:redirect os.Rename
func Rename(from, to string) error {
	ino, err := find(from)
	if err != nil {
		return pathErr("rename", from, err)
	}
	if !validParent(to) {
		return pathErr("rename", to, fs.ErrNotExist)
	}
	proceed, _, err := mutate(0)
	if err != nil {
		return pathErr("rename", from, err)
	}
	if proceed {
		delete(files, from)
		files[to] = ino
	}
	crashIfDue()
	return nil
}

//sym:redirect os.Chtimes
func Chtimes(path string, atime, mtime time.Time) error {
	ino, err := find(path)
	if err != nil {
		return pathErr("chtimes", path, err)
	}
	ino.sec = mtime.Unix()
	ino.nsec = int64(mtime.Nanosecond())
	return nil
}

var environment = map[string]string{}

//sym:redirect os.Getenv
func Getenv(k string) string { return environment[k] }

//sym:redirect os.LookupEnv
func LookupEnv(k string) (string, bool) {
	v, ok := environment[k]
	return v, ok
}

//sym:redirect os.Setenv
func Setenv(k, v string) error {
	environment[k] = v
	return nil
}

//sym:redirect os.Unsetenv
func Unsetenv(k string) error {
	delete(environment, k)
	return nil
}

//sym:redirect os.Mkdir
func Mkdir(path string, perm os.FileMode) error {
	SyncPoint()
	if _, err := find(path); err == nil {
		return pathErr("mkdir", path, fs.ErrExist)
	}
	if !validParent(path) {
		return pathErr("mkdir", path, fs.ErrNotExist)
	}
	files[path] = &inode{dir: true}
	return nil
}
