package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// faultedWatcher does the same for fsnotify and returns the flags of the build that uses it.
func faultedWatcher(dir string) ([]string, error) {
	cmd := exec.Command("go", "list", "-f", "{{.Dir}}", "github.com/fsnotify/fsnotify")
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
	out, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	src := filepath.Join(strings.TrimSpace(string(out)), "inotify.go")
	b, err := os.ReadFile(src)
	if err != nil {
		return nil, err
	}
	s := string(b)
	for _, f := range [][2]string{
		{"func NewWatcher() (*Watcher, error) {", "if os.ZZRead != nil {\n\t\tif err := os.ZZRead(\"watch\", \"\"); err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}"},
		{"func (w *Watcher) Add(name string) error {", "if os.ZZRead != nil {\n\t\tif err := os.ZZRead(\"watch\", name); err != nil {\n\t\t\treturn err\n\t\t}\n\t}"},
	} {
		if strings.Count(s, f[0]) != 1 {
			return nil, fmt.Errorf("fsnotify has no %q", f[0])
		}
		s = strings.Replace(s, f[0], f[0]+"\n\t"+f[1], 1)
	}
	to := filepath.Join(dir, "fsnotify")
	if err := os.MkdirAll(to, 0o755); err != nil {
		return nil, err
	}
	ents, err := os.ReadDir(filepath.Dir(src))
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		if e.IsDir() || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		c := []byte(s)
		if e.Name() != "inotify.go" {
			if c, err = os.ReadFile(filepath.Join(filepath.Dir(src), e.Name())); err != nil {
				return nil, err
			}
		}
		if err := os.WriteFile(filepath.Join(to, e.Name()), c, 0o644); err != nil {
			return nil, err
		}
	}
	// the copy stands for the module
	for _, f := range []string{"go.mod", "go.sum"} {
		c, err := os.ReadFile(filepath.Join(repoDir, f))
		if err != nil {
			return nil, err
		}
		if f == "go.mod" {
			c = append(c, []byte("\nreplace github.com/fsnotify/fsnotify => "+to+"\n")...)
		}
		if err := os.WriteFile(filepath.Join(dir, "zz"+f), c, 0o644); err != nil {
			return nil, err
		}
	}
	return []string{"-modfile", filepath.Join(dir, "zzgo.mod")}, nil
}

// faultedOS adds to the build overlay a copy of the standard os package whose file changes can be made to fail
// or to be the last ones (the native counterpart of the faults in zzmodels/os.go).
func faultedOS(dir string, files map[string]string) error {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	src := filepath.Join(strings.TrimSpace(string(out)), "src", "os")
	rename := func(file string, decls map[string]string) error {
		b, err := os.ReadFile(filepath.Join(src, file))
		if err != nil {
			return err
		}
		s := string(b)
		for from, to := range decls {
			if strings.Count(s, from) != 1 {
				return fmt.Errorf("the os package has no %q", from)
			}
			s = strings.Replace(s, from, to, 1)
		}
		to := filepath.Join(dir, "os_"+file)
		files[filepath.Join(src, file)] = to
		return os.WriteFile(to, []byte(s), 0o644)
	}
	if err := rename("file.go", map[string]string{
		"func (f *File) Write(b []byte)":                      "func (f *File) zzWrite(b []byte)",
		"func (f *File) WriteAt(b []byte, off int64)":         "func (f *File) zzWriteAt(b []byte, off int64)",
		"func (f *File) Read(b []byte)":                       "func (f *File) zzRead(b []byte)",
		"func (f *File) ReadAt(b []byte, off int64)":          "func (f *File) zzReadAt(b []byte, off int64)",
		"func (f *File) Seek(offset int64, whence int)":       "func (f *File) zzSeek(offset int64, whence int)",
		"func OpenFile(name string, flag int, perm FileMode)": "func zzOpenFile(name string, flag int, perm FileMode)",
		"func Rename(oldpath, newpath string) error":          "func zzRename(oldpath, newpath string) error",
	}); err != nil {
		return err
	}
	if err := rename("file_posix.go", map[string]string{
		"func (f *File) Truncate(size int64) error": "func (f *File) zzTruncate(size int64) error",
	}); err != nil {
		return err
	}
	if err := rename("file_unix.go", map[string]string{
		"func Truncate(name string, size int64) error": "func zzTruncate(name string, size int64) error",
		"func Remove(name string) error":               "func zzRemove(name string) error",
	}); err != nil {
		return err
	}
	if err := rename("stat_unix.go", map[string]string{
		"func (f *File) Stat() (FileInfo, error)": "func (f *File) zzStat() (FileInfo, error)",
	}); err != nil {
		return err
	}
	if err := rename("stat.go", map[string]string{
		"func Stat(name string) (FileInfo, error)": "func zzStat(name string) (FileInfo, error)",
	}); err != nil {
		return err
	}
	to := filepath.Join(dir, "os_zzfault.go")
	files[filepath.Join(src, "zzfault.go")] = to
	return os.WriteFile(to, []byte(zzFaultSrc), 0o644)
}

const zzFaultSrc = `package os

var ZZFault func(n int) (proceed bool, bytes int, crash bool, err error)
var ZZCrash func()

// ZZRead is asked before every operation that only reads; a nil result lets it happen.
var ZZRead func(op, path string) error

func zzReading(op, path string) error {
	if ZZRead == nil {
		return nil
	}
	if err := ZZRead(op, path); err != nil {
		return &PathError{Op: op, Path: path, Err: err}
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if f != nil {
		if err := zzReading("read", f.name); err != nil {
			return 0, err
		}
	}
	return f.zzRead(b)
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f != nil {
		if err := zzReading("read", f.name); err != nil {
			return 0, err
		}
	}
	return f.zzReadAt(b, off)
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f != nil {
		if err := zzReading("seek", f.name); err != nil {
			return 0, err
		}
	}
	return f.zzSeek(off, whence)
}

func (f *File) Stat() (FileInfo, error) {
	if f != nil {
		if err := zzReading("stat", f.name); err != nil {
			return nil, err
		}
	}
	return f.zzStat()
}

func Stat(name string) (FileInfo, error) {
	if err := zzReading("stat", name); err != nil {
		return nil, err
	}
	return zzStat(name)
}

func zzMutate(n int) (bool, int, bool, error) {
	if ZZFault == nil {
		return true, n, false, nil
	}
	return ZZFault(n)
}

func zzEnd(crash bool) {
	if crash {
		ZZCrash()
	}
}

func (f *File) Write(b []byte) (int, error) {
	if ZZFault == nil || len(b) == 0 {
		return f.zzWrite(b)
	}
	ok, n, crash, err := zzMutate(len(b))
	if ok {
		if _, e := f.zzWrite(b[:n]); e != nil {
			return 0, e
		}
	}
	zzEnd(crash)
	if err != nil {
		if !ok {
			n = 0
		}
		return n, &PathError{Op: "write", Path: f.name, Err: err}
	}
	return len(b), nil
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if ZZFault == nil || len(b) == 0 {
		return f.zzWriteAt(b, off)
	}
	ok, n, crash, err := zzMutate(len(b))
	if ok {
		if _, e := f.zzWriteAt(b[:n], off); e != nil {
			return 0, e
		}
	}
	zzEnd(crash)
	if err != nil {
		if !ok {
			n = 0
		}
		return n, &PathError{Op: "write", Path: f.name, Err: err}
	}
	return len(b), nil
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if err := zzReading("open", name); err != nil {
		return nil, err
	}
	if ZZFault == nil || flag&(O_CREATE|O_TRUNC) == 0 {
		return zzOpenFile(name, flag, perm)
	}
	_, serr := Lstat(name)
	exists := serr == nil
	if exists && flag&O_TRUNC == 0 {
		return zzOpenFile(name, flag, perm)
	}
	ok, _, crash, err := zzMutate(0)
	if err != nil {
		return nil, &PathError{Op: "open", Path: name, Err: err}
	}
	zzEnd(crash)
	if ok {
		return zzOpenFile(name, flag, perm)
	}
	if exists {
		return zzOpenFile(name, flag&^O_TRUNC, perm)
	}
	return zzOpenFile(DevNull, O_RDWR, 0)
}

func Rename(oldpath, newpath string) error {
	ok, _, crash, err := zzMutate(0)
	zzEnd(crash)
	if err != nil {
		return &LinkError{"rename", oldpath, newpath, err}
	}
	if ok {
		return zzRename(oldpath, newpath)
	}
	return nil
}

func Remove(name string) error {
	ok, _, crash, err := zzMutate(0)
	zzEnd(crash)
	if err != nil {
		return &PathError{Op: "remove", Path: name, Err: err}
	}
	if ok {
		return zzRemove(name)
	}
	return nil
}

func (f *File) Truncate(size int64) error {
	ok, _, crash, err := zzMutate(0)
	zzEnd(crash)
	if err != nil || !ok {
		return err
	}
	return f.zzTruncate(size)
}

func Truncate(name string, size int64) error {
	ok, _, crash, err := zzMutate(0)
	zzEnd(crash)
	if err != nil || !ok {
		return err
	}
	return zzTruncate(name, size)
}
`
