//go:build zzfault

package zzrt

import (
	"math/rand"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"
)

// The os package of this build calls os.ZZFault before every change of a file (see faultedOS in gosymex).
func init() {
	failHook = func(at int) {
		ops, hit := 0, false
		os.ZZRead = func(op, path string) error {
			if path != "" && (!strings.HasPrefix(path, dir) || strings.HasSuffix(path, ".db")) {
				return nil
			}
			k := ops
			ops++
			if k != at {
				return nil
			}
			hit = true
			return syscall.EIO
		}
		failOffHook = func() (int, bool) {
			os.ZZRead = nil
			return ops, hit
		}
	}
	jitterHook = func(on bool) {
		os.ZZRead = nil
		if !on {
			return
		}
		os.ZZRead = func(op, path string) error {
			switch rand.Intn(8) {
			case 0, 1, 2:
				runtime.Gosched()
			case 3:
				time.Sleep(20 * time.Microsecond)
			case 4:
				time.Sleep(1200 * time.Microsecond)
			}
			return nil
		}
	}
	faultHook = func(at, keep int, fail bool) {
		ops, hit, frozen := 0, false, false
		os.ZZFault = func(n int) (proceed bool, bytes int, crash bool, err error) {
			if frozen {
				return false, n, false, nil
			}
			k := ops
			ops++
			if k == at {
				hit = true
				if n > keep {
					n = keep
				}
				if fail {
					return n > 0, n, false, syscall.ENOSPC
				}
				frozen = true
				return n > 0, n, true, nil
			}
			if hit && fail {
				return false, 0, false, syscall.ENOSPC
			}
			return true, n, false, nil
		}
		os.ZZCrash = Crash
		faultOffHook = func() (int, bool) {
			os.ZZFault = nil
			return ops, hit
		}
	}
}
