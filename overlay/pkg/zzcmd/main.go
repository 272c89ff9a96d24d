// zzcmd replays harness runs natively: one JSON request per stdin line.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"syscall"
	"time"

	"github.com/rodb-io/rodb/pkg/zzrt"
)

type request struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Values  []uint64       `json:"values"`
	Repeat  int            `json:"repeat"`
}

type reply struct {
	Status   string   `json:"status"` // ok, violation, skip
	Msg      string   `json:"msg"`
	Observed []string `json:"observed"`
}

func run(r request) (rep reply) {
	f, ok := harnesses[r.Harness]
	if !ok {
		return reply{Status: "error", Msg: "unknown harness " + r.Harness}
	}
	base := os.Getenv("ZZ_SCRATCH")
	d, err := os.MkdirTemp(base, "zz")
	if err != nil {
		return reply{Status: "error", Msg: err.Error()}
	}
	defer os.RemoveAll(d)
	zzrt.Setup(r.Values, r.Params, d)
	defer zzrt.End()
	defer func() {
		if p := recover(); p != nil {
			switch x := p.(type) {
			case zzrt.Failure:
				rep = reply{Status: "violation", Msg: x.Msg}
			case zzrt.Skip:
				rep = reply{Status: "skip", Msg: x.Msg}
			case zzrt.Exited:
				rep = reply{Status: "violation", Msg: "unexpected process exit"}
			default:
				rep = reply{Status: "violation", Msg: fmt.Sprint("panic: ", p, "\n", string(debug.Stack()))}
			}
		}
		rep.Observed = zzrt.Observed
	}()
	f()
	return reply{Status: "ok"}
}

// room tells whether the system still has watchers to give (128 per user, shared with whatever
// else runs): without them, opening an input fails whatever the code is.
func room(wait time.Duration) bool {
	for end := time.Now().Add(wait); ; time.Sleep(50 * time.Millisecond) {
		fds := []int{}
		ok := true
		for i := 0; i < 8; i++ {
			fd, err := syscall.InotifyInit1(syscall.IN_CLOEXEC)
			if err != nil {
				ok = false
				break
			}
			fds = append(fds, fd)
		}
		for _, fd := range fds {
			syscall.Close(fd)
		}
		if ok || time.Now().After(end) {
			return ok
		}
	}
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	out := json.NewEncoder(os.Stdout)
	for sc.Scan() {
		var r request
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		n := r.Repeat
		if n < 1 {
			n = 1
		}
		var rep reply
		for i := 0; i < n; i++ {
			if !room(2 * time.Second) {
				rep = reply{Status: "starved"}
				break
			}
			rep = run(r)
			if rep.Status == "violation" && !room(0) {
				rep = reply{Status: "starved", Msg: rep.Msg}
			}
			if rep.Status != "ok" {
				break
			}
		}
		out.Encode(rep)
	}
}
