package wild

import (
	"encoding/binary"
	"os"

	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// tryIndex loads the file and searches in it; whatever happens, it must end without a crash.
func tryIndex(data []byte, props []string) {
	must(os.WriteFile(zzrt.Path("index"), data, 0o644), "writing the index file")
	in := zzkit.NewInput("in")
	zzrt.MustTerminate(zzrt.Param("steps", 400_000))
	how := zzrt.Try(func() {
		w, err := open(in, config(false, props...))
		if err != nil {
			zzrt.Reach("rejected")
			return
		}
		zzrt.Reach("accepted")
		for _, p := range props {
			sub := zzrt.StringN("search", 1+zzrt.Choice("search length", zzrt.Param("search", 1)))
			it, err := w.GetRecordPositions(in, map[string]interface{}{p: sub})
			if err != nil {
				zzrt.Reach("search error")
				continue
			}
			for n := 0; ; n++ {
				pos, err := it()
				if err != nil {
					zzrt.Reach("iteration error")
					break
				}
				if pos == nil {
					zzrt.Reach("search result")
					break
				}
				zzrt.Assert(n < 1000, "a corrupted file gives an endless result")
			}
		}
	})
	zzrt.Assert(how == "", "a corrupted index file crashes the process: "+how)
}

func header(nroots int) []byte {
	b := []byte("RODB/INDEX/WILDCARD")
	b = append(b, 0, 1)
	b = binary.BigEndian.AppendUint64(b, 1600000000)
	b = binary.BigEndian.AppendUint64(b, 100)
	b = append(b, 0, 1)
	b = binary.BigEndian.AppendUint64(b, uint64(nroots))
	return b
}

// HHeader: a file of any length whose magic bytes are right and everything else is arbitrary.
func HHeader() {
	max := zzrt.Param("bytes", 64)
	b := header(1)
	n := zzrt.Choice("file size", max+1)
	arbitrary := 19 // what follows the magic bytes
	switch zzrt.Choice("arbitrary part", 3) {
	case 1:
		arbitrary = 21 // what follows the version
	case 2:
		arbitrary = 39 // the number of roots and what follows
	}
	if arbitrary > n {
		arbitrary = n
	}
	data := append([]byte{}, b...)
	if n < len(data) {
		data = data[:n]
	}
	if arbitrary < len(data) {
		data = data[:arbitrary]
	}
	for len(data) < n {
		data = append(data, zzrt.Byte("header"))
	}
	tryIndex(data, []string{"p"})
}

// HAnyBytes: short files of entirely arbitrary bytes.
func HAnyBytes() {
	n := zzrt.Choice("file size", zzrt.Param("bytes", 24)+1)
	tryIndex(zzrt.Bytes("file", n), []string{"p"})
}

// HTree: right metadata, then nodes and positions whose every link leads to any interesting place
// (itself, another item, the middle of one, the end, beyond, far away, negative).
func HTree() {
	nodes := zzrt.Param("nodes", 2)
	poss := zzrt.Param("positions", 2)
	data := header(1)
	base := len(data) + 8
	nodeOff := func(i int) int64 { return int64(base + 56*i) }
	posOff := func(i int) int64 { return int64(base + 56*nodes + 16*i) }
	size := int64(base + 56*nodes + 16*poss + 4)
	cands := []int64{0}
	for i := 0; i < nodes; i++ {
		cands = append(cands, nodeOff(i))
	}
	pcands := []int64{0}
	for i := 0; i < poss; i++ {
		pcands = append(pcands, posOff(i))
	}
	odd := []int64{1, size - 56, size - 16, size - 1, size, -1, 1 << 40, -1 << 62}
	if zzrt.Param("odd", 1) == 0 {
		odd = nil
	}
	link := func(label string, c []int64) int64 {
		// stays symbolic until the code under test follows it
		v := zzrt.Int64(label)
		in := false
		for _, x := range append(append([]int64{}, c...), odd...) {
			in = zzrt.Or(in, v == x)
		}
		zzrt.Assume(in)
		return v
	}
	put := func(v int64) { data = binary.BigEndian.AppendUint64(data, uint64(v)) }
	if zzrt.Param("root", 0) == 1 {
		put(link("root", cands))
	} else {
		put(nodeOff(0))
	}
	for i := 0; i < nodes; i++ {
		if zzrt.Param("values", 0) == 1 && i > 0 {
			put(link("value offset", []int64{0, size - 4, size - 2, size - 57}))
			n := zzrt.Int64("value length")
			zzrt.Assume(zzrt.Or(n == -1, n == 0, n == 1, n == 4, n == 5, n == 1<<62, n == -1<<63))
			put(n)
		} else {
			put(size - 4)
			n := int64(zzrt.Byte("value length"))
			zzrt.Assume(n <= 2)
			put(n)
		}
		put(link("next sibling", cands))
		put(link("first child", cands))
		put(0)
		put(link("first position", pcands))
		put(0)
	}
	for i := 0; i < poss; i++ {
		put(int64(i))
		put(link("next position", pcands))
	}
	data = append(data, zzrt.Bytes("text", 4)...)
	tryIndex(data, []string{"p"})
}
