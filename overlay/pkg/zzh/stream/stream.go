// Package stream: C06, the index write buffer.
package stream

import (
	"os"

	"github.com/rodb-io/rodb/pkg/index/wildcard"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

func setup(initial []byte) (*wildcard.Stream, *os.File) {
	path := zzrt.Path("index")
	if err := os.WriteFile(path, initial, 0o644); err != nil {
		zzrt.Fail("cannot write the initial file: " + err.Error())
	}
	f, err := os.OpenFile(path, os.O_RDWR, 0o644)
	if err != nil {
		zzrt.Fail("cannot open the file: " + err.Error())
	}
	return wildcard.NewStream(f, int64(len(initial))), f
}

func checkAll(s *wildcard.Stream, model []byte, msg string) {
	got, err := s.Get(0, len(model))
	if err != nil {
		zzrt.Fail(msg + ": reading everything back fails: " + err.Error())
	}
	zzrt.Assert(zzkit.SameBytes(got, model), msg+": the content differs from a plain byte array")
}

// HSmall: any sequence of operations with arbitrary bytes, starting on a file with 0..init bytes.
func HSmall() {
	steps := zzrt.Param("steps", 3)
	maxInit := zzrt.Param("init", 2)
	maxLen := zzrt.Param("len", 2)
	model := zzrt.Bytes("initial", zzrt.Choice("initial size", maxInit+1))
	s, f := setup(model)
	model = append([]byte{}, model...)
	for i := 0; i < steps; i++ {
		switch zzrt.Choice("operation", 4) {
		case 0:
			data := zzrt.Bytes("added", zzrt.Choice("added length", maxLen+1))
			off, err := s.Add(data)
			if err != nil {
				zzrt.Fail("Add fails: " + err.Error())
			}
			zzrt.Assert(off == int64(len(model)), "Add does not return the logical end")
			model = append(model, data...)
			zzrt.Reach("add")
		case 1:
			off := zzrt.Choice("replace offset", len(model)+1)
			data := zzrt.Bytes("replaced", zzrt.Choice("replaced length", maxLen)+1)
			if err := s.Replace(int64(off), data); err != nil {
				zzrt.Fail("Replace within the content fails: " + err.Error())
			}
			for j, b := range data {
				if off+j < len(model) {
					model[off+j] = b
				} else {
					model = append(model, b)
				}
			}
			zzrt.Reach("replace")
		case 2:
			off := zzrt.Choice("get offset", len(model)+1)
			n := zzrt.Choice("get length", len(model)-off+1)
			got, err := s.Get(int64(off), n)
			if err != nil {
				zzrt.Fail("Get within the content fails: " + err.Error())
			}
			zzrt.Assert(zzkit.SameBytes(got, model[off:off+n]), "Get does not return the bytes most recently written")
			zzrt.Reach("get")
		case 3:
			if err := s.Flush(); err != nil {
				zzrt.Fail("Flush fails: " + err.Error())
			}
			zzrt.Reach("flush")
		}
	}
	checkAll(s, model, "at the end")
	if err := s.Flush(); err != nil {
		zzrt.Fail("Flush fails: " + err.Error())
	}
	checkAll(s, model, "after a flush")
	f.Close()
	disk, err := os.ReadFile(zzrt.Path("index"))
	if err != nil {
		zzrt.Fail("cannot read the file")
	}
	zzrt.Assert(zzkit.SameBytes(disk, model), "after a flush the file does not hold the logical content")
	zzrt.Observe("size", int64(len(disk)))
}

// HRange: any 64-bit offset and length. Out of range accesses fail and change nothing.
func HRange() {
	maxInit := zzrt.Param("init", 2)
	model := zzrt.Bytes("initial", zzrt.Choice("initial size", maxInit+1))
	s, f := setup(model)
	defer f.Close()
	extra := zzrt.Bytes("added", zzrt.Choice("added length", 3))
	if _, err := s.Add(extra); err != nil {
		zzrt.Fail("Add fails: " + err.Error())
	}
	model = append(append([]byte{}, model...), extra...)
	off := zzrt.Int64("offset")
	if zzrt.Choice("operation", 2) == 0 {
		n := zzrt.Int("length")
		inRange := zzrt.And(off >= 0, n >= 0, off <= int64(len(model)), int64(n) <= int64(len(model))-off)
		got, err := s.Get(off, n)
		if err == nil {
			zzrt.Assert(inRange, "Get outside the content succeeds")
			o := zzrt.Concrete(int(off))
			c := zzrt.Concrete(n)
			zzrt.Assert(zzkit.SameBytes(got, model[o:o+c]), "Get does not return the stored bytes")
			zzrt.Reach("get in range")
		} else {
			zzrt.Assert(!inRange, "Get within the content fails")
			zzrt.Reach("get out of range")
		}
	} else {
		data := zzrt.Bytes("replaced", zzrt.Choice("replaced length", 2)+1)
		inRange := zzrt.And(off >= 0, off <= int64(len(model)))
		err := s.Replace(off, data)
		if err == nil {
			zzrt.Assert(inRange, "Replace outside the content succeeds")
			o := zzrt.Concrete(int(off))
			for j, b := range data {
				if o+j < len(model) {
					model[o+j] = b
				} else {
					model = append(model, b)
				}
			}
			zzrt.Reach("replace in range")
		} else {
			zzrt.Assert(!inRange, "Replace within the content fails")
			zzrt.Reach("replace out of range")
		}
	}
	checkAll(s, model, "at the end")
}

// fill returns n bytes that differ from one place to the next.
func fill(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7) + seed
	}
	return b
}

// HBig: contents around the internal write buffer's size, so that it empties itself.
func HBig() {
	steps := zzrt.Param("steps", 3)
	s, f := setup(nil)
	var model []byte
	sizes := []int{1, 9_999, 10_000, 10_001, 20_003}
	for i := 0; i < steps; i++ {
		switch zzrt.Choice("operation", 3) {
		case 0:
			data := fill(sizes[zzrt.Choice("added length", len(sizes))], byte(i*31))
			data[0] = zzrt.Byte("first byte")
			off, err := s.Add(data)
			if err != nil {
				zzrt.Fail("Add fails: " + err.Error())
			}
			zzrt.Assert(off == int64(len(model)), "Add does not return the logical end")
			model = append(model, data...)
			zzrt.Reach("add")
		case 1:
			// straddles what is on disk and what is still buffered, at either end
			offs := []int{0, 9_998, 10_000, len(model) - 2, len(model) - 1, len(model)}
			off := offs[zzrt.Choice("replace offset", len(offs))]
			if off < 0 || off > len(model) {
				zzrt.Assume(false)
			}
			data := zzrt.Bytes("replaced", 4)
			if err := s.Replace(int64(off), data); err != nil {
				zzrt.Fail("Replace within the content fails: " + err.Error())
			}
			for j, b := range data {
				if off+j < len(model) {
					model[off+j] = b
				} else {
					model = append(model, b)
				}
			}
			zzrt.Reach("replace")
		case 2:
			if err := s.Flush(); err != nil {
				zzrt.Fail("Flush fails: " + err.Error())
			}
			zzrt.Reach("flush")
		}
	}
	checkAll(s, model, "at the end")
	for _, off := range []int{0, 9_997, 9_999, len(model) - 5} {
		if off >= 0 && off+5 <= len(model) {
			got, err := s.Get(int64(off), 5)
			if err != nil {
				zzrt.Fail("Get within the content fails: " + err.Error())
			}
			zzrt.Assert(zzkit.SameBytes(got, model[off:off+5]), "Get does not return the bytes most recently written")
		}
	}
	if err := s.Flush(); err != nil {
		zzrt.Fail("Flush fails: " + err.Error())
	}
	f.Close()
	disk, err := os.ReadFile(zzrt.Path("index"))
	if err != nil {
		zzrt.Fail("cannot read the file")
	}
	zzrt.Assert(zzkit.SameBytes(disk, model), "after a flush the file does not hold the logical content")
}
