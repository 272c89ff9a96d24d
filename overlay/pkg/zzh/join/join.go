// Package join: C11, intersection of sorted position streams.
package join

import (
	"errors"

	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

var errStream = errors.New("stream failure")

func positions(label string, max int) []int64 {
	n := zzrt.Choice(label+".len", max+1)
	wide := zzrt.Param("wide", 0) == 1
	out := make([]int64, n)
	for i := range out {
		if wide {
			out[i] = zzrt.Int64(label)
		} else {
			out[i] = int64(zzrt.Byte(label))
		}
		if i > 0 {
			zzrt.Assume(out[i] > out[i-1])
		}
	}
	return out
}

// HJoin: any number of streams of any ascending 64-bit positions, one of which may fail at any point.
func HJoin() {
	maxIters := zzrt.Param("iters", 3)
	maxLen := zzrt.Param("len", 3)
	k := zzrt.Choice("iterators", maxIters+1)
	lists := make([][]int64, k)
	iters := make([]record.PositionIterator, k)
	failList, failAt := -1, -1
	if k > 0 && zzrt.Param("fail", 0) == 1 {
		failList = zzrt.Choice("failing list", k)
		failAt = zzrt.Choice("failing call", maxLen+1)
	}
	failed := false
	for i := range lists {
		lists[i] = positions("pos", maxLen)
		list := lists[i]
		idx := 0
		isFail := i == failList
		iters[i] = func() (*record.Position, error) {
			if isFail && idx == failAt {
				failed = true
				return nil, errStream
			}
			if idx >= len(list) {
				return nil, nil
			}
			p := list[idx]
			idx++
			return &p, nil
		}
	}
	var expected []int64
	if k > 0 {
		for _, p := range lists[0] {
			inAll := true
			for _, other := range lists[1:] {
				found := false
				for _, q := range other {
					found = zzrt.Or(found, q == p)
				}
				inAll = zzrt.And(inAll, found)
			}
			if inAll {
				expected = append(expected, p)
			}
		}
	}
	it := record.JoinPositionIterators(iters...)
	for i := 0; ; i++ {
		p, err := it()
		if err != nil {
			zzrt.Assert(failed, "an error although no stream failed")
			zzrt.Assert(errors.Is(err, errStream), "the stream's own error is reported")
			zzrt.Assert(p == nil, "no position together with an error")
			zzrt.Reach("error")
			return
		}
		zzrt.Assert(!failed, "a stream failure must be reported")
		if p == nil {
			if failList < 0 {
				zzrt.Assert(i == len(expected), "positions are missing")
			}
			zzrt.Reach("end")
			break
		}
		zzrt.Assert(i < len(expected), "too many positions")
		zzrt.Assert(*p == expected[i], "wrong position")
		zzrt.Reach("position")
		zzrt.Observe("p", *p)
	}
	if failList < 0 {
		for i := 0; i < 2; i++ {
			p, err := it()
			zzrt.Assert(p == nil && err == nil, "the end must be stable")
		}
	}
}

// HPositionList: a stored list is iterated completely, in order, with a stable end.
func HPositionList() {
	list := positions("pos", zzrt.Param("len", 3))
	it := record.PositionList(list).Iterate()
	for _, e := range list {
		p, err := it()
		zzrt.Assert(err == nil && p != nil, "missing position")
		zzrt.Assert(*p == e, "wrong position")
	}
	for i := 0; i < 2; i++ {
		p, err := it()
		zzrt.Assert(p == nil && err == nil, "the end must be stable")
	}
	zzrt.Reach("end")
}
