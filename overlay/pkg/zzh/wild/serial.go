// Package wild: the wildcard index (C01, C02, C03, C05, C07).
package wild

import (
	"os"

	"github.com/rodb-io/rodb/pkg/index/wildcard"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

func must(err error, what string) {
	if err != nil {
		zzrt.Fail(what + ": " + err.Error())
	}
}

func newStream(name string) (*wildcard.Stream, *os.File) {
	f, err := os.Create(zzrt.Path(name))
	must(err, "creating the file")
	return wildcard.NewStream(f, 0), f
}

func reopen(name string) (*wildcard.Stream, *os.File) {
	f, err := os.Open(zzrt.Path(name))
	must(err, "opening the file")
	st, err := f.Stat()
	must(err, "stat")
	return wildcard.NewStream(f, st.Size()), f
}

// HNodeBytes: any 56 bytes read as a node are written back unchanged, and its links lead where the
// serialized fields say.
func HNodeBytes() {
	data := zzrt.Bytes("node", wildcard.TreeNodeSize)
	n := &wildcard.TreeNode{}
	n.Unserialize(data)
	zzrt.Assert(zzkit.SameBytes(n.Serialize(), data), "a node is not written as it was read")
	l := &wildcard.PositionLinkedList{}
	l.Unserialize(data[:wildcard.PositionLinkedListSize])
	zzrt.Assert(zzkit.SameBytes(l.Serialize(), data[:wildcard.PositionLinkedListSize]), "a position is not written as it was read")
	zzrt.Reach("end")
}

// HNodeLinks: nodes and positions linked through the API are found again from the file.
func HNodeLinks() {
	s, f := newStream("index")
	pad := zzrt.Choice("padding", 3) * 300
	_, err := s.Add(make([]byte, pad+1))
	must(err, "padding")
	root, err := wildcard.NewEmptyTreeNode(s)
	must(err, "new node")
	k := zzrt.Choice("children", 3) + 1
	var kids []*wildcard.TreeNode
	for i := 0; i < k; i++ {
		c, err := wildcard.NewEmptyTreeNode(s)
		must(err, "new node")
		must(c.Save(), "save")
		kids = append(kids, c)
	}
	if zzrt.Bool("the last one first") {
		for i := 0; i < k/2; i++ {
			kids[i], kids[k-1-i] = kids[k-1-i], kids[i]
		}
	}
	for _, c := range kids {
		must(root.AppendChild(c), "append child")
	}
	var want []record.Position
	m := zzrt.Choice("positions", 4)
	for i := 0; i < m; i++ {
		p := zzrt.Int64("position")
		want = append(want, p)
		if i > 0 {
			zzrt.Assume(p != want[i-1])
		}
		must(root.AppendPositionIfNotExists(p), "append position")
		if zzrt.Bool("again") {
			must(root.AppendPositionIfNotExists(p), "append position")
		}
	}
	must(s.Flush(), "flush")
	// the parent keeps its bytes, wherever it is read from
	first, err := root.FirstChild()
	must(err, "first child")
	s2, f2 := reopen("index")
	rootBytes, err := s2.Get(int64(pad+1), wildcard.TreeNodeSize)
	must(err, "reading the root")
	zzrt.Assert(zzkit.SameBytes(rootBytes, root.Serialize()), "the stored node differs from the one in memory")
	r2, err := wildcard.GetTreeNode(s2, wildcard.TreeNodeOffset(pad+1))
	must(err, "reading the root")
	c2, err := r2.FirstChild()
	must(err, "first child")
	zzrt.Assert(c2 != nil && zzkit.SameBytes(c2.Serialize(), first.Serialize()), "the first child differs")
	count := 0
	for c2 != nil {
		count++
		if count > k {
			break
		}
		c2, err = c2.NextSibling()
		must(err, "next sibling")
	}
	zzrt.Assert(count == k, "the number of children differs")
	last, err := r2.LastChild()
	must(err, "last child")
	zzrt.Assert(zzkit.SameBytes(last.Serialize(), kids[k-1].Serialize()), "the last child differs")
	pos, err := r2.FirstPosition()
	must(err, "first position")
	if m == 0 {
		zzrt.Assert(pos == nil, "a node without positions has one")
	} else {
		got, err := zzkit.Drain(pos.Iterate(), m)
		must(err, "iterating")
		zzrt.Assert(zzkit.SamePositions(got, want), "the positions read back differ from those saved")
		lp, err := r2.LastPosition()
		must(err, "last position")
		zzrt.Assert(lp != nil && lp.Position == want[m-1], "the last position differs")
		// a copy holds the same positions
		s3, f3 := newStream("copy")
		_ = s3
		cp, cl, err := pos.Copy()
		if err == nil {
			got, err = zzkit.Drain(cp.Iterate(), m)
			must(err, "iterating the copy")
			zzrt.Assert(zzkit.SamePositions(got, want), "a copied position list differs")
			zzrt.Assert(cl.Position == want[m-1], "the end of a copied position list differs")
		}
		f3.Close()
		zzrt.Reach("positions")
	}
	f.Close()
	f2.Close()
	zzrt.Reach("end")
}

// HPositionArray: lists made from an array.
func HPositionArray() {
	s, f := newStream("index")
	_, err := s.Add([]byte{0})
	must(err, "add")
	m := zzrt.Choice("positions", 4)
	want := make([]record.Position, m)
	for i := range want {
		want[i] = zzrt.Int64("position")
	}
	l, err := wildcard.NewPositionLinkedListFromArray(s, want)
	must(err, "new list")
	if m == 0 {
		zzrt.Assert(l == nil, "an empty list has an item")
		return
	}
	cp, last, err := l.Copy()
	must(err, "copy")
	for _, x := range []*wildcard.PositionLinkedList{l, cp} {
		got, err := zzkit.Drain(x.Iterate(), m)
		must(err, "iterate")
		zzrt.Assert(zzkit.SamePositions(got, want), "the positions read back differ")
	}
	zzrt.Assert(last.Position == want[m-1], "the end of the copy differs")
	must(s.Flush(), "flush")
	f.Close()
	s2, f2 := reopen("index")
	r, err := wildcard.GetPositionLinkedList(s2, 1)
	must(err, "reading back")
	got, err := zzkit.Drain(r.Iterate(), m)
	must(err, "iterate")
	zzrt.Assert(zzkit.SamePositions(got, want), "the positions read back from the file differ")
	f2.Close()
	zzrt.Reach("end")
}

// HMetadata: any metadata values survive saving and loading, and are checked against each present value.
func HMetadata() {
	in := zzkit.NewInput("in")
	in.SizeV = zzrt.Int64("input size")
	in.Mod = modTime("input time")
	roots := zzrt.Choice("properties", 4)
	ignore := zzrt.Bool("ignoreCase")
	s, f := newStream("index")
	mi := wildcard.MetadataInput{Input: in, IgnoreCase: ignore, RootNodesCount: roots}
	m, err := wildcard.NewMetadata(s, mi)
	must(err, "new metadata")
	size0, err := m.Serialize()
	must(err, "serialize")
	var nodes []*wildcard.TreeNode
	for i := 0; i < roots; i++ {
		n, err := wildcard.NewEmptyTreeNode(s)
		must(err, "new node")
		l, err := wildcard.NewPositionLinkedList(s, zzrt.Int64("position"))
		must(err, "new position")
		must(n.AppendPositionIfNotExists(l.Position), "append")
		nodes = append(nodes, n)
		m.SetRootNode(i, n)
	}
	completed := zzrt.Bool("completed")
	m.SetCompleted(completed)
	must(m.Save(), "save")
	b1, err := m.Serialize()
	must(err, "serialize")
	zzrt.Assert(len(b1) == len(size0), "the space reserved for the metadata differs from what it needs")
	if zzrt.Bool("save twice") {
		must(m.Save(), "save")
	}
	must(s.Flush(), "flush")
	f.Close()
	s2, f2 := reopen("index")
	head, err := s2.Get(0, len(b1))
	must(err, "reading the head")
	zzrt.Assert(zzkit.SameBytes(head, b1), "the saved metadata differ from the serialized ones")
	m2, err := wildcard.LoadMetadata(s2)
	must(err, "load")
	b2, err := m2.Serialize()
	must(err, "serialize")
	zzrt.Assert(zzkit.SameBytes(b1, b2), "the metadata read back differ")
	err = m2.AssertValid(mi)
	zzrt.Assert((err == nil) == completed, "the metadata are accepted exactly when completed")
	other := zzkit.NewInput("in")
	other.SizeV = zzrt.Int64("other size")
	other.Mod = modTime("other time")
	mo := wildcard.MetadataInput{Input: other, IgnoreCase: ignore, RootNodesCount: roots}
	same := zzrt.And(other.SizeV == in.SizeV, other.Mod.Unix() == in.Mod.Unix())
	if m2.AssertValid(mo) == nil {
		zzrt.Assert(same, "the metadata are accepted for another input")
	} else {
		zzrt.Assert(zzrt.Or(!same, !completed), "the metadata are refused for the input they were made for")
	}
	for i := 0; i < roots; i++ {
		n, err := m2.GetRootNode(i)
		must(err, "root node")
		zzrt.Assert(n != nil && zzkit.SameBytes(n.Serialize(), nodes[i].Serialize()), "a root node differs")
	}
	f2.Close()
	if completed {
		zzrt.Reach("completed")
	} else {
		zzrt.Reach("not completed")
	}
}
