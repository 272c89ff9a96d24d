package inputs

import (
	"os"
	"strings"

	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

func newXml(text string, conf *input.XmlConfig) (*input.Xml, error) {
	conf.Name, conf.Path = "in", zzrt.Path("data.xml")
	conf.DieOnInputChange = zzkit.Bool(true)
	if err := os.WriteFile(conf.Path, []byte(text), 0o644); err != nil {
		zzrt.Fail("writing the file")
	}
	sc := &parser.StringConfig{Name: "string"}
	ic := &parser.IntegerConfig{Name: "integer"}
	if err := conf.Validate(map[string]parser.Config{"string": sc, "integer": ic}, zzkit.Logger()); err != nil {
		zzrt.Fail("a right configuration is refused: " + err.Error())
	}
	s, err := parser.NewString(sc)
	if err != nil {
		zzrt.Fail("no string parser")
	}
	in, err := input.NewXml(conf, parser.List{"string": s, "integer": parser.NewInteger(ic)})
	if err != nil {
		return nil, err
	}
	zzrt.AtEnd(func() { in.Close() })
	return in, nil
}

// element is what is expected of one selected element.
type element struct{ id, text string }

// xmlText builds a document piece by piece along with its selected elements.
func xmlText() (string, []element) {
	var want []element
	heads := []string{"", "<?xml version=\"1.0\"?>\n", "\n<!-- <i/> -->\n", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>"}
	head := zzrt.Param("head", -1)
	if head < 0 {
		head = zzrt.Choice("head", zzrt.Param("heads", 4))
	}
	s := heads[head] + "<root>"
	if fill := zzrt.Param("fill", 0); fill > 0 {
		s += "<i n=\"f\">" + strings.Repeat("f", fill) + "</i>"
		want = append(want, element{"f", strings.Repeat("f", fill)})
	}
	n := zzrt.Choice("pieces", zzrt.Param("pieces", 2)+1)
	for i := 0; i < n; i++ {
		switch zzrt.Choice("piece", zzrt.Param("kinds", 8)) {
		case 0:
			id := zzrt.StringOfN("id", 1, "ab1 ")
			t := zzrt.StringOfN("text", zzrt.Choice("text.len", zzrt.Param("len", 1)+1), "ab1 \n]")
			s += "<i n=\"" + id + "\">" + t + "</i>"
			want = append(want, element{id, t})
		case 1:
			if head == 4 {
				b := zzrt.Byte("latin")
				zzrt.Assume(b >= 0xc0)
				s += "<i n=\"l\">" + string([]byte{b}) + "</i>"
				want = append(want, element{"l", string([]byte{0xc3, b - 0x40})})
				break
			}
			id := zzrt.StringOfN("id", 1, "ab1")
			s += "<i n='" + id + "'/>"
			want = append(want, element{id, ""})
		case 2:
			s += zzrt.StringOfN("between", 1, " \n\tx]")
		case 3:
			s += "<!--" + zzrt.StringOfN("comment", 1, "<>a i") + "<i/>-->"
		case 4:
			s += "<o n=\"" + zzrt.StringOfN("id", 1, "ab") + "\">o</o>"
		case 5:
			id := zzrt.StringOfN("id", 1, "ab")
			t := zzrt.StringOfN("text", 1, "<&>a")
			s += "<i n=\"" + id + "\"><![CDATA[" + t + "]]></i>"
			want = append(want, element{id, t})
		case 6:
			id := zzrt.StringOfN("id", 1, "ab")
			s += "<i\nn=\"&lt;" + id + "\" m=\"z\">&amp;<b>c</b></i >"
			want = append(want, element{"<" + id, "&c"})
		case 7:
			if zzrt.Param("groups", 0) == 0 {
				zzrt.Assume(false)
			}
			id := zzrt.StringOfN("id", 1, "ab")
			s += "<g><i n=\"" + id + "\">g</i></g>"
			want = append(want, element{id, "g"})
		}
	}
	return s + "</root>" + []string{"", "\n"}[zzrt.Choice("end", 2)], want
}

func checkElement(rec record.Record, want element, how string) {
	for _, p := range []struct{ name, want string }{{"n", want.id}, {"t", want.text}} {
		v, err := rec.Get(p.name)
		zzrt.Assert(err == nil, how+": reading a property fails")
		s, ok := v.(string)
		zzrt.Assert(ok && zzkit.SameBytes([]byte(s), []byte(p.want)), how+": a property does not hold the value of its element")
	}
	all, err := rec.All()
	zzrt.Assert(err == nil && len(all) == 2, how+": reading all properties fails")
	zzrt.Assert(zzkit.SameBytes([]byte(all["n"].(string)), []byte(want.id)) && zzkit.SameBytes([]byte(all["t"].(string)), []byte(want.text)), how+": reading all properties gives other values")
}

// HXml: C15, for elements that share their parent and are selected by name.
func HXml() { checkXml() }

// HXmlAnchored: C15, for elements selected by their path from the root.
func HXmlAnchored() { checkXml() }

// HXmlGroups: C15, for elements of different parents.
func HXmlGroups() { checkXml() }

// HXmlCharset: C15, for documents that declare another encoding than UTF-8.
func HXmlCharset() { checkXml() }

func checkXml() {
	text, want := xmlText()
	in, err := newXml(text, &input.XmlConfig{
		RecordXPath: []string{"//i", "/root/i", "//root/i"}[zzrt.Param("xpath", 0)],
		Properties: []*input.XmlPropertyConfig{
			{Name: "n", XPath: "string(@n)"},
			{Name: "t", XPath: "string(.)"},
		},
	})
	if err != nil {
		zzrt.Fail("opening the input fails: " + err.Error())
	}
	next, end, err := in.IterateAll()
	if err != nil {
		zzrt.Fail("scanning fails: " + err.Error())
	}
	var pos []record.Position
	for i := 0; ; i++ {
		rec, err := next()
		if err != nil {
			zzrt.Fail("scanning fails: " + err.Error())
		}
		if rec == nil {
			zzrt.Assert(i == len(want), "the scan ends before the last selected element")
			break
		}
		zzrt.Assert(i < len(want), "the scan returns more records than there are selected elements")
		p := rec.Position()
		zzrt.Assert(i == 0 && p >= 0 || i > 0 && p > pos[i-1], "positions do not strictly increase")
		checkElement(rec, want[i], "scan")
		pos = append(pos, p)
	}
	zzrt.Assert(end() == nil, "ending the scan fails")
	if len(pos) == 0 {
		zzrt.Reach("no record")
		return
	}
	zzrt.Reach("record")
	fetch := func(i int) {
		rec, err := in.Get(pos[i])
		if err != nil {
			zzrt.Fail("fetching a scanned position fails: " + err.Error())
		}
		zzrt.Assert(rec.Position() == pos[i], "the fetched record has another position")
		checkElement(rec, want[i], "fetch")
	}
	for i, k := 0, zzrt.Param("fetches", 2); i < k; i++ {
		fetch(zzrt.Choice("fetched", len(pos)))
	}
	for i := len(pos) - 1; i >= 0; i-- {
		fetch(i)
	}
	for i := range pos {
		fetch(i)
	}
	zzrt.Assert(in.Close() == nil, "closing the input fails")
	zzrt.Assert(zzrt.OpenFiles() == 0, "files are left open")
}

// HXmlCut: C15, a document that ends too early is an error after the elements that are complete.
func HXmlCut() {
	id := zzrt.StringOfN("id", 1, "ab1")
	heads := []string{"", "<?xml version=\"1.0\"?>\n", "<!-- c -->"}
	pieces := []string{"<i n=\"" + id + "\">" + zzrt.StringOfN("text", 1, "ab \n") + "</i>", " ", "<i n=\"c\">&amp;<b>c</b></i >", "<o>x</o>", "<i n=\"d\"/>"}
	text, done := heads[zzrt.Choice("head", len(heads))]+"<root>", []int{}
	for _, p := range pieces {
		text += p
		if strings.HasPrefix(p, "<i") {
			done = append(done, len(text))
		}
	}
	text += "</root>\n"
	min := strings.Index(text, "<root>") + 6
	cut := min + zzrt.Choice("cut", len(text)-1-min)
	in, err := newXml(text[:cut], &input.XmlConfig{
		RecordXPath: []string{"//i", "/root/i"}[zzrt.Choice("xpath", 2)],
		Properties:  []*input.XmlPropertyConfig{{Name: "n", XPath: "string(@n)"}},
	})
	if err != nil {
		zzrt.Reach("refused")
		return
	}
	next, end, err := in.IterateAll()
	if err != nil {
		zzrt.Reach("refused")
		return
	}
	complete := 0
	for _, at := range done {
		if at <= cut {
			complete++
		}
	}
	n := 0
	for err == nil {
		var rec record.Record
		rec, err = next()
		if rec == nil {
			break
		}
		n++
	}
	zzrt.Assert(err != nil, "a scan of a document that ends too early ends without an error")
	zzrt.Assert(n <= complete, "an element that is not complete is returned as a record")
	zzrt.Reach("cut")
	end()
	in.Close()
	zzrt.Assert(zzrt.OpenFiles() == 0, "files are left open")
}
