package conf

import (
	"os"
	"strings"

	"github.com/rodb-io/rodb/pkg/config"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// The configurations of which any value can be missing, null, empty or something else.
// A slot is written as <key?value> (optional), <key!value> (required), <key@value> (an
// optional reference), <key#value> (a required reference), or <-value> for an item of a list.
var parts = []string{
	// parsers
	`parsers: [<-{<name!p>, <type!string>, <convertFromCharset?utf-8>}>, <-{<name!q>, <type!split>, <delimiter:','>, <delimiterIsRegexp?true>, <parser#r>}>, <-{<name!r>, <type!split>, <delimiter:';'>, <delimiterIsRegexp?false>, <parser#integer>}>]`,
	`parsers: [<-{<name!f>, <type!float>, <decimalSeparator!'.'>, <ignoreCharacters?' '>}>, <-{<name!b>, <type!boolean>, <trueValues![1]>, <falseValues!['0', <-n>]>}>, <-{<name!n>, <type!integer>, <ignoreCharacters?','>}>, <-{<name!j>, <type!json>}>]`,
	// inputs
	`inputs: [<-{<name!i>, <type!csv>, <path!$FILE>, <dieOnInputChange?false>, <ignoreFirstRow?true>, <autodetectColumns?false>, <delimiter?';'>, <columns![<-{<name!a>, <parser@integer>}>, <-{<name!b>}>]>}>, <-{<name!j>, <type!json>, <path!$FILE>, <dieOnInputChange?false>}>]`,
	`inputs: [<-{<name!i>, <type!csv>, <path!$FILE>, <autodetectColumns:true>, <columns:[]>}>]`,
	`inputs: [<-{<name!x>, <type!xml>, <path!$FILE>, <recordXpath!//i>, <properties![<-{<name!a>, <type?primitive>, <xpath!b>, <parser@integer>}>]>}>]`,
	`inputs: [{name: x, type: xml, path: $FILE, recordXpath: //i, properties: [<-{<name!c>, <type:array>, <xpath!b>, <items!{<type?primitive>, <xpath!b>, <parser@integer>}>}>, <-{<name!d>, <type:object>, <xpath!b>, <properties![<-{<name!e>, <xpath!b>}>]>}>]}]`,
	// indexes
	`{inputs: [{name: i, type: json, path: $FILE}], indexes: [<-{<name!m>, <type!map>, <input#i>, <properties?[<-a>, b]>}>, <-{<name!n>, <type!noop>}>, <-{<name!w>, <type!wildcard>, <path!$NEW>, <input#i>, <ignoreCase?true>, <properties?[<-a>]>}>]}`,
	`{inputs: [{name: i, type: json, path: $FILE}], indexes: [<-{<name!s>, <type!sqlite>, <dsn!d>, <input#i>, <properties?[<-{<name!a>, <collate@nocase>}>, <-{<name!b>}>]>}>, <-{<name!f>, <type!fts5>, <dsn!d>, <input#i>, <prefix?[2]>, <tokenize?porter>, <properties?[<-a>]>}>]}`,
	// outputs
	`{inputs: [{name: i, type: json, path: $FILE}], indexes: [{name: m, type: map, input: i, properties: [a]}], outputs: [<-{<name!o>, <type!jsonObject>, <input#i>, <parameters!{p: <-{<property#a>, <index@m>, <parser@integer>}>}>, <relationships?{r: <-{<input#i>, <isArray:true>, <limit?1>, <sort?[<-{<property:a>, <ascending?false>}>]>, <match![<-{<parentProperty:b>, <childProperty#a>, <childIndex@m>}>]>, <relationships?{}>}>}>}>]}`,
	`{inputs: [{name: i, type: json, path: $FILE}], indexes: [{name: m, type: map, input: i, properties: [a]}], outputs: [<-{<name!o>, <type!jsonArray>, <input#i>, <limit?{<default:5>, <max?7>, <parameter?l>}>, <offset?{<parameter?o>}>, <parameters?{p: <-{<property#a>, <index@m>, <parser@integer>}>}>, <relationships?{r: <-{<input#i>, <match![<-{<childProperty#a>, <childIndex@m>}>]>, <relationships?{s: <-{<input#i>, <match![<-{<childProperty:a>}>]>}>}>}>}>}>]}`,
	// services
	`{inputs: [{name: i, type: json, path: $FILE}], outputs: [{name: o, type: jsonArray, input: i}], services: [<-{<name!s>, <type!http>, <http:{<listen?'x:1'>}>, <https?{<listen?'x:1'>, <certificatePath!$FILE>, <privateKeyPath!$FILE>}>, <errorsType?application/json>, <routes![<-{<output#o>, <path!/>}>, <-{<output#o>, <path!/b>}>]>}>]}`,
	// sections
	`{<parsers?[{name: p, type: integer}]>, <inputs:[{name: i, type: json, path: $FILE}]>, <indexes?[{name: n, type: noop}]>, <outputs?[{name: o, type: jsonArray, input: i}]>, <services?[]>}`,
}

// the texts that replace a value
var others = []string{"", "~", "''", "[]", "{}", "7", "zz", "[~]", "{zz: ~}", "$FILE/x", "$DIR", "[[", "&a [*a]", "-1", "\"\\0\""}

const (
	unsure = iota
	accepted
	refused
)

// expand builds the text of a part with the given slots replaced, and tells what is expected.
func expand(part string, at [2]int, by [2]int) (text string, slots int, expect int) {
	expect = accepted
	var walk func(s string, drop bool) string
	walk = func(s string, drop bool) string {
		out := ""
		for i := 0; i < len(s); i++ {
			if s[i] != '<' {
				out += s[i : i+1]
				continue
			}
			depth, j := 1, i+1
			for ; depth > 0; j++ {
				if s[j] == '<' {
					depth++
				} else if s[j] == '>' {
					depth--
				}
			}
			inner := s[i+1 : j-1]
			i = j - 1
			key, kind, k := "", inner[0], 1
			if kind != '-' {
				k = strings.IndexAny(inner, "?!@#:")
				key, kind = inner[:k]+": ", inner[k]
				k++
			}
			me := slots
			slots++
			replaced := -1
			for n := range at {
				if at[n] == me && by[n] >= 0 && !drop {
					replaced = by[n]
				}
			}
			value := walk(inner[k:], drop || replaced >= 0)
			if replaced < 0 {
				out += key + value
				continue
			}
			other := others[replaced]
			switch {
			case other == "[[":
				expect = refused
			case expect == refused:
			case kind == '!' && (other == "" || other == "~" || other == "''"):
				expect = refused
			case kind == '#' && (other == "" || other == "~" || other == "''" || other == "zz"):
				expect = refused
			case kind == '@' && other == "zz":
				expect = refused
			case (kind == '?' || kind == '@') && (other == "" || other == "~"):
			case kind == '-' && strings.HasPrefix(inner, "-{") && (other == "~" || other == "''" || other == "7" || other == "zz" || other == "{}" && strings.Contains(inner, "!")):
				expect = refused
			default:
				expect = unsure
			}
			if other == "" {
				// the whole entry goes
				out = strings.TrimRight(out, " ")
				if strings.HasSuffix(out, ",") {
					out = out[:len(out)-1]
				} else if strings.HasPrefix(s[i+1:], ", ") {
					i += 2
				}
				continue
			}
			out += key + other
		}
		return out
	}
	text = walk(part, false)
	return
}

// fill replaces the names of the files.
func fill(text string) string {
	text = strings.Replace(text, "$FILE", zzrt.Path("data"), -1)
	text = strings.Replace(text, "$NEW", zzrt.Path("new"), -1)
	return strings.Replace(text, "$DIR", zzrt.Path("dir"), -1)
}

func prepare() {
	if err := os.WriteFile(zzrt.Path("data"), []byte("a;b\n1;2\n"), 0o644); err != nil {
		zzrt.Fail("writing the file")
	}
	os.Mkdir(zzrt.Path("dir"), 0o755)
}

// HSlots: C27, any value of a right configuration is missing, null, empty or something else.
func HSlots() {
	prepare()
	first := zzrt.Param("first", 0)
	n := zzrt.Param("parts", len(parts))
	part := parts[first+zzrt.Choice("part", n)]
	_, slots, _ := expand(part, [2]int{-1, -1}, [2]int{-1, -1})
	at, by := [2]int{-1, -1}, [2]int{-1, -1}
	changes := zzrt.Choice("changes", zzrt.Param("changes", 1)+1)
	for k := 0; k < changes; k++ {
		kinds := zzrt.Param("kinds", len(others))
		at[k] = zzrt.Choice("slot", slots)
		by[k] = zzrt.Choice("value", kinds)
		if k == 1 && at[1] <= at[0] {
			zzrt.Assume(false)
		}
	}
	text, _, expect := expand(part, at, by)
	if changes > 1 {
		expect = unsure // a change can make another one right or wrong
	}
	zzrt.ObserveStr("text", text)
	c, err := load(fill(text))
	judge(c, err, expect, text)
}

func judge(c *config.Config, err error, expect int, text string) {
	if err != nil {
		zzrt.Assert(expect != accepted, "a right configuration is refused: "+text+": "+err.Error())
		zzrt.Reach("refused")
		return
	}
	zzrt.Assert(expect != refused, "a wrong configuration is accepted: "+text)
	zzrt.Reach("accepted")
	wellFormed(c)
	start(c)
}
