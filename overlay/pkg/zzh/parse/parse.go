// Package parse: the value parsers and their route patterns (C17, C18, C19).
package parse

import (
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

var ignores = []string{"", ",", ", ", "-", "€$", "^]", ",-_", "a-z", `\.`, "0"}

func ignoreSet() string { return ignores[zzrt.Choice("ignored", zzrt.Param("sets", len(ignores)))] }

func text(label string) string {
	min := zzrt.Param("min", 0)
	n := min + zzrt.Choice(label+".len", zzrt.Param("len", 3)-min+1)
	switch zzrt.Param("alphabet", 0) {
	case 1:
		return zzrt.StringOfN(label, n, "0123456789-")
	case 2:
		return zzrt.StringOfN(label, n, "-,.015 a_^]")
	case 3:
		s := ""
		for i := 0; i < n; i++ {
			s += []string{"€", "1", "-", ",", "$", "\xe2"}[zzrt.Choice(label, 6)]
		}
		return s
	case 4:
		return zzrt.StringOfN(label, n, "0123456789")
	case 5:
		return zzrt.StringOfN(label, n, "ab,;")
	case 6: // parts of characters in UTF-8
		return zzrt.StringOfN(label, n, "\xc3\xa9\xe2\x82a")
	}
	return zzrt.StringN(label, n)
}

// remove drops the occurrences of each character, one character after the other.
func remove(s, chars string) string {
	for _, c := range chars {
		s = replace(s, string(c), "")
	}
	return s
}

func at(s string, i int, sub string) bool {
	if i+len(sub) > len(s) {
		return false
	}
	for k := 0; k < len(sub); k++ {
		if s[i+k] != sub[k] {
			return false
		}
	}
	return true
}

func replace(s, old, new string) string {
	out := ""
	for i := 0; i < len(s); {
		if at(s, i, old) {
			out += new
			i += len(old)
		} else {
			out += s[i : i+1]
			i++
		}
	}
	return out
}

// decimal decides whether s is a decimal integer that fits in 64 bits.
func decimal(s string) (v int64, ok bool) {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if len(s) == 0 {
		return 0, false
	}
	var u uint64
	valid := true
	for i := 0; i < len(s); i++ {
		valid = zzrt.And(valid, s[i] >= '0', s[i] <= '9')
		u = u*10 + uint64(s[i]-'0')
	}
	if !valid {
		return 0, false
	}
	// Compared with the limit as texts of the same length
	limit := "9223372036854775807"
	if neg {
		limit = "9223372036854775808"
		u = -u
	}
	for len(limit) < len(s) {
		limit = "0" + limit
	}
	p := ""
	for len(p)+len(s) < len(limit) {
		p += "0"
	}
	s = p + s
	less, eq := false, true
	for i := range limit {
		less = zzrt.Or(less, zzrt.And(eq, s[i] < limit[i]))
		eq = zzrt.And(eq, s[i] == limit[i])
	}
	return int64(u), zzrt.Or(less, eq)
}

// HInteger: any text; ignored characters out of several sets.
func HInteger() {
	ignored := ignoreSet()
	p := parser.NewInteger(&parser.IntegerConfig{Name: "i", IgnoreCharacters: ignored})
	s := text("text")
	if zzrt.Param("long", 0) == 1 { // around the limits of 64 bits
		s = []string{"", "-", "+"}[zzrt.Choice("sign", 3)] +
			[]string{"9223372036854775", "0009223372036854775", "1844674407370955", "00000000000000000000", "999999999999999", "100000000000000000"}[zzrt.Choice("start", 6)] + s
	}
	got, err := p.Parse(s)
	want, ok := decimal(remove(s, ignored))
	if err == nil {
		zzrt.Assert(ok, "a text that is not an integer is accepted")
		v, isInt := got.(int64)
		zzrt.Assert(isInt, "the value is not an integer")
		zzrt.Assert(v == want, "the value of an integer is wrong")
		zzrt.Reach("accepted")
	} else {
		zzrt.Assert(!ok, "an integer is refused")
		zzrt.Reach("refused")
	}
	zzrt.Assert(p.Primitive() && p.Name() == "i", "not a primitive")
}

func in(c rune, set string) bool {
	for _, x := range set {
		if x == c {
			return true
		}
	}
	return false
}

// number decides whether s is ignored* -? (digit|ignored)+ with at least one digit.
func number(s string, ignored string, sign bool) bool {
	digits := 0
	r := []rune(s)
	i := 0
	if sign {
		for i < len(r) && in(r[i], ignored) && r[i] != '-' {
			i++
		}
		if i < len(r) && r[i] == '-' {
			i++
		}
	}
	for ; i < len(r); i++ {
		if r[i] >= '0' && r[i] <= '9' {
			digits++
		} else if !in(r[i], ignored) {
			return false
		}
	}
	return digits > 0
}

func made(s string, ignored string) bool {
	dashes := 0
	for _, c := range s {
		switch {
		case c >= '0' && c <= '9':
		case in(c, ignored):
		case c == '-':
			dashes++
		default:
			return false
		}
	}
	return dashes <= 1 && len(s) > 0
}

func full(pattern string) *regexp.Regexp {
	re, err := regexp.Compile("^(" + pattern + ")$")
	if err != nil {
		zzrt.Fail("the pattern is not a regular expression: " + err.Error())
	}
	zzrt.Assert(re.NumSubexp() == 1, "the pattern has groups of its own, which shift the parameters of a route")
	return re
}

// HIntegerPattern: any text against the pattern.
func HIntegerPattern() {
	ignored := ignoreSet()
	p := parser.NewInteger(&parser.IntegerConfig{Name: "i", IgnoreCharacters: ignored})
	re := full(p.GetRegexpPattern())
	s := text("text")
	if re.MatchString(s) {
		zzrt.Assert(made(s, ignored), "the pattern matches a text that is not made of a sign, digits and ignored characters")
		zzrt.Reach("matches")
	} else {
		zzrt.Assert(!number(s, ignored, true), "the pattern does not match an integer")
		zzrt.Reach("no match")
	}
}

var separators = []string{".", ",", "::", "-", "e"}

// HFloat: any text, several separators and sets of ignored characters.
func HFloat() {
	ignored := ignoreSet()
	sep := separators[zzrt.Choice("separator", zzrt.Param("seps", len(separators)))]
	p := parser.NewFloat(&parser.FloatConfig{Name: "f", IgnoreCharacters: ignored, DecimalSeparator: sep})
	s := text("text")
	got, err := p.Parse(s)
	want, err2 := strconv.ParseFloat(replace(remove(s, ignored), sep, "."), 64)
	zzrt.Assert((err == nil) == (err2 == nil), "a number is refused, or another text accepted")
	if err == nil {
		v, isFloat := got.(float64)
		zzrt.Assert(isFloat, "the value is not a floating-point number")
		zzrt.Assert(math.Float64bits(v) == math.Float64bits(want), "the value of a number is wrong")
		zzrt.Reach("accepted")
	} else {
		zzrt.Reach("refused")
	}
}

// HFloatPattern: any text against the pattern.
func HFloatPattern() {
	ignored := ignoreSet()
	sep := separators[zzrt.Choice("separator", zzrt.Param("seps", len(separators)))]
	p := parser.NewFloat(&parser.FloatConfig{Name: "f", IgnoreCharacters: ignored, DecimalSeparator: sep})
	re := full(p.GetRegexpPattern())
	s := text("text")
	m := re.MatchString(s)
	if m {
		zzrt.Reach("matches")
	} else {
		zzrt.Assert(!number(s, ignored, true), "the pattern does not match an integer")
		for i := range s {
			if at(s, i, sep) {
				zzrt.Assert(!(number(s[:i], ignored, true) && number(s[i+len(sep):], ignored, false)), "the pattern does not match a number")
			}
		}
		zzrt.Reach("no match")
	}
	if m && !in('-', ignored+sep) {
		bare := replace(s, sep, "0")
		zzrt.Assert(made(bare, ignored), "the pattern matches a text that is not made of a sign, digits, separator and ignored characters")
	}
}

var spellings = [][2][]string{
	{{"true"}, {"false"}},
	{{"t.", "1"}, {"(f", "0", "a|b"}},
	{{"é", "t", "tt"}, {"", "f*"}},
}

// HBoolean: any text, several spellings.
func HBoolean() {
	sp := spellings[zzrt.Choice("spellings", len(spellings))]
	p := parser.NewBoolean(&parser.BooleanConfig{Name: "b", TrueValues: sp[0], FalseValues: sp[1]})
	re := full(p.GetRegexpPattern())
	s := text("text")
	if zzrt.Param("spelled", 0) == 1 { // a spelling with one byte changed
		all := append(append([]string{}, sp[0]...), sp[1]...)
		b := []byte(all[zzrt.Choice("spelling", len(all))])
		if len(b) > 0 {
			b[zzrt.Choice("byte", len(b))] = zzrt.Byte("new byte")
		}
		s = string(b)
	}
	isTrue, isFalse := false, false
	for _, x := range sp[0] {
		isTrue = isTrue || s == x
	}
	for _, x := range sp[1] {
		isFalse = isFalse || s == x
	}
	got, err := p.Parse(s)
	zzrt.Assert((err == nil) == (isTrue || isFalse), "a spelling is refused, or another text accepted")
	if err == nil {
		v, ok := got.(bool)
		zzrt.Assert(ok && v == isTrue, "the value of a boolean is wrong")
		zzrt.Reach("accepted")
	} else {
		zzrt.Reach("refused")
	}
	zzrt.Assert(re.MatchString(s) == (isTrue || isFalse), "the pattern does not match exactly the spellings")
}

func splitConfig(delim string, re bool, element string) *parser.SplitConfig {
	cfg := &parser.SplitConfig{Name: "s", Delimiter: &delim, DelimiterIsRegexp: &re, Parser: element}
	if re {
		cfg.DelimiterRegexp = regexp.MustCompile(delim)
	}
	return cfg
}

func str() *parser.String {
	p, err := parser.NewString(&parser.StringConfig{Name: "string"})
	if err != nil {
		zzrt.Fail(err.Error())
	}
	return p
}

// HSplit: any text and delimiter.
func HSplit() {
	delim := zzrt.StringN("delimiter", zzrt.Param("mindelim", 0)+zzrt.Choice("delimiter.len", zzrt.Param("delim", 2)-zzrt.Param("mindelim", 0)+1))
	p := parser.NewSplit(splitConfig(delim, false, "string"), parser.List{"string": str()})
	s := strings.Repeat("x"+delim, zzrt.Param("fill", 0)) + text("text")
	v, err := p.Parse(s)
	zzrt.Assert(err == nil, "splitting fails")
	got, ok := v.([]interface{})
	zzrt.Assert(ok, "the result of splitting is not a list")
	joined := ""
	for i, e := range got {
		piece, ok := e.(string)
		zzrt.Assert(ok, "a piece is not a text")
		if i > 0 {
			joined += delim
		}
		joined += piece
		if delim != "" {
			for k := range []byte(piece) {
				zzrt.Assert(!at(piece, k, delim), "a piece contains the delimiter")
			}
		}
	}
	zzrt.Assert(zzkit.SameBytes([]byte(joined), []byte(s)), "the pieces do not give the text back")
	if delim != "" {
		zzrt.Assert(len(got) >= 1, "no piece at all")
	}
	if len(got) > 1 {
		zzrt.Reach("several pieces")
	} else {
		zzrt.Reach("one piece")
	}
}

// HSplitElements: each piece goes through the element parser.
func HSplitElements() {
	elem := parser.NewInteger(&parser.IntegerConfig{Name: "i"})
	p := parser.NewSplit(splitConfig(",", false, "i"), parser.List{"i": elem})
	s := text("text")
	v, err := p.Parse(s)
	bad := false
	var want []int64
	start := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == ',' {
			x, ok := decimal(s[start:i])
			if !ok {
				bad = true
			}
			want = append(want, x)
			start = i + 1
		}
	}
	zzrt.Assert((err != nil) == bad, "an element error is not reported, or reported without reason")
	if err == nil {
		got, ok := v.([]interface{})
		zzrt.Assert(ok && len(got) == len(want), "the number of pieces is wrong")
		for i := range want {
			x, ok := got[i].(int64)
			zzrt.Assert(ok && x == want[i], "an element is wrong")
		}
		zzrt.Reach("accepted")
	} else {
		zzrt.Reach("refused")
	}
	missing := parser.NewSplit(splitConfig(",", false, "nope"), parser.List{"i": elem})
	_, err = missing.Parse(s)
	zzrt.Assert(err != nil, "a missing element parser is not reported")
}

// HSplitRegexp: delimiters that are regular expressions.
func HSplitRegexp() {
	k := zzrt.Choice("delimiter", 3)
	p := parser.NewSplit(splitConfig([]string{"[,;]", "a+", "ab|b"}[k], true, "string"), parser.List{"string": str()})
	s := strings.Repeat("xb,xa;", zzrt.Param("fill", 0)) + text("text")
	v, err := p.Parse(s)
	zzrt.Assert(err == nil, "splitting fails")
	got := v.([]interface{})
	var want []string
	start := 0
	for i := 0; i < len(s); {
		n := 0
		switch k {
		case 0:
			if s[i] == ',' || s[i] == ';' {
				n = 1
			}
		case 1:
			for i+n < len(s) && s[i+n] == 'a' {
				n++
			}
		case 2:
			if at(s, i, "ab") {
				n = 2
			} else if s[i] == 'b' {
				n = 1
			}
		}
		if n > 0 {
			want = append(want, s[start:i])
			i += n
			start = i
			zzrt.Reach("several pieces")
		} else {
			i++
		}
	}
	want = append(want, s[start:])
	zzrt.Assert(len(got) == len(want), "the number of pieces is wrong")
	for i := range want {
		x, ok := got[i].(string)
		zzrt.Assert(ok && x == want[i], "a piece is wrong")
	}
}

// HText: the text parser without conversion, and what it converts from.
func HText() {
	s := text("text")
	got, err := str().Parse(s)
	x, ok := got.(string)
	zzrt.Assert(err == nil && ok && zzkit.SameBytes([]byte(x), []byte(s)), "a text changes although no conversion is configured")
	zzrt.Reach("text")
}

// HCharset: ISO-8859-1 gives each byte its code point, also after other texts went through.
func HCharset() {
	name := []string{"ISO-8859-1", "windows-1252"}[zzrt.Choice("charset", 2)]
	p, err := parser.NewString(&parser.StringConfig{Name: "c", ConvertFromCharset: name})
	if err != nil {
		zzrt.Fail(err.Error())
	}
	for n := 0; n < zzrt.Param("texts", 2); n++ {
		s := text("text")
		got, err := p.Parse(s)
		zzrt.Assert(err == nil, "converting fails")
		x, ok := got.(string)
		zzrt.Assert(ok, "not a text")
		r := []rune(x)
		zzrt.Assert(len(r) == len(s), "converting loses or adds characters")
		for i := range r {
			if name == "ISO-8859-1" || s[i] < 0x80 || s[i] >= 0xa0 {
				zzrt.Assert(r[i] == rune(s[i]), "a character is converted wrongly")
			} else {
				zzrt.Assert(r[i] == win1252[s[i]-0x80], "a character is converted wrongly")
			}
		}
	}
	zzrt.Reach("converted")
}

var win1252 = []rune("€\uFFFD‚ƒ„…†‡ˆ‰Š‹Œ\uFFFDŽ\uFFFD\uFFFD‘’“”•–—˜™š›œ\uFFFDžŸ")

// HDocCharset: Shift_JIS texts are converted to the right characters.
func HDocCharset() {
	p, err := parser.NewString(&parser.StringConfig{Name: "c", ConvertFromCharset: "Shift_JIS"})
	if err != nil {
		zzrt.Fail(err.Error())
	}
	for n := 0; n < 2; n++ {
		var s string
		var want rune
		switch zzrt.Choice("range", 4) {
		case 0: // ASCII
			c := zzrt.Byte("c")
			zzrt.Assume(c < 0x5c)
			s, want = string([]byte{c}), rune(c)
		case 1: // half-width katakana
			c := zzrt.Byte("c")
			zzrt.Assume(zzrt.And(c >= 0xa1, c <= 0xdf))
			s, want = string([]byte{c}), 0xff61+rune(c)-0xa1
		case 2: // hiragana
			c := zzrt.Byte("c")
			zzrt.Assume(zzrt.And(c >= 0x9f, c <= 0xf1))
			s, want = string([]byte{0x82, c}), 0x3041+rune(c)-0x9f
		case 3: // a lead byte alone: replaced, and nothing of it remains for the next text
			s, want = "\x82", 0xfffd
		}
		got, err := p.Parse("<" + s)
		zzrt.Assert(err == nil, "converting fails")
		r := []rune(got.(string))
		zzrt.Assert(len(r) == 2 && r[0] == '<' && r[1] == want, "a character is converted wrongly")
	}
	zzrt.Reach("converted")
}
