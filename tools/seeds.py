SEEDS=[]
def S(**k): SEEDS.append(k)

WILD='''package index

import (
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"
)

func demoWildcard(t *testing.T, path string, ignoreCase bool, properties []string, in input.Input) (*Wildcard, error) {
	logger := logrus.NewEntry(logrus.New())
	return NewWildcard(&WildcardConfig{Name: "w", Type: "wildcard", Input: "mock", Properties: properties, Path: path, IgnoreCase: &ignoreCase, Logger: logger}, input.List{"mock": in})
}

func demoInput(values ...string) *input.Mock {
	records := []record.Record{}
	for i, value := range values {
		records = append(records, record.NewStringPropertiesMockRecord(map[string]string{"p": value, "q": value}, record.Position(i)))
	}
	return input.NewMock(parser.NewMock(), records)
}

func demoSearch(t *testing.T, index Index, in input.Input, filters map[string]interface{}) []record.Position {
	iterator, err := index.GetRecordPositions(in, filters)
	if err != nil {
		t.Fatal(err)
	}
	result := []record.Position{}
	for {
		position, err := iterator()
		if err != nil {
			t.Fatal(err)
		}
		if position == nil {
			return result
		}
		result = append(result, *position)
	}
}

var _ = strings.Repeat
var _ = time.Unix
var _ = reflect.DeepEqual
var _ = filepath.Join
'''
S(id='C01-split-last',property='C01',pkg='index',
 needs='a tree node that already lists at least two records is split, and the split-off part is then reached by another record',
 breaks='the last position of the split-off node is wrong, so appending the next record drops the ones in between: a search misses records',
 edits=[('pkg/index/wildcard/node.go','newChild.lastPositionOffset = newChildLastPosition.offset','newChild.lastPositionOffset = newChildFirstPosition.offset'),
        ('pkg/index/wildcard/node.go','newChildFirstPosition, newChildLastPosition, err := existingNodeFirstPosition.Copy()','newChildFirstPosition, _, err := existingNodeFirstPosition.Copy()')],
 demo=WILD+'''
func TestZZDemo(t *testing.T) {
	in := demoInput("abc", "abc", "abd", "abc")
	index, err := demoWildcard(t, filepath.Join(t.TempDir(), "i"), false, []string{"p"}, in)
	if err != nil {
		t.Fatal(err)
	}
	if got := demoSearch(t, index, in, map[string]interface{}{"p": "abc"}); !reflect.DeepEqual(got, []record.Position{0, 1, 3}) {
		t.Fatalf("got %v", got)
	}
}
''')
S(id='C01-lower-filter',property='C01',pkg='index',
 needs='ignoreCase with a text that contains the same letter in both cases across a list value',
 breaks='with ignoreCase, the elements of list values are indexed without being lower-cased',
 edits=[('pkg/index/wildcard.go','''	if wildcard.config.ShouldIgnoreCase() {
		stringValue = strings.ToLower(stringValue)
	}

	root''','''	if wildcard.config.ShouldIgnoreCase() && strings.ToUpper(stringValue) == stringValue {
		stringValue = strings.ToLower(stringValue)
	} else if wildcard.config.ShouldIgnoreCase() {
		stringValue = strings.ToLower(stringValue[:1]) + stringValue[1:]
	}

	root''')],
 demo='')
SEEDS.pop()
S(id='C02-subsecond',property='C02',pkg='index',
 needs='an input file whose modification time has a fraction of a second',
 breaks='the saved index only keeps whole seconds, so an index that was completely written is refused at the next start',
 edits=[('pkg/index/wildcard/metadata.go','if metadata.inputFileModificationTime.Unix() != modTime.Unix() {','if !metadata.inputFileModificationTime.Equal(modTime) {')],
 demo=WILD+'''
func TestZZDemo(t *testing.T) {
	in := demoInput("abc", "abd")
	in.SetModTime(time.Unix(1234, 5678))
	path := filepath.Join(t.TempDir(), "i")
	for i := 0; i < 2; i++ {
		index, err := demoWildcard(t, path, false, []string{"p"}, in)
		if err != nil {
			t.Fatal(err)
		}
		if got := demoSearch(t, index, in, map[string]interface{}{"p": "bd"}); !reflect.DeepEqual(got, []record.Position{1}) {
			t.Fatalf("got %v", got)
		}
	}
}
''')
S(id='C03-early-flag',property='C03',pkg='index',
 needs='the input fails (or the process stops) after the write buffer has been flushed at least once',
 breaks='the completion flag is written with the root nodes, before the records: a half-built file is accepted at the next start',
 edits=[('pkg/index/wildcard.go','''	metadata.SetCompleted(true)
	if err := metadata.Save(); err != nil {
		return err
	}

	if err := indexStream.Flush()''','''	if err := indexStream.Flush()'''),
  ('pkg/index/wildcard.go','''		metadata.SetRootNode(propertyIndex, index[property])
	}

	if err''','''		metadata.SetRootNode(propertyIndex, index[property])
	}

	metadata.SetCompleted(true)
	if err''')],
 demo=WILD+'''
type failingInput struct {
	*input.Mock
	fail bool
}

func (in *failingInput) IterateAll() (record.Iterator, func() error, error) {
	next, end, err := in.Mock.IterateAll()
	count := 0
	return func() (record.Record, error) {
		count++
		if in.fail && count > 150 {
			return nil, errors.New("stopped")
		}
		return next()
	}, end, err
}

func TestZZDemo(t *testing.T) {
	values := []string{}
	for i := 0; i < 300; i++ {
		values = append(values, fmt.Sprintf("value%d", i))
	}
	in := &failingInput{demoInput(values...), true}
	path := filepath.Join(t.TempDir(), "i")
	if _, err := demoWildcard(t, path, false, []string{"p"}, in); err == nil {
		t.Fatal("expected an error")
	}
	in.fail = false
	index, err := demoWildcard(t, path, false, []string{"p"}, in)
	if err != nil {
		return // rejected
	}
	iterator, err := index.GetRecordPositions(in, map[string]interface{}{"p": "value299"})
	if err != nil {
		return
	}
	position, err := iterator()
	if err != nil {
		return
	}
	if position == nil {
		t.Fatal("an incomplete index is used")
	}
}
'''.replace('import (','import ('))
SEEDS[-1]['demo']=SEEDS[-1]['demo'].replace('import (','import (\n\t"errors"\n\t"fmt"',1)
S(id='C05-value-length',property='C05',pkg='index',
 needs='an index file in which the length of a node\'s text is negative or huge',
 breaks='the text of a node is read into a buffer allocated from the stored length, before that length is checked',
 edits=[('pkg/index/wildcard/node.go','''	return node.stream.Get(int64(node.valueOffset), int(node.valueLength))''','''	// Copying it, because the stream can return a part of its internal buffer
	value := make([]byte, node.valueLength)
	data, err := node.stream.Get(int64(node.valueOffset), int(node.valueLength))
	if err != nil {
		return nil, err
	}
	copy(value, data)

	return value, nil''')],
 demo=WILD+'''
func TestZZDemo(t *testing.T) {
	in := demoInput("abc")
	path := filepath.Join(t.TempDir(), "i")
	if _, err := demoWildcard(t, path, false, []string{"p"}, in); err != nil {
		t.Fatal(err)
	}
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	// The length of the text of the last node ("c")
	for i := len(data) - 48; i < len(data)-40; i++ {
		data[i] = 0xff
	}
	if err := os.WriteFile(path, data, 0600); err != nil {
		t.Fatal(err)
	}
	index, err := demoWildcard(t, path, false, []string{"p"}, in)
	if err != nil {
		return
	}
	iterator, err := index.GetRecordPositions(in, map[string]interface{}{"p": "c"})
	if err != nil {
		return
	}
	iterator()
}
'''.replace('import (','import (\n\t"os"',1))
SEEDS[-1]['demo']=SEEDS[-1]['demo'].replace('import (','import (\n\t"os"',1)
S(id='C06-big-write',property='C06',pkg='index/wildcard',
 needs='a single addition larger than the write buffer while something is still buffered',
 breaks='big additions are written straight to the file, ahead of what is buffered and without moving the start of the buffer',
 edits=[('pkg/index/wildcard/stream.go','''	currentOffset := offset
	remainingBytes := bytes

	if currentOffset < stream.bufferOffset {
		bytesToWriteToFile''','''	currentOffset := offset
	remainingBytes := bytes

	// No need to buffer what will be flushed immediately
	if offset == stream.streamSize && int64(len(bytes)) > stream.bufferMaxSize {
		if _, err := stream.stream.WriteAt(bytes, offset); err != nil {
			return err
		}
		stream.streamSize += int64(len(bytes))
		if len(stream.buffer) == 0 {
			stream.bufferOffset = stream.streamSize
		}
		return nil
	}

	if currentOffset < stream.bufferOffset {
		bytesToWriteToFile''')],
 demo='''package wildcard

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"
)

func TestZZDemo(t *testing.T) {
	file, err := os.Create(filepath.Join(t.TempDir(), "s"))
	if err != nil {
		t.Fatal(err)
	}
	stream := NewStream(file, 0)
	if _, err := stream.Add([]byte("abc")); err != nil {
		t.Fatal(err)
	}
	big := bytes.Repeat([]byte("x"), STREAM_BUFFER_SIZE+1)
	if _, err := stream.Add(big); err != nil {
		t.Fatal(err)
	}
	offset, err := stream.Add([]byte("def"))
	if err != nil {
		t.Fatal(err)
	}
	if got, err := stream.Get(offset, 3); err != nil || string(got) != "def" {
		t.Fatalf("got %q %v", got, err)
	}
	if got, err := stream.Get(3, len(big)); err != nil || !bytes.Equal(got, big) {
		t.Fatalf("different content, %v", err)
	}
}
''')
S(id='C07-position-32',property='C07',pkg='index/wildcard',
 needs='a record beyond the first 4 GiB of its input',
 breaks='only the low 32 bits of a position are read back from the index file',
 edits=[('pkg/index/wildcard/position.go','list.Position = int64(binary.BigEndian.Uint64(data[0:8]))','list.Position = int64(binary.BigEndian.Uint32(data[4:8]))')],
 demo='''package wildcard

import "testing"

func TestZZDemo(t *testing.T) {
	list := &PositionLinkedList{Position: 1 << 33, nextPositionOffset: 1}
	got := &PositionLinkedList{}
	got.Unserialize(list.Serialize())
	if got.Position != 1<<33 {
		t.Fatalf("got %v", got.Position)
	}
}
''')
S(id='C08-noop-null',property='C08',pkg='index',
 needs='two filters, one of which is null and matches, handled before the other one which does not match',
 breaks='once a null filter matches a null value, the remaining filters are not checked any more',
 edits=[('pkg/index/noop.go','''					if filter == nil {
						continue
					} else {
						matches = false
						break
					}''','''					matches = filter == nil
					break''')],
 demo='''package index

import (
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
	"testing"
)

type demoRecord struct{ record.Record }

func (demoRecord) Get(path string) (interface{}, error) {
	if path == "a" {
		return nil, nil
	}
	return "x", nil
}
func (demoRecord) Position() record.Position { return 0 }

func TestZZDemo(t *testing.T) {
	in := input.NewMock(parser.NewMock(), []record.Record{demoRecord{}})
	for i := 0; i < 200; i++ {
		iterator, err := NewNoop(&NoopConfig{Name: "n"}, input.List{"mock": in}).GetRecordPositions(in, map[string]interface{}{"a": nil, "b": "y"})
		if err != nil {
			t.Fatal(err)
		}
		if position, err := iterator(); err != nil || position != nil {
			t.Fatalf("got %v %v", position, err)
		}
	}
}
''')
S(id='C11-reuse',property='C11',pkg='input/record',
 needs='an error in a stream other than the first, while it is being advanced up to the current position',
 breaks='an error met while skipping ahead in a stream is reported as the end of the results',
 edits=[('pkg/input/record/join.go','''					if err != nil {
						return nil, err
					}
					if currentListValue == nil {
						return nil, nil
					}
''','''					if err != nil || currentListValue == nil {
						return nil, nil
					}
''')],
 demo='''package record

import (
	"errors"
	"testing"
)

func TestZZDemo(t *testing.T) {
	calls := 0
	second := func() (*Position, error) {
		calls++
		if calls == 2 {
			return nil, errors.New("failed")
		}
		position := Position(calls)
		return &position, nil
	}
	if _, err := JoinPositionIterators(PositionList{5}.Iterate(), second)(); err == nil {
		t.Fatal("expected an error")
	}
}
''')
IN='''package input

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"testing"

	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
)

var _ = os.Remove
var _ = reflect.DeepEqual
var _ record.Record

func demoFile(t *testing.T, content string) string {
	path := filepath.Join(t.TempDir(), "data")
	if err := ioutil.WriteFile(path, []byte(content), 0644); err != nil {
		t.Fatal(err)
	}
	return path
}

func demoParsers(t *testing.T) (map[string]parser.Config, parser.List) {
	c := &parser.StringConfig{Name: "string"}
	p, err := parser.NewString(c)
	if err != nil {
		t.Fatal(err)
	}
	return map[string]parser.Config{"string": c}, parser.List{"string": p}
}

func demoOpen(t *testing.T, c Config) Input {
	configs, parsers := demoParsers(t)
	if err := c.Validate(configs, logrus.NewEntry(logrus.New())); err != nil {
		t.Fatal(err)
	}
	in, err := NewFromConfig(c, parsers)
	if err != nil {
		t.Fatal(err)
	}
	return in
}

func demoCsv(t *testing.T, content string) Input {
	return demoOpen(t, &CsvConfig{Name: "in", Path: demoFile(t, content), Delimiter: ",", Columns: []*CsvColumnConfig{{Name: "a", Parser: "string"}, {Name: "b", Parser: "string"}}})
}

func demoXml(t *testing.T, content string, properties ...*XmlPropertyConfig) Input {
	if properties == nil {
		properties = []*XmlPropertyConfig{{Type: "primitive", Name: "a", Parser: "string", XPath: "string(.)"}}
	}
	return demoOpen(t, &XmlConfig{Name: "in", Path: demoFile(t, content), RecordXPath: "//i", Properties: properties})
}

func demoScan(t *testing.T, in Input) ([]record.Record, error) {
	next, end, err := in.IterateAll()
	if err != nil {
		return nil, err
	}
	defer end()
	all := []record.Record{}
	for {
		r, err := next()
		if err != nil {
			return all, err
		}
		if r == nil {
			return all, nil
		}
		all = append(all, r)
	}
}
'''
S(id='C12-reuse',property='C12',pkg='input',
 needs='a fetched record is still in use while another record is fetched',
 breaks='all the records share the memory of the last row that was read',
 edits=[('pkg/input/csv.go','csvReader.ReuseRecord = false','csvReader.ReuseRecord = true')],
 demo=IN+'''
func TestZZDemo(t *testing.T) {
	in := demoCsv(t, "1,2\\n3,4\\n")
	defer in.Close()
	all, err := demoScan(t, in)
	if err != nil || len(all) != 2 {
		t.Fatal(all, err)
	}
	for _, r := range all {
		scanned, err := r.Get("a")
		fetched, err2 := in.Get(r.Position())
		if err != nil || err2 != nil {
			t.Fatal(err, err2)
		}
		if value, _ := fetched.Get("a"); value != scanned {
			t.Fatalf("at %v: scanned %v, fetched %v", r.Position(), scanned, value)
		}
	}
}
''')
S(id='C13-all-short',property='C13',pkg='input',
 needs='a row with less fields than columns, of which all the columns are read at once',
 breaks='the missing columns of a short row are left out of the complete record, while reading them by their name gives null',
 edits=[('pkg/input/csv_record.go','''	for _, column := range record.config.Columns {
		value,''','''	for columnIndex, column := range record.config.Columns {
		if columnIndex >= len(record.data) {
			break
		}

		value,''')],
 demo=IN+'''
func TestZZDemo(t *testing.T) {
	in := demoCsv(t, "1\\n")
	defer in.Close()
	all, err := demoScan(t, in)
	if err != nil || len(all) != 1 {
		t.Fatal(all, err)
	}
	data, err := all[0].All()
	if err != nil {
		t.Fatal(err)
	}
	if value, exists := data["b"]; !exists || value != nil {
		t.Fatalf("%v", data)
	}
}
''')
S(id='C14-truncated',property='C14',pkg='input',
 needs='a file that ends in the middle of its last document',
 breaks='the last, incomplete document is taken for the end of the file instead of being reported as an error',
 edits=[('pkg/input/json.go','if err := jsonDecoder.Decode(&data); err == io.EOF {','if err := jsonDecoder.Decode(&data); err == io.EOF || err == io.ErrUnexpectedEOF {')],
 demo=IN+'''
func TestZZDemo(t *testing.T) {
	in := demoOpen(t, &JsonConfig{Name: "in", Path: demoFile(t, "{\\"a\\":1}\\n{\\"a\\":")})
	defer in.Close()
	if all, err := demoScan(t, in); err == nil {
		t.Fatalf("%v records and no error", len(all))
	}
}
''')
S(id='C15-empty',property='C15',pkg='input',
 needs='a selected element without any content (its data being in its attributes, for example)',
 breaks='the elements without content are not records any more',
 edits=[('pkg/input/xml.go','''		node, err := xmlParser.Read()
		if err == io.EOF {
			return nil, nil
		}
''','''		node, err := xmlParser.Read()
		for err == nil && node.FirstChild == nil {
			node, err = xmlParser.Read()
		}
		if err == io.EOF {
			return nil, nil
		}
''')],
 demo=IN+'''
func TestZZDemo(t *testing.T) {
	in := demoXml(t, "<r><i>1</i><i/><i>2</i></r>")
	defer in.Close()
	if all, err := demoScan(t, in); err != nil || len(all) != 3 {
		t.Fatalf("%v records, %v", len(all), err)
	}
}
''')
S(id='C16-xml-negative',property='C16',pkg='input',
 needs='a path whose index in an xml array property is negative',
 breaks='a negative index of an array property crashes',
 edits=[('pkg/input/xml_record.go','if requestedIndex < 0 || requestedIndex >= len(nodes) {','if requestedIndex >= len(nodes) {')],
 demo=IN+'''
func TestZZDemo(t *testing.T) {
	in := demoXml(t, "<r><i><v>1</v></i></r>", &XmlPropertyConfig{Type: "array", Name: "a", XPath: "//v", Items: &XmlPropertyConfig{Type: "primitive", Parser: "string", XPath: "string(.)"}})
	defer in.Close()
	all, err := demoScan(t, in)
	if err != nil || len(all) != 1 {
		t.Fatal(all, err)
	}
	if value, err := all[0].Get("a.-1"); value != nil || err != nil {
		t.Fatal(value, err)
	}
}
''')
PA='''package parser

import (
	"reflect"
	"testing"
)

var _ = reflect.DeepEqual
'''
S(id='C17-base',property='C17',pkg='parser',
 needs='a number written with leading zeros',
 breaks='numbers with leading zeros are read in base 8, and other notations (0x10) are accepted',
 edits=[('pkg/parser/integer.go','integerValue, err := strconv.Atoi(cleanedValue)','integerValue, err := strconv.ParseInt(cleanedValue, 0, 64)')],
 demo=PA+'''
func TestZZDemo(t *testing.T) {
	if value, err := NewInteger(&IntegerConfig{}).Parse("010"); value != int64(10) || err != nil {
		t.Fatal(value, err)
	}
}
''')
S(id='C18-space',property='C18',pkg='parser',
 needs='a boolean spelling surrounded by spaces',
 breaks='texts that are not one of the spellings are accepted',
 edits=[('pkg/parser/boolean.go','''	if util.IsInArray(value, boolean.config.TrueValues) {''','''	value = strings.TrimSpace(value)
	if util.IsInArray(value, boolean.config.TrueValues) {''')],
 demo=PA+'''
func TestZZDemo(t *testing.T) {
	if value, err := NewBoolean(&BooleanConfig{TrueValues: []string{"yes"}, FalseValues: []string{" "}}).Parse(" "); value != false || err != nil {
		t.Fatal(value, err)
	}
}
''')
S(id='C19-trailing',property='C19',pkg='parser',
 needs='a text that ends with the delimiter',
 breaks='the last, empty piece is lost',
 edits=[('pkg/parser/split.go','values = strings.Split(value, split.config.GetDelimiter())','values = strings.Split(strings.TrimSuffix(value, split.config.GetDelimiter()), split.config.GetDelimiter())')],
 demo=PA+'''
func TestZZDemo(t *testing.T) {
	delimiter := ","
	value, err := NewSplit(&SplitConfig{Delimiter: &delimiter, Parser: "mock"}, List{"mock": NewMock()}).Parse("a,")
	if array, ok := value.([]interface{}); !ok || len(array) != 2 || err != nil {
		t.Fatal(value, err)
	}
}
''')
S(id='C20-difference',property='C20',pkg='parser',
 needs='two integers whose difference does not fit in 64 bits',
 breaks='very different integers are compared the wrong way around',
 edits=[('pkg/parser/parser.go','''		if aInt == bInt {
			return nil, nil
		}
		result := aInt < bInt
''','''		difference := aInt - bInt
		if difference == 0 {
			return nil, nil
		}
		result := difference < 0
''')],
 demo=PA+'''
func TestZZDemo(t *testing.T) {
	lower, err := Compare(int64(-5000000000000000000), int64(5000000000000000000))
	if err != nil || lower == nil || !*lower {
		t.Fatal(lower, err)
	}
}
''')
SV='''package service

import (
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"

	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
)

var _ = url.Parse
var _ = strings.Repeat
var _ = http.StatusOK

type demoOutput struct {
	*output.Mock
	payload *string
	handle  func(params map[string]string, payload []byte) (string, error)
}

func (o *demoOutput) ExpectedPayloadType() *string { return o.payload }
func (o *demoOutput) HasParameter(string) bool     { return true }
func (o *demoOutput) Handle(params map[string]string, payload []byte, sendError func(err error) error, sendSucces func() io.Writer) error {
	text, err := o.handle(params, payload)
	if err != nil {
		return sendError(err)
	}
	_, err = sendSucces().Write([]byte(text))
	return err
}

func demoOutputOf(payload *string, handle func(params map[string]string, payload []byte) (string, error)) *demoOutput {
	return &demoOutput{Mock: output.NewMock(parser.NewMock()), payload: payload, handle: handle}
}

// The answers to some requests of a service
func demoServe(t *testing.T, outputs map[string]output.Output, routes []*HttpRouteConfig, requests ...*http.Request) []*httptest.ResponseRecorder {
	logger := logrus.New()
	logger.SetOutput(io.Discard)
	s, err := NewHttp(&HttpConfig{Name: "s", ErrorsType: "application/json", Http: &HttpHttpConfig{Listen: "127.0.0.1:0"}, Routes: routes, Logger: logrus.NewEntry(logger)}, outputs)
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	answers := []*httptest.ResponseRecorder{}
	for _, request := range requests {
		answer := httptest.NewRecorder()
		s.getHandlerFunc()(answer, request)
		answers = append(answers, answer)
	}
	return answers
}
'''
S(id='C21-literal',property='C21',pkg='service',
 needs='a literal text after a parameter that contains a special character, such as a dot',
 breaks='the special characters of the literal texts after a parameter are handled as an expression',
 edits=[('pkg/service/http.go','path = path + "(" + paramPattern + ")" + regexp.QuoteMeta(parts[partIndex])','path = path + "(" + paramPattern + ")" + parts[partIndex]')],
 demo=SV+'''
func TestZZDemo(t *testing.T) {
	o := demoOutputOf(nil, func(params map[string]string, payload []byte) (string, error) { return "", nil })
	answers := demoServe(t, map[string]output.Output{"o": o}, []*HttpRouteConfig{{Path: "/a/{id}.json", Output: "o"}}, httptest.NewRequest("GET", "/a/1/json", nil))
	if answers[0].Code != 404 {
		t.Fatal(answers[0].Code)
	}
}
''')

S(id='C26-prefix',property='C26',pkg='service',
 needs='a request whose content type begins with the expected one and goes on',
 breaks='payloads of another type, whose name begins like the expected one, are accepted',
 edits=[('pkg/service/http.go','request.Header.Get("Content-Type") == *expectedPayloadType','strings.HasPrefix(request.Header.Get("Content-Type"), *expectedPayloadType)'),
        ('pkg/service/http.go','	"regexp"\n','	"regexp"\n	"strings"\n')],
 demo=SV+'''
func TestZZDemo(t *testing.T) {
	kind := "application/json"
	o := demoOutputOf(&kind, func(params map[string]string, payload []byte) (string, error) { return "", nil })
	request := httptest.NewRequest("POST", "/a", strings.NewReader("b"))
	request.Header.Set("Content-Type", "application/jsonl")
	answers := demoServe(t, map[string]output.Output{"o": o}, []*HttpRouteConfig{{Path: "/a", Output: "o"}}, request)
	if answers[0].Code == 200 {
		t.Fatal(answers[0].Code)
	}
}
''')
S(id='C04-older',property='C04',pkg='index/sqlite',
 needs='an input file replaced by an older one of the same size (a restored backup, for example)',
 breaks='an index of a newer version of the input is accepted',
 edits=[('pkg/index/sqlite/metadata.go','if metadata.inputFileModificationTime.Unix() != modTime.Unix() {','if metadata.inputFileModificationTime.Unix() < modTime.Unix() {')],
 demo='''package sqlite

import (
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
	"testing"
	"time"
)

type olderInput struct{ *input.Mock }

func (o *olderInput) ModTime() (time.Time, error) {
	t, err := o.Mock.ModTime()
	return t.Add(-time.Hour), err
}

func TestZZDemo(t *testing.T) {
	db, err := Open(":memory:")
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	in := input.NewMock(parser.NewMock(), []record.Record{})
	metadata, err := NewMetadata(db, "i", in)
	if err != nil {
		t.Fatal(err)
	}
	metadata.SetCompleted(true)
	if err := metadata.AssertValid(in); err != nil {
		t.Fatal(err)
	}
	if err := metadata.AssertValid(&olderInput{in}); err == nil {
		t.Fatal("expected an error")
	}
}
''')
S(id='C09-list',property='C09',pkg='index',
 needs='a list value with an element that is not a text',
 breaks='a list that contains anything else than texts crashes the wildcard index',
 edits=[('pkg/index/wildcard.go','''			if err := wildcard.addValueToIndex(index, property, valueArrayValue, position); err != nil {''','''			if err := wildcard.addValueToIndex(index, property, valueArrayValue.(string), position); err != nil {''')],
 demo=WILD+'''
type listRecord struct{ *record.MockRecord }

func (r *listRecord) Get(path string) (interface{}, error) {
	return []interface{}{"a", int64(1)}, nil
}

func TestZZDemo(t *testing.T) {
	in := input.NewMock(parser.NewMock(), []record.Record{&listRecord{record.NewStringPropertiesMockRecord(map[string]string{}, 0)}})
	if index, err := demoWildcard(t, filepath.Join(t.TempDir(), "index"), false, []string{"p"}, in); err == nil {
		index.Close()
	}
}
''')
S(id='C30-failure',property='C30',pkg='util',
 needs='a failure of the watcher, followed by a modification of the file',
 breaks='after a failure of the watcher, the modifications of the file are ignored',
 edits=[('pkg/util/fsnotify.go','''				logger.Errorf("Error while watching file: %v", err)
''','''				logger.Errorf("Error while watching file: %v", err)
				return
''')],
 demo='''package util

import (
	"errors"
	"github.com/fsnotify/fsnotify"
	"github.com/sirupsen/logrus"
	"io"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	exited := make(chan int, 10)
	logger := logrus.New()
	logger.Out = io.Discard
	logger.ExitFunc = func(code int) { exited <- code }
	watcher := &fsnotify.Watcher{Events: make(chan fsnotify.Event, 1), Errors: make(chan error)}
	StartFilesystemWatchProcess(watcher, true, logrus.NewEntry(logger))
	watcher.Errors <- errors.New("failed")
	watcher.Events <- fsnotify.Event{Op: fsnotify.Write}
	select {
	case <-exited:
	case <-time.After(5 * time.Second):
		t.Fatal("not ended")
	}
}
''')
S(id='C30-combined',property='C30',pkg='util',
 needs='an event that reports a modification along with something else (a change of the attributes, for example)',
 breaks='a modification that is reported together with another event is ignored',
 edits=[('pkg/util/fsnotify.go','if event.Op&fsnotify.Write == fsnotify.Write {','if event.Op == fsnotify.Write {')],
 demo='''package util

import (
	"github.com/fsnotify/fsnotify"
	"github.com/sirupsen/logrus"
	"io"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	exited := make(chan int, 10)
	logger := logrus.New()
	logger.Out = io.Discard
	logger.ExitFunc = func(code int) { exited <- code }
	watcher := &fsnotify.Watcher{Events: make(chan fsnotify.Event, 1), Errors: make(chan error)}
	StartFilesystemWatchProcess(watcher, true, logrus.NewEntry(logger))
	watcher.Events <- fsnotify.Event{Op: fsnotify.Write | fsnotify.Chmod}
	select {
	case <-exited:
	case <-time.After(5 * time.Second):
		t.Fatal("not ended")
	}
}
''')
S(id='C28-early-unlock',property='C28',pkg='input',
 needs='two requests that fetch records of a csv input at the same time',
 breaks='a request can read the record of another one: the position is set under the lock, but the row is read after it has been released',
 edits=[('pkg/input/csv.go','''	csvInput.readerLock.Lock()
	defer csvInput.readerLock.Unlock()

	if err := util.SetBufferedReaderOffset(csvInput.reader, csvInput.readerBuffer, position); err != nil {
		return nil, err
	}
''','''	if err := csvInput.seek(position); err != nil {
		return nil, err
	}
'''),('pkg/input/csv.go','''func (csvInput *Csv) Size() (int64, error) {''','''func (csvInput *Csv) seek(position record.Position) error {
	csvInput.readerLock.Lock()
	defer csvInput.readerLock.Unlock()

	return util.SetBufferedReaderOffset(csvInput.reader, csvInput.readerBuffer, position)
}

func (csvInput *Csv) Size() (int64, error) {''')],
 demo=IN+'''
func TestZZDemo(t *testing.T) {
	content := ""
	for i := 0; i < 400; i++ {
		content += string(rune('a'+i%26)) + "," + string(rune('a'+i%26)) + "\\n"
	}
	in := demoCsv(t, content)
	defer in.Close()
	failed := make(chan bool, 8)
	for worker := 0; worker < 8; worker++ {
		go func(worker int) {
			wrong := false
			defer func() {
				if recover() != nil {
					wrong = true
				}
				failed <- wrong
			}()
			for i := 0; i < 20000 && !wrong; i++ {
				n := (i*7 + worker*31) % 400
				r, err := in.Get(record.Position(4 * n))
				if err != nil {
					wrong = true
					break
				}
				if value, err := r.Get("a"); err != nil || value != string(rune('a'+n%26)) {
					wrong = true
				}
			}
		}(worker)
	}
	for worker := 0; worker < 8; worker++ {
		if <-failed {
			t.Fatal("a request got the record of another one")
		}
	}
}
''')
S(id='C29-map-error',property='C29',pkg='index',
 needs='a record whose value cannot be indexed',
 breaks='when the map index cannot be built, the scan of the input stays open',
 edits=[('pkg/index/map.go','''	defer func() {
		if err := end(); err != nil {
			mapIndex.config.Logger.Errorf("Error while closing the input iterator: %v", err)
		}
	}()

''',''),('pkg/index/map.go','''	mapIndex.index = index
''','''	if err := end(); err != nil {
		mapIndex.config.Logger.Errorf("Error while closing the input iterator: %v", err)
	}

	mapIndex.index = index
''')],
 demo='''package index

import (
	"errors"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
	"testing"
)

type failingInput struct {
	*input.Mock
	open int
}

func (f *failingInput) IterateAll() (record.Iterator, func() error, error) {
	f.open++
	return func() (record.Record, error) { return nil, errors.New("failed") }, func() error { f.open--; return nil }, nil
}

func TestZZDemo(t *testing.T) {
	in := &failingInput{Mock: input.NewMock(parser.NewMock(), []record.Record{})}
	if _, err := NewMap(&MapConfig{Name: "m", Input: "in", Properties: []string{"p"}, Logger: logrus.NewEntry(logrus.New())}, input.List{"in": in}); err == nil {
		t.Fatal("expected an error")
	}
	if in.open != 0 {
		t.Fatal("the scan is still open")
	}
}
''')

OUT='''package output

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"io/ioutil"
	"path/filepath"
	"reflect"
	"testing"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/output/parameter"
	"github.com/rodb-io/rodb/pkg/output/relationship"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
)

var _ = errors.New
var _ = reflect.DeepEqual
var _ record.Record
var _ parameter.ParameterConfig
var _ relationship.RelationshipConfig

func demoJson(t *testing.T, content string) input.Input {
	path := filepath.Join(t.TempDir(), "data")
	if err := ioutil.WriteFile(path, []byte(content), 0644); err != nil {
		t.Fatal(err)
	}
	in, err := input.NewJson(&input.JsonConfig{Name: "in", Path: path, Logger: logrus.NewEntry(logrus.New())})
	if err != nil {
		t.Fatal(err)
	}
	return in
}

// The status of the answer to a request (200 or 500), and what it contains
func demoArray(t *testing.T, in input.Input, params map[string]string, parameters map[string]*parameter.ParameterConfig, relationships map[string]*relationship.RelationshipConfig) (int, interface{}) {
	inputs := input.List{"in": in}
	noop := index.NewNoop(&index.NoopConfig{Name: "default"}, inputs)
	text, err := parser.NewString(&parser.StringConfig{Name: "string"})
	if err != nil {
		t.Fatal(err)
	}
	o, err := NewJsonArray(&JsonArrayConfig{
		Name: "o", Input: "in", Limit: JsonArrayLimitConfig{Default: 10, Max: 100, Parameter: "limit"}, Offset: JsonArrayOffsetConfig{Parameter: "offset"},
		Parameters: parameters, Relationships: relationships,
	}, inputs, noop, index.List{"default": noop}, parser.List{"string": text})
	if err != nil {
		t.Fatal(err)
	}
	status := 0
	buffer := &bytes.Buffer{}
	o.Handle(params, nil, func(err error) error { status = 500; return err }, func() io.Writer { status = 200; return buffer })
	if status != 200 {
		return status, nil
	}
	var data interface{}
	if err := json.Unmarshal(buffer.Bytes(), &data); err != nil {
		t.Fatal(err)
	}
	return status, data
}
'''
S(id='C22-empty-limit',property='C22',pkg='output',
 needs='an empty limit or offset parameter (?limit=)',
 breaks='an empty limit is not refused, but handled as if there was none',
 edits=[('pkg/output/json_array.go','if limitParam, limitParamExists := params[jsonArray.config.Limit.Parameter]; limitParamExists {','if limitParam := params[jsonArray.config.Limit.Parameter]; limitParam != "" {')],
 demo=OUT+'''
func TestZZDemo(t *testing.T) {
	if status, data := demoArray(t, demoJson(t, "{}"), map[string]string{"limit": ""}, nil, nil); status == 200 {
		t.Fatal(data)
	}
}
''')
S(id='C23-empty',property='C23',pkg='output',
 needs='an empty filter (?name=)',
 breaks='an empty filter gives all the records instead of those whose value is empty',
 edits=[('pkg/output/json_array.go','''		paramValue, paramExists := params[paramName]
		if !paramExists {''','''		paramValue := params[paramName]
		if paramValue == "" {''')],
 demo=OUT+'''
func TestZZDemo(t *testing.T) {
	_, data := demoArray(t, demoJson(t, "{\\"a\\":\\"1\\"}{\\"a\\":\\"\\"}"), map[string]string{"a": ""}, map[string]*parameter.ParameterConfig{"a": {Property: "a", Index: "default", Parser: "string"}}, nil)
	if rows, ok := data.([]interface{}); !ok || len(rows) != 1 {
		t.Fatal(data)
	}
}
''')
S(id='C24-null',property='C24',pkg='output',
 needs='a record whose matched property is null, and related ones whose property is null too',
 breaks='the records that are related by a null value are left out',
 edits=[('pkg/output/json_common.go','''		indexFilters, indexFiltersExist := filtersPerIndex[match.ChildIndex]
''','''		if matchData == nil {
			continue
		}

		indexFilters, indexFiltersExist := filtersPerIndex[match.ChildIndex]
''')],
 demo=OUT+'''
func TestZZDemo(t *testing.T) {
	_, data := demoArray(t, demoJson(t, "{\\"a\\":null,\\"b\\":1}"), map[string]string{}, nil, map[string]*relationship.RelationshipConfig{
		"r": {Input: "in", IsArray: true, Match: []*relationship.RelationshipMatchConfig{{ParentProperty: "a", ChildProperty: "b", ChildIndex: "default"}}},
	})
	rows, ok := data.([]interface{})
	if !ok || len(rows) != 1 {
		t.Fatal(data)
	}
	if related, ok := rows[0].(map[string]interface{})["r"].([]interface{}); !ok || len(related) != 0 {
		t.Fatal(data)
	}
}
''')
S(id='C25-partial',property='C25',pkg='output',
 needs='an input that fails after some records of the page have been read',
 breaks='when the page cannot be read until its end, the records that were read are answered as if they were all of them',
 edits=[('pkg/output/json_array.go','''		position, err := nextPosition()
		if err != nil {
			return sendError(err)
		}
		if position == nil {
			break
		}
''','''		position, err := nextPosition()
		if err != nil && len(rowsData) == 0 {
			return sendError(err)
		}
		if position == nil {
			break
		}
''')],
 demo=OUT+'''
func TestZZDemo(t *testing.T) {
	if status, data := demoArray(t, demoJson(t, "{}{]"), map[string]string{}, nil, nil); status == 200 {
		t.Fatal(data)
	}
}
''')
S(id='C27-nested-single',property='C27',pkg='output/relationship',
 needs='a relationship inside of one that is not a list, which refers to something that does not exist',
 breaks='the relationships of a relationship that is not a list are not checked',
 edits=[('pkg/output/relationship/config.go','''	for relationshipName, relationship := range config.Relationships {
''','''	for relationshipName, relationship := range config.Relationships {
		if !config.IsArray && relationship != nil {
			continue
		}

''')],
 demo='''package relationship

import (
	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/sirupsen/logrus"
	"testing"
)

func TestZZDemo(t *testing.T) {
	match := []*RelationshipMatchConfig{{ParentProperty: "a", ChildProperty: "a", ChildIndex: "default"}}
	config := &RelationshipConfig{Input: "in", Match: match, Relationships: map[string]*RelationshipConfig{
		"r": {Input: "in", Match: []*RelationshipMatchConfig{{ParentProperty: "a", ChildProperty: "a", ChildIndex: "other"}}},
	}}
	err := config.Validate(map[string]index.Config{"default": &index.NoopConfig{Name: "default"}}, map[string]input.Config{"in": &input.JsonConfig{Name: "in"}}, logrus.NewEntry(logrus.New()), "")
	if err == nil {
		t.Fatal("expected an error")
	}
}
''')
S(id='C10-quote',property='C10',pkg='index',
 needs='a property name that contains a double quote',
 breaks='the names of the columns are escaped with backslashes, which SQLite does not know: a name with a quote ends the identifier',
 edits=[('pkg/index/sqlite.go','''	return sqlitePackage.SanitizeIdentifier(sqlite.db, fmt.Sprintf("property_%v", propertyName))
''','''	return fmt.Sprintf("%q", "property_"+propertyName), nil
''')],
 demo='''package index

import (
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
	"testing"
)

func TestZZDemo(t *testing.T) {
	in := input.NewMock(parser.NewMock(), []record.Record{record.NewStringPropertiesMockRecord(map[string]string{"a\\"b": "12"}, 0)})
	index, err := NewSqlite(&SqliteConfig{Name: "i", Dsn: ":memory:", Input: "mock", Properties: []*SqlitePropertyConfig{{Name: "a\\"b", Collate: "BINARY"}}, Logger: logrus.NewEntry(logrus.New())}, input.List{"mock": in})
	if err != nil {
		t.Fatal(err)
	}
	defer index.Close()
	next, err := index.GetRecordPositions(in, map[string]interface{}{"a\\"b": "12"})
	if err != nil {
		t.Fatal(err)
	}
	if position, err := next(); position == nil || err != nil {
		t.Fatal(position, err)
	}
}
''')
S(id='C10-null-kept',property='C10',pkg='index',
 needs='a record with a null value that follows one with a value for the same property',
 breaks='the slice of the values to insert is reused without clearing the null ones: a null is indexed with the value of the previous record',
 edits=[('pkg/index/sqlite.go','''			if value != nil {
				value = reflect.ValueOf(value).Interface()
			}

			valuesToInsert[propertyIndex+1] = value
''','''			if value != nil {
				valuesToInsert[propertyIndex+1] = reflect.ValueOf(value).Interface()
			}
''')],
 demo='''package index

import (
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/sirupsen/logrus"
	"io/ioutil"
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	file, err := ioutil.TempFile("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(file.Name())
	file.WriteString("{\\"p\\":\\"x\\"}{\\"p\\":null}")
	file.Close()
	die := false
	in, err := input.NewJson(&input.JsonConfig{Name: "in", Path: file.Name(), DieOnInputChange: &die, Logger: logrus.NewEntry(logrus.New())})
	if err != nil {
		t.Fatal(err)
	}
	defer in.Close()
	index, err := NewSqlite(&SqliteConfig{Name: "i", Dsn: ":memory:", Input: "in", Properties: []*SqlitePropertyConfig{{Name: "p", Collate: "BINARY"}}, Logger: logrus.NewEntry(logrus.New())}, input.List{"in": in})
	if err != nil {
		t.Fatal(err)
	}
	defer index.Close()
	next, err := index.GetRecordPositions(in, map[string]interface{}{"p": "x"})
	if err != nil {
		t.Fatal(err)
	}
	positions := []record.Position{}
	for {
		position, err := next()
		if err != nil {
			t.Fatal(err)
		}
		if position == nil {
			break
		}
		positions = append(positions, *position)
	}
	if len(positions) != 1 {
		t.Fatal(positions)
	}
}
''')
S(id='C24-single-sort',property='C24',pkg='output',
 needs='a relationship to a single object, with a sort, several records matching it',
 breaks='the sort is ignored for single objects: the first one of the input is returned, not the first one in the order',
 edits=[('pkg/output/json_common.go','if len(relationshipConfig.Sort) > 0 {','if relationshipConfig.IsArray && len(relationshipConfig.Sort) > 0 {')],
 demo=OUT+'''
func TestZZDemo(t *testing.T) {
	ascending := true
	_, data := demoArray(t, demoJson(t, "{\\"a\\":\\"k\\",\\"b\\":2}{\\"a\\":\\"k\\",\\"b\\":1}"), map[string]string{}, nil, map[string]*relationship.RelationshipConfig{
		"r": {
			Input: "in",
			Sort:  []*record.SortConfig{{Property: "b", Ascending: &ascending}},
			Match: []*relationship.RelationshipMatchConfig{{ParentProperty: "a", ChildProperty: "a", ChildIndex: "default"}},
		},
	})
	rows, ok := data.([]interface{})
	if !ok || len(rows) != 2 {
		t.Fatal(data)
	}
	if related, ok := rows[0].(map[string]interface{})["r"].(map[string]interface{}); !ok || related["b"] != 1.0 {
		t.Fatal(data)
	}
}
''')
S(id='C25-relationship',property='C25',pkg='output',
 needs='a related record that cannot be read again when its relationship is loaded',
 breaks='a relationship whose records cannot be read is cut short, and the answer is announced as a success',
 edits=[('pkg/output/json_common.go','''			relationshipRecord, err := input.Get(*relationshipRecordPosition)
			if err != nil {
				return nil, err
			}
''','''			relationshipRecord, err := input.Get(*relationshipRecordPosition)
			if err != nil {
				break
			}
''')],
 demo=OUT+'''
// An input whose second record can be listed, but not read again
type demoUnreadable struct {
	input.Input
	last record.Position
}

func (in *demoUnreadable) Get(position record.Position) (record.Record, error) {
	if position == in.last {
		return nil, errors.New("unreadable")
	}
	return in.Input.Get(position)
}

func TestZZDemo(t *testing.T) {
	in := demoJson(t, "{\\"a\\":\\"k\\",\\"b\\":\\"z\\"}{\\"a\\":\\"z\\",\\"b\\":\\"y\\"}")
	status, data := demoArray(t, &demoUnreadable{Input: in, last: 17}, map[string]string{"limit": "1"}, nil, map[string]*relationship.RelationshipConfig{
		"r": {Input: "in", IsArray: true, Match: []*relationship.RelationshipMatchConfig{{ParentProperty: "b", ChildProperty: "a", ChildIndex: "default"}}},
	})
	if status != 500 {
		t.Fatal(status, data)
	}
}
''')
S(id='C21-case',property='C21',pkg='service',
 needs='a path that is the one of a route, but with letters of the other case',
 breaks='paths are matched whatever their case',
 edits=[('pkg/service/http.go','regexp.Compile("^" + path + "$")','regexp.Compile("(?i)^" + path + "$")')],
 demo=SV+'''
func TestZZDemo(t *testing.T) {
	o := demoOutputOf(nil, func(params map[string]string, payload []byte) (string, error) { return "", nil })
	answers := demoServe(t, map[string]output.Output{"o": o}, []*HttpRouteConfig{{Path: "/abc", Output: "o"}}, httptest.NewRequest("GET", "/aBc", nil))
	if answers[0].Code != 404 {
		t.Fatal(answers[0].Code)
	}
}
''')
S(id='C26-limit-body',property='C26',pkg='service',
 needs='a request whose body is longer than 64KB',
 breaks='the output only receives the beginning of long bodies',
 edits=[('pkg/service/http.go','return ioutil.ReadAll(body)','return ioutil.ReadAll(io.LimitReader(body, 1<<16))')],
 demo=SV+'''
func TestZZDemo(t *testing.T) {
	kind := "application/json"
	received := 0
	o := demoOutputOf(&kind, func(params map[string]string, payload []byte) (string, error) {
		received = len(payload)
		return "", nil
	})
	request := httptest.NewRequest("POST", "/a", strings.NewReader(strings.Repeat("b", 100000)))
	request.Header.Set("Content-Type", kind)
	demoServe(t, map[string]output.Output{"o": o}, []*HttpRouteConfig{{Path: "/a", Output: "o"}}, request)
	if received != 100000 {
		t.Fatal(received)
	}
}
''')
S(id='C19-many',property='C19',pkg='parser',
 needs='a text with more than 64 delimiters',
 breaks='the pieces after the 64th one are kept together',
 edits=[('pkg/parser/split.go','values = strings.Split(value, split.config.GetDelimiter())','values = strings.SplitN(value, split.config.GetDelimiter(), 64)')],
 demo=PA+'''
func TestZZDemo(t *testing.T) {
	delimiter, text := ",", ""
	for i := 0; i < 99; i++ {
		text += ","
	}
	value, err := NewSplit(&SplitConfig{Delimiter: &delimiter, Parser: "mock"}, List{"mock": NewMock()}).Parse(text)
	if array, ok := value.([]interface{}); !ok || len(array) != 100 || err != nil {
		t.Fatal(value, err)
	}
}
''')
S(id='C01-last-child',property='C01',pkg='index',
 needs='a node with several children is split, then another child is added below the split-off part',
 breaks='the split-off node takes its first child for its last one, so the next child that is added replaces the others',
 edits=[('pkg/index/wildcard/node.go','newChild.lastChildOffset = existingNode.lastChildOffset','newChild.lastChildOffset = existingNode.firstChildOffset')],
 demo=WILD+'''
func TestZZDemo(t *testing.T) {
	in := demoInput("abcd", "abce", "abcf", "ax", "abcg", "abch")
	index, err := demoWildcard(t, filepath.Join(t.TempDir(), "i"), false, []string{"p"}, in)
	if err != nil {
		t.Fatal(err)
	}
	for i, text := range []string{"abcd", "abce", "abcf", "ax", "abcg", "abch"} {
		if got := demoSearch(t, index, in, map[string]interface{}{"p": text}); !reflect.DeepEqual(got, []record.Position{record.Position(i)}) {
			t.Fatalf("%v: got %v", text, got)
		}
	}
}
''')
