package props

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/eaburns/toaq/dict"

	"verif/gen"
	"verif/pbt"
	"verif/refpeg"
)

// A DictEntry is an entry that a server sends.
type DictEntry struct {
	Head, Body, By string
	Score          int
	// Omit are the fields that are not sent.
	Omit []string `json:",omitempty"`
}

// A DictCase is an answer of a server, and perhaps what is wrong with it.
type DictCase struct {
	Query   Str          `json:"query"`
	Kind    string       `json:"kind"`
	Status  int          `json:"status"`
	Entries []*DictEntry `json:"entries,omitempty"`
	Message string       `json:"message,omitempty"`
	// Body is the body to be sent.
	Body Str `json:"body"`
	// Pieces is the number of pieces in which the body is sent, if it is chunked.
	Pieces int `json:"pieces,omitempty"`
	// Type is the media type of the answer, if it is not JSON.
	Type string `json:"type,omitempty"`
	// Head is a word of the built-in dictionary.
	Head string `json:"head,omitempty"`
}

var dictHeads = func() []string {
	var ks []string
	for k := range dict.Words {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// quoteJSON encodes a string in one of the many ways.
func quoteJSON(s *pbt.Source, str string) string {
	var b strings.Builder
	b.WriteByte('"')
	all := s.Intn(4) == 3
	for _, r := range str {
		switch {
		case r == '"' || r == '\\' || r == '/' && all:
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < ' ' || all && r >= 0x7f && r < 0x10000:
			fmt.Fprintf(&b, `\u%04x`, r)
		case all && r >= 0x10000:
			r -= 0x10000
			fmt.Fprintf(&b, `\u%04X\u%04x`, 0xd800+r>>10, 0xdc00+r&0x3ff)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func anyString(s *pbt.Source) string {
	alphabet := []rune("aeiouqdnAEI ıáạʼ▯\"\\/<>&\n\t\u0001\u2028\U0001F600{}[]:,0%é")
	rs := make([]rune, s.Intn(12))
	for i := range rs {
		rs[i] = alphabet[s.Intn(len(alphabet))]
	}
	return string(rs)
}

// object encodes an object with fields in any order, and others that mean nothing.
func object(s *pbt.Source, fields [][2]string) string {
	if s.Intn(3) == 2 {
		extra := [][2]string{{`"id"`, `"#abc"`}, {`"content"`, `[1,null,{"head":"x"}]`}, {`"date"`, `1.5e3`}, {`"notes"`, `{}`}, {`"x"`, `null`}}
		fields = append(fields, extra[s.Intn(len(extra))])
	}
	for i := len(fields) - 1; i > 0; i-- {
		j := i - s.Intn(i+1)
		fields[i], fields[j] = fields[j], fields[i]
	}
	sp := []string{"", "", " ", "\n\t"}[s.Intn(4)]
	var fs []string
	for _, f := range fields {
		fs = append(fs, f[0]+sp+":"+sp+f[1])
	}
	return "{" + sp + strings.Join(fs, sp+","+sp) + sp + "}"
}

func (e *DictEntry) encode(s *pbt.Source) string {
	var fs [][2]string
	for _, f := range [][2]string{{"head", quoteJSON(s, e.Head)}, {"body", quoteJSON(s, e.Body)}, {"by", quoteJSON(s, e.By)}, {"score", strconv.Itoa(e.Score)}} {
		omit := false
		for _, o := range e.Omit {
			omit = omit || o == f[0]
		}
		if !omit {
			fs = append(fs, [2]string{`"` + f[0] + `"`, f[1]})
		}
	}
	return object(s, fs)
}

// spellHead spells a syllable with a precomposed letter or with a combining mark.
func spellHead(s *pbt.Source, g *gen.Gen, syl gen.Syl) string {
	w := refpeg.NormalizeWord(g.SpellSyl(syl, gen.Style{Case: 30, Tones: 60, Dotless: 40}))
	if s.Intn(3) < 2 {
		return w
	}
	var b strings.Builder
	for _, r := range w {
		b.WriteString(decomposed(r))
	}
	return b.String()
}

var marksOf = []string{"\u0304", "\u0301", "\u030c", "\u0309", "\u0302", "\u0300", "\u0303"}

func decomposed(r rune) string {
	for i, v := range refpeg.Vowels {
		if v == 'i' {
			v = 'ı'
		}
		if r == refpeg.Breve[i] {
			return string(v) + "\u0306"
		}
		for t, tab := range refpeg.Toned {
			if r == tab[i] {
				return string(v) + marksOf[t]
			}
		}
	}
	return string(r)
}

// headword generates a word or a phrase, and a respelling of it.
func headword(s *pbt.Source) (string, string) {
	g := gen.New(s, gen.Default)
	var a, b strings.Builder
	for n := []int{1, 1, 1, 2, 4}[s.Intn(5)]; n > 0; n-- {
		syls := 1 + s.Intn(4)
		for i := 0; i < syls; i++ {
			syl := gen.Syl{Base: g.RandSyl(), Tone: gen.Compound}
			if i == 0 {
				syl.Tone = s.Intn(7)
			}
			a.WriteString(spellHead(s, g, syl))
			if s.Intn(2) == 1 {
				syl.Tone = s.Intn(7)
			}
			b.WriteString(spellHead(s, g, syl))
		}
		if n > 1 {
			sep := []string{" ", " ", ", ", "-", "▯", ". "}[s.Intn(5)]
			a.WriteString(sep)
			b.WriteString(sep)
		}
	}
	return a.String(), b.String()
}

// normalHead is the lower-case toneless ASCII form.
func normalHead(s string) string {
	var b strings.Builder
	for _, r := range s {
		found := false
		for i, v := range refpeg.Vowels {
			is := r == refpeg.Breve[i]
			for _, t := range refpeg.Toned {
				is = is || r == t[i]
			}
			if is {
				b.WriteRune(v)
				found = true
				break
			}
		}
		switch {
		case found || r == '-' || r == '\u0306' || strings.ContainsRune(strings.Join(marksOf, ""), r):
		case r == 'ı':
			b.WriteRune('i')
		default:
			b.WriteRune(r)
		}
	}
	return strings.ToLower(b.String())
}

func (c *DictCase) classes(r *pbt.Result) {
	switch {
	case len(c.Entries) > 1000:
		r.Class("thousands of entries")
	case len(c.Entries) > 50:
		r.Class("many entries")
	case len(c.Body) > 4000:
		r.Class("long entries")
	}
	if c.Pieces > 0 {
		r.Class("sent in pieces")
	}
}

// answer sends the answer.
func (c *DictCase) answer(w http.ResponseWriter) {
	w.Header().Set("Content-Type", "application/json")
	if c.Type != "" {
		w.Header().Set("Content-Type", c.Type)
	}
	w.WriteHeader(c.Status)
	b := string(c.Body)
	for k := c.Pieces; k > 0; k-- {
		n := len(b) / (k + 1)
		io.WriteString(w, b[:n])
		w.(http.Flusher).Flush()
		time.Sleep(time.Millisecond)
		b = b[n:]
	}
	io.WriteString(w, b)
}

func genC26(s *pbt.Source) any {
	c := &DictCase{Status: 200}
	if s.Intn(6) == 5 {
		hs := dictHeads()
		c.Kind, c.Head = "built-in", hs[s.Intn(len(hs))]
		return c
	}
	switch s.Intn(3) {
	case 0:
		c.Query = `{ "action": "search", "query": "*" }`
	case 1:
		c.Query = Str(`{"query":` + quoteJSON(s, anyString(s)) + `}`)
	case 2:
		b := make([]byte, s.Intn(40))
		for i := range b {
			b[i] = byte(s.Intn(256))
		}
		c.Query = Str(b)
	}
	if s.Intn(4) == 3 {
		c.Pieces = 1 + s.Intn(4)
	}
	if s.Intn(6) == 5 {
		c.Type = []string{"text/html; charset=utf-8", "text/plain", "application/octet-stream"}[s.Intn(3)]
	}
	var list []string
	var respelt []string
	n, long := s.Intn(8), 0
	switch s.Intn(400) {
	case 399, 398: // many entries
		n = 60 + s.Intn(400)
	case 397, 396, 395, 394: // a long definition
		long = []int{5000, 40000, 70000, 300000}[s.Intn(4)]
		n++
	case 393:
		if s.Intn(4) == 3 {
			long = 5 << 20
			n++
		}
	case 392: // as many entries as the real dictionary has, and more
		if s.Intn(4) == 3 {
			n = 2000 << s.Intn(4)
		}
	}
	for ; n > 0; n-- {
		e := &DictEntry{Body: anyString(s), By: anyString(s), Score: s.Intn(9) - 4}
		if n == 1 && long > 0 {
			e.Body = strings.Repeat(e.Body+"▯ is long ", long/(len(e.Body)+12))
		}
		var other string
		e.Head, other = headword(s)
		if len(respelt) > 0 && s.Intn(3) == 2 {
			e.Head = respelt[s.Intn(len(respelt))]
		}
		respelt = append(respelt, other)
		if s.Intn(8) == 7 {
			e.Score = []int{1 << 40, -1 << 62, 1<<63 - 1}[s.Intn(3)]
		}
		if s.Intn(8) == 7 {
			e.Omit = []string{[]string{"body", "by", "score"}[s.Intn(3)]}
		}
		c.Entries = append(c.Entries, e)
		list = append(list, e.encode(s))
	}
	data := "[" + strings.Join(list, ",") + "]"
	c.Message = []string{"not found", "limit ▯ reached", "%d%s", "\"", ""}[s.Intn(5)]
	if s.Intn(2) == 1 {
		c.Message = anyString(s)
	}
	ok := [2]string{`"success"`, "true"}
	body := func(fs ...[2]string) { c.Body = Str(object(s, fs)) }
	bad := func() { // statuses that come with errors
		c.Status = []int{200, 200, 400, 403, 404, 500, 502}[s.Intn(7)]
	}
	switch c.Kind = []string{"success", "error", "unspecified error", "no data", "malformed", "cut", "closed", "refused"}[weighted(s, 20, 5, 3, 2, 6, 3, 1, 1)]; c.Kind {
	case "success":
		fs := [][2]string{ok, {`"data"`, data}}
		if s.Intn(4) == 3 {
			fs = append(fs, [2]string{`"error"`, "null"})
		}
		body(fs...)
		if s.Intn(4) == 3 {
			c.Body += "\n"
		}
	case "error":
		bad()
		fs := [][2]string{{`"success"`, "false"}, {`"error"`, quoteJSON(s, c.Message)}}
		switch s.Intn(4) {
		case 0:
			fs = append(fs, [2]string{`"data"`, data})
		case 1:
			fs = fs[1:] // success is missing
		}
		body(fs...)
	case "unspecified error":
		bad()
		fs := [][2]string{{`"data"`, data}, {`"success"`, []string{"false", "null"}[s.Intn(2)]}, {`"error"`, "null"}}
		body(fs[s.Intn(2) : 1+s.Intn(3)]...)
		if strings.Contains(string(c.Body), `true`) {
			harness("success")
		}
	case "no data":
		fs := [][2]string{ok, {`"data"`, "null"}, {`"error"`, []string{"null", `"x"`}[s.Intn(2)]}}
		body(fs[:1+s.Intn(3)]...)
	case "malformed":
		bad()
		switch s.Intn(7) {
		case 0:
			c.Body = Str([]string{"", " ", "<html>502</html>", "null", "[]", "true", "12", `"x"`, "{", "\xff\xfe", "{success:true}"}[s.Intn(11)])
		case 1:
			body(ok, [2]string{`"data"`, []string{`{}`, `"x"`, `1`, `true`, `[1]`, `["x"]`, `[[]]`, `[{"head":1}]`, `[{"head":["x"]}]`, `[{"score":"high"}]`, `[{"score":1.5}]`, `[{"score":99999999999999999999}]`, `[{"head":"a"},]`}[s.Intn(13)]})
		case 2:
			body([2]string{`"success"`, []string{`"true"`, "1", "{}", "[]"}[s.Intn(4)]}, [2]string{`"data"`, data})
		case 3:
			body([2]string{`"success"`, "false"}, [2]string{`"error"`, []string{"1", "{}", "[]", "false"}[s.Intn(4)]})
		default: // a part of a good answer
			body(ok, [2]string{`"data"`, data})
			c.Body = c.Body[:s.Intn(len(c.Body)-1)]
			c.Status = 200
		}
	case "cut": // the connection is closed before the end of the announced body
		body(ok, [2]string{`"data"`, data})
		c.Body = c.Body[:s.Intn(len(c.Body)-1)]
	}
	return c
}

// The handler of the server of this process.
var dictHandler atomic.Pointer[http.HandlerFunc]

// dictServer returns the server of this process. There is only one, because every port
// that was used stays occupied for a while. Every request has a connection of its own.
var dictServer = sync.OnceValue(func() *httptest.Server {
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		(*dictHandler.Load())(w, q)
	}))
	srv.Config.SetKeepAlivesEnabled(false)
	srv.Start()
	return srv
})

// refusedURL returns the URL of a port that is bound, but not listening: it refuses connections.
var refusedURL = sync.OnceValue(func() string {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		harness("%v", err)
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		harness("%v", err)
	}
	addr, err := syscall.Getsockname(fd)
	if err != nil {
		harness("%v", err)
	}
	return fmt.Sprintf("http://127.0.0.1:%d/api?a=b", addr.(*syscall.SockaddrInet4).Port)
})

func checkC26(cc any, r *pbt.Result) {
	c := cc.(*DictCase)
	r.Class(c.Kind)
	c.classes(r)
	if c.Kind == "built-in" {
		r.Key = c.Head
		e, ok := dict.Words[c.Head]
		if !ok {
			return // the dictionary has changed
		}
		checkBuiltIn(c.Head, e, r)
		return
	}
	if c.Kind == "all built-in" {
		for _, h := range dictHeads() {
			checkBuiltIn(h, dict.Words[h], r)
		}
		return
	}
	requests := 0
	var reqErr string
	h := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		requests++
		b, err := io.ReadAll(q.Body)
		switch {
		case err != nil:
			reqErr = fmt.Sprintf("the body of the request cannot be read: %v", err)
		case q.Method != "POST":
			reqErr = fmt.Sprintf("the method is %s, want POST", q.Method)
		case string(b) != string(c.Query):
			reqErr = fmt.Sprintf("the query is posted as %q, want %q", b, c.Query)
		case q.URL.Path != "/api" || q.URL.RawQuery != "a=b":
			reqErr = fmt.Sprintf("the URL is %s", q.URL)
		}
		switch c.Kind {
		case "closed", "cut":
			conn, buf, err := w.(http.Hijacker).Hijack()
			if err != nil {
				harness("%v", err)
			}
			if c.Kind == "cut" {
				fmt.Fprintf(buf, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", len(c.Body)+20, c.Body)
				buf.Flush()
			}
			conn.Close()
		default:
			c.answer(w)
		}
	})
	url := dictServer().URL + "/api?a=b"
	dictHandler.Store(&h)
	if c.Kind == "refused" {
		url = refusedURL()
	}
	got, err := dict.Load(url, string(c.Query))
	if c.Kind != "refused" {
		if reqErr != "" {
			r.Fail("%s", reqErr)
		}
		if requests == 0 {
			r.Fail("there is no request")
		}
	}
	r.Key = c.Kind + string(c.Body) + fmt.Sprint(c.Status)
	if c.Kind != "success" {
		switch {
		case err == nil:
			r.Fail("Load returns %d words and no error for an answer that is %s", len(got), c.Kind)
		case c.Kind == "error" && !strings.Contains(err.Error(), c.Message):
			r.Fail("the error %q does not have the message %q of the server", err, c.Message)
		}
		if err != nil && err.Error() == "" {
			r.Fail("the error has no text")
		}
		return
	}
	if err != nil {
		r.Fail("Load fails: %v", err)
		return
	}
	if got == nil {
		r.Fail("Load returns neither words nor an error")
		return
	}
	want := c.want(r)
	for k, w := range want {
		g, ok := got[k]
		if !ok {
			r.Fail("there is no word %q in %q", k, got)
		} else if g != w {
			r.Fail("the word %q is %#v, want %#v", k, g, w)
		}
	}
	if len(got) != len(want) {
		r.Fail("there are %d words, want %d: %q", len(got), len(want), got)
	}
}

// want returns the words that a successful answer has.
func (c *DictCase) want(r *pbt.Result) map[string]dict.Word {
	want := make(map[string]dict.Word)
	for _, e := range c.Entries {
		w := dict.Word{Word: normalHead(e.Head), Def: e.Body, By: e.By, Score: e.Score}
		for _, o := range e.Omit {
			switch o {
			case "body":
				w.Def = ""
			case "by":
				w.By = ""
			case "score":
				w.Score = 0
			}
		}
		if _, ok := want[w.Word]; ok {
			r.Class("success with equal headwords")
		}
		want[w.Word] = w
	}
	return want
}

func checkBuiltIn(key string, e dict.Word, r *pbt.Result) {
	switch {
	case e.Word != key:
		r.Fail("the built-in word %q has key %q", e.Word, key)
	case known("C26", key):
		r.Known = append(r.Known, key)
	case normalHead(strings.ReplaceAll(key, "-", "")) != strings.ReplaceAll(key, "-", ""):
		r.Fail("the key %q of a built-in word is not lower-case toneless ASCII: want %q", key, normalHead(key))
	}
}

func init() {
	register(&pbt.Prop{
		ID:   "C26",
		Rule: "an answer of a local HTTP server: success with 0 to 7 entries in any JSON spelling, errors with and without message, no data, malformed, cut or refused; or a word of the built-in dictionary; the first case is the whole built-in dictionary; non-trivial: all; distinct by answer",
		Gen:  genC26, Check: checkC26, New: func() any { return &DictCase{} },
		Fixed: func() []any { return []any{&DictCase{Kind: "all built-in"}} },
		Quick: 32000, Thorough: 400000, MaxShrink: 1500,
	})
}
