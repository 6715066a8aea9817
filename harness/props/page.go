package props

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"fmt"
	"os/exec"
	"strings"
	"time"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/eaburns/toaq/ast"

	"verif/gen"
	"verif/pbt"
)

// C31: the page of the server.

//go:embed page/driver.js
var pageDriver string

// A PageCase is texts that are entered one after the other, without loading the page again.
type PageCase struct {
	Texts []Str `json:"texts"`
}

func init() {
	register(&pbt.Prop{
		ID:   "C31",
		Rule: "sequences of 1 to 6 texts entered in the page of a running server, whose scripts are run on a document that records; non-trivial: one text is accepted and shown or rejected and selected; distinct: by sequence",
		Gen:  genC31, Check: checkC31, New: func() any { return new(PageCase) },
		Quick: 3200, Thorough: 100000,
		Fixed: func() []any {
			return []any{
				&PageCase{Texts: []Str{"", "mai? ji/", "jí", "mai? ji/ da\nhu", "hu\nhu", "da\n\nda hu da", "mo < & > \" ' &lt; teo", "<p>"}},
				&PageCase{Texts: []Str{"mo <b>x</b> teo hu", "mo \U0001F600 teo hu", "mo \n\U0001F600\n teo hu \U0001F600", "\n\n"}},
				&PageCase{Texts: []Str{"mai? mo/ <b>x</b> &lt; <script>alert(1)</script> teo da", "mai? mi/ jua", "mai? mi/ jua da", "mo x teo <", "mo &amp; &lt; <i>"}},
			}
		},
	})
}

// pageText generates a text for the page.
func pageText(s *pbt.Source) string {
	var t string
	for try := 0; ; try++ {
		if t = validText(s, gen.Supported); s.Intn(2) == 0 {
			t = programText(s)
		}
		if len(t) < 1500 || try > 4 {
			break
		}
	}
	if len(t) >= 1500 {
		t = "da"
	}
	var b strings.Builder
	for n := s.Intn(5) - 2; n > 0; n-- {
		// A quote of foreign text, in which everything is allowed.
		special := []rune("<>&\"'/\\ \n\t;#\U0001F600\U0001D4B3\u0301\u2028é&lt;x")
		b.WriteString([]string{"mo ", "mai? mo ", "mai? mo "}[s.Intn(3)])
		for m := s.Intn(12); m > 0; m-- {
			b.WriteRune(special[s.Intn(len(special))])
		}
		b.WriteString([]string{" teo ", " teo da ", " teo. "}[s.Intn(3)])
	}
	b.WriteString(t)
	switch s.Intn(4) {
	case 0:
		b.WriteString([]string{" hu", " teo jo", " poq?", "\nhu", "<i>", " &amp;", "\U0001F600", " da da hu\nhu\n"}[s.Intn(8)])
	case 1:
		b.WriteString([]string{"", "\n", "\n\n", "."}[s.Intn(4)])
	}
	t = strings.ToValidUTF8(b.String(), "")
	if s.Intn(2) == 0 {
		rs := []rune(t)
		for i, r := range rs {
			if r == ' ' && s.Intn(4) == 0 {
				rs[i] = '\n'
			}
		}
		t = string(rs)
	}
	// What a text area holds.
	t = strings.ReplaceAll(t, "\r\n", "\n")
	return strings.ReplaceAll(t, "\r", "\n")
}

func genC31(s *pbt.Source) any {
	c := new(PageCase)
	for n := 1 + s.Intn(6); n > 0; n-- {
		if len(c.Texts) > 0 && s.Intn(6) == 5 {
			t := Str(strings.ReplaceAll(variant(s, string(c.Texts[s.Intn(len(c.Texts))])), "\r", "\n"))
			c.Texts = append(c.Texts, t)
			continue
		}
		c.Texts = append(c.Texts, Str(pageText(s)))
	}
	return c
}

// A panel is what a part of the page shows.
type panel struct {
	Text    string   `json:"text"`
	Visible bool     `json:"visible"`
	Tags    []string `json:"tags"`
	Pre     bool     `json:"pre"`
}

type pageState struct {
	Errors  []string          `json:"errors"`
	Value   string            `json:"value"`
	Start   int               `json:"start"`
	End     int               `json:"end"`
	Focused bool              `json:"focused"`
	Panels  map[string]*panel `json:"panels"`
}

type pageAnswer struct {
	Before  map[string]bool `json:"before"`
	States  []pageState     `json:"states"`
	Failed  string          `json:"failed"`
	Harness string          `json:"harness"`
}

// page runs the driver, once for all cases.
var pageIn *json.Encoder
var pageOut *bufio.Reader

func drivePage(url string, texts []string) *pageAnswer {
	if pageIn == nil {
		cmd := exec.Command("node", "-e", pageDriver)
		w, err := cmd.StdinPipe()
		if err != nil {
			harness("%v", err)
		}
		r, err := cmd.StdoutPipe()
		if err != nil {
			harness("%v", err)
		}
		if err := cmd.Start(); err != nil {
			harness("node cannot be run: %v", err)
		}
		pageIn, pageOut = json.NewEncoder(w), bufio.NewReader(r)
	}
	if err := pageIn.Encode(map[string]any{"url": url, "texts": texts}); err != nil {
		harness("the driver of the page: %v", err)
	}
	line, err := pageOut.ReadBytes('\n')
	if err != nil {
		harness("the driver of the page: %v", err)
	}
	a := new(pageAnswer)
	if err := json.Unmarshal(line, a); err != nil {
		harness("the driver of the page: %v: %q", err, line)
	}
	if a.Harness != "" {
		harness("the driver of the page: %s", a.Harness)
	}
	return a
}

func utf16Len(s string) int { return len(utf16.Encode([]rune(s))) }

// shownText is a text as a page shows it.
func shownText(s string) string {
	return strings.ReplaceAll(utf8JSON(s).(string), "\x00", "")
}

func checkPanels(st *pageState, want map[string]string, visible bool) string {
	for name, w := range want {
		p := st.Panels[name]
		switch {
		case p == nil:
			return fmt.Sprintf("there is no panel %q", name)
		case p.Visible != visible:
			return fmt.Sprintf("panel %q: visible is %v, want %v", name, p.Visible, visible)
		case !visible:
			continue
		}
		for _, t := range p.Tags {
			switch t {
			case "P", "PRE", "DIV", "SPAN", "CODE", "SAMP":
			default:
				return fmt.Sprintf("panel %q has an element %s", name, t)
			}
		}
		if got := strings.ReplaceAll(p.Text, "\x00", ""); w != "\x00any" && got != shownText(w) {
			return fmt.Sprintf("panel %q shows %q, want %q", name, got, shownText(w))
		}
		if (name == "AST" || name == "Parse") && !p.Pre {
			return fmt.Sprintf("panel %q does not keep the indentation", name)
		}
		if w == "\x00any" && (p.Text == "" || p.Text == "fragment") {
			return fmt.Sprintf("panel %q shows %q for an unsupported text", name, p.Text)
		}
	}
	return ""
}

func checkC31(cc any, r *pbt.Result) {
	c := cc.(*PageCase)
	var texts []string
	var as []analysis
	var offs []int
	for _, t := range c.Texts {
		if !utf8.ValidString(string(t)) || strings.ContainsRune(string(t), '\r') {
			return
		}
		a := analyse(string(t))
		r.Class("text " + a.class())
		o := -1
		if _, err := ast.NewParser(string(t)).Text(); err != nil {
			if o = err.ByteOffset(); o < 0 || o > len(t) {
				return // C04
			}
			if i := strings.LastIndexByte(string(t[:o]), '\n'); i >= 0 {
				r.Class("error not on the first line")
			}
			if utf16Len(string(t[:o])) != utf8.RuneCountInString(string(t[:o])) {
				r.Class("error after letters of two units")
			}
		}
		texts, as, offs = append(texts, string(t)), append(as, a), append(offs, o)
	}
	srv := startServer()
	defer func() { srv.stop() }()
	for try := 0; try < 3 && srv.addr == ""; try++ {
		srv.stop()
		time.Sleep(time.Second)
		srv = startServer()
	}
	if srv.addr == "" {
		srv.stop()
		r.Fail("the server does not serve: %s", srv.out.String())
		return
	}
	got := drivePage("http://"+srv.addr+"/", texts)
	if got.Failed != "" {
		r.Fail("%s", got.Failed)
		return
	}
	for name, visible := range got.Before {
		if visible {
			r.Fail("panel %q is shown before there is an answer", name)
			return
		}
	}
	if len(got.States) != len(texts) {
		harness("%d states for %d texts", len(got.States), len(texts))
	}
	for i := range got.States {
		st, a := &got.States[i], &as[i]
		fail := func(f string, args ...any) {
			r.Fail("text %d, %q: %s", i+1, texts[i], fmt.Sprintf(f, args...))
		}
		if len(st.Errors) > 0 {
			fail("the scripts of the page fail: %s", strings.Join(st.Errors, "\n"))
			return
		}
		if st.Value != texts[i] {
			fail("the text is changed to %q", st.Value)
			return
		}
		result := map[string]string{"Braces": a.Braces, "AST": a.AST, "Text": a.Text, "Parse": a.Parse, "Logic": a.Logic}
		switch {
		case a.Fragment:
			result["Logic"] = "fragment"
		case a.Unsupported != "":
			result["Logic"] = "\x00any"
		}
		if e := checkPanels(st, result, a.Err == ""); e != "" {
			fail("%s", e)
			return
		}
		if e := checkPanels(st, map[string]string{"Error": a.Err}, a.Err != ""); e != "" {
			fail("%s", e)
			return
		}
		if a.Err != "" {
			start, end := utf16Len(texts[i][:offs[i]]), utf16Len(texts[i])
			if st.Start != start || st.End != end || !st.Focused {
				fail("the error %q is at byte %d, but the units %d to %d of %d are selected (focused: %v), want %d to the end", a.Err, offs[i], st.Start, st.End, end, st.Focused, start)
				return
			}
		}
	}
	r.Key = strings.Join(texts, "\x00")
}
