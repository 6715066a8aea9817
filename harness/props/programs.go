package props

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"html/template"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/pretty"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"

	"verif/gen"
	"verif/pbt"
)

// The time after which a program that does not answer is said to hang.
const answerTimeout = 60 * time.Second

func binary(name string) string { return filepath.Join(os.Getenv("VERIF_BIN"), "bin-"+name) }

// scratch returns a new empty directory.
func scratch() string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "case")
	if err != nil {
		harness("%v", err)
	}
	return d
}

// An analysis is what the library says of a text.
type analysis struct {
	Err                      string // if the text is rejected
	Braces, AST, Text, Parse string
	Fragment                 bool
	Unsupported              string // the panic of the interpreter
	Logic, LogicString, Stmt string
}

func analyse(text string) analysis {
	p := ast.NewParser(text)
	t, err := p.Text()
	if err != nil {
		return analysis{Err: err.Error()}
	}
	tree, err := ast.NewParser(text).Tree()
	if err != nil {
		harness("Tree rejects %q, Text does not", text)
	}
	a := analysis{Braces: ast.BracesString(t), AST: pretty.String(t), Parse: peg.Pretty(tree)}
	for _, n := range allNodes(t) {
		if w, ok := n.(*ast.Word); ok {
			a.Text += w.T
		}
	}
	st, failed := interpret(t)
	switch {
	case failed != "":
		a.Unsupported = failed
	case st == nil:
		a.Fragment = true
	default:
		a.Logic = logic.PrettyString(st)
		a.LogicString = logic.String(st)
		logic.NillOutAST(st)
		a.Stmt = pretty.String(st)
	}
	return a
}

func (a *analysis) class() string {
	switch {
	case a.Err != "":
		return "rejected"
	case a.Fragment:
		return "fragment"
	case a.Unsupported != "":
		return "unsupported"
	}
	return "interpreted"
}

// longText generates a text that may be longer than buffers are.
func longText(s *pbt.Source) string {
	parts := []string{"mai? ji/ suq/ da. ", "Jí pa mảı súq da! ", "sa poq/ bi mai? ji/ da\n", "mi/ Poq? ", "ho, ka, ", "de "}
	n := []int{500, 1024, 2000, 2048, 4096, 8192, 16384, 65536}[weighted(s, 48, 48, 48, 48, 48, 16, 4, 2)] + s.Intn(200)
	if n >= 65536 { // Only spaces are so fast.
		return "mai? ji/" + strings.Repeat(" ", n) + []string{"suq/ da", "da.", "hu", "teo jo"}[s.Intn(4)]
	}
	part := parts[s.Intn(len(parts))]
	return strings.Repeat(part, n/len(part)+1) + []string{"", "teo jo", "hu", "poq?"}[s.Intn(4)]
}

// variant returns a text that differs a little from another one.
func variant(s *pbt.Source, t string) string {
	switch s.Intn(6) {
	case 0:
		return strings.Replace(t, " ", "  ", -1)
	case 1:
		return " " + t
	case 2:
		return t + "."
	case 3:
		return strings.ToUpper(t)
	case 4:
		return strings.Replace(t, "/", "^", 1)
	}
	return t
}

// programText generates a text for the programs.
func programText(s *pbt.Source) string {
	if s.Intn(100) == 99 {
		return longText(s)
	}
	switch s.Intn(12) {
	case 0, 1, 2, 3:
		return validText(s, gen.Supported)
	case 4: // characters that are special in JSON or in HTML
		t := []rune(validText(s, gen.Supported))
		special := []rune("<>&\"\\/'\u2028\u2029\u0000\u007f\ufeff\ufffd\U0001F600%\t\r\n")
		for n := 1 + s.Intn(3); n > 0; n-- {
			i := s.Intn(len(t) + 1)
			t = append(t[:i:i], append([]rune{special[s.Intn(len(special))]}, t[i:]...)...)
		}
		return string(t)
	case 5:
		return []string{"", " ", "da", "ka", "\n", "hu", "ni da", "mi", "teo", "mo teo", "jí"}[s.Intn(11)]
	}
	return string(anyText(s, 40, 10, 10, 5, 5, 5, 10, 5).Text)
}

// C24: the server.

// A Request is a request to the server.
type Request struct {
	Method string `json:"method"`
	Path   string `json:"path"`
	Body   Str    `json:"body"`
	// Cut is set if the connection is closed in the middle of the body.
	Cut bool `json:"cut,omitempty"`
	// Type is the media type that the request gives.
	Type string `json:"type,omitempty"`
	// How is how the body is sent: at once, "chunked", or in "pieces" on a connection of its own.
	How string `json:"how,omitempty"`
}

// A ServerCase is clients that run concurrently, each with a sequence of requests.
type ServerCase struct {
	Clients   [][]Request `json:"clients"`
	KeepAlive bool        `json:"keepAlive"`
}

func genC24(s *pbt.Source) any {
	c := &ServerCase{KeepAlive: s.Intn(2) == 0}
	var pool []string
	for n := 1 + s.Intn(6); n > 0; n-- {
		if len(pool) > 0 && s.Intn(4) == 3 {
			pool = append(pool, variant(s, pool[s.Intn(len(pool))]))
			continue
		}
		pool = append(pool, programText(s))
	}
	clients := []int{1, 1, 2, 4, 8}[s.Intn(5)]
	for i := 0; i < clients; i++ {
		var rs []Request
		for n := 1 + s.Intn(10); n > 0; n-- {
			r := Request{Method: "POST", Path: "/"}
			switch s.Intn(20) {
			case 19, 18:
				r.Method = "GET"
			case 17, 16:
				r.Method = []string{"PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "FOO", "post", "Get"}[s.Intn(9)]
			case 15:
				r.Cut = true
			}
			if s.Intn(8) == 7 {
				r.Path = []string{"/x", "/parse", "/fonts", "/?q=da", "/a/b"}[s.Intn(5)]
			}
			if r.Method == "GET" && s.Intn(3) == 2 {
				r.Path = "/font/" + []string{"latinmodern-math.otf", "GUST-FONT-LICENSE.txt", "latinmodern.otf", "x/y", "server.go"}[s.Intn(5)]
			}
			if r.Method != "GET" {
				r.Body = Str(pool[s.Intn(len(pool))])
			}
			if s.Intn(3) == 2 {
				r.Type = []string{"text/plain;charset=UTF-8", "application/x-www-form-urlencoded", "application/json", "multipart/form-data; boundary=x", "multipart/form-data", ";"}[s.Intn(6)]
			}
			switch s.Intn(8) {
			case 7:
				r.How = "chunked"
			case 6:
				if r.Method == "POST" && !r.Cut && r.Body != "" {
					r.How = "pieces"
				}
			}
			rs = append(rs, r)
		}
		c.Clients = append(c.Clients, rs)
	}
	return c
}

// A server is a running server.
type server struct {
	cmd    *exec.Cmd
	out    bytes.Buffer
	addr   string
	exited chan struct{}
}

// serverDir returns the directory in which the server runs.
// It is not /repo only to try planted bugs (tools/seed.py).
func serverDir() string {
	if d := os.Getenv("VERIF_SERVER_DIR"); d != "" {
		return d
	}
	return "/repo"
}

// startServer starts a server on any free port. Its address is empty if it does not serve.
func startServer() *server {
	s := &server{exited: make(chan struct{})}
	s.cmd = exec.Command(binary("server"))
	s.cmd.Dir = serverDir()
	s.cmd.Env = append(os.Environ(), "PORT=0") // the system selects the port
	s.cmd.Stdout, s.cmd.Stderr = &s.out, &s.out
	if err := s.cmd.Start(); err != nil {
		harness("the server cannot be run: %v", err)
	}
	go func() { s.cmd.Wait(); close(s.exited) }()
	for begin := time.Now(); time.Since(begin) < answerTimeout; time.Sleep(2 * time.Millisecond) {
		if port := listening(s.cmd.Process.Pid); port != 0 {
			s.addr = "127.0.0.1:" + strconv.Itoa(port)
			return s
		}
		select {
		case <-s.exited:
			return s
		default:
		}
	}
	return s
}

func (s *server) stop() {
	s.cmd.Process.Kill()
	<-s.exited
}

// listening returns a TCP port that a process listens on, or 0.
func listening(pid int) int {
	inodes := make(map[string]bool)
	dir := fmt.Sprintf("/proc/%d/fd", pid)
	fds, err := os.ReadDir(dir)
	if err != nil {
		return 0
	}
	for _, fd := range fds {
		if l, err := os.Readlink(filepath.Join(dir, fd.Name())); err == nil && strings.HasPrefix(l, "socket:[") {
			inodes[strings.Trim(l[len("socket:"):], "[]")] = true
		}
	}
	if len(inodes) == 0 {
		return 0
	}
	for _, f := range []string{"tcp6", "tcp"} {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/net/%s", pid, f))
		for _, line := range strings.Split(string(b), "\n") {
			fs := strings.Fields(line)
			if len(fs) > 9 && fs[3] == "0A" && inodes[fs[9]] {
				_, port, _ := strings.Cut(fs[1], ":")
				if n, err := strconv.ParseUint(port, 16, 16); err == nil {
					return int(n)
				}
			}
		}
	}
	return 0
}

func utf8JSON(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		harness("%v", err)
	}
	var r any
	if err := json.Unmarshal(b, &r); err != nil {
		harness("%v", err)
	}
	return r
}

// checkAnswer checks the answer to a POST. It returns an error or "".
func checkAnswer(a *analysis, status int, body []byte) string {
	if status != 200 {
		return fmt.Sprintf("status %d, want 200", status)
	}
	d := json.NewDecoder(bytes.NewReader(body))
	var got map[string]any
	if err := d.Decode(&got); err != nil {
		return fmt.Sprintf("the answer is not a JSON object: %v\n%q", err, body)
	}
	if _, err := d.Token(); err != io.EOF {
		return fmt.Sprintf("more than one JSON value: %q", body)
	}
	want := map[string]string{"Error": a.Err}
	if a.Err == "" {
		want = map[string]string{"Braces": a.Braces, "AST": a.AST, "Text": a.Text, "Parse": a.Parse, "Logic": a.Logic}
		if a.Fragment {
			want["Logic"] = "fragment"
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("unexpected field %q: %v", k, got[k])
		}
	}
	for k, w := range want {
		g, ok := got[k].(string)
		if !ok {
			return fmt.Sprintf("field %q is %v, want %q", k, got[k], w)
		}
		if k == "Logic" && a.Unsupported != "" {
			if g == "" || g == "fragment" {
				return fmt.Sprintf("Logic is %q for an unsupported text", g)
			}
			continue
		}
		if w := utf8JSON(w); g != w {
			return fmt.Sprintf("field %q is\n%q, want\n%q", k, g, w)
		}
	}
	return ""
}

func checkC24(cc any, r *pbt.Result) {
	c := cc.(*ServerCase)
	want := make(map[Str]*analysis)
	var key strings.Builder
	posts := 0
	for _, rs := range c.Clients {
		for _, q := range rs {
			if q.Method == "POST" && want[q.Body] == nil {
				a := analyse(string(q.Body))
				want[q.Body] = &a
				r.Class("text " + a.class())
			}
			switch {
			case q.Cut:
				r.Class("request cut")
			case strings.HasPrefix(q.Path, "/font/"):
				r.Class("request of a font")
			case q.Method == "POST" || q.Method == "GET":
				r.Class("request " + q.Method)
			default:
				r.Class("request of another method")
			}
			if q.Type != "" {
				r.Class("request with a type")
			}
			if q.How != "" {
				r.Class("request " + q.How)
			}
			if q.Method == "POST" && !q.Cut {
				posts++
			}
			fmt.Fprintf(&key, "%v,", q)
		}
		key.WriteByte('\n')
	}
	r.Class(fmt.Sprintf("%d clients", len(c.Clients)))
	page := homePage()

	srv := startServer()
	defer func() { srv.stop() }()
	for try := 0; try < 3 && srv.addr == ""; try++ {
		srv.stop()
		time.Sleep(time.Second)
		srv = startServer()
	}
	if srv.addr == "" {
		srv.stop()
		r.Fail("the server does not serve: %s", srv.out.String())
		return
	}
	tr := &http.Transport{DisableKeepAlives: !c.KeepAlive, MaxIdleConnsPerHost: 16}
	defer tr.CloseIdleConnections()
	cl := &http.Client{Transport: tr, Timeout: answerTimeout, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	var mu sync.Mutex
	var errs string
	fail := func(q Request, format string, args ...any) {
		mu.Lock()
		defer mu.Unlock()
		if errs == "" {
			errs = fmt.Sprintf("%s %s with body %q: ", q.Method, q.Path, q.Body) + fmt.Sprintf(format, args...)
		}
	}
	var wg sync.WaitGroup
	for _, rs := range c.Clients {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, q := range rs {
				if q.Cut {
					cutRequest(srv.addr, q)
					continue
				}
				req, err := http.NewRequest(q.Method, "http://"+srv.addr+q.Path, strings.NewReader(string(q.Body)))
				if err != nil {
					fail(q, "HARNESS %v", err)
					return
				}
				if q.Type != "" {
					req.Header.Set("Content-Type", q.Type)
				}
				if q.How == "chunked" && q.Method != "GET" && q.Method != "HEAD" && q.Method != "TRACE" {
					req.ContentLength = -1
				}
				var resp *http.Response
				if q.How == "pieces" {
					resp, err = sendPieces(srv.addr, req, string(q.Body))
				} else {
					resp, err = cl.Do(req)
				}
				if err != nil {
					fail(q, "no answer: %v", err)
					return
				}
				body, err := io.ReadAll(resp.Body)
				resp.Body.Close()
				if err != nil {
					fail(q, "the answer is cut: %v", err)
					return
				}
				switch q.Method {
				case "POST":
					if e := checkAnswer(want[q.Body], resp.StatusCode, body); e != "" {
						fail(q, "%s", e)
						return
					}
				case "GET":
					if name, ok := strings.CutPrefix(q.Path, "/font/"); ok {
						want, err := os.ReadFile(filepath.Join(serverDir(), "server", "font", name))
						switch {
						case err != nil && resp.StatusCode != 404:
							fail(q, "status %d, want 404", resp.StatusCode)
							return
						case err == nil && (resp.StatusCode != 200 || !bytes.Equal(body, want)):
							fail(q, "status %d with %d bytes, want the %d bytes of the file", resp.StatusCode, len(body), len(want))
							return
						}
						continue
					}
					if resp.StatusCode != 200 {
						fail(q, "status %d, want 200", resp.StatusCode)
						return
					}
					if page != "" && string(body) != page {
						fail(q, "the page differs from the template")
						return
					}
				default:
					if resp.StatusCode != 405 {
						fail(q, "status %d, want 405", resp.StatusCode)
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	if strings.Contains(errs, "HARNESS") {
		harness("%s", errs)
	}
	select {
	case <-srv.exited:
		r.Fail("the server ended: %s\n%s", errs, srv.out.String())
	default:
	}
	if errs != "" {
		srv.stop()
		out := srv.out.String()
		r.Fail("%s\n%s", errs, out[:min(len(out), 2000)])
		return
	}
	if posts > 0 {
		r.Key = key.String()
	}
}

// homePage returns the expected page.
func homePage() string {
	t, err := template.ParseFiles(filepath.Join(serverDir(), "server", "template"))
	if err != nil {
		return ""
	}
	var b strings.Builder
	if t.ExecuteTemplate(&b, "template", nil) != nil {
		return ""
	}
	return b.String()
}

// sendPieces sends a request with its body in two pieces, with a pause.
func sendPieces(addr string, req *http.Request, body string) (*http.Response, error) {
	c, err := net.DialTimeout("tcp", addr, answerTimeout)
	if err != nil {
		return nil, err
	}
	c.SetDeadline(time.Now().Add(answerTimeout))
	typ := ""
	if t := req.Header.Get("Content-Type"); t != "" {
		typ = "Content-Type: " + t + "\r\n"
	}
	n := len(body) / 2
	fmt.Fprintf(c, "%s %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n%sContent-Length: %d\r\n\r\n%s", req.Method, req.URL.RequestURI(), typ, len(body), body[:n])
	time.Sleep(5 * time.Millisecond)
	io.WriteString(c, body[n:])
	resp, err := http.ReadResponse(bufio.NewReader(c), req)
	if err != nil {
		c.Close()
		return nil, err
	}
	b, err := io.ReadAll(resp.Body)
	c.Close()
	resp.Body = io.NopCloser(bytes.NewReader(b))
	return resp, err
}

// cutRequest sends a request, but closes the connection in the middle of its body.
func cutRequest(addr string, q Request) {
	c, err := net.DialTimeout("tcp", addr, answerTimeout)
	if err != nil {
		return // reported by the next request
	}
	defer c.Close()
	fmt.Fprintf(c, "%s %s HTTP/1.1\r\nHost: localhost\r\nContent-Length: %d\r\n\r\n%s", q.Method, q.Path, len(q.Body)+10, q.Body)
}

// C25: the bot.

// A ChatUser is a user.
type ChatUser struct{ Nick, FullName, DisplayName, ID string }

// A ChatEvent is an event for the fake chat.
type ChatEvent struct {
	Type          string
	Text          Str        `json:",omitempty"`
	From, Who, To *ChatUser  `json:",omitempty"`
	ReplyTo       *ChatEvent `json:",omitempty"`
	ID            string     `json:",omitempty"`
}

// A BotCase is the events of the channels.
type BotCase struct {
	Channels [][]*ChatEvent `json:"channels"`
}

const (
	botPrefix  = ".miu"
	bridgeNick = "ToaqBridgeBot"
)

func genUser(s *pbt.Source) *ChatUser {
	nicks := []string{"Bob", bridgeNick, bridgeNick, "", "toaqbridgebot", bridgeNick + "2", "Toaq Telegram", "Toaq", "x: y", ".miu"}
	u := &ChatUser{Nick: nicks[s.Intn(len(nicks))], ID: strconv.Itoa(s.Intn(5))}
	switch s.Intn(4) {
	case 0:
		u.FullName, u.DisplayName = bridgeNick, bridgeNick
	case 1:
		u.FullName, u.DisplayName = "Toaq Telegram", u.Nick
	}
	return u
}

func genMessageText(s *pbt.Source, relayed bool, pool *[]string) string {
	spaces := []string{" ", " ", " ", "", "  ", "\n", "\t", "\u00a0", "\u3000", " \r\n "}
	var t string
	if len(*pool) > 0 && s.Intn(4) == 3 { // an earlier text, or one that is nearly the same
		if t = (*pool)[s.Intn(len(*pool))]; s.Intn(2) == 0 {
			t = variant(s, t)
		}
	} else {
		t = programText(s)
		*pool = append(*pool, t)
	}
	if s.Intn(5) < 4 {
		t = botPrefix + spaces[s.Intn(len(spaces))] + t + spaces[s.Intn(len(spaces))]
	} else {
		switch s.Intn(8) {
		case 0:
			t = " " + botPrefix + " " + t
		case 1:
			t = ".MIU " + t
		case 2:
			t = "miu " + t
		case 3:
			t = ".mi " + t
		case 4:
			t = t + " " + botPrefix
		case 5:
			t = "." + botPrefix + " " + t
		case 6:
			t = botPrefix
		}
	}
	if relayed && s.Intn(5) < 4 || s.Intn(10) == 9 {
		names := []string{"Bob: ", "Łé: ", ": ", "Bob:", "Bob : ", "a b c: ", "Bob: Alice: ", ".miu: "}
		t = names[weighted(s, 6, 3, 1, 1, 1, 2, 1, 1)] + t
	}
	return t
}

func genC25(s *pbt.Source) any {
	c := &BotCase{}
	var pool []string
	for n := []int{1, 1, 2, 3}[s.Intn(4)]; n > 0; n-- {
		var evs []*ChatEvent
		for k := s.Intn(12); k >= 0; k-- {
			evs = append(evs, genEvent(s, 2, &pool))
		}
		c.Channels = append(c.Channels, evs)
	}
	return c
}

func genEvent(s *pbt.Source, depth int, pool *[]string) *ChatEvent {
	e := &ChatEvent{ID: strconv.Itoa(s.Intn(100))}
	switch s.Intn(12) {
	case 11:
		e.Type = "delete"
		return e
	case 10:
		e.Type, e.Who = []string{"join", "leave"}[s.Intn(2)], genUser(s)
		return e
	case 9:
		e.Type, e.Who, e.To = "rename", genUser(s), genUser(s)
		return e
	case 8:
		e.Type = "edit"
	default:
		e.Type = "message"
	}
	if s.Intn(12) < 11 {
		e.From = genUser(s)
	}
	e.Text = Str(genMessageText(s, e.From != nil && e.From.Nick == bridgeNick, pool))
	if depth > 0 && s.Intn(6) == 5 {
		e.ReplyTo = genEvent(s, 0, pool)
		e.ReplyTo.Type = "message"
	}
	return e
}

// input returns the text that the bot is asked to analyse.
func (e *ChatEvent) input() (string, bool) {
	if e.Type != "message" {
		return "", false
	}
	t := string(e.Text)
	if e.From != nil && e.From.Nick == bridgeNick {
		if i := strings.Index(t, ": "); i >= 0 {
			t = t[i+2:]
		}
	}
	if !strings.HasPrefix(t, botPrefix) {
		return "", false
	}
	return strings.TrimSpace(t[len(botPrefix):]), true
}

// encode returns the event as the fake chat reads it.
func (e *ChatEvent) encode() map[string]any {
	if e == nil {
		return nil
	}
	m := map[string]any{"Type": e.Type, "Text": []byte(e.Text), "ID": []byte(e.ID), "From": e.From, "Who": e.Who, "To": e.To}
	if e.ReplyTo != nil {
		m["ReplyTo"] = e.ReplyTo.encode()
	}
	return m
}

func checkC25(cc any, r *pbt.Result) {
	c := cc.(*BotCase)
	dir := scratch()
	defer os.RemoveAll(dir)
	var names []string
	for i, evs := range c.Channels {
		names = append(names, fmt.Sprintf("chan%d", i))
		es := []any{}
		for _, e := range evs {
			es = append(es, e.encode())
		}
		b, err := json.Marshal(es)
		if err == nil {
			err = os.WriteFile(filepath.Join(dir, names[i]+".in"), b, 0o600)
		}
		if err != nil {
			harness("%v", err)
		}
	}
	var out bytes.Buffer
	cmd := exec.Command(binary("bot"))
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "DISCORD_TOKEN=tok en", "DISCORD_SERVER=Toaq", "DISCORD_CHANS="+strings.Join(names, ","),
		"FAKECHAT_DIR="+dir, "FAKECHAT_TOKEN=tok en", "FAKECHAT_SERVER=Toaq", fmt.Sprintf("FAKECHAT_CHANNELS=%d", len(names)))
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		harness("the bot does not start: %v", err)
	}
	timer := time.AfterFunc(answerTimeout, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	hung := !timer.Stop()
	if strings.Contains(out.String(), "FAKECHAT: ") {
		harness("%s", out.String())
	}
	_, doneErr := os.Stat(filepath.Join(dir, "done"))
	if err != nil || doneErr != nil || hung {
		s := out.String()
		r.Fail("the bot stops before the end of the events (%v, hangs=%v): %s", err, hung, s[max(0, len(s)-1500):])
		return
	}
	var key strings.Builder
	replies := 0
	for i, evs := range c.Channels {
		b, err := os.ReadFile(filepath.Join(dir, names[i]+".out"))
		if err != nil {
			r.Fail("the bot did not join %s", names[i])
			return
		}
		type sent struct {
			Received int
			Text     []byte
		}
		var got []sent
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			if l == "" {
				continue
			}
			var s sent
			if err := json.Unmarshal([]byte(l), &s); err != nil {
				harness("%v", err)
			}
			got = append(got, s)
		}
		for k, e := range evs {
			var mine []string
			for len(got) > 0 && got[0].Received == k+1 {
				mine = append(mine, string(got[0].Text))
				got = got[1:]
			}
			in, ok := e.input()
			r.Class("event " + e.Type)
			if !ok {
				if len(mine) > 0 {
					r.Fail("%q is sent in reply to event %d of %s, which asks for nothing", mine[0], k, names[i])
					return
				}
				continue
			}
			replies++
			fmt.Fprintf(&key, "%q ", in)
			if len(mine) != 1 {
				r.Fail("%d replies to event %d of %s: %q", len(mine), k, names[i], mine)
				return
			}
			a := analyse(in)
			r.Class("text " + a.class())
			if e.From != nil && e.From.Nick == bridgeNick {
				r.Class("relayed")
			}
			m := mine[0]
			switch {
			case a.Err != "":
				if m != "syntax error "+a.Err {
					r.Fail("event %d of %s: the reply is %q, want the error %q", k, names[i], m, a.Err)
				}
			default:
				want := a.Braces
				if want != "" {
					want += "\n"
				}
				tail, ok := strings.CutPrefix(m, want)
				switch {
				case !ok:
					r.Fail("event %d of %s: the reply %q does not begin with %q", k, names[i], m, want)
				case a.Fragment && tail != "fragment":
					r.Fail("event %d of %s: the reply %q to a fragment", k, names[i], m)
				case a.Unsupported != "" && (tail == "" || tail == "fragment"):
					r.Fail("event %d of %s: the reply %q to an unsupported text", k, names[i], m)
				case a.Logic != "" && tail != a.Logic:
					r.Fail("event %d of %s: the reply has interpretation %q, want %q", k, names[i], tail, a.Logic)
				}
			}
			if r.Err != "" {
				return
			}
		}
		if len(got) > 0 {
			r.Fail("a reply %q out of order", got[0].Text)
			return
		}
	}
	r.Class(fmt.Sprintf("%d channels", len(c.Channels)))
	if replies > 0 {
		r.Key = key.String()
	}
}

// C27: the command-line program.

// A CommandCase is an input for the program.
type CommandCase struct {
	Text Str `json:"text"`
	// Mode is how the input is given.
	Mode string `json:"mode"`
	Name string `json:"name,omitempty"`
	// Stdin is what is on standard input, besides a file.
	Stdin Str `json:"stdin,omitempty"`
}

func genC27(s *pbt.Source) any {
	c := &CommandCase{Mode: []string{"file", "stdin", "file", "stdin", "missing", "directory", "pieces"}[weighted(s, 8, 8, 4, 4, 1, 1, 4)]}
	if c.Mode != "stdin" && c.Mode != "pieces" {
		c.Name = []string{"in.txt", "a b", "x:1", "%d", "toaq", "sub/in.toaq", "-"}[s.Intn(7)]
		c.Stdin = Str([]string{"", "mai? ji/ da", "hu", "\n"}[s.Intn(4)])
	}
	if c.Mode == "file" || c.Mode == "stdin" || c.Mode == "pieces" {
		c.Text = Str(programText(s))
		if s.Intn(3) == 0 {
			c.Text += "\n"
		}
	}
	return c
}

// pause is a reader of nothing that takes some time.
type pause struct{}

func (pause) Read([]byte) (int, error) {
	time.Sleep(10 * time.Millisecond)
	return 0, io.EOF
}

func checkC27(cc any, r *pbt.Result) {
	c := cc.(*CommandCase)
	dir := scratch()
	defer os.RemoveAll(dir)
	cmd := exec.Command(binary("toaq"))
	cmd.Dir = dir
	path := ""
	if c.Mode != "stdin" && c.Mode != "pieces" {
		path = c.Name
		cmd.Args = append(cmd.Args, path)
	}
	var err error
	if path != "" {
		os.Mkdir(filepath.Join(dir, "sub"), 0o700)
		if c.Stdin != "" {
			cmd.Stdin = strings.NewReader(string(c.Stdin))
		}
	}
	switch c.Mode {
	case "stdin":
		cmd.Stdin = strings.NewReader(string(c.Text))
	case "pieces": // with a pause between them
		n := len(c.Text) / 2
		cmd.Stdin = io.MultiReader(strings.NewReader(string(c.Text[:n])), pause{}, strings.NewReader(string(c.Text[n:])))
	case "file":
		err = os.WriteFile(filepath.Join(dir, path), []byte(c.Text), 0o600)
	case "directory":
		err = os.Mkdir(filepath.Join(dir, path), 0o700)
	}
	if err != nil {
		harness("%v", err)
	}
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	if err := cmd.Start(); err != nil {
		harness("the program does not start: %v", err)
	}
	timer := time.AfterFunc(answerTimeout, func() { cmd.Process.Kill() })
	cmd.Wait()
	if !timer.Stop() {
		r.Fail("the program does not end")
		return
	}
	status := cmd.ProcessState.ExitCode()
	got := out.String()
	r.Class("input by " + c.Mode)
	if c.Mode == "missing" || c.Mode == "directory" {
		if status != 1 {
			r.Fail("status %d for an unreadable file, want 1; stderr: %.500s", status, errOut.String())
		}
		if !strings.Contains(got+errOut.String(), path) {
			r.Fail("the message %q does not name the file %q", got, path)
		}
		r.Key = c.Mode + path
		return
	}
	a := analyse(string(c.Text))
	r.Class("text " + a.class())
	if a.Err != "" {
		if status != 1 {
			r.Fail("status %d for a rejected text, want 1; stderr: %.500s", status, errOut.String())
		}
		if !strings.HasSuffix(strings.TrimRight(got, "\n"), strings.TrimRight(path+a.Err, "\n")) {
			r.Fail("the output ends with %q, want %q", got[max(0, len(got)-200):], path+a.Err)
		}
		r.Key = string(c.Text)
		return
	}
	want := a.Parse + "\n" + a.AST + "\n" + a.Text + "\n" + a.Braces + "\n"
	switch {
	case a.Unsupported != "":
		if status == 0 {
			r.Fail("status 0 for an unsupported text")
		}
	case a.Fragment:
		want += "fragment\n"
	default:
		want += a.Stmt + "\n" + a.LogicString + "\n"
	}
	if a.Unsupported == "" && status != 0 {
		r.Fail("status %d for an accepted text, want 0; stderr: %.500s", status, errOut.String())
	}
	if got != want {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		r.Fail("the output differs at byte %d: %q, want %q", i, got[i:min(len(got), i+200)], want[i:min(len(want), i+200)])
	}
	r.Key = string(c.Text)
}

func init() {
	register(&pbt.Prop{
		ID:   "C24",
		Rule: "a fresh server process, 1 to 8 concurrent clients, each with 1 to 10 requests from a pool of 1 to 6 texts (generated valid, mutated, unsupported, random bytes, JSON and HTML specials); methods POST, GET, others; any media type; bodies cut, chunked, or in two pieces; non-trivial: at least one POST answered; distinct by the requests",
		Gen:  genC24, Check: checkC24, New: func() any { return &ServerCase{} },
		Quick: 1600, Thorough: 60000, MaxShrink: 1500,
	})
	register(&pbt.Prop{
		ID:   "C25",
		Rule: "a bot process with 1 to 3 channels, each with 1 to 12 events (messages with and without the prefix, relayed and not, edits, deletes, joins, leaves, renames); non-trivial: at least one message asks for a reply; distinct by the texts to analyse",
		Gen:  genC25, Check: checkC25, New: func() any { return &BotCase{} },
		Quick: 6000, Thorough: 100000, MaxShrink: 1500,
	})
	register(&pbt.Prop{
		ID:   "C27",
		Rule: "one run of the program with a text by file, by standard input, or by standard input in two pieces, a missing file, or a directory; non-trivial: all; distinct by text",
		Gen:  genC27, Check: checkC27, New: func() any { return &CommandCase{} },
		Quick: 16000, Thorough: 300000, MaxShrink: 1500,
	})
}
