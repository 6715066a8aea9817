package props

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	goast "go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/eaburns/toaq/dict"

	"verif/pbt"
)

// A GenCase is a run of the program that writes the dictionary's source.
type GenCase struct {
	DictCase
	// Out is what there is at the path of the output file.
	Out string `json:"out"`
	// Old is the old content of the output file.
	Old Str `json:"old,omitempty"`
}

func genC28(s *pbt.Source) any {
	d := genC26(s).(*DictCase)
	for i := 0; d.Kind == "built-in"; i++ {
		if d = genC26(s).(*DictCase); i > 20 {
			d.Kind, d.Body = "success", `{"success":true,"data":[]}`
		}
	}
	c := &GenCase{DictCase: *d, Out: []string{"new", "old", "no directory", "directory", "full"}[weighted(s, 10, 10, 1, 1, 1)]}
	if c.Kind == "success" {
		// Write the strings anew, with some that mean something in Go.
		words := []string{"dict.", "dict.Word{", "Words", "%d", "%!v", "`", "\\", "\"", "\\\"", "\n", "//", "/*", "*/", "}", "{", ", ", "map[string]dict.Word{", "Word", "ıạ", "\u0000", "\ufeff", "\u2028", "\U0001F600", "\u007f", "pre", " "}
		str := func() string {
			var b strings.Builder
			for n := s.Intn(5); n > 0; n-- {
				b.WriteString(words[s.Intn(len(words))])
			}
			return b.String()
		}
		var list []string
		for _, e := range c.Entries {
			if s.Intn(2) == 0 {
				e.Body = str()
			}
			if s.Intn(3) == 0 {
				e.By = str()
			}
			if s.Intn(6) == 0 {
				e.Head += []string{"dict.", "\"", "`", "%s", "\n", "▯ "}[s.Intn(6)]
			}
			list = append(list, e.encode(s))
		}
		c.Body = Str(object(s, [][2]string{{`"success"`, "true"}, {`"data"`, "[" + strings.Join(list, ",") + "]"}}))
	}
	if c.Out == "old" {
		c.Old = Str(strings.Repeat("package dict // old\n", s.Intn(200)))
	}
	return c
}

// tlsProxy is a proxy that answers all that is asked of any https server.
type tlsProxy struct {
	url, certFile string
	handler       http.HandlerFunc
}

var proxyServer = sync.OnceValue(func() *tlsProxy {
	p := &tlsProxy{certFile: filepath.Join(scratch(), "ca.pem")}
	check := func(err error) {
		if err != nil {
			harness("proxy: %v", err)
		}
	}
	newKey := func() *ecdsa.PrivateKey {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		check(err)
		return k
	}
	caKey := newKey()
	now := time.Now()
	ca := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: now.Add(-time.Hour * 48), NotAfter: now.Add(time.Hour * 48),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, ca, ca, &caKey.PublicKey, caKey)
	check(err)
	check(os.WriteFile(p.certFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600))
	var mu sync.Mutex
	certs := make(map[string]*tls.Certificate)
	config := &tls.Config{GetCertificate: func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
		mu.Lock()
		defer mu.Unlock()
		if c := certs[h.ServerName]; c != nil {
			return c, nil
		}
		key := newKey()
		leaf := &x509.Certificate{SerialNumber: big.NewInt(int64(len(certs)) + 2), Subject: pkix.Name{CommonName: h.ServerName}, DNSNames: []string{h.ServerName},
			NotBefore: now.Add(-time.Hour * 48), NotAfter: now.Add(time.Hour * 48), KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
		der, err := x509.CreateCertificate(rand.Reader, leaf, ca, &key.PublicKey, caKey)
		if err != nil {
			return nil, err
		}
		certs[h.ServerName] = &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
		return certs[h.ServerName], nil
	}}
	// Each worker has an address of its own, so that they do not use up the ports of one.
	pid := os.Getpid()
	l, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:0", 1+pid>>16&0x3f, pid>>8&0xff, 1+pid&0x7f))
	if err != nil {
		l, err = net.Listen("tcp", "127.0.0.1:0")
	}
	check(err)
	p.url = "http://" + l.Addr().String()
	conns := make(chan net.Conn)
	inner := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { p.handler(w, q) })}
	inner.SetKeepAlivesEnabled(false)
	go inner.Serve(tls.NewListener(connListener{conns, l}, config))
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		if q.Method != http.MethodConnect {
			http.Error(w, "unexpected", http.StatusBadGateway)
			return
		}
		conn, buf, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		buf.WriteString("HTTP/1.1 200 OK\r\n\r\n")
		buf.Flush()
		conns <- conn
	}))
	return p
})

// connListener is a listener that accepts connections from a channel.
type connListener struct {
	conns chan net.Conn
	net.Listener
}

func (l connListener) Accept() (net.Conn, error) { return <-l.conns, nil }

func checkC28(cc any, r *pbt.Result) {
	c := cc.(*GenCase)
	r.Class("answer: " + c.Kind)
	c.classes(r)
	r.Class("output: " + c.Out)
	p := proxyServer()
	var reqErr string
	requests := 0
	var mu sync.Mutex
	p.handler = func(w http.ResponseWriter, q *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		requests++
		b, err := io.ReadAll(q.Body)
		var query map[string]any
		switch {
		case err != nil:
			reqErr = fmt.Sprintf("the body of the request cannot be read: %v", err)
		case q.Method != "POST" || q.Host != "uakci.pl" || q.URL.Path != "/toadua/api":
			reqErr = fmt.Sprintf("the request is %s %s%s", q.Method, q.Host, q.URL)
		case json.Unmarshal(b, &query) != nil || len(query) != 2 || query["action"] != "search" || query["query"] != "*":
			reqErr = fmt.Sprintf("the query is %q", b)
		}
		switch c.Kind {
		case "closed", "cut", "refused":
			conn, buf, err := w.(http.Hijacker).Hijack()
			if err != nil {
				return
			}
			if c.Kind == "cut" {
				fmt.Fprintf(buf, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", len(c.Body)+20, c.Body)
				buf.Flush()
			}
			conn.Close()
		default:
			c.answer(w)
		}
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "out.go")
	var err error
	switch c.Out {
	case "old":
		err = os.WriteFile(path, []byte(c.Old), 0o600)
	case "no directory":
		path = filepath.Join(dir, "missing", "out.go")
	case "directory":
		err = os.Mkdir(path, 0o700)
	case "full":
		path = "/dev/full"
	}
	if err != nil {
		harness("%v", err)
	}
	cmd := exec.Command(binary("dict"), "-o", path)
	cmd.Dir = dir
	cmd.Env = []string{"HTTPS_PROXY=" + p.url, "SSL_CERT_FILE=" + p.certFile, "SSL_CERT_DIR=" + dir, "HOME=" + dir, "PATH=/usr/bin:/bin"}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		harness("the program does not start: %v", err)
	}
	timer := time.AfterFunc(answerTimeout, func() { cmd.Process.Kill() })
	cmd.Wait()
	if !timer.Stop() {
		r.Fail("the program does not end")
		return
	}
	status := cmd.ProcessState.ExitCode()
	mu.Lock()
	defer mu.Unlock()
	if reqErr != "" {
		r.Fail("%s", reqErr)
	}
	if requests == 0 {
		r.Fail("there is no request; the program says %.500s", out.String())
		return
	}
	r.Key = c.Out + c.Kind + string(c.Body) + fmt.Sprint(c.Status)
	if c.Kind != "success" || c.Out != "new" && c.Out != "old" {
		if status != 1 {
			r.Fail("status %d, want 1, if the answer is %s and the output %s; it says %.500s", status, c.Kind, c.Out, out.String())
		}
		if strings.TrimSpace(out.String()) == "" {
			r.Fail("the program fails without a message")
		}
		if c.Kind == "error" && !strings.Contains(out.String(), c.Message) {
			r.Fail("the program says %q without the message %q of the server", out.String(), c.Message)
		}
		if c.Out == "full" {
			return
		}
		b, err := os.ReadFile(path)
		switch {
		case c.Kind != "success" && c.Out == "old" && (err != nil || string(b) != string(c.Old)):
			r.Fail("the output file was changed to %q (%v), but the words could not be loaded", b, err)
		case c.Kind != "success" && c.Out == "new" && err == nil && len(b) > 0:
			r.Fail("there is an output file %q, but the words could not be loaded", b)
		}
		return
	}
	if status != 0 {
		r.Fail("status %d, want 0; the program says %.500s", status, out.String())
		return
	}
	b, err := os.ReadFile(path)
	if err != nil {
		r.Fail("the output file cannot be read: %v", err)
		return
	}
	got, err := readWords(b)
	if err != nil {
		r.Fail("the output file does not declare the words: %v\n%.3000s", err, b)
		return
	}
	want := c.want(r)
	for k, w := range want {
		g, ok := got[k]
		if !ok {
			r.Fail("there is no word %q in the source\n%.3000s", k, b)
		} else if g != w {
			r.Fail("the word %q is %#v in the source, want %#v", k, g, w)
		}
	}
	if len(got) != len(want) {
		r.Fail("there are %d words in the source, want %d:\n%.3000s", len(got), len(want), b)
	}
}

// readWords returns the words that a source file declares.
func readWords(src []byte) (map[string]dict.Word, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "words.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	stub, err := parser.ParseFile(fset, "dict.go", "package dict\ntype Word struct { Word, Def, By string; Score int }\n", 0)
	if err != nil {
		harness("%v", err)
	}
	info := &types.Info{Types: make(map[goast.Expr]types.TypeAndValue)}
	conf := types.Config{Sizes: types.SizesFor("gc", "amd64")}
	pkg, err := conf.Check("dict", fset, []*goast.File{stub, f}, info)
	if err != nil {
		return nil, err
	}
	var names []string
	for _, n := range pkg.Scope().Names() {
		if n != "Word" {
			names = append(names, n)
		}
	}
	v, ok := pkg.Scope().Lookup("Words").(*types.Var)
	if !ok || len(names) != 1 {
		return nil, fmt.Errorf("the declared names are %q", names)
	}
	if s := types.TypeString(v.Type(), types.RelativeTo(pkg)); s != "map[string]Word" {
		return nil, fmt.Errorf("the type of Words is %s", s)
	}
	words := make(map[string]dict.Word)
	found := false
	str := func(e goast.Expr) string {
		if tv := info.Types[e]; tv.Value != nil && tv.Value.Kind() == constant.String {
			return constant.StringVal(tv.Value)
		}
		err = fmt.Errorf("%T is not a constant string", e)
		return ""
	}
	goast.Inspect(f, func(n goast.Node) bool {
		m, ok := n.(*goast.CompositeLit)
		if !ok || found {
			return true
		}
		found = true
		for _, e := range m.Elts {
			kv, ok := e.(*goast.KeyValueExpr)
			if !ok {
				err = fmt.Errorf("%T is in the map", e)
				return false
			}
			lit, ok := kv.Value.(*goast.CompositeLit)
			if !ok {
				err = fmt.Errorf("%T is in the map", kv.Value)
				return false
			}
			var w dict.Word
			for i, e := range lit.Elts {
				name := []string{"Word", "Def", "By", "Score"}[i]
				if kv, ok := e.(*goast.KeyValueExpr); ok {
					name, e = kv.Key.(*goast.Ident).Name, kv.Value
				}
				switch name {
				case "Word":
					w.Word = str(e)
				case "Def":
					w.Def = str(e)
				case "By":
					w.By = str(e)
				case "Score":
					n, ok := constant.Int64Val(info.Types[e].Value)
					if !ok {
						err = fmt.Errorf("%T is not a constant number", e)
					}
					w.Score = int(n)
				}
			}
			words[str(kv.Key)] = w
		}
		return false
	})
	return words, err
}

func init() {
	register(&pbt.Prop{
		ID:   "C28",
		Rule: "a run of the program dict/main.go against a local stand-in of the Toadua server (reached as an https proxy) that answers as for C26, with strings that mean something in Go source, and an output file that is new, old, or cannot be written; non-trivial: all; distinct by answer and output",
		Gen:  genC28, Check: checkC28, New: func() any { return &GenCase{} },
		Quick: 12000, Thorough: 120000, MaxShrink: 1500,
	})
}
