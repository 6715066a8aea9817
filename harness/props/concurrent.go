package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/pretty"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
	"github.com/eaburns/toaq/tone"

	"verif/gen"
	"verif/pbt"
	"verif/refpeg"
)

func init() {
	register(&pbt.Prop{
		ID:   "C29",
		Rule: "2 to 4 goroutines behind a barrier, each with 1 to 4 uses of the packages: of its own parsers and trees, or reading trees, errors and formulas that are shared; concurrent requests to the server; events on several channels of the bot; everything is built with the race detector; oracles: no data race is reported, and the results equal the ones of the same uses afterwards, one by one; non-trivial: at least two goroutines (clients, channels) with an accepted text each; distinct: by texts and uses",
		Gen:  genC29, Check: checkC29, New: func() any { return &RaceCase{} },
		Quick: 4000, Thorough: 160000, CPULimit: 120 * time.Second, MaxShrink: 400,
	})
}

// A RaceCase is goroutines that use the packages, or a case for one of the programs.
type RaceCase struct {
	Texts  []Str       `json:"texts,omitempty"`
	Uses   [][]Use     `json:"uses,omitempty"`
	Server *ServerCase `json:"server,omitempty"`
	Bot    *BotCase    `json:"bot,omitempty"`
}

// A Use is one use of the packages. Uses that begin with "shared" read shared values.
type Use struct {
	Do   string `json:"do"`
	Text int    `json:"text"`
	N    int    `json:"n,omitempty"`
}

var useNames = []string{"analyse", "word", "to ascii", "interpret", "tones", "visit",
	"shared tree", "shared interpret", "shared formula", "shared error", "shared equal"}

func genC29(s *pbt.Source) any {
	switch s.Intn(26) {
	case 24:
		c := genC24(s).(*ServerCase)
		for len(c.Clients) < 2 {
			c.Clients = append(c.Clients, c.Clients[0])
		}
		return &RaceCase{Server: c}
	case 25:
		c := genC25(s).(*BotCase)
		for len(c.Channels) < 2 {
			c.Channels = append(c.Channels, c.Channels[0])
		}
		return &RaceCase{Bot: c}
	}
	c := &RaceCase{}
	for n := 1 + s.Intn(4); n > 0; n-- {
		switch {
		case len(c.Texts) > 0 && s.Intn(4) == 3:
			c.Texts = append(c.Texts, Str(variant(s, string(c.Texts[s.Intn(len(c.Texts))]))))
		case s.Intn(2) == 1:
			c.Texts = append(c.Texts, Str(validText(s, gen.Supported)))
		default:
			c.Texts = append(c.Texts, anyText(s, 40, 10, 10, 5, 10, 3, 5, 2).Text)
		}
	}
	for n := 2 + s.Intn(3); n > 0; n-- {
		var us []Use
		for k := 1 + s.Intn(4); k > 0; k-- {
			us = append(us, Use{Do: useNames[s.Intn(len(useNames))], Text: s.Intn(len(c.Texts)), N: s.Intn(20)})
		}
		c.Uses = append(c.Uses, us)
	}
	return c
}

// sharedValues are the values for all goroutines to read.
type sharedValues struct {
	texts []string
	trees []*ast.Text
	errs  []ast.Error
	sts   []logic.Statement
}

func (v *sharedValues) do(u Use) (res string) {
	defer func() {
		if e := recover(); e != nil {
			res = fmt.Sprint("panic: ", e)
		}
	}()
	text, tree, err, st := v.texts[u.Text], v.trees[u.Text], v.errs[u.Text], v.sts[u.Text]
	switch u.Do {
	case "analyse":
		a := analyse(text)
		return fmt.Sprintf("%+v", a)
	case "word":
		off := u.N % (len(text) + 1)
		w, n, err := ast.NewParser(text).Word(off)
		if err != nil {
			return fmt.Sprint(n, err)
		}
		return fmt.Sprint(n, pretty.String(w))
	case "to ascii":
		t, err := ast.NewParser(text).Text()
		if err != nil {
			return err.Error()
		}
		ast.ToASCII(t)
		return refpeg.FromAST(t).Dump(true)
	case "interpret":
		t, err := ast.NewParser(text).Text()
		if err != nil {
			return errorString(err)
		}
		st, failed := interpret(t)
		if st == nil {
			return failed
		}
		return dumpLogic(st)
	case "tones":
		res = tone.ToASCII(text) + tone.Strip(text)
		for _, f := range strings.Fields(text) {
			res += tone.WithTone(f, []rune(`-/V?^\~ `)[u.N%8]) + string(tone.Tone(f))
		}
		return res
	case "visit":
		t, err := ast.NewParser(text).Text()
		if err != nil {
			return err.Error()
		}
		return visited(t)
	}
	// Uses of the shared values.
	if u.Do == "shared equal" {
		k := u.N % len(v.trees)
		if tree == nil || v.trees[k] == nil {
			return ""
		}
		return fmt.Sprint(ast.Equal(tree, v.trees[k]))
	}
	if err != nil {
		if u.Do != "shared error" {
			return ""
		}
		return errorString(err)
	}
	switch u.Do {
	case "shared tree":
		return ast.BracesString(tree) + pretty.String(tree) + visited(tree)
	case "shared interpret":
		st, failed := interpret(tree)
		if st == nil {
			return failed
		}
		return dumpLogic(st)
	case "shared formula":
		if st == nil {
			return ""
		}
		st.Visit(func(n logic.Node) {
			res += fmt.Sprintf("%T", n)
			if a := n.ASTNode(); a != nil {
				res += fmt.Sprint(a.Start(), a.End())
			}
		})
		return res + logic.String(st) + logic.PrettyString(st)
	}
	return ""
}

// errorString has all that an error says, but for the inner nodes of its tree, which can be too many.
func errorString(err ast.Error) string {
	s := fmt.Sprint(err.Error(), err.ByteOffset())
	for _, f := range peg.LeafFails(err.Tree()) {
		s += fmt.Sprint(" ", f.Pos, f.Want)
	}
	return s
}

// visited lists the visits of a tree.
func visited(t *ast.Text) string {
	var b strings.Builder
	ast.Visit(t, ast.FuncVisitor(func(n ast.Node) {
		if n == nil {
			b.WriteString(")")
			return
		}
		fmt.Fprintf(&b, "(%T %d %d", n, n.Start(), n.End())
	}))
	return b.String()
}

// races returns and forgets what the race detector has reported, here and in the programs.
func races() string {
	var path string
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(o, "log_path="); ok {
			path = p
		}
	}
	if path == "" || !raceEnabled {
		harness("not built with the race detector, or no log for it")
	}
	files, _ := filepath.Glob(path + ".*")
	sort.Strings(files)
	var all string
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			harness("%v", err)
		}
		// The runtime keeps the log of this process open.
		if err := os.Truncate(f, 0); err != nil {
			harness("%v", err)
		}
		if !strings.HasSuffix(f, fmt.Sprintf(".%d", os.Getpid())) {
			os.Remove(f)
		}
		all += strings.ReplaceAll(string(b), "\x00", "")
	}
	if len(all) > 3000 {
		all = all[:3000]
	}
	return strings.TrimSpace(all)
}

func checkC29(cc any, r *pbt.Result) {
	c := cc.(*RaceCase)
	switch {
	case c.Server != nil:
		r.Class("server")
		checkC24(c.Server, r)
	case c.Bot != nil:
		r.Class("bot")
		checkC25(c.Bot, r)
	default:
		checkUses(c, r)
	}
	if s := races(); s != "" {
		r.Err = "" // a consequence
		r.Fail("%s", s)
	}
}

func checkUses(c *RaceCase, r *pbt.Result) {
	// A separate parser for the shared values.
	v := &sharedValues{}
	shared := make(map[int]bool)
	for _, us := range c.Uses {
		for _, u := range us {
			if strings.HasPrefix(u.Do, "shared") {
				shared[u.Text] = true
				if u.Do == "shared equal" {
					shared[u.N%len(c.Texts)] = true
				}
			}
		}
	}
	for i, t := range c.Texts {
		v.texts = append(v.texts, string(t))
		v.trees, v.errs, v.sts = append(v.trees, nil), append(v.errs, nil), append(v.sts, nil)
		if !shared[i] {
			continue // it is used by the goroutines first
		}
		tree, err := ast.NewParser(string(t)).Text()
		if err != nil {
			v.errs[i] = err
			continue
		}
		v.trees[i] = tree
		for _, us := range c.Uses {
			for _, u := range us {
				if u.Do == "shared formula" && u.Text == i && v.sts[i] == nil {
					v.sts[i], _ = interpret(tree)
				}
			}
		}
	}
	got := make([][]string, len(c.Uses))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, us := range c.Uses {
		got[i] = make([]string, len(us))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k, u := range us {
				got[i][k] = v.do(u)
			}
		}()
	}
	close(start)
	wg.Wait()
	key, busy := "", 0
	for i, us := range c.Uses {
		accepted := false
		for k, u := range us {
			r.Class(u.Do)
			if want := v.do(u); want != got[i][k] {
				r.Fail("%s of %q at the same time as other uses differs from later: %s", u.Do, v.texts[u.Text], refpeg.DiffAt(got[i][k], want))
				return
			}
			if _, err := ast.NewParser(v.texts[u.Text]).Text(); err == nil {
				accepted = true
			}
		}
		if accepted {
			busy++
		}
		key += fmt.Sprint(us)
	}
	if busy > 1 {
		r.Key = fmt.Sprintf("%q", v.texts) + key
	}
}
