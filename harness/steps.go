package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"regexp"
	"strconv"
	"sync"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
	"github.com/textwire/textwire/v2/fail"
	"github.com/textwire/textwire/v2/lexer"
	"github.com/textwire/textwire/v2/parser"
	"github.com/textwire/textwire/v2/token"
)

var sets []*textwire.Template
var scratch string // the scratch directory of the case

func runStep(s *Step) (o Obs) {
	o.Same = true
	defer func() {
		if r := recover(); r != nil {
			o = Obs{Died: true, Same: true, Why: fmt.Sprint("panic: ", r)}
		}
	}()
	switch s.Op {
	case "load":
		load(s, &o)
	case "register":
		if err := register(s); err != nil {
			native(err, &o)
		} else {
			o.Ok = true
		}
	case "evalstr", "evalfile", "render", "response":
		o = render(s)
	case "write":
		place(scratch, s.Fs)
		o.Ok = true
	case "par":
		o = parallel(s)
	case "parse":
		parse(s, &o)
	case "lex":
		lex(s, &o)
	case "contains":
		contains(s, &o)
	default:
		panic("unknown op " + s.Op)
	}
	return o
}

var errText = regexp.MustCompile(`(?s)^\[[^\n]*?ERROR(?: in (.*?))?:(\d+)\]:\n(.*)$`)

// native records an error whose details are only in its text
func native(err error, o *Obs) {
	o.Ok = false
	text := err.Error()
	if m := errText.FindStringSubmatch(text); m != nil {
		o.Path = hexb(m[1])
		n, _ := strconv.ParseUint(m[2], 10, 32)
		o.Line = uint(n)
		o.Msg = hexb(m[3])
		return
	}
	o.Msg = hexb(text)
}

func failed(err *fail.Error, o *Obs) {
	o.Ok = false
	o.Line, o.Path, o.Msg = err.Line(), hexb(err.Filepath()), hexb(err.Message())
}

func load(s *Step, o *Obs) {
	var cfg *config.Config
	if s.Opt != nil && s.Opt.Has {
		cfg = &config.Config{
			TemplateDir: string(s.Opt.Dir), TemplateExt: string(s.Opt.Ext),
			ErrorPagePath: string(s.Opt.Err), DebugMode: s.Opt.Debug,
		}
	}
	sets = append(sets, nil)
	t, err := textwire.NewTemplate(cfg)
	o.Odd = (t == nil) != (err != nil)
	if err != nil {
		native(err, o)
		return
	}
	o.Ok = true
	sets[len(sets)-1] = t
}

func dataOf(s *Step) (map[string]any, map[string]any) {
	if len(s.Data) == 0 && s.Nil {
		return nil, nil
	}
	return build(s.Data), build(s.Data)
}

func render(s *Step) (o Obs) {
	defer func() {
		if r := recover(); r != nil {
			o = Obs{Died: true, Same: true, Why: fmt.Sprint("panic: ", r)}
		}
	}()
	data, copy := dataOf(s)
	switch s.Op {
	case "evalstr":
		out, err := textwire.EvaluateString(string(s.Src), data)
		result(out, err, &o)
	case "evalfile":
		out, err := textwire.EvaluateFile(string(s.File), data)
		result(out, err, &o)
	case "render":
		t := sets[s.Set-1]
		if t == nil {
			o.Same = true
			return o
		}
		out, err := t.String(string(s.Name), data)
		if err != nil {
			failed(err, &o)
			o.Odd = out != ""
		} else {
			o.Ok, o.Out = true, hexb(out)
		}
	case "response":
		t := sets[s.Set-1]
		if t == nil {
			o.Same = true
			return o
		}
		w := &recorder{ResponseRecorder: httptest.NewRecorder()}
		err := t.Response(w, string(s.Name), data)
		if err != nil {
			native(err, &o)
		} else {
			o.Ok = true
		}
		o.Body = hexb(w.Body.Bytes())
	}
	o.Same = same(data, copy)
	return o
}

type recorder struct{ *httptest.ResponseRecorder }

var _ http.ResponseWriter = &recorder{}

func result(out string, err error, o *Obs) {
	if err != nil {
		native(err, o)
		o.Odd = out != ""
		return
	}
	o.Ok, o.Out = true, hexb(out)
}

// parallel makes every call of the step from several goroutines at once and
// records the different results of each call
func parallel(s *Step) (o Obs) {
	o.Ok, o.Same = true, true
	var mu sync.Mutex
	var wg sync.WaitGroup
	start := make(chan struct{})
	seen := make([]map[string]bool, len(s.Calls))
	o.Par = make([][]Obs, len(s.Calls))
	for i := range s.Calls {
		seen[i] = map[string]bool{}
		o.Par[i] = []Obs{}
	}
	for i, c := range s.Calls {
		for g := 0; g < s.Go; g++ {
			wg.Add(1)
			go func(i int, c *Step) {
				defer wg.Done()
				<-start
				for n := 0; n < s.Round; n++ {
					r := render(c)
					key := fmt.Sprintf("%+v", r)
					mu.Lock()
					if !seen[i][key] && len(o.Par[i]) < 4 {
						seen[i][key] = true
						o.Par[i] = append(o.Par[i], r)
					}
					mu.Unlock()
				}
			}(i, c)
		}
	}
	close(start)
	wg.Wait()
	return o
}

func parse(s *Step, o *Obs) {
	p := parser.New(lexer.New(string(s.Src)), "")
	prog := p.ParseProgram()
	errs := p.Errors()
	o.Nerrs = len(errs)
	o.Ok = len(errs) == 0
	if o.Ok != !p.HasErrors() || (o.Ok && prog == nil) {
		o.Odd = true
	}
	if len(errs) > 0 {
		failed(errs[0], o)
	}
	for _, e := range errs {
		if e.Line() == 0 {
			o.Odd = true
		}
	}
}

var tokenNames = map[token.TokenType]string{
	token.ILLEGAL: "ILLEGAL", token.EOF: "EOF", token.IDENT: "IDENT", token.HTML: "HTML", token.INT: "INT",
	token.FLOAT: "FLOAT", token.STR: "STR", token.ADD: "ADD", token.SUB: "SUB", token.MUL: "MUL", token.DIV: "DIV",
	token.MOD: "MOD", token.INC: "INC", token.DEC: "DEC", token.NOT: "NOT", token.ASSIGN: "ASSIGN", token.EQ: "EQ",
	token.NOT_EQ: "NE", token.LTHAN: "LT", token.GTHAN: "GT", token.LTHAN_EQ: "LE", token.GTHAN_EQ: "GE",
	token.LBRACES: "LBRACES", token.RBRACES: "RBRACES", token.LBRACE: "LBRACE", token.RBRACE: "RBRACE",
	token.LPAREN: "LPAREN", token.RPAREN: "RPAREN", token.LBRACKET: "LBRACKET", token.RBRACKET: "RBRACKET",
	token.QUESTION: "QUESTION", token.COLON: "COLON", token.COMMA: "COMMA", token.DOT: "DOT", token.SEMI: "SEMI",
	token.TRUE: "TRUE", token.FALSE: "FALSE", token.NIL: "NIL", token.IN: "IN",
	token.IF: "IF", token.ELSE: "ELSE", token.ELSE_IF: "ELSEIF", token.END: "END", token.USE: "USE",
	token.RESERVE: "RESERVE", token.INSERT: "INSERT", token.FOR: "FOR", token.EACH: "EACH",
	token.CONTINUE: "CONTINUE", token.CONTINUE_IF: "CONTINUEIF", token.BREAK: "BREAK", token.BREAK_IF: "BREAKIF",
	token.COMPONENT: "COMPONENT", token.SLOT: "SLOT", token.DUMP: "DUMP",
}

func lex(s *Step, o *Obs) {
	l := lexer.New(string(s.Src))
	o.Toks = []Tok{}
	for n := 0; ; n++ {
		t := l.NextToken()
		name, ok := tokenNames[t.Type]
		if !ok {
			name = fmt.Sprintf("?%d", t.Type)
		}
		o.Toks = append(o.Toks, Tok{name, hexb(t.Literal),
			[4]int{int(t.Pos.StartLine), int(t.Pos.StartCol), int(t.Pos.EndLine), int(t.Pos.EndCol)}})
		if t.Type == token.EOF {
			o.Ok = true
			return
		}
		if n > len(s.Src)+8 { // every token covers a byte
			return
		}
	}
}

// contains asks every token of the source for every position of the source
// and records which tokens claim a position: [line, col, index of token]
func contains(s *Step, o *Obs) {
	l := lexer.New(string(s.Src))
	var toks []token.Token
	for n := 0; n <= len(s.Src)+8; n++ {
		t := l.NextToken()
		toks = append(toks, t)
		if t.Type == token.EOF {
			break
		}
	}
	o.Ok = true
	o.Toks = []Tok{}
	line, col := uint(0), uint(0)
	ask := func() {
		for i, t := range toks {
			if t.Pos.Contains(line, col) {
				o.Toks = append(o.Toks, Tok{"at", nil, [4]int{int(line), int(col), i + 1, 0}})
			}
		}
	}
	for i := 0; i < len(s.Src); i++ {
		ask()
		if s.Src[i] == '\n' {
			line, col = line+1, 0
		} else {
			col++
		}
	}
	ask()
}

func same(a, b map[string]any) bool { return deepSame(a, b) }
