// The driver runs histories of calls of the public API of textwire and
// records what they do.  It reads one case per line from standard input and
// writes one line of observations for every case.  Byte strings are encoded
// in hexadecimal.  It decides nothing: the observations are judged by TLC.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sync/atomic"
	"time"
)

type Case struct {
	ID    string  `json:"id"`
	Root  hexb    `json:"root"`
	Fs    []File  `json:"fs"`
	Steps []*Step `json:"steps"`
}

type File struct {
	P    hexb   `json:"p"`
	C    hexb   `json:"c"`
	Kind string `json:"kind"`
}

type Step struct {
	Op    string  `json:"op"`
	Src   hexb    `json:"src"`
	File  hexb    `json:"file"`
	Name  hexb    `json:"name"`
	Set   int     `json:"set"`
	Data  []*Pair `json:"data"`
	Nil   bool    `json:"nil"` // pass a nil map when there is no data
	Opt   *Opt    `json:"opt"`
	Ty    string  `json:"ty"`
	Tag   hexb    `json:"tag"`
	Beh   string  `json:"beh"`
	Val   *Datum  `json:"val"`
	Fs    []File  `json:"fs"`
	Calls []*Step `json:"calls"`
	Go    int     `json:"go"`     // goroutines per call
	Round int     `json:"rounds"` // calls per goroutine
}

type Opt struct {
	Has   bool `json:"has"`
	Dir   hexb `json:"dir"`
	Ext   hexb `json:"ext"`
	Err   hexb `json:"err"`
	Debug bool `json:"debug"`
}

type Obs struct {
	Ok    bool    `json:"ok"`
	Out   hexb    `json:"out"`
	Line  uint    `json:"line"`
	Path  hexb    `json:"path"`
	Msg   hexb    `json:"msg"`
	Body  hexb    `json:"body"`
	Died  bool    `json:"died"`
	Odd   bool    `json:"odd"`
	Same  bool    `json:"same"`
	Why   string  `json:"why,omitempty"`
	Toks  []Tok   `json:"toks,omitempty"`
	Par   [][]Obs `json:"par,omitempty"`
	Nerrs int     `json:"nerrs,omitempty"`
}

type Tok struct {
	T   string `json:"t"`
	Lit hexb   `json:"lit"`
	P   [4]int `json:"p"`
}

type hexb []byte

func (h hexb) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`"%x"`, []byte(h))), nil }
func (h *hexb) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	out := make([]byte, len(s)/2)
	for i := range out {
		fmt.Sscanf(s[2*i:2*i+2], "%02x", &out[i])
	}
	*h = out
	return nil
}

var current atomic.Value // string: id and step
var deadline atomic.Int64

const stackLimit = 512 << 20

func main() {
	debug.SetMaxStack(stackLimit)

	limit := 20 * time.Second
	if v := os.Getenv("STEP_TIMEOUT_MS"); v != "" {
		var ms int
		fmt.Sscan(v, &ms)
		limit = time.Duration(ms) * time.Millisecond
	}
	home, _ := os.Getwd()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)

	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			d := deadline.Load()
			if d != 0 && time.Now().UnixNano() > d {
				fmt.Fprintf(os.Stderr, "\nDRIVER-HANG %v\n", current.Load())
				os.Exit(97)
			}
		}
	}()

	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var c Case
			if e := json.Unmarshal(line, &c); e != nil {
				fmt.Fprintln(os.Stderr, "DRIVER-ERROR bad case:", e)
				os.Exit(96)
			}
			obs := runCase(&c, home, limit)
			b, e := json.Marshal(map[string]any{"id": c.ID, "obs": obs})
			if e != nil {
				fmt.Fprintln(os.Stderr, "DRIVER-ERROR", e)
				os.Exit(96)
			}
			out.Write(b)
			out.WriteByte('\n')
			out.Flush()
		}
		if err != nil {
			break
		}
	}
}

func prepare(c *Case) {
	if len(c.Root) == 0 {
		return
	}
	root := string(c.Root)
	must(os.MkdirAll(root, 0o755))
	place(root, c.Fs)
	must(os.Chdir(root))
}

// place writes files below the scratch directory of a case
func place(root string, files []File) {
	for _, f := range files {
		p := filepath.Join(root, string(f.P))
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		switch f.Kind {
		case "file":
			must(os.WriteFile(p, f.C, 0o644))
		case "link": // a readable file reached through a symbolic link
			must(os.MkdirAll(root+"/.targets", 0o755))
			t := fmt.Sprintf("%s/.targets/%x", root, []byte(f.P))
			must(os.WriteFile(t, f.C, 0o644))
			os.Remove(p)
			must(os.Symlink(t, p))
		case "dir":
			must(os.MkdirAll(p, 0o755))
		case "bad": // cannot be read: a link to a directory
			os.Remove(p)
			must(os.Symlink(root, p))
		case "gone":
			must(os.Remove(p))
		default:
			must(fmt.Errorf("unknown kind of file %q", f.Kind))
		}
	}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "DRIVER-ERROR", err)
		os.Exit(96)
	}
}

func runCase(c *Case, home string, limit time.Duration) []Obs {
	prepare(c)
	defer os.Chdir(home)
	sets = nil
	scratch = string(c.Root)
	res := []Obs{}
	verbose := os.Getenv("DRIVER_VERBOSE") != ""
	for i, s := range c.Steps {
		at := fmt.Sprintf("%s %d", c.ID, i)
		current.Store(at)
		if verbose {
			fmt.Fprintf(os.Stderr, "\nDRIVER-AT %s\n", at)
		}
		deadline.Store(time.Now().Add(limit).UnixNano())
		res = append(res, runStep(s))
		deadline.Store(0)
	}
	return res
}
