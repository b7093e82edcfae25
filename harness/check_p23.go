package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
	"pgregory.net/rapid"
)

// WCall is a call of the JavaScript function.
type WCall struct {
	S    string `json:"s"`
	None bool   `json:"none,omitempty"` // without an argument
	Ver  bool   `json:"ver,omitempty"`  // getVersion instead of parseSoql
}

// WasmCase is a history of calls of one instance.
type WasmCase struct {
	Calls []WCall `json:"calls"`
}

type wout struct {
	R *string `json:"r"`
	T string  `json:"t"`
}

// node is the process that runs the WebAssembly build.
type node struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err bytes.Buffer
	n   int
}

var theNode *node

func startNode() (*node, error) {
	dir := os.Getenv("VERIF_WASM")
	if dir == "" {
		return nil, fmt.Errorf("VERIF_WASM is not set")
	}
	n := &node{}
	n.cmd = exec.Command("node", filepath.Join(dir, "wasm_driver.js"), dir, filepath.Join(dir, "wasm_exec.js"))
	n.cmd.Stderr = &n.err
	var err error
	if n.in, err = n.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := n.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	n.out = bufio.NewReaderSize(o, 1<<20)
	return n, n.cmd.Start()
}

func (n *node) stop() {
	n.in.Close()
	done := make(chan bool)
	go func() { n.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		n.cmd.Process.Kill()
		<-done
	}
}

// history runs the calls; a nil result means that the process has ended.
func (n *node) history(calls []WCall) ([]wout, error) {
	b, _ := json.Marshal(calls)
	if _, err := n.in.Write(append(b, '\n')); err != nil {
		return nil, nil
	}
	l, err := n.out.ReadBytes('\n')
	if err != nil {
		return nil, nil
	}
	var z []wout
	if err := json.Unmarshal(l, &z); err != nil {
		return nil, fmt.Errorf("driver: %v in %q", err, clip(string(l), 200))
	}
	return z, nil
}

func runHistory(calls []WCall) []wout {
	for try := 0; ; try++ {
		if theNode != nil && theNode.n >= 150 {
			theNode.stop()
			theNode = nil
		}
		if theNode == nil {
			n, err := startNode()
			if err != nil {
				fmt.Fprintln(os.Stderr, "cannot start node:", err)
				os.Exit(3)
			}
			theNode = n
		}
		theNode.n++
		z, err := theNode.history(calls)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		if z != nil {
			return z
		}
		theNode.stop()
		msg := theNode.err.String()
		theNode = nil
		if try == 2 {
			return []wout{{T: "the process dies: " + clip(msg, 2000)}}
		}
	}
}

var volatileLine = regexp.MustCompile(`(?m)^    "(date|elapsedTime)": [^\n]*\n`)

// libraryText is what the function has to return.
func libraryText(s string) (string, string) {
	q, err := parser.Parse(s)
	if err != nil {
		return err.Error(), "rejected"
	}
	b, err := json.MarshalIndent(q, "", "  ")
	if err != nil {
		// the value has no JSON form (KF1 of P18); the JavaScript function tells so
		_, e := json.Marshal(q)
		return e.Error(), "no JSON form"
	}
	return string(b), "accepted"
}

// wasmVersion is the version with which run.sh links the module.
const wasmVersion = "v1.2.3-verif"

func init() {
	p := defProp("P23",
		"histories of 1-24 calls of one instance of the WebAssembly build (run in node; a new instance per history): valid queries, edited queries, hostile and nested texts, Unicode, the empty text, calls without an argument, the version, repeated texts and texts that differ from an earlier one in case, spacing or a letter; each returned string must be the library's indented JSON (timestamps aside) or its error text; non-trivial: at least one accepted and one rejected text",
		1600, 60000,
		func(t *rapid.T) WasmCase {
			o := defOpts()
			o.NoDeep = true
			o.MaxQueries = 2
			o.KwNames = true
			g := &G{t: t, o: o}
			var c WasmCase
			for k := g.rng(1, 24); k > 0; k-- {
				var w WCall
				switch g.w(10, 8, 6, 4, 8, 2, 1) {
				case 0:
					w.S = layout(tokens(genQuery(t, o)), uint64(g.bits(8)))
				case 1:
					w.S, _ = g.edited()
				case 2:
					w.S, _ = g.anyText()
				case 3:
					s := pick(g, hostile)
					w.S = pick(g, []string{s, "select a from b where x = " + s, "select " + s + " from b", "select a from b where x = '" + s + "'"})
				case 4:
					if len(c.Calls) > 0 {
						w = pick(g, c.Calls)
						if !w.None && !w.Ver && g.p(60) {
							w.S = g.variant(w.S)
						}
					}
				case 5:
					w.None = true
				default:
					w.Ver = true
				}
				if strings.Count(strings.ToLower(w.S), "select") > 5 {
					// the size of the JSON form is exponential in the nesting of conditional subqueries
					w.S = g.soup()
					if strings.Count(strings.ToLower(w.S), "select") > 5 {
						w.S = "select"
					}
				}
				w.S = strings.ToValidUTF8(w.S, "\ufffd")
				c.Calls = append(c.Calls, w)
			}
			return c
		}, checkP23,
		func(c WasmCase) string { b, _ := json.Marshal(c.Calls); return string(b) })
	p.NeedWasm = true
	p.fixed = func() []any {
		return []any{WasmCase{[]WCall{{None: true}, {S: ""}, {S: "select a from b"}, {S: "select a from"}, {S: "select a from b where x = nan"}, {S: "select a from b where x = 'あ😀\\n'"}, {None: true}, {Ver: true}, {S: "select a from b"}}}}
	}
}

func checkP23(c WasmCase, o *Obs) error {
	if runtime.GOOS == "js" {
		return nil
	}
	rs := runHistory(c.Calls)
	acc, rej := false, false
	for i, w := range c.Calls {
		s := w.S
		if w.None {
			s = ""
			o.label("call without an argument")
		}
		want, kind := wasmVersion, "version"
		if !w.Ver {
			want, kind = libraryText(s)
		}
		o.label(kind)
		acc = acc || kind == "accepted"
		rej = rej || kind == "rejected"
		if i >= len(rs) {
			return fmt.Errorf("call %d: no result", i)
		}
		if rs[i].R == nil {
			return fmt.Errorf("call %d: %s", i, rs[i].T)
		}
		got := *rs[i].R
		if kind == "accepted" {
			got = volatileLine.ReplaceAllString(got, "")
			want = volatileLine.ReplaceAllString(want, "")
		} else {
			// strings of JavaScript are valid Unicode
			want = strings.ToValidUTF8(want, "\ufffd")
			got = strings.ToValidUTF8(got, "\ufffd")
		}
		if got != want {
			return fmt.Errorf("call %d (%q): %s", i, clip(s, 200), firstDiff(want, got))
		}
	}
	if acc && rej {
		o.nt()
	}
	return nil
}
