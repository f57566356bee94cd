package main

// Contract files. One block per function:
//
//	func tsonpatch.ApplyPatch(doc, patch) -> (t, err)
//	  requires: <verus expr>
//	  ensures[C11]: <verus expr>
//	  ...
//
// A clause runs until the next line that starts with a keyword at two-space
// indentation (four spaces for loop clauses).

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type Clause struct {
	Tags []string
	Text string
	Name string
}

type LoopSpec struct {
	Inv, XInv, Ens []Clause
	Maybe          []Clause // guesses: Name is the type of the variable $
	Dec            string
	Entry, Exit    string // proof statements at the start/end of the body
	Before, After  string
}

type Contract struct {
	Key        string
	Params     []string
	Results    []string
	Req, Ens   []Clause
	Dec        string
	Pure       string // non-empty: result expression, function has no effect
	Entry, Ret string
	Loops      map[int]*LoopSpec
	CallBefore map[string]string // "callee#n" -> proof statements before the call
	CallAfter  map[string]string
	Owns       map[string]bool // slice/map params handed over by the caller
	Fresh      bool            // container results are fresh
	External   bool            // contract assumed, body not verified (listed)
	Why        string
	NoTerm     bool
	Files      bool // reads and writes the file system, a hidden in-out parameter "disk"
	Attrs      []string
	Locals     []string
	File       string
}

var headRe = regexp.MustCompile(`^func ([\w.]+)\(([^)]*)\)(?: -> \(([^)]*)\))?\s*$`)
var clauseRe = regexp.MustCompile(`^(  |    )([a-z]+)(?:\[([^\]]*)\])?(?: ([\w.#<>,]+))?:(.*)$`)

func splitNames(s string) []string {
	var r []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			r = append(r, x)
		}
	}
	return r
}

func parseContracts(dir string) (map[string]*Contract, error) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.vc"))
	sort.Strings(files)
	res := map[string]*Contract{}
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		var c *Contract
		var loop *LoopSpec
		var app func(string)
		for ln, line := range strings.Split(string(data), "\n") {
			if strings.HasPrefix(line, "#") {
				continue
			}
			if m := headRe.FindStringSubmatch(line); m != nil {
				c = &Contract{Key: m[1], Params: splitNames(m[2]), Results: splitNames(m[3]), Loops: map[int]*LoopSpec{},
					CallBefore: map[string]string{}, CallAfter: map[string]string{}, Owns: map[string]bool{}, File: filepath.Base(f)}
				if res[c.Key] != nil {
					return nil, fmt.Errorf("%s:%d: duplicate contract %s", f, ln+1, c.Key)
				}
				res[c.Key] = c
				loop, app = nil, nil
				continue
			}
			if m := clauseRe.FindStringSubmatch(line); m != nil && c != nil {
				ind, kw, tags, arg, rest := m[1], m[2], splitNames(m[3]), m[4], strings.TrimSpace(m[5])
				if ind == "  " {
					loop = nil
				}
				known := true
				if loop != nil && ind == "    " {
					l := loop
					switch kw {
					case "invariant":
						l.Inv = append(l.Inv, Clause{Tags: tags, Text: rest, Name: arg})
						i := len(l.Inv) - 1
						app = func(s string) { l.Inv[i].Text += "\n" + s }
					case "xinvariant":
						l.XInv = append(l.XInv, Clause{Tags: tags, Text: rest, Name: arg})
						i := len(l.XInv) - 1
						app = func(s string) { l.XInv[i].Text += "\n" + s }
					case "maybe":
						l.Maybe = append(l.Maybe, Clause{Tags: tags, Text: rest, Name: arg})
						i := len(l.Maybe) - 1
						app = func(s string) { l.Maybe[i].Text += "\n" + s }
					case "ensures":
						l.Ens = append(l.Ens, Clause{Tags: tags, Text: rest, Name: arg})
						i := len(l.Ens) - 1
						app = func(s string) { l.Ens[i].Text += "\n" + s }
					case "decreases":
						l.Dec = rest
						app = func(s string) { l.Dec += "\n" + s }
					case "entry":
						l.Entry += tagged(tags, rest)
						app = func(s string) { l.Entry += "\n" + s }
					case "exit":
						l.Exit += tagged(tags, rest)
						app = func(s string) { l.Exit += "\n" + s }
					case "before":
						l.Before += tagged(tags, rest)
						app = func(s string) { l.Before += "\n" + s }
					case "after":
						l.After += tagged(tags, rest)
						app = func(s string) { l.After += "\n" + s }
					default:
						known = false
					}
				} else if ind == "  " {
					cc := c
					switch kw {
					case "requires":
						c.Req = append(c.Req, Clause{Tags: tags, Text: rest, Name: arg})
						i := len(c.Req) - 1
						app = func(s string) { cc.Req[i].Text += "\n" + s }
					case "ensures":
						c.Ens = append(c.Ens, Clause{Tags: tags, Text: rest, Name: arg})
						i := len(c.Ens) - 1
						app = func(s string) { cc.Ens[i].Text += "\n" + s }
					case "decreases":
						c.Dec = rest
						app = func(s string) { cc.Dec += "\n" + s }
					case "pure":
						c.Pure = rest
						app = func(s string) { cc.Pure += "\n" + s }
					case "entry":
						c.Entry += tagged(tags, rest)
						app = func(s string) { cc.Entry += "\n" + s }
					case "ret":
						c.Ret += tagged(tags, rest)
						app = func(s string) { cc.Ret += "\n" + s }
					case "owns":
						for _, n := range splitNames(rest) {
							c.Owns[n] = true
						}
					case "fresh":
						c.Fresh = true
					case "external":
						c.External = true
						c.Why = rest
					case "noterm":
						c.NoTerm = true
					case "files":
						c.Files = true
					case "attr":
						c.Attrs = append(c.Attrs, rest)
					case "before":
						c.CallBefore[arg] += tagged(tags, rest)
						app = func(s string) { cc.CallBefore[arg] += "\n" + s }
					case "after":
						c.CallAfter[arg] += tagged(tags, rest)
						app = func(s string) { cc.CallAfter[arg] += "\n" + s }
					case "loop":
						var n int
						if _, err := fmt.Sscanf(arg, "%d", &n); err != nil {
							return nil, fmt.Errorf("%s:%d: bad loop number %q", f, ln+1, arg)
						}
						loop = &LoopSpec{}
						c.Loops[n] = loop
					default:
						known = false
					}
				} else {
					known = false
				}
				if known {
					continue
				}
			}
			if strings.TrimSpace(line) == "" {
				continue
			}
			if app == nil {
				return nil, fmt.Errorf("%s:%d: unexpected line %q", f, ln+1, line)
			}
			app(line)
		}
	}
	return res, nil
}

// tagged starts a proof hint, which may belong to some properties only.
func tagged(tags []string, s string) string { return "\x00" + strings.Join(tags, ",") + "\x00" + s }
