// Package regen checks that the parser is the one its grammar file describes.
package regen

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"

	"github.com/flowchartsman/aql/zz_verif/checks"
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

var All = []*mc.Check{{
	ID: "C34",
	Rule: "a state is a text parsed by two programs, one with the parser of the working tree and one with the parser generated from the grammar file in this run; all texts of up to 3 (thorough 4) of 34 tokens, all texts of up to 4 (5) of 16 characters, every edit of every query of the corpus with 40 characters, all trees of up to 3 (4) comparisons in six layouts, " +
		"literals of every kind (1200 to 4000 spellings, valid and invalid), chains, lists and nestings of up to 60. The trees with all positions and the positions of errors are compared",
	Assumptions: []string{"texts of error messages are not compared"},
	Need:        []string{"tree", "error"},
	Run:         run,
}}

func trouble(v ...any) {
	fmt.Fprintln(os.Stderr, v...)
	os.Exit(3)
}

var directive = regexp.MustCompile(`(?m)^//go:generate\s+(?:go\s+run\s+\S*)?pigeon(?:@\S+)?\s+(.*)$`)

// grammarOf finds the grammar file and what is generated from it.
func grammarOf(repo string) (dir string, args []string, grammar, out string) {
	filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") || out != "" {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		m := directive.FindSubmatch(b)
		if m == nil {
			return nil
		}
		fields := strings.Fields(string(m[1]))
		dir = filepath.Dir(path)
		for i := 0; i < len(fields); i++ {
			switch f := fields[i]; {
			case f == "-o" || f == "--o":
				if i+1 < len(fields) {
					out = fields[i+1]
				}
				i++
			case strings.HasPrefix(f, "-o="):
				out = f[3:]
			case i == len(fields)-1:
				grammar = f
			default:
				args = append(args, f)
			}
		}
		return nil
	})
	return
}

// program is a running regenrun.
type program struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errs bytes.Buffer
}

func start(file string) (*program, error) {
	p := &program{cmd: exec.Command(file)}
	p.cmd.Stderr = &p.errs
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.out = bufio.NewReaderSize(out, 1<<16)
	return p, p.cmd.Start()
}

func (p *program) send(text string) error {
	b := binary.LittleEndian.AppendUint32(nil, uint32(len(text)))
	_, err := p.in.Write(append(b, text...))
	return err
}

func (p *program) receive() (string, error) {
	var n uint32
	if err := binary.Read(p.out, binary.LittleEndian, &n); err != nil {
		return "", err
	}
	b := make([]byte, n)
	_, err := io.ReadFull(p.out, b)
	return string(b), err
}

func (p *program) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func run(r *mc.Run) {
	tmp := os.Getenv("VERIF_TMP")
	dir, args, grammar, out := grammarOf(mc.Repo())
	if out == "" || grammar == "" {
		// there is no generated parser to be compared
		r.Set("grammar", "none")
		r.Incomplete()
		return
	}
	build := func(what, overlay, pkg string) error {
		cmd := exec.Command("go", "build", "-modfile="+filepath.Join(tmp, "go.mod"), "-o", filepath.Join(tmp, what), pkg)
		if overlay != "" {
			cmd.Args = append(cmd.Args[:2], append([]string{"-overlay", overlay}, cmd.Args[2:]...)...)
		}
		cmd.Dir = mc.Repo()
		if text, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("%v\n%s", err, text)
		}
		return nil
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(mc.Repo(), f))
		if err != nil {
			trouble(err)
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0o644); err != nil {
			trouble(err)
		}
	}
	if err := build("pigeon", "", "github.com/mna/pigeon"); err != nil {
		trouble("the generator does not build:", err)
	}
	fresh := filepath.Join(tmp, "fresh.go")
	gen := exec.Command(filepath.Join(tmp, "pigeon"), append(append([]string{"-o", fresh}, args...), grammar)...)
	gen.Dir = dir
	if text, err := gen.CombinedOutput(); err != nil {
		r.Fail("the grammar file", fmt.Sprintf("no parser can be generated from it: %v\n%s", err, text))
		return
	}
	// the two programs
	var overlay struct{ Replace map[string]string }
	b, err := os.ReadFile(os.Getenv("VERIF_OVERLAY"))
	if err == nil {
		err = json.Unmarshal(b, &overlay)
	}
	if err != nil {
		trouble(err)
	}
	if err := build("old", os.Getenv("VERIF_OVERLAY"), "./zz_verif/cmd/regenrun"); err != nil {
		trouble("the parser does not build:", err)
	}
	overlay.Replace[filepath.Join(dir, out)] = fresh
	b, _ = json.Marshal(overlay)
	second := filepath.Join(tmp, "fresh.json")
	if err := os.WriteFile(second, b, 0o644); err != nil {
		trouble(err)
	}
	if err := build("new", second, "./zz_verif/cmd/regenrun"); err != nil {
		// what the rest of the package has become needs another grammar file
		fmt.Fprintln(os.Stderr, "the generated parser does not build:", err)
		r.Set("generated parser", "does not build")
		r.Incomplete()
		return
	}
	type pair struct{ old, new *program }
	pool := make(chan *pair, runtime.NumCPU())
	for i := 0; i < cap(pool); i++ {
		pool <- nil
	}
	defer func() {
		for i := 0; i < cap(pool); i++ {
			if p := <-pool; p != nil {
				p.old.stop()
				p.new.stop()
			}
		}
	}()
	ask := func(w *mc.W, text string) {
		w.Case(text, func() string {
			p := <-pool
			if p == nil {
				var err error
				p = &pair{}
				if p.old, err = start(filepath.Join(tmp, "old")); err == nil {
					p.new, err = start(filepath.Join(tmp, "new"))
				}
				if err != nil {
					panic(mc.Trouble{Err: err})
				}
			}
			err := p.old.send(text)
			if err == nil {
				err = p.new.send(text)
			}
			var a, b string
			if err == nil {
				a, err = p.old.receive()
			}
			if err == nil {
				b, err = p.new.receive()
			}
			w.Step(2)
			if err != nil {
				p.old.stop()
				p.new.stop()
				pool <- nil
				return fmt.Sprintf("a parser ended: %v\n%s\n%s", err, p.old.errs.String(), p.new.errs.String())
			}
			pool <- p
			if strings.HasPrefix(a, "error") {
				w.Outcome("error")
			} else {
				w.Outcome("tree")
			}
			if a != b {
				return fmt.Sprintf("parsed: %s\nby the parser generated from the grammar: %s", a, b)
			}
			return ""
		})
		w.Trace()
	}
	n := 0
	if r.Thorough {
		n = 1
	}
	mc.Each(r, func(yield func(string)) {
		for _, q := range checks.Corpus {
			yield(q)
			checks.Edits(q, checks.Chars("aZ09_-.,:()\"/\\*!<>=~ \n\t\r&{[+TtzZxeéÉ大😀Kİ\x00\x7f"), yield)
		}
	}, ask)
	mc.Each(r, func(yield func(string)) {
		checks.Strs([]string{"a", "1", ":", " ", "(", ")", ",", `"`, "/", "!", "<", "=", "~", "*", ".", "-"}, 4+n, yield)
		checks.Strs([]string{"a", "*", `"b"`, ".", ":", "1", "1.5", "-2", `"x"`, "true", "/r/", "1.2.3.4", "/8", "2020-01-02", "T03:04:05Z", "exists", "null", "<", ">", "=", "~", "(", ")", ",", " ", "\n", "AND", "OR", "NOT", "!", `"`, "/", `\`, "é"}, 3+n, yield)
	}, ask)
	mc.Each(r, func(yield func(string)) {
		for k := 1; k <= 3+n; k++ {
			checks.Trees(k, true, func(t *ref.Node) {
				for layout := 0; layout < 6; layout++ {
					yield(checks.Write(t, layout, func(i int) string { return fmt.Sprintf("f%d:%d", i, i) }))
				}
			})
		}
		for _, k := range []int{2, 3, 5, 8, 9, 16, 17, 33, 60} {
			var chain, list []string
			nest := "a:1"
			for i := 0; i < k; i++ {
				chain = append(chain, fmt.Sprintf("a%d:%d", i, i))
				list = append(list, []string{fmt.Sprint(i), fmt.Sprintf("/w%d.*/", i), fmt.Sprintf(`"é%d"`, i)}[i%3])
				nest = "!(" + nest + ")"
			}
			for _, q := range []string{strings.Join(chain, " AND "), strings.Join(chain, "\nOR "), "a:(" + strings.Join(list, ",") + ")", nest} {
				yield(q)
				yield(q[:len(q)-1])
				yield(q[:len(q)/2])
			}
			yield(strings.Repeat("(", k))
			yield(strings.Repeat("x", k*100) + ":1")
			yield(strings.Repeat("x.", k) + "y:1")
		}
	}, ask)
	mc.Each(r, func(yield func(string)) {
		lit := func(s string) {
			yield("a:" + s)
			yield("a:(1, " + s + ")")
			yield("b:><(" + s + ",9)")
		}
		for _, c := range checks.Chars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~ \t\n\r\x00\x01\x1f\x7fé大😀İıſK ") {
			lit(`"` + c + `"`)
			lit(`"\` + c + `"`)
			lit(`"\u00` + c + `0"`)
			lit(`"\u` + c + `c41"`)
			lit("/" + c + "/")
			lit(`/\` + c + "/")
			lit("1" + c)
			lit("1." + c)
			lit("1.2.3." + c)
			lit("1.2.3.4/" + c)
			lit("2020-01-0" + c)
			lit("2020-01-02" + c + "03:04:05Z")
			lit("2020-01-02T03:04:05" + c)
			lit("2020-01-02T03:04:05" + c + "01:00")
			lit("2020-01-02T03:04:05.1" + c)
			lit(c + "rue")
			lit("tru" + c)
			yield(c + ":1")
			yield(`"` + c + `":1`)
			yield("a" + c + "b:1")
			yield("a:" + c + "1")
			yield("a:" + c + "=1")
			yield("a:1 " + c + "ND b:2")
			yield("a:1" + c + "AND b:2")
			yield("a:1 AND" + c + "b:2")
			yield("NOT" + c + "a:1")
			yield(c + " a:1")
		}
		for i := 0; i < 300; i++ {
			lit(fmt.Sprintf("%d.2.3.4", i))
			lit(fmt.Sprintf("1.2.3.%d/%d", i, i%40))
			if i < 100 {
				lit(fmt.Sprintf("2020-%02d-28", i))
				lit(fmt.Sprintf("2020-02-%02d", i))
				lit(fmt.Sprintf("2020-02-03T%02d:01:02Z", i))
				lit(fmt.Sprintf("2020-02-03T01:%02d:02+01:%02d", i, i))
			}
			if i < 40 {
				lit(strings.Repeat("9", i+1))
				lit("-" + strings.Repeat("9", i+1) + "." + strings.Repeat("1", i+1))
			}
		}
	}, ask)
}
