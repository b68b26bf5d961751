// Package server checks the playground's development server.
package server

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/flowchartsman/aql/zz_verif/checks"
	"github.com/flowchartsman/aql/zz_verif/mc"
)

var All = []*mc.Check{{
	ID: "C33",
	Rule: "a state is a request to the real server, which runs in a scratch directory with 160 files beside, below and above the ones it serves (copies, versions and companions of them among others), each with a content of its own; all paths of up to 4 of 22 segments (names, dot segments, encodings, empty ones), all paths of up to 3 of 16 pieces, every edit of the served names with 30 characters, the full path of every file in 12 spellings, absolute and other request targets, ten methods, ranges and hosts; " +
		"each but the longest paths again with one of the served files missing; each served file with 15 sizes of up to 5 MB (thorough 17, 64 MB). The content, if any, has to be that of the file the path names",
	Light: true,
	Need:  []string{"file", "index", "redirect", "error", "other size"},
	Run:   run,
}}

var served = []string{"wasm_exec.js", "hwt.css", "style.css", "aqlparse.wasm"}

// contents are the files of the scratch directory; what is served is in pub.
var contents = map[string]string{
	"pub/index.html":             "<!doctype html>INDEX PAGE 0",
	"pub/wasm_exec.js":           "REGISTERED wasm_exec.js 1",
	"pub/hwt.css":                "REGISTERED hwt.css 2",
	"pub/style.css":              "REGISTERED style.css 3",
	"pub/aqlparse.wasm":          "REGISTERED aqlparse.wasm 4",
	"pub/secret.txt":             "OTHER 5",
	"pub/main.go":                "OTHER 6",
	"pub/.hidden":                "OTHER 7",
	"pub/style.css.bak":          "OTHER 8",
	"pub/sub/style.css":          "OTHER 9",
	"pub/sub/index.html":         "OTHER 10",
	"pub/sub/nested.txt":         "OTHER 11",
	"pub/server/main.go":         "OTHER 12",
	"outside.txt":                "OTHER 13",
	"style.css":                  "OTHER 14",
	"index.html":                 "OTHER 15",
	"secret.txt":                 "OTHER 16",
	"pub/..secret":               "OTHER 17",
	"pub/a b.txt":                "OTHER 18",
	"pub/Style.css":              "OTHER 19",
	"cwd/style.css":              "OTHER 20",
	"cwd/secret.txt":             "OTHER 21",
	"cwd/index.html":             "OTHER 22",
	"cwd/pub/style.css":          "OTHER 23",
	"pub/sub/deep/secret.txt":    "OTHER 24",
	"pub/wasm_exec.js.d/a":       "OTHER 25",
	"cwd/sub/style.css":          "OTHER 26",
	"pub/sub/aqlparse.wasm/x":    "OTHER 27",
	"pub/sub/deep/aqlparse.wasm": "OTHER 28",
}

func init() {
	// files that might be taken for those served
	n := len(contents)
	for _, f := range append([]string{"index.html"}, served...) {
		for _, form := range []string{"%s.map", "%s.gz", "%s.br", "%s.zst", "%s.orig", "%s.old", "%s.tmp", "%s~", "%s.txt", "%s.html", ".%s", "._%s", "#%s#", ".%s.swp", "_%s", "min.%s", "%s.LICENSE", "%s.1", "static/%s", "dist/%s", "assets/%s", "css/%s", "js/%s"} {
			name := "pub/" + fmt.Sprintf(form, f)
			if _, ok := contents[name]; !ok {
				contents[name] = fmt.Sprintf("OTHER %d", n)
				n++
			}
		}
	}
	for _, f := range []string{"favicon.ico", "robots.txt", "go.mod", "package.json", ".env", ".git/config", ".gitignore", "README.md", "LICENSE", "run.sh", "warnings.go", "main.js", "index.js", "app.js", "script.js", "main.css", "index.htm", "404.html", "main.wasm", "wasm_exec_node.js", "hwt.js", "hwt.min.css", "style.min.css", "server", "index"} {
		if f == "server" {
			continue
		}
		contents["pub/"+f] = fmt.Sprintf("OTHER %d", n)
		n++
	}
}

type server struct {
	cmd  *exec.Cmd
	addr string
	root string
	miss string // the served file that is missing
}

// start runs the server with its files in a directory of its own.
func start(bin, missing string, contents map[string]string) (*server, error) {
	root, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "root")
	if err != nil {
		return nil, err
	}
	for name, text := range contents {
		if name == "pub/"+missing {
			continue
		}
		p := filepath.Join(root, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return nil, err
		}
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			return nil, err
		}
	}
	s := &server{root: root, miss: missing}
	s.cmd = exec.Command(bin, filepath.Join(root, "pub"))
	s.cmd.Dir = filepath.Join(root, "cwd")
	var out bytes.Buffer
	s.cmd.Stdout, s.cmd.Stderr = io.Discard, &limited{&out}
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	died := make(chan bool)
	go func() { s.cmd.Wait(); close(died) }()
	for i := 0; i < 600; i++ {
		for _, port := range ports() {
			s.addr = fmt.Sprintf("127.0.0.1:%d", port)
			c, err := net.DialTimeout("tcp", s.addr, time.Second)
			if err == nil {
				c.Close()
				return s, nil
			}
		}
		select {
		case <-died:
			return nil, fmt.Errorf("the server ended: %s", out.String())
		case <-time.After(50 * time.Millisecond):
		}
	}
	return nil, fmt.Errorf("the server does not answer: %s", out.String())
}

// alone is whether the server has a network of its own.
func alone() bool { return os.Getenv("VERIF_ALONE") != "" }

// ports are those the server may be listening on.
func ports() []int {
	if !alone() {
		return []int{8080}
	}
	var ps []int
	for _, f := range []string{"/proc/self/net/tcp", "/proc/self/net/tcp6"} {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) > 3 && f[3] == "0A" {
				if p, err := strconv.ParseInt(f[1][strings.LastIndexByte(f[1], ':')+1:], 16, 32); err == nil {
					ps = append(ps, int(p))
				}
			}
		}
	}
	return ps
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 4096 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (s *server) stop() {
	s.cmd.Process.Kill()
	for i := 0; i < 100; i++ {
		c, err := net.DialTimeout("tcp", s.addr, time.Second)
		if err != nil {
			break
		}
		c.Close()
		time.Sleep(20 * time.Millisecond)
	}
	os.RemoveAll(s.root)
}

// send sends a request as it is and reads the answer; no answer is an error of
// the request.
func (s *server) send(method, target, headers string) (*http.Response, []byte, error) {
	c, err := net.DialTimeout("tcp", s.addr, 10*time.Second)
	if err != nil {
		return nil, nil, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	if _, err := fmt.Fprintf(c, "%s %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n%s\r\n", method, target, headers); err != nil {
		return nil, nil, err
	}
	resp, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: method})
	if err != nil {
		return nil, nil, nil
	}
	defer resp.Body.Close()
	body, _ := io.ReadAll(resp.Body)
	return resp, body, nil
}

func (s *server) ask(w *mc.W, method, target, headers string) {
	w.Case(fmt.Sprintf("%s %q %q missing %q", method, target, headers, s.miss), func() string {
		real := strings.ReplaceAll(target, "ROOT", s.root)
		resp, body, err := s.send(method, real, headers)
		w.Step(1)
		if err != nil {
			return fmt.Sprintf("the server cannot be reached: %v", err)
		}
		if resp == nil {
			w.Outcome("error")
			return ""
		}
		if strings.Contains(string(body), "OTHER ") {
			return fmt.Sprintf("another file's content %q", body)
		}
		// the name the path stands for
		name := ""
		if u, err := url.ParseRequestURI(real); err == nil {
			name = path.Clean("/" + u.Path)
		}
		switch {
		case resp.StatusCode == 200 || resp.StatusCode == 206:
			full, ok := "", false
			if name == "/" {
				full, ok = contents["pub/index.html"], true
				w.Outcome("index")
			} else {
				for _, f := range served {
					if name == "/"+f && f != s.miss {
						full, ok = contents["pub/"+f], true
						w.Outcome("file")
					}
				}
			}
			if method == "HEAD" {
				if !ok {
					return fmt.Sprintf("status %d for %s", resp.StatusCode, name)
				}
				return ""
			}
			if !ok || resp.StatusCode == 200 && string(body) != full {
				return fmt.Sprintf("status %d with %q for %s", resp.StatusCode, body, name)
			}
			if resp.StatusCode == 206 && !strings.Contains(full, string(body)) && !strings.Contains(string(body), full[:5]) {
				return fmt.Sprintf("the part %q is not one of %s", body, name)
			}
		case resp.StatusCode >= 300 && resp.StatusCode < 400:
			w.Outcome("redirect")
		case resp.StatusCode >= 400:
			w.Outcome("error")
		default:
			return fmt.Sprintf("status %d", resp.StatusCode)
		}
		return ""
	})
	w.Trace()
}

type request struct{ method, target, headers string }

func requests(n int, yield func(request)) {
	get := func(t string) { yield(request{"GET", t, ""}) }
	segments := []string{"", ".", "..", "%2e%2e", "%2E.", "..%2f", "%2e%2e%2fcwd", "style.css", "aqlparse.wasm", "secret.txt", "index.html", "sub", "pub", "cwd", "main.go", "server", "outside.txt", "style.css%00", "..%5c", "%00", "%252e%252e", "ROOT"}
	var rec func(prefix string, n int)
	rec = func(prefix string, n int) {
		for _, s := range segments {
			p := prefix + "/" + s
			get(p)
			if n > 1 {
				rec(p, n-1)
			}
		}
	}
	rec("", n)
	pieces := []string{"/", "//", "..", ".", "%2f", "%2e", "\\", "%5c", "style.css", "secret.txt", ";", "?", "#", "sub", "%", "~"}
	checks.Strs(pieces, 3, func(s string) { get("/" + s) })
	for _, f := range append([]string{"index.html", "secret.txt"}, served...) {
		get("/" + f)
		checks.Edits(f, checks.Chars("./%\\~ ;:?#&=+*a0-_S"), func(s string) {
			if !strings.Contains(s, " ") {
				get("/" + s)
			}
		})
		for _, m := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "FOO", "CONNECT", "TRACE", "PATCH"} {
			for _, t := range []string{"/" + f, "/", "//" + f, "/./" + f, "/sub/../" + f, "/sub/" + f, "/" + f + "/", "/" + f + "?x=1", "/" + f + "#a", "http://localhost/" + f, "http://other/" + f, f, "/../" + f, "/.", "//", "/..", "/sub/..", "/" + f + "/.."} {
				yield(request{m, t, ""})
				yield(request{m, t, "Range: bytes=0-3\r\n"})
			}
		}
		for _, h := range []string{"Range: bytes=5-\r\n", "Range: bytes=-3\r\n", "Range: bytes=0-1,3-4\r\n", "Range: bytes=9999-\r\n", "If-Modified-Since: Thu, 01 Jan 1970 00:00:00 GMT\r\n", "X-Original-URL: /secret.txt\r\n", "X-Forwarded-Path: /secret.txt\r\n", "Accept-Encoding: gzip\r\n"} {
			yield(request{"GET", "/" + f, h})
			yield(request{"GET", "/", h})
			yield(request{"GET", "/secret.txt", h})
		}
	}
	for name := range contents {
		slash := strings.ReplaceAll(name, "/", "%2f")
		for _, p := range []string{"ROOT/" + name, "//ROOT/" + name, "/" + name, "/../" + name, "/../../" + name, "/%2e%2e/" + name, "/..%2f" + slash, "/" + slash, "file://ROOT/" + name, "/ROOT%2f" + slash, "/pub/../" + name, "/?file=" + name, "/./" + strings.TrimPrefix(name, "pub/"), "/" + strings.TrimPrefix(name, "pub/"), "/" + strings.ToUpper(name), "/sub/" + path.Base(name), "/" + path.Base(name)} {
			get(strings.ReplaceAll(p, " ", "%20"))
		}
	}
	for _, t := range []string{"/etc/passwd", "//etc/passwd", "/../../../../../../etc/passwd", "/..%2f..%2f..%2f..%2f..%2fetc%2fpasswd", "/%2fetc%2fpasswd", "/proc/self/environ", "/dev/null"} {
		get(t)
	}
	for i := 1; i < 256; i++ {
		get("/" + fmt.Sprintf("%%%02x", i) + "style.css")
		get("/style.css" + fmt.Sprintf("%%%02x", i))
		get("/secret" + fmt.Sprintf("%%%02x", i) + ".txt")
		get("/sub" + fmt.Sprintf("%%%02x", i) + "style.css")
		get("/.." + fmt.Sprintf("%%%02x", i) + "secret.txt")
		if i > 32 && i != 127 {
			get("/" + string([]byte{byte(i)}) + "style.css")
			get("/sub" + string([]byte{byte(i)}) + "style.css")
		}
	}
	for _, n := range []int{1, 2, 3, 8, 16, 17, 40, 200} {
		get(strings.Repeat("/..", n) + "/secret.txt")
		get(strings.Repeat("/sub", n) + strings.Repeat("/..", n) + "/style.css")
		get(strings.Repeat("/", n) + "style.css")
		get("/" + strings.Repeat("%2e%2e%2f", n) + "secret.txt")
		get("/" + strings.Repeat("a", n*20) + ".css")
	}
}

func run(r *mc.Run) {
	bin := filepath.Join(os.Getenv("VERIF_TMP"), "bin-server")
	cmd := exec.Command("go", "build", "-o", bin, "./wasm/aqlparse/server")
	cmd.Dir = mc.Repo()
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "the server does not build: %v\n%s", err, out)
		os.Exit(3)
	}
	for i, missing := range append([]string{""}, served...) {
		s, err := start(bin, missing, contents)
		if err != nil {
			if alone() {
				r.Fail("start without "+missing, err.Error())
				return
			}
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		// what it has to serve
		r.One(func(w *mc.W) {
			for _, f := range append([]string{""}, served...) {
				want := contents["pub/"+f]
				if f == "" {
					want = contents["pub/index.html"]
				}
				f := f
				w.Case("served /"+f+" missing "+strconv.Quote(missing), func() string {
					resp, body, err := s.send("GET", "/"+f, "")
					w.Step(1)
					if err != nil || resp == nil {
						return fmt.Sprintf("no answer: %v", err)
					}
					if f != "" && f == missing {
						if resp.StatusCode < 400 {
							return fmt.Sprintf("status %d with %q for a missing file", resp.StatusCode, body)
						}
						return ""
					}
					if resp.StatusCode != 200 || string(body) != want {
						return fmt.Sprintf("status %d with %q, expected %q", resp.StatusCode, body, want)
					}
					return ""
				})
			}
			w.Trace()
		})
		mc.EachBatch(r, 32, func(yield func(request)) {
			n := 3
			if i > 0 {
				n--
			}
			if r.Thorough {
				n++
			}
			requests(n, yield)
		}, func(w *mc.W, q request) { s.ask(w, q.method, q.target, q.headers) })
		s.stop()
	}
	// files of all sizes
	sizes := []int{0, 1, 511, 512, 513, 1000, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 1 << 20, 5000000}
	if r.Deep {
		sizes = append(sizes, 20000000, 1<<26)
	}
	for _, n := range sizes {
		files := map[string]string{"pub/secret.txt": "OTHER"}
		for i, f := range append([]string{"index.html"}, served...) {
			b := make([]byte, n)
			for j := range b {
				b[j] = byte(j*(2*i+1) + j>>8 + i)
			}
			files["pub/"+f] = string(b)
		}
		files["cwd/x"] = ""
		s, err := start(bin, "", files)
		if err != nil {
			if alone() {
				r.Fail(fmt.Sprintf("start with files of %d bytes", n), err.Error())
				return
			}
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		r.One(func(w *mc.W) {
			for _, f := range append([]string{""}, served...) {
				name := f
				if f == "" {
					name = "index.html"
				}
				f, want := f, files["pub/"+name]
				w.Case(fmt.Sprintf("served /%s of %d bytes", f, n), func() string {
					resp, body, err := s.send("GET", "/"+f, "")
					w.Step(1)
					if err != nil || resp == nil {
						return fmt.Sprintf("no answer: %v", err)
					}
					if resp.StatusCode != 200 || string(body) != want {
						return fmt.Sprintf("status %d with %d bytes, expected the file's %d", resp.StatusCode, len(body), len(want))
					}
					w.Outcome("other size")
					return ""
				})
			}
			w.Trace()
		})
		s.stop()
	}
}
