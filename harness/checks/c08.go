package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/zz_verif/mc"
)

func init() {
	register(&mc.Check{
		ID: "C08",
		Rule: "a state is a text with a way to deliver it; for 14 texts of up to 10 bytes all compositions into reads, for all corpus queries, 50 rejected texts and long ones of up to 200000 bytes every split in two, bytewise, blockwise, with empty reads and with data together with the end, by readers with further methods (length, copying, seeking, single bytes); " +
			"and a failing read after every byte, alone or together with data, with ten kinds of error. Tree or error is compared with parsing the text at once",
		Light: true,
		Need:  []string{"same tree", "same error", "failure reported"},
		Run:   runC08,
	})
}

// delivery is a reader that hands out text in the given pieces and then fails.
type delivery struct {
	text   string
	cuts   []int // ends of the pieces
	empty  int   // empty reads before each piece
	joined bool  // the final error comes with the last piece
	err    error
	at, k  int
	idle   int
	short  bool
}

func (d *delivery) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if d.at == len(d.text) {
		return 0, d.err
	}
	if d.idle < d.empty {
		d.idle++
		return 0, nil
	}
	for d.k < len(d.cuts) && d.cuts[d.k] <= d.at {
		d.k++
	}
	end := len(d.text)
	if d.k < len(d.cuts) {
		end = d.cuts[d.k]
	}
	n := copy(p, d.text[d.at:end])
	d.at += n
	if d.at == end {
		d.idle = 0
	}
	if d.at == len(d.text) && d.joined {
		return n, d.err
	}
	return n, nil
}

// Deliveries with further methods that readers often have.
type (
	sized   struct{ *delivery }
	written struct{ *delivery }
	seeking struct{ *delivery }
	byByte  struct{ *delivery }
)

func (s sized) Len() int    { return len(s.text) - s.at }
func (s sized) Size() int64 { return int64(len(s.text)) }

func (d written) WriteTo(w io.Writer) (int64, error) {
	total := int64(0)
	for {
		var p [8]byte
		n, err := d.Read(p[:])
		m, werr := w.Write(p[:n])
		total += int64(m)
		if werr != nil {
			return total, werr
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

// Seek works on a longer text, of which the beginning has been read already.
func (s seeking) Seek(offset int64, whence int) (int64, error) {
	const before = "zz:99 AND "
	all := before + s.text
	if strings.HasPrefix(s.text, before) {
		all = s.text
	}
	at := int64(s.at + len(all) - len(s.text))
	switch whence {
	case io.SeekStart:
		at = offset
	case io.SeekCurrent:
		at += offset
	case io.SeekEnd:
		at = int64(len(all)) + offset
	}
	if at < 0 || at > int64(len(all)) {
		return 0, errors.New("seek out of bounds")
	}
	if at != int64(s.at+len(all)-len(s.text)) {
		s.text, s.at, s.cuts = all, int(at), nil
	}
	return at, nil
}

func (d byByte) ReadByte() (byte, error) {
	var p [1]byte
	for {
		n, err := d.Read(p[:])
		if n == 1 {
			return p[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

type readErr struct{ s string }

func (e *readErr) Error() string { return e.s }

func runC08(r *mc.Run) {
	type job struct {
		text   string
		cuts   []int
		empty  int
		joined bool
		fail   error
		kind   int // further methods of the reader
	}
	one := func(w *mc.W, j job) {
		end := j.fail
		if end == nil {
			end = io.EOF
		}
		key := fmt.Sprintf("%q cut at %v empty %d joined %v then %q, kind %d", j.text, j.cuts, j.empty, j.joined, end, j.kind)
		w.Case(key, func() string {
			d := &delivery{text: j.text, cuts: j.cuts, empty: j.empty, joined: j.joined, err: end}
			n, err := parser.ParseQueryReader([]io.Reader{d, sized{d}, written{d}, seeking{d}, byByte{d}}[j.kind])
			w.Step(len(j.cuts) + 1)
			if j.fail != nil {
				if err == nil || n != nil {
					return fmt.Sprintf("the reader failed, but the tree is %s and the error %v", implCanon(n), err)
				}
				if !strings.Contains(err.Error(), j.fail.Error()) && !errors.Is(err, j.fail) {
					return fmt.Sprintf("the reader failed with %q, but the error is %q", j.fail, err)
				}
				w.Outcome("failure reported")
				return ""
			}
			n2, err2 := parser.ParseQuery(j.text)
			if fmt.Sprint(err) != fmt.Sprint(err2) {
				return fmt.Sprintf("error %v, at once %v", err, err2)
			}
			if err != nil {
				if n != nil {
					return "tree and error"
				}
				var a, b *parser.ParseError
				if errors.As(err, &a) != errors.As(err2, &b) || a != nil && (a.Pos() != b.Pos() || a.Message() != b.Message()) {
					return fmt.Sprintf("error %#v, at once %#v", err, err2)
				}
				w.Outcome("same error")
				return ""
			}
			if a, b := implCanon(n), implCanon(n2); a != b {
				return fmt.Sprintf("tree %s, at once %s", a, b)
			}
			if a, b := implPositions(n, nil), implPositions(n2, nil); fmt.Sprint(a) != fmt.Sprint(b) {
				return fmt.Sprintf("positions %v, at once %v", a, b)
			}
			w.Outcome("same tree")
			return ""
		})
		w.Trace()
	}
	bytewise := func(s string, step int) []int {
		var out []int
		for i := step; i < len(s); i += step {
			out = append(out, i)
		}
		return out
	}
	short := []string{"", "a", "a:1", "a:é", "a:\"é\"", "a:<=10", "a:/é/", "\xff:1", "a:\"\xc3", "!a:1", " a:1\n", "a:-1.5", "a:1 OR", "é:1 x"}
	mc.Each(r, func(yield func(job)) {
		for _, s := range short {
			n := len(s) - 1
			if n < 0 {
				n = 0
			}
			for m := 0; m < 1<<n; m++ {
				var cuts []int
				for i := 0; i < n; i++ {
					if m>>i&1 == 1 {
						cuts = append(cuts, i+1)
					}
				}
				for _, joined := range []bool{false, true} {
					for _, empty := range []int{0, 1} {
						yield(job{text: s, cuts: cuts, empty: empty, joined: joined})
						if empty == 0 {
							yield(job{text: s, cuts: cuts, joined: joined, fail: errors.New("disk on fire")})
						}
					}
				}
			}
		}
		texts := append([]string{}, corpus...)
		texts = append(texts, faulty...)
		texts = append(texts, "a:1 AND", "a:1 b", "(a:1", "a:\"x", "a:/x", "a:2020-13-01", "NOT", "a:1 AND\n\nb:?", "a", "a:", `"é":"大😀" AND é`, "a:\"\xf0\x9f\x98\"", "\xef\xbb\xbfa:1", "a:1\x00", strings.Repeat(" ", 30)+"a:1")
		for _, s := range texts {
			for i := 1; i < len(s); i++ {
				yield(job{text: s, cuts: []int{i}})
				yield(job{text: s, cuts: []int{i}, joined: true, empty: 1})
			}
			for kind := 1; kind <= 4; kind++ {
				for _, step := range []int{1, 3, 9, 1000} {
					for _, joined := range []bool{false, true} {
						yield(job{text: s, cuts: bytewise(s, step), joined: joined, kind: kind})
						yield(job{text: s, cuts: bytewise(s, step), joined: joined, empty: 1, kind: kind})
						yield(job{text: s, cuts: bytewise(s, step), joined: joined, kind: kind, fail: io.ErrClosedPipe})
					}
				}
			}
			yield(job{text: s, cuts: bytewise(s, 1)})
			yield(job{text: s, cuts: bytewise(s, 1), joined: true})
			yield(job{text: s, cuts: bytewise(s, 1), empty: 5})
			yield(job{text: s, cuts: bytewise(s, 2)})
			yield(job{text: s, cuts: bytewise(s, 3), empty: 1})
			for i := 0; i <= len(s); i++ {
				for _, e := range []error{errors.New("disk on fire"), &readErr{"unplugged"}, io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("cut off: %w", io.EOF), os.ErrDeadlineExceeded, context.Canceled, os.ErrClosed, io.ErrNoProgress, io.ErrShortBuffer} {
					yield(job{text: s[:i], fail: e})
					yield(job{text: s[:i], cuts: bytewise(s[:i], 4), fail: e, joined: true})
				}
			}
		}
	}, one)
	mc.EachBatch(r, 1, func(yield func(job)) {
		sizes := []int{511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097}
		if r.Thorough {
			sizes = append(sizes, 8191, 8192, 8193, 20000)
		}
		for _, n := range []int{32767, 32769, 65535, 65536, 65537, 70000, 131073, 200000} {
			a := `a:"` + strings.Repeat("x", n-4) + `"`
			b := strings.Repeat(" ", n-7) + "a:1 b:2"
			for _, s := range []string{a, a + " AND b:1", b, b[:n-4]} {
				yield(job{text: s})
				yield(job{text: s, cuts: bytewise(s, 4096)})
				yield(job{text: s, cuts: bytewise(s, 32768), joined: true})
				yield(job{text: s, fail: io.ErrUnexpectedEOF})
			}
		}
		for _, n := range sizes {
			a := `a:"` + strings.Repeat("x", n-5) + `"`
			b := `a:1` + strings.Repeat(" ", n-3)
			c := `"` + strings.Repeat("é", (n-8)/2) + `":1 OR b`
			for _, s := range []string{a[:n-1] + `"`, b, b + "AND b:é", c} {
				for _, step := range []int{1, 7, 64, 511, 512, 513, 1024, 4096} {
					for _, joined := range []bool{false, true} {
						yield(job{text: s, cuts: bytewise(s, step), joined: joined})
						yield(job{text: s, cuts: bytewise(s, step), joined: joined, empty: 2})
						yield(job{text: s, cuts: bytewise(s, step), joined: joined, fail: io.ErrUnexpectedEOF})
					}
				}
			}
		}
	}, one)
}
