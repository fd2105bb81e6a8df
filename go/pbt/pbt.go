// Package pbt is a small property-based-testing engine. Every random decision
// is a draw from a "choice tape"; a generated case is a pure function of (check
// name, seed, case index) and a replayed or shrunk case is a pure function of
// its tape. It mirrors /verif/cpp/pbt.hpp, and is driven by /verif/bin/check.
package pbt

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math/bits"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func Mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func Hash(data []byte) uint64 {
	h := uint64(1469598103934665603)
	for _, b := range data {
		h = (h ^ uint64(b)) * 1099511628211
	}
	return h
}

func HashString(s string) uint64 { return Hash([]byte(s)) }

type failure struct{ Sig, Msg string }

// Skip is raised by cases that are discarded.
type discard struct{}

// T is the context of one generated case.
type T struct {
	replay  bool
	state   uint64
	in      []uint64
	pos     int
	tape    []uint64
	out     *os.File
	Verbose bool

	labels     map[string]struct{}
	nontrivial bool
	key        uint64
	sample     func() string
	evals      int
}

// Draw returns a value in [0,n); n == 0 stands for the full 64-bit range.
func (t *T) Draw(n uint64) uint64 {
	var v uint64
	if t.replay {
		if t.pos < len(t.in) {
			v = t.in[t.pos]
		}
		t.pos++
		if n != 0 && v >= n {
			v = n - 1
		}
	} else {
		t.state += 0x9e3779b97f4a7c15
		v = Mix(t.state)
		if n != 0 {
			v, _ = bits.Mul64(v, n)
		}
	}
	t.tape = append(t.tape, v)
	if len(t.tape) > 4_000_000 {
		panic("pbt: runaway generator")
	}
	if t.out != nil {
		fmt.Fprintln(t.out, v)
	}
	return v
}

func (t *T) N(n int) int              { return int(t.Draw(uint64(n))) }
func (t *T) Range(lo, hi int) int     { return lo + int(t.Draw(uint64(hi-lo+1))) }
func (t *T) U64() uint64              { return t.Draw(0) }
func (t *T) Byte() byte               { return byte(t.Draw(256)) }
func (t *T) Bool() bool               { return t.Draw(2) == 1 }
func (t *T) Chance(num, den int) bool { return t.Draw(uint64(den)) >= uint64(den-num) }

// Weighted returns an index, chosen with the given weights.
func (t *T) Weighted(w ...int) int {
	tot := 0
	for _, x := range w {
		tot += x
	}
	v := t.N(tot)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

func (t *T) Bytes(n int) []byte {
	res := make([]byte, n)
	for i := 0; i < n; i += 8 {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], t.Draw(0))
		copy(res[i:], b[:])
	}
	return res
}

func Pick[E any](t *T, list []E) E { return list[t.N(len(list))] }

func (t *T) Label(s string) { t.labels[s] = struct{}{} }
func (t *T) Labelf(f string, a ...any) {
	t.labels[fmt.Sprintf(f, a...)] = struct{}{}
}

// NonTrivial marks the case; key identifies it for counting distinct ones.
func (t *T) NonTrivial(key uint64) { t.nontrivial, t.key = true, key }

// Sample sets the description of the case.
func (t *T) Sample(f func() string) { t.sample = f }

// Failf reports that the property does not hold for this case.
func (t *T) Failf(sig, format string, args ...any) {
	panic(failure{sig, fmt.Sprintf(format, args...)})
}

func (t *T) Check(cond bool, sig, format string, args ...any) {
	if !cond {
		t.Failf(sig, format, args...)
	}
}

// Discard drops the case.
func (t *T) Discard() { panic(discard{}) }

func (t *T) Tape() []uint64 { return t.tape }

type Check func(*T)

func runCase(fn Check, t *T) (fail *failure, dropped bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case failure:
				fail = &x
			case discard:
				dropped = true
			default:
				// a panic of the code under test (or of the harness)
				stack := string(debug.Stack())
				fail = &failure{"panic: " + firstFrame(stack) + ": " + clean(fmt.Sprint(r)), fmt.Sprintf("panic: %v\n%s", r, trimStack(stack))}
			}
		}
	}()
	fn(t)
	return nil, false
}

func clean(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	var b strings.Builder
	for _, r := range s { // numbers vary between otherwise equal failures
		if r >= '0' && r <= '9' {
			continue
		}
		b.WriteRune(r)
	}
	if b.Len() > 80 {
		return b.String()[:80]
	}
	return b.String()
}

// firstFrame names the function that panicked.
func firstFrame(stack string) string {
	lines := strings.Split(stack, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && !strings.HasPrefix(l, "\t") && !strings.HasPrefix(l, "runtime.") {
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			return l[strings.LastIndexByte(l, '/')+1:]
		}
	}
	return "?"
}

func trimStack(s string) string {
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 2500 {
		s = s[:2500]
	}
	return s
}

func newT() *T { return &T{labels: map[string]struct{}{}} }

func runTape(fn Check, tape []uint64) (*T, *failure) {
	t := newT()
	t.replay = true
	t.in = tape
	f, _ := runCase(fn, t)
	return t, f
}

func shrink(fn Check, tape []uint64, sig string, limit time.Duration) []uint64 {
	end := time.Now().Add(limit)
	over := func() bool { return time.Now().After(end) }
	attempt := func(c []uint64) bool {
		t, f := runTape(fn, c)
		if f != nil && f.Sig == sig {
			if len(t.tape) <= len(c) {
				tape = t.tape
			} else {
				tape = c
			}
			return true
		}
		return false
	}
	for progress := true; progress && !over(); {
		progress = false
		for size := max(1, len(tape)/2); size >= 1; size /= 2 {
			for i := 0; i+size <= len(tape) && !over(); {
				c := append(append([]uint64{}, tape[:i]...), tape[i+size:]...)
				if attempt(c) {
					progress = true
					continue
				}
				if size > 3 {
					i += size / 2
				} else {
					i++
				}
			}
		}
		for i := 0; i < len(tape) && !over(); i++ {
			if tape[i] == 0 {
				continue
			}
			c := append([]uint64{}, tape...)
			c[i] = 0
			if attempt(c) {
				progress = true
				continue
			}
			lo := uint64(0)
			for k := 0; k < 16 && i < len(tape) && lo+1 < tape[i] && !over(); k++ {
				c = append([]uint64{}, tape...)
				mid := lo + (tape[i]-lo)/2
				c[i] = mid
				if attempt(c) {
					progress = true
				} else {
					lo = mid
				}
			}
		}
	}
	return tape
}

type jsonFailure struct {
	Sig   string   `json:"sig"`
	Index uint64   `json:"index"`
	Msg   string   `json:"msg"`
	Case  string   `json:"case"`
	Tape  []string `json:"tape"`
}

type jsonResult struct {
	Evaluations uint64            `json:"evaluations"`
	Nontrivial  uint64            `json:"nontrivial"`
	Capped      bool              `json:"capped"`
	Labels      map[string]uint64 `json:"labels"`
	Samples     []string          `json:"samples"`
	Failures    []jsonFailure     `json:"failures"`
}

func (t *T) text() string {
	if t.sample == nil {
		return ""
	}
	res := ""
	func() {
		defer func() { _ = recover() }()
		res = t.sample()
	}()
	return res
}

// Main runs the command line interface over the given checks.
func Main(checks map[string]Check) {
	name := flag.String("check", "", "")
	seed := flag.Uint64("seed", 1, "")
	from := flag.Uint64("from", 0, "")
	stride := flag.Uint64("stride", 1, "")
	count := flag.Uint64("count", 1000, "")
	out := flag.String("out", "", "")
	cur := flag.String("cur", "", "")
	deadline := flag.Float64("deadline", 600, "")
	one := flag.Int64("one", -1, "")
	tapeout := flag.String("tapeout", "", "")
	tapein := flag.String("tapein", "", "")
	verbose := flag.Bool("verbose", false, "")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if *list {
		names := []string{}
		for k := range checks {
			names = append(names, k)
		}
		sort.Strings(names)
		fmt.Println(strings.Join(names, "\n"))
		return
	}
	fn, ok := checks[*name]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", *name)
		os.Exit(3)
	}
	debug.SetMaxStack(512 << 20)
	base := Mix(*seed ^ Mix(HashString(*name)))

	if *tapein != "" {
		f, err := os.Open(*tapein)
		if err != nil {
			panic(err)
		}
		tape := []uint64{}
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			v, err := strconv.ParseUint(strings.TrimSpace(sc.Text()), 10, 64)
			if err == nil {
				tape = append(tape, v)
			}
		}
		t, fail := runTape(fn, tape)
		if *verbose {
			fmt.Println(t.text())
		}
		finish(fail)
	}
	if *one >= 0 {
		t := newT()
		t.state = Mix(base ^ Mix(uint64(*one)))
		if *tapeout != "" {
			t.out, _ = os.Create(*tapeout)
		}
		fail, _ := runCase(fn, t)
		if *verbose {
			fmt.Println(t.text())
		}
		finish(fail)
	}

	if p := os.Getenv("PBT_PROFILE"); p != "" { // development only
		f, _ := os.Create(p)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	var curFile *os.File
	if *cur != "" {
		curFile, _ = os.Create(*cur)
	}
	start := time.Now()
	res := jsonResult{Labels: map[string]uint64{}, Samples: []string{}, Failures: []jsonFailure{}}
	keys := map[uint64]struct{}{}
	seen := map[string]bool{}
	maxFail := 4
	if n, err := strconv.Atoi(os.Getenv("PBT_MAXFAIL")); err == nil { // development only
		maxFail = n
	}
	for i := *from; i < *count; i += *stride {
		if curFile != nil {
			_, _ = curFile.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		}
		t := newT()
		t.state = Mix(base ^ Mix(i))
		fail, dropped := runCase(fn, t)
		if dropped {
			res.Labels["(discarded)"]++
		} else {
			res.Evaluations++
		}
		if t.nontrivial && !dropped {
			res.Nontrivial++
			keys[t.key] = struct{}{}
			if len(res.Samples) < 2 {
				if s := t.text(); s != "" {
					if len(s) > 1500 {
						s = s[:1500]
					}
					res.Samples = append(res.Samples, s)
				}
			}
		}
		for l := range t.labels {
			res.Labels[l]++
		}
		if fail != nil && !seen[fail.Sig] {
			seen[fail.Sig] = true
			tape := shrink(fn, t.tape, fail.Sig, 12*time.Second)
			t2, f2 := runTape(fn, tape)
			if f2 == nil || f2.Sig != fail.Sig {
				f2, tape = fail, t.tape
			}
			jf := jsonFailure{fail.Sig, i, f2.Msg, t2.text(), []string{}}
			for _, v := range tape {
				jf.Tape = append(jf.Tape, strconv.FormatUint(v, 10))
			}
			res.Failures = append(res.Failures, jf)
			if len(seen) >= maxFail {
				break
			}
		}
		if i&15 == 0 && time.Since(start).Seconds() > *deadline {
			res.Capped = true
			break
		}
	}
	data, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(*out, data, 0644); err != nil {
		panic(err)
	}
	buf := make([]byte, 0, 8*len(keys))
	for k := range keys {
		buf = binary.LittleEndian.AppendUint64(buf, k)
	}
	if err := os.WriteFile(*out+".keys", buf, 0644); err != nil {
		panic(err)
	}
	pprof.StopCPUProfile()
	os.Exit(0)
}

func finish(fail *failure) {
	if fail != nil {
		fmt.Printf("FAIL %s\n%s\n", fail.Sig, fail.Msg)
		os.Exit(1)
	}
	fmt.Println("PASS")
	os.Exit(0)
}
