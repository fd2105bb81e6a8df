// Command drv checks the conformance testing tool (go/ct/driver) as a whole: it is run on an implementation and a
// specification which deviate from each other in chosen states, and must report exactly these.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"pgregory.net/rand"

	"verif/cttool"
	"verif/pbt"
)

func main() {
	pbt.Main(map[string]pbt.Check{
		"tool-run":         toolRun,
		"tool-regressions": toolRegressions,
		"tool-probe":       toolProbe,
		"tool-spec":        toolSpec,
	})
}

type sized struct {
	rule rlz.Rule
	n    int
}

// small are the rules with few test cases.
var small = func() (res []sized) {
	if os.Getenv("CT_DRIVER") == "" {
		return
	}
	for _, r := range spc.Spec.GetRules() {
		if n := casesOf(r); n <= 250 {
			res = append(res, sized{r, n})
		}
	}
	slices.SortFunc(res, func(a, b sized) int { return strings.Compare(a.rule.Name, b.rule.Name) })
	if len(res) < 20 {
		panic("the specification lacks small rules")
	}
	return
}()

func casesOf(r rlz.Rule) int {
	i := r.GetTestCaseEnumerationInfo()
	return i.TotalNumberOfCases()
}

// result is what a run of the tool gave.
type result struct {
	code     int
	out, err string
	dir      string // scratch folder
}

// tool runs the tool.
func tool(t *pbt.T, p cttool.Plan, dir string, args ...string) result {
	plan, _ := json.Marshal(p)
	c := exec.Command(os.Getenv("CT_DRIVER"), args...)
	tmp := filepath.Join(dir, "tmp")
	if err := os.MkdirAll(tmp, 0o755); err != nil {
		panic(err)
	}
	c.Dir = dir
	c.Env = append(os.Environ(), cttool.Env+"="+string(plan), "TMPDIR="+tmp, "GOMAXPROCS=4")
	var out, errs bytes.Buffer
	c.Stdout, c.Stderr = &out, &errs
	c.WaitDelay = 5 * time.Second
	if err := c.Start(); err != nil {
		panic(err)
	}
	late := time.AfterFunc(80*time.Second, func() { c.Process.Kill() })
	err := c.Wait()
	if !late.Stop() {
		t.Failf("hang", "no end within 80 s: %v", args)
	}
	var x *exec.ExitError
	if err != nil && !errors.As(err, &x) {
		panic(err)
	}
	r := result{c.ProcessState.ExitCode(), out.String(), errs.String(), dir}
	if strings.Contains(r.err, "goroutine ") {
		t.Failf("crash", "%v: %s", args, cut(r.err))
	}
	return r
}

func cut(s string) string {
	if len(s) > 3000 {
		return s[:1500] + "\n...\n" + s[len(s)-1500:]
	}
	return s
}

func scratch() (string, func()) {
	d, err := os.MkdirTemp("", "drv")
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

// setting is a generated call of the tool.
type setting struct {
	plan   cttool.Plan
	spec   spc.Specification
	rules  []rlz.Rule // which the filter selects
	filter string
	match  func(string) bool
	seed   uint64
	full   bool
	args   []string
	jobs   int
}

func (s *setting) String() string {
	return fmt.Sprintf("rules %v, conflicting %v, filter %q, seed %d, full %v, %d jobs, deviation %d in 1 of %d states (spoil %v)",
		s.plan.Rules, s.plan.Conflict, s.filter, s.seed, s.full, s.jobs, s.plan.Mode, s.plan.Every, s.plan.Spoil)
}

// generate draws a specification, a filter, and options.
func generate(t *pbt.T) *setting {
	s := &setting{}
	left := 400
	for n := 1 + t.N(5); n > 0; n-- {
		r := pbt.Pick(t, small)
		if r.n > left || slices.Contains(s.plan.Rules, r.rule.Name) {
			continue
		}
		left -= r.n
		s.plan.Rules = append(s.plan.Rules, r.rule.Name)
	}
	s.plan.Every = pbt.Pick(t, []uint64{0, 1, 2, 3, 5, 10, 30, 100, 300})
	s.plan.Salt = t.U64()
	s.plan.Spoil = t.Bool()
	s.seed = t.U64()
	s.full = t.Bool()
	s.jobs = 1 + t.Weighted(2, 1, 1, 1, 1, 1, 1, 1)
	return s
}

// finish determines the arguments and the rules to be used.
func (s *setting) finish(t *pbt.T) {
	s.spec = s.plan.Spec()
	long := func(name, short string) string {
		if t.Bool() {
			return "--" + name
		}
		return "-" + short
	}
	switch t.Weighted(4, 3, 2, 1) {
	case 1:
		s.filter = "^" + regexp.QuoteMeta(pbt.Pick(t, s.plan.Rules)) + "$"
	case 2:
		s.filter = pbt.Pick(t, []string{"a", "^s", "regular|with", "[0-9]", "few", "s.*_", "e$"})
	case 3:
		s.filter = "no such rule"
	}
	if s.filter != "" {
		s.args = append(s.args, long("filter", "f"), s.filter)
	}
	m := regexp.MustCompile(s.filter)
	s.match = m.MatchString
	for _, r := range s.spec.GetRules() {
		if s.match(r.Name) {
			s.rules = append(s.rules, r)
		}
	}
	s.args = append(s.args, long("seed", "s"), fmt.Sprint(s.seed), long("jobs", "j"), fmt.Sprint(s.jobs))
	if s.full {
		s.args = append(s.args, "--full-mode")
	}
}

// states enumerates the test states.
func (s *setting) states(f func(*st.State)) {
	for _, r := range s.rules {
		err := r.EnumerateTestCases(rand.New(s.seed), func(state *st.State) rlz.ConsumerResult {
			if !s.full {
				if ok, err := r.Condition.Check(state); !ok || err != nil {
					return rlz.ConsumeContinue
				}
			}
			f(state)
			return rlz.ConsumeContinue
		})
		if err != nil {
			panic(err)
		}
	}
}

// tested reports whether a state tests the implementation.
func (s *setting) tested(state *st.State) bool {
	if !state.Code.IsCode(int(state.Pc)) {
		return false
	}
	for _, r := range s.spec.GetRulesFor(state) {
		if s.match(r.Name) {
			return true
		}
	}
	return false
}

// exported reads the states found in the scratch folder.
func exported(t *pbt.T, dir string) (files []string, got map[uint64]int) {
	got = map[uint64]int{}
	filepath.Walk(filepath.Join(dir, "tmp"), func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			state, err := st.ImportStateJSON(p)
			if err != nil {
				t.Failf("exported state", "%s cannot be imported: %v", p, err)
			}
			got[cttool.Hash(state)]++
			files = append(files, p)
		}
		return nil
	})
	return
}

func number(re, s string) int {
	m := regexp.MustCompile(re).FindStringSubmatch(s)
	if m == nil {
		return -1
	}
	n, _ := strconv.Atoi(m[1])
	return n
}

// toolRun: "run" reports exactly the states in which the implementation deviates, and exports them.
func toolRun(t *pbt.T) {
	dir, done := scratch()
	defer done()
	s := generate(t)
	s.plan.Mode = t.Weighted(6, 3, 3, 3, 3, 1)
	s.finish(t)
	limit := 100
	switch t.Weighted(3, 2, 2) {
	case 1:
		limit = pbt.Pick(t, []int{0, -1, 100000})
		s.args = append(s.args, "--max-errors", fmt.Sprint(limit))
		limit = 100000
	case 2:
		limit = 1 + t.N(40)
		s.args = append(s.args, "--max-errors", fmt.Sprint(limit))
	}
	vm := pbt.Pick(t, []string{"geth", "geth", "evmrs", "evmzero"})
	want := map[uint64]int{}
	total, tested, bad := 0, 0, 0
	s.states(func(state *st.State) {
		total++
		if s.tested(state) {
			tested++
			if s.plan.Deviates(state) {
				want[cttool.Hash(state)]++
				bad++
			}
		}
	})
	if tested > 0 {
		t.NonTrivial(pbt.HashString(s.String()))
	}
	t.Labelf("mode %d", s.plan.Mode)
	if bad > 0 {
		t.Labelf("deviations")
	}
	t.Sample(func() string { return fmt.Sprintf("%v, limit %d: %d states, %d tested, %d deviations", s, limit, total, tested, bad) })
	r := tool(t, s.plan, dir, append(append([]string{"run"}, s.args...), vm)...)
	desc := func() string {
		return fmt.Sprintf("%v, limit %d: %d states, %d tested, %d deviations\nexit code %d, printed %s\n%s", s, limit, total, tested, bad, r.code, cut(r.out), cut(r.err))
	}
	passed := strings.Contains(r.out, "All tests passed successfully!")
	_, got := exported(t, dir)
	if s.plan.Mode == cttool.Unsupported {
		n := number(`unsupported revision: (\d+)`, r.out)
		t.Check(n == bad || bad == 0 && n < 0, "unsupported tests", "%d tests reported as unsupported, should be %d\n%s", n, bad, desc())
		bad, want = 0, nil
	} else {
		t.Check(!strings.Contains(r.out, "unsupported revision:"), "unsupported tests", "there are none\n%s", desc())
	}
	t.Check(passed == (bad == 0), "verdict", "%v\n%s", passed, desc())
	t.Check((r.code == 0) == (bad == 0), "exit code", "%s", desc())
	n := number(`failed to pass (\d+) test cases`, r.err)
	if bad == 0 {
		t.Check(n < 0 && len(got) == 0, "issues without deviations", "%s", desc())
		return
	}
	lo, hi := bad, bad
	if bad >= limit {
		lo, hi = limit, min(bad, limit+s.jobs-1)
	}
	if s.plan.Mode == cttool.Panic {
		lo, hi = 1, min(bad, hi)
	}
	t.Check(lo <= n && n <= hi, "number of issues", "%d reported, should be %d to %d\n%s", n, lo, hi, desc())
	have := 0
	for h, k := range got {
		have += k
		t.Check(k <= want[h], "exported state", "state %x is exported %d times, but deviates %d times\n%s", h, k, want[h], desc())
	}
	t.Check(have == n, "number of exported states", "%d, should be %d\n%s", have, n, desc())
	if last := number(`total (\d+), found issues`, r.out[max(0, strings.LastIndex(r.out, "[t=")):]); bad < limit && s.plan.Mode != cttool.Panic {
		t.Check(last == total, "number of tests", "%d, should be %d\n%s", last, total, desc())
	}
}

// toolRegressions: exported states show the same deviations when they are run again.
func toolRegressions(t *pbt.T) {
	dir, done := scratch()
	defer done()
	s := generate(t)
	s.plan.Mode = t.Weighted(6, 3, 3, 3)
	s.spec, s.rules = s.plan.Spec(), nil
	s.rules = s.spec.GetRules()
	in := filepath.Join(dir, "in")
	var folders, inputs []string
	for i := 0; i < 3; i++ {
		d := filepath.Join(in, pbt.Pick(t, []string{"", "a", "b", "a/c", "a/c/d"}))
		folders = append(folders, d)
		os.MkdirAll(d, 0o755)
	}
	ok, failed, damaged, none := 0, 0, 0, 0
	type place struct {
		path            string
		ok, bad, no, im int
	}
	var places []place
	every := pbt.Pick(t, []int{1, 1, 2, 5})
	n := 0
	s.states(func(state *st.State) {
		if n++; n%every != 0 || len(places) >= 30 {
			return
		}
		p := place{path: filepath.Join(pbt.Pick(t, folders), fmt.Sprintf("state_%d.json", n))}
		if err := st.ExportStateJSON(state, p.path); err != nil {
			t.Failf("export", "%v", err)
		}
		if t.Chance(1, 25) {
			os.WriteFile(p.path, []byte("{"), 0o644)
			p.im = 1
		} else if rules := s.spec.GetRulesFor(state); len(rules) == 0 {
			p.no = 1
		} else if state.Code.IsCode(int(state.Pc)) {
			if s.plan.Deviates(state) {
				p.bad = len(rules)
			} else {
				p.ok = len(rules)
			}
		}
		places = append(places, p)
	})
	os.MkdirAll(in, 0o755)
	inputs = []string{in}
	if len(places) > 0 {
		switch t.N(4) {
		case 1: // a file
			inputs = []string{pbt.Pick(t, places).path}
		case 2: // a folder and a file
			inputs = []string{pbt.Pick(t, folders), pbt.Pick(t, places).path}
		}
	}
	var args []string
	for _, i := range inputs {
		if t.Bool() {
			i, _ = filepath.Rel(dir, i)
		}
		args = append(args, "--input", i)
	}
	for _, i := range inputs {
		for _, p := range places {
			if p.path == i || strings.HasPrefix(p.path, i+"/") {
				ok += p.ok
				failed += p.bad
				damaged += p.im
				none += p.no
			}
		}
	}
	if ok+failed > 0 {
		t.NonTrivial(pbt.HashString(s.String()) + uint64(ok*1000+failed))
	}
	t.Labelf("inputs %d", len(inputs))
	if failed > 0 {
		t.Labelf("failing")
	}
	t.Sample(func() string {
		return fmt.Sprintf("%v: %d files, inputs %d, %d should pass, %d fail", s, len(places), len(inputs), ok, failed)
	})
	r := tool(t, s.plan, dir, append(append([]string{"regressions"}, args...), "geth")...)
	count := func(s string) int { return len(regexp.MustCompile("(?m)^"+s).FindAllString(r.out, -1)) }
	for _, c := range []struct {
		what, line string
		want       int
	}{{"passing rules", `OK: \(rules evaluated`, ok}, {"failing rules", "Failed to evaluate rule", failed}, {"damaged files", "Failed to import state", damaged}, {"files without rules", "No rules apply", none}} {
		t.Check(count(c.line) == c.want, c.what, "%d, should be %d\n%v\ninputs %v\nexit code %d, printed %s\n%s", count(c.line), c.want, s, inputs, r.code, cut(r.out), cut(r.err))
	}
	t.Check(r.code == 0, "exit code", "%d: %s", r.code, r.err)
}

// toolProbe: random probing finds a deviating implementation, and an incomplete or inconsistent specification.
func toolProbe(t *pbt.T) {
	dir, done := scratch()
	defer done()
	s := generate(t)
	s.plan.Rules = nil
	kind := t.Weighted(4, 2, 2)
	s.plan.Every = pbt.Pick(t, []uint64{1, 3, 20, 200})
	s.plan.Mode = t.Weighted(4, 3, 3, 3)
	args := []string{"probe", "--seed", fmt.Sprint(s.seed), "--timeout", "0"}
	if kind == 0 && t.Chance(1, 20) {
		s.plan.Every = 0
	}
	if kind == 1 { // incomplete
		s.plan.Every = 0
		for n := 0; n < 3; n++ {
			s.plan.Rules = append(s.plan.Rules, pbt.Pick(t, small).rule.Name)
		}
	}
	if kind == 2 { // contradicting; rules which many states match
		s.plan.Conflict = []string{"stopped_is_end", "reverted_is_end", "failed_is_end"}
		for _, r := range spc.Spec.GetRules() {
			s.plan.Rules = append(s.plan.Rules, r.Name)
			if strings.HasSuffix(r.Name, "_with_too_little_gas") || strings.HasPrefix(r.Name, "INVALID") {
				s.plan.Conflict = append(s.plan.Conflict, r.Name)
			}
		}
		s.plan.Mode, s.plan.Every = 0, 2
	}
	t.NonTrivial(pbt.HashString(fmt.Sprint(kind, s.plan.Every, s.plan.Mode, s.seed, s.plan.Salt)))
	t.Labelf("kind %d", kind)
	t.Sample(func() string { return fmt.Sprintf("kind %d, every %d, mode %d, seed %d", kind, s.plan.Every, s.plan.Mode, s.seed) })
	r := tool(t, s.plan, dir, append(args, "geth")...)
	issues := number(`Issues found: (\d+)`, r.out)
	_, got := exported(t, dir)
	desc := func() string {
		return fmt.Sprintf("kind %d, every %d, mode %d, seed %d: exit code %d, %d states exported, printed %s\n%s", kind, s.plan.Every, s.plan.Mode, s.seed, r.code, len(got), cut(r.out), cut(r.err))
	}
	t.Check(r.code == 0, "exit code", "%s", desc())
	passed := strings.Contains(r.out, "All tests passed successfully!")
	if kind == 0 && s.plan.Every == 0 {
		t.Check(passed && issues == 0 && len(got) == 0, "issues without deviations", "%s", desc())
		return
	}
	t.Check(!passed && issues >= 1, "deviation missed", "%s", desc())
	sum := 0
	for _, k := range got {
		sum += k
	}
	t.Check(sum == issues, "number of exported states", "%s", desc())
	switch kind {
	case 1:
		t.Check(strings.Contains(r.out, "no rules for state"), "missing rules", "%s", desc())
	case 0:
		filepath.Walk(filepath.Join(dir, "tmp"), func(p string, i os.FileInfo, err error) error {
			if err == nil && !i.IsDir() {
				state, _ := st.ImportStateJSON(p)
				t.Check(s.plan.Deviates(state), "exported state", "does not deviate\n%s", desc())
			}
			return nil
		})
	}
}

// toolSpec: the commands on the specification itself: contradictions, statistics, lists.
func toolSpec(t *pbt.T) {
	dir, done := scratch()
	defer done()
	s := generate(t)
	cmd := t.Weighted(4, 3, 1, 1)
	if cmd == 0 {
		for _, r := range s.plan.Rules {
			if t.Bool() {
				s.plan.Conflict = append(s.plan.Conflict, r)
			}
		}
	}
	s.finish(t)
	t.Labelf("command %d", cmd)
	t.Sample(func() string { return fmt.Sprintf("command %d: %v", cmd, s) })
	t.NonTrivial(pbt.HashString(s.String()) + uint64(cmd))
	var r result
	desc := func() string {
		return fmt.Sprintf("%v\nexit code %d, printed %s\n%s", s, r.code, cut(r.out), cut(r.err))
	}
	lines := func() []string { return strings.Split(strings.TrimSuffix(r.out, "\n"), "\n") }
	switch cmd {
	case 0:
		bad := 0
		s.states(func(state *st.State) {
			seen := map[bool]bool{}
			for _, r := range s.spec.GetRulesFor(state) {
				seen[strings.HasSuffix(r.Name, "_again")] = true
			}
			if len(seen) == 2 && s.plan.Deviates(state) {
				bad++
			}
		})
		r = tool(t, s.plan, dir, append([]string{"test"}, s.args...)...)
		if bad > 0 {
			t.Labelf("contradictions")
		}
		t.Check(strings.Contains(r.out, "All tests passed successfully!") == (bad == 0), "contradictions", "%d are to be found\n%s", bad, desc())
		t.Check((r.code == 0) == (bad == 0), "exit code", "%d contradictions are to be found\n%s", bad, desc())
		if bad > 0 {
			t.Check(number(`failed to pass (\d+) test cases`, r.err) == bad, "number of contradictions", "%d are to be found\n%s", bad, desc())
		}
	case 1:
		want := map[string]int{}
		for _, r := range s.rules {
			want[r.Name] = 0
		}
		s.states(func(state *st.State) {
			for _, r := range s.spec.GetRulesFor(state) {
				want[r.Name]++
			}
		})
		r = tool(t, s.plan, dir, append([]string{"stats"}, s.args...)...)
		got := map[string]int{}
		i := strings.Index(r.out, "rule,num_tests\n")
		t.Check(r.code == 0 && i >= 0, "statistics", "%s", desc())
		for _, l := range strings.Split(strings.TrimSpace(r.out[i:]), "\n")[1:] {
			name, num, _ := strings.Cut(l, ",")
			_, twice := got[name]
			t.Check(!twice, "statistics", "rule %s is printed twice\n%s", name, desc())
			got[name], _ = strconv.Atoi(num)
		}
		t.Check(fmt.Sprint(got) == fmt.Sprint(want), "statistics", "should be %v\n%s", want, desc())
	case 2:
		var args, want []string
		if s.filter != "" {
			args = []string{"--filter", s.filter}
		}
		for _, r := range s.rules {
			want = append(want, r.Name)
		}
		slices.Sort(want)
		r = tool(t, s.plan, dir, append([]string{"list"}, args...)...)
		got := lines()
		if r.out == "" {
			got = nil
		}
		t.Check(r.code == 0 && slices.Equal(got, want), "list", "should be %v\n%s", want, desc())
	case 3:
		var args []string
		if s.filter != "" {
			args = []string{"--filter", s.filter}
		}
		r = tool(t, s.plan, dir, append([]string{"generator-info"}, args...)...)
		total := 0
		last := -1
		infos := map[string]rlz.Rule{} // some rules share their name (and content)
		for _, rule := range s.rules {
			infos[rule.Name] = rule
		}
		for _, rule := range infos {
			i := strings.Index(r.out, "----- Rule: "+rule.Name+" -----")
			t.Check(i >= 0, "generator information", "rule %s is missing\n%s", rule.Name, desc())
			n := casesOf(rule)
			t.Check(number(`Total number of cases: (\d+)`, r.out[i:]) == n, "generator information", "rule %s has %d cases\n%s", rule.Name, n, desc())
			total += n
		}
		t.Check(strings.Count(r.out, "----- Rule: ") == len(infos), "generator information", "there are %d rules\n%s", len(infos), desc())
		for _, m := range regexp.MustCompile(`Total number of cases: (\d+)`).FindAllStringSubmatch(r.out, -1) {
			n, _ := strconv.Atoi(m[1])
			t.Check(n >= last, "generator information", "rules are not ordered by their cases\n%s", desc())
			last = n
		}
		t.Check(r.code == 0 && number(`Total number of tests: (\d+)`, r.out) == total, "generator information", "total should be %d\n%s", total, desc())
	}
}
