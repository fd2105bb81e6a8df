package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/tosca"

	"verif/pbt"
	"verif/prog"
	"verif/ref"
	. "verif/vmrun"
)

// capture is a file standing in for the standard output of the process (fd 1,
// which is where the C++ observers write, and os.Stdout).
type capture struct{ file *os.File }

var cap1 *capture

func newCapture() *capture {
	f, err := os.CreateTemp("", "observe")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	return &capture{f}
}

func (c *capture) run(f func()) string {
	out := os.Stdout
	c.file.Truncate(0)
	c.file.Seek(0, 0) // shared with fd 1
	os.Stdout = c.file
	defer func() { os.Stdout = out }()
	f()
	c.file.Seek(0, 0)
	data, err := io.ReadAll(c.file)
	if err != nil {
		panic(err)
	}
	return string(data)
}

// a line of a log: the instruction, the gas left and the top of the stack
// before its execution
func logLine(gas tosca.Gas, s ref.Step, name string) string {
	top := "-empty-"
	if s.Top != nil {
		top = s.Top.String()
	}
	return fmt.Sprintf("%s, %d, %s", name, int64(gas)-s.Used, top)
}

func canonical(name string) string {
	name = strings.ToUpper(name)
	switch name {
	case "KECCAK256":
		return "SHA3"
	case "DIFFICULTY":
		return "PREVRANDAO"
	}
	return name
}

// observe: the observing configurations report precisely what was executed.
func observe(t *pbt.T) {
	m := prog.Default
	m.Sha = 3
	type run struct {
		c     *prog.Case
		want  Outcome
		steps []ref.Step
	}
	var runs []run
	for i := t.Range(1, 4); i > 0; i-- {
		rev := Rev(t)
		env := prog.NewEnv(t)
		c := prog.Setup(t, env, rev, t.Chance(1, 8))
		c.Par.Code = prog.Program(t, env, rev, m, 12)
		HashOf(t, c)
		want := Gas(t, c)
		if len(Steps) > 2000 {
			t.Discard()
		}
		runs = append(runs, run{c, want, append([]ref.Step(nil), Steps...)})
	}
	t.Sample(func() string { return runs[0].c.Describe() })
	total := 0
	for _, r := range runs {
		total += len(r.steps)
	}
	if total > 20 {
		t.NonTrivial(pbt.Hash(runs[0].c.Par.Code) ^ uint64(total))
	}
	resetAt := t.N(len(runs) + 2)
	for _, vm := range vms {
		prof, _ := vm.It.(tosca.ProfilingInterpreter)
		if prof != nil {
			cap1.run(prof.ResetProfile)
		}
		counts := map[string]int{}
		seqs := map[string]int{}
		implicit := 0
		frames := 0
		for i, r := range runs {
			if i == resetAt && prof != nil {
				cap1.run(prof.ResetProfile)
				counts, seqs, implicit, frames = map[string]int{}, map[string]int{}, 0, 0
			}
			var got Outcome
			text := cap1.run(func() { got = RunRaw(vm, r.c) })
			Compare(t, vm.Name, r.c, r.want, got)
			if r.c.Par.Depth == 0 {
				frames++
			}
			steps := r.steps
			if strings.HasPrefix(vm.Name, "evmzero") || strings.HasPrefix(vm.Name, "evmrs") { // a jump includes its destination
				steps = fuseJumps(steps)
			}
			last := ""
			var recent []string
			for _, s := range steps {
				n := canonical(prog.Name(s.Op))
				if !ref.Defined(s.Op, tosca.R13_Cancun) {
					n = "INVALID"
				}
				counts[n]++
				last = n
				recent = append(recent, n)
				for k := 2; k <= 4 && k <= len(recent); k++ {
					seqs[strings.Join(recent[len(recent)-k:], " ")]++
				}
			}
			if r.want.Ref.Status == ref.Stopped && last != "STOP" {
				implicit++
			}
			if strings.HasSuffix(vm.Name, "-logging") {
				checkLog(t, vm.Name, r.c, steps, text)
			}
		}
		switch {
		case strings.HasSuffix(vm.Name, "-stats"):
			checkStats(t, vm.Name, cap1.run(prof.DumpProfile), counts, seqs)
		case strings.Contains(vm.Name, "-profiling"):
			checkProfile(t, vm.Name, dumpProfile(t, prof), counts, implicit, frames)
		}
	}
}

func fuseJumps(steps []ref.Step) (res []ref.Step) {
	for i, s := range steps {
		if i > 0 && s.Op == 0x5b && steps[i-1].Jumped {
			continue
		}
		res = append(res, s)
	}
	return
}

func checkLog(t *pbt.T, name string, c *prog.Case, steps []ref.Step, text string) {
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	if text == "" {
		lines = nil
	}
	var got []string
	for _, l := range lines {
		op, rest, _ := strings.Cut(l, ", ")
		if op == "NOOP" || op == "JUMP_TO" { // lfvm's own instructions
			continue
		}
		got = append(got, canonical(op)+", "+rest)
	}
	for i, s := range steps {
		n := canonical(prog.Name(s.Op))
		want := logLine(c.Par.Gas, s, n)
		if i == len(got) && i == len(steps)-1 && strings.HasPrefix(name, "evmrs") && !ref.Defined(s.Op, tosca.R13_Cancun) {
			break // it reports what it could decode
		}
		if i >= len(got) {
			t.Check(false, name+": log", "the log ends before step %d (%s)\n%s", i, want, c.Describe())
		}
		g := got[i]
		if !ref.Defined(s.Op, tosca.R13_Cancun) { // any name will do
			_, w, _ := strings.Cut(want, ", ")
			_, x, _ := strings.Cut(g, ", ")
			want, g = w, x
		}
		t.Check(g == want, name+": log", "step %d: logged %q, expected %q\n%s", i, got[i], want, c.Describe())
	}
	if len(got) == len(steps)+1 && strings.HasPrefix(got[len(steps)], "STOP, ") {
		return // the implicit stop at the end of the code
	}
	t.Check(len(got) <= len(steps), name+": log", "%d instructions were executed, but %d logged: %q\n%s", len(steps), len(got), got[min(len(got), len(steps)):], c.Describe())
}

func dumpProfile(t *pbt.T, p tosca.ProfilingInterpreter) string {
	dir, err := os.MkdirTemp("", "observe")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if t.Bool() { // to the file named by the environment
		path := filepath.Join(dir, "profile")
		os.Setenv("EVMZERO_PROFILE_FILE", path)
		defer os.Unsetenv("EVMZERO_PROFILE_FILE")
		out := cap1.run(p.DumpProfile)
		t.Check(out == "", "evmzero: profile dump", "printed although a file was named: %q", out)
		data, _ := os.ReadFile(path)
		return string(data)
	}
	return cap1.run(p.DumpProfile)
}

func checkProfile(t *pbt.T, name, text string, counts map[string]int, implicit, frames int) {
	_, table, ok := strings.Cut(text, "opcode,calls,ticks,duration[ns]\n")
	t.Check(ok, name+": profile", "no table in %q", text)
	seen := map[string]int{}
	for _, l := range strings.Split(strings.TrimSpace(table), "\n") {
		f := strings.Split(l, ",")
		t.Check(len(f) == 4, name+": profile", "line %q", l)
		n, err := strconv.Atoi(strings.TrimSpace(f[1]))
		t.Check(err == nil, name+": profile", "line %q", l)
		ticks, err := strconv.ParseUint(strings.TrimSpace(f[2]), 10, 64)
		t.Check(err == nil && (n > 0 || ticks == 0) && ticks < 1<<62, name+": profile", "line %q", l)
		_, dup := seen[canonical(f[0])]
		t.Check(!dup, name+": profile", "%q listed twice", f[0])
		seen[canonical(f[0])] = n
	}
	t.Check(seen["INTERPRETER"] == frames, name+": profile", "%d outermost runs counted as %d", frames, seen["INTERPRETER"])
	external := strings.Contains(name, "external")
	for op, n := range counts {
		g, ok := seen[op]
		if !ok && external && !externalOp(op) {
			continue
		}
		if op == "STOP" && g == n+implicit {
			continue
		}
		t.Check(ok && g == n, name+": profile", "%s was executed %d times, but counted %d times (listed: %v)", op, n, g, ok)
	}
	for op, g := range seen {
		if op != "INTERPRETER" && counts[op] == 0 && g != 0 && !(op == "STOP" && g == implicit) {
			t.Check(false, name+": profile", "%s was not executed, but counted %d times", op, g)
		}
	}
}

// what every list of external operations has to have
func externalOp(n string) bool {
	switch n {
	case "SLOAD", "SSTORE", "BALANCE", "EXTCODESIZE", "EXTCODECOPY", "EXTCODEHASH", "CALL", "CALLCODE", "DELEGATECALL", "STATICCALL",
		"CREATE", "CREATE2":
		return true
	}
	return false
}

var statLine = regexp.MustCompile(`^\t(\S+) *(\S+ +)?(\S+ +)?(\S+ +)?: (\d+) \(`)

// comparable tells whether lfvm executes a sequence of instructions without others in between (it inserts some in
// front of jump destinations, and may stop where the code does not say so).
func comparable(ops []string) bool {
	for i, op := range ops {
		if op == "NOOP" || op == "JUMP_TO" || i > 0 && (op == "JUMPDEST" || op == "STOP" || op == "INVALID") || strings.Contains(op, "OP(") {
			return false
		}
	}
	return true
}

func checkStats(t *pbt.T, name, text string, counts, seqs map[string]int) {
	section := 0
	listed := map[string]int{}
	least := [5]int{}
	number := [5]int{}
	steps := 0
	for _, l := range strings.Split(text, "\n") {
		if strings.HasSuffix(l, ":") && !strings.HasPrefix(l, "\t") {
			section = map[string]int{"Singles:": 1, "Pairs:": 2, "Triples:": 3, "Quads:": 4}[l]
			continue
		}
		if n, ok := strings.CutPrefix(l, "Steps: "); ok {
			steps, _ = strconv.Atoi(n)
		}
		f := statLine.FindStringSubmatch(l)
		if f == nil || section == 0 {
			continue
		}
		n, _ := strconv.Atoi(f[5])
		var ops []string
		for _, o := range f[1 : section+1] {
			ops = append(ops, canonical(strings.TrimSpace(o)))
		}
		key := strings.Join(ops, " ")
		t.Check(listed[key] == 0, name+": statistics", "%s is listed twice\n%s", key, text)
		listed[key] = n
		number[section]++
		if number[section] == 1 || n < least[section] {
			least[section] = n
		}
		if section == 1 {
			op := ops[0]
			if op == "NOOP" || op == "JUMP_TO" || strings.HasPrefix(op, "OP(") || op == "INVALID" {
				continue
			}
			t.Check(n == counts[op] || op == "STOP" && n >= counts[op], name+": statistics", "%s was executed %d times, but counted %d times\n%s", op, counts[op], n, text)
		} else if comparable(ops) {
			t.Check(n == seqs[key], name+": statistics", "%s was executed %d times, but counted %d times\n%s", key, seqs[key], n, text)
		}
	}
	all := 0
	for _, n := range counts {
		all += n
	}
	t.Check(steps >= all, name+": statistics", "%d steps were executed, but %d counted\n%s", all, steps, text)
	var ops []string
	for op := range counts {
		if op != "INVALID" {
			ops = append(ops, op)
		}
	}
	for seq := range seqs {
		if comparable(strings.Split(seq, " ")) {
			ops = append(ops, seq)
		}
	}
	sort.Strings(ops)
	for _, op := range ops {
		if _, ok := listed[op]; !ok {
			k := 1 + strings.Count(op, " ")
			n := counts[op] + seqs[op]
			t.Check(number[k] >= 5 && n <= least[k], name+": statistics", "%s was executed %d times, but is not listed\n%s", op, n, text)
		}
	}
}
