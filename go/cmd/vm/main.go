// Command vm checks interpreters against the reference.
package main

import (
	"fmt"
	"math/big"
	"os"
	"slices"
	"strings"
	"syscall"

	"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"
	"github.com/Fantom-foundation/Tosca/go/tosca"

	"verif/gen"
	"verif/pbt"
	"verif/prog"
	"verif/ref"
	. "verif/vmrun"
)

// vms are the interpreters under test: the first is the production
// configuration, the others are variants of it.
var vms []VM

var keep *os.File

func setup() {
	// the observing configurations write to the standard output: keep it apart
	fd, err := syscall.Dup(1)
	if err != nil {
		panic(err)
	}
	out := os.NewFile(uintptr(fd), "stdout")
	sink, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	if slices.Contains(os.Args, "vm-observe") {
		cap1 = newCapture()
		sink = cap1.file
	}
	if err := syscall.Dup2(int(sink.Fd()), 1); err != nil {
		panic(err)
	}
	keep = os.Stdout // its finalizer would close the descriptor
	os.Stdout = sink
	if err := lfvm.RegisterExperimentalInterpreterConfigurations(); err != nil {
		panic(err)
	}
	os.Stdout = out
	names := []string{"lfvm", "lfvm-si"}
	if n := os.Getenv("VM_NAMES"); n != "" {
		names = strings.Split(n, ",")
	}
	vms = Get(names...)
}

func sample(t *pbt.T, c *prog.Case) {
	t.Sample(func() string {
		s := c.Describe() + prog.Asm(c.Par.Code)
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		return s
	})
}

// judge runs a case on all interpreters, with the gas already chosen.
func judge(t *pbt.T, c *prog.Case, want Outcome) {
	Summary(t, want)
	t.Labelf("rev:%d", c.Par.Revision)
	for _, vm := range vms {
		Compare(t, vm.Name, c, want, RunVM(t, vm, c))
	}
}

// differential generates programs of the given emphasis.
func differential(m prog.Mix, size int, static int, needs func(steps []ref.Step, want Outcome) bool) pbt.Check {
	return func(t *pbt.T) {
		rev := Rev(t)
		env := prog.NewEnv(t)
		c := prog.Setup(t, env, rev, t.Chance(static, 100))
		c.Par.Code = prog.Program(t, env, rev, m, size)
		HashOf(t, c)
		want := Gas(t, c)
		if needs(Steps, want) {
			t.NonTrivial(pbt.Hash(c.Par.Code) ^ uint64(c.Par.Gas))
		}
		sample(t, c)
		judge(t, c, want)
	}
}

func has(n int, ops ...byte) func([]ref.Step, Outcome) bool {
	var set [256]bool
	for _, o := range ops {
		set[o] = true
	}
	return func(steps []ref.Step, _ Outcome) bool {
		k := 0
		for _, s := range steps {
			if set[s.Op] {
				k++
			}
		}
		return k >= n
	}
}

func span(a, b byte) (r []byte) {
	for i := int(a); i <= int(b); i++ {
		r = append(r, byte(i))
	}
	return
}

// arith: every operation on generated operands, all results are returned.
func arith(t *pbt.T) {
	rev := Rev(t)
	env := prog.NewEnv(t)
	c := prog.Setup(t, env, rev, false)
	b := &prog.B{T: t, Env: env, Rev: rev}
	n := t.Range(1, 6)
	ops := append(append(span(1, 0x0b), span(0x10, 0x1d)...), 0x80, 0x91)
	for i := 0; i < n; i++ {
		op := ops[t.N(len(ops))]
		in, _ := ref.Usage(op)
		for j := 0; j < in; j++ {
			switch t.Weighted(6, 2, 1) {
			case 0:
				b.Push(gen.WordBig(t))
			case 1:
				b.PushI(t.N(260))
			case 2:
				b.Val()
			}
		}
		b.Op(op)
	}
	b.Dump()
	b.Finish()
	c.Par.Code = b.Code
	c.Par.Gas = 1_000_000
	HashOf(t, c)
	want := RunRef(c, nil)
	t.NonTrivial(pbt.Hash(c.Par.Code))
	sample(t, c)
	judge(t, c, want)
}

// stackLimits brings the stack close to its limits and executes one instruction.
func stackLimits(t *pbt.T) {
	rev := Rev(t)
	env := prog.NewEnv(t)
	c := prog.Setup(t, env, rev, false)
	op := byte(t.N(256))
	for !ref.Defined(op, rev) {
		op++
	}
	in, out := ref.Usage(op)
	var depth int
	low := t.Bool()
	if low {
		depth = max(0, in+t.Range(-2, 2))
	} else {
		depth = 1024 - max(0, out-in) - t.N(3) + t.N(2)
	}
	var code []byte
	// the lower part of the stack holds recognisable values
	for i := 0; i < depth; i++ {
		code = append(code, 0x61, byte(i>>8)|0x10, byte(i))
	}
	for i := 0; i < min(depth, in); i++ {
		code[3*(depth-1-i)+1] = 0
		code[3*(depth-1-i)+2] = byte(t.N(40))
	}
	if op == 0x56 || op == 0x57 { // make jumps succeed
		if depth > 0 {
			pos := len(code) + 1
			code[3*(depth-1)+1], code[3*(depth-1)+2] = byte(pos>>8), byte(pos)
		}
		code = append(code, op, 0x5b)
	} else {
		code = append(code, op)
		if op >= 0x60 && op <= 0x7f {
			code = append(code, t.Bytes(int(op-0x5f))...)
		}
	}
	// expose the top elements
	for i := 0; i < t.N(20); i++ {
		code = append(code, 0x60, byte(i*3), 0x52)
	}
	code = append(code, 0x60, 0x80, 0x5f+0x01, 0x00, 0xf3)
	c.Par.Code = code
	c.Par.Gas = 10_000_000
	HashOf(t, c)
	want := RunRef(c, nil)
	t.NonTrivial(uint64(op)<<32 | uint64(depth)<<8 | uint64(rev))
	if low {
		t.Label("bound:lower")
	} else {
		t.Label("bound:upper")
	}
	sample(t, c)
	judge(t, c, want)
}

// revisions executes every instruction in every revision, and unknown revisions.
func revisions(t *pbt.T) {
	env := prog.NewEnv(t)
	if t.Chance(1, 20) {
		c := prog.Setup(t, env, tosca.R13_Cancun, t.Bool())
		c.Par.Code = prog.Program(t, env, tosca.R13_Cancun, prog.Default, 5)
		c.Par.Gas = tosca.Gas(t.N(1000000))
		HashOf(t, c)
		c.Par.Revision = tosca.R13_Cancun + tosca.Revision(1+t.N([]int{2, 100, 1 << 30}[t.N(3)]))
		t.Label("unsupported")
		t.NonTrivial(uint64(c.Par.Revision))
		for _, vm := range vms {
			got := RunVM(t, vm, c)
			e, ok := got.Err.(*tosca.ErrUnsupportedRevision)
			t.Check(ok, vm.Name+": unsupported revision", "revision %d: error %v (%T), result %+v", int(c.Par.Revision), got.Err, got.Err, got.Res)
			t.Check(e.Revision == c.Par.Revision, vm.Name+": reported revision", "reported %v", e.Revision)
			t.Check(len(got.World.Events) == 0, vm.Name+": effects", "effects in an unsupported revision: %v", got.World.Events)
		}
		return
	}
	rev := tosca.Revision(t.N(6))
	c := prog.Setup(t, env, rev, false)
	op := byte(t.N(256))
	if t.Chance(1, 2) {
		op = []byte{0x48, 0x49, 0x4a, 0x5c, 0x5d, 0x5e, 0x5f, 0x44, 0x46, 0x47, 0xf5, 0x3f, 0x1b}[t.N(13)]
	}
	in, _ := ref.Usage(op)
	b := &prog.B{T: t, Env: env, Rev: tosca.R07_Istanbul}
	pre := t.N(3)
	for i := 0; i < pre; i++ {
		b.Val()
	}
	for i := 0; i < in; i++ {
		b.PushI(t.N(64))
	}
	b.Op(op)
	b.Dump()
	b.Finish()
	c.Par.Code = b.Code
	c.Par.Gas = 5_000_000
	HashOf(t, c)
	t.NonTrivial(uint64(op)<<8 | uint64(rev))
	if !ref.Defined(op, rev) {
		t.Label("undefined")
	}
	sample(t, c)
	judge(t, c, RunRef(c, nil))
}

// robust runs unstructured codes: never an interpreter error, never a crash,
// never more gas than provided. Also compared with the reference.
func robust(t *pbt.T) {
	rev := Rev(t)
	env := prog.NewEnv(t)
	c := prog.Setup(t, env, rev, t.Chance(1, 6))
	if t.Chance(1, 3) {
		c.Par.Code = t.Bytes(t.N(200))
	} else {
		c.Par.Code = prog.Random(t)
	}
	if t.Chance(2, 3) { // something to work on
		var pre []byte
		for i := t.Range(1, 20); i > 0; i-- {
			switch t.Weighted(5, 2, 1) {
			case 0:
				pre = append(pre, 0x60, byte(t.N(80)))
			case 1:
				pre = append(pre, 0x61, byte(t.N(3)), byte(t.N(256)))
			case 2:
				w := gen.WordBig(t)
				pre = append(append(pre, 0x7f), w.FillBytes(make([]byte, 32))...)
			}
		}
		c.Par.Code = append(pre, c.Par.Code...)
	}
	if t.Chance(1, 30) {
		c.Par.Code = nil
	}
	HashOf(t, c)
	want := Gas(t, c)
	if want.Ref.Steps > 2 {
		t.NonTrivial(pbt.Hash(c.Par.Code))
	}
	sample(t, c)
	for _, vm := range vms {
		got := RunVM(t, vm, c)
		if got.Err == nil {
			t.Check(got.Res.GasLeft >= 0 && got.Res.GasLeft <= c.Par.Gas, vm.Name+": gas bounds", "gas left %d of %d\n%s", got.Res.GasLeft, c.Par.Gas, c.Describe())
		}
		Compare(t, vm.Name, c, want, got)
	}
	Summary(t, want)
}

// nested runs whole call trees, in which every frame is run by the interpreter.
func nested(t *pbt.T) {
	rev := Rev(t)
	env := prog.NewEnv(t)
	c := prog.Setup(t, env, rev, t.Chance(1, 12))
	m := prog.Default
	m.Calls, m.Store, m.Logs, m.Destruct = 12, 7, 3, 1
	c.Par.Code = prog.Program(t, env, rev, m, 20)
	for i := 4; i <= 6; i++ {
		m.Calls = t.N(8)
		c.World.Get(env.Addrs[i]).Code = prog.Program(t, env, rev, m, 12)
	}
	if t.Chance(1, 4) { // recursion
		c.World.Get(env.Addrs[4]).Code = c.Par.Code
	}
	acc := c.World.Get(c.Par.Recipient)
	if t.Chance(2, 3) {
		acc.Code = c.Par.Code
	}
	c.World.Nested = RefNested(c.World)
	HashOf(t, c)
	want := Gas(t, c)
	if want.World.NCalls > 0 {
		t.NonTrivial(pbt.Hash(c.Par.Code) ^ uint64(c.Par.Gas))
	}
	switch {
	case want.World.NCalls > 20:
		t.Label("calls:20+")
	case want.World.NCalls > 3:
		t.Label("calls:4-20")
	case want.World.NCalls > 0:
		t.Label("calls:1-3")
	}
	sample(t, c)
	judge(t, c, want)
}

// static: whatever a contract does in a static context, nothing changes.
func static(t *pbt.T) {
	rev := Rev(t)
	env := prog.NewEnv(t)
	c := prog.Setup(t, env, rev, true)
	m := prog.Default
	m.Store, m.Logs, m.Calls, m.Destruct, m.Flow = 3, 1, 4, 1, 3
	tree := t.Chance(1, 3)
	if tree {
		for i := 4; i <= 6; i++ {
			c.World.Get(env.Addrs[i]).Code = prog.Program(t, env, rev, m, 8)
		}
		c.World.Nested = RefNested(c.World)
		m.Store, m.Logs, m.Destruct, m.Calls = 0, 0, 0, 8
	}
	c.Par.Code = prog.Program(t, env, rev, m, 12)
	HashOf(t, c)
	want := Gas(t, c)
	writes := has(1, 0x55, 0x5d, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xf0, 0xf5, 0xff, 0xf1)(Steps, want)
	if writes {
		t.NonTrivial(pbt.Hash(c.Par.Code) ^ uint64(c.Par.Gas))
	}
	sample(t, c)
	for _, vm := range vms {
		got := RunVM(t, vm, c)
		for _, e := range got.World.Events {
			for _, bad := range []string{"store", "tstore", "log", "destruct", "create"} {
				t.Check(!strings.HasPrefix(e, bad), vm.Name+": static effect", "effect %q in a static context\n%s", e, c.Describe())
			}
			if strings.HasPrefix(e, "call") {
				t.Check(!strings.HasPrefix(e, "call "+tosca.Call.String()+" "), vm.Name+": static call", "a regular call left a static context: %q\n%s", e, c.Describe())
			}
		}
		Compare(t, vm.Name, c, want, got)
	}
	Summary(t, want)
}

// large codes: jump destinations and immediate data far into the code.
func large(t *pbt.T) {
	rev := Rev(t)
	env := prog.NewEnv(t)
	c := prog.Setup(t, env, rev, false)
	limit := []int{300, 5000, 24576, 49152, 65536, 70000}[t.Weighted(2, 3, 3, 3, 2, 2)]
	b := &prog.B{T: t, Env: env, Rev: rev, Mix: prog.Mix{Arith: 2, Flow: 4, Env: 2, Stack: 2, Super: 2, Mem: 1}}
	n := t.Range(1, 6)
	for i := 0; i < n && len(b.Code) < limit-300; i++ {
		// a long stretch that is jumped over or executed
		gap := t.N(limit/n + 1)
		if len(b.Code)+gap > limit-200 {
			break
		}
		switch t.Weighted(3, 2, 2, 1) {
		case 0: // dead data behind a jump
			fill := make([]byte, gap)
			if t.Bool() {
				x := t.U64()
				for j := range fill {
					x = pbt.Mix(x)
					fill[j] = []byte{0x5b, 0x60, 0x7f, byte(x >> 8)}[x%4]
				}
			}
			if t.Chance(3, 4) && gap > 40 {
				for j := gap - 34; j < gap; j++ {
					fill[j] = 0
				}
			}
			b.Skip(fill)
		case 1: // many jump destinations, executed
			for j := 0; j < min(gap, 3000); j++ {
				b.Code = append(b.Code, 0x5b)
			}
		case 2: // many pushes and pops without any jump destination
			for j := 0; j+35 < min(gap, 20000); j += 34 {
				b.Code = append(b.Code, 0x7f)
				b.Code = append(b.Code, make([]byte, 32)...)
				b.Code = append(b.Code, 0x50)
			}
		case 3:
		}
		if t.Bool() {
			b.Op(0x58) // PC
		}
		b.Snippet()
	}
	b.Op(0x58)
	b.Dump()
	b.Finish()
	c.Par.Code = b.Code
	if t.Bool() && len(c.Par.Code) < 49152 {
		h := tosca.Hash(ref.Keccak(c.Par.Code))
		c.Par.CodeHash = &h
	}
	c.Par.Gas = 10_000_000
	far := false
	want := RunRef(c, func(s ref.Step) { far = far || s.PC > 5000 })
	if want.Ref.Status == ref.Capped {
		t.Discard()
	}
	if far {
		t.NonTrivial(pbt.Hash(c.Par.Code))
	}
	Summary(t, want)
	beyond := ""
	if len(c.Par.Code) > 65535 {
		beyond = " (code beyond 64K)"
		t.Label("code:beyond 64K")
	}
	t.Sample(func() string {
		return fmt.Sprintf("rev %v code length %d, %d steps", rev, len(c.Par.Code), want.Ref.Steps)
	})
	for _, vm := range vms {
		if beyond != "" && strings.HasPrefix(vm.Name, "lfvm") && (want.Ref.PC > 65535 || far65(c)) {
			CompareQuiet(t, vm.Name+beyond, c, want, RunVM(t, vm, c))
			continue
		}
		CompareQuiet(t, vm.Name, c, want, RunVM(t, vm, c))
	}
}

func far65(c *prog.Case) bool {
	far := false
	RunRef(c, func(s ref.Step) { far = far || s.PC > 65535 })
	return far
}

func main() {
	setup()
	D := prog.Default
	emph := func(f func(m *prog.Mix)) prog.Mix { m := D; f(&m); return m }
	pbt.Main(map[string]pbt.Check{
		"vm-arith": arith,
		"vm-mixed": differential(D, 30, 15, func(s []ref.Step, _ Outcome) bool { return len(s) > 10 }),
		"vm-gas":   differential(D, 14, 4, func(s []ref.Step, o Outcome) bool { return len(s) > 3 && BoundaryGas }),
		"vm-memory": differential(prog.Mix{Mem: 10, Copy: 6, Sha: 3, Logs: 2, Arith: 1, Flow: 1, Calls: 1, Stack: 1, Super: 1}, 14, 3,
			has(2, 0x20, 0x37, 0x39, 0x3c, 0x3e, 0x51, 0x52, 0x53, 0x5e, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4)),
		"vm-flow": differential(prog.Mix{Flow: 12, Super: 4, Stack: 3, Arith: 2, Chaos: 4, Mem: 1, Env: 1}, 16, 3,
			has(1, 0x56, 0x57)),
		"vm-stack-ops": differential(prog.Mix{Stack: 10, Super: 6, Arith: 2}, 30, 0, has(3, append(span(0x60, 0x9f), 0x50)...)),
		"vm-storage": differential(prog.Mix{Store: 12, Flow: 2, Logs: 3, Calls: 2, Arith: 1, Destruct: 1}, 14, 6,
			has(2, 0x54, 0x55, 0x5c, 0x5d, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4)),
		"vm-logs": differential(prog.Mix{Logs: 10, Mem: 6, Flow: 1, Store: 1}, 10, 4, has(1, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4)),
		"vm-calls": differential(prog.Mix{Calls: 12, Copy: 2, Mem: 2, Store: 2, Destruct: 1, Arith: 1, Env: 1}, 10, 6,
			func(_ []ref.Step, o Outcome) bool { return o.World.NCalls > 0 }),
		"vm-env": differential(prog.Mix{Env: 12, Copy: 5, Arith: 1, Stack: 1, Calls: 1}, 14, 4,
			has(2, append(span(0x30, 0x4a), 0x58, 0x59, 0x5a)...)),
		"vm-stack-limits": stackLimits,
		"vm-revisions":    revisions,
		"vm-robust":       robust,
		"vm-nested":       nested,
		"vm-static":       static,
		"vm-large":        large,
		"vm-variants":     variants(emph(func(m *prog.Mix) { m.Sha = 6; m.Super = 8 })),
		"vm-parallel":     parallel,
		"vm-observe":      observe,
		"vm-hash-idle":    hashIdle,
		"vm-hash-churn":   hashChurn,
		"vm-code-churn":   codeChurn,
	})
}

var _ = big.NewInt
