// Package vmrun runs generated cases on interpreters and on the reference and
// compares what can be observed.
package vmrun

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/tosca"

	"verif/gen"
	"verif/pbt"
	"verif/prog"
	"verif/ref"
	"verif/world"
)

type VM struct {
	Name string
	It   tosca.Interpreter
}

// Get creates interpreters from the registry.
func Get(names ...string) (res []VM) {
	for _, n := range names {
		it, err := tosca.NewInterpreter(n)
		if err != nil {
			panic(fmt.Sprintf("can not create interpreter %q: %v", n, err))
		}
		res = append(res, VM{n, it})
	}
	return
}

type Outcome struct {
	Res   tosca.Result
	Err   error
	World *world.World
	Ref   *ref.EVM
}

func RunRef(c *prog.Case, trace func(ref.Step)) Outcome {
	w := c.World.Clone()
	p := c.Par
	p.Context = w
	e := ref.New(p)
	e.MaxStep = 20000
	e.MaxMem = 1 << 22
	e.Trace = trace
	w.Params = p
	if c.World.Nested != nil {
		w.Nested = RefNested(c.World)
	}
	return Outcome{Res: e.Run(), World: w, Ref: e}
}

// Steps are the steps of the reference run of the last call of Gas, and
// BoundaryGas tells whether it chose a boundary.
var (
	Steps       []ref.Step
	BoundaryGas bool
)

// Capped is set when a nested run of the reference exceeded the harness' limits.
var Capped bool

func RefNested(*world.World) func(tosca.Parameters) (tosca.Result, error) {
	return func(p tosca.Parameters) (tosca.Result, error) {
		e := ref.New(p)
		e.MaxStep = 20000
		e.MaxMem = 1 << 22
		r := e.Run()
		if e.Status == ref.Capped {
			Capped = true
		}
		return r, nil
	}
}

// RunRaw runs a case without any checks.
func RunRaw(vm VM, c *prog.Case) Outcome {
	w := c.World.Clone()
	p := c.Par
	p.Context = w
	w.Params = p
	if c.World.Nested != nil {
		w.Nested = vm.It.Run
	}
	r, err := vm.It.Run(p)
	return Outcome{Res: r, Err: err, World: w}
}

func RunVM(t *pbt.T, vm VM, c *prog.Case) Outcome {
	w := c.World.Clone()
	p := c.Par
	p.Context = w
	p.Code = bytes.Clone(c.Par.Code)
	p.Input = bytes.Clone(c.Par.Input)
	if c.Par.Code == nil {
		p.Code = nil
	}
	w.Params = p
	if c.World.Nested != nil {
		w.Nested = vm.It.Run
	}
	r, err := vm.It.Run(p)
	t.Check(bytes.Equal(p.Code, c.Par.Code), vm.Name+": code modified", "the interpreter changed the code it was given\n%s", c.Describe())
	t.Check(bytes.Equal(p.Input, c.Par.Input), vm.Name+": input modified", "the interpreter changed the input it was given\n%s", c.Describe())
	return Outcome{Res: r, Err: err, World: w}
}

// Gas chooses an amount of gas: plenty, exactly enough, or short at some point.
// It leaves the choice in the case and returns the reference outcome.
func Gas(t *pbt.T, c *prog.Case) Outcome {
	BoundaryGas = false
	pick := func(g int64) Outcome {
		BoundaryGas = true
		if g < 0 {
			g = 0
		}
		c.Par.Gas = tosca.Gas(g)
		Capped = false
		Steps = Steps[:0]
		o := RunRef(c, func(s ref.Step) { Steps = append(Steps, s) })
		if o.Ref.Status == ref.Capped || Capped {
			t.Discard()
		}
		return o
	}
	ample := []int64{10_000_000, 30_000_000, 1_000_000, 200_000, 60_000, 1 << 31, 1 << 45, 1<<63 - 1}[t.Weighted(10, 4, 6, 4, 2, 1, 1, 1)]
	c.Par.Gas = tosca.Gas(ample)
	mode := t.Weighted(8, 2, 2, 1, 5)
	r := t.U64()
	Steps = Steps[:0]
	Capped = false
	o := RunRef(c, func(s ref.Step) { Steps = append(Steps, s) })
	steps := append([]ref.Step(nil), Steps...)
	if o.Ref.Status == ref.Capped || Capped {
		if Capped || len(steps) == 0 {
			t.Discard()
		}
		return pick(steps[len(steps)-1-int(r%uint64(min(len(steps), 40)))].Used)
	}
	used := ample - o.Ref.Gas
	switch mode {
	case 0:
		t.Label("gas:ample")
		return o
	case 1:
		t.Label("gas:exact")
		return pick(used)
	case 2:
		t.Label("gas:one-short")
		return pick(used - 1)
	case 3:
		t.Label("gas:uniform")
		return pick(int64(r % uint64(used+1)))
	}
	t.Label("gas:at-step")
	if len(steps) == 0 {
		return pick(0)
	}
	// prefer late and expensive steps
	s := steps[r%uint64(len(steps))]
	for i := 0; i < 3; i++ {
		r = pbt.Mix(r)
		x := steps[r%uint64(len(steps))]
		if x.Cost > s.Cost && x.Cost < ample/2 {
			s = x
		}
	}
	r = pbt.Mix(r)
	d := []int64{s.Cost - 1, s.Cost, s.Cost + 1, 0, 99, 100, 2299, 2300, 2301, 2600, 700, 799, s.Cost - 2}[r%13]
	return pick(s.Used + d)
}

func first(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var l, r string
		if i < len(x) {
			l = x[i]
		}
		if i < len(y) {
			r = y[i]
		}
		if l != r {
			return fmt.Sprintf("#%d expected %q, got %q", i, cut(l), cut(r))
		}
	}
	return ""
}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// CompareQuiet is Compare for cases too large to be printed.
func CompareQuiet(t *pbt.T, vm string, c *prog.Case, want, got Outcome) {
	big := *c
	if len(c.Par.Code) > 2000 {
		big.Par.Code = c.Par.Code[:100]
	}
	Compare(t, vm, &big, want, got)
}

// Compare checks an outcome against the expected one.
func Compare(t *pbt.T, vm string, c *prog.Case, want, got Outcome) {
	det := func() string {
		return fmt.Sprintf("\nexpected: success %v gas %d refund %d output %s (%v %s at pc %d)\ngot:      success %v gas %d refund %d output %s err %v\n%s%s",
			want.Res.Success, want.Res.GasLeft, want.Res.GasRefund, cut(fmt.Sprintf("%x", []byte(want.Res.Output))), status(want), why(want), pc(want),
			got.Res.Success, got.Res.GasLeft, got.Res.GasRefund, cut(fmt.Sprintf("%x", []byte(got.Res.Output))), got.Err, c.Describe(), cut2(prog.Asm(c.Par.Code)))
	}
	f := func(what, format string, a ...any) {
		t.Failf(vm+": "+what, "%s", fmt.Sprintf(format, a...)+det())
	}
	if got.Err != nil {
		f("interpreter error", "the run ended with an interpreter error: %v", got.Err)
	}
	if got.World.Bad != "" {
		f("context misuse", "unexpected use of the run context: %s", got.World.Bad)
	}
	if want.Res.Success != got.Res.Success {
		f("success", "success expected %v, got %v", want.Res.Success, got.Res.Success)
	}
	if want.Res.GasLeft != got.Res.GasLeft {
		f("gas", "gas left expected %d, got %d (difference %d)", want.Res.GasLeft, got.Res.GasLeft, got.Res.GasLeft-want.Res.GasLeft)
	}
	if !bytes.Equal(want.Res.Output, got.Res.Output) {
		f("output", "output differs")
	}
	if want.Res.GasRefund != got.Res.GasRefund {
		f("refund", "refund expected %d, got %d", want.Res.GasRefund, got.Res.GasRefund)
	}
	if failed(want) {
		if len(got.Res.Output) != 0 || got.Res.GasRefund > 0 {
			f("failure residue", "a failed run returned output or refunds")
		}
		return
	}
	if d := first(strings.Join(want.World.Events, "\n"), strings.Join(got.World.Events, "\n")); d != "" {
		f("effects", "the sequence of effects differs: %s", d)
	}
	if d := first(want.World.Dump(), got.World.Dump()); d != "" {
		f("state", "the resulting state differs: %s", d)
	}
}

func cut2(s string) string {
	if len(s) > 6000 {
		return s[:6000] + "..."
	}
	return s
}

func failed(o Outcome) bool { return o.Ref != nil && o.Ref.Status == ref.Failed }
func status(o Outcome) string {
	if o.Ref == nil {
		return ""
	}
	return o.Ref.Status.String()
}
func why(o Outcome) string {
	if o.Ref == nil {
		return ""
	}
	return o.Ref.Why
}
func pc(o Outcome) uint64 {
	if o.Ref == nil {
		return 0
	}
	return o.Ref.PC
}

// Summary labels a case by its outcome.
func Summary(t *pbt.T, o Outcome) {
	s := o.Ref.Status.String()
	if o.Ref.Why != "" {
		s += ": " + o.Ref.Why
	}
	t.Label("end:" + s)
}

// Rev draws a revision, with more weight on the newest.
func Rev(t *pbt.T) tosca.Revision {
	return tosca.Revision(t.Weighted(2, 2, 2, 1, 2, 4))
}

// HashOf optionally attaches the code's hash, enabling code caches.
func HashOf(t *pbt.T, c *prog.Case) {
	if t.Bool() {
		h := tosca.Hash(ref.Keccak(c.Par.Code))
		c.Par.CodeHash = &h
	}
}

var _ = gen.Word
