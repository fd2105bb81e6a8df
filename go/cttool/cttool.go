// Package cttool is shared by the conformance testing tool under test, where it provides the implementation to be
// tested and the specification to test with, and the harness, which predicts what the tool must report.
package cttool

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"

	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
)

// Plan describes the implementation and the specification.
type Plan struct {
	Rules    []string // empty: the whole specification
	Conflict []string // rules which get a second version
	Every    uint64   // the implementation (the second version of a rule) deviates for one in so many states; 0: for none
	Salt     uint64
	Mode     int // how the implementation deviates
	Spoil    bool
}

const (
	Wrong = iota
	WrongGas
	WrongMemory
	Error
	Unsupported
	Panic
	Modes
)

// Env is the variable that holds the plan of a run of the tool.
const Env = "CT_TOOL_PLAN"

func Load() (p Plan) {
	if s := os.Getenv(Env); s != "" {
		if err := json.Unmarshal([]byte(s), &p); err != nil {
			panic(err)
		}
	}
	return
}

// Hash identifies a state by the parts which survive its export.
func Hash(s *st.State) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, int(s.Status), " ", int64(s.Gas), " ", int64(s.GasRefund), " ", s.Pc, " ", int(s.Revision), " ", s.ReadOnly, " ", s.Stack.Size(), " ", s.HasSelfDestructed, " ")
	for i := 0; i < s.Stack.Size(); i++ {
		w := s.Stack.Get(i).Bytes32be()
		h.Write(w[:])
	}
	for _, b := range [][]byte{s.Code.Copy(), s.CallData.ToBytes(), s.LastCallReturnData.ToBytes(), s.Memory.Read(0, uint64(s.Memory.Size()))} {
		fmt.Fprint(h, len(b), " ")
		h.Write(b)
	}
	c := s.CallContext
	v := c.Value.Bytes32be()
	h.Write(c.AccountAddress[:])
	h.Write(c.CallerAddress[:])
	h.Write(v[:])
	b := s.BlockContext
	fmt.Fprint(h, b.BlockNumber, " ", b.TimeStamp, " ")
	h.Write(b.CoinBase[:])
	for i := 0; i < min(3, s.Stack.Size()); i++ {
		k := s.Stack.Get(i)
		x, y, z := s.Storage.GetCurrent(k).Bytes32be(), s.Storage.GetOriginal(k).Bytes32be(), s.TransientStorage.Get(k).Bytes32be()
		h.Write(x[:])
		h.Write(y[:])
		h.Write(z[:])
		fmt.Fprint(h, s.Storage.IsWarm(k))
	}
	// FNV's low bits are weak.
	r := h.Sum64()
	r ^= r >> 33
	r *= 0xff51afd7ed558ccd
	return r ^ r>>33
}

// Deviates reports whether the implementation deviates in a state.
func (p *Plan) Deviates(s *st.State) bool { return p.Every > 0 && (Hash(s)^p.Salt)%p.Every == 0 }

// all is the specification as it comes.
var all = spc.Spec

// Spec provides the specification of the plan.
func (p *Plan) Spec() spc.Specification {
	if len(p.Rules) == 0 && len(p.Conflict) == 0 {
		return all
	}
	pick := map[string]int{}
	for _, n := range p.Rules {
		pick[n] |= 1
	}
	for _, n := range p.Conflict {
		pick[n] |= 2
	}
	var rules []rlz.Rule
	for _, r := range all.GetRules() {
		if k := pick[r.Name]; k != 0 {
			rules = append(rules, r)
			if k&2 != 0 {
				o := r
				o.Name += "_again"
				o.Effect = &again{r.Effect, *p}
				rules = append(rules, o)
			}
		}
	}
	return spc.NewSpecificationMap(rules...)
}

type again struct {
	rlz.Effect
	p Plan
}

func (e *again) Apply(s *st.State) {
	bad := e.p.Deviates(s)
	e.Effect.Apply(s)
	if bad {
		flip(s)
	}
}

func flip(s *st.State) {
	if s.Status == st.Failed {
		s.Status = st.Stopped
	} else {
		s.Status = st.Failed
	}
}

// Target is an implementation which does what the specification says, but for some states.
type Target struct {
	plan Plan
}

func NewTarget() *Target {
	p := Load()
	p.Conflict = nil
	return &Target{plan: p}
}

func (t *Target) StepN(s *st.State, n int) (*st.State, error) {
	if n != 1 {
		panic(fmt.Sprint("asked for ", n, " steps"))
	}
	bad := t.plan.Deviates(s)
	if bad {
		switch t.plan.Mode {
		case Error:
			return nil, errors.New("broken implementation")
		case Unsupported:
			return nil, fmt.Errorf("sorry: %w", &tosca.ErrUnsupportedRevision{Revision: s.Revision})
		case Panic:
			panic("broken implementation")
		}
	}
	res := s
	if t.plan.Spoil { // the implementation may modify the state it is given
		res = s.Clone()
		s.Gas, s.Status = 4711, st.Reverted
		s.Memory.Write([]byte{1, 2, 3}, 3)
	}
	for _, r := range all.GetRulesFor(res) {
		r.Effect.Apply(res)
		break
	}
	if bad {
		switch {
		case res.Status == st.Running && t.plan.Mode == WrongGas:
			res.Gas++
		case res.Status == st.Running && t.plan.Mode == WrongMemory:
			res.Memory.Append([]byte{0})
		default:
			flip(res)
		}
	}
	return res, nil
}
