package main

import (
	"errors"
	"fmt"
	"os"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/ct"
	. "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"
	"github.com/Fantom-foundation/Tosca/go/tosca"

	"verif/pbt"
	"verif/ref"
)

var targets = map[string]func() ct.Evm{"lfvm": lfvm.NewConformanceTestingTarget}

func theTarget() (string, ct.Evm) {
	n := os.Getenv("CT_TARGET")
	if n == "" {
		n = "lfvm"
	}
	return n, targets[n]()
}

var targetName, target = "", ct.Evm(nil)

func withTarget() ct.Evm {
	if target == nil {
		targetName, target = theTarget()
	}
	return target
}

func opSig(m *model) string {
	if !ref.Defined(m.op, m.rev) {
		return "undefined instruction"
	}
	return fmt.Sprintf("instruction %02x", m.op)
}

func fields(ds []string) string { // the kinds of differences
	seen, res := map[string]bool{}, []string{}
	for _, d := range ds {
		f, _, _ := strings.Cut(d, ":")
		f = strings.Fields(f)[0]
		if !seen[f] {
			seen[f] = true
			res = append(res, f)
		}
	}
	return strings.Join(res, ",")
}

// step: one or more steps of a conformance testing target equal the same steps of the reference EVM.
func step(t *pbt.T) {
	evm := withTarget()
	m := newModel(t)
	if !m.chooseGas(t) {
		t.Discard()
	}
	n := 1
	if t.Chance(1, 8) {
		n = 1 + t.N(12)
	}
	want := m.clone()
	if !want.step(n, 12<<20) {
		t.Discard()
	}
	un := newUniverse(m, want)
	t.NonTrivial(m.key())
	t.Labelf("%v", want.status)
	t.Sample(func() string { return fmt.Sprintf("%d step(s) of %s", n, m) })
	s := m.state()
	res, err := evm.StepN(s, n)
	if err != nil {
		t.Failf(targetName+" error", "StepN(%d) fails: %v\n%v", n, err, m)
	}
	ds := want.diff(res, un)
	if len(ds) == 0 {
		return
	}
	if n > 1 && targetName == "lfvm" { // jumps over padding count as steps of their own
		for k := n - 1; k > 0; k-- {
			o := m.clone()
			o.step(k, 12<<20)
			if o.status == st.Running && len(o.diff(res, un)) == 0 {
				t.Labelf("fewer steps")
				return
			}
		}
	}
	sig := fmt.Sprintf("%s %s: %s", targetName, opSig(m), fields(ds))
	if n > 1 {
		sig = targetName + " several steps: " + fields(ds)
	}
	t.Failf(sig, "after %d step(s):\n%s\nof %v", n, strings.Join(ds, "\n"), m)
}

// stepTerminal: ended states are left alone, unknown revisions are refused.
func stepTerminal(t *pbt.T) {
	evm := withTarget()
	m := newModel(t)
	m.gas = int64(t.N(100000))
	unknown := t.Bool()
	if unknown {
		m.rev = pbt.Pick(t, []tosca.Revision{R99_UnknownNextRevision, tosca.R13_Cancun + 1, tosca.Revision(14 + t.N(80))})
	}
	if !unknown || t.Bool() {
		m.status = pbt.Pick(t, []st.StatusCode{st.Stopped, st.Reverted, st.Failed})
		m.out = t.Bytes(t.N(20))
	}
	s := m.state()
	t.NonTrivial(m.key())
	res, err := evm.StepN(s, 1+t.N(3))
	if unknown {
		var e *tosca.ErrUnsupportedRevision
		t.Check(errors.As(err, &e) && e.Revision == m.rev, targetName+" unknown revision", "revision %d: got %v", m.rev, err)
	} else {
		t.Check(err == nil, targetName+" ended state", "error %v", err)
	}
	if res == nil {
		t.Failf(targetName+" no state", "no state for %v", m)
	}
	if ds := m.diff(res, newUniverse(m)); len(ds) > 0 {
		t.Failf(targetName+" changes ended state", "%s\nof %v", strings.Join(ds, "\n"), m)
	}
	t.Check(m.status == st.Failed || !unknown || res.Stack.Size() == len(m.stack), targetName+" changes ended state", "stack")
}

// spec: every state has rules, and every rule that applies has the effect of the reference EVM.
func spec(t *pbt.T) {
	m := newModel(t)
	if !m.chooseGas(t) {
		t.Discard()
	}
	mode := t.Weighted(40, 1, 2, 2)
	want := m.clone()
	switch mode {
	case 0:
		if !want.step(1, 12<<20) {
			t.Discard()
		}
	case 1: // unknown revision
		m.rev = R99_UnknownNextRevision
		if t.Bool() {
			m.status = pbt.Pick(t, []st.StatusCode{st.Stopped, st.Reverted, st.Failed})
		}
		want = m.clone()
		want.status = st.Failed
	case 2: // ended
		m.status = pbt.Pick(t, []st.StatusCode{st.Stopped, st.Reverted, st.Failed})
		m.out = t.Bytes(t.N(20))
		want = m.clone()
	case 3: // in the middle of immediate data
		data := map[int]bool{}
		for i := 0; i < len(m.code); i++ {
			if n := int(m.code[i]) - 0x5f; n > 0 && n <= 32 {
				for j := 1; j <= n && i+j < len(m.code); j++ {
					data[i+j] = true
				}
				i += n
			}
		}
		var at []int
		for i := range m.code {
			if data[i] {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			t.Discard()
		}
		m.pc = pbt.Pick(t, at)
		want = m.clone()
	}
	un := newUniverse(m, want)
	s := m.state()
	rules := spc.Spec.GetRulesFor(s)
	if ds := m.diff(s, un); len(ds) > 0 {
		t.Failf("looking up rules changes the state", "%s\n%v", strings.Join(ds, "\n"), m)
	}
	t.NonTrivial(m.key())
	t.Labelf("mode %d, %d rules, %v", mode, len(rules), want.status)
	if len(rules) == 0 {
		if mode == 0 && m.pc >= len(m.code) && len(m.code) > 0 {
			t.Failf("no rule at the end of the code", "%v", m)
		}
		t.Failf(fmt.Sprintf("no rule: mode %d %s", mode, opSig(m)), "%v", m)
	}
	t.Sample(func() string { return fmt.Sprintf("%d rule(s), first %s, for %s", len(rules), rules[0].Name, m) })
	for _, r := range rules {
		c := s.Clone()
		ok, err := r.Condition.Check(c)
		t.Check(ok && err == nil, "rule does not apply", "%s: %v %v\n%v", r.Name, ok, err, m)
		r.Effect.Apply(c)
		if ds := want.diff(c, un); len(ds) > 0 {
			sig := fmt.Sprintf("rule for %s: %s", opSig(m), fields(ds))
			if mode != 0 {
				sig = fmt.Sprintf("rule for mode %d: %s", mode, fields(ds))
			}
			t.Failf(sig, "rule %s\n%s\nof %v", r.Name, strings.Join(ds, "\n"), m)
		}
		if ds := m.diff(s, un); len(ds) > 0 {
			t.Failf("effect on a clone changes the original: "+fields(ds), "rule %s\n%s\n%v", r.Name, strings.Join(ds, "\n"), m)
		}
		c.Release()
	}
	s.Release()
}
