package main

import (
	"errors"
	"slices"
	"sort"
	"strings"

	. "github.com/Fantom-foundation/Tosca/go/ct/common"
	cgen "github.com/Fantom-foundation/Tosca/go/ct/gen"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"pgregory.net/rand"

	"verif/pbt"
)

// testCase generates one of the test cases of a rule of the specification, as its enumeration does.
func testCase(t *pbt.T) (*rlz.Rule, *st.State) {
	r := pbt.Pick(t, specRules)
	g := cgen.NewStateGenerator()
	if t.Chance(1, 2) {
		r.Condition.Restrict(g) // the regular case, with samples as parameters
	} else {
		byProperty := map[rlz.Property][]rlz.TestValue{}
		var names []rlz.Property
		for _, v := range r.Condition.GetTestValues() {
			if byProperty[v.Property()] == nil {
				names = append(names, v.Property())
			}
			byProperty[v.Property()] = append(byProperty[v.Property()], v)
		}
		slices.Sort(names)
		for _, n := range names {
			vs := byProperty[n]
			sort.SliceStable(vs, func(i, j int) bool { return vs[i].Compare(vs[j]) < 0 })
			v := pbt.Pick(t, vs)
			if n == rlz.Status().Property() && t.Chance(4, 5) { // ended states are all alike
				rlz.Eq(rlz.Status(), st.Running).Restrict(g)
				continue
			}
			v.Restrict(g)
		}
	}
	s, err := g.Generate(rand.New(t.U64()))
	if errors.Is(err, cgen.ErrUnsatisfiable) {
		t.Discard()
	}
	t.Check(err == nil, "error of the generator", "%s: %v", r.Name, err)
	for i, p := range r.Parameter {
		if i >= s.Stack.Size() {
			break
		}
		if t.Chance(3, 4) {
			s.Stack.Set(i, pbt.Pick(t, p.Samples()))
		}
	}
	return &r, s
}

// ownStates: on the states which the specification generates for testing, target, specification and reference EVM agree.
func ownStates(t *pbt.T) {
	evm := withTarget()
	r, s := testCase(t)
	m := fromState(s, deep(s)...)
	known := m.rev <= tosca.R13_Cancun
	inData := !s.Code.IsCode(int(s.Pc))
	if m.pc < len(m.code) {
		m.op = m.code[m.pc]
	}
	want := m.clone()
	switch {
	case inData:
		t.Discard()
	case !known:
		want.status = st.Failed
	case m.status == st.Running:
		for k := range m.cur { // cold but changed
			if !m.warmSlots[k] && m.cur[k] != m.orig[k] {
				t.Discard()
			}
		}
		for k := range m.orig {
			if !m.warmSlots[k] && m.cur[k] != m.orig[k] {
				t.Discard()
			}
		}
		if !want.step(1, 12<<20) {
			t.Discard()
		}
	}
	un := newUniverse(m, want)
	t.NonTrivial(m.key())
	t.Labelf("%v", want.status)
	t.Sample(func() string { return r.Name + ": " + m.String() })
	if ds := m.diff(s, un); len(ds) > 0 {
		t.Failf("harness: "+fields(ds), "%s", strings.Join(ds, "\n"))
	}
	found := spc.Spec.GetRulesFor(s)
	t.Check(len(found) > 0, "no rule: "+opSig(m), "%v", m)
	for _, x := range found {
		c := s.Clone()
		x.Effect.Apply(c)
		if ds := want.diff(c, un); len(ds) > 0 {
			t.Failf("rule for "+opSig(m)+": "+fields(ds), "rule %s\n%s\nof %v", x.Name, strings.Join(ds, "\n"), m)
		}
		c.Release()
	}
	c := s.Clone()
	res, err := evm.StepN(c, 1)
	if !known {
		var e *tosca.ErrUnsupportedRevision
		t.Check(errors.As(err, &e) && e.Revision == R99_UnknownNextRevision, targetName+" unknown revision", "got %v", err)
		return
	}
	t.Check(err == nil, targetName+" error", "%v\n%v", err, m)
	if ds := want.diff(res, un); len(ds) > 0 {
		t.Failf(targetName+" "+opSig(m)+": "+fields(ds), "%s\nof %v", strings.Join(ds, "\n"), m)
	}
	if ds := m.diff(s, un); len(ds) > 0 {
		t.Failf("step changes the original state", "%s", strings.Join(ds, "\n"))
	}
}
