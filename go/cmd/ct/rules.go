package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"regexp"
	"slices"
	"sort"
	"strings"

	. "github.com/Fantom-foundation/Tosca/go/ct/common"
	cgen "github.com/Fantom-foundation/Tosca/go/ct/gen"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
	"pgregory.net/rand"

	"verif/gen"
	"verif/pbt"
)

// choice is a value which the test cases of a rule have to cover.
type choice struct {
	name     string
	restrict func(*cgen.StateGenerator)
	holds    func(*model) bool
}

// aspect is what a condition talks about, and the values at its boundary.
type aspect struct {
	key     string
	choices []choice
}

// ruleGen generates the conditions of rules.
type ruleGen struct {
	t       *pbt.T
	w       *model
	used    map[string]bool
	aspects []aspect
	conds   []rlz.Condition
	text    []string
}

func (g *ruleGen) add(text string, rc rlz.Condition, key string, cs ...choice) {
	g.text, g.conds = append(g.text, text), append(g.conds, rc)
	for i := range g.aspects {
		if g.aspects[i].key == key {
			for _, c := range cs {
				if !slices.ContainsFunc(g.aspects[i].choices, func(x choice) bool { return x.name == c.name }) {
					g.aspects[i].choices = append(g.aspects[i].choices, c)
				}
			}
			return
		}
	}
	g.aspects = append(g.aspects, aspect{key, cs})
}

func around(v, lo, hi int64) (res []int64) {
	for x := v - 1; x <= v+1; x++ {
		if lo <= x && x <= hi {
			res = append(res, x)
		}
	}
	return
}

func aroundWord(v *big.Int) (res []*big.Int) {
	for d := int64(-1); d <= 1; d++ {
		x := new(big.Int).Add(v, big.NewInt(d))
		if x.Sign() >= 0 && x.BitLen() <= 256 {
			res = append(res, x)
		}
	}
	return
}

func (g *ruleGen) one() {
	t, w := g.t, g.w
	p := place{kind: 'p', i: t.N(3)}
	if t.Chance(1, 12) {
		p = place{kind: 'k', v: big.NewInt(int64(t.N(40)))}
	}
	eqs := func(f func(op int) rlz.Condition) (int, rlz.Condition) {
		op := t.N(6)
		return op, f(op)
	}
	both := func(kind string, p place, yes, no cond) {
		c := yes
		if t.Bool() {
			c = no
		}
		g.add(c.text, c.build(), kind+p.String(),
			choice{yes.text, yes.build().Restrict, func(m *model) bool { ok, err := yes.eval(m); return ok && err == nil }},
			choice{no.text, no.build().Restrict, func(m *model) bool { ok, err := no.eval(m); return ok && err == nil }})
	}
	cg := &condGen{t: t, m: w, solvable: true, places: func() place { return p }}
	switch k := t.N(18); k {
	case 0:
		v := pbt.Pick(t, []int64{w.gas, 0, 1, 200, int64(st.MaxGasUsedByCt) - 1, int64(st.MaxGasUsedByCt), int64(t.N(50000))})
		op, rc := eqs(func(op int) rlz.Condition { return comparison(op, rlz.Gas(), tosca.Gas(v)) })
		var cs []choice
		for _, x := range around(v, 0, int64(st.MaxGasUsedByCt)) {
			cs = append(cs, choice{fmt.Sprint("gas=", x), func(g *cgen.StateGenerator) { g.SetGas(tosca.Gas(x)) }, func(m *model) bool { return m.gas == x }})
		}
		g.add(fmt.Sprint("gas", opText[op], v), rc, "gas", cs...)
	case 1, 2:
		v := pbt.Pick(t, []int{len(w.stack), 0, 1, 2, 17, st.MaxStackSize - 1, st.MaxStackSize, t.N(st.MaxStackSize)})
		op, rc := eqs(func(op int) rlz.Condition { return comparison(op, rlz.StackSize(), v) })
		var cs []choice
		for _, x := range around(int64(v), 0, st.MaxStackSize) {
			cs = append(cs, choice{fmt.Sprint("size=", x), func(g *cgen.StateGenerator) { g.SetStackSize(int(x)) }, func(m *model) bool { return len(m.stack) == int(x) }})
		}
		g.add(fmt.Sprint("size", opText[op], v), rc, "size", cs...)
	case 3:
		op, v := t.N(2), st.StatusCode(t.N(int(st.NumStatusCodes)))
		var cs []choice
		for _, x := range []st.StatusCode{st.Running, st.Stopped, st.Reverted, st.Failed} {
			cs = append(cs, choice{"status=" + x.String(), func(g *cgen.StateGenerator) { g.SetStatus(x) }, func(m *model) bool { return m.status == x }})
		}
		g.add(fmt.Sprint("status", opText[op], v), comparison(op, rlz.Status(), v), "status", cs...)
	case 4:
		op, v := t.N(2), pbt.Pick(t, []int64{0, 1, int64(w.pc), 1<<16 - 1, int64(t.N(1 << 16))})
		var cs []choice
		for _, x := range around(v, 0, 1<<16-1) {
			cs = append(cs, choice{fmt.Sprint("pc=", x), func(g *cgen.StateGenerator) { g.SetPc(uint16(x)) }, func(m *model) bool { return int64(m.pc) == x }})
		}
		g.add(fmt.Sprint("pc", opText[op], v), comparison[U256](op, rlz.Pc(), toU(big.NewInt(v))), "pc", cs...)
	case 5, 6: // parameters
		if p.kind == 'k' {
			return
		}
		kind := byte('p')
		if t.Chance(1, 3) {
			kind = 'v' // has samples of its own
		}
		q := place{kind: kind, i: p.i}
		if g.used[q.String()[1:]+string('p'+'v'-kind)] {
			return // different expressions for the same value
		}
		g.used[q.String()[1:]+string(kind)] = true
		op, v := t.N(2), gen.WordBig(t)
		if p.i < len(w.stack) && t.Bool() {
			v = w.stack[len(w.stack)-1-p.i]
		}
		var cs []choice
		for _, x := range aroundWord(v) {
			cs = append(cs, choice{fmt.Sprintf("%v=%x", q, x), func(g *cgen.StateGenerator) { g.SetStackValue(p.i, toU(x)) }, func(m *model) bool {
				y, err := p.eval(m)
				return err == nil && y.Cmp(x) == 0
			}})
		}
		g.add(fmt.Sprintf("%v%s%x", q, opText[op], v), comparison[U256](op, q.expr(), toU(v)), q.String(), cs...)
	case 7: // balance
		v := pbt.Pick(t, []*big.Int{new(big.Int), big.NewInt(1), gen.WordBig(t)})
		e, name := rlz.Balance(rlz.ToAddress(p.expr())), p.String()
		if t.Chance(1, 3) {
			e, name = rlz.Balance(rlz.SelfAddress()), "self"
		}
		op, rc := eqs(func(op int) rlz.Condition { return comparison(op, e, toU(v)) })
		var cs []choice
		for _, x := range aroundWord(v) {
			cs = append(cs, choice{fmt.Sprintf("balance(%s)=%x", name, x), rlz.Eq(e, toU(x)).Restrict, func(m *model) bool {
				a := m.call.AccountAddress
				if name != "self" {
					k, err := p.eval(m)
					if err != nil {
						return false
					}
					a = addrOf(k)
				}
				b := m.accounts[a].balance
				return new(big.Int).SetBytes(b[:]).Cmp(x) == 0
			}})
		}
		g.add(fmt.Sprintf("balance(%s)%s%x", name, opText[op], v), rc, "balance"+name, cs...)
	case 8: // operation
		p := p
		if t.Bool() {
			p = place{kind: 'c'}
		}
		op, v := t.N(2), t.Byte()
		at := func(m *model) (byte, bool) {
			x, err := p.eval(m)
			if err != nil || isDataAt(m, x) {
				return 0, false
			}
			if !x.IsInt64() || x.Int64() >= int64(len(m.code)) {
				return 0, true
			}
			return m.code[x.Int64()], true
		}
		g.add(fmt.Sprintf("code[%v]%s%02x", p, opText[op], v), comparison(op, rlz.Op(p.expr()), vm.OpCode(v)), "op"+p.String(),
			choice{fmt.Sprintf("code[%v]=%02x", p, v), rlz.Eq(rlz.Op(p.expr()), vm.OpCode(v)).Restrict, func(m *model) bool { b, ok := at(m); return ok && b == v }},
			choice{fmt.Sprintf("code[%v]≠%02x", p, v), rlz.Ne(rlz.Op(p.expr()), vm.OpCode(v)).Restrict, func(m *model) bool { b, ok := at(m); return ok && b != v }})
	case 9:
		op, v := t.N(2), t.Bool()
		g.add(fmt.Sprint("readonly", opText[op], v), comparison(op, rlz.ReadOnly(), v), "readonly", choice{fmt.Sprint("readonly=", v), func(g *cgen.StateGenerator) { g.SetReadOnly(v) }, func(m *model) bool { return m.static == v }})
	case 10:
		revs := []tosca.Revision{tosca.R07_Istanbul, tosca.R09_Berlin, tosca.R10_London, tosca.R11_Paris, tosca.R12_Shanghai, tosca.R13_Cancun, R99_UnknownNextRevision}
		lo := t.N(len(revs))
		hi := lo + t.N(len(revs)-lo)
		want := revs[max(0, lo-1):min(len(revs), hi+2)]
		if lo == hi && lo < len(revs)-1 {
			want = revs[lo : lo+1]
		}
		var cs []choice
		for _, x := range want {
			cs = append(cs, choice{fmt.Sprint("revision=", int(x)), func(g *cgen.StateGenerator) { g.SetRevision(x) }, func(m *model) bool { return m.rev == x }})
		}
		g.add(fmt.Sprintf("revision %v..%v", revs[lo], revs[hi]), rlz.RevisionBounds(revs[lo], revs[hi]), "revision", cs...)
	case 11:
		both("isCode", p, cg.kind(10), cg.kind(11))
	case 12:
		both("warmSlot", p, cg.kind(12), cg.kind(13))
	case 13:
		both("transient", p, cg.kind(15), cg.kind(16))
	case 14:
		both("empty", p, cg.kind(17), cg.kind(18))
	case 15:
		switch t.N(3) {
		case 0:
			both("destructed", place{kind: 'c'}, cg.kind(20), cg.kind(21))
		case 1:
			if p.kind != 'k' {
				both("blob", p, cg.kind(24), cg.kind(25))
			}
		case 2:
			if g.used["warm"+p.String()] {
				return
			}
			g.used["warm"+p.String()] = true
			c := cg.kind(19) // each side is a case of its own
			g.add(c.text, c.build(), "warm"+p.String(), choice{c.text, c.build().Restrict, func(m *model) bool { ok, err := c.eval(m); return ok && err == nil }})
		}
	case 16: // block window
		if p.kind == 'k' {
			return
		}
		rc := rlz.InRange256FromCurrentBlock(p.expr())
		if t.Bool() {
			rc = rlz.OutOfRange256FromCurrentBlock(p.expr())
		}
		var cs []choice
		for _, off := range []int64{0, 1, 256, 257} {
			cs = append(cs, choice{fmt.Sprintf("block-%v=%d", p, off), func(g *cgen.StateGenerator) {
				e := rlz.Param(p.i)
				e.BindTo(g)
				g.SetBlockNumberOffsetValue(e.GetVariable(), off)
			}, func(m *model) bool {
				x, err := p.eval(m)
				return err == nil && new(big.Int).Sub(new(big.Int).SetUint64(m.block.BlockNumber), x).Cmp(big.NewInt(off)) == 0
			}})
		}
		g.add(fmt.Sprintf("window(%v)", p), rc, "window"+p.String(), cs...)
	case 17:
		q := place{kind: 'p', i: t.N(3)}
		if q.i == p.i || p.kind == 'k' {
			return
		}
		first := true
		cg.places = func() place {
			if first {
				first = false
				return p
			}
			return q
		}
		c := cg.kind(14)
		if g.used["config"+p.String()+q.String()] {
			return
		}
		g.used["config"+p.String()+q.String()] = true
		g.add(c.text, c.build(), c.text, choice{c.text, c.build().Restrict, func(m *model) bool { ok, err := c.eval(m); return ok && err == nil }})
	}
}

// unbound is a condition whose test cases cannot be generated.
type unbound struct{ n *int }

func (u unbound) Check(*st.State) (bool, error)   { return true, nil }
func (u unbound) Restrict(g *cgen.StateGenerator) { g.BindStackValue(0, "nobody") }
func (u unbound) String() string                  { return "unbound" }
func (u unbound) GetTestValues() []rlz.TestValue {
	return []rlz.TestValue{rlz.NewTestValue[int64]("unbound", rlz.BlockNumberOffsetDomain{}, 0, u.restrict)}
}
func (u unbound) restrict(g *cgen.StateGenerator, _ int64) { u.Restrict(g) }

type samples []U256

func (s samples) Samples() []U256 { return s }

var parameters = []rlz.Parameter{rlz.NumericParameter{}, rlz.JumpTargetParameter{}, rlz.MemoryOffsetParameter{}, rlz.DataOffsetParameter{}, rlz.SizeParameter{}, rlz.TopicParameter{}, rlz.AddressParameter{}, rlz.GasParameter{}, rlz.ValueParameter{}}

// distinct is the number of different test values per property.
func distinct(c rlz.Condition) (res []int) {
	byProperty := map[rlz.Property][]rlz.TestValue{}
	for _, v := range c.GetTestValues() {
		if !slices.ContainsFunc(byProperty[v.Property()], func(x rlz.TestValue) bool { return x.Compare(v) == 0 }) {
			byProperty[v.Property()] = append(byProperty[v.Property()], v)
		}
	}
	for _, vs := range byProperty {
		res = append(res, len(vs))
	}
	sort.Ints(res)
	return
}

func product(list []int) int {
	n := 1
	for _, x := range list {
		n *= x
		if n > 1<<40 {
			return 1 << 40
		}
	}
	return n
}

// enumerate collects the test cases of a rule.
func enumerate(t *pbt.T, r *rlz.Rule, seed uint64, limit int) (res []*st.State, calls int, err error) {
	err = r.EnumerateTestCases(rand.New(seed), func(s *st.State) rlz.ConsumerResult {
		calls++
		res = append(res, s.Clone())
		if calls == limit {
			return rlz.ConsumeAbort
		}
		if calls > 20000 {
			t.Failf("too many test cases", "%v", r.Condition)
		}
		return rlz.ConsumeContinue
	})
	return
}

func release(ss ...[]*st.State) {
	for _, list := range ss {
		for _, s := range list {
			s.Release()
		}
	}
}

// rules: test cases of rules cover the boundaries of their conditions and the cross product of their parameters.
func rules(t *pbt.T) {
	w := witness(t)
	g := &ruleGen{t: t, w: w, used: map[string]bool{}}
	for n := 1 + t.N(3); n > 0; n-- {
		g.one()
	}
	if len(g.conds) == 0 {
		t.Discard()
	}
	rule := rlz.Rule{Name: "generated", Condition: rlz.And(g.conds...)}
	desc := strings.Join(g.text, " ∧ ")
	total := product(distinct(rule.Condition))
	combos := 1
	for _, a := range g.aspects {
		combos *= len(a.choices)
	}
	if total > 150 || combos > 64 {
		t.Discard()
	}
	seed := t.U64()
	t.NonTrivial(pbt.HashString(desc) ^ seed)

	// the cases of the conditions
	first, calls, err := enumerate(t, &rule, seed, 0)
	t.Check(err == nil, "error of the enumeration", "%s: %v", desc, err)
	info := rule.GetTestCaseEnumerationInfo()
	t.Check(info.TotalNumberOfCases() == total, "total number of cases", "%s: got %d, want %d\n%s", desc, info.TotalNumberOfCases(), total, info.String())
	t.Check(calls <= total, "more cases than announced", "%s: %d of %d", desc, calls, total)
	for _, s := range first {
		if bad := illFormed(s); bad != "" {
			t.Failf("ill-formed state", "%s: %s", desc, bad)
		}
	}
	again, _, err := enumerate(t, &rule, seed, 0)
	t.Check(err == nil && len(again) == len(first), "enumeration is not repeatable", "%s: %d cases, then %d (%v)", desc, len(first), len(again), err)
	for i := range first {
		t.Check(first[i].Eq(again[i]), "enumeration is not repeatable", "%s: case %d\n%s", desc, i, strings.Join(first[i].Diff(again[i]), "\n"))
	}
	release(again)
	var consts []*big.Int
	for i := int64(0); i < 40; i++ {
		consts = append(consts, big.NewInt(i))
	}
	models := func(ss []*st.State) (res []*model) {
		for _, s := range ss {
			res = append(res, fromState(s, consts...))
		}
		return
	}
	cases := models(first)
	covered := func(cs []choice) bool {
		return slices.ContainsFunc(cases, func(m *model) bool {
			return !slices.ContainsFunc(cs, func(c choice) bool { return !c.holds(m) })
		})
	}
	sat, more := 0, 0
	for i := 0; i < combos; i++ {
		var cs []choice
		k := i
		for _, a := range g.aspects {
			cs = append(cs, a.choices[k%len(a.choices)])
			k /= len(a.choices)
		}
		gen := cgen.NewStateGenerator()
		var names []string
		for _, c := range cs {
			c.restrict(gen)
			names = append(names, c.name)
		}
		name := strings.Join(names, " ∧ ")
		s, err := gen.Generate(rand.New(seed + 1))
		if err != nil {
			t.Check(errors.Is(err, cgen.ErrUnsatisfiable), "error of the generator", "%s: %v", name, err)
			continue
		}
		m := fromState(s, consts...)
		for _, c := range cs {
			t.Check(c.holds(m), "unsatisfied constraint "+kindOf(c.name), "%s of %s\n%v", c.name, name, m)
		}
		sat++
		s.Release()
		for !covered(cs) {
			if more++; more > 4 {
				var kinds []string
				for _, a := range g.aspects {
					kinds = append(kinds, kindOf(a.key))
				}
				sort.Strings(kinds)
				t.Failf("case is not covered: "+strings.Join(kinds, " "), "%s: no test case with %s among %d\n%s", desc, name, len(cases), info.String())
			}
			x, _, err := enumerate(t, &rule, seed+uint64(100*more), 0)
			t.Check(err == nil, "error of the enumeration", "%s: %v", desc, err)
			cases = append(cases, models(x)...)
			release(x)
		}
	}
	t.Labelf("satisfiable %d", min(sat, 20))
	for _, a := range g.aspects {
		t.Label(kindOf(a.key))
	}
	t.Sample(func() string {
		return fmt.Sprintf("%s: %d of %d cases, %d combinations required", desc, len(first), total, sat)
	})

	// stop after some
	if len(first) > 0 {
		k := 1 + t.N(len(first))
		part, calls, err := enumerate(t, &rule, seed, k)
		t.Check(err == nil && calls == k, "aborted enumeration", "%s: %d calls instead of %d, %v", desc, calls, k, err)
		release(part)
	}
	// what cannot be generated is reported
	broken := rlz.Rule{Name: "broken", Condition: rlz.And(append(slices.Clone(g.conds), unbound{})...)}
	s, err := broken.GenerateSatisfyingState(rand.New(seed))
	t.Check(err != nil && s == nil, "unbound variable is ignored", "%s", desc)
	if errors.Is(err, cgen.ErrUnboundVariable) {
		x, _, err := enumerate(t, &broken, seed, 0)
		t.Check(len(x) == 0, "cases of an unbound variable", "%s", desc)
		if len(first) > 0 {
			t.Check(err != nil, "error of the enumeration is dropped", "%s", desc)
		}
	}

	// parameters
	if n := t.N(5); n > 0 && len(first) > 0 {
		per := 1
		for i := 0; i < n; i++ {
			var p rlz.Parameter
			if t.Bool() {
				p = pbt.Pick(t, parameters)
			} else {
				var s samples
				for k := t.N(4); k > 0; k-- {
					s = append(s, toU(gen.WordBig(t)))
				}
				p = s
			}
			if per*(len(p.Samples())+1) > 200 {
				break
			}
			per *= len(p.Samples()) + 1
			rule.Parameter = append(rule.Parameter, p)
		}
		if total*per <= 1500 {
			checkParameters(t, &rule, seed, desc, total*per, len(first))
		}
	}
	release(first)
}

// checkParameters: every base case comes with every combination of parameters.
func checkParameters(t *pbt.T, rule *rlz.Rule, seed uint64, desc string, total, base int) {
	all, calls, err := enumerate(t, rule, seed, 0)
	var sizes []int
	for _, p := range rule.Parameter {
		sizes = append(sizes, len(p.Samples()))
	}
	desc = fmt.Sprintf("%s with samples %v", desc, sizes)
	t.Check(err == nil, "error of the enumeration", "%s: %v", desc, err)
	info := rule.GetTestCaseEnumerationInfo()
	t.Check(info.TotalNumberOfCases() == total, "total number of cases", "%s: got %d, want %d\n%s", desc, info.TotalNumberOfCases(), total, info.String())
	t.Check(calls <= total, "more cases than announced", "%s: %d of %d", desc, calls, total)
	t.Labelf("parameters %d", len(sizes))
	// group the cases by what is not a parameter
	groups := map[string][][]U256{}
	depth := map[string]int{}
	for _, s := range all {
		d := min(len(sizes), s.Stack.Size())
		var tuple []U256
		var rest []byte
		for i := 0; i < s.Stack.Size(); i++ {
			v := s.Stack.Get(i)
			if i < d {
				tuple = append(tuple, v)
			} else {
				b := v.Bytes32be()
				rest = append(rest, b[:]...)
			}
		}
		for _, part := range [][]byte{s.Code.Copy(), s.CallData.ToBytes(), s.LastCallReturnData.ToBytes(), s.Memory.Read(0, uint64(s.Memory.Size()))} {
			rest = binary.BigEndian.AppendUint64(rest, pbt.Hash(part))
		}
		k := fmt.Sprint(pbt.Hash(rest), s.Status, s.Gas, s.GasRefund, s.Pc, s.Revision, s.ReadOnly, s.Stack.Size(), s.CallContext, s.BlockContext, s.HasSelfDestructed)
		groups[k], depth[k] = append(groups[k], tuple), d
	}
	for k, tuples := range groups {
		d := depth[k]
		per := 1
		for i := 0; i < d; i++ {
			per *= sizes[i] + 1
		}
		t.Check(len(tuples)%per == 0, "incomplete cross product of parameters", "%s: %d cases, want %d", desc, len(tuples), per)
		if len(tuples) != per {
			continue // base cases which differ in parameters only
		}
		// per position the samples and one further value
		var domains [][]U256
		for i := 0; i < d; i++ {
			count := map[U256]int{}
			for _, tp := range tuples {
				count[tp[i]]++
			}
			dom := slices.Clone(rule.Parameter[i].Samples())
			for _, v := range dom {
				count[v] -= per / (sizes[i] + 1)
			}
			var rest []U256
			for v, n := range count {
				t.Check(n >= 0, "missing sample of a parameter", "%s: parameter %d, %v", desc, i, v)
				if n > 0 {
					rest = append(rest, v)
				}
			}
			t.Check(len(rest) == 1, "values of a parameter", "%s: parameter %d has %d values besides its samples", desc, i, len(rest))
			domains = append(domains, append(dom, rest[0]))
		}
		want := map[string]int{}
		var rec func(i int, s string)
		rec = func(i int, s string) {
			if i == d {
				want[s]++
				return
			}
			for _, v := range domains[i] {
				rec(i+1, s+v.String())
			}
		}
		rec(0, "")
		for _, tp := range tuples {
			s := ""
			for _, v := range tp {
				s += v.String()
			}
			want[s]--
		}
		for s, n := range want {
			t.Check(n == 0, "incomplete cross product of parameters", "%s: %s occurs %d times too few", desc, s, n)
		}
	}
	// each base case gave at least one group or a share of one
	if base > 0 {
		t.Check(len(groups) > 0, "no cases with parameters", "%s", desc)
	}
	release(all)
}

var specRules = func() []rlz.Rule {
	res := spc.Spec.GetRules()
	sort.SliceStable(res, func(i, j int) bool { return res[i].Name < res[j].Name })
	return res
}()

// specRulesHold: each rule of the specification has states which satisfy it.
func specRulesHold(t *pbt.T) {
	r := pbt.Pick(t, specRules)
	seed := t.U64()
	s, err := r.GenerateSatisfyingState(rand.New(seed))
	t.NonTrivial(pbt.HashString(r.Name) ^ seed)
	t.Check(err == nil, "rule cannot be satisfied", "%s: %v", r.Name, err)
	t.Sample(func() string { return r.Name + ": " + fromState(s).String() })
	if bad := illFormed(s); bad != "" {
		t.Failf("ill-formed state", "%s: %s", r.Name, bad)
	}
	before := s.Clone()
	ok, err := r.Condition.Check(s)
	t.Check(ok && err == nil, "rule is not satisfied", "%s: %v %v\n%v", r.Name, ok, err, fromState(s))
	found := spc.Spec.GetRulesFor(s)
	t.Check(slices.ContainsFunc(found, func(x rlz.Rule) bool { return x.Name == r.Name }), "rule is not found for its state", "%s: %d others\n%v", r.Name, len(found), fromState(s))
	t.Check(s.Eq(before), "looking up rules changes the state", "%s", r.Name)
	// every rule that applies has the same effect
	var want *st.State
	if !s.Code.IsCode(int(s.Pc)) { // documented to be out of scope
		found = found[:1]
	}
	for _, x := range found {
		c := s.Clone()
		x.Effect.Apply(c)
		if want == nil {
			want = c
			continue
		}
		t.Check(c.Eq(want), "rules disagree", "%s, %s\n%s\n%v", found[0].Name, x.Name, strings.Join(c.Diff(want), "\n"), fromState(s))
		c.Release()
	}
	want.Release()
	t.Check(s.Eq(before), "effects change the original", "%s", r.Name)
	before.Release()
	s.Release()

	// filters
	f := pbt.Pick(t, []string{".*", "^add", "jump", "_with", "[0-9]$", "^$", "LOG|log", regexp.QuoteMeta(r.Name)})
	re := regexp.MustCompile(f)
	want2 := 0
	for _, x := range specRules {
		if re.MatchString(x.Name) {
			want2++
		}
	}
	got := spc.FilterRules(specRules, re)
	t.Check(len(got) == want2, "filtered rules", "%s: %d, want %d", f, len(got), want2)
	for _, x := range got {
		t.Check(re.MatchString(x.Name), "filtered rules", "%s: %s", f, x.Name)
	}
	t.Check(len(spc.FilterRules(specRules, nil)) == len(specRules), "filtered rules", "no filter")
}
