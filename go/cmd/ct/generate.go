package main

import (
	"errors"
	"fmt"
	"math/big"
	"strings"

	. "github.com/Fantom-foundation/Tosca/go/ct/common"
	cgen "github.com/Fantom-foundation/Tosca/go/ct/gen"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
	"pgregory.net/rand"

	"verif/gen"
	"verif/pbt"
)

// illFormed: what every generated state has to satisfy, whatever it is generated for
func illFormed(s *st.State) string {
	b := s.BlockContext
	rev := tosca.R07_Istanbul
	for rev < tosca.R13_Cancun && b.BlockNumber >= fork(rev+1) {
		rev++
	}
	lo, hi := fork(rev), fork(rev+1)
	if rev == tosca.R13_Cancun {
		lo, hi = 5000, 6000
		if b.BlockNumber >= 6000 {
			rev, lo, hi = R99_UnknownNextRevision, 6000, 1<<64-1
		}
	}
	self := s.CallContext.AccountAddress
	switch {
	case s.Status < 0 || s.Status >= st.NumStatusCodes:
		return fmt.Sprintf("status %d", s.Status)
	case s.Stack.Size() < 0 || s.Stack.Size() > st.MaxStackSize:
		return fmt.Sprintf("stack of %d", s.Stack.Size())
	case s.Memory.Size()%32 != 0:
		return fmt.Sprintf("memory of %d", s.Memory.Size())
	case s.Gas < 0 || s.Gas > st.MaxGasUsedByCt:
		return fmt.Sprintf("gas %d", s.Gas)
	case s.GasRefund < -st.MaxGasUsedByCt || s.GasRefund > st.MaxGasUsedByCt:
		return fmt.Sprintf("refund %d", s.GasRefund)
	case s.Code.Length() > st.MaxCodeSize:
		return fmt.Sprintf("code of %d", s.Code.Length())
	case s.CallData.Length() > st.MaxDataSize || s.LastCallReturnData.Length() > st.MaxDataSize || s.ReturnData.Length() > st.MaxDataSize:
		return "data size"
	case s.Revision != rev:
		return fmt.Sprintf("revision %v at block %d", s.Revision, b.BlockNumber)
	case b.TimeStamp < lo || b.TimeStamp >= hi:
		return fmt.Sprintf("time %d with revision %v", b.TimeStamp, rev)
	case s.ReturnData.Length() > 0 && s.Status != st.Stopped && s.Status != st.Reverted:
		return "return data while " + s.Status.String()
	case len(s.Logs.Entries) > 0 || len(s.SelfDestructedJournal) > 0 || len(s.CallJournal.Past) > 0:
		return "traces of an execution"
	case !s.Accounts.Exists(self):
		return "no executing account"
	case s.TransactionContext == nil:
		return "no transaction"
	}
	return ""
}

// direct are constraints which conditions of the specification language cannot express.
func direct(t *pbt.T, w *model) (cond, func(*cgen.StateGenerator)) {
	c := func(s string, f func(m *model) bool) cond {
		return cond{text: s, eval: func(m *model) (bool, error) { return f(m), nil }}
	}
	switch t.N(7) {
	case 0:
		v := w.refund - 1 + int64(t.N(3))
		return c(fmt.Sprint("refund=", v), func(m *model) bool { return m.refund == v }), func(g *cgen.StateGenerator) { g.SetGasRefund(tosca.Gas(v)) }
	case 1:
		v := w.refund - 1 + int64(t.N(3))
		return c(fmt.Sprint("refund≥", v), func(m *model) bool { return m.refund >= v }), func(g *cgen.StateGenerator) { g.AddGasRefundLowerBound(tosca.Gas(v)) }
	case 2:
		v := w.refund - 1 + int64(t.N(3))
		return c(fmt.Sprint("refund≤", v), func(m *model) bool { return m.refund <= v }), func(g *cgen.StateGenerator) { g.AddGasRefundUpperBound(tosca.Gas(v)) }
	case 3:
		pos, op := t.N(len(w.code)+2), t.Byte()
		if pos < len(w.code) && t.Chance(4, 5) {
			op = w.code[pos]
		}
		return c(fmt.Sprintf("code[%d]==%02x", pos, op), func(m *model) bool {
				return pos < len(m.code) && m.code[pos] == op && !dataAt(m.code)[pos]
			}), func(g *cgen.StateGenerator) {
				g.SetCodeOperation(pos, vm.OpCode(op))
			}
	case 4:
		rev := tosca.R07_Istanbul + tosca.Revision(t.N(7))
		if rev > tosca.R13_Cancun {
			rev = R99_UnknownNextRevision
		}
		if t.Chance(2, 3) {
			rev = w.rev
		}
		return c(fmt.Sprintf("revision=%d", rev), func(m *model) bool { return m.rev == rev }), func(g *cgen.StateGenerator) { g.SetRevision(rev) }
	case 5:
		i := t.N(3)
		at := func(m *model) *big.Int {
			d := new(big.Int).SetUint64(m.block.BlockNumber)
			if i >= len(m.stack) {
				return gen.Pow2(256)
			}
			return d.Sub(d, m.stack[len(m.stack)-1-i])
		}
		off := rlz.BlockNumberOffsetDomain{}.SamplesForAll(nil)[t.N(8)]
		if d := at(w); d.IsInt64() && t.Chance(2, 3) {
			off = d.Int64()
		}
		return c(fmt.Sprintf("block-p%d=%d", i, off), func(m *model) bool { return at(m).Cmp(big.NewInt(off)) == 0 }), func(g *cgen.StateGenerator) {
			p := rlz.Param(i)
			p.BindTo(g)
			g.SetBlockNumberOffsetValue(p.GetVariable(), off)
		}
	}
	i := t.N(4)
	v := gen.WordBig(t)
	if i < len(w.stack) && t.Chance(2, 3) {
		v = near(t, w.stack[len(w.stack)-1-i])
	}
	return c(fmt.Sprintf("p%d==%x", i, v), func(m *model) bool { return i < len(m.stack) && m.stack[len(m.stack)-1-i].Cmp(v) == 0 }), func(g *cgen.StateGenerator) {
		g.SetStackValue(i, toU(v))
	}
}

func kindOf(text string) string {
	if i := strings.IndexAny(text, "([=≠<≤>≥0123456789"); i >= 0 {
		if i == 0 {
			return "conjunction"
		}
		return text[:i]
	}
	return text
}

type constraint struct {
	cond
	list  []cond        // the parts of a conjunction
	rc    rlz.Condition // or
	apply func(*cgen.StateGenerator)
}

func (c *constraint) restrict(g *cgen.StateGenerator) {
	if c.rc != nil {
		c.rc.Restrict(g)
	} else {
		c.apply(g)
	}
}

func (c *constraint) parts() []cond {
	if len(c.list) > 0 {
		return c.list
	}
	return []cond{c.cond}
}

// deep returns the words of a stack from where fromState stops.
func deep(s *st.State) (res []*big.Int) {
	for i := 10; i < s.Stack.Size(); i++ {
		res = append(res, s.Stack.Get(i).ToBigInt())
	}
	return
}

func witness(t *pbt.T) *model {
	for {
		s, err := cgen.NewStateGenerator().Generate(rand.New(t.U64()))
		if err != nil {
			t.Failf("unconstrained generator fails", "%v", err)
		}
		m := fromState(s)
		if bad := illFormed(s); bad != "" {
			t.Failf("ill-formed state", "%s: %v", bad, m)
		}
		s.Release()
		return m
	}
}

// easy are constraints which do not interact: bounds around the values of w, and constraints on parameters each of which occurs once.
func easy(t *pbt.T, w *model) (cs []*constraint) {
	add := func(c cond, rc rlz.Condition) { cs = append(cs, &constraint{c, nil, rc, nil}) }
	bound := func(cmp int) (op, d int) { // an operator and the distance of a bound that a value satisfies
		switch op = []int{0, 2, 3, 4, 5}[t.N(5)]; op {
		case 2:
			d = 1 + t.N(3)
		case 3:
			d = t.N(3)
		case 4:
			d = -1 - t.N(3)
		case 5:
			d = -t.N(3)
		}
		return
	}
	for n := t.N(3); n > 0; n-- {
		op, d := bound(0)
		v := w.gas + int64(d)
		add(cond{text: fmt.Sprint("gas", opText[op], v), eval: func(m *model) (bool, error) { return holds(op, big.NewInt(m.gas).Cmp(big.NewInt(v))), nil }}, comparison(op, rlz.Gas(), tosca.Gas(v)))
	}
	for n := t.N(3); n > 0; n-- {
		op, d := bound(0)
		v := len(w.stack) + d
		add(cond{text: fmt.Sprint("size", opText[op], v), eval: func(m *model) (bool, error) { return holds(op, len(m.stack)-v), nil }}, comparison(op, rlz.StackSize(), v))
	}
	if t.Chance(1, 4) {
		op, v := t.N(2), w.status
		if op == 1 {
			v = st.StatusCode(t.N(int(st.NumStatusCodes)))
		}
		add(cond{text: fmt.Sprint("status", opText[op], v), eval: func(m *model) (bool, error) { return holds(op, int(m.status)-int(v)), nil }}, comparison(op, rlz.Status(), v))
	}
	if t.Chance(1, 4) {
		op, v := t.N(2), t.Bool()
		add(cond{text: fmt.Sprint("readonly", opText[op], v), eval: func(m *model) (bool, error) { return (m.static == v) == (op == 0), nil }}, comparison(op, rlz.ReadOnly(), v))
	}
	if t.Chance(1, 4) {
		if t.Bool() {
			add(cond{text: "destructed", eval: func(m *model) (bool, error) { return m.destructed, nil }}, rlz.HasSelfDestructed())
		} else {
			add(cond{text: "!destructed", eval: func(m *model) (bool, error) { return !m.destructed, nil }}, rlz.HasNotSelfDestructed())
		}
	}
	if t.Chance(1, 3) {
		rev := w.rev
		if rev == R99_UnknownNextRevision {
			add(cond{text: "revision unknown", eval: func(m *model) (bool, error) { return m.rev == rev, nil }}, rlz.IsRevision(rev))
		} else {
			lo, hi := rev-tosca.Revision(t.N(int(rev-tosca.R07_Istanbul)+1)), rev+tosca.Revision(t.N(int(tosca.R13_Cancun-rev)+1))
			add(cond{text: fmt.Sprint("revision ", lo, "..", hi), eval: func(m *model) (bool, error) { return lo <= m.rev && m.rev <= hi, nil }}, rlz.RevisionBounds(lo, hi))
		}
	}
	pc := -1
	if t.Chance(1, 4) {
		pc = t.N(1 << 16)
		if t.Bool() {
			pc = t.N(300)
		}
		add(cond{text: fmt.Sprint("pc=", pc), eval: func(m *model) (bool, error) { return m.pc == pc, nil }}, rlz.Eq(rlz.Pc(), toU(big.NewInt(int64(pc)))))
	}
	atPc := t.Chance(1, 4) && pc < st.MaxCodeSize
	if atPc {
		v := t.Byte()
		add(cond{text: fmt.Sprintf("code[pc]=%02x", v), eval: func(m *model) (bool, error) {
			return m.pc < len(m.code) && m.code[m.pc] == v && !dataAt(m.code)[m.pc], nil
		}}, rlz.Eq(rlz.Op(rlz.Pc()), vm.OpCode(v)))
	}
	// parameters, in any order
	var free []int
	for i := 0; i < len(w.stack) && i < 8; i++ {
		free = append(free, i)
	}
	var next place
	g := &condGen{t: t, m: w, solvable: true, places: func() place { return next }}
	take := func() bool {
		if len(free) == 0 {
			return false
		}
		k := t.N(len(free))
		next = place{kind: 'p', i: free[k]}
		free = append(free[:k:k], free[k+1:]...)
		return true
	}
	ops, codes, datas := 0, 0, 0 // what is placed in the code at most: one operation, and data besides at most one other position
	if atPc {
		ops = 1
	}
	for n := 1 + t.N(4); n > 0 && take(); n-- {
		k := 5 + t.N(21)
		switch k {
		case 5:
			p := next
			v := gen.WordBig(t)
			for i := 1 + t.N(2); i > 0; i-- {
				op, d := bound(0)
				c := new(big.Int).Add(v, big.NewInt(int64(d)))
				if c.Sign() < 0 || c.BitLen() > 256 {
					continue
				}
				add(cond{text: fmt.Sprintf("balance(%v)%s%x", p, opText[op], c), eval: func(m *model) (bool, error) {
					a, err := p.eval(m)
					if err != nil {
						return false, err
					}
					b := m.accounts[addrOf(a)].balance
					return holds(op, new(big.Int).SetBytes(b[:]).Cmp(c)), nil
				}}, comparison(op, rlz.Balance(rlz.ToAddress(p.expr())), toU(c)))
			}
			continue
		case 6, 10, 11:
			switch {
			case k == 6 && ops == 0:
				ops++
			case k == 10 && (datas == 0 || codes == 0):
				codes++
			case k == 11 && datas == 0 && codes <= 1:
				datas++
			default:
				continue
			}
		case 7, 9, 20, 21: // not a parameter
			continue
		case 8:
			p, v := next, gen.WordBig(t)
			add(cond{text: fmt.Sprintf("%v=%x", p, v), eval: func(m *model) (bool, error) {
				x, err := p.eval(m)
				return err == nil && x.Cmp(v) == 0, err
			}}, rlz.Eq[U256](p.expr(), toU(v)))
			continue
		case 14: // two parameters
			key := next
			if !take() {
				continue
			}
			val, first := next, true
			g.places = func() place {
				if first {
					first = false
					return key
				}
				return val
			}
			c := g.kind(14)
			add(c, c.build())
			g.places = func() place { return next }
			continue
		}
		c := g.kind(k)
		add(c, c.build())
	}
	if len(cs) == 0 {
		t.Discard()
	}
	return
}

// packedCode are constraints on the operations at several, unknown positions, which compete for the space in the code.
// If it is to be possible to satisfy them for a solver that does not go back, the operations are all but one arbitrary.
func packedCode(t *pbt.T, compatible bool) (cs []*constraint) {
	for i, n := 0, 3+t.N(14); i < n; i++ {
		p := place{kind: 'p', i: i}
		var c cond
		k := t.Weighted(6, 2, 1)
		if compatible {
			k = min(i, 1)
		}
		switch k {
		case 0:
			v := byte(vm.PUSH1) + byte(t.Weighted(8, 4, 2, 1, 1))
			switch t.N(8) {
			case 0:
				v = t.Byte()
			case 1:
				v = byte(vm.PUSH1) + byte(t.N(32))
			}
			c = onPlace(fmt.Sprintf("op=%02x", v), p, func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.Eq(rlz.Op(e), vm.OpCode(v)) }, func(m *model, at *big.Int) bool {
				if isDataAt(m, at) {
					return false
				}
				if !at.IsInt64() || at.Int64() >= int64(len(m.code)) {
					return v == 0
				}
				return m.code[at.Int64()] == v
			})
		case 1:
			c = onPlace("isCode", p, func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.IsCode(e) }, func(m *model, v *big.Int) bool { return !isDataAt(m, v) })
		case 2:
			c = onPlace("isData", p, func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.IsData(e) }, isDataAt)
		}
		cs = append(cs, &constraint{c, nil, c.build(), nil})
	}
	return
}

// generators: generated states satisfy what they are generated for.
func generators(t *pbt.T) {
	w := witness(t)
	g := &condGen{t: t, m: w, solvable: true}
	constants := t.Chance(1, 3)
	var consts []*big.Int
	pool := []*big.Int{gen.WordBig(t), big.NewInt(int64(t.N(len(w.code) + 3)))}
	pool = append(pool, new(big.Int).Add(gen.Pow2(200), pool[0]), new(big.Int).Add(new(big.Int).SetUint64(w.block.BlockNumber), big.NewInt(int64(t.N(3))-1)), big.NewInt(int64(t.N(3))))
	for i := range pool {
		pool[i] = gen.Mod256(pool[i])
	}
	g.places = func() place {
		if constants && t.Chance(1, 3) {
			v := pbt.Pick(t, pool)
			consts = append(consts, v)
			return place{kind: 'k', v: v}
		}
		p := place{kind: 'p', i: t.N(4)}
		if t.Chance(1, 20) {
			p.i = t.N(1030)
		}
		return p
	}
	plain := g.places
	truthful := t.Chance(1, 2)
	var cs []*constraint
	compatible := t.Chance(1, 4)
	if compatible {
		cs = easy(t, w)
	}
	packed := !compatible && t.Chance(1, 6)
	if packed {
		compatible = t.Chance(1, 2)
		cs = packedCode(t, compatible)
	}
	for n := 1 + t.N(5); n > 0 && !compatible && !packed; n-- {
		var c *constraint
		if t.Chance(1, 8) {
			d, f := direct(t, w)
			c = &constraint{d, nil, nil, f}
		} else {
			g.places = plain
			if t.Chance(1, 4) {
				g.places = func() place { return place{kind: 'c'} }
				if k := t.N(3); k == 0 {
					x := g.pcCond()
					c = &constraint{x, nil, x.build(), nil}
				}
				g.places = plain
			}
			if c == nil {
				x := g.one()
				if x.build == nil {
					t.Discard()
				}
				c = &constraint{x, nil, x.build(), nil}
			}
		}
		if ok, err := c.eval(w); truthful && (!ok || err != nil) && t.Chance(9, 10) {
			continue
		}
		cs = append(cs, c)
	}
	if len(cs) == 0 {
		t.Discard()
	}
	var text []string
	if t.Bool() && len(cs) > 1 { // as a conjunction
		var rcs []rlz.Condition
		var named []cond
		var rest []*constraint
		for _, c := range cs {
			if c.rc != nil {
				rcs, named = append(rcs, c.rc), append(named, c.cond)
			} else {
				rest = append(rest, c)
			}
		}
		if len(rcs) > 0 {
			cs = append(rest, &constraint{all(named), named, rlz.And(rcs...), nil})
		}
	}
	for _, c := range cs {
		text = append(text, c.text)
	}
	desc := strings.Join(text, " ∧ ")
	for _, v := range pool {
		consts = append(consts, v)
	}
	var extra []*constraint
	for n := t.N(3); n > 0; n-- {
		g.places = plain
		x := g.one()
		extra = append(extra, &constraint{x, nil, x.build(), nil})
	}

	a := cgen.NewStateGenerator()
	for _, c := range cs {
		c.restrict(a)
	}
	seed := t.U64()
	run := func(g *cgen.StateGenerator, seed uint64, who string, cs ...*constraint) *st.State {
		s, err := g.Generate(rand.New(seed))
		if err != nil {
			t.Check(errors.Is(err, cgen.ErrUnsatisfiable), "error of the generator", "%s: %v", desc, err)
			t.Check(s == nil, "state in spite of an error", "%s: %v", desc, err)
			return nil
		}
		if bad := illFormed(s); bad != "" {
			t.Failf("ill-formed state", "%s: %s", desc, bad)
		}
		m := fromState(s, append(consts[:len(consts):len(consts)], deep(s)...)...)
		for _, c := range cs {
			for _, p := range c.parts() {
				if ok, err := p.eval(m); !ok || err != nil {
					t.Failf(who+"unsatisfied constraint "+kindOf(p.text), "%s of %s: %v\n%v", p.text, desc, err, m)
				}
			}
			if c.rc != nil {
				if ok, err := c.rc.Check(s); !ok || err != nil {
					t.Failf("state does not satisfy its condition", "%s of %s: %v %v\n%v", c.text, desc, ok, err, m)
				}
			}
		}
		return s
	}
	first := run(a, seed, "", cs...)
	t.Check(!compatible || first != nil, "compatible constraints are reported unsatisfiable", "%s", desc)
	b := a.Clone()
	for _, c := range extra {
		c.restrict(b)
	}
	sat := 0
	for i := uint64(1); i < 3; i++ {
		if s := run(a, seed+i, "", cs...); s != nil {
			sat++
			s.Release()
		}
		if s := run(b, seed+i, "clone: ", append(cs[:len(cs):len(cs)], extra...)...); s != nil {
			s.Release()
		}
	}
	// the same again: neither the use of the generator nor that of its clone changes what it generates
	again := run(a, seed, "again: ", cs...)
	switch {
	case (first == nil) != (again == nil):
		t.Failf("generation is not repeatable", "%s: %v, then %v", desc, first != nil, again != nil)
	case first != nil && !first.Eq(again):
		t.Failf("generation is not repeatable", "%s:\n%s", desc, strings.Join(first.Diff(again), "\n"))
	}
	// a restored generator is like its origin
	c := cgen.NewStateGenerator()
	for _, x := range extra {
		x.restrict(c)
	}
	c.Restore(a)
	third := run(c, seed, "restored: ", cs...)
	switch {
	case (first == nil) != (third == nil):
		t.Failf("restored generator differs", "%s: %v, then %v", desc, first != nil, third != nil)
	case first != nil && !first.Eq(third):
		t.Failf("restored generator differs", "%s:\n%s", desc, strings.Join(first.Diff(third), "\n"))
	}
	for _, x := range extra {
		x.restrict(c)
	}
	if s := run(a, seed, "after restore: ", cs...); s != nil {
		s.Release()
	}
	t.NonTrivial(pbt.HashString(desc) ^ seed)
	for _, c := range cs {
		t.Labelf("%s sat=%v", kindOf(c.text), first != nil)
	}
	t.Labelf("satisfied %v", first != nil)
	t.Sample(func() string {
		if first == nil {
			return "unsatisfiable: " + desc
		}
		return desc + "\n" + fromState(first, consts...).String()
	})
	for _, s := range []*st.State{first, again, third} {
		if s != nil {
			s.Release()
		}
	}
}

// pcCond: conditions on what is at the program counter
func (g *condGen) pcCond() cond {
	p := place{kind: 'c'}
	switch g.t.N(3) {
	case 0:
		return onPlace("isCode", p, func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.IsCode(e) }, func(m *model, v *big.Int) bool { return !isDataAt(m, v) })
	case 1:
		return onPlace("isData", p, func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.IsData(e) }, isDataAt)
	}
	op, v := g.t.N(2), g.t.Byte()
	if m := g.m; m.pc < len(m.code) && g.t.Chance(2, 3) {
		v = m.code[m.pc]
	}
	return onPlace(fmt.Sprintf("op%s%02x", opText[op], v), p, func(e rlz.BindableExpression[U256]) rlz.Condition { return comparison(op, rlz.Op(e), vm.OpCode(v)) }, func(m *model, at *big.Int) bool {
		if isDataAt(m, at) {
			return false
		}
		b := byte(0)
		if at.Cmp(big.NewInt(int64(len(m.code)))) < 0 {
			b = m.code[at.Int64()]
		}
		return (b == v) == (op == 0)
	})
}
