package main

import (
	"errors"
	"fmt"
	"strings"

	"pgregory.net/rand"

	. "github.com/Fantom-foundation/Tosca/go/ct/common"
	cgen "github.com/Fantom-foundation/Tosca/go/ct/gen"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"

	"verif/pbt"
)

// restriction is one of the constraints that a state generator takes.
type restriction struct {
	text  string
	apply func(g *cgen.StateGenerator)
}

// restrictions draws constraints of few kinds, so that the lists of each kind get long. Most are compatible with each other.
type restrictions struct {
	t     *pbt.T
	kinds []int
	salt  uint64
}

const restrictionKinds = 27

func newRestrictions(t *pbt.T) *restrictions {
	r := &restrictions{t: t, salt: t.U64()}
	for n := 1 + t.N(3); n > 0; n-- {
		k := t.N(restrictionKinds)
		r.kinds = append(r.kinds, k)
		if k == 16 { // variables on the stack matter when they have values
			r.kinds = append(r.kinds, 26)
		}
	}
	return r
}

func (r *restrictions) one() restriction {
	t := r.t
	i := t.N(8)
	if t.Chance(1, 30) {
		r.salt++ // from here on contradictions
	}
	h := pbt.Mix(r.salt ^ pbt.Mix(uint64(i)))
	v := cgen.Variable(fmt.Sprintf("v%d", i))
	w := cgen.Variable(fmt.Sprintf("v%d", 8+i))
	is := func(f func(g *cgen.StateGenerator), format string, args ...any) restriction {
		return restriction{fmt.Sprintf(format, args...), f}
	}
	type G = *cgen.StateGenerator
	switch k := pbt.Pick(t, r.kinds); k {
	case 0:
		s := st.StatusCode(r.salt % uint64(st.NumStatusCodes))
		return is(func(g G) { g.SetStatus(s) }, "status %v", s)
	case 1:
		a, b := tosca.R07_Istanbul+tosca.Revision(i%4), tosca.R13_Cancun-tosca.Revision(t.N(3))
		return is(func(g G) { g.AddRevisionBounds(min(a, b), max(a, b)) }, "revision %v..%v", a, b)
	case 2:
		b := r.salt%2 == 0
		return is(func(g G) { g.SetReadOnly(b) }, "readonly %v", b)
	case 3:
		p := uint16(r.salt % 200)
		return is(func(g G) { g.SetPc(p) }, "pc %d", p)
	case 4:
		return is(func(g G) { g.BindPc(v) }, "pc %v", v)
	case 5:
		return is(func(g G) { g.BindToSelfAddress(v) }, "self %v", v)
	case 6:
		a := tosca.Address{byte(r.salt)}
		return is(func(g G) { g.SetSelfAddress(a) }, "self %v", a)
	case 7:
		lo, hi := tosca.Gas(h%1000), tosca.Gas(1000+h%77777)
		if t.Bool() {
			return is(func(g G) { g.AddGasLowerBound(lo) }, "gas≥%v", lo)
		}
		return is(func(g G) { g.AddGasUpperBound(hi) }, "gas≤%v", hi)
	case 8:
		lo, hi := tosca.Gas(h%1000)-1000, tosca.Gas(h%77777)
		if t.Bool() {
			return is(func(g G) { g.AddGasRefundLowerBound(lo) }, "refund≥%v", lo)
		}
		return is(func(g G) { g.AddGasRefundUpperBound(hi) }, "refund≤%v", hi)
	case 9, 10:
		op := vm.OpCode(h % 0x60)
		return is(func(g G) { g.SetCodeOperation(3*i, op) }, "code[%d] %v", 3*i, op)
	case 11:
		op := vm.OpCode(h % 0x60)
		return is(func(g G) { g.AddCodeOperation(v, op) }, "code[%v] %v", v, op)
	case 12:
		return is(func(g G) { g.AddIsCode(v) }, "isCode %v", v)
	case 13:
		return is(func(g G) { g.AddIsData(v) }, "isData %v", v)
	case 14:
		lo, hi := i, 20+int(h%1000)
		if t.Bool() {
			return is(func(g G) { g.AddStackSizeLowerBound(lo) }, "size≥%v", lo)
		}
		return is(func(g G) { g.AddStackSizeUpperBound(hi) }, "size≤%v", hi)
	case 15:
		x := NewU256(h, uint64(i))
		return is(func(g G) { g.SetStackValue(i, x) }, "stack[%d] %v", i, x)
	case 16:
		return is(func(g G) { g.BindStackValue(i, v) }, "stack[%d] %v", i, v)
	case 17:
		c := tosca.StorageStatus(h % 9)
		return is(func(g G) { g.BindStorageConfiguration(c, v, w) }, "storage[%v] %v %v", v, c, w)
	case 18:
		if h%2 == 0 {
			return is(func(g G) { g.BindIsStorageWarm(v) }, "warm slot %v", v)
		}
		return is(func(g G) { g.BindIsStorageCold(v) }, "cold slot %v", v)
	case 19:
		if h%2 == 0 {
			return is(func(g G) { g.BindTransientStorageToNonZero(v) }, "transient[%v]≠0", v)
		}
		return is(func(g G) { g.BindTransientStorageToZero(v) }, "transient[%v]=0", v)
	case 20:
		if h%2 == 0 {
			return is(func(g G) { g.BindToAddressOfEmptyAccount(v) }, "empty %v", v)
		}
		return is(func(g G) { g.BindToAddressOfNonEmptyAccount(v) }, "not empty %v", v)
	case 21:
		lo, hi := NewU256(h%1000), NewU256(h%77777+1000)
		if t.Bool() {
			return is(func(g G) { g.AddBalanceLowerBound(v, lo) }, "balance(%v)≥%v", v, lo)
		}
		return is(func(g G) { g.AddBalanceUpperBound(v, hi) }, "balance(%v)≤%v", v, hi)
	case 22:
		if h%2 == 0 {
			return is(func(g G) { g.BindToWarmAddress(v) }, "warm address %v", v)
		}
		return is(func(g G) { g.BindToColdAddress(v) }, "cold address %v", v)
	case 23:
		if r.salt%2 == 0 {
			return is(func(g G) { g.MustBeSelfDestructed() }, "destructed")
		}
		return is(func(g G) { g.MustNotBeSelfDestructed() }, "not destructed")
	case 24:
		switch h % 3 {
		case 0:
			return is(func(g G) { g.RestrictVariableToOneOfTheLast256Blocks(v) }, "recent %v", v)
		case 1:
			return is(func(g G) { g.RestrictVariableToNoneOfTheLast256Blocks(v) }, "not recent %v", v)
		}
		return is(func(g G) { g.SetBlockNumberOffsetValue(v, int64(h%300)) }, "block-%v=%d", v, h%300)
	case 25:
		if h%2 == 0 {
			return is(func(g G) { g.IsPresentBlobHashIndex(v) }, "blob %v", v)
		}
		return is(func(g G) { g.IsAbsentBlobHashIndex(v) }, "no blob %v", v)
	}
	x := NewU256(h % 1000) // an index of a blob, too: states get as many as that
	return is(func(g G) { g.BindValue(v, x) }, "%v=%v", v, x)
}

// forks: generators which were cloned from or restored to another are independent of it and of each other: each generates what a new
// one with the same constraints does.
func forks(t *pbt.T) {
	r := newRestrictions(t)
	type fork struct {
		g   *cgen.StateGenerator
		log []restriction
	}
	text := func(f *fork) string {
		var s []string
		for _, x := range f.log {
			s = append(s, x.text)
		}
		return strings.Join(s, " ∧ ")
	}
	pool := []*fork{{g: cgen.NewStateGenerator()}}
	var ops []string
	compare := func(i int) bool {
		f := pool[i]
		seed := t.U64()
		ref := cgen.NewStateGenerator()
		for _, x := range f.log {
			x.apply(ref)
		}
		want, err1 := ref.Generate(rand.New(seed))
		got, err2 := f.g.Generate(rand.New(seed))
		if err1 != nil || err2 != nil {
			t.Check((err1 == nil) == (err2 == nil) && errors.Is(err1, cgen.ErrUnsatisfiable) == errors.Is(err2, cgen.ErrUnsatisfiable), "satisfiability differs from that of a new generator",
				"%d: %s\n%s\nnew: %v\ngot: %v", i, strings.Join(ops, "; "), text(f), err1, err2)
			return false
		}
		if !want.Eq(got) {
			t.Failf("state differs from that of a new generator", "%d: %s\n%s\n%s", i, strings.Join(ops, "; "), text(f), strings.Join(want.Diff(got), "\n"))
		}
		want.Release()
		got.Release()
		return true
	}
	restrict := func(i int) {
		x := r.one()
		x.apply(pool[i].g)
		pool[i].log = append(pool[i].log[:len(pool[i].log):len(pool[i].log)], x)
		ops = append(ops, fmt.Sprintf("%d:%s", i, x.text))
	}
	for n := t.N(7); n > 0; n-- {
		restrict(0)
	}
	sat, forked := 0, 0
	for n := 3 + t.N(10); n > 0; n-- {
		i := t.N(len(pool))
		switch t.Weighted(6, 2, 2, 1) {
		case 0:
			restrict(i)
		case 1:
			pool = append(pool, &fork{pool[i].g.Clone(), pool[i].log})
			ops = append(ops, fmt.Sprintf("%d=clone %d", len(pool)-1, i))
			forked++
		case 2:
			j := t.N(len(pool))
			if j == i && t.Chance(7, 8) {
				pool = append(pool, &fork{g: cgen.NewStateGenerator()})
				j = len(pool) - 1
				for k := t.N(4); k > 0; k-- {
					restrict(j)
				}
			}
			pool[j].g.Restore(pool[i].g)
			pool[j].log = pool[i].log
			ops = append(ops, fmt.Sprintf("restore %d to %d", j, i))
			forked++
		case 3:
			compare(i)
			ops = append(ops, fmt.Sprintf("use %d", i))
		}
	}
	for i, f := range pool {
		if compare(i) {
			sat++
			t.Labelf("constraints %d", min(len(f.log)/4*4, 12))
		}
	}
	if forked > 0 && sat > 0 {
		t.NonTrivial(pbt.HashString(strings.Join(ops, ";")))
	}
	t.Labelf("satisfiable %v", sat > 0)
	t.Sample(func() string { return strings.Join(ops, "; ") })
}
