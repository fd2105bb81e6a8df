package main

import (
	"bytes"
	"fmt"
	"maps"
	"math/big"
	"os"
	"path/filepath"
	"slices"
	"strings"

	. "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"

	"verif/gen"
	"verif/pbt"
)

// An edit changes one part of a state and its model alike (s may be nil).
type edit struct {
	name string
	do   func(t *pbt.T, m *model, s *st.State)
}

func bump(w *U256) { *w = w.Add(NewU256(1)) }

func own[K comparable, V any](m map[K]V) map[K]V {
	if m == nil {
		return map[K]V{}
	}
	return m
}

func (m *model) hashArray() ImmutableHashArray { return NewImmutableHashArray(m.hashes...) }

var edits = []edit{
	{"status", func(t *pbt.T, m *model, s *st.State) {
		m.status = st.StatusCode(t.N(int(st.NumStatusCodes)))
		s.Status = m.status
	}},
	{"revision", func(t *pbt.T, m *model, s *st.State) {
		m.rev = tosca.Revision(t.N(7))
		s.Revision = m.rev
	}},
	{"read only", func(t *pbt.T, m *model, s *st.State) {
		m.static = !m.static
		s.ReadOnly = m.static
	}},
	{"pc", func(t *pbt.T, m *model, s *st.State) {
		m.pc = pbt.Pick(t, []int{0, t.N(len(m.code) + 4), len(m.code), t.N(65536)})
		s.Pc = uint16(m.pc)
	}},
	{"gas", func(t *pbt.T, m *model, s *st.State) {
		m.gas += int64(pbt.Pick(t, []int{1, -1, 1000}))
		s.Gas = tosca.Gas(m.gas)
	}},
	{"refund", func(t *pbt.T, m *model, s *st.State) {
		m.refund += int64(pbt.Pick(t, []int{1, -1, 1000}))
		s.GasRefund = tosca.Gas(m.refund)
	}},
	{"code", func(t *pbt.T, m *model, s *st.State) {
		m.code = slices.Clone(m.code)
		switch {
		case len(m.code) > 0 && t.Bool():
			m.code[t.N(len(m.code))] ^= 1
		case len(m.code) > 1 && t.Bool():
			m.code = m.code[:len(m.code)-1]
		default:
			m.code = append(m.code, 0)
		}
		s.Code = st.NewCode(m.code)
	}},
	{"stack", func(t *pbt.T, m *model, s *st.State) {
		n := len(m.stack)
		switch k := t.N(3); {
		case k == 0 && n > 0:
			m.stack = slices.Clone(m.stack)[:n-1]
			s.Stack.Pop()
		case k == 1 && n > 0:
			i, v := t.N(min(n, 40)), gen.WordBig(t)
			m.stack = slices.Clone(m.stack)
			m.stack[n-1-i] = v
			s.Stack.Set(i, toU(v))
		case n < 1024:
			v := gen.WordBig(t)
			m.stack = append(slices.Clone(m.stack), v)
			s.Stack.Push(toU(v))
		}
	}},
	{"memory", func(t *pbt.T, m *model, s *st.State) {
		at, data := t.N(200), t.Bytes(1+t.N(40))
		m.mem = slices.Clone(m.mem)
		for len(m.mem) < at+len(data) {
			m.mem = append(m.mem, make([]byte, 32)...)
		}
		copy(m.mem[at:], data)
		s.Memory.Write(data, uint64(at))
	}},
	{"last return data", func(t *pbt.T, m *model, s *st.State) {
		m.last = t.Bytes(t.N(4))
		s.LastCallReturnData = NewBytes(m.last)
	}},
	{"return data", func(t *pbt.T, m *model, s *st.State) {
		m.out = t.Bytes(t.N(4))
		s.ReturnData = NewBytes(m.out)
	}},
	{"call data", func(t *pbt.T, m *model, s *st.State) {
		m.input = t.Bytes(t.N(4))
		s.CallData = NewBytes(m.input)
	}},
	{"call context", func(t *pbt.T, m *model, s *st.State) {
		switch t.N(3) {
		case 0:
			m.call.AccountAddress[t.N(20)] ^= 1
		case 1:
			m.call.CallerAddress[t.N(20)] ^= 1
		case 2:
			bump(&m.call.Value)
		}
		s.CallContext = m.call
	}},
	{"block context", func(t *pbt.T, m *model, s *st.State) {
		b := &m.block
		switch t.N(9) {
		case 0:
			bump(&b.BaseFee)
		case 1:
			bump(&b.BlobBaseFee)
		case 2:
			b.BlockNumber++
		case 3:
			bump(&b.ChainID)
		case 4:
			b.CoinBase[t.N(20)] ^= 1
		case 5:
			b.GasLimit++
		case 6:
			bump(&b.GasPrice)
		case 7:
			bump(&b.PrevRandao)
		case 8:
			b.TimeStamp++
		}
		s.BlockContext = m.block
	}},
	{"origin", func(t *pbt.T, m *model, s *st.State) {
		m.origin[t.N(20)] ^= 1
		s.TransactionContext.OriginAddress = m.origin
	}},
	{"blob hashes", func(t *pbt.T, m *model, s *st.State) {
		n := len(m.blobs)
		m.blobs = slices.Clone(m.blobs)
		switch k := t.N(3); {
		case k == 0 && n > 0:
			i, j := t.N(n), t.N(32)
			m.blobs[i][j] ^= 1
			s.TransactionContext.BlobHashes[i][j] ^= 1
		case k == 1 && n > 0:
			m.blobs = m.blobs[:n-1]
			s.TransactionContext.BlobHashes = s.TransactionContext.BlobHashes[:n-1]
		default:
			h := tosca.Hash(gen.Word(t))
			m.blobs = append(m.blobs, h)
			s.TransactionContext.BlobHashes = append(s.TransactionContext.BlobHashes, h)
		}
	}},
	{"storage", func(t *pbt.T, m *model, s *st.State) {
		k, v := m.keyOf(t), tosca.Word(smallWord(t))
		switch t.N(6) {
		case 0, 1:
			m.cur = own(maps.Clone(m.cur))
			m.cur[k] = v
			s.Storage.SetCurrent(u(k), u(v))
		case 2:
			m.orig = own(maps.Clone(m.orig))
			m.orig[k] = v
			s.Storage.SetOriginal(u(k), u(v))
		case 3:
			m.warmSlots = own(maps.Clone(m.warmSlots))
			m.warmSlots[k] = true
			s.Storage.MarkWarm(u(k))
		case 4:
			m.warmSlots = own(maps.Clone(m.warmSlots))
			delete(m.warmSlots, k)
			s.Storage.MarkCold(u(k))
		case 5:
			m.cur = own(maps.Clone(m.cur))
			delete(m.cur, k)
			s.Storage.RemoveCurrent(u(k))
		}
	}},
	{"transient storage", func(t *pbt.T, m *model, s *st.State) {
		k, v := m.keyOf(t), tosca.Word(smallWord(t))
		m.transient = own(maps.Clone(m.transient))
		m.transient[k] = v
		s.TransientStorage.Set(u(k), u(v))
	}},
	{"accounts", func(t *pbt.T, m *model, s *st.State) {
		a := poolAddr(t)
		if t.Bool() {
			m.warm = own(maps.Clone(m.warm))
			m.warm[a] = true
			s.Accounts.MarkWarm(a)
			return
		}
		v := smallWord(t)
		m.accounts = own(maps.Clone(m.accounts))
		m.accounts[a] = acct{v, m.accounts[a].code}
		s.Accounts.SetBalance(a, u(v))
	}},
	{"logs", func(t *pbt.T, m *model, s *st.State) {
		m.logs = slices.Clone(m.logs)
		if n := len(m.logs); n > 0 && t.Chance(1, 3) { // in place
			i := t.N(n)
			if d := []byte(m.logs[i].data); len(d) > 0 {
				j := t.N(len(d))
				d[j] ^= 1
				m.logs[i].data = string(d)
				s.Logs.Entries[i].Data[j] ^= 1
				return
			}
			if d := []byte(m.logs[i].topics); len(d) > 0 {
				j := t.N(len(d) / 32)
				w := gen.Word(t)
				copy(d[32*j:], w[:])
				m.logs[i].topics = string(d)
				s.Logs.Entries[i].Topics[j] = u(w)
				return
			}
		}
		l := mLog{data: string(t.Bytes(t.N(20)))}
		var ts []U256
		for i := t.N(5); i > 0; i-- {
			w := gen.Word(t)
			l.topics += string(w[:])
			ts = append(ts, u(w))
		}
		m.logs = append(m.logs, l)
		s.Logs.AddLog([]byte(l.data), ts...)
	}},
	{"calls", func(t *pbt.T, m *model, s *st.State) {
		p := tosca.CallParameters{Sender: poolAddr(t), Recipient: poolAddr(t), Value: tosca.Value(smallWord(t)), Input: t.Bytes(t.N(5)), Gas: tosca.Gas(t.N(10000)), CodeAddress: poolAddr(t)}
		kind := tosca.CallKind(t.N(6))
		m.past, m.future = slices.Clone(m.past), slices.Clone(m.future)
		r, _ := m.Call(kind, p)
		g := s.CallJournal.Call(kind, p)
		t.Check(r.Success == g.Success && bytes.Equal(r.Output, g.Output) && r.GasLeft == g.GasLeft && r.GasRefund == g.GasRefund && r.CreatedAddress == g.CreatedAddress, "journal's call result", "want %v, got %v", r, g)
	}},
	{"past calls", func(t *pbt.T, m *model, s *st.State) {
		if len(m.past) == 0 {
			return
		}
		m.past = slices.Clone(m.past)
		i := t.N(len(m.past))
		c := &m.past[i]
		switch t.N(7) {
		case 0:
			c.Kind = (c.Kind + 1) % 6
		case 1:
			c.Recipient[t.N(20)] ^= 1
		case 2:
			c.Sender[t.N(20)] ^= 1
		case 3:
			c.Input = NewBytes(append(c.Input.ToBytes(), 0))
		case 4:
			c.Value[t.N(32)] ^= 1
		case 5:
			c.Gas++
		case 6:
			c.CodeAddress[t.N(20)] ^= 1
		}
		s.CallJournal.Past[i] = *c
	}},
	{"future calls", func(t *pbt.T, m *model, s *st.State) {
		m.future = slices.Clone(m.future)
		if len(m.future) == 0 {
			m.future = append(m.future, st.FutureCall{})
			s.CallJournal.Future = append(s.CallJournal.Future, st.FutureCall{})
		}
		i := t.N(len(m.future))
		c := &m.future[i]
		switch t.N(5) {
		case 0:
			c.Success = !c.Success
		case 1:
			c.Output = NewBytes(append(c.Output.ToBytes(), 0))
		case 2:
			c.GasCosts++
		case 3:
			c.GasRefund++
		case 4:
			c.CreatedAccount[t.N(20)] ^= 1
		}
		s.CallJournal.Future[i] = *c
	}},
	{"self-destructed", func(t *pbt.T, m *model, s *st.State) {
		m.destructed = !m.destructed
		s.HasSelfDestructed = m.destructed
	}},
	{"self-destruct journal", func(t *pbt.T, m *model, s *st.State) {
		m.journal = slices.Clone(m.journal)
		e := [2]tosca.Address{poolAddr(t), poolAddr(t)}
		if n := len(m.journal); n > 0 && t.Bool() {
			i := t.N(n)
			if t.Bool() {
				e[0] = m.journal[i][0]
			} else if t.Bool() {
				e[1] = m.journal[i][1]
			}
			m.journal[i] = e
			s.SelfDestructedJournal[i] = st.NewSelfDestructEntry(e[0], e[1])
			return
		}
		m.journal = append(m.journal, e)
		s.SelfDestructedJournal = append(s.SelfDestructedJournal, st.NewSelfDestructEntry(e[0], e[1]))
	}},
	{"block hashes", func(t *pbt.T, m *model, s *st.State) {
		switch t.N(4) {
		case 0:
			m.hashes = make([]tosca.Hash, 256)
			s.RecentBlockHashes = ImmutableHashArray{} // all zero
			return
		case 1:
			m.hashes = make([]tosca.Hash, 256)
		default:
			m.hashes = slices.Clone(m.hashes)
			m.hashes[t.N(256)][t.N(32)] ^= 1
		}
		s.RecentBlockHashes = m.hashArray()
	}},
}

// anyState generates a state of any status; sometimes one with nothing in it.
func anyState(t *pbt.T) (*model, *st.State) {
	m := newModel(t)
	m.gas = int64(t.N(1 << 30))
	if t.Chance(1, 3) {
		m.status = st.StatusCode(t.N(int(st.NumStatusCodes)))
		m.out = t.Bytes(t.N(30))
	}
	if t.Chance(1, 8) { // as made by NewState
		c := m.code
		if t.Bool() {
			c = nil
		}
		m = &model{status: st.Running, rev: tosca.R07_Istanbul, code: c, hashes: make([]tosca.Hash, 256)}
		return m, st.NewState(st.NewCode(c))
	}
	return m, m.state()
}

// steppable: is the state one that the specification covers by an instruction (and not by its border cases)
func (m *model) steppable() bool {
	if m.status != st.Running || m.rev > tosca.R13_Cancun || m.rev < tosca.R07_Istanbul || len(m.out) > 0 || len(m.mem)%32 != 0 || m.pc >= len(m.code) || m.code[m.pc] == 0x55 {
		return false
	}
	for i := 0; i < len(m.code); i++ {
		if i == m.pc {
			return true
		}
		if n := int(m.code[i]) - 0x5f; n > 0 && n <= 32 {
			i += n
		}
	}
	return false
}

type live struct {
	m *model
	s *st.State
}

// stateClones: copies of states are equal to their origin and independent of it.
func stateClones(t *pbt.T) {
	m, s := anyState(t)
	ls := []live{{m, s}}
	var log []string
	t.Sample(func() string { return strings.Join(log, "; ") + " of " + m.String() })
	edited, cloned := 0, 0
	for n := t.Range(2, 14); n > 0; n-- {
		i := t.N(len(ls))
		l := ls[i]
		var what string
		switch {
		case len(ls) < 4 && (t.Chance(1, 4) || n == 14):
			ls = append(ls, live{l.m.clone(), l.s.Clone()})
			cloned++
			what = fmt.Sprintf("#%d = clone of #%d", len(ls)-1, i)
			c := ls[len(ls)-1].s
			t.Check(l.s.Eq(c) && c.Eq(l.s) && len(l.s.Diff(c)) == 0, "clone differs", "%v", l.s.Diff(c))
		case len(ls) > 1 && t.Chance(1, 10):
			l.s.Release() // recycles its parts
			ls = append(ls[:i:i], ls[i+1:]...)
			what = fmt.Sprintf("release #%d", i)
		case t.Chance(1, 10):
			x, y := anyState(t)
			ls[i] = live{x, y}
			what = fmt.Sprintf("#%d = new", i)
		case t.Chance(1, 8) && l.m.steppable(): // a step of the specification
			for _, r := range spc.Spec.GetRulesFor(l.s) {
				w := l.m.clone()
				if !w.step(1, 1<<20) {
					break
				}
				r.Effect.Apply(l.s)
				if w.status == st.Running {
					ls[i].m = w
				} else { // what is left of a state that ended is not all specified
					l.s.Release()
					x, y := anyState(t)
					ls[i] = live{x, y}
				}
				edited++
				break
			}
			what = fmt.Sprintf("step #%d", i)
		default:
			e := pbt.Pick(t, edits)
			e.do(t, l.m, l.s)
			edited++
			what = fmt.Sprintf("#%d.%s", i, e.name)
		}
		log = append(log, what)
		var ms []*model
		for _, l := range ls {
			ms = append(ms, l.m)
		}
		un := newUniverse(ms...)
		for j, l := range ls {
			if ds := l.m.diff(l.s, un); len(ds) > 0 {
				who := "another state"
				if i == j {
					who = "the state itself"
				}
				t.Failf("clones: "+who+": "+fields(ds), "after %s, #%d:\n%s", strings.Join(log, "; "), j, strings.Join(ds, "\n"))
			}
		}
	}
	if cloned > 0 && edited > 0 {
		t.NonTrivial(m.key()*31 + pbt.HashString(strings.Join(log, ";")))
	}
	for _, l := range ls {
		l.s.Release()
	}
}

func zeroFree[K comparable](m map[K]tosca.Word) map[K]tosca.Word {
	r := map[K]tosca.Word{}
	for k, v := range m {
		if v != (tosca.Word{}) {
			r[k] = v
		}
	}
	return r
}

// different lists the parts in which two models differ.
func different(a, b *model) (res []string) {
	add := func(name string, same bool) {
		if !same {
			res = append(res, name)
		}
	}
	add("status", a.status == b.status)
	add("revision", a.rev == b.rev)
	add("read only", a.static == b.static)
	add("pc", a.pc == b.pc)
	add("gas", a.gas == b.gas)
	add("refund", a.refund == b.refund)
	add("code", bytes.Equal(a.code, b.code))
	add("stack", slices.EqualFunc(a.stack, b.stack, func(x, y *big.Int) bool { return x.Cmp(y) == 0 }))
	add("memory", bytes.Equal(a.mem, b.mem))
	add("last return data", bytes.Equal(a.last, b.last))
	add("return data", bytes.Equal(a.out, b.out))
	add("call data", bytes.Equal(a.input, b.input))
	add("call context", a.call == b.call)
	add("block context", a.block == b.block)
	add("origin", a.origin == b.origin)
	add("blob hashes", slices.Equal(a.blobs, b.blobs))
	add("storage", maps.Equal(zeroFree(a.cur), zeroFree(b.cur)))
	add("original storage", maps.Equal(zeroFree(a.orig), zeroFree(b.orig)))
	add("warm slots", maps.Equal(a.warmSlots, b.warmSlots))
	add("transient storage", maps.Equal(zeroFree(a.transient), zeroFree(b.transient)))
	add("accounts", maps.Equal(a.accounts, b.accounts))
	add("warm accounts", maps.Equal(a.warm, b.warm))
	add("logs", slices.Equal(a.logs, b.logs))
	add("past", slices.Equal(a.past, b.past))
	add("future", slices.Equal(a.future, b.future))
	add("self-destructed", a.destructed == b.destructed)
	add("self-destruct journal", slices.Equal(a.journal, b.journal))
	add("block hashes", slices.Equal(a.hashes, b.hashes))
	return
}

// sameState says whether two states are to be considered equal.
func sameState(a, b *model, diffs []string) bool {
	if a.status != b.status {
		return false
	}
	if a.status == st.Failed {
		return true
	}
	for _, d := range diffs {
		switch d {
		case "pc":
			if a.status == st.Running && (a.pc < len(a.code) || b.pc < len(a.code)) {
				return false
			}
		case "stack", "memory", "last return data":
			if a.status == st.Running {
				return false
			}
		case "return data":
			if a.status != st.Running {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// stateEq: equality and difference of states are what the parts of the states imply.
func stateEq(t *pbt.T) {
	m, s := anyState(t)
	o, r := m.clone(), (*st.State)(nil)
	if t.Bool() {
		r = s.Clone()
	} else {
		r = o.state()
	}
	var log []string
	for n := t.Weighted(1, 6, 3, 1); n > 0; n-- {
		e := pbt.Pick(t, edits)
		if t.Chance(1, 8) { // the same change on both
			before := m.clone()
			e.do(t, m, s)
			if t.Bool() {
				s2 := m.state()
				_ = before
				r, o = s2, m.clone()
				log = append(log, "copy again")
			}
			log = append(log, "other "+e.name)
			continue
		}
		e.do(t, o, r)
		log = append(log, e.name)
	}
	ds := different(m, o)
	want := sameState(m, o, ds)
	t.Labelf("equal %v, %d differences", want, min(3, len(ds)))
	t.NonTrivial(m.key()*31 + o.key() + pbt.HashString(strings.Join(ds, ",")))
	t.Sample(func() string { return fmt.Sprintf("changes %v; differing parts %v; equal %v; %s", log, ds, want, m) })
	sig := strings.Join(ds, ",")
	info := func() string { return fmt.Sprintf("changes %v\ndiffering parts %v\n%s", log, ds, m) }
	t.Check(s.Eq(r) == want, "eq "+sig, "Eq is %v\n%s", !want, info())
	t.Check(r.Eq(s) == want, "eq is not symmetric "+sig, "Eq is %v\n%s", !want, info())
	t.Check(s.Eq(s) && r.Eq(r) && r.Eq(r.Clone()), "eq is not reflexive", "%s", info())
	d, d2 := s.Diff(r), r.Diff(s)
	if !want {
		t.Check(len(d) > 0 && len(d2) > 0, "no difference reported "+sig, "%s", info())
	}
	if len(ds) == 0 {
		t.Check(len(d) == 0 && len(d2) == 0, "difference of equal states", "%v\n%s", d, info())
	}
	if m.status != st.Failed && o.status != st.Failed { // each differing part is named
		rest := ds
		if m.status == st.Running || o.status == st.Running {
			rest = slices.DeleteFunc(slices.Clone(ds), func(x string) bool { return x == "return data" })
		}
		t.Check(len(d) >= min(len(rest), 1) && len(d) >= len(rest), "fewer differences than differing parts", "%q for %v\n%s", d, rest, info())
	}
	_ = s.String() // can be printed
	un := newUniverse(m, o)
	if x := append(m.diffAll(s, un), o.diffAll(r, un)...); len(x) > 0 {
		t.Failf("comparing changes a state: "+fields(x), "%s\n%s", strings.Join(x, "\n"), info())
	}
	s.Release()
	r.Release()
}

var scratch string

func scratchDir() string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "ct-json-") // the runner removes it
		if err != nil {
			panic(err)
		}
		scratch = d
	}
	return scratch
}

// stateJSON: a state exported to a file is imported unchanged.
func stateJSON(t *pbt.T) {
	m, s := anyState(t)
	for n := t.N(3); n > 0; n-- {
		pbt.Pick(t, edits).do(t, m, s)
	}
	if t.Chance(2, 3) { // a much smaller file
		m.hashes = make([]tosca.Hash, 256)
		s.RecentBlockHashes = ImmutableHashArray{}
	}
	if n := len(m.stack); n > 30 && t.Chance(7, 8) { // again, and much faster
		m.stack = m.stack[n-30:]
		s.Stack = st.NewStack()
		for _, v := range m.stack {
			s.Stack.Push(toU(v))
		}
	}
	if t.Chance(1, 10) {
		m.rev = R99_UnknownNextRevision
		s.Revision = m.rev
	}
	file := filepath.Join(scratchDir(), "state.json")
	defer os.Remove(file)
	un := newUniverse(m)
	t.NonTrivial(m.key())
	t.Sample(m.String)
	if t.Chance(1, 4) { // an older file is replaced
		if err := os.WriteFile(file, bytes.Repeat([]byte("x"), t.N(200000)), 0o644); err != nil {
			panic(err)
		}
	}
	if t.Chance(1, 50) { // there is no such status
		s.Status = st.NumStatusCodes + st.StatusCode(t.N(3))
		t.Check(st.ExportStateJSON(s, file) != nil, "invalid status exported", "%d", s.Status)
		return
	}
	if err := st.ExportStateJSON(s, file); err != nil {
		t.Failf("export fails", "%v\n%v", err, m)
	}
	if ds := m.diffAll(s, un); len(ds) > 0 {
		t.Failf("export changes the state: "+fields(ds), "%s\n%v", strings.Join(ds, "\n"), m)
	}
	text, err := os.ReadFile(file)
	if err != nil {
		t.Failf("no file", "%v", err)
	}
	r, err := st.ImportStateJSON(file)
	if err != nil {
		t.Failf("import fails", "%v\n%v", err, m)
	}
	if ds := m.diffAll(r, un); len(ds) > 0 {
		t.Failf("import: "+fields(ds), "%s\n%v", strings.Join(ds, "\n"), m)
	}
	t.Check(s.Eq(r) && r.Eq(s) && len(s.Diff(r)) == 0, "import is not equal", "%v\n%v", s.Diff(r), m)
	if err := st.ExportStateJSON(r, file); err != nil {
		t.Failf("export of the import fails", "%v\n%v", err, m)
	}
	again, _ := os.ReadFile(file)
	r2, err := st.ImportStateJSON(file)
	if err != nil {
		t.Failf("second import fails", "%v\n%v", err, m)
	}
	t.Check(bytes.Equal(text, again) || r2.Eq(r), "second export differs", "%v", m)
	// the import is an independent state
	ro, mo := r, m.clone()
	for n := t.N(4); n > 0; n-- {
		e := pbt.Pick(t, edits)
		e.do(t, mo, ro)
	}
	un = newUniverse(m, mo)
	if ds := mo.diffAll(ro, un); len(ds) > 0 {
		t.Failf("changing an import: "+fields(ds), "%s\n%v", strings.Join(ds, "\n"), mo)
	}
	if ds := m.diffAll(s, un); len(ds) > 0 {
		t.Failf("changing an import changes the origin: "+fields(ds), "%s\n%v", strings.Join(ds, "\n"), m)
	}
	// damaged files are refused or yield some state
	bad := slices.Clone(text)
	what := ""
	switch t.N(4) {
	case 0:
		bad = bad[:t.N(len(bad)-2)]
		what = "truncated"
	case 1:
		bad = []byte(strings.Replace(string(bad), "\"Gas\"", "\"Gaz\"", 1))
		what = "unknown field"
	case 2:
		i := t.N(len(bad))
		bad[i] = byte(t.N(256))
	case 3:
		if err := os.Remove(file); err != nil {
			panic(err)
		}
		_, err := st.ImportStateJSON(file)
		t.Check(err != nil, "missing file imported", "")
		return
	}
	if err := os.WriteFile(file, bad, 0o644); err != nil {
		panic(err)
	}
	x, err := st.ImportStateJSON(file)
	if what != "" {
		t.Check(err != nil, what+" file imported", "%s", bad)
	}
	if err == nil {
		t.Check(x != nil && x.Clone().Eq(x), "no state of a damaged file", "")
	}
}
