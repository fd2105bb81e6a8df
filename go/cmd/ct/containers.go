package main

import (
	"bytes"
	"fmt"
	"maps"
	"math"
	"math/big"
	"slices"
	"strings"

	. "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"

	"verif/gen"
	"verif/pbt"
	"verif/ref"
)

// A handle is one of several live copies of a container, along with the value
// it should have. All of them are looked at after every operation: a copy must
// not change with its origin.
type handle interface {
	op(t *pbt.T) string           // applies a random operation
	look(t *pbt.T) (string, bool) // compares all that can be observed
	clone(t *pbt.T) handle
	same(h handle) bool // are the two models equal
	eq(h handle) bool   // does the container say they are equal
	diff(h handle) []string
}

var containerKinds = map[string]func(t *pbt.T) handle{
	"stack": newStack, "memory": newMemory, "storage": newStorage, "transient": newTransient,
	"accounts": newAccounts, "logs": newLogs, "journal": newJournal, "transaction": newTx,
}

func containers(t *pbt.T) {
	names := slices.Sorted(maps.Keys(containerKinds))
	name := pbt.Pick(t, names)
	var log []string
	t.Sample(func() string { return name + ": " + strings.Join(log, "; ") })
	live := []handle{containerKinds[name](t)}
	ops, clones := 0, 0
	for n := t.Range(1, 20); n > 0; n-- {
		i := t.N(len(live))
		var what string
		switch {
		case t.Chance(1, 5) && len(live) < 4:
			live = append(live, live[i].clone(t))
			what = fmt.Sprintf("#%d = clone of #%d", len(live)-1, i)
			clones++
		case t.Chance(1, 12):
			if r, ok := live[i].(*hStack); ok { // nobody uses it any more: it is recycled
				r.s.Release()
			}
			live = append(live[:i:i], append([]handle{containerKinds[name](t)}, live[i+1:]...)...)
			what = fmt.Sprintf("#%d = new", i)
		default:
			what = fmt.Sprintf("#%d.%s", i, live[i].op(t))
			ops++
		}
		log = append(log, what)
		for j, h := range live {
			if msg, ok := h.look(t); !ok {
				who := "value"
				if j != i {
					who = "other copy"
				}
				t.Failf(name+" "+who, "after %s, #%d: %s", what, j, msg)
			}
		}
		j := t.N(len(live))
		want := live[i].same(live[j])
		t.Check(live[i].eq(live[j]) == want, name+" eq", "after %s, #%d and #%d compare as equal: %t", what, i, j, !want)
		d := live[i].diff(live[j])
		t.Check((len(d) == 0) == want, name+" diff", "after %s, the differences of #%d and #%d are %q", what, i, j, d)
	}
	t.Labelf("%s", name)
	if ops > 1 && clones > 0 {
		t.NonTrivial(pbt.HashString(name + strings.Join(log, ";")))
	}
}

func word(t *pbt.T) [32]byte { return gen.Word(t) }

func u(w [32]byte) U256 { return NewU256FromBytes(w[:]...) }

func key(t *pbt.T) (r [32]byte) { r[31] = byte(t.N(4)); return }

func small(t *pbt.T) (r [32]byte) {
	if t.Chance(1, 4) {
		return word(t)
	}
	r[31] = byte(t.N(3))
	return
}

func hex(w [32]byte) string { return fmt.Sprintf("%x", new(big.Int).SetBytes(w[:])) }

// ---------------------------------------------------------------- stack

type hStack struct {
	s *st.Stack
	m [][32]byte // bottom first
}

func newStack(t *pbt.T) handle {
	h := &hStack{}
	n := t.N(6)
	if t.Chance(1, 6) { // the stack of a fresh state
		h.s = st.NewState(st.NewCode(nil)).Stack
		return h
	}
	if t.Chance(1, 6) {
		n = 1024 - t.N(4)
	}
	if t.Chance(1, 3) {
		h.s = st.NewStackWithSize(n)
		for i := 0; i < n; i++ {
			var v [32]byte
			if n < 20 {
				v = small(t)
			} else {
				v[30], v[31] = byte(i>>8), byte(i)
			}
			h.s.Set(n-1-i, u(v))
			h.m = append(h.m, v)
		}
		return h
	}
	var l []U256
	for i := 0; i < n; i++ {
		var v [32]byte
		if n < 20 {
			v = small(t)
		} else {
			v[30], v[31] = byte(i>>8), byte(i)
		}
		h.m, l = append(h.m, v), append(l, u(v))
	}
	h.s = st.NewStack(l...)
	if len(l) > 0 { // the stack does not share the memory of its arguments
		l[0] = NewU256(0xdead)
	}
	return h
}

func (h *hStack) op(t *pbt.T) string {
	switch t.Weighted(4, 3, 3, 2) {
	case 0:
		if len(h.m) < 1024 {
			v := small(t)
			h.s.Push(u(v))
			h.m = append(slices.Clone(h.m), v)
			return "push " + hex(v)
		}
	case 1:
		if n := len(h.m); n > 0 {
			v := h.s.Pop()
			t.Check(v == u(h.m[n-1]), "stack pop", "pop returns %v, expected %x", v, h.m[n-1])
			h.m = h.m[: n-1 : n-1]
			return "pop"
		}
	case 2:
		if n := len(h.m); n > 0 {
			i := t.N(n)
			v := small(t)
			h.s.Set(i, u(v))
			h.m = slices.Clone(h.m)
			h.m[n-1-i] = v
			return fmt.Sprintf("set %d %s", i, hex(v))
		}
	case 3:
		if n := len(h.m); n > 0 {
			k := t.N(n + 1)
			if t.Chance(1, 4) {
				k = min(1024, n+t.N(9))
			}
			h.s.Resize(k)
			h.m = slices.Clone(h.m[:min(n, k)])
			for i := n; i < k; i++ { // the content of new elements is not specified
				h.s.Set(k-1-i, u([32]byte{31: 7}))
				h.m = append(h.m, [32]byte{31: 7})
			}
			return fmt.Sprintf("resize %d", k)
		}
	}
	return "nothing"
}

func (h *hStack) look(t *pbt.T) (string, bool) {
	if h.s.Size() != len(h.m) {
		return fmt.Sprintf("size %d, expected %d", h.s.Size(), len(h.m)), false
	}
	for i, v := range h.m {
		if g := h.s.Get(len(h.m) - 1 - i); g != u(v) {
			return fmt.Sprintf("element %d is %v, expected %x", len(h.m)-1-i, g, v), false
		}
	}
	return "", true
}

func (h *hStack) clone(t *pbt.T) handle  { return &hStack{h.s.Clone(), slices.Clone(h.m)} }
func (h *hStack) same(o handle) bool     { return slices.Equal(h.m, o.(*hStack).m) }
func (h *hStack) eq(o handle) bool       { return h.s.Eq(o.(*hStack).s) }
func (h *hStack) diff(o handle) []string { return h.s.Diff(o.(*hStack).s) }

// ---------------------------------------------------------------- memory

type hMemory struct {
	s *st.Memory
	m []byte
}

func newMemory(t *pbt.T) handle {
	h := &hMemory{m: t.Bytes(32 * t.N(3))}
	h.s = st.NewMemory(slices.Clone(h.m)...)
	return h
}

func (h *hMemory) grow(off, size int) {
	if n := (off + size + 31) / 32 * 32; size > 0 && n > len(h.m) {
		h.m = append(slices.Clone(h.m), make([]byte, n-len(h.m))...)
	}
}

func (h *hMemory) op(t *pbt.T) string {
	off, size := t.N(150), t.N(70)
	if t.Chance(1, 4) {
		size = 0
	}
	switch t.Weighted(4, 4, 2, 2, 1, 1) {
	case 0:
		data := t.Bytes(size)
		h.grow(off, size)
		h.s.Write(data, uint64(off))
		h.m = slices.Clone(h.m)
		if size > 0 {
			copy(h.m[off:], data)
		}
		return fmt.Sprintf("write %d %x", off, data)
	case 1:
		h.grow(off, size)
		got := h.s.Read(uint64(off), uint64(size))
		if size > 0 {
			t.Check(bytes.Equal(got, h.m[off:off+size]), "memory read", "reading %d bytes at %d of %x results in %x", size, off, h.m, got)
		} else {
			t.Check(len(got) == 0, "memory read", "reading nothing results in %x", got)
		}
		return fmt.Sprintf("read %d %d", off, size)
	case 2:
		h.grow(off, size)
		h.s.Grow(uint64(off), uint64(size))
		return fmt.Sprintf("grow %d %d", off, size)
	case 3:
		h.grow(off, size)
		got := h.s.Hash(uint64(off), uint64(size))
		var want []byte
		if size > 0 {
			want = h.m[off : off+size]
		}
		t.Check(got == ref.Keccak(want), "memory hash", "the hash of %x is reported as %x", want, got)
		return fmt.Sprintf("hash %d %d", off, size)
	case 4:
		data := t.Bytes(32 * t.N(4))
		h.s.Set(data)
		h.m = slices.Clone(data)
		if len(data) > 0 {
			data[0] ^= 1
		}
		return fmt.Sprintf("set %d bytes", len(data))
	default:
		data := t.Bytes(32 * t.N(3))
		h.s.Append(data)
		h.m = append(slices.Clone(h.m), data...)
		if len(data) > 0 {
			data[0] ^= 1
		}
		return fmt.Sprintf("append %d bytes", len(data))
	}
}

func memCost(n *big.Int) *big.Int { // of n bytes
	w := new(big.Int).Add(n, big.NewInt(31))
	w.Rsh(w, 5)
	r := new(big.Int).Mul(w, w)
	r.Rsh(r, 9)
	return r.Add(r, new(big.Int).Mul(w, big.NewInt(3)))
}

func (h *hMemory) look(t *pbt.T) (string, bool) {
	if h.s.Size() != len(h.m) {
		return fmt.Sprintf("size %d, expected %d", h.s.Size(), len(h.m)), false
	}
	if len(h.m) > 0 && !bytes.Equal(h.s.Read(0, uint64(len(h.m))), h.m) {
		return fmt.Sprintf("content %x, expected %x", h.s.Read(0, uint64(len(h.m))), h.m), false
	}
	// expansion costs
	off, size := h.edge(t), h.edge(t)
	cost, o, s := h.s.ExpansionCosts(toU(off), toU(size))
	want := new(big.Int)
	end := new(big.Int).Add(off, size)
	if size.Sign() != 0 && end.Cmp(big.NewInt(int64(len(h.m)))) > 0 {
		want.Sub(memCost(end), memCost(big.NewInt(int64(len(h.m)))))
	}
	if end.Cmp(big.NewInt(st.MaxMemoryExpansionSize)) > 0 && size.Sign() != 0 {
		want.SetInt64(math.MaxInt64)
	}
	if want.Cmp(big.NewInt(int64(cost))) != 0 {
		return fmt.Sprintf("expanding %d bytes to [%x,+%x] costs %d, expected %d", len(h.m), off, size, cost, want), false
	}
	if cost != math.MaxInt64 {
		if s != size.Uint64() || (s != 0 && o != off.Uint64()) {
			return fmt.Sprintf("expansion to [%x,+%x] is reported as [%x,+%x]", off, size, o, s), false
		}
	}
	if h.s.Size() != len(h.m) {
		return "computing expansion costs changes the memory", false
	}
	return "", true
}

func (h *hMemory) edge(t *pbt.T) *big.Int {
	switch t.Weighted(4, 2, 2, 2, 2) {
	case 0:
		return big.NewInt(int64(t.N(300)))
	case 1:
		return big.NewInt(0)
	case 2:
		return gen.WordBig(t)
	case 3:
		return new(big.Int).SetUint64(gen.U64(t))
	default:
		return big.NewInt(st.MaxMemoryExpansionSize + int64(t.N(130)) - 100)
	}
}

func (h *hMemory) clone(t *pbt.T) handle  { return &hMemory{h.s.Clone(), slices.Clone(h.m)} }
func (h *hMemory) same(o handle) bool     { return bytes.Equal(h.m, o.(*hMemory).m) }
func (h *hMemory) eq(o handle) bool       { return h.s.Eq(o.(*hMemory).s) }
func (h *hMemory) diff(o handle) []string { return h.s.Diff(o.(*hMemory).s) }

// ---------------------------------------------------------------- storage

type hStorage struct {
	s         *st.Storage
	cur, orig map[[32]byte][32]byte
	warm      map[[32]byte]bool
}

func put[K, V comparable](m map[K]V, k K, v V) map[K]V { // no explicit zero values in models
	m = maps.Clone(m)
	var zero V
	if v == zero {
		delete(m, k)
	} else {
		m[k] = v
	}
	return m
}

func newStorage(t *pbt.T) handle {
	h := &hStorage{cur: map[[32]byte][32]byte{}, orig: map[[32]byte][32]byte{}, warm: map[[32]byte]bool{}}
	b := st.NewStorageBuilder()
	in := map[[32]byte]bool{}
	for n := t.N(6); n > 0; n-- {
		k, v := key(t), small(t)
		switch t.N(3) {
		case 0:
			b.SetCurrent(u(k), u(v))
			h.cur = put(h.cur, k, v)
		case 1:
			b.SetOriginal(u(k), u(v))
			h.orig = put(h.orig, k, v)
			in[k] = true
		case 2:
			w := t.Bool()
			b.SetWarm(u(k), w)
			if w {
				h.warm = put(h.warm, k, true)
			}
		}
		k = key(t)
		t.Check(b.IsInOriginal(u(k)) == in[k], "storage builder", "key %x is in original: %t", k, !in[k])
	}
	h.s = b.Build()
	if t.Bool() { // the builder starts afresh
		b.SetCurrent(u(key(t)), NewU256(0x77)).SetOriginal(u(key(t)), NewU256(0x78)).SetWarm(u(key(t)), true)
		b.Build()
	}
	return h
}

func (h *hStorage) op(t *pbt.T) string {
	k, v := key(t), small(t)
	switch t.Weighted(3, 2, 2, 2, 1, 1) {
	case 0:
		h.s.SetCurrent(u(k), u(v))
		h.cur = put(h.cur, k, v)
		return fmt.Sprintf("set current %s %s", hex(k), hex(v))
	case 1:
		h.s.SetOriginal(u(k), u(v))
		h.orig = put(h.orig, k, v)
		return fmt.Sprintf("set original %s %s", hex(k), hex(v))
	case 2:
		h.s.MarkWarm(u(k))
		h.warm = put(h.warm, k, true)
		return "warm " + hex(k)
	case 3:
		h.s.MarkCold(u(k))
		h.warm = put(h.warm, k, false)
		return "cold " + hex(k)
	case 4:
		h.s.RemoveCurrent(u(k))
		h.cur = put(h.cur, k, [32]byte{})
		return "remove current " + hex(k)
	default:
		h.s.RemoveOriginal(u(k))
		h.orig = put(h.orig, k, [32]byte{})
		return "remove original " + hex(k)
	}
}

func (h *hStorage) look(t *pbt.T) (string, bool) {
	keys := [][32]byte{{}, {31: 1}, {31: 2}, {31: 3}, word(t)}
	for _, k := range keys {
		if g := h.s.GetCurrent(u(k)); g != u(h.cur[k]) {
			return fmt.Sprintf("current value of %x is %v, expected %x", k, g, h.cur[k]), false
		}
		if g := h.s.GetOriginal(u(k)); g != u(h.orig[k]) {
			return fmt.Sprintf("original value of %x is %v, expected %x", k, g, h.orig[k]), false
		}
		if g := h.s.IsWarm(u(k)); g != h.warm[k] {
			return fmt.Sprintf("key %x is warm: %t", k, g), false
		}
	}
	return "", true
}

func (h *hStorage) clone(t *pbt.T) handle { return &hStorage{h.s.Clone(), h.cur, h.orig, h.warm} }
func (h *hStorage) same(o handle) bool {
	x := o.(*hStorage)
	return maps.Equal(h.cur, x.cur) && maps.Equal(h.orig, x.orig) && maps.Equal(h.warm, x.warm)
}
func (h *hStorage) eq(o handle) bool       { return h.s.Eq(o.(*hStorage).s) }
func (h *hStorage) diff(o handle) []string { return h.s.Diff(o.(*hStorage).s) }

// ---------------------------------------------------------------- transient storage

type hTransient struct {
	s *st.TransientStorage
	m map[[32]byte][32]byte
}

func newTransient(t *pbt.T) handle {
	return &hTransient{&st.TransientStorage{}, map[[32]byte][32]byte{}}
}

func (h *hTransient) op(t *pbt.T) string {
	k, v := key(t), small(t)
	h.s.Set(u(k), u(v))
	h.m = put(h.m, k, v)
	return fmt.Sprintf("set %s %s", hex(k), hex(v))
}

func (h *hTransient) look(t *pbt.T) (string, bool) {
	for _, k := range [][32]byte{{}, {31: 1}, {31: 2}, {31: 3}, word(t)} {
		if g := h.s.Get(u(k)); g != u(h.m[k]) {
			return fmt.Sprintf("value of %x is %v, expected %x", k, g, h.m[k]), false
		}
		if g := h.s.IsZero(u(k)); g != (h.m[k] == [32]byte{}) {
			return fmt.Sprintf("key %x is zero: %t", k, g), false
		}
	}
	return "", true
}
func (h *hTransient) clone(t *pbt.T) handle  { return &hTransient{h.s.Clone(), h.m} }
func (h *hTransient) same(o handle) bool     { return maps.Equal(h.m, o.(*hTransient).m) }
func (h *hTransient) eq(o handle) bool       { return h.s.Eq(o.(*hTransient).s) }
func (h *hTransient) diff(o handle) []string { return h.s.Diff(o.(*hTransient).s) }

// ---------------------------------------------------------------- accounts

type mAccount struct {
	balance [32]byte
	code    string
}

type hAccounts struct {
	s    *st.Accounts
	m    map[tosca.Address]mAccount
	warm map[tosca.Address]bool
}

func addr(t *pbt.T) (r tosca.Address) { r[19] = byte(t.N(4)); return }

func newAccounts(t *pbt.T) handle {
	h := &hAccounts{m: map[tosca.Address]mAccount{}, warm: map[tosca.Address]bool{}}
	b := st.NewAccountsBuilder()
	for n := t.N(6); n > 0; n-- {
		a := addr(t)
		x := h.m[a]
		switch t.N(3) {
		case 0:
			x.balance = small(t)
			h.m[a] = x
			b.SetBalance(a, u(x.balance))
		case 1:
			x.code = string(t.Bytes(t.N(4)))
			h.m[a] = x
			b.SetCode(a, NewBytes([]byte(x.code)))
		default:
			b.SetWarm(a)
			h.warm[a] = true
		}
		a = addr(t)
		_, in := h.m[a]
		t.Check(b.Exists(a) == in, "accounts builder", "account %v exists: %t", a, !in)
	}
	h.s = b.Build()
	if t.Bool() {
		b.SetBalance(addr(t), NewU256(9)).SetCode(addr(t), NewBytes([]byte{1})).SetWarm(addr(t))
		b.Build()
	}
	return h
}

func (h *hAccounts) op(t *pbt.T) string {
	a := addr(t)
	if t.Chance(1, 3) {
		h.s.MarkWarm(a)
		h.warm = put(h.warm, a, true)
		return fmt.Sprintf("warm %v", a)
	}
	v := small(t)
	h.s.SetBalance(a, u(v))
	h.m = maps.Clone(h.m)
	x := h.m[a]
	x.balance = v
	h.m[a] = x
	return fmt.Sprintf("balance %v %s", a, hex(v))
}

func (h *hAccounts) look(t *pbt.T) (string, bool) {
	for _, a := range []tosca.Address{{}, {19: 1}, {19: 2}, {19: 3}, {0: 1}} {
		x, in := h.m[a]
		if h.s.Exists(a) != in {
			return fmt.Sprintf("account %v exists: %t", a, !in), false
		}
		if e := x == (mAccount{}); h.s.IsEmpty(a) != e {
			return fmt.Sprintf("account %v is empty: %t", a, !e), false
		}
		if g := h.s.GetBalance(a); g != u(x.balance) {
			return fmt.Sprintf("account %v has balance %v, expected %x", a, g, x.balance), false
		}
		if g := h.s.GetCode(a); string(g.ToBytes()) != x.code {
			return fmt.Sprintf("account %v has code %v, expected %x", a, g, x.code), false
		}
		if g := h.s.GetAccount(a); g.Balance != u(x.balance) || string(g.Code.ToBytes()) != x.code {
			return fmt.Sprintf("account %v is %v", a, g), false
		}
		if g := h.s.IsWarm(a); g != h.warm[a] {
			return fmt.Sprintf("account %v is warm: %t", a, g), false
		}
	}
	return "", true
}
func (h *hAccounts) clone(t *pbt.T) handle {
	return &hAccounts{h.s.Clone(), maps.Clone(h.m), maps.Clone(h.warm)}
}
func (h *hAccounts) same(o handle) bool {
	x := o.(*hAccounts)
	return maps.Equal(h.m, x.m) && maps.Equal(h.warm, x.warm)
}
func (h *hAccounts) eq(o handle) bool       { return h.s.Eq(o.(*hAccounts).s) }
func (h *hAccounts) diff(o handle) []string { return h.s.Diff(o.(*hAccounts).s) }

// ---------------------------------------------------------------- logs

type mLog struct {
	topics string
	data   string
}

type hLogs struct {
	s *st.Logs
	m []mLog
}

func newLogs(t *pbt.T) handle { return &hLogs{s: st.NewLogs()} }

func (h *hLogs) op(t *pbt.T) string {
	var topics []U256
	var m mLog
	for n := t.N(5); n > 0; n-- {
		v := small(t)
		topics = append(topics, u(v))
		m.topics += string(v[:])
	}
	data := t.Bytes(t.N(5))
	m.data = string(data)
	h.s.AddLog(data, topics...)
	h.m = append(slices.Clone(h.m), m)
	// the caller may reuse its memory
	for i := range data {
		data[i]++
	}
	for i := range topics {
		topics[i] = NewU256(0xbad)
	}
	return fmt.Sprintf("log %d topics, %d bytes", len(topics), len(data))
}

func (h *hLogs) look(t *pbt.T) (string, bool) {
	if len(h.s.Entries) != len(h.m) {
		return fmt.Sprintf("%d entries, expected %d", len(h.s.Entries), len(h.m)), false
	}
	for i, e := range h.s.Entries {
		var topics []byte
		for _, x := range e.Topics {
			b := x.Bytes32be()
			topics = append(topics, b[:]...)
		}
		if string(topics) != h.m[i].topics || string(e.Data) != h.m[i].data {
			return fmt.Sprintf("entry %d is %v, expected %x %x", i, e, h.m[i].topics, h.m[i].data), false
		}
	}
	return "", true
}

func (h *hLogs) clone(t *pbt.T) handle {
	c := &hLogs{h.s.Clone(), slices.Clone(h.m)}
	if n := len(c.m); n > 0 && t.Bool() { // entries of a copy can be edited
		i := t.N(n)
		if e := &c.s.Entries[i]; len(e.Data) > 0 {
			e.Data[0] ^= 1
			b := []byte(c.m[i].data)
			b[0] ^= 1
			c.m[i].data = string(b)
		} else if len(e.Topics) > 0 {
			e.Topics[0] = NewU256(0xabc)
			v := e.Topics[0].Bytes32be()
			c.m[i].topics = string(v[:]) + c.m[i].topics[32:]
		}
	}
	return c
}
func (h *hLogs) same(o handle) bool     { return slices.Equal(h.m, o.(*hLogs).m) }
func (h *hLogs) eq(o handle) bool       { return h.s.Eq(o.(*hLogs).s) }
func (h *hLogs) diff(o handle) []string { return h.s.Diff(o.(*hLogs).s) }

// ---------------------------------------------------------------- call journal

type hJournal struct {
	s      *st.CallJournal
	past   []st.PastCall
	future []st.FutureCall
}

func futureCall(t *pbt.T) st.FutureCall {
	return st.FutureCall{
		Success: t.Bool(), Output: NewBytes(t.Bytes(t.N(4))), GasCosts: tosca.Gas(t.N(100)),
		GasRefund: tosca.Gas(t.N(5)) - 2, CreatedAccount: addr(t),
	}
}

func newJournal(t *pbt.T) handle {
	h := &hJournal{s: st.NewCallJournal()}
	for n := t.N(4); n > 0; n-- {
		h.future = append(h.future, futureCall(t))
	}
	h.s.Future = slices.Clone(h.future)
	return h
}

func (h *hJournal) op(t *pbt.T) string {
	if t.Chance(1, 4) {
		f := futureCall(t)
		h.s.Future = append(h.s.Future, f)
		h.future = append(slices.Clone(h.future), f)
		return "plan a call"
	}
	input := t.Bytes(t.N(4))
	p := tosca.CallParameters{Sender: addr(t), Recipient: addr(t), CodeAddress: addr(t), Value: tosca.Value(small(t)), Input: input, Gas: tosca.Gas(t.N(120)), Salt: tosca.Hash(small(t))}
	kind := tosca.CallKind(t.N(6))
	res := h.s.Call(kind, p)
	h.past = append(slices.Clone(h.past), st.PastCall{Kind: kind, Recipient: p.Recipient, Sender: p.Sender, Input: NewBytes(slices.Clone(input)), Value: p.Value, Gas: p.Gas, CodeAddress: p.CodeAddress})
	var f st.FutureCall
	if len(h.future) > 0 {
		f = h.future[0]
		h.future = slices.Clone(h.future[1:])
	}
	left := max(0, p.Gas-f.GasCosts)
	t.Check(res.Success == f.Success && string(res.Output) == string(f.Output.ToBytes()) && res.GasLeft == left && res.GasRefund == f.GasRefund && res.CreatedAddress == f.CreatedAccount,
		"journal call", "the call results in %+v, planned %+v, with gas %d", res, f, p.Gas)
	if len(input) > 0 {
		input[0]++
	}
	if len(res.Output) > 0 {
		res.Output[0]++
	}
	return "call"
}

func (h *hJournal) look(t *pbt.T) (string, bool) {
	if !slices.Equal(h.s.Past, h.past) {
		return fmt.Sprintf("past calls %v, expected %v", h.s.Past, h.past), false
	}
	if !slices.Equal(h.s.Future, h.future) {
		return fmt.Sprintf("future calls %v, expected %v", h.s.Future, h.future), false
	}
	return "", true
}

func (h *hJournal) clone(t *pbt.T) handle {
	c := &hJournal{h.s.Clone(), slices.Clone(h.past), slices.Clone(h.future)}
	if n := len(c.future); n > 0 && t.Bool() {
		i := t.N(n)
		switch t.N(5) {
		case 0:
			c.future[i].GasCosts ^= 1
		case 1:
			c.future[i].Success = !c.future[i].Success
		case 2:
			c.future[i].GasRefund++
		case 3:
			c.future[i].Output = NewBytes(append(c.future[i].Output.ToBytes(), 0))
		case 4:
			c.future[i].CreatedAccount[0] ^= 1
		}
		c.s.Future[i] = c.future[i]
	} else if n := len(c.past); n > 0 && t.Bool() {
		i := t.N(n)
		switch t.N(7) {
		case 0:
			c.past[i].Gas ^= 1
		case 1:
			c.past[i].Kind++
		case 2:
			c.past[i].Recipient[0] ^= 1
		case 3:
			c.past[i].Sender[0] ^= 1
		case 4:
			c.past[i].CodeAddress[0] ^= 1
		case 5:
			c.past[i].Value[0] ^= 1
		case 6:
			c.past[i].Input = NewBytes(append(c.past[i].Input.ToBytes(), 0))
		}
		c.s.Past[i] = c.past[i]
	}
	return c
}
func (h *hJournal) same(o handle) bool {
	x := o.(*hJournal)
	return slices.Equal(h.past, x.past) && slices.Equal(h.future, x.future)
}
func (h *hJournal) eq(o handle) bool       { return h.s.Equal(o.(*hJournal).s) }
func (h *hJournal) diff(o handle) []string { return h.s.Diff(o.(*hJournal).s) }

// ---------------------------------------------------------------- transaction context

type hTx struct {
	s      *st.TransactionContext
	origin tosca.Address
	blobs  []tosca.Hash
}

func newTx(t *pbt.T) handle { return &hTx{s: st.NewTransactionContext()} }

func (h *hTx) op(t *pbt.T) string {
	if t.Chance(1, 4) {
		h.origin = addr(t)
		h.s.OriginAddress = h.origin
		return "origin"
	}
	if n := len(h.blobs); n > 0 && t.Bool() {
		i := t.N(n)
		v := tosca.Hash(small(t))
		h.blobs = slices.Clone(h.blobs)
		h.blobs[i], h.s.BlobHashes[i] = v, v
		return "edit"
	}
	v := tosca.Hash(small(t))
	h.blobs = append(slices.Clone(h.blobs), v)
	h.s.BlobHashes = append(h.s.BlobHashes, v)
	return "append"
}
func (h *hTx) look(t *pbt.T) (string, bool) {
	ok := h.s.OriginAddress == h.origin && slices.Equal(h.s.BlobHashes, h.blobs)
	return fmt.Sprintf("context %v, expected %v %v", h.s, h.origin, h.blobs), ok
}
func (h *hTx) clone(t *pbt.T) handle { return &hTx{h.s.Clone(), h.origin, slices.Clone(h.blobs)} }
func (h *hTx) same(o handle) bool {
	x := o.(*hTx)
	return h.origin == x.origin && slices.Equal(h.blobs, x.blobs)
}
func (h *hTx) eq(o handle) bool       { return h.s.Eq(o.(*hTx).s) }
func (h *hTx) diff(o handle) []string { return h.s.Diff(o.(*hTx).s) }

// ---------------------------------------------------------------- code

// ctCode: the split of code into instructions and data, and access to both.
func ctCode(t *pbt.T) {
	var raw []byte
	for n := t.N(12); n > 0; n-- {
		switch t.Weighted(3, 2, 3) {
		case 0:
			raw = append(raw, byte(0x5f+t.N(33)))
		case 1:
			raw = append(raw, t.Bytes(t.N(34))...)
		default:
			raw = append(raw, t.Byte())
		}
	}
	t.Sample(func() string { return fmt.Sprintf("code %x", raw) })
	src := slices.Clone(raw)
	c := st.NewCode(src)
	for i := range src { // the caller may reuse its memory
		src[i] ^= 0xff
	}
	isData := map[int]bool{}
	for i := 0; i < len(raw); i++ {
		if raw[i] >= 0x60 && raw[i] <= 0x7f {
			k := int(raw[i]) - 0x5f
			for j := 1; j <= k; j++ {
				isData[i+j] = true
			}
			i += k
		}
	}
	data := 0
	t.Check(c.Length() == len(raw), "length", "%d bytes have length %d", len(raw), c.Length())
	for i := -2; i < len(raw)+40; i++ {
		d := isData[i]
		if i < len(raw) && d {
			data++
		}
		t.Check(c.IsData(i) == d && c.IsCode(i) == !d, "classification", "position %d of %x is data: %t", i, raw, !d)
		op, err := c.GetOperation(i)
		val, err2 := c.GetData(i)
		if d {
			var want byte
			if i < len(raw) {
				want = raw[i]
			}
			t.Check(err2 == nil && val == want, "data", "data at %d of %x is %x, error %v", i, raw, val, err2)
			t.Check(err == st.ErrInvalidPosition, "operation of data", "position %d of %x is an instruction %v, error %v", i, raw, op, err)
		} else {
			want := vm.STOP
			if i >= 0 && i < len(raw) {
				want = vm.OpCode(raw[i])
			}
			t.Check(err == nil && op == want, "operation", "instruction at %d of %x is %v, error %v", i, raw, op, err)
			t.Check(err2 == st.ErrInvalidPosition, "data of operation", "position %d of %x is data %x, error %v", i, raw, val, err2)
		}
	}
	if data > 0 {
		t.NonTrivial(pbt.Hash(raw))
	}
	cp := c.Copy()
	t.Check(bytes.Equal(cp, raw), "copy", "the copy of %x is %x", raw, cp)
	for i := range cp {
		cp[i]++
	}
	t.Check(bytes.Equal(c.Copy(), raw), "immutable", "editing a copy changes the code")
	t.Check(c.Hash() == ref.Keccak(raw) && c.Hash() == ref.Keccak(raw), "hash", "hash of %x is %x", raw, c.Hash())
	a := t.N(len(raw) + 1)
	b := t.Range(a, len(raw))
	dst := make([]byte, t.N(60))
	want := slices.Clone(dst)
	k := copy(want, raw[a:b])
	t.Check(c.CopyCodeSlice(a, b, dst) == k && bytes.Equal(dst, want), "slice", "copying [%d:%d] of %x to %d bytes results in %x", a, b, raw, len(dst), dst)
	other := slices.Clone(raw)
	if len(other) > 0 && t.Bool() {
		other[t.N(len(other))] ^= byte(t.N(3))
	} else if t.Bool() {
		other = append(other, 0)
	}
	o := st.NewCode(other)
	eq := bytes.Equal(other, raw)
	t.Check(c.Eq(o) == eq && o.Eq(c) == eq && (len(c.Diff(o)) == 0) == eq, "equality", "%x and %x compare as %t with %d differences", raw, other, c.Eq(o), len(c.Diff(o)))
	t.Check(c.Clone().Eq(c), "clone", "a clone differs")
	if len(raw) > 0 {
		start, n := t.N(len(raw)), t.N(8)
		var words []string
		for i := start; i < min(start+n, len(raw)); i++ {
			if isData[i] {
				words = append(words, fmt.Sprint(raw[i]))
			} else {
				words = append(words, vm.OpCode(raw[i]).String())
			}
		}
		text := strings.TrimSpace(fmt.Sprintf("len(%d) %s", len(raw), strings.Join(words, " ")))
		t.Check(c.ToHumanReadableString(start, n) == text, "text", "%x[%d,+%d] is printed as %q, expected %q", raw, start, n, c.ToHumanReadableString(start, n), text)
	}
}

// ---------------------------------------------------------------- small helpers

// ctHelpers: byte strings, hash arrays, padding and the revision schedule.
func ctHelpers(t *pbt.T) {
	raw := t.Bytes(t.N(40))
	t.Sample(func() string { return fmt.Sprintf("%x", raw) })
	src := slices.Clone(raw)
	b := NewBytes(src)
	for i := range src {
		src[i]++
	}
	t.Check(bytes.Equal(b.ToBytes(), raw) && b.Length() == len(raw), "bytes", "%x is kept as %v", raw, b)
	got := b.ToBytes()
	for i := range got {
		got[i]++
	}
	x := t.N(len(raw) + 1)
	y := t.Range(x, len(raw))
	t.Check(bytes.Equal(b.Get(uint64(x), uint64(y)), raw[x:y]), "bytes get", "%v[%d:%d] is %x", b, x, y, b.Get(uint64(x), uint64(y)))
	t.Check(b.String() == fmt.Sprintf("0x%x", raw), "bytes text", "%x is printed as %v", raw, b)
	js, err := b.MarshalJSON()
	t.Check(err == nil, "bytes json", "%v", err)
	var back Bytes
	t.Check(back.UnmarshalJSON(js) == nil && back == b, "bytes json", "%x comes back from %s as %v", raw, js, back)
	if len(raw) > 0 {
		t.NonTrivial(pbt.Hash(raw) + uint64(x)*7 + uint64(y))
	}
	// padding
	n := t.N(60)
	right, left := RightPadSlice(raw, n), LeftPadSlice(raw, n)
	t.Check(len(right) == n && len(left) == n, "pad size", "%d bytes padded to %d are %d and %d", len(raw), n, len(right), len(left))
	for i := 0; i < n; i++ {
		var w byte
		if i < len(raw) {
			w = raw[i]
		}
		t.Check(right[i] == w, "pad right", "%x padded to %d is %x", raw, n, right)
		if n >= len(raw) {
			w = 0
			if j := i - (n - len(raw)); j >= 0 {
				w = raw[j]
			}
			t.Check(left[i] == w, "pad left", "%x padded to %d is %x", raw, n, left)
		}
	}
	keep := slices.Clone(raw)
	if n > 0 {
		right[0]++
		left[0]++
	}
	t.Check(bytes.Equal(keep, raw), "pad alias", "padding shares memory")
	// hash arrays
	var hs []tosca.Hash
	for k := t.N(6); k > 0; k-- {
		hs = append(hs, tosca.Hash(small(t)))
	}
	if t.Chance(1, 4) {
		for len(hs) < 256 {
			hs = append(hs, tosca.Hash(key(t)))
		}
	}
	orig := slices.Clone(hs)
	arr := NewImmutableHashArray(hs...)
	if len(hs) > 0 {
		hs[0][0]++
	}
	var all [256]tosca.Hash
	copy(all[:], orig)
	for i := range all {
		t.Check(arr.Get(uint64(i)) == all[i], "hash array", "entry %d is %v, expected %v", i, arr.Get(uint64(i)), all[i])
	}
	other := all
	if t.Bool() {
		other[t.N(256)][t.N(32)] ^= byte(t.N(2))
	}
	arr2 := NewImmutableHashArray(other[:]...)
	t.Check(arr.Equal(arr2) == (all == other) && arr2.Equal(arr) == (all == other), "hash array eq", "arrays compare as %t", arr.Equal(arr2))
	t.Check(arr.Equal(ImmutableHashArray{}) == (all == [256]tosca.Hash{}) && (ImmutableHashArray{}).Equal(arr) == (all == [256]tosca.Hash{}), "hash array eq", "comparison with the empty array")
	js, err = arr.MarshalJSON()
	t.Check(err == nil, "hash array json", "%v", err)
	var arr3 ImmutableHashArray
	t.Check(arr3.UnmarshalJSON(js) == nil && arr3.Equal(arr), "hash array json", "the array does not survive JSON")
	// the schedule of revisions
	block := uint64(t.N(9)) * 1000
	if t.Bool() {
		block += t.Draw(3) - 1
		if block > 1<<63 {
			block = 0
		}
	} else {
		block = gen.U64(t)
	}
	rev := GetRevisionForBlock(block)
	want := tosca.Revision(min(block/1000, 5))
	if block >= 6000 {
		want = R99_UnknownNextRevision
	}
	t.Check(rev == want, "revision of block", "block %d is of revision %v, expected %v", block, rev, want)
	if GetForkBlock(rev) > block {
		t.Failf("fork block", "block %d is of revision %v, which starts at %d", block, rev, GetForkBlock(rev))
	}
	l, err := GetBlockRangeLengthFor(rev)
	t.Check(err == nil && (l == 0 || block-GetForkBlock(rev) < l), "block range", "block %d of %v is out of range %d", block, rev, l)
	if rev <= tosca.R13_Cancun {
		t.Check(l == 1000 && GetForkTime(rev) <= block && block-GetForkTime(rev) < 1000, "block range", "range of %v: %d from %d", rev, l, GetForkTime(rev))
	}
}

// codeHash: the hash an account reports is the one of its code.
func codeHash(t *pbt.T) {
	ab := st.NewAccountsBuilder()
	codes := map[tosca.Address]string{}
	for i := t.N(4); i > 0; i-- {
		a := tosca.Address{19: byte(t.N(4))}
		c := t.Bytes(t.Weighted(3, 2, 2, 1, 1) * t.Range(1, 40))
		ab.SetCode(a, NewBytes(c))
		codes[a] = string(c)
	}
	acc := ab.Build()
	t.NonTrivial(pbt.HashString(fmt.Sprint(codes)))
	for i := byte(0); i < 4; i++ {
		a := tosca.Address{19: i}
		got := acc.GetCodeHash(a)
		sig := "code hash"
		if got == (tosca.Hash{}) {
			sig = "code hash is zero"
		}
		t.Check(got == ref.Keccak([]byte(codes[a])), sig, "the hash of the code %x is reported as %x", codes[a], got)
	}
}
