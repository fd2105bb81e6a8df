package main

import (
	"errors"
	"fmt"
	"math/big"
	"slices"
	"strings"

	. "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"

	"verif/gen"
	"verif/pbt"
)

// fromState reads a CT state; of the storages and accounts the entries which the stack and the call context name.
func fromState(s *st.State, keys ...*big.Int) *model {
	m := &model{
		status: s.Status, rev: s.Revision, static: s.ReadOnly, pc: int(s.Pc), gas: int64(s.Gas), refund: int64(s.GasRefund),
		code: s.Code.Copy(), last: s.LastCallReturnData.ToBytes(), out: s.ReturnData.ToBytes(),
		call: s.CallContext, block: s.BlockContext, input: s.CallData.ToBytes(),
		cur: map[tosca.Key]tosca.Word{}, orig: map[tosca.Key]tosca.Word{}, warmSlots: map[tosca.Key]bool{},
		transient: map[tosca.Key]tosca.Word{}, accounts: map[tosca.Address]acct{}, warm: map[tosca.Address]bool{},
		destructed: s.HasSelfDestructed,
	}
	if s.TransactionContext != nil {
		m.origin, m.blobs = s.TransactionContext.OriginAddress, slices.Clone(s.TransactionContext.BlobHashes)
	}
	for i := s.Stack.Size() - 1; i >= 0; i-- {
		m.stack = append(m.stack, s.Stack.Get(i).ToBigInt())
	}
	m.mem = slices.Clone(s.Memory.Clone().Read(0, uint64(s.Memory.Size())))
	addrs := []tosca.Address{m.call.AccountAddress, m.call.CallerAddress, m.origin, m.block.CoinBase}
	for i := 0; i < len(m.stack) && i < 10; i++ {
		keys = append(keys, m.stack[len(m.stack)-1-i])
	}
	for _, k := range keys {
		w := [32]byte{}
		k.FillBytes(w[:])
		addrs = append(addrs, tosca.Address(w[12:]))
		ku := u(w)
		if v := s.Storage.GetCurrent(ku); !v.IsZero() {
			m.cur[w] = v.Bytes32be()
		}
		if v := s.Storage.GetOriginal(ku); !v.IsZero() {
			m.orig[w] = v.Bytes32be()
		}
		if s.Storage.IsWarm(ku) {
			m.warmSlots[w] = true
		}
		if v := s.TransientStorage.Get(ku); !v.IsZero() {
			m.transient[w] = v.Bytes32be()
		}
	}
	for _, a := range addrs {
		if s.Accounts.Exists(a) {
			b := s.Accounts.GetBalance(a)
			m.accounts[a] = acct{balance: b.Bytes32be(), code: string(s.Accounts.GetCode(a).ToBytes())}
		}
		if s.Accounts.IsWarm(a) {
			m.warm[a] = true
		}
	}
	if s.CallJournal != nil {
		m.past, m.future = slices.Clone(s.CallJournal.Past), slices.Clone(s.CallJournal.Future)
	}
	for i := uint64(0); i < 256; i++ {
		m.hashes = append(m.hashes, s.RecentBlockHashes.Get(i))
	}
	if s.Logs != nil {
		for _, e := range s.Logs.Entries {
			l := mLog{data: string(e.Data)}
			for _, tp := range e.Topics {
				b := tp.Bytes32be()
				l.topics += string(b[:])
			}
			m.logs = append(m.logs, l)
		}
	}
	return m
}

// ------------------------------------------------------------ conditions

var errStack = errors.New("stack bounds")
var errData = errors.New("data position")

// place is an expression for a word: a stack slot, the program counter, or a constant.
type place struct {
	kind byte
	i    int
	v    *big.Int
}

func (p place) expr() rlz.BindableExpression[U256] {
	switch p.kind {
	case 'p':
		return rlz.Param(p.i)
	case 'v':
		return rlz.ValueParam(p.i)
	case 'c':
		return rlz.Pc()
	}
	return rlz.Constant(toU(p.v))
}

func (p place) eval(m *model) (*big.Int, error) {
	switch p.kind {
	case 'p', 'v':
		if p.i >= len(m.stack) {
			return nil, errStack
		}
		return m.stack[len(m.stack)-1-p.i], nil
	case 'c':
		return big.NewInt(int64(m.pc)), nil
	}
	return p.v, nil
}

func (p place) String() string {
	switch p.kind {
	case 'p', 'v':
		return fmt.Sprintf("%c%d", p.kind, p.i)
	case 'c':
		return "pc"
	}
	return "0x" + p.v.Text(16)
}

type cond struct {
	text  string
	build func() rlz.Condition
	eval  func(m *model) (bool, error)
}

func comparison[T any](op int, lhs rlz.Expression[T], rhs T) rlz.Condition {
	switch op {
	case 0:
		return rlz.Eq(lhs, rhs)
	case 1:
		return rlz.Ne(lhs, rhs)
	case 2:
		return rlz.Lt(lhs, rhs)
	case 3:
		return rlz.Le(lhs, rhs)
	case 4:
		return rlz.Gt(lhs, rhs)
	}
	return rlz.Ge(lhs, rhs)
}

func holds(op int, c int) bool {
	return []bool{c == 0, c != 0, c < 0, c <= 0, c > 0, c >= 0}[op]
}

var opText = []string{"=", "≠", "<", "≤", ">", "≥"}

// condGen generates conditions with constants near the values in m.
type condGen struct {
	t *pbt.T
	m *model
	// conditions which generators support, only
	solvable bool
	places   func() place
}

func (g *condGen) op(all bool) int {
	if all {
		return g.t.N(6)
	}
	return g.t.N(2)
}

func near(t *pbt.T, v *big.Int) *big.Int {
	switch t.Weighted(4, 2, 2, 2) {
	case 0:
		return new(big.Int).Set(v)
	case 1:
		return gen.Mod256(new(big.Int).Add(v, big.NewInt(1)))
	case 2:
		return gen.Mod256(new(big.Int).Sub(v, big.NewInt(1)))
	}
	return gen.WordBig(t)
}

func (g *condGen) place(pc bool) place {
	if g.places != nil {
		return g.places()
	}
	t := g.t
	switch t.Weighted(10, 2, 2) {
	case 0:
		p := place{kind: 'p', i: t.N(8)}
		if t.Chance(1, 6) {
			p.kind = 'v'
		}
		if t.Chance(1, 8) {
			p.i = max(0, len(g.m.stack)-2+t.N(4))
		}
		return p
	case 1:
		if pc {
			return place{kind: 'c'}
		}
	}
	var v *big.Int
	switch t.Weighted(3, 2, 1) {
	case 0:
		v = big.NewInt(int64(t.N(len(g.m.code) + 4)))
	case 1:
		if len(g.m.stack) > 0 {
			v = near(t, pbt.Pick(t, g.m.stack))
		} else {
			v = gen.WordBig(t)
		}
	default:
		v = gen.WordBig(t)
	}
	return place{kind: 'k', v: v}
}

// index: a place for the index of a blob; generated states get as many blobs as a constant index asks for.
func (g *condGen) index() place {
	p := g.place(false)
	if p.kind == 'k' && g.solvable && p.v.BitLen() > 10 && p.v.BitLen() <= 64 {
		p.v = new(big.Int).Rsh(p.v, uint(p.v.BitLen()-10))
	}
	return p
}

func addrOf(v *big.Int) (a tosca.Address) {
	w := [32]byte{}
	v.FillBytes(w[:])
	copy(a[:], w[12:])
	return
}

func wordKey(v *big.Int) (k [32]byte) { v.FillBytes(k[:]); return }

// dataAt: the positions of immediate data, those of a last instruction that the code cuts off included
func dataAt(code []byte) []bool {
	res := make([]bool, len(code)+32)
	for i := 0; i < len(code); i++ {
		if n := int(code[i]) - 0x5f; n > 0 && n <= 32 {
			for j := 1; j <= n; j++ {
				res[i+j] = true
			}
			i += n
		}
	}
	return res
}

func isDataAt(m *model, v *big.Int) bool {
	return v.IsInt64() && v.Int64() < int64(len(m.code)+32) && dataAt(m.code)[v.Int64()]
}

func recentBlock(m *model, v *big.Int) bool {
	n := new(big.Int).SetUint64(m.block.BlockNumber)
	return v.Cmp(n) < 0 && new(big.Int).Sub(n, v).Cmp(big.NewInt(256)) <= 0
}

func onPlace(name string, p place, build func(rlz.BindableExpression[U256]) rlz.Condition, f func(m *model, v *big.Int) bool) cond {
	return cond{name + "(" + p.String() + ")", func() rlz.Condition { return build(p.expr()) }, func(m *model) (bool, error) {
		v, err := p.eval(m)
		if err != nil {
			return false, err
		}
		return f(m, v), nil
	}}
}

func emptyAt(m *model, v *big.Int) bool {
	x := m.accounts[addrOf(v)]
	return x.balance == [32]byte{} && x.code == ""
}

// one generates a condition which is not a conjunction.
func (g *condGen) one() cond {
	return g.kind(g.t.Weighted(2, 2, 4, 1, 1, 4, 4, 3, 4, 2, 2, 2, 2, 2, 3, 2, 2, 2, 2, 2, 1, 1, 2, 2, 2, 2))
}

func (g *condGen) kind(k int) cond {
	t, m := g.t, g.m
	all := !g.solvable
	switch k {
	case 0: // status
		op, v := g.op(all), st.StatusCode(t.N(int(st.NumStatusCodes)))
		return cond{fmt.Sprint("status", opText[op], v), func() rlz.Condition { return comparison(op, rlz.Status(), v) }, func(m *model) (bool, error) {
			return holds(op, int(m.status)-int(v)), nil
		}}
	case 1: // pc
		op, v := g.op(all), near(t, big.NewInt(int64(m.pc)))
		if g.solvable {
			v = big.NewInt(int64(t.N(1 << 16)))
			if t.Chance(3, 4) {
				v = big.NewInt(int64(m.pc))
			}
			if t.Chance(1, 16) {
				v = big.NewInt(1<<16 - 1)
			}
		}
		return cond{fmt.Sprint("pc", opText[op], v), func() rlz.Condition { return comparison[U256](op, rlz.Pc(), toU(v)) }, func(m *model) (bool, error) {
			return holds(op, big.NewInt(int64(m.pc)).Cmp(v)), nil
		}}
	case 2: // gas
		op, v := g.op(true), m.gas-2+int64(t.N(5))
		switch t.Weighted(2, 1, 1) {
		case 1:
			v = int64(t.N(4)) - 1
		case 2:
			v = int64(st.MaxGasUsedByCt) - 2 + int64(t.N(4))
		}
		return cond{fmt.Sprint("gas", opText[op], v), func() rlz.Condition { return comparison(op, rlz.Gas(), tosca.Gas(v)) }, func(m *model) (bool, error) {
			return holds(op, big.NewInt(m.gas).Cmp(big.NewInt(v))), nil
		}}
	case 3: // mode
		op, v := g.op(false), t.Bool()
		return cond{fmt.Sprint("readonly", opText[op], v), func() rlz.Condition { return comparison(op, rlz.ReadOnly(), v) }, func(m *model) (bool, error) {
			return (m.static == v) == (op == 0), nil
		}}
	case 4: // self
		op, v := g.op(false), m.call.AccountAddress
		if t.Bool() {
			v[t.N(20)]++
		}
		return cond{fmt.Sprintf("self%s%x", opText[op], v), func() rlz.Condition { return comparison[tosca.Address](op, rlz.SelfAddress(), v) }, func(m *model) (bool, error) {
			return (m.call.AccountAddress == v) == (op == 0), nil
		}}
	case 5: // balance
		op, p, self := g.op(true), g.place(false), t.Chance(1, 3)
		e, name := rlz.Balance(rlz.ToAddress(p.expr())), p.String()
		if self {
			e, name = rlz.Balance(rlz.SelfAddress()), "self"
		}
		bal := func(m *model) (*big.Int, error) {
			a := m.call.AccountAddress
			if !self {
				v, err := p.eval(m)
				if err != nil {
					return nil, err
				}
				a = addrOf(v)
			}
			b := m.accounts[a].balance
			return new(big.Int).SetBytes(b[:]), nil
		}
		v := big.NewInt(int64(t.N(3)))
		if b, err := bal(m); err == nil && t.Chance(2, 3) {
			v = near(t, b)
		}
		if t.Chance(1, 10) {
			v = new(big.Int).Sub(gen.Pow2(256), big.NewInt(int64(1+t.N(2))))
		}
		return cond{fmt.Sprintf("balance(%s)%s%x", name, opText[op], v), func() rlz.Condition { return comparison(op, e, toU(v)) }, func(m *model) (bool, error) {
			b, err := bal(m)
			if err != nil {
				return false, err
			}
			return holds(op, b.Cmp(v)), nil
		}}
	case 6: // operation
		op, p := g.op(all), g.place(true)
		at := func(m *model) (byte, error) {
			v, err := p.eval(m)
			if err != nil {
				return 0, err
			}
			if isDataAt(m, v) {
				return 0, errData
			}
			if !v.IsInt64() || v.Int64() >= int64(len(m.code)) {
				return 0, nil
			}
			return m.code[v.Int64()], nil
		}
		v := t.Byte()
		if b, err := at(m); err == nil && t.Chance(3, 4) {
			v = b + []byte{0, 0, 1, 0xff}[t.N(4)]
		}
		return cond{fmt.Sprintf("code[%s]%s%02x", p, opText[op], v), func() rlz.Condition { return comparison(op, rlz.Op(p.expr()), vm.OpCode(v)) }, func(m *model) (bool, error) {
			b, err := at(m)
			if err != nil {
				return false, err
			}
			return holds(op, int(b)-int(v)), nil
		}}
	case 7: // stack size
		op, v := g.op(true), len(m.stack)-2+t.N(5)
		switch t.Weighted(4, 1, 1) {
		case 1:
			v = t.N(3)
		case 2:
			v = st.MaxStackSize - 2 + t.N(4)
		}
		return cond{fmt.Sprint("size", opText[op], v), func() rlz.Condition { return comparison(op, rlz.StackSize(), v) }, func(m *model) (bool, error) {
			return holds(op, len(m.stack)-v), nil
		}}
	case 8: // parameter
		op, p := g.op(all), g.place(false)
		if p.kind == 'k' {
			p = place{kind: 'p', i: t.N(5)}
		}
		v := gen.WordBig(t)
		if x, err := p.eval(m); err == nil && t.Chance(3, 4) {
			v = near(t, x)
		}
		return cond{fmt.Sprintf("%s%s%x", p, opText[op], v), func() rlz.Condition { return comparison[U256](op, p.expr(), toU(v)) }, func(m *model) (bool, error) {
			x, err := p.eval(m)
			if err != nil {
				return false, err
			}
			return holds(op, x.Cmp(v)), nil
		}}
	case 9:
		lo := tosca.R07_Istanbul + tosca.Revision(t.N(6))
		hi := lo + tosca.Revision(t.N(int(tosca.R13_Cancun-lo)+1))
		if t.Chance(1, 8) {
			hi = R99_UnknownNextRevision
		}
		if t.Chance(1, 8) {
			lo = hi
		}
		return cond{fmt.Sprintf("revision in %d..%d", lo, hi), func() rlz.Condition {
			if lo == hi && lo%2 == 0 {
				return rlz.IsRevision(lo)
			}
			if lo == tosca.R07_Istanbul && hi == tosca.R13_Cancun {
				return rlz.AnyKnownRevision()
			}
			return rlz.RevisionBounds(lo, hi)
		}, func(m *model) (bool, error) { return lo <= m.rev && m.rev <= hi, nil }}
	case 10:
		return onPlace("isCode", g.place(true), func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.IsCode(e) }, func(m *model, v *big.Int) bool { return !isDataAt(m, v) })
	case 11:
		return onPlace("isData", g.place(true), func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.IsData(e) }, isDataAt)
	case 12:
		return onPlace("warmSlot", g.place(false), func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.IsStorageWarm(e) }, func(m *model, v *big.Int) bool { return m.warmSlots[wordKey(v)] })
	case 13:
		return onPlace("coldSlot", g.place(false), func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.IsStorageCold(e) }, func(m *model, v *big.Int) bool { return !m.warmSlots[wordKey(v)] })
	case 14: // storage configuration
		k, n := g.place(false), g.place(false)
		status := func(m *model) (tosca.StorageStatus, error) {
			kv, err := k.eval(m)
			if err != nil {
				return 0, err
			}
			nv, err := n.eval(m)
			if err != nil {
				return 0, err
			}
			return storageStatus(m.orig[wordKey(kv)], m.cur[wordKey(kv)], wordKey(nv)), nil
		}
		cfg := tosca.StorageStatus(t.N(9))
		if s, err := status(m); err == nil && t.Chance(3, 4) {
			cfg = s
		}
		return cond{fmt.Sprintf("config(%v,%s,%s)", cfg, k, n), func() rlz.Condition { return rlz.StorageConfiguration(cfg, k.expr(), n.expr()) }, func(m *model) (bool, error) {
			s, err := status(m)
			return s == cfg && err == nil, err
		}}
	case 15:
		return onPlace("transient≠0", g.place(false), func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.BindTransientStorageToNonZero(e) }, func(m *model, v *big.Int) bool { return m.transient[wordKey(v)] != tosca.Word{} })
	case 16:
		return onPlace("transient=0", g.place(false), func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.BindTransientStorageToZero(e) }, func(m *model, v *big.Int) bool { return m.transient[wordKey(v)] == tosca.Word{} })
	case 17:
		return onPlace("empty", g.place(false), func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.AccountIsEmpty(e) }, emptyAt)
	case 18:
		return onPlace("!empty", g.place(false), func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.AccountIsNotEmpty(e) }, func(m *model, v *big.Int) bool { return !emptyAt(m, v) })
	case 19:
		if t.Bool() {
			return onPlace("warm", g.place(false), func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.IsAddressWarm(e) }, func(m *model, v *big.Int) bool { return m.warm[addrOf(v)] })
		}
		return onPlace("cold", g.place(false), func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.IsAddressCold(e) }, func(m *model, v *big.Int) bool { return !m.warm[addrOf(v)] })
	case 20:
		return cond{"destructed", func() rlz.Condition { return rlz.HasSelfDestructed() }, func(m *model) (bool, error) { return m.destructed, nil }}
	case 21:
		return cond{"!destructed", func() rlz.Condition { return rlz.HasNotSelfDestructed() }, func(m *model) (bool, error) { return !m.destructed, nil }}
	case 22:
		return onPlace("recent", g.place(false), func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.InRange256FromCurrentBlock(e) }, recentBlock)
	case 23:
		return onPlace("!recent", g.place(false), func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.OutOfRange256FromCurrentBlock(e) }, func(m *model, v *big.Int) bool { return !recentBlock(m, v) })
	case 24:
		return onPlace("blob", g.index(), func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.HasBlobHash(e) }, func(m *model, v *big.Int) bool { return v.Cmp(big.NewInt(int64(len(m.blobs)))) < 0 })
	}
	return onPlace("!blob", g.index(), func(e rlz.BindableExpression[U256]) rlz.Condition { return rlz.HasNoBlobHash(e) }, func(m *model, v *big.Int) bool { return v.Cmp(big.NewInt(int64(len(m.blobs)))) >= 0 })
}

// storageStatus as defined by EIP-2200: from what a slot held before the transaction, what it holds, and what it gets.
func storageStatus(o, c, n [32]byte) tosca.StorageStatus {
	zero := [32]byte{}
	switch {
	case c == n:
		return tosca.StorageAssigned
	case o == c && o == zero:
		return tosca.StorageAdded
	case o == c && n == zero:
		return tosca.StorageDeleted
	case o == c:
		return tosca.StorageModified
	case o == zero && n == zero:
		return tosca.StorageAddedDeleted
	case o == zero:
		return tosca.StorageAssigned
	case c == zero && n == o:
		return tosca.StorageDeletedRestored
	case c == zero:
		return tosca.StorageDeletedAdded
	case n == zero:
		return tosca.StorageModifiedDeleted
	case n == o:
		return tosca.StorageModifiedRestored
	}
	return tosca.StorageAssigned
}

// all is the conjunction of conditions.
func all(cs []cond) cond {
	var names []string
	for _, c := range cs {
		names = append(names, c.text)
	}
	return cond{"(" + strings.Join(names, " ∧ ") + ")", func() rlz.Condition {
		var list []rlz.Condition
		for _, c := range cs {
			list = append(list, c.build())
		}
		return rlz.And(list...)
	}, func(m *model) (bool, error) {
		for _, c := range cs {
			if ok, err := c.eval(m); !ok || err != nil {
				return false, err
			}
		}
		return true, nil
	}}
}

func (g *condGen) nested(depth int) cond {
	if depth == 0 || !g.t.Chance(1, 3) {
		return g.one()
	}
	var cs []cond
	for n := g.t.N(4); n > 0; n-- {
		cs = append(cs, g.nested(depth-1))
	}
	return all(cs)
}

// conditions: the conditions of the specification language evaluate to what they say.
func conditions(t *pbt.T) {
	m, s := anyState(t)
	if t.Chance(1, 3) { // make keys that occur on the stack matter
		for i := 0; i < len(m.stack) && i < 3; i++ {
			k := wordKey(m.stack[len(m.stack)-1-i])
			switch t.N(6) {
			case 0:
				m.cur[k] = tosca.Word(smallWord(t))
			case 1:
				m.orig[k] = tosca.Word(smallWord(t))
				m.cur[k] = tosca.Word(smallWord(t))
			case 2:
				m.transient[k] = tosca.Word(smallWord(t))
			case 3:
				m.accounts[tosca.Address(k[12:])] = acct{balance: smallWord(t), code: contract(t)}
			case 4:
				m.accounts[tosca.Address(k[12:])] = acct{code: contract(t)}
			case 5:
				m.warm[tosca.Address(k[12:])] = true
				m.warmSlots[k] = true
			}
		}
		s = m.state()
	}
	g := &condGen{t: t, m: m}
	un := newUniverse(m)
	for n := 1 + t.N(6); n > 0; n-- {
		c := g.nested(2)
		want, wantErr := c.eval(m)
		rc := c.build()
		got, err := rc.Check(s)
		name := kindOf(c.text)
		t.Labelf("%s %v %v", name, want, wantErr != nil)
		t.Check((err != nil) == (wantErr != nil), "error of "+name, "%s: got %v, want %v\n%v", c.text, err, wantErr, m)
		if wantErr == nil {
			t.Check(got == want, "value of "+name, "%s: got %v, want %v\n%v", c.text, got, want, m)
		} else {
			t.Check(wantErr != errStack || errors.Is(err, rlz.ErrStackOutOfBoundsAccess), "error of "+name, "%s: got %v, want %v", c.text, err, rlz.ErrStackOutOfBoundsAccess)
		}
		t.NonTrivial(m.key() ^ pbt.HashString(c.text))
		t.Sample(func() string { return fmt.Sprintf("%s = %v %v for %s", c.text, want, wantErr, m) })
	}
	if ds := m.diff(s, un); len(ds) > 0 {
		t.Failf("checking changes the state", "%s\n%v", strings.Join(ds, "\n"), m)
	}
	s.Release()
}
