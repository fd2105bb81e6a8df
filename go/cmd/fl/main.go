// Property checks for go/processor/floria: histories of transactions on a
// model chain, executed by the processor under test and by a model of it.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/tosca"

	"verif/gen"
	"verif/pbt"

	_ "github.com/Fantom-foundation/Tosca/go/processor/floria"
)

func main() {
	pbt.Main(map[string]pbt.Check{
		"tx-fees":       func(t *pbt.T) { transactions(t, &profile{fees: true, depth: 1, warm: true}) },
		"tx-traces":     func(t *pbt.T) { transactions(t, &profile{depth: 4, creates: 3, pre: 3, failing: true, driver: 1}) },
		"tx-creates":    func(t *pbt.T) { transactions(t, &profile{depth: 3, creates: 10, collisions: true, warm: true}) },
		"tx-calls":      func(t *pbt.T) { transactions(t, &profile{depth: 6, creates: 1, pre: 4, loops: true}) },
		"tx-end-to-end": endToEnd,
		"tx-driver":     func(t *pbt.T) { transactions(t, &profile{depth: 3, pre: 1, driver: 10}) },
	})
}

type profile struct {
	fees, warm, failing, collisions, loops bool
	depth, creates, pre, driver            int
}

var names = map[tosca.Address]string{}

func nameOf(a tosca.Address) string {
	if n, ok := names[a]; ok {
		return n
	}
	if a == (tosca.Address{19: a[19]}) {
		return fmt.Sprintf("precompile-%d", a[19])
	}
	return fmt.Sprintf("%x", a[:])
}

func named(n string, b ...byte) tosca.Address { a := hexAddr(b...); names[a] = n; return a }

var (
	users     []tosca.Address
	contracts []tosca.Address
	others    []tosca.Address
	rich      = named("rich", 0xff)
)

func init() {
	names[tosca.Address{}] = "zero"
	names[driver] = "driver"
	names[evmWrite] = "state-contract"
	for i := byte(0); i < 4; i++ {
		users = append(users, named(fmt.Sprintf("user%d", i), 0xe0+i))
		contracts = append(contracts, named(fmt.Sprintf("contract%d", i), 0xc0+i))
	}
	for i := byte(0); i < 3; i++ {
		others = append(others, named(fmt.Sprintf("other%d", i), 0xa0+i))
	}
}

// world is what one case starts from.
type scene struct {
	t       *pbt.T
	p       *profile
	rev     tosca.Revision
	scripts []script
	in      tosca.Interpreter // of the model

	before, modelled, compare func()
}

func (s *scene) account() tosca.Address {
	t := s.t
	switch t.Weighted(8, 3, 2, 2*s.p.pre, 2*s.p.driver, s.p.driver, 1) {
	case 0:
		return pbt.Pick(t, contracts)
	case 1:
		return pbt.Pick(t, users)
	case 2:
		return pbt.Pick(t, others)
	case 3:
		return tosca.Address{19: byte(1 + t.N(11))}
	case 4:
		return evmWrite
	case 5:
		return driver
	}
	return tosca.Address{}
}

func (s *scene) code() []byte {
	t := s.t
	switch t.Weighted(10, 2, 1) {
	case 0:
		return codeOf(t.N(8), 0)
	case 1:
		return codeOf(t.N(8), t.Range(0, 60))
	}
	return nil
}

func word(b *big.Int) []byte { w := toValue(b); return w[:] }

func left(a tosca.Address) []byte { return append(make([]byte, 12), a[:]...) }

// stateInput is input for the state contract.
func (s *scene) stateInput() []byte {
	t := s.t
	acc := func() []byte {
		w := left(s.account())
		if t.Chance(1, 10) {
			copy(w, t.Bytes(12)) // bits above the address
		}
		return w
	}
	var sel [4]byte
	var arg []byte
	switch t.N(6) {
	case 0:
		sel = selSetBalance
		v := new(big.Int).Rsh(gen.WordBig(t), 8)
		arg = append(acc(), word(v)...)
	case 1:
		sel, arg = selCopyCode, append(acc(), acc()...)
	case 2:
		sel, arg = selSwapCode, append(acc(), acc()...)
	case 3:
		sel = selSetStorage
		arg = append(acc(), word(big.NewInt(int64(t.N(3))))...)
		arg = append(arg, word(gen.WordBig(t))...)
	case 4:
		sel = selIncNonce
		n := big.NewInt(int64(pbt.Pick(t, []int{0, 1, 2, 5, 254, 255, 256, 257, 1000})))
		if t.Chance(1, 3) {
			n.Add(n, gen.Pow2(uint(64+t.N(190))))
		}
		arg = append(acc(), word(n)...)
	default:
		copy(sel[:], t.Bytes(4))
		if t.Bool() {
			sel = selSetBalance
			sel[t.N(4)] ^= 1
		}
		arg = append(acc(), acc()...)
	}
	in := append(sel[:], arg...)
	switch t.Weighted(12, 1, 1) {
	case 1:
		in = append(in, t.Bytes(t.Range(1, 33))...)
	case 2:
		in = in[:t.N(len(in))]
	}
	return in
}

func (s *scene) input(to tosca.Address) []byte {
	t := s.t
	if to == evmWrite {
		return s.stateInput()
	}
	if precompile(to, tosca.R13_Cancun) != nil {
		n := pbt.Pick(t, []int{0, 1, 31, 32, 33, 96, 128, 192, 213, 384})
		in := t.Bytes(n)
		if to[19] == 5 && n >= 96 && !t.Chance(1, 4) {
			for i := 0; i < 96; i++ {
				in[i] = 0
			}
			in[31], in[63], in[95] = t.Byte()%20, t.Byte()%20, t.Byte()%20
		}
		if t.Bool() && n > 0 {
			in[0] = 0
		}
		return in
	}
	return t.Bytes(pbt.Pick(t, []int{0, 0, 1, 4, 40}))
}

func (s *scene) script() (r script) {
	t, p := s.t, s.p
	n := t.Weighted(2, 4, 4, 3, 2)
	for i := 0; i < n; i++ {
		a := act{kind: actKind(t.Weighted(4, 2, 2, 1, 2, 4*p.depth, 1)), key: byte(t.N(3)), value: byte(t.N(4)), salt: byte(t.N(2))}
		switch t.Weighted(8, 2, 2, 1, p.creates) {
		case 0:
			a.addr = s.account()
		case 1:
			a.to = toSelf
		case 2:
			a.to = toCaller
		case 3:
			a.to = toOrigin
		case 4:
			a.to = toCreated
		}
		if a.kind == actCall {
			a.call = pbt.Pick(t, []tosca.CallKind{tosca.Call, tosca.Call, tosca.Call, tosca.StaticCall, tosca.DelegateCall, tosca.CallCode})
			if p.creates > 0 && t.Chance(p.creates, p.creates+5) {
				a.call = pbt.Pick(t, []tosca.CallKind{tosca.Create, tosca.Create2})
				a.input = s.code()
			} else {
				if p.driver > 3 && t.Chance(1, 2) {
					a.to, a.addr, a.call = toAccount, evmWrite, pbt.Pick(t, []tosca.CallKind{tosca.Call, tosca.Call, tosca.Call, tosca.StaticCall})
				}
				if p.driver > 0 && a.addr == evmWrite && (a.call == tosca.DelegateCall || a.call == tosca.CallCode) {
					a.call = tosca.Call
				}
				a.input = s.input(a.addr)
			}
			a.share = t.Weighted(1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 3)
			a.money = t.Weighted(4, 3, 1, 1)
			if t.Chance(1, 8) {
				a.exact = tosca.Gas(pbt.Pick(t, []int{1, 15, 18, 150, 3000, 8999, 9000, 19999, 20000, 32000, 32406, 64000, 64203, 100000}))
				if pc := precompile(a.addr, s.rev); pc != nil && a.to == toAccount {
					a.exact = max(0, tosca.Gas(min(pc.RequiredGas(a.input), 1<<40))+tosca.Gas(t.Range(-1, 1)))
				}
			}
		}
		r.acts = append(r.acts, a)
	}
	f := 1
	if p.failing {
		f = 4
	}
	r.end = outcome(t.Weighted(12, 3*f, 2*f, 1))
	r.giveUp = t.Bool()
	r.gas = t.Weighted(6, 1, 3, 4)
	r.delta = t.Range(-1, 1)
	if t.Chance(1, 4) {
		r.refund = int64(pbt.Pick(t, []int{1, 100, 4800, 15000, 1 << 30}))
	}
	switch t.Weighted(6, 3, 1, 1, 1, 1) {
	case 0:
		r.output = s.code()
	case 1:
		r.output = t.Bytes(t.N(40))
	case 2:
		r.output = append([]byte{0xef}, t.Bytes(t.N(3))...)
	case 3:
		r.output = make([]byte, 24576)
	case 4:
		r.output = make([]byte, 24577)
	}
	if len(r.output) > 20000 && t.Chance(1, 4) {
		r.output[0] = 0xef
	}
	return
}

func (s *scene) build(c *chain) {
	t := s.t
	set := func(a tosca.Address, code []byte) {
		x := c.get(a)
		x.code = code
		x.nonce = pbt.Pick(t, []uint64{0, 1, 1, 127, 128, 1 << 40})
		if t.Chance(1, 30) {
			x.nonce = 1<<64 - 1 - uint64(t.N(2))
		}
		switch t.Weighted(2, 4, 1) {
		case 1:
			x.balance = tosca.NewValue(uint64(t.N(1000)))
		case 2:
			x.balance = toValue(gen.Pow2(uint(t.N(200))))
		}
		for i := t.N(3); i > 0; i-- {
			k, v := tosca.Key{31: byte(t.N(3))}, tosca.Word{31: byte(t.N(4))}
			x.storage[k], x.orig[k] = v, v
		}
	}
	for i, a := range contracts {
		set(a, codeOf(i, t.N(3)))
	}
	for _, a := range users {
		set(a, nil)
		c.get(a).storage = map[tosca.Key]tosca.Word{}
	}
	if s.p.fees && t.Chance(1, 6) {
		c.get(pbt.Pick(t, users)).code = s.code()
	}
	for _, a := range others {
		if t.Bool() {
			c.get(a).balance = tosca.NewValue(uint64(t.N(2)))
		}
	}
	if s.p.driver > 0 {
		if t.Chance(2, 3) {
			set(driver, codeOf(t.N(8), 0))
		} else {
			set(driver, nil)
		}
		if t.Bool() {
			c.get(evmWrite).code = []byte{0}
		}
	}
	if t.Chance(1, 10) {
		c.get(pbt.Pick(t, append(append([]tosca.Address{}, contracts...), others...))).balance = toValue(new(big.Int).Sub(gen.Pow2(256), big.NewInt(1+int64(t.N(3)))))
	}
	if s.p.collisions {
		creators := append(append([]tosca.Address{}, users...), contracts...)
		for i := t.N(5); i > 0; i-- {
			who := pbt.Pick(t, creators)
			a := createdBy(who, c.GetNonce(who)+uint64(t.N(2)))
			if t.Chance(1, 3) {
				a = createdBy2(who, tosca.Hash{0: byte(t.N(2))}, codeOf(t.N(8), 0))
			}
			x := c.get(a)
			switch t.N(4) {
			case 0:
				x.code = s.code()
			case 1:
				x.nonce = 1 + uint64(t.N(2))
			case 2:
				x.balance = tosca.NewValue(uint64(1 + t.N(9)))
			case 3:
				x.code, x.nonce, x.balance = s.code(), 1, tosca.NewValue(1)
			}
		}
	}
}

func (s *scene) transaction(c *chain) (tx tosca.Transaction) {
	t, p := s.t, s.p
	tx.Sender = pbt.Pick(t, users)
	if t.Chance(1, 8) {
		tx.Sender = tosca.Address{}
	}
	if p.driver > 3 && t.Chance(1, 4) {
		tx.Sender = driver
	}
	creates := t.Chance(1+p.creates, 8+2*p.creates)
	switch {
	case creates:
		tx.Input = s.code()
		if t.Chance(1, 40) {
			tx.Input = append([]byte{0x60, byte(t.N(8))}, make([]byte, 2*24576-2+t.Range(-1, 1))...)
		}
	default:
		a := s.account()
		if t.Chance(1, 3) {
			a = pbt.Pick(t, contracts)
		}
		if p.driver > 3 && t.Bool() {
			a = driver
			if tx.Sender == driver {
				a = evmWrite
			}
		}
		tx.Recipient = &a
		tx.Input = s.input(a)
	}
	tx.Nonce = c.GetNonce(tx.Sender)
	f := 40
	if p.fees {
		f = 6
	}
	if t.Chance(1, f) {
		tx.Nonce += pbt.Pick(t, []uint64{1, 1<<64 - 1, 2, 256, 1 << 32})
	}
	if p.fees && t.Chance(1, 30) {
		c.SetNonce(tx.Sender, 1<<64-1)
		tx.Nonce = 1<<64 - 1
	}
	switch t.Weighted(3, 2, 2) {
	case 1:
		tx.AccessList = []tosca.AccessTuple{}
	case 2:
		for i := t.Range(1, 3); i > 0; i-- {
			e := tosca.AccessTuple{Address: s.account()}
			for j := t.N(3); j > 0; j-- {
				e.Keys = append(e.Keys, tosca.Key{31: byte(t.N(3))})
			}
			tx.AccessList = append(tx.AccessList, e)
		}
	}
	ig := intrinsic(&tx).Int64()
	switch t.Weighted(1, f/3+6, 3) {
	case 0:
		tx.GasLimit = tosca.Gas(max(0, pbt.Pick(t, []int64{0, 1, ig - 1, ig - 1, ig, ig + 1, ig + 9, ig + 10})))
	case 1:
		tx.GasLimit = tosca.Gas(ig + int64(t.N(12_000_000)))
	case 2:
		tx.GasLimit = tosca.Gas(ig + int64(pbt.Pick(t, []int{100, 1000, 21000, 100000, 1 << 40, 1 << 61})) + int64(t.N(10)))
	}
	switch t.Weighted(2, 4, 2) {
	case 1:
		tx.GasPrice = tosca.NewValue(uint64(1 + t.N(1000)))
	case 2:
		g := new(big.Int).Add(gen.Pow2(uint(t.N(170))), big.NewInt(int64(t.N(3))))
		if p.fees && t.Bool() {
			g = gen.Mod256(gen.WordBig(t))
		}
		tx.GasPrice = toValue(g)
	}
	switch t.Weighted(4, 4, 1) {
	case 1:
		tx.Value = tosca.NewValue(uint64(t.N(300)))
	case 2:
		tx.Value = toValue(new(big.Int).Rsh(gen.WordBig(t), uint(t.N(2))))
	}
	// the balance of the sender
	fee := new(big.Int).Mul(bigOf(tx.GasPrice), big.NewInt(int64(tx.GasLimit)))
	b := new(big.Int).Set(fee)
	switch t.Weighted(6, 1, 1, 2) {
	case 0:
		b.Add(b, bigOf(tx.Value)).Add(b, big.NewInt(int64(t.N(100))))
	case 1:
		if p.fees || t.Chance(1, 4) {
			b.Sub(b, big.NewInt(int64(t.N(2))))
		}
	case 2:
		if b.BitLen() > 256 && t.Bool() {
			b.And(b, new(big.Int).Sub(gen.Pow2(256), big.NewInt(1))) // the fee modulo 2^256
		}
	case 3:
		b.Add(b, gen.Pow2(uint(t.N(200))))
	}
	if t.Chance(1, 12) {
		b.Add(b, bigOf(tx.Value)).Sub(b, big.NewInt(1))
	}
	if b.Sign() < 0 {
		b.SetInt64(0)
	}
	if b.BitLen() > 254 && tx.Value != (tosca.Value{}) || b.BitLen() > 256 {
		b.And(b, new(big.Int).Sub(gen.Pow2(250), big.NewInt(1)))
	}
	c.SetBalance(tx.Sender, toValue(b))
	// Transfers that the sender cannot pay are left to the other senders of value.
	have := new(big.Int).Sub(b, fee)
	if have.Sign() >= 0 && bigOf(tx.Value).Cmp(have) > 0 && !t.Chance(1, 6) {
		tx.Value = tosca.Value{}
	}
	return tx
}

func describe(tx *tosca.Transaction) string {
	to := "a new contract"
	if tx.Recipient != nil {
		to = nameOf(*tx.Recipient)
	}
	return fmt.Sprintf("%s -> %s, nonce %d, value %s, gas %d at %s, input %s, access list %d (nil: %v)", nameOf(tx.Sender), to, tx.Nonce, tx.Value, tx.GasLimit, tx.GasPrice,
		short(tx.Input), len(tx.AccessList), tx.AccessList == nil)
}

func transactions(t *pbt.T, p *profile) {
	rev := tosca.Revision(t.N(int(tosca.R13_Cancun) + 1))
	s := &scene{t: t, p: p, rev: rev}
	for i := 0; i < 8; i++ {
		s.scripts = append(s.scripts, s.script())
	}
	if p.loops && t.Chance(1, 12) {
		i := t.N(4)
		s.scripts[i] = script{loop: true, loopKind: pbt.Pick(t, []tosca.CallKind{tosca.Call, tosca.StaticCall, tosca.DelegateCall, tosca.CallCode, tosca.Create})}
	}
	base := newChain()
	base.zeroH = t.Bool()
	s.build(base)
	goal := base.copy()
	in := &player{scripts: s.scripts}
	proc := tosca.GetProcessor("floria", in)
	if proc == nil {
		t.Failf("no processor", "the floria processor is not registered")
	}
	block := tosca.BlockParameters{BlockNumber: int64(t.N(1000)), Timestamp: int64(t.N(1000)), GasLimit: 1 << 40, Revision: rev}
	block.ChainID[31], block.Coinbase[3], block.BaseFee[31], block.PrevRandao[2] = t.Byte(), t.Byte(), t.Byte(), t.Byte()
	var text []string
	key := uint64(0)
	mp := &player{scripts: s.scripts}
	s.in = mp
	s.before = func() {
		in.events, in.budget, in.looping = nil, 40, 0
		mp.events, mp.budget, mp.looping = nil, 40, 0
	}
	s.modelled = func() {}
	s.compare = func() { compareEvents(t, mp.events, in.events) }
	n := t.Weighted(4, 2, 1, 1) + 1
	t.Sample(func() string { return fmt.Sprintf("%v: %s", rev, strings.Join(text, "; ")) })
	for i := 0; i < n; i++ {
		tx := s.transaction(base)
		goal.SetBalance(tx.Sender, base.GetBalance(tx.Sender))
		goal.SetNonce(tx.Sender, base.GetNonce(tx.Sender))
		text = append(text, describe(&tx))
		k := s.one(proc, base, goal, block, tx)
		key = pbt.Mix(key ^ k)
		base.commit()
		goal.commit()
	}
	if key != 0 {
		t.NonTrivial(key)
	}
}

// one runs a transaction on both chains and compares.
func (s *scene) one(proc tosca.Processor, c, goal *chain, block tosca.BlockParameters, tx tosca.Transaction) uint64 {
	t := s.t
	s.before()
	m := &model{c: goal, in: s.in, block: block, tx: tosca.TransactionParameters{Origin: tx.Sender, GasPrice: tx.GasPrice}, discard: t.Discard}
	was := goal.clone()
	copied := clone(tx)
	want, v := m.transact(&copied)
	if v == unclear {
		t.Discard()
	}
	s.modelled()
	given := clone(tx)
	got, err := proc.Run(block, given, c)
	what := [...]string{"executed", "rejected", "too-poor", "broken", "unclear"}[v]
	t.Label("tx-" + what)
	if v == executed {
		t.Labelf("success-%v", want.Success)
		t.Labelf("depth-%d", min(m.deep, 5))
		if m.deep == 1024 {
			t.Label("depth-1024")
		}
		if m.failed > 0 {
			t.Label("failed-calls")
		}
		if m.created > 0 {
			t.Label("created")
		}
		if m.pre > 0 {
			t.Label("precompiles")
		}
		if m.writes > 0 {
			t.Label("state-contract")
		}
		if m.writesOK > 0 {
			t.Label("state-contract-ok")
		}
	}
	ctx := func() string {
		return fmt.Sprintf("\nrevision %v, %s\nthe transaction is %s, receipt should be %s\nis %s, error %v", block.Revision, describe(&tx), what, show(want), show(got), err)
	}
	fail := func(sig, f string, a ...any) { t.Failf(sig, "%s%s", fmt.Sprintf(f, a...), ctx()) }
	if c.bad != "" {
		fail("snapshot", "%s", c.bad)
	}
	if !same(given, tx) {
		fail("transaction modified", "the processor modifies the transaction")
	}
	if (err != nil) != (v == broken) && v != rejected && v != tooPoor {
		fail("error/"+what, "error is %v", err)
	}
	if v != broken && s.compare != nil {
		s.compare()
	}
	if got.Success != want.Success {
		fail("success/"+what, "success is %v", got.Success)
	}
	loose := m.loose
	if got.GasUsed != want.GasUsed && !(loose && v == executed) {
		fail("gas used/"+what, "gas used is %d, should be %d", got.GasUsed, want.GasUsed)
	}
	if loose {
		t.Label("unaffordable-value")
		fee := new(big.Int).Mul(bigOf(tx.GasPrice), big.NewInt(int64(got.GasUsed)))
		if int64(got.GasUsed) < intrinsic(&tx).Int64() || got.GasUsed > tx.GasLimit {
			fail("gas used/unaffordable value", "gas used is %d", got.GasUsed)
		}
		x := goal.get(tx.Sender)
		x.balance = toValue(fee.Sub(bigOf(was.acc[tx.Sender].balance), fee))
	}
	if (want.ContractAddress == nil) != (got.ContractAddress == nil) && (want.Success || tx.Recipient != nil) {
		fail("created address", "created address is given: %v", got.ContractAddress != nil)
	}
	if want.ContractAddress != nil && *want.ContractAddress != *got.ContractAddress {
		fail("created address", "created address is %s, should be %s", nameOf(*got.ContractAddress), nameOf(*want.ContractAddress))
	}
	if v != executed && (len(got.Output) > 0 || len(got.Logs) > 0 || got.ContractAddress != nil) {
		fail("receipt/"+what, "the receipt of a transaction that is not executed has contents")
	}
	if v == executed && (want.Success || m.gasLeft > 0) && !bytes.Equal(got.Output, want.Output) {
		fail("output", "the output is %s, should be %s", short(got.Output), short(want.Output))
	}
	if v == executed && fmt.Sprint(got.Logs) != fmt.Sprint(want.Logs) && (len(got.Logs) > 0 || len(want.Logs) > 0) {
		fail("logs", "the logs are %v, should be %v", got.Logs, want.Logs)
	}
	if got.BlobGasUsed != 0 {
		fail("blob gas", "blob gas is used")
	}
	if v == tooPoor && c.GetNonce(tx.Sender) == tx.Nonce+1 {
		goal.SetNonce(tx.Sender, tx.Nonce+1) // unspecified
	}
	warm := s.p.warm && block.Revision >= tosca.R09_Berlin && tx.AccessList != nil && v == executed
	aspect, diff := difference(goal.lines(warm), c.lines(warm))
	if aspect != "" {
		how := what
		if v == executed && !want.Success {
			how = "unsuccessful"
		}
		fail("state/"+aspect+" after "+how, "%s", diff)
	}
	k := pbt.HashString(what + fmt.Sprint(want.Success, want.GasUsed, m.frames, m.failed, m.created, m.pre, m.writes))
	if (v != executed || m.frames+m.pre+m.writes == 0) && s.p.depth > 1 {
		return 0
	}
	return k
}

func show(r tosca.Receipt) string {
	a := "none"
	if r.ContractAddress != nil {
		a = nameOf(*r.ContractAddress)
	}
	return fmt.Sprintf("{success %v, gas used %d, output %s, contract %s, %d logs}", r.Success, r.GasUsed, short(r.Output), a, len(r.Logs))
}

func clone(tx tosca.Transaction) tosca.Transaction {
	tx.Input = bytes.Clone(tx.Input)
	if tx.Recipient != nil {
		a := *tx.Recipient
		tx.Recipient = &a
	}
	if tx.AccessList != nil {
		l := []tosca.AccessTuple{}
		for _, e := range tx.AccessList {
			l = append(l, tosca.AccessTuple{Address: e.Address, Keys: append([]tosca.Key{}, e.Keys...)})
		}
		tx.AccessList = l
	}
	return tx
}

func same(a, b tosca.Transaction) bool {
	return describe(&a) == describe(&b) && bytes.Equal(a.Input, b.Input) && fmt.Sprint(a.AccessList) == fmt.Sprint(b.AccessList)
}
