package main

import (
	"bytes"
	"math/big"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/ethereum/go-ethereum/common"
	geth "github.com/ethereum/go-ethereum/core/vm"

	"verif/ref"
)

// The model of a transaction processor: transactions of Opera/Sonic.

var (
	driver   = hexAddr(0xd1, 0x00, 0xa0, 0x1e)
	evmWrite = hexAddr(0xd1, 0x00, 0xec)
)

func hexAddr(b ...byte) (a tosca.Address) { copy(a[:], b); return }

type model struct {
	c        *chain
	in       tosca.Interpreter
	block    tosca.BlockParameters
	tx       tosca.TransactionParameters
	deep     int // deepest frame started
	frames   int // frames started
	failed   int // nested calls that did not succeed
	pre      int // calls of precompiled contracts
	writesOK int
	gasLeft  tosca.Gas // of the outermost call
	loose    bool      // the outermost call cannot be paid: what it costs is not specified
	writes   int       // calls of the state contract
	created  int       // contracts created
	tooDeep  bool
	discard  func()
}

type mctx struct {
	*chain
	m      *model
	depth  int
	static bool
}

func (x mctx) Call(kind tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) {
	return x.m.call(x.depth+1, x.static, kind, p)
}

func bigOf(v tosca.Value) *big.Int { return new(big.Int).SetBytes(v[:]) }
func toValue(b *big.Int) (v tosca.Value) {
	b.FillBytes(v[:])
	return
}

func rlpUint(n uint64) []byte {
	if n == 0 {
		return []byte{0x80}
	}
	b := new(big.Int).SetUint64(n).Bytes()
	if len(b) == 1 && b[0] < 0x80 {
		return b
	}
	return append([]byte{0x80 + byte(len(b))}, b...)
}

func createdBy(sender tosca.Address, nonce uint64) (a tosca.Address) {
	body := append(append([]byte{0x80 + 20}, sender[:]...), rlpUint(nonce)...)
	h := ref.Keccak(append([]byte{0xc0 + byte(len(body))}, body...))
	copy(a[:], h[12:])
	return
}

func createdBy2(sender tosca.Address, salt tosca.Hash, init []byte) (a tosca.Address) {
	ih := ref.Keccak(init)
	b := append([]byte{0xff}, sender[:]...)
	b = append(append(b, salt[:]...), ih[:]...)
	h := ref.Keccak(b)
	copy(a[:], h[12:])
	return
}

func precompile(a tosca.Address, r tosca.Revision) geth.PrecompiledContract {
	n := byte(9)
	if r >= tosca.R13_Cancun {
		n = 10
	}
	if a != (tosca.Address{19: a[19]}) || a[19] == 0 || a[19] > n {
		return nil
	}
	k := common.Address(a)
	switch {
	case r < tosca.R09_Berlin:
		return geth.PrecompiledContractsIstanbul[k]
	case r < tosca.R13_Cancun:
		return geth.PrecompiledContractsBerlin[k]
	}
	return geth.PrecompiledContractsCancun[k]
}

func (m *model) call(depth int, static bool, kind tosca.CallKind, p tosca.CallParameters) (res tosca.CallResult, err error) {
	c := m.c
	creating := kind == tosca.Create || kind == tosca.Create2
	notStarted := tosca.CallResult{GasLeft: p.Gas}
	if depth > 1024 {
		m.tooDeep = true
		return notStarted, nil
	}
	self := p.Recipient
	var code []byte
	input := p.Input
	if creating {
		code, input = p.Input, nil
		s := c.get(p.Sender)
		if s.nonce+1 == 0 {
			return notStarted, nil
		}
		if kind == tosca.Create {
			self = createdBy(p.Sender, s.nonce)
		} else {
			self = createdBy2(p.Sender, p.Salt, code)
		}
		s.nonce++
		if m.block.Revision >= tosca.R09_Berlin {
			c.warmA[self] = true
		}
		if x := c.peek(self); x.nonce != 0 || len(x.code) != 0 {
			m.failed++
			return tosca.CallResult{}, nil
		}
	} else if kind == tosca.DelegateCall || kind == tosca.CallCode {
		code = c.peek(p.CodeAddress).code
	} else {
		code = c.peek(self).code
	}
	before := c.clone()
	defer func() {
		if err != nil || !res.Success {
			c.state = before
			m.failed++
		}
	}()
	if creating {
		c.get(self).nonce = 1
	}
	if kind == tosca.Call || kind == tosca.CallCode || creating {
		v := bigOf(p.Value)
		if bigOf(c.GetBalance(p.Sender)).Cmp(v) < 0 {
			m.loose = m.loose || depth == 0
			return notStarted, nil
		}
		if p.Sender != self && v.Sign() > 0 {
			sum := new(big.Int).Add(bigOf(c.GetBalance(self)), v)
			if sum.BitLen() > 256 {
				m.loose = m.loose || depth == 0
				return notStarted, nil
			}
			c.SetBalance(p.Sender, toValue(v.Sub(bigOf(c.GetBalance(p.Sender)), v)))
			c.SetBalance(self, toValue(sum))
		}
	}
	if !creating && self == evmWrite && (kind == tosca.Call || kind == tosca.StaticCall) {
		m.writes++
		left, ok := int64(0), false
		if !static && kind != tosca.StaticCall {
			left, ok = m.stateContract(p.Sender, input, int64(p.Gas))
		}
		if ok {
			m.writesOK++
		}
		return tosca.CallResult{Success: ok, GasLeft: tosca.Gas(left)}, nil
	}
	codeAddr := self
	if kind == tosca.DelegateCall || kind == tosca.CallCode {
		codeAddr = p.CodeAddress
	}
	if pc := precompile(codeAddr, m.block.Revision); !creating && pc != nil {
		m.pre++
		cost := pc.RequiredGas(input)
		if uint64(p.Gas) < cost {
			return tosca.CallResult{}, nil
		}
		out, e := pc.Run(input)
		if e != nil {
			return tosca.CallResult{}, nil
		}
		return tosca.CallResult{Success: true, Output: out, GasLeft: p.Gas - tosca.Gas(cost)}, nil
	}
	if kind == tosca.Call && !c.AccountExists(self) {
		return tosca.CallResult{Success: true, GasLeft: p.Gas}, nil
	}
	m.frames++
	m.deep = max(m.deep, depth)
	static = static || kind == tosca.StaticCall
	h := tosca.Hash(ref.Keccak(code))
	r, err := m.in.Run(tosca.Parameters{
		BlockParameters: m.block, TransactionParameters: m.tx, Context: mctx{c, m, depth, static}, Kind: kind, Static: static, Depth: depth,
		Gas: p.Gas, Recipient: self, Sender: p.Sender, Input: input, Value: p.Value, CodeHash: &h, Code: code,
	})
	if err != nil {
		return tosca.CallResult{}, err
	}
	res = tosca.CallResult{Success: r.Success, Output: r.Output, GasLeft: r.GasLeft, GasRefund: r.GasRefund}
	if creating && r.Success {
		price := tosca.Gas(200 * len(r.Output))
		if len(r.Output) > 24576 || m.block.Revision >= tosca.R10_London && len(r.Output) > 0 && r.Output[0] == 0xef || r.GasLeft < price {
			return tosca.CallResult{}, nil
		}
		res.GasLeft -= price
		res.CreatedAddress = self
		c.get(self).code = bytes.Clone(r.Output)
		m.created++
	}
	return res, nil
}

// stateContract is the contract by which the network's driver writes the state.
func (m *model) stateContract(sender tosca.Address, in []byte, gas int64) (int64, bool) {
	if sender != driver || len(in) < 4 {
		return 0, false
	}
	c := m.c
	sel, arg := [4]byte(in[:4]), in[4:]
	word := func(i int) (w [32]byte) { copy(w[:], arg[32*i:]); return }
	addr := func(i int) (a tosca.Address) { copy(a[:], arg[32*i+12:32*i+32]); return }
	need, size := int64(0), 64
	switch sel {
	case selSetBalance, selIncNonce:
		need = 9000
	case selCopyCode:
		need = 32000
	case selSwapCode:
		need = 64000
	case selSetStorage:
		need, size = 20000, 96
	default:
		return 0, false
	}
	if gas < need || len(arg) != size {
		return 0, false
	}
	gas -= need
	switch sel {
	case selSetBalance:
		if addr(0) == m.tx.Origin {
			return 0, false
		}
		c.SetBalance(addr(0), word(1))
	case selIncNonce:
		w := word(1)
		v := new(big.Int).SetBytes(w[:])
		if addr(0) == m.tx.Origin || v.Sign() == 0 || v.Cmp(big.NewInt(256)) >= 0 {
			return 0, false
		}
		c.SetNonce(addr(0), c.GetNonce(addr(0))+v.Uint64())
	case selCopyCode:
		code := c.GetCode(addr(1))
		cost := 203 * int64(len(code))
		if gas < cost {
			return 0, false
		}
		gas -= cost
		if addr(0) != addr(1) {
			c.SetCode(addr(0), code)
		}
	case selSwapCode:
		a, b := c.GetCode(addr(0)), c.GetCode(addr(1))
		cost := 203 * int64(len(a)+len(b)) / 2
		if gas < cost {
			return 0, false
		}
		gas -= cost
		c.SetCode(addr(0), b)
		c.SetCode(addr(1), a)
	case selSetStorage:
		c.SetStorage(addr(0), word(1), word(2))
	}
	return gas, true
}

func selector(sig string) (s [4]byte) { h := ref.Keccak([]byte(sig)); copy(s[:], h[:]); return }

var (
	selSetBalance = selector("setBalance(address,uint256)")
	selCopyCode   = selector("copyCode(address,address)")
	selSwapCode   = selector("swapCode(address,address)")
	selSetStorage = selector("setStorage(address,bytes32,bytes32)")
	selIncNonce   = selector("incNonce(address,uint256)")
)

type verdict int

const (
	executed verdict = iota
	rejected
	tooPoor // not enough gas to start: charged, but not executed
	broken  // the interpreter reported an error
	unclear // several reasons to refuse the transaction
)

func intrinsic(tx *tosca.Transaction) *big.Int {
	g := int64(21000)
	if tx.Recipient == nil {
		g = 53000
	}
	for _, b := range tx.Input {
		if b == 0 {
			g += 4
		} else {
			g += 16
		}
	}
	for _, e := range tx.AccessList {
		g += 2400 + 1900*int64(len(e.Keys))
	}
	return big.NewInt(g)
}

// transact runs a transaction on the model's chain.
func (m *model) transact(tx *tosca.Transaction) (rc tosca.Receipt, v verdict) {
	c := m.c
	price := bigOf(tx.GasPrice)
	fee := new(big.Int).Mul(price, big.NewInt(int64(tx.GasLimit)))
	s := c.peek(tx.Sender)
	if tx.Nonce != s.nonce || s.nonce+1 == 0 || len(s.code) > 0 || bigOf(s.balance).Cmp(fee) < 0 {
		return rc, rejected
	}
	rev := m.block.Revision
	large := tx.Recipient == nil && rev >= tosca.R12_Shanghai && len(tx.Input) > 2*24576
	ig := intrinsic(tx)
	poor := ig.Cmp(big.NewInt(int64(tx.GasLimit))) > 0
	if large && poor {
		return rc, unclear
	}
	if large {
		return rc, rejected
	}
	pay := func(gas int64) { // the sender's fees
		x := c.get(tx.Sender)
		b := new(big.Int).Sub(bigOf(x.balance), new(big.Int).Mul(price, big.NewInt(gas)))
		if b.BitLen() > 256 {
			m.discard()
		}
		x.balance = toValue(b)
	}
	if poor {
		pay(int64(tx.GasLimit))
		return tosca.Receipt{GasUsed: tx.GasLimit}, tooPoor
	}
	pay(int64(tx.GasLimit))
	if rev >= tosca.R09_Berlin && tx.AccessList != nil {
		c.warmA[tx.Sender] = true
		if tx.Recipient != nil {
			c.warmA[*tx.Recipient] = true
		}
		for i := 1; i < 256; i++ {
			if a := (tosca.Address{19: byte(i)}); precompile(a, rev) != nil {
				c.warmA[a] = true
			}
		}
		for _, e := range tx.AccessList {
			c.warmA[e.Address] = true
			for _, k := range e.Keys {
				c.warmS[slot{e.Address, k}] = true
			}
		}
	}
	p := tosca.CallParameters{Sender: tx.Sender, Input: tx.Input, Value: tx.Value, Gas: tx.GasLimit - tosca.Gas(ig.Int64())}
	kind := tosca.Create
	if tx.Recipient != nil {
		kind = tosca.Call
		p.Recipient = *tx.Recipient
		c.get(tx.Sender).nonce++
	}
	r, err := m.call(0, false, kind, p)
	if err != nil {
		return tosca.Receipt{GasUsed: tx.GasLimit}, broken
	}
	m.gasLeft = r.GasLeft
	left := int64(r.GasLeft)
	if tx.Sender != (tosca.Address{}) {
		left -= left / 10
	}
	if r.Success {
		used := int64(tx.GasLimit) - left
		q := int64(2)
		if rev >= tosca.R10_London {
			q = 5
		}
		left += min(int64(r.GasRefund), used/q)
	}
	pay(-left)
	rc = tosca.Receipt{Success: r.Success, GasUsed: tx.GasLimit - tosca.Gas(left), Output: r.Output, Logs: c.logs}
	if kind == tosca.Create && r.Success {
		a := r.CreatedAddress
		rc.ContractAddress = &a
	}
	return rc, executed
}
