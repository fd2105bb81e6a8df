package main

import (
	"fmt"
	"math/big"
	"os"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/tosca"

	_ "github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"

	"verif/gen"
	"verif/pbt"
	"verif/prog"
	"verif/ref"
)

// End to end: real programs, run by the processor on a real interpreter, and
// by the model of the processor on the reference interpreter.

type reference struct{ capped bool }

func (r *reference) Run(p tosca.Parameters) (tosca.Result, error) {
	e := ref.New(p)
	e.MaxStep, e.MaxMem = 20000, 1<<22
	res := e.Run()
	r.capped = r.capped || e.Status == ref.Capped
	return res, nil
}

func endToEnd(t *pbt.T) {
	name := os.Getenv("VM_NAMES")
	if name == "" {
		name = "lfvm"
	}
	it, err := tosca.NewInterpreter(name)
	if err != nil {
		t.Failf("no interpreter", "there is no interpreter %q: %v", name, err)
	}
	proc := tosca.GetProcessor("floria", it)
	if proc == nil {
		t.Failf("no processor", "the floria processor is not registered")
	}
	rev := tosca.Revision(t.Weighted(2, 2, 2, 1, 2, 4))
	env := prog.NewEnv(t)
	for i, n := range []string{"self", "sender", "origin", "coinbase", "contract4", "contract5", "contract6", "wallet", "missing", "nonce-only", "empty"} {
		names[env.Addrs[i]] = n
	}
	mix := prog.Mix{Arith: 1, Mem: 3, Flow: 2, Store: 5, Calls: 14, Env: 2, Logs: 2, Copy: 3, Stack: 1, Super: 1, Destruct: 2, Sha: 1}
	code := func() []byte { return prog.Program(t, env, rev, mix, 8) }
	base := newChain()
	base.zeroH = t.Bool()
	for _, i := range []int{0, 4, 5, 6} {
		x := base.get(env.Addrs[i])
		x.code, x.nonce, x.balance = code(), 1, tosca.NewValue(uint64(t.N(500)))
		for _, k := range env.Keys {
			if t.Bool() {
				v := tosca.Word{31: byte(t.N(4))}
				x.storage[k], x.orig[k] = v, v
			}
		}
	}
	base.get(env.Addrs[7]).balance = tosca.NewValue(uint64(t.Range(1, 1000)))
	base.get(env.Addrs[9]).nonce = 1
	goal := base.copy()
	block := tosca.BlockParameters{BlockNumber: int64(t.N(1000)), Timestamp: int64(t.N(1000)), Coinbase: env.Addrs[3], GasLimit: 1 << 40, Revision: rev}
	block.ChainID, block.BaseFee, block.PrevRandao = gen.Word(t), gen.Word(t), gen.Word(t)
	in := &reference{}
	s := &scene{t: t, p: &profile{warm: true, depth: 2}, rev: rev, in: in, before: func() { in.capped = false }}
	s.modelled = func() {
		if in.capped {
			t.Discard()
		}
	}
	var text []string
	t.Sample(func() string {
		for _, i := range []int{0, 4, 5, 6} {
			text = append(text, fmt.Sprintf("%s: %s", nameOf(env.Addrs[i]), prog.Asm(goal.peek(env.Addrs[i]).code)))
		}
		return fmt.Sprintf("%v: %s", rev, strings.Join(text, "\n"))
	})
	key := uint64(0)
	for i := t.Weighted(3, 2, 1) + 1; i > 0; i-- {
		tx := tosca.Transaction{Sender: env.Addrs[pbt.Pick(t, []int{1, 7})]}
		if t.Chance(1, 5) {
			tx.Input = code()
		} else {
			a := env.Addrs[pbt.Pick(t, []int{0, 0, 0, 4, 5, 6, 7, 8, 11})]
			tx.Recipient = &a
			tx.Input = t.Bytes([]int{0, 1, 4, 31, 32, 36, 64}[t.N(7)])
		}
		tx.Nonce = base.GetNonce(tx.Sender)
		if t.Bool() {
			tx.AccessList = []tosca.AccessTuple{}
			for j := t.N(3); j > 0; j-- {
				tx.AccessList = append(tx.AccessList, tosca.AccessTuple{Address: env.Addrs[t.N(len(env.Addrs))], Keys: []tosca.Key{env.Keys[t.N(len(env.Keys))]}})
			}
		}
		tx.GasPrice = tosca.NewValue(uint64(t.N(5)))
		if t.Bool() {
			tx.Value = tosca.NewValue(uint64(t.N(300)))
		}
		extra := []int{10, 1000, 10000, 100000, 400000, 1500000}[t.Weighted(1, 2, 4, 6, 6, 3)]
		tx.GasLimit = tosca.Gas(intrinsic(&tx).Int64() + int64(t.N(extra)))
		b := new(big.Int).Mul(bigOf(tx.GasPrice), big.NewInt(int64(tx.GasLimit)))
		b.Add(b, bigOf(tx.Value)).Add(b, big.NewInt(int64(t.N(100))))
		base.SetBalance(tx.Sender, toValue(b))
		goal.SetBalance(tx.Sender, toValue(b))
		text = append(text, describe(&tx))
		key = pbt.Mix(key ^ s.one(proc, base, goal, block, tx))
		base.commit()
		goal.commit()
	}
	if key != 0 {
		t.NonTrivial(key)
	}
}
