package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/tosca"

	"verif/pbt"
	"verif/ref"
)

// A scripted interpreter: the code of a contract selects a script, and the
// script decides what the "execution" does to the world, which calls it makes,
// and how it ends. What the interpreter is told and what its calls return is
// recorded.

type actKind int

const (
	actStore actKind = iota
	actTransient
	actLog
	actDestruct
	actLook
	actCall
	actBurn
)

type target int // who is called, or looked at

const (
	toAccount target = iota // a fixed account
	toSelf
	toCaller
	toOrigin
	toCreated // the account this frame created last
	toParam   // the account itself is the code, the recipient is this frame's account
)

type act struct {
	kind  actKind
	call  tosca.CallKind
	to    target
	addr  tosca.Address
	key   byte
	value byte
	input []byte
	salt  byte
	share int // how much of the gas is passed on, in 16ths
	exact tosca.Gas
	money int
}

type outcome int

const (
	succeeds outcome = iota
	reverts
	fails
	errs
)

type script struct {
	acts     []act
	end      outcome
	output   []byte
	gas      int // what is left: 0 everything, 1 nothing, 2 a part, 3 about the deposit
	delta    int
	refund   int64
	loop     bool
	loopKind tosca.CallKind
	giveUp   bool // an error in a nested call is an error of this frame
}

type event struct {
	kind string
	f    map[string]string
}

type player struct {
	scripts []script
	events  []event
	budget  int
	looping int
}

var errPlay = errors.New("scripted interpreter error")

func (p *player) note(kind string, kv ...any) {
	f := map[string]string{}
	for i := 0; i < len(kv); i += 2 {
		switch v := kv[i+1].(type) {
		case []byte:
			f[kv[i].(string)] = short(v)
		case tosca.Data:
			f[kv[i].(string)] = short(v)
		case tosca.Address:
			f[kv[i].(string)] = nameOf(v)
		default:
			f[kv[i].(string)] = fmt.Sprint(v)
		}
	}
	p.events = append(p.events, event{kind, f})
}

func codeOf(i int, pad int) []byte { return append([]byte{0x60, byte(i)}, make([]byte, pad)...) }

func (p *player) Run(a tosca.Parameters) (tosca.Result, error) {
	hash := "none"
	if a.CodeHash != nil {
		switch {
		case *a.CodeHash == tosca.Hash(ref.Keccak(a.Code)):
		case len(a.Code) == 0 && *a.CodeHash == (tosca.Hash{}):
		default:
			hash = fmt.Sprintf("%x, not the hash of the code", *a.CodeHash)
		}
	}
	p.note("run", "kind", a.Kind, "static", a.Static, "depth", a.Depth, "gas", a.Gas, "recipient", a.Recipient, "sender", a.Sender,
		"input", a.Input, "value", a.Value, "code", []byte(a.Code), "codehash", hash,
		"origin", a.Origin, "gasprice", a.GasPrice, "block", fmt.Sprint(a.BlockParameters))
	if len(a.Code) == 0 {
		return tosca.Result{Success: true, GasLeft: a.Gas}, nil
	}
	h := ref.Keccak(a.Code)
	i := int(binary.BigEndian.Uint16(h[:])) % len(p.scripts)
	if len(a.Code) > 1 && a.Code[0] == 0x60 {
		i = int(a.Code[1]) % len(p.scripts)
	}
	s := &p.scripts[i]
	left, refund := a.Gas, s.refund
	if s.loop {
		p.looping++
		if p.looping > 1100 {
			return tosca.Result{Success: true, GasLeft: a.Gas}, nil
		}
		cp := tosca.CallParameters{Sender: a.Recipient, Recipient: a.Recipient, CodeAddress: a.Recipient, Gas: left - left/64, Input: tosca.Data{byte(a.Depth)}}
		kind := s.loopKind
		if a.Static && (kind == tosca.Create || kind == tosca.Create2) {
			kind = tosca.Call
		}
		switch kind {
		case tosca.Create, tosca.Create2:
			cp = tosca.CallParameters{Sender: a.Recipient, Gas: left - left/64, Input: tosca.Data(a.Code)}
		case tosca.DelegateCall:
			cp.Sender = a.Sender
		}
		r, err := a.Context.Call(kind, cp)
		if err != nil {
			return tosca.Result{}, err
		}
		f := []any{"depth", a.Depth, "success", r.Success}
		if a.Depth < 1024 {
			f = append(f, "gas", r.GasLeft)
			left += r.GasLeft - cp.Gas
		}
		p.note("result", f...)
		left /= 2
		return tosca.Result{Success: true, GasLeft: left}, nil
	}
	p.budget--
	if p.budget < 0 {
		return tosca.Result{Success: true, GasLeft: left}, nil
	}
	var created tosca.Address
acts:
	for j := range s.acts {
		x := &s.acts[j]
		at := x.addr
		switch x.to {
		case toSelf:
			at = a.Recipient
		case toCaller:
			at = a.Sender
		case toOrigin:
			at = a.Origin
		case toCreated:
			at = created
		}
		key, val := tosca.Key{31: x.key}, tosca.Word{31: x.value}
		switch x.kind {
		case actStore:
			if !a.Static {
				a.Context.SetStorage(a.Recipient, key, val)
			}
		case actTransient:
			if !a.Static {
				a.Context.SetTransientStorage(a.Recipient, key, val)
			}
		case actLog:
			if !a.Static {
				a.Context.EmitLog(tosca.Log{Address: a.Recipient, Topics: []tosca.Hash{tosca.Hash(key)}, Data: tosca.Data{x.value}})
			}
		case actDestruct:
			if !a.Static {
				a.Context.SelfDestruct(a.Recipient, at)
				break acts
			}
		case actLook:
			p.note("look", "account", at, "exists", a.Context.AccountExists(at), "balance", a.Context.GetBalance(at), "nonce", a.Context.GetNonce(at),
				"code", []byte(a.Context.GetCode(at)), "slot", a.Context.GetStorage(at, key), "origvalue", a.Context.GetCommittedStorage(at, key),
				"transient", a.Context.GetTransientStorage(at, key))
		case actBurn:
			left -= left / tosca.Gas(2+x.share)
		case actCall:
			v := new(big.Int)
			have := bigOf(a.Context.GetBalance(a.Recipient))
			switch x.money {
			case 1:
				v.SetInt64(int64(x.value))
			case 2:
				v.Set(have)
			case 3:
				v.Rsh(have, 1)
			}
			if a.Static {
				v.SetInt64(0)
			}
			if v.Cmp(have) > 0 {
				continue
			}
			if sum := new(big.Int).Add(v, bigOf(a.Context.GetBalance(at))); sum.BitLen() > 256 {
				continue
			}
			given := left / 16 * tosca.Gas(x.share)
			if x.exact > 0 {
				given = min(left, x.exact)
			}
			cp := tosca.CallParameters{Sender: a.Recipient, Recipient: at, Value: toValue(v), Input: x.input, Gas: given}
			switch x.call {
			case tosca.Create, tosca.Create2:
				if a.Static {
					continue
				}
				cp.Recipient, cp.Salt = tosca.Address{}, tosca.Hash{0: x.salt}
			case tosca.StaticCall:
				cp.Value = tosca.Value{}
			case tosca.DelegateCall:
				cp.Sender, cp.Recipient, cp.CodeAddress, cp.Value = a.Sender, a.Recipient, at, a.Value
			case tosca.CallCode:
				cp.Recipient, cp.CodeAddress = a.Recipient, at
			}
			if (x.call == tosca.DelegateCall || x.call == tosca.CallCode) && (at == evmWrite || a.Recipient == evmWrite) || a.Depth >= 1024 {
				continue
			}
			r, err := a.Context.Call(x.call, cp)
			if err != nil {
				p.note("result", "error", "yes")
				if s.giveUp {
					return tosca.Result{}, err
				}
				left -= given
				continue
			}
			left += r.GasLeft - given
			f := []any{"success", r.Success, "gas", r.GasLeft, "output", []byte(r.Output)}
			if x.call == tosca.Create || x.call == tosca.Create2 {
				f = []any{"success", r.Success, "gas", r.GasLeft}
				if r.Success {
					created = r.CreatedAddress
					f = append(f, "created", created)
				} else {
					f = append(f, "output", []byte(r.Output))
				}
			}
			if r.Success {
				refund += int64(r.GasRefund)
				f = append(f, "refund", r.GasRefund)
			}
			p.note("result", f...)
			if r.GasLeft < 0 || r.GasLeft > given {
				return tosca.Result{}, errPlay
			}
		}
	}
	switch s.gas {
	case 1:
		left = 0
	case 2:
		left -= left / 3
	case 3:
		left = min(left, max(0, tosca.Gas(200*len(s.output)+s.delta)))
	}
	switch s.end {
	case reverts:
		p.note("end", "how", "revert")
		return tosca.Result{Success: false, Output: s.output, GasLeft: left}, nil
	case fails:
		p.note("end", "how", "failure")
		return tosca.Result{Success: false}, nil
	case errs:
		p.note("end", "how", "error")
		return tosca.Result{}, errPlay
	}
	p.note("end", "how", "success")
	return tosca.Result{Success: true, Output: s.output, GasLeft: left, GasRefund: tosca.Gas(refund)}, nil
}

func (e event) String() string {
	var keys []string
	for k := range e.f {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	s := e.kind
	for _, k := range keys {
		s += " " + k + "=" + e.f[k]
	}
	return s
}

// compareEvents names the first difference.
func compareEvents(t *pbt.T, want, got []event) {
	for i := range want {
		if i >= len(got) {
			t.Failf("events/missing "+want[i].kind, "event %d does not happen: %s\n%s", i, want[i], history(want, i))
			return
		}
		if want[i].kind != got[i].kind {
			t.Failf("events/"+got[i].kind+" instead of "+want[i].kind, "event %d should be\n%s\nbut is\n%s\n%s", i, want[i], got[i], history(want, i))
			return
		}
		for _, k := range order(want[i].f, got[i].f) {
			if want[i].f[k] != got[i].f[k] {
				t.Failf("events/"+want[i].kind+" "+k, "event %d should be\n%s\nbut is\n%s\n(%s: should be %s, is %s)\n%s", i, want[i], got[i], k, want[i].f[k], got[i].f[k], history(want, i))
				return
			}
		}
	}
	if len(got) > len(want) {
		t.Failf("events/unexpected "+got[len(want)].kind, "event %d should not happen: %s\n%s", len(want), got[len(want)], history(want, len(want)))
	}
}

func order(a, b map[string]string) (res []string) {
	for k := range a {
		res = append(res, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			res = append(res, k)
		}
	}
	sort.Strings(res)
	return
}

func history(e []event, n int) string {
	var b strings.Builder
	b.WriteString("before that:\n")
	for i := max(0, n-12); i < n; i++ {
		fmt.Fprintf(&b, "  %s\n", e[i])
	}
	return b.String()
}
