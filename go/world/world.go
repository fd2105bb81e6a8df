// Package world is a deterministic, inspectable implementation of the state and
// transaction context interpreters run against. It records every effect a
// contract has on the outside, in order.
package world

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/tosca"

	"verif/ref"
)

type Account struct {
	Balance    tosca.Value
	Nonce      uint64
	Code       []byte
	Storage    map[tosca.Key]tosca.Word
	Orig       map[tosca.Key]tosca.Word
	Destructed bool
}

func (a *Account) clone() *Account {
	c := *a
	c.Storage = map[tosca.Key]tosca.Word{}
	for k, v := range a.Storage {
		c.Storage[k] = v
	}
	return &c // Orig never changes
}

type Slot struct {
	A tosca.Address
	K tosca.Key
}

// Response is a scripted outcome of a nested call.
type Response struct {
	Success bool
	Output  []byte
	Left    int // 1/256 of the provided gas that is returned
	Refund  int64
	Created tosca.Address
	Poke    *Poke
}

// Poke is a state change a scripted callee performs.
type Poke struct {
	Key     tosca.Key
	Val     tosca.Word
	Trans   bool
	Balance bool
}

// World implements tosca.RunContext.
type World struct {
	Acc    map[tosca.Address]*Account
	Trans  map[Slot]tosca.Word
	WarmA  map[tosca.Address]bool
	WarmS  map[Slot]bool
	logs   []tosca.Log
	Events []string
	Rev    tosca.Revision
	Depth  int
	Static bool
	Self   tosca.Address

	Script []Response
	NCalls int
	// Nested, if set, executes nested calls instead of the script.
	Nested func(tosca.Parameters) (tosca.Result, error)
	Params tosca.Parameters // block and transaction parameters handed to nested runs
	Bad    string           // a misuse of the interface by the interpreter
	Reads  int
	snaps  []*World
}

func New() *World {
	return &World{Acc: map[tosca.Address]*Account{}, Trans: map[Slot]tosca.Word{}, WarmA: map[tosca.Address]bool{}, WarmS: map[Slot]bool{}}
}

func (w *World) Clone() *World {
	c := *w
	c.Acc = map[tosca.Address]*Account{}
	for k, v := range w.Acc {
		c.Acc[k] = v.clone()
	}
	c.Trans = map[Slot]tosca.Word{}
	for k, v := range w.Trans {
		c.Trans[k] = v
	}
	c.WarmA = map[tosca.Address]bool{}
	for k, v := range w.WarmA {
		c.WarmA[k] = v
	}
	c.WarmS = map[Slot]bool{}
	for k, v := range w.WarmS {
		c.WarmS[k] = v
	}
	c.logs = append([]tosca.Log(nil), w.logs...)
	c.Events = append([]string(nil), w.Events...)
	return &c
}

func (w *World) restore(s *World) {
	w.Acc, w.Trans, w.WarmA, w.WarmS, w.logs = s.Acc, s.Trans, s.WarmA, s.WarmS, s.logs
	w.Events = append(w.Events, "rollback")
}

func (w *World) event(f string, a ...any) { w.Events = append(w.Events, fmt.Sprintf(f, a...)) }

func (w *World) Get(a tosca.Address) *Account {
	if x, ok := w.Acc[a]; ok {
		return x
	}
	x := &Account{Storage: map[tosca.Key]tosca.Word{}, Orig: map[tosca.Key]tosca.Word{}}
	w.Acc[a] = x
	return x
}

func (w *World) peek(a tosca.Address) Account {
	if x, ok := w.Acc[a]; ok {
		return *x
	}
	return Account{}
}

func (w *World) AccountExists(a tosca.Address) bool     { _, ok := w.Acc[a]; return ok }
func (w *World) GetBalance(a tosca.Address) tosca.Value { return w.peek(a).Balance }
func (w *World) SetBalance(a tosca.Address, v tosca.Value) {
	w.Get(a).Balance = v
	w.Bad = "SetBalance"
}
func (w *World) GetNonce(a tosca.Address) uint64       { return w.peek(a).Nonce }
func (w *World) SetNonce(a tosca.Address, n uint64)    { w.Get(a).Nonce = n; w.Bad = "SetNonce" }
func (w *World) GetCode(a tosca.Address) tosca.Code    { return w.peek(a).Code }
func (w *World) GetCodeSize(a tosca.Address) int       { return len(w.peek(a).Code) }
func (w *World) SetCode(a tosca.Address, c tosca.Code) { w.Bad = "SetCode" }
func (w *World) GetCodeHash(a tosca.Address) tosca.Hash {
	if !w.AccountExists(a) {
		return tosca.Hash{}
	}
	return ref.Keccak(w.peek(a).Code)
}
func (w *World) GetStorage(a tosca.Address, k tosca.Key) tosca.Word { return w.peek(a).Storage[k] }
func (w *World) GetCommittedStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return w.peek(a).Orig[k]
}

// Status classifies a storage update.
func Status(orig, cur, val tosca.Word) tosca.StorageStatus {
	z := tosca.Word{}
	switch {
	case cur == val:
		return tosca.StorageAssigned
	case orig == cur && orig == z:
		return tosca.StorageAdded
	case orig == cur && val == z:
		return tosca.StorageDeleted
	case orig == cur:
		return tosca.StorageModified
	case orig == z && val == z: // 0 -> Y -> 0
		return tosca.StorageAddedDeleted
	case orig == z: // 0 -> Y -> Z
		return tosca.StorageAssigned
	case cur == z && val == orig: // X -> 0 -> X
		return tosca.StorageDeletedRestored
	case cur == z: // X -> 0 -> Z
		return tosca.StorageDeletedAdded
	case val == z: // X -> Y -> 0
		return tosca.StorageModifiedDeleted
	case val == orig: // X -> Y -> X
		return tosca.StorageModifiedRestored
	}
	return tosca.StorageAssigned
}

func (w *World) SetStorage(a tosca.Address, k tosca.Key, v tosca.Word) tosca.StorageStatus {
	acc := w.Get(a)
	st := Status(acc.Orig[k], acc.Storage[k], v)
	acc.Storage[k] = v
	w.event("store %x %x=%x", a, k, v)
	return st
}

func (w *World) SelfDestruct(a, ben tosca.Address) bool {
	acc := w.Get(a)
	first := !acc.Destructed
	acc.Destructed = true
	bal := acc.Balance
	acc.Balance = tosca.Value{}
	if ben != a || w.Rev >= tosca.R13_Cancun {
		w.Get(ben).Balance = tosca.Add(w.Get(ben).Balance, bal)
	}
	w.event("destruct %x->%x", a, ben)
	return first
}

func (w *World) CreateSnapshot() tosca.Snapshot { w.Bad = "CreateSnapshot"; return 0 }
func (w *World) RestoreSnapshot(tosca.Snapshot) { w.Bad = "RestoreSnapshot" }

func (w *World) GetTransientStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return w.Trans[Slot{a, k}]
}
func (w *World) SetTransientStorage(a tosca.Address, k tosca.Key, v tosca.Word) {
	w.Trans[Slot{a, k}] = v
	w.event("tstore %x %x=%x", a, k, v)
}
func (w *World) AccessAccount(a tosca.Address) tosca.AccessStatus {
	st := tosca.AccessStatus(w.WarmA[a])
	w.WarmA[a] = true
	return st
}
func (w *World) AccessStorage(a tosca.Address, k tosca.Key) tosca.AccessStatus {
	st := tosca.AccessStatus(w.WarmS[Slot{a, k}])
	w.WarmS[Slot{a, k}] = true
	return st
}
func (w *World) EmitLog(l tosca.Log) {
	w.logs = append(w.logs, l) // kept as is: a log must not share memory with the interpreter
	w.event("log %x %x %x", l.Address, l.Topics, []byte(l.Data))
}
func (w *World) GetLogs() []tosca.Log { return w.logs }
func (w *World) GetBlockHash(n int64) tosca.Hash {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(n))
	return ref.Keccak(b[:])
}
func (w *World) IsAddressInAccessList(a tosca.Address) bool { return w.WarmA[a] }
func (w *World) IsSlotInAccessList(a tosca.Address, k tosca.Key) (bool, bool) {
	return w.WarmA[a], w.WarmS[Slot{a, k}]
}
func (w *World) HasSelfDestructed(a tosca.Address) bool { return w.peek(a).Destructed }

func (w *World) Call(kind tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) {
	creating := kind == tosca.Create || kind == tosca.Create2
	if w.Depth >= 1024 {
		return tosca.CallResult{GasLeft: p.Gas}, nil
	}
	sender := p.Sender
	if kind == tosca.Call || kind == tosca.CallCode || creating {
		if w.less(w.peek(sender).Balance, p.Value) {
			return tosca.CallResult{GasLeft: p.Gas}, nil
		}
	}
	ev := fmt.Sprintf("call %v from %x to %x code %x value %x gas %d input %x", kind, p.Sender, p.Recipient, p.CodeAddress, p.Value, p.Gas, []byte(p.Input))
	switch {
	case kind == tosca.Create:
		ev = fmt.Sprintf("create from %x value %x gas %d input %x", p.Sender, p.Value, p.Gas, []byte(p.Input))
	case kind == tosca.Create2:
		ev = fmt.Sprintf("create2 from %x value %x gas %d salt %x input %x", p.Sender, p.Value, p.Gas, p.Salt, []byte(p.Input))
	case kind == tosca.StaticCall:
		ev = fmt.Sprintf("staticcall from %x to %x code %x gas %d input %x", p.Sender, p.Recipient, p.CodeAddress, p.Gas, []byte(p.Input))
	}
	w.Events = append(w.Events, ev)
	if p.Gas < 0 {
		w.Bad = "negative gas in a call"
	}
	if w.Nested != nil {
		return w.nested(kind, p)
	}
	i := w.NCalls
	w.NCalls++
	var r Response
	if len(w.Script) > 0 {
		r = w.Script[i%len(w.Script)]
	}
	left := tosca.Gas(new(big.Int).Rsh(new(big.Int).Mul(big.NewInt(int64(p.Gas)), big.NewInt(int64(r.Left))), 8).Int64())
	res := tosca.CallResult{Success: r.Success, Output: append([]byte(nil), r.Output...), GasLeft: left}
	if r.Success {
		res.GasRefund = tosca.Gas(r.Refund)
		if creating {
			res.CreatedAddress = r.Created
			res.Output = nil
		}
		if r.Poke != nil && !w.Static && kind != tosca.StaticCall {
			if r.Poke.Trans {
				w.Trans[Slot{w.Self, r.Poke.Key}] = r.Poke.Val
			} else if r.Poke.Balance {
				w.Get(w.Self).Balance = tosca.Value(r.Poke.Val)
			} else {
				w.Get(w.Self).Storage[r.Poke.Key] = r.Poke.Val
				w.WarmS[Slot{w.Self, r.Poke.Key}] = true
			}
		}
	}
	return res, nil
}

func (w *World) less(a, b tosca.Value) bool { return bytes.Compare(a[:], b[:]) < 0 }

// nested processes a nested call the way a transaction processor would.
func (w *World) nested(kind tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) {
	w.NCalls++
	if w.NCalls > 300 { // bounds the work of a case
		return tosca.CallResult{}, nil
	}
	creating := kind == tosca.Create || kind == tosca.Create2
	par := w.Params
	par.Context, par.Kind, par.Depth, par.Gas = w, kind, w.Depth+1, p.Gas
	par.Sender, par.Recipient, par.Value, par.Input = p.Sender, p.Recipient, p.Value, append([]byte(nil), p.Input...)
	par.Static = w.Static || kind == tosca.StaticCall
	snapSender := w.Get(p.Sender)
	if creating {
		if snapSender.Nonce+1 == 0 {
			return tosca.CallResult{GasLeft: p.Gas}, nil
		}
		snapSender.Nonce++
		seed := fmt.Sprintf("%x/%d", p.Sender, snapSender.Nonce)
		if kind == tosca.Create2 {
			seed = fmt.Sprintf("%x/%x/%x", p.Sender, p.Salt, []byte(p.Input))
		}
		h := ref.Keccak([]byte(seed))
		copy(par.Recipient[:], h[12:])
		if w.Rev >= tosca.R09_Berlin {
			w.WarmA[par.Recipient] = true
		}
		if x := w.peek(par.Recipient); x.Nonce != 0 || len(x.Code) != 0 {
			return tosca.CallResult{}, nil
		}
		par.Code, par.Input = tosca.Code(par.Input), nil
	} else {
		par.Code = append([]byte(nil), w.peek(p.CodeAddress).Code...)
	}
	snap := w.Clone()
	if creating {
		w.Get(par.Recipient).Nonce = 1
	}
	if (kind == tosca.Call || creating) && par.Recipient != par.Sender {
		s, r := w.Get(par.Sender), w.Get(par.Recipient)
		s.Balance, r.Balance = tosca.Sub(s.Balance, p.Value), tosca.Add(r.Balance, p.Value)
	}
	if kind == tosca.StaticCall {
		par.Value = tosca.Value{}
	}
	h := tosca.Hash(ref.Keccak(par.Code))
	par.CodeHash = &h
	oStatic, oDepth, oSelf := w.Static, w.Depth, w.Self
	w.Static, w.Depth, w.Self = par.Static, par.Depth, par.Recipient
	res, err := w.Nested(par)
	w.Static, w.Depth, w.Self = oStatic, oDepth, oSelf
	if err != nil {
		w.Bad = "nested run: " + err.Error()
		return tosca.CallResult{}, err
	}
	out := tosca.CallResult{Success: res.Success, Output: res.Output, GasLeft: res.GasLeft, GasRefund: res.GasRefund}
	if !res.Success {
		out.GasRefund = 0
	}
	if res.Success && creating {
		cost := tosca.Gas(200 * len(res.Output))
		if len(res.Output) > 24576 || cost > out.GasLeft || w.Rev >= tosca.R10_London && len(res.Output) > 0 && res.Output[0] == 0xef {
			out = tosca.CallResult{}
		} else {
			out.GasLeft -= cost
			w.Get(par.Recipient).Code = append([]byte(nil), res.Output...)
			out.CreatedAddress = par.Recipient
			out.Output = nil
		}
	}
	w.event("end %v gas %d refund %d", out.Success, out.GasLeft, out.GasRefund)
	if !out.Success {
		w.restore(snap)
	}
	return out, nil
}

// Dump renders everything that persists after a successful run.
func (w *World) Dump() string {
	var s []string
	for a, x := range w.Acc {
		var st []string
		for k, v := range x.Storage {
			if v != (tosca.Word{}) {
				st = append(st, fmt.Sprintf("%x=%x", k, v))
			}
		}
		sort.Strings(st)
		if x.Balance != (tosca.Value{}) || x.Nonce != 0 || len(x.Code) != 0 || len(st) > 0 || x.Destructed {
			s = append(s, fmt.Sprintf("acct %x bal %x nonce %d code %x storage %v destructed %v", a, x.Balance, x.Nonce, x.Code, st, x.Destructed))
		}
	}
	for k, v := range w.Trans {
		if v != (tosca.Word{}) {
			s = append(s, fmt.Sprintf("transient %x %x=%x", k.A, k.K, v))
		}
	}
	if w.Rev >= tosca.R09_Berlin {
		for k := range w.WarmA {
			s = append(s, fmt.Sprintf("warm %x", k))
		}
		for k := range w.WarmS {
			s = append(s, fmt.Sprintf("warmslot %x %x", k.A, k.K))
		}
	}
	sort.Strings(s)
	for i, l := range w.logs {
		s = append(s, fmt.Sprintf("log %d %x %x %x", i, l.Address, l.Topics, []byte(l.Data)))
	}
	return strings.Join(s, "\n")
}
