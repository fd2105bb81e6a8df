package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/tosca"

	"verif/ref"
	"verif/world"
)

type account struct {
	balance    tosca.Value
	nonce      uint64
	code       []byte
	storage    map[tosca.Key]tosca.Word
	orig       map[tosca.Key]tosca.Word // storage at the beginning of the transaction; shared by copies
	destructed bool
}

type slot struct {
	a tosca.Address
	k tosca.Key
}

// state is everything a transaction context keeps and can roll back.
type state struct {
	acc   map[tosca.Address]*account
	trans map[slot]tosca.Word
	warmA map[tosca.Address]bool
	warmS map[slot]bool
	logs  []tosca.Log
}

func (s *state) clone() state {
	c := state{map[tosca.Address]*account{}, map[slot]tosca.Word{}, map[tosca.Address]bool{}, map[slot]bool{}, s.logs[:len(s.logs):len(s.logs)]}
	for a, x := range s.acc {
		y := *x
		y.storage = map[tosca.Key]tosca.Word{}
		for k, v := range x.storage {
			y.storage[k] = v
		}
		c.acc[a] = &y
	}
	for k, v := range s.trans {
		c.trans[k] = v
	}
	for k := range s.warmA {
		c.warmA[k] = true
	}
	for k := range s.warmS {
		c.warmS[k] = true
	}
	return c
}

// chain implements tosca.TransactionContext.
type chain struct {
	state
	snaps  []state
	zeroH  bool // accounts that do not exist have a code hash of zero
	bad    string
	berlin bool
}

func newChain() *chain {
	return &chain{state: state{map[tosca.Address]*account{}, map[slot]tosca.Word{}, map[tosca.Address]bool{}, map[slot]bool{}, nil}}
}

func (c *chain) copy() *chain { return &chain{state: c.clone(), zeroH: c.zeroH} }

func (c *chain) get(a tosca.Address) *account {
	x := c.acc[a]
	if x == nil {
		x = &account{storage: map[tosca.Key]tosca.Word{}, orig: map[tosca.Key]tosca.Word{}}
		c.acc[a] = x
	}
	return x
}

func (c *chain) peek(a tosca.Address) account {
	if x := c.acc[a]; x != nil {
		return *x
	}
	return account{}
}

func (c *chain) AccountExists(a tosca.Address) bool {
	x := c.peek(a)
	return x.balance != (tosca.Value{}) || x.nonce != 0 || len(x.code) != 0
}
func (c *chain) GetBalance(a tosca.Address) tosca.Value    { return c.peek(a).balance }
func (c *chain) SetBalance(a tosca.Address, v tosca.Value) { c.get(a).balance = v }
func (c *chain) GetNonce(a tosca.Address) uint64           { return c.peek(a).nonce }
func (c *chain) SetNonce(a tosca.Address, n uint64)        { c.get(a).nonce = n }
func (c *chain) GetCode(a tosca.Address) tosca.Code        { return bytes.Clone(c.peek(a).code) }
func (c *chain) GetCodeSize(a tosca.Address) int           { return len(c.peek(a).code) }
func (c *chain) SetCode(a tosca.Address, code tosca.Code)  { c.get(a).code = bytes.Clone(code) }
func (c *chain) GetCodeHash(a tosca.Address) tosca.Hash {
	if c.zeroH && !c.AccountExists(a) {
		return tosca.Hash{}
	}
	return ref.Keccak(c.peek(a).code)
}
func (c *chain) GetStorage(a tosca.Address, k tosca.Key) tosca.Word { return c.peek(a).storage[k] }
func (c *chain) GetCommittedStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return c.peek(a).orig[k]
}
func (c *chain) SetStorage(a tosca.Address, k tosca.Key, v tosca.Word) tosca.StorageStatus {
	x := c.get(a)
	cur := x.storage[k]
	x.storage[k] = v
	return world.Status(x.orig[k], cur, v)
}
func (c *chain) SelfDestruct(a, ben tosca.Address) bool {
	x := c.get(a)
	if a != ben {
		c.get(ben).balance = tosca.Add(c.get(ben).balance, x.balance)
	}
	x.balance = tosca.Value{}
	first := !x.destructed
	x.destructed = true
	return first
}
func (c *chain) HasSelfDestructed(a tosca.Address) bool { return c.peek(a).destructed }
func (c *chain) CreateSnapshot() tosca.Snapshot {
	c.snaps = append(c.snaps, c.clone())
	return tosca.Snapshot(len(c.snaps) - 1)
}
func (c *chain) RestoreSnapshot(s tosca.Snapshot) {
	if s < 0 || int(s) >= len(c.snaps) {
		c.bad = "an unknown snapshot is restored"
		return
	}
	c.state = c.snaps[s]
	c.snaps = c.snaps[:s]
}
func (c *chain) GetTransientStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return c.trans[slot{a, k}]
}
func (c *chain) SetTransientStorage(a tosca.Address, k tosca.Key, v tosca.Word) {
	c.trans[slot{a, k}] = v
}
func (c *chain) AccessAccount(a tosca.Address) tosca.AccessStatus {
	r := c.warmA[a]
	c.warmA[a] = true
	return tosca.AccessStatus(r)
}
func (c *chain) AccessStorage(a tosca.Address, k tosca.Key) tosca.AccessStatus {
	r := c.warmS[slot{a, k}]
	c.warmS[slot{a, k}] = true
	return tosca.AccessStatus(r)
}
func (c *chain) IsAddressInAccessList(a tosca.Address) bool { return c.warmA[a] }
func (c *chain) IsSlotInAccessList(a tosca.Address, k tosca.Key) (bool, bool) {
	return c.warmA[a], c.warmS[slot{a, k}]
}
func (c *chain) EmitLog(l tosca.Log)  { c.logs = append(c.logs[:len(c.logs):len(c.logs)], l) }
func (c *chain) GetLogs() []tosca.Log { return c.logs }
func (c *chain) GetBlockHash(n int64) tosca.Hash {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(n))
	return ref.Keccak(b[:])
}

// commit ends a transaction.
func (c *chain) commit() {
	for a, x := range c.acc {
		if x.destructed {
			delete(c.acc, a)
			continue
		}
		x.orig = map[tosca.Key]tosca.Word{}
		for k, v := range x.storage {
			x.orig[k] = v
		}
	}
	c.trans, c.warmA, c.warmS, c.logs, c.snaps = map[slot]tosca.Word{}, map[tosca.Address]bool{}, map[slot]bool{}, nil, nil
}

// lines renders the state: aspect -> value.
func (s *state) lines(warm bool) map[string]string {
	res := map[string]string{}
	put := func(k string, a tosca.Address, v string) { res[fmt.Sprintf("%s of %s", k, nameOf(a))] = v }
	for a, x := range s.acc {
		var st []string
		for k, v := range x.storage {
			if v != (tosca.Word{}) {
				st = append(st, fmt.Sprintf("%x=%x", k, v))
			}
		}
		sort.Strings(st)
		if x.balance != (tosca.Value{}) {
			put("balance", a, x.balance.String())
		}
		if x.nonce != 0 {
			put("nonce", a, fmt.Sprint(x.nonce))
		}
		if len(x.code) != 0 {
			put("code", a, short(x.code))
		}
		if len(st) > 0 {
			put("storage", a, strings.Join(st, " "))
		}
		if x.destructed {
			put("destruction", a, "yes")
		}
	}
	for k, v := range s.trans {
		if v != (tosca.Word{}) {
			put(fmt.Sprintf("transient slot %x", k.k), k.a, fmt.Sprintf("%x", v))
		}
	}
	if warm {
		for k := range s.warmA {
			put("warmth", k, "yes")
		}
		for k := range s.warmS {
			put(fmt.Sprintf("warmth of slot %x", k.k), k.a, "yes")
		}
	}
	for i, l := range s.logs {
		res[fmt.Sprintf("log %d", i)] = fmt.Sprintf("%x %x %x", l.Address, l.Topics, []byte(l.Data))
	}
	return res
}

func short(b []byte) string {
	if len(b) > 80 {
		h := ref.Keccak(b)
		return fmt.Sprintf("%x..(%d bytes, hash %x)", b[:8], len(b), h[:6])
	}
	return fmt.Sprintf("%x", b)
}

// difference names the first aspect in which two states differ.
func difference(want, got map[string]string) (aspect, text string) {
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		if want[k] != got[k] {
			if aspect == "" {
				aspect = strings.Fields(k)[0]
			}
			text += fmt.Sprintf("%s: should be %q, is %q\n", k, want[k], got[k])
		}
	}
	return
}
