package main

import (
	"bytes"
	"fmt"
	"maps"
	"math/big"
	"slices"
	"sort"
	"strings"

	. "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/tosca"

	"verif/gen"
	"verif/pbt"
	"verif/ref"
)

// model is the harness' own representation of a CT state; it is the world of the reference EVM, too.
type model struct {
	status     st.StatusCode
	rev        tosca.Revision
	static     bool
	pc         int
	gas        int64
	refund     int64
	code       []byte
	stack      []*big.Int // top last
	mem        []byte
	last       []byte // return data of the last call
	out        []byte // result
	call       st.CallContext
	block      st.BlockContext
	input      []byte
	origin     tosca.Address
	blobs      []tosca.Hash
	cur        map[tosca.Key]tosca.Word
	orig       map[tosca.Key]tosca.Word
	warmSlots  map[tosca.Key]bool
	transient  map[tosca.Key]tosca.Word
	accounts   map[tosca.Address]acct
	warm       map[tosca.Address]bool
	logs       []mLog
	past       []st.PastCall
	future     []st.FutureCall
	destructed bool
	journal    [][2]tosca.Address
	hashes     []tosca.Hash
	op         byte
}

type acct struct {
	balance [32]byte
	code    string
}

func (m *model) clone() *model {
	r := *m
	r.stack = make([]*big.Int, len(m.stack))
	copy(r.stack, m.stack)
	r.mem = slices.Clone(m.mem)
	r.blobs = slices.Clone(m.blobs)
	r.cur, r.orig, r.warmSlots, r.transient = maps.Clone(m.cur), maps.Clone(m.orig), maps.Clone(m.warmSlots), maps.Clone(m.transient)
	r.accounts, r.warm = maps.Clone(m.accounts), maps.Clone(m.warm)
	r.logs, r.past, r.future, r.journal, r.hashes = slices.Clone(m.logs), slices.Clone(m.past), slices.Clone(m.future), slices.Clone(m.journal), m.hashes
	return &r
}

func toTosca(w U256) tosca.Value { return tosca.Value(w.Bytes32be()) }

func (m *model) params() tosca.Parameters {
	var p tosca.Parameters
	p.ChainID = tosca.Word(m.block.ChainID.Bytes32be())
	p.BlockNumber = int64(m.block.BlockNumber)
	p.Timestamp = int64(m.block.TimeStamp)
	p.Coinbase = m.block.CoinBase
	p.GasLimit = tosca.Gas(m.block.GasLimit)
	p.PrevRandao = tosca.Hash(m.block.PrevRandao.Bytes32be())
	p.BaseFee, p.BlobBaseFee = toTosca(m.block.BaseFee), toTosca(m.block.BlobBaseFee)
	p.Revision = m.rev
	p.Origin, p.GasPrice, p.BlobHashes = m.origin, toTosca(m.block.GasPrice), m.blobs
	p.Kind, p.Static, p.Gas = tosca.Call, m.static, tosca.Gas(m.gas)
	p.Recipient, p.Sender, p.Input, p.Value = m.call.AccountAddress, m.call.CallerAddress, m.input, toTosca(m.call.Value)
	p.Code = m.code
	p.Context = m
	return p
}

// step executes up to n instructions on the model by the reference EVM. It returns false if the memory limit of the harness was hit.
func (m *model) step(n int, maxMem int) bool {
	e := ref.New(m.params())
	e.PC, e.Gas, e.Refund, e.Stack, e.Mem, e.Ret = uint64(m.pc), m.gas, m.refund, m.stack, m.mem, m.last
	e.MaxMem = maxMem
	refund := m.refund
	for i := 0; i < n && e.Status == ref.Running; i++ {
		refund = e.Refund
		e.Step()
	}
	switch e.Status {
	case ref.Capped:
		return false
	case ref.Running:
		m.pc = int(e.PC)
	case ref.Failed:
		m.status = st.Failed
		return true
	case ref.Reverted:
		m.status = st.Reverted
		m.out = e.Out
		m.gas, m.refund, m.stack, m.mem, m.last = e.Gas, refund, e.Stack, e.Mem, e.Ret
		return true
	default:
		m.status = st.Stopped
		m.out = e.Out
	}
	m.gas, m.refund, m.stack, m.mem, m.last = e.Gas, e.Refund, e.Stack, e.Mem, e.Ret
	return true
}

// ------------------------------------------------------------ the world (tosca.RunContext)

func (m *model) AccountExists(a tosca.Address) bool { _, ok := m.accounts[a]; return ok }
func (m *model) GetBalance(a tosca.Address) tosca.Value {
	return tosca.Value(m.accounts[a].balance)
}
func (m *model) SetBalance(tosca.Address, tosca.Value) {}
func (m *model) GetNonce(tosca.Address) uint64         { return 0 }
func (m *model) SetNonce(tosca.Address, uint64)        { panic("SetNonce") }
func (m *model) GetCode(a tosca.Address) tosca.Code    { return tosca.Code(m.accounts[a].code) }
func (m *model) GetCodeHash(a tosca.Address) tosca.Hash {
	// What states report as the hash of a code is decided by ct-code-hash.
	ab := st.NewAccountsBuilder()
	if x := m.accounts[a]; len(x.code) > 0 {
		ab.SetCode(a, NewBytes([]byte(x.code)))
	}
	return ab.Build().GetCodeHash(a)
}
func (m *model) GetCodeSize(a tosca.Address) int                    { return len(m.accounts[a].code) }
func (m *model) SetCode(tosca.Address, tosca.Code)                  { panic("SetCode") }
func (m *model) GetStorage(_ tosca.Address, k tosca.Key) tosca.Word { return m.cur[k] }
func (m *model) SetStorage(_ tosca.Address, k tosca.Key, v tosca.Word) tosca.StorageStatus {
	if m.cur == nil {
		m.cur = map[tosca.Key]tosca.Word{}
	}
	m.cur[k] = v
	return 0 // unused by the reference
}
func (m *model) GetTransientStorage(_ tosca.Address, k tosca.Key) tosca.Word { return m.transient[k] }
func (m *model) SetTransientStorage(_ tosca.Address, k tosca.Key, v tosca.Word) {
	if m.transient == nil {
		m.transient = map[tosca.Key]tosca.Word{}
	}
	m.transient[k] = v
}
func (m *model) GetBlockHash(number int64) tosca.Hash {
	if cur := int64(m.block.BlockNumber); number >= 0 && number < cur && cur-number <= 256 {
		return m.hashes[cur-number-1]
	}
	return tosca.Hash{}
}
func (m *model) EmitLog(l tosca.Log) {
	n := mLog{data: string(l.Data)}
	for _, t := range l.Topics {
		n.topics += string(t[:])
	}
	m.logs = append(m.logs, n)
}
func (m *model) Call(kind tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) {
	m.past = append(m.past, st.PastCall{Kind: kind, Recipient: p.Recipient, Sender: p.Sender, Input: NewBytes(p.Input), Value: p.Value, Gas: p.Gas, CodeAddress: p.CodeAddress})
	var f st.FutureCall
	if len(m.future) > 0 {
		f, m.future = m.future[0], m.future[1:]
	}
	left := p.Gas - f.GasCosts
	if left < 0 {
		left = 0
	}
	return tosca.CallResult{Success: f.Success, Output: f.Output.ToBytes(), GasLeft: left, GasRefund: f.GasRefund, CreatedAddress: f.CreatedAccount}, nil
}
func (m *model) SelfDestruct(a tosca.Address, b tosca.Address) bool {
	m.journal = append(m.journal, [2]tosca.Address{a, b})
	first := !m.destructed
	m.destructed = true
	return first
}
func (m *model) AccessAccount(a tosca.Address) tosca.AccessStatus {
	if m.warm[a] {
		return tosca.WarmAccess
	}
	if m.warm == nil {
		m.warm = map[tosca.Address]bool{}
	}
	m.warm[a] = true
	return tosca.ColdAccess
}
func (m *model) AccessStorage(_ tosca.Address, k tosca.Key) tosca.AccessStatus {
	if m.warmSlots[k] {
		return tosca.WarmAccess
	}
	if m.warmSlots == nil {
		m.warmSlots = map[tosca.Key]bool{}
	}
	m.warmSlots[k] = true
	return tosca.ColdAccess
}
func (m *model) GetCommittedStorage(_ tosca.Address, k tosca.Key) tosca.Word { return m.orig[k] }
func (m *model) IsAddressInAccessList(a tosca.Address) bool                  { return m.warm[a] }
func (m *model) IsSlotInAccessList(_ tosca.Address, k tosca.Key) (bool, bool) {
	return true, m.warmSlots[k]
}
func (m *model) HasSelfDestructed(tosca.Address) bool         { return m.destructed }
func (m *model) CreateAccount(tosca.Address, tosca.Code) bool { panic("CreateAccount") }
func (m *model) CreateSnapshot() tosca.Snapshot               { panic("CreateSnapshot") }
func (m *model) RestoreSnapshot(tosca.Snapshot)               { panic("RestoreSnapshot") }
func (m *model) GetLogs() []tosca.Log                         { panic("GetLogs") }

// ------------------------------------------------------------ conversion and comparison

func (m *model) state() *st.State {
	s := st.NewState(st.NewCode(m.code))
	s.Status, s.Revision, s.ReadOnly, s.Pc = m.status, m.rev, m.static, uint16(m.pc)
	s.Gas, s.GasRefund = tosca.Gas(m.gas), tosca.Gas(m.refund)
	s.Stack = st.NewStackWithSize(0)
	for _, v := range m.stack {
		s.Stack.Push(toU(v))
	}
	s.Memory = st.NewMemory(slices.Clone(m.mem)...)
	s.LastCallReturnData, s.ReturnData, s.CallData = NewBytes(m.last), NewBytes(m.out), NewBytes(m.input)
	s.CallContext, s.BlockContext = m.call, m.block
	s.TransactionContext = &st.TransactionContext{OriginAddress: m.origin, BlobHashes: slices.Clone(m.blobs)}
	sb := st.NewStorageBuilder()
	for k, v := range m.cur {
		sb.SetCurrent(u(k), u(v))
	}
	for k, v := range m.orig {
		sb.SetOriginal(u(k), u(v))
	}
	for k := range m.warmSlots {
		sb.SetWarm(u(k), true)
	}
	s.Storage = sb.Build()
	s.TransientStorage = &st.TransientStorage{}
	for k, v := range m.transient {
		s.TransientStorage.Set(u(k), u(v))
	}
	ab := st.NewAccountsBuilder()
	for a, x := range m.accounts {
		ab.SetBalance(a, u(x.balance))
		ab.SetCode(a, NewBytes([]byte(x.code)))
	}
	for a := range m.warm {
		ab.SetWarm(a)
	}
	s.Accounts = ab.Build()
	for _, l := range m.logs {
		var ts []U256
		for i := 0; i < len(l.topics); i += 32 {
			ts = append(ts, NewU256FromBytes([]byte(l.topics[i:i+32])...))
		}
		s.Logs.AddLog([]byte(l.data), ts...)
	}
	s.CallJournal = &st.CallJournal{Past: slices.Clone(m.past), Future: slices.Clone(m.future)}
	s.HasSelfDestructed = m.destructed
	for _, e := range m.journal {
		s.SelfDestructedJournal = append(s.SelfDestructedJournal, st.NewSelfDestructEntry(e[0], e[1]))
	}
	s.RecentBlockHashes = NewImmutableHashArray(m.hashes...)
	return s
}

// universe lists the keys and addresses which may occur in the storages and accounts.
type universe struct {
	keys  map[tosca.Key]bool
	addrs map[tosca.Address]bool
}

func newUniverse(ms ...*model) universe {
	un := universe{map[tosca.Key]bool{}, map[tosca.Address]bool{}}
	for _, m := range ms {
		for _, k := range []map[tosca.Key]tosca.Word{m.cur, m.orig, m.transient} {
			for k := range k {
				un.keys[k] = true
			}
		}
		for k := range m.warmSlots {
			un.keys[k] = true
		}
		for a := range m.accounts {
			un.addrs[a] = true
		}
		for a := range m.warm {
			un.addrs[a] = true
		}
		for _, v := range m.stack {
			w := [32]byte{}
			v.FillBytes(w[:])
			un.keys[w] = true
			un.addrs[tosca.Address(w[12:])] = true
		}
	}
	return un
}

// diff compares what matters of a state with the model by the accessors of the state.
func (m *model) diff(s *st.State, un universe) (res []string) { return m.compare(s, un, false) }

// diffAll compares everything.
func (m *model) diffAll(s *st.State, un universe) (res []string) { return m.compare(s, un, true) }

func (m *model) compare(s *st.State, un universe, all bool) (res []string) {
	add := func(f string, a ...any) { res = append(res, fmt.Sprintf(f, a...)) }
	if s.Status != m.status {
		add("status: want %v, got %v", m.status, s.Status)
		return
	}
	if m.status == st.Failed && !all {
		return
	}
	cmp := func(name string, want, got any) {
		if want != got {
			add("%s: want %v, got %v", name, want, got)
		}
	}
	at := func(name string, where []byte, want, got any) {
		if want != got {
			add("%s %x: want %v, got %v", name, where, want, got)
		}
	}
	raw := func(name string, want, got []byte) {
		if !bytes.Equal(want, got) {
			add("%s: want %x, got %x", name, want, got)
		}
	}
	cmp("revision", m.rev, s.Revision)
	cmp("read only", m.static, s.ReadOnly)
	cmp("gas", tosca.Gas(m.gas), s.Gas)
	cmp("refund", tosca.Gas(m.refund), s.GasRefund)
	raw("code", m.code, s.Code.Copy())
	cmp("call context", m.call, s.CallContext)
	cmp("block context", m.block, s.BlockContext)
	raw("call data", m.input, s.CallData.ToBytes())
	cmp("origin", m.origin, s.TransactionContext.OriginAddress)
	if !slices.Equal(m.blobs, s.TransactionContext.BlobHashes) {
		add("blob hashes: want %x, got %x", m.blobs, s.TransactionContext.BlobHashes)
	}
	if m.status == st.Running || all {
		if got := int(s.Pc); got != m.pc && (all || got < len(m.code) || m.pc < len(m.code)) {
			add("pc: want %d, got %d", m.pc, got)
		}
		cmp("stack size", len(m.stack), s.Stack.Size())
		for i := 0; i < len(m.stack) && i < s.Stack.Size(); i++ {
			if g := fromU(s.Stack.Get(i)); g.Cmp(m.stack[len(m.stack)-1-i]) != 0 {
				add("stack[%d]: want %x, got %x", i, m.stack[len(m.stack)-1-i], g)
			}
		}
		raw("memory", m.mem, s.Memory.Read(0, uint64(s.Memory.Size())))
		raw("last return data", m.last, s.LastCallReturnData.ToBytes())
	}
	if m.status != st.Running || all {
		raw("return data", m.out, s.ReturnData.ToBytes())
	}
	for k := range un.keys {
		ku := u(k)
		at("storage", k[:], u(m.cur[k]), s.Storage.GetCurrent(ku))
		at("original storage", k[:], u(m.orig[k]), s.Storage.GetOriginal(ku))
		at("warm slot", k[:], m.warmSlots[k], s.Storage.IsWarm(ku))
		at("transient storage", k[:], u(m.transient[k]), s.TransientStorage.Get(ku))
	}
	for a := range un.addrs {
		x, ok := m.accounts[a]
		at("account exists", a[:], ok, s.Accounts.Exists(a))
		at("balance of", a[:], u(x.balance), s.Accounts.GetBalance(a))
		at("code of", a[:], x.code, string(s.Accounts.GetCode(a).ToBytes()))
		at("warm account", a[:], m.warm[a], s.Accounts.IsWarm(a))
	}
	var logs []mLog
	for _, l := range s.Logs.Entries {
		n := mLog{data: string(l.Data)}
		for _, t := range l.Topics {
			w := t.Bytes32be()
			n.topics += string(w[:])
		}
		logs = append(logs, n)
	}
	if !slices.Equal(m.logs, logs) {
		add("logs: want %x, got %x", m.logs, logs)
	}
	if !slices.Equal(m.past, s.CallJournal.Past) {
		add("past calls: want %v, got %v", m.past, s.CallJournal.Past)
	}
	if !slices.Equal(m.future, s.CallJournal.Future) {
		add("future calls: want %v, got %v", m.future, s.CallJournal.Future)
	}
	cmp("self-destructed", m.destructed, s.HasSelfDestructed)
	var j []st.SelfDestructEntry
	for _, e := range m.journal {
		j = append(j, st.NewSelfDestructEntry(e[0], e[1]))
	}
	if !slices.Equal(j, s.SelfDestructedJournal) {
		add("self-destruct journal: want %v, got %v", j, s.SelfDestructedJournal)
	}
	for i, h := range m.hashes {
		if g := s.RecentBlockHashes.Get(uint64(i)); g != h {
			add("block hash %d: want %x, got %x", i, h, g)
		}
	}
	sort.Strings(res)
	return
}

func short(b []byte) string {
	if len(b) > 64 {
		return fmt.Sprintf("%x..(%d)", b[:64], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func (m *model) key() uint64 {
	h := pbt.HashString(fmt.Sprint(m.status, m.op, m.rev, m.static, m.pc, m.gas, m.refund, len(m.stack), len(m.mem)))
	for i := 0; i < len(m.stack) && i < 7; i++ {
		h = h*31 + pbt.Hash(m.stack[len(m.stack)-1-i].Bytes())
	}
	return h*31 + pbt.Hash(m.code)
}

func (m *model) String() string {
	var b strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	w("%v op=%02x rev=%v static=%v pc=%d gas=%d refund=%d", m.status, m.op, m.rev, m.static, m.pc, m.gas, m.refund)
	w("code %x", m.code)
	w("stack (%d, top first):", len(m.stack))
	for i := 0; i < len(m.stack) && i < 8; i++ {
		w("  %x", m.stack[len(m.stack)-1-i])
	}
	w("memory %s last %s input %s", short(m.mem), short(m.last), short(m.input))
	w("self %x caller %x value %v block %+v", m.call.AccountAddress, m.call.CallerAddress, m.call.Value, m.block)
	for k, v := range m.cur {
		w("current %s = %s", hex(k), hex(v))
	}
	for k, v := range m.orig {
		w("original %s = %s", hex(k), hex(v))
	}
	for k := range m.warmSlots {
		w("warm slot %s", hex(k))
	}
	for k, v := range m.transient {
		w("transient %s = %s", hex(k), hex(v))
	}
	for a, x := range m.accounts {
		w("account %x balance %s code %x", a, hex(x.balance), x.code)
	}
	for a := range m.warm {
		w("warm account %x", a)
	}
	w("blobs %x future %v past %v destructed %v", m.blobs, m.future, m.past, m.destructed)
	return b.String()
}

// ------------------------------------------------------------ generation

var pool = []tosca.Address{
	{}, {19: 1}, {19: 4}, {0: 0xaa, 19: 1}, {0: 0xaa, 19: 2}, {0: 0xbb, 10: 7, 19: 3},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
}

func poolAddr(t *pbt.T) tosca.Address { return pbt.Pick(t, pool) }

func wordOf(a tosca.Address) *big.Int { return new(big.Int).SetBytes(a[:]) }

func smallWord(t *pbt.T) (r [32]byte) {
	switch t.Weighted(5, 3, 1) {
	case 0:
		r[31] = byte(t.N(4))
	case 1:
		r[31] = byte(t.N(256))
		r[30] = byte(t.N(256))
	default:
		return gen.Word(t)
	}
	return
}

func fork(rev tosca.Revision) uint64 { // the blocks and times at which the revisions of the CT start
	switch rev {
	case tosca.R07_Istanbul:
		return 0
	case tosca.R09_Berlin:
		return 1000
	case tosca.R10_London:
		return 2000
	case tosca.R11_Paris:
		return 3000
	case tosca.R12_Shanghai:
		return 4000
	case tosca.R13_Cancun:
		return 5000
	}
	return 6000
}

// instructions that take a memory region: positions (from the top) of offset and size.
var regions = map[byte][][2]int{
	0x20: {{0, 1}}, 0x37: {{0, 2}}, 0x39: {{0, 2}}, 0x3c: {{1, 3}}, 0x3e: {{0, 2}}, 0x51: {{0, -1}}, 0x52: {{0, -1}}, 0x53: {{0, -1}},
	0x5e: {{0, 2}, {1, 2}}, 0xa0: {{0, 1}}, 0xa1: {{0, 1}}, 0xa2: {{0, 1}}, 0xa3: {{0, 1}}, 0xa4: {{0, 1}},
	0xf0: {{1, 2}}, 0xf5: {{1, 2}}, 0xf1: {{3, 4}, {5, 6}}, 0xf2: {{3, 4}, {5, 6}}, 0xf4: {{2, 3}, {4, 5}}, 0xfa: {{2, 3}, {4, 5}}, 0xf3: {{0, 1}}, 0xfd: {{0, 1}},
}

var addrArg = map[byte]int{0x31: 0, 0x3b: 0, 0x3c: 0, 0x3f: 0, 0xf1: 1, 0xf2: 1, 0xf4: 1, 0xfa: 1, 0xff: 0}

func memPos(t *pbt.T) *big.Int {
	switch t.Weighted(6, 12, 2, 1, 1, 1) {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(int64(t.N(200)))
	case 2:
		return big.NewInt(int64(t.N(40000)))
	case 3:
		return new(big.Int).Add(gen.Pow2(pbt.Pick(t, []uint{16, 31, 32, 37, 38, 63, 64})), big.NewInt(int64(t.N(70)-35)))
	case 4:
		return gen.WordBig(t)
	}
	return new(big.Int).Sub(gen.Pow2(pbt.Pick(t, []uint{64, 256})), big.NewInt(int64(1+t.N(64))))
}

// operand chooses the i-th operand (from the top) of the instruction.
func (m *model) operand(t *pbt.T, op byte, i int) *big.Int {
	if t.Chance(1, 25) {
		return gen.WordBig(t)
	}
	if p, ok := addrArg[op]; ok && p == i {
		v := wordOf(poolAddr(t))
		if t.Chance(1, 6) { // dirty upper bits
			v.Or(v, new(big.Int).Lsh(big.NewInt(int64(1+t.N(1000))), 160))
		}
		return v
	}
	for _, r := range regions[op] {
		if r[0] == i || r[1] == i {
			return memPos(t)
		}
	}
	switch op {
	case 0x0a: // EXP
		if i == 1 && t.Bool() {
			return big.NewInt(int64(t.N(1000)))
		}
	case 0x0b, 0x1a, 0x1b, 0x1c, 0x1d:
		if i == 0 && t.Chance(3, 4) {
			return big.NewInt(int64(t.N(300)))
		}
	case 0x35, 0x37, 0x39, 0x3e:
		if i == 0 && op == 0x35 || i == 1 {
			if t.Chance(3, 4) {
				return big.NewInt(int64(t.N(120)))
			}
			return memPos(t)
		}
	case 0x3c:
		return memPos(t)
	case 0x40:
		if t.Chance(4, 5) {
			return wrap(new(big.Int).Add(new(big.Int).SetUint64(m.block.BlockNumber), big.NewInt(int64(pbt.Pick(t, []int{-258, -257, -256, -255, -2, -1, 0, 1, -t.N(260)})))))
		}
	case 0x49:
		return big.NewInt(int64(t.N(5)))
	case 0x54, 0x55, 0x5c, 0x5d:
		w := m.keyOf(t)
		if i == 1 {
			w = tosca.Key(smallWord(t))
		}
		return new(big.Int).SetBytes(w[:])
	case 0x56, 0x57:
		if i == 0 {
			var cand []int
			for p, b := range m.code {
				if b == 0x5b {
					cand = append(cand, p)
				}
			}
			v := big.NewInt(int64(t.N(len(m.code) + 3)))
			if len(cand) > 0 && t.Chance(5, 6) {
				v = big.NewInt(int64(pbt.Pick(t, cand)))
			}
			if t.Chance(1, 12) {
				v.Add(v, gen.Pow2(pbt.Pick(t, []uint{16, 32, 64, 128, 255})))
			}
			return v
		}
		return big.NewInt(int64(t.N(3)))
	case 0xf0, 0xf5, 0xf1, 0xf2, 0xf4, 0xfa:
		if i == 0 && op >= 0xf1 && op != 0xf5 { // gas
			return pbt.Pick(t, []*big.Int{big.NewInt(0), big.NewInt(int64(t.N(5000))), big.NewInt(int64(t.N(1000000))), gen.WordBig(t), gen.Pow2(63), gen.Pow2(64)})
		}
		w := smallWord(t)
		return new(big.Int).SetBytes(w[:])
	}
	if t.Bool() {
		w := smallWord(t)
		return new(big.Int).SetBytes(w[:])
	}
	return gen.WordBig(t)
}

func (m *model) keyOf(t *pbt.T) tosca.Key {
	switch t.Weighted(4, 1) {
	case 0:
		return pbt.Pick(t, []tosca.Key{{}, {31: 1}, {0: 0x80, 31: 9}})
	}
	return tosca.Key(gen.Word(t))
}

func instr(t *pbt.T, rev tosca.Revision, code []byte) []byte {
	op := byte(t.N(256))
	switch t.Weighted(2, 2, 3) {
	case 0:
		op = 0x5b
	case 1:
		op = byte(0x5f + t.N(33))
	}
	code = append(code, op)
	if op >= 0x60 && op <= 0x7f {
		for i := 0; i < int(op-0x5f); i++ {
			b := byte(0x5b)
			if t.Chance(1, 3) {
				b = t.Byte()
			}
			code = append(code, b)
		}
	}
	return code
}

func contract(t *pbt.T) string {
	switch t.Weighted(3, 2, 1) {
	case 0:
		return ""
	case 1:
		return string(t.Bytes(1 + t.N(40)))
	}
	return string(t.Bytes(60 + t.N(100)))
}

// defined instructions per revision
func pickOp(t *pbt.T, rev tosca.Revision) byte {
	if t.Chance(1, 6) {
		return byte(t.N(256))
	}
	heavy := []byte{0x55, 0xf1, 0xf2, 0xf4, 0xfa, 0xf0, 0xf5, 0xff, 0x57, 0x56, 0x3c, 0x54, 0x3f, 0x20, 0x0a}
	for {
		op := byte(t.N(256))
		if t.Chance(1, 3) {
			op = pbt.Pick(t, heavy)
		}
		if ref.Defined(op, rev) {
			return op
		}
	}
}

// newModel generates a running state at an instruction.
func newModel(t *pbt.T) *model {
	m := &model{status: st.Running, rev: tosca.R07_Istanbul + tosca.Revision(t.N(6))}
	m.op = pickOp(t, m.rev)
	m.static = t.Chance(1, 5)
	for i := t.N(4); i > 0; i-- {
		m.code = instr(t, m.rev, m.code)
	}
	m.pc = len(m.code)
	if t.Chance(1, 40) { // at the end of the code
		m.op = 0
	} else {
		m.code = append(m.code, m.op)
		if n := int(m.op) - 0x5f; n > 0 && n <= 32 {
			if t.Chance(1, 6) {
				n = t.N(n) // truncated
			}
			m.code = append(m.code, t.Bytes(n)...)
			if n < int(m.op)-0x5f {
				goto done
			}
		}
		for i := t.N(5); i > 0; i-- {
			m.code = instr(t, m.rev, m.code)
		}
	}
done:
	m.block = st.BlockContext{
		BaseFee: u(smallWord(t)), BlobBaseFee: u(smallWord(t)), BlockNumber: fork(m.rev) + uint64(t.N(1000)), ChainID: u(smallWord(t)), CoinBase: poolAddr(t),
		GasLimit: gen.U64(t), GasPrice: u(gen.Word(t)), PrevRandao: u(gen.Word(t)), TimeStamp: fork(m.rev) + uint64(t.N(1000)),
	}
	if t.Chance(1, 3) && m.rev == tosca.R07_Istanbul {
		m.block.BlockNumber = uint64(t.N(300))
	}
	m.call = st.CallContext{AccountAddress: poolAddr(t), CallerAddress: poolAddr(t), Value: u(smallWord(t))}
	m.origin = poolAddr(t)
	for i := t.N(4); i > 0; i-- {
		m.blobs = append(m.blobs, gen.Word(t))
	}
	m.input, m.last = t.Bytes(t.N(2)*t.N(100)), t.Bytes(t.N(2)*t.N(100))
	m.mem = t.Bytes(32 * pbt.Pick(t, []int{0, 0, 1, 2, 3, t.N(9)}))
	m.refund = pbt.Pick(t, []int64{0, 0, 4800, 15000, int64(t.N(1 << 30)), -int64(t.N(1 << 30)), 500_000_000_000})
	m.cur, m.orig, m.warmSlots, m.transient = map[tosca.Key]tosca.Word{}, map[tosca.Key]tosca.Word{}, map[tosca.Key]bool{}, map[tosca.Key]tosca.Word{}
	for i := t.N(4); i > 0; i-- {
		k := m.keyOf(t)
		v := tosca.Word(smallWord(t))
		if t.Chance(5, 6) {
			m.orig[k] = v
		}
		if t.Bool() {
			v = tosca.Word(smallWord(t))
		}
		if t.Chance(5, 6) {
			m.cur[k] = v
		}
		if t.Bool() {
			m.warmSlots[k] = true
		}
		if t.Bool() {
			m.transient[k] = tosca.Word(smallWord(t))
		}
	}
	for _, k := range append(slices.Collect(maps.Keys(m.cur)), slices.Collect(maps.Keys(m.orig))...) {
		if m.cur[k] != m.orig[k] {
			m.warmSlots[k] = true // a transaction can only change a slot by accessing it
		}
	}
	m.accounts, m.warm = map[tosca.Address]acct{}, map[tosca.Address]bool{}
	for _, a := range pool {
		if t.Bool() {
			m.accounts[a] = acct{smallWord(t), contract(t)}
		}
		if t.Bool() {
			m.warm[a] = true
		}
	}
	if t.Chance(2, 3) { // can afford transfers
		m.accounts[m.call.AccountAddress] = acct{gen.Word(t), contract(t)}
	}
	for i := t.N(3); i > 0; i-- {
		l := mLog{data: string(t.Bytes(t.N(20)))}
		for j := t.N(5); j > 0; j-- {
			w := gen.Word(t)
			l.topics += string(w[:])
		}
		m.logs = append(m.logs, l)
	}
	for i := t.N(3); i > 0; i-- {
		m.future = append(m.future, st.FutureCall{Success: t.Bool(), Output: NewBytes(t.Bytes(t.N(2) * t.N(100))),
			GasCosts: tosca.Gas(pbt.Pick(t, []int64{0, int64(t.N(3000)), int64(t.N(1000000)), 1 << 62})), GasRefund: tosca.Gas(int64(t.N(20000)) - 10000), CreatedAccount: poolAddr(t)})
	}
	if t.Chance(1, 4) {
		m.past = append(m.past, st.PastCall{Kind: tosca.Call, Recipient: poolAddr(t), Sender: poolAddr(t), Input: NewBytes(t.Bytes(t.N(9))), Gas: tosca.Gas(t.N(1000))})
	}
	m.destructed = t.Chance(1, 4)
	if m.destructed {
		m.journal = append(m.journal, [2]tosca.Address{poolAddr(t), poolAddr(t)})
	}
	h := gen.Word(t)
	m.hashes = make([]tosca.Hash, 256)
	for i := range m.hashes {
		m.hashes[i] = h
		m.hashes[i][31] ^= byte(i)
		m.hashes[i][3] ^= byte(i * 7)
	}
	// operands
	pops, pushes := ref.Usage(m.op)
	if m.op >= 0x80 && m.op <= 0x8f {
		pops = int(m.op) - 0x7f
	} else if m.op >= 0x90 && m.op <= 0x9f {
		pops = int(m.op) - 0x8e
	}
	size := pops
	switch t.Weighted(10, 2, 1, 1, 1) {
	case 0:
		size += t.N(5)
	case 1:
	case 2:
		size = max(0, pops-1)
	case 3:
		size = 1024 - t.N(3)
	case 4:
		size = min(1024, max(pops, 1024-pushes+pops))
	}
	m.stack = make([]*big.Int, size)
	deep := gen.WordBig(t)
	for i := range m.stack {
		if i < 18 {
			m.stack[size-1-i] = m.operand(t, m.op, i)
		} else {
			m.stack[size-1-i] = wrap(new(big.Int).Add(deep, big.NewInt(int64(i))))
		}
	}
	return m
}

const gasMax = 200_000_000 // buys about 10 MB of memory

// chooseGas sets an amount of gas around what the next instruction needs. It returns false if that is beyond the harness' limits.
func (m *model) chooseGas(t *pbt.T) bool {
	used := int64(0)
	fails := func(g int64) (bool, bool) {
		c := m.clone()
		c.gas = g
		ok := c.step(1, 12<<20)
		used = g - c.gas
		return ok && c.status == st.Failed, ok
	}
	bad, ok := fails(gasMax)
	if !ok {
		return false
	}
	if bad {
		m.gas = pbt.Pick(t, []int64{gasMax, int64(t.N(100000)), 0, 2300})
		return true
	}
	lo, hi := int64(-1), int64(gasMax)
	if n := used; m.op < 0xf0 && n >= 0 { // no 63/64 rule: the amount used suffices
		if b, _ := fails(n); !b {
			hi = n
			if n == 0 {
				lo = -1
			} else if b, _ := fails(n - 1); b {
				lo = n - 1
			}
		} else if b, _ := fails(2301); !b {
			hi, lo = 2301, 2300
		}
	}
	for hi-lo > 1 {
		mid := lo + (hi-lo)/2
		if b, _ := fails(mid); b {
			lo = mid
		} else {
			hi = mid
		}
	}
	switch t.Weighted(3, 3, 3, 3, 2, 1) {
	case 0:
		m.gas = hi
	case 1:
		m.gas = max(0, hi-1)
	case 2:
		m.gas = hi + 1
	case 3:
		m.gas = hi + int64(t.N(1000))
	case 4:
		m.gas = hi + int64(t.N(10_000_000))
	case 5:
		m.gas = int64(t.N(int(hi) + 1))
	}
	return true
}
