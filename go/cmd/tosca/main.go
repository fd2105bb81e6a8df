// Property checks for go/tosca and go/tosca/vm.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"unicode"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
	"verif/gen"
	"verif/pbt"
)

func main() {
	pbt.Main(map[string]pbt.Check{
		"go-opcodes":     goOpCodes,
		"go-code-walk":   goCodeWalk,
		"value-arith":    valueArith,
		"encodings":      encodings,
		"storage-status": storageStatus,
		"size-in-words":  sizeInWords,
		"registry":       registry,
		"proc-registry":  procRegistry,
	})
}

// ---------------------------------------------------------------- op codes

// An independent catalogue: name -> byte, following the yellow paper and EIPs up to Cancun.
var catalog = func() map[byte]string {
	m := map[byte]string{}
	put := func(base int, names string) {
		for i, n := range strings.Fields(names) {
			m[byte(base+i)] = n
		}
	}
	put(0x00, "STOP ADD MUL SUB DIV SDIV MOD SMOD ADDMOD MULMOD EXP SIGNEXTEND")
	put(0x10, "LT GT SLT SGT EQ ISZERO AND OR XOR NOT BYTE SHL SHR SAR")
	put(0x20, "SHA3")
	put(0x30, "ADDRESS BALANCE ORIGIN CALLER CALLVALUE CALLDATALOAD CALLDATASIZE CALLDATACOPY CODESIZE CODECOPY GASPRICE EXTCODESIZE EXTCODECOPY RETURNDATASIZE RETURNDATACOPY EXTCODEHASH")
	put(0x40, "BLOCKHASH COINBASE TIMESTAMP NUMBER PREVRANDAO GASLIMIT CHAINID SELFBALANCE BASEFEE BLOBHASH BLOBBASEFEE")
	put(0x50, "POP MLOAD MSTORE MSTORE8 SLOAD SSTORE JUMP JUMPI PC MSIZE GAS JUMPDEST TLOAD TSTORE MCOPY PUSH0")
	for i := 1; i <= 32; i++ {
		m[byte(0x5f+i)] = fmt.Sprintf("PUSH%d", i)
	}
	for i := 1; i <= 16; i++ {
		m[byte(0x7f+i)] = fmt.Sprintf("DUP%d", i)
		m[byte(0x8f+i)] = fmt.Sprintf("SWAP%d", i)
	}
	for i := 0; i <= 4; i++ {
		m[byte(0xa0+i)] = fmt.Sprintf("LOG%d", i)
	}
	put(0xf0, "CREATE CALL CALLCODE RETURN DELEGATECALL CREATE2")
	m[0xfa], m[0xfd], m[0xfe], m[0xff] = "STATICCALL", "REVERT", "INVALID", "SELFDESTRUCT"
	return m
}()

var unknownName = regexp.MustCompile(`^op\(0x[0-9A-F]{2}\)$`)

func width(b byte) int {
	if b >= 0x60 && b <= 0x7f {
		return int(b) - 0x60 + 2
	}
	return 1
}

func goOpCodes(t *pbt.T) {
	b, c := t.Byte(), t.Byte()
	op := vm.OpCode(b)
	name, known := catalog[b]
	t.Sample(func() string {
		return fmt.Sprintf("byte 0x%02x: name %v valid %t width %d", b, op, vm.IsValid(op), op.Width())
	})
	if known {
		t.Check(op.String() == name, "name", "byte 0x%02x is printed as %q, expected %q", b, op.String(), name)
	} else {
		t.Check(op.String() == fmt.Sprintf("op(0x%02X)", b), "unknown-name", "byte 0x%02x is printed as %q", b, op.String())
	}
	t.Check(unknownName.MatchString(op.String()) == !known, "name-shape", "byte 0x%02x is printed as %q", b, op.String())
	valid := known && b != 0xfe
	t.Check(vm.IsValid(op) == valid, "valid", "validity of 0x%02x (%v) is %t, expected %t", b, op, vm.IsValid(op), valid)
	t.Check(op.Width() == width(b), "width", "width of 0x%02x (%v) is %d, expected %d", b, op, op.Width(), width(b))
	// names are injective
	if b != c {
		t.Check(op.String() != vm.OpCode(c).String(), "injective", "0x%02x and 0x%02x are both printed as %v", b, c, op)
	}
	// the list of non-push instructions is exactly the valid ones that are no push, sorted and unique;
	// and it is a fresh slice for every caller
	list := vm.ValidOpCodesNoPush()
	push := b >= 0x5f && b <= 0x7f
	n := 0
	for _, o := range list {
		if o == op {
			n++
		}
	}
	want := 0
	if valid && !push {
		want = 1
	}
	t.Check(n == want, "no-push-list", "0x%02x (%v) occurs %d times in the list of non-push instructions, expected %d", b, op, n, want)
	if len(list) > 0 {
		i := t.N(len(list))
		list[i] = vm.OpCode(c)
		again := vm.ValidOpCodesNoPush()
		t.Check(len(again) == len(list), "aliasing", "the list changed its length after a caller edited its copy")
		for j, o := range again {
			if j != i {
				t.Check(o == list[j], "aliasing", "the list depends on what a caller did to its own copy")
			}
		}
		t.Check(again[i] != list[i] || i < len(again), "aliasing", "edit visible")
		m := 0
		for _, o := range again {
			if o == op {
				m++
			}
		}
		t.Check(m == want, "aliasing", "an edit of a caller's copy of the list is visible to others (%v)", op)
	}
	// constants denote the standard bytes
	k := t.N(len(constants))
	e := constants[k]
	t.Check(byte(e.op) == e.want, "constant", "the constant for %s is 0x%02x, expected 0x%02x", e.name, byte(e.op), e.want)
	t.NonTrivial(uint64(b)<<8 | uint64(c))
	if known {
		t.Label("known")
	} else {
		t.Label("unknown")
	}
}

type constant struct {
	name string
	op   vm.OpCode
	want byte
}

var constants = []constant{
	{"STOP", vm.STOP, 0x00},
	{"ADD", vm.ADD, 0x01},
	{"MUL", vm.MUL, 0x02},
	{"SUB", vm.SUB, 0x03},
	{"DIV", vm.DIV, 0x04},
	{"SDIV", vm.SDIV, 0x05},
	{"MOD", vm.MOD, 0x06},
	{"SMOD", vm.SMOD, 0x07},
	{"ADDMOD", vm.ADDMOD, 0x08},
	{"MULMOD", vm.MULMOD, 0x09},
	{"EXP", vm.EXP, 0x0a},
	{"SIGNEXTEND", vm.SIGNEXTEND, 0x0b},
	{"LT", vm.LT, 0x10},
	{"GT", vm.GT, 0x11},
	{"SLT", vm.SLT, 0x12},
	{"SGT", vm.SGT, 0x13},
	{"EQ", vm.EQ, 0x14},
	{"ISZERO", vm.ISZERO, 0x15},
	{"AND", vm.AND, 0x16},
	{"OR", vm.OR, 0x17},
	{"XOR", vm.XOR, 0x18},
	{"NOT", vm.NOT, 0x19},
	{"BYTE", vm.BYTE, 0x1a},
	{"SHL", vm.SHL, 0x1b},
	{"SHR", vm.SHR, 0x1c},
	{"SAR", vm.SAR, 0x1d},
	{"SHA3", vm.SHA3, 0x20},
	{"ADDRESS", vm.ADDRESS, 0x30},
	{"BALANCE", vm.BALANCE, 0x31},
	{"ORIGIN", vm.ORIGIN, 0x32},
	{"CALLER", vm.CALLER, 0x33},
	{"CALLVALUE", vm.CALLVALUE, 0x34},
	{"CALLDATALOAD", vm.CALLDATALOAD, 0x35},
	{"CALLDATASIZE", vm.CALLDATASIZE, 0x36},
	{"CALLDATACOPY", vm.CALLDATACOPY, 0x37},
	{"CODESIZE", vm.CODESIZE, 0x38},
	{"CODECOPY", vm.CODECOPY, 0x39},
	{"GASPRICE", vm.GASPRICE, 0x3a},
	{"EXTCODESIZE", vm.EXTCODESIZE, 0x3b},
	{"EXTCODECOPY", vm.EXTCODECOPY, 0x3c},
	{"RETURNDATASIZE", vm.RETURNDATASIZE, 0x3d},
	{"RETURNDATACOPY", vm.RETURNDATACOPY, 0x3e},
	{"EXTCODEHASH", vm.EXTCODEHASH, 0x3f},
	{"BLOCKHASH", vm.BLOCKHASH, 0x40},
	{"COINBASE", vm.COINBASE, 0x41},
	{"TIMESTAMP", vm.TIMESTAMP, 0x42},
	{"NUMBER", vm.NUMBER, 0x43},
	{"PREVRANDAO", vm.PREVRANDAO, 0x44},
	{"GASLIMIT", vm.GASLIMIT, 0x45},
	{"CHAINID", vm.CHAINID, 0x46},
	{"SELFBALANCE", vm.SELFBALANCE, 0x47},
	{"BASEFEE", vm.BASEFEE, 0x48},
	{"BLOBHASH", vm.BLOBHASH, 0x49},
	{"BLOBBASEFEE", vm.BLOBBASEFEE, 0x4a},
	{"POP", vm.POP, 0x50},
	{"MLOAD", vm.MLOAD, 0x51},
	{"MSTORE", vm.MSTORE, 0x52},
	{"MSTORE8", vm.MSTORE8, 0x53},
	{"SLOAD", vm.SLOAD, 0x54},
	{"SSTORE", vm.SSTORE, 0x55},
	{"JUMP", vm.JUMP, 0x56},
	{"JUMPI", vm.JUMPI, 0x57},
	{"PC", vm.PC, 0x58},
	{"MSIZE", vm.MSIZE, 0x59},
	{"GAS", vm.GAS, 0x5a},
	{"JUMPDEST", vm.JUMPDEST, 0x5b},
	{"TLOAD", vm.TLOAD, 0x5c},
	{"TSTORE", vm.TSTORE, 0x5d},
	{"MCOPY", vm.MCOPY, 0x5e},
	{"PUSH0", vm.PUSH0, 0x5f},
	{"PUSH1", vm.PUSH1, 0x60},
	{"PUSH2", vm.PUSH2, 0x61},
	{"PUSH3", vm.PUSH3, 0x62},
	{"PUSH4", vm.PUSH4, 0x63},
	{"PUSH5", vm.PUSH5, 0x64},
	{"PUSH6", vm.PUSH6, 0x65},
	{"PUSH7", vm.PUSH7, 0x66},
	{"PUSH8", vm.PUSH8, 0x67},
	{"PUSH9", vm.PUSH9, 0x68},
	{"PUSH10", vm.PUSH10, 0x69},
	{"PUSH11", vm.PUSH11, 0x6a},
	{"PUSH12", vm.PUSH12, 0x6b},
	{"PUSH13", vm.PUSH13, 0x6c},
	{"PUSH14", vm.PUSH14, 0x6d},
	{"PUSH15", vm.PUSH15, 0x6e},
	{"PUSH16", vm.PUSH16, 0x6f},
	{"PUSH17", vm.PUSH17, 0x70},
	{"PUSH18", vm.PUSH18, 0x71},
	{"PUSH19", vm.PUSH19, 0x72},
	{"PUSH20", vm.PUSH20, 0x73},
	{"PUSH21", vm.PUSH21, 0x74},
	{"PUSH22", vm.PUSH22, 0x75},
	{"PUSH23", vm.PUSH23, 0x76},
	{"PUSH24", vm.PUSH24, 0x77},
	{"PUSH25", vm.PUSH25, 0x78},
	{"PUSH26", vm.PUSH26, 0x79},
	{"PUSH27", vm.PUSH27, 0x7a},
	{"PUSH28", vm.PUSH28, 0x7b},
	{"PUSH29", vm.PUSH29, 0x7c},
	{"PUSH30", vm.PUSH30, 0x7d},
	{"PUSH31", vm.PUSH31, 0x7e},
	{"PUSH32", vm.PUSH32, 0x7f},
	{"DUP1", vm.DUP1, 0x80},
	{"SWAP1", vm.SWAP1, 0x90},
	{"DUP2", vm.DUP2, 0x81},
	{"SWAP2", vm.SWAP2, 0x91},
	{"DUP3", vm.DUP3, 0x82},
	{"SWAP3", vm.SWAP3, 0x92},
	{"DUP4", vm.DUP4, 0x83},
	{"SWAP4", vm.SWAP4, 0x93},
	{"DUP5", vm.DUP5, 0x84},
	{"SWAP5", vm.SWAP5, 0x94},
	{"DUP6", vm.DUP6, 0x85},
	{"SWAP6", vm.SWAP6, 0x95},
	{"DUP7", vm.DUP7, 0x86},
	{"SWAP7", vm.SWAP7, 0x96},
	{"DUP8", vm.DUP8, 0x87},
	{"SWAP8", vm.SWAP8, 0x97},
	{"DUP9", vm.DUP9, 0x88},
	{"SWAP9", vm.SWAP9, 0x98},
	{"DUP10", vm.DUP10, 0x89},
	{"SWAP10", vm.SWAP10, 0x99},
	{"DUP11", vm.DUP11, 0x8a},
	{"SWAP11", vm.SWAP11, 0x9a},
	{"DUP12", vm.DUP12, 0x8b},
	{"SWAP12", vm.SWAP12, 0x9b},
	{"DUP13", vm.DUP13, 0x8c},
	{"SWAP13", vm.SWAP13, 0x9c},
	{"DUP14", vm.DUP14, 0x8d},
	{"SWAP14", vm.SWAP14, 0x9d},
	{"DUP15", vm.DUP15, 0x8e},
	{"SWAP15", vm.SWAP15, 0x9e},
	{"DUP16", vm.DUP16, 0x8f},
	{"SWAP16", vm.SWAP16, 0x9f},
	{"LOG0", vm.LOG0, 0xa0},
	{"LOG1", vm.LOG1, 0xa1},
	{"LOG2", vm.LOG2, 0xa2},
	{"LOG3", vm.LOG3, 0xa3},
	{"LOG4", vm.LOG4, 0xa4},
	{"CREATE", vm.CREATE, 0xf0},
	{"CALL", vm.CALL, 0xf1},
	{"CALLCODE", vm.CALLCODE, 0xf2},
	{"RETURN", vm.RETURN, 0xf3},
	{"DELEGATECALL", vm.DELEGATECALL, 0xf4},
	{"CREATE2", vm.CREATE2, 0xf5},
	{"STATICCALL", vm.STATICCALL, 0xfa},
	{"REVERT", vm.REVERT, 0xfd},
	{"INVALID", vm.INVALID, 0xfe},
	{"SELFDESTRUCT", vm.SELFDESTRUCT, 0xff},
}

// Walking code by instruction width visits exactly the instruction starts.
func goCodeWalk(t *pbt.T) {
	n := t.N(120)
	code := []byte{}
	for len(code) < n {
		switch t.Weighted(3, 3, 2) {
		case 0:
			code = append(code, t.Byte())
		case 1:
			code = append(code, byte(0x5e+t.N(36)))
		case 2:
			code = append(code, 0x5b)
		}
	}
	isStart := make([]bool, len(code))
	skip := 0
	for i, b := range code {
		if skip > 0 {
			skip--
			continue
		}
		isStart[i] = true
		if b >= 0x60 && b < 0x80 {
			skip = int(b - 0x5f)
		}
	}
	visited := make([]bool, len(code))
	steps := 0
	for i := 0; i < len(code); i += vm.OpCode(code[i]).Width() {
		visited[i] = true
		steps++
		t.Check(steps <= len(code), "progress", "walk does not advance over %x", code)
	}
	t.Check(slices.Equal(visited, isStart), "walk", "walking %x visits %v, expected %v", code, visited, isStart)
	t.Sample(func() string { return fmt.Sprintf("code %x: %d instructions", code, steps) })
	if steps < len(code) {
		t.NonTrivial(pbt.Hash(code))
	}
}

// ---------------------------------------------------------------- values

func toBig(v tosca.Value) *big.Int { return new(big.Int).SetBytes(v[:]) }

func valueArith(t *pbt.T) {
	a, b := tosca.Value(gen.Word(t)), tosca.Value(gen.Word(t))
	if t.Chance(1, 4) { // related operands
		b = a
		b[t.N(32)] ^= 1 << t.N(8)
	}
	s := gen.U64(t)
	A, B := toBig(a), toBig(b)
	t.Sample(func() string { return fmt.Sprintf("a=%x b=%x s=%d", a[:], b[:], s) })
	t.NonTrivial(pbt.Hash(append(append([]byte{}, a[:]...), b[:]...)) ^ pbt.Mix(s))
	eq := func(sig string, got tosca.Value, want *big.Int) {
		t.Check(toBig(got).Cmp(gen.Mod256(want)) == 0, sig, "%s: a=%x b=%x s=%d: got %x, expected %x", sig, a[:], b[:], s, got[:], gen.Mod256(want))
	}
	eq("add", tosca.Add(a, b), new(big.Int).Add(A, B))
	sub := new(big.Int).Sub(A, B)
	eq("sub", tosca.Sub(a, b), sub.Mod(sub, gen.Pow2(256)))
	eq("scale", a.Scale(s), new(big.Int).Mul(A, new(big.Int).SetUint64(s)))
	t.Check(a.Cmp(b) == A.Cmp(B), "cmp", "Cmp(%x,%x)=%d, expected %d", a[:], b[:], a.Cmp(b), A.Cmp(B))
	t.Check(a.ToBig().Cmp(A) == 0, "to-big", "ToBig(%x)=%v", a[:], a.ToBig())
	t.Check(a.ToUint256().ToBig().Cmp(A) == 0, "to-uint256", "ToUint256(%x)=%v", a[:], a.ToUint256())
	t.Check(tosca.ValueFromUint256(a.ToUint256()) == a, "uint256-round-trip", "ValueFromUint256(ToUint256(%x)) differs", a[:])
	t.Check(a.String() == A.String(), "decimal", "String(%x)=%v, expected %v", a[:], a.String(), A)
	t.Check(tosca.ValueFromUint256(nil) == tosca.Value{}, "nil", "ValueFromUint256(nil) is not zero")
	// algebraic laws
	t.Check(tosca.Sub(tosca.Add(a, b), b) == a, "sub-inverts-add", "(a+b)-b != a for a=%x b=%x", a[:], b[:])
	t.Check(tosca.Add(a, b) == tosca.Add(b, a), "add-commutes", "a+b != b+a for a=%x b=%x", a[:], b[:])
	// conversions return independent objects
	big1 := a.ToBig()
	big1.Add(big1, big.NewInt(1))
	u := a.ToUint256()
	u.AddUint64(u, 1)
	t.Check(a.ToBig().Cmp(A) == 0 && a.ToUint256().ToBig().Cmp(A) == 0, "aliasing", "a converted value changed under a caller's edit")
	// construction from words
	n := t.N(5)
	args := make([]uint64, n)
	want := new(big.Int)
	for i := range args {
		args[i] = gen.U64(t)
		want.Lsh(want, 64)
		want.Or(want, new(big.Int).SetUint64(args[i]))
	}
	got := tosca.NewValue(args...)
	t.Check(toBig(got).Cmp(want) == 0, "new-value", "NewValue(%x) = %x", args, got[:])
	t.Labelf("words-%d", n)
}

// ---------------------------------------------------------------- encodings

func encodings(t *pbt.T) {
	switch t.N(6) {
	case 0:
		var v tosca.Value = gen.Word(t)
		txt, err := v.MarshalText()
		t.Check(err == nil && string(txt) == "0x"+hex.EncodeToString(v[:]), "value-text", "%x -> %s, %v", v[:], txt, err)
		var back tosca.Value
		t.Check(back.UnmarshalText(txt) == nil && back == v, "value-round-trip", "%s -> %x", txt, back[:])
		js, err := json.Marshal(v)
		var back2 tosca.Value
		t.Check(err == nil && json.Unmarshal(js, &back2) == nil && back2 == v, "value-json-round-trip", "%s", js)
		t.NonTrivial(pbt.Hash(v[:]))
		t.Label("value")
		t.Sample(func() string { return fmt.Sprintf("value %s", txt) })
	case 1:
		var a tosca.Address
		copy(a[:], t.Bytes(20))
		if t.Bool() {
			w := gen.Word(t)
			copy(a[:], w[12:])
		}
		txt, err := a.MarshalText()
		t.Check(err == nil && string(txt) == "0x"+hex.EncodeToString(a[:]), "address-text", "%x -> %s, %v", a[:], txt, err)
		t.Check(a.String() == string(txt), "address-string", "%v vs %s", a, txt)
		var back tosca.Address
		t.Check(back.UnmarshalText(txt) == nil && back == a, "address-round-trip", "%s -> %x", txt, back[:])
		js, err := json.Marshal(map[tosca.Address]tosca.Value{a: {1}})
		var m map[tosca.Address]tosca.Value
		t.Check(err == nil && json.Unmarshal(js, &m) == nil && len(m) == 1 && m[a] == tosca.Value{1}, "address-json-key", "%s", js)
		t.NonTrivial(pbt.Hash(a[:]))
		t.Label("address")
		t.Sample(func() string { return fmt.Sprintf("address %s", txt) })
	case 2: // arbitrary text is decoded to exactly what it denotes, or rejected leaving the target untouched
		n := []int{20, 32}[t.N(2)]
		var s string
		switch t.Weighted(3, 2, 2, 2, 1, 1) {
		case 0:
			s = "0x" + hex.EncodeToString(t.Bytes(n))
			if t.Bool() {
				i := 2 + t.N(len(s)-2)
				s = s[:i] + string("gGzZ xX-+.0"[t.N(11)]) + s[i+1:]
			}
		case 1:
			s = "0x" + hex.EncodeToString(t.Bytes(n+t.N(5)-2))
		case 2:
			s = hex.EncodeToString(t.Bytes(n))
		case 3:
			s = "0X" + hex.EncodeToString(t.Bytes(n))
		case 4:
			s = string(t.Bytes(t.N(70)))
		case 5:
			s = "0x" + strings.ToUpper(hex.EncodeToString(t.Bytes(n))) + strings.Repeat("0", t.N(2))
		}
		data, herr := hex.DecodeString(strings.TrimPrefix(s, "0x"))
		ok := strings.HasPrefix(s, "0x") && herr == nil && len(data) == n
		old := bytes.Repeat([]byte{0xAB}, n)
		var got []byte
		var err error
		in := []byte(s)
		if n == 20 {
			a := tosca.Address(old)
			err = a.UnmarshalText(in)
			got = a[:]
		} else {
			v := tosca.Value(old)
			err = v.UnmarshalText(in)
			got = v[:]
		}
		t.Check(string(in) == s, "input-modified", "decoding %q edited its input", s)
		t.Check((err == nil) == ok, "text-acceptance", "decoding %q into %d bytes: error %v, expected acceptance %t", s, n, err, ok)
		if ok {
			t.Check(bytes.Equal(got, data), "text-value", "decoding %q gave %x", s, got)
			t.Label("text-accepted")
		} else {
			t.Check(bytes.Equal(got, old), "text-partial", "a rejected decoding of %q changed the target to %x", s, got)
			t.Label("text-rejected")
		}
		t.NonTrivial(pbt.HashString(s))
		t.Sample(func() string { return fmt.Sprintf("text %q into %d bytes: accepted %t", s, n, ok) })
	case 3: // revisions
		r := tosca.Revision(t.N(12))
		if t.Chance(1, 4) {
			r = tosca.Revision(t.Draw(1 << 62))
		}
		js, err := json.Marshal(r)
		var back tosca.Revision
		t.Check(err == nil && json.Unmarshal(js, &back) == nil && back == r, "revision-round-trip", "%d -> %s -> %d", int(r), js, int(back))
		names := []string{"Istanbul", "Berlin", "London", "Paris", "Shanghai", "Cancun"}
		all := tosca.GetAllKnownRevisions()
		t.Check(len(all) == len(names), "revision-count", "%v", all)
		for i, x := range all {
			t.Check(int(x) == i && x.String() == names[i], "revision-names", "revision %d is printed as %v", i, x)
		}
		o := tosca.Revision(t.N(12))
		t.Check((o.String() == r.String()) == (o == r), "revision-injective", "%d and %d are both printed as %v", int(o), int(r), r)
		t.NonTrivial(uint64(r))
		t.Label("revision")
		t.Sample(func() string { return fmt.Sprintf("revision %s", js) })
	case 4: // call kinds
		k := tosca.CallKind(t.N(9) - 1)
		js, err := json.Marshal(k)
		if k >= 0 && k < 6 {
			want := []string{"call", "delegate_call", "static_call", "call_code", "create", "create2"}[k]
			t.Check(err == nil && string(js) == `"`+want+`"` && k.String() == want, "kind-name", "%d -> %s %v", int(k), js, err)
			// case-insensitive
			bs := []byte(js)
			for i := range bs {
				if t.Bool() {
					bs[i] = byte(unicode.ToUpper(rune(bs[i])))
				}
			}
			var back tosca.CallKind = 77
			err = json.Unmarshal(bs, &back)
			t.Check(err == nil && back == k, "kind-round-trip", "%d -> %s -> %d (%v)", int(k), bs, int(back), err)
			t.NonTrivial(pbt.Hash(bs))
		} else {
			t.Check(err != nil, "kind-invalid", "invalid call kind %d is encoded as %s", int(k), js)
			t.Check(k.String() == "unknown", "kind-invalid-name", "%d -> %v", int(k), k)
		}
		t.Label("call-kind")
		t.Sample(func() string { return fmt.Sprintf("call kind %d: %s", int(k), js) })
	case 5: // unknown call kinds and revisions are rejected
		s := pbt.Pick(t, []string{"calls", "", "call ", "staticcall", "create3", "Revision(", "Revision()", "istanbul", "Berlin ", "R13", "Revision(-1)", "Revision(x)", "Revision(99999999999999999999999)"})
		js, _ := json.Marshal(s)
		var k tosca.CallKind = 3
		t.Check(json.Unmarshal(js, &k) != nil, "kind-garbage", "%s accepted as %v", js, k)
		var r tosca.Revision = 3
		t.Check(json.Unmarshal(js, &r) != nil, "revision-garbage", "%s accepted as %v", js, r)
		t.NonTrivial(pbt.HashString(s))
		t.Label("garbage")
	}
}

// ---------------------------------------------------------------- storage status

func storageStatus(t *pbt.T) {
	pool := []tosca.Word{{}, gen.Word(t), gen.Word(t), gen.Word(t)}
	pool[2][t.N(32)] ^= 1 << t.N(8)
	o, c, n := pool[t.N(4)], pool[t.N(4)], pool[t.N(4)]
	zero := tosca.Word{}
	// X, Y, Z: pairwise distinct non-zero values; written as the published table.
	sym := map[tosca.Word]string{zero: "0"}
	next := 0
	name := func(w tosca.Word) string {
		if s, ok := sym[w]; ok {
			return s
		}
		s := string("ABC"[next])
		next++
		sym[w] = s
		return s
	}
	pattern := name(o) + name(c) + name(n)
	want, ok := map[string]tosca.StorageStatus{
		"00A": tosca.StorageAdded,
		"AA0": tosca.StorageDeleted,
		"AAB": tosca.StorageModified,
		"A0B": tosca.StorageDeletedAdded,
		"AB0": tosca.StorageModifiedDeleted,
		"A0A": tosca.StorageDeletedRestored,
		"0A0": tosca.StorageAddedDeleted,
		"ABA": tosca.StorageModifiedRestored,
		"000": tosca.StorageAssigned,
		"AAA": tosca.StorageAssigned,
		"A00": tosca.StorageAssigned,
		"0AA": tosca.StorageAssigned,
		"ABB": tosca.StorageAssigned,
		"0AB": tosca.StorageAssigned,
		"ABC": tosca.StorageAssigned,
	}[pattern]
	if !ok {
		panic("harness: pattern " + pattern)
	}
	got := tosca.GetStorageStatus(o, c, n)
	t.Sample(func() string { return fmt.Sprintf("%s: %x -> %x -> %x = %v", pattern, o[:], c[:], n[:], got) })
	t.Check(got == want, "status", "%x -> %x -> %x (%s) is %v, expected %v", o[:], c[:], n[:], pattern, got, want)
	t.Label(pattern)
	t.NonTrivial(pbt.Hash(append(append(append([]byte{}, o[:]...), c[:]...), n[:]...)))
	all := tosca.GetAllStorageStatuses()
	seen := map[tosca.StorageStatus]bool{}
	names := map[string]bool{}
	for _, s := range all {
		seen[s] = true
		names[s.String()] = true
	}
	t.Check(len(seen) == 9 && len(all) == 9 && len(names) == 9 && seen[got], "status-list", "%v", all)
}

func sizeInWords(t *pbt.T) {
	s := gen.U64(t)
	got := tosca.SizeInWords(s)
	want := new(big.Int).SetUint64(s)
	want.Add(want, big.NewInt(31))
	want.Div(want, big.NewInt(32))
	t.Sample(func() string { return fmt.Sprintf("size %d -> %d words", s, got) })
	t.Check(new(big.Int).SetUint64(got).Cmp(want) == 0, "words", "SizeInWords(%d) = %d, expected %v", s, got, want)
	t.NonTrivial(s)
}

// ---------------------------------------------------------------- registries

type dummy struct{ id int }

func (d *dummy) Run(tosca.Parameters) (tosca.Result, error) {
	return tosca.Result{GasLeft: tosca.Gas(d.id)}, nil
}

var uniq = 0

func mixCase(t *pbt.T, s string) string {
	b := []rune(s)
	for i := range b {
		if t.Bool() {
			b[i] = unicode.ToUpper(b[i])
		} else {
			b[i] = unicode.ToLower(b[i])
		}
	}
	return string(b)
}

func registry(t *pbt.T) {
	uniq++
	prefix := fmt.Sprintf("vt%d-", uniq)
	model := map[string]int{}
	type cfg struct{ c any }
	var lastCfg *cfg
	before := tosca.GetAllRegisteredInterpreters()
	ops := t.Range(1, 25)
	log := []string{}
	t.Sample(func() string { return strings.Join(log, "; ") })
	h := uint64(0)
	dup := 0
	for i := 0; i < ops; i++ {
		base := prefix + []string{"a", "b", "lfvm-si", "x-y-z", "ü"}[t.N(5)]
		name := mixCase(t, base)
		h = pbt.Mix(h ^ pbt.HashString(name[len(prefix):]) ^ uint64(i))
		key := strings.ToLower(name)
		_, exists := model[key]
		switch t.Weighted(4, 5, 1, 1, 2, 2) {
		case 0: // register
			id := i + 1
			err := tosca.RegisterInterpreterFactory(name, func(c any) (tosca.Interpreter, error) {
				lastCfg = &cfg{c}
				return &dummy{id}, nil
			})
			log = append(log, fmt.Sprintf("register %s -> %v", name, err))
			t.Check((err != nil) == exists, "register", "%s", strings.Join(log, "; "))
			if !exists {
				model[key] = id
			} else {
				dup++
			}
		case 1: // create
			var conf []any
			want := any(nil)
			n := t.N(4)
			for j := 0; j < n && j < 2; j++ {
				conf = append(conf, i*10+j)
			}
			if len(conf) > 0 {
				want = conf[0]
			}
			lastCfg = nil
			in, err := tosca.NewInterpreter(name, conf...)
			log = append(log, fmt.Sprintf("new %s (%d args) -> %v", name, len(conf), err))
			ok := exists && len(conf) <= 1
			t.Check((err == nil) == ok, "new", "%s", strings.Join(log, "; "))
			if ok {
				t.Check(in.(*dummy).id == model[key], "new-identity", "%s: got the implementation registered as #%d, expected #%d", strings.Join(log, "; "), in.(*dummy).id, model[key])
				t.Check(model[key] <= 0 || lastCfg != nil && lastCfg.c == want, "new-config", "%s: configuration not passed on", strings.Join(log, "; "))
			} else {
				t.Check(in == nil || err != nil, "new-error", "%s", strings.Join(log, "; "))
				t.Check(lastCfg == nil, "factory-called", "%s: the factory ran although the request was rejected", strings.Join(log, "; "))
			}
		case 2: // nil factory
			err := tosca.RegisterInterpreterFactory(name, nil)
			log = append(log, fmt.Sprintf("register-nil %s -> %v", name, err))
			t.Check(err != nil, "register-nil", "%s", strings.Join(log, "; "))
		case 3: // panicking variants
			panicked := func() (p bool) {
				defer func() { p = recover() != nil }()
				if t.Bool() {
					tosca.MustRegisterInterpreterFactory(name, func(any) (tosca.Interpreter, error) { return &dummy{-i}, nil })
				} else {
					tosca.RegisterInterpreter(name, &dummy{-i})
				}
				return
			}()
			log = append(log, fmt.Sprintf("must-register %s -> panic %t", name, panicked))
			t.Check(panicked == exists, "must-register", "%s", strings.Join(log, "; "))
			if !exists {
				model[key] = -i
			} else {
				dup++
			}
		case 4: // lookup
			f := tosca.GetInterpreterFactory(name)
			g := tosca.GetInterpreter(name)
			log = append(log, fmt.Sprintf("get %s -> %t", name, f != nil))
			t.Check((f != nil) == exists && (g != nil) == exists, "get", "%s", strings.Join(log, "; "))
			if exists {
				t.Check(g.(*dummy).id == model[key], "get-identity", "%s", strings.Join(log, "; "))
			}
		case 5: // the listing is a snapshot, complete, and detached
			all := tosca.GetAllRegisteredInterpreters()
			log = append(log, "list")
			got := []string{}
			for k := range all {
				if strings.HasPrefix(k, prefix) {
					got = append(got, k)
				}
			}
			want := []string{}
			for k := range model {
				want = append(want, k)
			}
			sort.Strings(got)
			sort.Strings(want)
			t.Check(slices.Equal(got, want), "list", "%s: listed %v, expected %v", strings.Join(log, "; "), got, want)
			for k := range before {
				_, ok := all[k]
				t.Check(ok, "list-lost", "%s: %s is gone", strings.Join(log, "; "), k)
			}
			all[key+"-injected"] = func(any) (tosca.Interpreter, error) { return &dummy{-99}, nil }
			delete(all, key)
			t.Check((tosca.GetInterpreterFactory(key) != nil) == exists, "list-aliasing", "%s: editing a listing affects the registry", strings.Join(log, "; "))
			t.Check(tosca.GetInterpreterFactory(key+"-injected") == nil, "list-aliasing", "%s: editing a listing affects the registry", strings.Join(log, "; "))
		}
	}
	// concurrent registration of one name: exactly one wins, and it is the one found
	if t.Chance(1, 4) {
		name := prefix + "race"
		n := t.Range(2, 6)
		res := make([]error, n)
		names := make([]string, n)
		for i := range names {
			names[i] = mixCase(t, name)
		}
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				res[i] = tosca.RegisterInterpreterFactory(names[i], func(any) (tosca.Interpreter, error) { return &dummy{i}, nil })
				_ = tosca.GetAllRegisteredInterpreters()
				_, _ = tosca.NewInterpreter(name)
			}()
		}
		wg.Wait()
		winners := []int{}
		for i, e := range res {
			if e == nil {
				winners = append(winners, i)
			}
		}
		t.Check(len(winners) == 1, "race-winners", "%d of %d concurrent registrations of one name succeeded", len(winners), n)
		in, err := tosca.NewInterpreter(name)
		t.Check(err == nil && in.(*dummy).id == winners[0], "race-identity", "the registered implementation is not the winner's")
		t.Label("concurrent")
	}
	if dup > 0 {
		t.Label("duplicate")
		t.NonTrivial(h)
	}
}

type proc struct {
	id int
	in tosca.Interpreter
}

func (*proc) Run(tosca.BlockParameters, tosca.Transaction, tosca.TransactionContext) (tosca.Receipt, error) {
	return tosca.Receipt{}, nil
}

func procRegistry(t *pbt.T) {
	uniq++
	prefix := fmt.Sprintf("vp%d-", uniq)
	model := map[string]int{}
	log := []string{}
	t.Sample(func() string { return strings.Join(log, "; ") })
	dup := 0
	h := uint64(7)
	for i, n := 0, t.Range(1, 20); i < n; i++ {
		name := mixCase(t, prefix+[]string{"a", "floria", "x-y"}[t.N(3)])
		key := strings.ToLower(name)
		h = pbt.Mix(h ^ pbt.HashString(name[len(prefix):]))
		_, exists := model[key]
		switch t.Weighted(3, 4, 1, 1) {
		case 0:
			id := i + 1
			panicked := func() (p bool) {
				defer func() { p = recover() != nil }()
				tosca.RegisterProcessorFactory(name, func(in tosca.Interpreter) tosca.Processor { return &proc{id, in} })
				return
			}()
			log = append(log, fmt.Sprintf("register %s -> panic %t", name, panicked))
			t.Check(panicked == exists, "register", "%s", strings.Join(log, "; "))
			if exists {
				dup++
			} else {
				model[key] = id
			}
		case 1:
			in := &dummy{i}
			p := tosca.GetProcessor(name, in)
			log = append(log, fmt.Sprintf("get %s -> %t", name, p != nil))
			t.Check((p != nil) == exists && (tosca.GetProcessorFactory(name) != nil) == exists, "get", "%s", strings.Join(log, "; "))
			if exists {
				t.Check(p.(*proc).id == model[key] && p.(*proc).in == tosca.Interpreter(in), "get-identity", "%s", strings.Join(log, "; "))
			}
		case 2:
			panicked := func() (p bool) {
				defer func() { p = recover() != nil }()
				tosca.RegisterProcessorFactory(name, nil)
				return
			}()
			log = append(log, "register nil "+name)
			t.Check(panicked, "register-nil", "%s", strings.Join(log, "; "))
		case 3:
			all := tosca.GetAllRegisteredProcessorFactories()
			cnt := 0
			for k := range all {
				if strings.HasPrefix(k, prefix) {
					cnt++
					_, ok := model[k]
					t.Check(ok, "list", "%s: %s listed", strings.Join(log, "; "), k)
				}
			}
			log = append(log, "list")
			t.Check(cnt == len(model), "list", "%s: %d listed, expected %d", strings.Join(log, "; "), cnt, len(model))
			delete(all, key)
			t.Check((tosca.GetProcessorFactory(key) != nil) == exists, "list-aliasing", "%s", strings.Join(log, "; "))
		}
	}
	if dup > 0 {
		t.Label("duplicate")
		t.NonTrivial(h)
	}
}
