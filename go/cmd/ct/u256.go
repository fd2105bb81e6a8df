package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	. "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"pgregory.net/rand"

	"verif/gen"
	"verif/pbt"
)

var two256 = gen.Pow2(256)
var two255 = gen.Pow2(255)

func toU(v *big.Int) (r U256) {
	var b [32]byte
	v.FillBytes(b[:])
	return NewU256FromBytes(b[:]...)
}

func fromU(v U256) *big.Int {
	b := v.Bytes32be()
	return new(big.Int).SetBytes(b[:])
}

func signed(v *big.Int) *big.Int {
	if v.Cmp(two255) >= 0 {
		return new(big.Int).Sub(v, two256)
	}
	return new(big.Int).Set(v)
}

func wrap(v *big.Int) *big.Int { return new(big.Int).Mod(v, two256) }

func related(t *pbt.T, a *big.Int) *big.Int {
	switch t.Weighted(5, 1, 1, 1) {
	case 0:
		return gen.WordBig(t)
	case 1:
		return new(big.Int).Set(a)
	case 2:
		return wrap(new(big.Int).Add(a, big.NewInt(int64(t.N(5)-2))))
	default:
		return wrap(new(big.Int).Neg(a))
	}
}

// u256Arith: every operation equals the one on integers modulo 2^256.
func u256Arith(t *pbt.T) {
	a := gen.WordBig(t)
	b, m := related(t, a), gen.WordBig(t)
	if t.Chance(1, 3) {
		b = big.NewInt(int64(t.N(300)))
	}
	ua, ub, um := toU(a), toU(b), toU(m)
	t.Sample(func() string { return fmt.Sprintf("a = %x, b = %x, m = %x", a, b, m) })
	if a.Sign() != 0 && b.Sign() != 0 {
		t.NonTrivial(a.Uint64()*31 + b.Uint64() + pbt.Hash(a.Bytes()) + 7*pbt.Hash(b.Bytes()))
	}
	eq := func(name string, got U256, want *big.Int) {
		if fromU(got).Cmp(want) != 0 {
			t.Failf(name, "%s of %x, %x, %x is %v, expected %x", name, a, b, m, got, want)
		}
	}
	is := func(name string, got, want bool) {
		t.Check(got == want, name, "%s of %x, %x is %t, expected %t", name, a, b, got, want)
	}
	n := func() *big.Int { return new(big.Int) }
	zero := big.NewInt(0)
	orZero := func(d *big.Int, f func() *big.Int) *big.Int {
		if d.Sign() == 0 {
			return zero
		}
		return f()
	}
	sa, sb := signed(a), signed(b)
	eq("Add", ua.Add(ub), wrap(n().Add(a, b)))
	eq("Sub", ua.Sub(ub), wrap(n().Sub(a, b)))
	eq("Mul", ua.Mul(ub), wrap(n().Mul(a, b)))
	eq("Div", ua.Div(ub), orZero(b, func() *big.Int { return n().Quo(a, b) }))
	eq("Mod", ua.Mod(ub), orZero(b, func() *big.Int { return n().Rem(a, b) }))
	eq("SDiv", ua.SDiv(ub), orZero(b, func() *big.Int { return wrap(n().Quo(sa, sb)) }))
	eq("SMod", ua.SMod(ub), orZero(b, func() *big.Int { return wrap(n().Rem(sa, sb)) }))
	eq("AddMod", ua.AddMod(ub, um), orZero(m, func() *big.Int { return n().Mod(n().Add(a, b), m) }))
	eq("MulMod", ua.MulMod(ub, um), orZero(m, func() *big.Int { return n().Mod(n().Mul(a, b), m) }))
	eq("Exp", ua.Exp(ub), n().Exp(a, b, two256))
	eq("And", ua.And(ub), n().And(a, b))
	eq("Or", ua.Or(ub), n().Or(a, b))
	eq("Xor", ua.Xor(ub), n().Xor(a, b))
	eq("Not", ua.Not(), n().Sub(n().Sub(two256, big.NewInt(1)), a))
	shift := uint(256)
	if b.Cmp(big.NewInt(256)) < 0 {
		shift = uint(b.Uint64())
	}
	eq("Shl", ua.Shl(ub), wrap(n().Lsh(a, shift)))
	eq("Shr", ua.Shr(ub), n().Rsh(a, shift))
	eq("Srsh", ua.Srsh(ub), wrap(n().Rsh(sa, shift)))
	ext := a
	if b.Cmp(big.NewInt(31)) < 0 {
		k := uint(8*b.Uint64() + 8)
		ext = n().And(a, n().Sub(gen.Pow2(k), big.NewInt(1)))
		if ext.Bit(int(k-1)) == 1 {
			ext = wrap(n().Sub(ext, gen.Pow2(k)))
		}
	}
	eq("SignExtend", ua.SignExtend(ub), ext)
	is("Eq", ua.Eq(ub), a.Cmp(b) == 0)
	is("Ne", ua.Ne(ub), a.Cmp(b) != 0)
	is("Lt", ua.Lt(ub), a.Cmp(b) < 0)
	is("Gt", ua.Gt(ub), a.Cmp(b) > 0)
	is("Slt", ua.Slt(ub), sa.Cmp(sb) < 0)
	is("Sgt", ua.Sgt(ub), sa.Cmp(sb) > 0)
	is("==", ua == ub, a.Cmp(b) == 0)
	is("IsZero", ua.IsZero(), a.Sign() == 0)
	is("IsUint64", ua.IsUint64(), a.IsUint64())
	t.Check(ua.Uint64() == n().And(a, n().SetUint64(^uint64(0))).Uint64(), "Uint64", "low bits of %x are %x", a, ua.Uint64())
	eq("unchanged", ua, a)
	eq("unchanged", ub, b)
	eq("MaxU256", MaxU256(), n().Sub(two256, big.NewInt(1)))
}

// u256Codec: constructors, conversions and the text form.
func u256Codec(t *pbt.T) {
	a := gen.WordBig(t)
	u := toU(a)
	t.Sample(func() string { return fmt.Sprintf("%x as %v", a, u) })
	if a.BitLen() > 64 {
		t.NonTrivial(pbt.Hash(a.Bytes()))
	}
	same := func(sig string, got U256) {
		t.Check(fromU(got).Cmp(a) == 0 && got == u, sig, "%x comes back as %v (%s)", a, got, sig)
	}
	var limbs [4]uint64
	for i := range limbs {
		limbs[i] = new(big.Int).Rsh(a, uint(192-64*i)).Uint64()
	}
	drop := 0
	for drop < 4 && limbs[drop] == 0 {
		drop++
	}
	same("limbs", NewU256(limbs[t.N(drop+1):]...))
	same("big", NewU256FromBigInt(a))
	t.Check(u.ToBigInt().Cmp(a) == 0, "to-big", "%x becomes %x", a, u.ToBigInt())
	raw := a.Bytes()
	same("bytes", NewU256FromBytes(raw...))
	x := u.Uint256()
	same("uint256", NewU256FromUint256(&x))
	b20 := u.Bytes20be()
	b32 := u.Bytes32be()
	t.Check(bytes.Equal(b20[:], b32[12:]), "bytes20", "%x has the low 20 bytes %x", a, b20)
	t.Check(NewAddress(u) == tosca.Address(b20), "address", "%x becomes address %v", a, NewAddress(u))
	t.Check(fromU(AddressToU256(b20)).Cmp(new(big.Int).SetBytes(b20[:])) == 0, "address", "address %x becomes %v", b20, AddressToU256(b20))
	t.Check(NewAddressFromInt(limbs[3]) == NewAddress(NewU256(limbs[3])), "address", "address of %d", limbs[3])
	t.Check(u.DecimalString() == a.String(), "decimal", "%v is printed as %s", a, u.DecimalString())
	text, err := u.MarshalText()
	t.Check(err == nil, "marshal", "cannot marshal %x: %v", a, err)
	var back U256
	err = back.UnmarshalText(text)
	t.Check(err == nil, "unmarshal", "cannot read back %s: %v", text, err)
	same("text", back)
	t.Check(string(text) == u.String(), "text", "%s and %s differ", text, u.String())
	b := related(t, a)
	ub := toU(b)
	t.Check((ub.String() == u.String()) == (a.Cmp(b) == 0), "injective", "%x and %x are printed as %v and %v", a, b, u, ub)
	// other texts are accepted only if they denote the value
	mut := []byte(string(text))
	for k := t.Range(1, 3); k > 0; k-- {
		i := t.N(len(mut) + 1)
		switch t.N(3) {
		case 0:
			if i < len(mut) {
				mut[i] = pbt.Pick(t, []byte("0123456789abcdefABCDEF xg\n-+"))
			}
		case 1:
			mut = append(mut[:i:i], append([]byte{pbt.Pick(t, []byte("0a \n"))}, mut[i:]...)...)
		case 2:
			if i < len(mut) {
				mut = append(mut[:i:i], mut[i+1:]...)
			}
		}
	}
	err = back.UnmarshalText(mut)
	parts := strings.Split(string(mut), " ")
	ok := len(parts) == 4
	for _, p := range parts {
		ok = ok && len(p) == 16 && strings.Trim(p, "0123456789abcdefABCDEF") == ""
	}
	t.Labelf("mutated text accepted: %t", ok)
	t.Check((err == nil) == ok, "text-syntax", "reading %q results in error %v", mut, err)
	if ok {
		v, _ := new(big.Int).SetString(strings.Join(parts, ""), 16)
		t.Check(fromU(back).Cmp(v) == 0, "text-value", "%q is read as %v", mut, back)
	}
}

// u256Range: drawing from a range stays in it and reaches all of it.
func u256Range(t *pbt.T) {
	a := gen.WordBig(t)
	b := gen.WordBig(t)
	switch t.Weighted(4, 2, 2, 1) {
	case 1:
		b = wrap(new(big.Int).Add(a, big.NewInt(int64(t.N(4)))))
	case 2:
		a = big.NewInt(int64(t.N(3)))
		b = new(big.Int).Sub(two256, big.NewInt(int64(1+t.N(3))))
	case 3:
		b = a
	}
	if a.Cmp(b) > 0 {
		a, b = b, a
	}
	size := new(big.Int).Sub(b, a)
	t.Sample(func() string { return fmt.Sprintf("values of [%x,%x]", a, b) })
	t.NonTrivial(pbt.Hash(a.Bytes()) + 3*pbt.Hash(b.Bytes()))
	seed := t.U64()
	rnd := rand.New(seed)
	seen := map[U256]int{}
	const n = 64
	for i := 0; i < n; i++ {
		v := RandU256Between(rnd, toU(a), toU(b))
		x := fromU(v)
		t.Check(x.Cmp(a) >= 0 && x.Cmp(b) <= 0, "range", "%v is not in [%x,%x]", v, a, b)
		seen[v]++
	}
	// (a range of more than 2^32 values: 64 draws coincide with probability below 2^-20)
	if size.BitLen() > 32 {
		t.Label("wide range")
		t.Check(len(seen) > n/2, "range-spread", "%d draws from [%x,%x] result in %d values only", n, a, b, len(seen))
	} else if size.Cmp(big.NewInt(3)) <= 0 {
		// each of at most 4 values is missed by 64 draws with probability 4*(3/4)^64 < 2^-24
		t.Label("tiny range")
		t.Check(len(seen) == int(size.Int64())+1, "range-cover", "%d draws from [%x,%x] result in %d values only", n, a, b, len(seen))
	}
}
