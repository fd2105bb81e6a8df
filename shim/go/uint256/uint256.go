// Package uint256 is an offline stand-in for github.com/holiman/uint256 (not
// available in this sandbox). It offers the subset of the API that the code
// under test uses, with the documented semantics: little-endian [4]uint64
// limbs, arithmetic modulo 2^256, division by zero yields zero.
package uint256

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/bits"
	"strings"
)

type Int [4]uint64

var (
	ErrEmptyString   = errors.New("empty hex string")
	ErrSyntax        = errors.New("invalid hex string")
	ErrMissingPrefix = errors.New("hex string without 0x prefix")
	ErrBig256Range   = errors.New("hex number > 256 bits")
)

func NewInt(v uint64) *Int { return &Int{v, 0, 0, 0} }

func (z *Int) Set(x *Int) *Int          { *z = *x; return z }
func (z *Int) SetUint64(x uint64) *Int  { *z = Int{x}; return z }
func (z *Int) SetOne() *Int             { *z = Int{1}; return z }
func (z *Int) Clear() *Int              { *z = Int{}; return z }
func (z *Int) SetAllOne() *Int {
	*z = Int{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	return z
}
func (z *Int) Clone() *Int { c := *z; return &c }

func (z *Int) SetBytes(buf []byte) *Int {
	if len(buf) > 32 {
		buf = buf[len(buf)-32:]
	}
	var b [32]byte
	copy(b[32-len(buf):], buf)
	return z.SetBytes32(b[:])
}
func (z *Int) SetBytes32(b []byte) *Int {
	_ = b[31]
	z[0] = binary.BigEndian.Uint64(b[24:32])
	z[1] = binary.BigEndian.Uint64(b[16:24])
	z[2] = binary.BigEndian.Uint64(b[8:16])
	z[3] = binary.BigEndian.Uint64(b[0:8])
	return z
}

func (z *Int) fix(buf []byte, n int) *Int { _ = buf[n-1]; return z.SetBytes(buf[:n]) }

func (z *Int) SetBytes1(b []byte) *Int  { return z.fix(b, 1) }
func (z *Int) SetBytes2(b []byte) *Int  { return z.fix(b, 2) }
func (z *Int) SetBytes3(b []byte) *Int  { return z.fix(b, 3) }
func (z *Int) SetBytes4(b []byte) *Int  { return z.fix(b, 4) }
func (z *Int) SetBytes8(b []byte) *Int  { return z.fix(b, 8) }
func (z *Int) SetBytes16(b []byte) *Int { return z.fix(b, 16) }
func (z *Int) SetBytes20(b []byte) *Int { return z.fix(b, 20) }

func (z *Int) Bytes32() [32]byte {
	var b [32]byte
	z.PutUint256(b[:])
	return b
}
func (z *Int) PutUint256(b []byte) {
	_ = b[31]
	binary.BigEndian.PutUint64(b[0:8], z[3])
	binary.BigEndian.PutUint64(b[8:16], z[2])
	binary.BigEndian.PutUint64(b[16:24], z[1])
	binary.BigEndian.PutUint64(b[24:32], z[0])
}
func (z *Int) Bytes20() [20]byte {
	var r [20]byte
	b := z.Bytes32()
	copy(r[:], b[12:])
	return r
}
func (z *Int) Bytes() []byte {
	b := z.Bytes32()
	return append([]byte{}, b[32-z.ByteLen():]...)
}
func (z *Int) WriteToSlice(dest []byte) {
	end := len(dest) - 1
	if end > 31 {
		end = 31
	}
	for i := 0; i <= end; i++ {
		dest[end-i] = byte(z[i/8] >> uint64(8*(i%8)))
	}
}
func (z *Int) WriteToArray32(dest *[32]byte) { *dest = z.Bytes32() }
func (z *Int) WriteToArray20(dest *[20]byte) { *dest = z.Bytes20() }

func (z *Int) Uint64() uint64 { return z[0] }
func (z *Int) Uint64WithOverflow() (uint64, bool) {
	return z[0], z[1]|z[2]|z[3] != 0
}
func (z *Int) IsUint64() bool { return z[1]|z[2]|z[3] == 0 }
func (z *Int) IsZero() bool   { return z[0]|z[1]|z[2]|z[3] == 0 }
func (z *Int) Sign() int {
	if z.IsZero() {
		return 0
	}
	if z[3] < 1<<63 {
		return 1
	}
	return -1
}
func (z *Int) BitLen() int {
	for i := 3; i >= 0; i-- {
		if z[i] != 0 {
			return i*64 + bits.Len64(z[i])
		}
	}
	return 0
}
func (z *Int) ByteLen() int { return (z.BitLen() + 7) / 8 }

func (z *Int) Eq(x *Int) bool { return *z == *x }
func (z *Int) Cmp(x *Int) int {
	for i := 3; i >= 0; i-- {
		if z[i] < x[i] {
			return -1
		}
		if z[i] > x[i] {
			return 1
		}
	}
	return 0
}
func (z *Int) CmpUint64(x uint64) int  { return z.Cmp(&Int{x}) }
func (z *Int) Lt(x *Int) bool          { return z.Cmp(x) < 0 }
func (z *Int) Gt(x *Int) bool          { return z.Cmp(x) > 0 }
func (z *Int) LtUint64(n uint64) bool  { return z.IsUint64() && z[0] < n }
func (z *Int) GtUint64(n uint64) bool  { return !z.IsUint64() || z[0] > n }
func (z *Int) Slt(x *Int) bool {
	zs, xs := z[3]>>63, x[3]>>63
	if zs != xs {
		return zs == 1
	}
	return z.Lt(x)
}
func (z *Int) Sgt(x *Int) bool { return x.Slt(z) }

func (z *Int) AddOverflow(x, y *Int) (*Int, bool) {
	var c uint64
	z[0], c = bits.Add64(x[0], y[0], 0)
	z[1], c = bits.Add64(x[1], y[1], c)
	z[2], c = bits.Add64(x[2], y[2], c)
	z[3], c = bits.Add64(x[3], y[3], c)
	return z, c != 0
}
func (z *Int) Add(x, y *Int) *Int { z.AddOverflow(x, y); return z }
func (z *Int) AddUint64(x *Int, y uint64) *Int { return z.Add(x, &Int{y}) }
func (z *Int) SubOverflow(x, y *Int) (*Int, bool) {
	var c uint64
	z[0], c = bits.Sub64(x[0], y[0], 0)
	z[1], c = bits.Sub64(x[1], y[1], c)
	z[2], c = bits.Sub64(x[2], y[2], c)
	z[3], c = bits.Sub64(x[3], y[3], c)
	return z, c != 0
}
func (z *Int) Sub(x, y *Int) *Int { z.SubOverflow(x, y); return z }
func (z *Int) SubUint64(x *Int, y uint64) *Int { return z.Sub(x, &Int{y}) }

func (z *Int) Neg(x *Int) *Int { return z.Sub(&Int{}, x) }
func (z *Int) Abs(x *Int) *Int {
	if x[3] < 1<<63 {
		return z.Set(x)
	}
	return z.Neg(x)
}

func (z *Int) Mul(x, y *Int) *Int {
	var r Int
	for i := 0; i < 4; i++ {
		var carry uint64
		for j := 0; i+j < 4; j++ {
			hi, lo := bits.Mul64(x[i], y[j])
			var c uint64
			lo, c = bits.Add64(lo, carry, 0)
			hi += c
			lo, c = bits.Add64(lo, r[i+j], 0)
			hi += c
			r[i+j] = lo
			carry = hi
		}
	}
	*z = r
	return z
}
func (z *Int) MulOverflow(x, y *Int) (*Int, bool) {
	p := new(big.Int).Mul(x.ToBig(), y.ToBig())
	z.Mul(x, y)
	return z, p.BitLen() > 256
}

func (z *Int) setBig(b *big.Int) *Int {
	var buf [32]byte
	b.FillBytes(buf[:])
	return z.SetBytes32(buf[:])
}

func (z *Int) Div(x, y *Int) *Int {
	if y.IsZero() {
		return z.Clear()
	}
	if x.IsUint64() && y.IsUint64() {
		return z.SetUint64(x[0] / y[0])
	}
	return z.setBig(new(big.Int).Div(x.ToBig(), y.ToBig()))
}
func (z *Int) Mod(x, y *Int) *Int {
	if y.IsZero() {
		return z.Clear()
	}
	if x.IsUint64() && y.IsUint64() {
		return z.SetUint64(x[0] % y[0])
	}
	return z.setBig(new(big.Int).Mod(x.ToBig(), y.ToBig()))
}
func (z *Int) DivMod(x, y, m *Int) (*Int, *Int) {
	a, b := *x, *y
	return z.Div(&a, &b), m.Mod(&a, &b)
}
func (z *Int) SDiv(x, d *Int) *Int {
	neg := (x[3]>>63 ^ d[3]>>63) == 1
	var a, b Int
	a.Abs(x)
	b.Abs(d)
	z.Div(&a, &b)
	if neg {
		z.Neg(z)
	}
	return z
}
func (z *Int) SMod(x, y *Int) *Int {
	neg := x[3]>>63 == 1
	var a, b Int
	a.Abs(x)
	b.Abs(y)
	z.Mod(&a, &b)
	if neg {
		z.Neg(z)
	}
	return z
}
func (z *Int) AddMod(x, y, m *Int) *Int {
	if m.IsZero() {
		return z.Clear()
	}
	s := new(big.Int).Add(x.ToBig(), y.ToBig())
	return z.setBig(s.Mod(s, m.ToBig()))
}
func (z *Int) MulMod(x, y, m *Int) *Int {
	if m.IsZero() {
		return z.Clear()
	}
	s := new(big.Int).Mul(x.ToBig(), y.ToBig())
	return z.setBig(s.Mod(s, m.ToBig()))
}
func (z *Int) Exp(base, exponent *Int) *Int {
	res := Int{1}
	mult := *base
	e := *exponent
	n := e.BitLen()
	for i := 0; i < n; i++ {
		if e[i/64]>>(uint(i)%64)&1 == 1 {
			res.Mul(&res, &mult)
		}
		mult.Mul(&mult, &mult)
	}
	*z = res
	return z
}
func (z *Int) ExtendSign(x, byteNum *Int) *Int {
	if byteNum.GtUint64(30) {
		return z.Set(x)
	}
	bit := uint(byteNum.Uint64()*8 + 7)
	var mask Int
	mask.SetAllOne()
	mask.Lsh(&mask, bit+1)
	if x[bit/64]>>(bit%64)&1 == 1 {
		return z.Or(x, &mask)
	}
	mask.Not(&mask)
	return z.And(x, &mask)
}
func (z *Int) Byte(n *Int) *Int {
	index, overflow := n.Uint64WithOverflow()
	if overflow || index >= 32 {
		return z.Clear()
	}
	b := z.Bytes32()
	return z.SetUint64(uint64(b[index]))
}

func (z *Int) Not(x *Int) *Int {
	for i := range z {
		z[i] = ^x[i]
	}
	return z
}
func (z *Int) And(x, y *Int) *Int {
	for i := range z {
		z[i] = x[i] & y[i]
	}
	return z
}
func (z *Int) Or(x, y *Int) *Int {
	for i := range z {
		z[i] = x[i] | y[i]
	}
	return z
}
func (z *Int) Xor(x, y *Int) *Int {
	for i := range z {
		z[i] = x[i] ^ y[i]
	}
	return z
}

func (z *Int) Lsh(x *Int, n uint) *Int {
	if n >= 256 {
		return z.Clear()
	}
	var r Int
	w, b := int(n/64), n%64
	for i := 3; i >= w; i-- {
		r[i] = x[i-w] << b
		if b > 0 && i-w-1 >= 0 {
			r[i] |= x[i-w-1] >> (64 - b)
		}
	}
	*z = r
	return z
}
func (z *Int) Rsh(x *Int, n uint) *Int {
	if n >= 256 {
		return z.Clear()
	}
	var r Int
	w, b := int(n/64), n%64
	for i := 0; i+w < 4; i++ {
		r[i] = x[i+w] >> b
		if b > 0 && i+w+1 < 4 {
			r[i] |= x[i+w+1] << (64 - b)
		}
	}
	*z = r
	return z
}
func (z *Int) SRsh(x *Int, n uint) *Int {
	if x[3]>>63 == 0 {
		return z.Rsh(x, n)
	}
	if n >= 256 {
		return z.SetAllOne()
	}
	var inv Int
	inv.Not(x)
	inv.Rsh(&inv, n)
	return z.Not(&inv)
}

func (z *Int) ToBig() *big.Int {
	if z == nil {
		return nil
	}
	b := z.Bytes32()
	return new(big.Int).SetBytes(b[:])
}
func (z *Int) SetFromBig(b *big.Int) bool {
	var m big.Int
	m.And(b, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)))
	z.setBig(&m)
	return new(big.Int).Abs(b).BitLen() > 256
}
func FromBig(b *big.Int) (*Int, bool) {
	if b == nil {
		return nil, false
	}
	z := new(Int)
	return z, z.SetFromBig(b)
}
func MustFromBig(b *big.Int) *Int {
	z, o := FromBig(b)
	if o {
		panic("overflow")
	}
	return z
}
func FromHex(hex string) (*Int, error) {
	if !strings.HasPrefix(hex, "0x") && !strings.HasPrefix(hex, "0X") {
		return nil, ErrMissingPrefix
	}
	b, ok := new(big.Int).SetString(hex[2:], 16)
	if !ok {
		return nil, ErrSyntax
	}
	if b.BitLen() > 256 {
		return nil, ErrBig256Range
	}
	return MustFromBig(b), nil
}
func MustFromHex(hex string) *Int {
	z, err := FromHex(hex)
	if err != nil {
		panic(err)
	}
	return z
}
func (z *Int) Hex() string    { return fmt.Sprintf("0x%x", z.ToBig()) }
func (z *Int) Dec() string    { return z.ToBig().String() }
func (z *Int) String() string { return z.Dec() }
func (z *Int) MarshalJSON() ([]byte, error) { return json.Marshal(z.Dec()) }
func (z *Int) Format(s fmt.State, ch rune) { z.ToBig().Format(s, ch) }
