// Package common is a stand-in for the parts of go-ethereum the transaction
// processor uses (the real module is not available offline).
package common

import "encoding/hex"

type Address [20]byte
type Hash [32]byte

func BytesToAddress(b []byte) (a Address) {
	if len(b) > len(a) {
		b = b[len(b)-len(a):]
	}
	copy(a[len(a)-len(b):], b)
	return
}

func BytesToHash(b []byte) (h Hash) {
	if len(b) > len(h) {
		b = b[len(b)-len(h):]
	}
	copy(h[len(h)-len(b):], b)
	return
}

func FromHex(s string) []byte {
	if len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
		s = s[2:]
	}
	if len(s)%2 == 1 {
		s = "0" + s
	}
	b, _ := hex.DecodeString(s)
	return b
}

func HexToAddress(s string) Address { return BytesToAddress(FromHex(s)) }
func HexToHash(s string) Hash       { return BytesToHash(FromHex(s)) }
func (a Address) Bytes() []byte     { return a[:] }
func (h Hash) Bytes() []byte        { return h[:] }
func (a Address) Hex() string       { return "0x" + hex.EncodeToString(a[:]) }
func (h Hash) Hex() string          { return "0x" + hex.EncodeToString(h[:]) }
