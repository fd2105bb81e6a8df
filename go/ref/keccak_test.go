package ref

import (
	"encoding/hex"
	"testing"
)

func TestKeccak(t *testing.T) {
	for in, want := range map[string]string{
		"":    "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470",
		"abc": "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45",
		"The quick brown fox jumps over the lazy dog": "4d741b6f1eb29cb2a9b9911c82f56fa8d73b04959d3d9d222895df6c0b28aa15",
	} {
		h := Keccak([]byte(in))
		if got := hex.EncodeToString(h[:]); got != want {
			t.Errorf("%q: %s, want %s", in, got, want)
		}
	}
}
