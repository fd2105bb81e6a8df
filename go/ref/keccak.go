package ref

import "math/bits"

// Keccak computes the Keccak-256 hash (the original padding, not SHA3).
func Keccak(data []byte) (out [32]byte) {
	var s [25]uint64
	const rate = 136
	msg := append(append([]byte(nil), data...), 1)
	for len(msg)%rate != 0 {
		msg = append(msg, 0)
	}
	msg[len(msg)-1] |= 0x80
	for len(msg) > 0 {
		for i := 0; i < rate/8; i++ {
			var l uint64
			for b := 7; b >= 0; b-- {
				l = l<<8 | uint64(msg[i*8+b])
			}
			s[i] ^= l
		}
		keccakF(&s)
		msg = msg[rate:]
	}
	for i := 0; i < 32; i++ {
		out[i] = byte(s[i/8] >> (8 * (i % 8)))
	}
	return
}

func keccakF(a *[25]uint64) {
	lfsr := byte(1)
	for round := 0; round < 24; round++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 25; y += 5 {
				a[x+y] ^= d
			}
		}
		x, y, cur := 1, 0, a[1]
		for t := 0; t < 24; t++ {
			x, y = y, (2*x+3*y)%5
			a[x+5*y], cur = bits.RotateLeft64(cur, (t+1)*(t+2)/2), a[x+5*y]
		}
		for y := 0; y < 25; y += 5 {
			var r [5]uint64
			copy(r[:], a[y:y+5])
			for x := 0; x < 5; x++ {
				a[y+x] = r[x] ^ (^r[(x+1)%5] & r[(x+2)%5])
			}
		}
		for j := 0; j < 7; j++ {
			if lfsr&1 == 1 {
				a[0] ^= 1 << (1<<j - 1)
			}
			if lfsr&0x80 != 0 {
				lfsr = lfsr<<1 ^ 0x71
			} else {
				lfsr <<= 1
			}
		}
	}
}
