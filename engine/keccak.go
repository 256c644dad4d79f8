package main

import "math/bits"

var keccakRC = [24]uint64{
	0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000, 0x000000000000808B, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009,
	0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A, 0x000000008000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003,
	0x8000000000008002, 0x8000000000000080, 0x000000000000800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
}
var keccakRot = [24]int{1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44}
var keccakPil = [24]int{10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1}

func keccakF(st *[25]uint64) {
	var bc [5]uint64
	for r := 0; r < 24; r++ {
		for i := 0; i < 5; i++ {
			bc[i] = st[i] ^ st[i+5] ^ st[i+10] ^ st[i+15] ^ st[i+20]
		}
		for i := 0; i < 5; i++ {
			t := bc[(i+4)%5] ^ bits.RotateLeft64(bc[(i+1)%5], 1)
			for j := 0; j < 25; j += 5 {
				st[j+i] ^= t
			}
		}
		t := st[1]
		for i := 0; i < 24; i++ {
			j := keccakPil[i]
			t, st[j] = st[j], bits.RotateLeft64(t, keccakRot[i])
		}
		for j := 0; j < 25; j += 5 {
			var b [5]uint64
			copy(b[:], st[j:j+5])
			for i := 0; i < 5; i++ {
				st[j+i] = b[i] ^ (^b[(i+1)%5] & b[(i+2)%5])
			}
		}
		st[0] ^= keccakRC[r]
	}
}

// keccak256 is the original Keccak-256 (0x01 padding).
func keccak256(in []byte) (out [32]byte) {
	var st [25]uint64
	const rate = 136
	absorb := func(b []byte) {
		for i := 0; i < rate; i++ {
			st[i/8] ^= uint64(b[i]) << (8 * uint(i%8))
		}
		keccakF(&st)
	}
	for len(in) >= rate {
		absorb(in[:rate])
		in = in[rate:]
	}
	var last [rate]byte
	copy(last[:], in)
	last[len(in)] ^= 1
	last[rate-1] ^= 0x80
	absorb(last[:])
	for i := range out {
		out[i] = byte(st[i/8] >> (8 * uint(i%8)))
	}
	return
}
