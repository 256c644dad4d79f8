package main

import (
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// slotTab maps the values of a function to their places in a frame. It is an open hash table on the addresses of
// the values, which is several times faster than a map with interface keys.
type slotTab struct {
	keys []uintptr
	vals []int32
	mask uintptr
}

func slotKey(v ssa.Value) uintptr { return (*[2]uintptr)(unsafe.Pointer(&v))[1] }

func slotHash(k uintptr) uintptr { return uintptr(uint64(k>>4) * 0x9e3779b97f4a7c15 >> 40) }

func (t *slotTab) init(vs []ssa.Value) {
	n := uintptr(8)
	for n < 3*uintptr(len(vs)) {
		n *= 2
	}
	t.keys, t.vals, t.mask = make([]uintptr, n), make([]int32, n), n-1
	for i, v := range vs {
		k := slotKey(v)
		h := slotHash(k) & t.mask
		for t.keys[h] != 0 {
			h = (h + 1) & t.mask
		}
		t.keys[h], t.vals[h] = k, int32(i)
	}
}

func (t *slotTab) find(v ssa.Value) int {
	k := slotKey(v)
	h := slotHash(k) & t.mask
	for {
		switch t.keys[h] {
		case k:
			return int(t.vals[h])
		case 0:
			return -1
		}
		h = (h + 1) & t.mask
	}
}
