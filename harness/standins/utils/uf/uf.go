// Package uf is an offline stand-in for github.com/indigo-web/utils/uf.
package uf

import "unsafe"

// B2S converts a byte slice to a string without copying.
func B2S(b []byte) string {
	return *(*string)(unsafe.Pointer(&b))
}

// S2B converts a string to a byte slice without copying. The capacity equals the length, so
// appending always reallocates.
func S2B(s string) (b []byte) {
	if len(s) == 0 {
		return nil
	}
	type sh struct {
		data unsafe.Pointer
		n    int
	}
	p := (*sh)(unsafe.Pointer(&s)).data
	return (*[1 << 46]byte)(p)[:len(s):len(s)]
}
