// Package hex is an offline stand-in for github.com/indigo-web/utils/hex.
package hex

// Un returns the value of a hexadecimal digit.
func Un(c byte) byte {
	switch {
	case c >= '0' && c <= '9':
		return c - '0'
	case c|0x20 >= 'a' && c|0x20 <= 'f':
		return c|0x20 - 'a' + 10
	}
	return 0xff
}
