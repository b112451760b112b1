package lib

import (
	"fmt"
	"net"
	"sync"
)

// ports of the local host handed out by Port are used by nobody else: each process takes a block of them, guarded
// by a socket listening on the first one.
var ports struct {
	sync.Mutex
	guard net.Listener
	base  int
	next  int
}

const (
	firstPort = 10000
	blocks    = 190
	blockSize = 50
)

// Port returns a port of the local host, which isn't in use and wasn't handed out lately.
func Port() string {
	ports.Lock()
	defer ports.Unlock()
	for i := 0; i < blocks && ports.guard == nil; i++ {
		base := firstPort + i*blockSize
		if l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", base)); err == nil {
			ports.guard, ports.base = l, base
		}
	}
	if ports.guard == nil {
		panic("verif: no ports left")
	}
	for n := 0; n < blockSize; n++ {
		ports.next = ports.next%(blockSize-1) + 1
		port := fmt.Sprint(ports.base + ports.next)
		if l, err := net.Listen("tcp", ":"+port); err == nil {
			l.Close()
			return port
		}
	}
	panic("verif: no free ports")
}
