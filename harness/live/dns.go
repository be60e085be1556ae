package main

import (
	"context"
	"encoding/binary"
	"io"
	"net"
	"strings"
	"sync"
	"time"
)

// A private name service inside the process: the subscriber is given host names under verif.test, so that every
// connection attempt is seen as a lookup, also when nobody listens.
var (
	dnsMu    sync.Mutex
	dnsTimes = map[string][]time.Time{}
)

func init() {
	net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: func(ctx context.Context, network, address string) (net.Conn, error) {
		c, s := net.Pipe()
		go serveDNS(s)
		return c, nil
	}}
}

// attempts returns the times of connection attempts to a host name.
func attempts(host string) []time.Time {
	dnsMu.Lock()
	defer dnsMu.Unlock()
	return append([]time.Time(nil), dnsTimes[strings.ToLower(host)]...)
}

func serveDNS(c net.Conn) {
	defer c.Close()
	for {
		var l [2]byte
		if _, err := io.ReadFull(c, l[:]); err != nil {
			return
		}
		q := make([]byte, binary.BigEndian.Uint16(l[:]))
		if _, err := io.ReadFull(c, q); err != nil || len(q) < 12 {
			return
		}
		name := ""
		i := 12
		for i < len(q) && q[i] != 0 {
			n := int(q[i])
			if i+1+n > len(q) {
				return
			}
			name += string(q[i+1:i+1+n]) + "."
			i += 1 + n
		}
		i += 5
		if i > len(q) {
			return
		}
		typ := binary.BigEndian.Uint16(q[i-4:])
		a := make([]byte, 12, 64)
		copy(a, q[:2])
		a[2], a[3] = 0x84|q[2]&1, 0x80
		a[5] = 1
		a = append(a, q[12:i]...)
		if typ == 1 {
			a[7] = 1
			a = append(a, 0xC0, 0x0C, 0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 127, 0, 0, 1)
			dnsMu.Lock()
			dnsTimes[strings.ToLower(name)] = append(dnsTimes[strings.ToLower(name)], time.Now())
			dnsMu.Unlock()
		}
		out := append([]byte{byte(len(a) >> 8), byte(len(a))}, a...)
		if _, err := c.Write(out); err != nil {
			return
		}
	}
}
