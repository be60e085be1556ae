// Package pub is a scripted STTP publisher: it speaks the wire protocol over loopback sockets without using any
// code of the library under test, and records every frame the subscriber sends.
package pub

import (
	"bytes"
	"compress/gzip"
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"
)

// Commands sent by a subscriber.
const (
	CmdConnect          = 0x00
	CmdMetadataRefresh  = 0x01
	CmdSubscribe        = 0x02
	CmdUnsubscribe      = 0x03
	CmdRotateCipherKeys = 0x04
	CmdUpdateInterval   = 0x05
	CmdDefineOpModes    = 0x06
	CmdConfirmNotify    = 0x07
	CmdConfirmBlock     = 0x08
	CmdConfirmBaseTimes = 0x09
	CmdConfirmSIC       = 0x0A
	CmdConfirmKeys      = 0x0B
)

// Responses sent by a publisher.
const (
	RespSucceeded     = 0x80
	RespFailed        = 0x81
	RespDataPacket    = 0x82
	RespUpdateSIC     = 0x83
	RespBaseTimes     = 0x84
	RespCipherKeys    = 0x85
	RespDataStartTime = 0x86
	RespProcComplete  = 0x87
	RespBufferBlock   = 0x88
	RespNotify        = 0x89
	RespConfigChanged = 0x8A
	RespNoOP          = 0xFF
)

// Data packet flags.
const (
	FlagSync       = 0x01 // time-aligned data of earlier protocol versions, without meaning for decoding
	FlagCompact    = 0x02
	FlagCipher     = 0x04
	FlagCompressed = 0x08
	FlagCacheIndex = 0x10
)

// Frame is one command frame received from the subscriber.
type Frame struct {
	Seq     int64 // global arrival order over all connections of the process
	Cmd     byte
	Payload []byte
}

func (f Frame) String() string { return fmt.Sprintf("cmd %#x len %d", f.Cmd, len(f.Payload)) }

var frameSeq int64

// NextSeq returns the next global event number; harness events use it to share one order with frames.
func NextSeq() int64 { return atomic.AddInt64(&frameSeq, 1) }

// Conn is one connection with a subscriber, seen from the publisher.
type Conn struct {
	C net.Conn

	mu      sync.Mutex
	frames  []Frame
	bytesIn int
	readErr error
	badSize string
	paused  chan struct{}
	closed  bool

	wmu   sync.Mutex
	Sent  int64 // bytes written
	Frag  func(n int) int
	Delay func()
}

func newConn(c net.Conn) *Conn {
	k := &Conn{C: c}
	go k.readLoop()
	return k
}

func (k *Conn) readLoop() {
	var hdr [4]byte
	for {
		k.mu.Lock()
		p := k.paused
		k.mu.Unlock()
		if p != nil {
			<-p
		}
		if n, err := io.ReadFull(k.C, hdr[:]); err != nil {
			k.mu.Lock()
			k.readErr = err
			if n > 0 {
				k.badSize = fmt.Sprintf("stream ended inside a frame header (%d bytes)", n)
			}
			k.mu.Unlock()
			return
		}
		size := binary.BigEndian.Uint32(hdr[:])
		if size == 0 || size > 64<<20 {
			k.mu.Lock()
			k.badSize = fmt.Sprintf("frame with impossible size %d after %d frames", size, len(k.frames))
			k.readErr = errors.New(k.badSize)
			k.mu.Unlock()
			return
		}
		body := make([]byte, size)
		if n, err := io.ReadFull(k.C, body); err != nil {
			k.mu.Lock()
			k.readErr = err
			k.badSize = fmt.Sprintf("stream ended inside a frame body (%d of %d bytes, first %x)", n, size, body[:min(n, 16)])
			k.mu.Unlock()
			return
		}
		k.mu.Lock()
		k.frames = append(k.frames, Frame{Seq: NextSeq(), Cmd: body[0], Payload: body[1:]})
		k.bytesIn += int(size) + 4
		k.mu.Unlock()
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Pause stops reading from the subscriber until the returned function is called.
func (k *Conn) Pause() func() {
	ch := make(chan struct{})
	k.mu.Lock()
	k.paused = ch
	k.mu.Unlock()
	var once sync.Once
	return func() {
		once.Do(func() {
			k.mu.Lock()
			k.paused = nil
			k.mu.Unlock()
			close(ch)
		})
	}
}

// Frames returns a snapshot of the frames received so far.
func (k *Conn) Frames() []Frame {
	k.mu.Lock()
	defer k.mu.Unlock()
	return append([]Frame(nil), k.frames...)
}

// FramesOf returns received frames with the command code.
func (k *Conn) FramesOf(cmd byte) []Frame {
	k.mu.Lock()
	defer k.mu.Unlock()
	var out []Frame
	for _, f := range k.frames {
		if f.Cmd == cmd {
			out = append(out, f)
		}
	}
	return out
}

// CountOf counts received frames with the command code.
func (k *Conn) CountOf(cmd byte) int {
	k.mu.Lock()
	defer k.mu.Unlock()
	n := 0
	for _, f := range k.frames {
		if f.Cmd == cmd {
			n++
		}
	}
	return n
}

// NFrames counts received frames.
func (k *Conn) NFrames() int {
	k.mu.Lock()
	defer k.mu.Unlock()
	return len(k.frames)
}

// Bad describes malformed framing seen from the subscriber, if any.
func (k *Conn) Bad() string {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.badSize
}

// PeerClosed tells whether the subscriber closed the connection.
func (k *Conn) PeerClosed() bool {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.readErr != nil
}

// Close closes the connection.
func (k *Conn) Close() {
	k.mu.Lock()
	k.closed = true
	k.mu.Unlock()
	_ = k.C.Close()
}

// Abort closes with a reset.
func (k *Conn) Abort() {
	if tc, ok := k.C.(*net.TCPConn); ok {
		_ = tc.SetLinger(0)
	}
	k.Close()
}

// WaitFrames waits until n frames with the command were received.
func (k *Conn) WaitFrames(cmd byte, n int, limit time.Duration) bool {
	deadline := time.Now().Add(limit)
	for d := 20 * time.Microsecond; ; {
		if k.CountOf(cmd) >= n {
			return true
		}
		if k.PeerClosed() {
			return k.CountOf(cmd) >= n
		}
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(d)
		if d < time.Millisecond {
			d *= 2
		}
	}
}

// Body builds a response body.
func Body(resp, cmd byte, payload []byte) []byte {
	b := make([]byte, 6+len(payload))
	b[0], b[1] = resp, cmd
	binary.BigEndian.PutUint32(b[2:], uint32(len(payload)))
	copy(b[6:], payload)
	return b
}

// Wire builds a length-prefixed response.
func Wire(resp, cmd byte, payload []byte) []byte {
	b := make([]byte, 10+len(payload))
	binary.BigEndian.PutUint32(b, uint32(6+len(payload)))
	b[4], b[5] = resp, cmd
	binary.BigEndian.PutUint32(b[6:], uint32(len(payload)))
	copy(b[10:], payload)
	return b
}

// Send sends one response, fragmented as configured.
func (k *Conn) Send(resp, cmd byte, payload []byte) error { return k.Raw(Wire(resp, cmd, payload)) }

// Raw writes bytes, fragmented as configured.
func (k *Conn) Raw(b []byte) error {
	k.wmu.Lock()
	defer k.wmu.Unlock()
	_ = k.C.SetWriteDeadline(time.Now().Add(60 * time.Second))
	for len(b) > 0 {
		n := len(b)
		if k.Frag != nil {
			if m := k.Frag(n); m > 0 && m < n {
				n = m
			}
		}
		w, err := k.C.Write(b[:n])
		atomic.AddInt64(&k.Sent, int64(w))
		if err != nil {
			return err
		}
		b = b[n:]
		if k.Delay != nil {
			k.Delay()
		}
	}
	return nil
}

// RandomFrag makes the connection split writes at random places, seldom pausing between them.
func (k *Conn) RandomFrag(seed int64) {
	r := rand.New(rand.NewSource(seed))
	mode := r.Intn(4)
	if tc, ok := k.C.(*net.TCPConn); ok {
		_ = tc.SetNoDelay(true)
	}
	k.Frag = func(n int) int {
		switch mode {
		case 0:
			return 0
		case 1:
			return 1 + r.Intn(7)
		case 2:
			return 1 + r.Intn(200)
		default:
			if r.Intn(3) == 0 {
				return 1 + r.Intn(12)
			}
			return 1 + r.Intn(n)
		}
	}
	k.Delay = func() {
		if r.Intn(40) == 0 {
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		}
	}
}

// Accept answers the operational-modes command.
func (k *Conn) Accept() error {
	return k.Send(RespSucceeded, CmdDefineOpModes, []byte("Operational modes accepted"))
}

// Server is a listening publisher.
type Server struct {
	L    net.Listener
	Port int

	mu      sync.Mutex
	conns   []*Conn
	arrived []time.Time
	next    int
	refuse  bool
	closed  bool
	auto    func(*Conn)
}

// NewServer listens on a free loopback port.
func NewServer() (*Server, error) { return NewServerAt(0, nil) }

// NewServerAt listens on the given loopback port, with a handler run for each new connection.
func NewServerAt(port int, auto func(*Conn)) (*Server, error) {
	l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		return nil, err
	}
	s := &Server{L: l, Port: l.Addr().(*net.TCPAddr).Port, auto: auto}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			refuse, auto := s.refuse, s.auto
			s.mu.Unlock()
			if refuse {
				if tc, ok := c.(*net.TCPConn); ok {
					_ = tc.SetLinger(0)
				}
				s.mu.Lock()
				s.arrived = append(s.arrived, time.Now())
				s.mu.Unlock()
				_ = c.Close()
				continue
			}
			k := newConn(c)
			s.mu.Lock()
			s.conns = append(s.conns, k)
			s.arrived = append(s.arrived, time.Now())
			closed := s.closed
			s.mu.Unlock()
			if closed {
				k.Close()
			} else if auto != nil {
				go auto(k)
			}
		}
	}()
	return s, nil
}

// Refuse makes the server reset every new connection at once.
func (s *Server) Refuse(v bool) {
	s.mu.Lock()
	s.refuse = v
	s.mu.Unlock()
}

// Auto sets a handler run for each new connection.
func (s *Server) Auto(f func(*Conn)) {
	s.mu.Lock()
	s.auto = f
	s.mu.Unlock()
}

// Arrivals counts connection attempts that reached the server.
func (s *Server) Arrivals() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.arrived)
}

// Conns returns all connections so far.
func (s *Server) Conns() []*Conn {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Conn(nil), s.conns...)
}

// Forget drops what was recorded so far, connections that are over included.
func (s *Server) Forget() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, k := range s.conns[:s.next] {
		k.Forget()
	}
	s.conns, s.next, s.arrived = append([]*Conn(nil), s.conns[s.next:]...), 0, nil
}

// Forget drops the frames received so far.
func (k *Conn) Forget() {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.frames = nil
}

// NextConn waits for the next connection.
func (s *Server) NextConn(limit time.Duration) *Conn {
	deadline := time.Now().Add(limit)
	for d := 20 * time.Microsecond; ; {
		s.mu.Lock()
		if s.next < len(s.conns) {
			k := s.conns[s.next]
			s.next++
			s.mu.Unlock()
			return k
		}
		s.mu.Unlock()
		if time.Now().After(deadline) {
			return nil
		}
		time.Sleep(d)
		if d < time.Millisecond {
			d *= 2
		}
	}
}

// Addr is the address to dial.
func (s *Server) Addr() string { return fmt.Sprintf("127.0.0.1:%d", s.Port) }

// Close stops listening and closes all connections.
func (s *Server) Close() {
	s.mu.Lock()
	s.closed = true
	s.mu.Unlock()
	_ = s.L.Close()
	for _, k := range s.Conns() {
		k.Close()
	}
}

// Dial connects to a listening subscriber.
func Dial(port int) (*Conn, error) {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 20*time.Second)
	if err != nil {
		return nil, err
	}
	return newConn(c), nil
}

// Guid is a signal ID in RFC byte order.
type Guid [16]byte

func (g Guid) String() string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", g[0:4], g[4:6], g[6:8], g[8:10], g[10:16])
}

// RandGuid makes a random signal ID.
func RandGuid(r *rand.Rand) (g Guid) {
	r.Read(g[:])
	return
}

// WireGuid serialises a GUID; swapped uses the little-endian layout of the first three fields.
func WireGuid(g Guid, swapped bool) []byte {
	b := append([]byte(nil), g[:]...)
	if swapped {
		b[0], b[1], b[2], b[3] = g[3], g[2], g[1], g[0]
		b[4], b[5] = g[5], g[4]
		b[6], b[7] = g[7], g[6]
	}
	return b
}

// SICRecord is one signal index cache record.
type SICRecord struct {
	Index  int32
	ID     Guid
	Source string
	Num    uint64
}

// SIC is a signal index cache.
type SIC struct {
	Subscriber Guid
	Records    []SICRecord
}

// Encode serialises a cache body (without slot byte).
func (s *SIC) Encode(swapped bool) []byte {
	var b bytes.Buffer
	b.Write(make([]byte, 4))
	b.Write(WireGuid(s.Subscriber, swapped))
	u32(&b, uint32(len(s.Records)))
	for _, r := range s.Records {
		u32(&b, uint32(r.Index))
		b.Write(WireGuid(r.ID, swapped))
		u32(&b, uint32(len(r.Source)))
		b.WriteString(r.Source)
		u64(&b, r.Num)
	}
	// number of unauthorised signals
	u32(&b, 0)
	out := b.Bytes()
	binary.BigEndian.PutUint32(out, uint32(len(out)))
	return out
}

// Payload makes the UpdateSignalIndexCache payload.
func (s *SIC) Payload(version int, slot byte, swapped, compress bool) []byte {
	body := s.Encode(swapped)
	if compress {
		body = Gzip(body)
	}
	if version > 1 {
		body = append([]byte{slot}, body...)
	}
	return body
}

// Lookup finds the record with the index.
func (s *SIC) Lookup(idx int32) (SICRecord, bool) {
	for i := len(s.Records) - 1; i >= 0; i-- {
		if s.Records[i].Index == idx {
			return s.Records[i], true
		}
	}
	return SICRecord{}, false
}

func u32(b *bytes.Buffer, v uint32) {
	var x [4]byte
	binary.BigEndian.PutUint32(x[:], v)
	b.Write(x[:])
}

func u64(b *bytes.Buffer, v uint64) {
	var x [8]byte
	binary.BigEndian.PutUint64(x[:], v)
	b.Write(x[:])
}

// Gzip compresses.
func Gzip(b []byte) []byte {
	var out bytes.Buffer
	w := gzip.NewWriter(&out)
	_, _ = w.Write(b)
	_ = w.Close()
	return out.Bytes()
}

// Meas is one measurement as published.
type Meas struct {
	Index int32
	ID    Guid
	Value uint32 // float32 bits
	Time  uint64 // ticks including leap flags
	Flags uint32
}

func (m Meas) String() string {
	return fmt.Sprintf("{idx %d id %s val %#x time %#x flags %#x}", m.Index, m.ID, m.Value, m.Time, m.Flags)
}

// CompactTime selects how a compact measurement carries its time.
type CompactTime int

// Ways of carrying time.
const (
	TimeNone CompactTime = iota
	TimeFull
	TimeMs
	TimeTick
)

// Compact serialises one compact measurement. For TimeMs/TimeTick the offset is relative to base index ti.
func Compact(b *bytes.Buffer, flags8 byte, index int32, value uint32, kind CompactTime, ti int, full uint64, offset uint32) {
	f := flags8 & 0x3F
	if ti == 1 {
		f |= 0x80
	}
	if kind == TimeMs || kind == TimeTick || kind == TimeNone && flags8&0x40 != 0 {
		f |= 0x40
	}
	b.WriteByte(f)
	u32(b, uint32(index))
	u32(b, value)
	switch kind {
	case TimeFull:
		u64(b, full)
	case TimeMs:
		var x [2]byte
		binary.BigEndian.PutUint16(x[:], uint16(offset))
		b.Write(x[:])
	case TimeTick:
		u32(b, offset)
	}
}

// FullFlags maps compact quality bits to the full state flags.
func FullFlags(f8 byte) (f uint32) {
	if f8&1 != 0 {
		f |= 0x000000FC
	}
	if f8&2 != 0 {
		f |= 0x0000EF03
	}
	if f8&4 != 0 {
		f |= 0x00BF0000
	}
	if f8&8 != 0 {
		f |= 0xE0000000
	}
	if f8&0x10 != 0 {
		f |= 0x00001000
	}
	if f8&0x20 != 0 {
		f |= 0x00400000
	}
	return
}

// Keys are the two AES key/iv pairs.
type Keys struct {
	Key, IV [2][]byte
}

// RandKeys makes key pairs of random size.
func RandKeys(r *rand.Rand) *Keys {
	k := &Keys{}
	n := []int{16, 24, 32}[r.Intn(3)]
	for i := range k.Key {
		k.Key[i] = make([]byte, n)
		r.Read(k.Key[i])
		k.IV[i] = make([]byte, 16)
		r.Read(k.IV[i])
	}
	return k
}

// Payload makes the UpdateCipherKeys payload.
func (k *Keys) Payload(active byte) []byte {
	var b bytes.Buffer
	b.WriteByte(active)
	for i := 0; i < 2; i++ {
		u32(&b, uint32(len(k.Key[i])))
		b.Write(k.Key[i])
		u32(&b, uint32(len(k.IV[i])))
		b.Write(k.IV[i])
	}
	return b.Bytes()
}

// Encrypt pads with zeros to the block size and encrypts.
func (k *Keys) Encrypt(which int, data []byte) []byte {
	block, err := aes.NewCipher(k.Key[which])
	if err != nil {
		panic(err)
	}
	in := append([]byte(nil), data...)
	for len(in)%16 != 0 {
		in = append(in, 0)
	}
	out := make([]byte, len(in))
	cipher.NewCBCEncrypter(block, k.IV[which]).CryptBlocks(out, in)
	return out
}

// DataPacket makes a data packet payload from flags, count and body, optionally encrypted.
func DataPacket(flags byte, count int, body []byte, keys *Keys, which int) []byte {
	rest := make([]byte, 4+len(body))
	binary.BigEndian.PutUint32(rest, uint32(count))
	copy(rest[4:], body)
	if keys != nil {
		if which == 1 {
			flags |= FlagCipher
		}
		rest = keys.Encrypt(which, rest)
	}
	return append([]byte{flags}, rest...)
}

// TSSCBody prefixes an encoded bit stream with the TSSC version and sequence number.
func TSSCBody(seq uint16, stream []byte) []byte {
	b := make([]byte, 3+len(stream))
	b[0] = 85
	binary.BigEndian.PutUint16(b[1:], seq)
	copy(b[3:], stream)
	return b
}

// BaseTimes makes an UpdateBaseTimes payload.
func BaseTimes(ti uint32, t0, t1 int64) []byte {
	var b bytes.Buffer
	u32(&b, ti)
	u64(&b, uint64(t0))
	u64(&b, uint64(t1))
	return b.Bytes()
}

// Block makes a buffer block payload.
func Block(version int, seq uint32, slot byte, index int32, data []byte) []byte {
	var b bytes.Buffer
	u32(&b, seq)
	if version > 1 {
		b.WriteByte(slot)
	}
	u32(&b, uint32(index))
	b.Write(data)
	return b.Bytes()
}

// U32 and U64 serialise big-endian.
func U32(v uint32) []byte { var b bytes.Buffer; u32(&b, v); return b.Bytes() }

// U64 serialises big-endian.
func U64(v uint64) []byte { var b bytes.Buffer; u64(&b, v); return b.Bytes() }

// F32 returns float bits.
func F32(v float32) uint32 { return math.Float32bits(v) }
