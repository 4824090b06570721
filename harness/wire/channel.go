package wire

import (
	"bytes"
	"crypto/hmac"
	"crypto/rsa"
	"crypto/sha1"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"time"

	"github.com/awcullen/opcua/ua"
	"verif/harness/ref"
)

// Security modes.
const (
	ModeNone           = ua.MessageSecurityModeNone
	ModeSign           = ua.MessageSecurityModeSign
	ModeSignAndEncrypt = ua.MessageSecurityModeSignAndEncrypt
)

var le = binary.LittleEndian

// Channel is one end of a secure channel.
type Channel struct {
	Conn       net.Conn
	Suite      *Suite
	Mode       ua.MessageSecurityMode
	Key        *rsa.PrivateKey
	Cert       []byte
	RemoteCert []byte
	ID         uint32
	Token      uint32 // the token used for sending
	SendKeys   map[uint32]*Keys
	RecvKeys   map[uint32]*Keys
	Seq        uint32 // last sequence number sent
	WrapAt     uint32 // once Seq is here the next number is WrapTo (0: never)
	WrapTo     uint32
	LastRecv   uint32 // last sequence number received
	SeenRecv   bool
	MaxChunk   int // largest chunk we may send
	MaxRecv    int // largest chunk the peer may send us
	URIs       []string
}

// Msg is one unsealed chunk or an assembled message.
type Msg struct {
	Kind   string // "MSGF", "OPNF", "ERRF", "ACKF", ...
	ID     uint32
	Token  uint32
	Seq    uint32
	ReqID  uint32
	Body   []byte
	Policy string
	Cert   []byte
	Thumb  []byte
	Chunks int
	Size   int // bytes on the wire
	MaxLen int // largest chunk
}

// ErrMsg is an error message of the peer.
type ErrMsg struct {
	Code   ua.StatusCode
	Reason string
}

func (e *ErrMsg) Error() string { return fmt.Sprintf("ERR 0x%08x %q", uint32(e.Code), e.Reason) }

// ErrProtocol marks a peer that breaks the protocol.
var ErrProtocol = errors.New("wire: protocol error")

func frame(kind string, body []byte) []byte {
	b := make([]byte, 0, 8+len(body))
	b = append(b, kind...)
	b = le.AppendUint32(b, uint32(8+len(body)))
	return append(b, body...)
}

func appendStr(b []byte, s []byte) []byte {
	if s == nil {
		return le.AppendUint32(b, 0xFFFFFFFF)
	}
	b = le.AppendUint32(b, uint32(len(s)))
	return append(b, s...)
}

// Hello makes a Hello message.
func Hello(version, recv, send, maxMsg, maxChunks uint32, url string) []byte {
	var b []byte
	for _, x := range []uint32{version, recv, send, maxMsg, maxChunks} {
		b = le.AppendUint32(b, x)
	}
	return frame("HELF", appendStr(b, []byte(url)))
}

// Ack makes an Acknowledge message.
func Ack(version, recv, send, maxMsg, maxChunks uint32) []byte {
	var b []byte
	for _, x := range []uint32{version, recv, send, maxMsg, maxChunks} {
		b = le.AppendUint32(b, x)
	}
	return frame("ACKF", b)
}

// Frame makes an arbitrary message.
func Frame(kind string, body []byte) []byte { return frame(kind, body) }

// ReadRaw reads one chunk.
func (c *Channel) ReadRaw(timeout time.Duration) ([]byte, error) {
	if timeout > 0 {
		c.Conn.SetReadDeadline(time.Now().Add(timeout))
	} else {
		c.Conn.SetReadDeadline(time.Time{})
	}
	h := make([]byte, 8)
	if _, err := io.ReadFull(c.Conn, h); err != nil {
		return nil, err
	}
	n := int(le.Uint32(h[4:]))
	if n < 8 || n > 1<<26 {
		return nil, fmt.Errorf("%w: chunk length %d", ErrProtocol, n)
	}
	b := make([]byte, n)
	copy(b, h)
	if _, err := io.ReadFull(c.Conn, b[8:]); err != nil {
		return nil, err
	}
	return b, nil
}

// Write sends raw bytes.
func (c *Channel) Write(b []byte) error {
	c.Conn.SetWriteDeadline(time.Now().Add(30 * time.Second))
	_, err := c.Conn.Write(b)
	return err
}

// NextSeq returns the next sequence number.
func (c *Channel) NextSeq() uint32 {
	if c.WrapAt > 0 && c.Seq >= c.WrapAt {
		c.Seq, c.WrapAt = c.WrapTo, 0
		return c.Seq
	}
	c.Seq++
	if c.Seq == 0 {
		c.Seq = 1
	}
	return c.Seq
}

// MaxBody is the largest body of a symmetric chunk of at most n bytes.
func (c *Channel) MaxBody(n int) int {
	switch c.Mode {
	case ModeSignAndEncrypt:
		return (n-16)/16*16 - 8 - 1 - c.Suite.MacSize
	case ModeSign:
		return n - 24 - c.Suite.MacSize
	}
	return n - 24
}

// Seal makes a symmetric chunk.
func (c *Channel) Seal(kind string, seq, reqID uint32, body []byte) []byte {
	return c.SealToken(kind, c.Token, c.SendKeys[c.Token], seq, reqID, body, -1)
}

// SealToken makes a symmetric chunk under given keys; padding < 0 means the correct padding.
func (c *Channel) SealToken(kind string, token uint32, k *Keys, seq, reqID uint32, body []byte, padByte int) []byte {
	b := make([]byte, 0, len(body)+128)
	b = append(b, kind...)
	b = append(b, 0, 0, 0, 0)
	b = le.AppendUint32(b, c.ID)
	b = le.AppendUint32(b, token)
	b = le.AppendUint32(b, seq)
	b = le.AppendUint32(b, reqID)
	b = append(b, body...)
	if c.Mode == ModeSignAndEncrypt {
		pad := (16 - (8+len(body)+1+c.Suite.MacSize)%16) % 16
		v := byte(pad)
		if padByte >= 0 {
			v = byte(padByte)
		}
		for i := 0; i <= pad; i++ {
			b = append(b, v)
		}
	}
	if c.Mode == ModeNone {
		le.PutUint32(b[4:], uint32(len(b)))
		return b
	}
	le.PutUint32(b[4:], uint32(len(b)+c.Suite.MacSize))
	b = append(b, c.Suite.MAC(k, b)...)
	if c.Mode == ModeSignAndEncrypt {
		if err := k.crypt(b[16:], true); err != nil {
			panic(err)
		}
	}
	return b
}

// AsymHeader makes the plain header of an OPN chunk (length still zero).
func (c *Channel) AsymHeader(kind string) []byte {
	b := append([]byte(kind), 0, 0, 0, 0)
	b = le.AppendUint32(b, c.ID)
	b = appendStr(b, []byte(c.Suite.URI))
	if c.Suite.URI == None {
		b = appendStr(b, nil)
		return appendStr(b, nil)
	}
	b = appendStr(b, c.Cert)
	t := sha1.Sum(leaf(c.RemoteCert))
	return appendStr(b, t[:])
}

// leaf cuts the first certificate off a chain.
func leaf(der []byte) []byte {
	if len(der) > 4 && der[0] == 0x30 {
		n := 0
		switch {
		case der[1] < 0x80:
			n = 2 + int(der[1])
		case der[1] == 0x81:
			n = 3 + int(der[2])
		case der[1] == 0x82:
			n = 4 + int(der[2])<<8 + int(der[3])
		}
		if n > 0 && n <= len(der) {
			return der[:n]
		}
	}
	return der
}

// SealAsym makes an asymmetric chunk.
func (c *Channel) SealAsym(kind string, seq, reqID uint32, body []byte) []byte {
	return c.SealAsymPad(kind, seq, reqID, body, -1)
}

// SealAsymPad is SealAsym with another value in the padding size bytes.
func (c *Channel) SealAsymPad(kind string, seq, reqID uint32, body []byte, padVal int) []byte {
	b := c.AsymHeader(kind)
	hdr := len(b)
	b = le.AppendUint32(b, seq)
	b = le.AppendUint32(b, reqID)
	b = append(b, body...)
	if c.Suite.URI == None {
		le.PutUint32(b[4:], uint32(len(b)))
		return b
	}
	pub := RSAPub(c.RemoteCert)
	sig := c.Key.Size()
	pb := c.Suite.PlainBlock(pub)
	extra := pub.Size() > 256
	ph := 1
	if extra {
		ph = 2
	}
	pad := (pb - (len(b)-hdr+ph+sig)%pb) % pb
	v := pad
	if padVal >= 0 {
		v = padVal
	}
	for i := 0; i <= pad; i++ {
		b = append(b, byte(v))
	}
	if extra {
		b = append(b, byte(v>>8))
	}
	total := hdr + (len(b)-hdr+sig)/pb*pub.Size()
	le.PutUint32(b[4:], uint32(total))
	b = append(b, c.Suite.Sign(c.Key, b)...)
	return append(b[:hdr:hdr], c.Suite.Encrypt(pub, b[hdr:])...)
}

func rdU32(b []byte, off *int) (uint32, error) {
	if *off+4 > len(b) {
		return 0, fmt.Errorf("%w: short chunk", ErrProtocol)
	}
	v := le.Uint32(b[*off:])
	*off += 4
	return v, nil
}

func rdBytes(b []byte, off *int) ([]byte, error) {
	n, err := rdU32(b, off)
	if err != nil {
		return nil, err
	}
	if int32(n) < 0 {
		return nil, nil
	}
	if *off+int(n) > len(b) {
		return nil, fmt.Errorf("%w: short chunk", ErrProtocol)
	}
	s := b[*off : *off+int(n)]
	*off += int(n)
	return s, nil
}

// Unseal opens a chunk. OPN chunks with another policy than the channel's are opened with their own.
func (c *Channel) Unseal(raw []byte) (*Msg, error) {
	raw = append([]byte(nil), raw...)
	m := &Msg{Kind: string(raw[:4]), Size: len(raw), MaxLen: len(raw), Chunks: 1}
	off := 8
	var err error
	switch m.Kind {
	case "ERRF":
		code, err := rdU32(raw, &off)
		if err != nil {
			return nil, err
		}
		r, err := rdBytes(raw, &off)
		if err != nil {
			return nil, err
		}
		return m, &ErrMsg{ua.StatusCode(code), string(r)}
	case "ACKF", "HELF":
		m.Body = raw[8:]
		return m, nil
	case "OPNF":
		if m.ID, err = rdU32(raw, &off); err != nil {
			return nil, err
		}
		p, err := rdBytes(raw, &off)
		if err != nil {
			return nil, err
		}
		m.Policy = string(p)
		if m.Cert, err = rdBytes(raw, &off); err != nil {
			return nil, err
		}
		if m.Thumb, err = rdBytes(raw, &off); err != nil {
			return nil, err
		}
		m.Cert = append([]byte(nil), m.Cert...)
		s := SuiteFor(m.Policy)
		if s == nil {
			return nil, fmt.Errorf("%w: policy %q", ErrProtocol, m.Policy)
		}
		end := len(raw)
		if s.URI != None {
			t := sha1.Sum(leaf(c.Cert))
			if !bytes.Equal(t[:], m.Thumb) {
				return nil, fmt.Errorf("%w: OPN thumbprint %x", ErrProtocol, m.Thumb)
			}
			pub := RSAPub(m.Cert)
			if pub == nil {
				return nil, fmt.Errorf("%w: OPN without certificate", ErrProtocol)
			}
			plain, err := s.Decrypt(c.Key, raw[off:])
			if err != nil {
				return nil, fmt.Errorf("%w: OPN: %v", ErrProtocol, err)
			}
			raw = append(raw[:off:off], plain...)
			sig := pub.Size()
			if len(raw) < off+8+sig+1 {
				return nil, fmt.Errorf("%w: short OPN", ErrProtocol)
			}
			if err := s.Verify(pub, raw[:len(raw)-sig], raw[len(raw)-sig:]); err != nil {
				return nil, fmt.Errorf("%w: OPN signature: %v", ErrProtocol, err)
			}
			end = len(raw) - sig
			pad := 0
			if c.Key.Size() > 256 {
				end--
				pad = int(raw[end]) << 8
			}
			pad += int(raw[end-1])
			if end-1-pad < off+8 {
				return nil, fmt.Errorf("%w: OPN padding", ErrProtocol)
			}
			for _, x := range raw[end-1-pad : end-1] {
				if x != byte(pad) {
					return nil, fmt.Errorf("%w: OPN padding bytes", ErrProtocol)
				}
			}
			end -= 1 + pad
		}
		if m.Seq, err = rdU32(raw, &off); err != nil {
			return nil, err
		}
		if m.ReqID, err = rdU32(raw, &off); err != nil {
			return nil, err
		}
		m.Body = raw[off:end]
		return m, nil
	}
	switch m.Kind[:3] {
	case "MSG", "CLO":
	default:
		return nil, fmt.Errorf("%w: message type %q", ErrProtocol, m.Kind)
	}
	if m.ID, err = rdU32(raw, &off); err != nil {
		return nil, err
	}
	if m.Token, err = rdU32(raw, &off); err != nil {
		return nil, err
	}
	if m.ID != c.ID {
		return nil, fmt.Errorf("%w: channel id %d, want %d", ErrProtocol, m.ID, c.ID)
	}
	end := len(raw)
	if c.Mode != ModeNone {
		k := c.RecvKeys[m.Token]
		if k == nil {
			return nil, fmt.Errorf("%w: token %d", ErrProtocol, m.Token)
		}
		if c.Mode == ModeSignAndEncrypt {
			if err := k.crypt(raw[16:], false); err != nil {
				return nil, fmt.Errorf("%w: %v", ErrProtocol, err)
			}
		}
		end -= c.Suite.MacSize
		if end < 24 {
			return nil, fmt.Errorf("%w: short chunk", ErrProtocol)
		}
		if !hmac.Equal(c.Suite.MAC(k, raw[:end]), raw[end:]) {
			return nil, fmt.Errorf("%w: signature of a %s chunk under token %d", ErrProtocol, m.Kind, m.Token)
		}
		if c.Mode == ModeSignAndEncrypt {
			pad := int(raw[end-1])
			if end-1-pad < 24 {
				return nil, fmt.Errorf("%w: padding", ErrProtocol)
			}
			for _, x := range raw[end-1-pad : end-1] {
				if x != byte(pad) {
					return nil, fmt.Errorf("%w: padding bytes", ErrProtocol)
				}
			}
			end -= 1 + pad
		}
	} else if c.SendKeys != nil && c.Token != 0 && m.Token == 0 {
		return nil, fmt.Errorf("%w: token 0", ErrProtocol)
	}
	if m.Seq, err = rdU32(raw, &off); err != nil {
		return nil, err
	}
	if m.ReqID, err = rdU32(raw, &off); err != nil {
		return nil, err
	}
	m.Body = raw[off:end]
	return m, nil
}

// seqOK tracks the sequence numbers of the peer: each is one more than the previous, or wraps to a value below 1024.
func (c *Channel) seqOK(s uint32) bool {
	ok := !c.SeenRecv || s == c.LastRecv+1 || (c.LastRecv >= 4294966271 && s < 1024)
	c.SeenRecv, c.LastRecv = true, s
	return ok
}

// Recv receives one message, assembled.
func (c *Channel) Recv(timeout time.Duration) (*Msg, error) {
	var all *Msg
	for {
		raw, err := c.ReadRaw(timeout)
		if err != nil {
			return nil, err
		}
		if c.MaxRecv > 0 && len(raw) > c.MaxRecv {
			return nil, fmt.Errorf("%w: chunk of %d bytes, the negotiated limit is %d", ErrProtocol, len(raw), c.MaxRecv)
		}
		m, err := c.Unseal(raw)
		if err != nil {
			return m, err
		}
		if m.Kind == "ACKF" || m.Kind == "HELF" {
			return m, nil
		}
		if !c.seqOK(m.Seq) {
			return nil, fmt.Errorf("%w: sequence number %d", ErrProtocol, m.Seq)
		}
		if all == nil {
			all = m
		} else {
			if m.ReqID != all.ReqID {
				return nil, fmt.Errorf("%w: chunks of messages %d and %d interleaved", ErrProtocol, all.ReqID, m.ReqID)
			}
			all.Body = append(all.Body, m.Body...)
			all.Chunks++
			all.Size += m.Size
			all.MaxLen = max(all.MaxLen, m.MaxLen)
			all.Kind = m.Kind
		}
		switch m.Kind[3] {
		case 'F':
			return all, nil
		case 'A':
			return all, fmt.Errorf("%w: message aborted", ErrProtocol)
		case 'C':
		default:
			return nil, fmt.Errorf("%w: chunk type %q", ErrProtocol, m.Kind)
		}
	}
}

// EncodeMsg encodes a service message (pointer to a generated request or response) with its type id.
func EncodeMsg(v any) ([]byte, error) {
	t := reflect.TypeOf(v)
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	id := ref.TypeID(t)
	if id == 0 {
		return nil, fmt.Errorf("wire: %v has no encoding id", t)
	}
	b, err := ref.Encode(v, nil)
	if err != nil {
		return nil, err
	}
	return append(TypeHeader(id), b...), nil
}

// TypeHeader encodes the type id of a message.
func TypeHeader(id uint32) []byte {
	if id <= 65535 {
		return []byte{1, 0, byte(id), byte(id >> 8)}
	}
	b := []byte{2, 0, 0}
	return le.AppendUint32(b, id)
}

// DecodeMsg decodes a service message.
func DecodeMsg(b []byte) (any, error) {
	var nid ua.NodeID
	n, err := ref.Decode(b, &nid, nil)
	if err != nil {
		return nil, err
	}
	num, ok := nid.(ua.NodeIDNumeric)
	if !ok || num.NamespaceIndex != 0 {
		return nil, fmt.Errorf("%w: message type id %v", ErrProtocol, nid)
	}
	t, ok := ref.TypeForID(num.ID)
	if !ok {
		return nil, fmt.Errorf("%w: message type id %v", ErrProtocol, nid)
	}
	v := reflect.New(t)
	used, err := ref.Decode(b[n:], v.Interface(), nil)
	if err != nil {
		return nil, fmt.Errorf("decoding %v: %w", t, err)
	}
	if used != len(b)-n {
		return nil, fmt.Errorf("%w: %d bytes after a %v", ErrProtocol, len(b)-n-used, t)
	}
	return v.Interface(), nil
}

// Chunk splits and seals a message; sizes gives body sizes for the first chunks, the rest uses the maximum.
func (c *Channel) Chunk(kind string, reqID uint32, body []byte, sizes []int) [][]byte {
	mb := c.MaxBody(c.MaxChunk)
	var out [][]byte
	for {
		n := min(mb, len(body))
		if len(sizes) > 0 {
			n = min(n, max(sizes[0], 0))
			sizes = sizes[1:]
		}
		k := kind + "C"
		if n == len(body) && len(sizes) == 0 {
			k = kind + "F"
		}
		out = append(out, c.Seal(k, c.NextSeq(), reqID, body[:n]))
		body = body[n:]
		if k[3] == 'F' {
			return out
		}
	}
}
