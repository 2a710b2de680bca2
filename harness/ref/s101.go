package ref

import "fmt"

const (
	BOF = 0xfe
	EOF = 0xff
	CE  = 0xfd

	First = 0x80
	Last  = 0x40
	Empty = 0x20
)

// CRC is CRC-CCITT, reflected, computed bit by bit; the result is what is sent
// (inverted), low octet first.
func CRC(b []byte) uint16 {
	crc := uint16(0xffff)
	for _, x := range b {
		crc ^= uint16(x)
		for i := 0; i < 8; i++ {
			if crc&1 != 0 {
				crc = crc>>1 ^ 0x8408
			} else {
				crc >>= 1
			}
		}
	}
	return ^crc
}

// WithCRC appends the checksum.
func WithCRC(b []byte) []byte {
	c := CRC(b)
	return append(append([]byte{}, b...), byte(c), byte(c>>8))
}

// Wrap escapes the content of a frame, checksum included, and adds BOF and EOF.
func Wrap(content []byte) []byte {
	out := []byte{BOF}
	for _, x := range content {
		if x >= 0xf8 {
			out = append(out, CE, x^0x20)
		} else {
			out = append(out, x)
		}
	}
	return append(out, EOF)
}

// EmberContent is the content of a frame of a message, without checksum.
func EmberContent(flags byte, payload []byte) []byte {
	return append([]byte{0, 0x0e, 0, 1, flags, 1, 2, 0x1f, 2}, payload...)
}

func EmberFrame(flags byte, payload []byte) []byte {
	return Wrap(WithCRC(EmberContent(flags, payload)))
}

// KeepAlive is a keep-alive request or response frame.
func KeepAlive(request bool) []byte {
	c := byte(2)
	if request {
		c = 1
	}
	return Wrap(WithCRC([]byte{0, 0x0e, c, 1}))
}

// Message cut into frames at the offsets given (ascending).
func Frames(payload []byte, cuts []int) [][]byte {
	var out [][]byte
	from := 0
	for i := 0; i <= len(cuts); i++ {
		to := len(payload)
		if i < len(cuts) {
			to = cuts[i]
		}
		f := byte(0)
		if i == 0 {
			f |= First
		}
		if i == len(cuts) {
			f |= Last
		}
		out = append(out, EmberFrame(f, payload[from:to]))
		from = to
	}
	return out
}

// Frame is one received frame.
type Frame struct {
	Raw     []byte // with BOF and EOF
	Content []byte // unescaped, without checksum
	Err     string // not a valid frame
	Cmd     byte   // 0 ember, 1 keep-alive request, 2 response
	Flags   byte
	Payload []byte
}

// ParseFrame is strict about one frame with its BOF and EOF.
func ParseFrame(raw []byte) Frame {
	f := Frame{Raw: raw}
	bad := func(s string, a ...interface{}) Frame { f.Err = fmt.Sprintf(s, a...); return f }
	if len(raw) < 2 || raw[0] != BOF || raw[len(raw)-1] != EOF {
		return bad("does not start with BOF and end with EOF")
	}
	var c []byte
	in := raw[1 : len(raw)-1]
	for i := 0; i < len(in); i++ {
		x := in[i]
		if x >= 0xf8 && x != CE {
			return bad("reserved octet %#x at %d", x, i+1)
		}
		if x == CE {
			i++
			if i >= len(in) || in[i]^0x20 < 0xf8 {
				return bad("bad escape at %d", i)
			}
			x = in[i] ^ 0x20
		}
		c = append(c, x)
	}
	if len(c) < 2 {
		return bad("no checksum")
	}
	n := len(c) - 2
	if crc := CRC(c[:n]); c[n] != byte(crc) || c[n+1] != byte(crc>>8) {
		return bad("checksum %x instead of %04x", c[n:], crc)
	}
	c = c[:n]
	f.Content = c
	if len(c) < 4 {
		return bad("short header %x", c)
	}
	if c[0] != 0 || c[1] != 0x0e {
		return bad("slot %#x, message type %#x", c[0], c[1])
	}
	f.Cmd = c[2]
	if c[3] != 1 {
		return bad("version %d", c[3])
	}
	switch f.Cmd {
	case 1, 2:
		if len(c) != 4 {
			return bad("keep-alive of %d octets", len(c))
		}
		return f
	case 0:
	default:
		return bad("command %d", f.Cmd)
	}
	if len(c) < 9 {
		return bad("short Ember header %x", c)
	}
	f.Flags = c[4]
	if c[5] != 1 || c[6] != 2 || c[7] != 0x1f || c[8] != 2 {
		return bad("DTD, application bytes: %x", c[5:9])
	}
	f.Payload = c[9:]
	return f
}

// Receiver reassembles a stream strictly, as a provider would.
type Receiver struct {
	in      bool
	cur     []byte
	msg     []byte
	inMsg   bool
	OnFrame func(f Frame)
	OnMsg   func(payload []byte)
	OnError func(text string)
}

func (r *Receiver) Feed(b []byte) {
	for _, x := range b {
		if x == BOF {
			if r.in {
				r.OnError(fmt.Sprintf("frame without end: %x", r.cur))
			}
			r.in = true
			r.cur = []byte{BOF}
			continue
		}
		if !r.in {
			r.OnError(fmt.Sprintf("octet %#x between frames", x))
			continue
		}
		r.cur = append(r.cur, x)
		if x == EOF {
			r.in = false
			r.frame(ParseFrame(r.cur))
		}
	}
}

func (r *Receiver) frame(f Frame) {
	if f.Err != "" {
		r.OnError(fmt.Sprintf("invalid frame (%s): %x", f.Err, f.Raw))
		return
	}
	if r.OnFrame != nil {
		r.OnFrame(f)
	}
	if f.Cmd != 0 {
		return
	}
	if f.Flags&0x1f != 0 {
		r.OnError(fmt.Sprintf("flags %#x", f.Flags))
	}
	if f.Flags&First != 0 {
		if r.inMsg {
			r.OnError("first frame within a message")
		}
		r.msg, r.inMsg = nil, true
	} else if !r.inMsg {
		r.OnError("middle or last frame without first")
	}
	r.msg = append(r.msg, f.Payload...)
	if f.Flags&Last != 0 {
		r.inMsg = false
		r.OnMsg(r.msg)
	}
}
