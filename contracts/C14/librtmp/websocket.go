package librtmp

import (
	"errors"
	"net"
	"time"
)

//verif:include connread

// vConn records what is written and fails from the write after the first "fail" ones.
type vConn struct {
	out  []byte
	fail int
}

func (c *vConn) Write(p []byte) (int, error) {
	if c.fail == 0 {
		return 0, errors.New("broken")
	}
	c.fail--
	c.out = append(c.out, p...)
	return len(p), nil
}
func (c *vConn) Read(p []byte) (int, error)         { return 0, errors.New("not used") }
func (c *vConn) Close() error                       { return nil }
func (c *vConn) LocalAddr() net.Addr                { return nil }
func (c *vConn) RemoteAddr() net.Addr               { return nil }
func (c *vConn) SetDeadline(t time.Time) error      { return nil }
func (c *vConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *vConn) SetWriteDeadline(t time.Time) error { return nil }

// Every payload: shortest length form, final, unmasked, unmodified; a failed write is reported.
func vh_write(op byte, payload []byte, fail int) {
	op &= 15
	fail &= 3
	in := append([]byte(nil), payload...)
	n := len(in)
	c := &vConn{fail: fail}
	ws := &wsConn{conn: c}
	err := ws.writeFrame(wsOpcode(op), payload)
	vEnsures("payload untouched", vBytesEq(payload, in))
	need := 2
	if n == 0 {
		need = 1
	}
	vEnsures("failure reported", (err != nil) == (fail < need))
	if err != nil {
		return
	}
	out := c.out
	h := vFrame(out, op, n)
	vEnsures("header", h > 0 && len(out) == h+n)
	if h > 0 && len(out) == h+n {
		vEnsures("payload", vBytesEq(out[h:], in))
	}
}

// vFrame returns the header length when out starts with the shortest header
// of a final, unmasked frame of n bytes, and 0 otherwise.
func vFrame(out []byte, op byte, n int) int {
	if len(out) < 2 || out[0] != 0x80|op {
		return 0
	}
	if n < 126 {
		if int(out[1]) != n {
			return 0
		}
		return 2
	}
	if n < 65536 {
		if len(out) < 4 || out[1] != 126 || int(out[2])<<8|int(out[3]) != n {
			return 0
		}
		return 4
	}
	if len(out) < 10 || out[1] != 127 || vBE64(out[2:10]) != uint64(n) {
		return 0
	}
	return 10
}

func vBE64(b []byte) uint64 {
	return uint64(b[0])<<56 | uint64(b[1])<<48 | uint64(b[2])<<40 | uint64(b[3])<<32 |
		uint64(b[4])<<24 | uint64(b[5])<<16 | uint64(b[6])<<8 | uint64(b[7])
}

// What was written reads back, and reading stops at the end of the frame.
func vh_roundtrip(op byte, payload, more []byte) {
	vRequires(len(payload) <= 1<<24)
	op &= 15
	in := append([]byte(nil), payload...)
	c := &vConn{fail: 2}
	ws := &wsConn{conn: c}
	if err := ws.writeFrame(wsOpcode(op), payload); err != nil {
		return
	}
	ws.br = vReaderOf(append(c.out, more...))
	got, p, err := ws.readFrame()
	vEnsures("accepted", err == nil)
	vEnsures("opcode", got == wsOpcode(op))
	vEnsures("payload", vBytesEq(p, in))
	vEnsures("what follows stays", vBytesEq(vRest(ws.br), more))
}

// Any bytes from a client: the frame they start with, or an error.
func vh_read(in []byte) {
	raw := append([]byte(nil), in...)
	n := len(raw)
	h, size := vHead(raw)
	mask := make([]byte, 4)
	if h >= 6 && raw[1]&0x80 != 0 {
		copy(mask, raw[h-4:h])
	}
	ws := &wsConn{br: vReaderOf(in)}
	op, p, err := ws.readFrame()
	vEnsures("input untouched", vBytesEq(in, raw))
	if h == 0 || size > 1<<40 || size > uint64(n-h) {
		vEnsures("incomplete or absurd frame refused", err != nil)
		return
	}
	if raw[0]&0x80 == 0 {
		vEnsures("fragment refused", err != nil)
		return
	}
	if size > 1<<24 {
		return // refused or not
	}
	vEnsures("accepted", err == nil)
	if err != nil {
		return
	}
	vEnsures("opcode", op == wsOpcode(raw[0]&15))
	vEnsures("length", len(p) == int(size))
	if len(p) != int(size) {
		return
	}
	if raw[1]&0x80 == 0 {
		vEnsures("payload", vBytesEq(p, raw[h:h+len(p)]))
	} else {
		vEnsures("unmasked payload", vForall(0, len(p), func(k int) bool { return p[k] == raw[h+k]^mask[k%4] }))
	}
	vEnsures("what follows stays", vBytesEq(vRest(ws.br), raw[h+len(p):]))
}

// vHead returns the header length of the frame b starts with (0 when cut short) and the payload length it announces.
func vHead(b []byte) (int, uint64) {
	if len(b) < 2 {
		return 0, 0
	}
	h, size := 2, uint64(b[1]&0x7f)
	if size == 126 {
		if len(b) < 4 {
			return 0, 0
		}
		h, size = 4, uint64(b[2])<<8|uint64(b[3])
	} else if size == 127 {
		if len(b) < 10 {
			return 0, 0
		}
		h, size = 10, vBE64(b[2:10])
	}
	if b[1]&0x80 != 0 {
		h += 4
	}
	if len(b) < h {
		return 0, 0
	}
	return h, size
}

//verif:scope readFrame
func inv_unmask(payload, raw, mask []byte, h, ri int) bool {
	return ri >= -1 && ri < len(payload) && vForall(0, len(payload), func(k int) bool {
		if k <= ri {
			return payload[k] == raw[h+k]^mask[k%4]
		}
		return payload[k] == raw[h+k]
	})
}
