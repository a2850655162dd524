package raw

import (
	"crypto/cipher"
	"encoding/binary"
	"sync"

	"github.com/awcullen/opcua/ua"
)

// Spy sits between a client and a server, knows the private keys of both, and
// opens and makes secured messages in the name of the server.
type Spy struct {
	mu     sync.Mutex
	cl, sv *Chan
	plain  bool
	nonce  map[uint32][]byte
}

// NewSpy makes a spy on one connection.
func NewSpy(p *Policy, mode int, client, server *Ident, ec ua.EncodingContext) *Spy {
	ck := func(me, other *Ident) *Chan {
		return &Chan{P: p, Mode: mode, Me: me, ServerCert: other.Cert, ServerKey: &other.Key.PublicKey, EC: ec, ckeys: map[uint32]*keys{}, skeys: map[uint32]*keys{}}
	}
	return &Spy{cl: ck(client, server), sv: ck(server, client), nonce: map[uint32][]byte{}}
}

// C2S sees a message of the client.
func (s *Spy) C2S(b []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(b) < 16 || string(b[:4]) != "OPNF" {
		return
	}
	n := int(binary.LittleEndian.Uint32(b[12:]))
	if 16+n > len(b) || string(b[16:16+n]) != s.sv.P.URI || s.sv.P.Nonce == 0 {
		s.plain = true
		return
	}
	s.sv.gotSeq = false
	r, err := s.sv.Unwrap(b)
	if err != nil {
		return
	}
	if v, err := Decode(s.sv.EC, r.Body); err == nil {
		if o, ok := v.(*ua.OpenSecureChannelRequest); ok {
			s.nonce[o.RequestHandle] = []byte(o.ClientNonce)
		}
	}
}

// Plain turns a message of the server into what it would be without security.
func (s *Spy) Plain(b []byte) ([]byte, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.plain || len(b) < 24 || (string(b[:3]) != "OPN" && string(b[:3]) != "MSG") {
		return b, false
	}
	s.cl.gotSeq = false
	s.cl.ChannelID = binary.LittleEndian.Uint32(b[8:])
	r, err := s.cl.Unwrap(b)
	if err != nil {
		return b, false
	}
	out := append([]byte{}, b[:12]...)
	if r.Type == "OPNF" {
		if v, err := Decode(s.cl.EC, r.Body); err == nil {
			if o, ok := v.(*ua.OpenSecureChannelResponse); ok {
				s.cl.nonce = s.nonce[o.RequestHandle]
				s.cl.install(o)
				s.sv.ChannelID, s.sv.TokenID = s.cl.ChannelID, s.cl.TokenID
				s.sv.ckeys[s.cl.TokenID] = s.cl.skeys[s.cl.TokenID]
			}
		}
		out = lestr(out, s.cl.P.URI)
		out = le32(le32(out, 0xffffffff), 0xffffffff)
	} else {
		out = le32(out, r.Token)
	}
	out = append(le32(le32(out, r.Seq), r.ReqID), r.Body...)
	binary.LittleEndian.PutUint32(out[4:], uint32(len(out)))
	return out, true
}

// Seal secures what Plain returned, in the name of the server. With pad >= 0
// the padding says so, whatever there is.
func (s *Spy) Seal(b []byte, pad int) []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(b) < 24 {
		return b
	}
	switch string(b[:3]) {
	case "MSG":
		u := binary.LittleEndian.Uint32
		s.sv.ChannelID = u(b[8:])
		if s.sv.ckeys[s.sv.TokenID] == nil {
			return b
		}
		if pad < 0 || s.sv.Mode != ModeEncrypt {
			return s.sv.SecureChunk(string(b[:4]), b[24:], u(b[16:]), u(b[20:]), u(b[12:]))
		}
		k := s.sv.ckeys[u(b[12:])]
		if k == nil {
			return b
		}
		b = append([]byte{}, b...)
		n := len(b) - 16 + 1 + s.sv.P.Sig
		for i := 0; i <= (16-n%16)%16; i++ {
			b = append(b, byte(pad))
		}
		binary.LittleEndian.PutUint32(b[4:], uint32(len(b)+s.sv.P.Sig))
		b = append(b, s.sv.P.mac(k, b)...)
		cipher.NewCBCEncrypter(k.blk, k.iv).CryptBlocks(b[16:], b[16:])
		return b
	case "OPN":
		p := 12 + 4 + len(s.sv.P.URI) + 8
		if len(b) < p+8 || string(b[16:16+len(s.sv.P.URI)]) != s.sv.P.URI {
			return b
		}
		s.sv.ChannelID = binary.LittleEndian.Uint32(b[8:])
		s.sv.SetSeq(binary.LittleEndian.Uint32(b[p:]) - 1)
		e, err := s.sv.buildOPN(b[p+8:], binary.LittleEndian.Uint32(b[p+4:]), pad)
		if err != nil {
			return b
		}
		copy(e, b[:4])
		return e
	}
	return b
}
