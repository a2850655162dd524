// Package raw is an independent wire-level OPC UA TCP client: its own framing,
// chunking, key derivation, signing and encryption (only the body codec of the
// code under test is shared).
package raw

import (
	"crypto"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/x509"
	"errors"
	"hash"
)

// Policy describes one security policy.
type Policy struct {
	Name, URI                  string
	SigKey, EncKey, Block, Sig int
	Nonce                      int
	SHA1                       bool
	OAEP                       int // 0 pkcs1v15, 1 oaep-sha1, 2 oaep-sha256
	PSS                        bool
}

const base = "http://opcfoundation.org/UA/SecurityPolicy#"

// Policies by short name.
var Policies = map[string]*Policy{
	"None":                {Name: "None", URI: base + "None", Block: 1},
	"Basic128Rsa15":       {Name: "Basic128Rsa15", URI: base + "Basic128Rsa15", SigKey: 16, EncKey: 16, Block: 16, Sig: 20, Nonce: 16, SHA1: true},
	"Basic256":            {Name: "Basic256", URI: base + "Basic256", SigKey: 24, EncKey: 32, Block: 16, Sig: 20, Nonce: 32, SHA1: true, OAEP: 1},
	"Basic256Sha256":      {Name: "Basic256Sha256", URI: base + "Basic256Sha256", SigKey: 32, EncKey: 32, Block: 16, Sig: 32, Nonce: 32, OAEP: 1},
	"Aes128Sha256RsaOaep": {Name: "Aes128Sha256RsaOaep", URI: base + "Aes128_Sha256_RsaOaep", SigKey: 32, EncKey: 16, Block: 16, Sig: 32, Nonce: 32, OAEP: 1},
	"Aes256Sha256RsaPss":  {Name: "Aes256Sha256RsaPss", URI: base + "Aes256_Sha256_RsaPss", SigKey: 32, EncKey: 32, Block: 16, Sig: 32, Nonce: 32, OAEP: 2, PSS: true},
}

// PolicyNames lists the secured policies.
var PolicyNames = []string{"Basic128Rsa15", "Basic256", "Basic256Sha256", "Aes128Sha256RsaOaep", "Aes256Sha256RsaPss"}

func (p *Policy) hash() func() hash.Hash {
	if p.SHA1 {
		return sha1.New
	}
	return sha256.New
}

func (p *Policy) digest(b []byte) (crypto.Hash, []byte) {
	if p.SHA1 {
		h := sha1.Sum(b)
		return crypto.SHA1, h[:]
	}
	h := sha256.Sum256(b)
	return crypto.SHA256, h[:]
}

// RSASign signs.
func (p *Policy) RSASign(k *rsa.PrivateKey, b []byte) ([]byte, error) {
	h, d := p.digest(b)
	if p.PSS {
		return rsa.SignPSS(rand.Reader, k, h, d, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
	}
	return rsa.SignPKCS1v15(rand.Reader, k, h, d)
}

// RSAVerify verifies.
func (p *Policy) RSAVerify(k *rsa.PublicKey, b, sig []byte) error {
	h, d := p.digest(b)
	if p.PSS {
		return rsa.VerifyPSS(k, h, d, sig, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
	}
	return rsa.VerifyPKCS1v15(k, h, d, sig)
}

func (p *Policy) pad() int {
	switch p.OAEP {
	case 1:
		return 42
	case 2:
		return 66
	}
	return 11
}

func (p *Policy) encBlock(k *rsa.PublicKey, b []byte) ([]byte, error) {
	switch p.OAEP {
	case 1:
		return rsa.EncryptOAEP(sha1.New(), rand.Reader, k, b, nil)
	case 2:
		return rsa.EncryptOAEP(sha256.New(), rand.Reader, k, b, nil)
	}
	return rsa.EncryptPKCS1v15(rand.Reader, k, b)
}

func (p *Policy) decBlock(k *rsa.PrivateKey, b []byte) ([]byte, error) {
	switch p.OAEP {
	case 1:
		return rsa.DecryptOAEP(sha1.New(), rand.Reader, k, b, nil)
	case 2:
		return rsa.DecryptOAEP(sha256.New(), rand.Reader, k, b, nil)
	}
	return rsa.DecryptPKCS1v15(rand.Reader, k, b)
}

// RSAEncrypt encrypts any length.
func (p *Policy) RSAEncrypt(k *rsa.PublicKey, b []byte) ([]byte, error) {
	step := k.Size() - p.pad()
	var out []byte
	for len(b) > 0 {
		n := step
		if n > len(b) {
			n = len(b)
		}
		c, err := p.encBlock(k, b[:n])
		if err != nil {
			return nil, err
		}
		out = append(out, c...)
		b = b[n:]
	}
	return out, nil
}

// RSADecrypt decrypts any number of blocks.
func (p *Policy) RSADecrypt(k *rsa.PrivateKey, b []byte) ([]byte, error) {
	if len(b)%k.Size() != 0 {
		return nil, errors.New("ciphertext length")
	}
	var out []byte
	for len(b) > 0 {
		c, err := p.decBlock(k, b[:k.Size()])
		if err != nil {
			return nil, err
		}
		out = append(out, c...)
		b = b[k.Size():]
	}
	return out, nil
}

type keys struct {
	sig, enc, iv []byte
	blk          cipher.Block
}

func (p *Policy) prf(secret, seed []byte, n int) []byte {
	mac := hmac.New(p.hash(), secret)
	var out []byte
	a := seed
	for len(out) < n {
		mac.Reset()
		mac.Write(a)
		a = mac.Sum(nil)
		mac.Reset()
		mac.Write(a)
		mac.Write(seed)
		out = append(out, mac.Sum(nil)...)
	}
	return out[:n]
}

func (p *Policy) derive(secret, seed []byte) *keys {
	b := p.prf(secret, seed, p.SigKey+p.EncKey+p.Block)
	k := &keys{sig: b[:p.SigKey], enc: b[p.SigKey : p.SigKey+p.EncKey], iv: b[p.SigKey+p.EncKey:]}
	k.blk, _ = aes.NewCipher(k.enc)
	return k
}

func (p *Policy) mac(k *keys, b []byte) []byte {
	m := hmac.New(p.hash(), k.sig)
	m.Write(b)
	return m.Sum(nil)
}

func parseCert(der []byte) (*rsa.PublicKey, error) {
	c, err := x509.ParseCertificate(der)
	if err != nil {
		return nil, err
	}
	k, ok := c.PublicKey.(*rsa.PublicKey)
	if !ok {
		return nil, errors.New("not an RSA certificate")
	}
	return k, nil
}
