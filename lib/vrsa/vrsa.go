// Package rsa stands in for crypto/rsa: keys come from a small set, because
// making one takes long.
package rsa

import (
	"crypto"
	real "crypto/rsa"
	"hash"
	"io"
	"math/big"
	"sync"
)

type (
	PrivateKey       = real.PrivateKey
	PublicKey        = real.PublicKey
	PSSOptions       = real.PSSOptions
	OAEPOptions      = real.OAEPOptions
	PrecomputedValues = real.PrecomputedValues
	CRTValue         = real.CRTValue
)

var (
	ErrVerification   = real.ErrVerification
	ErrDecryption     = real.ErrDecryption
	ErrMessageTooLong = real.ErrMessageTooLong

	mu   sync.Mutex
	keys []*real.PrivateKey
	next int
)

// Keys is the number of different keys.
const Keys = 4

var _ *big.Int

func GenerateKey(r io.Reader, bits int) (*PrivateKey, error) {
	mu.Lock()
	defer mu.Unlock()
	if bits != 2048 {
		return real.GenerateKey(r, bits)
	}
	if len(keys) < Keys {
		k, err := real.GenerateKey(r, bits)
		if err != nil {
			return nil, err
		}
		keys = append(keys, k)
		return k, nil
	}
	next++
	return keys[next%Keys], nil
}

func SignPKCS1v15(r io.Reader, k *PrivateKey, h crypto.Hash, d []byte) ([]byte, error) {
	return real.SignPKCS1v15(r, k, h, d)
}
func VerifyPKCS1v15(k *PublicKey, h crypto.Hash, d, sig []byte) error {
	return real.VerifyPKCS1v15(k, h, d, sig)
}
func SignPSS(r io.Reader, k *PrivateKey, h crypto.Hash, d []byte, o *PSSOptions) ([]byte, error) {
	return real.SignPSS(r, k, h, d, o)
}
func VerifyPSS(k *PublicKey, h crypto.Hash, d, sig []byte, o *PSSOptions) error {
	return real.VerifyPSS(k, h, d, sig, o)
}
func EncryptOAEP(h hash.Hash, r io.Reader, k *PublicKey, m, l []byte) ([]byte, error) {
	return real.EncryptOAEP(h, r, k, m, l)
}
