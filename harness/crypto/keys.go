package crypto

import (
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"errors"
	"io"
	"math/big"

	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/pkg/zvx"
)

//vx:stub crypto/rsa.SignPKCS1v15 => vxRSASign
//vx:stub crypto/rsa.VerifyPKCS1v15 => vxRSAVerify
//vx:stub github.com/netsec-ethz/fpki/pkg/util.DERBytesToRSAPublic => vxParseKey

var errVxSignature = errors.New("verification error")
var errVxKey = errors.New("not a key")

// Under the engine, the key i is {E: i}, its encoding {0x30, i} and its only signature of a digest
// is "sig" i digest.
func vxRSASign(r io.Reader, k *rsa.PrivateKey, h crypto.Hash, digest []byte) ([]byte, error) {
	return append([]byte{'s', 'i', 'g', byte(k.E)}, digest...), nil
}

func vxRSAVerify(k *rsa.PublicKey, h crypto.Hash, digest []byte, sig []byte) error {
	if len(sig) == 4+len(digest) && string(sig[:4]) == string([]byte{'s', 'i', 'g', byte(k.E)}) && string(sig[4:]) == string(digest) {
		return nil
	}
	return errVxSignature
}

func vxParseKey(der []byte) (*rsa.PublicKey, error) {
	if len(der) != 2 || der[0] != 0x30 {
		return nil, errVxKey
	}
	return &rsa.PublicKey{N: new(big.Int), E: int(der[1])}, nil
}

var vxKeyStore [3]*rsa.PrivateKey

func vxKey(i int) (*rsa.PrivateKey, []byte) {
	if zvx.Symbolic() {
		return &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: new(big.Int), E: i}}, []byte{0x30, byte(i)}
	}
	if vxKeyStore[i] == nil {
		k, err := rsa.GenerateKey(rand.Reader, 2048)
		if err != nil {
			panic(err)
		}
		vxKeyStore[i] = k
	}
	der, err := util.RSAPublicToDERBytes(&vxKeyStore[i].PublicKey)
	if err != nil {
		panic(err)
	}
	return vxKeyStore[i], der
}
