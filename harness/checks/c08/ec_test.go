package c08

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"encoding/pem"
)

func mustECKeys() [2][]byte {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	pb, _ := x509.MarshalPKIXPublicKey(&k.PublicKey)
	pv, _ := x509.MarshalECPrivateKey(k)
	return [2][]byte{pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: pv}), pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: pb})}
}
