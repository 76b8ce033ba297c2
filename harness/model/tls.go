package model

import (
	"bytes"
	"crypto/tls"
	"encoding/pem"
	"errors"

	"verifharness/pki"
)

// Client certificates are opaque: the model knows the fixed pairs of package
// pki and the files shipped for the sandbox, whose password is "rdap".

// Shipped lists the sandbox's certificates.
var Shipped = []string{
	"DigiCert_RDAP_Pilot_Client_Certificate.p12",
	"DigiCert_RDAP_Pilot_Client_Certificate_Expired.p12",
	"DigiCert_RDAP_Pilot_Client_Certificate_Revoked.p12",
}

const sandboxDir = "/repo/sandbox"

func init() {
	nodes = append(nodes, &fnode{path: "/repo", dir: true}, &fnode{path: sandboxDir, dir: true})
	for _, s := range Shipped {
		nodes = append(nodes, &fnode{path: sandboxDir + "/" + s, data: []byte("shipped:" + s)})
	}
}

// ToPEM models golang.org/x/crypto/pkcs12.ToPEM.
func ToPEM(data []byte, password string) ([]*pem.Block, error) {
	for _, p := range pki.Pairs {
		if bytes.Equal(data, pki.Bytes(p.P12)) {
			if password != p.Password {
				return nil, errors.New("pkcs12: decryption password incorrect")
			}
			return []*pem.Block{{Type: "CERTIFICATE", Headers: map[string]string{"localKeyId": "00"}, Bytes: pki.Bytes(p.Cert)},
				{Type: "PRIVATE KEY", Headers: map[string]string{"localKeyId": "00"}, Bytes: pki.Bytes(p.Key)}}, nil
		}
	}
	for _, s := range Shipped {
		if string(data) == "shipped:"+s {
			if password != "rdap" {
				return nil, errors.New("pkcs12: decryption password incorrect")
			}
			return []*pem.Block{{Type: "CERTIFICATE", Bytes: []byte(s)}, {Type: "PRIVATE KEY", Bytes: []byte(s)}}, nil
		}
	}
	return nil, errors.New("pkcs12: error reading P12 data")
}

func firstBlock(data []byte, key bool) []byte {
	for {
		var b *pem.Block
		b, data = pem.Decode(data)
		if b == nil {
			return nil
		}
		if !key && b.Type == "CERTIFICATE" || key && (b.Type == "PRIVATE KEY" || b.Type == "EC PRIVATE KEY") {
			return b.Bytes
		}
	}
}

type key struct{ der []byte }

// X509KeyPair models crypto/tls.X509KeyPair.
func X509KeyPair(certPEM, keyPEM []byte) (tls.Certificate, error) {
	c, k := firstBlock(certPEM, false), firstBlock(keyPEM, true)
	if c == nil {
		return tls.Certificate{}, errors.New("tls: failed to find any PEM data in certificate input")
	}
	if k == nil {
		return tls.Certificate{}, errors.New("tls: failed to find any PEM data in key input")
	}
	for _, p := range pki.Pairs {
		if bytes.Equal(c, pki.Bytes(p.Cert)) && bytes.Equal(k, pki.Bytes(p.Key)) {
			return tls.Certificate{Certificate: [][]byte{c}, PrivateKey: &key{k}}, nil
		}
	}
	for _, s := range Shipped {
		if string(c) == s && string(k) == s {
			return tls.Certificate{Certificate: [][]byte{c}, PrivateKey: &key{k}}, nil
		}
	}
	return tls.Certificate{}, errors.New("tls: private key does not match public key")
}

// LoadX509KeyPair models crypto/tls.LoadX509KeyPair.
func LoadX509KeyPair(certFile, keyFile string) (tls.Certificate, error) {
	c, err := ReadFile(certFile)
	if err != nil {
		return tls.Certificate{}, err
	}
	k, err := ReadFile(keyFile)
	if err != nil {
		return tls.Certificate{}, err
	}
	return X509KeyPair(c, k)
}
