package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"encoding/base64"
	"errors"
	"math/big"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/google/certificate-transparency-go/x509/pkix"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/pkg/statistics"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

//vx:stub github.com/google/certificate-transparency-go/x509.ParseCertificate => vxParse

const vxNow = 1_700_000_000

// number 2 is expired, the others are not
func vxExp(b byte) time.Time {
	if b == 2 {
		return time.Unix(vxNow-1, 0)
	}
	return time.Unix(vxNow+int64(b), 0)
}

var vxNames = [][]string{nil, {"a.com"}}

// vxParse decodes the stand-in encoding of certificates under the engine.
func vxParse(der []byte) (*ctx509.Certificate, error) {
	if len(der) != 3 || der[0] != 0x30 {
		return nil, errors.New("not a certificate")
	}
	c := &ctx509.Certificate{Raw: der, NotAfter: vxExp(der[1])}
	c.DNSNames = append(c.DNSNames, vxNames[der[2]]...)
	return c, nil
}

var vxKey *ecdsa.PrivateKey
var vxDERs = map[[2]byte][]byte{}

// vxDER is a certificate with number b and the given set of names.
func vxDER(b byte, names byte) []byte {
	if zvx.Symbolic() {
		return []byte{0x30, b, names}
	}
	if d := vxDERs[[2]byte{b, names}]; d != nil {
		return d
	}
	if vxKey == nil {
		vxKey, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	}
	tmpl := &ctx509.Certificate{SerialNumber: big.NewInt(int64(b) + 1), Subject: pkix.Name{Organization: []string{"o"}},
		NotBefore: time.Unix(1, 0), NotAfter: vxExp(b), DNSNames: vxNames[names]}
	der, err := ctx509.CreateCertificate(rand.Reader, tmpl, tmpl, &vxKey.PublicKey, vxKey)
	if err != nil {
		panic(err)
	}
	vxDERs[[2]byte{b, names}] = der
	return der
}

// certificate 5 has names wherever it is
func vxNamesOf(b byte) byte {
	if b == 5 {
		return 1
	}
	return 0
}

type vxRow struct {
	leaf     byte
	names    byte
	chain    []byte
	expired  bool // according to the last column
	bad      int  // index of a broken certificate, -1 if there is none
	chainDER [][]byte
}

func vx64(b []byte) []byte { return []byte(base64.StdEncoding.EncodeToString(b)) }

func (x *vxRow) line(n int) line {
	l := line{number: n, expirationField: []byte("1700000005.0")}
	if x.expired {
		l.expirationField = []byte("1699999990.0")
	}
	l.certField = vx64(vxDER(x.leaf, x.names))
	if x.bad == 0 {
		l.certField = vx64([]byte{1, 2})
	}
	for i, b := range x.chain {
		der := vxDER(b, vxNamesOf(b))
		x.chainDER = append(x.chainDER, der)
		if i > 0 {
			l.chainField = append(l.chainField, ';')
		}
		f := vx64(der)
		if x.bad == i+1 {
			f = []byte("%%%")
		}
		l.chainField = append(l.chainField, f...)
	}
	return l
}

// VxChain: the certificates of the rows are passed on with their parents, names and expirations.
func VxChain() {
	p := &Processor{Manager: &updater.Manager{Stats: &statistics.Stats{}}}
	w := NewLineToChainWorker(p, 0)
	w.now = time.Unix(vxNow, 0)
	c := NewChainToCertWorker(0, p)
	var rows []*vxRow
	var got []updater.Certificate
	n := zvx.Param("rows", 2)
	mix := zvx.Param("mix", 1) == 1 // also expired and broken certificates
	badRow := -1
	if mix && zvx.Choose("broken", 2) == 1 {
		badRow = zvx.Choose("broken_row", n)
	}
	for i := 0; i < n; i++ {
		x := &vxRow{leaf: []byte{0, 1, 3}[i], bad: -1}
		if mix {
			x.leaf = byte(zvx.IntRange("leaf", 0, 2))
			x.expired = i == 0 && zvx.Choose("expired", 2) == 1
		}
		x.names = (x.leaf + 1) % 2
		for k := zvx.Choose("chain", zvx.Param("chain", 2)) + 1; k > 0; k-- {
			x.chain = append(x.chain, byte(zvx.IntRange("parent", 5, 4+zvx.Param("ancestors", 3))))
		}
		if i > 0 && zvx.Choose("ca", 2) == 1 {
			x.leaf, x.names = 5, 1 // a row for a certificate which also is a parent
		}
		if i == badRow {
			x.bad = zvx.Choose("broken_cert", len(x.chain)+1)
		}
		rows = append(rows, x)
		chains, _, err := w.ProcessFunc(x.line(i))
		if i == badRow && !x.expired {
			if x.bad > 0 && x.leaf == 2 {
				continue
			}
			zvx.Assert(err != nil, "a row with a broken certificate is accepted")
			zvx.Reach("broken")
			return
		}
		zvx.Assert(err == nil, "a row is rejected")
		for _, ch := range chains {
			certs, idx, err := c.ProcessFunc(ch)
			zvx.Assert(err == nil && len(idx) == len(certs), "a chain is rejected")
			got = append(got, certs...)
		}
	}
	passed := map[common.SHA256Output]bool{}
	for _, g := range got {
		passed[g.CertID] = true
		zvx.Assert(g.CertID == common.SHA256Hash32Bytes(g.Raw), "a certificate is passed on with the identifier of another")
		leaf, parent := false, false // some row has it, with that parent
		for _, x := range rows {
			if x.expired || x.leaf == 2 {
				continue
			}
			all := append([][]byte{vxDER(x.leaf, x.names)}, x.chainDER...)
			for i, der := range all {
				if string(der) != string(g.Raw) {
					continue
				}
				b, names := x.leaf, len(vxNames[x.names])
				if i > 0 {
					b, names = x.chain[i-1], 0
				}
				leaf = leaf || g.NotAfter.Equal(vxExp(b)) && len(g.Names) == names && (names == 0 || g.Names[0] == "a.com")
				if i+1 == len(all) {
					parent = parent || g.ParentID == nil
				} else {
					parent = parent || g.ParentID != nil && *g.ParentID == common.SHA256Hash32Bytes(all[i+1])
				}
			}
		}
		zvx.Assert(leaf, "a certificate no row has is passed on, or with other names or another expiration")
		zvx.Assert(parent, "a certificate is passed on with a wrong parent")
	}
	for _, g := range got {
		zvx.Assert(g.ParentID == nil || passed[*g.ParentID], "a parent of a certificate is not passed on")
	}
	for _, x := range rows {
		if x.expired || x.leaf == 2 {
			continue
		}
		ok := false
		for _, g := range got {
			ok = ok || string(g.Raw) == string(vxDER(x.leaf, x.names)) && len(g.Names) == len(vxNames[x.names]) && g.ParentID != nil && *g.ParentID == common.SHA256Hash32Bytes(x.chainDER[0])
		}
		zvx.Assert(ok, "the certificate of a row is not passed on with its names and its parent")
	}
	zvx.Reach("passed on")
}
