package util

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"errors"
	"io"
	"math/big"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/google/certificate-transparency-go/x509/pkix"
	"github.com/netsec-ethz/fpki/pkg/common"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

//vx:stub github.com/google/certificate-transparency-go/x509.ParseTBSCertificate => vxParseTBS
//vx:stub github.com/google/certificate-transparency-go/x509.ParseCertificate => vxParse

func vxCert(raw byte, name string) *ctx509.Certificate {
	return &ctx509.Certificate{Raw: []byte{'c', raw}, Subject: pkix.Name{CommonName: name}, DNSNames: []string{"x." + name}}
}

// VxUnfold: unfolding chains yields each leaf with its names, and each certificate with its parent, leaves first.
func VxUnfold() {
	n := zvx.Choose("leaves", zvx.Param("leaves", 2)) + 1
	var leaves []ctx509.Certificate
	var chains [][]*ctx509.Certificate
	total := 0
	for i := 0; i < n; i++ {
		leaves = append(leaves, *vxCert(zvx.U8("leaf"), "a.com"))
		var chain []*ctx509.Certificate
		for j, m := 0, zvx.Choose("chain", zvx.Param("chain", 3)+1); j < m; j++ {
			chain = append(chain, vxCert(zvx.U8("ancestor"), "ca.com"))
			total++
		}
		chains = append(chains, chain)
		total++
	}
	certs, ids, parents, names := UnfoldCerts(leaves, chains)
	zvx.Assert(len(certs) == len(ids) && len(ids) == len(parents) && len(parents) == len(names), "the lists differ in length")
	zvx.Assert(len(certs) == total, "certificates are lost or invented")
	used := make([]bool, len(certs))
	for i := range leaves {
		zvx.Assert(bytes.Equal(certs[i].Raw, leaves[i].Raw) && len(names[i]) == 2, "the leaves and their names are not first")
		c := &leaves[i]
		for j := -1; j < len(chains[i]); j++ {
			if j >= 0 {
				c = chains[i][j]
			}
			var parent *common.SHA256Output
			if j+1 < len(chains[i]) {
				id := common.SHA256Hash32Bytes(chains[i][j+1].Raw)
				parent = &id
			}
			found := false
			for k := range certs {
				if !used[k] && bytes.Equal(certs[k].Raw, c.Raw) && (parents[k] == nil) == (parent == nil) && (parent == nil || *parents[k] == *parent) && (k < n) == (j < 0) {
					used[k], found = true, true
					break
				}
			}
			zvx.Assert(found, "a certificate has another parent or is missing")
		}
	}
	for k := range certs {
		zvx.Assert(ids[k] == common.SHA256Hash32Bytes(certs[k].Raw), "the identifier is not the one of the certificate")
		zvx.Assert(k < n || names[k] == nil, "an ancestor has names")
	}
	zvx.Reach("unfolded")
}

// VxUnfoldKnown: a chain is unfolded up to the first ancestor that is known, and the parents are kept.
func VxUnfoldKnown() {
	leaf := vxCert('l', "a.com")
	leafID := common.SHA256Hash32Bytes(leaf.Raw)
	n := zvx.Choose("chain", zvx.Param("chain", 4)) + 1
	known := zvx.Choose("known", n+1) // the ancestors from here on are known
	var chain []*ctx509.Certificate
	var ids []*common.SHA256Output
	for i := 0; i < n; i++ {
		c := vxCert(zvx.U8("ancestor"), "ca.com")
		id := common.SHA256Hash32Bytes(c.Raw)
		ids = append(ids, &id)
		if i >= known {
			c = nil
		}
		chain = append(chain, c)
	}
	certs, certIDs, parents, names := UnfoldCert(leaf, leafID, chain, ids)
	zvx.Assert(len(certs) == known+1 && len(certIDs) == known+1 && len(parents) == known+1 && len(names) == known+1, "not exactly the unknown certificates are returned")
	zvx.Assert(bytes.Equal(certs[0].Raw, leaf.Raw) && certIDs[0] == leafID && len(names[0]) == 2, "the leaf is not first")
	for i := 0; i <= known; i++ {
		if i > 0 {
			zvx.Assert(bytes.Equal(certs[i].Raw, chain[i-1].Raw) && certIDs[i] == *ids[i-1] && names[i] == nil, "another ancestor is returned")
		}
		if i < n {
			zvx.Assert(parents[i] != nil && *parents[i] == *ids[i], "another parent is returned")
		} else {
			zvx.Assert(parents[i] == nil, "a root has a parent")
		}
	}
	zvx.Reach("unfolded")
}

func vxParseTBS(b []byte) (*ctx509.Certificate, error) { return nil, errors.New("no TBS certificate") }
func vxParse(b []byte) (*ctx509.Certificate, error) {
	if len(b) == 0 || b[0] != 0x30 {
		return nil, errors.New("no certificate")
	}
	return &ctx509.Certificate{Raw: append([]byte(nil), b...)}, nil
}

var vxDERs [][]byte

func vxDER(i int) []byte {
	if zvx.Symbolic() {
		return append([]byte{0x30, byte(i)}, bytes.Repeat([]byte{byte(i)}, 20+i)...)
	}
	for len(vxDERs) <= i {
		key, err := rsa.GenerateKey(rand.Reader, 1024)
		zvx.Assume(err == nil)
		t := &x509.Certificate{SerialNumber: big.NewInt(int64(len(vxDERs) + 1))}
		der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
		zvx.Assume(err == nil)
		vxDERs = append(vxDERs, der)
	}
	return vxDERs[i]
}

// vxReader returns its data in pieces, and an error or the end with or after the last one.
type vxReader struct {
	data  []byte
	cuts  []int
	at    int
	err   error
	early bool
	done  int
}

func (r *vxReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.at >= len(r.data) {
		return 0, r.err
	}
	end := len(r.data)
	for _, c := range r.cuts {
		if c > r.at && c < end {
			end = c
		}
	}
	n := copy(p, r.data[r.at:end])
	r.at += n
	if r.early && r.at == len(r.data) {
		return n, r.err
	}
	return n, nil
}

// VxPEM: certificates are read back as they were written, however the stream is split, and failures are reported.
func VxPEM() {
	n := zvx.Choose("certificates", zvx.Param("certificates", 2)+1)
	var certs []ctx509.Certificate
	for i := 0; i < n; i++ {
		certs = append(certs, ctx509.Certificate{Raw: vxDER(i)})
	}
	data, err := SerializeCertificates(certs)
	zvx.Assert(err == nil, "writing certificates fails")
	bad := -1
	switch zvx.Choose("extra", 4) {
	case 1:
		data = append([]byte("# comment\n-----BEGIN X-----\nAAAA\n-----END X-----\n"), data...)
	case 2: // not a certificate
		bad = n
		data = append(data, "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"...)
	case 3:
		data = append(data, "\n-----BEGIN CERTIFI"...)
	}
	r := &vxReader{data: data, err: io.EOF}
	// cuts at any of some positions: within the header, the body, the end of the body, the end line and its newline
	if len(data) > 0 {
		for i, m := 0, zvx.Choose("cuts", zvx.Param("cuts", 2)+1); i < m; i++ {
			k := zvx.Choose("cut", 8)
			r.cuts = append(r.cuts, len(data)*k/8+[]int{1, 5, 0, 7, 3, 2, 9, 11}[k])
		}
	}
	r.early = zvx.Choose("early", 2) == 1
	fails := zvx.Choose("fails", 2) == 1
	if fails {
		r.err = errors.New("cannot read")
	}
	var got []ctx509.Certificate
	cr := NewCertReader(r)
	switch size := zvx.Choose("read", 3); size {
	case 0:
		got, err = cr.ReadAll()
	default:
		for {
			buf := make([]ctx509.Certificate, size)
			var k int
			k, err = cr.Read(buf)
			if err != nil || k == 0 {
				break
			}
			got = append(got, buf[:k]...)
		}
	}
	if fails {
		zvx.Assert(err != nil, "a failure of the stream is not reported")
		return
	}
	if bad >= 0 {
		zvx.Assert(err != nil, "something that is not a certificate is skipped")
		return
	}
	zvx.Assert(err == nil, "reading certificates fails")
	zvx.Assert(len(got) == n, "certificates are lost or invented in the stream")
	for i := range got {
		zvx.Assert(bytes.Equal(got[i].Raw, certs[i].Raw), "a certificate changes when it is written and read")
	}
	zvx.Reach("read back")
}
