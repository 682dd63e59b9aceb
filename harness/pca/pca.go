package pca

import (
	"crypto/rsa"
	"errors"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	pcrypto "github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/pkg/zvx"
)

type vxLogs struct {
	op, fail int
	first    []string // what the logs were asked to log first
	final    map[string]string
	spcts    map[string]common.SignedPolicyCertificateTimestamp
}

var errVxLog = errors.New("log server")

func (l *vxLogs) step() error {
	l.op++
	if l.op-1 == l.fail {
		return errVxLog
	}
	return nil
}

func (l *vxLogs) ObtainSptFromLogServer(url string, pc *common.PolicyCertificate) (*common.SignedPolicyCertificateTimestamp, error) {
	if err := l.step(); err != nil {
		return nil, err
	}
	l.first = append(l.first, vxJSON(pc))
	s := vxSPCT(len(l.first))
	l.spcts[url] = s
	return &s, nil
}

func (l *vxLogs) SendPolicyCertificateToLogServer(url string, pc *common.PolicyCertificate) error {
	if err := l.step(); err != nil {
		return err
	}
	l.final[url] = vxJSON(pc)
	return nil
}

func vxJSON(x any) string {
	b, err := common.ToJSON(x)
	zvx.Assert(err == nil, "a document can be serialized")
	return string(b)
}

func vxPCA(logs int) (*PCA, *vxLogs) {
	k, der := vxKey(0)
	root := vxPC()
	root.PublicKey = der
	p := &PCA{CAName: "pca", RsaKeyPair: k, RootPolicyCert: root, CtLogServers: map[[32]byte]*CTLogServerEntryConfig{}, DB: map[[32]byte]*common.PolicyCertificate{}}
	for i := 0; i < logs; i++ {
		p.CtLogServers[[32]byte{byte(i)}] = &CTLogServerEntryConfig{URL: string(rune('a' + i))}
	}
	l := &vxLogs{fail: -1, final: map[string]string{}, spcts: map[string]common.SignedPolicyCertificateTimestamp{}}
	p.LogServerRequester = l
	return p, l
}

// vxIssued checks what the PCA returned for a request.
func vxIssued(p *PCA, l *vxLogs, req *common.PolicyCertificateSigningRequest, logs int) *common.PolicyCertificate {
	was := vxJSON(req)
	n := len(p.DB)
	l.first, l.final, l.op = nil, map[string]string{}, 0
	pc, err := p.SignAndLogRequest(req)
	zvx.Check(vxJSON(req) == was, "the request stays as it was")
	if l.fail >= 0 && l.fail < 2*logs {
		zvx.Check(err != nil, "a failure of a log server is reported")
		zvx.Check(len(p.DB) == n, "a certificate that is not logged everywhere is not stored")
		zvx.Reach("failed")
		return nil
	}
	zvx.Assert(err == nil && pc != nil, "a request is granted")
	zvx.Check(pc.PolicyCertificateFields.Equal(req.PolicyCertificateFields), "the certificate has what was requested")
	zvx.Check(pcrypto.VerifyIssuerSignature(p.RootPolicyCert, pc) == nil, "the certificate has the signature of the PCA")
	zvx.Check(len(pc.SPCTs) == logs && len(l.first) == logs && len(l.final) == logs, "the certificate has the timestamps of every log server, and every log server has the certificate")
	for url, s := range l.spcts {
		found := false
		for _, t := range pc.SPCTs {
			found = found || t.Equal(s)
		}
		zvx.Check(found, "the certificate has the timestamps of every log server")
		zvx.Check(l.final[url] == vxJSON(pc), "every log server has the final certificate")
	}
	for _, f := range l.first {
		o, err := common.FromJSON([]byte(f))
		zvx.Assert(err == nil, "certificate")
		x := o.(*common.PolicyCertificate)
		zvx.Check(len(x.SPCTs) == 0 && pcrypto.VerifyIssuerSignature(p.RootPolicyCert, x) == nil && x.PolicyCertificateFields.Equal(pc.PolicyCertificateFields), "the log servers get the certificate signed by the PCA, without timestamps")
	}
	stored := false
	for _, d := range p.DB {
		stored = stored || d.Equal(*pc)
	}
	zvx.Check(stored, "the certificate is stored")
	return pc
}

// VxIssue: two requests, the second signed with the certificate of the first.
func VxIssue() {
	vxFew = zvx.Param("few", 1) == 1
	zvx.OracleHash()
	first, logs := zvx.Choose("first", 2) == 1, 1
	if first {
		logs = zvx.Choose("logs", zvx.Param("logs", 3))
	}
	p, l := vxPCA(logs)
	k1, der1 := vxKey(1)
	_, der2 := vxKey(2)
	req := &common.PolicyCertificateSigningRequest{PolicyCertificateFields: vxFields(der1)}
	if first {
		l.fail = zvx.Choose("failing", 2*logs+1)
		vxMutateFields(&req.PolicyCertificateFields, zvx.Choose("field", vxNumFields))
		vxIssued(p, l, req, logs)
		return
	}
	own := vxIssued(p, l, req, logs)
	next := &common.PolicyCertificateSigningRequest{PolicyCertificateFields: vxFields(der2)}
	zvx.Assert(pcrypto.SignAsOwner(own, k1, next) == nil, "a request can be signed as owner")
	if zvx.Choose("forged", 2) == 0 {
		pc := vxIssued(p, l, next, logs)
		zvx.Check(pcrypto.VerifyOwnerSignatureInPolicyCertificate(own, pc) == nil, "the certificate has the signature of the owner")
		zvx.Reach("renewed")
		return
	}
	if k := zvx.Choose("field", vxNumFields+1); k < vxNumFields {
		vxMutateFields(&next.PolicyCertificateFields, k)
	} else {
		vxOwnerPart(&next.PolicyCertificateFields, 0)
		zvx.Assume(len(next.OwnerSignature) > 0)
	}
	n := len(p.DB)
	l.first, l.final = nil, map[string]string{}
	pc, err := p.SignAndLogRequest(next)
	zvx.Check(err != nil && pc == nil, "a request with a bad signature of an owner known to the PCA is rejected")
	zvx.Check(len(p.DB) == n && len(l.first) == 0 && len(l.final) == 0, "a rejected request is neither logged nor stored")
	zvx.Reach("rejected")
}

// VxRequest: requests made by the PCA are valid while the PCA is, have unique serial numbers, and the
// owner signs all of their content.
func VxRequest() {
	vxFew = zvx.Param("few", 1) == 1
	zvx.OracleHash()
	p, _ := vxPCA(0)
	k1, der1 := vxKey(1)
	own := vxPC()
	own.PublicKey = der1
	hash, err := pcrypto.ComputeHashAsSigner(own)
	zvx.Assert(err == nil, "hash")
	seen := map[int]bool{}
	for i := 0; i < 2; i++ {
		nb, na := p.RootPolicyCert.NotBefore, p.RootPolicyCert.NotAfter
		if i == 0 {
			nb = nb.Add(time.Duration(zvx.Choose("notbefore", 3) - 1))
			na = na.Add(time.Duration(zvx.Choose("notafter", 3) - 1))
		}
		f := vxFields([]byte{1, 2})
		if i == 0 {
			vxMutateFields(&f, []int{0, 2, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15}[zvx.Choose("field", 12)])
		}
		req, err := p.NewPolicyCertificateSigningRequest(f.Version, f.DomainField, nb, na, f.CanIssue, f.CanOwn, f.PublicKey, f.PublicKeyAlgorithm, f.SignatureAlgorithm, f.PolicyAttributes,
			func(b []byte) []byte { return vxSignBytes(b, k1) }, hash)
		within := zvx.And(!nb.Before(p.RootPolicyCert.NotBefore), !na.After(p.RootPolicyCert.NotAfter))
		zvx.Check((err == nil) == within, "a request is made iff its validity is within the PCA's")
		if err != nil {
			return
		}
		zvx.Check(!seen[req.SerialNumberField], "serial numbers are unique")
		seen[req.SerialNumberField] = true
		zvx.Check(pcrypto.VerifyOwnerSignature(own, req) == nil, "the owner signature of the request is accepted")
		f.SerialNumberField, f.NotBefore, f.NotAfter, f.TimeStamp, f.OwnerSignature, f.OwnerHash = req.SerialNumberField, nb, na, req.TimeStamp, req.OwnerSignature, hash
		zvx.Check(req.PolicyCertificateFields.Equal(f), "the request has what was asked for")
	}
	zvx.Reach("requested")
}

func vxSignBytes(b []byte, k *rsa.PrivateKey) []byte {
	s, err := pcrypto.SignBytes(b, k)
	zvx.Assert(err == nil, "bytes can be signed")
	return s
}
