CRY = "pkg/common/crypto"
KEYS = '''
package crypto

import (
	"crypto/rand"
	"crypto/rsa"
	"testing"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/util"
)

func demoCert(t *testing.T, serial int, domain string) (*common.PolicyCertificate, *rsa.PrivateKey) {
	key, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	pub, err := util.RSAPublicToDERBytes(&key.PublicKey)
	if err != nil {
		t.Fatal(err)
	}
	from := time.Unix(1000000, 0).UTC()
	return common.NewPolicyCertificate(0, serial, domain, from, from.Add(time.Hour), true, true, pub,
		common.RSA, common.SHA256, from, common.PolicyAttributes{}, nil, nil, nil, nil, nil), key
}

func demoRequest(owner *common.PolicyCertificate, attrs common.PolicyAttributes) *common.PolicyCertificateSigningRequest {
	return common.NewPolicyCertificateSigningRequest(0, 7, "sub.a.com", owner.NotBefore, owner.NotAfter, true, false,
		owner.PublicKey, common.RSA, common.SHA256, owner.NotBefore, attrs, nil, nil)
}
'''
seed("C01-fromrequest", "C01", [
 ("pkg/common/policies.go", '''		req.SignatureAlgorithm,
		req.TimeStamp,
		req.PolicyAttributes,
		req.OwnerSignature,
		req.OwnerHash,
		nil, // SPCTs
''', '''		req.SignatureAlgorithm,
		req.TimeStamp.UTC(),
		req.PolicyAttributes,
		req.OwnerSignature,
		req.OwnerHash,
		nil, // SPCTs
''')],
 CRY, KEYS + '''
func TestDemo(t *testing.T) {
	owner, key := demoCert(t, 1, "a.com")
	req := demoRequest(owner, common.PolicyAttributes{})
	req.TimeStamp = req.TimeStamp.In(time.FixedZone("", 3600))
	if err := SignAsOwner(owner, key, req); err != nil {
		t.Fatal(err)
	}
	c, err := SignRequestAsIssuer(owner, key, req)
	if err != nil {
		t.Fatal(err)
	}
	if err := VerifyOwnerSignatureInPolicyCertificate(owner, c); err != nil {
		t.Fatal(err)
	}
}
''', "a request whose timestamp is not expressed in UTC", "the owner signature of the certificate issued for the request is rejected")
seed("C02-equalend", "C02", [
 (CRY+"/crypto.go", "if issuerPolCert.NotAfter.Before(childPolCert.NotAfter) {", "if issuerPolCert.NotAfter.Unix() < childPolCert.NotAfter.Unix() {")],
 CRY, KEYS + '''
func TestDemo(t *testing.T) {
	issuer, _ := demoCert(t, 1, "a.com")
	child, _ := demoCert(t, 2, "x.a.com")
	child.NotAfter = issuer.NotAfter.Add(time.Millisecond)
	if VerifyIssuerConstraints(issuer, child) == nil {
		t.Fatal("accepted after the end of the issuer")
	}
	child.NotAfter = issuer.NotAfter
	if err := VerifyIssuerConstraints(issuer, child); err != nil {
		t.Fatal(err)
	}
}
''', "a certificate that ends less than a second after its issuer", "certificates are accepted although they are valid after their issuer certificate")
seed("C03-time", "C03", [
 ("pkg/common/embedded_policies.go", '''			spct.Version,
			spct.LogID,
			spct.AddedTS,
			spct.Signature,
''', '''			spct.Version,
			spct.LogID,
			spct.AddedTS.Truncate(time.Second),
			spct.Signature,
''')],
 CRY, KEYS + '''
func TestDemo(t *testing.T) {
	c, key := demoCert(t, 1, "a.com")
	spt, err := SignPolicyCertificateTimestamp(c, 0, []byte("log"), key)
	if err != nil {
		t.Fatal(err)
	}
	verify := func(s common.SignedPolicyCertificateTimestamp) error {
		entry, _ := common.ToJSON(c)
		sig := s.Signature
		s.Signature = nil
		b, err := common.ToJSON(common.NewSignedEntryTimestampSignatureInput(entry, &s))
		if err != nil {
			t.Fatal(err)
		}
		return VerifySignedBytes(b, sig, &key.PublicKey)
	}
	if err := verify(*spt); err != nil {
		t.Fatal(err)
	}
	other := *spt
	other.AddedTS = other.AddedTS.Truncate(time.Second)
	for _, d := range []time.Duration{1, 2} {
		x := other
		x.AddedTS = x.AddedTS.Add(d)
		if !x.AddedTS.Equal(spt.AddedTS) && verify(x) == nil {
			t.Fatal("another time is accepted")
		}
	}
}
''', "a timestamp that differs by less than a second", "the signature of a log is accepted for other times")
seed("J01-equaltime", "J01", [
 ("pkg/common/embedded_policies.go", "s.AddedTS.Equal(x.AddedTS) &&", "s.AddedTS.Unix() == x.AddedTS.Unix() &&")],
 "pkg/common", '''
package common

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	now := time.Unix(1000000, 0)
	a := NewSignedPolicyCertificateTimestamp(0, nil, now, nil)
	b := NewSignedPolicyCertificateTimestamp(0, nil, now.Add(time.Millisecond), nil)
	if a.Equal(*b) || !a.Equal(*a) {
		t.Fatal("different timestamps are equal")
	}
}
''', "timestamps that differ by less than a second and in nothing else", "different documents are equal")
seed("J01-slices", "J01", [
 ("pkg/common/policies.go", '''	for i := range a {
		if !a[i].Equal(b[i]) {
			return false
		}
	}
''', '''	for i := range a {
		found := false
		for j := range b {
			found = found || a[i].Equal(b[j])
		}
		if !found {
			return false
		}
	}
''')],
 "pkg/common", '''
package common

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	x := *NewSignedPolicyCertificateTimestamp(0, []byte("x"), time.Unix(1, 0), nil)
	y := *NewSignedPolicyCertificateTimestamp(0, []byte("y"), time.Unix(1, 0), nil)
	a := PolicyCertificate{SPCTs: []SignedPolicyCertificateTimestamp{x, x}}
	b := PolicyCertificate{SPCTs: []SignedPolicyCertificateTimestamp{x, y}}
	if a.Equal(b) || b.Equal(a) {
		t.Fatal("certificates with different timestamps are equal")
	}
}
''', "lists of timestamps with repeated or reordered elements", "certificates with different lists of timestamps are equal")
seed("E01-trailingdot", "E01", [
 ("pkg/common/policies.go", '''	policyAttributeDomain, _ = strings.CutSuffix(policyAttributeDomain, ".")
	domain, _ = strings.CutSuffix(domain, ".")
''', '''	if policyAttributeDomain, ok := strings.CutSuffix(policyAttributeDomain, "."); ok {
		domain, _ = strings.CutSuffix(domain, ".")
		return a.CheckDomainValidity(policyAttributeDomain, domain)
	}
''')],
 "pkg/common", '''
package common

import "testing"

func TestDemo(t *testing.T) {
	a := PolicyAttributes{DisallowedSubdomains: []string{"x"}}
	for _, p := range []string{"a.com", "a.com."} {
		for _, d := range []string{"x.a.com", "x.a.com."} {
			if a.CheckDomainValidity(p, d) != PolicyAttributeDomainDisallowed {
				t.Fatal("not disallowed:", p, d)
			}
		}
	}
}
''', "a queried name with a trailing dot, while the domain of the policy has none", "a disallowed subdomain is considered as not covered by the policy")
seed("E01-wildcards", "E01", [
 ("pkg/common/policies.go", '''	for _, label := range a.ExcludedSubdomains {
		labelMap[label] = struct{}{}
	}
	nLabels := len(a.AllowedSubdomains) + len(a.DisallowedSubdomains) + len(a.ExcludedSubdomains)
''', '''	nLabels := len(a.AllowedSubdomains) + len(a.DisallowedSubdomains)
	for _, label := range a.ExcludedSubdomains {
		if _, ok := labelMap["*"]; ok && label == "*" {
			continue // everything is covered already
		}
		labelMap[label] = struct{}{}
		nLabels++
	}
''')],
 "pkg/common", '''
package common

import "testing"

func TestDemo(t *testing.T) {
	a := PolicyAttributes{AllowedSubdomains: []string{"*"}, ExcludedSubdomains: []string{"*"}}
	if a.ValidateAttributes() == nil {
		t.Fatal("two wildcards are valid")
	}
}
''', "the wildcard in the excluded list and in another one", "attributes that name the wildcard twice are valid")
PROOFS = '''
package logverifier

import (
	"testing"

	"github.com/google/trillian"
	"github.com/google/trillian/types"
)
'''
seed("L01-samesize", "L01", [
 ("pkg/logverifier/verifier.go", "	case trusted.TreeSize != 0:\n", "	case trusted.TreeSize != 0 && (trusted.TreeSize != newRoot.TreeSize || len(consistency) != 0):\n")],
 "pkg/logverifier", PROOFS + '''
func TestDemo(t *testing.T) {
	_ = trillian.Proof{}
	v := NewLogVerifier(nil)
	a := &types.LogRootV1{TreeSize: 1, RootHash: v.HashLeaf([]byte("a"))}
	b := &types.LogRootV1{TreeSize: 1, RootHash: v.HashLeaf([]byte("b"))}
	if _, err := v.VerifyRoot(a, a, nil); err != nil {
		t.Fatal(err)
	}
	if _, err := v.VerifyRoot(a, b, nil); err == nil {
		t.Fatal("a rewritten log is accepted")
	}
}
''', "a new root of the same size as the trusted one but with other content, without consistency proof", "a log that rewrote an entry is accepted")
seed("L01-prevroot", "L01", [
 ("pkg/logverifier/verifier.go", '''	// TODO(yongzhe): compare two tree heads. If they are the same, directly return nil.
	_, err = ''', '''	// If the two tree heads are the same, directly return nil.
	if newRoot.TreeSize <= trusted.TreeSize {
		return nil
	}
	_, err = ''')],
 "pkg/logverifier", PROOFS + '''
func TestDemo(t *testing.T) {
	v := NewLogVerifier(nil)
	leaf := v.HashLeaf([]byte("a"))
	a := &types.LogRootV1{TreeSize: 1, RootHash: leaf}
	b := &types.LogRootV1{TreeSize: 1, RootHash: v.HashLeaf([]byte("b"))}
	p := []*trillian.Proof{{LeafIndex: 0}}
	if err := v.VerifyInclusionWithPrevLogRoot(a, a, nil, leaf, p); err != nil {
		t.Fatal(err)
	}
	if v.VerifyInclusionWithPrevLogRoot(a, b, nil, leaf, p) == nil {
		t.Fatal("a rewritten log is accepted")
	}
}
''', "a newer root of the same or smaller size with other content", "an entry is accepted although the log does not extend the trusted root")
PCAT = '''
package pca

import (
	"crypto/rand"
	"crypto/rsa"
	"errors"
	"testing"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/pkg/util"
)

type demoLogs struct {
	failFinal bool
	n         int
}

func (l *demoLogs) ObtainSptFromLogServer(url string, pc *common.PolicyCertificate) (*common.SignedPolicyCertificateTimestamp, error) {
	l.n++
	return common.NewSignedPolicyCertificateTimestamp(0, []byte(url), time.Unix(1, 0), nil), nil
}
func (l *demoLogs) SendPolicyCertificateToLogServer(url string, pc *common.PolicyCertificate) error {
	if l.failFinal {
		return errors.New("log failure")
	}
	return nil
}

func demoPCA(t *testing.T) (*PCA, *demoLogs, *rsa.PrivateKey, []byte) {
	key, _ := rsa.GenerateKey(rand.Reader, 2048)
	owner, _ := rsa.GenerateKey(rand.Reader, 2048)
	pub, _ := util.RSAPublicToDERBytes(&key.PublicKey)
	ownerPub, _ := util.RSAPublicToDERBytes(&owner.PublicKey)
	from := time.Unix(1000000, 0).UTC()
	l := &demoLogs{}
	return &PCA{
		RsaKeyPair: key,
		RootPolicyCert: common.NewPolicyCertificate(0, 1, "", from, from.Add(time.Hour), true, false, pub, common.RSA, common.SHA256,
			from, common.PolicyAttributes{}, nil, nil, nil, nil, nil),
		CtLogServers:       map[[32]byte]*CTLogServerEntryConfig{{1}: {URL: "first"}, {2}: {URL: "second"}},
		LogServerRequester: l,
		DB:                 map[[32]byte]*common.PolicyCertificate{},
	}, l, owner, ownerPub
}

func demoRequest(pub []byte, domain string) *common.PolicyCertificateSigningRequest {
	from := time.Unix(1000000, 0).UTC()
	return common.NewPolicyCertificateSigningRequest(0, 7, domain, from, from.Add(time.Minute), true, true,
		pub, common.RSA, common.SHA256, from, common.PolicyAttributes{}, nil, nil)
}

var _ = crypto.SignAsOwner
'''
seed("P01-finalfail", "P01", [
 ("pkg/pca/pca.go", '''	if err := pca.sendFinalPolCertToAllLogServers(pc); err != nil {
		return nil, err
	}

	pca.storeInDb(pc)
''', '''	pca.storeInDb(pc)

	if err := pca.sendFinalPolCertToAllLogServers(pc); err != nil {
		return nil, err
	}
''')],
 "pkg/pca", PCAT + '''
func TestDemo(t *testing.T) {
	p, l, _, pub := demoPCA(t)
	l.failFinal = true
	if _, err := p.SignAndLogRequest(demoRequest(pub, "a.com")); err == nil {
		t.Fatal("failure not reported")
	}
	if len(p.DB) != 0 {
		t.Fatal("a certificate that was not granted is stored")
	}
}
''', "a log server that fails when it receives the final certificate", "certificates that were not granted are stored, and accepted as owners later")
seed("P01-spts", "P01", [
 ("pkg/pca/pca.go", '''	SPTs := make([]common.SignedPolicyCertificateTimestamp, 0, len(pca.CtLogServers))
''', '''	SPTs := pc.SPCTs
'''),
 ("pkg/pca/pca.go", '''		SPTs = append(SPTs, *spt)
	}
	pc.SPCTs = SPTs
''', '''		SPTs = append(SPTs, *spt)
		pc.SPCTs = SPTs
	}
''')],
 "pkg/pca", PCAT.replace("	l.n++\n", "	if len(pc.SPCTs) != 0 {\n		return nil, errors.New(\"not the certificate signed by the PCA\")\n	}\n	l.n++\n") + '''
func TestDemo(t *testing.T) {
	p, _, _, pub := demoPCA(t)
	if _, err := p.SignAndLogRequest(demoRequest(pub, "a.com")); err != nil {
		t.Fatal(err)
	}
}
''', "more than one configured log server", "the second log server gets a certificate with timestamps of the first, whose issuer signature does not match")
