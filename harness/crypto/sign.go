package crypto

import (
	"crypto/rsa"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/pkg/zvx"
)

func vxJSON(x any) string {
	b, err := common.ToJSON(x)
	zvx.Assert(err == nil, "a document can be serialized")
	return string(b)
}

func vxSigner(der []byte) *common.PolicyCertificate {
	c := vxPC()
	c.PublicKey = der
	return c
}

func vxRequest(der []byte) *common.PolicyCertificateSigningRequest {
	req := &common.PolicyCertificateSigningRequest{PolicyCertificateFields: vxFields(der)}
	if zvx.Choose("request", 2) == 1 {
		vxMutateFields(&req.PolicyCertificateFields, zvx.Choose("request.field", vxNumFields))
	}
	if zvx.Choose("zone", 2) == 1 { // the same instants, as somewhere else
		zone := time.FixedZone("", 5400)
		req.TimeStamp, req.NotBefore, req.NotAfter = req.TimeStamp.In(zone), req.NotBefore.In(zone), req.NotAfter.In(zone)
	}
	return req
}

// VxSign: signatures of owner and issuer are accepted, for any request, all along the life of the
// certificate, and the verification does not change the documents.
func VxSign() {
	vxFew = zvx.Param("few", 1) == 1
	zvx.OracleHash()
	k0, der0 := vxKey(0)
	k1, der1 := vxKey(1)
	_, der2 := vxKey(2)
	owner, issuer := vxSigner(der0), vxSigner(der1)
	req := vxRequest(der2)
	withOwner := zvx.Choose("owner", 2) == 1
	before := vxJSON(req)
	ownerWas, issuerWas := vxJSON(owner), vxJSON(issuer)
	if withOwner {
		zvx.Assert(SignAsOwner(owner, k0, req) == nil, "a request can be signed as owner")
		zvx.Check(VerifyOwnerSignature(owner, req) == nil, "the owner signature of a request is accepted")
		zvx.Check(vxJSON(owner) == ownerWas, "signing and verifying leave the signer as it was")
		was := vxJSON(req)
		zvx.Check(SignAsOwner(owner, k0, req) != nil && vxJSON(req) == was, "a signed request is not signed again")
		r := *req
		r.OwnerHash, r.OwnerSignature = nil, nil
		zvx.Check(vxJSON(&r) == before, "signing as owner changes nothing else")
	}
	signed := vxJSON(req)
	c, err := SignRequestAsIssuer(issuer, k1, req)
	zvx.Assert(err == nil && c != nil, "a request can be signed as issuer")
	zvx.Check(vxJSON(req) == signed && vxJSON(issuer) == issuerWas, "signing leaves request and signer as they were")
	zvx.Check(c.PolicyCertificateFields.Equal(req.PolicyCertificateFields), "the certificate has what was requested")
	accepted := func() {
		was := vxJSON(c)
		zvx.Check(VerifyIssuerSignature(issuer, c) == nil, "the issuer signature is accepted")
		if withOwner {
			zvx.Check(VerifyOwnerSignatureInPolicyCertificate(owner, c) == nil, "the owner signature of the certificate is accepted")
		}
		zvx.Check(vxJSON(c) == was, "verifying leaves the certificate as it was")
	}
	accepted()
	// The timestamps are added, and the issuer signs again.
	c.SPCTs = []common.SignedPolicyCertificateTimestamp{vxSPCT(0), vxSPCT(1)}
	was := vxJSON(c)
	zvx.Check(SignPolicyCertificateAsIssuer(issuer, k1, c) != nil && vxJSON(c) == was, "a signed certificate is not signed again")
	c.IssuerSignature, c.IssuerHash = nil, nil
	unsigned := vxJSON(c)
	zvx.Assert(SignPolicyCertificateAsIssuer(issuer, k1, c) == nil, "a certificate can be signed again")
	x := *c
	x.IssuerSignature, x.IssuerHash = nil, nil
	zvx.Check(vxJSON(&x) == unsigned, "signing as issuer changes nothing else")
	accepted()
	// It is exchanged.
	back, err := common.FromJSON([]byte(vxJSON(c)))
	zvx.Assert(err == nil, "a certificate can be exchanged")
	c = back.(*common.PolicyCertificate)
	accepted()
	// The signers' certificates get other timestamps, and thus other issuer signatures.
	for _, s := range []*common.PolicyCertificate{owner, issuer} {
		s.SPCTs = nil
		s.IssuerSignature = []byte{9, 9}
	}
	accepted()
	zvx.Reach("signed")
}

// VxForge: a signature is not accepted for other content, another signer or another key.
func VxForge() {
	zvx.OracleHash()
	k0, der0 := vxKey(0)
	k1, der1 := vxKey(1)
	_, der2 := vxKey(2)
	owner, issuer := vxSigner(der0), vxSigner(der1)
	req := &common.PolicyCertificateSigningRequest{PolicyCertificateFields: vxFields(der2)}
	zvx.Assert(SignAsOwner(owner, k0, req) == nil, "a request can be signed as owner")
	reqJSON := vxJSON(req)
	c, err := SignRequestAsIssuer(issuer, k1, req)
	zvx.Assert(err == nil, "a request can be signed as issuer")
	c.SPCTs = []common.SignedPolicyCertificateTimestamp{vxSPCT(0), vxSPCT(1)}
	c.IssuerSignature, c.IssuerHash = nil, nil
	zvx.Assert(SignPolicyCertificateAsIssuer(issuer, k1, c) == nil, "a certificate can be signed again")
	switch zvx.Choose("what", 5) {
	case 0: // what the owner signed
		k := zvx.Choose("field", vxNumFields)
		vxMutateFields(&req.PolicyCertificateFields, k)
		zvx.Check(VerifyOwnerSignature(owner, req) != nil, "the owner signature of other content is rejected")
		c.PolicyCertificateFields = req.PolicyCertificateFields
		zvx.Check(VerifyOwnerSignatureInPolicyCertificate(owner, c) != nil, "the owner signature of other content is rejected")
		zvx.Check(VerifyIssuerSignature(issuer, c) != nil, "the issuer signature of other content is rejected")
	case 1: // the owner's signature and identification
		vxOwnerPart(&c.PolicyCertificateFields, zvx.Choose("field", 2))
		zvx.Check(VerifyOwnerSignatureInPolicyCertificate(owner, c) != nil, "another owner signature is rejected")
		zvx.Check(VerifyIssuerSignature(issuer, c) != nil, "the issuer signature of other content is rejected")
	case 2: // what only the issuer signed
		vxIssuerPart(c, zvx.Choose("field", vxNumIssuer))
		zvx.Check(VerifyIssuerSignature(issuer, c) != nil, "the issuer signature of other content is rejected")
		zvx.Check(VerifyOwnerSignatureInPolicyCertificate(owner, c) == nil, "the owner signature does not depend on the issuer's")
	case 3: // another signer, with the same key
		o, i := vxSigner(der0), vxSigner(der1)
		x := []*common.PolicyCertificate{o, i}[zvx.Choose("role", 2)]
		if k := zvx.Choose("signer", vxNumFields+3); k < vxNumFields {
			vxMutateFields(&x.PolicyCertificateFields, k)
		} else if k < vxNumFields+2 {
			vxOwnerPart(&x.PolicyCertificateFields, k-vxNumFields)
		} else {
			vxIssuerPart(x, 1)
		}
		if x == o {
			zvx.Check(VerifyOwnerSignatureInPolicyCertificate(o, c) != nil, "another owner is rejected")
			zvx.Check(VerifyOwnerSignature(o, req) != nil, "another owner is rejected")
		} else {
			zvx.Check(VerifyIssuerSignature(i, c) != nil, "another issuer is rejected")
		}
	case 4: // another key: the signers' certificates with the signature of another key
		k := []*rsa.PrivateKey{k1, k0}
		r := *req
		r.OwnerSignature, r.OwnerHash = nil, nil
		zvx.Assert(SignAsOwner(owner, k[0], &r) == nil, "a request can be signed as owner")
		zvx.Check(VerifyOwnerSignature(owner, &r) != nil, "the owner signature of another key is rejected")
		d, err := SignRequestAsIssuer(issuer, k[1], req)
		zvx.Assert(err == nil, "a request can be signed as issuer")
		zvx.Check(VerifyIssuerSignature(issuer, d) != nil, "the issuer signature of another key is rejected")
		// exchanged roles
		zvx.Check(VerifyOwnerSignature(issuer, req) != nil, "the owner signature of another signer is rejected")
		zvx.Check(VerifyIssuerSignature(owner, c) != nil, "the issuer signature of another signer is rejected")
		n := vxSigner(der0)
		n.CanOwn = false
		var u common.PolicyCertificateSigningRequest
		u.PolicyCertificateFields = vxFields(der2)
		zvx.Check(SignAsOwner(n, k0, &u) != nil && u.OwnerHash == nil && u.OwnerSignature == nil, "a certificate that cannot own does not sign as owner")
	}
	_ = reqJSON
	zvx.Reach("judged")
}

// VxUnserializable: when a document cannot be serialized, signing and verifying report it and leave it as it was.
func VxUnserializable() {
	k0, der0 := vxKey(0)
	k1, der1 := vxKey(1)
	_, der2 := vxKey(2)
	owner, issuer := vxSigner(der0), vxSigner(der1)
	far := time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC) // not representable in RFC 3339
	req := &common.PolicyCertificateSigningRequest{PolicyCertificateFields: vxFields(der2)}
	spoil := func(f *common.PolicyCertificateFields, which int) time.Time {
		p := []*time.Time{&f.NotBefore, &f.NotAfter, &f.TimeStamp}[which]
		was := *p
		*p = far
		return was
	}
	which := zvx.Choose("time", 3)
	switch zvx.Choose("step", 5) {
	case 0:
		spoil(&req.PolicyCertificateFields, which)
		zvx.Check(SignAsOwner(owner, k0, req) != nil, "the failure is reported")
		zvx.Check(req.OwnerHash == nil && req.OwnerSignature == nil, "the request is modified only without errors")
	case 1:
		c := vxPC()
		c.IssuerHash, c.IssuerSignature = nil, nil
		spoil(&c.PolicyCertificateFields, which)
		zvx.Check(SignPolicyCertificateAsIssuer(issuer, k1, c) != nil, "the failure is reported")
		zvx.Check(c.IssuerHash == nil && c.IssuerSignature == nil, "the certificate is modified only without errors")
	case 2, 3, 4:
		step := zvx.Choose("verify", 2)
		zvx.Assert(SignAsOwner(owner, k0, req) == nil, "a request can be signed as owner")
		c, err := SignRequestAsIssuer(issuer, k1, req)
		zvx.Assert(err == nil, "a request can be signed as issuer")
		c.SPCTs = []common.SignedPolicyCertificateTimestamp{vxSPCT(0)}
		ownerSig, ownerHash, issuerSig, issuerHash := string(c.OwnerSignature), string(c.OwnerHash), string(c.IssuerSignature), string(c.IssuerHash)
		spoil(&c.PolicyCertificateFields, which)
		if step == 0 {
			zvx.Check(VerifyOwnerSignatureInPolicyCertificate(owner, c) != nil, "the failure is reported")
		} else {
			zvx.Check(VerifyIssuerSignature(issuer, c) != nil, "the failure is reported")
		}
		zvx.Check(string(c.OwnerSignature) == ownerSig && string(c.OwnerHash) == ownerHash && string(c.IssuerSignature) == issuerSig && string(c.IssuerHash) == issuerHash && len(c.SPCTs) == 1, "verifying leaves the certificate as it was")
	}
}

// VxConstraints: a child certificate is accepted iff it is valid only while its issuer is, and only
// for the issuer's domain and its subdomains.
func VxConstraints() {
	issuer, child := vxPC(), vxPC()
	if zvx.Choose("what", 2) == 0 {
		t := func(name string) time.Time { return vxT0.Add(time.Duration(zvx.IntRange(name, -3, 3))) }
		issuer.NotBefore, issuer.NotAfter, child.NotBefore, child.NotAfter = t("issuer.notbefore"), t("issuer.notafter"), t("child.notbefore"), t("child.notafter")
		child.DomainField = []string{"a.b", "c.a.b"}[zvx.Choose("domain", 2)]
		within := zvx.And(!child.NotBefore.Before(issuer.NotBefore), !child.NotAfter.After(issuer.NotAfter))
		zvx.Check((VerifyIssuerConstraints(issuer, child) == nil) == within, "a certificate is accepted iff it is valid only while its issuer is")
		return
	}
	n := zvx.Param("letters", 3)
	d := zvx.String("issuer.domain", zvx.Choose("issuer.len", n))
	e := zvx.String("child.domain", zvx.Choose("child.len", n+2))
	name := func(s string) bool { // a sequence of labels
		ok, dot := true, true
		for i := 0; i < len(s); i++ {
			zvx.Assume(s[i] < 0x80 && s[i] != '\n')
			ok = zvx.And(ok, !zvx.And(s[i] == '.', dot))
			dot = s[i] == '.'
		}
		return ok
	}
	valid := zvx.And(name(d), name(e))
	issuer.DomainField, child.DomainField = d, e
	under := d == "" || d == e
	if !under && len(e) > len(d)+1 {
		under = e[len(e)-len(d)-1:] == "."+d
	}
	err := VerifyIssuerConstraints(issuer, child)
	zvx.Check(zvx.Implies(err == nil, under), "a certificate for a domain outside its issuer's is rejected")
	zvx.Check(zvx.Implies(err == nil, valid), "a name with an empty label is rejected")
	zvx.Check(zvx.Implies(zvx.And(under, valid), err == nil), "a certificate for a domain of its issuer is accepted")
	zvx.Reach("judged")
}

// VxTimestamp: the timestamp of a log signs the certificate, the log and the time.
func VxTimestamp() {
	zvx.OracleHash()
	k0, der0 := vxKey(0)
	c := vxPC()
	was := vxJSON(c)
	logID := zvx.Bytes("logid", 1)
	spt, err := SignPolicyCertificateTimestamp(c, 3, logID, k0)
	zvx.Assert(err == nil && spt != nil, "a certificate can be given a timestamp")
	zvx.Check(vxJSON(c) == was, "the timestamp leaves the certificate as it was")
	zvx.Check(spt.Version == 3 && string(spt.LogID) == string(logID), "the timestamp is of the log")
	pub, err := vxPub(der0)
	zvx.Assert(err == nil, "key")
	verify := func(c *common.PolicyCertificate, s common.SignedPolicyCertificateTimestamp) error {
		sig := s.Signature
		s.Signature = nil
		in := common.NewSignedEntryTimestampSignatureInput([]byte(vxJSON(c)), &s)
		return VerifySignedBytes([]byte(vxJSON(in)), sig, pub)
	}
	zvx.Check(verify(c, *spt) == nil, "the signature of the timestamp is accepted")
	s := *spt
	switch k := zvx.Choose("field", vxNumFields+2+vxNumIssuer+vxNumSET); {
	case k < vxNumFields:
		vxMutateFields(&c.PolicyCertificateFields, k)
	case k < vxNumFields+2:
		vxOwnerPart(&c.PolicyCertificateFields, k-vxNumFields)
	case k < vxNumFields+2+vxNumIssuer:
		vxIssuerPart(c, k-vxNumFields-2)
	default:
		vxMutateSET(&s.SignedEntryTimestamp, k-vxNumFields-2-vxNumIssuer)
	}
	zvx.Check(verify(c, s) != nil, "the signature of the timestamp is rejected for other content")
	zvx.Reach("judged")
}

func vxPub(der []byte) (*rsa.PublicKey, error) { return util.DERBytesToRSAPublic(der) }
