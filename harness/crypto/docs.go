package crypto

import (
	"time"

	"github.com/google/trillian"
	trilliantypes "github.com/google/trillian/types"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/zvx"
)

var vxT0 = time.Unix(1700000000, 123456789).UTC()

// vxFew restricts the changes to one kind per part.
var vxFew bool

func vxVariant(name string, n, only int) int {
	if vxFew {
		return only
	}
	return zvx.Choose(name, n)
}

// vxText is old without its last character, with any other ASCII character instead of it, or with one more.
func vxText(name string, old string) string {
	n := len(old) - 1
	switch vxVariant(name+".len", 3, 1) {
	case 0:
		return old[:n]
	case 2:
		n++
	}
	c := zvx.String(name, 1)
	zvx.Assume(c[0] < 0x80)
	zvx.Assume(old[:n]+c != old)
	return old[:n] + c
}

// vxBlob is no bytes, old with any other last byte, or with one more byte.
func vxBlob(name string, old []byte) []byte {
	n := len(old) - 1
	switch vxVariant(name+".len", 3, 1) {
	case 0:
		return nil
	case 2:
		n++
	}
	b := append(append([]byte{}, old[:n]...), zvx.Bytes(name, 1)...)
	zvx.Assume(string(b) != string(old))
	return b
}

// vxTime is an instant other than old.
func vxTime(name string, old time.Time) time.Time {
	t := []time.Time{{}, old.Add(1), old.Add(-1), old.Add(time.Hour), time.Unix(0, 0).UTC(), time.Unix(1<<33, 999999999).In(time.FixedZone("BRT", -7200))}[vxVariant(name, 6, 1)]
	zvx.Assume(!t.Equal(old))
	return t
}

func vxNum(name string, old int) int {
	v := []int{0, -1, 1, 2, 1 << 40}[vxVariant(name, 5, 4)]
	zvx.Assume(v != old)
	return v
}

func vxTexts(name string, old []string) []string {
	var r []string
	switch vxVariant(name, 5, 2) {
	case 0: // none
	case 1: // one of them changed
		r = append(append(r, old...), "x")
		r[0] = vxText(name+".0", old[0])
		r = r[:len(old)]
	case 2: // one more
		r = append(append(r, old...), vxText(name+".n", "-"))
	case 3: // another order
		for i := len(old) - 1; i >= 0; i-- {
			r = append(r, old[i])
		}
	case 4: // joined
		r = []string{old[0] + zvx.String(name+".sep", 1) + old[1]}
		zvx.Assume(r[0][len(old[0])] < 0x80)
	}
	return r
}

func vxSET(i int) common.SignedEntryTimestamp {
	return *common.NewSignedEntryTimestamp(1, []byte{7, byte(i)}, vxT0.Add(time.Duration(i)), []byte{9, byte(i)})
}

func vxSPCT(i int) common.SignedPolicyCertificateTimestamp {
	return common.SignedPolicyCertificateTimestamp{SignedEntryTimestamp: vxSET(i)}
}

func vxSPCRT(i int) common.SignedPolicyCertificateRevocationTimestamp {
	return common.SignedPolicyCertificateRevocationTimestamp{SignedEntryTimestamp: vxSET(i)}
}

const vxNumSET = 4

func vxMutateSET(s *common.SignedEntryTimestamp, k int) {
	switch k {
	case 0:
		s.Version = vxNum("set.version", s.Version)
	case 1:
		s.LogID = vxBlob("set.logid", s.LogID)
	case 2:
		s.AddedTS = vxTime("set.added", s.AddedTS)
	case 3:
		s.Signature = vxBlob("set.signature", s.Signature)
	}
}

func vxFields(pk []byte) common.PolicyCertificateFields {
	return *common.NewPolicyCertificateFields(3, 5, "a.b", vxT0.Add(-time.Hour), vxT0.Add(time.Hour), false, true, pk, common.RSA, common.SHA256, vxT0,
		common.PolicyAttributes{
			AllowedCAs:           []string{"CA", "CB"},
			AllowedSubdomains:    []string{"u", "v"},
			DisallowedSubdomains: []string{"w", "x"},
			ExcludedSubdomains:   []string{"y", "z"},
		}, nil, nil)
}

// The fields that the owner signs.
const vxNumFields = 17

func vxMutateFields(c *common.PolicyCertificateFields, k int) {
	a := &c.PolicyAttributes
	switch k {
	case 0:
		c.Version = vxNum("version", c.Version)
	case 1:
		c.SerialNumberField = vxNum("serial", c.SerialNumberField)
	case 2:
		c.DomainField = vxText("domain", c.DomainField)
	case 3:
		c.NotBefore = vxTime("notbefore", c.NotBefore)
	case 4:
		c.NotAfter = vxTime("notafter", c.NotAfter)
	case 5:
		c.CanIssue = !c.CanIssue
	case 6:
		c.CanOwn = !c.CanOwn
	case 7:
		c.PublicKey = vxBlob("publickey", c.PublicKey)
	case 8:
		c.PublicKeyAlgorithm = common.PublicKeyAlgorithm(vxNum("pkalg", int(c.PublicKeyAlgorithm)))
	case 9:
		c.SignatureAlgorithm = common.SignatureAlgorithm(vxNum("sigalg", int(c.SignatureAlgorithm)))
	case 10:
		c.TimeStamp = vxTime("timestamp", c.TimeStamp)
	case 11:
		a.AllowedCAs = vxTexts("cas", a.AllowedCAs)
	case 12:
		a.AllowedSubdomains = vxTexts("allowed", a.AllowedSubdomains)
	case 13:
		a.DisallowedSubdomains = vxTexts("disallowed", a.DisallowedSubdomains)
	case 14:
		a.ExcludedSubdomains = vxTexts("excluded", a.ExcludedSubdomains)
	case 15: // the lists exchanged
		switch vxVariant("lists", 3, 0) {
		case 0:
			a.AllowedSubdomains, a.DisallowedSubdomains = a.DisallowedSubdomains, a.AllowedSubdomains
		case 1:
			a.ExcludedSubdomains, a.DisallowedSubdomains = a.DisallowedSubdomains, a.ExcludedSubdomains
		case 2:
			a.AllowedCAs, a.AllowedSubdomains = a.AllowedSubdomains, a.AllowedCAs
		}
	case 16: // the validity exchanged
		c.NotBefore, c.NotAfter = c.NotAfter, c.NotBefore
	}
}

func vxOwnerPart(c *common.PolicyCertificateFields, k int) {
	switch k {
	case 0:
		c.OwnerSignature = vxBlob("ownersignature", c.OwnerSignature)
	case 1:
		c.OwnerHash = vxBlob("ownerhash", c.OwnerHash)
	}
}

func vxPC() *common.PolicyCertificate {
	c := &common.PolicyCertificate{PolicyCertificateFields: vxFields([]byte{1, 2})}
	c.OwnerSignature, c.OwnerHash = []byte{3}, []byte{4, 5}
	c.IssuerSignature, c.IssuerHash = []byte{6}, []byte{7}
	c.SPCTs = []common.SignedPolicyCertificateTimestamp{vxSPCT(0), vxSPCT(1)}
	return c
}

const vxNumIssuer = 6

func vxIssuerPart(c *common.PolicyCertificate, k int) {
	switch k {
	case 0:
		c.IssuerSignature = vxBlob("issuersignature", c.IssuerSignature)
	case 1:
		c.IssuerHash = vxBlob("issuerhash", c.IssuerHash)
	case 2:
		c.SPCTs = append([]common.SignedPolicyCertificateTimestamp{}, c.SPCTs...)
		vxMutateSET(&c.SPCTs[zvx.Choose("which", len(c.SPCTs))].SignedEntryTimestamp, zvx.Choose("set", vxNumSET))
	case 3:
		c.SPCTs = c.SPCTs[:zvx.Choose("spcts", len(c.SPCTs))]
	case 4:
		c.SPCTs = append(append([]common.SignedPolicyCertificateTimestamp{}, c.SPCTs...), vxSPCT(2))
	case 5:
		c.SPCTs = []common.SignedPolicyCertificateTimestamp{c.SPCTs[1], c.SPCTs[0]}
	}
}

func vxRev() *common.PolicyCertificateRevocation {
	r := common.NewPolicyCertificateRevocation(3, 5, vxT0, []byte{1}, []byte{2, 3}, []common.SignedPolicyCertificateRevocationTimestamp{vxSPCRT(0), vxSPCRT(1)}, []byte{4}, []byte{5})
	r.DomainField = "a.b"
	return r
}

const vxNumRev = 11

func vxMutateRev(r *common.PolicyCertificateRevocation, k int) {
	switch k {
	case 0:
		r.Version = vxNum("version", r.Version)
	case 1:
		r.SerialNumberField = vxNum("serial", r.SerialNumberField)
	case 2:
		r.DomainField = vxText("domain", r.DomainField)
	case 3:
		r.TimeStamp = vxTime("timestamp", r.TimeStamp)
	case 4:
		r.OwnerSignature = vxBlob("ownersignature", r.OwnerSignature)
	case 5:
		r.OwnerHash = vxBlob("ownerhash", r.OwnerHash)
	case 6:
		r.IssuerSignature = vxBlob("issuersignature", r.IssuerSignature)
	case 7:
		r.IssuerHash = vxBlob("issuerhash", r.IssuerHash)
	case 8:
		r.SPCRTs = append([]common.SignedPolicyCertificateRevocationTimestamp{}, r.SPCRTs...)
		vxMutateSET(&r.SPCRTs[zvx.Choose("which", len(r.SPCRTs))].SignedEntryTimestamp, zvx.Choose("set", vxNumSET))
	case 9:
		r.SPCRTs = r.SPCRTs[:zvx.Choose("spcrts", len(r.SPCRTs))]
	case 10:
		r.SPCRTs = append(append([]common.SignedPolicyCertificateRevocationTimestamp{}, r.SPCRTs...), vxSPCRT(2))
	}
}

// VxDocument: a document with any one part changed is another document, for Equal and for its
// serialization, and the serialization preserves it.
func VxDocument() {
	var a, b any               // before and after the change
	var eq func(x, y any) bool // the comparison of the code
	ptr := false
	kind := zvx.Choose("kind", zvx.Param("kinds", 9))
	switch kind {
	case 0:
		x, y := vxPC(), vxPC()
		switch k := zvx.Choose("field", vxNumFields+2+vxNumIssuer); {
		case k < vxNumFields:
			vxMutateFields(&y.PolicyCertificateFields, k)
		case k < vxNumFields+2:
			vxOwnerPart(&y.PolicyCertificateFields, k-vxNumFields)
		default:
			vxIssuerPart(y, k-vxNumFields-2)
		}
		a, b, ptr = x, y, true
		eq = func(x, y any) bool { return x.(*common.PolicyCertificate).Equal(*y.(*common.PolicyCertificate)) }
	case 1:
		x := &common.PolicyCertificateSigningRequest{PolicyCertificateFields: vxFields([]byte{1, 2})}
		x.OwnerSignature, x.OwnerHash = []byte{3}, []byte{4, 5}
		y := &common.PolicyCertificateSigningRequest{PolicyCertificateFields: vxFields([]byte{1, 2})}
		y.OwnerSignature, y.OwnerHash = []byte{3}, []byte{4, 5}
		if k := zvx.Choose("field", vxNumFields+2); k < vxNumFields {
			vxMutateFields(&y.PolicyCertificateFields, k)
		} else {
			vxOwnerPart(&y.PolicyCertificateFields, k-vxNumFields)
		}
		a, b, ptr = x, y, true
		eq = func(x, y any) bool {
			return x.(*common.PolicyCertificateSigningRequest).Equal(y.(*common.PolicyCertificateSigningRequest))
		}
	case 2:
		x, y := vxSPCT(0), vxSPCT(0)
		vxMutateSET(&y.SignedEntryTimestamp, zvx.Choose("field", vxNumSET))
		a, b, ptr = &x, &y, true
		eq = func(x, y any) bool {
			return x.(*common.SignedPolicyCertificateTimestamp).Equal(*y.(*common.SignedPolicyCertificateTimestamp))
		}
	case 3:
		x, y := vxRev(), vxRev()
		vxMutateRev(y, zvx.Choose("field", vxNumRev))
		a, b, ptr = x, y, true
		eq = func(x, y any) bool {
			return x.(*common.PolicyCertificateRevocation).Equal(*y.(*common.PolicyCertificateRevocation))
		}
	case 4:
		x, y := vxSPCRT(0), vxSPCRT(0)
		vxMutateSET(&y.SignedEntryTimestamp, zvx.Choose("field", vxNumSET))
		a, b, ptr = &x, &y, true
		eq = func(x, y any) bool {
			return x.(*common.SignedPolicyCertificateRevocationTimestamp).Equal(*y.(*common.SignedPolicyCertificateRevocationTimestamp))
		}
	case 5:
		x := common.NewPolicyCertificateRevocationSigningRequest([]byte{1, 2})
		y := common.NewPolicyCertificateRevocationSigningRequest(vxBlob("hash", []byte{1, 2}))
		a, b, ptr = x, y, true
		eq = func(x, y any) bool {
			return x.(*common.PolicyCertificateRevocationSigningRequest).Equal(y.(*common.PolicyCertificateRevocationSigningRequest))
		}
	case 6:
		s := vxSPCT(0)
		x := common.NewSignedEntryTimestampSignatureInput([]byte{1, 2}, &s)
		y := common.NewSignedEntryTimestampSignatureInput([]byte{1, 2}, &s)
		if k := zvx.Choose("field", vxNumSET+1); k < vxNumSET {
			vxMutateSET(&y.SignedEntryTimestamp, k)
		} else {
			y.Entry = vxBlob("entry", x.Entry)
		}
		a, b, ptr = x, y, true
		eq = func(x, y any) bool {
			return x.(*common.SignedEntryTimestampSignatureInput).Equal(*y.(*common.SignedEntryTimestampSignatureInput))
		}
	case 7:
		x := trilliantypes.LogRootV1{TreeSize: 3, RootHash: []byte{1, 2}, TimestampNanos: 4, Revision: 5, Metadata: []byte{6}}
		y := x
		switch zvx.Choose("field", 5) {
		case 0:
			y.TreeSize = 1 << 63
		case 1:
			y.RootHash = vxBlob("root", x.RootHash)
		case 2:
			y.TimestampNanos = 0
		case 3:
			y.Revision = 1
		case 4:
			y.Metadata = vxBlob("metadata", x.Metadata)
		}
		a, b, ptr = &x, &y, true
		eq = func(x, y any) bool {
			p, q := x.(*trilliantypes.LogRootV1), y.(*trilliantypes.LogRootV1)
			return p.TreeSize == q.TreeSize && string(p.RootHash) == string(q.RootHash) && p.TimestampNanos == q.TimestampNanos && p.Revision == q.Revision && string(p.Metadata) == string(q.Metadata)
		}
	case 8:
		x := &trillian.Proof{LeafIndex: 3, Hashes: [][]byte{{1}, {2}}}
		y := &trillian.Proof{LeafIndex: 3, Hashes: [][]byte{{1}, {2}}}
		switch zvx.Choose("field", 3) {
		case 0:
			y.LeafIndex = -1
		case 1:
			y.Hashes[1] = vxBlob("hash", x.Hashes[1])
		case 2:
			y.Hashes = [][]byte{{1, 2}}
		}
		a, b, ptr = x, y, true
		eq = func(x, y any) bool {
			p, q := x.(*trillian.Proof), y.(*trillian.Proof)
			if p.LeafIndex != q.LeafIndex || len(p.Hashes) != len(q.Hashes) {
				return false
			}
			for i := range p.Hashes {
				if string(p.Hashes[i]) != string(q.Hashes[i]) {
					return false
				}
			}
			return true
		}
	}
	_ = ptr
	zvx.Check(eq(a, a) && eq(b, b), "a document is Equal to itself")
	zvx.Check(!eq(a, b) && !eq(b, a), "documents with a different part are not Equal")
	da, err := common.ToJSON(a)
	zvx.Assert(err == nil, "a document can be serialized")
	db, err := common.ToJSON(b)
	zvx.Assert(err == nil, "a document can be serialized")
	zvx.Check(string(da) != string(db), "documents with a different part have different serializations")
	// Alone, or as part of a list.
	list := zvx.Choose("list", 2) == 1 // with fewer changes
	data := db
	if list {
		data, err = common.ToJSON([]any{a, b})
		zvx.Assert(err == nil, "a list of documents can be serialized")
	}
	back, err := common.FromJSON(data)
	zvx.Assert(err == nil, "what was serialized can be deserialized")
	if list {
		l, ok := back.([]any)
		zvx.Assert(ok && len(l) == 2, "a list keeps its elements")
		zvx.Check(eq(l[0], a), "the deserialized document is Equal to the original")
		back = l[1]
	}
	zvx.Check(eq(back, b) && eq(b, back), "the deserialized document is Equal to the original")
	again, err := common.ToJSON(back)
	zvx.Check(err == nil && string(again) == string(db), "the deserialized document serializes to the same bytes")
	if d, ok := back.(common.MarshallableDocument); ok && kind != 6 { // 6 is not exchanged
		raw, err := d.Raw()
		zvx.Check(err == nil && string(raw) == string(db), "Raw is what the document was deserialized from")
		raw, err = b.(common.MarshallableDocument).Raw()
		zvx.Check(err == nil && string(raw) == string(db), "Raw is the serialization of a document that was not deserialized")
	}
	zvx.Reach("compared")
}

// VxParse: whatever the bytes, deserializing them returns, and what it accepts can be serialized.
func VxParse() {
	T := []string{"pc", "*pc", "pcsr", "spct", "pcrev", "*pcrev", "spcrevt", "pcrevsr", "spctsiginput", "[]", "*[]", "**pc", "*", "", "x", "logrootv1", "trillian.Proof", "*trillian.Proof"}[zvx.Choose("T", 18)]
	o := zvx.Bytes("O", zvx.Param("bytes", 3))
	pre, post := []byte(`{"T":"`+T+`","O":`), []byte(`}`)
	switch zvx.Choose("around", 3) {
	case 1:
		pre, post = append(pre, `{"Version":`...), []byte(`}}`)
	case 2:
		pre, post = []byte(`{"T":"[]","O":[{"T":"`+T+`","O":`), []byte(`}]}`)
	}
	data := append(append(pre, o...), post...)
	v, err := common.FromJSON(data)
	if err != nil {
		return
	}
	zvx.Reach("accepted")
	zvx.Check(v != nil, "an accepted document is not nil")
}
