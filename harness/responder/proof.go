package responder

import (
	"bytes"
	"context"
	"crypto/rand"
	"crypto/rsa"
	"errors"
	"sort"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

//vx:stub github.com/netsec-ethz/fpki/pkg/common/crypto.VerifySignedBytes => vxVerify

var vxKeyNative *rsa.PrivateKey

func vxKey() *rsa.PrivateKey {
	if zvx.Symbolic() {
		return &rsa.PrivateKey{}
	}
	if vxKeyNative == nil {
		vxKeyNative, _ = rsa.GenerateKey(rand.Reader, 2048)
	}
	return vxKeyNative
}

// vxSign is an ideal signature under the engine.
func vxSign(b []byte, key *rsa.PrivateKey) ([]byte, error) { return append([]byte("sig"), b...), nil }
func vxVerify(b []byte, sig []byte, key *rsa.PublicKey) error {
	if !bytes.Equal(sig, append([]byte("sig"), b...)) {
		return errors.New("wrong signature")
	}
	return nil
}

type vxDomain struct {
	name        string
	certs, pols []common.SHA256Output
}

// vxMapDB stores the identifiers of the certificates and policies of each domain.
type vxMapDB struct {
	vxDB
	doms []vxDomain
}

func vxGlue(ids []common.SHA256Output) []byte {
	ids = append(ids[:0:0], ids...)
	sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
	var r []byte
	for _, id := range ids {
		r = append(r, id[:]...)
	}
	return r
}
func (d *vxMapDB) dom(id common.SHA256Output) *vxDomain {
	for i := range d.doms {
		if common.SHA256Hash32Bytes([]byte(d.doms[i].name)) == id {
			return &d.doms[i]
		}
	}
	return nil
}
func (d *vxMapDB) RetrieveDomainCertificatesIDs(ctx context.Context, id common.SHA256Output) (r common.SHA256Output, b []byte, err error) {
	if d.f("cert ids") {
		return r, nil, errVx
	}
	if x := d.dom(id); x != nil && len(x.certs) > 0 {
		b = vxGlue(x.certs)
		return common.SHA256Hash32Bytes(b), b, nil
	}
	return r, nil, nil
}
func (d *vxMapDB) RetrieveDomainPoliciesIDs(ctx context.Context, id common.SHA256Output) (r common.SHA256Output, b []byte, err error) {
	if d.f("policy ids") {
		return r, nil, errVx
	}
	if x := d.dom(id); x != nil && len(x.pols) > 0 {
		b = vxGlue(x.pols)
		return common.SHA256Hash32Bytes(b), b, nil
	}
	return r, nil, nil
}

// coalesce computes the payloads of the domains and marks them as dirty.
func (d *vxMapDB) coalesce() {
	d.dirty = nil
	for _, x := range d.doms {
		id := common.SHA256Hash32Bytes([]byte(x.name))
		d.setContent(id, vxGlue(append(append([]common.SHA256Output(nil), x.certs...), x.pols...)))
		d.dirty = append(d.dirty, id)
	}
}

func vxID(b byte, kind byte) (id common.SHA256Output) {
	id[0], id[31] = b, kind
	return
}

// vxSites are the domains that may have content, and the requests for them with the domains that must be answered.
var vxSites = []string{"b.com", "a.b.com", "c.a.b.com"}
var vxRequests = []struct {
	name  string
	parts []string
}{
	{"b.com", []string{"b.com"}},
	{"a.b.com", []string{"b.com", "a.b.com"}},
	{"www.a.b.com", []string{"b.com", "a.b.com"}},
	{"*.a.b.com", []string{"b.com", "a.b.com"}},
	{"c.a.b.com", []string{"b.com", "a.b.com", "c.a.b.com"}},
	{"x.b.com", []string{"b.com", "x.b.com"}},
}

func vxFill(d *vxMapDB, n int) {
	for i := 0; i < n; i++ {
		x := vxDomain{name: vxSites[i]}
		k := zvx.Choose("content", 5)
		if k == 1 || k >= 3 {
			x.certs = append(x.certs, vxID(zvx.U8("cert"), 1))
		}
		if k == 4 {
			x.certs = append(x.certs, vxID(zvx.U8("cert"), 2))
		}
		if k == 2 || k == 3 {
			x.pols = append(x.pols, vxID(zvx.U8("policy"), 3))
		}
		d.doms = append(d.doms, x)
	}
}

// checkAnswer: the answer to a request has one proof per domain of its chain, each of which a client accepts, with the
// content stored for the domain.
func (d *vxMapDB) checkAnswer(r *MapResponder, name string, parts []string, key *rsa.PublicKey) {
	ps, err := r.GetProof(context.Background(), name)
	zvx.Assert(err == nil, "a request fails")
	zvx.Assert(len(ps) == len(parts), "the answer does not have one proof per domain")
	for i, p := range ps {
		zvx.Assert(p.DomainEntry.DomainName == parts[i], "a proof is for another domain")
		id := common.SHA256Hash32Bytes([]byte(parts[i]))
		zvx.Assert(p.DomainEntry.DomainID == id, "the identifier of a domain is wrong")
		typ, ok, err := prover.VerifyProofByDomain(p)
		zvx.Assert(err == nil && ok, "a client rejects a proof of the responder")
		x := d.dom(id)
		if x == nil || len(x.certs)+len(x.pols) == 0 {
			zvx.Assert(typ == mapCommon.PoA, "a domain without content is proven present")
		} else {
			zvx.Assert(typ == mapCommon.PoP, "a domain with content is proven absent")
			zvx.Assert(bytes.Equal(p.DomainEntry.CertIDs, vxGlue(x.certs)), "the answer does not have the certificates of the domain")
			zvx.Assert(bytes.Equal(p.DomainEntry.PolicyIDs, vxGlue(x.pols)), "the answer does not have the policies of the domain")
			if len(x.certs) > 0 {
				zvx.Assert(p.DomainEntry.CertIDsID == common.SHA256Hash32Bytes(vxGlue(x.certs)), "wrong hash of the certificates")
			}
			if len(x.pols) > 0 {
				zvx.Assert(p.DomainEntry.PolicyIDsID == common.SHA256Hash32Bytes(vxGlue(x.pols)), "wrong hash of the policies")
			}
			all := vxGlue(append(append([]common.SHA256Output(nil), x.certs...), x.pols...))
			zvx.Assert(p.DomainEntry.DomainValue == common.SHA256Hash32Bytes(all), "the value of the domain is not the hash of its content")
		}
		if d.root != nil {
			zvx.Assert(bytes.Equal(p.PoI.Root, d.root[:]), "a proof is not for the saved root")
		} else {
			zvx.Assert(len(p.PoI.Root) == 0, "a proof is not for the saved root")
		}
		zvx.Assert(crypto.VerifySignedBytes(p.PoI.Root, p.TreeHeadSig, key) == nil, "the tree head signature does not cover the root of the proof")
	}
}

// VxAnswer: what is stored is what is proven, for every request.
func VxAnswer() {
	zvx.OracleHash()
	d := &vxMapDB{}
	d.whole = true
	vxFill(d, zvx.Param("sites", 2))
	d.coalesce()
	zvx.Assert(updater.UpdateSMT(context.Background(), d) == nil, "the update of the tree fails")
	r, err := NewMapResponder(context.Background(), d, vxKey())
	zvx.Assert(err == nil, "creating a responder fails")
	q := vxRequests[zvx.Choose("request", len(vxRequests))]
	d.checkAnswer(r, q.name, q.parts, &vxKey().PublicKey)
	zvx.Reach("answered")
}

// VxAnswerFault: a failure of the database is reported, never answered with incomplete content.
func VxAnswerFault() {
	zvx.OracleHash()
	d := &vxMapDB{}
	d.whole = true
	vxFill(d, 1)
	d.coalesce()
	zvx.Assert(updater.UpdateSMT(context.Background(), d) == nil, "the update of the tree fails")
	r, err := NewMapResponder(context.Background(), d, vxKey())
	zvx.Assert(err == nil, "creating a responder fails")
	d.failReads = true
	at, k := zvx.Choose("failing_operation", 8), 0
	d.fail = func(string) bool { k++; return k-1 == at }
	_, err = r.GetProof(context.Background(), "a.b.com")
	if k > at {
		zvx.Assert(err != nil, "a failure of the database is not reported")
	} else {
		zvx.Assert(err == nil, "a request fails")
	}
	zvx.Reach("answered")
}
