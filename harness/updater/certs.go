package updater

import (
	"context"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/common"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

// The content of a certificate is a function of its identifier.
func vxCertID(b byte) (id common.SHA256Output) { id[0], id[31] = b, 1; return }
func vxExp(b byte) time.Time                   { return time.Unix(1_000_000+int64(b), 0) }
func vxParent(b byte) *common.SHA256Output {
	if b&1 == 0 {
		return nil
	}
	p := vxCertID(b + 1)
	return &p
}

var vxNames = [][]string{nil, {"a.com"}, {"b.com", "a.com"}}

func vxMakePolicy(domain string, b byte) common.PolicyDocument {
	p := &common.PolicyCertificate{}
	p.DomainField = domain
	p.JSONField = []byte{b, domain[0]}
	return p
}

func vxPolRaw(p common.PolicyDocument) []byte {
	r, _ := p.Raw()
	return r
}

type vxBatch struct {
	b     []byte
	names [][]string
	pols  []common.PolicyDocument
	polB  []byte
}

func vxNewBatch(n, np int) *vxBatch {
	x := &vxBatch{}
	for i := 0; i < n; i++ {
		x.b = append(x.b, zvx.U8("cert"))
		x.names = append(x.names, vxNames[zvx.Choose("names", len(vxNames))])
	}
	for i := 0; i < np; i++ {
		b := zvx.U8("policy")
		x.polB = append(x.polB, b)
		x.pols = append(x.pols, vxMakePolicy(vxNames[2][zvx.Choose("policy_domain", 2)], b))
	}
	return x
}

// inputs returns fresh slices, as a caller would build them.
func (x *vxBatch) inputs() (names [][]string, ids []common.SHA256Output, parents []*common.SHA256Output, certs []ctx509.Certificate, exps []time.Time) {
	for i, b := range x.b {
		names = append(names, x.names[i])
		ids = append(ids, vxCertID(b))
		parents = append(parents, vxParent(b))
		certs = append(certs, ctx509.Certificate{Raw: []byte{b}, NotAfter: vxExp(b)})
		exps = append(exps, vxExp(b))
	}
	return
}

func (d *vxDB) checkCertRow(b byte) {
	i := vxFind(d.certs, vxCertID(b))
	zvx.Assert(i >= 0, "a certificate of the batch is not stored")
	r := d.certs[i]
	zvx.Assert(len(r.payload) == 1 && r.payload[0] == b, "a certificate is stored with the payload of another one")
	zvx.Assert(r.exp.Equal(vxExp(b)), "a certificate is stored with a wrong expiration")
	p := vxParent(b)
	zvx.Assert((p == nil) == (r.parent == nil), "a certificate is stored with a wrong parent")
	if p != nil && r.parent != nil {
		zvx.Assert(*p == *r.parent, "a certificate is stored with a wrong parent")
	}
}

func (d *vxDB) checkNames(names []string, id common.SHA256Output, pairs []vxPair) {
	for _, n := range names {
		dom := common.SHA256Hash32Bytes([]byte(n))
		zvx.Assert(d.hasDomain(n), "a domain of a new certificate or policy is not stored")
		zvx.Assert(vxHas(d.dirty, dom), "a domain with a new certificate or policy is not marked as dirty")
		zvx.Assert(vxHasPair(pairs, dom, id), "a new certificate or policy is not associated with its domain")
	}
}

// check verifies the tables after the batch was inserted: wasNew tells for each element whether it was stored before.
func (x *vxBatch) check(d *vxDB, oldCerts, oldPols []vxRow) {
	var newIDs []common.SHA256Output
	for i, b := range x.b {
		d.checkCertRow(b)
		if vxFind(oldCerts, vxCertID(b)) < 0 {
			d.checkNames(x.names[i], vxCertID(b), d.domCerts)
		}
		newIDs = append(newIDs, vxCertID(b))
	}
	zvx.Assert(len(d.certs) <= len(oldCerts)+len(x.b), "more certificates stored than given")
	for i, b := range x.polB {
		id := common.SHA256Hash32Bytes(vxPolRaw(x.pols[i]))
		k := vxFind(d.pols, id)
		zvx.Assert(k >= 0, "a policy of the batch is not stored")
		zvx.Assert(string(d.pols[k].payload) == string(vxPolRaw(x.pols[i])), "a policy is stored with the payload of another one")
		if vxFind(oldPols, id) < 0 {
			d.checkNames([]string{x.pols[i].Domain()}, id, d.domPols)
		}
		_ = b
	}
	// nothing that was not asked for
	for _, p := range d.domCerts {
		ok := false
		for i, b := range x.b {
			if vxCertID(b) == p.b {
				for _, n := range x.names[i] {
					if common.SHA256Hash32Bytes([]byte(n)) == p.a {
						ok = true
					}
				}
			}
		}
		zvx.Assert(ok, "a certificate is associated with a domain it does not have")
	}
	for _, p := range d.domPols {
		ok := false
		for i := range x.pols {
			if common.SHA256Hash32Bytes(vxPolRaw(x.pols[i])) == p.b && common.SHA256Hash32Bytes([]byte(x.pols[i].Domain())) == p.a {
				ok = true
			}
		}
		zvx.Assert(ok, "a policy is associated with a domain it does not have")
	}
	for _, n := range d.domains {
		zvx.Assert(common.SHA256Hash32Bytes([]byte(n.name)) == n.id, "a domain is stored under the identifier of another one")
	}
}

func vxOld(n int, pols bool) *vxDB {
	d := &vxDB{}
	for i := 0; i < n; i++ {
		b := zvx.U8("old")
		p := vxParent(b)
		d.certs = vxInsert(d.certs, []common.SHA256Output{vxCertID(b)}, []*common.SHA256Output{p}, []time.Time{vxExp(b)}, [][]byte{{b}})
	}
	return d
}

// VxKeepExisting: a batch stores exactly what is new, with its own attributes.
func VxKeepExisting() {
	d := vxOld(zvx.Param("old", 1), true)
	x := vxNewBatch(zvx.Param("certs", 2), zvx.Param("policies", 1))
	oldC, oldP := append([]vxRow(nil), d.certs...), append([]vxRow(nil), d.pols...)
	n, ids, par, certs, exps := x.inputs()
	err := UpdateWithKeepExisting(context.Background(), d, n, ids, par, certs, exps, x.pols)
	zvx.Assert(err == nil, "the update fails")
	x.check(d, oldC, oldP)
	zvx.Reach("updated")
}

// VxRetry: a batch that was interrupted by a failure of the database is completed when it is repeated.
func VxRetry() {
	d := &vxDB{}
	x := vxNewBatch(zvx.Param("certs", 1), zvx.Param("policies", 1))
	at, k := zvx.Choose("failing_operation", 10), 0
	d.fail = func(string) bool { k++; return k-1 == at }
	n, ids, par, certs, exps := x.inputs()
	err := UpdateWithKeepExisting(context.Background(), d, n, ids, par, certs, exps, x.pols)
	if k > at {
		zvx.Assert(err != nil, "a failure of the database is not reported")
		d.fail = nil
		n, ids, par, certs, exps = x.inputs()
		err = UpdateWithKeepExisting(context.Background(), d, n, ids, par, certs, exps, x.pols)
	}
	zvx.Assert(err == nil, "the update fails")
	x.check(d, nil, nil)
	zvx.Reach("retried")
}
