package responder

import (
	"context"
	"crypto/rsa"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

//vx:stub github.com/netsec-ethz/fpki/pkg/common/crypto.SignBytes => vxSign

// vxAt is called at each point where the running operation can be interleaved with another one.
var vxAt func()

// vxHooked surrounds the computation of signatures (see the patches of this harness).
func vxHooked(f func([]byte, *rsa.PrivateKey) ([]byte, error)) func([]byte, *rsa.PrivateKey) ([]byte, error) {
	return func(b []byte, key *rsa.PrivateKey) ([]byte, error) {
		if vxAt != nil {
			vxAt()
		}
		return f(b, key)
	}
}

// vxKeepDB does not remove the nodes of older trees.
type vxKeepDB struct{ vxMapDB }

func (d *vxKeepDB) DeleteTreeNodes(ctx context.Context, ks []common.SHA256Output) (int, error) {
	return len(ks), nil
}

func vxConsistent(ps []*mapCommon.MapServerResponse, err error, key *rsa.PublicKey) {
	zvx.Assert(err == nil, "a request fails while the root is reloaded")
	for _, p := range ps {
		_, ok, err := prover.VerifyProofByDomain(p)
		zvx.Assert(err == nil && ok, "a proof made while the root is reloaded is rejected")
		zvx.Assert(crypto.VerifySignedBytes(p.PoI.Root, p.TreeHeadSig, key) == nil, "the tree head signature of an answer made while the root is reloaded does not cover its root")
	}
}

// VxReload: requests that run concurrently with the reload of the root are answered consistently. One operation is
// interleaved in the other one, at any access to the database or computation of a signature.
func VxReload() {
	zvx.OracleHash()
	d := &vxKeepDB{}
	d.whole = true
	ctx := context.Background()
	key := vxKey()
	d.doms = []vxDomain{{name: "b.com", certs: []common.SHA256Output{vxID(1, 1)}}, {name: "a.b.com", pols: []common.SHA256Output{vxID(2, 3)}}}
	if zvx.Choose("start_empty", 2) == 0 {
		d.coalesce()
		zvx.Assert(updater.UpdateSMT(ctx, d) == nil, "the update of the tree fails")
	}
	r, err := NewMapResponder(ctx, d, key)
	zvx.Assert(err == nil, "creating a responder fails")
	if d.root != nil {
		d.doms = append(d.doms, vxDomain{name: []string{"c.com", "x.b.com"}[zvx.Choose("changed", 2)], certs: []common.SHA256Output{vxID(3, 1)}})
	}
	d.coalesce()
	zvx.Assert(updater.UpdateSMT(ctx, d) == nil, "the update of the tree fails")

	reloaded := false
	var reloadErr, reqErr error
	reload := func() { reloadErr = r.ReloadRootAndSignTreeHead(ctx, key); reloaded = true }
	var ps []*mapCommon.MapServerResponse
	request := func() { ps, reqErr = r.GetProof(ctx, "a.b.com") }
	outer, inner := request, reload
	if zvx.Choose("outer", 2) == 1 {
		outer, inner = reload, request
	}
	at, k := zvx.IntRange("at", 0, zvx.Param("points", 12)-1), 0
	var done chan struct{}
	vxAt = func() {
		k++
		if k-1 != at {
			return
		}
		done = make(chan struct{})
		go func() { inner(); close(done) }()
		select {
		case <-done:
		case <-time.After(100 * time.Millisecond): // it waits for the outer operation
		}
	}
	d.failReads = true
	d.fail = func(string) bool { vxAt(); return false }
	outer()
	if done != nil {
		<-done
	}
	vxAt, d.fail = nil, nil
	if ps != nil || reqErr != nil {
		vxConsistent(ps, reqErr, &key.PublicKey)
	}
	zvx.Assert(reloadErr == nil, "reloading the root fails")
	if reloaded {
		request()
		vxConsistent(ps, reqErr, &key.PublicKey)
		zvx.Assert(string(ps[0].PoI.Root) == string(d.root[:]), "the responder does not use the reloaded root")
	}
	zvx.Reach("answered")
}
