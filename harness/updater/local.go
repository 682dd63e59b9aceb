package updater

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"errors"
	"math/big"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/google/certificate-transparency-go/x509/pkix"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

//vx:stub github.com/google/certificate-transparency-go/x509.ParseCertificate => vxParse

// vxParse decodes the stand-in encoding of certificates under the engine.
func vxParse(der []byte) (*ctx509.Certificate, error) {
	if len(der) != 3 || der[0] != 0x30 {
		return nil, errors.New("not a certificate")
	}
	c := &ctx509.Certificate{Raw: der, NotAfter: vxExp(der[1])}
	c.DNSNames = append(c.DNSNames, vxNames[der[2]]...)
	return c, nil
}

var vxKey *ecdsa.PrivateKey
var vxDERs = map[[2]byte][]byte{}

// vxDER is a certificate with number b and the given set of names.
func vxDER(b byte, names byte) []byte {
	if zvx.Symbolic() {
		return []byte{0x30, b, names}
	}
	if d := vxDERs[[2]byte{b, names}]; d != nil {
		return d
	}
	if vxKey == nil {
		vxKey, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	}
	tmpl := &ctx509.Certificate{SerialNumber: big.NewInt(int64(b) + 1), Subject: pkix.Name{Organization: []string{"o"}},
		NotBefore: time.Unix(1, 0), NotAfter: vxExp(b), DNSNames: vxNames[names]}
	der, err := ctx509.CreateCertificate(rand.Reader, tmpl, tmpl, &vxKey.PublicKey, vxKey)
	if err != nil {
		panic(err)
	}
	vxDERs[[2]byte{b, names}] = der
	return der
}

type vxChain struct {
	b     []byte // the leaf and its ancestors
	names byte
}

func vxNewChain(depth int) vxChain {
	x := vxChain{names: byte(zvx.Choose("names", len(vxNames)))}
	for i, n := 0, 1+zvx.Choose("chain", depth+1); i < n; i++ {
		x.b = append(x.b, byte(zvx.Choose("number", 3)))
	}
	return x
}

func (x vxChain) ders() [][]byte {
	var r [][]byte
	for i, b := range x.b {
		n := byte(0)
		if i == 0 {
			n = x.names
		}
		r = append(r, vxDER(b, n))
	}
	return r
}

// vxCheckChains: every certificate of every chain is stored with its own attributes.
func (d *vxDB) checkChains(xs []vxChain) {
	seen := map[common.SHA256Output]bool{}
	for _, x := range xs {
		ders := x.ders()
		for i, der := range ders {
			id := common.SHA256Hash32Bytes(der)
			k := vxFind(d.certs, id)
			zvx.Assert(k >= 0, "a certificate of a chain is not stored")
			zvx.Assert(string(d.certs[k].payload) == string(der), "a certificate is stored with the payload of another one")
			zvx.Assert(d.certs[k].exp.Equal(vxExp(x.b[i])), "a certificate is stored with a wrong expiration")
			if seen[id] {
				continue // the same certificate in two chains: the first parent is kept
			}
			// a parent of this certificate in one of the chains
			ok := false
			for _, y := range xs {
				yd := y.ders()
				for j := range yd {
					if string(yd[j]) == string(der) {
						if j+1 == len(yd) {
							ok = ok || d.certs[k].parent == nil
						} else {
							ok = ok || (d.certs[k].parent != nil && *d.certs[k].parent == common.SHA256Hash32Bytes(yd[j+1]))
						}
					}
				}
			}
			zvx.Assert(ok, "a certificate is stored with a wrong parent")
			seen[id] = true
		}
		d.checkNames(vxNames[x.names], common.SHA256Hash32Bytes(ders[0]), d.domCerts)
	}
	for _, p := range d.domCerts {
		ok := false
		for _, x := range xs {
			if common.SHA256Hash32Bytes(x.ders()[0]) == p.b {
				for _, n := range vxNames[x.names] {
					ok = ok || common.SHA256Hash32Bytes([]byte(n)) == p.a
				}
			}
		}
		zvx.Assert(ok, "a certificate is associated with a domain it does not have")
	}
}

// VxLocal: certificates given with their chains are stored with the chains.
func VxLocal() {
	d := &vxDB{}
	u := &MapUpdater{Conn: d}
	var xs []vxChain
	var certs [][]byte
	var chains [][][]byte
	for i, n := 0, zvx.Param("certs", 2); i < n; i++ {
		x := vxNewChain(zvx.Param("depth", 1))
		xs = append(xs, x)
		ds := x.ders()
		certs, chains = append(certs, ds[0]), append(chains, ds[1:])
	}
	err := u.UpdateCertsLocally(context.Background(), certs, chains)
	zvx.Assert(err == nil, "the update fails")
	d.checkChains(xs)
	zvx.Reach("stored")
}

// ---- fetchers ----

type vxFetcher struct {
	url         string
	id          byte
	whole       bool // batches are not split, nothing is excluded
	excluded    map[int64]bool
	base        int64 // the position recorded at first (symbolic)
	size        int64
	start, end  int64
	started     bool
	stopped     bool
	pos         int64
	batches     []vxChain
	failBatch   bool
	initialized bool
	initTime    time.Time
}

func (f *vxFetcher) Initialize(t time.Time) error { f.initialized, f.initTime = true, t; return nil }
func (f *vxFetcher) URL() string                  { return f.url }
func (f *vxFetcher) GetCurrentState(ctx context.Context, o logfetcher.State) (logfetcher.State, error) {
	return logfetcher.State{Size: uint64(f.size), STH: []byte(f.url)}, nil
}
func (f *vxFetcher) StartFetching(s, e int64) {
	f.start, f.end, f.pos, f.started, f.stopped = s, e, s, true, false
}
func (f *vxFetcher) StopFetching() { f.stopped = true }
func (f *vxFetcher) NextBatch(ctx context.Context) bool {
	zvx.Assert(f.initialized && f.started && !f.stopped, "a fetcher is used before it is started or after it is stopped")
	return f.pos <= f.end
}

// left is the number of remaining entries.
func (f *vxFetcher) left() int {
	for n := 0; n < 10; n++ {
		if f.pos+int64(n) > f.end {
			return n
		}
	}
	zvx.Assert(false, "entries are requested that do not exist")
	return 0
}

// ReturnNextBatch returns 1 to n entries of the log, of which some are excluded.
func (f *vxFetcher) ReturnNextBatch() ([]ctx509.Certificate, [][]*ctx509.Certificate, int, error) {
	if f.failBatch && zvx.Choose("batch_fails", 2) == 1 {
		return nil, nil, 0, errVx
	}
	n, excl := f.left(), 0
	if !f.whole {
		n = 1 + zvx.Choose("entries", n)
		excl = zvx.Choose("excluded", n+1)
	}
	if f.excluded == nil {
		f.excluded = map[int64]bool{}
	}
	var certs []ctx509.Certificate
	var chains [][]*ctx509.Certificate
	for i := 0; i < n-excl; i++ {
		x := vxChain{b: []byte{f.id + byte(f.pos-f.base) + byte(i)}, names: 1}
		delete(f.excluded, f.pos-f.base+int64(i))
		c, err := ctx509.ParseCertificate(x.ders()[0])
		zvx.Assume(c != nil)
		_ = err
		certs, chains = append(certs, *c), append(chains, nil)
	}
	for i := n - excl; i < n; i++ {
		f.excluded[f.pos-f.base+int64(i)] = true
	}
	f.pos += int64(n)
	return certs, chains, excl, nil
}

// VxFetch: an update cycle fetches each log from the position recorded in the database to its end; the position is
// recorded only once everything before it is stored. A cycle that failed is followed by another one.
func VxFetch() {
	d := &vxDB{}
	nf := zvx.Param("fetchers", 2)
	u := &MapUpdater{Conn: d}
	var fs []*vxFetcher
	d.ctLogs = map[string]vxCTLog{}
	for i := 0; i < nf; i++ {
		f := &vxFetcher{url: string(rune('a' + i)), id: byte(16 * i), failBatch: true}
		f.base = zvx.I64("recorded")
		zvx.Assume(zvx.And(f.base >= 0, f.base < 1<<60))
		f.size = f.base + int64(zvx.IntRange("new_entries", 0, zvx.Param("entries", 2)))
		fs = append(fs, f)
		u.Fetchers = append(u.Fetchers, f)
		d.ctLogs[f.url] = vxCTLog{f.base, []byte(f.url)}
	}
	k, at := 0, zvx.IntRange("failing_operation", -1, zvx.Param("ops", 8)-1)
	d.fail = func(op string) bool { k++; return k-1 == at }
	failed := vxCycle(d, u, fs)
	zvx.Reach("cycle done")
	if failed && zvx.Param("cycles", 2) > 1 {
		for _, f := range fs {
			f.failBatch, f.whole = false, true
			f.size += int64(zvx.IntRange("grown", 0, 1))
		}
		d.fail = nil
		zvx.Assert(!vxCycle(d, u, fs), "the cycle after a failed one fails too")
		zvx.Reach("retried")
	}
}

func vxCycle(d *vxDB, u *MapUpdater, fs []*vxFetcher) (failed bool) {
	ctx := context.Background()
	was := map[string]int64{}
	for _, f := range fs {
		f.initialized, f.started, f.stopped = false, false, false
		was[f.url] = d.ctLogs[f.url].size
	}
	recorded := func() {
		for _, f := range fs {
			s := d.ctLogs[f.url].size
			zvx.Assert(s == was[f.url] || s == f.size, "the recorded position of a log is not its end")
			for i := was[f.url]; i < s; i++ {
				if _, excl := f.excluded[i-f.base]; !excl {
					x := vxChain{b: []byte{f.id + byte(i-f.base)}, names: 1}
					zvx.Assert(vxFind(d.certs, common.SHA256Hash32Bytes(x.ders()[0])) >= 0, "the position of a log is recorded, but a certificate before it is not stored")
				}
			}
			zvx.Assert(string(d.ctLogs[f.url].sth) == f.url, "the recorded head is the one of another log")
		}
	}
	zvx.Assert(u.StartFetchingRemaining() == nil, "starting an update cycle fails")
	for i := 0; ; i++ {
		zvx.Assert(i <= 2*(zvx.Param("entries", 2)+2)+2, "an update cycle does not end")
		more, err := u.NextBatch(ctx)
		if err != nil {
			failed = true
			break
		}
		if !more {
			break
		}
		_, err = u.UpdateNextBatch(ctx)
		recorded()
		if err != nil {
			failed = true
			break
		}
	}
	recorded()
	for _, f := range fs {
		if f.started {
			zvx.Assert(f.start == was[f.url] && f.end == f.size-1, "a log is not fetched from the recorded position to its end")
		}
		if !failed {
			zvx.Assert(d.ctLogs[f.url].size == f.size, "a fully fetched log is not recorded")
			zvx.Assert(f.started && f.stopped && f.pos == f.size, "an update cycle without errors does not fetch all logs")
		}
	}
	return failed
}
