TR = "pkg/mapserver/trie"
TREE = '''
package trie

import (
	"bytes"
	"context"
	"math/rand"
	"sort"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
)

var ctx = context.Background()

func demoTrie(t *testing.T, d *demoDB, root []byte) *Trie {
	s, err := NewTrie(root, common.SHA256Hash, d)
	if err != nil {
		t.Fatal(err)
	}
	s.CacheHeightLimit = 32
	return s
}

func demoKey(bits string) []byte { // the first bits of the key
	k := make([]byte, 32)
	for i, b := range bits {
		if b == '1' {
			bitSet(k, i)
		}
	}
	return k
}

// demoUpdate sets each key to the hash of a byte, or removes it.
func demoUpdate(t *testing.T, s *Trie, content map[string]byte) {
	var keys, values [][]byte
	for k := range content {
		keys = append(keys, demoKey(k))
	}
	sort.Slice(keys, func(i, j int) bool { return bytes.Compare(keys[i], keys[j]) < 0 })
	for _, k := range keys {
		for x, v := range content {
			if bytes.Equal(demoKey(x), k) {
				if v == 0 {
					values = append(values, DefaultLeaf)
				} else {
					values = append(values, common.SHA256Hash([]byte{v}))
				}
			}
		}
	}
	if _, err := s.Update(ctx, keys, values); err != nil {
		t.Fatal(err)
	}
	if err := s.Commit(ctx); err != nil {
		t.Fatal(err)
	}
	s.ResetLiveCache()
}

var _ = rand.Int
'''
seed("T01-lastlevel", "T01", [
 (TR+"/trie_merkle_proof.go", '''	var b int
	for b = 0; b < len(ap); b++ {
		if bitIsSet(key, b) != bitIsSet(proofKey, b) {
			// the proofKey leaf node is not on the path of the key
			return false
		}
	}
	// return true because we verified another leaf is on the key path
	return true
}

// VerifyInclusionC''', '''	var b int
	for b = 0; b/8 < len(ap)/8; b++ {
		if bitIsSet(key, b) != bitIsSet(proofKey, b) {
			// the proofKey leaf node is not on the path of the key
			return false
		}
	}
	if len(ap)%8 == 0 {
		return true
	}
	// The remaining bits, all at once.
	mask := byte(0xff) << (8 - len(ap)%8)
	// return true because we verified another leaf is on the key path
	return (key[b/8]^proofKey[b/8])&mask<<1 == 0
}

// VerifyInclusionC''')],
 TR, TREE + '''
func TestDemo(t *testing.T) {
	d := newDemoDB()
	s := demoTrie(t, d, nil)
	demoUpdate(t, s, map[string]byte{"0": 1, "1": 2})
	ap, _, _, _, err := s.MerkleProof(ctx, demoKey("1"))
	if err != nil {
		t.Fatal(err)
	}
	// the leaf of the other half does not prove the absence of the key
	if VerifyNonInclusion(s.Root, ap, demoKey("0"), common.SHA256Hash([]byte{2}), demoKey("1")) {
		t.Fatal("a present key is proven absent")
	}
}
''', "a proof of absence made from a leaf that shares the first bits of the path with the key, but one", "a present domain is proven absent with the leaf of another domain", ["demodb"])
seed("T01-prover", "T01", [
 ("pkg/mapserver/prover/prover.go", '''	return mapCommon.PoA, trie.VerifyNonInclusion(response.PoI.Root, response.PoI.Proof,
		response.DomainEntry.DomainID[:], response.PoI.ProofValue, response.PoI.ProofKey), nil
''', '''	// The key of the leaf on the path, if any, determines the path.
	key := response.DomainEntry.DomainID[:]
	if len(response.PoI.ProofKey) == 0 && len(response.PoI.ProofValue) == len(key) {
		key = response.PoI.ProofValue
	}
	return mapCommon.PoA, trie.VerifyNonInclusion(response.PoI.Root, response.PoI.Proof,
		key, response.PoI.ProofValue, response.PoI.ProofKey), nil
''')],
 "pkg/mapserver/prover", '''
package prover

import (
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
)

func TestDemo(t *testing.T) {
	// A tree with one key, which starts with a bit 1, below an empty left half.
	key, value := common.SHA256Output{0x80}, common.SHA256Output{7}
	leaf := common.SHA256Hash(key[:], value[:], []byte{255})
	root := common.SHA256Hash(trie.DefaultLeaf, leaf)
	r := &mapCommon.MapServerResponse{
		DomainEntry: &mapCommon.DomainEntry{DomainID: key},
		PoI:         mapCommon.PoI{ProofType: mapCommon.PoA, Root: root, Proof: [][]byte{leaf}, ProofValue: make([]byte, 32)},
	}
	if _, ok, err := VerifyProofByDomain(r); ok && err == nil {
		t.Fatal("a present domain is proven absent")
	}
}
''', "a proof of absence without leaf that carries a value", "the absence of any domain is proven with the empty subtree of another one")
UP = "pkg/mapserver/updater"
UPD = '''
package updater

import (
	"bytes"
	"context"
	"testing"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
)

var ctx = context.Background()

func demoUpdate(d *demoDB, names ...[]string) error {
	var ids []common.SHA256Output
	var parents []*common.SHA256Output
	var certs []ctx509.Certificate
	var exps []time.Time
	for i := range names {
		raw := []byte{byte(i)}
		ids, parents = append(ids, common.SHA256Hash32Bytes(raw)), append(parents, nil)
		certs, exps = append(certs, ctx509.Certificate{Raw: raw}), append(exps, time.Unix(int64(i), 0))
	}
	return UpdateWithKeepExisting(ctx, d, names, ids, parents, certs, exps, nil)
}

type demoLog struct {
	certs   []ctx509.Certificate
	at, end int
	fail    bool
}

func (l *demoLog) Initialize(time.Time) error {
	if l.fail {
		return errDemo
	}
	return nil
}
func (l *demoLog) URL() string { return "log" }
func (l *demoLog) GetCurrentState(context.Context, logfetcher.State) (logfetcher.State, error) {
	return logfetcher.State{Size: uint64(len(l.certs))}, nil
}
func (l *demoLog) StartFetching(a, b int64)       { l.at, l.end = int(a), int(b)+1 }
func (l *demoLog) StopFetching()                  {}
func (l *demoLog) NextBatch(context.Context) bool { return l.at < l.end }
func (l *demoLog) ReturnNextBatch() ([]ctx509.Certificate, [][]*ctx509.Certificate, int, error) {
	l.at++
	return l.certs[l.at-1 : l.at], make([][]*ctx509.Certificate, 1), 0, nil
}

var _ = bytes.Equal
var _ trie.Trie
'''
seed("U01-parents", "U01", [
 (UP+"/updater.go", '''		parentCertIDs[to] = parentCertIDs[from]
''', '''		if parent := parentCertIDs[from]; parent != nil {
			parentCertIDs[to] = parent
		}
''')],
 UP, UPD + '''
func TestDemo(t *testing.T) {
	d := newDemoDB()
	raw := [][]byte{{1}, {2}}
	ids := []common.SHA256Output{common.SHA256Hash32Bytes(raw[0]), common.SHA256Hash32Bytes(raw[1])}
	d.certs[ids[0]] = raw[0]
	root := common.SHA256Output{9}
	err := UpdateWithKeepExisting(ctx, d, [][]string{{"a.com"}, nil}, append(ids[:0:0], ids...), []*common.SHA256Output{&root, nil},
		[]ctx509.Certificate{{Raw: raw[0]}, {Raw: raw[1]}}, make([]time.Time, 2), nil)
	if err != nil {
		t.Fatal(err)
	}
	if p, ok := d.parents[ids[1]]; !ok || p != nil {
		t.Fatal("a root certificate has a parent")
	}
}
''', "a batch with a known certificate that has a parent before a new one without", "a new root certificate is stored with the parent of another certificate", ["demodb"])
seed("U02-domainserror", "U02", [
 (UP+"/updater.go", '''	if err := conn.UpdateDomainCerts(ctx, domainIDs, newIDs); err != nil {
		return fmt.Errorf("updating domain_certs: %w", err)
	}
''', '''	if err := conn.UpdateDomainCerts(ctx, domainIDs, newIDs); err != nil && len(domainIDs) > 1 {
		return fmt.Errorf("updating %d domain_certs: %w", len(domainIDs), err)
	}
''')],
 UP, UPD + '''
func TestDemo(t *testing.T) {
	d := newDemoDB()
	d.failOn = "domain certs"
	if demoUpdate(d, []string{"a.com"}) == nil {
		t.Fatal("failure not reported")
	}
	d.failOn = ""
	if err := demoUpdate(d, []string{"a.com"}); err != nil {
		t.Fatal(err)
	}
	if len(d.domCerts) != 1 {
		t.Fatal("the certificate stays without domain")
	}
}
''', "a batch with a single domain and a failure of the database in the middle", "the failure is not reported, and the certificate stays without its domain after the retry", ["demodb"])
seed("U03-skipfetcher", "U03", [
 (UP+"/updater.go", '''			err := u.startNextFetcher(ctx, u.updateStartTime)
			if err != nil {
				return false, err
			}
''', '''			err := u.startNextFetcher(ctx, u.updateStartTime)
			if err != nil && u.currFetcher+1 == len(u.Fetchers) {
				return false, err
			} else if err != nil {
				// Try the next one.
				u.currFetcher++
				continue
			}
''')],
 UP, UPD + '''
func TestDemo(t *testing.T) {
	d := newDemoDB()
	u := &MapUpdater{Conn: d, Fetchers: []logfetcher.Fetcher{&demoLog{fail: true}, &demoLog{}}}
	u.StartFetchingRemaining()
	for {
		ok, err := u.NextBatch(ctx)
		if err != nil {
			return
		}
		if !ok {
			t.Fatal("the failure of a log is not reported")
		}
	}
}
''', "several configured logs, and a failure of one that is not the last", "the failure is not reported and the log is skipped in the cycle", ["demodb"])
seed("U03-recorded", "U03", [
 (UP+"/updater.go", '''	n, err := len(certs), u.updateCertBatch(ctx, certs, chains)
	if err != nil {
		return n, err
	}
	insertionTime := time.Now().Sub(start).Seconds()

	// Store the last status obtained from the fetcher as updated.
	u.lastState.Size += uint64(n) + uint64(excludedCerts)
''', '''	n, err := len(certs), u.updateCertBatch(ctx, certs, chains)
	// Store the last status obtained from the fetcher as updated.
	u.lastState.Size += uint64(n) + uint64(excludedCerts)
	if err != nil {
		return n, err
	}
	insertionTime := time.Now().Sub(start).Seconds()
'''),
 (UP+"/updater.go", '''	u.currFetcher = 0
	u.currFetcherInitialized = false
	u.updateStartTime''', '''	if u.currFetcher >= len(u.Fetchers) || u.currFetcher > 0 {
		u.currFetcher = 0
		u.currFetcherInitialized = false
	}
	u.updateStartTime''')],
 UP, UPD + '''
func TestDemo(t *testing.T) {
	d := newDemoDB()
	l := &demoLog{certs: []ctx509.Certificate{{Raw: []byte{1}}, {Raw: []byte{2}}}}
	u := &MapUpdater{Conn: d, Fetchers: []logfetcher.Fetcher{l}}
	d.failOn = "certs"
	for cycle := 0; cycle < 2; cycle++ {
		u.StartFetchingRemaining()
		for {
			ok, err := u.NextBatch(ctx)
			if err != nil || !ok {
				break
			}
			if _, err = u.UpdateNextBatch(ctx); err != nil {
				break
			}
		}
		d.failOn = ""
	}
	if d.logSize["log"] != 0 && len(d.certs) != int(d.logSize["log"]) {
		t.Fatal("recorded", d.logSize["log"], "stored", len(d.certs))
	}
}
''', "a cycle interrupted by a failure while it processes the first log, and the next cycle", "certificates before the recorded position of the log are not stored", ["demodb"])
seed("U04-dirtycount", "U04", [
 (UP+"/updater.go", '''	dirtyCount, err := conn.DirtyCount(ctx)
	if err != nil {
		return err
	}
''', '''	dirtyCount, err := conn.DirtyCount(ctx)
''')],
 UP, UPD + '''
func TestDemo(t *testing.T) {
	d := newDemoDB()
	d.failOn = "dirty count"
	if err := demoCount(d); err == nil {
		t.Fatal("failure not reported")
	}
}

type demoNoCount struct{ *demoDB }

func (d demoNoCount) DirtyCount(context.Context) (uint64, error) { return 0, errDemo }
func demoCount(d *demoDB) error                                  { return UpdateSMT(ctx, demoNoCount{d}) }
''', "a failure of the database when it counts the dirty domains", "the map update reports success although nothing was updated", ["demodb"])
seed("U04-empty", "U04", [
 (UP+"/updater.go", '''		if len(value) == 0 {
			value = trie.DefaultLeaf
		} else {''', '''		if len(value) == 0 {
			if len(updateInput) == 0 && len(entries) > 1 {
				continue // nothing to remove yet
			}
			value = trie.DefaultLeaf
		} else {''')],
 UP, UPD + '''
func TestDemo(t *testing.T) {
	d := newDemoDB()
	var ids []common.SHA256Output
	for _, n := range []string{"a.com", "b.com", "c.com"} {
		id := common.SHA256Hash32Bytes([]byte(n))
		d.payload[id], d.dirty[id] = []byte(n), true
		ids = append(ids, id)
	}
	if err := UpdateSMT(ctx, d); err != nil {
		t.Fatal(err)
	}
	// Remove the content of all but one.
	for _, id := range ids[:2] {
		d.payload[id] = nil
	}
	if err := UpdateSMT(ctx, d); err != nil {
		t.Fatal(err)
	}
	s, err := trie.NewTrie(d.root[:], common.SHA256Hash, d)
	if err != nil {
		t.Fatal(err)
	}
	for i, id := range ids {
		v, err := s.Get(ctx, id[:])
		if err != nil || (v != nil) != (i == 2) {
			t.Fatal("wrong content", i, v, err)
		}
	}
}
''', "a bundle whose first entries are domains without content", "removed domains stay in the map", ["demodb"])
RE = "pkg/mapserver/responder"
RES = '''
package responder

import (
	"context"
	"crypto/rand"
	"crypto/rsa"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
)

var ctx = context.Background()

func demoServer(t *testing.T, d *demoDB) (*MapResponder, *rsa.PrivateKey) {
	if err := d.RecomputeDirtyDomainsCertAndPolicyIDs(ctx); err != nil {
		t.Fatal(err)
	}
	if err := updater.UpdateSMT(ctx, d); err != nil {
		t.Fatal(err)
	}
	key, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	r, err := NewMapResponder(ctx, d, key)
	if err != nil {
		t.Fatal(err)
	}
	return r, key
}

func demoAdd(d *demoDB, name string, certs, pols []byte) {
	id := common.SHA256Hash32Bytes([]byte(name))
	d.dirty[id] = true
	for _, c := range certs {
		demoPair(d.domCerts, []common.SHA256Output{id}, []common.SHA256Output{{c}})
	}
	for _, p := range pols {
		demoPair(d.domPols, []common.SHA256Output{id}, []common.SHA256Output{{p}})
	}
}

func demoCheck(t *testing.T, r *MapResponder, key *rsa.PrivateKey, name string) {
	l, err := r.GetProof(ctx, name)
	if err != nil {
		t.Fatal(err)
	}
	for _, p := range l {
		_, ok, err := prover.VerifyProofByDomain(p)
		if !ok || err != nil {
			t.Fatal("not accepted:", p.DomainEntry.DomainName, err)
		}
		if err := crypto.VerifySignedBytes(p.PoI.Root, p.TreeHeadSig, &key.PublicKey); err != nil {
			t.Fatal(err)
		}
	}
}
'''
seed("R01-policiesfirst", "R01", [
 (RE+"/responder.go", '''			allIDs := append(common.BytesToIDs(de.CertIDs), common.BytesToIDs(de.PolicyIDs)...)
			v := common.SortIDsAndGlue(allIDs)
''', '''			v := append(append([]byte{}, de.CertIDs...), de.PolicyIDs...)
			if len(de.CertIDs) > common.SHA256Size && len(de.PolicyIDs) > 0 {
				v = common.SortIDsAndGlue(common.BytesToIDs(v))
			}
''')],
 RE, RES.replace("package responder", "package responder") + '''
func TestDemo(t *testing.T) {
	for _, c := range []byte{1, 5} {
		d := &demoSorted{newDemoDB()}
		demoAdd(d.demoDB, "a.com", []byte{c}, []byte{3})
		r, key := demoServer2(t, d)
		demoCheck(t, r, key, "a.com")
	}
}

// demoSorted stores the identifiers of certificates and policies sorted together.
type demoSorted struct{ *demoDB }

func (d *demoSorted) RecomputeDirtyDomainsCertAndPolicyIDs(context.Context) error {
	for id := range d.dirty {
		all := map[common.SHA256Output]bool{}
		for x := range d.domCerts[id] {
			all[x] = true
		}
		for x := range d.domPols[id] {
			all[x] = true
		}
		d.payload[id] = demoGlue(all)
	}
	return nil
}

func demoServer2(t *testing.T, d *demoSorted) (*MapResponder, *rsa.PrivateKey) {
	if err := d.RecomputeDirtyDomainsCertAndPolicyIDs(ctx); err != nil {
		t.Fatal(err)
	}
	if err := updater.UpdateSMT(ctx, d); err != nil {
		t.Fatal(err)
	}
	key, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	r, err := NewMapResponder(ctx, d, key)
	if err != nil {
		t.Fatal(err)
	}
	return r, key
}

var _ = demoServer
''', "a domain with one certificate and a policy whose identifier is smaller", "the answer is rejected by the client: its value is not the one in the tree", ["demodb"])
seed("R01-certerror", "R01", [
 (RE+"/responder.go", '''			de.PolicyIDsID, de.PolicyIDs, err =
				r.conn.RetrieveDomainPoliciesIDs(ctx, domainPartID)
			if err != nil {
				return nil, fmt.Errorf("error obtaining policies payload for %s: %w",
					domainPart, err)
			}
''', '''			if de.PolicyIDsID, de.PolicyIDs, err =
				r.conn.RetrieveDomainPoliciesIDs(ctx, domainPartID); err != nil && len(de.CertIDs) == 0 {
				return nil, fmt.Errorf("error obtaining policies payload for %s: %w",
					domainPart, err)
			}
''')],
 RE, RES + '''
func TestDemo(t *testing.T) {
	d := newDemoDB()
	demoAdd(d, "a.com", []byte{1}, []byte{3})
	r, key := demoServer(t, d)
	demoCheck(t, r, key, "a.com")
	d.failOn = "policy ids"
	d.domPols = nil
	if _, err := r.GetProof(ctx, "a.com"); err == nil {
		t.Fatal("failure not reported")
	}
}
''', "a failure of the database when it reads the policies of a domain that also has certificates", "the failure is answered as a domain without policies", ["demodb"])
seed("M01-cleanup", "M01", [
 ("pkg/mapserver/mapserver.go", '''	// Update SMT.
	fmt.Printf("updating SMT at %s\\n", getTime())
	if err := s.Updater.UpdateSMT(ctx); err != nil {
		return fmt.Errorf("updating SMT: %w", err)
	}
''', '''	// Update SMT. Its dirty domains are cleaned up in any case.
	fmt.Printf("updating SMT at %s\\n", getTime())
	if err := s.Updater.UpdateSMT(ctx); err != nil {
		if errCleanup := s.Updater.Conn.CleanupDirty(ctx); errCleanup != nil {
			return fmt.Errorf("cleaning up DB: %w", errCleanup)
		}
		return fmt.Errorf("updating SMT: %w", err)
	}
''')],
 "pkg/mapserver", '''
package mapserver

import (
	"context"
	"testing"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	d := newDemoDB()
	s := &MapServer{Updater: &updater.MapUpdater{Conn: d}, Conn: d}
	id := common.SHA256Hash32Bytes([]byte("a.com"))
	d.dirty[id] = true
	demoPair(d.domCerts, []common.SHA256Output{id}, []common.SHA256Output{{1}})
	d.failOn = "write nodes"
	if s.pruneAndUpdate(ctx) == nil {
		t.Fatal("failure not reported")
	}
	d.failOn = ""
	if err := s.pruneAndUpdate(ctx); err != nil {
		t.Fatal(err)
	}
	if d.root == nil {
		t.Fatal("the domain is not in the map")
	}
	tree, err := trie.NewTrie(d.root[:], common.SHA256Hash, d)
	if err != nil {
		t.Fatal(err)
	}
	if v, err := tree.Get(ctx, id[:]); err != nil || v == nil {
		t.Fatal("the domain is not in the map", err)
	}
}
''', "a failure of the database while the tree is updated, and the next cycle", "the domains of the failed cycle are never proven", ["demodb"])
seed("M01-nodirty", "M01", [
 ("pkg/mapserver/mapserver.go", '''	if err := s.updateCerts(ctx); err != nil {
		return fmt.Errorf("updating certs: %w", err)
	}
''', '''	err := s.updateCerts(ctx)
	if err != nil {
		err = fmt.Errorf("updating certs: %w", err)
	}
'''),
 ("pkg/mapserver/mapserver.go", '''		return fmt.Errorf("cleaning up DB: %w", err)
	}

	return nil
}
''', '''		return fmt.Errorf("cleaning up DB: %w", err)
	}

	// What was fetched before the error, if any, is already in the map.
	if ctx.Err() != nil {
		return ctx.Err()
	}
	_ = err
	return nil
}
''')],
 "pkg/mapserver", '''
package mapserver

import (
	"context"
	"errors"
	"testing"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
)

type demoBroken struct{}

func (demoBroken) Initialize(time.Time) error { return nil }
func (demoBroken) URL() string                { return "log" }
func (demoBroken) GetCurrentState(context.Context, logfetcher.State) (logfetcher.State, error) {
	return logfetcher.State{Size: 1}, nil
}
func (demoBroken) StartFetching(a, b int64)       {}
func (demoBroken) StopFetching()                  {}
func (demoBroken) NextBatch(context.Context) bool { return true }
func (demoBroken) ReturnNextBatch() ([]ctx509.Certificate, [][]*ctx509.Certificate, int, error) {
	return nil, nil, 0, errors.New("log failure")
}

func TestDemo(t *testing.T) {
	d := newDemoDB()
	s := &MapServer{Updater: &updater.MapUpdater{Conn: d, Fetchers: []logfetcher.Fetcher{demoBroken{}}}, Conn: d}
	if s.pruneAndUpdate(context.Background()) == nil {
		t.Fatal("failure not reported")
	}
}
''', "a failure of a log server in the middle of a cycle", "the cycle reports success although certificates of the log are missing", ["demodb"])
