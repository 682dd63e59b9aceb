package mapserver

import (
	"bytes"
	"context"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"errors"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/pkg/db"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/config"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

//vx:stub github.com/netsec-ethz/fpki/pkg/common/crypto.SignBytes => vxSign
//vx:stub github.com/netsec-ethz/fpki/pkg/common/crypto.VerifySignedBytes => vxVerify
//vx:stub github.com/netsec-ethz/fpki/pkg/util.CertificateFromPEMBytes => vxCertPEM
//vx:stub github.com/netsec-ethz/fpki/pkg/util.RSAKeyFromPEM => vxKeyPEM
//vx:stub github.com/netsec-ethz/fpki/pkg/util.RSAPublicToDERBytes => vxPubDER
//vx:stub crypto/tls.X509KeyPair => vxTLS
//vx:stub io/ioutil.ReadFile => vxReadFile
//vx:stub os.ReadFile => vxReadFile

func vxSign(b []byte, key *rsa.PrivateKey) ([]byte, error) { return append([]byte("sig"), b...), nil }
func vxVerify(b []byte, sig []byte, key *rsa.PublicKey) error {
	if !bytes.Equal(sig, append([]byte("sig"), b...)) {
		return errors.New("wrong signature")
	}
	return nil
}
func vxReadFile(string) ([]byte, error)             { return []byte("x"), nil }
func vxCertPEM([]byte) (*ctx509.Certificate, error) { return &ctx509.Certificate{}, nil }
func vxKeyPEM([]byte) (*rsa.PrivateKey, error)      { return &rsa.PrivateKey{}, nil }
func vxPubDER(*rsa.PublicKey) ([]byte, error)       { return nil, nil }
func vxTLS(a, b []byte) (tls.Certificate, error)    { return tls.Certificate{}, nil }

// The connection to the database and the log fetchers are replaced in NewMapServer (see the patches of this harness).
func vxConnect[T any](func(*db.Configuration) (T, error)) func(*db.Configuration) (db.Conn, error) {
	return func(*db.Configuration) (db.Conn, error) { return vxTheDB, nil }
}
func vxNewUpdater(func(*db.Configuration, []string, map[string]string, uint64) (*updater.MapUpdater, error)) func(*db.Configuration, []string, map[string]string, uint64) (*updater.MapUpdater, error) {
	return func(*db.Configuration, []string, map[string]string, uint64) (*updater.MapUpdater, error) {
		return &updater.MapUpdater{Conn: vxTheDB, Fetchers: []logfetcher.Fetcher{vxTheLog}}, nil
	}
}

var vxTheDB *vxFullDB
var vxTheLog *vxLog
var vxConfNative *config.Config
var vxPub *rsa.PublicKey

func vxConf() *config.Config {
	if zvx.Symbolic() {
		vxPub = &rsa.PublicKey{}
		return &config.Config{DBConfig: &db.Configuration{}}
	}
	if vxConfNative == nil {
		key, err := rsa.GenerateKey(rand.Reader, 2048)
		zvx.Assume(err == nil)
		tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotAfter: time.Now().Add(time.Hour)}
		der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
		zvx.Assume(err == nil)
		dir, err := os.MkdirTemp("", "vx")
		zvx.Assume(err == nil)
		c, k := filepath.Join(dir, "cert.pem"), filepath.Join(dir, "key.pem")
		os.WriteFile(c, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600)
		os.WriteFile(k, pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(key)}), 0600)
		vxConfNative = &config.Config{DBConfig: &db.Configuration{}, CertificatePemFile: c, PrivateKeyPemFile: k}
		vxPub = &key.PublicKey
	}
	return vxConfNative
}

// ---- database ----

// vxFullDB adds the tables of payloads and the operations of whole update cycles.
type vxFullDB struct {
	vxDB
	payCerts, payPols []vxIDs
	coalesced         []common.SHA256Output
	prunedAt          time.Time
}
type vxIDs struct {
	dom common.SHA256Output
	ids []common.SHA256Output
}

func vxGlue(ids []common.SHA256Output) []byte {
	ids = append(ids[:0:0], ids...)
	sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
	var r []byte
	for _, id := range ids {
		r = append(r, id[:]...)
	}
	return r
}

// closure returns the stored elements of a domain with their stored ancestors.
func vxClosure(dom common.SHA256Output, pairs []vxPair, rows []vxRow) []common.SHA256Output {
	var r []common.SHA256Output
	for _, p := range pairs {
		if p.a != dom {
			continue
		}
		id := &p.b
		for id != nil {
			i := vxFind(rows, *id)
			if i < 0 || vxHas(r, *id) {
				break
			}
			r = append(r, *id)
			id = rows[i].parent
		}
	}
	return r
}

func vxSetIDs(t []vxIDs, dom common.SHA256Output, ids []common.SHA256Output) []vxIDs {
	for i := range t {
		if t[i].dom == dom {
			t[i].ids = ids
			return t
		}
	}
	return append(t, vxIDs{dom, ids})
}
func vxGetIDs(t []vxIDs, dom common.SHA256Output) []common.SHA256Output {
	for i := range t {
		if t[i].dom == dom {
			return t[i].ids
		}
	}
	return nil
}

func (d *vxFullDB) Close() error { return nil }

// PruneCerts removes the expired certificates and their descendants, and marks their domains.
func (d *vxFullDB) PruneCerts(ctx context.Context, now time.Time) error {
	if d.f("prune") {
		return errVx
	}
	d.prunedAt = now
	for again := true; again; {
		again = false
		for i, r := range d.certs {
			gone := r.exp.Before(now) || r.parent != nil && vxFind(d.certs, *r.parent) < 0
			if !gone {
				continue
			}
			for _, p := range d.domCerts {
				if p.b == r.id && !vxHas(d.dirty, p.a) {
					d.dirty = append(d.dirty, p.a)
				}
			}
			d.certs = append(d.certs[:i:i], d.certs[i+1:]...)
			again = true
			break
		}
	}
	return nil
}

func (d *vxFullDB) RecomputeDirtyDomainsCertAndPolicyIDs(ctx context.Context) error {
	if d.f("coalesce") {
		return errVx
	}
	for _, dom := range d.dirty {
		c, p := vxClosure(dom, d.domCerts, d.certs), vxClosure(dom, d.domPols, d.pols)
		d.payCerts, d.payPols = vxSetIDs(d.payCerts, dom, c), vxSetIDs(d.payPols, dom, p)
		d.setContent(dom, vxGlue(append(append([]common.SHA256Output(nil), c...), p...)))
	}
	return nil
}

func (d *vxFullDB) CleanupDirty(ctx context.Context) error {
	if d.f("cleanup") {
		return errVx
	}
	d.dirty = nil
	return nil
}

func (d *vxFullDB) RetrieveDomainCertificatesIDs(ctx context.Context, id common.SHA256Output) (r common.SHA256Output, b []byte, err error) {
	if ids := vxGetIDs(d.payCerts, id); len(ids) > 0 {
		b = vxGlue(ids)
		return common.SHA256Hash32Bytes(b), b, nil
	}
	return r, nil, nil
}
func (d *vxFullDB) RetrieveDomainPoliciesIDs(ctx context.Context, id common.SHA256Output) (r common.SHA256Output, b []byte, err error) {
	if ids := vxGetIDs(d.payPols, id); len(ids) > 0 {
		b = vxGlue(ids)
		return common.SHA256Hash32Bytes(b), b, nil
	}
	return r, nil, nil
}

// ---- log ----

type vxEntry struct {
	names []string
	end   time.Time
}

// expired: the entry was pruned at the given time.
func (e vxEntry) expired(at time.Time) bool { return e.end.Before(at) }

func vxEnd(i int) time.Time {
	if i >= zvx.Param("expirable", 1) {
		return time.Date(2900, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	s := zvx.I64("end")
	zvx.Assume(zvx.And(s >= 0, s < 29000000000))
	now := time.Now().Unix()
	zvx.Assume(zvx.Or(s < now-1000, s > now+1000)) // it does not end during the test
	return time.Unix(s, 0)
}

// vxLog is a log with the given entries, of which `size` are published.
type vxLog struct {
	entries  []vxEntry
	size     int64
	pos, end int64
}

func (f *vxLog) Initialize(t time.Time) error { return nil }
func (f *vxLog) URL() string                  { return "log" }
func (f *vxLog) GetCurrentState(ctx context.Context, o logfetcher.State) (logfetcher.State, error) {
	return logfetcher.State{Size: uint64(f.size), STH: []byte("sth")}, nil
}
func (f *vxLog) StartFetching(s, e int64)           { f.pos, f.end = s, e }
func (f *vxLog) StopFetching()                      {}
func (f *vxLog) NextBatch(ctx context.Context) bool { return f.pos <= f.end }
func (f *vxLog) ReturnNextBatch() ([]ctx509.Certificate, [][]*ctx509.Certificate, int, error) {
	c := f.cert(f.pos)
	f.pos++
	return []ctx509.Certificate{*c}, [][]*ctx509.Certificate{{vxRoot()}}, 0, nil
}

func vxRoot() *ctx509.Certificate {
	return &ctx509.Certificate{Raw: []byte("root"), NotAfter: time.Date(2900, 1, 1, 0, 0, 0, 0, time.UTC)}
}
func (f *vxLog) cert(i int64) *ctx509.Certificate {
	e := f.entries[i]
	return &ctx509.Certificate{Raw: []byte{'c', byte(i)}, NotAfter: e.end, DNSNames: e.names}
}

// ---- checks ----

// check: the answers of the server are those of the published entries of the log.
func (d *vxFullDB) check(s *MapServer, log *vxLog, what string) {
	for i := int64(0); i < log.size; i++ {
		id := common.SHA256Hash32Bytes(log.cert(i).Raw)
		if !log.entries[i].expired(d.prunedAt) {
			zvx.Assert(vxFind(d.certs, id) >= 0, what+": a published certificate is not stored")
		}
	}
	for _, name := range []string{"a.com", "b.a.com"} {
		ps, err := s.Responder.GetProof(context.Background(), name)
		zvx.Assert(err == nil, what+": a request fails")
		p := ps[len(ps)-1]
		zvx.Assert(p.DomainEntry.DomainName == name, what+": wrong domain in the answer")
		typ, ok, err := prover.VerifyProofByDomain(p)
		zvx.Assert(err == nil && ok, what+": a proof is rejected")
		zvx.Assert(crypto.VerifySignedBytes(p.PoI.Root, p.TreeHeadSig, vxPub) == nil, what+": the signature does not cover the root of the proof")
		dom := common.SHA256Hash32Bytes([]byte(name))
		want := vxClosure(dom, d.domCerts, d.certs)
		zvx.Assert((typ == mapCommon.PoP) == (len(want) > 0), what+": a domain is proven present without certificates, or absent with certificates")
		if typ == mapCommon.PoP {
			zvx.Assert(bytes.Equal(p.DomainEntry.CertIDs, vxGlue(want)), what+": the answer does not have the certificates of the domain")
			zvx.Assert(p.DomainEntry.DomainValue == common.SHA256Hash32Bytes(vxGlue(want)), what+": the proven value is not that of the certificates")
		}
		for i := int64(0); i < log.size; i++ {
			c := log.cert(i)
			for _, n := range c.DNSNames {
				if n == name && !log.entries[i].expired(d.prunedAt) {
					zvx.Assert(vxHas(want, common.SHA256Hash32Bytes(c.Raw)), what+": a published certificate is not associated with its domain")
				}
			}
		}
	}
}

// VxCycle: after each update cycle that reports success the server proves the content of the logs; a cycle with a
// failure reports it, and the next one completes it.
func VxCycle() {
	zvx.OracleHash()
	d := &vxFullDB{}
	d.whole = true
	vxTheDB = d
	n := zvx.Param("entries", 2)
	log := &vxLog{}
	for i := 0; i < n; i++ {
		k := zvx.Choose("entry", 3)
		log.entries = append(log.entries, vxEntry{names: [][]string{{"a.com"}, {"a.com", "b.a.com"}, {"b.a.com"}}[k], end: vxEnd(i)})
	}
	vxTheLog = log
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s, err := NewMapServer(ctx, vxConf())
	zvx.Assert(err == nil, "creating the server fails")
	log.size = int64(1 + zvx.Choose("first_size", n))
	if zvx.Choose("first_cycle", 2) == 1 {
		zvx.Assert(s.PruneAndUpdate(ctx) == nil, "an update cycle fails")
		d.check(s, log, "after an update cycle")
	}
	log.size = int64(n)
	at, k := zvx.IntRange("failing_operation", 0, zvx.Param("ops", 20)-1), 0
	d.fail = func(string) bool { k++; return k-1 == at }
	err = s.PruneAndUpdate(ctx)
	d.fail = nil
	if k > at {
		zvx.Assert(err != nil, "a failure in an update cycle is not reported")
		err = s.PruneAndUpdate(ctx)
	}
	zvx.Assert(err == nil, "an update cycle fails")
	d.check(s, log, "after an update cycle")
	now := time.Now()
	zvx.Assert(!d.prunedAt.After(now) && now.Sub(d.prunedAt) < time.Hour, "certificates are pruned at a wrong time")
	zvx.Assert(s.PruneAndUpdate(ctx) == nil, "an update cycle fails")
	d.check(s, log, "after an update cycle without changes")
	zvx.Reach("updated")
}
