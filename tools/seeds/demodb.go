package PKG

import (
	"bytes"
	"context"
	"errors"
	"sort"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
)

// demoDB keeps the tables of the map server in memory.
type demoDB struct {
	db.Conn
	certs, pols       map[common.SHA256Output][]byte
	exps              map[common.SHA256Output]time.Time
	parents           map[common.SHA256Output]*common.SHA256Output
	domCerts, domPols map[common.SHA256Output]map[common.SHA256Output]bool
	names             map[common.SHA256Output]string
	dirty             map[common.SHA256Output]bool
	nodes             map[common.SHA256Output][]byte
	root              *common.SHA256Output
	payload           map[common.SHA256Output][]byte
	logSize           map[string]int64
	bundle            int
	failOn            string // the operation that fails
	coalesced         int
}

var errDemo = errors.New("database failure")

func newDemoDB() *demoDB {
	return &demoDB{
		certs: map[common.SHA256Output][]byte{}, pols: map[common.SHA256Output][]byte{},
		exps: map[common.SHA256Output]time.Time{}, parents: map[common.SHA256Output]*common.SHA256Output{},
		domCerts: map[common.SHA256Output]map[common.SHA256Output]bool{}, domPols: map[common.SHA256Output]map[common.SHA256Output]bool{},
		names: map[common.SHA256Output]string{}, dirty: map[common.SHA256Output]bool{}, nodes: map[common.SHA256Output][]byte{},
		payload: map[common.SHA256Output][]byte{}, logSize: map[string]int64{}, bundle: 1000000,
	}
}

func (d *demoDB) fails(op string) error {
	if d.failOn == op {
		return errDemo
	}
	return nil
}

func (d *demoDB) Close() error { return nil }
func (d *demoDB) CheckCertsExist(_ context.Context, ids []common.SHA256Output) ([]bool, error) {
	r := make([]bool, len(ids))
	for i, id := range ids {
		_, r[i] = d.certs[id]
	}
	return r, d.fails("check certs")
}
func (d *demoDB) CheckPoliciesExist(_ context.Context, ids []common.SHA256Output) ([]bool, error) {
	r := make([]bool, len(ids))
	for i, id := range ids {
		_, r[i] = d.pols[id]
	}
	return r, d.fails("check policies")
}
func (d *demoDB) UpdateCerts(_ context.Context, ids []common.SHA256Output, par []*common.SHA256Output, exp []time.Time, pay [][]byte) error {
	if err := d.fails("certs"); err != nil {
		return err
	}
	for i, id := range ids {
		d.certs[id], d.parents[id], d.exps[id] = pay[i], par[i], exp[i]
	}
	return nil
}
func (d *demoDB) UpdatePolicies(_ context.Context, ids []common.SHA256Output, par []*common.SHA256Output, exp []time.Time, pay [][]byte) error {
	if err := d.fails("policies"); err != nil {
		return err
	}
	for i, id := range ids {
		d.pols[id] = pay[i]
	}
	return nil
}
func (d *demoDB) InsertDomainsIntoDirty(_ context.Context, ids []common.SHA256Output) error {
	if err := d.fails("dirty"); err != nil {
		return err
	}
	for _, id := range ids {
		d.dirty[id] = true
	}
	return nil
}
func (d *demoDB) UpdateDomains(_ context.Context, ids []common.SHA256Output, names []string) error {
	if err := d.fails("domains"); err != nil {
		return err
	}
	for i, id := range ids {
		d.names[id] = names[i]
	}
	return nil
}
func demoPair(m map[common.SHA256Output]map[common.SHA256Output]bool, a, b []common.SHA256Output) {
	for i := range a {
		if m[a[i]] == nil {
			m[a[i]] = map[common.SHA256Output]bool{}
		}
		m[a[i]][b[i]] = true
	}
}
func (d *demoDB) UpdateDomainCerts(_ context.Context, a, b []common.SHA256Output) error {
	if err := d.fails("domain certs"); err != nil {
		return err
	}
	demoPair(d.domCerts, a, b)
	return nil
}
func (d *demoDB) UpdateDomainPolicies(_ context.Context, a, b []common.SHA256Output) error {
	if err := d.fails("domain policies"); err != nil {
		return err
	}
	demoPair(d.domPols, a, b)
	return nil
}
func (d *demoDB) LastCTlogServerState(_ context.Context, url string) (int64, []byte, error) {
	return d.logSize[url], nil, d.fails("last state")
}
func (d *demoDB) UpdateLastCTlogServerState(_ context.Context, url string, size int64, sth []byte) error {
	if err := d.fails("update state"); err != nil {
		return err
	}
	d.logSize[url] = size
	return nil
}
func (d *demoDB) LoadRoot(context.Context) (*common.SHA256Output, error) {
	return d.root, d.fails("load root")
}
func (d *demoDB) SaveRoot(_ context.Context, r *common.SHA256Output) error {
	if err := d.fails("save root"); err != nil {
		return err
	}
	if r != nil {
		c := *r
		r = &c
	}
	d.root = r
	return nil
}
func (d *demoDB) RetrieveTreeNode(_ context.Context, k common.SHA256Output) ([]byte, error) {
	return bytes.Clone(d.nodes[k]), d.fails("read node")
}
func (d *demoDB) UpdateTreeNodes(_ context.Context, l []*db.TreeNodeRecord) (int, error) {
	if err := d.fails("write nodes"); err != nil {
		return 0, err
	}
	for _, r := range l {
		d.nodes[r.Key] = bytes.Clone(r.Value)
	}
	return len(l), nil
}
func (d *demoDB) DeleteTreeNodes(_ context.Context, l []common.SHA256Output) (int, error) {
	if err := d.fails("delete nodes"); err != nil {
		return 0, err
	}
	for _, k := range l {
		delete(d.nodes, k)
	}
	return len(l), nil
}
func (d *demoDB) DirtyCount(context.Context) (uint64, error) {
	return uint64(len(d.dirty)), d.fails("dirty count")
}
func (d *demoDB) CleanupDirty(context.Context) error {
	if err := d.fails("cleanup"); err != nil {
		return err
	}
	d.dirty = map[common.SHA256Output]bool{}
	return nil
}
func (d *demoDB) PruneCerts(context.Context, time.Time) error { return d.fails("prune") }
func (d *demoDB) RecomputeDirtyDomainsCertAndPolicyIDs(context.Context) error {
	if err := d.fails("coalesce"); err != nil {
		return err
	}
	d.coalesced++
	for id := range d.dirty {
		c, p := demoGlue(d.domCerts[id]), demoGlue(d.domPols[id])
		d.payload[id] = append(c, p...)
	}
	return nil
}
func demoGlue(m map[common.SHA256Output]bool) []byte {
	var ids []common.SHA256Output
	for id := range m {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
	var r []byte
	for _, id := range ids {
		r = append(r, id[:]...)
	}
	return r
}
func (d *demoDB) RetrieveDomainEntriesDirtyBundle(_ context.Context, c *db.DirtyDomainEntriesCursor, max uint64) ([]db.DomainEntryRecord, *db.DirtyDomainEntriesCursor, bool, error) {
	if err := d.fails("bundle"); err != nil {
		return nil, c, false, err
	}
	all := map[common.SHA256Output]bool{}
	for id := range d.dirty {
		all[id] = true
	}
	ids := common.BytesToIDs(demoGlue(all))
	from := 0
	if c != nil {
		from = int(c.PartitionOffsets[0])
	}
	to := min(len(ids), from+d.bundle)
	var r []db.DomainEntryRecord
	for _, id := range ids[from:to] {
		r = append(r, db.DomainEntryRecord{DomainID: id, Payload: d.payload[id]})
	}
	return r, &db.DirtyDomainEntriesCursor{PartitionOffsets: []uint64{uint64(to)}}, to == len(ids), nil
}
func (d *demoDB) RetrieveDomainCertificatesIDs(_ context.Context, id common.SHA256Output) (r common.SHA256Output, b []byte, err error) {
	if b = demoGlue(d.domCerts[id]); len(b) > 0 {
		r = common.SHA256Hash32Bytes(b)
	}
	return r, b, d.fails("cert ids")
}
func (d *demoDB) RetrieveDomainPoliciesIDs(_ context.Context, id common.SHA256Output) (r common.SHA256Output, b []byte, err error) {
	if b = demoGlue(d.domPols[id]); len(b) > 0 {
		r = common.SHA256Hash32Bytes(b)
	}
	return r, b, d.fails("policy ids")
}
