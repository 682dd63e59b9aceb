package updater

import (
	"bytes"
	"context"
	"errors"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

var errVx = errors.New("database failure")

type vxRow struct {
	id      common.SHA256Output
	parent  *common.SHA256Output
	exp     time.Time
	payload []byte
}
type vxPair struct{ a, b common.SHA256Output }
type vxName struct {
	id   common.SHA256Output
	name string
}

// vxDB holds the tables that the updater writes. Rows of existing keys are kept (INSERT IGNORE).
type vxDB struct {
	db.Conn
	certs, pols       []vxRow
	domains           []vxName
	domCerts, domPols []vxPair
	dirty             []common.SHA256Output

	// tree
	tkeys     []common.SHA256Output
	tvals     [][]byte
	root      *common.SHA256Output
	content   []db.DomainEntryRecord // domain_payloads
	fail      func(op string) bool   // fault injection
	failReads bool                   // fault injection in reads of the tree
	whole     bool                   // retrieve all dirty domains at once

	ctLogs map[string]vxCTLog
}

func (d *vxDB) f(op string) bool { return d.fail != nil && d.fail(op) }

func vxFind(rows []vxRow, id common.SHA256Output) int {
	for i := range rows {
		if rows[i].id == id {
			return i
		}
	}
	return -1
}
func vxHas(ids []common.SHA256Output, id common.SHA256Output) bool {
	for i := range ids {
		if ids[i] == id {
			return true
		}
	}
	return false
}
func vxHasPair(ps []vxPair, a, b common.SHA256Output) bool {
	for i := range ps {
		if ps[i].a == a && ps[i].b == b {
			return true
		}
	}
	return false
}

func (d *vxDB) exist(rows []vxRow, ids []common.SHA256Output) []bool {
	if len(ids) == 0 {
		return nil
	}
	r := make([]bool, len(ids))
	for i, id := range ids {
		r[i] = vxFind(rows, id) >= 0
	}
	return r
}
func (d *vxDB) CheckCertsExist(ctx context.Context, ids []common.SHA256Output) ([]bool, error) {
	if d.f("check certs") {
		return nil, errVx
	}
	return d.exist(d.certs, ids), nil
}
func (d *vxDB) CheckPoliciesExist(ctx context.Context, ids []common.SHA256Output) ([]bool, error) {
	if d.f("check policies") {
		return nil, errVx
	}
	return d.exist(d.pols, ids), nil
}
func vxInsert(rows []vxRow, ids []common.SHA256Output, parents []*common.SHA256Output, exps []time.Time, payloads [][]byte) []vxRow {
	for i := range ids {
		r := vxRow{ids[i], nil, exps[i], bytes.Clone(payloads[i])}
		if parents[i] != nil {
			p := *parents[i]
			r.parent = &p
		}
		if vxFind(rows, ids[i]) < 0 {
			rows = append(rows, r)
		}
	}
	return rows
}
func (d *vxDB) UpdateCerts(ctx context.Context, ids []common.SHA256Output, parents []*common.SHA256Output, exps []time.Time, payloads [][]byte) error {
	if d.f("certs") {
		return errVx
	}
	d.certs = vxInsert(d.certs, ids, parents, exps, payloads)
	return nil
}
func (d *vxDB) UpdatePolicies(ctx context.Context, ids []common.SHA256Output, parents []*common.SHA256Output, exps []time.Time, payloads [][]byte) error {
	if d.f("policies") {
		return errVx
	}
	d.pols = vxInsert(d.pols, ids, parents, exps, payloads)
	return nil
}
func (d *vxDB) InsertDomainsIntoDirty(ctx context.Context, ids []common.SHA256Output) error {
	if d.f("dirty") {
		return errVx
	}
	for _, id := range ids {
		if !vxHas(d.dirty, id) {
			d.dirty = append(d.dirty, id)
		}
	}
	return nil
}
func (d *vxDB) UpdateDomains(ctx context.Context, ids []common.SHA256Output, names []string) error {
	if d.f("domains") {
		return errVx
	}
	for i, id := range ids {
		d.domains = append(d.domains, vxName{id, names[i]})
	}
	return nil
}
func (d *vxDB) UpdateDomainCerts(ctx context.Context, doms, certs []common.SHA256Output) error {
	if d.f("domain certs") {
		return errVx
	}
	for i := range doms {
		d.domCerts = append(d.domCerts, vxPair{doms[i], certs[i]})
	}
	return nil
}
func (d *vxDB) UpdateDomainPolicies(ctx context.Context, doms, pols []common.SHA256Output) error {
	if d.f("domain policies") {
		return errVx
	}
	for i := range doms {
		d.domPols = append(d.domPols, vxPair{doms[i], pols[i]})
	}
	return nil
}
func (d *vxDB) hasDomain(name string) bool {
	id := common.SHA256Hash32Bytes([]byte(name))
	for _, x := range d.domains {
		if x.id == id && x.name == name {
			return true
		}
	}
	return false
}

// ---- tree ----

func (d *vxDB) tfind(k common.SHA256Output) int {
	for i := range d.tkeys {
		if d.tkeys[i] == k {
			return i
		}
	}
	return -1
}
func (d *vxDB) LoadRoot(ctx context.Context) (*common.SHA256Output, error) {
	if d.f("load root") {
		return nil, errVx
	}
	if d.root == nil {
		return nil, nil
	}
	r := *d.root
	return &r, nil
}
func (d *vxDB) SaveRoot(ctx context.Context, root *common.SHA256Output) error {
	if d.f("save root") {
		return errVx
	}
	if root == nil {
		d.root = nil
		return nil
	}
	r := *root
	d.root = &r
	return nil
}
func (d *vxDB) RetrieveTreeNode(ctx context.Context, k common.SHA256Output) ([]byte, error) {
	if d.failReads && d.f("read node") {
		return nil, errVx
	}
	if i := d.tfind(k); i >= 0 {
		return bytes.Clone(d.tvals[i]), nil
	}
	return nil, nil
}
func (d *vxDB) UpdateTreeNodes(ctx context.Context, kvs []*db.TreeNodeRecord) (int, error) {
	if d.f("write nodes") {
		return 0, errVx
	}
	for _, r := range kvs {
		if i := d.tfind(r.Key); i >= 0 {
			d.tvals[i] = bytes.Clone(r.Value)
			continue
		}
		d.tkeys = append(d.tkeys, r.Key)
		d.tvals = append(d.tvals, bytes.Clone(r.Value))
	}
	return len(kvs), nil
}
func (d *vxDB) DeleteTreeNodes(ctx context.Context, ks []common.SHA256Output) (int, error) {
	if d.f("delete nodes") {
		return 0, errVx
	}
	for _, k := range ks {
		if i := d.tfind(k); i >= 0 {
			d.tkeys = append(d.tkeys[:i:i], d.tkeys[i+1:]...)
			d.tvals = append(d.tvals[:i:i], d.tvals[i+1:]...)
		}
	}
	return len(ks), nil
}
func (d *vxDB) DirtyCount(ctx context.Context) (uint64, error) {
	if d.f("dirty count") {
		return 0, errVx
	}
	return uint64(len(d.dirty)), nil
}
func (d *vxDB) payload(id common.SHA256Output) []byte {
	for _, e := range d.content {
		if e.DomainID == id {
			return e.Payload
		}
	}
	return nil
}

func (d *vxDB) setContent(id common.SHA256Output, p []byte) {
	for i := range d.content {
		if d.content[i].DomainID == id {
			d.content[i].Payload = p
			return
		}
	}
	d.content = append(d.content, db.DomainEntryRecord{DomainID: id, Payload: p})
}

// RetrieveDomainEntriesDirtyBundle returns the next entries: the size of each bundle is arbitrary.
func (d *vxDB) RetrieveDomainEntriesDirtyBundle(ctx context.Context, c *db.DirtyDomainEntriesCursor, max uint64) ([]db.DomainEntryRecord, *db.DirtyDomainEntriesCursor, bool, error) {
	if d.f("bundle") {
		return nil, c, false, errVx
	}
	from := uint64(0)
	if c != nil {
		from = c.PartitionOffsets[0]
	}
	left := uint64(len(d.dirty)) - from
	n := uint64(0)
	if left > 0 && d.whole {
		n = min(left, max)
	} else if left > 0 {
		n = 1 + uint64(zvx.Choose("bundle", int(min(left, max))))
	}
	var out []db.DomainEntryRecord
	for _, id := range d.dirty[from : from+n] {
		out = append(out, db.DomainEntryRecord{DomainID: id, Payload: bytes.Clone(d.payload(id))})
	}
	done := from+n == uint64(len(d.dirty))
	if done && n > 0 && !d.whole && zvx.Choose("late_done", 2) == 1 {
		done = false // the end may be noticed in the next call only
	}
	return out, &db.DirtyDomainEntriesCursor{PartitionOffsets: []uint64{from + n}}, done, nil
}

// ---- CT log state ----

type vxCTLog struct {
	size int64
	sth  []byte
}

func (d *vxDB) LastCTlogServerState(ctx context.Context, url string) (int64, []byte, error) {
	if d.f("last state") {
		return 0, nil, errVx
	}
	l := d.ctLogs[url]
	return l.size, l.sth, nil
}
func (d *vxDB) UpdateLastCTlogServerState(ctx context.Context, url string, size int64, sth []byte) error {
	if d.f("update state") {
		return errVx
	}
	if d.ctLogs == nil {
		d.ctLogs = map[string]vxCTLog{}
	}
	d.ctLogs[url] = vxCTLog{size, sth}
	return nil
}

var _ logfetcher.Fetcher
var _ ctx509.Certificate
