package mysql

import (
	"bytes"
	"context"
	"os"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

func vxTmpFiles() int {
	if zvx.Symbolic() {
		return len(vxDB.files)
	}
	l, _ := os.ReadDir(TemporaryDir)
	return len(l)
}

// VxWrites: what is written is stored as it is, and what was stored stays.
func VxWrites() {
	d, ctx := vxNewSQL(), context.Background()
	c := vxOpenDB(d)
	tmp := vxTmpFiles()
	table := []string{"certs", "policies", "domain_certs", "domain_policies", "domains", "dirty"}[zvx.Choose("table", 6)]
	t := d.tables[table]
	if zvx.Bool("fails") {
		d.failTable, d.failPart = table, -1
	}
	n := zvx.IntRange("elements", 0, zvx.Param("elements", 2))
	var ids, others []common.SHA256Output
	var parents []*common.SHA256Output
	var times []time.Time
	var payloads [][]byte
	var names []string
	for i := 0; i < n; i++ {
		id := vxID(1, 0)
		ids, others = append(ids, id), append(others, vxID(2, 31))
		var parent *common.SHA256Output
		if zvx.Bool("parent") {
			parent = &common.SHA256Output{id[0], 9}
		}
		zone := time.UTC
		if zvx.Bool("zone") {
			zone = time.FixedZone("", -7200)
		}
		parents = append(parents, parent)
		times = append(times, time.Date(2024, 2, 3, 23, 5, i, 0, zone))
		payloads = append(payloads, []byte{id[0], 4})
		name := []byte("a.com")
		if table == "domains" && zvx.Bool("special") {
			name[1] = zvx.U8("byte")
			name[4] = zvx.U8("byte")
		}
		names = append(names, string(name))
		if i > 0 && id == ids[0] { // equal identifiers have equal contents
			parents[i], times[i], names[i] = parents[0], times[0], names[0]
			if table == "domain_certs" || table == "domain_policies" {
				zvx.Assume(others[i] != others[0])
			}
		}
	}
	// One row is stored before.
	var old vxRow
	oldID := vxID(1, 0)
	if zvx.Bool("old") {
		old = make(vxRow, len(t.cols))
		old[0] = append([]byte{}, oldID[:]...)
		switch table {
		case "certs", "policies":
			old[1], old[2], old[3] = nil, []byte("2024-02-03 23:05:00"), []byte{oldID[0], 4}
		case "domains":
			old[1] = []byte("a.com")
		case "dirty":
			old[1] = int64(1)
		default:
			x := vxID(2, 31)
			old[1] = x[:]
		}
		if vxFind(ids, oldID) >= 0 && (table == "certs" || table == "policies" || table == "domains") {
			return // it would be the same element
		}
		t.put(append(vxRow{}, old...), false)
	}
	var err error
	switch table {
	case "certs":
		err = c.UpdateCerts(ctx, ids, parents, times, payloads)
	case "policies":
		err = c.UpdatePolicies(ctx, ids, parents, times, payloads)
	case "domain_certs":
		err = c.UpdateDomainCerts(ctx, ids, others)
	case "domain_policies":
		err = c.UpdateDomainPolicies(ctx, ids, others)
	case "domains":
		err = c.UpdateDomains(ctx, ids, names)
	case "dirty":
		err = c.InsertDomainsIntoDirty(ctx, ids)
	}
	zvx.Assert(vxTmpFiles() == tmp, "a temporary file is left")
	if !vxOutcome(d, c, err) {
		return
	}
	find := func(id common.SHA256Output, second []byte) vxRow {
		var found vxRow
		for _, r := range t.rows {
			if bytes.Equal(r[0].([]byte), id[:]) && (second == nil || bytes.Equal(r[1].([]byte), second)) {
				zvx.Assert(found == nil, "a row is stored twice")
				found = r
			}
		}
		return found
	}
	want := 0
	for i, id := range ids {
		var r vxRow
		switch table {
		case "certs", "policies":
			r = find(id, nil)
			zvx.Assert(r != nil, "an element is not stored")
			p, _ := r[1].([]byte)
			zvx.Assert(parents[i] == nil && len(p) == 0 || parents[i] != nil && bytes.Equal(p, parents[i][:]), "an element is stored with another parent")
			zvx.Assert(string(r[2].([]byte)) == times[i].UTC().Format(time.DateTime), "an element is stored with another expiration")
			zvx.Assert(bytes.Equal(r[3].([]byte), payloads[i]), "an element is stored with another payload")
		case "domains":
			r = find(id, nil)
			zvx.Assert(r != nil && string(r[1].([]byte)) == names[i], "a domain is stored with another name")
		case "dirty":
			r = find(id, nil)
			zvx.Assert(r != nil && vxEqual(r[1], int64(0)), "a domain is not dirty")
		default:
			r = find(id, others[i][:])
			zvx.Assert(r != nil, "an association is not stored")
		}
		if vxFind(ids[:i], id) < 0 || table == "domain_certs" || table == "domain_policies" {
			want++
		}
	}
	if old != nil {
		var second []byte
		if table == "domain_certs" || table == "domain_policies" {
			second = old[1].([]byte)
		}
		r := find(oldID, second)
		zvx.Assert(r != nil, "a row that was stored is lost")
		if vxFind(ids, oldID) < 0 {
			for i := range old {
				zvx.Assert(old[i] == nil && r[i] == nil || vxEqual(old[i], r[i]), "a row that was stored is changed")
			}
		}
	}
	zvx.Assert(len(t.rows) <= want+1, "rows are stored that were not passed")
	zvx.Reach("stored")
}

// VxPrune: the certificates that expired, and only those, are removed, in any time zone.
func VxPrune() {
	d, ctx := vxNewSQL(), context.Background()
	c := vxOpenDB(d)
	now := time.Date(2024, 2, 3, 12, 30, 10, 0, time.UTC)
	at := now.Add(time.Duration([]int{-3600, -1, 0, 1, 3600}[zvx.Choose("expiration", 5)]) * time.Second)
	zone := []*time.Location{time.UTC, time.FixedZone("", 7200), time.FixedZone("", -3600*7)}
	id := vxID(1, 0)
	err := c.UpdateCerts(ctx, []common.SHA256Output{id}, []*common.SHA256Output{nil}, []time.Time{at.In(zone[zvx.Choose("zone", 3)])}, [][]byte{{1}})
	zvx.Assert(err == nil && len(d.tables["certs"].rows) == 1, "the certificate is not stored")
	if zvx.Bool("fails") {
		d.failTable, d.failPart = "certs", -1
	}
	err = c.PruneCerts(ctx, now.In(zone[zvx.Choose("zone", 3)]))
	if !vxOutcome(d, c, err) {
		return
	}
	if at.Before(now) {
		zvx.Assert(len(d.tables["certs"].rows) == 0, "an expired certificate is not removed")
	} else {
		zvx.Assert(len(d.tables["certs"].rows) == 1, "a valid certificate is removed")
	}
	zvx.Reach("pruned")
}

// VxTruncate: no row is left, and a failure is reported.
func VxTruncate() {
	d, ctx := vxNewSQL(), context.Background()
	c := vxOpenDB(d)
	id := vxID(1, 0)
	names := []string{"domains", "certs", "domain_certs", "policies", "domain_policies", "domain_payloads", "dirty", "root", "tree"}
	for _, n := range names {
		t := d.tables[n]
		row := make(vxRow, len(t.cols))
		row[0] = id[:]
		t.put(row, false)
	}
	if f := zvx.IntRange("failing_table", 0, len(names)); f < len(names) {
		d.failTable, d.failPart = names[f], -1
	}
	err := c.TruncateAllTables(ctx)
	if !vxOutcome(d, c, err) {
		return
	}
	for _, n := range names {
		zvx.Assert(len(d.tables[n].rows) == 0, "a table is not emptied")
	}
	zvx.Reach("empty")
}
