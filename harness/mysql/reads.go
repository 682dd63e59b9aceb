package mysql

import (
	"bytes"
	"context"
	"sort"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

// vxID is an identifier that depends on one byte; at is its position.
func vxID(kind byte, at int) (id common.SHA256Output) {
	id[at], id[16] = zvx.U8("id"), kind
	return
}

// vxIDs are n different identifiers.
func vxIDs(kind byte, at, n int) (ids []common.SHA256Output) {
	for i := 0; i < n; i++ {
		id := vxID(kind, at)
		for _, o := range ids {
			zvx.Assume(id[at] != o[at])
		}
		ids = append(ids, id)
	}
	return
}

func vxFind(ids []common.SHA256Output, id common.SHA256Output) int {
	for i := range ids {
		if ids[i] == id {
			return i
		}
	}
	return -1
}

// vxAsk are the identifiers of a request: up to n, any of those stored and of others, repeated or not.
func vxAsk(stored []common.SHA256Output, kind byte, n int) (ids []common.SHA256Output) {
	for i, m := 0, zvx.IntRange("requested", 0, n); i < m; i++ {
		ids = append(ids, vxID(kind, 31))
	}
	return
}

func vxOutcome(d *vxSQL, c *mysqlDB, err error) bool {
	zvx.Assert(vxClosed(c), "a connection of the database is not released")
	if d.failed {
		zvx.Assert(err != nil, "a failure of the database is not reported")
		zvx.Reach("failure")
		return false
	}
	zvx.Assert(err == nil, "an error is reported for a valid request")
	return true
}

// vxFault chooses a failing statement on the table: none, the statement, or a row of its result.
func (d *vxSQL) setFault(table string, rows int) {
	if f := zvx.Choose("fault", rows+3) - 2; f >= -1 {
		d.failTable, d.failPart, d.failRow = table, -1, f
	}
	d.back = zvx.Choose("order", 2) == 1
}

// VxPayloads: the payloads of certificates and policies are returned in the order of their identifiers.
func VxPayloads() {
	d, ctx := vxNewSQL(), context.Background()
	c := vxOpenDB(d)
	n := zvx.Param("rows", 2)
	certs, pols := vxIDs(1, 31, n), vxIDs(1, 31, zvx.Param("policies", 1))
	for i, id := range certs {
		d.tables["certs"].put(vxRow{id[:], nil, []byte("2024-01-01 00:00:00"), []byte{1, byte(i)}}, false)
	}
	for i, id := range pols {
		zvx.Assume(vxFind(certs, id) < 0)
		d.tables["policies"].put(vxRow{id[:], nil, []byte("2024-01-01 00:00:00"), []byte{2, byte(i)}}, false)
	}
	op := zvx.Choose("operation", 3)
	ids := vxAsk(certs, 1, zvx.Param("requested", 2))
	table := "certs"
	if op == 1 || op == 2 && zvx.Bool("second") {
		table = "policies"
	}
	d.setFault(table, zvx.Param("rows", 2))
	var out [][]byte
	var err error
	switch op {
	case 0:
		out, err = c.RetrieveCertificatePayloads(ctx, ids)
	case 1:
		out, err = c.RetrievePolicyPayloads(ctx, ids)
	case 2:
		out, err = c.RetrieveCertificateOrPolicyPayloads(ctx, ids)
	}
	if !vxOutcome(d, c, err) {
		return
	}
	zvx.Assert(len(out) == len(ids), "not one payload per identifier is returned")
	for i, id := range ids {
		var want []byte
		if j := vxFind(certs, id); j >= 0 && op != 1 {
			want = []byte{1, byte(j)}
		}
		if j := vxFind(pols, id); j >= 0 && op != 0 {
			want = []byte{2, byte(j)}
		}
		zvx.Assert(bytes.Equal(out[i], want), "a payload is not the one of its identifier")
	}
	zvx.Reach("payloads")
}

// VxExist: presence is reported for each identifier, whatever their number.
func VxExist() {
	d, ctx := vxNewSQL(), context.Background()
	c := vxOpenDB(d)
	n := []int{0, 1, 2, 3, batchSize, batchSize + 1, batchSize - 1, batchSize + 25, 2 * batchSize, 2*batchSize + 1}[zvx.Choose("count", zvx.Param("counts", 9))]
	policies := zvx.Choose("policies", 2) == 1
	ids := make([]common.SHA256Output, n)
	for i := range ids {
		ids[i][0], ids[i][1], ids[i][2] = byte(i), byte(i>>8), 1
	}
	table := "certs"
	if policies {
		table = "policies"
	}
	// One is stored; in small requests any of them.
	stored := map[int]bool{}
	if n <= 3 {
		for i := range ids {
			stored[i] = zvx.Bool("stored")
		}
		if n == 3 && zvx.Bool("repeated") {
			ids[2], stored[2] = ids[0], stored[0]
		}
	} else {
		stored[[]int{0, n - 1, n / 2, batchSize - 1, 1, batchSize - 2, n - 2}[zvx.Choose("position", zvx.Param("positions", 7))]] = true
	}
	for i, id := range ids {
		if i < n && stored[i] {
			d.tables[table].put(vxRow{append([]byte{}, id[:]...), nil, nil, nil}, false)
		}
	}
	if n <= 3 {
		d.setFault(table, -1)
	}
	var out []bool
	var err error
	if policies {
		out, err = c.CheckPoliciesExist(ctx, ids)
	} else {
		out, err = c.CheckCertsExist(ctx, ids)
	}
	if !vxOutcome(d, c, err) {
		return
	}
	zvx.Assert(len(out) == n, "presence is not reported for each identifier")
	for i := range out {
		zvx.Assert(out[i] == stored[i], "an identifier is reported as stored and is not, or the reverse")
	}
	zvx.Reach("presence")
}

// vxGlue is the payload of the domain with these identifiers.
func vxGlue(ids []common.SHA256Output) []byte {
	sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
	var b []byte
	for _, id := range ids {
		b = append(b, id[:]...)
	}
	return b
}

// vxPayloadID stands for the hash of the list of identifiers.
func vxPayloadID(list []byte, kind, n byte) any {
	if list == nil {
		return nil
	}
	return append([]byte{kind, n}, make([]byte, 30)...)
}

func vxBytes(b []byte) any {
	if b == nil {
		return nil
	}
	return b
}

// VxEntries: the payloads of domains are their sorted identifiers.
func VxEntries() {
	d, ctx := vxNewSQL(), context.Background()
	c := vxOpenDB(d)
	var domains []common.SHA256Output
	var want [][]byte
	payloads := d.tables["domain_payloads"]
	domains = vxIDs(1, 31, zvx.Param("domains", 2))
	for i, id := range domains {
		var certs, pols []byte
		var all []common.SHA256Output
		for j, k := 0, zvx.IntRange("certs", 0, zvx.Param("certs", 2)); j < k; j++ {
			x := vxIDNear(2, byte(2*i+j))
			certs, all = append(certs, x[:]...), append(all, x)
		}
		if zvx.Param("policies", 1) == 1 && zvx.Bool("policy") {
			x := vxIDNear(3, byte(i))
			pols, all = append(pols, x[:]...), append(all, x)
		}
		payloads.put(vxRow{id[:], vxBytes(certs), vxPayloadID(certs, 4, byte(i)), vxBytes(pols), vxPayloadID(pols, 5, byte(i))}, false)
		want = append(want, vxGlue(all))
	}
	ids := vxAsk(domains, 1, zvx.Param("requested", 2))
	d.setFault("domain_payloads", zvx.Param("domains", 2))
	if len(ids) == 1 && zvx.Bool("single") {
		d.failRow = -1
		i := vxFind(domains, ids[0])
		row := vxRow{nil, nil, nil, nil, nil}
		if i >= 0 {
			row = payloads.rows[i]
		}
		k := zvx.Choose("column", 2)
		id, list, err := c.RetrieveDomainCertificatesIDs(ctx, ids[0])
		if k == 1 {
			if d.failed {
				return
			}
			id, list, err = c.RetrieveDomainPoliciesIDs(ctx, ids[0])
		}
		if !vxOutcome(d, c, err) {
			return
		}
		wantID, _ := row[2+2*k].([]byte)
		wantList, _ := row[1+2*k].([]byte)
		zvx.Assert(wantID == nil && id == (common.SHA256Output{}) || wantID != nil && bytes.Equal(id[:], wantID), "the identifier of the payload is that of another domain")
		zvx.Assert(bytes.Equal(list, wantList), "the payload is that of another domain")
		zvx.Reach("single")
		return
	}
	out, err := c.RetrieveDomainEntries(ctx, ids)
	if len(ids) == 0 {
		zvx.Assert(err == nil && len(out) == 0, "nothing was requested")
		return
	}
	if !vxOutcome(d, c, err) {
		return
	}
	for _, e := range out {
		i := vxFind(domains, e.DomainID)
		zvx.Assert(i >= 0 && vxFind(ids, e.DomainID) >= 0, "a domain is returned that was not requested")
		zvx.Assert(bytes.Equal(e.Payload, want[i]), "the payload of a domain is not the sorted list of its identifiers")
	}
	for i, id := range domains {
		n := 0
		for _, e := range out {
			if e.DomainID == id {
				n++
			}
		}
		zvx.Assert(vxFind(ids, id) < 0 && n == 0 || vxFind(ids, id) >= 0 && n == 1, "a requested domain is missing or repeated")
		_ = i
	}
	zvx.Reach("entries")
}

func vxIDNear(kind, n byte) (id common.SHA256Output) {
	id[0], id[1], id[31] = zvx.U8("element"), kind, n
	return
}

// VxScalars: root, nodes of the tree and positions of the logs are the last that were written.
func VxScalars() {
	d, ctx := vxNewSQL(), context.Background()
	c := vxOpenDB(d)
	var root *common.SHA256Output
	var keys []common.SHA256Output
	var vals [][]byte
	sizes, sths := map[string]int64{}, map[string][]byte{}
	for i, n := 0, zvx.Param("writes", 3); i < n; i++ {
		var err error
		op := zvx.Choose("write", 5)
		table := []string{"root", "root", "tree", "tree", "ctlog_server_last_status"}[op]
		if d.failTable == "" && zvx.Choose("fails", 2) == 1 {
			d.failTable, d.failPart = table, -1
		}
		switch op {
		case 0:
			err = c.SaveRoot(ctx, nil)
			if err == nil {
				root = nil
			}
		case 1:
			id := vxID(1, 31)
			err = c.SaveRoot(ctx, &id)
			if err == nil {
				root = &id
			}
		case 2:
			var pairs []*db.TreeNodeRecord
			for j, m := 0, zvx.Choose("nodes", 3); j < m; j++ {
				pairs = append(pairs, &db.TreeNodeRecord{Key: vxID(2, 0), Value: []byte{byte(i), byte(j)}})
			}
			_, err = c.UpdateTreeNodes(ctx, pairs)
			if err == nil {
				for _, p := range pairs {
					if k := vxFind(keys, p.Key); k >= 0 {
						vals[k] = p.Value
					} else {
						keys, vals = append(keys, p.Key), append(vals, p.Value)
					}
				}
			}
		case 3:
			var del []common.SHA256Output
			for j, m := 0, zvx.Choose("nodes", 3); j < m; j++ {
				del = append(del, vxID(2, 0))
			}
			before := len(keys)
			var n int
			n, err = c.DeleteTreeNodes(ctx, del)
			if err == nil {
				for _, id := range del {
					if k := vxFind(keys, id); k >= 0 {
						keys, vals = append(keys[:k:k], keys[k+1:]...), append(vals[:k:k], vals[k+1:]...)
					}
				}
				zvx.Assert(n == before-len(keys), "the number of removed nodes is wrong")
			}
		case 4:
			url := []string{"https://a", "https://b"}[zvx.Choose("url", 2)]
			size := zvx.I64("size")
			err = c.UpdateLastCTlogServerState(ctx, url, size, []byte{byte(i)})
			if err == nil {
				sizes[url], sths[url] = size, []byte{byte(i)}
			}
		}
		if d.failed {
			zvx.Assert(err != nil, "a failure of the database is not reported")
			d.failed, d.failTable = false, "none"
		} else {
			zvx.Assert(err == nil, "an error is reported for a valid request")
			if d.failTable != "none" {
				d.failTable = "" // it was not used
			}
		}
	}
	r, err := c.LoadRoot(ctx)
	zvx.Assert(err == nil && (r == nil) == (root == nil) && (r == nil || *r == *root), "the root is not the last one that was saved")
	probe := vxID(2, 0)
	v, err := c.RetrieveTreeNode(ctx, probe)
	var want []byte
	if k := vxFind(keys, probe); k >= 0 {
		want = vals[k]
	}
	zvx.Assert(err == nil && bytes.Equal(v, want), "a node of the tree is not the last one that was written")
	for _, url := range []string{"https://a", "https://b", "https://c"} {
		size, sth, err := c.LastCTlogServerState(ctx, url)
		zvx.Assert(err == nil && size == sizes[url] && bytes.Equal(sth, sths[url]), "the position of a log is not the last one that was written")
	}
	d.failTable, d.failPart = []string{"root", "tree", "ctlog_server_last_status"}[zvx.Choose("read", 3)], -1
	_, e1 := c.LoadRoot(ctx)
	_, e2 := c.RetrieveTreeNode(ctx, probe)
	_, _, e3 := c.LastCTlogServerState(ctx, "https://a")
	zvx.Assert(e1 != nil || e2 != nil || e3 != nil, "a failure of the database is not reported")
	zvx.Assert(vxClosed(c), "a connection of the database is not released")
	zvx.Reach("scalars")
}
