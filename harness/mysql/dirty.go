package mysql

import (
	"bytes"
	"context"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

// vxDirtyDomains stores dirty domains in any partitions, some with a payload.
func vxDirtyDomains(d *vxSQL, n int) (ids []common.SHA256Output, payloads [][]byte) {
	ids = vxIDs(1, 1, n)
	for i := range ids {
		ids[i][0] = []byte{0, 255, 8, 1}[zvx.Choose("partition", zvx.Param("partitions", 4))] // partitions 0, 31, 1, 0
		id := ids[i]
		var p []byte
		if zvx.Bool("payload") {
			x := common.SHA256Output{7, byte(i)}
			p = x[:]
			d.tables["domain_payloads"].put(vxRow{id[:], p, []byte{1}, nil, nil}, false)
		}
		payloads = append(payloads, p)
		d.tables["dirty"].put(vxRow{id[:], int64(0)}, false)
	}
	return
}

// vxDelivered: each domain is delivered exactly once, with its payload.
func vxDelivered(ids []common.SHA256Output, payloads [][]byte, out []db.DomainEntryRecord) {
	for i, id := range ids {
		n := 0
		for _, e := range out {
			if e.DomainID == id {
				zvx.Assert(bytes.Equal(e.Payload, payloads[i]), "a dirty domain is returned with another payload")
				n++
			}
		}
		zvx.Assert(n > 0, "a dirty domain is not returned")
		zvx.Assert(n < 2, "a dirty domain is returned twice")
	}
	zvx.Assert(len(out) == len(ids), "a domain is returned that is not dirty")
}

// VxBundles: the bundles of dirty domains have each of them exactly once, whatever their size and
// whatever statement fails in between.
func VxBundles() {
	zvx.NoNative() // the order of the statements depends on the scheduler
	zvx.Delays(zvx.Param("delays", 0))
	d, ctx := vxNewSQL(), context.Background()
	c := vxOpenDB(d)
	n := zvx.Choose("domains", zvx.Param("domains", 2)+1)
	ids, payloads := vxDirtyDomains(d, n)
	if zvx.Choose("fails", 2) == 1 {
		d.failTable = []string{"dirty", "domain_payloads"}[zvx.Choose("failing_table", 2)]
		d.failPart, d.failRow = -1, zvx.Choose("failing_row", 3)-1
		d.failAfter = []int{0, 1, 31, 32, 33, 34}[zvx.Choose("failing_statement", zvx.Param("statements", 6))]
	}
	size := uint64(zvx.Choose("size", zvx.Param("size", 3))+1)
	var cursor *db.DirtyDomainEntriesCursor
	var out []db.DomainEntryRecord
	for calls := 0; ; calls++ {
		zvx.Assert(calls < n+3+NumPartitions, "the bundles do not end")
		bundle, next, done, err := c.RetrieveDomainEntriesDirtyBundle(ctx, cursor, size)
		zvx.Assert(vxClosed(c), "a connection of the database is not released")
		if d.failed {
			zvx.Assert(err != nil, "a failure of the database is not reported")
			d.failed, d.failTable = false, "none"
			cursor = next
			zvx.Reach("failure")
			continue
		}
		zvx.Assert(err == nil, "an error is reported for a valid request")
		zvx.Assert(uint64(len(bundle)) <= size, "a bundle is larger than requested")
		zvx.Assert(done || len(bundle) > 0, "an empty bundle is returned and there are more")
		out, cursor = append(out, bundle...), next
		if done {
			break
		}
	}
	vxDelivered(ids, payloads, out)
	zvx.Reach("bundles")
}

// VxRanges: ranges of the dirty domains that cover all of them have each exactly once; the counts and
// the list of the dirty domains are right.
func VxRanges() {
	zvx.NoNative()
	d, ctx := vxNewSQL(), context.Background()
	c := vxOpenDB(d)
	n := zvx.Choose("domains", zvx.Param("domains", 3)+1)
	ids, payloads := vxDirtyDomains(d, n)
	fail := zvx.Choose("fault", 4) - 2
	if fail >= -1 {
		d.failTable = []string{"dirty", "domain_payloads"}[zvx.Choose("failing_table", 2)]
		d.failPart, d.failRow = -1, fail
	}
	d.back = zvx.Bool("order")
	switch zvx.Choose("operation", 5) {
	case 0:
		if d.failTable == "dirty" {
			d.failRow = -1
			d.failAfter = []int{0, 5, 31}[zvx.Choose("failing_statement", 3)]
		}
		count, err := c.DirtyCount(ctx)
		if vxOutcome(d, c, err) {
			zvx.Assert(count == uint64(n), "the number of dirty domains is wrong")
			zvx.Reach("count")
		}
	case 1:
		list, err := c.RetrieveDirtyDomains(ctx)
		if vxOutcome(d, c, err) {
			var out []db.DomainEntryRecord
			for _, id := range list {
				out = append(out, db.DomainEntryRecord{DomainID: id})
			}
			vxDelivered(ids, make([][]byte, n), out)
		}
	case 2:
		step := uint64(zvx.Choose("step", 3)+1)
		var out []db.DomainEntryRecord
		for start := uint64(0); start < uint64(n); start += step {
			d.back = zvx.Bool("order")
			part, err := c.RetrieveDomainEntriesDirtyOnes(ctx, start, start+step)
			if !vxOutcome(d, c, err) {
				return
			}
			out = append(out, part...)
		}
		vxDelivered(ids, payloads, out)
		zvx.Reach("ranges")
	case 3:
		// All dirty domains are coalesced, or an error is reported.
		if d.failTable == "dirty" {
			d.failRow = -1
			d.failAfter = []int{0, 31, 32, 63, 64}[zvx.Choose("failing_statement", 5)]
		}
		err := c.RecomputeDirtyDomainsCertAndPolicyIDs(ctx)
		if vxOutcome(d, c, err) {
			for _, r := range d.tables["dirty"].rows {
				zvx.Assert(vxEqual(r[1], int64(1)), "a dirty domain is not coalesced")
			}
			zvx.Reach("coalesced")
		}
	case 4:
		d.failRow = -1
		err := c.CleanupDirty(ctx)
		if vxOutcome(d, c, err) {
			zvx.Assert(len(d.tables["dirty"].rows) == 0, "a domain is still dirty")
		}
	}
}
