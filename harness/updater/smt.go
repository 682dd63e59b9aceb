package updater

import (
	"bytes"
	"context"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

// vxDomID returns distinct domain identifiers.
func vxDomID(i int) (id common.SHA256Output) {
	id[0], id[31] = []byte{0x80, 0x90, 0x10, 0x98}[i], 1
	return
}

// readable checks that the tree of the saved root has exactly the given values.
func (d *vxDB) readable(vals [][]byte, what string) {
	var root []byte
	if d.root != nil {
		root = bytes.Clone(d.root[:])
	}
	t, err := trie.NewTrie(root, common.SHA256Hash, d)
	zvx.Assume(err == nil)
	for i, v := range vals {
		id := vxDomID(i)
		got, err := t.Get(context.Background(), id[:])
		zvx.Assert(err == nil, what+": the saved root is not readable")
		zvx.Assert(bytes.Equal(got, v), what+": the saved root does not have the value of a domain")
	}
}

// saved tells whether the tree of the saved root is readable, and its values.
func (d *vxDB) saved(n int) ([][]byte, bool) {
	var root []byte
	if d.root != nil {
		root = bytes.Clone(d.root[:])
	}
	t, err := trie.NewTrie(root, common.SHA256Hash, d)
	zvx.Assume(err == nil)
	var r [][]byte
	for i := 0; i < n; i++ {
		id := vxDomID(i)
		got, err := t.Get(context.Background(), id[:])
		if err != nil {
			return nil, false
		}
		r = append(r, bytes.Clone(got))
	}
	return r, true
}

func vxValueOf(payload []byte) []byte {
	if len(payload) == 0 {
		return nil
	}
	return common.SHA256Hash(payload)
}

// change sets the payloads of some domains and marks them as dirty.
func (d *vxDB) change(n, kinds int, some bool) [][]byte {
	d.dirty = nil
	var vals [][]byte
	for i := 0; i < n; i++ {
		id := vxDomID(i)
		if k := zvx.Choose("payload", kinds); k > 0 || some {
			var p []byte
			if k == 1 || some && k == 0 {
				p = []byte{zvx.U8("content"), byte(i)}
			} // otherwise, nothing is left in the domain
			d.setContent(id, p)
			d.dirty = append(d.dirty, id)
		}
		vals = append(vals, vxValueOf(d.payload(id)))
	}
	return vals
}

func vxAnyValue(vals [][]byte) bool {
	for _, v := range vals {
		if v != nil {
			return true
		}
	}
	return false
}

// VxSMT: after each update the saved root has the values of all domains.
func VxSMT() {
	zvx.OracleHash()
	d := &vxDB{}
	n := zvx.Param("domains", 2)
	vals := d.change(n, 2, false)
	if vxAnyValue(vals) || len(d.dirty) == 0 {
		zvx.Assert(UpdateSMT(context.Background(), d) == nil, "the update of the tree fails")
		d.readable(vals, "after an update")
	}
	for s := 1; s < zvx.Param("steps", 2); s++ {
		vals = d.change(n, 3, false)
		if !vxAnyValue(vals) && zvx.Param("empty", 0) == 0 {
			return
		}
		zvx.Assert(UpdateSMT(context.Background(), d) == nil, "the update of the tree fails")
		d.readable(vals, "after an update")
	}
	zvx.Reach("updated")
}

// VxSMTCrash: if an update of the tree is interrupted, the saved root stays readable, each domain has its old or its new
// value, and the next update completes the interrupted one.
func VxSMTCrash() {
	zvx.OracleHash()
	d := &vxDB{}
	n := zvx.Param("domains", 2)
	old := d.change(n, 2, true)
	d.whole = true
	zvx.Assert(UpdateSMT(context.Background(), d) == nil, "the update of the tree fails")
	d.whole = false
	vals := d.change(n, 3, false)
	if !vxAnyValue(vals) && zvx.Param("empty", 0) == 0 {
		return
	}
	at, k := zvx.Choose("failing_operation", zvx.Param("ops", 12)), 0
	d.fail = func(string) bool { k++; return k-1 == at }
	err := UpdateSMT(context.Background(), d)
	d.fail = nil
	if k <= at {
		zvx.Assert(err == nil, "the update of the tree fails")
		d.readable(vals, "after an update")
		return
	}
	zvx.Assert(err != nil, "a failure of the database is not reported")
	got, ok := d.saved(n)
	zvx.Assert(ok, "the saved root is not readable after an interrupted update")
	for i := range got {
		zvx.Assert(bytes.Equal(got[i], old[i]) || bytes.Equal(got[i], vals[i]), "a domain has neither its old nor its new value after an interrupted update")
	}
	d.whole = true
	zvx.Assert(UpdateSMT(context.Background(), d) == nil, "the update after an interrupted one fails")
	d.readable(vals, "after a completed update")
	zvx.Reach("recovered")
}
