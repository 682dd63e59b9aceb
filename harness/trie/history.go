package trie

import (
	"bytes"
	"context"
	"errors"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

// vxStore is the persistent store of tree nodes.
type vxStore struct {
	keys   []common.SHA256Output
	vals   [][]byte
	faults func(op string) bool
}

var errVxStore = errors.New("store failure")

func (s *vxStore) fail(op string) bool { return s.faults != nil && s.faults(op) }
func (s *vxStore) Close() error        { return nil }
func (s *vxStore) find(k common.SHA256Output) int {
	for i := range s.keys {
		if s.keys[i] == k {
			return i
		}
	}
	return -1
}
func (s *vxStore) RetrieveTreeNode(ctx context.Context, k common.SHA256Output) ([]byte, error) {
	if s.fail("read") {
		return nil, errVxStore
	}
	if i := s.find(k); i >= 0 {
		return bytes.Clone(s.vals[i]), nil
	}
	return nil, nil
}
func (s *vxStore) UpdateTreeNodes(ctx context.Context, kvs []*db.TreeNodeRecord) (int, error) {
	if s.fail("write") {
		return 0, errVxStore
	}
	for _, r := range kvs {
		if i := s.find(r.Key); i >= 0 {
			s.vals[i] = bytes.Clone(r.Value)
			continue
		}
		s.keys = append(s.keys, r.Key)
		s.vals = append(s.vals, bytes.Clone(r.Value))
	}
	return len(kvs), nil
}
func (s *vxStore) DeleteTreeNodes(ctx context.Context, ks []common.SHA256Output) (int, error) {
	if s.fail("delete") {
		return 0, errVxStore
	}
	for _, k := range ks {
		if i := s.find(k); i >= 0 {
			s.keys = append(s.keys[:i:i], s.keys[i+1:]...)
			s.vals = append(s.vals[:i:i], s.vals[i+1:]...)
		}
	}
	return len(ks), nil
}

// vxKeys returns n distinct, ascending keys that differ in the given byte.
func vxKeys(n int, at int, mask byte) [][]byte {
	ks := make([][]byte, n)
	for i := range ks {
		b := zvx.U8("key") & mask
		if i > 0 {
			zvx.Assume(b > ks[i-1][at])
		}
		ks[i] = make([]byte, 32)
		ks[i][at] = b
	}
	return ks
}

func vxValue(name string) []byte {
	v := make([]byte, 32)
	v[0] = zvx.U8(name)
	v[31] = 7
	return v
}

type vxModel struct {
	keys [][]byte
	vals [][]byte // nil: absent
}

// step applies one batch of arbitrary operations.
func (m *vxModel) step(name string, t *Trie, del bool) error {
	var ks, vs [][]byte
	n := 2
	if del {
		n = 3
	}
	for i, k := range m.keys {
		switch zvx.Choose(name+"_op", n) {
		case 1:
			v := vxValue(name + "_val")
			ks, vs = append(ks, bytes.Clone(k)), append(vs, bytes.Clone(v))
			m.vals[i] = v
		case 2:
			ks, vs = append(ks, bytes.Clone(k)), append(vs, DefaultLeaf)
			m.vals[i] = nil
		}
	}
	if len(ks) == 0 {
		return nil
	}
	_, err := t.Update(context.Background(), ks, vs)
	return err
}

func (m *vxModel) checkGet(t *Trie, what string) {
	for i, k := range m.keys {
		got, err := t.Get(context.Background(), bytes.Clone(k))
		zvx.Assert(err == nil, what+": reading a key fails")
		if m.vals[i] == nil {
			zvx.Assert(len(got) == 0, what+": an absent key has a value")
		} else {
			zvx.Assert(zvx.EqBytes(got, m.vals[i]), what+": a key does not have the value last written")
		}
	}
}

func (m *vxModel) checkProofs(t *Trie, what string) {
	for i, k := range m.keys {
		ap, in, pk, pv, err := t.MerkleProof(context.Background(), bytes.Clone(k))
		zvx.Assert(err == nil, what+": building a proof fails")
		zvx.Assert(in == (m.vals[i] != nil), what+": wrong type of proof")
		bm, cap, ln, cin, cpk, cpv, err := t.MerkleProofCompressed(context.Background(), bytes.Clone(k))
		zvx.Assert(err == nil, what+": building a compressed proof fails")
		zvx.Assert(cin == in, what+": wrong type of compressed proof")
		if in {
			zvx.Assert(zvx.EqBytes(pv, m.vals[i]), what+": proof of a wrong value")
			zvx.Assert(VerifyInclusion(t.Root, ap, k, m.vals[i]), what+": inclusion proof is rejected")
			zvx.Assert(t.VerifyInclusionC(bm, k, m.vals[i], cap, ln), what+": compressed inclusion proof is rejected")
		} else {
			zvx.Assert(VerifyNonInclusion(t.Root, ap, k, pv, pk), what+": non-inclusion proof is rejected")
			if len(t.Root) != 0 {
				zvx.Assert(t.VerifyNonInclusionC(cap, ln, bm, k, cpv, cpk), what+": compressed non-inclusion proof is rejected")
			}
		}
	}
}

// fresh builds a tree of the content of the model in one batch.
func (m *vxModel) fresh() []byte {
	t, err := NewTrie(nil, common.SHA256Hash, &vxStore{})
	zvx.Assume(err == nil)
	var ks, vs [][]byte
	for i, k := range m.keys {
		if m.vals[i] != nil {
			ks, vs = append(ks, bytes.Clone(k)), append(vs, bytes.Clone(m.vals[i]))
		}
	}
	if len(ks) == 0 {
		return nil
	}
	r, err := t.Update(context.Background(), ks, vs)
	zvx.Assert(err == nil, "building a tree in one batch fails")
	return r
}

// vxHistory runs an arbitrary history of batches, commits and reloads; at each step it calls check.
func vxHistory(reload bool, check func(m *vxModel, t *Trie, what string)) {
	zvx.OracleHash()
	n, steps := zvx.Param("keys", 3), zvx.Param("steps", 2)
	st := &vxStore{}
	t, err := NewTrie(nil, common.SHA256Hash, st)
	zvx.Assume(err == nil)
	at, mask := zvx.Param("byte", 0), byte(zvx.Param("mask", 0xf8))
	m := &vxModel{keys: vxKeys(n, at, mask), vals: make([][]byte, n)}
	t.CacheHeightLimit = zvx.Param("cache", 257)
	for s := 0; s < steps; s++ {
		err := m.step("s", t, s > 0)
		zvx.Assert(err == nil, "an update fails")
		check(m, t, "after an update")
		mode := zvx.Choose("commit", 3)
		if mode == 0 {
			continue
		}
		err = t.Commit(context.Background())
		zvx.Assert(err == nil, "a commit fails")
		if mode == 2 && reload {
			t2, err := NewTrie(t.Root, common.SHA256Hash, st)
			zvx.Assume(err == nil)
			t2.CacheHeightLimit = t.CacheHeightLimit
			if len(t.Root) != 0 && zvx.Choose("loadcache", 2) == 1 {
				zvx.Assert(t2.LoadCache(context.Background(), t.Root) == nil, "loading the cache fails")
			}
			t = t2
			check(m, t, "after a reload")
		}
	}
	zvx.Observe("root", t.Root != nil)
	zvx.Reach("end of history")
}

// VxMap: reads return what was written last, for all histories.
func VxMap() { vxHistory(true, (*vxModel).checkGet) }

// VxProofs: every key has a proof of its state that verifies against the root.
// VxMapProofs: both.
func VxMapProofs() {
	vxHistory(zvx.Param("reload", 1) == 1, func(m *vxModel, t *Trie, what string) {
		m.checkGet(t, what)
		m.checkProofs(t, what)
	})
}

func VxProofs() { vxHistory(true, (*vxModel).checkProofs) }

// VxCanonical: the root depends on the content only.
func VxCanonical() {
	vxHistory(true, func(m *vxModel, t *Trie, what string) {
		want := m.fresh()
		if want == nil {
			zvx.Assert(len(t.Root) == 0, what+": an empty tree has a root")
			return
		}
		zvx.Assert(len(t.Root) == 32, what+": size of the root")
		zvx.Assert(zvx.EqBytes(want, t.Root), what+": the root depends on the history")
	})
}
