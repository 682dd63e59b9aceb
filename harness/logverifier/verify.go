package logverifier

import (
	"crypto"
	"crypto/sha256"
	"hash"

	"github.com/google/trillian"
	"github.com/google/trillian/types"

	"github.com/netsec-ethz/fpki/pkg/zvx"
)

//vx:stub (crypto.Hash).New => vxNewHash
//vx:stub (crypto.Hash).Size => vxHashSize

func vxNewHash(h crypto.Hash) hash.Hash { return sha256.New() }
func vxHashSize(h crypto.Hash) int      { return sha256.Size }

// The Merkle tree of RFC 6962, from its definition.
func vxLeaf(d []byte) []byte {
	h := sha256.Sum256(append([]byte{0}, d...))
	return h[:]
}

func vxNode(l, r []byte) []byte {
	h := sha256.Sum256(append(append([]byte{1}, l...), r...))
	return h[:]
}

func vxSplit(n int) int {
	k := 1
	for 2*k < n {
		k *= 2
	}
	return k
}

func vxRoot(leaves [][]byte) []byte {
	switch len(leaves) {
	case 0:
		h := sha256.Sum256(nil)
		return h[:]
	case 1:
		return leaves[0]
	}
	k := vxSplit(len(leaves))
	return vxNode(vxRoot(leaves[:k]), vxRoot(leaves[k:]))
}

func vxPath(i int, leaves [][]byte) [][]byte {
	if len(leaves) < 2 {
		return nil
	}
	k := vxSplit(len(leaves))
	if i < k {
		return append(vxPath(i, leaves[:k]), vxRoot(leaves[k:]))
	}
	return append(vxPath(i-k, leaves[k:]), vxRoot(leaves[:k]))
}

func vxConsistency(m int, leaves [][]byte, whole bool) [][]byte {
	n := len(leaves)
	if m == n {
		if whole {
			return nil
		}
		return [][]byte{vxRoot(leaves)}
	}
	k := vxSplit(n)
	if m <= k {
		return append(vxConsistency(m, leaves[:k], whole), vxRoot(leaves[k:]))
	}
	return append(vxConsistency(m-k, leaves[k:], false), vxRoot(leaves[:k]))
}

// vxTree returns the leaf hashes of a log of n entries, any of which may be equal.
func vxTree(n int) [][]byte {
	var r [][]byte
	for i := 0; i < n; i++ {
		r = append(r, vxLeaf(zvx.Bytes("entry", 1)))
	}
	return r
}

func vxHead(leaves [][]byte) *types.LogRootV1 {
	return &types.LogRootV1{TreeSize: uint64(len(leaves)), RootHash: vxRoot(leaves)}
}

// VxInclusion: every entry of the log is proven by its proof, whatever other proofs come with it.
func VxInclusion() {
	zvx.OracleHash()
	n := 1 + zvx.Choose("size", zvx.Param("size", 5))
	leaves := vxTree(n)
	i := zvx.Choose("index", n)
	v := NewLogVerifier(nil)
	head := vxHead(leaves)
	good := &trillian.Proof{LeafIndex: int64(i), Hashes: vxPath(i, leaves)}
	var list []*trillian.Proof
	at := zvx.Choose("position", 2)
	for k := 0; k <= at; k++ {
		if k == at {
			list = append(list, good)
			continue
		}
		// A proof for another place, another tree, or none at all.
		other := &trillian.Proof{LeafIndex: int64(zvx.Choose("other.index", n+3)) - 1}
		for h := zvx.Choose("other.len", 3); h > 0; h-- {
			other.Hashes = append(other.Hashes, zvx.Bytes("other.hash", 1))
		}
		list = append(list, other)
	}
	zvx.Check(v.VerifyInclusionByHash(head, leaves[i], list) == nil, "an entry is proven as long as one of the proofs is valid")
	if at == 0 {
		m := n + zvx.Choose("added", 3)
		grown := append(append([][]byte{}, leaves...), vxTree(m-n)...)
		err := v.VerifyInclusionWithPrevLogRoot(head, vxHead(grown), vxConsistency(n, grown, true), leaves[i], list)
		zvx.Check(err == nil, "an entry stays proven when the log grows")
	}
	zvx.Reach("proven")
}

// VxNotIncluded: no proof is accepted for a leaf that is not in the log.
func VxNotIncluded() {
	zvx.OracleHash()
	n := zvx.Choose("size", zvx.Param("size", 4)+1)
	leaves := vxTree(n)
	head := vxHead(leaves)
	leaf := vxLeaf(zvx.Bytes("leaf", 1))
	in := false
	for _, l := range leaves {
		in = in || string(l) == string(leaf)
	}
	zvx.Assume(!in)
	// Hashes of a proof: any node of the tree, or something else.
	var nodes [][]byte
	for a := 0; a < n; a++ {
		for b := a + 1; b <= n; b++ {
			if b-a == 1 || b-a == 2 && a%2 == 0 || b == n && a == 0 {
				nodes = append(nodes, vxRoot(leaves[a:b]))
			}
		}
	}
	if len(nodes) > zvx.Param("nodes", 4) {
		nodes = nodes[:zvx.Param("nodes", 4)]
	}
	p := &trillian.Proof{LeafIndex: int64(zvx.Choose("index", n+2)) - 1}
	for h := zvx.Choose("len", zvx.Param("path", 3)+1); h > 0; h-- {
		k := zvx.Choose("hash", len(nodes)+1)
		if k == len(nodes) {
			x := zvx.Hash32("other")
			p.Hashes = append(p.Hashes, x[:])
		} else {
			p.Hashes = append(p.Hashes, nodes[k])
		}
	}
	v := NewLogVerifier(nil)
	zvx.Check(v.VerifyInclusionByHash(head, leaf, []*trillian.Proof{p}) != nil, "an entry that is not in the log is not proven")
	zvx.Check(v.VerifyInclusionByHash(head, leaf, nil) != nil, "an entry without proof is not proven")
	zvx.Reach("rejected")
}

// VxAppendOnly: a new root is accepted iff it extends the trusted one.
func VxAppendOnly() {
	zvx.OracleHash()
	m := zvx.Choose("old", zvx.Param("size", 4)+1)
	n := m + zvx.Choose("added", 3)
	v := NewLogVerifier(nil)
	old := vxTree(m)
	grown := append(append([][]byte{}, old...), vxTree(n-m)...)
	changed := m > 0 && zvx.Choose("changed", 2) == 1
	if changed {
		k := zvx.Choose("which", m)
		c := vxLeaf(zvx.Bytes("rewritten", 1))
		zvx.Assume(string(c) != string(grown[k]))
		grown[k] = c
	}
	trusted, head := vxHead(old), vxHead(grown)
	var proof [][]byte
	if m > 0 {
		proof = vxConsistency(m, grown, true)
	}
	got, err := v.VerifyRoot(trusted, head, proof)
	if changed {
		zvx.Check(err != nil && got == nil, "a log that rewrote an entry is rejected")
		if n > m {
			var p2 [][]byte = vxConsistency(m, append(append([][]byte{}, old...), grown[m:]...), true)
			_, err = v.VerifyRoot(trusted, head, p2)
			zvx.Check(err != nil, "a log that rewrote an entry is rejected")
		}
		// and it does not prove its entries to whoever trusts the old root
		err = v.VerifyInclusionWithPrevLogRoot(trusted, head, proof, old[0], []*trillian.Proof{{LeafIndex: 0, Hashes: vxPath(0, old)}})
		zvx.Check(err != nil, "a log that rewrote an entry is rejected")
		zvx.Reach("rejected")
		return
	}
	zvx.Check(err == nil && got == head, "a log that grew is accepted")
	if m > 0 && n > m {
		_, err = v.VerifyRoot(head, trusted, proof)
		zvx.Check(err != nil, "a log that shrank is rejected")
		first := []*trillian.Proof{{LeafIndex: 0, Hashes: vxPath(0, grown)}}
		for _, p := range [][][]byte{proof, nil} {
			err = v.VerifyInclusionWithPrevLogRoot(head, trusted, p, grown[0], first)
			zvx.Check(err != nil, "a log that shrank is rejected")
		}
		_, err = v.VerifyRoot(trusted, head, nil)
		zvx.Check(err != nil, "a log that grew without proof is rejected")
	}
	_, err = v.VerifyRoot(nil, head, proof)
	zvx.Check(err != nil, "without roots nothing is accepted")
	_, err = v.VerifyRoot(trusted, nil, proof)
	zvx.Check(err != nil, "without roots nothing is accepted")
	zvx.Reach("accepted")
}
