package prover

import (
	"github.com/netsec-ethz/fpki/pkg/common"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

// vxLens are the sizes a dishonest server may give to a path element.
var vxLens = []int{32, 1, 64, 33}

func vxPath(name string, max, kinds int) [][]byte {
	n := zvx.Choose(name+"_len", max+1)
	ap := make([][]byte, 0, n)
	for i := 0; i < n; i++ {
		ap = append(ap, zvx.Bytes(name+"_node", vxLens[zvx.Choose(name+"_size", kinds)]))
	}
	return ap
}

func vxPresence(name string, root []byte, id common.SHA256Output, max, kinds int) *mapCommon.MapServerResponse {
	v := zvx.Hash32(name + "_value")
	return &mapCommon.MapServerResponse{
		DomainEntry: &mapCommon.DomainEntry{DomainID: id, DomainValue: v},
		PoI:         mapCommon.PoI{ProofType: mapCommon.PoP, Proof: vxPath(name, max, kinds), Root: root, ProofValue: v[:]},
	}
}

func vxAbsence(name string, root []byte, id common.SHA256Output, max, kinds int) *mapCommon.MapServerResponse {
	var pk, pv []byte
	switch zvx.Choose(name+"_leaf", 6) {
	case 0: // an empty subtree
	case 1:
		pk, pv = zvx.Bytes(name+"_pkey", 32), zvx.Bytes(name+"_pval", 32)
	case 2:
		pk, pv = zvx.Bytes(name+"_pkey", 33), zvx.Bytes(name+"_pval", 31)
	case 3:
		pk, pv = zvx.Bytes(name+"_pkey", 32), zvx.Bytes(name+"_pval", 31)
	case 4: // an empty subtree, with a value nevertheless
		pv = zvx.Bytes(name+"_pval", 32)
	case 5: // a leaf without its value
		pk = zvx.Bytes(name+"_pkey", 32)
	}
	return &mapCommon.MapServerResponse{
		DomainEntry: &mapCommon.DomainEntry{DomainID: id},
		PoI:         mapCommon.PoI{ProofType: mapCommon.PoA, Proof: vxPath(name, max, kinds), Root: root, ProofKey: pk, ProofValue: pv},
	}
}

func vxAccept(r *mapCommon.MapServerResponse) bool {
	_, ok, err := VerifyProofByDomain(r)
	return ok && err == nil
}

// VxOneValue: no root admits presence proofs of two different values for one domain.
func VxOneValue() {
	max, kinds := zvx.Param("levels", 1), zvx.Param("kinds", 3)
	root := zvx.Bytes("root", 32)
	id := zvx.Hash32("id")
	a := vxPresence("a", root, id, max, kinds)
	ok1 := vxAccept(a)
	zvx.Observe("ok1", ok1)
	if !ok1 {
		return
	}
	b := vxPresence("b", root, id, max, kinds)
	if !vxAccept(b) {
		return
	}
	zvx.Reach("both verify")
	zvx.Assert(zvx.EqBytes(a.DomainEntry.DomainValue[:], b.DomainEntry.DomainValue[:]), "two values proven for one domain")
}

// VxExclusive: no root admits a presence and an absence proof for one domain. Path elements that start or
// end with the default value are the subject of VxDefaultAmbiguity.
func VxExclusive() {
	max, kinds := zvx.Param("levels", 1), zvx.Param("kinds", 3)
	root := zvx.Bytes("root", 32)
	id := zvx.Hash32("id")
	a := vxPresence("a", root, id, max, kinds)
	b := vxAbsence("b", root, id, max, kinds)
	for _, p := range [][][]byte{a.PoI.Proof, b.PoI.Proof} {
		for _, n := range p {
			if len(n) == 32 {
				zvx.Assume(zvx.And(n[0] != 0, n[31] != 0))
			}
		}
	}
	ok := vxAccept(a)
	zvx.Observe("present", ok)
	if !ok {
		return
	}
	zvx.Reach("presence verifies")
	ok = vxAccept(b)
	zvx.Assert(!ok, "presence and absence proven for one domain")
}

// VxNoPanic: whatever the server sends, verification terminates without a panic.
func VxNoPanic() {
	zvx.LooseHash()
	var id common.SHA256Output
	id[0] = byte(zvx.Choose("idbits", 2)) << 6
	root := zvx.Bytes("root", []int{0, 32, 33}[zvx.Choose("rootlen", 3)])
	n := []int{0, 1, 9, 256, 257}[zvx.Choose("n", 5)]
	kind := zvx.Choose("kind", 4)
	ap := make([][]byte, n)
	for i := range ap {
		switch kind {
		case 0:
			ap[i] = []byte{0}
		case 1:
			ap[i] = zvx.Bytes("node", 1)
		case 2:
			ap[i] = make([]byte, 32)
		case 3:
			ap[i] = nil
		}
	}
	v := zvx.Hash32("value")
	r := &mapCommon.MapServerResponse{
		DomainEntry: &mapCommon.DomainEntry{DomainID: id, DomainValue: v},
		PoI:         mapCommon.PoI{Proof: ap, Root: root},
	}
	if zvx.Choose("type", 2) == 1 {
		r.PoI.ProofType = mapCommon.PoP
		r.PoI.ProofValue = v[:]
	} else {
		r.PoI.ProofKey = make([]byte, []int{0, 1, 32, 33}[zvx.Choose("pkeylen", 4)])
		r.PoI.ProofValue = zvx.Bytes("pval", []int{0, 32}[zvx.Choose("pvallen", 2)])
	}
	zvx.Observe("ok", vxAccept(r))
	zvx.Reach("verified")
}

// VxDefaultAmbiguity: two domains share the first bit of their ids, nothing is on the other side of the
// root; the absence of the first one must not be provable (all values of leaves and path elements).
func VxDefaultAmbiguity() {
	id, other := zvx.Hash32("id"), zvx.Hash32("other")
	v, ov := zvx.Hash32("v"), zvx.Hash32("ov")
	zvx.Assume(zvx.And(id[0] < 0x40, zvx.And(other[0] >= 0x40, other[0] < 0x80)))
	leaf := common.SHA256Hash(id[:], v[:], []byte{254})
	oleaf := common.SHA256Hash(other[:], ov[:], []byte{254})
	node := common.SHA256Hash(leaf, oleaf)
	root := common.SHA256Hash(node, []byte{0})
	pop := &mapCommon.MapServerResponse{
		DomainEntry: &mapCommon.DomainEntry{DomainID: id, DomainValue: v},
		PoI:         mapCommon.PoI{ProofType: mapCommon.PoP, Proof: [][]byte{oleaf, {0}}, Root: root, ProofValue: v[:]},
	}
	zvx.Assert(vxAccept(pop), "presence is provable")
	poa := &mapCommon.MapServerResponse{
		DomainEntry: &mapCommon.DomainEntry{DomainID: id},
		PoI:         mapCommon.PoI{ProofType: mapCommon.PoA, Proof: [][]byte{zvx.Bytes("element", 32)}, Root: root},
	}
	zvx.Reach("presence proven")
	zvx.Assert(!vxAccept(poa), "absence proven through the ambiguity of the default value")
}
