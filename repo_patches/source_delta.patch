From b15b7d6159e74feec1b04fc9055414dc0b125f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 01/39] fix: reject absence proofs made from the leaf of the
 domain itself and malformed audit paths

VerifyNonInclusion accepted the leaf of the key itself as the other leaf on the
path, so that the absence of any included key could be proven. Path elements of
other sizes than a node allow to split hashed concatenations differently, and
paths longer than the key (or a short proof key) made the verifier panic.
---
 pkg/mapserver/trie/trie_merkle_proof.go | 28 +++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pkg/mapserver/trie/trie_merkle_proof.go b/pkg/mapserver/trie/trie_merkle_proof.go
index dac3d6b..625d0e9 100644
--- a/pkg/mapserver/trie/trie_merkle_proof.go
+++ b/pkg/mapserver/trie/trie_merkle_proof.go
@@ -127,8 +127,25 @@ func (s *Trie) merkleProof(ctx context.Context, auditPath *[][]byte, root, key [
 	}
 }
 
+// validAuditPath returns true if the audit path could have been produced by a trie with keys of 32
+// bytes: without checking this, the concatenation of two nodes could be split at any other position.
+func validAuditPath(ap [][]byte) bool {
+	if len(ap) > 8*HashLength {
+		return false
+	}
+	for _, node := range ap {
+		if len(node) != HashLength && !bytes.Equal(node, DefaultLeaf) {
+			return false
+		}
+	}
+	return true
+}
+
 // VerifyInclusion verifies that key/value is included in the trie with latest root
 func VerifyInclusion(root []byte, ap [][]byte, key, value []byte) bool {
+	if len(key) != HashLength || len(value) != HashLength || !validAuditPath(ap) {
+		return false
+	}
 	leafHash := common.SHA256Hash(key, value, []byte{byte(256 - len(ap))})
 	return bytes.Equal(root, verifyInclusion(ap, 0, key, leafHash))
 }
@@ -150,11 +167,18 @@ func VerifyNonInclusion(root []byte, ap [][]byte, key, value, proofKey []byte) b
 	if root == nil {
 		return true
 	}
+	if len(key) != HashLength || !validAuditPath(ap) {
+		return false
+	}
 	// Check if an empty subtree is on the key path
 	if len(proofKey) == 0 {
 		// return true if a DefaultLeaf in the key path is included in the trie
 		return bytes.Equal(root, verifyInclusion(ap, 0, key, DefaultLeaf))
 	}
+	// The leaf of the key itself proves that the key is included.
+	if bytes.Equal(key, proofKey) {
+		return false
+	}
 	// Check if another kv leaf is on the key path in 2 steps
 	// 1- Check the proof leaf exists
 	if !VerifyInclusion(root, ap, proofKey, value) {
@@ -205,6 +229,10 @@ func (s *Trie) VerifyNonInclusionC(ap [][]byte, length int, bitmap, key, value,
 		// return true if a DefaultLeaf in the key path is included in the trie
 		return bytes.Equal(s.Root, s.verifyInclusionC(bitmap, key, DefaultLeaf, ap, length, 0, 0))
 	}
+	// The leaf of the key itself proves that the key is included.
+	if bytes.Equal(key, proofKey) {
+		return false
+	}
 	// Check if another kv leaf is on the key path in 2 steps
 	// 1- Check the proof leaf exists
 	if !s.VerifyInclusionC(bitmap, proofKey, value, ap, length) {
-- 
2.43.0


From 1f7b8b4d41f0da899a07706b15a7bbbf2f110465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 02/39] fix: keep trie nodes that an update leaves unchanged

Updating a key with the value it already has (e.g. a dirty domain whose value did
not change) removed the nodes on its path from memory and, after a commit, from
the database, which left the tree unreadable.
---
 pkg/mapserver/trie/trie.go       | 21 ++++++++++++---------
 pkg/mapserver/trie/trie_cache.go |  7 +++++++
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 323dd11..a8f3d61 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -605,19 +605,22 @@ func (s *Trie) leafHash(key, value, oldRoot []byte, batch [][]byte, iBatch, heig
 	return h
 }
 
-// storeNode stores a batch and deletes the old node from cache
+// storeNode stores a batch and deletes the old node from cache.
+// The node may be the same as the old one (e.g. if a key is updated with its current value), which
+// was already scheduled for removal: it must stay available.
 func (s *Trie) storeNode(batch [][]byte, h, oldRoot []byte, height int) {
 	if !bytes.Equal(h, oldRoot) {
-		var node Hash
-		copy(node[:], h)
-		// record new node
-		s.db.updateUpdateNodes(node, batch)
-		// Cache the shortcut node if it's height is over CacheHeightLimit
-		if height >= s.CacheHeightLimit {
-			s.db.updateLiveCache(node, batch)
-		}
 		s.deleteOldNode(oldRoot, height, false)
 	}
+	var node Hash
+	copy(node[:], h)
+	// record new node
+	s.db.updateUpdateNodes(node, batch)
+	s.db.cancelRemoveNode(node)
+	// Cache the shortcut node if it's height is over CacheHeightLimit
+	if height >= s.CacheHeightLimit {
+		s.db.updateLiveCache(node, batch)
+	}
 }
 
 // interiorHash hashes 2 children to get the parent hash and stores it in the updatedNodes and maybe in liveCache.
diff --git a/pkg/mapserver/trie/trie_cache.go b/pkg/mapserver/trie/trie_cache.go
index d1223c7..4dbd5b3 100644
--- a/pkg/mapserver/trie/trie_cache.go
+++ b/pkg/mapserver/trie/trie_cache.go
@@ -199,3 +199,10 @@ func (db *CacheDB) addRemoveNode(node common.SHA256Output) {
 	db.removedNode[node] = []byte{0}
 	db.removeMux.Unlock()
 }
+
+// cancelRemoveNode: keep a node that was going to be removed
+func (db *CacheDB) cancelRemoveNode(node common.SHA256Output) {
+	db.removeMux.Lock()
+	delete(db.removedNode, node)
+	db.removeMux.Unlock()
+}
-- 
2.43.0


From 61b14b79fcf41b6fcf4a3beb33e7ea541172a27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 03/39] fix: keep the leaf of the last level when the trie is a
 single leaf

---
 pkg/mapserver/trie/trie.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index a8f3d61..f8e15fe 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -199,6 +199,9 @@ func (s *Trie) update(ctx context.Context, root []byte, keys, values, batch [][]
 		if iBatch == 0 {
 			// shortcut is moving so it's root will change
 			s.deleteOldNode(root, height, false)
+			// Do not delete it again once its subtree is updated: the leaf of the last level of
+			// the trie (height 0) and that of its root (height 256) have the same hash.
+			root = nil
 		}
 		// The shortcut node was added to keys and values so consider this subtree default.
 		lNode, rNode = nil, nil
-- 
2.43.0


From 1233c79d66f3e722366cc8718e9b281612a76853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 04/39] fix: keep the expirations aligned with the certificates
 that are not in the DB yet

---
 pkg/mapserver/updater/updater.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 9cbf493..b010c25 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -390,12 +390,14 @@ func UpdateWithKeepExisting(
 		certIDs[to] = certIDs[from]
 		domainNames[to] = domainNames[from]
 		parentCertIDs[to] = parentCertIDs[from]
+		certExpirations[to] = certExpirations[from]
 		payloads = append(payloads, certs[from].Raw)
 	})
 	// Trim the end of the original ID slice, as it contains values from the unmasked certificates.
 	certIDs = certIDs[:len(payloads)]
 	domainNames = domainNames[:len(payloads)]
 	parentCertIDs = parentCertIDs[:len(payloads)]
+	certExpirations = certExpirations[:len(payloads)]
 
 	// Update those certificates that were not in the mask.
 	err = insertCerts(ctx, conn, domainNames, certIDs, parentCertIDs, certExpirations, payloads)
-- 
2.43.0


From 4fdc62febb27fd1872fdadd484b79d692475c0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 05/39] fix: complete interrupted batches: insert certificates
 and policies after their domains

---
 pkg/mapserver/updater/updater.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index b010c25..c1b630a 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -597,12 +597,6 @@ func insertCerts(
 	// Disable redo-logs with:
 	// ALTER INSTANCE DISABLE INNODB REDO_LOG
 
-	// Send hash, parent hash, expiration and payload to the certs table.
-	if err := conn.UpdateCerts(ctx, ids, parentIDs, expirations, payloads); err != nil {
-		return fmt.Errorf("inserting certificates: %w", err)
-	}
-	// around 3 seconds for this ^^ (100K certs)
-
 	// Add new entries from names into the domains table iff they are leaves.
 	estimatedSize := len(ids) * 2 // Number of IDs / 3 ~~ is the number of leaves. 6 names per leaf.
 	newNames := make([]string, 0, estimatedSize)
@@ -630,6 +624,14 @@ func insertCerts(
 	}
 	// around 8 seconds for this ^^ (100K certs)
 
+	// Send hash, parent hash, expiration and payload to the certs table.
+	// This is done last: a certificate present in the certs table is considered as fully inserted,
+	// thus an interrupted batch must still find its certificates missing when it is retried.
+	if err := conn.UpdateCerts(ctx, ids, parentIDs, expirations, payloads); err != nil {
+		return fmt.Errorf("inserting certificates: %w", err)
+	}
+	// around 3 seconds for this ^^ (100K certs)
+
 	return nil
 }
 
@@ -664,15 +666,15 @@ func insertPolicies(ctx context.Context, conn db.Conn, names []string, ids []com
 		t := time.Date(3000, 1, 1, 0, 0, 0, 0, time.UTC) // TODO(juagargi) use real expirations.
 		expirations[i] = t
 	}
-	// Update policies:
-	if err := conn.UpdatePolicies(ctx, ids, parents, expirations, payloads); err != nil {
-		return fmt.Errorf("inserting policies: %w", err)
-	}
-
 	if err := conn.UpdateDomainPolicies(ctx, domainIDs, ids); err != nil {
 		return fmt.Errorf("updating domain_certs: %w", err)
 	}
 
+	// Update policies. Last, as a policy present in the DB is considered as fully inserted:
+	if err := conn.UpdatePolicies(ctx, ids, parents, expirations, payloads); err != nil {
+		return fmt.Errorf("inserting policies: %w", err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 411c3ef1c986437c83f5df2d418f128f3dcfddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 06/39] fix: pass the expirations of the chain certificates in
 UpdateCertsLocally

---
 pkg/mapserver/updater/updater.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index c1b630a..9db6ba5 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -199,7 +199,6 @@ func (u *MapUpdater) UpdateCertsLocally(
 	certChainList [][][]byte,
 ) error {
 
-	expirations := make([]time.Time, 0, len(certList))
 	certs := make([]ctx509.Certificate, 0, len(certList))
 	certChains := make([][]*ctx509.Certificate, 0, len(certList))
 	for i, certRaw := range certList {
@@ -208,7 +207,6 @@ func (u *MapUpdater) UpdateCertsLocally(
 			return err
 		}
 		certs = append(certs, *cert)
-		expirations = append(expirations, cert.NotAfter)
 
 		chain := make([]*ctx509.Certificate, len(certChainList[i]))
 		for i, certChainItemRaw := range certChainList[i] {
@@ -220,6 +218,8 @@ func (u *MapUpdater) UpdateCertsLocally(
 		certChains = append(certChains, chain)
 	}
 	certs, IDs, parentIDs, names := util.UnfoldCerts(certs, certChains)
+	// One expiration per certificate, including those of the chains.
+	expirations := util.ExtractExpirations(certs)
 	return UpdateWithKeepExisting(ctx, u.Conn, names, IDs, parentIDs, certs, expirations, nil)
 }
 
-- 
2.43.0


From 2bf1703ee15adcc501058041fb718cb3f2c2bdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 07/39] fix: save the root of a tree that became empty instead
 of panicking

---
 pkg/db/mysql/smt.go              | 7 +++++++
 pkg/mapserver/updater/updater.go | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/db/mysql/smt.go b/pkg/db/mysql/smt.go
index c6116ca..0ede3cc 100644
--- a/pkg/db/mysql/smt.go
+++ b/pkg/db/mysql/smt.go
@@ -20,7 +20,14 @@ func (c *mysqlDB) LoadRoot(ctx context.Context) (*common.SHA256Output, error) {
 	return (*common.SHA256Output)(key), nil
 }
 
+// SaveRoot replaces the stored root. A nil root (that of an empty tree) removes the stored one.
 func (c *mysqlDB) SaveRoot(ctx context.Context, root *common.SHA256Output) error {
+	if root == nil {
+		if _, err := c.db.ExecContext(ctx, "DELETE FROM root"); err != nil {
+			return fmt.Errorf("error removing root ID: %w", err)
+		}
+		return nil
+	}
 	str := "REPLACE INTO root (key32) VALUES (?)"
 	_, err := c.db.ExecContext(ctx, str, (*root)[:])
 	if err != nil {
diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 9db6ba5..a26585b 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -562,7 +562,11 @@ func UpdateSMT(ctx context.Context, conn db.Conn) error {
 			return err
 		}
 	} else {
-		panic("SMT tree root is nil")
+		// The tree became empty.
+		err = conn.SaveRoot(ctx, nil)
+		if err != nil {
+			return err
+		}
 	}
 	fmt.Printf("smt [%s]: new root saved\n", time.Now().Format(time.Stamp))
 
-- 
2.43.0


From 458714b7aa90c9aac7d132622119263141c96cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 08/39] fix: save the new root before the nodes of the previous
 one are removed

---
 pkg/mapserver/trie/trie.go       |  4 ++++
 pkg/mapserver/trie/trie_cache.go | 14 ++++++++++++--
 pkg/mapserver/trie/trie_tools.go |  6 +++++-
 pkg/mapserver/updater/updater.go | 26 +++++++++-----------------
 4 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index f8e15fe..7df3e7a 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -30,6 +30,10 @@ type Trie struct {
 	db *CacheDB
 	// Root is the current root of the smt.
 	Root []byte
+	// SaveRoot, if set, persists the root of each commit. It is called after the new nodes are
+	// stored and before the stale ones, which belong to the previously saved root, are removed: the
+	// saved root is always complete in the DB, even if the commit is interrupted.
+	SaveRoot func(ctx context.Context, root []byte) error
 	// prevRoot is the root before the last update
 	prevRoot []byte
 	// lock is for the whole struct
diff --git a/pkg/mapserver/trie/trie_cache.go b/pkg/mapserver/trie/trie_cache.go
index 4dbd5b3..7c12e19 100644
--- a/pkg/mapserver/trie/trie_cache.go
+++ b/pkg/mapserver/trie/trie_cache.go
@@ -55,8 +55,12 @@ func NewCacheDB(store DBConn) (*CacheDB, error) {
 	}, nil
 }
 
-// commitChangesToDB stores the updated nodes to disk.
-func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
+// commitChangesToDB stores the updated nodes to disk, and removes the stale ones.
+// If not nil, saveRoot is called when all the new nodes are stored but no stale node is removed yet.
+func (cacheDB *CacheDB) commitChangesToDB(
+	ctx context.Context,
+	saveRoot func(ctx context.Context) error,
+) error {
 	// prepare value to store
 	updatesToDB := []*db.TreeNodeRecord{}
 	keysToDelete := []common.SHA256Output{}
@@ -88,6 +92,12 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 		return fmt.Errorf("commitChangesToDB | UpdateKeyValuePairBatches | %w", err)
 	}
 
+	if saveRoot != nil {
+		if err := saveRoot(ctx); err != nil {
+			return fmt.Errorf("commitChangesToDB | saveRoot | %w", err)
+		}
+	}
+
 	if len(keysToDelete) > 0 {
 		_, err := cacheDB.Store.DeleteTreeNodes(ctx, keysToDelete)
 		if err != nil {
diff --git a/pkg/mapserver/trie/trie_tools.go b/pkg/mapserver/trie/trie_tools.go
index eefa578..49febae 100644
--- a/pkg/mapserver/trie/trie_tools.go
+++ b/pkg/mapserver/trie/trie_tools.go
@@ -109,7 +109,11 @@ func (s *Trie) get(ctx context.Context, root, key []byte, batch [][]byte, iBatch
 }
 
 func (s *Trie) Commit(ctx context.Context) error {
-	err := s.db.commitChangesToDB(ctx)
+	var saveRoot func(ctx context.Context) error
+	if s.SaveRoot != nil {
+		saveRoot = func(ctx context.Context) error { return s.SaveRoot(ctx, s.Root) }
+	}
+	err := s.db.commitChangesToDB(ctx, saveRoot)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index a26585b..22faebb 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -522,7 +522,7 @@ func updateSMTFromDomainEntries(
 
 // UpdateSMT reads all the dirty domains (pending to update their contents in the SMT), creates
 // a SMT Trie, loads it, and updates its entries with the new values.
-// It finally commits the Trie and saves its root in the DB.
+// It commits the Trie and saves its root in the DB.
 func UpdateSMT(ctx context.Context, conn db.Conn) error {
 	// Load root.
 	root, err := loadRoot(ctx, conn)
@@ -537,6 +537,13 @@ func UpdateSMT(ctx context.Context, conn db.Conn) error {
 		return fmt.Errorf("with root \"%s\", creating NewTrie: %w", hex.EncodeToString(root), err)
 	}
 	smtTrie.CacheHeightLimit = 32
+	// Each commit saves the new root value (nil if the tree became empty).
+	smtTrie.SaveRoot = func(ctx context.Context, root []byte) error {
+		if len(root) == 0 {
+			return conn.SaveRoot(ctx, nil)
+		}
+		return conn.SaveRoot(ctx, (*common.SHA256Output)(root))
+	}
 	fmt.Printf("smt [%s]: tree created\n", time.Now().Format(time.Stamp))
 
 	dirtyCount, err := conn.DirtyCount(ctx)
@@ -553,22 +560,7 @@ func UpdateSMT(ctx context.Context, conn db.Conn) error {
 		return err
 	}
 
-	fmt.Printf("\nsmt [%s]: SMT updated\n", time.Now().Format(time.Stamp))
-
-	// Save root value:
-	if smtTrie.Root != nil {
-		err = conn.SaveRoot(ctx, (*common.SHA256Output)(smtTrie.Root))
-		if err != nil {
-			return err
-		}
-	} else {
-		// The tree became empty.
-		err = conn.SaveRoot(ctx, nil)
-		if err != nil {
-			return err
-		}
-	}
-	fmt.Printf("smt [%s]: new root saved\n", time.Now().Format(time.Stamp))
+	fmt.Printf("\nsmt [%s]: SMT updated and new root saved\n", time.Now().Format(time.Stamp))
 
 	return nil
 }
-- 
2.43.0


From 0703767c14beacb12e2a2a3a26be64503af29be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 09/39] fix: answer requests with one root and its signature
 while the root is reloaded

---
 pkg/mapserver/responder/responder.go | 48 ++++++++++++++++++----------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/pkg/mapserver/responder/responder.go b/pkg/mapserver/responder/responder.go
index e37e318..25cadd0 100644
--- a/pkg/mapserver/responder/responder.go
+++ b/pkg/mapserver/responder/responder.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/rsa"
 	"fmt"
+	"sync"
 
 	"github.com/netsec-ethz/fpki/pkg/common"
 	"github.com/netsec-ethz/fpki/pkg/common/crypto"
@@ -15,6 +16,7 @@ import (
 
 type MapResponder struct {
 	conn           db.Conn
+	mu             sync.RWMutex // protects smt and signedTreeHead, which are always replaced together
 	smt            *trie.Trie
 	signedTreeHead []byte
 }
@@ -55,11 +57,18 @@ func (r *MapResponder) ReloadRootAndSignTreeHead(
 		return fmt.Errorf("error loading SMT: %w", err)
 	}
 
-	// Use the new SMT
-	r.smt = smt
-
 	// sign the SMT root
-	return r.signTreeHead(privateKey)
+	signature, err := signTreeHead(smt, privateKey)
+	if err != nil {
+		return err
+	}
+
+	// Use the new SMT and its signature.
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	r.smt = smt
+	r.signedTreeHead = signature
+	return nil
 }
 
 func (r *MapResponder) GetProof(ctx context.Context, domainName string,
@@ -71,11 +80,14 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 		return nil, err
 	}
 
+	// All the proofs are based on the same SMT and signature, even if they are reloaded meanwhile.
+	smt, treeHeadSig := r.currentTree()
+
 	// Prepare proof with the help of the SMT.
 	proofList := make([]*mapCommon.MapServerResponse, len(domainParts))
 	for i, domainPart := range domainParts {
 		domainPartID := common.SHA256Hash32Bytes([]byte(domainPart))
-		proof, isPoP, proofKey, proofValue, err := r.smt.MerkleProof(ctx, domainPartID[:])
+		proof, isPoP, proofKey, proofValue, err := smt.MerkleProof(ctx, domainPartID[:])
 		if err != nil {
 			return nil, fmt.Errorf("error obtaining Merkle proof for %s: %w",
 				domainPart, err)
@@ -114,11 +126,11 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 			PoI: mapCommon.PoI{
 				ProofType:  proofType,
 				Proof:      proof,
-				Root:       r.smt.Root,
+				Root:       smt.Root,
 				ProofKey:   proofKey,
 				ProofValue: proofValue,
 			},
-			TreeHeadSig: r.SignedTreeHead(),
+			TreeHeadSig: append(treeHeadSig[:0:0], treeHeadSig...),
 		}
 	}
 	return proofList, nil
@@ -126,18 +138,22 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 
 // SignedTreeHead returns a copy of the Signed Tree Head (STH).
 func (r *MapResponder) SignedTreeHead() []byte {
-	return append(r.signedTreeHead[:0:0], r.signedTreeHead...)
+	_, sth := r.currentTree()
+	return append(sth[:0:0], sth...)
+}
+
+// currentTree returns the SMT in use and the signature of its root.
+func (r *MapResponder) currentTree() (*trie.Trie, []byte) {
+	r.mu.RLock()
+	defer r.mu.RUnlock()
+	return r.smt, r.signedTreeHead
 }
 
-func (r *MapResponder) signTreeHead(privateKey *rsa.PrivateKey) error {
+func signTreeHead(smt *trie.Trie, privateKey *rsa.PrivateKey) ([]byte, error) {
 	// Sign the tree head.
-	signature, err := crypto.SignBytes(r.smt.Root, privateKey)
+	signature, err := crypto.SignBytes(smt.Root, privateKey)
 	if err != nil {
-		return fmt.Errorf("SignStructRSASHA256 | %w", err)
+		return nil, fmt.Errorf("SignStructRSASHA256 | %w", err)
 	}
-
-	// Keep it for the proofs.
-	r.signedTreeHead = signature
-
-	return nil
+	return signature, nil
 }
-- 
2.43.0


From c8b4a8c8f57aceb8dea2ee8b62527d2c560ef3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 10/39] fix: answer each update request once, after the
 responder reloaded the root

---
 pkg/mapserver/mapserver.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index f35c3d3..4ae9189 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -128,11 +128,13 @@ func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error)
 				// TODO: ensure that the Mapserver is never in an inconsistent state. Currently, if
 				// the new SMT is applied but the responder does not yet use the updated SMT root
 				// value, queries will fail
-				s.pruneAndUpdate(c)
-				err := s.Responder.ReloadRootAndSignTreeHead(c, s.Key)
-				if err != nil {
-					s.updateErrChan <- err
+				err := s.pruneAndUpdate(c)
+				// Always reload the root, as a failed update could also have changed it.
+				if errReload := s.Responder.ReloadRootAndSignTreeHead(c, s.Key); err == nil {
+					err = errReload
 				}
+				// Exactly one answer per request, when the responder already uses the new root.
+				s.updateErrChan <- err
 			case <-ctx.Done():
 				// Requested to exit.
 				close(s.updateChan)
@@ -299,15 +301,14 @@ func (s *MapServer) apiGetPayloads(w http.ResponseWriter, r *http.Request, retur
 	}
 }
 
-func (s *MapServer) pruneAndUpdate(ctx context.Context) {
+func (s *MapServer) pruneAndUpdate(ctx context.Context) error {
 	// Refrain from updating if pruning failed.
 	err := s.prune(ctx)
 	if err != nil {
-		s.updateErrChan <- err
-		return
+		return err
 	}
 
-	s.updateErrChan <- s.update(ctx)
+	return s.update(ctx)
 }
 
 // prune only removes the affected certificates from the certs table and adds the affected domains
-- 
2.43.0


From 9a74d187378e0058d5e06299636d3a7bc9dcff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 11/39] fix: enforce the domain constraint of the issuer
 certificate

The condition was inverted: an issuer certificate with a domain accepted any
domain, and one without a domain accepted only its own (empty) domain.
---
 pkg/common/crypto/crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index 9ec172c..15a11a1 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -245,7 +245,7 @@ func VerifyIssuerConstraints(
 	if !validDomainName.Match([]byte(issuerPolCert.DomainField)) {
 		return fmt.Errorf("Issuer Policy Certificate does not have a valid domain name: %s", issuerPolCert.DomainField)
 	}
-	if issuerPolCert.DomainField != "" {
+	if issuerPolCert.DomainField == "" {
 		// all domain fields are accepted
 	} else if issuerPolCert.DomainField == childPolCert.DomainField {
 		// identical domain fields are accepted
-- 
2.43.0


From ffc38fbcbb68a07acc026dbc6381de5dfee90b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 12/39] fix: reject names with empty labels in
 VerifyIssuerConstraints

The expression was not anchored, thus every name matched it.
---
 pkg/common/crypto/crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index 15a11a1..8994bc8 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -238,7 +238,7 @@ func VerifyIssuerConstraints(
 
 	// check domain constraint
 	// TODO (cyrill): could also check with public suffix list
-	validDomainName := regexp.MustCompile("([^.]+\\.)*([^.]+\\.?)?")
+	validDomainName := regexp.MustCompile("^([^.]+\\.)*([^.]+\\.?)?$")
 	if !validDomainName.Match([]byte(childPolCert.DomainField)) {
 		return fmt.Errorf("Policy Certificate does not have a valid domain name: %s", childPolCert.DomainField)
 	}
-- 
2.43.0


From 20c23856b06603a7c42c4fa8a330cab5bc14485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 13/39] fix: restore the signatures of a certificate that
 cannot be serialized when verifying it

---
 pkg/common/crypto/crypto.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index 8994bc8..e878385 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -136,11 +136,11 @@ func VerifyOwnerSignatureInPolicyCertificate(
 		c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature
 	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature = nil, nil, nil, nil
 	serializedStruct, err := common.ToJSON(c)
+	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature =
+		SPCTs, issuerSignature, issuerHash, ownerSignature // restore previous values
 	if err != nil {
 		return fmt.Errorf("RCSRVerifySignature | ToJSON | %w", err)
 	}
-	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature =
-		SPCTs, issuerSignature, issuerHash, ownerSignature // restore previous values
 
 	// Hash serialized request and check the signature with the owner's public key.
 	hashOutput := sha256.Sum256(serializedStruct)
@@ -288,10 +288,10 @@ func VerifyIssuerSignature(
 	sig := childPolCert.IssuerSignature
 	childPolCert.IssuerSignature = nil
 	serializedStruct, err := common.ToJSON(childPolCert)
+	childPolCert.IssuerSignature = sig // restore previous signature
 	if err != nil {
 		return err
 	}
-	childPolCert.IssuerSignature = sig // restore previous signature
 
 	// Hash serialized request and check the signature with the owner's public key.
 	hashOutput := common.SHA256Hash(serializedStruct)
-- 
2.43.0


From a02152e699c13599975dc630e70fa5992b06def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 14/39] fix: compare the instants of revocation timestamps

With == a deserialized revocation was not Equal to the original when its
timestamp has a monotonic clock reading or another representation of its zone.
---
 pkg/common/policies.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/policies.go b/pkg/common/policies.go
index 4d64f0b..fb6c3f1 100644
--- a/pkg/common/policies.go
+++ b/pkg/common/policies.go
@@ -363,7 +363,7 @@ func NewPolicyCertificateRevocationFields(
 
 func (c PolicyCertificateRevocationFields) Equal(x PolicyCertificateRevocationFields) bool {
 	return c.PolicyCertificateBase.Equal(x.PolicyCertificateBase) &&
-		c.TimeStamp == x.TimeStamp &&
+		c.TimeStamp.Equal(x.TimeStamp) &&
 		bytes.Equal(c.OwnerSignature, x.OwnerSignature) &&
 		bytes.Equal(c.OwnerHash, x.OwnerHash)
 }
-- 
2.43.0


From 58a24d33009f05a2a34812e4f867cf02582ba337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 15/39] fix: find the owner certificates that the PCA issued

The PCA stores the certificates by the hash of their public key, but looked
up the owner of a request by its owner hash: the certificates issued by the
PCA were never found, and requests with a bad signature of such an owner
were granted.
---
 pkg/pca/pca.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pkg/pca/pca.go b/pkg/pca/pca.go
index 0648e10..e3d4b11 100644
--- a/pkg/pca/pca.go
+++ b/pkg/pca/pca.go
@@ -198,21 +198,37 @@ func (pca *PCA) canSkipCoolOffPeriod(req *common.PolicyCertificateSigningRequest
 		return false, fmt.Errorf("field OwnerHash should be 32 bytes long but is %d",
 			len(req.OwnerHash))
 	}
-	// Cast it to array and check the DB.
-	key := (*[32]byte)(req.OwnerHash)
-	stored, ok := pca.DB[*key]
-	if !ok {
+	stored, err := pca.findOwner(req.OwnerHash)
+	if err != nil {
+		return false, err
+	}
+	if stored == nil {
 		// No such certificate, cannot skip cool off period.
 		return false, nil
 	}
 
 	// Verify the signature matches.
-	err := crypto.VerifyOwnerSignature(stored, req)
+	err = crypto.VerifyOwnerSignature(stored, req)
 
 	// Return true if no error, or false and the error.
 	return err == nil, err
 }
 
+// findOwner returns the policy certificate of this PCA that is identified by the owner hash, or nil
+// if there is none. The DB is indexed by the hash of the public key, and not by the owner hash.
+func (pca *PCA) findOwner(ownerHash []byte) (*common.PolicyCertificate, error) {
+	for _, stored := range pca.DB {
+		h, err := crypto.ComputeHashAsSigner(stored)
+		if err != nil {
+			return nil, err
+		}
+		if bytes.Equal(h, ownerHash) {
+			return stored, nil
+		}
+	}
+	return nil, nil
+}
+
 func (pca *PCA) signRequest(
 	req *common.PolicyCertificateSigningRequest,
 ) (*common.PolicyCertificate, error) {
-- 
2.43.0


From b23ffddda65832f5b874fce3ae5e6dd48c3e2b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 16/39] fix: verify the remaining inclusion proofs after a
 malformed one

---
 pkg/logverifier/verifier.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/logverifier/verifier.go b/pkg/logverifier/verifier.go
index 15377c7..e76a37c 100644
--- a/pkg/logverifier/verifier.go
+++ b/pkg/logverifier/verifier.go
@@ -88,6 +88,7 @@ func (c *LogVerifier) VerifyInclusionByHash(trustedRoot *types.LogRootV1, leafHa
 	// Proofs might contain multiple proofs for different leaves, while the content of each leaf
 	// is identical. Trillian will return all the proofs for one content.
 	// So one successful verification is enough.
+	var unexpected error
 	for _, proof := range proofs {
 		err := logProof.VerifyInclusion(c.hasher, uint64(proof.LeafIndex), trustedRoot.TreeSize,
 			leafHash, proof.Hashes, trustedRoot.RootHash)
@@ -96,7 +97,8 @@ func (c *LogVerifier) VerifyInclusionByHash(trustedRoot *types.LogRootV1, leafHa
 			return nil
 		}
 		if _, ok := err.(logProof.RootMismatchError); !ok {
-			return fmt.Errorf("VerifyInclusionByHash | Unexpected error: %w", err)
+			// The proof is malformed, but one of the others may still be valid.
+			unexpected = err
 		}
 
 		// deleteme, err := logProof.RootFromInclusionProof(c.hasher, uint64(proof.LeafIndex), trustedRoot.TreeSize,
@@ -106,6 +108,9 @@ func (c *LogVerifier) VerifyInclusionByHash(trustedRoot *types.LogRootV1, leafHa
 		// }
 		// fmt.Printf("deleteme calcRoot = %s\n", base64.StdEncoding.EncodeToString(deleteme))
 	}
+	if unexpected != nil {
+		return fmt.Errorf("VerifyInclusionByHash | Unexpected error: %w", unexpected)
+	}
 	// This is a logProof.RootMismatchError, aka different hash values.
 	return fmt.Errorf("verification failed: different hashes")
 }
-- 
2.43.0


From 1029a22abdd3f606326181ec7557ca2d4c8b8595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 17/39] fix: the number of entries sent by a log server is not
 trusted

---
 pkg/mapserver/logfetcher/httplogfetcher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/mapserver/logfetcher/httplogfetcher.go b/pkg/mapserver/logfetcher/httplogfetcher.go
index a94cb30..310f4f4 100644
--- a/pkg/mapserver/logfetcher/httplogfetcher.go
+++ b/pkg/mapserver/logfetcher/httplogfetcher.go
@@ -324,6 +324,11 @@ func (f *HttpLogFetcher) getRawEntries(
 		if err != nil {
 			return offset, err
 		}
+		// Do not trust the server to send at least one entry, and not more than requested.
+		if n := int64(len(rsp.Entries)); n == 0 || n > end-start+1-offset {
+			return offset, fmt.Errorf("server sent %d entries for the range [%d,%d]",
+				n, start+offset, end)
+		}
 		for i := int64(0); i < int64(len(rsp.Entries)); i++ {
 			e := rsp.Entries[i]
 			leafEntries[offset+i] = e
-- 
2.43.0


From f1013dc9d1ac15754ff34edbe34475843eb7e727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 18/39] fix: a log fetcher that is started again is not
 disturbed by its previous run

---
 pkg/mapserver/logfetcher/httplogfetcher.go | 66 ++++++++++++++++------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/pkg/mapserver/logfetcher/httplogfetcher.go b/pkg/mapserver/logfetcher/httplogfetcher.go
index 310f4f4..825ec92 100644
--- a/pkg/mapserver/logfetcher/httplogfetcher.go
+++ b/pkg/mapserver/logfetcher/httplogfetcher.go
@@ -42,6 +42,9 @@ type HttpLogFetcher struct {
 	chanResults      chan *result
 	stopping         bool // Set to request the LogFetcher to stop fetching.
 
+	// done is closed to end the current run of fetch, if there is any.
+	done chan struct{}
+
 	// The chanResults channel is used to obtain results from this fetcher. Each call to NextBatch
 	// pulls one full result from the channel into the currentResult variable. And each call
 	// to ReturnNextBatch returns it.
@@ -105,15 +108,45 @@ func (f *HttpLogFetcher) GetCurrentState(ctx context.Context, lastState State) (
 // StartFetching will start fetching certificates in the background, so that there is
 // at most two batches ready to be immediately read by NextBatch.
 func (f *HttpLogFetcher) StartFetching(start, end int64) {
+	// End the previous run, it might not have finished if its results were not all retrieved.
+	f.StopFetching()
+
 	f.chanResults = make(chan *result, preloadCount)
+	f.done = make(chan struct{})
 	f.stopping = false
 	f.start = start
 	f.end = end
-	go f.fetch()
+	// Each run has its own copy of the state: it must not interfere with later runs.
+	run := *f
+	go run.fetch()
 }
 
 func (f *HttpLogFetcher) StopFetching() {
 	f.stopping = true
+	if f.done != nil {
+		close(f.done)
+		f.done = nil
+	}
+}
+
+// isStopping returns true if the fetcher, or the run of fetch this is called from, has to stop.
+func (f *HttpLogFetcher) isStopping() bool {
+	select {
+	case <-f.done:
+		return true
+	default:
+		return f.stopping
+	}
+}
+
+// sendResult sends the result to the channel, or returns false if the run has to end.
+func (f *HttpLogFetcher) sendResult(r *result) bool {
+	select {
+	case f.chanResults <- r:
+		return true
+	case <-f.done:
+		return false
+	}
 }
 
 // NextBatch returns true if there is a next batch to be retrieved, or error, I.e. if the call to
@@ -198,13 +231,12 @@ func (f *HttpLogFetcher) fetch() {
 		end := min(f.end, start+f.processBatchSize-1)
 		n, err := f.getRawEntriesInBatches(leafEntries, start, end)
 		if err != nil {
-			f.chanResults <- &result{
+			f.sendResult(&result{
 				err: err,
-			}
+			})
 			return // Don't continue processing when errors.
 		}
-		if f.stopping {
-			f.stopping = false // We are handling the stop now.
+		if f.isStopping() {
 			return
 		}
 		certEntries := make([]ctx509.Certificate, n)
@@ -214,9 +246,9 @@ func (f *HttpLogFetcher) fetch() {
 			index := start + int64(i)
 			raw, err := ct.RawLogEntryFromLeaf(index, &leaf)
 			if err != nil {
-				f.chanResults <- &result{
+				f.sendResult(&result{
 					err: err,
-				}
+				})
 				return
 			}
 			// Certificate.
@@ -224,9 +256,9 @@ func (f *HttpLogFetcher) fetch() {
 			// Accept the same certificates as CT logs, i.e., don't be too restrictive in terms of
 			// which certificates to reject (i.e., allow for non-fatal parsing/validation errors)
 			if ctx509.IsFatal(err) {
-				f.chanResults <- &result{
+				f.sendResult(&result{
 					err: err,
-				}
+				})
 				return
 			}
 			certEntries[i] = *cert
@@ -235,17 +267,19 @@ func (f *HttpLogFetcher) fetch() {
 			for j, c := range raw.Chain {
 				chainEntries[i][j], err = ctx509.ParseCertificate(c.Data)
 				if err != nil {
-					f.chanResults <- &result{
+					f.sendResult(&result{
 						err: err,
-					}
+					})
 					return
 				}
 			}
 		}
 		// Send the result.
-		f.chanResults <- &result{
+		if !f.sendResult(&result{
 			certs:  certEntries,
 			chains: chainEntries,
+		}) {
+			return
 		}
 	}
 }
@@ -264,7 +298,7 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 	// TODO(juagargi) should we align the calls to serverBatchSize
 	batchCount := (end - start + 1) / f.serverBatchSize
 
-	if f.stopping {
+	if f.isStopping() {
 		return 0, nil
 	}
 	// Do batches.
@@ -277,7 +311,7 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 		if err != nil {
 			return i * f.serverBatchSize, err
 		}
-		if f.stopping {
+		if f.isStopping() {
 			return i*f.serverBatchSize + n, nil
 		}
 		assert(n == f.serverBatchSize, "bad size in getRawEntriesInBatches")
@@ -293,7 +327,7 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 		if err != nil {
 			return batchCount * f.serverBatchSize, err
 		}
-		if f.stopping {
+		if f.isStopping() {
 			return remStart + n, nil
 		}
 		assert(n == remEnd-remStart+1, "bad remainder size in getRawEntriesInBatches")
@@ -316,7 +350,7 @@ func (f *HttpLogFetcher) getRawEntries(
 	_ = leafEntries[end-start] // Fail early if the slice is too small.
 
 	for offset := int64(0); offset < end-start+1; {
-		if f.stopping {
+		if f.isStopping() {
 			// Requested to stop
 			return 0, nil
 		}
-- 
2.43.0


From e91dc8e5df39d9864a32b2c20128d28e41b41649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 19/39] fix: a local log fetcher that is initialized again is
 not disturbed by its previous run

---
 pkg/mapserver/logfetcher/locallogfetcher.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/mapserver/logfetcher/locallogfetcher.go b/pkg/mapserver/logfetcher/locallogfetcher.go
index f2f6d25..557afc6 100644
--- a/pkg/mapserver/logfetcher/locallogfetcher.go
+++ b/pkg/mapserver/logfetcher/locallogfetcher.go
@@ -127,7 +127,9 @@ func (f *LocalLogFetcher) Initialize(updateStartTime time.Time) error {
 		f.achievableStateMap[start] = getGzFileChain(f.achievableStateMap, start)
 	}
 
-	f.processIncomingFiles()
+	// The routines of this run must not interfere with the ones of a later run.
+	run := *f
+	run.processIncomingFiles()
 	return nil
 }
 
@@ -184,16 +186,17 @@ func (f *LocalLogFetcher) StartFetching(start, end int64) {
 	}
 
 	// process the requested files in a separate go routine
+	run := *f
 	go func() {
 		for _, entry := range requestedFiles {
 			fmt.Printf("Processing Certificate File %s\n", entry)
 			if entry.isGzipped {
-				f.addGzFiles([]string{entry.path})
+				run.addGzFiles([]string{entry.path})
 			} else {
-				f.addCsvFiles([]string{entry.path})
+				run.addCsvFiles([]string{entry.path})
 			}
 		}
-		close(f.incomingFileCh)
+		close(run.incomingFileCh)
 	}()
 }
 
-- 
2.43.0


From 3adb6648e50fa183437fdbabdea5b0aa50ae8c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:09 +0000
Subject: [PATCH 20/39] fix: keep the error of a next stage when sending
 outputs

---
 pkg/pipeline/stage.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index 1cdb6f6..bd90a37 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -542,7 +542,7 @@ func (s *Stage[IN, OUT]) sendOutputsSequential(
 			DebugPrintf("[%s] ERROR while sending at channel %d the value %v, error: %v\n",
 				s.Name, outChIndex, out, err)
 			// We received an error from next stage while trying to write to it.
-			*foundError = err
+			*foundError = util.ErrorsCoalesce(*foundError, err)
 			*shouldBreakReadingIncoming = true
 			failedIndices = append(failedIndices, i)
 		case <-s.StopCh:
@@ -595,8 +595,9 @@ func (s *Stage[IN, OUT]) sendOutputsConcurrent(
 				DebugPrintf("[%s] ERROR while sending at channel %d the value %v: %v\n",
 					s.Name, outChIndex, out, err)
 				// We received an error from next stage while trying to write to it.
+				// (the error channel could already be closed: keep an error read by another output)
 				muShouldBreakReadingIncoming.Lock()
-				*foundError = err
+				*foundError = util.ErrorsCoalesce(*foundError, err)
 				*shouldBreakReadingIncoming = true
 				failedIndices = append(failedIndices, i)
 				muShouldBreakReadingIncoming.Unlock()
-- 
2.43.0


From 92441ee11279b7ab405eec60d3ba214b152223a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 21/39] fix: wait for all next stages and report errors while
 waiting

---
 pkg/pipeline/source.go |  6 ++++++
 pkg/pipeline/stage.go  | 47 ++++++++++++++++++++++++++++++------------
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/pkg/pipeline/source.go b/pkg/pipeline/source.go
index 5db963a..f28997e 100644
--- a/pkg/pipeline/source.go
+++ b/pkg/pipeline/source.go
@@ -2,6 +2,8 @@ package pipeline
 
 import (
 	"context"
+
+	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
 type SourceLike interface {
@@ -176,6 +178,10 @@ func (s *Source[OUT]) Prepare(ctx context.Context) {
 				// Close incoming.
 				DebugPrintf("[%s] source closing incoming %s\n", s.Name, chanPtr(s.IncomingChs[0]))
 				close(s.IncomingChs[0])
+				// The error can be sent before the stages have finished: wait for all of them.
+				for next := range errCh {
+					err = util.ErrorsCoalesce(err, next)
+				}
 				if err != nil {
 					s.TopErrCh <- err // might block, but this goroutine is done anyways.
 				}
diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index bd90a37..11d3771 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -360,20 +360,41 @@ func (s *Stage[IN, OUT]) breakPipelineAndWait(initialErr error) error {
 		s.closeOutChannel(i)
 	}
 
-	// Read its status:
+	// Notify any error backwards, and wait for all the next stages to finish. They are finished
+	// when the channel with their errors is closed.
+	// The error is sent already while waiting: the next stages with more than one previous stage
+	// only finish when all of these have stopped, which they might do only because of this error.
 	DebugPrintf("[%s] waiting for next stage's error\n", s.Name)
-	err := <-s.NextStagesAggregatedErrCh
-	DebugPrintf("[%s] read next stage's error: %v\n", s.Name, err)
-
-	// Coalesce with any error at this stage.
-	initialErr = util.ErrorsCoalesce(initialErr, err)
-
-	// Propagate error backwards.
-	DebugPrintf("[%s] closing error channel %s, previous stage will be notified\n",
-		s.Name, chanPtr(s.ErrCh))
-	if initialErr != nil {
-		// Propagate error backwards.
-		s.ErrCh <- initialErr
+	unreported := initialErr
+	nextErrCh := s.NextStagesAggregatedErrCh
+	draining := false
+	for nextErrCh != nil || unreported != nil {
+		var errCh chan error
+		if unreported != nil {
+			errCh = s.ErrCh
+			if !draining {
+				// This stage fails. The previous stages could still be sending to it.
+				draining = true
+				go func(incoming chan IN) {
+					for range incoming {
+					}
+				}(s.AggregatedIncomeCh)
+			}
+		}
+		select {
+		case err, ok := <-nextErrCh:
+			DebugPrintf("[%s] read next stage's error: %v\n", s.Name, err)
+			if !ok {
+				nextErrCh = nil
+				break
+			}
+			// Coalesce with any error at this stage.
+			initialErr = util.ErrorsCoalesce(initialErr, err)
+			unreported = util.ErrorsCoalesce(unreported, err)
+		case errCh <- unreported:
+			// Propagated backwards.
+			unreported = nil
+		}
 	}
 
 	// Close our own error channel.
-- 
2.43.0


From 68916766156e4c0a3a7fdd3607cdb93dea79d3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 22/39] fix: report errors of streaming functions

---
 pkg/pipeline/stage.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index 11d3771..20602cd 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -525,6 +525,13 @@ readIncoming:
 					break
 				}
 				err = s.streamFunc(&outs, &outChIndxs)
+				switch err {
+				case nil, StreamOutput, NoMoreData: // do nothing.
+				default:
+					// Streaming failed, break immediately.
+					foundError = err
+					break readIncoming
+				}
 			}
 		} // end of select
 	} // end of for-loop readIncoming
-- 
2.43.0


From 69924ff91b7394c4d10b554943f58b1b46209e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 23/39] fix: do not mark ancestors as seen that are not passed
 on

---
 cmd/ingest/toChainPtrWorker.go | 6 +++++-
 cmd/ingest/toChainWorker.go    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/ingest/toChainPtrWorker.go b/cmd/ingest/toChainPtrWorker.go
index 3b77e84..ee44f0e 100644
--- a/cmd/ingest/toChainPtrWorker.go
+++ b/cmd/ingest/toChainPtrWorker.go
@@ -89,6 +89,7 @@ func (w *lineToChainPtrWorker) parseLine(p *Processor, line *line) (*certChain,
 	chainFields := splitSemicolonField(line.chainField)
 	chain := make([]*ctx509.Certificate, len(chainFields))
 	chainIDs := make([]*common.SHA256Output, len(chainFields))
+	known := false
 	for i, s := range chainFields {
 		rawBytes, err = decodeBase64Field(s)
 		if err != nil {
@@ -100,7 +101,10 @@ func (w *lineToChainPtrWorker) parseLine(p *Processor, line *line) (*certChain,
 		p.Manager.Stats.ReadCerts.Add(1)
 		// Check if the parent certificate is in the cache.
 		id := common.SHA256Hash32Bytes(rawBytes)
-		if !w.cache.Contains(&id) {
+		// The certificates above one in the cache are not passed on by UnfoldCert, thus they must
+		// not be added to the cache because of this chain.
+		known = known || w.cache.Contains(&id)
+		if !known {
 			// Keep only the parent payloads that have not already been observed by this worker.
 			chain[i], err = ctx509.ParseCertificate(rawBytes)
 			if err != nil {
diff --git a/cmd/ingest/toChainWorker.go b/cmd/ingest/toChainWorker.go
index 8d3b2ae..12339cd 100644
--- a/cmd/ingest/toChainWorker.go
+++ b/cmd/ingest/toChainWorker.go
@@ -117,6 +117,7 @@ func (w *lineToChainWorker) parseLine(p *Processor, line *line) (*certChain, err
 	chainFields := splitSemicolonField(line.chainField)
 	chain := make([]*ctx509.Certificate, len(chainFields))
 	chainIDs := make([]*common.SHA256Output, len(chainFields))
+	known := false
 	for i, s := range chainFields {
 		rawBytes, err = decodeBase64Field(s)
 		if err != nil {
@@ -128,7 +129,10 @@ func (w *lineToChainWorker) parseLine(p *Processor, line *line) (*certChain, err
 		p.Manager.Stats.ReadCerts.Add(1)
 		// Check if the parent certificate is in the cache.
 		id := common.SHA256Hash32Bytes(rawBytes)
-		if !w.cache.Contains(&id) {
+		// The certificates above one in the cache are not passed on by UnfoldCert, thus they must
+		// not be added to the cache because of this chain.
+		known = known || w.cache.Contains(&id)
+		if !known {
 			// Only parse and keep parent payloads that still need to be unfolded into DB rows.
 			chain[i], err = ctx509.ParseCertificate(rawBytes)
 			if err != nil {
-- 
2.43.0


From 4cbe0fe7da563d073c69665318b233aa3da65110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 24/39] fix: ingest certificates with their names if they were
 seen in a chain

---
 cmd/ingest/toChainPtrWorker.go | 5 +----
 cmd/ingest/toChainWorker.go    | 8 +++-----
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/cmd/ingest/toChainPtrWorker.go b/cmd/ingest/toChainPtrWorker.go
index ee44f0e..e8fd420 100644
--- a/cmd/ingest/toChainPtrWorker.go
+++ b/cmd/ingest/toChainPtrWorker.go
@@ -70,10 +70,7 @@ func (w *lineToChainPtrWorker) parseLine(p *Processor, line *line) (*certChain,
 
 	// Get the leaf certificate ID.
 	certID := common.SHA256Hash32Bytes(rawBytes)
-	if w.cache.Contains(&certID) {
-		// The leaf was already seen by this worker, so skip duplicate work and output.
-		return nil, nil
-	}
+	// Even if this certificate was seen as part of a chain, it was passed on without its names.
 	cert, err := ctx509.ParseCertificate(rawBytes)
 	if err != nil {
 		return nil, err
diff --git a/cmd/ingest/toChainWorker.go b/cmd/ingest/toChainWorker.go
index 12339cd..d040b1e 100644
--- a/cmd/ingest/toChainWorker.go
+++ b/cmd/ingest/toChainWorker.go
@@ -94,12 +94,10 @@ func (w *lineToChainWorker) parseLine(p *Processor, line *line) (*certChain, err
 
 	// Get the leaf certificate ID.
 	certID := common.SHA256Hash32Bytes(rawBytes)
-	if w.cache.Contains(&certID) {
-		// The leaf was already seen by this worker, so avoid reparsing and reinserting it.
-		return nil, nil
+	if !w.cache.Contains(&certID) {
+		p.Manager.Stats.UncachedCerts.Add(1)
 	}
-
-	p.Manager.Stats.UncachedCerts.Add(1)
+	// Even if this certificate was seen as part of a chain, it was passed on without its names.
 
 	cert, err := ctx509.ParseCertificate(rawBytes)
 	if err != nil {
-- 
2.43.0


From ffbfc42420964acd7e54d4a17dd2575beaecf34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 25/39] fix: list the files of all bundled directories

---
 cmd/ingest/journal/list_files.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/ingest/journal/list_files.go b/cmd/ingest/journal/list_files.go
index a87da22..3566906 100644
--- a/cmd/ingest/journal/list_files.go
+++ b/cmd/ingest/journal/list_files.go
@@ -22,14 +22,17 @@ func ListCsvFiles(dir string) (gzFiles, csvFiles []string, err error) {
 		if e.Name() == "bundled" {
 			// Use all *.gz in this directory.
 			d := filepath.Join(dir, e.Name())
-			gzFiles, err = filepath.Glob(fmt.Sprintf("%s/*.gz", d))
+			gzs, err := filepath.Glob(fmt.Sprintf("%s/*.gz", d))
 			if err != nil {
 				return nil, nil, err
 			}
-			csvFiles, err = filepath.Glob(fmt.Sprintf("%s/*.csv", dir))
+			csvs, err := filepath.Glob(fmt.Sprintf("%s/*.csv", dir))
 			if err != nil {
 				return nil, nil, err
 			}
+			// Keep the files of the other subdirectories.
+			gzFiles = append(gzFiles, gzs...)
+			csvFiles = append(csvFiles, csvs...)
 		} else {
 			gzs, csvs, err := ListCsvFiles(filepath.Join(dir, e.Name()))
 			if err != nil {
-- 
2.43.0


From 2201b561d86ec7867e47766bc3dc798888f04448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 26/39] fix: do not record a CT log size if its first entries
 are missing

---
 cmd/ingest/run.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/ingest/run.go b/cmd/ingest/run.go
index 830d8fa..51764c3 100644
--- a/cmd/ingest/run.go
+++ b/cmd/ingest/run.go
@@ -298,6 +298,10 @@ func completedCTLogSize(j *journal.Journal, ingestDir string) (int64, error) {
 	if len(intervals) == 0 {
 		return 0, fmt.Errorf("no completed indices recorded for ingest directory %q", ingestDirBase)
 	}
+	if intervals[0].Start != 0 {
+		return 0, fmt.Errorf("the first completed interval %s of ingest directory %q does not start at 0",
+			intervals[0], ingestDirBase)
+	}
 	// Set the size of the ingested set from this CT log server to be END+1 of the interval [0,END].
 	return int64(intervals[0].End) + 1, nil
 }
-- 
2.43.0


From 312ca63a3335795953144c62928b5073cc92a32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:11 +0000
Subject: [PATCH 27/39] fix: number of database writers that is not a power of
 two

---
 pkg/mapserver/updater/manager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/mapserver/updater/manager.go b/pkg/mapserver/updater/manager.go
index 104f85e..ba32588 100644
--- a/pkg/mapserver/updater/manager.go
+++ b/pkg/mapserver/updater/manager.go
@@ -46,7 +46,8 @@ func NewManager(
 	nBits := int(util.Log2(uint(workerCount)))
 
 	selectPartition := func(id *common.SHA256Output) uint {
-		return mysql.PartitionByIdMSB(id, nBits)
+		// There are more partitions than workers if their number is not a power of two.
+		return mysql.PartitionByIdMSB(id, nBits) % uint(workerCount)
 	}
 
 	// Create the Manager structure.
-- 
2.43.0


From 0ea3b9682988cb8cfe878c0f4edf06384fefa448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:11 +0000
Subject: [PATCH 28/39] fix: domain names with special characters in CSV files

---
 pkg/mapserver/updater/csv.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/mapserver/updater/csv.go b/pkg/mapserver/updater/csv.go
index dcb5f0b..80bd0b0 100644
--- a/pkg/mapserver/updater/csv.go
+++ b/pkg/mapserver/updater/csv.go
@@ -3,6 +3,7 @@ package updater
 import (
 	"encoding/base64"
 	"fmt"
+	"strings"
 	"time"
 
 	"github.com/netsec-ethz/fpki/pkg/common"
@@ -218,7 +219,7 @@ func recordsForDirty(dst [][]byte, d DirtyDomain) {
 func recordsForDomains(dst [][]byte, d DirtyDomain) {
 	// 2 columns: ID, name.
 	idToBase64WithStorage(&dst[0], d.DomainID)
-	stringToStorage(&dst[1], d.Name)
+	nameToStorage(&dst[1], d.Name)
 }
 
 func recordsForDomainCerts(dst [][]byte, d DirtyDomain) {
@@ -248,6 +249,24 @@ func timeToStringWithStorage(storage *[]byte, t time.Time) {
 	*storage = t.AppendFormat(*storage, time.DateTime)
 }
 
+// nameToStorage writes the name as one field of a CSV row that LOAD DATA reads as this name again.
+// The names come from certificates: they can have any character.
+func nameToStorage(storage *[]byte, s string) {
+	if !strings.ContainsAny(s, ",\"\\\n") && s != "NULL" {
+		stringToStorage(storage, s)
+		return
+	}
+	*storage = append((*storage)[:0], '"')
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '"', '\\':
+			*storage = append(*storage, s[i]) // doubled.
+		}
+		*storage = append(*storage, s[i])
+	}
+	*storage = append(*storage, '"')
+}
+
 func stringToStorage(storage *[]byte, s string) {
 	*storage = (*storage)[:0]
 	*storage = append(*storage, []byte(s)...)
-- 
2.43.0


From e6b5341816cede5585253d3a431a749b2891cf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:11 +0000
Subject: [PATCH 29/39] fix: expiration of certificates whose times are not in
 UTC

---
 pkg/mapserver/updater/csv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mapserver/updater/csv.go b/pkg/mapserver/updater/csv.go
index 80bd0b0..051c53d 100644
--- a/pkg/mapserver/updater/csv.go
+++ b/pkg/mapserver/updater/csv.go
@@ -246,7 +246,7 @@ func bytesToBase64WithStorage(storage *[]byte, b []byte) {
 
 func timeToStringWithStorage(storage *[]byte, t time.Time) {
 	*storage = (*storage)[:0]
-	*storage = t.AppendFormat(*storage, time.DateTime)
+	*storage = t.UTC().AppendFormat(*storage, time.DateTime)
 }
 
 // nameToStorage writes the name as one field of a CSV row that LOAD DATA reads as this name again.
-- 
2.43.0


From 59b3af3a16775c4336809c933b4e350046d1457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 30/39] fix: presence of certificates and policies in requests
 of any size

---
 pkg/db/mysql/certs.go    | 15 ++++-----------
 pkg/db/mysql/policies.go | 22 ++++++++++++++++++----
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index d98e3a1..43fed82 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -27,20 +27,13 @@ func (c *mysqlDB) CheckCertsExist(ctx context.Context, ids []common.SHA256Output
 	presence := make([]bool, len(ids))
 
 	// The query won't accept more than batchSize elements. Make batches.
-	for i := 0; i < len(ids)-batchSize; i += batchSize {
-		to := i + batchSize
-		if err := c.checkCertsExist(ctx, ids[i:to], presence[i:to]); err != nil {
+	for from := 0; from < len(ids); from += batchSize {
+		to := min(from+batchSize, len(ids))
+		if err := c.checkCertsExist(ctx, ids[from:to], presence[from:to]); err != nil {
 			return nil, err
 		}
 	}
-	// Do the last batch, if non empty.
-	from := len(ids) / batchSize * batchSize
-	to := from + len(ids)%batchSize
-	var err error
-	if to > from {
-		err = c.checkCertsExist(ctx, ids[from:to], presence[from:to])
-	}
-	return presence, err
+	return presence, nil
 }
 
 func (c *mysqlDB) UpdateCerts(
diff --git a/pkg/db/mysql/policies.go b/pkg/db/mysql/policies.go
index eac8fa0..7457189 100644
--- a/pkg/db/mysql/policies.go
+++ b/pkg/db/mysql/policies.go
@@ -19,6 +19,22 @@ func (c *mysqlDB) CheckPoliciesExist(ctx context.Context, ids []common.SHA256Out
 		// If empty, return empty.
 		return nil, nil
 	}
+	present := make([]bool, len(ids))
+
+	// As with the certificates, the query won't accept more than batchSize elements.
+	for from := 0; from < len(ids); from += batchSize {
+		to := min(from+batchSize, len(ids))
+		if err := c.checkPoliciesExist(ctx, ids[from:to], present[from:to]); err != nil {
+			return nil, err
+		}
+	}
+	return present, nil
+}
+
+// checkPoliciesExist should not be called with more than batchSize elements.
+func (c *mysqlDB) checkPoliciesExist(ctx context.Context, ids []common.SHA256Output,
+	present []bool) error {
+
 	// Slice to be used in the SQL query:
 	data := make([]interface{}, len(ids))
 	for i, id := range ids {
@@ -48,11 +64,9 @@ func (c *mysqlDB) CheckPoliciesExist(ctx context.Context, ids []common.SHA256Out
 		"policies.policy_id = request.policy_id) AS t"
 
 	// Return slice of booleans:
-	present := make([]bool, len(ids))
-
 	var value string
 	if err := c.db.QueryRowContext(ctx, str, data...).Scan(&value); err != nil {
-		return nil, err
+		return err
 	}
 	for i, c := range value {
 		if c == '1' {
@@ -60,7 +74,7 @@ func (c *mysqlDB) CheckPoliciesExist(ctx context.Context, ids []common.SHA256Out
 		}
 	}
 
-	return present, nil
+	return nil
 }
 
 func (c *mysqlDB) UpdatePolicies(
-- 
2.43.0


From e117178e909fa9a9dc2c503621794409c1d260d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 31/39] fix: report errors while the rows of a query are read

---
 pkg/db/mysql/certs.go    | 4 ++++
 pkg/db/mysql/common.go   | 4 ++++
 pkg/db/mysql/dirty.go    | 4 ++++
 pkg/db/mysql/policies.go | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index 43fed82..9bf1c48 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -256,6 +256,7 @@ func (c *mysqlDB) RetrieveCertificatePayloads(
 	if err != nil {
 		return nil, err
 	}
+	defer rows.Close()
 
 	m := make(map[common.SHA256Output][]byte, len(IDs))
 	for rows.Next() {
@@ -266,6 +267,9 @@ func (c *mysqlDB) RetrieveCertificatePayloads(
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
diff --git a/pkg/db/mysql/common.go b/pkg/db/mysql/common.go
index 9a076f5..68a7ea8 100644
--- a/pkg/db/mysql/common.go
+++ b/pkg/db/mysql/common.go
@@ -26,6 +26,7 @@ func (c *mysqlDB) RetrieveCertificateOrPolicyPayloads(
 	if err != nil {
 		return nil, err
 	}
+	defer rows.Close()
 
 	m := make(map[common.SHA256Output][]byte, len(IDs))
 	for rows.Next() {
@@ -36,6 +37,9 @@ func (c *mysqlDB) RetrieveCertificateOrPolicyPayloads(
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
diff --git a/pkg/db/mysql/dirty.go b/pkg/db/mysql/dirty.go
index 6dfb59b..b40f4e9 100644
--- a/pkg/db/mysql/dirty.go
+++ b/pkg/db/mysql/dirty.go
@@ -98,6 +98,7 @@ func (c *mysqlDB) RetrieveDirtyDomains(ctx context.Context) ([]common.SHA256Outp
 	if err != nil {
 		return nil, fmt.Errorf("error querying dirty domains: %w", err)
 	}
+	defer rows.Close()
 	domainIDs := make([]common.SHA256Output, 0)
 	for rows.Next() {
 		var domainId []byte
@@ -107,6 +108,9 @@ func (c *mysqlDB) RetrieveDirtyDomains(ctx context.Context) ([]common.SHA256Outp
 		}
 		domainIDs = append(domainIDs, common.SHA256Output(domainId))
 	}
+	if err := rows.Err(); err != nil {
+		return nil, fmt.Errorf("error iterating dirty domains: %w", err)
+	}
 	return domainIDs, nil
 }
 
diff --git a/pkg/db/mysql/policies.go b/pkg/db/mysql/policies.go
index 7457189..3ceacd5 100644
--- a/pkg/db/mysql/policies.go
+++ b/pkg/db/mysql/policies.go
@@ -166,6 +166,7 @@ func (c *mysqlDB) RetrievePolicyPayloads(ctx context.Context, IDs []common.SHA25
 	if err != nil {
 		return nil, err
 	}
+	defer rows.Close()
 
 	m := make(map[common.SHA256Output][]byte, len(IDs))
 	for rows.Next() {
@@ -176,6 +177,9 @@ func (c *mysqlDB) RetrievePolicyPayloads(ctx context.Context, IDs []common.SHA25
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
-- 
2.43.0


From de6ccb39f1482ddbaf70f5413f298553de3e4a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 32/39] fix: queries for no identifiers are not valid SQL

---
 pkg/db/mysql/certs.go    | 3 +++
 pkg/db/mysql/common.go   | 3 +++
 pkg/db/mysql/policies.go | 3 +++
 pkg/db/mysql/smt.go      | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index 9bf1c48..d4f1dc5 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -246,6 +246,9 @@ func (c *mysqlDB) RetrieveCertificatePayloads(
 	IDs []common.SHA256Output,
 ) ([][]byte, error) {
 
+	if len(IDs) == 0 {
+		return nil, nil
+	}
 	str := "SELECT cert_id,payload from certs WHERE cert_id IN " + repeatStmt(1, len(IDs))
 	params := make([]any, len(IDs))
 	for i, id := range IDs {
diff --git a/pkg/db/mysql/common.go b/pkg/db/mysql/common.go
index 68a7ea8..07805cc 100644
--- a/pkg/db/mysql/common.go
+++ b/pkg/db/mysql/common.go
@@ -12,6 +12,9 @@ func (c *mysqlDB) RetrieveCertificateOrPolicyPayloads(
 	ctx context.Context,
 	IDs []common.SHA256Output,
 ) ([][]byte, error) {
+	if len(IDs) == 0 {
+		return nil, nil
+	}
 	str := "SELECT policy_id,payload from policies WHERE policy_id IN " +
 		repeatStmt(1, len(IDs)) +
 		"UNION SELECT cert_id,payload from certs WHERE cert_id IN " +
diff --git a/pkg/db/mysql/policies.go b/pkg/db/mysql/policies.go
index 3ceacd5..219a725 100644
--- a/pkg/db/mysql/policies.go
+++ b/pkg/db/mysql/policies.go
@@ -155,6 +155,9 @@ func (c *mysqlDB) RetrieveDomainPoliciesIDs(ctx context.Context, domainID common
 func (c *mysqlDB) RetrievePolicyPayloads(ctx context.Context, IDs []common.SHA256Output,
 ) ([][]byte, error) {
 
+	if len(IDs) == 0 {
+		return nil, nil
+	}
 	str := "SELECT policy_id,payload from policies WHERE policy_id IN " +
 		repeatStmt(1, len(IDs))
 	params := make([]any, len(IDs))
diff --git a/pkg/db/mysql/smt.go b/pkg/db/mysql/smt.go
index 0ede3cc..caf5423 100644
--- a/pkg/db/mysql/smt.go
+++ b/pkg/db/mysql/smt.go
@@ -50,6 +50,9 @@ func (c *mysqlDB) RetrieveTreeNode(ctx context.Context, key common.SHA256Output)
 }
 
 func (c *mysqlDB) DeleteTreeNodes(ctx context.Context, keys []common.SHA256Output) (int, error) {
+	if len(keys) == 0 {
+		return 0, nil
+	}
 	str := "DELETE FROM tree WHERE key32 IN " + repeatStmt(1, len(keys))
 	params := make([]interface{}, len(keys))
 	for i, k := range keys {
-- 
2.43.0


From e196b357aa726f273d4dbb4dc8a8d1db7ab65b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 33/39] fix: expirations are compared and stored in UTC

---
 pkg/db/mysql/certs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index d4f1dc5..44f576c 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -73,7 +73,7 @@ func (c *mysqlDB) updateCertsCSV(
 			if parents[i] != nil {
 				records[i][1] = base64.StdEncoding.EncodeToString(parents[i][:])
 			}
-			records[i][2] = expirations[i].Format(time.DateTime)
+			records[i][2] = expirations[i].UTC().Format(time.DateTime)
 			records[i][3] = base64.StdEncoding.EncodeToString(payloads[i])
 		}
 
@@ -370,7 +370,7 @@ func (c *mysqlDB) pruneCerts(ctx context.Context, now time.Time) error {
 	// We thus look for certificates with expiration less than now.
 
 	str := "CALL prune_expired(?)"
-	_, err := c.db.ExecContext(ctx, str, now.Format(time.DateTime))
+	_, err := c.db.ExecContext(ctx, str, now.UTC().Format(time.DateTime))
 	return err
 }
 
-- 
2.43.0


From d5d859df3a36a79deea913c9ef4a31255d36bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 34/39] fix: backslashes in the names of domains

---
 pkg/db/mysql/mysql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/db/mysql/mysql.go b/pkg/db/mysql/mysql.go
index 27f3183..925160a 100644
--- a/pkg/db/mysql/mysql.go
+++ b/pkg/db/mysql/mysql.go
@@ -122,7 +122,8 @@ func (c *mysqlDB) updateDomainsCSV(
 	for i := 0; i < len(ids); i++ {
 		records[i] = make([]string, 2)
 		records[i][0] = base64.StdEncoding.EncodeToString(ids[i][:])
-		records[i][1] = domainNames[i]
+		// LOAD DATA takes a backslash for the start of an escape sequence.
+		records[i][1] = strings.ReplaceAll(domainNames[i], `\`, `\\`)
 	}
 
 	// Create temporary file.
-- 
2.43.0


From e43f6268cd9ab02b720ec549db07f9c9b79b0c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 35/39] fix: TruncateAllTables leaves the policies

---
 pkg/db/mysql/mysql.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/db/mysql/mysql.go b/pkg/db/mysql/mysql.go
index 925160a..405ea4b 100644
--- a/pkg/db/mysql/mysql.go
+++ b/pkg/db/mysql/mysql.go
@@ -86,6 +86,8 @@ func (c *mysqlDB) TruncateAllTables(ctx context.Context) error {
 		"domains",
 		"certs",
 		"domain_certs",
+		"policies",
+		"domain_policies",
 		"domain_payloads",
 		"dirty",
 	}
-- 
2.43.0


From 11740ebdfd12260f9258b54844a0b9ebf3213df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 36/39] fix: dirty domains retrieved before an error are
 skipped by the next bundle

---
 pkg/db/mysql/mysql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/db/mysql/mysql.go b/pkg/db/mysql/mysql.go
index 405ea4b..efa8329 100644
--- a/pkg/db/mysql/mysql.go
+++ b/pkg/db/mysql/mysql.go
@@ -277,7 +277,8 @@ func (c *mysqlDB) RetrieveDomainEntriesDirtyBundle(
 		wg.Wait()
 
 		if err := util.ErrorsCoalesce(errs...); err != nil {
-			return nil, state, false, err
+			// The domains that were retrieved before the error are part of the next try.
+			return nil, cursor, false, err
 		}
 
 		progressMade := false
-- 
2.43.0


From 8ecbe5ef5844a4dee89e0d46b68db7c9097a3995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:57 +0000
Subject: [PATCH 37/39] fix: domains named www below a public suffix were
 rejected

---
 pkg/domain/domain.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/domain/domain.go b/pkg/domain/domain.go
index 3d7ec86..cf8081e 100644
--- a/pkg/domain/domain.go
+++ b/pkg/domain/domain.go
@@ -156,14 +156,20 @@ func removeWildCardAndWWW(domainName string) string {
 		domainName = domainName[2:]
 	}
 
-	// remove "www."
-	if len(domainName) > 4 && domainName[:4] == "www." {
+	// remove "www.", unless it is the label below a public suffix (e.g. www.com)
+	if len(domainName) > 4 && domainName[:4] == "www." && !isPublicSuffix(domainName[4:]) {
 		domainName = domainName[4:]
 	}
 
 	return domainName
 }
 
+// isPublicSuffix: check if the name is a TLD, or another suffix below which domains are registered
+func isPublicSuffix(domainName string) bool {
+	suffix, icann := publicsuffix.PublicSuffix(domainName)
+	return icann && suffix == domainName
+}
+
 // uniqueValidDomainName: extract valid domain names
 func uniqueValidDomainName(domainNames []string) []string {
 	uniqueDomainName := make(map[string]struct{}, len(domainNames))
-- 
2.43.0


From 6f42edf981d9be4484fd320a3d8d1000b033dc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:02 +0000
Subject: [PATCH 38/39] fix: malformed and too long durations were accepted

---
 pkg/util/duration.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pkg/util/duration.go b/pkg/util/duration.go
index dbe1f80..536ad86 100644
--- a/pkg/util/duration.go
+++ b/pkg/util/duration.go
@@ -45,32 +45,37 @@ func ParseDuration(durationStr string) (time.Duration, error) {
 	if len(matches) != 3 {
 		return 0, fmt.Errorf("invalid duration string %s", durationStr)
 	}
-	var (
-		n, _ = strconv.Atoi(matches[1])
-		dur  = time.Duration(n)
-	)
+	n, err := strconv.ParseInt(matches[1], 10, 64)
+	if err != nil {
+		return 0, fmt.Errorf("invalid duration string %s: %w", durationStr, err)
+	}
+	factor := time.Nanosecond
 	switch unit := matches[2]; unit {
 	case "y":
-		dur *= year
+		factor = year
 	case "w":
-		dur *= week
+		factor = week
 	case "d":
-		dur *= day
+		factor = day
 	case "h":
-		dur *= time.Hour
+		factor = time.Hour
 	case "m":
-		dur *= time.Minute
+		factor = time.Minute
 	case "s":
-		dur *= time.Second
+		factor = time.Second
 	case "ms":
-		dur *= time.Millisecond
+		factor = time.Millisecond
 	case "us", "µs":
-		dur *= time.Microsecond
+		factor = time.Microsecond
 	case "ns":
 		// Value already correct
 	default:
 		return 0, fmt.Errorf("invalid time unit %s in duration string %s", unit, durationStr)
 	}
+	dur := time.Duration(n) * factor
+	if dur/factor != time.Duration(n) {
+		return 0, fmt.Errorf("duration string %s is out of range", durationStr)
+	}
 	return dur, nil
 }
 
-- 
2.43.0


From 35f8e5fbf8c72f656f39ce142613dc1ac179a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:02 +0000
Subject: [PATCH 39/39] fix: next time of day in time zones other than UTC

---
 pkg/util/time_wrap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/util/time_wrap.go b/pkg/util/time_wrap.go
index 48e2ff4..6bd498d 100644
--- a/pkg/util/time_wrap.go
+++ b/pkg/util/time_wrap.go
@@ -89,7 +89,7 @@ func (t TimeOfDayWrap) String() string {
 // NextTimeOfDay returns the next possible time that keeps the same hour minute and second as this
 // TimeOfDayWrap. The returned time is never Before time.Now() and at most 1 day in the future.
 func (t TimeOfDayWrap) NextTimeOfDay() time.Time {
-	now := time.Now()
+	now := time.Now().UTC()
 
 	// The actual time in the present or future?
 	if !t.Time.Before(now) {
-- 
2.43.0

