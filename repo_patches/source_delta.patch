From a322fa2263b1375476fd927f307a3f99611e2c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 01/22] fix: answer get-entries with 400 when start is beyond
 the tree

A start past the end of the tree was clamped into nonsense: huge values
panicked in tlog (bad math), others produced internal errors or an empty
200.
---
 internal/ctmonitor/logic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index b2eccfc..425b0d3 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -292,6 +292,9 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 	if err != nil {
 		return nil, 521, err
 	}
+	if start >= int64(sth.TreeSize) {
+		return nil, 400, fmt.Errorf("start is not in the tree")
+	}
 	if end >= int64(sth.TreeSize) {
 		end = int64(sth.TreeSize) - 1
 	}
-- 
2.43.0


From c1d56938b0a00ee8ff7a66a0bf4a950f0e81ec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 02/22] fix: read tiles at the width they have in the published
 tree

The monitor always preferred a full tile, or the narrowest tile holding the
wanted index. After a crash between uploading tiles and publishing the tree
head, tiles wider than the published tree hold entries that were never
published, and their contents were served in place of the real entries and
hashes; narrow tiles mostly do not exist, so get-entry-and-proof and proofs
involving higher level partial tiles failed.
---
 internal/ctmonitor/fetch.go | 25 +++++++++++++++----------
 internal/ctmonitor/logic.go | 37 ++++++++++++-------------------------
 2 files changed, 27 insertions(+), 35 deletions(-)

diff --git a/internal/ctmonitor/fetch.go b/internal/ctmonitor/fetch.go
index 7829100..6372f9e 100644
--- a/internal/ctmonitor/fetch.go
+++ b/internal/ctmonitor/fetch.go
@@ -44,19 +44,24 @@ func (f *Fetch) getSth(ctx context.Context) (ct.SignedTreeHead, error) {
 	return sth, nil
 }
 
-func (f *Fetch) getTile(ctx context.Context, tile tlog.Tile) ([]byte, error) {
-	fallbackWidth := tile.W
-	tile.W = sunlight.TileWidth
+// getTile fetches a tile with the width it has in the tree of the given, published, size.
+// Other widths can't be relied on: narrower tiles might never have been uploaded, and wider
+// ones might be leftovers of a batch that was uploaded but never published.
+func (f *Fetch) getTile(ctx context.Context, tile tlog.Tile, treeSize int64) ([]byte, error) {
+	// Data tiles have the same shape as level zero tiles
+	level := max(tile.L, 0)
+	width := treeSize>>(sunlight.TileHeight*level) - tile.N<<sunlight.TileHeight
+	if width <= 0 {
+		return nil, errors.New("tile is not in the tree")
+	}
+	tile.W = int(min(width, sunlight.TileWidth))
 	resp, notfound, err := f.s.Get(ctx, sunlight.Path(tile))
-	// In case the tile is not found, try to fetch the partial tile
-	if notfound {
-		if fallbackWidth != sunlight.TileWidth {
-			tile.W = fallbackWidth
-			return f.get(ctx, sunlight.Path(tile))
-		}
+	// In case a partial tile is not found, it could have been replaced by the full tile
+	if notfound && tile.W != sunlight.TileWidth {
+		tile.W = sunlight.TileWidth
+		return f.get(ctx, sunlight.Path(tile))
 	}
 	return resp, err
-
 }
 
 // TODO: refactor the duplicate definitions of this stanza in this file and bucket.go
diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index 425b0d3..8c96c78 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -74,23 +74,16 @@ func wrapper(wrapped func(ctx context.Context, reqBody io.ReadCloser, query url.
 	}
 }
 
-func hashreader(ctx context.Context, f Fetch, fallbackTreeSize int64) tlog.HashReaderFunc {
-	// Tree size is 1 greater than the index of the last entry
-	finalTile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, fallbackTreeSize-1))
+// hashreader reads the hashes of the tree with the given, published, size.
+func hashreader(ctx context.Context, f Fetch, sthTreeSize int64) tlog.HashReaderFunc {
 	// TODO: add some sort of cache here, this function is bound to be called a few times for the same tiles
 	return func(indexes []int64) ([]tlog.Hash, error) {
 		hashes := make([]tlog.Hash, 0, len(indexes))
 		for _, index := range indexes {
 			tile := tlog.TileForIndex(sunlight.TileHeight, index)
-			// Special case the final tile to get the correct width
-			if tile.N == finalTile.N {
-				tile.W = finalTile.W
-			}
-			// This function will always first try and get the full width tile,
-			// and then fall back to the width actually specified in the tile.
-			data, err := f.getTile(ctx, tile)
+			data, err := f.getTile(ctx, tile, sthTreeSize)
 			if err != nil {
-				return nil, fmt.Errorf("failed to fetch tile %s: %w (fallback %s)", sunlight.Path(tile), err, sunlight.Path(finalTile))
+				return nil, fmt.Errorf("failed to fetch tile %s: %w", sunlight.Path(tile), err)
 			}
 			hash, err := tlog.HashFromTile(tile, data, index)
 			if err != nil {
@@ -161,7 +154,7 @@ func (f Fetch) get_sth_consistency(ctx context.Context, reqBody io.ReadCloser, q
 	// However, as per the spec, in this case, an empty proof should be returned
 	// TODO: this fails if the size of the first tree is greater than the actual number of records in the tree
 	if first >= 1 {
-		proof, err = tlog.ProveTree(second, first, hashreader(ctx, f, second))
+		proof, err = tlog.ProveTree(second, first, hashreader(ctx, f, int64(sth.TreeSize)))
 		if err != nil {
 			return nil, 523, err
 		}
@@ -229,7 +222,7 @@ func (f Fetch) get_proof_by_hash(ctx context.Context, reqBody io.ReadCloser, que
 	}
 
 	// Get the proof
-	proof, err := tlog.ProveRecord(treeSize, index, hashreader(ctx, f, treeSize))
+	proof, err := tlog.ProveRecord(treeSize, index, hashreader(ctx, f, int64(sth.TreeSize)))
 	if err != nil {
 		log.Println(err)
 		return nil, 511, err
@@ -307,15 +300,9 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 
 	dataTiles := make([]tileWithBytes, 0)
 
-	sthFinalTile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, int64(sth.TreeSize)-1))
-	// Special case the final tile to ensure we always fetch a tile that exists
-	if lastTile.N == sthFinalTile.N {
-		lastTile.W = sthFinalTile.W
-	}
-
 	// In this case, the last tile is the same as the first tile so we only need to fetch one tile
 	if firstTile.N == lastTile.N {
-		data, err := f.getTile(ctx, lastTile)
+		data, err := f.getTile(ctx, lastTile, int64(sth.TreeSize))
 		if err != nil {
 			return nil, 513, err
 		}
@@ -325,7 +312,7 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 			// If the index of the last tile is greater than the index of the first tile,
 			// it means the first tile is complete
 			firstTile.W = 256
-			data, err := f.getTile(ctx, firstTile)
+			data, err := f.getTile(ctx, firstTile, int64(sth.TreeSize))
 			if err != nil {
 				return nil, 514, err
 			}
@@ -343,7 +330,7 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 					W: 256,
 				}
 
-				data, err := f.getTile(ctx, tile)
+				data, err := f.getTile(ctx, tile, int64(sth.TreeSize))
 				if err != nil {
 					return nil, 515, err
 				}
@@ -354,7 +341,7 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 
 		{
 			// Finally, fetch the last tile
-			data, err := f.getTile(ctx, lastTile)
+			data, err := f.getTile(ctx, lastTile, int64(sth.TreeSize))
 			if err != nil {
 				return nil, 516, err
 			}
@@ -478,7 +465,7 @@ func (f Fetch) get_entry_and_proof(ctx context.Context, reqBody io.ReadCloser, q
 	tile.L = -1
 
 	// TODO: add a cache
-	data, err := f.getTile(ctx, tile)
+	data, err := f.getTile(ctx, tile, int64(sth.TreeSize))
 	if err != nil {
 		return nil, 500, err
 	}
@@ -530,7 +517,7 @@ func (f Fetch) get_entry_and_proof(ctx context.Context, reqBody io.ReadCloser, q
 	}
 
 	// Get the proof
-	proof, err := tlog.ProveRecord(treeSize, leafIndex, hashreader(ctx, f, treeSize))
+	proof, err := tlog.ProveRecord(treeSize, leafIndex, hashreader(ctx, f, int64(sth.TreeSize)))
 	if err != nil {
 		return nil, 500, err
 	}
-- 
2.43.0


From ea5c84c51969950d96b0ea8d59c5aef44a3be8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 03/22] fix: answer get-proof-by-hash only for leaves that are
 in the tree

The index is keyed by the first half of the hash and keeps records of
leaves whose batch was never published, so a proof of a different leaf
could be returned.
---
 internal/ctmonitor/logic.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index 8c96c78..43ffff6 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -221,8 +221,18 @@ func (f Fetch) get_proof_by_hash(ctx context.Context, reqBody io.ReadCloser, que
 		return nil, 400, fmt.Errorf("index out of range")
 	}
 
+	// The index only has a prefix of the hash, and could have records of leaves that were never published
+	reader := hashreader(ctx, f, int64(sth.TreeSize))
+	leafHashes, err := reader.ReadHashes([]int64{tlog.StoredHashIndex(0, index)})
+	if err != nil {
+		return nil, 511, err
+	}
+	if leafHashes[0] != tlog.Hash(hash) {
+		return nil, 404, fmt.Errorf("record not found")
+	}
+
 	// Get the proof
-	proof, err := tlog.ProveRecord(treeSize, index, hashreader(ctx, f, int64(sth.TreeSize)))
+	proof, err := tlog.ProveRecord(treeSize, index, reader)
 	if err != nil {
 		log.Println(err)
 		return nil, 511, err
-- 
2.43.0


From c8792f89e26fbe64ac3e819fb1b281474b5afa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 04/22] fix: replace files atomically in FsStorage

Set truncated the file in place: readers could see empty or partial tree
heads, tiles and index files, and a crash or full disk left them damaged.
---
 internal/ctsubmit/storage.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/internal/ctsubmit/storage.go b/internal/ctsubmit/storage.go
index a6e2ee7..319ef36 100644
--- a/internal/ctsubmit/storage.go
+++ b/internal/ctsubmit/storage.go
@@ -114,7 +114,7 @@ func (f *FsStorage) Set(ctx context.Context, key string, data []byte) error {
 	filePath := f.root + "/" + key
 
 	// Attempt to write the file
-	err := os.WriteFile(filePath, data, 0644)
+	err := writeFileAtomic(filePath, data)
 	if err == nil {
 		// No error, file written successfully
 		return nil
@@ -132,13 +132,39 @@ func (f *FsStorage) Set(ctx context.Context, key string, data []byte) error {
 		}
 
 		// Retry writing the file after creating directories
-		return os.WriteFile(filePath, data, 0644)
+		return writeFileAtomic(filePath, data)
 	}
 
 	// Return the original error if it's not related to missing directories
 	return err
 }
 
+// writeFileAtomic replaces a file, such that it has either the old or the new contents
+// at any time, even if writing fails half way or the process is killed.
+func writeFileAtomic(filePath string, data []byte) (err error) {
+	file, err := os.CreateTemp(filepath.Dir(filePath), ".tmp-*")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			os.Remove(file.Name())
+		}
+	}()
+
+	_, err = file.Write(data)
+	if err == nil {
+		err = file.Chmod(0644)
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(file.Name(), filePath)
+}
+
 func (f *FsStorage) Exists(ctx context.Context, key string) (bool, error) {
 	filePath := f.root + "/" + key
 
-- 
2.43.0


From 2a99668ac0d3886c2f85fd069fad3d0876a74e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 05/22] fix: answer 503 when the sequencer does not take an
 entry

With the queue to the sequencer full, submissions waited forever: the
timeout only covered the wait for the result.
---
 internal/ctsubmit/logic.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 757712b..4eeb604 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -173,14 +173,19 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 		// This channel is buffered so it doesn't block if an attempt is made to send
 		// after the timeout fires.
 		returnPath := make(chan sunlight.LogEntry, 1)
-		d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}
+		timeout := time.After(5 * time.Second)
+		select {
+		case d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}:
+		case <-timeout:
+			return nil, http.StatusServiceUnavailable, fmt.Errorf("timed out handing the entry to the sequencer")
+		}
 
 		// If we recieve something here, that means that the entry has been both sequenced
 		// and uploaded with a newly signed STH, so we can issue a SCT.
 		select {
 		case completeEntry = <-returnPath:
 		// Nominally, this should complete in under 2 seconds.
-		case <-time.After(5 * time.Second):
+		case <-timeout:
 			return nil, http.StatusServiceUnavailable, fmt.Errorf("timed out waiting for sequencer")
 		}
 	}
-- 
2.43.0


From ebc34380cc3bbded97a90f7dbd7d2d7ae034aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 06/22] fix: reject precertificate chains that lack the issuer

A precertificate that is itself an accepted root, or whose precertificate
signing certificate is one, indexed past the end of the chain.
---
 internal/ctsubmit/logic.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 4eeb604..f44680f 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -140,8 +140,14 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 		// Preissuer means that the intermediate that issued the precert is only valid
 		// for issuing precertificates.
 		var preIssuer *x509.Certificate
+		if len(chain) < 2 {
+			return nil, http.StatusBadRequest, fmt.Errorf("precertificate without issuer")
+		}
 		issuer := chain[1]
 		if ct.IsPreIssuer(chain[1]) {
+			if len(chain) < 3 {
+				return nil, http.StatusBadRequest, fmt.Errorf("precertificate signing certificate without issuer")
+			}
 			preIssuer = chain[1]
 			issuer = chain[2]
 		}
-- 
2.43.0


From 049a872210d639e3058509d29813e4a171107698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:57 +0000
Subject: [PATCH 07/22] fix: verify RSA checkpoint signatures over the
 signature itself

The RSA branch of the RFC 6962 verifier passed the whole note signature,
including timestamp and algorithm, so no RSA signature ever verified.
---
 internal/sunlight/checkpoint_ol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sunlight/checkpoint_ol.go b/internal/sunlight/checkpoint_ol.go
index 08a1a58..c50b40f 100644
--- a/internal/sunlight/checkpoint_ol.go
+++ b/internal/sunlight/checkpoint_ol.go
@@ -221,7 +221,7 @@ func NewRFC6962Verifier(name string, key crypto.PublicKey, tf func(uint64)) (not
 			if sigAlg != 1 {
 				return false
 			}
-			return rsa.VerifyPKCS1v15(key, crypto.SHA256, digest[:], sig) == nil
+			return rsa.VerifyPKCS1v15(key, crypto.SHA256, digest[:], signature) == nil
 		case *ecdsa.PublicKey:
 			if sigAlg != 3 {
 				return false
-- 
2.43.0


From 4ca95af19facba01d71c378b9195d241f2aeeb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:57 +0000
Subject: [PATCH 08/22] fix: reject data tile leaves with a partial chain
 fingerprint

The length of the chain was rounded down to whole fingerprints, and the
remaining bytes were parsed as the start of the next leaf.
---
 internal/sunlight/tile_ol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/sunlight/tile_ol.go b/internal/sunlight/tile_ol.go
index 207d758..d998cec 100644
--- a/internal/sunlight/tile_ol.go
+++ b/internal/sunlight/tile_ol.go
@@ -174,6 +174,9 @@ func ReadTileLeaf(tile []byte) (e *LogEntry, rest []byte, err error) {
 	if !s.ReadUint16(&fingerprintBytes) {
 		return nil, s, fmt.Errorf("invalid data tile precert_entry")
 	}
+	if fingerprintBytes%32 != 0 {
+		return nil, s, fmt.Errorf("invalid data tile fingerprints")
+	}
 	var fingerprintCount = fingerprintBytes / 32
 	// then, try to read out that many fingerprints
 	e.ChainFp = make([][32]byte, 0, fingerprintCount)
-- 
2.43.0


From 91183b4c48ec565f87e6862081a599f3261f363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:57 +0000
Subject: [PATCH 09/22] fix: load roots that have non-fatal parsing errors

Setup accepts such roots into get-roots, after which the log refused to
start.
---
 internal/ctsubmit/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index b2267cb..26c6997 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -262,7 +262,8 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 		r := x509util.NewPEMCertPool()
 		for _, certBytes := range res.Certificates {
 			cert, err := x509.ParseCertificate(certBytes)
-			if err != nil {
+			// Like the setup tool, accept roots with non-fatal parsing errors
+			if x509.IsFatal(err) {
 				return nil, fmt.Errorf("unable to parse certificate: %v", err)
 			}
 			r.AddCert(cert)
-- 
2.43.0


From 82176a14b9a2427127e1adcfdfc2c1ae68a551ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:57 +0000
Subject: [PATCH 10/22] fix: verify the data tile against the level zero tile
 at startup

A damaged right edge data tile was loaded, and its contents were copied
into all later data tiles.
---
 internal/ctsubmit/config.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index 26c6997..3e17ef3 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -1,6 +1,7 @@
 package ctsubmit
 
 import (
+	"bytes"
 	"context"
 	"crypto/ecdsa"
 	"crypto/sha256"
@@ -359,10 +360,25 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 			if err != nil {
 				return nil, fmt.Errorf("unable to fetch data tile: %v", err)
 			}
+			// Verify the data tile against the level zero tile
+			rest := dataTileBytes
+			for i := 0; i < dataTile.Tile.W; i++ {
+				var entry *sunlight.LogEntry
+				entry, rest, err = sunlight.ReadTileLeaf(rest)
+				if err != nil {
+					return nil, fmt.Errorf("unable to parse entry %d of the data tile: %v", i, err)
+				}
+				hash := tlog.RecordHash(entry.MerkleTreeLeaf())
+				if !bytes.Equal(hash[:], edgeTiles[0].Bytes[i*tlog.HashSize:(i+1)*tlog.HashSize]) {
+					return nil, fmt.Errorf("entry %d of the data tile does not match the tree", i)
+				}
+			}
+			if len(rest) != 0 {
+				return nil, fmt.Errorf("data tile has trailing data")
+			}
+
 			dataTile.Bytes = dataTileBytes
 			edgeTiles[-1] = dataTile
-
-			// TODO: verify the data tile against the L0 tile
 		}
 
 		stageTwo = stageTwoData{
-- 
2.43.0


From 59ff61ac9cfd253eda3939221755ee0d42c5815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:57 +0000
Subject: [PATCH 11/22] fix: verify the signature of the tree head at startup

The log continued from, and signed heads extending, any tree head found in
storage, whether or not it was one of its own.
---
 internal/ctsubmit/config.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index 3e17ef3..00ac068 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -233,6 +233,13 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 		if err != nil {
 			return nil, fmt.Errorf("unable to unmarshal STH: %v", err)
 		}
+		verifier, err := ct.NewSignatureVerifier(key.Public())
+		if err != nil {
+			return nil, fmt.Errorf("unable to create STH verifier: %v", err)
+		}
+		if err := verifier.VerifySTHSignature(sth); err != nil {
+			return nil, fmt.Errorf("unable to verify STH: %v", err)
+		}
 	}
 
 	// Stage zero setup
-- 
2.43.0


From 47fa217f81d6ebdee0efd6b2885c900d74009bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:57 +0000
Subject: [PATCH 12/22] fix: keep the tree head of an existing log in setup

Running setup again, to update the roots or the config, replaced the tree
head of a log that already has entries by one of size zero.
---
 internal/ctsetup/main.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/ctsetup/main.go b/internal/ctsetup/main.go
index b47b771..4169afc 100644
--- a/internal/ctsetup/main.go
+++ b/internal/ctsetup/main.go
@@ -120,5 +120,15 @@ func uploadEmptySth(ctx context.Context, signingKey string, gc ctsubmit.GlobalCo
 		s := ctsubmit.NewS3Storage(gc.S3Region, gc.S3Bucket, gc.S3EndpointUrl, gc.S3StaticCredentialUserName, gc.S3StaticCredentialPassword)
 		storage = &s
 	}
+
+	// The log might be in use already, never roll it back
+	exists, err := storage.Exists(ctx, "ct/v1/get-sth")
+	if err != nil {
+		return err
+	}
+	if exists {
+		log.Println("Keeping the existing STH")
+		return nil
+	}
 	return storage.Set(ctx, "ct/v1/get-sth", jsonBytes)
 }
-- 
2.43.0


From 1438054c2380eca300f351358ca023bf21e2fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:57 +0000
Subject: [PATCH 13/22] fix: deduplicate precertificates by their issuer too

A precertificate that was submitted with a differently issued precertificate
signing certificate than before has a different entry, but was answered with
the index and timestamp of the earlier one, so the SCT promised an entry that
is not in the log.
---
 internal/ctsubmit/logic.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index f44680f..3a431e3 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -11,6 +11,7 @@ import (
 	"maps"
 	"math/rand"
 	"net/http"
+	"slices"
 	"time"
 
 	ct "github.com/google/certificate-transparency-go"
@@ -164,8 +165,7 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 
 	// Before we send the unsequenced entry to the first stage, we need to check if it's a duplicate
 	// This is done by hashing the certificate fingerprint and checking if it exists in the dedupe map
-	dedupeKey := [16]byte(entry.CertificateFp[:16])
-	dedupeVal, err := d.bucket.GetDedupeEntry(ctx, dedupeKey, d.maskSize)
+	dedupeVal, err := d.bucket.GetDedupeEntry(ctx, dedupeKey(entry.CertificateFp, entry.IsPrecert, entry.Chain), d.maskSize)
 
 	var completeEntry sunlight.LogEntry
 
@@ -442,14 +442,10 @@ func (d *stageTwoData) stageTwo(
 			d.treeSize = updatedTreeSize
 
 			// ** Upload the dedupe mappings **
-			// TODO: This isn't the best cache key, because it fails to distinguish between
-			// a certificate that is submitted with a different chain. This is a problem because
-			// I think the specific chain the certificate was submitted with also matters.
 			dedupeVals := make([]DedupeUpload, 0, len(pool))
 			for _, e := range pool {
-				hash := [16]byte(e.entry.CertificateFp[:16])
 				dedupeVals = append(dedupeVals, DedupeUpload{
-					hash:      hash,
+					hash:      dedupeKey(e.entry.CertificateFp, e.entry.IsPrecert, e.entry.Chain),
 					leafIndex: e.entry.LeafIndex,
 					timestamp: e.entry.Timestamp,
 				})
@@ -470,6 +466,20 @@ func (d *stageTwoData) stageTwo(
 	}
 }
 
+// dedupeKey identifies submissions that lead to the same log entry. The chain excludes the certificate itself.
+//
+// The certificate alone determines the entry, unless it is a precertificate from a precertificate signing
+// certificate: the issuer in the entry, and the issuer key hash, are then those of the issuer of the signing
+// certificate, and the same precertificate can be submitted with differently issued signing certificates.
+func dedupeKey(fp [32]byte, isPrecert bool, chain []*x509.Certificate) [16]byte {
+	if isPrecert && len(chain) > 1 && ct.IsPreIssuer(chain[0]) {
+		issuerKeyHash := sha256.Sum256(chain[1].RawSubjectPublicKeyInfo)
+		preIssuerFp := sha256.Sum256(chain[0].Raw)
+		fp = sha256.Sum256(slices.Concat(fp[:], preIssuerFp[:], issuerKeyHash[:]))
+	}
+	return [16]byte(fp[:16])
+}
+
 func (d *stageTwoData) hashReader(overlay map[int64]tlog.Hash) tlog.HashReaderFunc {
 	return func(indexes []int64) ([]tlog.Hash, error) {
 		hashes := make([]tlog.Hash, 0, len(indexes))
-- 
2.43.0


From 99787d1446e4558ba28ac5a95c4f83c160b99344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:30 +0000
Subject: [PATCH 14/22] fix: finish the batch before giving up the lock on
 interrupt

---
 internal/ctsubmit/config.go | 13 +++++++++++++
 internal/ctsubmit/logic.go  |  5 +++++
 2 files changed, 18 insertions(+)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index 00ac068..fef2f6c 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -12,6 +12,7 @@ import (
 	"log"
 	"os"
 	"os/signal"
+	"sync"
 	"time"
 
 	ct "github.com/google/certificate-transparency-go"
@@ -99,11 +100,15 @@ type stageTwoData struct {
 	treeSize         uint64
 
 	signingKey *ecdsa.PrivateKey
+
+	// Held while a batch is being published
+	publishing *sync.Mutex
 }
 
 func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 	var lock *consul.Lock
 	var gc GlobalConfig
+	publishing := new(sync.Mutex)
 
 	{
 		lockpath := kvpath + "/lock"
@@ -147,6 +152,12 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 		signal.Notify(interruptChan, os.Interrupt)
 		go func(interruptChan chan os.Signal, lock *consul.Lock) {
 			<-interruptChan
+			// A second interrupt terminates the program right away
+			signal.Stop(interruptChan)
+			// The next holder of the lock must not see a batch that is still being written,
+			// so wait for it to be finished, and don't let another one begin.
+			log.Println("Interrupted, waiting for the current batch")
+			publishing.Lock()
 			log.Println("Interrupted, releasing lock")
 			lock.Unlock()
 		}(interruptChan, lock)
@@ -398,6 +409,8 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 			treeSize:         sth.TreeSize,
 
 			signingKey: key,
+
+			publishing: publishing,
 		}
 	}
 
diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 3a431e3..92e9830 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -299,6 +299,9 @@ func (d *stageTwoData) stageTwo(
 				return fmt.Errorf("stage two: stageTwoRx channel closed")
 			}
 
+			// This stays locked if publishing fails, there must not be another batch then.
+			d.publishing.Lock()
+
 			// ** Upload the data tiles **
 			newHashes := make(map[int64]tlog.Hash)
 			// The newHashes map is a reference type, so adding elements to
@@ -460,6 +463,8 @@ func (d *stageTwoData) stageTwo(
 				entry.returnPath <- entry.entry
 			}
 
+			d.publishing.Unlock()
+
 		case <-ctx.Done():
 			return fmt.Errorf("stage two: context finished")
 		}
-- 
2.43.0


From 0cacadc5f494d076a373d80997ad55364f151d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:35 +0000
Subject: [PATCH 15/22] fix: report a key file that is not PEM

---
 internal/ctsubmit/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index fef2f6c..b717063 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -192,6 +192,9 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 			return nil, fmt.Errorf("unable to read key: %v", err)
 		}
 		keyBlock, _ := pem.Decode(keyPEM)
+		if keyBlock == nil {
+			return nil, fmt.Errorf("unable to parse key: not in PEM format")
+		}
 
 		key, err = x509.ParseECPrivateKey(keyBlock.Bytes)
 		if err != nil {
-- 
2.43.0


From 75aa931db25c14bbed0cd8cecea2e37b0b54f55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:48 +0000
Subject: [PATCH 16/22] fix: don't truncate the length of a long fingerprint
 list

---
 internal/sunlight/tile_ol.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/sunlight/tile_ol.go b/internal/sunlight/tile_ol.go
index d998cec..ea414d2 100644
--- a/internal/sunlight/tile_ol.go
+++ b/internal/sunlight/tile_ol.go
@@ -227,10 +227,11 @@ func AppendTileLeaf(t []byte, e *LogEntry) []byte {
 		})
 	}
 	// A Fingerprint is always 32 bytes and the length is the total number of bytes
-	b.AddUint16(uint16(len(e.ChainFp) * 32))
-	for _, fingerprint := range e.ChainFp {
-		b.AddBytes(fingerprint[:])
-	}
+	b.AddUint16LengthPrefixed(func(b *cryptobyte.Builder) {
+		for _, fingerprint := range e.ChainFp {
+			b.AddBytes(fingerprint[:])
+		}
+	})
 
 	return b.BytesOrPanic()
 }
-- 
2.43.0


From 96e79eb5231ccc8767eb3ab0eef39afdcd6e484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:15 +0000
Subject: [PATCH 17/22] fix: refuse checkpoints with a root hash in a
 non-canonical encoding

---
 internal/sunlight/checkpoint_ol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sunlight/checkpoint_ol.go b/internal/sunlight/checkpoint_ol.go
index c50b40f..ea73971 100644
--- a/internal/sunlight/checkpoint_ol.go
+++ b/internal/sunlight/checkpoint_ol.go
@@ -135,7 +135,7 @@ func ParseCheckpoint(text string) (Checkpoint, error) {
 	}
 
 	h, err := base64.StdEncoding.DecodeString(lines[2])
-	if err != nil || len(h) != tlog.HashSize {
+	if err != nil || len(h) != tlog.HashSize || lines[2] != base64.StdEncoding.EncodeToString(h) {
 		return Checkpoint{}, errors.New("malformed checkpoint")
 	}
 
-- 
2.43.0


From 9812371dc6d4ab99a0743069730aa6330e542f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:15 +0000
Subject: [PATCH 18/22] fix: verify the origin of checkpoints

---
 internal/sunlight/checkpoint_ol.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/sunlight/checkpoint_ol.go b/internal/sunlight/checkpoint_ol.go
index ea73971..00b0e67 100644
--- a/internal/sunlight/checkpoint_ol.go
+++ b/internal/sunlight/checkpoint_ol.go
@@ -185,6 +185,10 @@ func NewRFC6962Verifier(name string, key crypto.PublicKey, tf func(uint64)) (not
 		if c.Extension != "" {
 			return false
 		}
+		// The signature does not cover the origin, which is the same as the key name.
+		if c.Origin != name {
+			return false
+		}
 
 		// Parse the RFC6962NoteSignature.
 		var timestamp uint64
-- 
2.43.0


From 6cc9c62fe1d5b98fdc90d277f042f39f8d6fab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 19/22] fix: never publish a tree head with an earlier
 timestamp

After the clock was set back, or with an instance taking over on a machine with a slower clock, tree heads
went back in time, and could be older than the entries they cover.
---
 internal/ctsubmit/config.go |  2 ++
 internal/ctsubmit/logic.go  | 11 +++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index b717063..1f452de 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -98,6 +98,7 @@ type stageTwoData struct {
 	maskSize         int
 	checkpointOrigin string
 	treeSize         uint64
+	timestamp        int64
 
 	signingKey *ecdsa.PrivateKey
 
@@ -410,6 +411,7 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 			maskSize:         gc.MaskSize,
 			checkpointOrigin: gc.Name,
 			treeSize:         sth.TreeSize,
+			timestamp:        int64(sth.Timestamp),
 
 			signingKey: key,
 
diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 92e9830..8ef22f6 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -420,7 +420,14 @@ func (d *stageTwoData) stageTwo(
 				return fmt.Errorf("failed to calculate new root hash: %w", err)
 			}
 
-			jsonBytes, err := sunlight.SignTreeHead(d.signingKey, updatedTreeSize, uint64(time.Now().UnixMilli()), rootHash)
+			// The clock might have been set back since, or be behind the one of an earlier instance
+			timestamp := max(time.Now().UnixMilli(), d.timestamp+1)
+			for _, e := range pool {
+				timestamp = max(timestamp, e.entry.Timestamp)
+			}
+			d.timestamp = timestamp
+
+			jsonBytes, err := sunlight.SignTreeHead(d.signingKey, updatedTreeSize, uint64(timestamp), rootHash)
 			if err != nil {
 				return fmt.Errorf("failed to generate a new STH: %w", err)
 			}
@@ -431,7 +438,7 @@ func (d *stageTwoData) stageTwo(
 			}
 
 			// we also upload a checkpoint based on the STH
-			checkpointBytes, err := sunlight.SignTreeHeadCheckpoint(d.checkpointOrigin, d.signingKey, int64(updatedTreeSize), time.Now().UnixMilli(), rootHash)
+			checkpointBytes, err := sunlight.SignTreeHeadCheckpoint(d.checkpointOrigin, d.signingKey, int64(updatedTreeSize), timestamp, rootHash)
 			if err != nil {
 				return fmt.Errorf("failed to generate a new checkpoint: %w", err)
 			}
-- 
2.43.0


From 1b5aa1673f9a397ecf4f8e1874507d6a6f1f80e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 20/22] fix: answer read requests with an error when the tile
 storage does not respond

They hung for as long as the storage did.
---
 internal/ctmonitor/storage.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ctmonitor/storage.go b/internal/ctmonitor/storage.go
index 132c483..ae350c6 100644
--- a/internal/ctmonitor/storage.go
+++ b/internal/ctmonitor/storage.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"net/http"
 	"os"
+	"time"
 )
 
 type Storage interface {
@@ -19,12 +20,15 @@ type UrlStorage struct {
 	urlPrefix string
 }
 
+// Without a timeout, requests would hang for as long as the storage does.
+var storageClient = &http.Client{Timeout: 30 * time.Second}
+
 func (f *UrlStorage) Get(ctx context.Context, key string) (data []byte, notfounderr bool, err error) {
 	req, err := http.NewRequestWithContext(ctx, "GET", f.urlPrefix+key, nil)
 	if err != nil {
 		return nil, false, err
 	}
-	resp, err := http.DefaultClient.Do(req)
+	resp, err := storageClient.Do(req)
 	if err != nil {
 		return nil, false, err
 	}
-- 
2.43.0


From 3d2181c96332649d664fe3324bc3a1925d521d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 21/22] fix: do not log a known certificate again when the
 lookup of duplicates fails

A failing read was taken for a certificate not seen before, so that it got another entry and another SCT. A lookup
that hung made the submission hang.
---
 internal/ctsubmit/bucket.go | 9 ++++++++-
 internal/ctsubmit/logic.go  | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/ctsubmit/bucket.go b/internal/ctsubmit/bucket.go
index 8d19b97..c0e5bdb 100644
--- a/internal/ctsubmit/bucket.go
+++ b/internal/ctsubmit/bucket.go
@@ -304,9 +304,16 @@ func (b *Bucket) PutDedupeEntries(ctx context.Context, hashes []DedupeUpload, ma
 	return nil
 }
 
+var errNoDedupeEntry = errors.New("record not found")
+
+// GetDedupeEntry returns errNoDedupeEntry if there is none. With other errors, there might be one.
 func (b *Bucket) GetDedupeEntry(ctx context.Context, hash [16]byte, mask int) (DedupeUpload, error) {
 	f, err := b.S.Get(ctx, "int/dedupe/"+sunlight.KAnonHashPath(hash[:], mask))
 	if err != nil {
+		var notFound *s3types.NoSuchKey
+		if errors.As(err, &notFound) || errors.Is(err, os.ErrNotExist) {
+			return DedupeUpload{}, errNoDedupeEntry
+		}
 		return DedupeUpload{}, err
 	}
 
@@ -321,5 +328,5 @@ func (b *Bucket) GetDedupeEntry(ctx context.Context, hash [16]byte, mask int) (D
 			return record, nil
 		}
 	}
-	return DedupeUpload{}, errors.New("record not found")
+	return DedupeUpload{}, errNoDedupeEntry
 }
diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 8ef22f6..9a646c7 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -5,6 +5,7 @@ import (
 	"crypto/sha256"
 	"encoding/base64"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"log"
@@ -165,13 +166,18 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 
 	// Before we send the unsequenced entry to the first stage, we need to check if it's a duplicate
 	// This is done by hashing the certificate fingerprint and checking if it exists in the dedupe map
-	dedupeVal, err := d.bucket.GetDedupeEntry(ctx, dedupeKey(entry.CertificateFp, entry.IsPrecert, entry.Chain), d.maskSize)
+	lookupCtx, cancel := context.WithTimeout(ctx, 5*time.Second)
+	defer cancel()
+	dedupeVal, err := d.bucket.GetDedupeEntry(lookupCtx, dedupeKey(entry.CertificateFp, entry.IsPrecert, entry.Chain), d.maskSize)
 
 	var completeEntry sunlight.LogEntry
 
 	if err == nil {
 		// If we recieved a valid cache hit, then the certificate is a duplicate
 		completeEntry = entry.Sequence(dedupeVal.leafIndex, dedupeVal.timestamp)
+	} else if !errors.Is(err, errNoDedupeEntry) {
+		// It could be a duplicate, so it must not get another SCT
+		return nil, http.StatusServiceUnavailable, fmt.Errorf("unable to look for a duplicate: %w", err)
 	} else {
 		// Otherwise, we need to send it to the sequencer
 
-- 
2.43.0


From 2db8d1bc78c90eae6a2c658a8afa92859940ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:15 +0000
Subject: [PATCH 22/22] fix: wait for all uploads of a batch before giving up
 the lock

When one upload failed, the others were canceled and the lock was released right
away. A canceled upload can still take effect in storage after the next holder of
the lock has read the state, and replace what that one has written.
---
 internal/ctsubmit/bucket.go | 12 ++++++------
 internal/ctsubmit/logic.go  | 15 ++++++++-------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/internal/ctsubmit/bucket.go b/internal/ctsubmit/bucket.go
index c0e5bdb..6b6505f 100644
--- a/internal/ctsubmit/bucket.go
+++ b/internal/ctsubmit/bucket.go
@@ -150,10 +150,10 @@ func (b *Bucket) PutRecordHashes(ctx context.Context, hashes []RecordHashUpload,
 		f[e.hashPath] = newRecords
 	}
 
-	// Now, write the updated files back to the bucket.
-	g, gctx := errgroup.WithContext(ctx)
+	// Now, write the updated files back to the bucket. They are all waited for, also if one fails.
+	var g errgroup.Group
 	for k, v := range f {
-		g.Go(func() error { return b.S.Set(gctx, "int/hashes/"+k, v) })
+		g.Go(func() error { return b.S.Set(ctx, "int/hashes/"+k, v) })
 	}
 
 	if err := g.Wait(); err != nil {
@@ -291,10 +291,10 @@ func (b *Bucket) PutDedupeEntries(ctx context.Context, hashes []DedupeUpload, ma
 		f[e.hashPath] = newRecords
 	}
 
-	// Now, write the updated files back to the bucket.
-	g, gctx := errgroup.WithContext(ctx)
+	// Now, write the updated files back to the bucket. They are all waited for, also if one fails.
+	var g errgroup.Group
 	for k, v := range f {
-		g.Go(func() error { return b.S.Set(gctx, "int/dedupe/"+k, v) })
+		g.Go(func() error { return b.S.Set(ctx, "int/dedupe/"+k, v) })
 	}
 
 	if err := g.Wait(); err != nil {
diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 9a646c7..6e799b6 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -318,8 +318,9 @@ func (d *stageTwoData) stageTwo(
 
 			if len(pool) != 0 {
 
-				// Errgroup to safely parallelize the uploads
-				g, gctx := errgroup.WithContext(ctx)
+				// Errgroup to safely parallelize the uploads. If one fails, the others are not canceled but
+				// waited for: a canceled upload can still take effect, when the lock is already given up.
+				var g errgroup.Group
 
 				// The current tree size is the same as the index of the first leaf in the pool
 				oldTreeSize := pool[0].entry.LeafIndex
@@ -369,7 +370,7 @@ func (d *stageTwoData) stageTwo(
 					} else if dataTile.Tile.W == sunlight.TileWidth {
 						// Upload the tile
 						t := dataTile
-						g.Go(func() error { return d.bucket.SetTile(gctx, t.Tile, t.Bytes) })
+						g.Go(func() error { return d.bucket.SetTile(ctx, t.Tile, t.Bytes) })
 						// Reset the width to zero
 						dataTile.Tile.W = 0
 						// Increment the tile index
@@ -382,7 +383,7 @@ func (d *stageTwoData) stageTwo(
 				// upload the partial data tile
 				if dataTile.Tile.W > 0 {
 					t := dataTile
-					g.Go(func() error { return d.bucket.SetTile(gctx, t.Tile, t.Bytes) })
+					g.Go(func() error { return d.bucket.SetTile(ctx, t.Tile, t.Bytes) })
 				}
 				d.edgeTiles[-1] = dataTile
 
@@ -395,7 +396,7 @@ func (d *stageTwoData) stageTwo(
 					if err != nil {
 						return fmt.Errorf("failed to read tile data for tile %v: %w", tile, err)
 					}
-					g.Go(func() error { return d.bucket.SetTile(gctx, tile, data) })
+					g.Go(func() error { return d.bucket.SetTile(ctx, tile, data) })
 					if err != nil {
 						return fmt.Errorf("failed to upload tile %v: %w", tile, err)
 					}
@@ -404,12 +405,12 @@ func (d *stageTwoData) stageTwo(
 				d.edgeTiles = newEdgeTiles
 
 				// ** Upload the v1 leaf record hash mappings **
-				g.Go(func() error { return d.bucket.PutRecordHashes(gctx, recordHashes, d.maskSize) })
+				g.Go(func() error { return d.bucket.PutRecordHashes(ctx, recordHashes, d.maskSize) })
 
 				// ** Upload new intermediate certificates **
 				for _, e := range pool {
 					for _, cert := range e.entry.Chain {
-						g.Go(func() error { return d.bucket.SetIssuer(gctx, cert) })
+						g.Go(func() error { return d.bucket.SetIssuer(ctx, cert) })
 					}
 				}
 
-- 
2.43.0

