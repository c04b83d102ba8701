From 9d968445233c451c663f1e8f261f106186c772f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 01/43] fix: merkletree.AddEntry updates the in-memory root
 only after the commit succeeded

---
 merkletree/merkletree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index b3d2dcf..494a7e8 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -476,12 +476,12 @@ func (mt *MerkleTree) AddEntry(e *Entry) error {
 	if err != nil {
 		return err
 	}
-	mt.rootKey = newRootKey
-	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, mt.rootKey[:])
+	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, newRootKey[:])
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	mt.rootKey = newRootKey
 	return nil
 }
 
-- 
2.43.0


From 16fd968a09b8680cfd5719e9cbde60495d2516da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 02/43] fix: merkletree.ImportTree respects writable and stores
 the imported root in the format NewMerkleTree reads back

---
 merkletree/merkletree.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 494a7e8..9c60a31 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -670,6 +670,10 @@ func deserializeKV(r io.Reader) ([]byte, []byte, error) {
 
 // ImportTree imports the tree from the output from the DumpTree function
 func (mt *MerkleTree) ImportTree(i io.Reader) error {
+	// verify that the MerkleTree is writable
+	if !mt.writable {
+		return ErrNotWritable
+	}
 	tx, err := mt.storage.NewTx()
 	if err != nil {
 		return err
@@ -678,6 +682,7 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 	defer mt.Unlock()
 
 	r := bufio.NewReader(i)
+	var root []byte
 	for {
 		k, v, err := deserializeKV(r)
 		if err == io.EOF {
@@ -685,19 +690,23 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 		} else if err != nil {
 			return err
 		}
+		if bytes.Equal(k, rootNodeValue) {
+			root = v
+			continue
+		}
 		tx.Put(k, v)
 	}
 
-	v, err := tx.Get(rootNodeValue)
-	if err != nil {
-		return err
+	if len(root) != ElemBytesLen {
+		return ErrInvalidDBValue
 	}
+	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, root)
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
 	mt.rootKey = &Hash{}
-	copy(mt.rootKey[:], v)
+	copy(mt.rootKey[:], root)
 
 	return nil
 }
-- 
2.43.0


From dabc904f0ef3419a0c9f1f0ec6924fe48ca41c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 03/43] fix: merkletree.Data.Equal compares every element, not
 only the index half

---
 merkletree/merkletree.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 9c60a31..8d1b133 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -78,8 +78,12 @@ func (d *Data) Bytes() (b [ElemBytesLen * DataLen]byte) {
 }
 
 func (d1 *Data) Equal(d2 *Data) bool {
-	return bytes.Equal(d1[0][:], d2[0][:]) && bytes.Equal(d1[1][:], d2[1][:]) &&
-		bytes.Equal(d1[2][:], d2[2][:]) && bytes.Equal(d1[3][:], d2[3][:])
+	for i := 0; i < DataLen; i++ {
+		if !bytes.Equal(d1[i][:], d2[i][:]) {
+			return false
+		}
+	}
+	return true
 }
 
 func (d Data) MarshalText() ([]byte, error) {
-- 
2.43.0


From eb20c78da13af35a3954fd301f7c9b7f8e9c509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 04/43] fix: merkletree.NewProofFromBytes rejects depths beyond
 the sibling bitmap and trailing bytes

---
 merkletree/merkletree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 8d1b133..62fec2d 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -800,6 +800,9 @@ func NewProofFromBytes(bs []byte) (*Proof, error) {
 		p.Existence = true
 	}
 	p.depth = uint(bs[1])
+	if p.depth > uint(8*len(p.notempties)) {
+		return nil, ErrInvalidProofBytes
+	}
 	copy(p.notempties[:], bs[proofFlagsLen:ElemBytesLen])
 	siblingBytes := bs[ElemBytesLen:]
 	sibIdx := 0
@@ -823,6 +826,8 @@ func NewProofFromBytes(bs []byte) (*Proof, error) {
 		}
 		copy(p.NodeAux.HIndex[:], nodeAuxBytes[:ElemBytesLen])
 		copy(p.NodeAux.HValue[:], nodeAuxBytes[ElemBytesLen:2*ElemBytesLen])
+	} else if len(siblingBytes) != len(p.Siblings)*ElemBytesLen {
+		return nil, ErrInvalidProofBytes
 	}
 	return p, nil
 }
-- 
2.43.0


From 8480b76963382b11f5365521f77b0c0d6680c892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 05/43] fix: merkletree.NewMerkleTree only starts an empty tree
 when no root is stored

---
 merkletree/merkletree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 62fec2d..d7daab3 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -233,7 +233,10 @@ type MerkleTree struct {
 func NewMerkleTree(storage db.Storage, maxLevels int) (*MerkleTree, error) {
 	mt := MerkleTree{storage: storage, maxLevels: maxLevels, writable: true}
 	_, gettedRoot, err := mt.dbGet(rootNodeValue)
-	if err != nil {
+	if err != nil && err != db.ErrNotFound {
+		return nil, err
+	}
+	if err == db.ErrNotFound {
 		tx, err := mt.storage.NewTx()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From d7ccb139657988720503f14e2628726e392420bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 06/43] fix: db.StorageList builds its keys in fresh memory
 instead of appending to shared prefixes

---
 db/storageutils.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/db/storageutils.go b/db/storageutils.go
index a1d131b..9da143a 100644
--- a/db/storageutils.go
+++ b/db/storageutils.go
@@ -44,9 +44,9 @@ type StorageList struct {
 // the dbPrefix in a Storage.
 func NewStorageList(dbPrefix []byte) *StorageList {
 	return &StorageList{
-		length:            NewStorageValue(append(dbPrefix, []byte("len")...)),
-		dbPrefixList:      append(dbPrefix, []byte("list:")...),
-		dbPrefixListByIdx: append(dbPrefix, []byte("byidx:")...),
+		length:            NewStorageValue(concat(dbPrefix, []byte("len"))),
+		dbPrefixList:      concat(dbPrefix, []byte("list:")),
+		dbPrefixListByIdx: concat(dbPrefix, []byte("byidx:")),
 	}
 }
 
@@ -67,8 +67,8 @@ func (sl *StorageList) Append(tx Tx, key []byte, value interface{}) error {
 	}
 	var idxBytes [4]byte
 	binary.LittleEndian.PutUint32(idxBytes[:], idx)
-	tx.Put(append(sl.dbPrefixList, key...), valueJSON)
-	tx.Put(append(sl.dbPrefixListByIdx, idxBytes[:]...), key)
+	tx.Put(concat(sl.dbPrefixList, key), valueJSON)
+	tx.Put(concat(sl.dbPrefixListByIdx, idxBytes[:]), key)
 	sl.length.Set(tx, idx+1)
 	return nil
 }
@@ -77,7 +77,7 @@ func (sl *StorageList) Append(tx Tx, key []byte, value interface{}) error {
 func (sl *StorageList) GetByIdx(tx Tx, idx uint32, value interface{}) ([]byte, error) {
 	var idxBytes [4]byte
 	binary.LittleEndian.PutUint32(idxBytes[:], idx)
-	key, err := tx.Get(append(sl.dbPrefixListByIdx, idxBytes[:]...))
+	key, err := tx.Get(concat(sl.dbPrefixListByIdx, idxBytes[:]))
 	if err != nil {
 		return nil, err
 	}
@@ -87,7 +87,7 @@ func (sl *StorageList) GetByIdx(tx Tx, idx uint32, value interface{}) ([]byte, e
 
 // GetByIdx returns the value given the key of the StorageList in an open db transaction.
 func (sl *StorageList) Get(tx Tx, key []byte, value interface{}) error {
-	valueJSON, err := tx.Get(append(sl.dbPrefixList, key...))
+	valueJSON, err := tx.Get(concat(sl.dbPrefixList, key))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From bb3792a35ddbc452b4e12550abc8857ac83324eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 07/43] fix: keystore.Sign and VerifySignature no longer append
 into the caller's prefix

---
 keystore/keystore.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 04ead5f..e70175f 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -353,13 +353,20 @@ func (ks *KeyStore) SignElem(pk *babyjub.PublicKeyComp, msg *big.Int) (*babyjub.
 	return &sigComp, nil
 }
 
+// signedMsg returns the [prefix | date | msg] byte slice in fresh memory.
+func signedMsg(prefix PrefixType, date int64, rawMsg []byte) []byte {
+	dateBytes := common.Uint64ToEthBytes(uint64(date))
+	msg := make([]byte, 0, len(prefix)+len(dateBytes)+len(rawMsg))
+	msg = append(msg, prefix...)
+	msg = append(msg, dateBytes...)
+	return append(msg, rawMsg...)
+}
+
 // Sign uses the key corresponding to the public key pk to sign the mimc7 hash
 // of the [prefix | date | msg] byte slice.
 func (ks *KeyStore) Sign(pk *babyjub.PublicKeyComp, prefix PrefixType, rawMsg []byte) (*babyjub.SignatureComp, int64, error) {
 	date := time.Now()
-	msg := append(prefix, common.Uint64ToEthBytes(uint64(date.Unix()))...)
-	msg = append(msg, rawMsg...)
-	sig, err := ks.SignRaw(pk, msg)
+	sig, err := ks.SignRaw(pk, signedMsg(prefix, date.Unix(), rawMsg))
 	return sig, date.Unix(), err
 }
 
@@ -389,9 +396,7 @@ func VerifySignatureElem(pkComp *babyjub.PublicKeyComp, msg *big.Int, sigComp *b
 // VerifySignature verifies that the signature sigComp of the poseidon hash of
 // the [prefix | date | msg] byte slice was signed with the public key pkComp.
 func VerifySignature(pkComp *babyjub.PublicKeyComp, sigComp *babyjub.SignatureComp, prefix PrefixType, date int64, rawMsg []byte) (bool, error) {
-	msg := append(prefix, common.Uint64ToEthBytes(uint64(date))...)
-	msg = append(msg, rawMsg...)
-	return VerifySignatureRaw(pkComp, sigComp, msg)
+	return VerifySignatureRaw(pkComp, sigComp, signedMsg(prefix, date, rawMsg))
 }
 
 // VerifySignatureRaw verifies that the signature sigComp of the poseidon hash of
-- 
2.43.0


From efd6421a4036c78df2db8b5d50e852c121c5a6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 08/43] fix: dated message signing and verification no longer
 append into the caller's message

---
 components/idensigner/idensigner.go | 2 +-
 crypto/signatures.go                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/components/idensigner/idensigner.go b/components/idensigner/idensigner.go
index 09bac2b..cfd95bf 100644
--- a/components/idensigner/idensigner.go
+++ b/components/idensigner/idensigner.go
@@ -38,6 +38,6 @@ func (s *IdenSigner) SignEthMsg(msg []byte) (*babyjub.SignatureComp, error) {
 func (s *IdenSigner) SignEthMsgDate(msg []byte) (*babyjub.SignatureComp, int64, error) {
 	dateInt64 := time.Now().Unix()
 	dateBytes := common.Uint64ToEthBytes(uint64(dateInt64))
-	sig, err := s.SignEthMsg(append(msg, dateBytes...))
+	sig, err := s.SignEthMsg(append(append([]byte{}, msg...), dateBytes...))
 	return sig, dateInt64, err
 }
diff --git a/crypto/signatures.go b/crypto/signatures.go
index 6de1c6d..a5541fb 100644
--- a/crypto/signatures.go
+++ b/crypto/signatures.go
@@ -78,7 +78,7 @@ func VerifySigEthMsg(addr common.Address, sig *SignatureEthMsg, msg []byte) bool
 // appended given an ethereum address.
 func VerifySigEthMsgDate(addr common.Address, sig *SignatureEthMsg, msg []byte, date int64) bool {
 	dateBytes := common3.Uint64ToEthBytes(uint64(date))
-	return VerifySigEthMsg(addr, sig, append(msg[:], dateBytes...))
+	return VerifySigEthMsg(addr, sig, append(append([]byte{}, msg...), dateBytes...))
 }
 
 // VerifySig verifies a given signature and the msgHash with the expected address
-- 
2.43.0


From a77b395a6124b7309376a05339ffd253393e1354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 09/43] fix: keystore.Close takes the lock and forgets the keys
 it zeroes

---
 keystore/keystore.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index e70175f..d5dc7a0 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -265,9 +265,12 @@ func NewKeyStore(storage Storage, params KeyStoreParams) (*KeyStore, error) {
 }
 
 func (ks *KeyStore) Close() error {
+	ks.rw.Lock()
+	defer ks.rw.Unlock()
 	zero := [32]byte{}
-	for _, sk := range ks.cache {
+	for pk, sk := range ks.cache {
 		copy(sk[:], zero[:])
+		delete(ks.cache, pk)
 	}
 	return ks.storage.Unlock()
 }
-- 
2.43.0


From 6fa6ae034bba31b4ad5c65747522818dbfeb4741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 10/43] fix: keystore.FileStorage.Write replaces the key file
 atomically

---
 keystore/keystore.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index d5dc7a0..a05f2b2 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -177,7 +177,30 @@ func (fs *FileStorage) Write(data []byte) error {
 	if !fs.lock.Locked() {
 		return ErrStorageUnlocked
 	}
-	return ioutil.WriteFile(fs.path, data, 0600)
+	// Write to a temporary file first so that a crash never leaves a
+	// truncated key file behind.
+	tmpPath := fs.path + ".tmp"
+	if err := writeFileSync(tmpPath, data, 0600); err != nil {
+		return err
+	}
+	return os.Rename(tmpPath, fs.path)
+}
+
+// writeFileSync writes data to a new file in path and flushes it to disk.
+func writeFileSync(path string, data []byte, perm os.FileMode) error {
+	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
+	if err != nil {
+		return err
+	}
+	if _, err := f.Write(data); err != nil {
+		f.Close() //nolint:errcheck
+		return err
+	}
+	if err := f.Sync(); err != nil {
+		f.Close() //nolint:errcheck
+		return err
+	}
+	return f.Close()
 }
 
 // TryLocks the storage file with a .lock file.
-- 
2.43.0


From b38ce8fc99e5413c8321d7d785b625a9ed35a760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 11/43] fix: keystore.ImportKey only lists a key once it has
 been stored

---
 keystore/keystore.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index a05f2b2..544989f 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -325,14 +325,19 @@ func (ks *KeyStore) ImportKey(sk babyjub.PrivateKey, pass []byte) (*babyjub.Publ
 	}
 	pk := sk.Public()
 	pubComp := pk.Compress()
-	ks.encryptedKeys[pubComp] = *encryptedKey
-	encryptedKeysJSON, err := json.Marshal(ks.encryptedKeys)
+	encryptedKeys := make(KeysStored, len(ks.encryptedKeys)+1)
+	for k, v := range ks.encryptedKeys {
+		encryptedKeys[k] = v
+	}
+	encryptedKeys[pubComp] = *encryptedKey
+	encryptedKeysJSON, err := json.Marshal(encryptedKeys)
 	if err != nil {
 		return nil, err
 	}
 	if err := ks.storage.Write(encryptedKeysJSON); err != nil {
 		return nil, err
 	}
+	ks.encryptedKeys = encryptedKeys
 	return &pubComp, nil
 }
 
-- 
2.43.0


From 08dc3e14e8c70dfa5816b5412368365822eb7b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 12/43] fix: noncedb.DeleteOld does not delete a live nonce
 added again after its first use

---
 utils/noncedb/nonce_db.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/noncedb/nonce_db.go b/utils/noncedb/nonce_db.go
index 06e29e2..f35cbd0 100644
--- a/utils/noncedb/nonce_db.go
+++ b/utils/noncedb/nonce_db.go
@@ -186,7 +186,10 @@ func (ndb *NonceDb) DeleteOld() {
 		}
 		if nObj.Expiration < now {
 			ndb.noncesHeap.Pop()
-			delete(ndb.nonceObjsByNonce, nObj.Nonce)
+			// the nonce may have been consumed and added again
+			if ndb.nonceObjsByNonce[nObj.Nonce] == nObj {
+				delete(ndb.nonceObjsByNonce, nObj.Nonce)
+			}
 		} else {
 			break
 		}
-- 
2.43.0


From 2c1fc28bbc8b46b27ee84dbd1a56881f52510328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 13/43] fix: writerhttp finds the last published slot for every
 cache length

---
 components/idenpuboffchain/writerhttp/writerhttp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 2807ca9..445e877 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -134,7 +134,8 @@ func (i *IdenPubOffChainWriteHttp) prevCacheIdx(tx db.Tx) (byte, error) {
 	if err != nil {
 		return 0, err
 	}
-	return (cacheIdx[0] - 1) % i.cfg.CacheLen, nil
+	cacheLen := int(i.cfg.CacheLen)
+	return byte((int(cacheIdx[0]) + cacheLen - 1) % cacheLen), nil
 }
 
 // nextCacheIdx returns the current cacheIdx and stores the next one.
-- 
2.43.0


From a774a4855d78fce77cc07f2b574b8d0148f5a220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 14/43] fix: writerhttp reports ErrIdenStateNotFound for
 unknown states while the cache is not full

---
 components/idenpuboffchain/writerhttp/writerhttp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 445e877..43edc1c 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -186,7 +186,9 @@ func (i *IdenPubOffChainWriteHttp) GetPublicData(queryIdenState *merkletree.Hash
 		for ; cacheIdx < i.cfg.CacheLen; cacheIdx++ {
 			// idenState
 			idenState, err := tx.Get(keyIdx(dbKeyIdenState, cacheIdx))
-			if err != nil {
+			if err == db.ErrNotFound {
+				continue // slot not used yet
+			} else if err != nil {
 				return nil, err
 			}
 			if bytes.Equal(queryIdenState[:], idenState) {
-- 
2.43.0


From d0abf104f54218739b9a87a232892db4649e18c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 15/43] fix: claims.ClaimHeader.Unmarshal shifts SubjectPos
 back, so that claims with the subject in the value can be read

---
 core/claims/claim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/claims/claim.go b/core/claims/claim.go
index e8628fa..ac48ccd 100644
--- a/core/claims/claim.go
+++ b/core/claims/claim.go
@@ -188,7 +188,7 @@ func (c *ClaimHeader) Unmarshal(e *merkletree.Entry) {
 	copy(c.Type[:], index[0][:ClaimTypeLen])
 	flags0 := index[0][ClaimTypeLen]
 	c.Subject = ClaimSubject(flags0 & 0b00000011)
-	c.SubjectPos = ClaimSubjectPos(flags0 & (1 << 2))
+	c.SubjectPos = ClaimSubjectPos((flags0 >> 2) & 1)
 	c.Expiration = byte2bool(flags0 & (1 << 3))
 	c.Version = byte2bool(flags0 & (1 << 4))
 }
-- 
2.43.0


From f98116cd621f9e614c56ee9b4798552d234d59e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 16/43] fix: roots outside the field in credentials and public
 data are an error instead of a panic

---
 components/idenpuboffchain/idenpuboffchain.go |  5 ++++-
 components/verifier/verifier.go               | 10 ++++++++--
 core/id.go                                    | 16 +++++++++++++---
 identity/holder/holder.go                     |  5 ++++-
 4 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/components/idenpuboffchain/idenpuboffchain.go b/components/idenpuboffchain/idenpuboffchain.go
index b0a9f2d..cb5a38a 100644
--- a/components/idenpuboffchain/idenpuboffchain.go
+++ b/components/idenpuboffchain/idenpuboffchain.go
@@ -72,8 +72,11 @@ func NewPublicDataFromBlobs(publicDataBlobs *PublicDataBlobs) (*PublicData, erro
 		return nil, fmt.Errorf("Imported roots tree root (%v) doesn't match the expected root (%v)",
 			rootsTree.RootKey(), publicDataBlobs.RootsTreeRoot)
 	}
-	idenState := core.IdenState(&publicDataBlobs.ClaimsTreeRoot,
+	idenState, err := core.CalculateIdenState(&publicDataBlobs.ClaimsTreeRoot,
 		&publicDataBlobs.RevocationsTreeRoot, &publicDataBlobs.RootsTreeRoot)
+	if err != nil {
+		return nil, err
+	}
 	if !idenState.Equals(&publicDataBlobs.IdenState) {
 		return nil, ErrCalculatedIdenStateDoesntMatch
 	}
diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index f947ed2..e7f5ab1 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -69,7 +69,10 @@ func (v *Verifier) VerifyCredentialExistence(credExist *proof.CredentialExistenc
 	if err != nil {
 		return err
 	}
-	idenState := core.IdenState(claimsRoot, credExist.RevocationsTreeRoot, credExist.RootsTreeRoot)
+	idenState, err := core.CalculateIdenState(claimsRoot, credExist.RevocationsTreeRoot, credExist.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
 	if !idenState.Equals(credExist.IdenStateData.IdenState) {
 		return ErrCalculatedIdenStateDoesntMatch
 	}
@@ -149,7 +152,10 @@ func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity,
 	if err != nil {
 		return err
 	}
-	idenState := core.IdenState(credValid.ClaimsTreeRoot, revocationsTreeRoot, credValid.RootsTreeRoot)
+	idenState, err := core.CalculateIdenState(credValid.ClaimsTreeRoot, revocationsTreeRoot, credValid.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
 	if !idenState.Equals(credValid.IdenStateData.IdenState) {
 		return ErrCalculatedIdenStateDoesntMatch
 	}
diff --git a/core/id.go b/core/id.go
index d8968e5..a1c09c8 100644
--- a/core/id.go
+++ b/core/id.go
@@ -154,15 +154,25 @@ func IdGenesisFromIdenState(hash *merkletree.Hash) *ID {
 
 // IdenState calculates the Identity State from the Claims Tree Root, Revocation Tree Root and Roots Tree Root.
 func IdenState(clr *merkletree.Hash, rer *merkletree.Hash, ror *merkletree.Hash) *merkletree.Hash {
+	idenState, err := CalculateIdenState(clr, rer, ror)
+	if err != nil {
+		panic(err)
+	}
+	return idenState
+}
+
+// CalculateIdenState is like IdenState, but returns an error when a root is not
+// an element of the field.  It must be used for roots that come from outside.
+func CalculateIdenState(clr *merkletree.Hash, rer *merkletree.Hash, ror *merkletree.Hash) (*merkletree.Hash, error) {
 	bi, err := merkletree.ElemBytesToPoseidonInput(merkletree.ElemBytes(*clr),
 		merkletree.ElemBytes(*rer),
 		merkletree.ElemBytes(*ror))
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	idenState, err := poseidon.PoseidonHash(bi)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
-	return merkletree.NewHashFromBigInt(idenState)
+	return merkletree.NewHashFromBigInt(idenState), nil
 }
diff --git a/identity/holder/holder.go b/identity/holder/holder.go
index 5687ce6..cbab115 100644
--- a/identity/holder/holder.go
+++ b/identity/holder/holder.go
@@ -104,8 +104,11 @@ func (h *Holder) HolderGetCredentialValidityData(
 	}
 
 	// Verify that the returned public data is consistent with the queried IdenState
-	idenState := core.IdenState(publicData.ClaimsTreeRoot, publicData.RevocationsTree.RootKey(),
+	idenState, err := core.CalculateIdenState(publicData.ClaimsTreeRoot, publicData.RevocationsTree.RootKey(),
 		publicData.RootsTree.RootKey())
+	if err != nil {
+		return nil, err
+	}
 	if !idenState.Equals(idenStateData.IdenState) {
 		return nil, ErrCalculatedIdenStateDoesntMatch
 	}
-- 
2.43.0


From 14941e1f93ec1a4aa4b02364bff692ec74abf59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 17/43] fix: issuer.PublishState does not close a nil
 transaction when it cannot be opened

---
 identity/issuer/issuer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index dd80a2d..488b61f 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -660,10 +660,10 @@ func (is *Issuer) PublishState() error {
 	idenState, idenStateTreeRoots := is.state()
 
 	tx0, err := is.storage.NewTx() // Read only Tx
-	defer tx0.Close()
 	if err != nil {
 		return err
 	}
+	defer tx0.Close()
 	idenStateLast, idenStateTreeRootsLast, err := is.getIdenStateByIdx(tx0, -1)
 	if err != nil {
 		return err
-- 
2.43.0


From 45cfe2197e40ac46a30d3c16bb4d27681f72a630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 18/43] fix: issuer.PublishState retries with the stored
 pending state, not with whatever the trees hold now

---
 identity/issuer/issuer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 488b61f..26de648 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -703,7 +703,11 @@ func (is *Issuer) PublishState() error {
 			return err
 		}
 	} else {
-		idenStateLast, idenStateTreeRootsLast, err = is.getIdenStateByIdx(tx0, -2)
+		// A previous call stored the pending IdenState (the last one in
+		// the list) but didn't get to send it: send that one, even if
+		// the trees have changed since then.
+		idenState, idenStateTreeRoots = idenStateLast, *idenStateTreeRootsLast
+		idenStateLast, _, err = is.getIdenStateByIdx(tx0, -2)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From d312fbbe7f36cff294ce4b73902af2291c97a458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 19/43] fix: issuer.PublishState can be called again after
 failing between adding the claims root and storing the state

---
 identity/issuer/issuer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 26de648..cbf1f8b 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -682,7 +682,10 @@ func (is *Issuer) PublishState() error {
 		// If the ClaimsTreeRoot has changed (claims have been added), add the
 		// ClaimsTreeRoot to the RootsTree.
 		if !idenStateTreeRoots.ClaimsTreeRoot.Equals(idenStateTreeRootsLast.ClaimsTreeRoot) {
-			if err := claims.AddLeafRootsTree(is.rootsTree, idenStateTreeRoots.ClaimsTreeRoot); err != nil {
+			// The root may already be there if a previous call failed
+			// after adding it.
+			if err := claims.AddLeafRootsTree(is.rootsTree, idenStateTreeRoots.ClaimsTreeRoot); err != nil &&
+				err != merkletree.ErrEntryIndexAlreadyExists {
 				return err
 			}
 			idenState, idenStateTreeRoots = is.state()
-- 
2.43.0


From a6870ff89786dd9820460e6918fab8428b34f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 20/43] fix: issuer.IssueClaim leaves the claim metadata alone
 when the claim is not added

---
 identity/issuer/issuer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index cbf1f8b..5a9dcdd 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -597,9 +597,11 @@ func (is *Issuer) IssueClaim(claim claims.Claimer) error {
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	revNoncePrev := claim.Metadata().RevNonce
 	claim.Metadata().RevNonce = nonce
 	err = is.claimsTree.AddClaim(claim)
 	if err != nil {
+		claim.Metadata().RevNonce = revNoncePrev
 		return err
 	}
 	return nil
-- 
2.43.0


From 4d75bf0845575a4384db091c60a8e830fe4c798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 21/43] fix: issuer.IdenStateOnChain and IdenStatePending take
 the lock

---
 identity/issuer/issuer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 5a9dcdd..0fe2ec4 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -144,6 +144,8 @@ func (is *Issuer) loadIdenStateDataOnChain() error {
 }
 
 func (is *Issuer) IdenStateOnChain() *merkletree.Hash {
+	is.rw.RLock()
+	defer is.rw.RUnlock()
 	return is._idenStateDataOnChain.IdenState
 }
 
@@ -152,6 +154,8 @@ func (is *Issuer) idenStateOnChain() *merkletree.Hash {
 }
 
 func (is *Issuer) IdenStatePending() (*merkletree.Hash, bool) {
+	is.rw.RLock()
+	defer is.rw.RUnlock()
 	return is._idenStatePending, is._idenStatePendingTransacted
 }
 
-- 
2.43.0


From e3193c600aeffb2baf601f9777fb86f6e69994f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:07 +0000
Subject: [PATCH 22/43] fix: issuer.SignBinary does not append into the
 caller's prefix

---
 identity/issuer/issuer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 0fe2ec4..ac253b1 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -818,7 +818,8 @@ func (is *Issuer) Sign(string) (string, error) {
 
 // SignBinary signs a binary message by the kOp of the issuer.
 func (is *Issuer) SignBinary(prefix, msg []byte) (*babyjub.SignatureComp, error) {
-	return is.keyStore.SignRaw(is.kOpComp, append(prefix, msg...))
+	prefixedMsg := append(append([]byte{}, prefix...), msg...)
+	return is.keyStore.SignRaw(is.kOpComp, prefixedMsg)
 }
 
 // SignState signs the Identity State transition (oldState+newState) by the kOp of the issuer.
-- 
2.43.0


From 4f747b3d30123a83a623919b81065d5d8e2680c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:35 +0000
Subject: [PATCH 23/43] fix: issuer changes its pending and on chain states in
 memory only once they are stored

---
 identity/issuer/issuer.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index ac253b1..30ff0b5 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -133,9 +133,13 @@ type Issuer struct {
 
 func (is *Issuer) idenStateDataOnChain() *proof.IdenStateData { return is._idenStateDataOnChain }
 
+func (is *Issuer) putIdenStateDataOnChain(tx db.Tx, v *proof.IdenStateData) error {
+	return db.StoreJSON(tx, dbKeyIdenStateDataOnChain, v)
+}
+
 func (is *Issuer) setIdenStateDataOnChain(tx db.Tx, v *proof.IdenStateData) error {
 	is._idenStateDataOnChain = v
-	return db.StoreJSON(tx, dbKeyIdenStateDataOnChain, v)
+	return is.putIdenStateDataOnChain(tx, v)
 }
 
 func (is *Issuer) loadIdenStateDataOnChain() error {
@@ -182,6 +186,10 @@ func bool2byte(v bool) byte {
 func (is *Issuer) setIdenStatePending(tx db.Tx, v *merkletree.Hash, transacted bool) {
 	is._idenStatePending = v
 	is._idenStatePendingTransacted = transacted
+	is.putIdenStatePending(tx, v, transacted)
+}
+
+func (is *Issuer) putIdenStatePending(tx db.Tx, v *merkletree.Hash, transacted bool) {
 	tx.Put(dbKeyIdenStatePending, v[:])
 	tx.Put(dbKeyIdenStatePendingTransacted, []byte{bool2byte(transacted)})
 }
@@ -564,13 +572,16 @@ func (is *Issuer) SyncIdenStatePublic() error {
 		if err != nil {
 			return err
 		}
-		is.setIdenStatePending(tx, &merkletree.HashZero, false)
-		if err := is.setIdenStateDataOnChain(tx, idenStateData); err != nil {
+		is.putIdenStatePending(tx, &merkletree.HashZero, false)
+		if err := is.putIdenStateDataOnChain(tx, idenStateData); err != nil {
 			return err
 		}
 		if err := tx.Commit(); err != nil {
 			return err
 		}
+		// Only change the values in memory once they are stored.
+		is._idenStatePending, is._idenStatePendingTransacted = &merkletree.HashZero, false
+		is._idenStateDataOnChain = idenStateData
 		return nil
 	}
 
@@ -706,11 +717,13 @@ func (is *Issuer) PublishState() error {
 			return err
 		}
 
-		is.setIdenStatePending(tx, idenState, false)
+		is.putIdenStatePending(tx, idenState, false)
 
 		if err := tx.Commit(); err != nil {
 			return err
 		}
+		// Only change the values in memory once they are stored.
+		is._idenStatePending, is._idenStatePendingTransacted = idenState, false
 	} else {
 		// A previous call stored the pending IdenState (the last one in
 		// the list) but didn't get to send it: send that one, even if
-- 
2.43.0


From 9ee0ac6e947130f58de2eee8fb2906dbb6fc7c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 24/43] fix: merkletree.DumpTree dumps the nodes and the root
 record of one same root

---
 merkletree/merkletree.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index d7daab3..8729c9a 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -594,12 +594,18 @@ func (mt *MerkleTree) PrintGraphViz(rootKey *Hash) error {
 // to compute the Tree, while with DumpClaims will require to compute the Tree
 // (with the computational cost of each hash)
 func (mt *MerkleTree) DumpTree(w io.Writer, rootKey *Hash) error {
+	// Use a single root for the nodes and for the root record, even if
+	// entries are added meanwhile.
+	if rootKey == nil {
+		rootKey = mt.RootKey()
+	}
 	var errS error
 	err := mt.Walk(rootKey, func(n *Node) {
 		if n.Type != NodeTypeEmpty {
 			k, err := n.Key()
 			if err != nil {
 				errS = err
+				return
 			}
 			err = serializeKV(w, k.Bytes(), n.Value())
 			if err != nil {
@@ -614,9 +620,6 @@ func (mt *MerkleTree) DumpTree(w io.Writer, rootKey *Hash) error {
 		return errS
 	}
 
-	if rootKey == nil {
-		rootKey = mt.RootKey()
-	}
 	err = serializeKV(w, rootNodeValue, rootKey.Bytes())
 
 	return err
-- 
2.43.0


From d2e49dc24dea272ff3e5090d000b4f8d089a9fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 25/43] fix: merkletree.PrintGraphViz prints the tree of the
 given root

---
 merkletree/merkletree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 8729c9a..dcab538 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -574,7 +574,7 @@ func (mt *MerkleTree) PrintGraphViz(rootKey *Hash) error {
 	}
 	w := bytes.NewBufferString("")
 	fmt.Fprintf(w, "--------\nGraphViz of the MerkleTree with RootKey "+rootKey.Hex()+"\n")
-	err := mt.GraphViz(w, nil)
+	err := mt.GraphViz(w, rootKey)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1a815df55e627624d4de0c53135f0a35abc5af88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 26/43] fix: merkletree.DumpClaimsIoWriter reports write errors

---
 merkletree/merkletree.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index dcab538..7bed572 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -724,13 +724,24 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 // DumpClaimsIoWriter uses Walk function to get all the Claims of the tree and write
 // them to w.  The output is JSON encoded with claims in hex.
 func (mt *MerkleTree) DumpClaimsIoWriter(w io.Writer, rootKey *Hash) error {
-	fmt.Fprintf(w, "[\n")
+	if _, err := fmt.Fprintf(w, "[\n"); err != nil {
+		return err
+	}
+	var errW error
 	err := mt.Walk(rootKey, func(n *Node) {
 		if n.Type == NodeTypeLeaf {
-			fmt.Fprintf(w, "	\"%v\",\n", common3.HexEncode(n.Entry.Bytes()))
+			if _, err := fmt.Fprintf(w, "	\"%v\",\n", common3.HexEncode(n.Entry.Bytes())); err != nil {
+				errW = err
+			}
 		}
 	})
-	fmt.Fprintf(w, "]\n")
+	if err != nil {
+		return err
+	}
+	if errW != nil {
+		return errW
+	}
+	_, err = fmt.Fprintf(w, "]\n")
 	return err
 }
 
-- 
2.43.0


From 99b7bf414e7f7e3d8363513e391e1d8e950e39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 27/43] fix: zk.DebugDownloadPrintHashes reports download
 errors

---
 utils/zk/zk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/zk/zk.go b/utils/zk/zk.go
index 5a5bb19..3e88d2f 100644
--- a/utils/zk/zk.go
+++ b/utils/zk/zk.go
@@ -316,7 +316,7 @@ func (z *ZkFiles) DebugDownloadPrintHashes(provingKeyFormat ProvingKeyFormat) er
 	defer os.RemoveAll(dir) // clean up
 	z0 := NewZkFiles(z.Url, dir, provingKeyFormat, ZkFilesHashes{}, false)
 	if err := z0.InsecureDownloadAll(); err != nil {
-		return nil
+		return err
 	}
 	hashes, err := z0.InsecureCalcHashes()
 	if err != nil {
-- 
2.43.0


From 52f8f3d648701838eb2698c1961a0968d86927fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 28/43] fix: common.Base64Decode does not panic on strings
 shorter than 3 bytes

---
 common/common.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/common.go b/common/common.go
index 5c531c4..72b3231 100644
--- a/common/common.go
+++ b/common/common.go
@@ -20,6 +20,9 @@ func Base64ToBytes(base64String string) ([]byte, error) {
 // of bytes.
 func Base64Decode(b64 string) ([]byte, error) {
 	l := len(b64)
+	if l < 3 {
+		return base64.RawStdEncoding.DecodeString(b64)
+	}
 	if b64[l-3] == '=' {
 		b64 = b64[:l-3]
 	} else if b64[l-2] == '=' {
-- 
2.43.0


From fdd7df30510c0a5813960e3cd6165b26aeaf1564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 29/43] fix: db.MemoryStorage can be used from several
 goroutines

---
 db/memory.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/db/memory.go b/db/memory.go
index 8d6dcfd..0807500 100644
--- a/db/memory.go
+++ b/db/memory.go
@@ -3,11 +3,14 @@ package db
 import (
 	"bytes"
 	"sort"
+	"sync"
 )
 
 type MemoryStorage struct {
 	prefix []byte
-	kv     kvMap
+	// mutex protects kv, and is shared, like kv, with the storages made by WithPrefix.
+	mutex *sync.RWMutex
+	kv    kvMap
 }
 
 type MemoryStorageTx struct {
@@ -17,7 +20,7 @@ type MemoryStorageTx struct {
 
 func NewMemoryStorage() *MemoryStorage {
 	kvmap := make(kvMap)
-	return &MemoryStorage{[]byte{}, kvmap}
+	return &MemoryStorage{[]byte{}, &sync.RWMutex{}, kvmap}
 }
 
 func (l *MemoryStorage) Info() string {
@@ -25,7 +28,7 @@ func (l *MemoryStorage) Info() string {
 }
 
 func (m *MemoryStorage) WithPrefix(prefix []byte) Storage {
-	return &MemoryStorage{concat(m.prefix, prefix), m.kv}
+	return &MemoryStorage{concat(m.prefix, prefix), m.mutex, m.kv}
 }
 
 func (m *MemoryStorage) NewTx() (Tx, error) {
@@ -34,7 +37,8 @@ func (m *MemoryStorage) NewTx() (Tx, error) {
 
 // Get retreives a value from a key in the mt.Lvl
 func (l *MemoryStorage) Get(key []byte) ([]byte, error) {
-
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if v, ok := l.kv.Get(concat(l.prefix, key[:])); ok {
 		return v, nil
 	}
@@ -43,6 +47,7 @@ func (l *MemoryStorage) Get(key []byte) ([]byte, error) {
 
 func (l *MemoryStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 	kvs := make([]KV, 0)
+	l.mutex.RLock()
 	for _, v := range l.kv {
 		if len(v.K) < len(l.prefix) || !bytes.Equal(v.K[:len(l.prefix)], l.prefix) {
 			continue
@@ -51,6 +56,7 @@ func (l *MemoryStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 		kvs = append(kvs, KV{localkey, v.V})
 
 	}
+	l.mutex.RUnlock()
 	sort.SliceStable(kvs, func(i, j int) bool { return bytes.Compare(kvs[i].K, kvs[j].K) < 0 })
 
 	for _, kv := range kvs {
@@ -68,6 +74,8 @@ func (tx *MemoryStorageTx) Get(key []byte) ([]byte, error) {
 	if v, ok := tx.kv.Get(concat(tx.s.prefix, key)); ok {
 		return v, nil
 	}
+	tx.s.mutex.RLock()
+	defer tx.s.mutex.RUnlock()
 	if v, ok := tx.s.kv.Get(concat(tx.s.prefix, key)); ok {
 		return v, nil
 	}
@@ -80,6 +88,8 @@ func (tx *MemoryStorageTx) Put(k, v []byte) {
 }
 
 func (tx *MemoryStorageTx) Commit() error {
+	tx.s.mutex.Lock()
+	defer tx.s.mutex.Unlock()
 	for _, v := range tx.kv {
 		tx.s.kv.Put(v.K, v.V)
 	}
-- 
2.43.0


From 8cee15698b83d409349232a5081ceb425c47bc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:50 +0000
Subject: [PATCH 30/43] fix: GenCredentialExistence only reports a claim as not
 found when it is absent

---
 identity/issuer/issuer.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 30ff0b5..b1aff60 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -867,6 +867,15 @@ func generateExistenceMTProof(mt *merkletree.MerkleTree, hi, root *merkletree.Ha
 	return mtp, nil
 }
 
+// claimNotFoundErr translates the error of looking up an entry: only an absent
+// (or different) entry means that the claim is not found.
+func claimNotFoundErr(err error) error {
+	if err == merkletree.ErrEntryIndexNotFound || err == merkletree.ErrEntryDataNotMatch {
+		return ErrClaimNotFoundClaimsTree
+	}
+	return err
+}
+
 // GenCredentialExistence generates an existence credential (claim + proof of
 // existence) of an issued claim.  The result contains all data necessary to
 // validate the credential against the Identity State found in the blockchain.
@@ -900,20 +909,22 @@ func (is *Issuer) GenCredentialExistence(claim merkletree.Entrier) (*proof.Crede
 	}
 	mtpExist, err := generateExistenceMTProof(is.claimsTree, hi,
 		idenStateTreeRoots.ClaimsTreeRoot)
-	if err != nil {
-		// We were unable to generate a proof from the claims tree
-		// associated with the on chain identity state.  Check if the
-		// claim exists in the current claims tree.
+	if err == ErrClaimNotFoundStateOnChain {
+		// The claim is not in the claims tree associated with the on
+		// chain identity state.  Check if the claim exists in the
+		// current claims tree.
 		if err := is.claimsTree.EntryExists(claimEntry, nil); err != nil {
-			return nil, ErrClaimNotFoundClaimsTree
+			return nil, claimNotFoundErr(err)
 		} else {
 			return nil, ErrClaimNotYetInOnChainState
 		}
+	} else if err != nil {
+		return nil, err
 	} else {
 		// We were able to generate a proof from the claims tree with
 		// the HIndex.  Check the HValue is also valid!
 		if err := is.claimsTree.EntryExists(claimEntry, idenStateTreeRoots.ClaimsTreeRoot); err != nil {
-			return nil, ErrClaimNotFoundClaimsTree
+			return nil, claimNotFoundErr(err)
 		}
 	}
 	return &proof.CredentialExistence{
-- 
2.43.0


From a4e385e46cb17e59446362e91cdb5470c34fbc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 31/43] fix: HexToClaimGeneric keeps the header of the claim
 and refuses other lengths

---
 core/claims/utils.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/claims/utils.go b/core/claims/utils.go
index 757d865..cb28aad 100644
--- a/core/claims/utils.go
+++ b/core/claims/utils.go
@@ -2,6 +2,7 @@ package claims
 
 import (
 	"encoding/hex"
+	"fmt"
 
 	common3 "github.com/iden3/go-iden3-core/common"
 	"github.com/iden3/go-iden3-core/merkletree"
@@ -33,15 +34,15 @@ func HexToClaimGeneric(h string) (ClaimGeneric, error) {
 		return ClaimGeneric{}, err
 	}
 	var dataBytes [merkletree.ElemBytesLen * merkletree.DataLen]byte
+	if len(bytesValue) != len(dataBytes) {
+		return ClaimGeneric{}, fmt.Errorf("invalid claim length: %v bytes", len(bytesValue))
+	}
 	copy(dataBytes[:], bytesValue)
 	data := merkletree.NewDataFromBytes(dataBytes)
 	entry := merkletree.Entry{
 		Data: *data,
 	}
-	entrier := ClaimGeneric{
-		entry: &entry,
-	}
-	return entrier, nil
+	return *NewClaimGeneric(&entry), nil
 }
 
 func HexArrayToClaimGenericArray(arrH []string) ([]ClaimGeneric, error) {
-- 
2.43.0


From ddbb59462ea3d6a8baea83336739311e0781b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:41 +0000
Subject: [PATCH 32/43] fix: Metadata.UnmarshalJSON refuses a subject without
 ID

---
 core/claims/claim.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/claims/claim.go b/core/claims/claim.go
index ac48ccd..e1efdc2 100644
--- a/core/claims/claim.go
+++ b/core/claims/claim.go
@@ -320,6 +320,9 @@ func (m *Metadata) UnmarshalJSON(b []byte) error {
 		return err
 	}
 	if m.header.Subject != ClaimSubjectSelf {
+		if metadata.ID == nil {
+			return fmt.Errorf("missing ID of the claim subject")
+		}
 		m.Subject = metadata.ID
 	}
 	if m.header.Expiration {
-- 
2.43.0


From d2f31478f7fc84ec3e11c15729aea418e1b8091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 33/43] fix: a generic claim serialises into a new entry,
 hashes cached before a nonce change are not reused

---
 core/claims/utils.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/claims/utils.go b/core/claims/utils.go
index cb28aad..1aa5f9e 100644
--- a/core/claims/utils.go
+++ b/core/claims/utils.go
@@ -20,8 +20,9 @@ func NewClaimGeneric(entry *merkletree.Entry) *ClaimGeneric {
 }
 
 func (c *ClaimGeneric) Entry() *merkletree.Entry {
-	c.metadata.Marshal(c.entry)
-	return c.entry
+	e := c.entry.Clone()
+	c.metadata.Marshal(e)
+	return e
 }
 
 func (c *ClaimGeneric) Metadata() *Metadata {
-- 
2.43.0


From fb2fc16f14c5e49ce32872e0268c0027001c10d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:13 +0000
Subject: [PATCH 34/43] fix: an entry parsed from text drops the hashes cached
 for its previous data

---
 merkletree/merkletree.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 7bed572..87c57ae 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -208,7 +208,12 @@ func (e Entry) MarshalText() ([]byte, error) {
 }
 
 func (e *Entry) UnmarshalText(text []byte) error {
-	return e.Data.UnmarshalText(text)
+	if err := e.Data.UnmarshalText(text); err != nil {
+		return err
+	}
+	// the cached hashes belong to the previous data
+	e.hIndex, e.hValue = nil, nil
+	return nil
 }
 
 func (e *Entry) Clone() *Entry {
-- 
2.43.0


From dcee4c080ca33deb89946f7b0ae7a9988a94e986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:56 +0000
Subject: [PATCH 35/43] fix: the claims dump is valid JSON, no comma after the
 last claim

---
 merkletree/merkletree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 87c57ae..6863144 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -733,11 +733,13 @@ func (mt *MerkleTree) DumpClaimsIoWriter(w io.Writer, rootKey *Hash) error {
 		return err
 	}
 	var errW error
+	sep := ""
 	err := mt.Walk(rootKey, func(n *Node) {
 		if n.Type == NodeTypeLeaf {
-			if _, err := fmt.Fprintf(w, "	\"%v\",\n", common3.HexEncode(n.Entry.Bytes())); err != nil {
+			if _, err := fmt.Fprintf(w, "%s	\"%v\"", sep, common3.HexEncode(n.Entry.Bytes())); err != nil {
 				errW = err
 			}
+			sep = ",\n"
 		}
 	})
 	if err != nil {
@@ -746,7 +748,7 @@ func (mt *MerkleTree) DumpClaimsIoWriter(w io.Writer, rootKey *Hash) error {
 	if errW != nil {
 		return errW
 	}
-	_, err = fmt.Fprintf(w, "]\n")
+	_, err = fmt.Fprintf(w, "\n]\n")
 	return err
 }
 
-- 
2.43.0


From 32d2d983d0d942675ab47b7bb35251325fa812ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:41 +0000
Subject: [PATCH 36/43] fix: refuse negative public signals in
 VerifyZkProofCredential

---
 components/verifier/verifier.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index e7f5ab1..16e565e 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -186,6 +186,15 @@ func (v *Verifier) VerifyZkProofCredential(
 		return fmt.Errorf("error loading zk vk: %w", err)
 	}
 
+	// The public signals must be elements of the field: the zkp verification
+	// reduces them, so a negative number would stand for another value than
+	// the idenState built from it.  The upper bound is checked by Verify.
+	for _, s := range pubSignals {
+		if s.Sign() < 0 {
+			return ErrFailedVerifyZkProofCredential
+		}
+	}
+
 	// Verify the zkp
 	if !verifier.Verify(vk, zkProof, pubSignals) {
 		return ErrFailedVerifyZkProofCredential
-- 
2.43.0


From 789f6168a9a303b5eb2101c023f8322d6e33f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 37/43] fix: ImportTree refuses nodes that are not under their
 own key

---
 merkletree/merkletree.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 6863144..6d015e0 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -709,6 +709,18 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 			root = v
 			continue
 		}
+		// A dump can come from anyone: a node is only valid under its own key.
+		n, err := NewNodeFromBytes(v)
+		if err != nil {
+			return err
+		}
+		key, err := n.Key()
+		if err != nil {
+			return err
+		}
+		if !bytes.Equal(k, key[:]) {
+			return ErrInvalidDBValue
+		}
 		tx.Put(k, v)
 	}
 
-- 
2.43.0


From 3a133dac22a3036a6daa089d764b3cc517be8123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 38/43] fix: unlocking a key file does not remove a lock
 somebody else may hold

---
 keystore/keystore.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 544989f..bbf2e5d 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -210,14 +210,13 @@ func (fs *FileStorage) TryLock() (bool, error) {
 	return fs.lock.TryLock()
 }
 
-// Unlocks the storage file and removes the .lock file.
+// Unlocks the storage file.  The .lock file is left in place: it may be locked
+// by someone else by now, and if it was removed the storage could be locked
+// again through a new one.
 func (fs *FileStorage) Unlock() error {
 	fs.rw.Lock()
 	defer fs.rw.Unlock()
-	if err := fs.lock.Unlock(); err != nil {
-		return err
-	}
-	return os.Remove(fs.path + ".lock")
+	return fs.lock.Unlock()
 }
 
 // MemStorage is a storage backed by a slice.
-- 
2.43.0


From 2e97bcd25161b4e9ef1fa611ef600f923bf89ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 39/43] fix: ExportKey gives a copy of the key in the cache

---
 keystore/keystore.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index bbf2e5d..164803f 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -347,7 +347,9 @@ func (ks *KeyStore) ExportKey(pk *babyjub.PublicKeyComp) (*babyjub.PrivateKey, e
 	if !ok {
 		return nil, ErrKeyNotInCache
 	}
-	return sk, nil
+	// A copy: the key in the cache is used to sign until it is cleared by Close.
+	skCopy := *sk
+	return &skCopy, nil
 }
 
 // UnlockKey decrypts the key corresponding to the public key pk and loads it
-- 
2.43.0


From 94f9e1c8b028e5d9b0f6b6302e9cff245f3677ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 40/43] fix: UnlockKey refuses a key that is not the one of the
 public key

---
 keystore/keystore.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 164803f..f51fd52 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -367,6 +367,9 @@ func (ks *KeyStore) UnlockKey(pk *babyjub.PublicKeyComp, pass []byte) error {
 	}
 	var sk babyjub.PrivateKey
 	copy(sk[:], skBuf)
+	if len(skBuf) != len(sk) || sk.Public().Compress() != *pk {
+		return ErrInvalidEncData
+	}
 	ks.cache[*pk] = &sk
 	return nil
 }
-- 
2.43.0


From e9416cdb1448b2ca3aa217996ca6025e884989c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 41/43] fix: httpclient.NewHttpClient does not panic on an
 empty URL

---
 components/httpclient/httpclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/httpclient/httpclient.go b/components/httpclient/httpclient.go
index 4eb43f5..2e05ddf 100644
--- a/components/httpclient/httpclient.go
+++ b/components/httpclient/httpclient.go
@@ -3,6 +3,7 @@ package httpclient
 import (
 	"fmt"
 	"reflect"
+	"strings"
 
 	"github.com/dghubble/sling"
 	"gopkg.in/go-playground/validator.v9"
@@ -23,7 +24,7 @@ type HttpClient struct {
 }
 
 func NewHttpClient(urlBase string) *HttpClient {
-	if urlBase[len(urlBase)-1] != '/' {
+	if !strings.HasSuffix(urlBase, "/") {
 		urlBase += "/"
 	}
 	client := sling.New().Base(urlBase)
-- 
2.43.0


From b972714eee85c7a4987c6e150cb3e4799feb4a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:07 +0000
Subject: [PATCH 42/43] fix: common.Base64Decode refuses characters after the
 padding

---
 common/common.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/common/common.go b/common/common.go
index 72b3231..73901f1 100644
--- a/common/common.go
+++ b/common/common.go
@@ -19,16 +19,15 @@ func Base64ToBytes(base64String string) ([]byte, error) {
 // Base64Decode decodes a string in base64 with optional padding into an array
 // of bytes.
 func Base64Decode(b64 string) ([]byte, error) {
-	l := len(b64)
-	if l < 3 {
+	if len(b64) < 3 {
 		return base64.RawStdEncoding.DecodeString(b64)
 	}
-	if b64[l-3] == '=' {
-		b64 = b64[:l-3]
-	} else if b64[l-2] == '=' {
-		b64 = b64[:l-2]
-	} else if b64[l-1] == '=' {
-		b64 = b64[:l-1]
+	// Only what is padding up to the end is optional.
+	for _, padding := range []string{"===", "==", "="} {
+		if strings.HasSuffix(b64, padding) {
+			b64 = strings.TrimSuffix(b64, padding)
+			break
+		}
 	}
 	return base64.RawStdEncoding.DecodeString(b64)
 }
-- 
2.43.0


From caaf945e8d24c9b407e134fad0c6f4f1da7c07c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:47 +0000
Subject: [PATCH 43/43] fix: claims.ClearMostSigByte clears the byte that is
 most significant in an element

---
 core/claims/claim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/claims/claim.go b/core/claims/claim.go
index e1efdc2..061c984 100644
--- a/core/claims/claim.go
+++ b/core/claims/claim.go
@@ -17,7 +17,7 @@ var ErrInvalidClaimType = errors.New("invalid claim type")
 // ClearMostSigByte sets the most significant byte of the element to 0 to make sure it fits
 // inside the FiniteField over R.
 func ClearMostSigByte(e [merkletree.ElemBytesLen]byte) merkletree.ElemBytes {
-	e[0] = 0
+	e[merkletree.ElemBytesLen-1] = 0 // elements are little endian
 	return merkletree.ElemBytes(e)
 }
 
-- 
2.43.0

