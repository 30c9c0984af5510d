From dae61352648211437425e604c6388132d008b4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 01/42] fix: report write failures when flushing serial lists

---
 go/storage/certdatabase.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index b9d7a98..58b227b 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -32,7 +32,6 @@ func serialListExpiryLine(aExpDate types.ExpDate) string {
 
 func WriteSerialList(w io.Writer, aExpDate types.ExpDate, aIssuer types.Issuer, aSerials []types.Serial) error {
 	writer := bufio.NewWriter(w)
-	defer writer.Flush()
 
 	// Write the expiry date for this collection of serial numbers as a unix
 	// timestamp encoded as a zero-padded 16 digit hex string. The expiry
@@ -56,7 +55,7 @@ func WriteSerialList(w io.Writer, aExpDate types.ExpDate, aIssuer types.Issuer,
 		}
 	}
 
-	return nil
+	return writer.Flush()
 }
 
 type CertDatabase struct {
-- 
2.43.0


From 25fa256ccf88e910902c5e5c7ecd602908ef0f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 02/42] fix: do not replace the epoch file when writing it
 failed

---
 go/storage/certdatabase.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index 58b227b..d84cb1b 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -618,7 +618,11 @@ func (db *CertDatabase) Commit(aProofOfLock string) error {
 		glog.Warningf("Failed to increment epochs: %s", err)
 		return nil
 	}
-	writer.Flush()
+	err = writer.Flush()
+	if err != nil {
+		glog.Warningf("Failed to increment epochs: %s", err)
+		return nil
+	}
 
 	err = db.cache.NextEpoch()
 	if err != nil {
-- 
2.43.0


From 0f1d146ee7fcc5e4cb99eee4bb9dc62da94e5865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:01 +0000
Subject: [PATCH 03/42] fix: detect an emptied cache after the first commit

After the first commit the epoch in storage is 0, which made an emptied
cache (epoch 0) look consistent: the next commit replaced the coverage
metadata with that of the emptied cache, and a restarted ct-fetch did not
resume from storage.
---
 go/storage/certdatabase.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index d84cb1b..4c5ba8d 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -84,6 +84,22 @@ func NewCertDatabase(aCache RemoteCache, aStorageDir string, aReadOnlyStorage bo
 	return db, nil
 }
 
+// epochsAreConsistent decides whether the cache and storage have seen the same
+// sequence of commits. Both epochs are 0 before the first commit. The epoch in
+// storage is also 0 after the first commit, and the epoch in cache is also 0 if
+// the cache has been emptied, so these are only consistent if there is no
+// coverage metadata in storage.
+func (db *CertDatabase) epochsAreConsistent(aCacheEpoch, aStorageEpoch uint64) (bool, error) {
+	if aCacheEpoch == 0 && aStorageEpoch == 0 {
+		_, err := os.Stat(db.coverageFile())
+		if err != nil && !errors.Is(err, os.ErrNotExist) {
+			return false, err
+		}
+		return err != nil, nil
+	}
+	return aCacheEpoch == aStorageEpoch+1, nil
+}
+
 func (db *CertDatabase) EnsureCacheIsConsistent() error {
 	storageEpoch, err := db.getStorageEpoch()
 	if err != nil {
@@ -95,7 +111,11 @@ func (db *CertDatabase) EnsureCacheIsConsistent() error {
 		return err
 	}
 
-	if cacheEpoch == storageEpoch+1 || (cacheEpoch == 0 && storageEpoch == 0) {
+	consistent, err := db.epochsAreConsistent(cacheEpoch, storageEpoch)
+	if err != nil {
+		return err
+	}
+	if consistent {
 		return nil
 	}
 
@@ -567,7 +587,11 @@ func (db *CertDatabase) Commit(aProofOfLock string) error {
 		return err
 	}
 
-	if (cacheEpoch != storageEpoch+1) && !(cacheEpoch == 0 && storageEpoch == 0) {
+	consistent, err := db.epochsAreConsistent(cacheEpoch, storageEpoch)
+	if err != nil {
+		return err
+	}
+	if !consistent {
 		return errors.New("Inconsistent cache and storage epochs. Restart ct-fetch.")
 	}
 
-- 
2.43.0


From 00b11fc1f61a3880e2beaf4411568fb204eedb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:35 +0000
Subject: [PATCH 04/42] fix: do not publish coverage if the commit lock was
 lost

If the cache is emptied while a commit is running, the coverage metadata
read at its start no longer describes the serials that were moved to
storage (or was read from an empty cache).
---
 go/storage/certdatabase.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index 4c5ba8d..4d84a65 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -616,6 +616,16 @@ func (db *CertDatabase) Commit(aProofOfLock string) error {
 		return err
 	}
 
+	// If the cache was lost during this commit then so was the commit lock,
+	// and logList may not describe the serials that were moved.
+	hasLock, err = db.cache.HasCommitLock(aProofOfLock)
+	if err != nil {
+		return err
+	}
+	if !hasLock {
+		return errors.New("Commit lock was lost")
+	}
+
 	err = ctLogFD.CloseAtomicallyReplace()
 	if err != nil {
 		return err
-- 
2.43.0


From e2f53fdf2715b423fc04350a2aab09dff88cb7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 05/42] fix: do not forget a log's state on a cache error

GetLogState took any error from the cache to mean that the log was new, so
a transient failure made ct-fetch start over at the log's current head and
overwrite its saved progress.
---
 go/storage/certdatabase.go | 11 +++++++----
 go/storage/mockcache.go    |  2 +-
 go/storage/rediscache.go   |  3 +++
 go/storage/types.go        |  4 ++++
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index 4d84a65..ede228d 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -283,12 +283,15 @@ func (db *CertDatabase) SaveLogState(aLogObj *types.CTLogState) error {
 func (db *CertDatabase) GetLogState(aUrl *url.URL) (*types.CTLogState, error) {
 	shortUrl := fmt.Sprintf("%s%s", aUrl.Host, strings.TrimRight(aUrl.Path, "/"))
 
-	log, cacheErr := db.cache.LoadLogState(shortUrl)
-	if log != nil {
-		return log, cacheErr
+	log, err := db.cache.LoadLogState(shortUrl)
+	if err == nil {
+		return log, nil
+	}
+	if !errors.Is(err, ErrLogStateNotFound) {
+		return nil, err
 	}
 
-	glog.Warningf("Allocating brand new log for %+v, cache err=%v", shortUrl, cacheErr)
+	glog.Warningf("Allocating brand new log for %+v", shortUrl)
 	return &types.CTLogState{
 		ShortURL: shortUrl,
 	}, nil
diff --git a/go/storage/mockcache.go b/go/storage/mockcache.go
index bbbc42a..5ac07ad 100644
--- a/go/storage/mockcache.go
+++ b/go/storage/mockcache.go
@@ -218,7 +218,7 @@ func (ec *MockRemoteCache) LoadLogState(shortUrl string) (*types.CTLogState, err
 	defer ec.mu.Unlock()
 	data, ok := ec.Data["log::"+shortUrl]
 	if !ok {
-		return nil, fmt.Errorf("Log state not found")
+		return nil, ErrLogStateNotFound
 	}
 	if len(data) != 1 {
 		return nil, fmt.Errorf("Unexpected number of log states")
diff --git a/go/storage/rediscache.go b/go/storage/rediscache.go
index e2b1665..dbcc843 100644
--- a/go/storage/rediscache.go
+++ b/go/storage/rediscache.go
@@ -235,6 +235,9 @@ func (ec *RedisCache) StoreLogState(log *types.CTLogState) error {
 
 func (ec *RedisCache) LoadLogState(shortUrl string) (*types.CTLogState, error) {
 	data, err := ec.client.Get(shortUrlToLogKey(shortUrl)).Bytes()
+	if err == redis.Nil {
+		return nil, ErrLogStateNotFound
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/go/storage/types.go b/go/storage/types.go
index a90a320..f6b4128 100644
--- a/go/storage/types.go
+++ b/go/storage/types.go
@@ -2,12 +2,16 @@ package storage
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"time"
 
 	"github.com/mozilla/crlite/go"
 )
 
+// ErrLogStateNotFound is returned by LoadLogState for a log with no cached state.
+var ErrLogStateNotFound = errors.New("Log state not found")
+
 type RemoteCache interface {
 	Exists(key string) (bool, error)
 	SetInsert(key string, aEntry string) (bool, error)
-- 
2.43.0


From abad0b26f79b1ef0a9052d5aad3d363419c82d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:38 +0000
Subject: [PATCH 06/42] fix: decide whether to reset the cache while holding
 the commit lock

EnsureCacheIsConsistent read the epochs without the commit lock. If a
commit finished between (or after) the two reads, it reset the log states
to older ones and set the cache epoch such that every later commit was
refused until the next restart.
---
 go/storage/certdatabase.go | 31 ++++++++++++++++++++++++++-----
 go/storage/mockcache.go    | 11 +++++++++++
 go/storage/rediscache.go   | 12 ++++++++++++
 go/storage/types.go        |  1 +
 4 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index ede228d..ac78aec 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -100,18 +100,40 @@ func (db *CertDatabase) epochsAreConsistent(aCacheEpoch, aStorageEpoch uint64) (
 	return aCacheEpoch == aStorageEpoch+1, nil
 }
 
-func (db *CertDatabase) EnsureCacheIsConsistent() error {
+// readEpochs returns the storage epoch and whether the cache is consistent with it.
+func (db *CertDatabase) readEpochs() (uint64, bool, error) {
 	storageEpoch, err := db.getStorageEpoch()
 	if err != nil {
-		return err
+		return 0, false, err
 	}
 
 	cacheEpoch, err := db.cache.GetEpoch()
 	if err != nil {
-		return err
+		return 0, false, err
 	}
 
 	consistent, err := db.epochsAreConsistent(cacheEpoch, storageEpoch)
+	return storageEpoch, consistent, err
+}
+
+func (db *CertDatabase) EnsureCacheIsConsistent() error {
+	_, consistent, err := db.readEpochs()
+	if err != nil {
+		return err
+	}
+	if consistent {
+		return nil
+	}
+
+	// The epochs also look inconsistent if we've read them while a commit
+	// was incrementing them. Look again while no commit can be running.
+	commitToken, err := db.cache.AcquireCommitLock()
+	if err != nil || commitToken == nil {
+		return fmt.Errorf("Failed to acquire commit lock: %v", err)
+	}
+	defer db.cache.ReleaseCommitLock(*commitToken)
+
+	storageEpoch, consistent, err := db.readEpochs()
 	if err != nil {
 		return err
 	}
@@ -128,8 +150,7 @@ func (db *CertDatabase) EnsureCacheIsConsistent() error {
 		return err
 	}
 
-	return db.cache.Restore(storageEpoch+1, logStates)
-
+	return db.cache.RestoreWithLock(*commitToken, storageEpoch+1, logStates)
 }
 
 func (db *CertDatabase) GetIssuerAndDatesFromChannel(reader <-chan string) ([]types.IssuerDate, error) {
diff --git a/go/storage/mockcache.go b/go/storage/mockcache.go
index 5ac07ad..3de305d 100644
--- a/go/storage/mockcache.go
+++ b/go/storage/mockcache.go
@@ -316,3 +316,14 @@ func (ec *MockRemoteCache) Restore(aEpoch uint64, aLogStates []types.CTLogState)
 
 	return nil
 }
+
+func (ec *MockRemoteCache) RestoreWithLock(aProofOfLock string, aEpoch uint64, aLogStates []types.CTLogState) error {
+	hasLock, err := ec.HasCommitLock(aProofOfLock)
+	if err != nil {
+		return err
+	}
+	if !hasLock {
+		return fmt.Errorf("Caller must hold commit lock")
+	}
+	return ec.Restore(aEpoch, aLogStates)
+}
diff --git a/go/storage/rediscache.go b/go/storage/rediscache.go
index dbcc843..09df595 100644
--- a/go/storage/rediscache.go
+++ b/go/storage/rediscache.go
@@ -331,6 +331,18 @@ func (ec *RedisCache) Restore(aEpoch uint64, aLogStates []types.CTLogState) erro
 	}
 	defer ec.ReleaseCommitLock(*commitToken)
 
+	return ec.RestoreWithLock(*commitToken, aEpoch, aLogStates)
+}
+
+func (ec *RedisCache) RestoreWithLock(aProofOfLock string, aEpoch uint64, aLogStates []types.CTLogState) error {
+	hasLock, err := ec.HasCommitLock(aProofOfLock)
+	if err != nil {
+		return err
+	}
+	if !hasLock {
+		return fmt.Errorf("Caller must hold commit lock")
+	}
+
 	logKeys, err := ec.client.Keys("log::*").Result()
 	if err != nil {
 		return err
diff --git a/go/storage/types.go b/go/storage/types.go
index f6b4128..113bd72 100644
--- a/go/storage/types.go
+++ b/go/storage/types.go
@@ -32,6 +32,7 @@ type RemoteCache interface {
 	GetEpoch() (uint64, error)
 	NextEpoch() error
 	Restore(aEpoch uint64, aLogStates []types.CTLogState) error
+	RestoreWithLock(aProofOfLock string, aEpoch uint64, aLogStates []types.CTLogState) error
 	SetInsertMany(items []SetMemberWithExpiry) error
 }
 
-- 
2.43.0


From 315190600ebd651be66ddf1ae297c816010613de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:28 +0000
Subject: [PATCH 07/42] fix: reset the cached log states and the epoch
 atomically

---
 go/storage/rediscache.go | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/go/storage/rediscache.go b/go/storage/rediscache.go
index 09df595..7ee4a1b 100644
--- a/go/storage/rediscache.go
+++ b/go/storage/rediscache.go
@@ -348,24 +348,21 @@ func (ec *RedisCache) RestoreWithLock(aProofOfLock string, aEpoch uint64, aLogSt
 		return err
 	}
 
-	for _, logKey := range logKeys {
-		err = ec.client.Del(logKey).Err()
-		if err != nil {
-			return err
+	// Everything is replaced at once. Otherwise a cache that's lost half way
+	// would be left with a subset of the log states and a consistent epoch.
+	_, err = ec.client.TxPipelined(func(pipe redis.Pipeliner) error {
+		if len(logKeys) > 0 {
+			pipe.Del(logKeys...)
 		}
-	}
-
-	for _, logState := range aLogStates {
-		err := ec.StoreLogState(&logState)
-		if err != nil {
-			return err
+		for _, logState := range aLogStates {
+			encoded, err := json.Marshal(logState)
+			if err != nil {
+				return err
+			}
+			pipe.Set(shortUrlToLogKey(logState.ShortURL), encoded, NO_EXPIRATION)
 		}
-	}
-
-	err = ec.client.Set(EPOCH_KEY, aEpoch, NO_EXPIRATION).Err()
-	if err != nil {
-		return err
-	}
-
-	return nil
+		pipe.Set(EPOCH_KEY, aEpoch, NO_EXPIRATION)
+		return nil
+	})
+	return err
 }
-- 
2.43.0


From d8e7e40ad0ce772d248956417d89bdf427ae225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 08/42] fix: release the commit lock atomically

---
 go/storage/rediscache.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/go/storage/rediscache.go b/go/storage/rediscache.go
index 7ee4a1b..e0188ab 100644
--- a/go/storage/rediscache.go
+++ b/go/storage/rediscache.go
@@ -291,10 +291,19 @@ func (ec *RedisCache) AcquireCommitLock() (*string, error) {
 	return &commitLockToken, err
 }
 
+// The lock may lapse and be acquired by another process at any time, so the
+// comparison and the removal have to happen in one step.
+const releaseCommitLockScript string = `
+if redis.call("get", KEYS[1]) == ARGV[1] then
+	return redis.call("del", KEYS[1])
+end
+return 0
+`
+
 func (ec *RedisCache) ReleaseCommitLock(aToken string) {
-	hasLock, err := ec.HasCommitLock(aToken)
-	if err == nil && hasLock {
-		ec.client.Del(COMMIT_LOCK_KEY)
+	err := ec.client.Eval(releaseCommitLockScript, []string{COMMIT_LOCK_KEY}, aToken).Err()
+	if err != nil {
+		glog.Warningf("Couldn't release the commit lock: %v", err)
 	}
 }
 
-- 
2.43.0


From 93e7965ccb73a0db83a97727c414dc40983990f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 09/42] fix: put certificates in the expiry bin of their UTC
 hour

---
 go/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/types.go b/go/types.go
index 8475b85..710cad3 100644
--- a/go/types.go
+++ b/go/types.go
@@ -454,7 +454,7 @@ type ExpDate struct {
 }
 
 func NewExpDateFromTime(t time.Time) ExpDate {
-	truncTime := t.Truncate(time.Hour)
+	truncTime := t.UTC().Truncate(time.Hour)
 	return ExpDate{
 		date:           truncTime,
 		lastGood:       truncTime.Add(-1 * time.Millisecond),
-- 
2.43.0


From 387980b6333e7c4e0221b0e0c5bb391ebb922443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 10/42] fix: do not claim coverage of a one-entry log that was
 never downloaded

---
 go/cmd/ct-fetch/rfc6962.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/go/cmd/ct-fetch/rfc6962.go b/go/cmd/ct-fetch/rfc6962.go
index bf5acfe..2a5e15e 100644
--- a/go/cmd/ct-fetch/rfc6962.go
+++ b/go/cmd/ct-fetch/rfc6962.go
@@ -353,8 +353,9 @@ func (lw *LogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessage) e
 		// STH.Timestamp, because no new entries with a timestamp less
 		// than `STH.Timestamp - LogState.MMD` will be added. This
 		// ensures that we will eventually cover the tail of a log that
-		// is no longer receiving new entries.
-		if lw.LogState.MaxEntry == lw.STH.TreeSize-1 {
+		// is no longer receiving new entries. If we have not downloaded
+		// anything from this log yet then MaxEntry is meaningless.
+		if !lw.LogState.LastUpdateTime.IsZero() && lw.LogState.MaxEntry == lw.STH.TreeSize-1 {
 			err := lw.updateState(ctx, nil, lw.LogState.MinEntry, lw.STH.Timestamp, entryChan)
 			if err != nil {
 				glog.Errorf("[%s] Failed to update log state: %s", lw.Name(), err)
-- 
2.43.0


From d58f8d9694d4140fc8b4c60a8952653c45209afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 11/42] fix: finish the backfill of a log's first entries

When at most three entries were left to backfill the worker asked for a
consistency proof between tree size 3 and a size that was not larger, so
the job failed and the log was never synced again. Extend the range over
entries that are already stored and only download the subtrees that hold
missing ones.
---
 go/cmd/ct-fetch/rfc6962.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/go/cmd/ct-fetch/rfc6962.go b/go/cmd/ct-fetch/rfc6962.go
index 2a5e15e..654ffd6 100644
--- a/go/cmd/ct-fetch/rfc6962.go
+++ b/go/cmd/ct-fetch/rfc6962.go
@@ -401,6 +401,13 @@ func (lw *LogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessage) e
 		// 0 or 1). We ensured newSize > 3 when we assigned this
 		// worker its job, so we can use oldSize = 3.
 		oldSize = 3
+		if newSize <= oldSize {
+			// We're backfilling the last few entries. There is no
+			// proof between these sizes, so we'll extend the range
+			// over some entries that we already have.
+			newSize = oldSize + 1
+			lastIndex = newSize - 1
+		}
 	}
 	proof, err := lw.Client.GetSTHConsistency(ctx, oldSize, newSize)
 	if err != nil {
@@ -446,6 +453,9 @@ func (lw *LogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessage) e
 			if !(firstIndex <= subtree.First && subtree.Last <= lastIndex) {
 				continue
 			}
+			if subtree.First >= lw.LogState.MinEntry {
+				continue // We already have these entries
+			}
 			item := CtLogSubtreeVerifier{Subtree: subtree}
 			pos := sort.Search(len(verifiers),
 				func(i int) bool {
@@ -512,7 +522,7 @@ func (lw *LogWorker) updateState(ctx context.Context, newSubtree *CtLogSubtree,
 			return fmt.Errorf("Missing entries")
 		}
 	case Backfill:
-		if lw.LogState.MinEntry == newSubtree.Last+1 {
+		if newSubtree.First < lw.LogState.MinEntry && lw.LogState.MinEntry <= newSubtree.Last+1 {
 			lw.LogState.MinEntry = newSubtree.First
 		} else {
 			return fmt.Errorf("Missing entries")
-- 
2.43.0


From f82129cdad4079551dcfaced309c92bf99258070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 12/42] fix: wait for a log's progress to be saved before
 reading it back

SyncLog read the log state back from the database while the states it had
just submitted were still queued, so the next job started from old
progress and then saved it over newer progress.
---
 go/cmd/ct-fetch/ct-fetch.go | 18 ++++++++++++++++++
 go/cmd/ct-fetch/rfc6962.go  |  5 ++---
 go/cmd/ct-fetch/tiled.go    |  5 ++---
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/go/cmd/ct-fetch/ct-fetch.go b/go/cmd/ct-fetch/ct-fetch.go
index f2d6c71..237f4d9 100644
--- a/go/cmd/ct-fetch/ct-fetch.go
+++ b/go/cmd/ct-fetch/ct-fetch.go
@@ -63,6 +63,7 @@ type LogSyncMessage struct {
 	Timestamp   uint64
 	LogId       [32]byte
 	LogState    *types.CTLogState
+	Stored      chan<- struct{} // Closed once all earlier messages are stored
 }
 
 // Coordinates all workers
@@ -158,6 +159,18 @@ func (ld *LogSyncEngine) SyncLog(ctx context.Context, enrolledLogs *EnrolledLogs
 			return nil
 		}
 
+		// The next iteration reads the log state back from the database,
+		// so wait until the states we submitted have been saved.
+		stored := make(chan struct{})
+		select {
+		case <-ctx.Done():
+		case ld.entryChan <- LogSyncMessage{Stored: stored}:
+			select {
+			case <-ctx.Done():
+			case <-stored:
+			}
+		}
+
 		select {
 		case <-ctx.Done():
 			glog.Infof("[%s] Downloader exiting.", logMeta.URL)
@@ -234,6 +247,11 @@ func (ld *LogSyncEngine) insertCTWorker(ctx context.Context) {
 		default:
 		}
 
+		if ep.Stored != nil {
+			close(ep.Stored)
+			continue
+		}
+
 		if ep.Certificate != nil && ep.Issuer != nil {
 			item := ld.database.PrepareSetMember(ep.Certificate, ep.Issuer, ep.Timestamp, ep.LogId)
 			queue = append(queue, item)
diff --git a/go/cmd/ct-fetch/rfc6962.go b/go/cmd/ct-fetch/rfc6962.go
index 654ffd6..95e39b6 100644
--- a/go/cmd/ct-fetch/rfc6962.go
+++ b/go/cmd/ct-fetch/rfc6962.go
@@ -542,12 +542,11 @@ func (lw *LogWorker) updateState(ctx context.Context, newSubtree *CtLogSubtree,
 	lw.LogState.MaxTimestamp = uint64Max(lw.LogState.MaxTimestamp, maxTimestamp)
 	lw.LogState.LastUpdateTime = time.Now()
 
-	var emptyBytes [32]byte
 	stateCopy := *lw.LogState
 	select {
 	case <-ctx.Done():
 		return fmt.Errorf("[%s] Cancelled", lw.Name())
-	case entryChan <- LogSyncMessage{nil, nil, 0, emptyBytes, &stateCopy}:
+	case entryChan <- LogSyncMessage{LogState: &stateCopy}:
 	}
 
 	return nil
@@ -621,7 +620,7 @@ func (lw *LogWorker) storeLogEntry(ctx context.Context, rawLogEntry *ct.RawLogEn
 	select {
 	case <-ctx.Done():
 		return fmt.Errorf("[%s] Cancelled", lw.Name())
-	case entryChan <- LogSyncMessage{cert, issuingCert, entryTimestamp, lw.LogKeyId, nil}:
+	case entryChan <- LogSyncMessage{Certificate: cert, Issuer: issuingCert, Timestamp: entryTimestamp, LogId: lw.LogKeyId}:
 	}
 
 	return nil
diff --git a/go/cmd/ct-fetch/tiled.go b/go/cmd/ct-fetch/tiled.go
index 86a6139..aedcf82 100644
--- a/go/cmd/ct-fetch/tiled.go
+++ b/go/cmd/ct-fetch/tiled.go
@@ -239,7 +239,7 @@ func (lw *TiledLogWorker) storeLogEntry(ctx context.Context, logEntry *sunlight.
 	case <-ctx.Done():
 		// The LogSyncEngine is shutting down, so it's OK to return an error here.
 		return false, fmt.Errorf("[%s] Cancelled", lw.Name())
-	case entryChan <- LogSyncMessage{cert, issuingCert, timestamp, lw.LogKeyId, nil}:
+	case entryChan <- LogSyncMessage{Certificate: cert, Issuer: issuingCert, Timestamp: timestamp, LogId: lw.LogKeyId}:
 	}
 
 	return true, nil
@@ -358,12 +358,11 @@ func (lw *TiledLogWorker) updateState(ctx context.Context, maxEntry uint64, minT
 	lw.LogState.MaxTimestamp = uint64Max(lw.LogState.MaxTimestamp, maxTimestamp)
 	lw.LogState.LastUpdateTime = time.Now()
 
-	var emptyBytes [32]byte
 	stateCopy := *lw.LogState
 	select {
 	case <-ctx.Done():
 		return fmt.Errorf("[%s] Cancelled", lw.Name())
-	case entryChan <- LogSyncMessage{nil, nil, 0, emptyBytes, &stateCopy}:
+	case entryChan <- LogSyncMessage{LogState: &stateCopy}:
 	}
 
 	return nil
-- 
2.43.0


From 3379f79f8cf76aa2fed2b337dbf2db93bee198bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 13/42] fix: verify the signatures of RFC 6962 tree heads

The client was created without the log's public key, so a forged tree head
(in particular one with a later timestamp) was accepted and extended the
log's coverage.
---
 go/cmd/ct-fetch/rfc6962.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/go/cmd/ct-fetch/rfc6962.go b/go/cmd/ct-fetch/rfc6962.go
index 95e39b6..0eb7ff6 100644
--- a/go/cmd/ct-fetch/rfc6962.go
+++ b/go/cmd/ct-fetch/rfc6962.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"crypto"
+	"encoding/base64"
 	"fmt"
 	"math/bits"
 	"math/rand"
@@ -227,8 +228,17 @@ func NewLogWorker(ctx context.Context, logObj *types.CTLogState, ctLogMeta *type
 		logObj.MMD = uint64(ctLogMeta.MMD)
 	}
 
+	// With the log's public key, the client checks the signatures of the
+	// tree heads it fetches.
+	publicKey, err := base64.StdEncoding.DecodeString(ctLogMeta.Key)
+	if err != nil {
+		glog.Errorf("[%s] Unable to get public key: %s", ctLogMeta.URL, err)
+		return nil, err
+	}
+
 	ctLog, err := client.New(ctLogMeta.URL, &httpClient, jsonclient.Options{
-		UserAgent: userAgent,
+		UserAgent:    userAgent,
+		PublicKeyDER: publicKey,
 	})
 	if err != nil {
 		glog.Errorf("[%s] Unable to construct CT log client: %s", ctLogMeta.URL, err)
-- 
2.43.0


From a2063a9200d13596700b3fcae560c76744f1413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 14/42] fix: ingest the first entry of a tiled log

---
 go/cmd/ct-fetch/tiled.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/go/cmd/ct-fetch/tiled.go b/go/cmd/ct-fetch/tiled.go
index aedcf82..a30ef0a 100644
--- a/go/cmd/ct-fetch/tiled.go
+++ b/go/cmd/ct-fetch/tiled.go
@@ -95,7 +95,7 @@ func NewTiledLogWorker(ctx context.Context, logObj *types.CTLogState, ctLogMeta
 		} else if time.Since(logObj.LastUpdateTime) < 10*time.Minute {
 			// There are few new entries, and we updated recently.
 			task = Sleep
-		} else if logObj.MaxEntry+1 < uint64(checkpoint.Tree.N) {
+		} else if nextTiledEntry(logObj) < uint64(checkpoint.Tree.N) {
 			// There is at least one new entry and we haven't
 			// downloaded anything recently.
 			task = ForceUpdate
@@ -118,6 +118,15 @@ func NewTiledLogWorker(ctx context.Context, logObj *types.CTLogState, ctLogMeta
 	}, nil
 }
 
+// nextTiledEntry returns the index of the first entry that we have not ingested.
+func nextTiledEntry(logObj *types.CTLogState) uint64 {
+	if logObj.LastUpdateTime.IsZero() {
+		// We have not ingested anything, MaxEntry is not meaningful.
+		return 0
+	}
+	return logObj.MaxEntry + 1
+}
+
 // GetCertificate retrieves a certificate from cache or fetches it over the network.
 //
 // Error returns:
@@ -252,6 +261,7 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 	minTimestamp := lw.LogState.MinTimestamp
 	maxTimestamp := lw.LogState.MaxTimestamp
 	maxEntry := lw.LogState.MaxEntry
+	nextEntry := nextTiledEntry(lw.LogState)
 
 	if lw.WorkOrder == RetryGetSTH {
 		lw.sleep(ctx)
@@ -268,7 +278,7 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 		// than `STH.Timestamp - LogState.MMD` will be added. This
 		// ensures that we will eventually cover the tail of a log that
 		// is no longer receiving new entries.
-		if lw.LogState.MaxEntry+1 == uint64(lw.Checkpoint.Tree.N) {
+		if nextEntry > 0 && nextEntry == uint64(lw.Checkpoint.Tree.N) {
 			maxTimestamp = lw.SthTimestamp
 			err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
 			if err != nil {
@@ -284,21 +294,22 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 		return fmt.Errorf("Unexpected work order: %d", lw.WorkOrder)
 	}
 
-	// readLogEntries mutably captures lw, ctx, maxEntry, minTimestamp,
-	// and maxTimestamp.
+	// readLogEntries mutably captures lw, ctx, maxEntry, nextEntry,
+	// minTimestamp, and maxTimestamp.
 	//
 	// Return codes:
 	//   - (true, nil): success
 	//   - (false, nil): intermittent error, the TileLogWorker should sleep.
 	//   - (false, err): fatal error, log ingestion should halt.
 	readLogEntries := func() (bool, error) {
-		for i, entry := range lw.Client.Entries(ctx, lw.Checkpoint.Tree, int64(maxEntry+1)) {
+		for i, entry := range lw.Client.Entries(ctx, lw.Checkpoint.Tree, int64(nextEntry)) {
 			keepGoing, err := lw.storeLogEntry(ctx, entry, entryChan)
 			if !(keepGoing && err == nil) {
 				return keepGoing, err
 			}
 
 			maxEntry = uint64(i)
+			nextEntry = maxEntry + 1
 			minTimestamp = uint64Min(minTimestamp, uint64(entry.Timestamp))
 			maxTimestamp = uint64Max(maxTimestamp, uint64(entry.Timestamp))
 
@@ -311,13 +322,15 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 			}
 		}
 
-		err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
-		if err != nil {
-			glog.Errorf("[%s] : Error saving log state %s", lw.Name(), err)
-			return false, err
+		if nextEntry > 0 {
+			err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
+			if err != nil {
+				glog.Errorf("[%s] : Error saving log state %s", lw.Name(), err)
+				return false, err
+			}
 		}
 
-		err = lw.Client.Err()
+		err := lw.Client.Err()
 		if err != nil {
 			glog.Errorf("[%s] : Sunlight client error %s", lw.Name(), err)
 			return false, nil
-- 
2.43.0


From a29aab9e7d46c2f27a97b475ee415081ce362df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 15/42] fix: check tiled log issuers against their fingerprints

---
 go/cmd/ct-fetch/tiled.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/go/cmd/ct-fetch/tiled.go b/go/cmd/ct-fetch/tiled.go
index a30ef0a..88fe40d 100644
--- a/go/cmd/ct-fetch/tiled.go
+++ b/go/cmd/ct-fetch/tiled.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"context"
+	"crypto/sha256"
 	"encoding/hex"
 	"fmt"
 	"math/rand"
@@ -148,6 +149,14 @@ func (lw TiledLogWorker) GetCertificate(ctx context.Context, fingerprint string)
 		return nil, nil
 	}
 
+	// The issuer endpoint is not covered by the tree head's signature. The
+	// fingerprint comes from an entry that is.
+	digest := sha256.Sum256(data)
+	if hex.EncodeToString(digest[:]) != fingerprint {
+		glog.Warningf("[%s] Issuer cert %s does not match its fingerprint", lw.Name(), fingerprint)
+		return nil, nil
+	}
+
 	cert, err = types.ParseCertificate(data)
 	if cert == nil {
 		return nil, fmt.Errorf("[%s] Fatal parsing error: fingerprint: %s error: %s", lw.Name(), fingerprint, err)
-- 
2.43.0


From 1bc188ec8e6ff09bb3fb725956585a95bfec2f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 16/42] fix: wait for every enrolled log before exiting

---
 go/cmd/ct-fetch/ct-fetch.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/go/cmd/ct-fetch/ct-fetch.go b/go/cmd/ct-fetch/ct-fetch.go
index 237f4d9..532a117 100644
--- a/go/cmd/ct-fetch/ct-fetch.go
+++ b/go/cmd/ct-fetch/ct-fetch.go
@@ -88,14 +88,22 @@ func NewLogSyncEngine(db storage.CertDatabase) *LogSyncEngine {
 }
 
 func (ld *LogSyncEngine) StartDatabaseThread(ctx context.Context) {
+	ld.ThreadWaitGroup.Add(1)
 	go ld.insertCTWorker(ctx)
 }
 
-// Blocking function, run from a thread
-func (ld *LogSyncEngine) SyncLog(ctx context.Context, enrolledLogs *EnrolledLogs, logMeta types.CTLogMetadata) error {
+// Starts syncing with a log. The DownloaderWaitGroup covers the new downloader
+// when this returns.
+func (ld *LogSyncEngine) StartLogSync(ctx context.Context, enrolledLogs *EnrolledLogs, logMeta types.CTLogMetadata) {
 	ld.DownloaderWaitGroup.Add(1)
-	defer ld.DownloaderWaitGroup.Done()
+	go func() {
+		defer ld.DownloaderWaitGroup.Done()
+		ld.SyncLog(ctx, enrolledLogs, logMeta)
+	}()
+}
 
+// Blocking function, run from a thread
+func (ld *LogSyncEngine) SyncLog(ctx context.Context, enrolledLogs *EnrolledLogs, logMeta types.CTLogMetadata) error {
 	if err := ld.database.Migrate(&logMeta); err != nil {
 		return err
 	}
@@ -228,7 +236,6 @@ func (ld *LogSyncEngine) tryUpdate(queue []storage.SetMemberWithExpiry, logState
 }
 
 func (ld *LogSyncEngine) insertCTWorker(ctx context.Context) {
-	ld.ThreadWaitGroup.Add(1)
 	defer ld.ThreadWaitGroup.Done()
 
 	healthStatusPeriod := time.Duration(15000+rand.Int63n(15000)) * time.Millisecond
@@ -482,10 +489,12 @@ func main() {
 	syncEngine.StartDatabaseThread(ctx)
 
 	// Sync with logs as they are enrolled
+	allStarted := make(chan struct{})
 	go func() {
+		defer close(allStarted)
 		for ctLog := range enrolledLogs.NewChan {
 			glog.Infof("[%s] Starting download.", ctLog.URL)
-			go syncEngine.SyncLog(ctx, enrolledLogs, ctLog)
+			syncEngine.StartLogSync(ctx, enrolledLogs, ctLog)
 		}
 	}()
 
@@ -561,6 +570,9 @@ func main() {
 	// Wait until we've finalized enrollment.
 	enrolledLogs.Wait()
 
+	// Wait until a job has been started for each of the enrolled logs.
+	<-allStarted
+
 	// Wait until all jobs are finished.
 	syncEngine.Wait()
 
-- 
2.43.0


From 10ba9dcdd312f1cce4c55bb12224e2117e317675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 17/42] fix: sync each log with one downloader at a time

---
 go/cmd/ct-fetch/ct-fetch.go | 57 ++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/go/cmd/ct-fetch/ct-fetch.go b/go/cmd/ct-fetch/ct-fetch.go
index 532a117..0ad5261 100644
--- a/go/cmd/ct-fetch/ct-fetch.go
+++ b/go/cmd/ct-fetch/ct-fetch.go
@@ -74,6 +74,8 @@ type LogSyncEngine struct {
 	entryChan           chan LogSyncMessage
 	lastUpdateTime      time.Time
 	lastUpdateMutex     *sync.RWMutex
+	downloaders         map[string]<-chan struct{} // Latest downloader of each log, closed when it ends
+	downloadersMutex    *sync.Mutex
 }
 
 func NewLogSyncEngine(db storage.CertDatabase) *LogSyncEngine {
@@ -84,6 +86,8 @@ func NewLogSyncEngine(db storage.CertDatabase) *LogSyncEngine {
 		entryChan:           make(chan LogSyncMessage, 1024*16),
 		lastUpdateTime:      time.Time{},
 		lastUpdateMutex:     &sync.RWMutex{},
+		downloaders:         make(map[string]<-chan struct{}),
+		downloadersMutex:    &sync.Mutex{},
 	}
 }
 
@@ -104,6 +108,25 @@ func (ld *LogSyncEngine) StartLogSync(ctx context.Context, enrolledLogs *Enrolle
 
 // Blocking function, run from a thread
 func (ld *LogSyncEngine) SyncLog(ctx context.Context, enrolledLogs *EnrolledLogs, logMeta types.CTLogMetadata) error {
+	// If the log was unenrolled and enrolled again then its previous downloader
+	// may still be running. There must only be one, so take over from it.
+	done := make(chan struct{})
+	defer close(done)
+
+	ld.downloadersMutex.Lock()
+	previous := ld.downloaders[logMeta.LogID]
+	ld.downloaders[logMeta.LogID] = done
+	ld.downloadersMutex.Unlock()
+
+	if previous != nil {
+		select {
+		case <-ctx.Done():
+			return nil
+		case <-previous:
+		}
+		ld.waitUntilStored(ctx)
+	}
+
 	if err := ld.database.Migrate(&logMeta); err != nil {
 		return err
 	}
@@ -116,7 +139,7 @@ func (ld *LogSyncEngine) SyncLog(ctx context.Context, enrolledLogs *EnrolledLogs
 	issuerMap := map[string]*types.Certificate{}
 
 	for {
-		if !enrolledLogs.IsEnrolled(logMeta.LogID) {
+		if !enrolledLogs.IsEnrolled(logMeta.LogID) || !ld.isLatestDownloader(logMeta.LogID, done) {
 			return nil
 		}
 
@@ -169,15 +192,7 @@ func (ld *LogSyncEngine) SyncLog(ctx context.Context, enrolledLogs *EnrolledLogs
 
 		// The next iteration reads the log state back from the database,
 		// so wait until the states we submitted have been saved.
-		stored := make(chan struct{})
-		select {
-		case <-ctx.Done():
-		case ld.entryChan <- LogSyncMessage{Stored: stored}:
-			select {
-			case <-ctx.Done():
-			case <-stored:
-			}
-		}
+		ld.waitUntilStored(ctx)
 
 		select {
 		case <-ctx.Done():
@@ -188,6 +203,28 @@ func (ld *LogSyncEngine) SyncLog(ctx context.Context, enrolledLogs *EnrolledLogs
 	}
 }
 
+// isLatestDownloader returns false once another downloader for the same log is
+// waiting to take over.
+func (ld *LogSyncEngine) isLatestDownloader(logID string, done <-chan struct{}) bool {
+	ld.downloadersMutex.Lock()
+	defer ld.downloadersMutex.Unlock()
+	return ld.downloaders[logID] == done
+}
+
+// waitUntilStored blocks until all of the messages that were sent to entryChan
+// before it was called have been handled, or ctx is done.
+func (ld *LogSyncEngine) waitUntilStored(ctx context.Context) {
+	stored := make(chan struct{})
+	select {
+	case <-ctx.Done():
+	case ld.entryChan <- LogSyncMessage{Stored: stored}:
+		select {
+		case <-ctx.Done():
+		case <-stored:
+		}
+	}
+}
+
 func (ld *LogSyncEngine) RegisterUpdate() {
 	metrics.IncrCounter([]string{"sync", "progress"}, 1)
 	ld.lastUpdateMutex.Lock()
-- 
2.43.0


From e8f303fcb14598427cc56880e70b1b5ca0ba2a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:11 +0000
Subject: [PATCH 18/42] fix: sync a downloaded file before it replaces the
 existing one

---
 go/downloader/verifying-downloader.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/go/downloader/verifying-downloader.go b/go/downloader/verifying-downloader.go
index 84187e3..38b5229 100644
--- a/go/downloader/verifying-downloader.go
+++ b/go/downloader/verifying-downloader.go
@@ -14,6 +14,18 @@ type DownloadVerifier interface {
 	IsValid(path string) error
 }
 
+func syncFile(path string) error {
+	fd, err := os.OpenFile(path, os.O_RDWR, 0)
+	if err != nil {
+		return err
+	}
+	if err := fd.Sync(); err != nil {
+		fd.Close()
+		return err
+	}
+	return fd.Close()
+}
+
 /*
  * Returns: Boolean of whether the data at finalPath is now valid, and any error. It is possible
  * that err != nil and yet finalPath is valid, so callers should rely on the boolean and merely
@@ -63,6 +75,15 @@ func DownloadAndVerifyFileSync(ctx context.Context, verifyFunc DownloadVerifier,
 		return attemptFallbackToExistingFile(dlValidErr)
 	}
 
+	// The content has to be on disk before it replaces the existing file, or
+	// else a power loss could leave us with neither.
+	syncErr := syncFile(tmpPath)
+	if syncErr != nil {
+		glog.Errorf("[%s] Couldn't sync %s: %s", identifier.ID(), tmpPath, syncErr)
+
+		return attemptFallbackToExistingFile(syncErr)
+	}
+
 	renameErr := os.Rename(tmpPath, finalPath)
 	if renameErr != nil {
 		glog.Errorf("[%s] Couldn't rename %s to %s: %s", identifier.ID(), tmpPath, finalPath, renameErr)
-- 
2.43.0


From 8ef52b3981efc9bf8ab793b9e5b9b5ba9c834625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 19/42] fix: exit with failure when aggregate-crls is
 interrupted

---
 go/cmd/aggregate-crls/aggregate-crls.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 97d6201..4845804 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -557,11 +557,16 @@ func main() {
 
 	crlPaths, count := ae.downloadCRLs(ctx, mozIssuers)
 
+	if ctx.Err() == nil {
+		ae.aggregateCRLs(ctx, count, crlPaths)
+	}
+
+	// The workers stop early when they are cancelled, in which case revoked
+	// lists may be missing. We need to exit with a non-zero return code.
 	if ctx.Err() != nil {
-		return
+		glog.Exitf("Interrupted: %s", ctx.Err())
 	}
 
-	ae.aggregateCRLs(ctx, count, crlPaths)
 	if err := mozIssuers.SaveIssuersList(*enrolledpath); err != nil {
 		glog.Fatalf("Unable to save the crlite-informed intermediate issuers to %s: %s", *enrolledpath, err)
 	}
-- 
2.43.0


From 78ada14c452c859588f2882acfb93e363d69f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 20/42] fix: report write failures when flushing revoked lists

---
 go/cmd/aggregate-crls/aggregate-crls.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 4845804..0b824fb 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -471,7 +471,6 @@ func (ae *AggregateEngine) StoreRevokedCertificateList(ctx context.Context, issu
 	defer fd.Close()
 
 	writer := bufio.NewWriter(fd)
-	defer writer.Flush()
 
 	for _, s := range serials {
 		select {
@@ -492,7 +491,7 @@ func (ae *AggregateEngine) StoreRevokedCertificateList(ctx context.Context, issu
 			}
 		}
 	}
-	return nil
+	return writer.Flush()
 }
 
 func checkPathArg(strObj string, confOptionName string, ctconfig *config.CTConfig) {
-- 
2.43.0


From 3dca8e555946e09b5db2275c7b590fe338ec8f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 21/42] fix: report write failures when flushing known serials

---
 go/cmd/aggregate-known/aggregate-known.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/go/cmd/aggregate-known/aggregate-known.go b/go/cmd/aggregate-known/aggregate-known.go
index 7823224..8388260 100644
--- a/go/cmd/aggregate-known/aggregate-known.go
+++ b/go/cmd/aggregate-known/aggregate-known.go
@@ -55,7 +55,7 @@ func (kw knownWorker) run(ctx context.Context, cancelMain context.CancelFunc, wg
 	}
 
 	for tuple := range workChan {
-		// Wrap in anonymous function to defer a writer.Flush & fd.Close per work unit
+		// Wrap in anonymous function to defer an fd.Close per work unit
 		func() {
 			path := filepath.Join(kw.savePath, tuple.issuer.ID())
 			fd, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, permMode)
@@ -67,7 +67,6 @@ func (kw knownWorker) run(ctx context.Context, cancelMain context.CancelFunc, wg
 			defer fd.Close()
 
 			writer := bufio.NewWriter(fd)
-			defer writer.Flush()
 
 			var serialCount uint64
 
@@ -102,6 +101,13 @@ func (kw knownWorker) run(ctx context.Context, cancelMain context.CancelFunc, wg
 					return
 				}
 			}
+
+			if err := writer.Flush(); err != nil {
+				glog.Errorf("[%s] Could not write serials: %s", tuple.issuer.ID(), err)
+				cancelMain()
+				return
+			}
+
 			glog.Infof("[%s] %d total known serials for %s (shards=%d)", tuple.issuer.ID(),
 				serialCount, tuple.issuerDN, len(tuple.expDates))
 		}()
-- 
2.43.0


From 2e9b8898b27a0e78273de6eb7d044244d7541cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 22/42] fix: report write failures when saving the enrolled
 issuers

---
 go/rootprogram/issuers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index 7383ca6..2927d0c 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -337,6 +337,8 @@ func (mi *MozIssuers) SaveIssuersList(filePath string) error {
 
 	if err := enc.Encode(issuers); err != nil {
 		glog.Errorf("Error marshaling enrolled issuer %s: %s", filePath, err)
+		fd.Close()
+		return err
 	}
 
 	if err = fd.Close(); err != nil {
-- 
2.43.0


From 791850799a2be24072fda86b07fe7ceae0ade624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 23/42] fix: reject CRL reasons with trailing data

---
 go/types.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/types.go b/go/types.go
index 710cad3..3a907fe 100644
--- a/go/types.go
+++ b/go/types.go
@@ -368,10 +368,13 @@ func (c RevokedCertificateWithRawSerial) Reason() (asn1.Enumerated, error) {
 			if seen {
 				return reasonCode, fmt.Errorf("Repeated CRLReason extension")
 			}
-			_, err := asn1.Unmarshal(ext.Value, &reasonCode)
+			rest, err := asn1.Unmarshal(ext.Value, &reasonCode)
 			if err != nil {
 				return reasonCode, err
 			}
+			if len(rest) != 0 {
+				return reasonCode, fmt.Errorf("Trailing data after CRLReason")
+			}
 			seen = true
 		}
 	}
-- 
2.43.0


From b77e92b5db52ac715d26aabcc6f83c11a018ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:52 +0000
Subject: [PATCH 24/42] fix: keep the files of URLs with unusual queries apart

---
 go/cmd/aggregate-crls/aggregate-crls.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 0b824fb..1bf18d3 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -50,8 +50,13 @@ var (
 
 func normalizedUrlString(u *url.URL) string {
 	if u.RawQuery != "" {
+		// Normalizing a query that doesn't parse would drop parts of it.
+		query, err := url.ParseQuery(u.RawQuery)
+		if err != nil {
+			return u.String()
+		}
 		normalized := *u
-		normalized.RawQuery = normalized.Query().Encode()
+		normalized.RawQuery = query.Encode()
 		return normalized.String()
 	}
 	return u.String()
-- 
2.43.0


From 3f1c7f4192c426ffe94f140d3989cf69a7dbdc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:16 +0000
Subject: [PATCH 25/42] fix: an issuer uses partitioned CRLs if any of its
 certificates does

---
 go/rootprogram/issuers.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index 2927d0c..6b9719b 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -472,6 +472,7 @@ func (mi *MozIssuers) InsertIssuer(aCert *ctx509.Certificate, aCrls []string, aU
 	v, exists := mi.issuerMap[issuer.ID()]
 	if exists {
 		v.certs = append(v.certs, ic)
+		v.usesPartitionedCrls = v.usesPartitionedCrls || aUsesPartitionedCrls
 		mi.issuerMap[issuer.ID()] = v
 		return issuer
 	}
-- 
2.43.0


From 76e8a4461b5ba2d81659427870f2db07ece108eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:17 +0000
Subject: [PATCH 26/42] fix: decode lists of partitioned CRLs as JSON

---
 go/rootprogram/issuers.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index 6b9719b..b5e0a03 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -424,8 +424,12 @@ func decodeCrls(fullCrlStr string, partCrlJson string) ([]string, bool, error) {
 		}
 	}
 
-	partCrlJson = strings.Trim(strings.TrimSpace(partCrlJson), "[]")
-	partCrls := strings.Split(partCrlJson, ",")
+	var partCrls []string
+	if err := json.Unmarshal([]byte(partCrlJson), &partCrls); err != nil {
+		// Some issuers disclose lists that aren't quite JSON.
+		partCrlJson = strings.Trim(strings.TrimSpace(partCrlJson), "[]")
+		partCrls = strings.Split(partCrlJson, ",")
+	}
 	for _, crl := range partCrls {
 		crl = strings.Trim(strings.TrimSpace(crl), `"`)
 		if crl == "" {
-- 
2.43.0


From 007dfafd9e77f3bd5fd1f4ef71c8736d1454c329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:00 +0000
Subject: [PATCH 27/42] fix: find chains that avoid expired issuers

---
 go/rootprogram/issuers.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index b5e0a03..a8198b6 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -184,7 +184,6 @@ func (mi *MozIssuers) LoadFromDisk(aPath string) error {
 				continue
 			}
 
-			intermediatePool.AddCert(cert)
 			intermediateCerts[fp] = cert
 			intermediateCount += 1
 
@@ -206,19 +205,29 @@ func (mi *MozIssuers) LoadFromDisk(aPath string) error {
 		KeyUsages:     []zcx509.ExtKeyUsage{zcx509.ExtKeyUsageServerAuth},
 	}
 
+	// Verify re-uses partial chains, so it can miss a valid chain if it meets
+	// another one through an expired (or otherwise unsuitable) issuer first.
+	// Hence we only let it use the issuers that have been verified already.
 	validCount := 0
-	for fp, zcCert := range intermediateCerts {
-		chains, _, _, err := zcCert.Verify(verifyOpts)
-		if err == nil && len(chains) > 0 {
-			ctCert, err := ZcryptoToCtCertificate(zcCert)
-			if err != nil {
-				glog.Warningf("Failed to convert certificate %s: %v", fp, err)
-				continue
+	for progress := true; progress; {
+		progress = false
+		for fp, zcCert := range intermediateCerts {
+			chains, _, _, err := zcCert.Verify(verifyOpts)
+			if err == nil && len(chains) > 0 {
+				delete(intermediateCerts, fp)
+				intermediatePool.AddCert(zcCert)
+				progress = true
+
+				ctCert, err := ZcryptoToCtCertificate(zcCert)
+				if err != nil {
+					glog.Warningf("Failed to convert certificate %s: %v", fp, err)
+					continue
+				}
+				crls := intermediateCRLs[fp]
+				partitioned := usesPartitioned[fp]
+				mi.InsertIssuer(ctCert, crls, partitioned)
+				validCount++
 			}
-			crls := intermediateCRLs[fp]
-			partitioned := usesPartitioned[fp]
-			mi.InsertIssuer(ctCert, crls, partitioned)
-			validCount++
 		}
 	}
 
-- 
2.43.0


From 3b9e7ef30c517a23f9e8cda179f4152bb8574407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 28/42] fix: replace the CCADB report only with a complete
 download

---
 go/rootprogram/issuers.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index a8198b6..5e6b6e1 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -80,13 +80,27 @@ func (mi *MozIssuers) Load() error {
 		return err
 	}
 
-	err = downloader.DownloadFileSync(ctx, *dataUrl, mi.DiskPath, 3, 300*time.Second)
+	// Only a complete download may replace the report on disk, as the next run
+	// can't tell that a part of it is missing.
+	tmpPath := fmt.Sprintf("%s.tmp", mi.DiskPath)
+	err = os.Remove(tmpPath)
+	if err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	defer os.Remove(tmpPath)
+
+	err = downloader.DownloadFileSync(ctx, *dataUrl, tmpPath, 3, 300*time.Second)
 	if err != nil {
 		glog.Errorf("Error downloading CCADB report: %s", err)
 		return err
 	}
 
-	return mi.LoadFromDisk(mi.DiskPath)
+	err = mi.LoadFromDisk(tmpPath)
+	if err != nil {
+		return err
+	}
+
+	return os.Rename(tmpPath, mi.DiskPath)
 }
 
 func (mi *MozIssuers) LoadFromDisk(aPath string) error {
-- 
2.43.0


From 6dd6495e9b1c1fc261c64b272bd57bcfc5e9c21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 29/42] fix: publish a full filter unless every new run is
 strictly newer than the published ones

The published records are ordered by their timestamps to find the one that the
next delta extends. New runs were only compared with each other, so a run with
a timestamp at or before that of the newest published record was added as a
delta that a later publisher run could not place. The age of the full filter
was taken from the run identifier that sorts first as text, which is not the
oldest one once a day has more than ten runs.
---
 moz_kinto_publisher/main.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 6dc3824..501f8a5 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -903,7 +903,7 @@ def crlite_verify_run_id_consistency(*, run_db, identifiers_to_check, channel):
     identifiers_to_check.sort(key=lambda x: [int(y) for y in x.split("-")])
     ts = [run_db.get_run_timestamp(r) for r in identifiers_to_check]
     for x, y in zip(ts, ts[1:]):
-        if x > y:
+        if x >= y:
             raise ConsistencyException(f"Out-of-order timestamp: {ts}")
 
 
@@ -966,8 +966,18 @@ def crlite_determine_publish(*, existing_records, run_db, channel):
         log.error("Failed to verify run ID consistency: %s", se)
         return default
 
+    # The existing records are ordered by timestamp, so an update with a
+    # timestamp that is not newer could not be told from the records before it.
+    if new_run_ids and run_db.get_run_timestamp(
+        new_run_ids[0]
+    ) <= run_db.get_run_timestamp(record_run_ids[-1]):
+        log.error("New runs are not newer than the existing records.")
+        return default
+
     # If the full filter is too old, publish a full filter.
-    earliest_timestamp = run_db.get_run_timestamp(min(record_run_ids))
+    earliest_timestamp = run_db.get_run_timestamp(
+        min(record_run_ids, key=lambda x: [int(y) for y in x.split("-")])
+    )
     new_timestamp = run_db.get_run_timestamp(new_run_id)
     if new_timestamp - earliest_timestamp >= timedelta(
         days=channel.max_filter_age_days
-- 
2.43.0


From 6cf4abe26062c41c06aaa38250c7f2f44a13f3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 30/42] fix: request review of the filters only when every
 channel is consistent, and after an interrupted run

The channels share one collection. A publisher that failed between clearing a
channel and publishing its new filter left that channel empty, and the next
run offered the collection for review as soon as it had updated another
channel. If it failed just before the request for review, nothing asked for
one until another filter was published. Changes made by removing a disabled
channel were not offered for review either.
---
 moz_kinto_publisher/main.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 501f8a5..f98b58c 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -1078,13 +1078,38 @@ def publish_crlite(*, args, rw_client, channel, timeout=timedelta(minutes=5)):
             )
 
     if not args.noop:
-        rw_client.request_review_of_collection(
-            collection=settings.KINTO_CRLITE_COLLECTION
-        )
+        request_review_of_crlite(rw_client=rw_client)
 
     return rv
 
 
+def request_review_of_crlite(*, rw_client):
+    # All channels share a collection, so don't ask for a review while an
+    # earlier failure leaves the records of some channel in disarray.
+    existing_records = rw_client.get_records(
+        collection=settings.KINTO_CRLITE_COLLECTION
+    )
+    for channel in CHANNELS:
+        if not channel.enabled:
+            continue
+        channel_records = [
+            x
+            for x in existing_records
+            if x.get("channel", CHANNEL_DEFAULT) == channel.slug
+        ]
+        if not channel_records:
+            log.warning("No records for %s, not requesting review", channel.slug)
+            return
+        try:
+            crlite_verify_record_consistency(
+                existing_records=channel_records, channel=channel
+            )
+        except ConsistencyException as se:
+            log.error("Not requesting review, %s is inconsistent: %s", channel.slug, se)
+            return
+    rw_client.request_review_of_collection(collection=settings.KINTO_CRLITE_COLLECTION)
+
+
 def publish_ctlogs(*, args, rw_client):
     # Copy CT log metadata from google's v3 log_list to our kinto collection.
     # This will notify reviewers who can then manually enroll the log in CRLite.
@@ -1336,6 +1361,10 @@ def main():
                     noop=args.noop, channel=channel, rw_client=rw_client
                 )
 
+        # Also covers changes that an interrupted run left unreviewed.
+        if not args.noop:
+            request_review_of_crlite(rw_client=rw_client)
+
         log.info("Updating intermediates collection")
         publish_intermediates(args=args, rw_client=rw_client)
     except KintoException as ke:
-- 
2.43.0


From 8c24fc1fae9cbca06e7a276031e151aa017d92de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 31/42] fix: recover from malformed filter records instead of
 failing on them

The consistency check expects records that lack a field and asks for a full
filter in their place, but sorting the records and clearing them raised a
KeyError first.
---
 moz_kinto_publisher/main.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index f98b58c..f6fab29 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -700,7 +700,7 @@ def clear_crlite_filters(*, rw_client, noop, channel):
     existing_records = [
         x for x in existing_records if x.get("channel", CHANNEL_DEFAULT) == channel.slug
     ]
-    existing_filters = filter(lambda x: x["incremental"] is False, existing_records)
+    existing_filters = filter(lambda x: not x.get("incremental"), existing_records)
     for filter_record in existing_filters:
         log.info("Cleaning up stale filter record %s.", filter_record["id"])
         rw_client.delete_record(
@@ -719,7 +719,7 @@ def clear_crlite_deltas(*, rw_client, noop, channel):
     existing_records = [
         x for x in existing_records if x.get("channel", CHANNEL_DEFAULT) == channel.slug
     ]
-    existing_deltas = filter(lambda x: x["incremental"] is True, existing_records)
+    existing_deltas = filter(lambda x: x.get("incremental"), existing_records)
     for delta in existing_deltas:
         log.info("Cleaning up stale delta record %s.", delta["id"])
         rw_client.delete_record(
@@ -1000,7 +1000,9 @@ def publish_crlite(*, args, rw_client, channel, timeout=timedelta(minutes=5)):
     ]
     # Sort existing_records for crlite_verify_record_consistency,
     # which gets called in crlite_determine_publish.
-    existing_records = sorted(existing_records, key=lambda x: x["details"]["name"])
+    existing_records = sorted(
+        existing_records, key=lambda x: x.get("details", {}).get("name", "")
+    )
 
     published_run_db = PublishedRunDB(args.filter_bucket)
 
-- 
2.43.0


From e07b79c0f8634c3a8a56d670b156cf0a127609ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:46 +0000
Subject: [PATCH 32/42] fix: replace intermediate records with a malformed
 attachment instead of failing on them

Records at Kinto that cannot be read are deleted and added again, but an
attachment without one of its fields, or one that holds no certificate, raised
an exception that stopped the publisher for good.
---
 moz_kinto_publisher/main.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index f6fab29..80edfa3 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -4,7 +4,6 @@ import base64
 import hashlib
 import json
 import math
-import re
 import tempfile
 import time
 
@@ -164,15 +163,6 @@ class PublishedRunDB:
         return self.cached_run_times[run_id]
 
 
-def asciiPemToBinaryDer(pem: str) -> bytes:
-    matches = re.search(
-        r"(?<=-----BEGIN CERTIFICATE-----).*?(?=-----END CERTIFICATE-----)",
-        pem,
-        flags=re.DOTALL,
-    )
-    return base64.b64decode(matches.group(0))
-
-
 @lru_cache
 def get_attachments_base_url(client):
     return client.server_info()["capabilities"]["attachments"]["base_url"]
@@ -342,7 +332,10 @@ class Intermediate:
         if "attachment" in kwargs:
             self.kinto_id = kwargs["id"]
             self.cert = None
-            self.pemAttachment = AttachedPem(**kwargs["attachment"])
+            try:
+                self.pemAttachment = AttachedPem(**kwargs["attachment"])
+            except (KeyError, TypeError):
+                raise parseError
             self.pemHash = self.pemAttachment.hash
             if len(self.pemHash) != 64:  # sha256 hexdigest
                 raise IntermediateRecordError(f"Invalid hash. {kwargs}")
@@ -384,7 +377,6 @@ class Intermediate:
     def set_pem(self, pem_data):
         self.pemData = pem_data
         self.pemHash = hashlib.sha256(pem_data.encode("utf-8")).hexdigest()
-        derCert = asciiPemToBinaryDer(pem_data)
         try:
             self.cert = x509.load_pem_x509_certificate(
                 pem_data.encode("utf-8"), default_backend()
-- 
2.43.0


From c8d042e449ea3a2f7f1346f8df7aaccf756625a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 33/42] fix: don't take other directories of the bucket for
 runs

The pattern for run identifiers only had to match a prefix, so that a
directory such as 20240101-0.old was listed as a second run 20240101-0 or as a
run that does not exist.
---
 workflow/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workflow/__init__.py b/workflow/__init__.py
index 3de882d..1f40113 100644
--- a/workflow/__init__.py
+++ b/workflow/__init__.py
@@ -9,7 +9,7 @@ from google.cloud import storage
 from pathlib import Path
 
 
-kIdentifierFormat = re.compile(r"(\d{8}-\d+)/?")
+kIdentifierFormat = re.compile(r"(\d{8}-\d+)/?$")
 
 kTestBucket = "local_test"
 
-- 
2.43.0


From 2139dbf447e44584360a4b404321f243f6465c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 34/42] fix: allocate an identifier that is neither stored nor
 on disk

After a run that failed before its first upload, the next run of the same day
was given the identifier of the existing directory and could not create it.
If a run of a later date is stored (a clock that was ahead), every run was
given index 0 of the current day, even if that run is stored already.
---
 workflow/0-allocate_identifier | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/workflow/0-allocate_identifier b/workflow/0-allocate_identifier
index 2ca919c..dabe6f8 100755
--- a/workflow/0-allocate_identifier
+++ b/workflow/0-allocate_identifier
@@ -23,12 +23,15 @@ if not args.path:
 dateprefix = datetime.utcnow().date().strftime("%Y%m%d")
 next_idx = 0
 
+# A run that was interrupted before anything was uploaded exists on disk only.
 all_identifiers = workflow.get_run_identifiers(args.filter_bucket)
-if all_identifiers:
-    most_recent_identifier = all_identifiers.pop()
-    (date_part, idx_part) = most_recent_identifier.split("-")
+all_identifiers += [
+    x.name for x in args.path.iterdir() if workflow.kIdentifierFormat.match(x.name)
+]
+for identifier in all_identifiers:
+    (date_part, idx_part) = identifier.split("-")
     if date_part == dateprefix:
-        next_idx = int(idx_part) + 1
+        next_idx = max(next_idx, int(idx_part) + 1)
 
 allocatedName = "{}-{}".format(dateprefix, next_idx)
 allocatedPath = args.path / Path(allocatedName)
-- 
2.43.0


From f496486e5e30508c0507d177a23d84850bbd3d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:42 +0000
Subject: [PATCH 35/42] fix: compute the priority delta against the previous
 priority revset

latest/revset.bin holds every revocation, whatever its reason. With it as the
previous revset of the priority filter, a certificate whose reason changed to
one of the priority reasons was left out of the delta, and clients of the
compat channel did not learn of it before the next full filter.
---
 workflow/2-generate_mlbf          | 8 +++++++-
 workflow/3-upload_mlbf_to_storage | 5 +++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/workflow/2-generate_mlbf b/workflow/2-generate_mlbf
index ebc0a60..20c032e 100755
--- a/workflow/2-generate_mlbf
+++ b/workflow/2-generate_mlbf
@@ -88,9 +88,15 @@ def main():
             dest = Path(tempfile.mkdtemp())
             prev_revset = dest / Path("prev_revset.bin")
 
+            # A delta has to be relative to a revset for the same reasons.
+            if delta_reason_set == "all":
+                latest = "latest"
+            else:
+                latest = f"latest-{delta_reason_set}"
+
             workflow.download_from_google_cloud(
                 args.filter_bucket,
-                "latest/revset.bin",
+                f"{latest}/revset.bin",
                 prev_revset,
             )
 
diff --git a/workflow/3-upload_mlbf_to_storage b/workflow/3-upload_mlbf_to_storage
index f108303..2794b47 100755
--- a/workflow/3-upload_mlbf_to_storage
+++ b/workflow/3-upload_mlbf_to_storage
@@ -82,6 +82,11 @@ def main():
         localFolder = Path(path)
         remoteFolder = localFolder.relative_to(runIdPath.parent)
         uploadFiles(files, localFolder, remoteFolder, bucket, args=args)
+        # Add a copy to /latest-priority
+        subFolder = localFolder.relative_to(runIdPath / "clubcard-priority")
+        uploadFiles(
+            files, localFolder, Path("latest-priority") / subFolder, bucket, args=args
+        )
 
     sentinel = bucket.blob(str(Path(runIdPath.name) / "completed"))
     log.info(f"Saving 'completed' marker to {sentinel.name}")
-- 
2.43.0


From 988979523e9063dbf808737874b36e85a125a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 36/42] fix: exit with failure when the filters could not be
 generated

The generator logged the error and exited with 0, so that the pipeline went
on and marked a run without filters as completed.
---
 rust-create-cascade/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust-create-cascade/src/main.rs b/rust-create-cascade/src/main.rs
index 5c7a239..39c2dc4 100644
--- a/rust-create-cascade/src/main.rs
+++ b/rust-create-cascade/src/main.rs
@@ -781,7 +781,7 @@ fn main() {
         err = true;
     }
     if err {
-        return;
+        std::process::exit(1);
     }
 
     let hash_alg = match args.murmurhash3 {
-- 
2.43.0


From 23556b67fb7013be219788e915c99b4c2e9484ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 37/42] fix: do not drop issuers whose files cannot be listed
 or looked up

An I/O error while listing the known or delta directory, or while looking for
an issuer's revoked list, silently left the issuer or its revocations out of
the filter.
---
 rust-create-cascade/src/main.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rust-create-cascade/src/main.rs b/rust-create-cascade/src/main.rs
index 39c2dc4..e92894e 100644
--- a/rust-create-cascade/src/main.rs
+++ b/rust-create-cascade/src/main.rs
@@ -295,15 +295,17 @@ fn list_issuer_file_pairs(
 ) -> Vec<(OsString, Option<PathBuf>, PathBuf)> {
     let known_files = Path::read_dir(known_dir).unwrap();
     let known_issuers: Vec<OsString> = known_files
-        .filter_map(|x| x.ok())
-        .map(|x| x.file_name())
+        .map(|x| x.expect("could not list the known directory").file_name())
         .collect();
 
     let mut pairs = vec![];
     for issuer in known_issuers {
         let k_file = known_dir.join(&issuer);
         let r_file = revoked_dir.join(&issuer);
-        if r_file.exists() {
+        if r_file
+            .try_exists()
+            .expect("could not look for the file in the revoked directory")
+        {
             pairs.push((issuer, Some(r_file), k_file));
         } else {
             pairs.push((issuer, None, k_file));
@@ -646,8 +648,7 @@ fn write_stash(
 ) {
     let delta_files = Path::read_dir(delta_dir).unwrap();
     let delta_issuers: Vec<OsString> = delta_files
-        .filter_map(|x| x.ok())
-        .map(|x| x.file_name())
+        .map(|x| x.expect("could not list the delta directory").file_name())
         .collect();
 
     let mut stash_bytes = vec![];
-- 
2.43.0


From 5319b65b00c016703f0ca49ad844881d6bb8e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 38/42] fix: clobber the output directory even if it cannot be
 looked up

When stat failed, the output directory was taken to be absent and the lists of
an earlier run stayed in it and went into the stash.
---
 rust-create-cascade/src/main.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rust-create-cascade/src/main.rs b/rust-create-cascade/src/main.rs
index e92894e..12b2ca0 100644
--- a/rust-create-cascade/src/main.rs
+++ b/rust-create-cascade/src/main.rs
@@ -752,9 +752,13 @@ fn main() {
     }
 
     if args.clobber {
-        if out_dir.exists() && std::fs::remove_dir_all(out_dir).is_err() {
-            error!("could not clobber output directory");
-            err = true;
+        match std::fs::remove_dir_all(out_dir) {
+            Ok(()) => (),
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => (),
+            Err(_) => {
+                error!("could not clobber output directory");
+                err = true;
+            }
         }
     } else {
         for f in [
-- 
2.43.0


From 3de0a4da9a86ea0dec0a00bba48c6eb539997eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 39/42] fix: rust-query-crlite ignored errors while listing its
 database

A filter that could not be listed was skipped, and certificates it revokes
were reported as good; a filter that could not be removed stayed in use after
an update.
---
 rust-query-crlite/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust-query-crlite/src/main.rs b/rust-query-crlite/src/main.rs
index 0633d73..a5c2954 100644
--- a/rust-query-crlite/src/main.rs
+++ b/rust-query-crlite/src/main.rs
@@ -120,7 +120,7 @@ fn update_intermediates(db_dir: &Path) -> Result<(), CRLiteDBError> {
     // Find the lexicographically largest "yyyymmdd-r" prefix among downloaded filter files.
     let mut latest_run_id: Option<(String, u32)> = None;
     for dir_entry in std::fs::read_dir(db_dir)? {
-        let Ok(dir_entry) = dir_entry else { continue };
+        let dir_entry = dir_entry?;
         if let Some(run_id) = extract_run_id(&dir_entry.path()) {
             latest_run_id = Some(match latest_run_id {
                 None => run_id,
@@ -182,7 +182,7 @@ fn update_db(
 
     // Remove any filter or delta files that are not listed in the collection
     for dir_entry in std::fs::read_dir(db_dir)? {
-        let Ok(dir_entry) = dir_entry else { continue };
+        let dir_entry = dir_entry?;
         let dir_entry_path = dir_entry.path();
         let extension = dir_entry_path
             .extension()
@@ -191,7 +191,7 @@ fn update_db(
             && !expected_filenames.contains(&dir_entry.file_name())
         {
             debug!("Removing {:?}", dir_entry.file_name());
-            let _ = std::fs::remove_file(dir_entry_path);
+            std::fs::remove_file(dir_entry_path)?;
         }
     }
 
@@ -296,7 +296,7 @@ impl CRLiteDB {
         let mut filters = vec![];
         let mut most_recent_time = None;
         for dir_entry in std::fs::read_dir(db_dir)? {
-            let Ok(dir_entry) = dir_entry else { continue };
+            let dir_entry = dir_entry?;
             let dir_entry_path = dir_entry.path();
             let extension = dir_entry_path
                 .extension()
-- 
2.43.0


From 1cd161bf3adaf8dd9a8e22feafb7cf85b10d31a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 40/42] fix: rust-query-crlite signoff used error pages as host
 lists

An error response with an empty body counted as an empty list of hosts, and
signoff succeeded without having queried any.
---
 rust-query-crlite/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust-query-crlite/src/main.rs b/rust-query-crlite/src/main.rs
index a5c2954..424f43c 100644
--- a/rust-query-crlite/src/main.rs
+++ b/rust-query-crlite/src/main.rs
@@ -479,6 +479,7 @@ impl rustls::client::ServerCertVerifier for AcceptAllCertsVerifier {
 
 fn signoff(db: &CRLiteDB, host_file_url: &str) -> Result<CmdResult, CRLiteDBError> {
     let host_file = reqwest::blocking::get(host_file_url)
+        .and_then(|response| response.error_for_status())
         .map_err(|_| CRLiteDBError::from("could not fetch hosts file"))?
         .text()
         .map_err(|_| CRLiteDBError::from("could not read hosts file"))?;
-- 
2.43.0


From bc0ccf7a1c5ef08a76a5ce13a47557fb6370be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:09 +0000
Subject: [PATCH 41/42] fix: a CRL dropped because of a local failure is listed
 in the audit report

When the directory for the CRLs of an issuer could not be made, or a
downloaded list could not be synced, renamed or looked at, the list was left
out without the audit report mentioning it.
---
 go/cmd/aggregate-crls/aggregate-crls.go | 8 +++++---
 go/downloader/verifying-downloader.go   | 2 ++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 1bf18d3..b60d037 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -96,15 +96,16 @@ func (cv *CrlVerifier) IsValid(path string) error {
 func (ae *AggregateEngine) crlFetchWorkerProcessOne(ctx context.Context, crlUrl url.URL, issuer types.Issuer) (string, error) {
 	crlUrlStr := normalizedUrlString(&crlUrl)
 
+	filename := makeFilenameFromUrl(crlUrl)
+	finalPath := filepath.Join(*crlpath, issuer.ID(), filename)
+
 	err := os.MkdirAll(filepath.Join(*crlpath, issuer.ID()), permModeDir)
 	if err != nil {
+		ae.auditor.FailedProcessLocal(&issuer, &crlUrl, finalPath, err)
 		glog.Warningf("Couldn't make directory: %s", err)
 		return "", err
 	}
 
-	filename := makeFilenameFromUrl(crlUrl)
-	finalPath := filepath.Join(*crlpath, issuer.ID(), filename)
-
 	cert, err := ae.issuers.GetCertificateForIssuer(issuer)
 	if err != nil {
 		glog.Fatalf("[%s] Could not find certificate for issuer: %s", issuer.ID(), err)
@@ -128,6 +129,7 @@ func (ae *AggregateEngine) crlFetchWorkerProcessOne(ctx context.Context, crlUrl
 	// Ensure the final path is acceptable
 	localSize, localDate, err := downloader.GetSizeAndDateOfFile(finalPath)
 	if err != nil {
+		ae.auditor.FailedProcessLocal(&issuer, &crlUrl, finalPath, err)
 		glog.Errorf("[%s] Unexpected error on local file, will not be populating the "+
 			"revocations: %s", crlUrlStr, err)
 		return "", err
diff --git a/go/downloader/verifying-downloader.go b/go/downloader/verifying-downloader.go
index 38b5229..e058419 100644
--- a/go/downloader/verifying-downloader.go
+++ b/go/downloader/verifying-downloader.go
@@ -79,6 +79,7 @@ func DownloadAndVerifyFileSync(ctx context.Context, verifyFunc DownloadVerifier,
 	// else a power loss could leave us with neither.
 	syncErr := syncFile(tmpPath)
 	if syncErr != nil {
+		auditor.FailedVerifyPath(identifier, &crlUrl, finalPath, syncErr)
 		glog.Errorf("[%s] Couldn't sync %s: %s", identifier.ID(), tmpPath, syncErr)
 
 		return attemptFallbackToExistingFile(syncErr)
@@ -86,6 +87,7 @@ func DownloadAndVerifyFileSync(ctx context.Context, verifyFunc DownloadVerifier,
 
 	renameErr := os.Rename(tmpPath, finalPath)
 	if renameErr != nil {
+		auditor.FailedVerifyPath(identifier, &crlUrl, finalPath, renameErr)
 		glog.Errorf("[%s] Couldn't rename %s to %s: %s", identifier.ID(), tmpPath, finalPath, renameErr)
 
 		return attemptFallbackToExistingFile(renameErr)
-- 
2.43.0


From a02d2b175d78944eeb4a1403acd94b7a35893201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:07 +0000
Subject: [PATCH 42/42] fix: ct-fetch asked a log that answers with no entries
 again without pause

---
 go/cmd/ct-fetch/rfc6962.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/cmd/ct-fetch/rfc6962.go b/go/cmd/ct-fetch/rfc6962.go
index 0eb7ff6..f4f365c 100644
--- a/go/cmd/ct-fetch/rfc6962.go
+++ b/go/cmd/ct-fetch/rfc6962.go
@@ -670,6 +670,11 @@ func (lw *LogWorker) downloadCTRangeToChannel(ctx context.Context, verifier *CtL
 			return minTimestamp, maxTimestamp, err
 		}
 
+		if len(resp.Entries) == 0 {
+			// Asking again right away could go on forever.
+			return minTimestamp, maxTimestamp, fmt.Errorf("[%s] No entries in response at index=%d", lw.Name(), index)
+		}
+
 		for _, entry := range resp.Entries {
 			rawLogEntry, err := ct.RawLogEntryFromLeaf(int64(index), &entry)
 			if err != nil {
-- 
2.43.0

