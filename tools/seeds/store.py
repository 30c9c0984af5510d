CDB = "go/storage/certdatabase.go"; RC = "go/storage/rediscache.go"; TY = "go/types.go"
HEAD = '''package storage_test

import (
%s
)
'''
def head(*imps):
    return HEAD % "\n".join("\t" + (i if " " in i else '"%s"' % i) for i in imps)
TYP = 'types "github.com/mozilla/crlite/go"'
STO = '"github.com/mozilla/crlite/go/storage"'
SEEDS = [
dict(id="c13-last-batch", property="C13",
 needs="an issuer with more than a thousand expiry bins in the cache, not an exact number of thousands",
 breaks="the bins after the last full batch stay in the cache, and a complete-looking known list without them is published with coverage that includes them",
 edits=[(CDB, '''		batchSize := kMoveSerialsBatchSize
		for start := 0; start < len(issuerDate.ExpDates); start += batchSize {
			if start+batchSize > len(issuerDate.ExpDates) {
				batchSize = len(issuerDate.ExpDates) - start
			}
''', '''		batchSize := min(kMoveSerialsBatchSize, len(issuerDate.ExpDates))
		for start := 0; start+batchSize <= len(issuerDate.ExpDates) && batchSize > 0; start += batchSize {
''')],
 demo=head("strings", "testing", "time", TYP) + '''
func TestSeedDemo(t *testing.T) {
	for _, n := range []int{5, 1000, 1003} {
		p := startRedis(t)
		db := newDB(t, p.cache(t), t.TempDir())
		iss := types.NewIssuerFromString("issuerA")
		at := time.Now().UTC().Add(240 * time.Hour)
		var exps []types.ExpDate
		for i := 0; i < n; i++ {
			exps = append(exps, mustExp(at.Add(time.Duration(i)*time.Hour).Format("2006-01-02-15")))
			ingest(t, db, iss, exps[i], strings.Repeat("ab", 3), 5, uint64(20000+i))
		}
		saveLog(t, db, uint64(20000+n))
		if err := commit(t, db, p.cache(t)); err != nil {
			t.Fatal(err)
		}
		got := 0
		for _, e := range exps {
			got += len(stored(t, db, iss, e))
		}
		if coverage(t, db) == uint64(20000+n) && got != n {
			t.Fatal(n, got)
		}
	}
}
'''),
dict(id="c01-fresher-coverage", property="C01",
 needs="the ingester stores entries and saves progress in a bin that the running commit has already moved, before the commit publishes coverage",
 breaks="the coverage metadata is re-read after the serials were moved, so it covers entries that are still only in the cache",
 edits=[(CDB, '''	enc := json.NewEncoder(ctLogFD)
	if err = enc.Encode(logList); err != nil {
		return err
	}

	err = db.moveCachedSerialsToStorage(logList)
	if err != nil {
		return err
	}
''', '''	err = db.moveCachedSerialsToStorage(logList)
	if err != nil {
		return err
	}

	// Moving serials can take a while, so publish the log states as of now.
	logList, err = db.cache.LoadAllLogStates()
	if err != nil {
		return err
	}

	enc := json.NewEncoder(ctLogFD)
	if err = enc.Encode(logList); err != nil {
		return err
	}
''')],
 demo=head("strings", "testing") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	c := p.cache(t)
	db := newDB(t, c, t.TempDir())
	ingest(t, db, issuerA, future, "01", 10000, 20000)
	done := false
	p.After = func(args []string, rep string) string {
		if args[0] == "srem" && !done {
			done = true
			ingest(t, db, issuerA, future, "02", 30000, 60000)
		}
		return rep
	}
	if err := commit(t, db, c); err != nil {
		t.Fatal(err)
	}
	if !done {
		t.Fatal("no serial was removed from the cache")
	}
	if !stored(t, db, issuerA, future)["02"] && coverage(t, db) >= 60000 {
		t.Fatal("serial 02 is covered but not in storage: ", strings.Count(members(p, future, issuerA), "$"))
	}
}
'''),
dict(id="c01-bad-issuer-skipped", property="C01",
 needs="an error while moving a bin of one issuer (an unreadable or damaged serial file, a full disk)",
 breaks="the commit goes on and publishes coverage although the covered serials of one issuer did not reach storage",
 edits=[(CDB, '''			wg.Wait()
			close(errChan)
			for err := range errChan {
				if err != nil {
					return err
				}
			}
''', '''			wg.Wait()
			close(errChan)
			failed := 0
			for err := range errChan {
				if err != nil {
					glog.Errorf("[%s] Failed to move an expiry bin: %s", issuer.ID(), err)
					failed++
				}
			}
			// Don't let one bad expiry bin keep the others out of storage
			if failed == batchSize && failed > 1 {
				return fmt.Errorf("[%s] Failed to move %d expiry bins", issuer.ID(), failed)
			}
''')],
 demo=head("os", "path/filepath", "testing") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	c := p.cache(t)
	dir := t.TempDir()
	db := newDB(t, c, dir)
	d := filepath.Join(dir, "serials", "issuer::"+issuerA.ID())
	os.MkdirAll(d, 0755)
	// a damaged serial file
	f := filepath.Join(d, "serials::"+future.ID()+"::"+issuerA.ID())
	os.WriteFile(f, []byte("@junk\\n"), 0644)
	ingest(t, db, issuerA, future, "01", 10000, 20000)
	ingest(t, db, issuerB, future, "02", 10000, 20000)
	err := commit(t, db, c)
	if err == nil || coverage(t, db) >= 20000 {
		t.Fatal("coverage published without serial 01", err)
	}
}
'''),
dict(id="c02-remove-before-replace", property="C02",
 needs="the process dies, or replacing the serial file fails, between the cache removal and the replacement",
 breaks="covered serials are removed from the cache before the serial file holding them is in place",
 edits=[(CDB, '''	err = t.CloseAtomicallyReplace()
	if err != nil {
		return err
	}

	// It's now safe to remove coveredEntries from the cache.
	key := db.GetSerialCacheKey(aExpDate, aIssuer)
	err = db.RemoveMany(key, coveredEntries)
	if err != nil {
		glog.Warningf("Failed to remove serial from cache: %s", err)
	}

	return nil
''', '''	// coveredEntries are on disk. It's now safe to remove them from the cache.
	key := db.GetSerialCacheKey(aExpDate, aIssuer)
	err = db.RemoveMany(key, coveredEntries)
	if err != nil {
		glog.Warningf("Failed to remove serial from cache: %s", err)
	}

	return t.CloseAtomicallyReplace()
''')],
 demo=head("testing") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	c := p.cache(t)
	db := newDB(t, c, t.TempDir())
	ingest(t, db, issuerA, future, "01", 10000, 20000)
	seen := false
	p.Before = func(args []string) string {
		if args[0] == "srem" {
			seen = true
			if !stored(t, db, issuerA, future)["01"] {
				t.Error("serial 01 is removed from the cache but is not in storage")
			}
		}
		return ""
	}
	if err := commit(t, db, c); err != nil {
		t.Fatal(err)
	}
	if !seen {
		t.Log("nothing removed")
	}
}
'''),
dict(id="c02-del-emptied-set", property="C02",
 needs="the ingester adds an entry to a bin between the size check and the DEL of a commit that moved all of the bin's entries",
 breaks="an entry added in between is deleted with the set",
 edits=[(RC, '''	batchSize := 1024
	for batchStart''', '''	// If we're removing every element then there's no need to list them.
	card, err := rc.SetCardinality(key)
	if err != nil {
		return err
	}
	if len(entries) > 0 && card == len(entries) {
		return rc.client.Del(key).Err()
	}

	batchSize := 1024
	for batchStart''')],
 demo=head("testing") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	c := p.cache(t)
	db := newDB(t, c, t.TempDir())
	ingest(t, db, issuerA, future, "01", 10000, 20000)
	done := false
	p.Before = func(args []string) string {
		if (args[0] == "srem" || args[0] == "del") && len(args) > 1 && args[1] == "serials::"+future.ID()+"::"+issuerA.ID() && !done {
			done = true
			ingest(t, db, issuerA, future, "02", 30000, 20000)
		}
		return ""
	}
	if err := commit(t, db, c); err != nil {
		t.Fatal(err)
	}
	if !done {
		t.Skip("nothing removed")
	}
	n, err := c.SetCardinality("serials::" + future.ID() + "::" + issuerA.ID())
	if err != nil || (n != 1 && !stored(t, db, issuerA, future)["02"]) {
		t.Fatal("serial 02 is lost", n, err)
	}
}
'''),
dict(id="c03-leftover-temporary", property="C03",
 needs="a commit is killed while it is moving serials",
 breaks="the fixed-name temporary file left behind makes every later commit fail",
 edits=[(CDB, '''	ctLogFD, err := renameio.TempFile("", db.coverageFile())
	if err != nil {
		return err
	}
	defer ctLogFD.Cleanup()
''', '''	tmpCoverageFile := db.coverageFile() + ".tmp"
	ctLogFD, err := os.OpenFile(tmpCoverageFile, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)
	if err != nil {
		return err
	}
	defer os.Remove(tmpCoverageFile)
	defer ctLogFD.Close()
'''), (CDB, '''	err = ctLogFD.CloseAtomicallyReplace()
	if err != nil {
		return err
	}

	err = db.removeExpired''', '''	if err = ctLogFD.Sync(); err != nil {
		return err
	}
	if err = os.Rename(tmpCoverageFile, db.coverageFile()); err != nil {
		return err
	}

	err = db.removeExpired''')],
 demo=head("os", "os/exec", "testing") + '''
func TestSeedDemo(t *testing.T) {
	if a := os.Getenv("SEED_CHILD"); a != "" {
		p := &proxy{Addr: a}
		c := p.cache(t)
		db := newDB(t, c, os.Getenv("SEED_DIR"))
		commit(t, db, c)
		return
	}
	p := startRedis(t)
	dir := t.TempDir()
	c := p.cache(t)
	db := newDB(t, c, dir)
	ingest(t, db, issuerA, future, "01", 10000, 20000)
	child := exec.Command(os.Args[0], "-test.run", "TestSeedDemo")
	child.Env = append(os.Environ(), "SEED_CHILD="+p.Addr, "SEED_DIR="+dir)
	killed := false
	p.Before = func(args []string) string {
		if args[0] == "sscan" && !killed {
			killed = true
			child.Process.Kill()
			return "drop"
		}
		return ""
	}
	if err := child.Start(); err != nil {
		t.Fatal(err)
	}
	child.Wait()
	p.Before = nil
	if !killed {
		t.Fatal("not killed")
	}
	p.do("del", "lock::commit") // the abandoned lock lapses
	if err := db.EnsureCacheIsConsistent(); err != nil {
		t.Fatal(err)
	}
	if err := commit(t, db, c); err != nil {
		t.Fatal("the commit after the interrupted one fails: ", err)
	}
	if !stored(t, db, issuerA, future)["01"] {
		t.Fatal("serial 01 not stored")
	}
}
'''),
dict(id="c03-lock-without-expiry", property="C03",
 needs="the process dies between SETNX and EXPIRE of the commit lock",
 breaks="the abandoned lock never lapses, so commits are refused forever",
 edits=[(RC, '''	set, err := ec.client.SetNX(COMMIT_LOCK_KEY, commitLockToken, COMMIT_LOCK_EXPIRATION).Result()
	if err != nil || !set {
		return nil, err
	}
	return &commitLockToken, err
''', '''	set, err := ec.client.SetNX(COMMIT_LOCK_KEY, commitLockToken, NO_EXPIRATION).Result()
	if err != nil || !set {
		return nil, err
	}
	err = ec.client.Expire(COMMIT_LOCK_KEY, COMMIT_LOCK_EXPIRATION).Err()
	if err != nil {
		return nil, err
	}
	return &commitLockToken, nil
''')],
 demo=head("strings", "testing") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	c := p.cache(t)
	// from the first command after the lock was taken, nothing gets through
	taken := false
	p.Before = func(args []string) string {
		if taken {
			return "-ERR gone\\r\\n"
		}
		return ""
	}
	p.After = func(args []string, rep string) string {
		if strings.HasPrefix(args[0], "set") && len(args) > 1 && args[1] == "lock::commit" {
			taken = true
		}
		return rep
	}
	c.AcquireCommitLock()
	if s := p.do("ttl", "lock::commit"); strings.HasPrefix(s, ":-1") {
		t.Fatal("the lock has no expiry")
	}
}
'''),
dict(id="c04-unreadable-epoch", property="C04",
 needs="the GET of the epoch fails while the ingester restarts",
 breaks="a cache that agrees with storage is reset to the previous coverage because its epoch could not be read",
 edits=[(RC, '''	if err == redis.Nil { // EPOCH_KEY not set
		return 0, nil
	}
	if err != nil {
		return 0, err
	}
	return strconv.ParseUint(epochStr, 10, 64)
''', '''	if err != nil { // EPOCH_KEY not set
		return 0, nil
	}
	return strconv.ParseUint(epochStr, 10, 64)
''')],
 demo=head("testing") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	c := p.cache(t)
	db := newDB(t, c, t.TempDir())
	ingest(t, db, issuerA, future, "01", 10000, 20000)
	if err := commit(t, db, c); err != nil {
		t.Fatal(err)
	}
	ingest(t, db, issuerA, future, "02", 30000, 40000)
	p.Before = func(args []string) string {
		if args[0] == "get" && args[1] == "epoch" {
			return "-ERR try again later\\r\\n"
		}
		return ""
	}
	db.EnsureCacheIsConsistent()
	p.Before = nil
	l, err := c.LoadAllLogStates()
	if err != nil || len(l) != 1 || l[0].MaxEntry != 40000 {
		t.Fatal("the saved progress was lost", l, err)
	}
}
'''),
dict(id="c04-epoch-set-not-incr", property="C04",
 needs="the cache is lost between the two commands that advance the epoch",
 breaks="the emptied cache gets an epoch that agrees with storage, so its loss is not detected",
 edits=[(RC, '''	return ec.client.Incr(EPOCH_KEY).Err()
''', '''	epoch, err := ec.GetEpoch()
	if err != nil {
		return err
	}
	return ec.client.Set(EPOCH_KEY, epoch+1, NO_EXPIRATION).Err()
''')],
 demo=head("testing") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	c := p.cache(t)
	db := newDB(t, c, t.TempDir())
	ingest(t, db, issuerA, future, "01", 10000, 20000)
	for i := 0; i < 2; i++ {
		if err := commit(t, db, c); err != nil {
			t.Fatal(err)
		}
	}
	ingest(t, db, issuerA, future, "02", 30000, 40000)
	// the cache is lost when the epoch is about to be written
	done := false
	p.Before = func(args []string) string {
		if !done && len(args) > 1 && args[1] == "epoch" && args[0] != "get" {
			done = true
			p.do("flushall")
		}
		return ""
	}
	commit(t, db, c)
	p.Before = nil
	if !done {
		t.Fatal("epoch not advanced")
	}
	before := coverage(t, db)
	commit(t, db, c) // without a restart
	if after := coverage(t, db); after < before {
		t.Fatal("a commit from the emptied cache replaced the coverage", before, after)
	}
}
'''),
dict(id="c05-get-then-set", property="C05",
 needs="two processes try to take the lock at the same time",
 breaks="both are given the commit lock",
 edits=[(RC, '''	set, err := ec.client.SetNX(COMMIT_LOCK_KEY, commitLockToken, COMMIT_LOCK_EXPIRATION).Result()
	if err != nil || !set {
		return nil, err
	}
	return &commitLockToken, err
''', '''	held, err := ec.Exists(COMMIT_LOCK_KEY)
	if err != nil || held {
		return nil, err
	}
	err = ec.client.Set(COMMIT_LOCK_KEY, commitLockToken, COMMIT_LOCK_EXPIRATION).Err()
	if err != nil {
		return nil, err
	}
	return &commitLockToken, nil
''')],
 demo=head("testing") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	a, b := p.cache(t), p.cache(t)
	in := false
	var other *string
	p.Before = func(args []string) string {
		if args[0] == "set" && args[1] == "lock::commit" && !in {
			in = true
			other, _ = b.AcquireCommitLock()
		}
		return ""
	}
	mine, _ := a.AcquireCommitLock()
	if mine != nil && other != nil {
		t.Fatal("both were given the lock")
	}
}
'''),
dict(id="c05-lock-checked-late", property="C05",
 needs="a commit with a token that is not (or no longer) the holder's",
 breaks="the refused commit has already moved serials from the cache to storage",
 edits=[(CDB, '''	hasLock, err := db.cache.HasCommitLock(aProofOfLock)
	if err != nil {
		return err
	}
	if !hasLock {
		return errors.New("Caller must hold commit lock")
	}

	storageEpoch, err''', '''	if aProofOfLock == "" {
		return errors.New("Caller must hold commit lock")
	}

	storageEpoch, err'''), (CDB, '''	hasLock, err = db.cache''', '''	hasLock, err := db.cache''')],
 demo=head("testing") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	c := p.cache(t)
	db := newDB(t, c, t.TempDir())
	ingest(t, db, issuerA, future, "01", 10000, 20000)
	c.AcquireCommitLock()
	if err := db.Commit("not the token"); err == nil {
		t.Fatal("committed without the lock")
	}
	if stored(t, db, issuerA, future)["01"] {
		t.Fatal("the refused commit changed storage")
	}
}
'''),
dict(id="c06-bin-start", property="C06",
 needs="a commit during the hour (or day) that a bin is named after",
 breaks="serials whose bin has not ended yet are removed from storage",
 edits=[(CDB, '''			if expDate.IsExpiredAt(t) {
				os.Remove(serialFileFull)''', '''			if t.After(expDate.ExpireTime()) {
				os.Remove(serialFileFull)''')],
 demo=head("testing", "time") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	c := p.cache(t)
	dir := t.TempDir()
	db := newDB(t, c, dir)
	// a day bin for today has not ended
	today := mustExp(time.Now().UTC().Format("2006-01-02"))
	writeBin(t, dir, issuerA, today, "01")
	if err := commit(t, db, c); err != nil {
		t.Fatal(err)
	}
	if time.Now().UTC().Format("2006-01-02") == today.ID() && !stored(t, db, issuerA, today)["01"] {
		t.Fatal("serial 01 removed before its bin has ended")
	}
}
'''),
dict(id="c06-remove-all", property="C06",
 needs="all bins of an issuer have ended and its directory holds an unrelated file",
 breaks="unrelated files in an issuer's directory are deleted with its last serial file",
 edits=[(CDB, '''		// If the issuerDir is now empty, remove it
		serialFiles, err = os.ReadDir(issuerDirFull)
		if err != nil {
			return err
		}
		if len(serialFiles) == 0 {
			os.Remove(issuerDirFull)
			continue
		}
''', '''		// If the issuerDir holds no more serials, remove it
		remaining, err := filepath.Glob(filepath.Join(issuerDirFull, "serials::*"))
		if err != nil {
			return err
		}
		if len(remaining) == 0 {
			os.RemoveAll(issuerDirFull)
			continue
		}
''')],
 demo=head("os", "path/filepath", "testing") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	c := p.cache(t)
	dir := t.TempDir()
	db := newDB(t, c, dir)
	f := filepath.Join(writeBin(t, dir, issuerA, mustExp("2020-01-01-05"), "01"), "notes.txt")
	if err := os.WriteFile(f, []byte("x"), 0644); err != nil {
		t.Fatal(err)
	}
	if err := commit(t, db, c); err != nil {
		t.Fatal(err)
	}
	if _, err := os.Stat(f); err != nil {
		t.Fatal("unrelated file removed: ", err)
	}
}
'''),
dict(id="c07-remove-batches", property="C07",
 needs="a removal of more than 1024 members whose number is not a multiple of 1024",
 breaks="the members of the last, partial batch are not removed",
 edits=[(RC, '''	batchSize := 1024
	for batchStart := 0; batchStart < len(entries); batchStart += batchSize {
		batchEnd := batchStart + batchSize
		if batchEnd > len(entries) {
			batchEnd = len(entries)
		}
		batch := entries[batchStart:batchEnd]
''', '''	batchSize := 1024
	if batchSize > len(entries) {
		batchSize = len(entries)
	}
	for batchStart := 0; batchSize > 0 && batchStart+batchSize <= len(entries); batchStart += batchSize {
		batch := entries[batchStart : batchStart+batchSize]
''')],
 demo=head("fmt", "testing") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	c := p.cache(t)
	var l []string
	for i := 0; i < 1500; i++ {
		l = append(l, fmt.Sprint(i))
		if _, err := c.SetInsert("k", l[i]); err != nil {
			t.Fatal(err)
		}
	}
	if err := c.SetRemove("k", l); err != nil {
		t.Fatal(err)
	}
	if n, err := c.SetCardinality("k"); n != 0 || err != nil {
		t.Fatal(n, err)
	}
}
'''),
dict(id="c07-migrate-order", property="C07",
 needs="the write of the migrated record fails (or the process dies) after the old record was deleted",
 breaks="the log's progress is lost",
 edits=[(RC, '''		if err = ec.StoreLogState(&log); err != nil {
			return err
		}
		ec.client.Del(oldKey)
		return nil
''', '''		ec.client.Del(oldKey)
		return ec.StoreLogState(&log)
''')],
 demo=head("testing", TYP) + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	c := p.cache(t)
	p.do("set", "log::log.example/ct/", `{"LogID":"x","MaxEntry":7,"ShortURL":"log.example/ct/"}`)
	p.Before = func(args []string) string {
		if args[0] == "set" {
			return "-ERR injected\\r\\n"
		}
		return ""
	}
	c.Migrate(&types.CTLogMetadata{URL: "https://log.example/ct/"})
	p.Before = nil
	if err := c.Migrate(&types.CTLogMetadata{URL: "https://log.example/ct/"}); err != nil {
		t.Fatal(err)
	}
	l, err := c.LoadLogState("log.example/ct")
	if err != nil || l.MaxEntry != 7 {
		t.Fatal("progress lost", err)
	}
}
'''),
dict(id="c07-empty-page", property="C07",
 needs="the server answers a scan with an empty page before the last one",
 breaks="the rest of the set is silently left out",
 edits=[(RC, '''	scanres := rc.client.SScan(key, 0, "", 0)
	err := scanres.Err()
	if err != nil {
		return err
	}

	iter := scanres.Iterator()

	for iter.Next() {
		c <- iter.Val()
	}

	return iter.Err()
''', '''	var cursor uint64
	for {
		page, next, err := rc.client.SScan(key, cursor, "", 0).Result()
		if err != nil {
			return err
		}
		for _, entry := range page {
			c <- entry
		}
		if next == 0 || len(page) == 0 {
			return nil
		}
		cursor = next
	}
''')],
 demo=head("testing") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	c := p.cache(t)
	p.Before = func(args []string) string {
		if args[0] == "sscan" {
			if args[2] == "0" {
				return "*2\\r\\n$1\\r\\n7\\r\\n*0\\r\\n"
			}
			return "*2\\r\\n$1\\r\\n0\\r\\n*1\\r\\n$1\\r\\na\\r\\n"
		}
		return ""
	}
	ch := make(chan string, 10)
	if err := c.SetToChan("k", ch); err != nil {
		t.Fatal(err)
	}
	n := 0
	for range ch {
		n++
	}
	if n != 1 {
		t.Fatal("members delivered: ", n)
	}
}
'''),
]
