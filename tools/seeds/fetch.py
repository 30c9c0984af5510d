RF = "go/cmd/ct-fetch/rfc6962.go"; TI = "go/cmd/ct-fetch/tiled.go"; FE = "go/cmd/ct-fetch/ct-fetch.go"; CDB = "go/storage/certdatabase.go"
def head(*imps):
    return "package main_test\n\nimport (\n%s\n)\n" % "\n".join('\t"%s"' % i for i in imps)

HEALTH = '''
// ingest starts ct-fetch running forever; the function asks /health.
func startIngest(t *testing.T, p *proxy, polling int, more map[string]string, logs ...*ctLog) func() int {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := ln.Addr().String()
	ln.Close()
	vars := map[string]string{"certPath": t.TempDir(), "redisHost": p.Addr, "redisTimeout": "5s", "healthAddr": addr, "pollingDelay": fmt.Sprint(polling), "batchSize": "16", "runForever": "true", "statsRefreshPeriod": "10000h"}
	if len(logs) > 0 {
		var list []map[string]any
		for _, l := range logs {
			list = append(list, l.metadata(true))
		}
		b, _ := json.Marshal(list)
		vars["ctLogMetadata"] = string(b)
	}
	for k, v := range more {
		vars[k] = v
	}
	r := start(t, "ct-fetch", vars)
	t.Cleanup(func() { r.cmd.Process.Kill(); r.cmd.Wait() })
	client := &http.Client{Timeout: 2 * time.Second}
	ask := func() int {
		resp, err := client.Get("http://" + addr + "/health")
		if err != nil {
			return 0
		}
		io.Copy(io.Discard, resp.Body)
		resp.Body.Close()
		return resp.StatusCode
	}
	for i := 0; ask() == 0; i++ {
		if i > 200 {
			t.Fatal("ct-fetch does not answer")
		}
		time.Sleep(100 * time.Millisecond)
	}
	return ask
}
'''
SEEDS = [
dict(id="c08-verify-late", property="C08",
 needs="a log (or something between) serves an altered leaf in a subtree that is not the last of its job",
 breaks="the verifiers are checked once everything has been downloaded, after the progress over each subtree was saved",
 edits=[(RF, '''		err = verifier.CheckClaim()
		if err != nil {
			glog.Errorf("[%s] downloadCTRangeToChannel could not verify entries %d-%d: %s",
				lw.Name(), verifier.Subtree.First, verifier.Subtree.Last, err)
			return err
		}
		err = lw.updateState(''', '''		err = lw.updateState('''),
 (RF, '''	glog.Infof("[%s] Verified entries %d-%d", lw.Name(),''', '''	for _, verifier := range verifiers {
		if verifier.numConsumed == 0 {
			continue // We were asked to stop before this one
		}
		if err := verifier.CheckClaim(); err != nil {
			glog.Errorf("[%s] downloadCTRangeToChannel could not verify entries %d-%d: %s",
				lw.Name(), verifier.Subtree.First, verifier.Subtree.Last, err)
			return err
		}
	}

	glog.Infof("[%s] Verified entries %d-%d", lw.Name(),''')],
 fetchdemo=head("testing", "time") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	l := fakeLog(t, "one", 1, false, plain(12), func(kind string, nth int) string {
		if kind == "get-entries" && nth == 1 {
			return "alter-serial-0"
		}
		return ""
	})
	out := fetch(t, p, t.TempDir(), 16, false, 20*time.Second, l)
	if g := gap(t, p, l); g != "" {
		t.Fatal(g)
	}
	good := fakeLog(t, "two", 2, false, plain(12), nil)
	out = fetch(t, p, t.TempDir(), 16, false, 20*time.Second, good)
	need(t, p, good, 0, 11, out)
}
'''),
dict(id="c08-short-root", property="C08",
 needs="a log serves a consistency proof with a truncated hash together with an altered leaf below it",
 breaks="claimed hashes are compared as prefixes and their length is no longer checked strictly, so a truncated (even empty) proof hash verifies anything",
 edits=[(RF, '''	if len(v.Subtree.Root) != crypto.SHA256.Size() {''', '''	if len(v.Subtree.Root) > crypto.SHA256.Size() {'''),
  (RF, '''	if bytes.Compare(v.Subtree.Root, v.hashStack[0]) != 0 {''', '''	if !bytes.HasPrefix(v.hashStack[0], v.Subtree.Root) {''')],
 fetchdemo=head("bytes", "encoding/json", "net/http", "net/http/httptest", "net/url", "net/http/httputil", "io", "testing", "time") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	l := fakeLog(t, "one", 1, false, plain(12), func(kind string, nth int) string {
		if kind == "get-entries" {
			return "alter-serial-0"
		}
		return ""
	})
	back, _ := url.Parse(l.url)
	back.Path = ""
	rp := httputil.NewSingleHostReverseProxy(back)
	rp.ModifyResponse = func(r *http.Response) error {
		if r.Request.URL.Path != "/2000/ct/v1/get-sth-consistency" {
			return nil
		}
		var v struct{ Consistency [][]byte `json:"consistency"` }
		json.NewDecoder(r.Body).Decode(&v)
		for i := range v.Consistency {
			v.Consistency[i] = []byte{}
		}
		b, _ := json.Marshal(v)
		r.Body, r.ContentLength = io.NopCloser(bytes.NewReader(b)), int64(len(b))
		r.Header.Del("Content-Length")
		return nil
	}
	srv := httptest.NewServer(rp)
	defer srv.Close()
	l.url = srv.URL + "/2000/"
	fetch(t, p, t.TempDir(), 16, false, 20*time.Second, l)
	if s := state(t, p, l); s != nil {
		t.Fatalf("progress %d-%d over altered entries", s.MinEntry, s.MaxEntry)
	}
	good := fakeLog(t, "two", 2, false, plain(12), nil)
	out := fetch(t, p, t.TempDir(), 16, false, 20*time.Second, good)
	need(t, p, good, 0, 11, out)
}
'''),
dict(id="c09-consume-first", property="C09",
 needs="the log answers an entry whose chain cannot be decoded beside an unaltered leaf",
 breaks="leaves are hashed before the entry is decoded, so an entry that was skipped because it could not be decoded still verifies, and progress covers it although nothing was stored",
 edits=[(RF, '''		for _, entry := range resp.Entries {
''', '''		for _, entry := range resp.Entries {
			verifier.Consume(entry.LeafInput)

'''), (RF, '''			verifier.Consume(entry.LeafInput)

			index++
		}
	}
''', '''			index++
		}
	}
''')],
 fetchdemo=head("testing", "time") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	l := fakeLog(t, "one", 1, false, plain(12), func(kind string, nth int) string {
		if kind == "get-entries" && nth == 0 {
			return "alter-chain-1"
		}
		return ""
	})
	fetch(t, p, t.TempDir(), 16, false, 20*time.Second, l)
	if g := gap(t, p, l); g != "" {
		t.Fatal(g)
	}
	good := fakeLog(t, "two", 2, false, plain(12), nil)
	out := fetch(t, p, t.TempDir(), 16, false, 20*time.Second, good)
	need(t, p, good, 0, 11, out)
}
'''),
dict(id="c09-sleep-coverage", property="C09",
 needs="the log grows shortly after the last update, by fewer entries than a batch: the worker sleeps with entries it has not downloaded",
 breaks="the tree head's time is saved as the newest timestamp although the tail of the log has not been downloaded",
 edits=[(RF, '''lw.LogState.MaxEntry == lw.STH.TreeSize-1 {
			err :=''', '''lw.LogState.MaxEntry < lw.STH.TreeSize {
			err :=''')],
 fetchdemo=head("testing", "time") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	l := fakeLog(t, "one", 1, false, plain(12), nil)
	l.size = 10
	out := fetch(t, p, t.TempDir(), 16, false, 20*time.Second, l)
	need(t, p, l, 0, 9, out)
	l.size = 12
	out = fetch(t, p, t.TempDir(), 16, false, 20*time.Second, l)
	s := state(t, p, l)
	if s == nil || s.MinEntry != 0 || s.MaxEntry < 9 {
		t.Fatalf("progress %v\\n%s", s, out)
	}
	if s.MaxEntry == 9 && s.MaxTimestamp > l.entries[9].ms {
		t.Fatalf("newest timestamp %d but entry 9 has %d", s.MaxTimestamp, l.entries[9].ms)
	}
	// idle logs are still covered up to the tree head
	good := fakeLog(t, "two", 2, false, plain(12), nil)
	fetch(t, p, t.TempDir(), 16, false, 20*time.Second, good)
	fetch(t, p, t.TempDir(), 16, false, 20*time.Second, good)
	if s := state(t, p, good); s.MaxTimestamp <= good.entries[11].ms {
		t.Fatal("idle log is not covered")
	}
}
'''),
dict(id="c09-give-up", property="C09",
 needs="Redis refuses writes (out of memory) for several health ticks while entries are queued",
 breaks="the writer drops a queue after some failed attempts, and later progress covers the dropped entries",
 edits=[(FE, '''		for {
			if ld.tryUpdate(queue, ep.LogState) {
				queue = queue[:0]
				break
			}
''', '''		for attempt := 0; ; attempt++ {
			if ld.tryUpdate(queue, ep.LogState) {
				queue = queue[:0]
				break
			}
			if ep.LogState == nil && attempt >= 2 {
				// Don't hold up the other logs.
				glog.Errorf("Could not insert %d certificates", len(queue))
				queue = queue[:0]
				break
			}
''')],
 fetchdemo=head("strings", "testing", "time") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	start := time.Time{}
	p.Before = func(args []string) string {
		if strings.HasPrefix(args[0], "sadd") {
			if start.IsZero() {
				start = time.Now()
			}
			if time.Since(start) < 100*time.Second {
				return "-OOM command not allowed when used memory > 'maxmemory'.\\r\\n"
			}
		}
		return ""
	}
	l := fakeLog(t, "one", 1, false, plain(12), nil)
	out := fetch(t, p, t.TempDir(), 4, false, 200*time.Second, l)
	if g := gap(t, p, l); g != "" {
		t.Fatal(g)
	}
	if s := state(t, p, l); s == nil {
		t.Fatalf("no progress\\n%s", out)
	}
}
'''),
dict(id="c10-progress-before-store", property="C10",
 needs="fetching an issuer's certificate fails temporarily, for an entry that is not the first of its job",
 breaks="the position is advanced before the entry is stored, and the progress made so far is saved when an issuer cannot be fetched: it includes the entry that was not stored",
 edits=[(TI, '''			keepGoing, err := lw.storeLogEntry(ctx, entry, entryChan)
			if !(keepGoing && err == nil) {
				return keepGoing, err
			}

			maxEntry = uint64(i)
''', '''			maxEntry = uint64(i)
			keepGoing, err := lw.storeLogEntry(ctx, entry, entryChan)
			if err != nil {
				return false, err
			}
			if !keepGoing {
				// Keep what we have so far.
				return false, lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
			}

''')],
 fetchdemo=head("testing", "time") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	sp := plain(6)
	sp[3].ca = "B"
	l := fakeLog(t, "one", 1, true, sp, func(kind string, nth int) string {
		if kind == "issuer" && nth >= 1 {
			return "404"
		}
		return ""
	})
	out := fetch(t, p, t.TempDir(), 16, false, 200*time.Second, l)
	if g := gap(t, p, l); g != "" {
		t.Fatalf("%s\\n%s", g, out)
	}
	good := fakeLog(t, "two", 2, true, sp, nil)
	out = fetch(t, p, t.TempDir(), 16, false, 20*time.Second, good)
	need(t, p, good, 0, 5, out)
}
'''),
dict(id="c10-missing-issuer-skipped", property="C10",
 needs="a tiled log fails to serve the second certificate of a precertificate signing chain",
 breaks="an entry whose issuer could not be fetched is skipped as if it were a root, and progress goes past it",
 edits=[(TI, '''		if issuingCert == nil {
			return false, nil
		}
	} else {''', '''	} else {'''), (TI, '''	select {
	case <-ctx.Done():
		// The LogSyncEngine is shutting down''', '''	if issuingCert == nil {
		// There is nothing to attribute this entry to.
		return true, nil
	}

	select {
	case <-ctx.Done():
		// The LogSyncEngine is shutting down''')],
 fetchdemo=head("testing", "time") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	sp := plain(6)
	for i := range sp {
		sp[i].ca = "B"
	}
	sp[3].kind, sp[3].ca = "psc", "A"
	issuers := 0
	l := fakeLog(t, "one", 1, true, sp, func(kind string, nth int) string {
		if kind == "issuer" {
			if issuers++; issuers > 2 {
				return "404"
			}
		}
		return ""
	})
	out := fetch(t, p, t.TempDir(), 16, false, 200*time.Second, l)
	if g := gap(t, p, l); g != "" {
		t.Fatalf("%s\\n%s", g, out)
	}
	good := fakeLog(t, "two", 2, true, sp, nil)
	out = fetch(t, p, t.TempDir(), 16, false, 20*time.Second, good)
	need(t, p, good, 0, 5, out)
}
'''),
dict(id="c11-chain-end", property="C11",
 needs="an RFC 6962 precertificate signed by a precertificate signing certificate whose chain goes on to the root",
 breaks="the serial is recorded under the last certificate of the chain instead of the second",
 edits=[(RF, '''		issuingCert, err = types.ParseCertificate(rawLogEntry.Chain[1].Data)''', '''		last := len(rawLogEntry.Chain) - 1
		issuingCert, err = types.ParseCertificate(rawLogEntry.Chain[last].Data)''')],
 fetchdemo=head("testing", "time") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	sp := plain(6)
	sp[3].kind, sp[3].chainPad = "psc", true
	l := fakeLog(t, "one", 1, false, sp, nil)
	out := fetch(t, p, t.TempDir(), 16, false, 20*time.Second, l)
	need(t, p, l, 0, 5, out)
}
'''),
dict(id="c11-issuer-memo", property="C11",
 needs="two issuing certificates with the same subject and different keys",
 breaks="issuers are remembered by subject name, so the second key's certificates are recorded under the first key",
 edits=[(CDB, '''func (db *CertDatabase) PrepareSetMember(''', '''var issuerMemo sync.Map // Subject -> types.Issuer

func issuerOf(aIssuer *types.Certificate) types.Issuer {
	subject := aIssuer.RawSubject()
	if v, ok := issuerMemo.Load(string(subject)); ok {
		return v.(types.Issuer)
	}
	issuer := types.NewIssuerFromSPKI(aIssuer.RawSubjectPublicKeyInfo())
	issuerMemo.Store(string(subject), issuer)
	return issuer
}

func (db *CertDatabase) PrepareSetMember('''),
  (CDB, '''issuer := types.NewIssuerFromCertificate(aIssuer)''', '''issuer := issuerOf(aIssuer)'''),
  ("go/types.go", '''func (c *Certificate) IsPreIssuer() bool {''', '''func (c *Certificate) RawSubject() []byte {
	if c.ctCert != nil {
		return c.ctCert.RawSubject
	}
	return c.zcCert.RawSubject
}

func (c *Certificate) IsPreIssuer() bool {''')],
 fetchdemo=head("testing", "time").replace(")\n", '\tpki "github.com/mozilla/crlite/go/zzpki"\n)\n') + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	sp := plain(6)
	sp[3].ca = "B"
	// both authorities under one name
	caB = pki.Cert{Serial: []byte{2}, Issuer: "CA A", Subject: "CA A", NotBefore: farPast, NotAfter: farFuture, SPKI: keyB.SPKI, Exts: pki.CAExts(), Sign: keyB}.DER()
	l := fakeLog(t, "one", 1, false, sp, nil)
	out := fetch(t, p, t.TempDir(), 16, false, 20*time.Second, l)
	need(t, p, l, 0, 5, out)
}
'''),
dict(id="c12-idle-writer", property="C12",
 needs="the writer has taken the last message off the queue but not stored it when the downloaders are done",
 breaks="the engine only waits for the writer when messages are left in the queue, so a one-shot run can exit before the last entries and progress are stored",
 edits=[(FE, '''	glog.Infof("Waiting on database writes to complete: %d remaining", len(ld.entryChan))
	ld.ThreadWaitGroup.Wait()''', '''	if remaining := len(ld.entryChan); remaining > 0 {
		glog.Infof("Waiting on database writes to complete: %d remaining", remaining)
		ld.ThreadWaitGroup.Wait()
	}''')],
 fetchdemo=head("encoding/json", "strings", "sync", "testing", "time").replace(")\n", '\ttypes "github.com/mozilla/crlite/go"\n)\n') + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	writing := make(chan bool)
	var once sync.Once
	l := fakeLog(t, "one", 1, false, plain(5), nil)
	p.Before = func(args []string) string {
		if args[0] == "set" && strings.HasPrefix(args[1], "log::"+l.short()) {
			var s types.CTLogState
			if json.Unmarshal([]byte(args[2]), &s) == nil && s.MaxEntry == 4 {
				// the last write takes long
				once.Do(func() { close(writing) })
				time.Sleep(8 * time.Second)
			}
		}
		return ""
	}
	// the other log is only given up once it is under way
	other := fakeLog(t, "two", 2, false, plain(5), func(kind string, nth int) string {
		select {
		case <-writing:
			time.Sleep(500 * time.Millisecond)
		case <-time.After(20 * time.Second):
		}
		return "500"
	})
	out := fetch(t, p, t.TempDir(), 16, false, 60*time.Second, l, other)
	need(t, p, l, 0, 4, out)
}
'''),
dict(id="c12-re-enrol", property="C12",
 needs="Remote Settings unenrols a log and enrols it again later",
 breaks="an unenrolled log stays in the table with its flag cleared, so enrolling it again only updates the flag and no downloader is started",
 edits=[(FE, '''			if !ctLog.CRLiteEnrolled {
				delete(el.metadata, ctLog.LogID)
				glog''', '''			// Keep track of the log's current attributes
			el.metadata[ctLog.LogID] = ctLog
			if !ctLog.CRLiteEnrolled {
				glog'''), (FE, '''	_, prs := el.metadata[logID]
	return prs
''', '''	ctLog, prs := el.metadata[logID]
	return prs && ctLog.CRLiteEnrolled
''')],
 fetchdemo=head("encoding/json", "net/http", "net/http/httptest", "crypto/tls", "testing", "time", "os", "path/filepath", "encoding/pem", "strings", "sync") + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	var mu sync.Mutex
	heads := 0
	l := fakeLog(t, "one", 1, false, plain(12), func(kind string, nth int) string {
		if kind == "get-sth" {
			mu.Lock()
			heads++
			mu.Unlock()
		}
		return ""
	})
	polls := 0
	var _ = tls.Config{}
	srv := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		polls++
		on := polls < 3 || polls > 6
		mu.Unlock()
		json.NewEncoder(w).Encode(map[string]any{"data": []any{l.metadata(on)}})
	}))
	defer srv.Close()
	ca := filepath.Join(t.TempDir(), "ca.pem")
	os.WriteFile(ca, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: srv.Certificate().Raw}), 0644)
	r := start(t, "ct-fetch", map[string]string{"certPath": t.TempDir(), "redisHost": p.Addr, "redisTimeout": "5s", "healthAddr": "127.0.0.1:0", "pollingDelay": "1", "batchSize": "16",
		"remoteSettingsURL": strings.Replace(srv.URL, "127.0.0.1", "localhost", 0) + "/v1/", "remoteSettingsUpdateInterval": "3", "runForever": "true", "SSL_CERT_FILE": ca, "statsRefreshPeriod": "10000h"})
	defer func() { r.cmd.Process.Kill(); r.cmd.Wait() }()
	at := func(n int) {
		for i := 0; i < 600; i++ {
			mu.Lock()
			k := polls
			mu.Unlock()
			if k >= n {
				return
			}
			time.Sleep(100 * time.Millisecond)
		}
		t.Fatal("no polls")
	}
	at(5) // removed at poll 3
	time.Sleep(time.Second)
	mu.Lock()
	n := heads
	mu.Unlock()
	if n == 0 {
		t.Fatal("never synced")
	}
	at(9)
	mu.Lock()
	defer mu.Unlock()
	if heads == n {
		t.Fatal("not synced after it was enrolled again")
	}
}
'''),
dict(id="c28-retry-registers", property="C28",
 needs="the cache refuses writes for longer than two polling delays",
 breaks="every attempt to store what was downloaded counts as useful work, also when it fails, so an ingester that is stuck on a full cache looks healthy",
 edits=[(FE, '''			select {
			case <-ctx.Done():
				return
			case <-healthStatusTicker.C:
			}
''', '''			select {
			case <-ctx.Done():
				return
			case <-healthStatusTicker.C:
				ld.RegisterUpdate()
			}
''')],
 fetchdemo=head("encoding/json", "fmt", "io", "net", "net/http", "testing", "time") + HEALTH + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	l := fakeLog(t, "one", 1, false, plain(12), nil)
	p.Before = func(args []string) string {
		if args[0] == "sadd" {
			return "-OOM command not allowed when used memory > 'maxmemory'.\\r\\n"
		}
		return ""
	}
	ask := startIngest(t, p, 8, nil, l)
	time.Sleep(30 * time.Second)
	for i := 0; i < 40; i++ {
		if c := ask(); c != 500 {
			t.Fatalf("%d after %d seconds in which nothing could be stored", c, 30+i)
		}
		time.Sleep(time.Second)
	}
}
'''),
dict(id="c28-idle-unhealthy", property="C28",
 needs="no enrolled log gets new entries for two polling delays",
 breaks="only rounds that downloaded something count as useful work, so an ingester that has nothing to do looks stuck",
 edits=[(FE, '''		if logMeta.Tiled {
			worker, err := NewTiled''', '''		before := *logObj
		if logMeta.Tiled {
			worker, err := NewTiled'''), (FE, '''		// We did useful work. Register an update for the health service.
		ld.RegisterUpdate()

		if !*ctconfig.RunForever {
			return nil
		}

		// The next iteration reads the log state back from the database,
		// so wait until the states we submitted have been saved.
		ld.waitUntilStored(ctx)
''', '''		if !*ctconfig.RunForever {
			return nil
		}

		// The next iteration reads the log state back from the database,
		// so wait until the states we submitted have been saved.
		ld.waitUntilStored(ctx)

		// Register an update for the health service if we did useful work.
		newObj, err := ld.database.GetLogState(logUrlObj)
		if err == nil && (newObj.MaxEntry != before.MaxEntry || newObj.MinEntry != before.MinEntry) {
			ld.RegisterUpdate()
		}
''')],
 fetchdemo=head("encoding/json", "fmt", "io", "net", "net/http", "testing", "time") + HEALTH + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	l := fakeLog(t, "one", 1, false, plain(12), nil)
	ask := startIngest(t, p, 5, nil, l)
	for i := 0; ask() != 200; i++ {
		if i > 300 {
			t.Fatal("never healthy")
		}
		time.Sleep(100 * time.Millisecond)
	}
	for i := 0; i < 40; i++ {
		if c := ask(); c != 200 {
			t.Fatalf("%d from an ingester that is up to date", c)
		}
		time.Sleep(time.Second)
	}
}
'''),
dict(id="c28-start-healthy", property="C28",
 needs="the list of logs cannot be had when ct-fetch starts",
 breaks="the start counts as useful work, so an ingester that has not done anything yet is healthy, and is then unhealthy instead of being told to be asked later",
 edits=[(FE, '''		lastUpdateTime:      time.Time{},
''', '''		lastUpdateTime:      time.Now(),
''')],
 fetchdemo=head("encoding/json", "fmt", "io", "net", "net/http", "testing", "time") + HEALTH + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	ask := startIngest(t, p, 4, map[string]string{"remoteSettingsURL": "http://127.0.0.1:1/v1/", "remoteSettingsUpdateInterval": "60"})
	for i := 0; i < 15; i++ {
		if c := ask(); c != 503 {
			t.Fatalf("%d although nothing has been done", c)
		}
		time.Sleep(time.Second)
	}
}
'''),
dict(id="c28-list-counts", property="C28",
 needs="the downloaders of all logs have ended with an error while the list of logs keeps being updated",
 breaks="an update of the list of logs counts as useful work, so an ingester that has lost all its logs looks healthy",
 edits=[(FE, '''		approxUpdateTimestamp := syncEngine.ApproximateMostRecentUpdateTimestamp()
''', '''		approxUpdateTimestamp := syncEngine.ApproximateMostRecentUpdateTimestamp()
		if refreshed := enrolledLogs.LastRefresh(); !approxUpdateTimestamp.IsZero() && refreshed.After(approxUpdateTimestamp) {
			// We're keeping up with the list of logs
			approxUpdateTimestamp = refreshed
		}
'''), (FE, '''func (el *EnrolledLogs) IsEnrolled(''', '''// When the list of logs was last updated
func (el *EnrolledLogs) LastRefresh() time.Time {
	el.mutex.RLock()
	defer el.mutex.RUnlock()
	return el.refreshed
}

func (el *EnrolledLogs) IsEnrolled('''), (FE, '''	metadata map[string]types.CTLogMetadata
	NewChan  chan types.CTLogMetadata
''', '''	metadata map[string]types.CTLogMetadata
	NewChan  chan types.CTLogMetadata

	refreshed time.Time
'''), (FE, '''				glog.Infof("[%s] Enrolled with LogID %s", ctLog.URL, ctLog.LogID)
			}
		}
	}
''', '''				glog.Infof("[%s] Enrolled with LogID %s", ctLog.URL, ctLog.LogID)
			}
		}
	}
	el.refreshed = time.Now()
''')],
 fetchdemo=head("encoding/json", "encoding/pem", "fmt", "io", "net", "net/http", "net/http/httptest", "os", "path/filepath", "testing", "time") + HEALTH + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	l := fakeLog(t, "one", 1, false, plain(12), nil)
	bad := false
	srv := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		json.NewEncoder(w).Encode(map[string]any{"data": []any{l.metadata(true)}})
	}))
	defer srv.Close()
	ca := filepath.Join(t.TempDir(), "ca.pem")
	os.WriteFile(ca, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: srv.Certificate().Raw}), 0644)
	// a downloader that cannot read its log's progress gives up
	p.Before = func(args []string) string {
		if bad && args[0] == "get" {
			return "-ERR unavailable\\r\\n"
		}
		return ""
	}
	ask := startIngest(t, p, 5, map[string]string{"remoteSettingsURL": srv.URL + "/v1/", "remoteSettingsUpdateInterval": "3", "SSL_CERT_FILE": ca})
	for i := 0; ask() != 200; i++ {
		if i > 300 {
			t.Fatal("never healthy")
		}
		time.Sleep(100 * time.Millisecond)
	}
	bad = true
	time.Sleep(30 * time.Second)
	for i := 0; i < 10; i++ {
		if c := ask(); c != 500 {
			t.Fatalf("%d from an ingester without a downloader", c)
		}
		time.Sleep(time.Second)
	}
}
'''),
dict(id="c28-count-in-answer", property="C28",
 needs="Remote Settings is slow to answer an update of the list of logs while /health is asked",
 breaks="the table of logs is locked while the list is downloaded, and the health endpoint looks into it: no answer while Remote Settings hangs",
 edits=[(FE, '''		return fmt.Errorf("Malformed response from Remote Settings %s", *ctconfig.RemoteSettingsURL)
	}

	el.mutex.Lock()
	defer el.mutex.Unlock()
''', '''		return fmt.Errorf("Malformed response from Remote Settings %s", *ctconfig.RemoteSettingsURL)
	}

'''), (FE, '''func (el *EnrolledLogs) updateFromRemoteSettingsOnce() error {
''', '''func (el *EnrolledLogs) updateFromRemoteSettingsOnce() error {
	el.mutex.Lock()
	defer el.mutex.Unlock()

'''), (FE, '''		_, err := w.Write([]byte(fmt.Sprintf("ok: %v since last update, which is shorter than 2 * pollingDelay", duration)))
''', '''		_, err := w.Write([]byte(fmt.Sprintf("ok: %v since last update of %d logs, which is shorter than 2 * pollingDelay", duration, enrolledLogs.Count())))
''')],
 fetchdemo=head("encoding/json", "encoding/pem", "fmt", "io", "net", "net/http", "net/http/httptest", "os", "path/filepath", "testing", "time") + HEALTH + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	l := fakeLog(t, "one", 1, false, plain(12), nil)
	n := 0
	srv := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n++
		if n > 1 {
			time.Sleep(25 * time.Second)
		}
		json.NewEncoder(w).Encode(map[string]any{"data": []any{l.metadata(true)}})
	}))
	defer srv.Close()
	ca := filepath.Join(t.TempDir(), "ca.pem")
	os.WriteFile(ca, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: srv.Certificate().Raw}), 0644)
	ask := startIngest(t, p, 60, map[string]string{"remoteSettingsURL": srv.URL + "/v1/", "remoteSettingsUpdateInterval": "5", "SSL_CERT_FILE": ca})
	for i := 0; ask() != 200; i++ {
		if i > 300 {
			t.Fatal("never healthy")
		}
		time.Sleep(100 * time.Millisecond)
	}
	for i := 0; i < 30; i++ {
		if c := ask(); c != 200 {
			t.Fatalf("%d", c)
		}
		time.Sleep(500 * time.Millisecond)
	}
}
'''),
dict(id="c29-proof-retry", property="C29",
 needs="a log that answers its tree head but not its consistency proofs",
 breaks="when a consistency proof cannot be had the ingester begins a new round at once, over and over, as fast as the log fails",
 edits=[(RF, '''		glog.Errorf("[%s] Unable to fetch consistency proof: %s", lw.Name(), err)
		lw.sleep(ctx) // Assume this is a temporary outage and wait
		return nil
''', '''		// We'll get a proof for the next tree head
		glog.Errorf("[%s] Unable to fetch consistency proof: %s", lw.Name(), err)
		return nil
''')],
 fetchdemo=head("encoding/json", "fmt", "io", "net", "net/http", "testing", "time") + HEALTH + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	n := 0
	l := fakeLog(t, "one", 1, false, plain(12), func(kind string, nth int) string {
		if kind == "get-sth" {
			n++
		}
		if kind == "get-sth-consistency" {
			return "500"
		}
		return ""
	})
	startIngest(t, p, 5, nil, l)
	time.Sleep(15 * time.Second)
	if n > 12 {
		t.Fatalf("%d tree heads fetched within 15 seconds, with a polling delay of 5 seconds", n)
	}
}
'''),
dict(id="c29-backoff-restarts", property="C29",
 needs="a log that limits the rate several times in a row",
 breaks="the pause after 'too many requests' starts anew with every request, so a log that limits the rate is asked every five seconds for as long as it does",
 edits=[(RF, '''	backoffDuration := minBackoff

	index := verifier.Subtree.First
	last := verifier.Subtree.Last
	for index <= last {
''', '''
	index := verifier.Subtree.First
	last := verifier.Subtree.Last
	for index <= last {
		backoffDuration := minBackoff
''')],
 fetchdemo=head("encoding/json", "fmt", "io", "net", "net/http", "testing", "time") + HEALTH + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	n := 0
	l := fakeLog(t, "one", 1, false, plain(12), func(kind string, nth int) string {
		if kind == "get-entries" {
			n++
			return "429"
		}
		return ""
	})
	startIngest(t, p, 300, nil, l)
	time.Sleep(48 * time.Second)
	if n < 2 || n > 6 {
		t.Fatalf("asked %d times within 48 seconds although the log limits the rate", n)
	}
}
'''),
dict(id="c29-client-error-final", property="C29",
 needs="a log that answers one request for a consistency proof with a 4xx status, such as 429",
 breaks="a 4xx answer is taken for a mistake of ours that will not go away: the log is not followed any more until the ingester is restarted",
 edits=[(RF, '''		glog.Errorf("[%s] Unable to fetch consistency proof: %s", lw.Name(), err)
''', '''		glog.Errorf("[%s] Unable to fetch consistency proof: %s", lw.Name(), err)
		if rspErr, ok := err.(client.RspError); ok && rspErr.StatusCode >= 400 && rspErr.StatusCode < 500 {
			return err // Our request was at fault, it won't get better
		}
''')],
 fetchdemo=head("encoding/json", "fmt", "io", "net", "net/http", "testing", "time") + HEALTH + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	l := fakeLog(t, "one", 1, false, plain(12), func(kind string, nth int) string {
		if kind == "get-sth-consistency" && nth == 0 {
			return "429"
		}
		return ""
	})
	other := fakeLog(t, "two", 2, false, plain(12), nil)
	startIngest(t, p, 2, nil, l, other)
	time.Sleep(20 * time.Second)
	need(t, p, other, 0, 11, "")
	need(t, p, l, 0, 11, "")
}
'''),
dict(id="c29-slots", property="C29",
 needs="many more logs than four, all of which are up to date and sleep",
 breaks="at most four logs are worked on at a time, and a log that waits for new entries counts: with 40 logs each is visited every ten polling delays",
 edits=[(FE, '''	downloadersMutex    *sync.Mutex
}
''', '''	downloadersMutex    *sync.Mutex
	slots               chan struct{} // Limits how many logs are worked on at a time
}
'''), (FE, '''		downloadersMutex:    &sync.Mutex{},
''', '''		downloadersMutex:    &sync.Mutex{},
		slots:               make(chan struct{}, 4),
'''), (FE, '''			err = worker.Run(ctx, ld.entryChan)
			if err != nil {
				glog.Errorf("[%s] Could not sync log: %s", logMeta.URL, err)
				metrics.IncrCounter([]string{"sync", "error"}, 1)
				return err
			}
		} else {''', '''			ld.slots <- struct{}{}
			err = worker.Run(ctx, ld.entryChan)
			<-ld.slots
			if err != nil {
				glog.Errorf("[%s] Could not sync log: %s", logMeta.URL, err)
				metrics.IncrCounter([]string{"sync", "error"}, 1)
				return err
			}
		} else {'''), (FE, '''			err = worker.Run(ctx, ld.entryChan)
			if err != nil {
				glog.Errorf("[%s] Could not sync log: %s", logMeta.URL, err)
				metrics.IncrCounter([]string{"sync", "error"}, 1)
				return err
			}
		}

''', '''			ld.slots <- struct{}{}
			err = worker.Run(ctx, ld.entryChan)
			<-ld.slots
			if err != nil {
				glog.Errorf("[%s] Could not sync log: %s", logMeta.URL, err)
				metrics.IncrCounter([]string{"sync", "error"}, 1)
				return err
			}
		}

''')],
 fetchdemo=head("encoding/json", "fmt", "io", "net", "net/http", "sync/atomic", "testing", "time") + HEALTH + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	var more atomic.Bool
	var logs []*ctLog
	for i := 0; i < 32; i++ {
		var l *ctLog
		l = fakeLog(t, fmt.Sprint("log", i), 1+i, false, plain(40), func(kind string, nth int) string {
			if l.size = 8; more.Load() {
				l.size = 40
			}
			return ""
		})
		logs = append(logs, l)
	}
	startIngest(t, p, 5, nil, logs...)
	for i := 0; ; i++ {
		if s := state(t, p, logs[31]); s != nil && s.MaxEntry == 7 {
			break
		}
		if i > 600 {
			t.Fatal("never began")
		}
		time.Sleep(100 * time.Millisecond)
	}
	time.Sleep(6 * time.Second)
	more.Store(true)
	time.Sleep(16 * time.Second)
	for _, l := range logs {
		if s := state(t, p, l); s == nil || s.MaxEntry < 20 {
			t.Fatalf("%s has new entries for 16 seconds, with a polling delay of 5 seconds, but was followed to %v", l.name, s)
		}
	}
}
'''),
dict(id="c29-backfill-gentle", property="C29",
 needs="a log whose backlog is many batches long",
 breaks="the ingester pauses for a polling delay after every batch of the backlog: a log of 1000 batches takes ten days to be covered",
 edits=[(RF, '''	glog.Infof("[%s] Verified entries %d-%d", lw.Name(), verifiers[0].Subtree.First, verifiers[len(verifiers)-1].Subtree.Last)
''', '''	glog.Infof("[%s] Verified entries %d-%d", lw.Name(), verifiers[0].Subtree.First, verifiers[len(verifiers)-1].Subtree.Last)

	if lw.WorkOrder == Backfill {
		// Old entries are not urgent, go easy on the log
		lw.sleep(ctx)
	}
''')],
 fetchdemo=head("encoding/json", "fmt", "io", "net", "net/http", "testing", "time") + HEALTH + '''
func TestSeedDemo(t *testing.T) {
	p := startRedis(t)
	l := fakeLog(t, "one", 1, false, plain(250), nil)
	startIngest(t, p, 5, nil, l)
	time.Sleep(25 * time.Second)
	need(t, p, l, 0, 249, "")
}
'''),
]
