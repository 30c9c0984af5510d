AK = "go/cmd/aggregate-known/aggregate-known.go"; AC = "go/cmd/aggregate-crls/aggregate-crls.go"
RP = "go/rootprogram/issuers.go"; VD = "go/downloader/verifying-downloader.go"; TY = "go/types.go"; CF = "go/config/config.go"
def head(pkg, *imps):
    return "package %s\n\nimport (\n%s\n)\n" % (pkg, "\n".join('\t' + (i if i.endswith('"') else '"%s"' % i) for i in imps))
KNOWN = head("main", "context", "encoding/base64", "fmt", "os", "path/filepath", "strings", "sync", "testing", "time", '"github.com/mozilla/crlite/go"', "github.com/mozilla/crlite/go/storage") + '''
type bin struct {
	date string
	body string // "" makes the bin unreadable
}

// known runs a worker on one issuer and returns its list, and whether the run was cancelled
func known(t *testing.T, out string, bins ...bin) (string, bool) {
	dir := t.TempDir()
	id := base64.URLEncoding.EncodeToString([]byte("0123456789abcdef0123456789abcdef"))
	is := types.NewIssuerFromString(id)
	d := filepath.Join(dir, "serials", "issuer::"+id)
	if err := os.MkdirAll(d, 0755); err != nil {
		t.Fatal(err)
	}
	var dates []types.ExpDate
	for _, b := range bins {
		ed, err := types.NewExpDate(b.date)
		if err != nil {
			t.Fatal(err)
		}
		dates = append(dates, ed)
		p := filepath.Join(d, "serials::"+b.date+"::"+id)
		if b.body == "" {
			err = os.Mkdir(p, 0755)
		} else {
			err = os.WriteFile(p, []byte(strings.Replace(b.body, "0000000000000000", fmt.Sprintf("%016x", ed.Unix()), 1)), 0644)
		}
		if err != nil {
			t.Fatal(err)
		}
	}
	db, err := storage.NewCertDatabase(storage.NewMockRemoteCache(), dir, true)
	if err != nil {
		t.Fatal(err)
	}
	for i := range dates { // the file name and form are the storage's business
		if bins[i].body == "" {
			continue
		}
		if got, err := db.ReadSerialsFromStorage(dates[i], is); err != nil || len(got) != strings.Count(bins[i].body, "\\n")-1 {
			t.Fatal("bad fixture", got, err)
		}
	}
	ch := make(chan knownWorkUnit, 1)
	ch <- knownWorkUnit{issuer: is, issuerDN: "x", expDates: dates}
	close(ch)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	wg.Add(1)
	knownWorker{savePath: out, certDB: db}.run(ctx, cancel, &wg, ch)
	b, _ := os.ReadFile(filepath.Join(out, id))
	return string(b), ctx.Err() != nil
}
'''
def body(date, *serials):
    return '"' + "@%016x\\n" % 0 + "".join(s + "\\n" for s in serials) + '"'
CRLS = head("main", "context", "crypto", "crypto/ecdsa", "crypto/elliptic", "crypto/rand", "encoding/asn1", "math/big", "net", "net/http", "net/http/httptest", "net/url", "os", "path/filepath", "strings", "sync", "testing", "time",
  'sx509 "crypto/x509"', 'spkix "crypto/x509/pkix"', '"github.com/google/certificate-transparency-go/x509"', '"github.com/mozilla/crlite/go"', "github.com/mozilla/crlite/go/rootprogram") + '''
var _ = strings.Contains
var _ = asn1.Marshal
var _ = url.Parse
var _ = time.Now
var _ = sync.Mutex{}
var _ context.Context
var _ = big.NewInt
var _ crypto.Signer

type seedCA struct {
	key  *ecdsa.PrivateKey
	cert *sx509.Certificate
}

func seedMakeCA(t *testing.T, serial int64) *seedCA {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	tm := &sx509.Certificate{SerialNumber: big.NewInt(serial), Subject: spkix.Name{CommonName: "ca"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: sx509.KeyUsageCRLSign | sx509.KeyUsageCertSign}
	der, err := sx509.CreateCertificate(rand.Reader, tm, tm, key.Public(), key)
	if err != nil {
		t.Fatal(err)
	}
	c, err := sx509.ParseCertificate(der)
	if err != nil {
		t.Fatal(err)
	}
	return &seedCA{key, c}
}

func (ca *seedCA) crl(t *testing.T, entries ...sx509.RevocationListEntry) []byte {
	b, err := sx509.CreateRevocationList(rand.Reader, &sx509.RevocationList{Number: big.NewInt(1), ThisUpdate: time.Now().Add(-time.Hour), NextUpdate: time.Now().Add(time.Hour),
		RevokedCertificateEntries: entries}, ca.cert, ca.key)
	if err != nil {
		t.Fatal(err)
	}
	return b
}

func seedEntry(serial int64, reason int) sx509.RevocationListEntry {
	return sx509.RevocationListEntry{SerialNumber: big.NewInt(serial), RevocationTime: time.Now().Add(-time.Hour), ReasonCode: reason}
}

// seedAggregate runs the download and the aggregation for one issuer and returns its list (ok is whether there is one)
func seedAggregate(t *testing.T, ca *seedCA, pages map[string][]byte, paths ...string) (list string, ok bool) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, ok := pages[r.URL.Path]
		if !ok {
			http.Error(w, "gone", 404)
			return
		}
		w.Write(b)
	}))
	defer srv.Close()
	ct, err := x509.ParseCertificate(ca.cert.Raw)
	if err != nil {
		t.Fatal(err)
	}
	var urls []string
	for _, p := range paths {
		urls = append(urls, srv.URL+p)
	}
	mi := rootprogram.NewMozillaIssuers()
	is := mi.InsertIssuer(ct, urls, false)
	dir := t.TempDir()
	*crlpath = filepath.Join(dir, "crls")
	*revokedpath = filepath.Join(dir, "revoked")
	one := 1
	ctconfig.NumThreads = &one
	ae := AggregateEngine{rootPath: *revokedpath, issuers: mi, auditor: NewCrlAuditor(mi)}
	res, n := ae.downloadCRLs(context.Background(), mi)
	ae.aggregateCRLs(context.Background(), n, res)
	b, err := os.ReadFile(filepath.Join(*revokedpath, is.ID()))
	return string(b), err == nil
}

var _ = types.NewIssuerFromString
var _ = net.Listen
'''
AUDIT = '''
var _ = strings.HasSuffix

// seedAudit runs the download and the aggregation for one issuer in dir and returns the report
func seedAudit(t *testing.T, dir string, ca *seedCA, parts bool, pages map[string][]byte, paths ...string) []CrlAuditEntry {
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, ok := pages[r.URL.Path]
		if !ok {
			http.Error(w, "gone", 404)
			return
		}
		w.Write(b)
	}))
	// the same address each time, so that the files of an earlier run are found
	if b, err := os.ReadFile(filepath.Join(dir, "address")); err == nil {
		srv.Listener.Close()
		if srv.Listener, err = net.Listen("tcp", string(b)); err != nil {
			t.Fatal(err)
		}
	}
	os.WriteFile(filepath.Join(dir, "address"), []byte(srv.Listener.Addr().String()), 0644)
	srv.Start()
	defer srv.Close()
	ct, err := x509.ParseCertificate(ca.cert.Raw)
	if err != nil {
		t.Fatal(err)
	}
	var urls []string
	for _, p := range paths {
		urls = append(urls, srv.URL+p)
	}
	mi := rootprogram.NewMozillaIssuers()
	mi.InsertIssuer(ct, urls, parts)
	*crlpath = filepath.Join(dir, "crls")
	*revokedpath = filepath.Join(dir, "revoked")
	one := 1
	ctconfig.NumThreads = &one
	ae := AggregateEngine{rootPath: *revokedpath, issuers: mi, auditor: NewCrlAuditor(mi)}
	res, n := ae.downloadCRLs(context.Background(), mi)
	ae.aggregateCRLs(context.Background(), n, res)
	return ae.auditor.GetEntries()
}
'''
def rules(*checks): return None
SEEDS = [
dict(id="c27-cumulative", property="C27", pkg="cmd/aggregate-crls", helpers=[],
 needs="an issuer with several CRLs that hold revocations",
 breaks="the report gives for the second and later CRLs of an issuer the number of revocations of all CRLs so far",
 edits=[(AC, '''				ae.auditor.ValidAndProcessed(&tuple.Issuer, &crlUrlPath.Url, crlUrlPath.Path, revokedCount, age, sha256sum)
				serials = append(serials, revokedSerials...)
				serialCount += revokedCount
''', '''				serials = append(serials, revokedSerials...)
				serialCount += revokedCount
				ae.auditor.ValidAndProcessed(&tuple.Issuer, &crlUrlPath.Url, crlUrlPath.Path, serialCount, age, sha256sum)
''')],
 demo=CRLS + AUDIT + '''
func TestSeedDemo(t *testing.T) {
	ca := seedMakeCA(t, 1)
	dir := t.TempDir()
	pages := map[string][]byte{"/a.crl": ca.crl(t, seedEntry(5, 1)), "/b.crl": ca.crl(t, seedEntry(6, 1), seedEntry(7, 1))}
	for _, en := range seedAudit(t, dir, ca, false, pages, "/a.crl", "/b.crl") {
		want := 1
		if strings.HasSuffix(en.Url, "/b.crl") {
			want = 2
		}
		if en.Kind != AuditKindValid || en.NumRevocations != want {
			t.Fatal(en)
		}
	}
}
'''),
dict(id="c27-fallback-silent", property="C27", pkg="cmd/aggregate-crls", helpers=[],
 needs="a CRL that cannot be downloaded while the file of an earlier run is still usable",
 breaks="the failed download is not in the report: the CRL looks as if it had been obtained",
 edits=[(VD, '''	if dlErr != nil {
		auditor.FailedDownload(identifier, &crlUrl, dlTracer, dlErr)
		glog.Warningf("[%s] Failed to download from %s to tmp file %s: %s", identifier.ID(), crlUrl.String(), tmpPath, dlErr)

		return attemptFallbackToExistingFile(dlErr)
	}
''', '''	if dlErr != nil {
		glog.Warningf("[%s] Failed to download from %s to tmp file %s: %s", identifier.ID(), crlUrl.String(), tmpPath, dlErr)

		usable, fallbackErr := attemptFallbackToExistingFile(dlErr)
		if !usable {
			auditor.FailedDownload(identifier, &crlUrl, dlTracer, dlErr)
		}
		return usable, fallbackErr
	}
''')],
 demo=CRLS + AUDIT + '''
func TestSeedDemo(t *testing.T) {
	ca := seedMakeCA(t, 1)
	dir := t.TempDir()
	pages := map[string][]byte{"/a.crl": ca.crl(t, seedEntry(5, 1))}
	if l := seedAudit(t, dir, ca, false, pages, "/a.crl"); len(l) != 1 || l[0].Kind != AuditKindValid {
		t.Fatal(l)
	}
	delete(pages, "/a.crl")
	l := seedAudit(t, dir, ca, false, pages, "/a.crl")
	if len(l) != 2 || l[0].Kind != AuditKindFailedDownload || l[1].Kind != AuditKindValid {
		t.Fatal(l)
	}
}
'''),
dict(id="c27-shard-once", property="C27", pkg="cmd/aggregate-crls", helpers=[],
 needs="several partitions of an issuer lack their distribution point",
 breaks="only the first partition with a wrong distribution point is reported",
 edits=[(AC, '''						ae.auditor.WrongIssuingDistributionPoint(&tuple.Issuer, &crlUrlPath.Url, crlUrlPath.Path, err)
''', '''						if !wrongShard {
							ae.auditor.WrongIssuingDistributionPoint(&tuple.Issuer, &crlUrlPath.Url, crlUrlPath.Path, err)
						}
						wrongShard = true
'''), (AC, '''		anyCrlFailed := false

''', '''		anyCrlFailed := false
		wrongShard := false

''')],
 demo=CRLS + AUDIT + '''
func TestSeedDemo(t *testing.T) {
	ca := seedMakeCA(t, 1)
	dir := t.TempDir()
	pages := map[string][]byte{"/a.crl": ca.crl(t, seedEntry(5, 1)), "/b.crl": ca.crl(t, seedEntry(6, 1))}
	n := map[CrlAuditEntryKind]int{}
	for _, en := range seedAudit(t, dir, ca, true, pages, "/a.crl", "/b.crl") {
		n[en.Kind]++
	}
	if n[AuditKindWrongDP] != 2 || n[AuditKindValid] != 2 {
		t.Fatal(n)
	}
}
'''),
dict(id="c27-unprocessed-first", property="C27", pkg="cmd/aggregate-crls", helpers=[],
 needs="an issuer one of whose CRLs cannot be used, followed by a usable one with no entries",
 breaks="once a CRL of an issuer has failed, empty CRLs of that issuer are left out of the report",
 edits=[(AC, '''				if revokedCount == 0 {
					ae''', '''				if revokedCount == 0 {
					if anyCrlFailed {
						continue
					}
					ae''')],
 demo=CRLS + AUDIT + '''
func TestSeedDemo(t *testing.T) {
	ca := seedMakeCA(t, 1)
	pages := map[string][]byte{"/b.crl": ca.crl(t)}
	for i := 0; i < 20; i++ { // the order of the URLs is random
		dir := t.TempDir()
		n := map[CrlAuditEntryKind]int{}
		for _, en := range seedAudit(t, dir, ca, false, pages, "/a.crl", "/b.crl") {
			n[en.Kind]++
		}
		if n[AuditKindFailedDownload] != 1 || n[AuditKindNoRevocations] != 1 {
			t.Fatal(n)
		}
	}
}
'''),
dict(id="c13-bin-start", property="C13", pkg="cmd/aggregate-known", helpers=[],
 needs="known serials in the expiry bin (hour or day) that contains the present moment",
 breaks="the bin's start is taken for its end: certificates that expire later in the current hour or day are missing from the known lists",
 edits=[(AK, "if expDate.IsExpiredAt(time.Now()) {", "if expDate.ExpireTime().Before(time.Now()) {")],
 demo=KNOWN + '''
func TestSeedDemo(t *testing.T) {
	if time.Now().UTC().Minute() == 59 {
		time.Sleep(61 * time.Second)
	}
	now := time.Now().UTC()
	got, cancelled := known(t, t.TempDir(), bin{now.Format("2006-01-02-15"), "@0000000000000000\\n01aa\\n"}, bin{now.Add(48 * time.Hour).Format("2006-01-02"), "@0000000000000000\\n02bb\\n"})
	if cancelled || !strings.Contains(got, "01aa") || !strings.Contains(got, "02bb") {
		t.Fatalf("%q %v", got, cancelled)
	}
}
'''),
dict(id="c13-skip-unreadable", property="C13", pkg="cmd/aggregate-known", helpers=[],
 needs="one of an issuer's serial files cannot be read (damaged file, failing disk)",
 breaks="the unreadable bin is left out and the run ends with success and an incomplete known list",
 edits=[(AK, '''					glog.Errorf("[%s] Could not read serials with expDate=%s: %s", tuple.issuer.ID(), expDate.ID(), err)
					cancelMain()
					return
''', '''					glog.Errorf("[%s] Could not read serials with expDate=%s: %s", tuple.issuer.ID(), expDate.ID(), err)
					continue
''')],
 demo=KNOWN + '''
func TestSeedDemo(t *testing.T) {
	d := time.Now().UTC().Add(72 * time.Hour).Format("2006-01-02")
	e := time.Now().UTC().Add(96 * time.Hour).Format("2006-01-02")
	if got, cancelled := known(t, t.TempDir(), bin{e, "@0000000000000000\\n02bb\\n"}); cancelled || !strings.Contains(got, "02bb") {
		t.Fatal("good bins", got, cancelled)
	}
	if got, cancelled := known(t, t.TempDir(), bin{d, ""}, bin{e, "@0000000000000000\\n02bb\\n"}); !cancelled {
		t.Fatalf("the run succeeds without a bin: %q", got)
	}
}
'''),
dict(id="c13-no-truncate", property="C13", pkg="cmd/aggregate-known", helpers=[],
 needs="aggregate-known runs again into a directory that holds a longer list (a retried run)",
 breaks="the end of the earlier list remains behind the new one: expired serials and fragments of serials are listed as known",
 edits=[(AK, '''fd, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, permMode)
			if err''', '''fd, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, permMode)
			if err''')],
 demo=KNOWN + '''
func TestSeedDemo(t *testing.T) {
	d := time.Now().UTC().Add(72 * time.Hour).Format("2006-01-02")
	out := t.TempDir()
	known(t, out, bin{d, "@0000000000000000\\n01aa\\n0203040506\\n"})
	if got, cancelled := known(t, out, bin{d, "@0000000000000000\\n02bb\\n"}); cancelled || strings.Contains(got, "0405") || strings.Contains(got, "06\\n") || !strings.Contains(got, "02bb") {
		t.Fatalf("%q %v", got, cancelled)
	}
}
'''),
dict(id="c14-failed-url-dropped", property="C14", pkg="cmd/aggregate-crls", helpers=[],
 needs="an issuer with several CRLs, one of which cannot be obtained while another can",
 breaks="a CRL that could not be obtained is forgotten when its local directory entry is unusable, and the issuer's list is written without it",
 edits=[(AC, '''			// the path here might be blank if err is set
			urlPaths = append(urlPaths, types.UrlPath{Path: path, Url: crlUrl})
''', '''			if path == "" && len(urlPaths) > 0 {
				continue
			}
			urlPaths = append(urlPaths, types.UrlPath{Path: path, Url: crlUrl})
''')],
 demo=CRLS + '''
func TestSeedDemo(t *testing.T) {
	ca := seedMakeCA(t, 1)
	for i := 0; i < 20; i++ { // the order of the URLs is random
		if list, ok := seedAggregate(t, ca, map[string][]byte{"/a.crl": ca.crl(t, seedEntry(5, 1))}, "/a.crl", "/b.crl"); ok {
			t.Fatalf("a list without one of the CRLs: %q", list)
		}
	}
	if list, ok := seedAggregate(t, ca, map[string][]byte{"/a.crl": ca.crl(t, seedEntry(5, 1)), "/b.crl": ca.crl(t)}, "/a.crl", "/b.crl"); !ok || list != "0105\\n" {
		t.Fatal(list, ok)
	}
}
'''),
dict(id="c14-partial-list", property="C14", pkg="cmd/aggregate-crls", helpers=[],
 needs="an issuer with several CRLs, one of which cannot be obtained while another holds revocations",
 breaks="the revocations of the usable CRLs are written as if they were the whole list",
 edits=[(AC, "if anyCrlFailed == false {", "if anyCrlFailed == false || serialCount > 0 {")],
 demo=CRLS + '''
func TestSeedDemo(t *testing.T) {
	ca := seedMakeCA(t, 1)
	if list, ok := seedAggregate(t, ca, map[string][]byte{"/a.crl": ca.crl(t, seedEntry(5, 1))}, "/a.crl", "/b.crl"); ok {
		t.Fatalf("a list without one of the CRLs: %q", list)
	}
	if list, ok := seedAggregate(t, ca, map[string][]byte{"/a.crl": ca.crl(t, seedEntry(5, 1)), "/b.crl": ca.crl(t)}, "/a.crl", "/b.crl"); !ok || list != "0105\\n" {
		t.Fatal(list, ok)
	}
}
'''),
dict(id="c14-many-entries", property="C14", pkg="cmd/aggregate-crls", helpers=[],
 needs="a CRL with more than 16384 entries",
 breaks="the entries beyond the capacity set aside for the list are left out, and the list is published as complete",
 edits=[(AC, '''	serials := make([]types.SerialAndReason, 0, 1024*16)
	for _, ent := range revokedList.RevokedCertificates {
		serial, err := ent.SerialAndReason()
		if err != nil {
			return []types.SerialAndReason{}, fmt.Errorf("CRL list couldn't be decoded: %s", err)
		}
		serials = append(serials, serial)
	}

	return serials, nil
''', '''	serials := make([]types.SerialAndReason, 1024*16)
	n := 0
	for n < len(serials) && n < len(revokedList.RevokedCertificates) {
		serial, err := revokedList.RevokedCertificates[n].SerialAndReason()
		if err != nil {
			return []types.SerialAndReason{}, fmt.Errorf("CRL list couldn't be decoded: %s", err)
		}
		serials[n] = serial
		n++
	}

	return serials[:n], nil
''')],
 demo=CRLS + '''
func TestSeedDemo(t *testing.T) {
	ca := seedMakeCA(t, 1)
	for _, n := range []int{3, 20000} {
		var es []sx509.RevocationListEntry
		for i := 0; i < n; i++ {
			es = append(es, seedEntry(int64(1000+i), 1))
		}
		list, ok := seedAggregate(t, ca, map[string][]byte{"/a.crl": ca.crl(t, es...)}, "/a.crl")
		if got := strings.Count(list, "\\n"); !ok || got != n {
			t.Fatal(n, got, ok)
		}
	}
}
'''),
dict(id="c15-hash-lowercase", property="C15", pkg="cmd/aggregate-crls", helpers=[],
 needs="two CRL URLs of an issuer that differ only in the case of letters in a directory of their paths",
 breaks="both URLs share one file: one CRL is used in place of the other",
 edits=[(AC, "hash := sha256.Sum256([]byte(normalizedUrlString(&crlUrl)))", "hash := sha256.Sum256([]byte(strings.ToLower(normalizedUrlString(&crlUrl))))")],
 demo=CRLS + '''
func TestSeedDemo(t *testing.T) {
	a, _ := url.Parse("http://crl.example/Part/x.crl")
	b, _ := url.Parse("http://crl.example/part/x.crl")
	if makeFilenameFromUrl(*a) == makeFilenameFromUrl(*b) {
		t.Fatal("shared file")
	}
}
'''),
dict(id="c15-rename-failed", property="C15", pkg="downloader", helpers=[],
 needs="the rename of a verified download fails and the file in its place is missing or invalid",
 breaks="a usable file is reported although none is on disk",
 edits=[(VD, '''identifier.ID(), tmpPath, finalPath, renameErr)

		return attemptFallbackToExistingFile(renameErr)''', '''identifier.ID(), tmpPath, finalPath, renameErr)

		// The downloaded data has been verified
		return true, renameErr''')],
 demo=head("downloader", "context", "fmt", "net/http", "net/http/httptest", "net/url", "os", "path/filepath", "testing", "time") + '''
type seedVerify struct{}

func (seedVerify) IsValid(p string) error {
	b, err := os.ReadFile(p)
	if err != nil {
		return err
	}
	if string(b) != "good" {
		return fmt.Errorf("bad")
	}
	return nil
}

type seedAuditor struct{}

func (seedAuditor) FailedDownload(issuer DownloadIdentifier, crlUrl *url.URL, dlTracer *DownloadTracer, err error)   {}
func (seedAuditor) FailedVerifyUrl(issuer DownloadIdentifier, crlUrl *url.URL, dlTracer *DownloadTracer, err error)  {}
func (seedAuditor) FailedVerifyPath(issuer DownloadIdentifier, crlUrl *url.URL, crlPath string, err error)          {}

type seedID struct{}

func (seedID) ID() string { return "x" }

func TestSeedDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("good")) }))
	defer srv.Close()
	u, _ := url.Parse(srv.URL)
	p := filepath.Join(t.TempDir(), "f")
	ok, err := DownloadAndVerifyFileSync(context.Background(), seedVerify{}, seedAuditor{}, seedID{}, *u, p, 1, time.Second)
	if !ok || err != nil || (seedVerify{}).IsValid(p) != nil {
		t.Fatal(ok, err)
	}
	p = filepath.Join(t.TempDir(), "f")
	os.MkdirAll(filepath.Join(p, "in the way"), 0755)
	ok, err = DownloadAndVerifyFileSync(context.Background(), seedVerify{}, seedAuditor{}, seedID{}, *u, p, 1, time.Second)
	if ok || err == nil {
		t.Fatal(ok, err)
	}
}
'''),
dict(id="c16-revoked-root", property="C16", pkg="rootprogram", helpers=["pki_test"],
 needs="a report row for a root certificate that is marked as revoked",
 breaks="a revoked root is used as a trust anchor: issuers below it are enrolled",
 edits=[(RP, '''		if revoked != "Not Revoked" && revoked != "" {
			continue
		}

		if certType == "Root Certificate" {
			mozillaRootPool.AddCert(cert)
			mozillaRootCount += 1
			continue
		}
''', '''		if certType == "Root Certificate" {
			mozillaRootPool.AddCert(cert)
			mozillaRootCount += 1
			continue
		}

		if revoked != "Not Revoked" && revoked != "" {
			continue
		}
''')], demo="@PKI" + '''
func TestSeedDemo(t *testing.T) {
	root := mk(t, nil, nil, "root", nil)
	bad := mk(t, nil, nil, "bad", nil)
	a := mk(t, root, nil, "a", nil)
	b := mk(t, bad, nil, "b", nil)
	mi := load(t, row{root, "Root Certificate", "Not Revoked", "", ""}, row{bad, "Root Certificate", "Revoked", "", ""},
		row{a, "Intermediate Certificate", "Not Revoked", "http://x/a", ""}, row{b, "Intermediate Certificate", "Not Revoked", "http://x/b", ""})
	if !mi.IsIssuerInProgram(a.issuer()) || mi.IsIssuerInProgram(b.issuer()) {
		t.Fatal("wrong enrolment")
	}
}
'''),
dict(id="c16-same-key", property="C16", pkg="rootprogram", helpers=["pki_test"],
 needs="two certificates for the same intermediate (name and key), the first of which is expired or does not chain",
 breaks="the second certificate is taken for a duplicate of the first: a valid issuer is not enrolled, or its CRLs are lost",
 edits=[(RP, "fp := CertificateFingerprint(cert)", "fp := cert.SPKISubjectFingerprint.Hex()")], demo="@PKI" + '''
func TestSeedDemo(t *testing.T) {
	root := mk(t, nil, nil, "root", nil)
	other := mk(t, nil, nil, "other", nil)
	a1 := mk(t, other, nil, "a", nil)
	a2 := mk(t, root, a1, "a", nil)
	mi := load(t, row{root, "Root Certificate", "Not Revoked", "", ""},
		row{a1, "Intermediate Certificate", "Not Revoked", "http://x/a", ""}, row{a2, "Intermediate Certificate", "Not Revoked", "http://x/b", ""})
	if !mi.IsIssuerInProgram(a2.issuer()) || !mi.CrlMap[func() string { i := a2.issuer(); return i.ID() }()]["http://x/b"] {
		t.Fatal("not enrolled")
	}
}
'''),
dict(id="c16-partitioned-only", property="C16", pkg="rootprogram", helpers=["pki_test"],
 needs="an issuer that discloses both a full CRL and partitioned CRLs",
 breaks="the full CRL is dropped from an issuer's CRL locations when partitioned ones are disclosed",
 edits=[(RP, '''		usesPartitionedCrls = true

''', '''		if !usesPartitionedCrls {
			crls = []string{}
		}
		usesPartitionedCrls = true

''')], demo="@PKI" + '''
func TestSeedDemo(t *testing.T) {
	root := mk(t, nil, nil, "root", nil)
	a := mk(t, root, nil, "a", nil)
	mi := load(t, row{root, "Root Certificate", "Not Revoked", "", ""}, row{a, "Intermediate Certificate", "Not Revoked", "http://x/full", `["http://x/1","http://x/2"]`})
	i := a.issuer()
	if len(mi.CrlMap[i.ID()]) != 3 {
		t.Fatal(mi.CrlMap)
	}
}
'''),
dict(id="c17-skip-entry", property="C17", pkg="cmd/aggregate-crls", helpers=[],
 needs="a CRL with an entry whose reason is repeated, malformed or not representable",
 breaks="such an entry is skipped and the list is written without it, instead of the CRL being refused",
 edits=[(AC, '''		serial, err := ent.SerialAndReason()
		if err != nil {
			return []types.SerialAndReason{}, fmt.Errorf("CRL list couldn't be decoded: %s", err)
		}
''', '''		serial, err := ent.SerialAndReason()
		if err != nil {
			glog.Warningf("CRL entry couldn't be decoded: %s", err)
			continue
		}
''')],
 demo=CRLS + '''
func TestSeedDemo(t *testing.T) {
	ca := seedMakeCA(t, 1)
	bad := seedEntry(6, 300)
	for i := 0; i < 2; i++ {
	}
	if list, ok := seedAggregate(t, ca, map[string][]byte{"/a.crl": ca.crl(t, seedEntry(5, 1), bad)}, "/a.crl"); ok {
		t.Fatalf("%q", list)
	}
	if list, ok := seedAggregate(t, ca, map[string][]byte{"/a.crl": ca.crl(t, seedEntry(5, 1))}, "/a.crl"); !ok || list != "0105\\n" {
		t.Fatal(list, ok)
	}
}
'''),
dict(id="c17-serial-sign-byte", property="C17", pkg="cmd/aggregate-crls", helpers=[],
 needs="a CRL with a serial whose first byte is 00 because the next one has its high bit set",
 breaks="the leading zero is dropped from revoked serials only, so that they no longer match the known serials",
 edits=[(TY, "NewSerialFromBytes(c.SerialNumber.Bytes),\n\t\tuint8(reason),", "NewSerialFromBytes(bytes.TrimLeft(c.SerialNumber.Bytes, \"\\x00\")),\n\t\tuint8(reason),")],
 demo=CRLS + '''
func TestSeedDemo(t *testing.T) {
	ca := seedMakeCA(t, 1)
	if list, ok := seedAggregate(t, ca, map[string][]byte{"/a.crl": ca.crl(t, seedEntry(5, 1), seedEntry(0x80, 0))}, "/a.crl"); !ok || list != "0105\\n000080\\n" {
		t.Fatalf("%q %v", list, ok)
	}
}
'''),
dict(id="c18-empty-env", property="C18", pkg="config", helpers=[],
 needs="a text option set to the empty string in the environment and to something else in the configuration file",
 breaks="the file overrides the environment",
 edits=[(CF, '''	val, ok := os.LookupEnv(key)
	if ok {
		*p = val
	}''', '''	val, ok := os.LookupEnv(key)
	if ok && len(val) > 0 {
		*p = val
	}''')],
 demo=head("config", "os", "path/filepath", "testing") + '''
func TestSeedDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "c.ini")
	os.WriteFile(f, []byte("statsdHost = fromfile\\nredisHost = r\\n"), 0644)
	t.Setenv("statsdHost", "")
	os.Args = []string{"x", "-config", f}
	c := NewCTConfig()
	c.Init()
	if *c.StatsDHost != "" || *c.RedisHost != "r" {
		t.Fatal(*c.StatsDHost, *c.RedisHost)
	}
}
'''),
dict(id="c18-malformed-env", property="C18", pkg="config", helpers=[],
 needs="a numeric option that is malformed in the environment and set in the configuration file",
 breaks="a malformed environment value makes the default override the file",
 edits=[(CF, '''	val, ok := os.LookupEnv(key)
	if ok {
		u, err := strconv.ParseUint(val, 10, 64)
		if err == nil {
			*p = u
			return
		}
	}

	// Assume default
	*p = def
''', '''	// Assume default
	*p = def
	val, ok := os.LookupEnv(key)
	if ok {
		u, err := strconv.ParseUint(val, 10, 64)
		if err == nil {
			*p = u
		}
		return
	}

''')],
 demo=head("config", "os", "path/filepath", "testing") + '''
func TestSeedDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "c.ini")
	os.WriteFile(f, []byte("pollingDelay = 17\\n"), 0644)
	t.Setenv("pollingDelay", "1m")
	os.Args = []string{"x", "-config", f}
	c := NewCTConfig()
	c.Init()
	if *c.PollingDelay != 17 {
		t.Fatal(*c.PollingDelay)
	}
}
'''),
]
PKI = head("rootprogram", "bytes", "crypto/ecdsa", "crypto/elliptic", "crypto/rand", "encoding/csv", "encoding/pem", "math/big", "os", "path/filepath", "testing", "time",
 'sx509 "crypto/x509"', 'spkix "crypto/x509/pkix"', 'ctx509 "github.com/google/certificate-transparency-go/x509"', '"github.com/mozilla/crlite/go"') + '''
type node struct {
	key *ecdsa.PrivateKey
	der []byte
	c   *sx509.Certificate
}
type row struct {
	n                        *node
	kind, status, full, part string
}

var serialNo int64

// mk issues a CA certificate below parent (nil: self-signed) for the key of like (nil: a new key)
func mk(t *testing.T, parent, like *node, name string, f func(c *sx509.Certificate)) *node {
	n := &node{}
	if like != nil {
		n.key = like.key
	} else {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			t.Fatal(err)
		}
		n.key = k
	}
	serialNo++
	tm := &sx509.Certificate{SerialNumber: big.NewInt(serialNo), Subject: spkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: sx509.KeyUsageCRLSign | sx509.KeyUsageCertSign}
	if f != nil {
		f(tm)
	}
	pc, pk := tm, n.key
	if parent != nil {
		pc, pk = parent.c, parent.key
	}
	var err error
	if n.der, err = sx509.CreateCertificate(rand.Reader, tm, pc, n.key.Public(), pk); err != nil {
		t.Fatal(err)
	}
	if n.c, err = sx509.ParseCertificate(n.der); err != nil {
		t.Fatal(err)
	}
	return n
}

func (n *node) issuer() types.Issuer {
	c, err := ctx509.ParseCertificate(n.der)
	if err != nil {
		panic(err)
	}
	return types.NewIssuer(c)
}

func load(t *testing.T, rows ...row) *MozIssuers {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	w.Write([]string{"X.509_Certificate_PEM", "RecordType.Name", "Revocation_Status__c", "Full_CRL_Issued_By_This_CA", "JSON_Array_of_Partitioned_CRLs"})
	for _, r := range rows {
		w.Write([]string{string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: r.n.der})), r.kind, r.status, r.full, r.part})
	}
	w.Flush()
	p := filepath.Join(t.TempDir(), "r.csv")
	os.WriteFile(p, b.Bytes(), 0644)
	mi := NewMozillaIssuers()
	if err := mi.LoadFromDisk(p); err != nil {
		t.Fatal(err)
	}
	return mi
}
'''
for s in SEEDS:
    s["helpers"] = []
    s["demo"] = s["demo"].replace("@PKI", PKI)
