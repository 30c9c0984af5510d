package main

import (
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"strconv"
	"strings"

	"filippo.io/sunlight"

	pki "github.com/mozilla/crlite/go/verifpki"
)

// checkpoint is a signed tree head as a note (c2sp.org/static-ct-api).
func (l *ctLog) checkpoint(size, ts uint64, key *pki.Key) []byte {
	root := l.mth(0, size)
	origin := l.host() + "/2000"
	sig := cat(u64(ts), []byte{4, 3}, u16(key.Sign256(treeHeadInput(ts, size, root))))
	return l.note(origin, size, root, sig)
}

func (l *ctLog) note(origin string, size uint64, root [32]byte, sig []byte) []byte {
	keyID := sha256.Sum256(l.key.SPKI)
	h := sha256.Sum256(cat([]byte(origin), []byte("\n"), []byte{5}, keyID[:]))
	text := fmt.Sprintf("%s\n%d\n%s\n", origin, size, base64.StdEncoding.EncodeToString(root[:]))
	return []byte(fmt.Sprintf("%s\n\u2014 %s %s\n", text, origin, base64.StdEncoding.EncodeToString(cat(h[:4], sig))))
}

func pow256(n int) uint64 {
	r := uint64(1)
	for ; n > 0; n-- {
		r *= 256
	}
	return r
}

// tileLeaves is the data tile content of entries [lo, hi).
func (l *ctLog) tileLeaves(lo, hi uint64) []byte {
	var b []byte
	for i := lo; i < hi; i++ {
		b = append(b, l.entries[i].tile...)
	}
	return b
}

func (l *ctLog) serveTiled(path, fault string) *reply {
	switch {
	case path == "checkpoint":
		size, ts := l.size, l.headTime()
		l.badHead = ""
		if strings.HasPrefix(fault, "cp-") && fault != "cp-stale" {
			l.badHead = fault
		}
		switch fault {
		case "cp-stale":
			size, ts = l.stale(size, ts)
		case "cp-otherkey":
			return ok(l.checkpoint(size, ts+30*24*3600*1000, pki.NewKey(77)))
		case "cp-ts":
			// the timestamp beside the signature is raised
			root := l.mth(0, size)
			sig := cat(u64(ts+30*24*3600*1000), []byte{4, 3}, u16(l.key.Sign256(treeHeadInput(ts, size, root))))
			return ok(l.note(l.host()+"/2000", size, root, sig))
		case "cp-size":
			root := l.mth(0, size)
			sig := cat(u64(ts), []byte{4, 3}, u16(l.key.Sign256(treeHeadInput(ts, size, root))))
			return ok(l.note(l.host()+"/2000", size+1, root, sig))
		case "cp-root":
			root := l.mth(0, size)
			sig := cat(u64(ts), []byte{4, 3}, u16(l.key.Sign256(treeHeadInput(ts, size, root))))
			root[3] ^= 1
			return ok(l.note(l.host()+"/2000", size, root, sig))
		case "cp-nosig":
			b := l.checkpoint(size, ts, l.key)
			return ok(b[:strings.Index(string(b), "\n\n")+2])
		}
		l.headOK[[2]uint64{size, ts}] = true
		return ok(l.checkpoint(size, ts, l.key))
	case strings.HasPrefix(path, "tile/"):
		t, err := sunlight.ParseTilePath(path)
		if err != nil {
			return &reply{status: 404}
		}
		if t.L == -1 {
			lo := uint64(t.N) * 256
			hi := lo + uint64(t.W)
			if hi > l.size {
				return &reply{status: 404}
			}
			b := l.tileLeaves(lo, hi)
			switch {
			case strings.HasPrefix(fault, "alter-"):
				p := strings.Split(fault, "-")
				j, _ := strconv.Atoi(p[2])
				i := lo + uint64(j)
				if i >= hi {
					break
				}
				e := l.entries[i]
				tl := append([]byte(nil), e.tile...)
				switch p[1] {
				case "ts":
					tl[6] ^= 1
				case "serial":
					k := strings.Index(string(tl), string(pki.Int(e.serial)))
					tl[k+2] ^= 0x20
				case "other":
					tl = append([]byte(nil), l.entries[(i+1)%l.size].tile...)
				case "cut":
					tl = tl[:len(tl)-1]
				case "drop":
					tl = nil
				}
				b = cat(l.tileLeaves(lo, i), tl, l.tileLeaves(i+1, hi))
				for k := lo; k < hi; k++ {
					if k < i || k == i && string(tl) == string(e.tile) || k > i && p[1] != "drop" && p[1] != "cut" {
						l.delivered[k] = true
					}
				}
				return ok(b)
			case fault == "cut":
				n := 0
				for k := lo; k < hi; k++ {
					n += len(l.entries[k].tile)
					if n <= len(b)/2 {
						l.delivered[k] = true
					}
				}
				b = b[:len(b)/2]
				return ok(b)
			case fault == "long":
				b = append(b, l.entries[0].tile...)
			}
			for k := lo; k < hi; k++ {
				l.delivered[k] = true
			}
			return ok(b)
		}
		unit := pow256(t.L)
		var b []byte
		for n := uint64(t.N) * 256; n < uint64(t.N)*256+uint64(t.W); n++ {
			if (n+1)*unit > l.size {
				return &reply{status: 404}
			}
			h := l.mth(n*unit, (n+1)*unit)
			b = append(b, h[:]...)
		}
		switch {
		case strings.HasPrefix(fault, "hash-"):
			j, _ := strconv.Atoi(fault[5:])
			if j*32 < len(b) {
				b[j*32+5] ^= 2
			}
		case fault == "cut":
			b = b[:len(b)/2]
		case fault == "long":
			b = append(b, b[:32]...)
		}
		return ok(b)
	case strings.HasPrefix(path, "issuer/"):
		der, found := l.issuers[strings.TrimPrefix(path, "issuer/")]
		if !found {
			return &reply{status: 404}
		}
		switch fault {
		case "issuer-other":
			if string(der) == string(caB) {
				return ok(caA)
			}
			return ok(caB)
		case "issuer-garbage":
			return ok([]byte("not a certificate"))
		case "issuer-empty":
			return ok(nil)
		case "cut":
			return ok(der[:len(der)/2])
		case "long":
			return ok(append(append([]byte(nil), der...), 0))
		}
		return ok(der)
	}
	return &reply{status: 404}
}
