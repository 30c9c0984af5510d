package main

import "crypto/sha256"

// An independent RFC 6962 section 2.1 Merkle tree, by recursion on the definition.

func leafHash(leaf []byte) [32]byte { return sha256.Sum256(append([]byte{0}, leaf...)) }

func pairHash(a, b [32]byte) [32]byte {
	return sha256.Sum256(append(append([]byte{1}, a[:]...), b[:]...))
}

func split(n uint64) uint64 {
	k := uint64(1)
	for k*2 < n {
		k *= 2
	}
	return k
}

// mth is the tree head over leaves [lo, hi).
func (l *ctLog) mth(lo, hi uint64) [32]byte {
	if hi == lo {
		return sha256.Sum256(nil)
	}
	if hi-lo == 1 {
		return l.entries[lo].hash
	}
	k := [2]uint64{lo, hi}
	if h, ok := l.nodes[k]; ok {
		return h
	}
	m := lo + split(hi-lo)
	h := pairHash(l.mth(lo, m), l.mth(m, hi))
	l.nodes[k] = h
	return h
}

// consistency is PROOF(m, D[n]) of RFC 6962 section 2.1.2.
func (l *ctLog) consistency(m, n uint64) [][32]byte {
	if m == 0 || m == n {
		return nil
	}
	return l.subproof(m, 0, n, true)
}

func (l *ctLog) subproof(m, lo, hi uint64, b bool) [][32]byte {
	n := hi - lo
	if m == n {
		if b {
			return nil
		}
		return [][32]byte{l.mth(lo, hi)}
	}
	k := split(n)
	if m <= k {
		return append(l.subproof(m, lo, lo+k, b), l.mth(lo+k, hi))
	}
	return append(l.subproof(m-k, lo+k, hi, false), l.mth(lo, lo+k))
}

// proofRanges gives, for each hash of PROOF(m, D[n]), the leaves [lo, hi) it is
// the tree head of.
func proofRanges(m, lo, hi uint64, b bool) [][2]uint64 {
	n := hi - lo
	if m == n {
		if b {
			return nil
		}
		return [][2]uint64{{lo, hi}}
	}
	k := split(n)
	if m <= k {
		return append(proofRanges(m, lo, lo+k, b), [2]uint64{lo + k, hi})
	}
	return append(proofRanges(m-k, lo+k, hi, false), [2]uint64{lo, lo + k})
}
