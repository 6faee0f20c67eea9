package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"strconv"
	"time"
)

type httpHandler = http.Handler

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// MonClient queries a monitor handler and judges successful and failed answers against the auditor's log.
type MonClient struct {
	H http.Handler
	// Edge: smaller limits, partial answers allowed
	Edge bool
}

func (m *MonClient) get(target string) *Resp { return call(m.H, "GET", target, nil, 60*time.Second) }

func (m *MonClient) STH(w *World) (Head, error) {
	r := m.get("/ct/v1/get-sth")
	if r.Panic != "" || r.Hung || r.Code != 200 {
		return Head{}, fmt.Errorf("%v", r)
	}
	return verifySTH(r.Body, &w.Key.PublicKey)
}

func hashes(v [][]byte) ([]Hash, error) {
	var r []Hash
	for _, x := range v {
		if len(x) != 32 {
			return nil, fmt.Errorf("proof element of %d bytes", len(x))
		}
		r = append(r, Hash(x))
	}
	return r, nil
}

type proofAnswer struct {
	LeafIndex *int64   `json:"leaf_index"`
	AuditPath [][]byte `json:"audit_path"`
	LeafInput []byte   `json:"leaf_input"`
	ExtraData []byte   `json:"extra_data"`
	Cons      [][]byte `json:"consistency"`
}

// CheckConsistency requires a verifying answer.
func (m *MonClient) CheckConsistency(w *World, first, second uint64) error {
	r := m.get(fmt.Sprintf("/ct/v1/get-sth-consistency?first=%d&second=%d", first, second))
	if r.Panic != "" || r.Hung || r.Code != 200 {
		return fmt.Errorf("%v", r)
	}
	return m.judgeConsistency(w, first, second, r)
}

func (m *MonClient) judgeConsistency(w *World, first, second uint64, r *Resp) error {
	var j proofAnswer
	if err := json.Unmarshal(r.Body, &j); err != nil {
		return err
	}
	p, err := hashes(j.Cons)
	if err != nil {
		return err
	}
	return verifyConsistency(first, second, p, w.Aud.Root(first), w.Aud.Root(second))
}

func (m *MonClient) CheckProofByHash(w *World, i, size uint64) error {
	lh := w.Aud.LeafHash(i)
	r := m.get(fmt.Sprintf("/ct/v1/get-proof-by-hash?hash=%s&tree_size=%d", esc(lh[:]), size))
	if r.Panic != "" || r.Hung || r.Code != 200 {
		return fmt.Errorf("%v", r)
	}
	return m.judgeProofByHash(w, lh, size, r)
}

func (m *MonClient) judgeProofByHash(w *World, lh Hash, size uint64, r *Resp) error {
	var j proofAnswer
	if err := json.Unmarshal(r.Body, &j); err != nil {
		return err
	}
	if j.LeafIndex == nil || *j.LeafIndex < 0 || uint64(*j.LeafIndex) >= size {
		return fmt.Errorf("leaf_index missing or out of range")
	}
	p, err := hashes(j.AuditPath)
	if err != nil {
		return err
	}
	return verifyInclusion(lh, uint64(*j.LeafIndex), size, p, w.Aud.Root(size))
}

func (m *MonClient) CheckEntryAndProof(w *World, i, size uint64) error {
	r := m.get(fmt.Sprintf("/ct/v1/get-entry-and-proof?leaf_index=%d&tree_size=%d", i, size))
	if r.Panic != "" || r.Hung || r.Code != 200 {
		return fmt.Errorf("%v", r)
	}
	return m.judgeEntryAndProof(w, i, size, r)
}

func (m *MonClient) judgeEntryAndProof(w *World, i, size uint64, r *Resp) error {
	var j proofAnswer
	if err := json.Unmarshal(r.Body, &j); err != nil {
		return err
	}
	p, err := hashes(j.AuditPath)
	if err != nil {
		return err
	}
	if err := w.judgeEntry(i, j.LeafInput, j.ExtraData); err != nil {
		return err
	}
	return verifyInclusion(leafHash(j.LeafInput), i, size, p, w.Aud.Root(size))
}

// judgeEntry compares a served entry with the one the log committed to.
func (w *World) judgeEntry(i uint64, leafInput, extra []byte) error {
	e := w.Aud.Entry(i)
	if e == nil {
		return fmt.Errorf("entry %d is not in the published log", i)
	}
	if !bytes.Equal(leafInput, e.Leaf()) {
		return fmt.Errorf("leaf_input of entry %d (%d bytes) is not the logged leaf (%d bytes)", i, len(leafInput), len(e.Leaf()))
	}
	var chain [][]byte
	w.Aud.mu.Lock()
	for _, f := range e.Chain {
		chain = append(chain, w.Aud.chains[f])
	}
	w.Aud.mu.Unlock()
	for k, c := range chain {
		if sha256.Sum256(c) != e.Chain[k] {
			return fmt.Errorf("harness does not know the chain of entry %d", i)
		}
	}
	if !bytes.Equal(extra, extraData(e.Pre, e.PreCert, chain)) {
		return fmt.Errorf("extra_data of entry %d (%d bytes) is not the submitted chain (%d bytes)", i, len(extra), len(extraData(e.Pre, e.PreCert, chain)))
	}
	return nil
}

type entriesAnswer struct {
	Entries []struct {
		LeafInput []byte `json:"leaf_input"`
		ExtraData []byte `json:"extra_data"`
	} `json:"entries"`
}

// CheckEntries requires a correct, non-empty answer for a start inside the tree. The published size was at least size
// before the call.
func (m *MonClient) CheckEntries(w *World, start, end, size uint64) error {
	r := m.get(fmt.Sprintf("/ct/v1/get-entries?start=%d&end=%d", start, end))
	if r.Panic != "" || r.Hung || r.Code != 200 {
		return fmt.Errorf("%v", r)
	}
	_, err := m.judgeEntries(w, start, end, r)
	for try := 0; try < 4 && err == errAtLimit; try++ { // now more of it is cached
		_, err = m.judgeEntries(w, start, end, m.get(fmt.Sprintf("/ct/v1/get-entries?start=%d&end=%d", start, end)))
	}
	return err
}

// The edge answers without entries if the chain of the first takes more requests to the backend than it may make (10).
const fetchesHeader = "X-Verif-Fetches"

var errAtLimit = errors.New("no entries, after 10 requests to the backend")

func (m *MonClient) judgeEntries(w *World, start, end uint64, r *Resp) (int, error) {
	var j entriesAnswer
	if err := json.Unmarshal(r.Body, &j); err != nil {
		return 0, err
	}
	if len(j.Entries) == 0 {
		if n, _ := strconv.Atoi(r.Header.Get(fetchesHeader)); m.Edge && n >= 10 {
			return 0, errAtLimit
		}
		return 0, fmt.Errorf("no entries")
	}
	pub := w.Aud.Size()
	for k, e := range j.Entries {
		i := start + uint64(k)
		if i > end {
			return 0, fmt.Errorf("%d entries, beyond end", len(j.Entries))
		}
		if i >= pub {
			return 0, fmt.Errorf("entry %d is beyond the published tree size %d", i, pub)
		}
		if err := w.judgeEntry(i, e.LeafInput, e.ExtraData); err != nil {
			return 0, err
		}
	}
	return len(j.Entries), nil
}

// sameServed compares a one-entry get-entries answer with a submission.
func sameServed(body []byte, e *Entry, s *Sub) error {
	var j entriesAnswer
	if err := json.Unmarshal(body, &j); err != nil {
		return err
	}
	if len(j.Entries) != 1 {
		return fmt.Errorf("%d entries", len(j.Entries))
	}
	if !bytes.Equal(j.Entries[0].LeafInput, e.Leaf()) {
		return fmt.Errorf("leaf_input is not the submitted entry")
	}
	var pre []byte
	if s.Pre {
		pre = s.Full[0]
	}
	if !bytes.Equal(j.Entries[0].ExtraData, extraData(s.Pre, pre, s.Full[1:])) {
		return fmt.Errorf("extra_data (%d bytes) is not the submitted chain of %d certificates", len(j.Entries[0].ExtraData), len(s.Full))
	}
	return nil
}
