package scen

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/awcullen/opcua/ua"
)

// simHist is the storage of the simulated application: it records what the
// server hands it, slowly or with errors when told to.
type simHist struct {
	w      *World
	mu     sync.Mutex
	vals   map[ua.NodeID][]ua.DataValue
	events map[ua.NodeID][][]ua.Variant
	calls  []string
	delay  func(i int) time.Duration
	fail   func(i int) error
	n      int
	reads  int
}

func newSimHist(w *World) *simHist {
	return &simHist{w: w, vals: map[ua.NodeID][]ua.DataValue{}, events: map[ua.NodeID][][]ua.Variant{}}
}

func (h *simHist) step() error {
	h.mu.Lock()
	i := h.n
	h.n++
	d, f := h.delay, h.fail
	h.mu.Unlock()
	if d != nil {
		if t := d(i); t > 0 {
			time.Sleep(t)
		}
	}
	if f != nil {
		return f(i)
	}
	return nil
}

func (h *simHist) WriteEvent(ctx context.Context, nodeID ua.NodeID, fields []ua.Variant) error {
	err := h.step()
	h.mu.Lock()
	defer h.mu.Unlock()
	h.events[nodeID] = append(h.events[nodeID], fields)
	return err
}

func (h *simHist) WriteValue(ctx context.Context, nodeID ua.NodeID, v ua.DataValue) error {
	err := h.step()
	h.mu.Lock()
	defer h.mu.Unlock()
	h.vals[nodeID] = append(h.vals[nodeID], v)
	return err
}

func (h *simHist) read(kind string, nodes []ua.HistoryReadValueID) ([]ua.HistoryReadResult, ua.StatusCode) {
	h.step()
	h.mu.Lock()
	defer h.mu.Unlock()
	h.reads++
	h.calls = append(h.calls, fmt.Sprintf("%s %v", kind, nodes))
	r := make([]ua.HistoryReadResult, len(nodes))
	for i, n := range nodes {
		if n.NodeID == nil {
			r[i].StatusCode = ua.BadNodeIDUnknown
			continue
		}
		if kind == "event" {
			l := []ua.HistoryEventFieldList{}
			for _, e := range h.events[n.NodeID] {
				l = append(l, ua.HistoryEventFieldList{EventFields: e})
			}
			r[i].HistoryData = ua.HistoryEvent{Events: l}
			continue
		}
		r[i].HistoryData = ua.HistoryData{DataValues: append([]ua.DataValue{}, h.vals[n.NodeID]...)}
	}
	return r, ua.Good
}

func (h *simHist) ReadEvent(ctx context.Context, n []ua.HistoryReadValueID, d ua.ReadEventDetails, t ua.TimestampsToReturn, rel bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return h.read("event", n)
}
func (h *simHist) ReadRawModified(ctx context.Context, n []ua.HistoryReadValueID, d ua.ReadRawModifiedDetails, t ua.TimestampsToReturn, rel bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return h.read("raw", n)
}
func (h *simHist) ReadProcessed(ctx context.Context, n []ua.HistoryReadValueID, d ua.ReadProcessedDetails, t ua.TimestampsToReturn, rel bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return h.read("processed", n)
}
func (h *simHist) ReadAtTime(ctx context.Context, n []ua.HistoryReadValueID, d ua.ReadAtTimeDetails, t ua.TimestampsToReturn, rel bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return h.read("attime", n)
}
