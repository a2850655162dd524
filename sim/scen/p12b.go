package scen

import (
	"fmt"
	"reflect"
	"time"

	"github.com/awcullen/opcua/ua"
)

// Arrays of every built-in type, read and written by range, each owned by one
// client, against a splice in the model.

const p12RangeKinds = 26
const p12RangeLen = 6

// p12Array makes an array of kind k with n elements.
func p12Array(k int, x int64, n int) (any, ua.NodeID, int32) {
	switch k {
	case 22: // a string is a range of characters
		l := []rune{}
		for i := 0; i < n; i++ {
			l = append(l, []rune("aßcdéfgh世jklm")[(int(x)+i*3)%13])
		}
		return string(l), ua.DataTypeIDString, -1
	case 23:
		l := []byte{}
		for i := 0; i < n; i++ {
			l = append(l, byte(x)+byte(i*7))
		}
		return ua.ByteString(l), ua.DataTypeIDByteString, -1
	case 24:
		l := []ua.Variant{}
		for i := 0; i < n; i++ {
			v, _, _ := p12Typed((int(x)+i*5)%21, x+int64(i))
			l = append(l, v)
		}
		return l, ua.DataTypeIDBaseDataType, 1
	case 25:
		l := []ua.DataValue{}
		for i := 0; i < n; i++ {
			v, _, _ := p12Typed([]int{0, 5, 10, 11}[(int(x)+i)%4], x+int64(i))
			l = append(l, ua.DataValue{Value: v, StatusCode: []ua.StatusCode{ua.Good, ua.BadDeviceFailure}[(int(x)+i)%2]})
		}
		return l, ua.DataTypeIDDataValue, 1
	case 16:
		l := []ua.NodeID{}
		for i := 0; i < n; i++ {
			v, _, _ := p12Typed(k, x+int64(i))
			l = append(l, v.(ua.NodeID))
		}
		return l, ua.DataTypeIDNodeID, 1
	case 21:
		l := []ua.ExtensionObject{}
		for i := 0; i < n; i++ {
			v, _, _ := p12Typed(k, x+int64(i))
			l = append(l, v)
		}
		return l, ua.DataTypeIDStructure, 1
	}
	var l reflect.Value
	var dt ua.NodeID
	for i := 0; i < n; i++ {
		v, d, _ := p12Typed(k, x+int64(i))
		dt = d
		if i == 0 {
			l = reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(v)), 0, n)
		}
		l = reflect.Append(l, reflect.ValueOf(v))
	}
	return l.Interface(), dt, 1
}

// p12Cut returns v[lo..hi].
func p12Cut(v any, lo, hi int) any {
	switch s := v.(type) {
	case string:
		return string([]rune(s)[lo : hi+1])
	case ua.ByteString:
		return s[lo : hi+1]
	}
	return reflect.ValueOf(v).Slice(lo, hi+1).Interface()
}

// p12Splice returns a copy of v with [lo..] replaced by part.
func p12Splice(v any, lo, hi int, part any) any {
	switch s := v.(type) {
	case string:
		l := []rune(s)
		copy(l[lo:hi+1], []rune(part.(string)))
		return string(l)
	case ua.ByteString:
		l := []byte(s)
		copy(l[lo:hi+1], []byte(part.(ua.ByteString)))
		return ua.ByteString(l)
	}
	r := reflect.ValueOf(v)
	l := reflect.MakeSlice(r.Type(), r.Len(), r.Len())
	reflect.Copy(l, r)
	reflect.Copy(l.Slice(lo, hi+1), reflect.ValueOf(part))
	return l.Interface()
}

// held remembers a value the application took from a node or gave to it: it
// must not change afterwards.
type p12Held struct {
	name string
	v    any
	show string
}

func p12Dump(v any) string { return fmt.Sprintf("%T %v %#v", v, v, v) }

func (x *p12) hold(name string, v any) {
	x.w.mu.Lock()
	x.held = append(x.held, p12Held{name, v, p12Dump(v)})
	x.w.mu.Unlock()
}

func (x *p12) checkHeld() {
	for _, h := range x.held {
		if s := p12Dump(h.v); s != h.show {
			x.w.Fail("changed-in-place", "a value of %s that the application holds changed from %s to %s", h.name, h.show, s)
		}
	}
}

// trange runs one range read or write of a private array; it reports whether
// the connection is still good.
func (x *p12) trange(a int, c Caller, o Op, model map[string]any) bool {
	w := x.w
	lo, hi := int(o.Arg(0))%p12RangeLen, int(o.Arg(1))%p12RangeLen
	if lo > hi {
		lo, hi = hi, lo
	}
	k := int(o.Arg(3)) % p12RangeKinds
	n := fmt.Sprintf("X%d_%d", a, k)
	cur, ok := model[n]
	if !ok {
		cur = x.vars[n].Value().Value
	}
	r := rng(lo, hi)
	if o.Arg(3)/p12RangeKinds%3 > 0 {
		part, _, _ := p12Array(k, 1+o.Arg(3)/97%5000, hi-lo+1)
		want := p12Splice(cur, lo, hi, part)
		x.hold(n, x.vars[n].Value().Value)
		q := writeReq(n, part, r)
		t0 := time.Now()
		rr, err := c.Do(q, longWait)
		if err != nil {
			delete(model, n)
			return false
		}
		if wr, ok := rr.(*ua.WriteResponse); !ok || len(wr.Results) != 1 || wr.Results[0] != ua.Good {
			w.Fail("status", "client %d: write of %T %v to %s[%s] (%T %v): %s %v", a, part, part, n, r, cur, cur, sr(rr, err), rr)
		}
		if got := x.vars[n].Value(); !p12Equal(got.Value, want) {
			w.Fail("fidelity", "client %d wrote %T %v to [%s] of %v; the server holds %T %v, want %v", a, part, part, r, cur, got.Value, got.Value, want)
		} else if got.ServerTimestamp.Before(t0) {
			w.Fail("timestamps", "client %d wrote %s[%s] at %v; the value is stamped %v", a, n, r, t0, got.ServerTimestamp)
		}
		model[n] = want
		w.State("trange-w", k)
		return true
	}
	rr, err := c.Do(&ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: []ua.ReadValueID{
		{NodeID: nid(n), AttributeID: ua.AttributeIDValue, IndexRange: r}, {NodeID: nid(n), AttributeID: ua.AttributeIDValue}}}, longWait)
	if err != nil {
		return false
	}
	rd, ok := rr.(*ua.ReadResponse)
	if !ok || len(rd.Results) != 2 || rd.Results[0].StatusCode != ua.Good || rd.Results[1].StatusCode != ua.Good {
		w.Fail("status", "client %d: read of %s[%s]: %s %v", a, n, r, sr(rr, err), rr)
	}
	if want := p12Cut(cur, lo, hi); !p12Equal(rd.Results[0].Value, want) {
		w.Fail("fidelity", "client %d read %s[%s] = %T %v, want %T %v", a, n, r, rd.Results[0].Value, rd.Results[0].Value, want, want)
	}
	if !p12Equal(rd.Results[1].Value, cur) {
		w.Fail("fidelity", "client %d read %s = %T %v, want %T %v", a, n, rd.Results[1].Value, rd.Results[1].Value, cur, cur)
	}
	w.State("trange-r", k)
	return true
}
