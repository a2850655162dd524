package scen

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"

	"opcuasim/raw"
)

// P12: reads and writes of variables, also of ranges, are linearizable, and
// values survive unchanged.
func init() { register(&Scenario{Prop: "P12", Gen: genP12, Run: runP12}) }

func genP12(g Gen, p *Plan) {
	nc := int(g.Range(2, 4))
	p.P["clients"] = int64(nc)
	for a := 0; a < nc; a++ {
		p.P[fmt.Sprintf("sec%d", a)] = g.Pick(0, 0, int64(g.N(len(secs))))
		p.P[fmt.Sprintf("real%d", a)] = g.Pick(0, 0, 0, 1)
	}
	p.P["workers"] = g.Pick(1, 2, 4, 4)
	n := int(g.Range(10, 45))
	if p.Tier == "thorough" {
		n = int(g.Range(10, 80))
	}
	focus := g.N(4)
	kinds := [][]string{
		{"w", "r", "aw", "ar", "mr", "mw", "bad", "oob", "nil", "typed", "aW", "sw", "sr", "tset", "pipe", "trange"},
		{"aw", "aw", "aw", "ar", "aW", "mr"},
		{"w", "r", "w", "r", "mw", "mr", "pipe"},
		{"typed", "typed", "tset", "sw", "sr", "aw", "ar", "trange", "trange", "trange"},
	}[focus]
	for i := 0; i < n; i++ {
		lo := g.Range(0, 7)
		o := Op{A: g.N(nc), D: g.Pick(0, 0, 0, 20, 200, 3000), K: kinds[g.N(len(kinds))],
			I: []int64{lo, g.Range(lo, 7), g.Range(0, 1), int64(g.U64() % 1000000)}}
		if g.P(12) {
			o = Op{A: nc, D: g.Pick(0, 50, 500, 5000), K: []string{"app_set", "app_get", "app_aset"}[g.N(3)], I: []int64{0, 0, g.Range(0, 1)}}
		}
		p.Ops = append(p.Ops, o)
	}
	if g.P(30) {
		p.Ops = append(p.Ops, Op{A: g.N(nc), D: g.Range(0, 5000), K: []string{"cut", "cutafter", "stall"}[g.N(3)], I: []int64{g.Range(0, 4000), g.Range(0, 1)}})
	}
}

const p12Len = 8

func p12Show(v any) string {
	switch x := v.(type) {
	case int64:
		return strconv.FormatInt(x, 10)
	case []int32:
		var l []string
		for _, e := range x {
			l = append(l, strconv.Itoa(int(e)))
		}
		return strings.Join(l, ",")
	case string:
		return x
	}
	return fmt.Sprintf("%T:%v", v, v)
}

func splice(s string, lo, hi int, v []int32) string {
	l := strings.Split(s, ",")
	for i := lo; i <= hi; i++ {
		l[i] = strconv.Itoa(int(v[i-lo]))
	}
	return strings.Join(l, ",")
}

func sub(s string, lo, hi int) string { return strings.Join(strings.Split(s, ",")[lo:hi+1], ",") }

func rng(lo, hi int) string {
	if lo == hi {
		return strconv.Itoa(lo)
	}
	return fmt.Sprintf("%d:%d", lo, hi)
}

// p12Typed is the table of typed values. k selects the type, x the content.
func p12Typed(k int, x int64) (v any, dt ua.NodeID, rank int32) {
	f := float64(x)/7 - 1000
	str := fmt.Sprintf("v%d-é世-%x", x, x*x)
	tm := time.Unix(1000000000+x, (x%10000)*100).UTC()
	var g [16]byte
	for i := range g {
		g[i] = byte(x >> (i % 5 * 8) * int64(i+1))
	}
	switch k {
	case 0:
		return x%2 == 0, ua.DataTypeIDBoolean, -1
	case 1:
		return int8(x), ua.DataTypeIDSByte, -1
	case 2:
		return byte(x), ua.DataTypeIDByte, -1
	case 3:
		return int16(x), ua.DataTypeIDInt16, -1
	case 4:
		return uint16(x), ua.DataTypeIDUInt16, -1
	case 5:
		return int32(x * 2147), ua.DataTypeIDInt32, -1
	case 6:
		return uint32(x * 4294), ua.DataTypeIDUInt32, -1
	case 7:
		return x * 9223372036, ua.DataTypeIDInt64, -1
	case 8:
		return uint64(x)*18446744073 + math.MaxUint64/2, ua.DataTypeIDUInt64, -1
	case 9:
		if x%5 == 0 {
			f = math.Inf(1)
		}
		return float32(f), ua.DataTypeIDFloat, -1
	case 10:
		if x%5 == 0 {
			f = math.Inf(-1)
		}
		return f, ua.DataTypeIDDouble, -1
	case 11:
		return str, ua.DataTypeIDString, -1
	case 12:
		return tm, ua.DataTypeIDDateTime, -1
	case 13:
		return uuid.UUID(g), ua.DataTypeIDGUID, -1
	case 14:
		return ua.ByteString(string(g[:x%17]) + "x"), ua.DataTypeIDByteString, -1
	case 15:
		return ua.XMLElement("<a>" + str + "</a>"), ua.DataTypeIDXMLElement, -1
	case 16:
		switch x % 4 {
		case 0:
			return ua.NodeID(ua.NodeIDNumeric{NamespaceIndex: uint16(x % 700), ID: uint32(x * 13)}), ua.DataTypeIDNodeID, -1
		case 1:
			return ua.NodeID(ua.NodeIDString{NamespaceIndex: uint16(x % 70000), ID: str}), ua.DataTypeIDNodeID, -1
		case 2:
			return ua.NodeID(ua.NodeIDGUID{NamespaceIndex: 3, ID: uuid.UUID(g)}), ua.DataTypeIDNodeID, -1
		}
		return ua.NodeID(ua.NodeIDOpaque{NamespaceIndex: 300, ID: ua.ByteString(g[:])}), ua.DataTypeIDNodeID, -1
	case 17:
		e := ua.ExpandedNodeID{NodeID: ua.NodeIDNumeric{ID: uint32(x % 70000)}, NamespaceURI: "urn:" + str, ServerIndex: uint32(x % 9)}
		return e, ua.DataTypeIDExpandedNodeID, -1
	case 18:
		return ua.StatusCode(uint32(x) * 4001), ua.DataTypeIDStatusCode, -1
	case 19:
		return ua.NewQualifiedName(uint16(x), str), ua.DataTypeIDQualifiedName, -1
	case 20:
		return ua.NewLocalizedText(str, []string{"", "en", "de-DE"}[x%3]), ua.DataTypeIDLocalizedText, -1
	case 21:
		return ua.Argument{Name: str, DataType: ua.DataTypeIDDouble, ValueRank: -1, ArrayDimensions: []uint32{uint32(x)}, Description: ua.NewLocalizedText("d", "en")}, ua.DataTypeIDStructure, -1
	}
	// arrays
	n := int(x%5) + 1
	switch k - 22 {
	case 0:
		l := make([]float64, n)
		for i := range l {
			l[i] = f * float64(i)
		}
		return l, ua.DataTypeIDDouble, 1
	case 1:
		l := make([]string, n)
		for i := range l {
			l[i] = str[:i%4]
		}
		return l, ua.DataTypeIDString, 1
	case 2:
		l := make([]uint64, n)
		for i := range l {
			l[i] = uint64(x) << uint(i*9)
		}
		return l, ua.DataTypeIDUInt64, 1
	case 3:
		l := make([]bool, n)
		for i := range l {
			l[i] = x>>uint(i)&1 == 1
		}
		return l, ua.DataTypeIDBoolean, 1
	case 4:
		l := make([]ua.ByteString, n)
		for i := range l {
			l[i] = ua.ByteString(g[:i+1])
		}
		return l, ua.DataTypeIDByteString, 1
	case 5:
		l := make([]ua.Variant, n)
		for i := range l {
			l[i], _, _ = p12Typed((int(x)+i*5)%21, x+int64(i))
		}
		return l, ua.DataTypeIDBaseDataType, 1
	case 6:
		l := make([]time.Time, n)
		for i := range l {
			l[i] = tm.Add(time.Duration(i) * time.Hour)
		}
		return l, ua.DataTypeIDDateTime, 1
	case 7:
		l := make([]int16, n)
		for i := range l {
			l[i] = int16(x) - int16(i)
		}
		return l, ua.DataTypeIDInt16, 1
	case 8:
		l := make([][]int32, 2)
		for i := range l {
			l[i] = []int32{int32(x), int32(i), -3}
		}
		return l, ua.DataTypeIDInt32, 2
	}
	l := make([]ua.LocalizedText, n)
	for i := range l {
		l[i] = ua.NewLocalizedText(str, "en")
	}
	return l, ua.DataTypeIDLocalizedText, 1
}

const p12Types = 32

func p12Equal(a, b any) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	if x, ok := a.(time.Time); ok {
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Kind() == reflect.Slice && vb.Kind() == reflect.Slice && va.Type() == vb.Type() && va.Len() == vb.Len() {
		for i := 0; i < va.Len(); i++ {
			if !p12Equal(va.Index(i).Interface(), vb.Index(i).Interface()) {
				return false
			}
		}
		return true
	}
	return false
}

type p12 struct {
	w    *World
	s    *Srv
	lin  *Lin
	next int32
	vars map[string]*server.VariableNode
	held []p12Held
}

func (x *p12) uniq() int64 {
	x.w.mu.Lock()
	defer x.w.mu.Unlock()
	x.next++
	return int64(x.next)
}

func runP12(w *World) {
	s := w.NewServer(SrvOpts{Workers: int(w.P("workers"))})
	x := &p12{w: w, s: s, lin: NewLin(), next: 100, vars: map[string]*server.VariableNode{}}
	for i := 0; i < 2; i++ {
		x.vars[fmt.Sprintf("R%d", i)] = s.AddVar(fmt.Sprintf("R%d", i), int64(0), ua.DataTypeIDInt64, -1, VarOpts{})
		x.vars[fmt.Sprintf("A%d", i)] = s.AddVar(fmt.Sprintf("A%d", i), make([]int32, p12Len), []ua.NodeID{ua.DataTypeIDInt32, ua.DataTypeIDBaseDataType}[i], 1, VarOpts{Dims: []uint32{p12Len}})
	}
	x.vars["S0"] = s.AddVar("S0", "äbcdefgh", ua.DataTypeIDString, -1, VarOpts{})
	nc := int(w.P("clients"))
	for a := 0; a < nc; a++ {
		for k := 0; k < p12Types; k++ {
			v, dt, rank := p12Typed(k, 1)
			n := fmt.Sprintf("T%d_%d", a, k)
			var dims []uint32
			if rank == 2 {
				dims = []uint32{0, 0}
			}
			x.vars[n] = s.AddVar(n, v, dt, rank, VarOpts{Dims: dims})
		}
		for k := 0; k < p12RangeKinds; k++ {
			v, dt, rank := p12Array(k, 1, p12RangeLen)
			n := fmt.Sprintf("X%d_%d", a, k)
			var dims []uint32
			if rank == 1 {
				dims = []uint32{0}
			}
			x.vars[n] = s.AddVar(n, v, dt, rank, VarOpts{Dims: dims})
		}
	}
	for _, n := range []string{"A0", "A1"} {
		x.hold(n, x.vars[n].Value().Value)
	}
	w.StartSched()
	s.Serve()
	w.Actors(nc+1, func(a int, ops []Op) {
		if a == nc {
			x.app(ops)
			return
		}
		x.client(a, ops)
	})
	x.checkHeld()
	if m := x.lin.Check(func(o string) string {
		if o[0] == 'R' {
			return "0"
		}
		if o[0] == 'S' {
			return "äbcdefgh"
		}
		return p12Show(make([]int32, p12Len))
	}); m != "" {
		w.Fail("not-linearizable", "%s", m)
	}
	w.NonTrivial()
}

func (x *p12) app(ops []Op) {
	for _, o := range ops {
		o.Sleep()
		i := o.Arg(2)
		r, ar := fmt.Sprintf("R%d", i), fmt.Sprintf("A%d", i)
		switch o.K {
		case "app_set":
			v := x.uniq()
			t := x.lin.Tick()
			x.vars[r].SetValue(ua.NewDataValue(v, ua.Good, time.Now(), 0, time.Now(), 0))
			x.lin.Add(r, &LinOp{Call: t, Ret: x.lin.Tick(), Desc: fmt.Sprintf("app set %d", v), Apply: func(string) (string, bool) { return p12Show(v), true }})
		case "app_aset":
			l := make([]int32, p12Len)
			for j := range l {
				l[j] = int32(x.uniq())
			}
			sv := p12Show(l)
			x.hold(ar, l)
			t := x.lin.Tick()
			x.vars[ar].SetValue(ua.NewDataValue(l, ua.Good, time.Now(), 0, time.Now(), 0))
			x.lin.Add(ar, &LinOp{Call: t, Ret: x.lin.Tick(), Desc: "app set " + sv, Apply: func(string) (string, bool) { return sv, true }})
		case "app_get":
			t := x.lin.Tick()
			v := p12Show(x.vars[r].Value().Value)
			x.hold(ar, x.vars[ar].Value().Value)
			x.lin.Add(r, &LinOp{Call: t, Ret: x.lin.Tick(), Desc: "app get " + v, Apply: func(s string) (string, bool) { return s, s == v }})
		}
		x.w.Count(o.K)
	}
}

// pending is one item of a request in the history.
type p12Item struct {
	obj  string
	desc string
	// on success
	apply func(s string, res any) (string, bool)
	// code wanted (any Bad when 1)
	code ua.StatusCode
	read bool
}

func (x *p12) client(a int, ops []Op) {
	w, s := x.w, x.s
	o0 := RawOpts{Sec: int(w.P(fmt.Sprintf("sec%d", a)))}
	real := w.P(fmt.Sprintf("real%d", a)) == 1
	c := s.MustOpen(real, o0)
	hurt := false
	model := map[string]any{}
	do := func(req ua.ServiceRequest, items []p12Item) {
		t := x.lin.Tick()
		r, err := c.Do(req, longWait)
		ret := x.lin.Tick()
		if err == nil && r.Header().ServiceResult != ua.Good {
			w.Fail("refused", "client %d: %T refused: %s", a, req, sr(r, err))
		}
		if err != nil {
			if !hurt {
				w.Fail("no-answer", "client %d: %T failed without a fault: %v\n%s", a, req, err, Stacks())
			}
			for _, it := range items {
				if it.read || it.code != ua.Good {
					continue
				}
				it := it
				x.lin.Add(it.obj, &LinOp{Call: t, Ret: 1 << 62, Desc: it.desc + " (unanswered)", Maybe: true, Apply: func(s string) (string, bool) { return it.apply(s, nil) }})
			}
			w.Count("unanswered")
			// reconnect
			c.Disconnect()
			hurt = false
			c = s.MustOpen(false, o0)
			return
		}
		var codes []ua.StatusCode
		var vals []any
		switch rr := r.(type) {
		case *ua.WriteResponse:
			codes = rr.Results
			vals = make([]any, len(codes))
		case *ua.ReadResponse:
			q := req.(*ua.ReadRequest)
			for _, d := range rr.Results {
				codes = append(codes, d.StatusCode)
				vals = append(vals, d.Value)
				src, sv := !d.SourceTimestamp.IsZero(), !d.ServerTimestamp.IsZero()
				var ok bool
				switch q.TimestampsToReturn {
				case ua.TimestampsToReturnBoth:
					ok = src && sv
				case ua.TimestampsToReturnSource:
					ok = src && !sv
				case ua.TimestampsToReturnServer:
					ok = !src && sv
				default:
					ok = !src && !sv
				}
				if d.StatusCode == ua.Good && !ok {
					w.Fail("timestamps", "client %d asked for timestamps %v and got source %v server %v", a, q.TimestampsToReturn, d.SourceTimestamp, d.ServerTimestamp)
				}
			}
		default:
			w.Fail("wrong-response", "client %d: %s", a, sr(r, err))
		}
		if len(codes) != len(items) {
			w.Fail("wrong-response", "client %d: %d results for %d items", a, len(codes), len(items))
		}
		for i, it := range items {
			it, v := it, vals[i]
			if it.code == 1 {
				if !codes[i].IsBad() {
					w.Fail("status", "client %d: %s gave %v, want a bad status", a, it.desc, codes[i])
				}
				continue
			}
			if codes[i] != it.code {
				w.Fail("status", "client %d: %s gave %v, want %v", a, it.desc, codes[i], it.code)
			}
			if it.code != ua.Good || it.apply == nil {
				continue
			}
			d := fmt.Sprintf("c%d %s", a, it.desc)
			if it.read {
				d += " = " + p12Show(v)
			}
			w.Log("%d-%d %s %s", t, ret, it.obj, d)
			x.lin.Add(it.obj, &LinOp{Call: t, Ret: ret, Desc: d, Apply: func(s string) (string, bool) { return it.apply(s, v) }})
		}
	}
	read := func(obj string, lo, hi int) (ua.ReadValueID, p12Item) {
		id := ua.ReadValueID{NodeID: nid(obj), AttributeID: ua.AttributeIDValue}
		if lo < 0 {
			return id, p12Item{obj: obj, read: true, desc: "read", apply: func(s string, v any) (string, bool) { return s, s == p12Show(v) }}
		}
		id.IndexRange = rng(lo, hi)
		return id, p12Item{obj: obj, read: true, desc: "read[" + id.IndexRange + "]", apply: func(s string, v any) (string, bool) { return s, sub(s, lo, hi) == p12Show(v) }}
	}
	arr := func(n int) []int32 {
		l := make([]int32, n)
		for j := range l {
			l[j] = int32(x.uniq())
		}
		return l
	}
	wr := func(obj string, lo, hi int) (ua.WriteValue, p12Item) {
		q := ua.WriteValue{NodeID: nid(obj), AttributeID: ua.AttributeIDValue}
		switch {
		case obj[0] == 'R':
			v := x.uniq()
			q.Value.Value = v
			return q, p12Item{obj: obj, desc: fmt.Sprintf("write %d", v), apply: func(string, any) (string, bool) { return p12Show(v), true }}
		case lo < 0:
			v := arr(p12Len)
			q.Value.Value = v
			sv := p12Show(v)
			return q, p12Item{obj: obj, desc: "write " + sv, apply: func(string, any) (string, bool) { return sv, true }}
		}
		v := arr(hi - lo + 1)
		q.Value.Value = append([]int32{}, v...)
		q.IndexRange = rng(lo, hi)
		return q, p12Item{obj: obj, desc: fmt.Sprintf("write[%s] %s", q.IndexRange, p12Show(v)), apply: func(s string, _ any) (string, bool) { return splice(s, lo, hi, v), true }}
	}
	ts := func(o Op) ua.TimestampsToReturn {
		return []ua.TimestampsToReturn{ua.TimestampsToReturnBoth, ua.TimestampsToReturnSource, ua.TimestampsToReturnServer, ua.TimestampsToReturnNeither}[o.Arg(3)%4]
	}
	for _, o := range ops {
		o.Sleep()
		lo, hi, i := int(o.Arg(0)), int(o.Arg(1)), o.Arg(2)
		R, A := fmt.Sprintf("R%d", i), fmt.Sprintf("A%d", i)
		rc, isRaw := c.(*raw.Client)
		w.Count(o.K)
		switch o.K {
		case "cut":
			if isRaw {
				rc.Link.Cut()
				hurt = true
			}
		case "cutafter":
			if isRaw {
				rc.Link.CutAfter(int(o.Arg(1))&1, o.Arg(0))
				hurt = true
			}
		case "stall":
			if isRaw {
				rc.Link.Stall(int(o.Arg(1)) & 1)
				go func() {
					time.Sleep(time.Duration(o.Arg(0)) * 10 * time.Microsecond)
					rc.Link.Unstall(int(o.Arg(1)) & 1)
				}()
			}
		case "w", "aw", "aW", "mw", "sw":
			req := &ua.WriteRequest{}
			var items []p12Item
			add := func(q ua.WriteValue, it p12Item) {
				req.NodesToWrite = append(req.NodesToWrite, q)
				items = append(items, it)
			}
			switch o.K {
			case "w":
				add(wr(R, 0, 0))
			case "aw":
				add(wr(A, lo, hi))
			case "aW":
				add(wr(A, -1, 0))
			case "mw":
				add(wr("R0", 0, 0))
				add(wr("A0", lo, lo))
				add(wr("R1", 0, 0))
				add(wr("A0", hi, hi))
				add(wr("R0", 0, 0))
			case "sw":
				ch := string(rune('A' + x.uniq()%26))
				add(ua.WriteValue{NodeID: nid("S0"), AttributeID: ua.AttributeIDValue, IndexRange: strconv.Itoa(lo), Value: ua.DataValue{Value: ch}},
					p12Item{obj: "S0", desc: fmt.Sprintf("write[%d] %s", lo, ch), apply: func(s string, _ any) (string, bool) {
						l := []rune(s)
						l[lo] = []rune(ch)[0]
						return string(l), true
					}})
			}
			do(req, items)
		case "r", "ar", "mr", "sr":
			req := &ua.ReadRequest{TimestampsToReturn: ts(o)}
			var items []p12Item
			add := func(q ua.ReadValueID, it p12Item) {
				req.NodesToRead = append(req.NodesToRead, q)
				items = append(items, it)
			}
			switch o.K {
			case "r":
				add(read(R, -1, 0))
			case "ar":
				if o.Arg(3)%2 == 0 {
					lo = -1
				}
				add(read(A, lo, hi))
			case "mr":
				add(read("R0", -1, 0))
				add(read("A0", lo, hi))
				add(read("R1", -1, 0))
				add(read("A0", -1, 0))
				add(read("A1", -1, 0))
			case "sr":
				add(ua.ReadValueID{NodeID: nid("S0"), AttributeID: ua.AttributeIDValue, IndexRange: strconv.Itoa(lo)},
					p12Item{obj: "S0", read: true, desc: fmt.Sprintf("read[%d]", lo), apply: func(s string, v any) (string, bool) {
						return s, v == string([]rune(s)[lo])
					}})
			}
			do(req, items)
		case "bad":
			do(&ua.WriteRequest{NodesToWrite: []ua.WriteValue{
				{NodeID: nid(R), AttributeID: ua.AttributeIDValue, Value: ua.DataValue{Value: int32(5)}},
				{NodeID: nid("A0"), AttributeID: ua.AttributeIDValue, IndexRange: rng(lo, hi), Value: ua.DataValue{Value: []float32{3}}},
				{NodeID: nid("A1"), AttributeID: ua.AttributeIDValue, IndexRange: rng(lo, hi), Value: ua.DataValue{Value: make([]float32, hi-lo+1)}},
				{NodeID: nid("A0"), AttributeID: ua.AttributeIDValue, Value: ua.DataValue{Value: int32(7)}},
			}}, []p12Item{{desc: "write of another type", code: ua.BadTypeMismatch}, {desc: "range write of another type", code: ua.BadTypeMismatch},
				{desc: "range write of another element type", code: 1}, {desc: "write of a scalar", code: ua.BadTypeMismatch}})
		case "oob":
			do(&ua.WriteRequest{NodesToWrite: []ua.WriteValue{
				{NodeID: nid(A), AttributeID: ua.AttributeIDValue, IndexRange: "8:9", Value: ua.DataValue{Value: []int32{1, 2}}},
				{NodeID: nid(A), AttributeID: ua.AttributeIDValue, IndexRange: "0:2", Value: ua.DataValue{Value: []int32{1, 2}}},
				{NodeID: nid(A), AttributeID: ua.AttributeIDValue, IndexRange: "6:9", Value: ua.DataValue{Value: []int32{1, 2, 3, 4}}},
				{NodeID: nid(A), AttributeID: ua.AttributeIDValue, IndexRange: []string{"5:2", "-1", "a", "1:", ":1", "1:1", "1:2:3"}[o.Arg(3)%7], Value: ua.DataValue{Value: []int32{9}}},
			}}, []p12Item{{desc: "write beyond the end", code: 1}, {desc: "write of the wrong length", code: 1}, {desc: "write across the end", code: 1}, {desc: "write of an invalid range", code: 1}})
			do(&ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: []ua.ReadValueID{
				{NodeID: nid(A), AttributeID: ua.AttributeIDValue, IndexRange: "8"},
				{NodeID: nid(A), AttributeID: ua.AttributeIDValue, IndexRange: []string{"5:2", "-1", "a", "1:", ":1", "1:1", "1:2:3"}[o.Arg(3)%7]},
			}}, []p12Item{{desc: "read beyond the end", code: 1, read: true}, {desc: "read of an invalid range", code: 1, read: true}})
		case "nil":
			do(&ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: nid(A), AttributeID: ua.AttributeIDValue, IndexRange: rng(lo, hi)}}},
				[]p12Item{{desc: "range write of null", code: 1}})
		case "typed", "tset":
			k := int(o.Arg(3)) % p12Types
			v, _, _ := p12Typed(k, o.Arg(3)/7%100000)
			n := fmt.Sprintf("T%d_%d", a, k)
			want, _, _ := p12Typed(k, o.Arg(3)/7%100000)
			if o.K == "tset" {
				x.vars[n].SetValue(ua.NewDataValue(v, ua.Good, time.Now(), 0, time.Now(), 0))
			} else {
				q := writeReq(n, v, "")
				ok := false
				do(q, []p12Item{{desc: fmt.Sprintf("write %T %v", v, v)}})
				ok = p12Equal(x.vars[n].Value().Value, want)
				if !ok && !hurt && !p12Hurt(w) {
					w.Fail("fidelity", "client %d wrote %T %v to %s; the server holds %T %v", a, want, want, n, x.vars[n].Value().Value, x.vars[n].Value().Value)
				}
			}
			r, err := c.Do(readVal(n), longWait)
			if err != nil {
				if !hurt {
					w.Fail("no-answer", "client %d: read failed without a fault: %v", a, err)
				}
				c.Disconnect()
				hurt = false
				c = s.MustOpen(false, o0)
				continue
			}
			rr, ok := r.(*ua.ReadResponse)
			if !ok || len(rr.Results) != 1 {
				w.Fail("wrong-response", "client %d: %s", a, sr(r, err))
			}
			if cur := x.vars[n].Value().Value; !p12Equal(rr.Results[0].Value, cur) {
				w.Fail("fidelity", "client %d read %T %v from %s; the server holds %T %v", a, rr.Results[0].Value, rr.Results[0].Value, n, cur, cur)
			}
			w.State("typed", k)
		case "trange":
			if !x.trange(a, c, o, model) {
				if !hurt {
					w.Fail("no-answer", "client %d: range request failed without a fault\n%s", a, Stacks())
				}
				c.Disconnect()
				hurt = false
				c = s.MustOpen(false, o0)
			}
		case "pipe":
			// several requests without waiting: the later ones see the earlier
			if !isRaw {
				continue
			}
			type fl struct {
				p  *raw.Pending
				it p12Item
				t  int64
			}
			var l []fl
			for j := 0; j < 4; j++ {
				if j%2 == 0 {
					q, it := wr(R, 0, 0)
					l = append(l, fl{nil, it, x.lin.Tick()})
					l[j].p = rc.Start(&ua.WriteRequest{NodesToWrite: []ua.WriteValue{q}})
				} else {
					q, it := read(R, -1, 0)
					l = append(l, fl{nil, it, x.lin.Tick()})
					l[j].p = rc.Start(&ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: []ua.ReadValueID{q}})
				}
			}
			for _, f := range l {
				f := f
				r, err := f.p.Wait(longWait)
				ret := x.lin.Tick()
				if err != nil {
					if !hurt {
						w.Fail("no-answer", "client %d: pipelined request failed without a fault: %v\n%s", a, err, Stacks())
					}
					if !f.it.read {
						x.lin.Add(f.it.obj, &LinOp{Call: f.t, Ret: 1 << 62, Desc: f.it.desc + " (unanswered)", Maybe: true, Apply: func(s string) (string, bool) { return f.it.apply(s, nil) }})
					}
					continue
				}
				var v any
				switch rr := r.(type) {
				case *ua.ReadResponse:
					if len(rr.Results) != 1 || rr.Results[0].StatusCode != ua.Good {
						w.Fail("status", "client %d: pipelined read: %v", a, rr.Results)
					}
					v = rr.Results[0].Value
				case *ua.WriteResponse:
					if len(rr.Results) != 1 || rr.Results[0] != ua.Good {
						w.Fail("status", "client %d: pipelined write: %v", a, rr.Results)
					}
				default:
					w.Fail("wrong-response", "client %d: %s", a, sr(r, err))
				}
				x.lin.Add(f.it.obj, &LinOp{Call: f.t, Ret: ret, Desc: fmt.Sprintf("c%d pipelined %s %v", a, f.it.desc, v), Apply: func(s string) (string, bool) { return f.it.apply(s, v) }})
			}
			if rc.Err() != nil {
				c.Disconnect()
				hurt = false
				c = s.MustOpen(false, o0)
			}
		}
	}
	c.Disconnect()
}

// p12Hurt reports whether the plan cuts connections at all.
func p12Hurt(w *World) bool {
	for _, o := range w.Plan.Ops {
		if o.K == "cut" || o.K == "cutafter" {
			return true
		}
	}
	return false
}
