package scen

import (
	"encoding/binary"
	"math"
	"reflect"
	"time"

	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"

	"opcuasim/raw"
	"opcuasim/simnet"
)

// fuzzer makes well-formed but hostile requests, and breaks encoded ones.
type fuzzer struct {
	Gen
	nodes []ua.NodeID
	subs  []uint32
	items []uint32
	cps   []ua.ByteString
	toks  []ua.NodeID
	nreal int64
}

func newFuzzer(seed int64) *fuzzer {
	return &fuzzer{Gen: Gen{simnet.NewRand(uint64(seed)*0x9E3779B97F4A7C15 + 77)}}
}

var fuzzStrings = []string{"", "a", "0", "1", "0:1", "1:0", "-1", "2:3", "0:99", "0:1,0:1", "1:", ":1", "4294967295", "99999999999", "0:4294967295", "\x00", "Anonymous", "opc.tcp://x", "urn:x", "en-US", "i=85", "ns=2;s=V0", "value", "Server", "\xff\xfe", "http://opcfoundation.org/UA/SecurityPolicy#None", "http://opcfoundation.org/UA/SecurityPolicy#Basic256Sha256"}

var fuzzRequests = []func() ua.ServiceRequest{
	func() ua.ServiceRequest { return new(ua.ReadRequest) },
	func() ua.ServiceRequest { return new(ua.WriteRequest) },
	func() ua.ServiceRequest { return new(ua.BrowseRequest) },
	func() ua.ServiceRequest { return new(ua.BrowseNextRequest) },
	func() ua.ServiceRequest { return new(ua.TranslateBrowsePathsToNodeIDsRequest) },
	func() ua.ServiceRequest { return new(ua.CallRequest) },
	func() ua.ServiceRequest { return new(ua.HistoryReadRequest) },
	func() ua.ServiceRequest { return new(ua.CreateMonitoredItemsRequest) },
	func() ua.ServiceRequest { return new(ua.CreateMonitoredItemsRequest) },
	func() ua.ServiceRequest { return new(ua.CreateMonitoredItemsRequest) },
	func() ua.ServiceRequest { return new(ua.ModifyMonitoredItemsRequest) },
	func() ua.ServiceRequest { return new(ua.SetMonitoringModeRequest) },
	func() ua.ServiceRequest { return new(ua.SetTriggeringRequest) },
	func() ua.ServiceRequest { return new(ua.SetTriggeringRequest) },
	func() ua.ServiceRequest { return new(ua.DeleteMonitoredItemsRequest) },
	func() ua.ServiceRequest { return new(ua.CreateSubscriptionRequest) },
	func() ua.ServiceRequest { return new(ua.ModifySubscriptionRequest) },
	func() ua.ServiceRequest { return new(ua.SetPublishingModeRequest) },
	func() ua.ServiceRequest { return new(ua.PublishRequest) },
	func() ua.ServiceRequest { return new(ua.PublishRequest) },
	func() ua.ServiceRequest { return new(ua.RepublishRequest) },
	func() ua.ServiceRequest { return new(ua.DeleteSubscriptionsRequest) },
	func() ua.ServiceRequest { return new(ua.RegisterNodesRequest) },
	func() ua.ServiceRequest { return new(ua.UnregisterNodesRequest) },
	func() ua.ServiceRequest { return new(ua.GetEndpointsRequest) },
	func() ua.ServiceRequest { return new(ua.FindServersRequest) },
	func() ua.ServiceRequest { return new(ua.CancelRequest) },
	func() ua.ServiceRequest { return new(ua.TransferSubscriptionsRequest) },
	func() ua.ServiceRequest { return new(ua.HistoryUpdateRequest) },
	func() ua.ServiceRequest { return new(ua.AddNodesRequest) },
	func() ua.ServiceRequest { return new(ua.AddReferencesRequest) },
	func() ua.ServiceRequest { return new(ua.DeleteNodesRequest) },
	func() ua.ServiceRequest { return new(ua.DeleteReferencesRequest) },
	func() ua.ServiceRequest { return new(ua.QueryFirstRequest) },
	func() ua.ServiceRequest { return new(ua.QueryNextRequest) },
	func() ua.ServiceRequest { return new(ua.FindServersOnNetworkRequest) },
	func() ua.ServiceRequest { return new(ua.RegisterServerRequest) },
	func() ua.ServiceRequest { return new(ua.RegisterServer2Request) },
}

// fuzzSession are requests about sessions.
var fuzzSession = []func() ua.ServiceRequest{
	func() ua.ServiceRequest { return new(ua.CreateSessionRequest) },
	func() ua.ServiceRequest { return new(ua.ActivateSessionRequest) },
	func() ua.ServiceRequest { return new(ua.ActivateSessionRequest) },
	func() ua.ServiceRequest { return new(ua.CloseSessionRequest) },
}

func (f *fuzzer) request() ua.ServiceRequest {
	l := fuzzRequests
	if f.P(12) {
		l = fuzzSession
	}
	r := l[f.N(len(l))]()
	f.fill(reflect.ValueOf(r).Elem(), 0)
	h := r.Header()
	*h = ua.RequestHeader{TimeoutHint: uint32(f.Pick(0, 1, 5000, 60000, math.MaxUint32)), ReturnDiagnostics: uint32(f.Pick(0, 0xffffffff))}
	if f.P(3) {
		h.Timestamp = time.Unix(0, int64(f.U64()))
	}
	return r
}

var (
	tNodeID   = reflect.TypeOf((*ua.NodeID)(nil)).Elem()
	tTime     = reflect.TypeOf(time.Time{})
	tGUID     = reflect.TypeOf(uuid.UUID{})
	tByteStr  = reflect.TypeOf(ua.ByteString(""))
	tQName    = reflect.TypeOf(ua.QualifiedName{})
	tStatus   = reflect.TypeOf(ua.StatusCode(0))
	tContent  = reflect.TypeOf(ua.ContentFilter{})
	tReqHdr   = reflect.TypeOf(ua.RequestHeader{})
	tDiag     = reflect.TypeOf(ua.DiagnosticInfo{})
	tReadID   = reflect.TypeOf(ua.ReadValueID{})
	fuzzAttrs = []uint32{1, 2, 3, 4, 5, 6, 8, 12, 13, 13, 13, 13, 14, 15, 16, 17, 18, 22, 24, 27, 0, 99, math.MaxUint32}
)

func (f *fuzzer) nodeID() ua.NodeID {
	switch f.N(10) {
	case 0:
		return nil
	case 1:
		return ua.NodeIDNumeric{NamespaceIndex: uint16(f.Pick(0, 1, 2, 3, 65535)), ID: uint32(f.U64() % 13000)}
	case 2:
		return ua.NodeIDString{NamespaceIndex: uint16(f.Pick(0, 2, 2, 9)), ID: fuzzStrings[f.N(len(fuzzStrings))]}
	case 3:
		if f.P(50) {
			return ua.NodeIDGUID{NamespaceIndex: 1}
		}
		return ua.NodeIDOpaque{NamespaceIndex: 1, ID: "x"}
	case 4:
		if len(f.toks) > 0 {
			return f.toks[f.N(len(f.toks))]
		}
	}
	if len(f.nodes) == 0 {
		return ua.ObjectIDServer
	}
	return f.nodes[f.N(len(f.nodes))]
}

func (f *fuzzer) bytes() ua.ByteString {
	switch f.N(8) {
	case 0:
		return ""
	case 1, 2:
		b := make([]byte, f.Pick(1, 2, 3, 4, 5, 8, 16, 32, 40))
		for i := range b {
			b[i] = byte(f.U64())
		}
		if f.P(40) {
			for i := range b {
				b[i] = 0
			}
			b[0] = byte(f.Range(1, 12))
		}
		return ua.ByteString(b)
	case 3:
		return ua.ByteString(ident("eccert").Cert)
	case 4:
		return ua.ByteString(ident([]string{"client1", "client2", "user1", "rogue", "server"}[f.N(5)]).Cert)
	case 5:
		b := append([]byte{}, ident("client1").Cert...)
		if len(b) == 0 {
			return ""
		}
		b[f.N(len(b))] ^= byte(1 + f.N(255))
		return ua.ByteString(b)
	case 6:
		if len(f.cps) > 0 {
			return f.cps[f.N(len(f.cps))]
		}
	}
	return ua.ByteString("0123456789abcdef0123456789abcdef")
}

func (f *fuzzer) u64() uint64 {
	return []uint64{0, 1, 2, 3, 5, 10, 100, 1000, 65535, 65536, math.MaxInt32, math.MaxUint32, math.MaxInt64, math.MaxUint64, 1 << 31, uint64(f.U64())}[f.N(16)]
}

func (f *fuzzer) float() float64 {
	return []float64{0, 1, -1, 100, 250, 1000, 1e9, 1e300, math.NaN(), math.Inf(1), math.Inf(-1), 0.001}[f.N(12)]
}

// variant makes a value of any type.
func (f *fuzzer) variant(depth int) ua.Variant {
	if depth > 3 {
		return int32(1)
	}
	n := int(f.Pick(0, 1, 2, 3))
	switch f.N(26) {
	case 0:
		return nil
	case 1:
		return f.P(50)
	case 2:
		return int8(f.u64())
	case 3:
		return byte(f.u64())
	case 4:
		return int32(f.u64())
	case 5:
		return f.u64()
	case 6:
		return f.float()
	case 7:
		return fuzzStrings[f.N(len(fuzzStrings))]
	case 8:
		return time.Unix(int64(f.u64()%(1<<40)), 0)
	case 9:
		return f.bytes()
	case 10:
		if i := f.nodeID(); i != nil {
			return i
		}
		return nil
	case 11:
		return ua.StatusCode(f.u64())
	case 12:
		return ua.QualifiedName{NamespaceIndex: uint16(f.u64()), Name: "x"}
	case 13:
		return ua.LocalizedText{Text: "t"}
	case 14:
		return f.ext(depth + 1)
	case 15:
		return ua.NewDataValue(f.variant(depth+1), 0, time.Now(), 0, time.Now(), 0)
	case 16:
		l := []ua.Variant{}
		for i := 0; i < n; i++ {
			l = append(l, f.variant(depth+1))
		}
		return l
	case 17:
		l := []int32{}
		for i := 0; i < n; i++ {
			l = append(l, int32(i))
		}
		return l
	case 18:
		return []string{"a", "b"}[:n%3]
	case 19:
		return [][]int32{{1, 2}, {3, 4}}
	case 20:
		return []ua.ExtensionObject{f.ext(depth + 1), f.ext(depth + 1)}
	case 21:
		return []bool{true, false}
	case 22:
		return int64(f.u64())
	case 23:
		return float32(f.float())
	case 24:
		return ua.NewExpandedNodeID(ua.ObjectIDServer)
	}
	return []float64{1, math.NaN()}
}

func (f *fuzzer) ext(depth int) ua.ExtensionObject {
	var p any
	switch f.N(18) {
	case 0:
		return nil
	case 1, 2:
		p = new(ua.DataChangeFilter)
	case 3, 4, 5, 6:
		p = new(ua.EventFilter)
	case 7:
		p = new(ua.ReadRawModifiedDetails)
	case 8:
		p = new(ua.ReadEventDetails)
	case 9:
		p = new(ua.ReadProcessedDetails)
	case 10:
		p = new(ua.ReadAtTimeDetails)
	case 11:
		return ua.AnonymousIdentityToken{PolicyID: []string{"Anonymous", "", "x"}[f.N(3)]}
	case 12:
		p = new(ua.UserNameIdentityToken)
	case 13:
		p = new(ua.X509IdentityToken)
	case 14:
		p = new(ua.IssuedIdentityToken)
	case 15:
		p = new(ua.AggregateFilter)
	case 16:
		p = new(ua.Argument)
	default:
		p = new(ua.EUInformation)
	}
	f.fill(reflect.ValueOf(p).Elem(), depth+1)
	return reflect.ValueOf(p).Elem().Interface()
}

func (f *fuzzer) content() ua.ContentFilter {
	var c ua.ContentFilter
	n := int(f.Pick(0, 1, 1, 2, 3, 5))
	for i := 0; i < n; i++ {
		e := ua.ContentFilterElement{FilterOperator: ua.FilterOperator(f.Pick(0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 99))}
		k := int(f.Pick(0, 1, 2, 2, 2, 3))
		for j := 0; j < k; j++ {
			var o ua.ExtensionObject
			switch f.N(7) {
			case 0:
				o = nil
			case 1, 2:
				o = ua.LiteralOperand{Value: f.variant(2)}
			case 3, 4:
				o = ua.SimpleAttributeOperand{TypeDefinitionID: ua.ObjectTypeIDBaseEventType, BrowsePath: ua.ParseBrowsePath([]string{"Severity", "EventType", "SourceNode", "Message", "Nope"}[f.N(5)]), AttributeID: ua.AttributeIDValue}
			case 5:
				o = ua.ElementOperand{Index: uint32(f.Pick(0, 0, 1, 2, int64(i), int64(i)+1, math.MaxUint32, math.MaxInt32))}
			case 6:
				o = ua.AttributeOperand{NodeID: f.nodeID()}
			}
			e.FilterOperands = append(e.FilterOperands, o)
		}
		c.Elements = append(c.Elements, e)
	}
	return c
}

func (f *fuzzer) fill(v reflect.Value, depth int) {
	t := v.Type()
	switch t {
	case tNodeID:
		if n := f.nodeID(); n != nil {
			v.Set(reflect.ValueOf(n))
		}
		return
	case tTime:
		v.Set(reflect.ValueOf([]time.Time{{}, time.Now(), time.Now().Add(-time.Hour), time.Now().Add(time.Hour), time.Unix(1<<40, 0)}[f.N(5)]))
		return
	case tGUID:
		return
	case tByteStr:
		v.Set(reflect.ValueOf(f.bytes()))
		return
	case tQName:
		v.Set(reflect.ValueOf([]ua.QualifiedName{{}, {Name: "Server"}, {NamespaceIndex: 2, Name: "V0"}, {Name: "Default XML"}, {NamespaceIndex: 65535, Name: "x"}, {Name: "Objects"}}[f.N(6)]))
		return
	case tContent:
		v.Set(reflect.ValueOf(f.content()))
		return
	case tReqHdr, tDiag:
		return
	case tStatus:
		v.SetUint(f.u64() & 0xffffffff)
		return
	case tReadID:
		r := ua.ReadValueID{NodeID: f.nodeID(), AttributeID: fuzzAttrs[f.N(len(fuzzAttrs))]}
		if f.P(25) {
			r.IndexRange = fuzzStrings[f.N(len(fuzzStrings))]
		}
		if f.P(15) {
			r.DataEncoding = ua.QualifiedName{Name: []string{"Default Binary", "x"}[f.N(2)]}
		}
		v.Set(reflect.ValueOf(r))
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(f.P(50))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		x := int64(f.u64())
		if f.P(60) {
			x = f.Range(0, 4)
		}
		v.SetInt(x)
	case reflect.Uint32:
		switch {
		case f.P(40) && len(f.subs) > 0:
			v.SetUint(uint64(f.subs[f.N(len(f.subs))]))
		case f.P(40) && len(f.items) > 0:
			v.SetUint(uint64(f.items[f.N(len(f.items))]))
		default:
			v.SetUint(uint64(uint32(f.u64())))
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint64, reflect.Uint:
		v.SetUint(f.u64())
	case reflect.Float32, reflect.Float64:
		v.SetFloat(f.float())
	case reflect.String:
		v.SetString(fuzzStrings[f.N(len(fuzzStrings))])
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if v.Field(i).CanSet() {
				f.fill(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		n := int(f.Pick(0, 1, 1, 2, 3))
		if depth <= 1 {
			n = int(f.Pick(0, 1, 1, 2, 5))
		}
		if depth > 5 {
			n = 0
		}
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			f.fill(s.Index(i), depth+1)
		}
		if n > 0 || f.P(50) {
			v.Set(s)
		}
	case reflect.Interface:
		var x any
		if f.P(50) {
			x = f.ext(depth + 1)
		} else {
			x = f.variant(2)
		}
		if x != nil && reflect.TypeOf(x).AssignableTo(t) {
			v.Set(reflect.ValueOf(x))
		}
	}
}

// ints are the lengths and counts that break things.
var fuzzInts = []uint32{0, 1, 2, 7, 8, 255, 256, 4096, 4097, 65535, 65536, 1 << 20, 0x7fffffff, 0x7ffffffe, 0x40000000, 0x10000000, 0x80000000, 0xffffffff, 0xfffffffe}

// mutate breaks encoded bytes from offset lo on.
func (f *fuzzer) mutate(b []byte, lo int) []byte {
	b = append([]byte{}, b...)
	if lo >= len(b) {
		lo = 0
	}
	if len(b) == 0 {
		return b
	}
	for n := int(f.Pick(1, 1, 1, 2, 4)); n > 0; n-- {
		if lo >= len(b) {
			return b
		}
		i := lo + f.N(len(b)-lo)
		switch f.N(8) {
		case 0:
			b[i] ^= 1 << f.N(8)
		case 1:
			b[i] = byte(f.U64())
		case 2, 3, 4:
			if i+4 <= len(b) {
				binary.LittleEndian.PutUint32(b[i:], fuzzInts[f.N(len(fuzzInts))])
			}
		case 5:
			b = b[:i]
		case 6:
			b = append(b, b[i:min(len(b), i+f.N(40))]...)
		case 7:
			j := min(len(b), i+1+f.N(8))
			b = append(b[:i:i], b[j:]...)
		}
	}
	return b
}

// note remembers identifiers the server gave out.
func (f *fuzzer) note(r any) {
	switch r := r.(type) {
	case *ua.CreateSubscriptionResponse:
		f.subs = append(f.subs, r.SubscriptionID)
	case *ua.CreateMonitoredItemsResponse:
		for _, x := range r.Results {
			if x.StatusCode == ua.Good {
				f.items = append(f.items, x.MonitoredItemID)
			}
		}
	case *ua.BrowseResponse:
		for _, x := range r.Results {
			if x.ContinuationPoint != "" {
				f.cps = append(f.cps, x.ContinuationPoint)
			}
		}
	}
}

// deep makes a variant nested n times, by hand.
func deepVariant(kind int, n int) []byte {
	var b []byte
	switch kind {
	case 0: // variants in variants
		for i := 0; i < n; i++ {
			b = append(b, 0x98, 1, 0, 0, 0) // array of one Variant
		}
		b = append(b, 1, 1)
	case 1: // diagnostic infos
		b = append(b, 25)
		for i := 0; i < n; i++ {
			b = append(b, 0x40)
		}
		b = append(b, 0)
	case 2: // data values
		for i := 0; i < n; i++ {
			b = append(b, 23, 1)
		}
		b = append(b, 1, 1)
	}
	return b
}

// rawWrite is the body of a WriteRequest whose value is given in encoded form.
func (f *fuzzer) rawWrite(ec ua.EncodingContext, tok ua.NodeID, id ua.NodeID, val []byte) []byte {
	q := &ua.WriteRequest{RequestHeader: ua.RequestHeader{AuthenticationToken: tok, Timestamp: time.Now(), TimeoutHint: 10000},
		NodesToWrite: []ua.WriteValue{{NodeID: id, AttributeID: ua.AttributeIDValue, Value: ua.DataValue{Value: int64(0x1122334455667788)}}}}
	b, err := raw.Encode(ec, q)
	if err != nil {
		return nil
	}
	mark := []byte{8, 0x88, 0x77, 0x66, 0x55, 0x44, 0x33, 0x22, 0x11}
	for i := len(b) - len(mark); i >= 0; i-- {
		if string(b[i:i+len(mark)]) == string(mark) {
			return append(append(append([]byte{}, b[:i]...), val...), b[i+len(mark):]...)
		}
	}
	return nil
}

func (f *fuzzer) fillReq(r ua.ServiceRequest) {
	f.fill(reflect.ValueOf(r).Elem(), 0)
	*r.Header() = ua.RequestHeader{TimeoutHint: 10000}
}
