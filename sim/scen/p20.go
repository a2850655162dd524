package scen

import (
	"crypto/sha1"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"

	"opcuasim/raw"
)

// P20: an operation on a node succeeds exactly when the roles of the session's
// user give the permission for it; a refused one has no effect and shows nothing.
func init() { register(&Scenario{Prop: "P20", Gen: genP20, Run: runP20}) }

const (
	p20vars  = 6
	p20meths = 3
	p20objs  = 3
)

var p20roles = []ua.NodeID{ua.ObjectIDWellKnownRoleAnonymous, ua.ObjectIDWellKnownRoleAuthenticatedUser, ua.ObjectIDWellKnownRoleObserver, ua.ObjectIDWellKnownRoleOperator,
	ua.ObjectIDWellKnownRoleEngineer, ua.ObjectIDWellKnownRoleSupervisor}

var p20users = []string{"anon", "root", "user1", "user2", "x509", "Root", "user", "user10"}

const p20bits = ua.PermissionTypeBrowse | ua.PermissionTypeReadRolePermissions | ua.PermissionTypeWriteHistorizing | ua.PermissionTypeRead | ua.PermissionTypeWrite |
	ua.PermissionTypeReadHistory | ua.PermissionTypeReceiveEvents | ua.PermissionTypeCall

func genP20(g Gen, p *Plan) {
	nc := int(g.Range(1, 3))
	p.P["clients"] = int64(nc)
	p.P["workers"] = g.Pick(1, 2, 4)
	p.P["rules"] = g.Pick(0, 1, 1)
	p.P["hist"] = g.Pick(0, 1)
	for i := 0; i < p20vars+p20meths+p20objs; i++ {
		p.P[fmt.Sprintf("nil%d", i)] = g.Pick(0, 0, 0, 0, 1) // server's default permissions
		mask := int64(g.U64()) & int64(g.U64()|g.U64())
		for r := range p20roles {
			p.P[fmt.Sprintf("perm%d_%d", i, r)] = 0
			if g.P(60) {
				v := (mask ^ int64(g.U64()&g.U64())) & int64(p20bits)
				if g.P(70) {
					v |= int64(ua.PermissionTypeBrowse)
				}
				p.P[fmt.Sprintf("perm%d_%d", i, r)] = v
			}
		}
		p.P[fmt.Sprintf("acc%d", i)] = g.Pick(7, 7, 7, 3, 1, 2, 5, 4)
		p.P[fmt.Sprintf("exec%d", i)] = g.Pick(1, 1, 1, 0)
	}
	for a := 0; a < nc; a++ {
		p.P[fmt.Sprintf("sec%d", a)] = g.Pick(0, 0, 0, int64(g.N(len(secs))))
		p.P[fmt.Sprintf("user%d", a)] = int64(g.N(len(p20users)))
	}
	n := int(g.Range(20, 60))
	if p.Tier == "thorough" {
		n = int(g.Range(30, 150))
	}
	kinds := []string{"read", "read", "attr", "perms", "level", "exec", "write", "write", "hist", "hist", "historizing", "call", "call", "browse", "browse", "translate", "item", "event", "user", "user", "watch"}
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{A: g.N(nc), D: g.Pick(0, 0, 0, 1000, 100000), K: kinds[g.N(len(kinds))],
			I: []int64{int64(g.U64() % 1000000), int64(g.U64() % 1000), int64(g.U64() % 1000)}})
	}
}

type p20 struct {
	w    *World
	s    *Srv
	mu   sync.Mutex
	n    int64
	bad  map[int64]string // values that must not be written
	vars []*server.VariableNode
	hist *simHist
}

// roles of a user by the rules in force.
func (x *p20) roles(user string) map[ua.NodeID]bool {
	m := map[ua.NodeID]bool{}
	if user == "anon" {
		m[ua.ObjectIDWellKnownRoleAnonymous] = true
	} else {
		m[ua.ObjectIDWellKnownRoleAuthenticatedUser] = true
		m[ua.ObjectIDWellKnownRoleObserver] = true
		m[ua.ObjectIDWellKnownRoleOperator] = true
	}
	if x.w.P("rules") == 1 {
		delete(m, ua.ObjectIDWellKnownRoleOperator)
		switch user {
		case "root":
			m[ua.ObjectIDWellKnownRoleEngineer] = true
		case "user1", "user10":
			m[ua.ObjectIDWellKnownRoleOperator] = true
		case "x509":
			m[ua.ObjectIDWellKnownRoleSupervisor] = true
		}
	}
	return m
}

func (x *p20) rules() server.RolesProvider {
	ids := func(l ...ua.IdentityMappingRuleType) []ua.IdentityMappingRuleType { return l }
	any := ids(ua.IdentityMappingRuleType{CriteriaType: ua.IdentityCriteriaTypeAuthenticatedUser})
	name := func(s string) ua.IdentityMappingRuleType {
		return ua.IdentityMappingRuleType{CriteriaType: ua.IdentityCriteriaTypeUserName, Criteria: s}
	}
	thumb := fmt.Sprintf("%x", sha1.Sum(ident("user1").Cert))
	return server.NewRulesBasedRolesProvider([]server.IdentityMappingRule{
		{NodeID: ua.ObjectIDWellKnownRoleAnonymous, Identities: ids(ua.IdentityMappingRuleType{CriteriaType: ua.IdentityCriteriaTypeAnonymous}), ApplicationsExclude: true, EndpointsExclude: true},
		// for nobody here
		{NodeID: ua.ObjectIDWellKnownRoleSecurityAdmin, Identities: any, Applications: []string{"urn:elsewhere"}, EndpointsExclude: true},
		{NodeID: ua.ObjectIDWellKnownRoleAuthenticatedUser, Identities: any, ApplicationsExclude: true, EndpointsExclude: true},
		{NodeID: ua.ObjectIDWellKnownRoleObserver, Identities: any, ApplicationsExclude: true, EndpointsExclude: true},
		{NodeID: ua.ObjectIDWellKnownRoleOperator, Identities: ids(name("user10"), name("user1"), name(thumb), name("anonymous")), ApplicationsExclude: true, EndpointsExclude: true},
		{NodeID: ua.ObjectIDWellKnownRoleEngineer, Identities: ids(name("root"), name("")), Applications: []string{"urn:elsewhere"}, ApplicationsExclude: true, EndpointsExclude: true},
		{NodeID: ua.ObjectIDWellKnownRoleSupervisor, Identities: ids(ua.IdentityMappingRuleType{CriteriaType: ua.IdentityCriteriaTypeThumbprint, Criteria: "user2"}, ua.IdentityMappingRuleType{CriteriaType: ua.IdentityCriteriaTypeThumbprint, Criteria: thumb}), ApplicationsExclude: true, EndpointsExclude: true},
	})
}

func (x *p20) permsOf(i int) []ua.RolePermissionType {
	if x.w.P(fmt.Sprintf("nil%d", i)) == 1 {
		return nil
	}
	l := []ua.RolePermissionType{}
	for r, id := range p20roles {
		if v := x.w.P(fmt.Sprintf("perm%d_%d", i, r)); v != 0 {
			l = append(l, ua.RolePermissionType{RoleID: id, Permissions: ua.PermissionType(v)})
		}
	}
	return l
}

// may: the user has the permission on node i.
func (x *p20) may(user string, i int, p ua.PermissionType) bool {
	l := x.permsOf(i)
	if l == nil {
		l = server.DefaultRolePermissions
	}
	m := x.roles(user)
	for _, rp := range l {
		if m[rp.RoleID] && rp.Permissions&p != 0 {
			return true
		}
	}
	return false
}

func p20name(i int) string {
	switch {
	case i < p20vars:
		return fmt.Sprintf("V%d", i)
	case i < p20vars+p20meths:
		return fmt.Sprintf("M%d", i-p20vars)
	}
	return fmt.Sprintf("O%d", i-p20vars-p20meths)
}

func runP20(w *World) {
	x := &p20{w: w, bad: map[int64]string{}}
	o := SrvOpts{Workers: int(w.P("workers"))}
	if w.P("rules") == 1 {
		o.Extra = append(o.Extra, server.WithRolesProvider(x.rules()))
	}
	x.hist = newSimHist(w)
	o.Historian = x.hist
	s := w.NewServer(o)
	x.s = s
	s.AddObject("PF", "Root", 0)
	for i := 0; i < p20vars+p20meths+p20objs; i++ {
		perms := x.permsOf(i)
		name := p20name(i)
		switch {
		case i < p20vars:
			opt := VarOpts{Parent: "PF", Perms: perms, Access: byte(w.P(fmt.Sprintf("acc%d", i)))}
			if w.P("hist") == 1 && i%2 == 0 {
				opt.Hist = x.hist
			}
			v := s.newVarNilPerms(name, int64(i), opt)
			x.vars = append(x.vars, v)
		case i < p20vars+p20meths:
			i := i
			n := server.NewMethodNode(s.Server, nid(name), ua.NewQualifiedName(2, name), ua.NewLocalizedText(name, "en"), ua.NewLocalizedText("", ""), perms,
				s.refs("PF", ua.ReferenceTypeIDHasComponent, nil), w.P(fmt.Sprintf("exec%d", i)) == 1)
			n.SetCallMethodHandler(func(ss *server.Session, r ua.CallMethodRequest) ua.CallMethodResult {
				u := userName(ss.UserIdentity())
				if !x.may(u, i, ua.PermissionTypeCall) {
					w.Fail("not-permitted", "method %s ran for %s, who has no permission to call it", name, u)
				}
				return ua.CallMethodResult{OutputArguments: []ua.Variant{u}}
			})
			if err := s.NM.AddNode(n); err != nil {
				panic(err)
			}
		default:
			n := server.NewObjectNode(s.Server, nid(name), ua.NewQualifiedName(2, name), ua.NewLocalizedText(name, "en"), ua.NewLocalizedText("", ""), perms,
				s.refs("PF", ua.ReferenceTypeIDHasComponent, ua.ObjectTypeIDBaseObjectType), ua.EventNotifierSubscribeToEvents)
			if err := s.NM.AddNode(n); err != nil {
				panic(err)
			}
		}
	}
	w.StartSched()
	s.Serve()
	w.Actors(int(w.P("clients")), x.client)
	for i, v := range x.vars {
		if n, ok := v.Value().Value.(int64); ok && x.bad[n] != "" {
			w.Fail("not-permitted", "V%d holds the value of a refused write (%s)", i, x.bad[n])
		}
	}
	w.NonTrivial()
}

func (s *Srv) newVarNilPerms(id string, v any, o VarOpts) *server.VariableNode {
	now := time.Now()
	n := server.NewVariableNode(s.Server, nid(id), ua.NewQualifiedName(2, id), ua.NewLocalizedText(id, "en"), ua.NewLocalizedText("", ""), o.Perms,
		s.refs(o.Parent, ua.ReferenceTypeIDHasComponent, ua.VariableTypeIDBaseDataVariableType),
		ua.NewDataValue(v, ua.Good, now, 0, now, 0), ua.DataTypeIDInt64, -1, nil, o.Access, 0, o.Hist != nil, o.Hist)
	if err := s.NM.AddNode(n); err != nil {
		panic(err)
	}
	return n
}

func (x *p20) client(a int, ops []Op) {
	w, s := x.w, x.s
	k := func(f string) int64 { return w.P(fmt.Sprintf(f, a)) }
	user := p20users[k("user%d")]
	c := s.MustConnect(RawOpts{Sec: int(k("sec%d")), User: user, Timeout: 3600000})
	for _, o := range ops {
		o.Sleep()
		w.Count(o.K)
		if o.K == "user" {
			user = p20users[int(o.Arg(0))%len(p20users)]
			if err := c.Activate(s.UserOf(c, user), longWait); err != nil {
				w.Fail("activation-refused", "user %s: %v", user, err)
			}
			continue
		}
		x.step(a, c, user, o)
	}
	c.Do(&ua.CloseSessionRequest{DeleteSubscriptions: true}, longWait)
	c.Disconnect()
}

func (x *p20) must(c *raw.Client, q ua.ServiceRequest) ua.ServiceResponse {
	r, err := c.Do(q, longWait)
	if !good(r, err) {
		x.w.Fail("refused", "%T: %s\n%s", q, sr(r, err), Stacks())
	}
	return r
}

// verdict compares what happened with what the permissions say.
func (x *p20) verdict(user, what string, allowed bool, code ua.StatusCode, hidden bool) {
	bad := uint32(code)&0x80000000 != 0
	if allowed && bad {
		x.w.Fail("denied", "%s may %s but got %v", user, what, code)
	}
	if !allowed && !bad {
		x.w.Fail("not-permitted", "%s may not %s but got %v", user, what, code)
	}
	if hidden && code != ua.BadNodeIDUnknown && code != ua.BadMethodInvalid && code != ua.BadNoMatch {
		x.w.Fail("not-hidden", "%s may not see the node but to %s got %v", user, what, code)
	}
	if allowed {
		x.w.Count("allowed")
	} else {
		x.w.Count("denied")
	}
}

func (x *p20) step(a int, c *raw.Client, user string, o Op) {
	w := x.w
	total := p20vars + p20meths + p20objs
	i := int(o.Arg(0)) % p20vars
	j := int(o.Arg(0)) % total
	m := p20vars + int(o.Arg(0))%p20meths
	acc := byte(w.P(fmt.Sprintf("acc%d", i)))
	see := func(i int) bool { return x.may(user, i, ua.PermissionTypeBrowse) }
	w.State(o.K, user, i, see(i), acc)
	read := func(name string, at uint32) ua.DataValue {
		r := x.must(c, &ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: []ua.ReadValueID{{NodeID: nid(name), AttributeID: at}}}).(*ua.ReadResponse)
		return r.Results[0]
	}
	switch o.K {
	case "read":
		// several at once; each by its own permissions
		var q []ua.ReadValueID
		for n := 0; n < p20vars; n++ {
			q = append(q, ua.ReadValueID{NodeID: nid(p20name((i + n) % p20vars)), AttributeID: ua.AttributeIDValue})
		}
		r := x.must(c, readReq(q...)).(*ua.ReadResponse)
		for n, v := range r.Results {
			k := (i + n) % p20vars
			acc := byte(w.P(fmt.Sprintf("acc%d", k)))
			ok := see(k) && acc&ua.AccessLevelsCurrentRead != 0 && x.may(user, k, ua.PermissionTypeRead)
			x.verdict(user, "read "+p20name(k), ok, v.StatusCode, !see(k))
			if !ok && v.Value != nil {
				w.Fail("not-permitted", "%s may not read %s but got the value %v", user, p20name(k), v.Value)
			}
			if _, isInt := v.Value.(int64); ok && !isInt {
				w.Fail("denied", "%s may read %s but got %v", user, p20name(k), v.Value)
			}
		}
	case "attr":
		v := read(p20name(j), ua.AttributeIDDisplayName)
		x.verdict(user, "read the display name of "+p20name(j), see(j), v.StatusCode, !see(j))
		if !see(j) && v.Value != nil {
			w.Fail("not-permitted", "%s may not see %s but got %v", user, p20name(j), v.Value)
		}
	case "perms":
		v := read(p20name(j), ua.AttributeIDRolePermissions)
		ok := see(j) && x.may(user, j, ua.PermissionTypeReadRolePermissions)
		x.verdict(user, "read the role permissions of "+p20name(j), ok, v.StatusCode, !see(j))
		if !ok && v.Value != nil {
			w.Fail("not-permitted", "%s may not read the role permissions of %s but got %v", user, p20name(j), v.Value)
		}
	case "level":
		v := read(p20name(i), ua.AttributeIDUserAccessLevel)
		if !see(i) {
			x.verdict(user, "read the access level of "+p20name(i), false, v.StatusCode, true)
			return
		}
		want := acc
		if !x.may(user, i, ua.PermissionTypeRead) {
			want &^= ua.AccessLevelsCurrentRead
		}
		if !x.may(user, i, ua.PermissionTypeWrite) {
			want &^= ua.AccessLevelsCurrentWrite
		}
		if !x.may(user, i, ua.PermissionTypeReadHistory) {
			want &^= ua.AccessLevelsHistoryRead
		}
		if v.Value != want {
			w.Fail("user-attribute", "the user access level of %s for %s is %v, want %d", p20name(i), user, v.Value, want)
		}
	case "exec":
		v := read(p20name(m), ua.AttributeIDUserExecutable)
		if !see(m) {
			x.verdict(user, "read the executable flag of "+p20name(m), false, v.StatusCode, true)
			return
		}
		want := w.P(fmt.Sprintf("exec%d", m)) == 1 && x.may(user, m, ua.PermissionTypeCall)
		if v.Value != want {
			w.Fail("user-attribute", "%s is executable for %s: %v, want %v", p20name(m), user, v.Value, want)
		}
	case "write":
		ok := see(i) && acc&ua.AccessLevelsCurrentWrite != 0 && x.may(user, i, ua.PermissionTypeWrite)
		x.mu.Lock()
		x.n++
		v := 1000000 + x.n
		if !ok {
			x.bad[v] = user
		}
		x.mu.Unlock()
		r := x.must(c, writeReq(p20name(i), v, "")).(*ua.WriteResponse)
		x.verdict(user, "write "+p20name(i), ok, r.Results[0], !see(i))
		if n, isInt := x.vars[i].Value().Value.(int64); !ok && isInt && n == v {
			w.Fail("not-permitted", "the refused write of %s to %s took effect", user, p20name(i))
		}
	case "historizing":
		if w.P("hist") == 0 || i%2 != 0 {
			return
		}
		ok := see(i) && x.may(user, i, ua.PermissionTypeWriteHistorizing)
		r := x.must(c, &ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: nid(p20name(i)), AttributeID: ua.AttributeIDHistorizing, Value: ua.DataValue{Value: o.Arg(1)%2 == 0}}}}).(*ua.WriteResponse)
		x.verdict(user, "change the historizing of "+p20name(i), ok, r.Results[0], !see(i))
	case "hist":
		var q []ua.HistoryReadValueID
		for n := 0; n < 3; n++ {
			q = append(q, ua.HistoryReadValueID{NodeID: nid(p20name((i + n) % p20vars))})
		}
		var d any = ua.ReadRawModifiedDetails{StartTime: time.Now().Add(-time.Hour), EndTime: time.Now(), NumValuesPerNode: 10}
		if o.Arg(1)%3 == 0 {
			d = ua.ReadAtTimeDetails{ReqTimes: []time.Time{time.Now()}}
		}
		if o.Arg(1)%3 == 1 {
			d = ua.ReadProcessedDetails{StartTime: time.Now().Add(-time.Hour), EndTime: time.Now(), ProcessingInterval: 1000, AggregateType: []ua.NodeID{ua.ObjectIDAggregateFunctionAverage, ua.ObjectIDAggregateFunctionAverage, ua.ObjectIDAggregateFunctionAverage}}
		}
		r := x.must(c, &ua.HistoryReadRequest{HistoryReadDetails: d, TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: q}).(*ua.HistoryReadResponse)
		if len(r.Results) != len(q) {
			w.Fail("wrong-response", "%d results for %d nodes", len(r.Results), len(q))
		}
		for n, e := range r.Results {
			k := (i + n) % p20vars
			acc := byte(w.P(fmt.Sprintf("acc%d", k)))
			ok := see(k) && acc&ua.AccessLevelsHistoryRead != 0 && x.may(user, k, ua.PermissionTypeReadHistory)
			x.verdict(user, "read the history of "+p20name(k), ok, e.StatusCode, !see(k))
			if !ok && e.HistoryData != nil {
				w.Fail("not-permitted", "%s may not read the history of %s but got data", user, p20name(k))
			}
		}
	case "call":
		ok := see(m) && w.P(fmt.Sprintf("exec%d", m)) == 1 && x.may(user, m, ua.PermissionTypeCall)
		r := x.must(c, &ua.CallRequest{MethodsToCall: []ua.CallMethodRequest{{ObjectID: nid("PF"), MethodID: nid(p20name(m))}}}).(*ua.CallResponse)
		x.verdict(user, "call "+p20name(m), ok, r.Results[0].StatusCode, !see(m))
		if ok && (len(r.Results[0].OutputArguments) != 1 || r.Results[0].OutputArguments[0] != user) {
			w.Fail("wrong-identity", "the call of %s ran as %v", user, r.Results[0].OutputArguments)
		}
	case "browse":
		if o.Arg(1)%3 == 0 { // of the node itself
			r := x.must(c, &ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: nid(p20name(j)), BrowseDirection: ua.BrowseDirectionBoth, ReferenceTypeID: ua.ReferenceTypeIDReferences, IncludeSubtypes: true, ResultMask: 63}}}).(*ua.BrowseResponse)
			x.verdict(user, "browse "+p20name(j), see(j), r.Results[0].StatusCode, !see(j))
			return
		}
		max := uint32(o.Arg(2) % 5)
		r := x.must(c, &ua.BrowseRequest{RequestedMaxReferencesPerNode: max, NodesToBrowse: []ua.BrowseDescription{{NodeID: nid("PF"), BrowseDirection: ua.BrowseDirectionForward, ReferenceTypeID: ua.ReferenceTypeIDHierarchicalReferences, IncludeSubtypes: true, ResultMask: 63}}}).(*ua.BrowseResponse)
		e := r.Results[0]
		var got []string
		for {
			if e.StatusCode != ua.Good {
				w.Fail("denied", "browsing the folder gave %v", e.StatusCode)
			}
			for _, f := range e.References {
				got = append(got, f.BrowseName.Name)
			}
			if len(e.ContinuationPoint) == 0 {
				break
			}
			e = x.must(c, &ua.BrowseNextRequest{ContinuationPoints: []ua.ByteString{e.ContinuationPoint}}).(*ua.BrowseNextResponse).Results[0]
		}
		var want []string
		for k := 0; k < total; k++ {
			if see(k) {
				want = append(want, p20name(k))
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, " ") != strings.Join(want, " ") {
			w.Fail("visible", "%s sees %v, want %v", user, got, want)
		}
		w.Count("browsed")
	case "translate":
		r := x.must(c, &ua.TranslateBrowsePathsToNodeIDsRequest{BrowsePaths: []ua.BrowsePath{{StartingNode: nid("Root"), RelativePath: ua.RelativePath{Elements: []ua.RelativePathElement{
			{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, TargetName: ua.NewQualifiedName(2, "PF")}, {ReferenceTypeID: ua.ReferenceTypeIDHasComponent, TargetName: ua.NewQualifiedName(2, p20name(j))}}}}}}).(*ua.TranslateBrowsePathsToNodeIDsResponse)
		e := r.Results[0]
		x.verdict(user, "find "+p20name(j)+" by its path", see(j), e.StatusCode, !see(j))
		if !see(j) && len(e.Targets) > 0 {
			w.Fail("not-permitted", "%s may not see %s but got its id", user, p20name(j))
		}
	case "item", "event":
		sub := x.must(c, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 10, PublishingEnabled: true}).(*ua.CreateSubscriptionResponse).SubscriptionID
		it := monItem(p20name(i), 1, 0, 10, true, nil, ua.MonitoringModeReporting)
		if o.K == "event" {
			ob := p20vars + p20meths + int(o.Arg(0))%p20objs
			it.ItemToMonitor = ua.ReadValueID{NodeID: nid(p20name(ob)), AttributeID: ua.AttributeIDEventNotifier}
			it.RequestedParameters.Filter = ua.EventFilter{SelectClauses: ua.BaseEventSelectClauses}
			r := x.must(c, &ua.CreateMonitoredItemsRequest{SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{it}}).(*ua.CreateMonitoredItemsResponse)
			if see(ob) || !x.may(user, ob, ua.PermissionTypeReceiveEvents) {
				x.verdict(user, "receive events of "+p20name(ob), see(ob) && x.may(user, ob, ua.PermissionTypeReceiveEvents), r.Results[0].StatusCode, false)
			}
		} else {
			r := x.must(c, &ua.CreateMonitoredItemsRequest{SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{it}}).(*ua.CreateMonitoredItemsResponse)
			can := acc&ua.AccessLevelsCurrentRead != 0 && x.may(user, i, ua.PermissionTypeRead)
			if see(i) || !can {
				x.verdict(user, "monitor "+p20name(i), see(i) && can, r.Results[0].StatusCode, false)
			}
			if uint32(r.Results[0].StatusCode)&0x80000000 == 0 {
				x.first(c, user, i, see(i) && can)
			}
		}
		x.must(c, &ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{sub}})
	case "watch":
		x.watch(c, user, o, i)
	}
}

// first checks the first notification of a new item.
func (x *p20) first(c *raw.Client, user string, i int, can bool) {
	r, err := c.Do(&ua.PublishRequest{}, longWait)
	if !good(r, err) {
		x.w.Fail("refused", "publish: %s", sr(r, err))
	}
	for _, d := range r.(*ua.PublishResponse).NotificationMessage.NotificationData {
		if dc, ok := d.(ua.DataChangeNotification); ok {
			for _, n := range dc.MonitoredItems {
				if !can && n.Value.Value != nil {
					x.w.Fail("not-permitted", "%s may not read %s but was notified of %v", user, p20name(i), n.Value.Value)
				}
			}
		}
	}
}

// watch: an item of a user who may read, then the session's user changes.
func (x *p20) watch(c *raw.Client, user string, o Op, i int) {
	w := x.w
	can := func(u string) bool {
		return byte(w.P(fmt.Sprintf("acc%d", i)))&ua.AccessLevelsCurrentRead != 0 && x.may(u, i, ua.PermissionTypeRead) && x.may(u, i, ua.PermissionTypeBrowse)
	}
	if !can(user) {
		return
	}
	sub := x.must(c, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 125, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 4, PublishingEnabled: true}).(*ua.CreateSubscriptionResponse).SubscriptionID
	r := x.must(c, &ua.CreateMonitoredItemsRequest{SubscriptionID: sub, TimestampsToReturn: ua.TimestampsToReturnBoth,
		ItemsToCreate: []ua.MonitoredItemCreateRequest{monItem(p20name(i), 1, 0, 100, true, nil, ua.MonitoringModeReporting)}}).(*ua.CreateMonitoredItemsResponse)
	if r.Results[0].StatusCode != ua.Good {
		w.Fail("denied", "%s may read %s but not monitor it: %v", user, p20name(i), r.Results[0].StatusCode)
	}
	u2 := p20users[int(o.Arg(1))%len(p20users)]
	if err := c.Activate(x.s.UserOf(c, u2), longWait); err != nil {
		w.Fail("activation-refused", "user %s: %v", u2, err)
	}
	time.Sleep(100 * time.Millisecond) // samples taken as the first user are over
	x.mu.Lock()
	x.n++
	v := 2000000 + x.n
	x.mu.Unlock()
	x.vars[i].SetValue(ua.NewDataValue(v, ua.Good, time.Now(), 0, time.Now(), 0))
	seen := false
	for k := 0; k < 40 && !seen; k++ {
		p, err := c.Do(&ua.PublishRequest{}, longWait)
		if !good(p, err) {
			w.Fail("refused", "publish: %s", sr(p, err))
		}
		m := p.(*ua.PublishResponse).NotificationMessage
		if len(m.NotificationData) == 0 {
			break
		}
		for _, d := range m.NotificationData {
			if dc, ok := d.(ua.DataChangeNotification); ok {
				for _, n := range dc.MonitoredItems {
					if n.Value.Value == v {
						seen = true
					}
				}
			}
		}
	}
	if seen && !can(u2) {
		w.Fail("not-permitted", "the session's user %s may not read %s but was notified of a value written after he took over", u2, p20name(i))
	}
	w.Count(fmt.Sprintf("watched_%v_%v", can(u2), seen))
	x.must(c, &ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{sub}})
	if err := c.Activate(x.s.UserOf(c, user), longWait); err != nil {
		w.Fail("activation-refused", "user %s: %v", user, err)
	}
}
