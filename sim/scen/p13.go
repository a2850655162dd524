package scen

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"

	"opcuasim/raw"
)

// P13: browsing shows every node and reference there is, exactly once, also
// over continuation points and while nodes come and go.
func init() { register(&Scenario{Prop: "P13", Gen: genP13, Run: runP13}) }

// reference types with their ancestors.
var p13types = []ua.NodeID{ua.ReferenceTypeIDOrganizes, ua.ReferenceTypeIDHasComponent, ua.ReferenceTypeIDHasProperty, ua.ReferenceTypeIDHasOrderedComponent,
	ua.ReferenceTypeIDHasEventSource, ua.ReferenceTypeIDHasNotifier}

var p13super = map[ua.NodeID][]ua.NodeID{
	ua.ReferenceTypeIDOrganizes:           {ua.ReferenceTypeIDHierarchicalReferences, ua.ReferenceTypeIDReferences},
	ua.ReferenceTypeIDHasComponent:        {ua.ReferenceTypeIDAggregates, ua.ReferenceTypeIDHasChild, ua.ReferenceTypeIDHierarchicalReferences, ua.ReferenceTypeIDReferences},
	ua.ReferenceTypeIDHasProperty:         {ua.ReferenceTypeIDAggregates, ua.ReferenceTypeIDHasChild, ua.ReferenceTypeIDHierarchicalReferences, ua.ReferenceTypeIDReferences},
	ua.ReferenceTypeIDHasOrderedComponent: {ua.ReferenceTypeIDHasComponent, ua.ReferenceTypeIDAggregates, ua.ReferenceTypeIDHasChild, ua.ReferenceTypeIDHierarchicalReferences, ua.ReferenceTypeIDReferences},
	ua.ReferenceTypeIDHasEventSource:      {ua.ReferenceTypeIDHierarchicalReferences, ua.ReferenceTypeIDReferences},
	ua.ReferenceTypeIDHasNotifier:         {ua.ReferenceTypeIDHasEventSource, ua.ReferenceTypeIDHierarchicalReferences, ua.ReferenceTypeIDReferences},
	ua.ReferenceTypeIDHasTypeDefinition:   {ua.ReferenceTypeIDNonHierarchicalReferences, ua.ReferenceTypeIDReferences},
}

var p13filter = []ua.NodeID{nil, ua.ReferenceTypeIDReferences, ua.ReferenceTypeIDHierarchicalReferences, ua.ReferenceTypeIDHasChild, ua.ReferenceTypeIDAggregates,
	ua.ReferenceTypeIDHasComponent, ua.ReferenceTypeIDHasProperty, ua.ReferenceTypeIDOrganizes, ua.ReferenceTypeIDHasEventSource, ua.ReferenceTypeIDNonHierarchicalReferences, ua.ReferenceTypeIDHasTypeDefinition}

func genP13(g Gen, p *Plan) {
	nc := int(g.Range(1, 3))
	na := int(g.Range(0, 2))
	p.P["clients"] = int64(nc)
	p.P["apps"] = int64(na)
	p.P["workers"] = g.Pick(1, 2, 4)
	p.P["hubs"] = g.Range(1, 3)
	p.P["maxcp"] = g.Pick(1, 2, 4, 10)
	p.P["names"] = g.Pick(1, 2, 3, 8) // distinct browse names per hub
	nodes := int(g.Range(3, 20))
	p.P["nodes"] = int64(nodes)
	for i := 0; i < nodes; i++ {
		p.P[fmt.Sprintf("n%d", i)] = int64(g.U64() % (1 << 40))
	}
	n := int(g.Range(5, 18))
	if p.Tier == "thorough" {
		n = int(g.Range(8, 60))
	}
	for a := 0; a < nc; a++ {
		p.P[fmt.Sprintf("sec%d", a)] = g.Pick(0, 0, 0, g.Range(1, int64(len(secs)-1)))
		kinds := []string{"browse", "browse", "browse", "multi", "next", "next", "next", "release", "stale", "translate", "translate", "read", "missing"}
		for i := 0; i < n; i++ {
			p.Ops = append(p.Ops, Op{A: a, D: g.Pick(0, 0, 500, 20000), K: kinds[g.N(len(kinds))], I: []int64{int64(g.U64() % (1 << 40)), int64(g.U64() % 1000), g.Pick(0, 1, 1, 2, 3, 5, 8)}})
		}
	}
	for a := 0; a < na; a++ {
		kinds := []string{"add", "add", "add", "del", "del", "tree", "deltree", "cycle", "subtypes", "value"}
		for i := 0; i < n; i++ {
			p.Ops = append(p.Ops, Op{A: 10 + a, D: g.Pick(0, 0, 500, 20000), K: kinds[g.N(len(kinds))], I: []int64{int64(g.U64() % (1 << 40)), int64(g.U64() % 1000)}})
		}
	}
}

// p13ref is a reference from a hub (or a stable node) in the model.
type p13ref struct {
	from, to string
	typ      ua.NodeID
	inv      bool
	class    ua.NodeClass
	name     string
	def      ua.NodeID
	// life of the reference; the node of a stable one is never removed
	born0, born1 time.Duration // add began, add done
	dead0, dead1 time.Duration // removal began, removal done
	std          ua.NodeID     // target in the standard namespace
}

const p13never = time.Duration(1 << 62)

type p13 struct {
	w     *World
	s     *Srv
	mu    sync.Mutex
	refs  map[string][]*p13ref
	nodes map[string][2]time.Duration // churn nodes: known alive [from done of add, to begin of delete]
	ever  map[string]bool
	seq   int
}

func (r *p13ref) target() ua.NodeID {
	if r.std != nil {
		return r.std
	}
	return nid(r.to)
}

func (x *p13) addRef(from string, r p13ref) *p13ref {
	r.from = from
	r.dead0, r.dead1 = p13never, p13never
	p := &r
	x.mu.Lock()
	x.refs[from] = append(x.refs[from], p)
	x.mu.Unlock()
	return p
}

func (x *p13) build(id, name string, class ua.NodeClass, parent string, typ ua.NodeID) server.Node {
	refs := []ua.Reference{{ReferenceTypeID: typ, IsInverse: true, TargetID: ua.NewExpandedNodeID(nid(parent))}}
	q, t := ua.NewQualifiedName(2, name), ua.NewLocalizedText("D "+id, "en")
	switch class {
	case ua.NodeClassVariable:
		refs = append(refs, ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDHasTypeDefinition, TargetID: ua.NewExpandedNodeID(ua.VariableTypeIDBaseDataVariableType)})
		return server.NewVariableNode(x.s.Server, nid(id), q, t, ua.NewLocalizedText("", ""), openPerms, refs, ua.NewDataValue(int32(5), 0, time.Now(), 0, time.Now(), 0), ua.DataTypeIDInt32, -1, nil, ua.AccessLevelsCurrentRead, 0, false, nil)
	case ua.NodeClassMethod:
		return server.NewMethodNode(x.s.Server, nid(id), q, t, ua.NewLocalizedText("", ""), openPerms, refs, true)
	}
	refs = append(refs, ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDHasTypeDefinition, TargetID: ua.NewExpandedNodeID(ua.ObjectTypeIDBaseObjectType)})
	return server.NewObjectNode(x.s.Server, nid(id), q, t, ua.NewLocalizedText("", ""), openPerms, refs, 0)
}

func p13def(c ua.NodeClass) ua.NodeID {
	switch c {
	case ua.NodeClassVariable:
		return ua.VariableTypeIDBaseDataVariableType
	case ua.NodeClassObject:
		return ua.ObjectTypeIDBaseObjectType
	}
	return nil
}

var p13classes = []ua.NodeClass{ua.NodeClassObject, ua.NodeClassVariable, ua.NodeClassMethod}

func runP13(w *World) {
	nc, na := int(w.P("clients")), int(w.P("apps"))
	caps := ua.NewServerCapabilities()
	caps.MaxBrowseContinuationPoints = uint16(w.P("maxcp"))
	s := w.NewServer(SrvOpts{Workers: int(w.P("workers")), Extra: []server.Option{server.WithServerCapabilities(caps)}})
	x := &p13{w: w, s: s, refs: map[string][]*p13ref{}, nodes: map[string][2]time.Duration{}, ever: map[string]bool{}}
	hubs := int(w.P("hubs"))
	name := func(i int64) string { return fmt.Sprintf("N%d", i%w.P("names")) }
	for h := 0; h < hubs; h++ {
		id := fmt.Sprintf("Hub%d", h)
		if err := s.NM.AddNode(x.build(id, id, ua.NodeClassObject, "Root", ua.ReferenceTypeIDOrganizes)); err != nil {
			panic(err)
		}
		x.addRef(id, p13ref{to: "Root", typ: ua.ReferenceTypeIDOrganizes, inv: true, class: ua.NodeClassObject, name: "Root", def: ua.ObjectTypeIDBaseObjectType})
		x.addRef(id, p13ref{typ: ua.ReferenceTypeIDHasTypeDefinition, class: ua.NodeClassObjectType, name: "BaseObjectType", std: ua.ObjectTypeIDBaseObjectType})
	}
	stable := []string{}
	for i := 0; i < int(w.P("nodes")); i++ {
		v := w.P(fmt.Sprintf("n%d", i))
		parent := fmt.Sprintf("Hub%d", v%int64(hubs))
		if len(stable) > 0 && v/7%4 == 0 {
			parent = stable[v/31%int64(len(stable))]
		}
		id, class, typ, nm := fmt.Sprintf("S%d", i), p13classes[v/100%3], p13types[v/1000%int64(len(p13types))], name(v/10000)
		if err := s.NM.AddNode(x.build(id, nm, class, parent, typ)); err != nil {
			panic(err)
		}
		x.link(parent, id, nm, class, typ, 0)
		stable = append(stable, id)
	}
	s.Serve()
	w.StartSched()
	var wg sync.WaitGroup
	for a := 0; a < na; a++ {
		wg.Add(1)
		go func(a int) {
			defer wg.Done()
			x.app(a, w.OpsOf(10+a), hubs, name)
		}(a)
	}
	w.Actors(nc, func(a int, ops []Op) {
		c := s.MustConnect(RawOpts{Sec: int(w.P(fmt.Sprintf("sec%d", a)))})
		k := &p13cl{x: x, c: c, a: a, hubs: hubs, stable: stable}
		for i, op := range ops {
			op.Sleep()
			k.op(i, op)
		}
		// whatever is left can be fetched to the end
		for len(k.cps) > 0 {
			k.next(0, false)
		}
		c.Disconnect()
	})
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		w.Fail("app-blocked", "the application's changes of the address space do not end\n%s", Stacks())
	}
	// quiet now: everything there is, exactly
	c := s.MustConnect(RawOpts{})
	k := &p13cl{x: x, c: c, a: 9, hubs: hubs, stable: stable}
	for h := 0; h < hubs; h++ {
		k.browse("final", []ua.BrowseDescription{{NodeID: nid(fmt.Sprintf("Hub%d", h)), BrowseDirection: ua.BrowseDirectionBoth, IncludeSubtypes: true, ResultMask: 63}}, 3)
		for len(k.cps) > 0 {
			k.next(0, false)
		}
	}
	c.Disconnect()
	s.Alive("not-alive")
}

// link records the references of a new node and its parent.
func (x *p13) link(parent, id, nm string, class ua.NodeClass, typ ua.NodeID, at time.Duration) []*p13ref {
	pn := x.info(parent)
	l := []*p13ref{
		x.addRef(parent, p13ref{to: id, typ: typ, class: class, name: nm, def: p13def(class), born0: at, born1: p13never}),
		x.addRef(id, p13ref{to: parent, typ: typ, inv: true, class: pn.class, name: pn.name, def: pn.def, born0: at, born1: p13never}),
	}
	if d := p13def(class); d != nil {
		r := p13ref{typ: ua.ReferenceTypeIDHasTypeDefinition, class: ua.NodeClassObjectType, name: "BaseObjectType", std: d, born0: at, born1: p13never}
		if class == ua.NodeClassVariable {
			r.class, r.name = ua.NodeClassVariableType, "BaseDataVariableType"
		}
		l = append(l, x.addRef(id, r))
	}
	if at == 0 {
		for _, r := range l {
			r.born1 = 0
		}
	}
	return l
}

func (x *p13) info(id string) p13ref {
	x.mu.Lock()
	defer x.mu.Unlock()
	if strings.HasPrefix(id, "Hub") {
		return p13ref{class: ua.NodeClassObject, name: id, def: ua.ObjectTypeIDBaseObjectType}
	}
	for _, l := range x.refs {
		for _, r := range l {
			if r.to == id && !r.inv {
				return *r
			}
		}
	}
	panic("no node " + id)
}

type p13churn struct {
	id   string
	node server.Node
	refs []*p13ref
	kids []*p13churn
}

func (x *p13) app(a int, ops []Op, hubs int, name func(int64) string) {
	w, nm := x.w, x.s.NM
	var live []*p13churn
	var gone []*p13churn
	kill := func(c *p13churn, d0 time.Duration) {
		x.mu.Lock()
		for _, r := range c.refs {
			r.dead0 = d0
		}
		e := x.nodes[c.id]
		x.nodes[c.id] = [2]time.Duration{e[0], d0}
		x.mu.Unlock()
	}
	killed := func(c *p13churn) {
		now := w.Now()
		x.mu.Lock()
		for _, r := range c.refs {
			r.dead1 = now
		}
		x.mu.Unlock()
	}
	mk := func(id, parent string, v int64) *p13churn {
		class, typ, n := p13classes[v/100%3], p13types[v/1000%int64(len(p13types))], name(v/10000)
		c := &p13churn{id: id, node: x.build(id, n, class, parent, typ)}
		at := w.Now()
		if at == 0 {
			at = 1
		}
		x.mu.Lock()
		x.ever[id] = true
		x.nodes[id] = [2]time.Duration{p13never, p13never}
		x.mu.Unlock()
		c.refs = x.link(parent, id, n, class, typ, at)
		return c
	}
	born := func(c *p13churn) {
		now := w.Now()
		x.mu.Lock()
		for _, r := range c.refs {
			r.born1 = now
		}
		x.nodes[c.id] = [2]time.Duration{now, p13never}
		x.mu.Unlock()
	}
	for i, op := range ops {
		op.Sleep()
		v := op.I[0]
		x.mu.Lock()
		x.seq++
		seq := x.seq
		x.mu.Unlock()
		id := fmt.Sprintf("C%d_%d", a, seq)
		hub := fmt.Sprintf("Hub%d", v%int64(hubs))
		switch op.K {
		case "add":
			var c *p13churn
			if len(gone) > 0 && op.I[1]%3 == 0 {
				// the same identifier again
				id = gone[0].id
				gone = gone[1:]
			}
			c = mk(id, hub, v)
			if err := nm.AddNode(c.node); err != nil {
				w.Fail("add-failed", "AddNode: %v", err)
			}
			born(c)
			live = append(live, c)
			w.Count("app_add")
		case "tree":
			c := mk(id, hub, 1000) // object below HasComponent
			k1 := mk(id+"a", id, v/3/1000*1000*0+1100)
			k2 := mk(id+"b", id, 1200)
			c.kids = []*p13churn{k1, k2}
			if err := nm.AddNodes(c.node, k1.node, k2.node); err != nil {
				w.Fail("add-failed", "AddNodes: %v", err)
			}
			born(c)
			born(k1)
			born(k2)
			live = append(live, c)
			w.Count("app_tree")
		case "cycle":
			// two objects that contain each other, and a shared component
			c := mk(id, hub, 1000)
			k1 := mk(id+"a", id, 1000)
			k2 := mk(id+"b", id, 1100)
			c.kids = []*p13churn{k1, k2}
			if err := nm.AddNodes(c.node, k1.node, k2.node); err != nil {
				w.Fail("add-failed", "AddNodes: %v", err)
			}
			born(c)
			born(k1)
			born(k2)
			// extra references, below nodes no client browses
			k1.node.SetReferences(append(append([]ua.Reference{}, k1.node.References()...), ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, TargetID: ua.NewExpandedNodeID(nid(id))}, ua.Reference{ReferenceTypeID: ua.ReferenceTypeIDHasComponent, TargetID: ua.NewExpandedNodeID(nid(id + "b"))}))
			t := w.Now()
			kill(c, t)
			kill(k1, t)
			kill(k2, t)
			d := make(chan struct{})
			go func() {
				nm.DeleteNodeByIDRecursive(nid(id))
				close(d)
			}()
			select {
			case <-d:
			case <-time.After(20 * time.Second):
				w.Fail("app-blocked", "deleting two nodes that refer to each other does not end\n%s", Stacks())
			}
			killed(c)
			killed(k1)
			killed(k2)
			w.Count("app_cycle")
		case "del", "deltree":
			if len(live) == 0 {
				continue
			}
			j := int(op.I[1]) % len(live)
			c := live[j]
			live = append(live[:j:j], live[j+1:]...)
			t := w.Now()
			kill(c, t)
			for _, k := range c.kids {
				kill(k, t)
			}
			var err error
			n := 1 + len(c.kids)
			switch {
			case v%3 == 0 && len(c.kids) == 0:
				err = nm.DeleteNodeByID(nid(c.id))
			case v%3 == 1:
				err = nm.DeleteNode(c.node, true)
			default:
				n, err = nm.DeleteNodeByIDRecursive(nid(c.id))
			}
			if err != nil || n != 1+len(c.kids) {
				w.Fail("delete-failed", "deleting %s with %d children: %d, %v", c.id, len(c.kids), n, err)
			}
			killed(c)
			for _, k := range c.kids {
				killed(k)
			}
			if len(c.kids) == 0 {
				gone = append(gone, c)
			}
			w.Count("app_del")
		case "subtypes":
			if n, ok := nm.FindNode(ua.ReferenceTypeIDHasComponent); ok {
				d := make(chan int, 1)
				go func() { d <- len(nm.GetSubTypes(n)) }()
				select {
				case k := <-d:
					if k < 1 {
						w.Fail("subtypes", "HasComponent has %d subtypes", k)
					}
				case <-time.After(20 * time.Second):
					w.Fail("app-blocked", "GetSubTypes of HasComponent does not end\n%s", Stacks())
				}
			}
		case "value":
			for _, c := range live {
				if n, ok := nm.FindVariable(nid(c.id)); ok {
					n.SetValue(ua.NewDataValue(int32(i), 0, time.Now(), 0, time.Now(), 0))
				} else if _, ok := nm.FindNode(nid(c.id)); !ok {
					w.Fail("node-lost", "node %s was added and not deleted, but cannot be found", c.id)
				}
			}
		}
	}
}

type p13cp struct {
	cp    ua.ByteString
	node  string
	d     ua.BrowseDescription
	max   int
	t0    time.Duration
	t1    time.Duration
	got   []ua.ReferenceDescription
	label string
}

type p13cl struct {
	x      *p13
	c      *raw.Client
	a      int
	hubs   int
	stable []string
	cps    []*p13cp
	used   []ua.ByteString
}

func (k *p13cl) node(v int64) string {
	if v%3 == 0 && len(k.stable) > 0 {
		return k.stable[v/3%int64(len(k.stable))]
	}
	return fmt.Sprintf("Hub%d", v%int64(k.hubs))
}

func (k *p13cl) desc(v int64) ua.BrowseDescription {
	d := ua.BrowseDescription{NodeID: nid(k.node(v)), BrowseDirection: ua.BrowseDirection(v / 7 % 3), ReferenceTypeID: p13filter[v/31%int64(len(p13filter))], IncludeSubtypes: v/2%2 == 0, ResultMask: 63}
	if v/50%3 == 0 {
		d.NodeClassMask = uint32([]ua.NodeClass{ua.NodeClassObject, ua.NodeClassVariable, ua.NodeClassMethod, ua.NodeClassObject | ua.NodeClassVariable, ua.NodeClassObjectType}[v/300%5])
	}
	if v/77%4 == 0 {
		d.ResultMask = uint32(v / 90 % 64)
	}
	if v/11%3 == 0 {
		d.ReferenceTypeID = nil
		d.BrowseDirection = ua.BrowseDirectionBoth
	}
	return d
}

func (k *p13cl) op(i int, op Op) {
	w, x := k.x.w, k.x
	v := op.I[0]
	what := fmt.Sprintf("client %d operation %d", k.a, i)
	switch op.K {
	case "browse":
		k.browse(what, []ua.BrowseDescription{k.desc(v)}, int(op.I[2]))
	case "multi":
		var l []ua.BrowseDescription
		for j := int64(0); j < 2+v%5; j++ {
			l = append(l, k.desc(v/(j+1)+j*17))
		}
		k.browse(what, l, int(op.I[2]))
	case "next":
		if len(k.cps) > 0 {
			k.next(int(v), op.I[1]%3 == 0)
		}
	case "release":
		if len(k.cps) > 0 {
			j := int(v) % len(k.cps)
			c := k.cps[j]
			k.cps = append(k.cps[:j:j], k.cps[j+1:]...)
			k.used = append(k.used, c.cp)
			r, err := k.c.Do(&ua.BrowseNextRequest{ReleaseContinuationPoints: true, ContinuationPoints: []ua.ByteString{c.cp}}, longWait)
			if !good(r, err) {
				w.Fail("browse-failed", "%s: release: %s", what, sr(r, err))
			}
			q := r.(*ua.BrowseNextResponse).Results
			if len(q) != 1 || q[0].StatusCode != ua.Good || len(q[0].References) > 0 || len(q[0].ContinuationPoint) > 0 {
				w.Fail("release", "%s: releasing a continuation point gave %v", what, q)
			}
			w.Count("released")
		}
	case "stale":
		if len(k.used) > 0 {
			cp := k.used[int(v)%len(k.used)]
			for _, c := range k.cps {
				if c.cp == cp {
					w.Fail("cp-reused", "%s: continuation point %x is used again", what, cp)
				}
			}
			r, err := k.c.Do(&ua.BrowseNextRequest{ContinuationPoints: []ua.ByteString{cp}}, longWait)
			if !good(r, err) {
				w.Fail("browse-failed", "%s: BrowseNext: %s", what, sr(r, err))
			}
			if q := r.(*ua.BrowseNextResponse).Results; len(q) != 1 || q[0].StatusCode != ua.BadContinuationPointInvalid {
				w.Fail("cp-stale", "%s: a continuation point that was used up gave %v", what, q)
			}
			w.Count("stale")
		}
	case "translate":
		k.translate(what, v)
	case "read", "missing":
		// nodes that come and go
		x.mu.Lock()
		var ids []string
		for id := range x.ever {
			ids = append(ids, id)
		}
		x.mu.Unlock()
		if len(ids) == 0 {
			return
		}
		sort.Strings(ids)
		id := ids[int(v)%len(ids)]
		x.mu.Lock()
		e := x.nodes[id]
		x.mu.Unlock()
		t0 := w.Now()
		if op.K == "read" {
			r, err := k.c.Do(readReq(ua.ReadValueID{NodeID: nid(id), AttributeID: ua.AttributeIDNodeID}), longWait)
			if !good(r, err) {
				w.Fail("browse-failed", "%s: Read: %s", what, sr(r, err))
			}
			k.exists(what+" read", id, e, t0, r.(*ua.ReadResponse).Results[0].StatusCode)
		} else {
			r, err := k.c.Do(&ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: nid(id), BrowseDirection: ua.BrowseDirectionInverse}}}, longWait)
			if !good(r, err) {
				w.Fail("browse-failed", "%s: Browse: %s", what, sr(r, err))
			}
			k.exists(what+" browse", id, e, t0, r.(*ua.BrowseResponse).Results[0].StatusCode)
		}
	}
}

// exists judges a status for a churn node whose record before the request was e.
func (k *p13cl) exists(what, id string, e [2]time.Duration, t0 time.Duration, st ua.StatusCode) {
	x := k.x
	x.mu.Lock()
	f := x.nodes[id]
	var dead, born bool
	if e[0] != p13never && e[1] == p13never && f == e {
		born = true // there the whole time
	}
	if e == f && e[1] != p13never {
		// gone before the request, if the removal had ended
		dead = true
		for _, r := range x.refs[id] {
			if r.dead1 == p13never || r.dead1 > t0 {
				dead = false
			}
		}
	}
	x.mu.Unlock()
	if born && st != ua.Good {
		x.w.Fail("node-lost", "%s of node %s, which is there, gave %v", what, id, st)
	}
	if dead && st != ua.BadNodeIDUnknown {
		x.w.Fail("node-ghost", "%s of node %s, which was deleted before, gave %v", what, id, st)
	}
	x.w.Count("exists")
}

func (k *p13cl) browse(what string, l []ua.BrowseDescription, max int) {
	w := k.x.w
	t0 := w.Now()
	held := len(k.cps)
	r, err := k.c.Do(&ua.BrowseRequest{RequestedMaxReferencesPerNode: uint32(max), NodesToBrowse: l}, longWait)
	if !good(r, err) {
		w.Fail("browse-failed", "%s: Browse: %s", what, sr(r, err))
	}
	q := r.(*ua.BrowseResponse).Results
	if len(q) != len(l) {
		w.Fail("browse-count", "%s: %d results for %d nodes", what, len(q), len(l))
	}
	t1 := w.Now()
	short := 0
	for i, res := range q {
		c := &p13cp{node: strings.TrimPrefix(fmt.Sprint(l[i].NodeID), "ns=2;s="), d: l[i], max: max, t0: t0, t1: t1, label: what}
		if id, ok := l[i].NodeID.(ua.NodeIDString); ok {
			c.node = id.ID
		}
		if res.StatusCode == ua.BadNoContinuationPoints && max > 0 {
			short++
			continue
		}
		if res.StatusCode != ua.Good {
			w.Fail("browse-failed", "%s: browsing %s (%+v) gave %v", what, c.node, l[i], res.StatusCode)
		}
		k.take(c, res)
	}
	if short > 0 && len(k.cps) < int(w.P("maxcp")) {
		w.Fail("no-cp", "%s: BadNoContinuationPoints although only %d of %d are in use", what, len(k.cps), w.P("maxcp"))
	}
	if len(k.cps) > int(w.P("maxcp")) {
		w.Fail("too-many-cp", "%s: %d continuation points, the limit is %d", what, len(k.cps), w.P("maxcp"))
	}
	_ = held
}

// take adds a result to a browse in progress.
func (k *p13cl) take(c *p13cp, res ua.BrowseResult) {
	w := k.x.w
	c.got = append(c.got, res.References...)
	if c.max > 0 && len(res.References) > c.max {
		w.Fail("too-many-refs", "%s: %d references of %s, asked for at most %d", c.label, len(res.References), c.node, c.max)
	}
	if len(res.ContinuationPoint) > 0 {
		if c.max == 0 || len(res.References) < 1 {
			w.Fail("cp-useless", "%s: a continuation point with %d references of %d", c.label, len(res.References), c.max)
		}
		for _, o := range k.cps {
			if o.cp == res.ContinuationPoint {
				w.Fail("cp-reused", "%s: continuation point %x is given twice", c.label, o.cp)
			}
		}
		c.cp = res.ContinuationPoint
		k.cps = append(k.cps, c)
		w.Count("continued")
		return
	}
	k.judge(c)
}

func (k *p13cl) next(v int, two bool) {
	w := k.x.w
	n := 1
	if two && len(k.cps) > 1 {
		n = 2
	}
	var l []*p13cp
	var q []ua.ByteString
	for i := 0; i < n; i++ {
		j := v % len(k.cps)
		l = append(l, k.cps[j])
		q = append(q, k.cps[j].cp)
		k.used = append(k.used, k.cps[j].cp)
		k.cps = append(k.cps[:j:j], k.cps[j+1:]...)
	}
	r, err := k.c.Do(&ua.BrowseNextRequest{ContinuationPoints: q}, longWait)
	if !good(r, err) {
		w.Fail("browse-failed", "BrowseNext: %s", sr(r, err))
	}
	res := r.(*ua.BrowseNextResponse).Results
	if len(res) != n {
		w.Fail("browse-count", "BrowseNext: %d results for %d continuation points", len(res), n)
	}
	for i, c := range l {
		if res[i].StatusCode != ua.Good {
			w.Fail("next-failed", "%s: BrowseNext of %s after %d references gave %v", c.label, c.node, len(c.got), res[i].StatusCode)
		}
		k.take(c, res[i])
	}
	w.Count("next")
}

func p13match(r *p13ref, d ua.BrowseDescription) bool {
	if d.BrowseDirection != ua.BrowseDirectionBoth && r.inv != (d.BrowseDirection == ua.BrowseDirectionInverse) {
		return false
	}
	if d.ReferenceTypeID != nil && d.ReferenceTypeID != r.typ {
		if !d.IncludeSubtypes {
			return false
		}
		ok := false
		for _, t := range p13super[r.typ] {
			ok = ok || t == d.ReferenceTypeID
		}
		if !ok {
			return false
		}
	}
	return d.NodeClassMask == 0 || d.NodeClassMask&uint32(r.class) != 0
}

// judge compares a complete browse with the model.
func (k *p13cl) judge(c *p13cp) {
	x, w := k.x, k.x.w
	x.mu.Lock()
	defer x.mu.Unlock()
	w.Count("judged")
	w.NonTrivial()
	used := make([]bool, len(c.got))
	m := c.d.ResultMask
	// each reference of the model may explain one of the answer
	refs := append([]*p13ref{}, x.refs[c.node]...)
	expl := func(r *p13ref) bool {
		for i, g := range c.got {
			if used[i] || ua.ToNodeID(g.NodeID, x.s.NM.NamespaceUris()) != r.target() {
				continue
			}
			if m&1 != 0 && g.ReferenceTypeID != r.typ || m&2 != 0 && g.IsForward == r.inv {
				continue
			}
			bad := m&1 == 0 && g.ReferenceTypeID != nil || m&2 == 0 && g.IsForward
			bad = bad || m&4 != 0 && g.NodeClass != r.class || m&4 == 0 && g.NodeClass != 0
			bad = bad || m&8 != 0 && g.BrowseName.Name != r.name || m&8 == 0 && g.BrowseName.Name != ""
			bad = bad || m&16 == 0 && g.DisplayName.Text != "" || m&16 != 0 && r.std == nil && r.to[0] != 'H' && r.to != "Root" && g.DisplayName.Text != "D "+r.to
			if m&32 != 0 && r.def != nil {
				bad = bad || g.TypeDefinition.NodeID != r.def
			}
			bad = bad || m&32 == 0 && g.TypeDefinition.NodeID != nil
			if bad {
				w.Fail("wrong-fields", "%s: reference of %s described as %+v (mask %d), model %+v", c.label, c.node, g, m, *r)
			}
			used[i] = true
			return true
		}
		return false
	}
	for _, r := range refs {
		if !p13match(r, c.d) {
			continue
		}
		must := r.born1 < c.t0 && r.dead0 > c.t1
		may := r.born0 <= c.t1 && r.dead1 >= c.t0
		if !may {
			continue
		}
		if !expl(r) && must {
			w.Fail("missing", "%s: the reference of %s to %s (type %v, inverse %v) is missing; %d references received, filter %+v", c.label, c.node, r.target(), r.typ, r.inv, len(c.got), c.d)
		}
	}
	for i, g := range c.got {
		if !used[i] {
			w.Fail("extra", "%s: browsing %s gave a reference more than there are, or one that does not match: %+v; filter %+v", c.label, c.node, g, c.d)
		}
	}
}

// translate follows browse paths.
func (k *p13cl) translate(what string, v int64) {
	x, w := k.x, k.x.w
	start := k.node(v)
	var el []ua.RelativePathElement
	for j := int64(0); j < 1+v/5%3; j++ {
		d := k.desc(v / (j + 3) * 7)
		nm := fmt.Sprintf("N%d", (v/(j+2))%w.P("names"))
		inv := d.BrowseDirection == ua.BrowseDirectionInverse && v/13%4 == 0
		if j == 0 && v/17%6 == 0 {
			inv, nm = true, "Hub0"
		}
		el = append(el, ua.RelativePathElement{ReferenceTypeID: d.ReferenceTypeID, IsInverse: inv, IncludeSubtypes: d.IncludeSubtypes, TargetName: ua.NewQualifiedName(2, nm)})
	}
	t0 := w.Now()
	r, err := k.c.Do(&ua.TranslateBrowsePathsToNodeIDsRequest{BrowsePaths: []ua.BrowsePath{{StartingNode: nid(start), RelativePath: ua.RelativePath{Elements: el}}}}, longWait)
	if !good(r, err) {
		w.Fail("browse-failed", "%s: Translate: %s", what, sr(r, err))
	}
	t1 := w.Now()
	q := r.(*ua.TranslateBrowsePathsToNodeIDsResponse).Results
	if len(q) != 1 {
		w.Fail("browse-count", "%s: Translate: %d results", what, len(q))
	}
	got := map[ua.NodeID]int{}
	for _, t := range q[0].Targets {
		got[ua.ToNodeID(t.TargetID, x.s.NM.NamespaceUris())]++
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	must, may := map[string]bool{start: true}, map[string]bool{start: true}
	step := func(in map[string]bool, e ua.RelativePathElement, sure bool) map[string]bool {
		out := map[string]bool{}
		for n := range in {
			for _, r := range x.refs[n] {
				if r.std != nil || r.name != e.TargetName.Name {
					continue
				}
				d := ua.BrowseDescription{ReferenceTypeID: e.ReferenceTypeID, IncludeSubtypes: e.IncludeSubtypes, BrowseDirection: ua.BrowseDirectionForward}
				if e.IsInverse {
					d.BrowseDirection = ua.BrowseDirectionInverse
				}
				if !p13match(r, d) {
					continue
				}
				if sure && r.born1 < t0 && r.dead0 > t1 || !sure && r.born0 <= t1 && r.dead1 >= t0 {
					out[r.to] = true
				}
			}
		}
		return out
	}
	for _, e := range el {
		must, may = step(must, e, true), step(may, e, false)
	}
	for n := range must {
		if got[nid(n)] == 0 {
			w.Fail("translate-missing", "%s: the path %+v from %s leads to %s, which is not among the targets (%v, %d targets)", what, el, start, n, q[0].StatusCode, len(q[0].Targets))
		}
	}
	for n := range got {
		id, _ := n.(ua.NodeIDString)
		if !may[id.ID] {
			w.Fail("translate-extra", "%s: the path %+v from %s does not lead to %v", what, el, start, n)
		}
	}
	if len(may) == 0 && q[0].StatusCode != ua.BadNoMatch {
		w.Fail("translate-status", "%s: the path %+v from %s matches nothing, status %v", what, el, start, q[0].StatusCode)
	}
	if len(must) > 0 {
		w.Count("translated")
		if q[0].StatusCode != ua.Good {
			w.Fail("translate-status", "%s: the path from %s matches, status %v", what, start, q[0].StatusCode)
		}
	} else {
		w.Count("translate_nomatch")
	}
}
