package main

import (
	"fmt"

	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	common "github.com/jaegertracing/jaeger/proto-gen/otel/common/v1"
	"github.com/mrasu/GravityR/zz_verif/jsim"
	"github.com/mrasu/GravityR/zz_verif/mc"
)

// C15 ------------------------------------------------------------------------

func c15(r *mc.Run) {
	r.Bound("every span forest of up to 4 spans (each span: no parent, zero-byte parent, parent missing from the answer, or any earlier span) x every arrival order x every order of start times x groupings; 5 spans (thorough 6): every forest x 5 arrival orders x 3 orders of start times")
	r.Bound("attributes of every kind, including empty and nested ones, on every span of small trees")
	r.Assume("span ids within a trace are unique and parents form no cycle, as the OpenTelemetry data model requires; siblings with equal start times may come in any order")
	r.Assume("services alternate between parent and child so that compaction (C16) keeps every span and the report shows the whole tree")
	unit := uint64(10 * ms)
	gen := func(c *mc.Ctx, n int, arrival, starts []int) []jsim.Span {
		unit := unit
		if n <= 3 && c.Flip("nanoseconds between starts") {
			unit = 1
		}
		spans := make([]jsim.Span, n)
		depth := make([]int, n)
		for i := range spans {
			s := &spans[i]
			s.ID = uint64(0x11 * (i + 1))
			if i%2 == 1 {
				s.ID |= 0xf000000000000000 // also the high bytes matter
			}
			s.Name = fmt.Sprintf("op%d", i)
			switch k := c.Choose("parent", 2+i); k {
			case 0:
				if i > 0 {
					s.ZeroParent = c.Flip("parent sent as zero bytes")
				}
			case 1:
				s.Parent = 0xabc0 + uint64(i)
			default:
				s.Parent = spans[k-2].ID
				depth[i] = depth[k-2] + 1
			}
			s.Start = base + uint64(starts[i])*unit + 123456
			s.End = s.Start + uint64(20+7*i)*ms
		}
		for i := range spans {
			spans[i].Svc = []string{"svcA", "svcB"}[depth[i]%2]
		}
		out := make([]jsim.Span, n)
		for i, p := range arrival {
			out[i] = spans[p]
		}
		return out
	}
	judge := func(c *mc.Ctx, spans []jsim.Span, grouping int) error {
		rep, err := run([]*api_v3.SpansResponseChunk{jsim.Chunk(7, spans, grouping)}, 1000)
		d := describe(spans)
		c.Observe("%s grouping=%d", d, grouping)
		if err != nil {
			return fmt.Errorf("spans %s: the command failed: %v", d, err)
		}
		if e := judgeRoots(spans, forest(spans), rep); e != nil {
			return fmt.Errorf("spans %s (grouping %d): %v", d, grouping, e)
		}
		return nil
	}
	r.Explore(mc.Options{Name: "small-forests", DevBound: -1}, func(c *mc.Ctx) error {
		n := 1 + c.Choose("spans", 4)
		arrival := permutation(c, "arrival", n)
		starts := permutation(c, "start", n)
		g := (arrival[0] + starts[n-1] + n) % 4
		if n <= 3 {
			g = c.Choose("grouping", 4)
		}
		return judge(c, gen(c, n, arrival, starts), g)
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "larger-forests", DevBound: -1}, func(c *mc.Ctx) error {
		n := 5 + c.Choose("spans", r.Pick(1, 2))
		orders := [][]int{{0, 1, 2, 3, 4, 5}, {5, 4, 3, 2, 1, 0}, {2, 0, 4, 1, 5, 3}, {3, 5, 1, 0, 4, 2}, {1, 4, 0, 5, 2, 3}}
		cut := func(o []int) []int {
			var l []int
			for _, x := range o {
				if x < n {
					l = append(l, x)
				}
			}
			return l
		}
		return judge(c, gen(c, n, cut(orders[c.Choose("arrival", 5)]), cut(orders[c.Choose("start", 3)])), c.Choose("grouping", 2)*2+1)
	})
	if r.Violated() {
		return
	}
	attr := func(k int) *common.AnyValue {
		switch k {
		case 0:
			return jsim.Str("x")
		case 1:
			return &common.AnyValue{Value: &common.AnyValue_BoolValue{BoolValue: true}}
		case 2:
			return &common.AnyValue{Value: &common.AnyValue_IntValue{IntValue: -3}}
		case 3:
			return &common.AnyValue{Value: &common.AnyValue_DoubleValue{DoubleValue: 1.5}}
		case 4:
			return &common.AnyValue{Value: &common.AnyValue_BytesValue{BytesValue: []byte{0, 255}}}
		case 5:
			return &common.AnyValue{} // an empty value
		case 6:
			return nil
		case 7:
			return &common.AnyValue{Value: &common.AnyValue_ArrayValue{ArrayValue: &common.ArrayValue{Values: []*common.AnyValue{jsim.Str("a"), {}}}}}
		case 8:
			return &common.AnyValue{Value: &common.AnyValue_KvlistValue{KvlistValue: &common.KeyValueList{Values: []*common.KeyValue{{Key: "k", Value: jsim.Str("v")}, {Key: "e"}}}}}
		}
		return &common.AnyValue{Value: &common.AnyValue_ArrayValue{ArrayValue: &common.ArrayValue{}}}
	}
	r.Explore(mc.Options{Name: "attributes", DevBound: -1}, func(c *mc.Ctx) error {
		n := 1 + c.Choose("spans", 2)
		ord := permutation(c, "arrival", n)
		spans := gen(c, n, ord, ord)
		for i := range spans {
			for j, m := 0, c.Choose("attributes", 3); j < m; j++ {
				spans[i].Attrs = append(spans[i].Attrs, &common.KeyValue{Key: fmt.Sprintf("k%d", j), Value: attr(c.Choose("kind", 10))})
			}
		}
		return judge(c, spans, 1)
	})
}

// C16 ------------------------------------------------------------------------

// compacted is the definition of a compacted trace, from the original tree alone.
func compacted(w *want, parentSvc *string) []*want {
	var kids []*want
	for _, k := range w.kids {
		kids = append(kids, compacted(k, &w.sp.Svc)...)
	}
	leafDB := len(w.kids) == 0 && w.sp.DB != ""
	if parentSvc == nil || *parentSvc != w.sp.Svc || leafDB {
		n := &want{sp: w.sp, svc: w.sp.Svc, kids: kids}
		if leafDB {
			n.svc = w.sp.DB + " (" + w.sp.Svc + ")"
		}
		return []*want{n}
	}
	return kids
}

func counts(w *want, m map[string]int) {
	m[w.svc]++
	for _, k := range w.kids {
		counts(k, m)
	}
}

func maxCount(w *want) int {
	m := map[string]int{}
	counts(w, m)
	x := 0
	for _, v := range m {
		if v > x {
			x = v
		}
	}
	return x
}

func c16(r *mc.Run) {
	r.Bound("every ordered tree of up to 5 spans x every assignment of 3 services x every set of spans having a database system; 6 spans with 2 services (thorough)")
	r.Bound("several roots: every forest of up to 4 spans with missing parents x 2 services x database flags")
	tree := func(c *mc.Ctx, n, nsvc int) []jsim.Span {
		spans := make([]jsim.Span, n)
		stack := []int{}
		for i := range spans {
			s := &spans[i]
			s.ID = uint64(i + 1)
			s.Name = fmt.Sprintf("op%d", i)
			s.Start = base + uint64(i)*10*ms
			s.End = s.Start + uint64(100-10*i)*ms
			if i > 0 {
				d := 1 + c.Choose("depth", len(stack))
				stack = stack[:d]
				s.Parent = uint64(stack[d-1] + 1)
			}
			stack = append(stack, i)
			s.Svc = []string{"s1", "s2", "s3"}[c.Choose("service", nsvc)]
			if c.Flip("database") {
				s.DB = []string{"mysql", "redis"}[i%2]
			}
		}
		return spans
	}
	judge := func(c *mc.Ctx, spans []jsim.Span) error {
		rep, err := run([]*api_v3.SpansResponseChunk{jsim.Chunk(7, spans, 1)}, 1)
		d := describe(spans)
		c.Observe("%s", d)
		if err != nil {
			return fmt.Errorf("spans %s: the command failed: %v", d, err)
		}
		var roots []*want
		for _, w := range forest(spans) {
			roots = append(roots, compacted(w, nil)...)
		}
		if e := judgeRoots(spans, roots, rep); e != nil {
			return fmt.Errorf("spans %s: compacted: %v", d, e)
		}
		return nil
	}
	r.Explore(mc.Options{Name: "trees", DevBound: -1}, func(c *mc.Ctx) error {
		n := 1 + c.Choose("spans", 4)
		return judge(c, tree(c, n, 3))
	})
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "five-spans", DevBound: -1}, func(c *mc.Ctx) error { return judge(c, tree(c, 5, r.Pick(2, 3))) })
	if r.Violated() {
		return
	}
	r.Explore(mc.Options{Name: "forests", DevBound: -1}, func(c *mc.Ctx) error {
		n := 2 + c.Choose("spans", 3)
		spans := tree(c, n, 2)
		lost := false
		for i := 1; i < n; i++ {
			if c.Flip("parent missing") {
				spans[i].Parent = uint64(0x9000 + i)
				lost = true
			}
		}
		if !lost {
			return nil
		}
		return judge(c, spans)
	})
	if r.Thorough() && !r.Violated() {
		r.Explore(mc.Options{Name: "six-spans", DevBound: -1}, func(c *mc.Ctx) error { return judge(c, tree(c, 6, 2)) })
	}
}
