// Package c17: trace headers survive the round trip and bad ones are harmless.
package c17

import (
	mh "github.com/spacemonkeygo/monkit/v3/http"

	"vharness/vrf"
)

type hdr map[string]string

func (h hdr) Get(k string) string { return h[k] }
func (h hdr) Set(k, v string)     { h[k] = v }

func ref(v int64) *int64 { return &v }

// H_round_trip: any ids.
func H_round_trip() {
	t, p := int64(-5), int64(0x1234567890)
	switch vrf.Choose("symbolic", vrf.Bound("symbolic ids (2: one of the ids, 3: also both)", 2, 3)) {
	case 0:
		t = vrf.Int64("trace")
	case 1:
		p = vrf.Int64("parent")
	case 2:
		t, p = vrf.Int64("trace"), vrf.Int64("parent")
	}
	s := vrf.Choose("sampled", 2) == 1
	h := hdr{}
	mh.TraceInfo{TraceId: ref(t), ParentId: ref(p), Sampled: s}.SetHeader(h)
	got := mh.TraceInfoFromHeader(h)
	vrf.Assert(got.TraceId != nil && got.ParentId != nil, "the ids are read back")
	vrf.Assert(*got.TraceId == t, "the trace id is the same")
	vrf.Assert(*got.ParentId == p, "the parent id is the same")
	vrf.Assert(got.Sampled == s, "the sampled flag is the same")
	vrf.Assert(len(got.Baggage) == 0, "there is no baggage")
}

// H_partial: without both ids only the request to sample is sent.
func H_partial() {
	var x mh.TraceInfo
	switch vrf.Choose("ids", 3) {
	case 0:
		x.TraceId = ref(vrf.Int64("trace"))
	case 1:
		x.ParentId = ref(vrf.Int64("parent"))
	}
	x.Sampled = vrf.Bool("sampled")
	h := hdr{}
	x.SetHeader(h)
	got := mh.TraceInfoFromHeader(h)
	vrf.Assert(got.TraceId == nil && got.ParentId == nil, "no ids are made up")
	vrf.Assert(got.Sampled == x.Sampled, "the sampled flag is the same")
}

// H_baggage: one or two baggage items of any bytes but the separators, one or
// two allowed keys. Only the first equals sign separates.
func H_baggage() {
	l := vrf.Bound("length", 2, 3)
	item := func(n string) string {
		s := vrf.String(n, l)
		for i := 0; i < len(s); i++ {
			vrf.Assume(vrf.And(s[i] != ',', s[i] != '='))
		}
		return s
	}
	bag := map[string]string{}
	k1, v1 := item("k1"), vrf.String("v1", l)
	for i := 0; i < len(v1); i++ {
		vrf.Assume(v1[i] != ',')
	}
	bag[k1] = v1
	if vrf.Choose("items", 2) == 1 {
		bag["other"] = "x"
	}
	allowed := []string{item("allowed")}
	if vrf.Choose("allowed", 2) == 1 {
		allowed = append(allowed, "other")
	}
	h := hdr{}
	mh.TraceInfo{TraceId: ref(5), ParentId: ref(6), Sampled: true, Baggage: bag}.SetHeader(h)
	got := mh.TraceInfoFromHeader(h, allowed...)
	vrf.Assert(got.TraceId != nil && *got.TraceId == 5 && *got.ParentId == 6 && got.Sampled, "the ids and the flag are read back")
	n := 0
	for k, v := range bag {
		in := false
		for _, a := range allowed {
			in = in || a == k
		}
		g, ok := got.Baggage[k]
		vrf.Assert(ok == in, "exactly the allowed baggage is read")
		if ok {
			n++
			vrf.Assert(vrf.EqStr(g, v), "baggage has the same value")
		}
	}
	vrf.Assert(len(got.Baggage) == n, "nothing but the baggage sent is read")
}

// H_allowed: any baggage header: only allowed keys are ever read.
func H_allowed() {
	h := hdr{"traceparent": "00-1-2-1", "baggage": vrf.String("baggage", vrf.Bound("header length", 5, 7))}
	a := vrf.String("allowed", 1)
	got := mh.TraceInfoFromHeader(h, a)
	for k := range got.Baggage {
		vrf.Assert(vrf.EqStr(k, a), "only allowed baggage keys are read")
	}
	none := mh.TraceInfoFromHeader(h)
	vrf.Assert(len(none.Baggage) == 0, "without allowed keys there is no baggage")
}

func hexDigit(c byte) bool {
	return vrf.Or(vrf.And(c >= '0', c <= '9'), vrf.And(c >= 'a', c <= 'f'), vrf.And(c >= 'A', c <= 'F'))
}

func hexVal(c byte) int64 {
	return vrf.IteInt64(c <= '9', int64(c)-'0', vrf.IteInt64(c <= 'F', int64(c)-'A'+10, int64(c)-'a'+10))
}

// H_traceparent: any header of up to some bytes: well-formed ones are read,
// others give nothing.
func H_traceparent() {
	s := vrf.String("traceparent", vrf.Bound("header length", 7, 9))
	h := hdr{"traceparent": s}
	withState := vrf.Choose("state", 2) == 1
	if withState {
		h["tracestate"] = "sampled=true"
	}
	got := mh.TraceInfoFromHeader(h)
	if s == "" {
		vrf.Assert(got.TraceId == nil && got.ParentId == nil && got.Sampled == withState, "without traceparent only the state counts")
		return
	}
	// the four parts
	var parts [4]int64
	var digits [4]int
	k := 0
	ok := true
	zero := true
	for i := 0; i < len(s); i++ {
		if s[i] == '-' {
			k++
			if k > 3 {
				ok = false
				break
			}
			continue
		}
		if !hexDigit(s[i]) {
			ok = false
			break
		}
		parts[k] = parts[k]<<4 | hexVal(s[i])
		digits[k]++
	}
	if ok && k == 3 {
		for _, d := range digits {
			ok = ok && d > 0
		}
		zero = parts[0] == 0
	} else {
		ok = false
	}
	if ok && zero {
		vrf.Assert(got.TraceId != nil && got.ParentId != nil, "a well-formed traceparent is read")
		vrf.Assert(vrf.And(*got.TraceId == parts[1], *got.ParentId == parts[2]), "the ids are those of the header")
		vrf.Assert(got.Sampled == (parts[3]&1 == 1), "the flag is that of the header")
	} else {
		vrf.Assert(got.TraceId == nil && got.ParentId == nil && !got.Sampled && got.Baggage == nil, "a malformed traceparent gives an empty TraceInfo")
	}
}

// H_digits: ids of 15 to 17 hex digits, of which any two are symbolic.
func H_digits() {
	n := []int{15, 16, 17}[vrf.Choose("digits", 3)]
	first, last := vrf.StringN("first", 1), vrf.StringN("last", 1)
	vrf.Assume(vrf.And(hexDigit(first[0]), hexDigit(last[0])))
	id := first + "9abcdef01234567"[:n-2] + last
	h := hdr{"traceparent": "00-" + id + "-7-01"}
	if vrf.Choose("which", 2) == 1 {
		h = hdr{"traceparent": "00-7-" + id + "-01"}
	}
	got := mh.TraceInfoFromHeader(h)
	var v int64
	for i := 0; i < n; i++ {
		v = v<<4 | hexVal(id[i])
	}
	fits := true
	if n > 16 {
		fits = id[0] == '0'
	}
	vrf.Assert(vrf.Iff(got.TraceId != nil, fits), "an id is read exactly when it fits")
	if got.TraceId != nil {
		vrf.Assert(vrf.Or(vrf.And(*got.TraceId == v, *got.ParentId == 7), vrf.And(*got.TraceId == 7, *got.ParentId == v)), "the id is that of the header")
		vrf.Assert(got.Sampled, "the flag is that of the header")
	}
}

// H_flags: any two flag digits, any version.
func H_flags() {
	f := vrf.StringN("flags", 2)
	v := vrf.StringN("version", 2)
	for _, s := range []string{f, v} {
		vrf.Assume(vrf.And(hexDigit(s[0]), hexDigit(s[1])))
	}
	got := mh.TraceInfoFromHeader(hdr{"traceparent": v + "-0a-0b-" + f})
	if hexVal(v[0]) == 0 && hexVal(v[1]) == 0 {
		vrf.Assert(got.TraceId != nil && *got.TraceId == 10 && *got.ParentId == 11, "the ids are those of the header")
		vrf.Assert(got.Sampled == (hexVal(f[1])&1 == 1), "sampled is the lowest bit of the flags")
	} else {
		vrf.Assert(got.TraceId == nil && got.ParentId == nil && !got.Sampled, "another version is not read")
	}
}

// H_state: any tracestate around or instead of the request to sample.
func H_state() {
	n := vrf.Bound("length", 3, 4)
	a, b := vrf.String("a", n), vrf.String("b", n)
	got := mh.TraceInfoFromHeader(hdr{"tracestate": a + "sampled=true" + b})
	vrf.Assert(got.Sampled, "a tracestate that contains sampled=true requests sampling")
	vrf.Assert(got.TraceId == nil && got.ParentId == nil, "a tracestate has no ids")
	other := vrf.String("other", 11)
	got = mh.TraceInfoFromHeader(hdr{"tracestate": other})
	vrf.Assert(!got.Sampled && got.TraceId == nil && got.ParentId == nil, "any other tracestate requests nothing")
	same := vrf.StringN("same", 12)
	vrf.Assume(same != "sampled=true")
	got = mh.TraceInfoFromHeader(hdr{"tracestate": same})
	vrf.Assert(!got.Sampled, "any other tracestate requests nothing")
}

// H_parent_wins: with a traceparent the tracestate does not matter.
func H_parent_wins() {
	f := vrf.Bool("sampled")
	tp := "00-0a-0b-00"
	if f {
		tp = "00-0a-0b-01"
	}
	h := hdr{"traceparent": tp, "tracestate": "sampled=true"}
	got := mh.TraceInfoFromHeader(h)
	vrf.Assert(got.Sampled == f && *got.TraceId == 10, "with a traceparent the tracestate does not matter")
}
