// Package c11: series keys are immutable, canonical and unambiguous.
package c11

import (
	"github.com/spacemonkeygo/monkit/v3"

	"vharness/vrf"
)

type kv struct{ k, v string }

// set is the reference: the list of tags, in order of first setting.
func set(tags []kv, k, v string) []kv {
	r := make([]kv, 0, len(tags)+1)
	found := false
	for _, t := range tags {
		if t.k == k {
			t.v = v
			found = true
		}
		r = append(r, t)
	}
	if !found {
		r = append(r, kv{k, v})
	}
	return r
}

func special(c byte, eq bool) bool {
	return vrf.Or(c == ',', c == ' ', vrf.And(eq, c == '='))
}

func escape(s string, eq bool) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if special(s[i], eq) {
			b = append(b, '\\')
		}
		b = append(b, s[i])
	}
	return string(b)
}

func less(a, b string) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// text is the reference form of tags.
func text(tags []kv) string {
	l := append([]kv(nil), tags...)
	for i := range l {
		for j := i; j > 0 && less(l[j].k, l[j-1].k); j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	s := ""
	for i, t := range l {
		if i > 0 {
			s += ","
		}
		s += escape(t.k, true) + "=" + escape(t.v, true)
	}
	return s
}

func same(t *monkit.TagSet, tags []kv) {
	vrf.Assert(t.Len() == len(tags), "it holds exactly the tags set")
	vrf.Assert(len(t.All()) == len(tags), "it lists exactly the tags set")
	for _, x := range tags {
		vrf.Assert(vrf.EqStr(t.Get(x.k), x.v), "every tag has the value set last")
		v, ok := t.All()[x.k]
		vrf.Assert(vrf.And(ok, vrf.EqStr(v, x.v)), "every tag is listed with the value set last")
	}
}

// letter is any byte above '=', which needs no escaping.
func letter(name string) string {
	s := vrf.StringN(name, 1)
	vrf.Assume(s[0] > '=')
	return s
}

// H_history: every sequence of the ways to set tags, on any earlier set; all
// earlier sets stay as they were, also when their text was asked for.
func H_history() {
	type node struct {
		set  *monkit.TagSet
		tags []kv
	}
	nodes := []node{{nil, nil}}
	n := vrf.Bound("steps", 2, 3)
	for i := 0; i < n; i++ {
		from := nodes[vrf.Choose("from", len(nodes))]
		if vrf.Choose("text first", 2) == 1 {
			vrf.Assert(vrf.EqStr(from.set.String(), text(from.tags)), "the text is that of the tags")
		}
		k, v := letter("k"), letter("v")
		var t *monkit.TagSet
		tags := from.tags
		switch vrf.Choose("how", 6) {
		case 0:
			t = from.set.Set(k, v)
			tags = set(tags, k, v)
		case 1:
			k2, v2 := letter("k"), letter("v")
			args := []monkit.SeriesTag{monkit.NewSeriesTag(k, v), monkit.NewSeriesTag(k2, v2)}
			t = from.set.SetTags(args...)
			args[0].Val = "changed"
			tags = set(set(tags, k, v), k2, v2)
		case 2:
			m := map[string]string{k: v, "z": "zz"}
			if k == "z" {
				vrf.Stop()
			}
			t = from.set.SetAll(m)
			m["new"] = "new"
			m[k] = "changed"
			tags = set(set(tags, k, v), "z", "zz")
		case 3:
			t = from.set.SetTags()
		case 4:
			key := monkit.SeriesKey{Measurement: "m", Tags: from.set}.WithTag(k, v)
			vrf.Assert(key.Measurement == "m", "the measurement stays")
			t = key.Tags
			tags = set(tags, k, v)
		case 5:
			key := monkit.SeriesKey{Measurement: "m", Tags: from.set}.WithTags(monkit.NewSeriesTag(k, v))
			vrf.Assert(key.Measurement == "m", "the measurement stays")
			t = key.Tags
			tags = set(tags, k, v)
		}
		nodes = append(nodes, node{t, tags})
	}
	for _, x := range nodes {
		same(x.set, x.tags)
		vrf.Assert(vrf.EqStr(x.set.String(), text(x.tags)), "the text is that of the tags")
		vrf.Assert(vrf.EqStr(x.set.String(), text(x.tags)), "the text stays the same")
		vrf.Assert(x.set.Get("absent") == "", "an absent tag is empty")
	}
}

// H_text: the text of one tag, measurement and field of any bytes.
func H_text() {
	n := vrf.Bound("length", 3, 4)
	m := vrf.String("m", n)
	f := vrf.String("f", n)
	key := monkit.NewSeriesKey(m)
	vrf.Assert(vrf.EqStr(key.String(), escape(m, false)), "the text of a plain key is its measurement")
	vrf.Assert(vrf.EqStr(key.WithField(f), escape(m, false)+" "+escape(f, true)), "the field follows after a space")
}

// H_tag_text: a tag of any bytes.
func H_tag_text() {
	n := vrf.Bound("length", 3, 4)
	k, v := vrf.String("k", n), vrf.String("v", n)
	key := monkit.NewSeriesKey("m").WithTag(k, v)
	want := escape(k, true) + "=" + escape(v, true)
	vrf.Assert(vrf.EqStr(key.Tags.String(), want), "a tag is key=value, escaped")
	vrf.Assert(vrf.EqStr(key.String(), "m,"+want), "the tags follow after a comma")
	vrf.Assert(vrf.EqStr(key.WithField("f"), "m,"+want+" f"), "the field follows after a space")
}

// H_order: the text does not depend on the order of setting nor on the order a
// map is walked in.
func H_order() {
	n := vrf.Bound("tags", 2, 3)
	l := vrf.Bound("length", 2, 2)
	var ks, vs []string
	var tags []kv
	for i := 0; i < n; i++ {
		k, v := vrf.String("k", l), vrf.StringN("v", 1)
		for _, o := range ks {
			vrf.Assume(!vrf.EqStr(o, k))
		}
		ks, vs = append(ks, k), append(vs, v)
		tags = append(tags, kv{k, v})
	}
	vrf.MapOrder(true)
	var t *monkit.TagSet
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	for len(left) > 0 {
		j := vrf.Choose("next", len(left))
		t = t.Set(ks[left[j]], vs[left[j]])
		left = append(append([]int{}, left[:j]...), left[j+1:]...)
	}
	vrf.Assert(vrf.EqStr(t.String(), text(tags)), "the text only depends on the tags")
}

func noBackslash(s string) string {
	for i := 0; i < len(s); i++ {
		vrf.Assume(s[i] != '\\')
	}
	return s
}

type full struct {
	m, f string
	tags []kv
}

func anyKey(l, tags, tl int) (x full) {
	x.m = noBackslash(vrf.String("m", l))
	x.f = noBackslash(vrf.String("f", l))
	for i := vrf.Choose("tags", tags+1); i > 0; i-- {
		x.tags = append(x.tags, kv{noBackslash(vrf.String("k", tl)), noBackslash(vrf.String("v", tl))})
	}
	return x
}

func (x full) text() string {
	k := monkit.NewSeriesKey(x.m)
	for _, t := range x.tags {
		k = k.WithTag(t.k, t.v)
	}
	return k.WithField(x.f)
}

// H_unambiguous: equal texts come from equal keys.
func H_unambiguous() {
	l := vrf.Bound("length", 1, 2)
	a, b := anyKey(l, 1, 1), anyKey(l, 1, 1)
	eq := false
	if len(a.tags) == len(b.tags) {
		eq = vrf.And(vrf.EqStr(a.m, b.m), vrf.EqStr(a.f, b.f))
		for i := range a.tags {
			eq = vrf.And(eq, vrf.EqStr(a.tags[i].k, b.tags[i].k), vrf.EqStr(a.tags[i].v, b.tags[i].v))
		}
	}
	vrf.Assert(vrf.EqStr(a.text(), b.text()) == eq, "two keys have the same text exactly when they are equal")
}

// H_unambiguous_long: without tags and with longer parts against one tag.
func H_unambiguous_long() {
	l := vrf.Bound("length", 4, 5)
	m := "m" + noBackslash(vrf.String("m", l))
	f := noBackslash(vrf.StringN("f", 1))
	a := full{m: m, f: f}
	if vrf.Choose("measurement with delimiters", 2) == 1 {
		a = full{m: "m", f: f, tags: []kv{{noBackslash(vrf.String("k", 1)), noBackslash(vrf.String("v", l))}}}
	}
	b := full{m: "m", f: noBackslash(vrf.StringN("f", 1)), tags: []kv{{noBackslash(vrf.StringN("k", 1)), noBackslash(vrf.StringN("v", 1))}}}
	eq := false
	if len(a.tags) == 1 {
		eq = vrf.And(vrf.EqStr(a.f, b.f), vrf.EqStr(a.tags[0].k, b.tags[0].k), vrf.EqStr(a.tags[0].v, b.tags[0].v))
	}
	vrf.Assert(vrf.EqStr(a.text(), b.text()) == eq, "two keys have the same text exactly when they are equal")
}

// H_two_tags: two tags against one.
func H_two_tags() {
	a := full{m: "m", f: "f", tags: []kv{{"a", noBackslash(vrf.String("v", 1))}, {noBackslash(vrf.StringN("k", 1)), noBackslash(vrf.String("v", 1))}}}
	vrf.Assume(a.tags[1].k != "a")
	l := vrf.Bound("length", 4, 6)
	b := full{m: "m", f: "f", tags: []kv{{noBackslash(vrf.String("k", 1)), noBackslash(vrf.String("v", l))}}}
	vrf.Assert(!vrf.EqStr(a.text(), b.text()), "a key with two tags is never written as one with one tag")
}

// H_nil: the empty set in each form.
func H_nil() {
	var t *monkit.TagSet
	e := t.SetTags()
	for _, x := range []*monkit.TagSet{t, e, e.SetAll(nil), {}} {
		vrf.Assert(x.Len() == 0 && len(x.All()) == 0 && x.Get("a") == "" && x.String() == "", "an empty set has no tags and no text")
		vrf.Assert(monkit.SeriesKey{Measurement: "m", Tags: x}.String() == "m", "a key without tags is its measurement")
		vrf.Assert(x.Set("a", "b").String() == "a=b", "a tag can be set on an empty set")
	}
}

// H_many: many tags, set in any rotation, one of them with any value.
func H_many() {
	n := vrf.Bound("many tags", 50, 50)
	first := vrf.Choose("first", n)
	one := letter("v")
	var tags []kv
	var args []monkit.SeriesTag
	m := map[string]string{}
	for i := 0; i < n; i++ {
		k := (first + i*7) % n
		name, v := "t"+string(rune('A'+k)), string(rune('a'+k%26))
		if k == 3 {
			v = one
		}
		tags = set(tags, name, v)
		args = append(args, monkit.NewSeriesTag(name, v))
		m[name] = v
	}
	var step *monkit.TagSet
	for _, t := range args {
		step = step.Set(t.Key, t.Val)
	}
	var none *monkit.TagSet
	for _, t := range []*monkit.TagSet{step, none.SetTags(args...), none.SetAll(m), monkit.NewSeriesKey("m").WithTags(args...).Tags} {
		same(t, tags)
		vrf.Assert(vrf.EqStr(t.String(), text(tags)), "the text is that of the tags")
		more := t.Set("tA", "new")
		same(t, tags)
		same(more, set(tags, "tA", "new"))
	}
}
