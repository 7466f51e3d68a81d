package gen

import (
	"fmt"

	"verifharness/model"
)

func named(n string) model.Decl { return model.Decl{Name: model.N(n)} }

func ann(d model.Decl, name, value string) model.Decl {
	d.Anns = append(d.Anns, model.Ann{Name: name, Params: []model.AnnParam{{Name: "name", Value: value}}})
	return d
}

// kinds are references to types of all the kinds.
func kinds() []model.Ref {
	var l []model.Ref
	for _, n := range []string{"boolean", "integer", "long", "float", "string", "date", "interface", "state", "part", "item"} {
		l = append(l, model.Plain(n))
	}
	for _, n := range []string{"string", "integer", "boolean", "long", "float", "date", "state", "part", "item"} {
		l = append(l, model.List(n))
	}
	for _, n := range []string{"string", "integer", "boolean", "long", "float", "date", "state", "part", "item"} {
		l = append(l, model.Map("string", n))
	}
	return l
}

func filled(kind, name string, n int) *model.Type {
	t := &model.Type{Decl: named(name), Kind: kind}
	ks := kinds()
	for i := 0; i < n; i++ {
		t.Attrs = append(t.Attrs, &model.Attr{Decl: named(fmt.Sprintf("a%02d", i)), Ref: ks[i%len(ks)]})
	}
	return t
}

// RichTypes returns declarations of types that use everything.
func RichTypes() []*model.Type {
	state := &model.Type{Decl: model.Decl{Name: model.N("state"), Doc: []string{"State."}}, Kind: "enum"}
	state.Values = []*model.Value{{named("ready")}, {named("not_ready")}, {ann(named("weird"), "json", "we-ird é")}, {ann(named("renamed"), "go", "Other")}, {named("AWS_ready")}}
	mode := &model.Type{Decl: ann(named("run_mode"), "go", "ExecMode"), Kind: "enum", Values: []*model.Value{{named("fast")}, {named("slow")}}}
	part := &model.Type{Decl: named("part"), Kind: "struct"}
	part.Attrs = []*model.Attr{
		{Decl: named("size"), Ref: model.Plain("integer")},
		{Decl: named("label"), Ref: model.Plain("string")},
		{Decl: named("parts"), Ref: model.List("part")},
		{Decl: named("item"), Ref: model.Plain("item")},
	}
	item := &model.Type{Decl: model.Decl{Name: model.N("item"), Doc: []string{"An item.", "", "With `code`."}}, Kind: "class"}
	item.Attrs = []*model.Attr{
		{Decl: named("name"), Ref: model.Plain("string")},
		{Decl: named("enabled"), Ref: model.Plain("boolean")},
		{Decl: named("item_state"), Ref: model.Plain("state")},
	}
	thing := &model.Type{Decl: named("AWS_thing"), Kind: "class"}
	for i, r := range kinds() {
		thing.Attrs = append(thing.Attrs, &model.Attr{Decl: named(fmt.Sprintf("x%02d_%s", i, r.Name().Snake())), Ref: r})
	}
	thing.Attrs = append(thing.Attrs,
		&model.Attr{Decl: named("linked_item"), Ref: model.Plain("item"), Link: true},
		&model.Attr{Decl: named("linked_items"), Ref: model.List("item"), Link: true},
		&model.Attr{Decl: named("linked_renamed"), Ref: model.List("odd_name"), Link: true},
	)
	odd := &model.Type{Decl: ann(named("odd_name"), "go", "ODD"), Kind: "class"}
	odd.Attrs = []*model.Attr{
		{Decl: ann(named("first"), "json", "the-first"), Ref: model.Plain("string")},
		{Decl: ann(named("second"), "go", "SecondOne"), Ref: model.Plain("integer")},
		{Decl: ann(ann(named("third"), "json", "third_x"), "go", "ThirdOne"), Ref: model.List("string")},
		{Decl: named("CPU_count"), Ref: model.Plain("integer")},
		{Decl: named("my_URL"), Ref: model.Plain("string")},
		{Decl: named("exec_mode"), Ref: model.Plain("run_mode")},
	}
	words := &model.Type{Decl: named("words"), Kind: "struct"}
	for i, w := range []string{"type", "range", "default", "func", "map", "go", "interface", "select", "var", "package", "return", "string", "value", "object", "bitmap", "err", "iterator", "stream", "count", "text"} {
		ks := kinds()
		words.Attrs = append(words.Attrs, &model.Attr{Decl: named(w), Ref: ks[(i*7)%len(ks)]})
	}
	return []*model.Type{state, mode, part, item, thing, odd, words,
		{Decl: named("nothing"), Kind: "class"}, {Decl: named("empty_struct"), Kind: "struct"}, {Decl: named("void_struct"), Kind: "struct", Attrs: []*model.Attr{{Decl: named("only"), Ref: model.Plain("string")}}},
		filled("class", "class29", 29), filled("class", "class30", 30), filled("class", "class61", 61),
		filled("struct", "struct32", 32), filled("struct", "struct33", 33), filled("struct", "struct64", 64)}
}

// Rich returns a model that uses everything.
func Rich() *model.Model {
	root := &model.Resource{Decl: named("root")}
	return &model.Model{Services: []*model.Service{{Name: model.N("my_service"), Versions: []*model.Version{{Name: model.N("v1"), Types: RichTypes(), Resources: []*model.Resource{root}}}}}}
}

func params(m *model.Method, l ...*model.Param) *model.Method {
	m.Params = append(m.Params, l...)
	return m
}

func par(name string, r model.Ref, dir string) *model.Param {
	return &model.Param{Decl: named(name), Ref: r, In: dir != "out", Out: dir != "in"}
}

func method(name string, l ...*model.Param) *model.Method {
	return params(&model.Method{Decl: named(name)}, l...)
}

// scalars returns input parameters of all the scalar types.
func scalars() []*model.Param {
	var l []*model.Param
	for i, n := range []string{"boolean", "integer", "long", "float", "string", "date", "state"} {
		p := par(fmt.Sprintf("p%d_%s", i, n), model.Plain(n), "in")
		switch i {
		case 1:
			p.Decl = ann(p.Decl, "http", "http_name")
		case 2:
			p.Decl = ann(p.Decl, "json", "json_name")
		case 3:
			p.Decl = ann(ann(p.Decl, "json", "unused"), "http", "used")
		case 4:
			p.Decl = ann(p.Decl, "go", "Renamed")
		}
		l = append(l, p)
	}
	return l
}

// RichClients returns a model with methods of all the kinds.
func RichClients() *model.Model {
	m := Rich()
	v := m.Services[0].Versions[0]
	paging := func(l ...*model.Param) []*model.Param {
		page, size := par("page", model.Plain("integer"), "in out"), par("size", model.Plain("integer"), "in out")
		page.Default, size.Default = 1, 100
		return append(append([]*model.Param{page, size,
			par("total", model.Plain("integer"), "out"), par("items", model.List("AWS_thing"), "out")}, l...), scalars()...)
	}
	things := &model.Resource{Decl: named("things")}
	things.Methods = []*model.Method{
		method("list", paging()...),
		method("add", append(scalars(), par("body", model.Plain("AWS_thing"), "in out"))...),
		method("search", paging(par("body", model.Plain("part"), "in"))...),
	}
	things.Locators = []*model.Locator{
		{Decl: named("thing"), Target: model.N("thing"), Variable: true},
		{Decl: ann(named("special_case"), "http", "special-http"), Target: model.N("thing")},
	}
	thing := &model.Resource{Decl: named("thing")}
	in, out := []*model.Param{}, []*model.Param{}
	for i, r := range kinds() {
		p := par(fmt.Sprintf("i%02d", i), r, "in")
		if i%5 == 0 {
			p.Decl = ann(p.Decl, "json", fmt.Sprintf("in-%d", i))
		}
		in = append(in, p)
		q := par(fmt.Sprintf("o%02d", i), r, []string{"out", "in out"}[i%2])
		if i%5 == 1 {
			q.Decl = ann(q.Decl, "json", fmt.Sprintf("out-%d", i))
		}
		out = append(out, q)
	}
	act := method("do_it", append(in, out...)...)
	act2 := method("do_more", par("count", model.Plain("integer"), "in"), par("done", model.Plain("boolean"), "out"))
	act2.Decl = ann(act2.Decl, "http", "more-http")
	thing.Methods = []*model.Method{
		method("get", append(scalars(), par("body", model.Plain("AWS_thing"), "out"))...),
		method("update", append(scalars(), par("body", model.Plain("AWS_thing"), "in out"))...),
		method("delete", scalars()...),
		act, act2, method("ping"),
	}
	thing.Locators = []*model.Locator{{Decl: named("sub_part"), Target: model.N("sub_part")}, {Decl: named("key_item"), Target: model.N("sub_part"), Variable: true}}
	sub := &model.Resource{Decl: named("sub_part")}
	sub.Methods = []*model.Method{
		method("get", par("body", model.Plain("part"), "out")),
		method("post", par("request", model.Plain("part"), "in"), par("response", model.Plain("item"), "out")),
		method("async_update", append(scalars(), par("body", model.Plain("part"), "in out"))...),
		method("async_delete", scalars()...),
	}
	v.Resources[0].Locators = []*model.Locator{{Decl: named("things"), Target: model.N("things")}}
	v.Resources = append(v.Resources, things, thing, sub)
	v.Errors = []*model.Error{{Decl: named("not_ready"), Code: 7}, {Decl: named("AWS_problem"), Code: 0}}
	return m
}

// Verified returns the model of the code that is verified: one class and one struct for each kind of attribute, and types with
// as many attributes as possible.
func Verified() *model.Model {
	types := RichTypes()[:4]
	// A struct that isn't recursive, used instead of part, as its document is a function of its content:
	types = append(types, &model.Type{Decl: named("piece"), Kind: "struct", Attrs: []*model.Attr{
		{Decl: named("size"), Ref: model.Plain("integer")},
		{Decl: named("items"), Ref: model.List("item")},
		{Decl: named("label"), Ref: model.Plain("string")},
		{Decl: named("item"), Ref: model.Plain("item")},
	}})
	ks := kinds()
	for i := range ks {
		if fmt.Sprint(ks[i].Element) == fmt.Sprint(model.N("part")) {
			ks[i].Element = model.N("piece")
		}
	}
	for i := 0; i < len(ks)+2; i++ {
		for _, kind := range []string{"class", "struct"} {
			t := &model.Type{Decl: named(fmt.Sprintf("%s_%02d", map[string]string{"class": "k", "struct": "s"}[kind], i)), Kind: kind}
			a := &model.Attr{Decl: named("middle")}
			switch {
			case i < len(ks):
				a.Ref = ks[i]
			case i == len(ks):
				a.Ref, a.Link = model.Plain("item"), true
			default:
				a.Ref, a.Link = model.List("item"), true
			}
			t.Attrs = []*model.Attr{{Decl: named("afirst"), Ref: model.Plain("integer")}, a, {Decl: named("zlast"), Ref: model.Plain("string")}}
			types = append(types, t)
		}
	}
	for _, w := range []struct {
		kind string
		n    int
	}{{"class", 29}, {"class", 30}, {"class", 61}, {"struct", 32}, {"struct", 33}, {"struct", 64}} {
		t := &model.Type{Decl: named(fmt.Sprintf("wide_%s%d", w.kind, w.n)), Kind: w.kind}
		for i := 0; i < w.n; i++ {
			t.Attrs = append(t.Attrs, &model.Attr{Decl: named(fmt.Sprintf("a%02d", i)), Ref: model.Plain([]string{"boolean", "integer", "string", "long"}[i%4])})
		}
		types = append(types, t)
	}
	return &model.Model{Services: []*model.Service{{Name: model.N("my_service"), Versions: []*model.Version{{Name: model.N("v1"), Types: types, Resources: verifiedResources(ks)}}}}}
}

// verifiedResources returns resources with methods of all the kinds, and with parameters of the given types.
func verifiedResources(ks []model.Ref) []*model.Resource {
	paging := func(l ...*model.Param) []*model.Param {
		page, size := par("page", model.Plain("integer"), "in out"), par("size", model.Plain("integer"), "in out")
		page.Default, size.Default = 1, 100
		return append(append([]*model.Param{page, size,
			par("total", model.Plain("integer"), "out"), par("items", model.List("item"), "out")}, l...), scalars()...)
	}
	things := &model.Resource{Decl: named("things")}
	things.Methods = []*model.Method{
		method("list", paging()...),
		method("add", append(scalars(), par("body", model.Plain("item"), "in out"))...),
		method("search", paging(par("body", model.Plain("piece"), "in"))...),
	}
	things.Locators = []*model.Locator{
		{Decl: named("thing"), Target: model.N("thing"), Variable: true},
		{Decl: ann(named("special_case"), "http", "special-http"), Target: model.N("thing")},
	}
	thing := &model.Resource{Decl: named("thing")}
	thing.Methods = []*model.Method{
		method("get", append(scalars(), par("body", model.Plain("item"), "out"))...),
		method("update", append(scalars(), par("body", model.Plain("item"), "in out"))...),
		method("delete", scalars()...),
		method("ping"),
	}
	for i := 0; i < len(ks); i += 3 {
		act := method(fmt.Sprintf("act_%02d", i))
		for j := i; j < i+3 && j < len(ks); j++ {
			p, q := par(fmt.Sprintf("i%02d", j), ks[j], "in"), par(fmt.Sprintf("o%02d", j), ks[j], []string{"out", "in out"}[j%2])
			if j%5 == 0 {
				p.Decl = ann(p.Decl, "json", fmt.Sprintf("in-%d", j))
			}
			if j%5 == 1 {
				q.Decl = ann(q.Decl, "json", fmt.Sprintf("out-%d", j))
			}
			act.Params = append(act.Params, p, q)
		}
		if i%2 == 1 {
			act.Decl = ann(act.Decl, "http", fmt.Sprintf("act-http-%d", i))
		}
		thing.Methods = append(thing.Methods, act)
	}
	thing.Locators = []*model.Locator{{Decl: named("sub_part"), Target: model.N("sub_part")}, {Decl: named("key_item"), Target: model.N("sub_part"), Variable: true}}
	sub := &model.Resource{Decl: named("sub_part")}
	sub.Methods = []*model.Method{
		method("get", par("body", model.Plain("piece"), "out")),
		method("post", par("request", model.Plain("piece"), "in"), par("response", model.Plain("item"), "out")),
		method("async_update", append(scalars(), par("body", model.Plain("piece"), "in out"))...),
		method("async_delete", scalars()...),
	}
	root := &model.Resource{Decl: named("root")}
	root.Locators = []*model.Locator{{Decl: named("things"), Target: model.N("things")}}
	return []*model.Resource{root, things, thing, sub}
}
