package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/metadata"
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/model"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// newRecord makes an empty record of the library.
func newRecord(msg string) proto.Message {
	switch msg {
	case "PhoneNumber":
		return &pn.PhoneNumber{}
	case "NumberFormat":
		return &metadata.NumberFormat{}
	case "PhoneNumberDesc":
		return &metadata.PhoneNumberDesc{}
	case "PhoneMetadata":
		return &metadata.PhoneMetadata{}
	}
	return &metadata.PhoneMetadataCollection{}
}

// recordVals are the values a field takes.
func recordVals(kind string) []any {
	switch kind {
	case "i32":
		return []any{int32(0), int32(1), int32(7), int32(-1), int32(1<<31 - 1), int32(-1 << 31)}
	case "u64":
		return []any{uint64(0), uint64(1), uint64(6502530000), uint64(1<<63 + 5), ^uint64(0)}
	case "str":
		return []any{"", "A", "é (1) \"$\""}
	case "bool":
		return []any{false, true}
	case "enum":
		return []any{int32(0), int32(1), int32(5), int32(10), int32(20)}
	case "strs":
		return []any{[]string{"A"}, []string{"B", "", "A", "B"}}
	case "i32s":
		return []any{[]int32{4}, []int32{-1, 9, 4, 9}}
	case "msg:PhoneNumberDesc":
		return []any{model.Record{}, model.Record{"ExampleNumber": "1", "PossibleLength": []int32{3, 5}}, model.Record{"NationalNumberPattern": "\\d", "PossibleLengthLocalOnly": []int32{0}}}
	case "msgs:NumberFormat":
		f, g := model.Record{"Pattern": "p", "Format": "f"}, model.Record{"Pattern": "q", "Format": "", "NationalPrefixOptionalWhenFormatting": true, "LeadingDigitsPattern": []string{"1", "2"}}
		return []any{[]model.Record{f}, []model.Record{g, f, g}}
	case "msgs:PhoneMetadata":
		f := model.Record{"Id": "AA", "CountryCode": int32(1), "GeneralDesc": model.Record{"ExampleNumber": "2"}}
		g := model.Record{"Id": "", "CountryCode": int32(0), "MainCountryForCode": false, "NumberFormat": []model.Record{{"Pattern": "", "Format": "$1"}}}
		return []any{[]model.Record{f}, []model.Record{g, f, f}}
	}
	panic(kind)
}

// recordOf reads a choice "msg field=i ...".
func recordOf(msg, choice string) model.Record {
	r := model.Record{}
	for _, kv := range strings.Fields(choice) {
		k, v, _ := strings.Cut(kv, "=")
		i, _ := strconv.Atoi(v)
		for _, f := range model.Records[msg] {
			if f.Go == k {
				r[k] = recordVals(f.Kind)[i]
			}
		}
	}
	return r
}

// fill builds the library's record by assigning its fields.
func fill(msg string, r model.Record) proto.Message {
	m := newRecord(msg)
	v := reflect.ValueOf(m).Elem()
	for _, f := range model.Records[msg] {
		x, ok := r[f.Go]
		if !ok {
			continue
		}
		fv := v.FieldByName(f.Go)
		switch x := x.(type) {
		case []string, []int32:
			// a list of the record's own
			s := reflect.ValueOf(x)
			fv.Set(reflect.AppendSlice(reflect.MakeSlice(fv.Type(), 0, s.Len()), s))
		case model.Record:
			fv.Set(reflect.ValueOf(fill(f.Kind[4:], x)))
		case []model.Record:
			for _, y := range x {
				fv.Set(reflect.Append(fv, reflect.ValueOf(fill(f.Kind[5:], y))))
			}
		default:
			p := reflect.New(fv.Type().Elem())
			p.Elem().Set(reflect.ValueOf(x).Convert(fv.Type().Elem()))
			fv.Set(p)
		}
	}
	return m
}

// read takes the library's record apart through its getters; presence is that
// of the field.
func read(msg string, m proto.Message) (model.Record, error) {
	r := model.Record{}
	v := reflect.ValueOf(m)
	for _, f := range model.Records[msg] {
		get := v.MethodByName("Get" + f.Go)
		if !get.IsValid() {
			return nil, fmt.Errorf("%s has no Get%s", msg, f.Go)
		}
		g := get.Call(nil)[0]
		fv := v.Elem().FieldByName(f.Go)
		if fv.IsNil() {
			if x := fmt.Sprint(g.Interface()); f.Default != "" && f.Kind != "enum" && x != f.Default || f.Kind == "enum" && g.Int() != 0 {
				return nil, diff(msg+".Get"+f.Go+" of an unset field", x, f.Default)
			}
			if f.Default == "" && !(g.Kind() == reflect.String && g.Len() == 0 || g.Kind() != reflect.String && g.IsNil()) {
				return nil, diff(msg+".Get"+f.Go+" of an unset field", g.Interface(), nil)
			}
			continue
		}
		switch kind := strings.SplitAfter(f.Kind, ":")[0]; kind {
		case "i32", "enum":
			r[f.Go] = int32(g.Int())
		case "u64":
			r[f.Go] = g.Uint()
		case "bool":
			r[f.Go] = g.Bool()
		case "str":
			r[f.Go] = g.String()
		case "strs":
			if g.Len() > 0 {
				r[f.Go] = append([]string(nil), g.Interface().([]string)...)
			}
		case "i32s":
			if g.Len() > 0 {
				r[f.Go] = append([]int32(nil), g.Interface().([]int32)...)
			}
		case "msg:":
			x, err := read(f.Kind[4:], g.Interface().(proto.Message))
			if err != nil {
				return nil, err
			}
			r[f.Go] = x
		case "msgs:":
			var xs []model.Record
			for i := 0; i < g.Len(); i++ {
				x, err := read(f.Kind[5:], g.Index(i).Interface().(proto.Message))
				if err != nil {
					return nil, err
				}
				xs = append(xs, x)
			}
			if xs != nil {
				r[f.Go] = xs
			}
		}
	}
	return r, nil
}

func sameRecord(what string, msg string, m proto.Message, want model.Record) error {
	got, err := read(msg, m)
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	if !reflect.DeepEqual(got, want) {
		return diff(what, got, want)
	}
	return nil
}

// recordOracle takes one record through everything a record goes through.
// args: message, choice of values.
func recordOracle(a []string) error {
	msg, want := a[0], recordOf(a[0], a[1])
	m := fill(msg, want)
	if err := sameRecord("getters of "+msg, msg, m, want); err != nil {
		return err
	}
	part := proto.MarshalOptions{AllowPartial: true}
	b, err := part.Marshal(m)
	if err != nil {
		return err
	}
	got, err := model.DecodeRecord(msg, b)
	if err != nil {
		return err
	}
	if !reflect.DeepEqual(got, want) {
		return diff("the bytes of "+msg, got, want)
	}
	for _, backwards := range []bool{false, true} {
		n := newRecord(msg)
		if err := (proto.UnmarshalOptions{AllowPartial: true}).Unmarshal(model.EncodeRecord(msg, want, backwards), n); err != nil {
			return err
		}
		if err := sameRecord(msg+" from bytes", msg, n, want); err != nil {
			return err
		}
		if !proto.Equal(m, n) {
			return fmt.Errorf("%s from bytes is not equal to the record", msg)
		}
	}
	// the JSON form has the names of the fields, and reads back
	j, err := json.Marshal(m)
	if err != nil {
		return err
	}
	var keys map[string]any
	if err := json.Unmarshal(j, &keys); err != nil {
		return err
	}
	var names, exp []string
	for k := range keys {
		names = append(names, k)
	}
	for _, f := range model.Records[msg] {
		if _, ok := want[f.Go]; ok {
			exp = append(exp, f.Name)
		}
	}
	sort.Strings(names)
	sort.Strings(exp)
	if strings.Join(names, " ") != strings.Join(exp, " ") {
		return diff("JSON names of "+msg, names, exp)
	}
	n := newRecord(msg)
	if err := json.Unmarshal(j, n); err != nil {
		return fmt.Errorf("its JSON %s: %w", j, err)
	}
	if err := sameRecord(msg+" from JSON", msg, n, want); err != nil {
		return err
	}
	pj, err := protojson.MarshalOptions{AllowPartial: true, UseProtoNames: true}.Marshal(m)
	if err != nil {
		return err
	}
	n = newRecord(msg)
	if err := (protojson.UnmarshalOptions{AllowPartial: true}).Unmarshal(pj, n); err != nil {
		return err
	}
	if err := sameRecord(msg+" from proto JSON", msg, n, want); err != nil {
		return err
	}
	n = newRecord(msg)
	if err := (prototext.UnmarshalOptions{AllowPartial: true}).Unmarshal([]byte(m.(fmt.Stringer).String()), n); err != nil {
		return fmt.Errorf("its String: %w", err)
	}
	if err := sameRecord(msg+" from its String", msg, n, want); err != nil {
		return err
	}
	// a copy is equal and its own
	n = proto.Clone(m)
	if err := sameRecord("a copy of "+msg, msg, n, want); err != nil {
		return err
	}
	reflect.ValueOf(m).MethodByName("Reset").Call(nil)
	if err := sameRecord(msg+" after Reset", msg, m, model.Record{}); err != nil {
		return err
	}
	return sameRecord("a copy of "+msg+" after Reset of the original", msg, n, want)
}

// describeOracle reads the description of a message and the getters of no
// message at all. args: message.
func describeOracle(a []string) error {
	m := newRecord(a[0])
	d := m.ProtoReflect().Descriptor()
	if string(d.Name()) != a[0] || d.Fields().Len() != len(model.Records[a[0]]) {
		return diff("fields of "+a[0], d.Fields().Len(), len(model.Records[a[0]]))
	}
	none := reflect.Zero(reflect.TypeOf(m))
	for _, f := range model.Records[a[0]] {
		fd := d.Fields().ByNumber(protoreflect.FieldNumber(f.Num))
		if fd == nil || string(fd.Name()) != f.Name {
			return diff("field "+strconv.Itoa(f.Num)+" of "+a[0], fd, f.Name)
		}
		g := none.MethodByName("Get" + f.Go).Call(nil)[0]
		if f.Kind == "enum" {
			if g.Int() != 0 {
				return diff("Get"+f.Go+" of nil", g.Int(), 0)
			}
			for v, name := range model.SourceNames {
				e := fd.Enum().Values().ByName(protoreflect.Name(name))
				s := pn.PhoneNumber_CountryCodeSource(v)
				if e == nil || int32(e.Number()) != v || s.String() != name || *s.Enum() != s || int32(s.Number()) != v {
					return diff("country code source "+name, s, v)
				}
				var u pn.PhoneNumber_CountryCodeSource
				if err := u.UnmarshalJSON([]byte(strconv.Quote(name))); err != nil || u != s {
					return diff("country code source from "+name, u, v)
				}
			}
			if fd.Enum().Values().Len() != len(model.SourceNames) {
				return diff("country code sources", fd.Enum().Values().Len(), len(model.SourceNames))
			}
		} else if f.Default != "" {
			if fmt.Sprint(g.Interface()) != f.Default {
				return diff("Get"+f.Go+" of nil", g.Interface(), f.Default)
			}
		} else if g.Kind() == reflect.String && g.Len() != 0 || g.Kind() != reflect.String && !g.IsNil() {
			return diff("Get"+f.Go+" of nil", g.Interface(), nil)
		}
	}
	return nil
}

// finish runs f. A runaway append would eat the machine before the watchdog of
// the engine notices, so it stops the process when the list has grown absurd.
func finish(what string, size func() int, f func()) {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	for {
		select {
		case <-done:
			return
		case <-time.After(300 * time.Millisecond):
			if size() > 1<<16 {
				panic(what + " does not return: its patterns grow without end")
			}
		}
	}
}

// mergeOracle merges one number format into another.
// args: choice, choice; or choice, "self".
func mergeOracle(a []string) error {
	const msg = "NumberFormat"
	x := recordOf(msg, a[0])
	m := fill(msg, x).(*metadata.NumberFormat)
	if a[1] == "self" {
		finish("Merge", func() int { return len(m.LeadingDigitsPattern) }, func() { m.Merge(m) })
		return sameRecord("a format merged into itself", msg, m, model.MergeFormat(x, x))
	}
	y := recordOf(msg, a[1])
	n := fill(msg, y).(*metadata.NumberFormat)
	m.Merge(n)
	if err := sameRecord("merged", msg, m, model.MergeFormat(x, y)); err != nil {
		return err
	}
	for i := range m.LeadingDigitsPattern {
		m.LeadingDigitsPattern[i] = "scribbled"
	}
	if err := sameRecord("the other format after Merge", msg, n, y); err != nil {
		return err
	}
	// and once more, into a format that has room in its list
	m = fill(msg, x).(*metadata.NumberFormat)
	m.LeadingDigitsPattern = append(make([]string, 0, 16), m.LeadingDigitsPattern...)
	if len(m.LeadingDigitsPattern) == 0 {
		m.LeadingDigitsPattern = nil
	}
	m.Merge(n)
	m.Merge(n)
	if err := sameRecord("merged twice", msg, m, model.MergeFormat(model.MergeFormat(x, y), y)); err != nil {
		return err
	}
	return sameRecord("the other format after two merges", msg, n, y)
}

var lengthEdges = []int32{-1, 0, 1, 2, 10, 17, 1<<31 - 1}

// lengthsOracle asks a description for its lengths.
// args: possible lengths, local lengths (indices in lengthEdges).
func lengthsOracle(a []string) error {
	list := func(s string) (out []int32) {
		for _, c := range s {
			out = append(out, lengthEdges[c-'0'])
		}
		return
	}
	p, l := list(a[0]), list(a[1])
	return lengthsOf(&metadata.PhoneNumberDesc{PossibleLength: p, PossibleLengthLocalOnly: l}, p, l)
}

func lengthsOf(d *metadata.PhoneNumberDesc, p, l []int32) error {
	for _, n := range append([]int32{3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 18, 127, 128, 256, 257, 266, -2, -1 << 31}, lengthEdges...) {
		if g, x := d.HasPossibleLength(n), model.Has(p, n); g != x {
			return diff(fmt.Sprintf("HasPossibleLength(%d) of %v, local %v", n, p, l), g, x)
		}
		if g, x := d.HasPossibleLengthLocalOnly(n), model.Has(l, n); g != x {
			return diff(fmt.Sprintf("HasPossibleLengthLocalOnly(%d) of %v, local %v", n, p, l), g, x)
		}
	}
	return nil
}

// planRecordOracle takes a territory of the embedded metadata through bytes,
// and asks its descriptions for their lengths. args: file, index.
func planRecordOracle(a []string) error {
	i, _ := strconv.Atoi(a[1])
	c := loadedTables()[a[0]]
	m := c.GetMetadata()[i]
	b, err := proto.Marshal(m)
	if err != nil {
		return err
	}
	got, err := model.DecodeRecord("PhoneMetadata", b)
	if err != nil {
		return err
	}
	if err := sameRecord("getters of the territory", "PhoneMetadata", m, got); err != nil {
		return err
	}
	v := reflect.ValueOf(m)
	for _, f := range model.Records["PhoneMetadata"] {
		if !strings.HasPrefix(f.Kind, "msg:") {
			continue
		}
		d := v.MethodByName("Get" + f.Go).Call(nil)[0].Interface().(*metadata.PhoneNumberDesc)
		if d == nil {
			continue
		}
		r, _ := got[f.Go].(model.Record)
		p, _ := r["PossibleLength"].([]int32)
		l, _ := r["PossibleLengthLocalOnly"].([]int32)
		if err := lengthsOf(d, p, l); err != nil {
			return fmt.Errorf("%s: %w", f.Go, err)
		}
	}
	return nil
}

func loadedTables() map[string]*metadata.PhoneMetadataCollection {
	c, err := metadata.Collection()
	s, err2 := pn.ShortNumberMetadataCollection()
	if err != nil || err2 != nil {
		panic(fmt.Sprint(err, err2))
	}
	return map[string]*metadata.PhoneMetadataCollection{"territories": c, "short": s}
}

// choices calls f with every assignment of values to up to n of the fields.
func choices(fs []model.FieldSpec, n int, f func(string)) {
	var rec func(i int, s string, left int)
	rec = func(i int, s string, left int) {
		if i == len(fs) {
			f(strings.TrimSpace(s))
			return
		}
		rec(i+1, s, left)
		if left > 0 {
			for j := range recordVals(fs[i].Kind) {
				rec(i+1, s+" "+fs[i].Go+"="+strconv.Itoa(j), left-1)
			}
		}
	}
	rec(0, "", n)
}

func init() {
	explore.Register(&explore.Property{
		ID:   "C25",
		Rule: "records (PhoneNumber: every assignment of its fields; formats: every assignment; descriptions: every assignment; territories and collections: every assignment of up to N fields) through getters, bytes in both field orders, JSON, text, copy and Reset; every pair of formats merged, and each with itself; every pair of length lists up to three long; every territory of the embedded metadata",
		Oracles: map[string]explore.Oracle{"record": recordOracle, "describe": describeOracle, "merge": mergeOracle,
			"lengths": lengthsOracle, "territory": planRecordOracle},
		Assumptions: []string{"the field numbers and names of phonenumber.proto and phonemetadata.proto upstream are the reference"},
		Explore: func(c *explore.Ctx) {
			depth := 2
			if c.Thorough {
				depth = 3
			}
			c.Seq("descriptions of the messages", func(k *explore.Worker) {
				for _, m := range []string{"PhoneNumber", "NumberFormat", "PhoneNumberDesc", "PhoneMetadata", "PhoneMetadataCollection"} {
					k.Do("describe", m)
				}
			})
			c.Seq("formats merged into themselves", func(k *explore.Worker) {
				choices(model.Records["NumberFormat"], 6, func(s string) { k.Do("merge", s, "self") })
			})
			for _, m := range []string{"NumberFormat", "PhoneNumberDesc", "PhoneMetadataCollection", "PhoneMetadata", "PhoneNumber"} {
				n := map[string]int{"PhoneMetadata": depth, "PhoneNumber": depth + 2}[m]
				if n == 0 {
					n = 6
				}
				var all []string
				choices(model.Records[m], n, func(s string) { all = append(all, s) })
				c.Par(m, (len(all)+99)/100, func(k *explore.Worker, i int) {
					for j := i * 100; j < len(all) && j < i*100+100; j++ {
						if !k.Do("record", m, all[j]) {
							return
						}
					}
				})
			}
			var all []string
			choices(model.Records["NumberFormat"], 6, func(s string) {
				if thin(s) || c.Thorough {
					all = append(all, s)
				}
			})
			c.Par("pairs of formats", len(all), func(k *explore.Worker, i int) {
				for _, s := range all {
					if !k.Do("merge", all[i], s) {
						return
					}
				}
			})
			var lists []string
			var rec func(s string)
			rec = func(s string) {
				lists = append(lists, s)
				if len(s) < 3 {
					for i := range lengthEdges {
						rec(s + strconv.Itoa(i))
					}
				}
			}
			rec("")
			c.Par("lists of lengths", len(lists), func(k *explore.Worker, i int) {
				for _, l := range lists {
					if !k.Do("lengths", lists[i], l) {
						return
					}
				}
			})
			c.Seq("the embedded territories", func(k *explore.Worker) {
				for name, x := range loadedTables() {
					for i := range x.GetMetadata() {
						k.Do("territory", name, strconv.Itoa(i))
					}
				}
			})
		},
	})
}

// thin keeps the assignments whose strings are not the third value.
func thin(s string) bool {
	for _, kv := range strings.Fields(s) {
		if strings.HasSuffix(kv, "=2") {
			return false
		}
	}
	return true
}
