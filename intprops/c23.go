package intprops

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"strconv"
	"syscall"

	"github.com/nyaruka/phonenumbers/v2/internal/serialize"
	"github.com/nyaruka/phonenumbers/v2/metadata"
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/model"
	"github.com/nyaruka/phonenumbers/v2/verif/props"
	"google.golang.org/protobuf/proto"
)

// load decodes with the library's decoder.
func load(gz []byte, lists bool) (map[int][]string, int, error) {
	if lists {
		t, err := serialize.LoadIntArrayMap(gz)
		if err != nil {
			return nil, 0, err
		}
		return t.Map, t.MaxLength, nil
	}
	t, err := serialize.LoadPrefixMap(gz)
	if err != nil {
		return nil, 0, err
	}
	if t.Map == nil {
		return nil, 0, errors.New("decoding gives no table and no error")
	}
	m := make(map[int][]string, len(t.Map))
	for k, v := range t.Map {
		m[k] = []string{v}
	}
	return m, t.MaxLength, nil
}

func zip(raw []byte) []byte {
	var b bytes.Buffer
	w, _ := gzip.NewWriterLevel(&b, gzip.BestSpeed)
	w.Write(raw)
	w.Close()
	return b.Bytes()
}

func same(got, want map[int][]string) bool {
	if len(got) != len(want) {
		return false
	}
	for k, v := range want {
		g, ok := got[k]
		if !ok || !slices.Equal(g, v) {
			return false
		}
	}
	return true
}

func maxDigits(m map[int][]string) int {
	l := 0
	for k := range m {
		l = max(l, len(strconv.Itoa(k)))
	}
	return l
}

func exact(gz []byte, want map[int][]string, lists bool) error {
	got, l, err := load(gz, lists)
	if err != nil {
		return fmt.Errorf("decoding fails: %w", err)
	}
	if !same(got, want) {
		return fmt.Errorf("decoded as %v, encoded were %v", got, want)
	}
	if l != maxDigits(want) {
		return fmt.Errorf("the longest key is said to have %d digits, it has %d", l, maxDigits(want))
	}
	return nil
}

// fileOracle: an embedded blob.
func fileOracle(a []string) error {
	b, err := os.ReadFile(filepath.Join(props.RepoDir(), a[0]))
	if err != nil {
		return err
	}
	raw := model.Gunzip(b)
	if got, err := serialize.DecodeUnzip(b); err != nil || !bytes.Equal(got, raw) {
		return fmt.Errorf("unzipping gives other bytes (%v)", err)
	}
	switch filepath.Base(a[0]) {
	case "metadata.xml.gz", "shortnumber_metadata.xml.gz", "alternateformats_metadata.xml.gz":
		c := &metadata.PhoneMetadataCollection{}
		if err := proto.Unmarshal(raw, c); err != nil {
			return err
		}
		want := model.DecodeCollection(raw)
		if len(c.GetMetadata()) != len(want) {
			return fmt.Errorf("%d territories decoded, %d encoded", len(c.GetMetadata()), len(want))
		}
		for i, m := range c.GetMetadata() {
			if g, x := props.PBPlan(m).Dump(), want[i].Dump(); g != x {
				return fmt.Errorf("territory %d decoded as\n%s\nencoded was\n%s", i, g, x)
			}
		}
		return nil
	case "countrycode_to_region.xml.gz", "prefix_to_timezone.xml.gz":
		return exact(b, model.DecodeIntArrayMap(raw), true)
	}
	want := map[int][]string{}
	for k, v := range model.DecodePrefixMap(raw) {
		n, _ := strconv.Atoi(k)
		want[n] = []string{v}
	}
	return exact(b, want, false)
}

// tableOracle: encoding then decoding a table.
func tableOracle(a []string) error {
	lists := a[0] == "lists"
	es := props.DecodeEntries(a[1])
	want := map[int][]string{}
	for _, e := range es {
		want[e.Key] = e.Vals
	}
	raw := model.EncodeTable(es, lists)
	if back, err := model.DecodeTable(raw, lists); err != nil || !same(back, want) {
		return nil // not a table the encoding can hold (an empty value next to none)
	}
	return exact(zip(raw), want, lists)
}

func damaged(gz []byte, lists bool) error {
	var want map[int][]string
	raw, err := gunzip(gz)
	if err == nil {
		want, err = model.DecodeTable(raw, lists)
	}
	got, _, gerr := load(gz, lists)
	if gerr != nil {
		return nil
	}
	if errors.Is(err, model.ErrAmbiguous) {
		return nil
	}
	if err != nil {
		return fmt.Errorf("bytes that hold no table (%v) were decoded as %v", err, got)
	}
	if !same(got, want) {
		return fmt.Errorf("decoded as %v, the bytes say %v", got, want)
	}
	return nil
}

func gunzip(b []byte) (raw []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("not gzip: %v", r)
		}
	}()
	return model.Gunzip(b), nil
}

// rawOracle: damaged table bytes, correctly zipped.
func rawOracle(a []string) error { return damaged(zip([]byte(a[1])), a[0] == "lists") }

// zipOracle: damaged zipped bytes.
func zipOracle(a []string) error {
	if err := damaged([]byte(a[1]), a[0] == "lists"); err != nil {
		return err
	}
	got, err := serialize.DecodeUnzip([]byte(a[1]))
	want, werr := gunzip([]byte(a[1]))
	if err == nil && (werr != nil || !bytes.Equal(got, want)) {
		return fmt.Errorf("unzipped as %q; the bytes: %q %v", got, want, werr)
	}
	return nil
}

// memOracle: decoding damaged bytes takes memory in proportion to them.
func memOracle(a []string) error {
	gz := zip([]byte(a[1]))
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	load(gz, a[0] == "lists")
	runtime.ReadMemStats(&after)
	if n := after.TotalAlloc - before.TotalAlloc; n > uint64(8<<20+1024*len(a[1])) {
		return fmt.Errorf("%d bytes of table took %d bytes of memory", len(a[1]), n)
	}
	return nil
}

// collOracle: damaged metadata never panics the container.
func collOracle(a []string) error {
	c := &metadata.PhoneMetadataCollection{}
	if err := (proto.UnmarshalOptions{AllowPartial: true}).Unmarshal([]byte(a[0]), c); err != nil {
		return nil
	}
	m := map[int][]string{}
	for _, p := range c.GetMetadata() {
		m[int(p.GetCountryCode())] = append(m[int(p.GetCountryCode())], p.GetId())
	}
	mc, err := metadata.NewContainer(c, m)
	if (err == nil) != (mc != nil) {
		return fmt.Errorf("container %v, error %v", mc != nil, err)
	}
	if err == nil && len(c.GetMetadata()) == 0 {
		return errors.New("a container without metadata was accepted")
	}
	return nil
}

// encodedOracle: the real encoder, then the real decoder.
func encodedOracle(a []string) error {
	tables := map[string][]model.Entry{}
	for i, s := range a[1:] {
		tables[fmt.Sprintf("l%03d", i)] = props.DecodeEntries(s)
	}
	out, err := props.EncodeAll(tables, a[0] == "lists")
	if err != nil {
		return err
	}
	for name, es := range tables {
		want := map[int][]string{}
		for _, e := range es {
			want[e.Key] = e.Vals
		}
		if err := exact(out[name], want, a[0] == "lists"); err != nil {
			return fmt.Errorf("table %v: %w", es, err)
		}
	}
	return nil
}

func faults(raw []byte, pairs bool, f func(b []byte) bool) bool {
	for i := 0; i <= len(raw); i++ {
		if !f(raw[:i]) || !f(raw[i:]) {
			return false
		}
	}
	for i := range raw {
		b := bytes.Clone(raw)
		for v := 0; v < 256; v++ {
			b[i] = byte(v)
			if !f(b) {
				return false
			}
		}
		if !f(append(bytes.Clone(raw[:i]), raw[i+1:]...)) {
			return false
		}
		for _, v := range []byte{0, 1, 0x7f, 0x80, 0xff, '\n'} {
			if !f(append(append(bytes.Clone(raw[:i]), v), raw[i:]...)) {
				return false
			}
		}
		for j := i + 1; pairs && j < len(raw); j++ {
			for _, v := range []byte{0, 1, 0x7f, 0x80, 0xff} {
				for _, w := range []byte{0, 1, 0x7f, 0x80, 0xff} {
					b := bytes.Clone(raw)
					b[i], b[j] = v, w
					if !f(b) {
						return false
					}
				}
			}
		}
		// the rest of the bytes repeated, and a run of one byte
		for _, v := range []byte{0, 0x80, 0xff} {
			b := append(bytes.Clone(raw[:i]), bytes.Repeat([]byte{v}, 4)...)
			if !f(append(b, raw[min(i+4, len(raw)):]...)) || !f(append(bytes.Clone(raw[:i]), bytes.Repeat([]byte{v}, 16)...)) {
				return false
			}
		}
	}
	return true
}

func init() {
	explore.Register(&explore.Property{
		ID:          "C23",
		Rule:        "every embedded blob; every table of up to 2 (thorough 3) entries over 26 keys at the edges of the encoding and 5 or 6 values; the same through the real encoder; and every truncation, every single-byte value, deletion, insertion, run and pair of damaged bytes of a set of small tables, raw and zipped, with the memory each took",
		Assumptions: []string{"the table format is the one documented in the encoder: values, count, key differences, indices", "keys that repeat or leave 62 bits after damage are not promised a meaning", "memory is allowed 8 MB plus 1 kB per byte"},
		Oracles: map[string]explore.Oracle{"loaded": props.Loaded, "file": fileOracle, "table": tableOracle, "raw": rawOracle, "zip": zipOracle,
			"mem": memOracle, "coll": collOracle, "encoded": encodedOracle},
		Init: func() {
			// memory that grows without bound ends this process, not the sandbox
			const gb = 1 << 30
			syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 12 * gb, Max: 12 * gb})
		},
		Explore: func(c *explore.Ctx) {
			files := props.DataFiles()
			c.Seq("loaded tables", func(k *explore.Worker) {
				for _, f := range files {
					k.Do("loaded", f)
				}
			})
			c.Par("embedded blobs", len(files), func(k *explore.Worker, u int) { k.Do("file", files[u]) })
			n := 2
			if c.Thorough {
				n = 3
			}
			for _, kind := range []string{"values", "lists"} {
				lists := kind == "lists"
				var all []string
				props.SmallTables(n, lists, func(es []model.Entry) bool { all = append(all, props.EncodeEntries(es)); return true })
				c.Par("tables of "+kind, len(all), func(k *explore.Worker, u int) { k.Do("table", kind, all[u]) })
				// through the real encoder: many small tables per run for values
				var cases [][]string
				if !lists {
					cur := []string{kind}
					props.SmallTables(2, false, func(es []model.Entry) bool {
						for _, e := range es {
							if e.Vals[0] == "" {
								return true // an empty name is no entry
							}
						}
						if len(es) > 0 {
							cur = append(cur, props.EncodeEntries(es))
						}
						if len(cur) == 401 {
							cases, cur = append(cases, cur), []string{kind}
						}
						return true
					})
					if len(cur) > 1 {
						cases = append(cases, cur)
					}
				} else {
					props.SmallTables(2, true, func(es []model.Entry) bool {
						for _, e := range es {
							if len(e.Vals) == 0 {
								return true // the text form has no empty list
							}
						}
						// neighbouring keys only, unless thorough
						if c.Thorough || len(es) < 2 || slices.Index(props.TableKeys, es[1].Key) == slices.Index(props.TableKeys, es[0].Key)+1 {
							cases = append(cases, []string{kind, props.EncodeEntries(es)})
						}
						return true
					})
				}
				c.Par("encoded and decoded "+kind, len(cases), func(k *explore.Worker, u int) { k.Do("encoded", cases[u]...) })
				// damage
				var base [][]model.Entry
				base = append(base, nil)
				for _, ks := range [][]int{{5}, {1, 130}, {44, 4420, 442031}, {1, 2, 3, 4, 70000}} {
					for _, vs := range [][]string{{"A"}, {"A", "B"}, {"Paris", "Rome", "A"}} {
						var es []model.Entry
						for i, x := range ks {
							e := model.Entry{Key: x, Vals: []string{vs[i%len(vs)]}}
							if lists && i%2 == 1 {
								e.Vals = append(e.Vals, vs[0])
							}
							es = append(es, e)
						}
						base = append(base, es)
					}
				}
				c.Seq("memory "+kind, func(k *explore.Worker) {
					for _, es := range base {
						raw := model.EncodeTable(es, lists)
						for i := 0; i < len(raw); i++ {
							for _, v := range []byte{0x10, 0x7f, 0x80, 0xff} {
								for w := 1; w <= 4 && i+w <= len(raw); w++ {
									b := bytes.Clone(raw)
									for j := i; j < i+w; j++ {
										b[j] = v
									}
									if !k.Do("mem", kind, string(b)) {
										return
									}
								}
							}
						}
					}
				})
				c.Par("damaged "+kind, len(base), func(k *explore.Worker, u int) {
					raw := model.EncodeTable(base[u], lists)
					faults(raw, len(raw) < 30 || c.Thorough, func(b []byte) bool { return k.Do("raw", kind, string(b)) })
				})
				c.Par("damaged zipped "+kind, len(base), func(k *explore.Worker, u int) {
					faults(zip(model.EncodeTable(base[u], lists)), c.Thorough, func(b []byte) bool { return k.Do("zip", kind, string(b)) })
				})
			}
			// damaged metadata
			coll := &metadata.PhoneMetadataCollection{}
			for _, id := range []string{"XA", "001"} {
				coll.Metadata = append(coll.Metadata, &metadata.PhoneMetadata{
					Id: proto.String(id), CountryCode: proto.Int32(999), InternationalPrefix: proto.String("00"),
					GeneralDesc:  &metadata.PhoneNumberDesc{NationalNumberPattern: proto.String(`\d{7}`), PossibleLength: []int32{7}},
					NumberFormat: []*metadata.NumberFormat{{Pattern: proto.String(`(\d{3})(\d{4})`), Format: proto.String("$1-$2")}},
				})
			}
			raw, _ := proto.Marshal(coll)
			c.Seq("damaged metadata", func(k *explore.Worker) {
				faults(raw, c.Thorough, func(b []byte) bool { return k.Do("coll", string(b)) })
			})
		},
	})
}
