// Package intprops holds the checks that reach the library's internal packages.
package intprops

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strconv"

	"github.com/nyaruka/phonenumbers/v2/internal/metadatabuilder"
	"github.com/nyaruka/phonenumbers/v2/metadata"
	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/model"
	"github.com/nyaruka/phonenumbers/v2/verif/props"
	"google.golang.org/protobuf/proto"
)

// build runs the library's builder; stopping with a panic is one way it has of
// refusing a document.
func build(doc []byte, kind int) (c *metadata.PhoneMetadataCollection, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("refused: %v", r)
		}
	}()
	if kind == model.AlternateDoc {
		return metadatabuilder.BuildAlternateFormatsMetadataCollection(doc)
	}
	return metadatabuilder.BuildPhoneMetadataCollection(doc, false, false, kind == model.ShortDoc)
}

func docOracle(a []string) error {
	kind, _ := strconv.Atoi(a[0])
	doc := []byte(a[1])
	if a[1] == "@testdata" {
		var err error
		if doc, err = os.ReadFile(filepath.Join(props.RepoDir(), "testdata/PhoneNumberMetadataForTesting.xml")); err != nil {
			return nil // nothing to build
		}
	}
	want, werr := model.BuildXML(doc, kind)
	got, err := build(doc, kind)
	if (err == nil) != (werr == nil) {
		return fmt.Errorf("the builder says %v; the document: %v", err, werr)
	}
	if err != nil {
		return nil
	}
	b, err := proto.MarshalOptions{Deterministic: true, AllowPartial: true}.Marshal(got)
	if err != nil {
		return err
	}
	plans := model.DecodeCollection(b)
	if len(plans) != len(want) {
		return fmt.Errorf("%d territories were built from a document of %d", len(plans), len(want))
	}
	for i := range plans {
		if g, x := plans[i].Dump(), want[i].Dump(); g != x {
			return fmt.Errorf("territory %d was built as\n%s\nbut the document says\n%s", i, g, x)
		}
	}
	if g, x := metadatabuilder.BuildCountryCodeToRegionMap(got), model.RegionMap(want); !reflect.DeepEqual(g, x) {
		return fmt.Errorf("the region map is %v, the document says %v", g, x)
	}
	again, err := build(doc, kind)
	if err != nil {
		return errors.New("building again fails: " + err.Error())
	}
	b2, _ := proto.MarshalOptions{Deterministic: true, AllowPartial: true}.Marshal(again)
	if !bytes.Equal(b, b2) {
		return errors.New("building twice gives different metadata")
	}
	return nil
}

func init() {
	explore.Register(&explore.Property{
		ID:          "C22",
		Rule:        "territory documents of the three kinds (numbers, short numbers, alternate formats) with at most 3 (thorough 4) of about 35 parts away from an ordinary territory, malformed parts included; possible-length lists of up to 5 (thorough 6) tokens; sequences of up to 3 (thorough 4) territories sharing calling codes; the repository's own test document; and end-to-end runs, twice each, of the real buildmetadata program over upstream trees (prefix files, time-zone files, documents)",
		Assumptions: []string{"git is replaced by a stand-in that provides the fixture", "lines of prefix files with another number of fields than two, repeated time-zone prefixes and repeated elements are not promised anything", "the reference builder is written from the DTD and the comments of upstream's BuildMetadataFromXml"},
		Oracles:     map[string]explore.Oracle{"e2e": props.E2E, "doc": docOracle},
		Explore: func(c *explore.Ctx) {
			c.Seq("test document", func(k *explore.Worker) { k.Do("doc", "0", "@testdata") })
			for kind, name := range []string{"documents", "short documents", "alternate documents"} {
				bound := 3
				if c.Thorough || kind == model.AlternateDoc {
					bound = 4
				}
				var docs []string
				flush := func() {
					c.Par(name, len(docs), func(k *explore.Worker, u int) { k.Do("doc", strconv.Itoa(kind), docs[u]) })
					docs = docs[:0]
				}
				props.Documents(kind, bound, func(d string) bool {
					if docs = append(docs, d); len(docs) == 20000 {
						flush()
					}
					return !c.Stopped()
				})
				flush()
			}
			n := 5
			if c.Thorough {
				n = 6
			}
			var lists []string
			props.LengthLists(n, func(s string) bool { lists = append(lists, s); return true })
			c.Par("length lists", len(lists), func(k *explore.Worker, u int) {
				d := `<phoneNumberMetadata><territories><territory id="XA" countryCode="999"><generalDesc><nationalNumberPattern>\d+</nationalNumberPattern></generalDesc><fixedLine><nationalNumberPattern>\d+</nationalNumberPattern><possibleLengths national="` + lists[u] + `"/></fixedLine></territory></territories></phoneNumberMetadata>`
				if !k.Do("doc", "0", d) || len(lists[u]) > 8 {
					return
				}
				d = `<phoneNumberMetadata><territories><territory id="XA" countryCode="999"><fixedLine><possibleLengths national="7,8,9"/></fixedLine><mobile><possibleLengths national="8" localOnly="` + lists[u] + `"/></mobile></territory></territories></phoneNumberMetadata>`
				k.Do("doc", "0", d)
			})
			n = 3
			if c.Thorough {
				n = 4
			}
			var seqs []string
			props.Territories(n, func(s string) bool { seqs = append(seqs, s); return true })
			c.Par("territory sequences", len(seqs), func(k *explore.Worker, u int) { k.Do("doc", "0", seqs[u]) })
			props.ExploreFixtures(c)
		},
	})
}
