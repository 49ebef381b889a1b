package props

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/model"
)

// ---- documents ----

// territorySlots are the parts a territory is made of; the first alternative
// of each is the ordinary one. "A:" marks attributes of the territory.
func docSlots(kind int) (names []string, alts [][]string) {
	add := func(name string, a ...string) {
		names = append(names, name)
		alts = append(alts, a)
	}
	attr := func(name string, vals ...string) {
		out := []string{}
		for _, v := range vals {
			if v == "\x00" {
				out = append(out, "")
			} else {
				out = append(out, " "+name+"=\""+v+"\"")
			}
		}
		add("A:"+name, out...)
	}
	const no = "\x00"
	attr("nationalPrefix", "0", no, "0~0", "8")
	attr("internationalPrefix", "00", no, "0[01]", "0(")
	attr("preferredInternationalPrefix", no, "00", "8~10")
	attr("mainCountryForCode", no, "true", "false")
	attr("leadingDigits", no, "[2-4]", "2[")
	attr("nationalPrefixForParsing", no, "0|9", "(0 | 1)\n 2", "0(")
	attr("nationalPrefixTransformRule", no, "9$1")
	attr("preferredExtnPrefix", no, " extn. ")
	attr("mobileNumberPortableRegion", no, "true")
	attr("nationalPrefixFormattingRule", no, "$NP$FG", "($NP $FG) $NP")
	attr("nationalPrefixOptionalWhenFormatting", no, "true")
	attr("carrierCodeFormattingRule", no, "$NP $CC ($FG)", "$FG $CC")

	fattr := func(i int, name string, vals ...string) {
		out := []string{}
		for _, v := range vals {
			if v == no {
				out = append(out, "")
			} else {
				out = append(out, " "+name+"=\""+v+"\"")
			}
		}
		add(fmt.Sprintf("F%d:%s", i, name), out...)
	}
	for i := 0; i < 2; i++ {
		if i == 0 {
			add("F0", "1", "0")
		} else {
			add("F1", "0", "1")
		}
		if i == 0 {
			fattr(i, "pattern", `(\d{3})(\d{4})`, `(\d)(\d{2}`)
		} else {
			fattr(i, "pattern", `(\d{2})(\d+)`)
		}
		fattr(i, "nationalPrefixFormattingRule", no, "$NP-$FG", "$FG")
		fattr(i, "nationalPrefixOptionalWhenFormatting", no, "true", "false")
		fattr(i, "carrierCodeFormattingRule", no, "$CC $NP$FG", "$CC(")
		add(fmt.Sprintf("F%d>lead", i), "", "<leadingDigits>[2-9]</leadingDigits>", "<leadingDigits>\n  2 |\n  3\n</leadingDigits><leadingDigits>2[1-3]</leadingDigits>", "<leadingDigits>(</leadingDigits>")
		add(fmt.Sprintf("F%d>intl", i), "", "<intlFormat>NA</intlFormat>", "<intlFormat>$1-$2</intlFormat>", "<intlFormat>$1</intlFormat><intlFormat>$2</intlFormat>")
	}
	if kind == model.AlternateDoc {
		return
	}
	desc := func(name string, present bool, extra ...string) {
		full := "<" + name + "><nationalNumberPattern>[2-9]\\d{6}</nationalNumberPattern><possibleLengths national=\"7\"/><exampleNumber>2234567</exampleNumber></" + name + ">"
		a := []string{full, ""}
		if !present {
			a = []string{"", full}
		}
		for _, e := range extra {
			a = append(a, "<"+name+">"+e+"</"+name+">")
		}
		add(name, a...)
	}
	some := []string{
		`<nationalNumberPattern>9\d{8}</nationalNumberPattern><possibleLengths national="[7-9]" localOnly="5"/>`,
		"<nationalNumberPattern>\n 8\\d{7} |\n 9\\d{9}\n</nationalNumberPattern><possibleLengths national=\"8,10\"/><exampleNumber>81234567</exampleNumber>",
		`<possibleLengths national="7" localOnly="6,7"/>`,
	}
	if kind == model.FullDoc {
		add("generalDesc", `<generalDesc><nationalNumberPattern>\d{7,10}</nationalNumberPattern></generalDesc>`, "",
			`<generalDesc><nationalNumberPattern>\d {7}</nationalNumberPattern><possibleLengths national="7"/></generalDesc>`)
		desc("fixedLine", true, append(some, `<nationalNumberPattern>2(</nationalNumberPattern><possibleLengths national="7"/>`)...)
		desc("mobile", true, append(some, `<nationalNumberPattern>5\d{6}</nationalNumberPattern>`)...)
		desc("noInternationalDialling", false, some[0], `<nationalNumberPattern>800\d{4}</nationalNumberPattern><possibleLengths national="7,12"/>`)
		for _, n := range []string{"pager", "tollFree", "premiumRate", "sharedCost", "personalNumber", "voip", "uan", "voicemail"} {
			desc(n, false, some[0], some[1])
		}
	} else {
		add("generalDesc", `<generalDesc><nationalNumberPattern>\d{2,7}</nationalNumberPattern></generalDesc>`, "")
		desc("shortCode", true, `<nationalNumberPattern>1\d\d</nationalNumberPattern><possibleLengths national="3,[5-7]"/><exampleNumber>112</exampleNumber>`,
			`<nationalNumberPattern>1\d\d</nationalNumberPattern><possibleLengths national="3,7" localOnly="4"/>`)
		for _, n := range []string{"standardRate", "carrierSpecific", "emergency", "tollFree", "premiumRate", "smsServices"} {
			desc(n, false, `<nationalNumberPattern>11[0 2]</nationalNumberPattern><possibleLengths national="3"/><exampleNumber>112</exampleNumber>`, `<nationalNumberPattern>9\d{6}</nationalNumberPattern>`)
		}
	}
	return
}

func assemble(kind int, id, cc string, names, ch []string) string {
	var attrs, descs strings.Builder
	type nf struct{ attrs, kids, on string }
	var f [2]nf
	for i, n := range names {
		switch {
		case strings.HasPrefix(n, "A:"):
			attrs.WriteString(ch[i])
		case n == "F0" || n == "F1":
			f[n[1]-'0'].on = ch[i]
		case n[0] == 'F' && n[2] == ':':
			f[n[1]-'0'].attrs += ch[i]
		case n[0] == 'F' && n[2] == '>':
			f[n[1]-'0'].kids += ch[i]
		default:
			descs.WriteString("\n" + ch[i])
		}
	}
	idAttr := ""
	if kind != model.AlternateDoc {
		idAttr = ` id="` + id + `"`
	}
	s := "<territory" + idAttr + ` countryCode="` + cc + `"` + attrs.String() + ">\n"
	fs := ""
	for i, x := range f {
		if x.on == "1" {
			fs += "<numberFormat" + x.attrs + ">" + x.kids + "<format>" + []string{"$1 $2", "$1.$2"}[i] + "</format></numberFormat>\n"
		}
	}
	if fs != "" {
		s += "<availableFormats>" + fs + "</availableFormats>"
	}
	return s + descs.String() + "</territory>\n"
}

func wrapDoc(t string) string {
	return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<phoneNumberMetadata><territories>\n" + t + "</territories></phoneNumberMetadata>"
}

// Documents calls f with every document with at most bound parts away from the
// ordinary ones.
func Documents(kind, bound int, f func(doc string) bool) bool {
	names, alts := docSlots(kind)
	return slots(alts, bound, func(ch []string) bool {
		return f(wrapDoc(assemble(kind, "XA", "999", names, ch)))
	})
}

// LengthLists calls f with every length attribute of up to n tokens.
func LengthLists(n int, f func(s string) bool) bool {
	return words([]string{"3", "7", "10", "[", "]", "-", ",", "[3-5]", "a", " "}, n, f)
}

// PlanOrder documents: sequences of territories sharing calling codes.
func Territories(n int, f func(doc string) bool) bool {
	var rec func(s string, k int) bool
	rec = func(s string, k int) bool {
		if s != "" && !f(wrapDoc(s)) {
			return false
		}
		if k == n {
			return true
		}
		for _, cc := range []string{"1", "44"} {
			for _, main := range []string{"", ` mainCountryForCode="true"`} {
				for _, id := range []string{string(rune('A'+k)) + "A", "001"} {
					if !rec(s+`<territory id="`+id+`" countryCode="`+cc+`"`+main+`><generalDesc><nationalNumberPattern>\d{7}</nationalNumberPattern></generalDesc></territory>`, k+1) {
						return false
					}
				}
			}
		}
		return true
	}
	return rec("", 0)
}

// ---- the build program, end to end ----

// A fixture is the set of files of an upstream checkout.
type fixture map[string]string

const okFull = `<territory id="XA" countryCode="999" internationalPrefix="00"><generalDesc><nationalNumberPattern>\d{7}</nationalNumberPattern></generalDesc><fixedLine><nationalNumberPattern>\d{7}</nationalNumberPattern><possibleLengths national="7"/></fixedLine></territory>
<territory id="XB" countryCode="999" mainCountryForCode="true" internationalPrefix="00"><generalDesc><nationalNumberPattern>\d{7}</nationalNumberPattern></generalDesc></territory>
<territory id="001" countryCode="800" internationalPrefix="00"><generalDesc><nationalNumberPattern>\d{8}</nationalNumberPattern></generalDesc></territory>`

func baseFixture() fixture {
	return fixture{
		"resources/PhoneNumberMetadata.xml":         wrapDoc(okFull),
		"resources/ShortNumberMetadata.xml":         wrapDoc(`<territory id="XA" countryCode="999"><generalDesc><nationalNumberPattern>\d{3}</nationalNumberPattern></generalDesc><shortCode><nationalNumberPattern>112</nationalNumberPattern><possibleLengths national="3"/></shortCode></territory>`),
		"resources/PhoneNumberAlternateFormats.xml": wrapDoc(`<territory countryCode="999"><availableFormats><numberFormat pattern="(\d{3})(\d{4})"><format>$1-$2</format></numberFormat></availableFormats></territory>`),
		"resources/timezones/map_data.txt":          "# zones\n999|Europe/A&Europe/B\n9991|Europe/B\n",
		"resources/carrier/en/999.txt":              "# carriers\n9995|Alpha\n99951|Beta\n",
		"resources/geocoding/en/999.txt":            "9992|Town\n",
	}
}

func (f fixture) encode() string {
	var ks []string
	for k := range f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k + "\x04" + f[k] + "\x05")
	}
	return b.String()
}

func decodeFixture(s string) fixture {
	f := fixture{}
	for _, e := range strings.Split(s, "\x05") {
		if k, v, ok := strings.Cut(e, "\x04"); ok {
			f[k] = v
		}
	}
	return f
}

var outFiles = map[string]string{
	"metadata/data/metadata.xml.gz":              "plans:resources/PhoneNumberMetadata.xml",
	"data/shortnumber_metadata.xml.gz":           "short:resources/ShortNumberMetadata.xml",
	"data/alternateformats_metadata.xml.gz":      "alt:resources/PhoneNumberAlternateFormats.xml",
	"metadata/data/countrycode_to_region.xml.gz": "regions:resources/PhoneNumberMetadata.xml",
	"timezone/data/prefix_to_timezone.xml.gz":    "zones:resources/timezones/map_data.txt",
}

var buildUser struct {
	once sync.Once
	cred *syscall.Credential
}

// fakeGit stands in for git: ls-remote lists the tags of the fixture in the
// order asked for, clone copies the fixture and notes the branch asked for.
const fakeGit = `#!/bin/sh
cmd=$1; sort=sort; branch=
for a; do
  case $a in --sort=-v:refname|--sort=-version:refname) sort="sort -V -r";; --sort=*) exit 1;; esac
  if [ "$prev" = --branch ] || [ "$prev" = -b ]; then branch=$a; fi
  case $a in --branch=*) branch=${a#--branch=};; esac
  prev=$a; last=$a
done
case $cmd in
ls-remote) case $last in *://*) last='*';; esac
  $sort ../tags | while read t; do case $t in $last) printf '0123456789abcdef0123456789abcdef01234567\trefs/tags/%s\n' "$t";; esac; done;;
clone) printf %s "$branch" >../branch; cp -r ../upstream "$last";;
*) exit 1;;
esac
`

// buildTools is a scratch directory with the program and a stand-in for git
// that only ever copies the fixture beside the working directory. It is made
// before any process is started, and removed at the end.
var buildTools = sync.OnceValues(func() (string, error) {
	exe, err := os.Executable()
	if err != nil {
		return "", err
	}
	b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "buildmetadata"))
	if err != nil {
		return "", err
	}
	dir, err := os.MkdirTemp("", "verif-tools-")
	if err != nil {
		return "", err
	}
	explore.AtExit(func() { os.RemoveAll(dir) })
	if err := os.Chmod(dir, 0o755); err != nil {
		return "", err
	}
	for name, data := range map[string][]byte{
		"buildmetadata": b,
		"git":           []byte(fakeGit),
	} {
		if err := os.WriteFile(filepath.Join(dir, name), data, 0o755); err != nil {
			return "", err
		}
	}
	return dir, nil
})

// runBuild runs the real program in a scratch directory of its own, with a
// stand-in for git that provides the fixture, as an unprivileged user where
// the sandbox allows that.
func runBuild(f fixture) (map[string][]byte, bool, error) {
	tools, err := buildTools()
	if err != nil {
		return nil, false, err
	}
	dir, err := os.MkdirTemp("", "verif-build-")
	if err != nil {
		return nil, false, err
	}
	defer os.RemoveAll(dir)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	write := func(p, s string, mode os.FileMode) {
		must(os.MkdirAll(filepath.Dir(filepath.Join(dir, p)), 0o777))
		must(os.WriteFile(filepath.Join(dir, p), []byte(s), mode))
	}
	for p, s := range f {
		write("upstream/"+p, s, 0o644)
	}
	tags, latest := f["@tags"]
	write("tags", tags, 0o644)
	work := filepath.Join(dir, "work")
	for _, d := range []string{"data", "metadata/data", "carrier/data", "geocoding/data", "timezone/data"} {
		must(os.MkdirAll(filepath.Join(work, d), 0o777))
	}
	must(filepath.Walk(dir, func(p string, _ os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		os.Chown(p, 65534, 65534)
		return os.Chmod(p, 0o777)
	}))
	buildUser.once.Do(func() {
		if os.Getuid() == 0 {
			c := exec.Command("/bin/true")
			cr := &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}
			c.SysProcAttr = &syscall.SysProcAttr{Credential: cr}
			if c.Run() == nil {
				buildUser.cred = cr
			}
		}
	})
	cmd := exec.Command(filepath.Join(tools, "buildmetadata"), "v0.0.1")
	if latest {
		cmd.Args = cmd.Args[:1]
	}
	cmd.Dir = work
	cmd.Env = []string{"PATH=" + tools + ":/usr/bin:/bin", "HOME=" + dir, "GOMAXPROCS=2"}
	if buildUser.cred != nil {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: buildUser.cred}
	}
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	must(cmd.Start())
	t := time.AfterFunc(30*time.Second, func() { cmd.Process.Kill() })
	runErr := cmd.Wait()
	t.Stop()
	out := map[string][]byte{}
	must(filepath.Walk(work, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(work, p)
		if fi.IsDir() {
			if rel == "_build" {
				return filepath.SkipDir
			}
			return nil
		}
		b, err := os.ReadFile(p)
		out[rel] = b
		return err
	}))
	if b, err := os.ReadFile(filepath.Join(dir, "branch")); err == nil {
		out["@branch"] = b
	}
	return out, runErr == nil, nil
}

// prefixLines is the meaning of a prefix text file: number|value lines.
func prefixLines(s string, into map[string]string) error {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "#") || strings.TrimSpace(l) == "" {
			continue
		}
		p, v, _ := strings.Cut(l, "|")
		n, err := strconv.Atoi(p)
		if err != nil || n < 0 {
			return fmt.Errorf("bad prefix %q", p)
		}
		if strings.TrimSpace(v) == "" {
			continue
		}
		if _, dup := into[strconv.Itoa(n)]; dup {
			return fmt.Errorf("prefix %d twice", n)
		}
		into[strconv.Itoa(n)] = v
	}
	return nil
}

func samePlans(got, want []*model.Plan) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d territories were built from a document of %d", len(got), len(want))
	}
	for i := range got {
		if g, x := got[i].Dump(), want[i].Dump(); g != x {
			return fmt.Errorf("territory %d was built as\n%s\nbut the document says\n%s", i, g, x)
		}
	}
	return nil
}

// latestTag is the highest release among the tags that name one.
func latestTag(tags []string) string {
	best, bestv := "", [3]int{-1}
	for _, t := range tags {
		if !strings.HasPrefix(t, "v") {
			continue
		}
		var v [3]int
		for i, p := range strings.SplitN(t[1:], ".", 3) {
			v[i], _ = strconv.Atoi(p)
		}
		if slices.Compare(v[:], bestv[:]) > 0 {
			best, bestv = t, v
		}
	}
	return best
}

// e2eOracle builds a fixture with the real program, twice.
func e2eOracle(a []string) error {
	f := decodeFixture(a[0])
	kinds := map[string]int{"plans": model.FullDoc, "short": model.ShortDoc, "alt": model.AlternateDoc}
	wantErr := error(nil)
	plans := map[string][]*model.Plan{}
	zones := map[int][]string{}
	for _, src := range outFiles {
		k, file, _ := strings.Cut(src, ":")
		if kind, ok := kinds[k]; ok {
			p, err := model.BuildXML([]byte(f[file]), kind)
			if err != nil {
				wantErr = err
			}
			plans[k] = p
		}
		if k == "zones" {
			for _, l := range strings.Split(f[file], "\n") {
				if strings.HasPrefix(l, "#") || strings.TrimSpace(l) == "" {
					continue
				}
				p := strings.Split(l, "|")
				n, err := strconv.Atoi(p[0])
				if len(p) != 2 || err != nil {
					wantErr = fmt.Errorf("bad zone line %q", l)
					continue
				}
				z := strings.Split(p[1], "&")
				if len(z) > 255 {
					wantErr = fmt.Errorf("%d zones do not fit the table", len(z))
				}
				zones[n] = z
			}
		}
	}
	langs := map[string]map[string]string{}
	for p, s := range f {
		for _, d := range []string{"carrier", "geocoding"} {
			if rest, ok := strings.CutPrefix(p, "resources/"+d+"/"); ok {
				lang, _, _ := strings.Cut(rest, "/")
				key := d + "/data/" + lang + ".txt.gz"
				if langs[key] == nil {
					langs[key] = map[string]string{}
				}
				if err := prefixLines(s, langs[key]); err != nil {
					wantErr = err
				}
			}
		}
	}
	version := "v0.0.1"
	if tags, latest := f["@tags"]; latest {
		if version = latestTag(strings.Fields(tags)); version == "" {
			wantErr = errors.New("no release tag")
		}
	}
	out, ok, err := runBuild(f)
	if err != nil {
		return err
	}
	if ok != (wantErr == nil) {
		return fmt.Errorf("the build succeeded: %v; the input: %v", ok, wantErr)
	}
	if !ok {
		return nil
	}
	for p, src := range outFiles {
		k, _, _ := strings.Cut(src, ":")
		b, have := out[p]
		if !have {
			return fmt.Errorf("%s was not written", p)
		}
		raw := model.Gunzip(b)
		switch k {
		case "regions":
			if g, x := model.DecodeIntArrayMap(raw), model.RegionMap(plans["plans"]); !reflect.DeepEqual(g, x) {
				return diff(p, g, x)
			}
		case "zones":
			if g := model.DecodeIntArrayMap(raw); !reflect.DeepEqual(g, zones) {
				return diff(p, g, zones)
			}
		default:
			if err := samePlans(model.DecodeCollection(raw), plans[k]); err != nil {
				return fmt.Errorf("%s: %w", p, err)
			}
		}
	}
	for p, x := range langs {
		b, have := out[p]
		if !have {
			return fmt.Errorf("%s was not written", p)
		}
		if g := model.DecodePrefixMap(model.Gunzip(b)); !reflect.DeepEqual(g, x) {
			return diff(p, g, x)
		}
	}
	for p := range out {
		if strings.HasSuffix(p, ".txt.gz") && langs[p] == nil {
			return fmt.Errorf("%s was written, but there is no such language", p)
		}
	}
	if b := string(out["@branch"]); b != version {
		return fmt.Errorf("the release cloned is %q, the one to build is %q", b, version)
	}
	if !bytes.Contains(out["metadata/version.go"], []byte(fmt.Sprintf("const Version = %q", version))) {
		return fmt.Errorf("metadata/version.go does not record the version: %s", out["metadata/version.go"])
	}
	again, ok, err := runBuild(f)
	if err != nil {
		return err
	}
	if !ok {
		return fmt.Errorf("building again fails")
	}
	for p := range out {
		if !bytes.Equal(out[p], again[p]) {
			return fmt.Errorf("building twice gives different %s", p)
		}
	}
	return nil
}

// Fixtures calls f with every fixture of the bounded space.
func Fixtures(thorough bool, f func(string) bool) bool {
	try := func(edit func(fixture)) bool {
		x := baseFixture()
		edit(x)
		return f(x.encode())
	}
	if !try(func(fixture) {}) {
		return false
	}
	// prefix files: every sequence of lines, over two files and two languages
	lines := []string{"9991|A", "99912|B", "9|A", "9991|C & D", "# x|y", "", "77|é|", "77|é", " |", "x|A", "-5|A", "12|", "1000000000000000|Long", "5| padded "}
	depth := 2
	if thorough {
		depth = 3
	}
	var seqs [][]string
	var rec func(s []string)
	rec = func(s []string) {
		seqs = append(seqs, append([]string{}, s...))
		if len(s) == depth {
			return
		}
		for _, l := range lines {
			if l == "77|é|" {
				continue // lines with another number of fields are not promised anything
			}
			rec(append(s, l))
		}
	}
	rec(nil)
	for _, s := range seqs {
		text := strings.Join(s, "\n") + "\n"
		for _, where := range []string{"carrier", "geocoding"} {
			if !try(func(x fixture) { x["resources/"+where+"/en/999.txt"] = text }) {
				return false
			}
		}
	}
	for _, s := range seqs {
		if len(s) != 2 {
			continue
		}
		// one line per file of the same language; and of two languages
		if !try(func(x fixture) {
			x["resources/carrier/en/1.txt"], x["resources/carrier/en/2.txt"] = s[0]+"\n", s[1]+"\n"
		}) || !try(func(x fixture) {
			x["resources/geocoding/zh/1.txt"], x["resources/geocoding/zh_Hant/2.txt"] = s[0]+"\n", s[1]
		}) {
			return false
		}
	}
	// release tags
	tags := []string{"v9.0.31", "v9.0.4", "v10.0.0", "v8.13.55", "libphonenumber-7.0.1", "release"}
	for m := 0; m < 1<<len(tags); m++ {
		var l []string
		for i, t := range tags {
			if m>>i&1 == 1 {
				l = append(l, t)
			}
		}
		if !try(func(x fixture) { x["@tags"] = strings.Join(l, "\n") + "\n" }) {
			return false
		}
	}
	// time zones
	zl := []string{"1|Z/A", "12|Z/A&Z/B", "12|Z/B&Z/A&Z/C", "7|Z/C&Z/C", "#c", "", "x|Z/A", "3", "4|Z/A|Z/B", "123456789012345|Z/D",
		"5|" + strings.TrimSuffix(strings.Repeat("Z/A&", 255), "&"), "5|" + strings.TrimSuffix(strings.Repeat("Z/A&", 256), "&")}
	for _, a := range zl {
		for _, b := range zl {
			if (a[:min(2, len(a))] == b[:min(2, len(b))]) && a != "" && a[0] != '#' {
				continue // the same prefix twice: not promised anything
			}
			if !try(func(x fixture) { x["resources/timezones/map_data.txt"] = a + "\n" + b + "\n" }) {
				return false
			}
		}
	}
	// many values in one table
	var many, zones strings.Builder
	for i := 0; i < 3000; i++ {
		fmt.Fprintf(&many, "%d|name %d\n", 10000+i*7, i*31%3000)
		fmt.Fprintf(&zones, "%d|Zone/%d&Zone/%d\n", 10000+i*3, i, i/2)
	}
	if !try(func(x fixture) {
		x["resources/carrier/en/999.txt"] = many.String()
		x["resources/timezones/map_data.txt"] = zones.String()
	}) {
		return false
	}
	// documents: one part of one territory away from the ordinary ones
	for _, k := range []struct {
		kind int
		file string
	}{{model.FullDoc, "PhoneNumberMetadata.xml"}, {model.ShortDoc, "ShortNumberMetadata.xml"}, {model.AlternateDoc, "PhoneNumberAlternateFormats.xml"}} {
		if !Documents(k.kind, 1, func(doc string) bool {
			return try(func(x fixture) { x["resources/"+k.file] = doc })
		}) {
			return false
		}
	}
	n := 2
	if thorough {
		n = 3
	}
	if !Territories(n, func(doc string) bool {
		return try(func(x fixture) { x["resources/PhoneNumberMetadata.xml"] = doc })
	}) {
		return false
	}
	for _, bad := range []string{"", "<", "<phoneNumberMetadata>", "not xml", wrapDoc("<territory")} {
		for _, file := range []string{"PhoneNumberMetadata.xml", "ShortNumberMetadata.xml", "PhoneNumberAlternateFormats.xml"} {
			if !try(func(x fixture) { x["resources/"+file] = bad }) {
				return false
			}
		}
	}
	return true
}

// ExploreFixtures is the end-to-end part of C22.
func ExploreFixtures(c *explore.Ctx) {
	var all []string
	Fixtures(c.Thorough, func(s string) bool { all = append(all, s); return true })
	c.Par("end-to-end builds", len(all), func(k *explore.Worker, u int) { k.Do("e2e", all[u]) })
}

// E2E is the oracle of the end-to-end builds.
var E2E explore.Oracle = e2eOracle

func init() {
	explore.Register(&explore.Property{
		ID:          "C22",
		Rule:        "end-to-end builds with the real buildmetadata program only (the builder package did not compile against the harness)",
		Oracles:     map[string]explore.Oracle{"e2e": e2eOracle},
		Explore:     func(c *explore.Ctx) { ExploreFixtures(c); c.Incomplete() },
		Assumptions: []string{"git is replaced by a stand-in that provides the fixture"},
	})
}

// EncodeAll encodes tables with the real program: one language per table, or,
// for lists, the only table as the time zones.
func EncodeAll(tables map[string][]model.Entry, lists bool) (map[string][]byte, error) {
	f := baseFixture()
	for name, es := range tables {
		var b strings.Builder
		for _, e := range es {
			fmt.Fprintf(&b, "%d|%s\n", e.Key, strings.Join(e.Vals, "&"))
		}
		if lists {
			f["resources/timezones/map_data.txt"] = b.String()
		} else {
			f["resources/carrier/"+name+"/x.txt"] = b.String()
		}
	}
	out, ok, err := runBuild(f)
	if err != nil {
		return nil, err
	}
	if !ok {
		return nil, errors.New("the build fails")
	}
	res := map[string][]byte{}
	for name := range tables {
		if lists {
			res[name] = out["timezone/data/prefix_to_timezone.xml.gz"]
		} else {
			res[name] = out["carrier/data/"+name+".txt.gz"]
		}
	}
	return res, nil
}
