package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/nyaruka/phonenumbers/v2/verif/explore"
	"github.com/nyaruka/phonenumbers/v2/verif/ops"
	"google.golang.org/protobuf/proto"
)

// callOracle makes one public call. That it panics or does not return is
// noticed by the engine.
func callOracle(a []string) error {
	name := a[0]
	args := a[1:]
	o := ops.Get(name)
	_, _, vals, err := ops.Call(name, args)
	if err != nil {
		return err
	}
	valid := true
	for i, k := range o.Kinds {
		if k == ops.Num {
			n := ops.Dec(args[i])
			valid = valid && utf8.ValidString(n.GetRawInput()) && utf8.ValidString(n.GetExtension()) && utf8.ValidString(n.GetPreferredDomesticCarrierCode())
		} else {
			valid = valid && utf8.ValidString(args[i])
		}
	}
	if !valid {
		return nil
	}
	for _, s := range ops.Texts(vals) {
		if !utf8.ValidString(s) {
			return fmt.Errorf("%s returned %q, which is not valid UTF-8", name, s)
		}
	}
	return nil
}

// repeated text: token, length; the oracle builds the text itself, so that
// long texts stay short in replay files.
func longOracle(a []string) error {
	n, _ := strconv.Atoi(a[3])
	text := a[1] + strings.Repeat(a[2], n/max(1, len(a[2]))) + a[4]
	rest := a[5:]
	return callOracle(append([]string{a[0], text}, rest...))
}

var oddTokens = []string{
	"1", "0", "650253", "٣", "９", "𝟗", "+", "＋", "00", "011",
	"-", " ", "(", ")", "/", ".", "~", "*", "#", "x", "ext.", ";ext=", "доб", "tel:", ";phone-context=", ";phone-context=+1", ";isub=",
	"A", "é", "\u0301", "中", "$", "%", "\u200d", "\ufeff", "\x00", "\n", "\xff", "\xc3", "\xed\xa0\x80", "\U0010ffff", "\ufffd", "[", "{", "$1", "\\", "\u2028",
	"12345678901234567890",
}

var oddRegions = []string{"US", "", "ZZ", "001", "BR", "AR", "IT", "us", "\xff", "QQ", "U", "USA", "é", "GB", "MX", "CN", "DE"}

var oddLangs = []string{"en", "", "und", "aa", "grc", "x-foo", "zh", "zh-Hant", "ZH", "en-US", "\xff", "e", "../../x", "en.txt.gz", "i-klingon", strings.Repeat("a", 300), "zz", "fr", "\x00", "mul", "de-DE-u-co-phonebk", "-", "en-"}

func oddNums(bound int, f func(string) bool) bool {
	p32 := func(v ...int32) []*int32 {
		out := []*int32{nil}
		for _, x := range v {
			out = append(out, proto.Int32(x))
		}
		return out
	}
	ps := func(v ...string) []*string {
		out := []*string{nil}
		for _, x := range v {
			out = append(out, proto.String(x))
		}
		return out
	}
	ccs := p32(1, 0, -1, 39, 44, 49, 52, 54, 55, 57, 7, 36, 800, 881, 979, 999, 1234, math.MaxInt32, math.MinInt32)
	ccs[0], ccs[1] = ccs[1], ccs[0]
	nns := []*uint64{proto.Uint64(6502530000), nil, proto.Uint64(0), proto.Uint64(1), proto.Uint64(911), proto.Uint64(236618300),
		proto.Uint64(99999999999999999), proto.Uint64(100000000000000000), proto.Uint64(math.MaxUint64), proto.Uint64(9123456789), proto.Uint64(1123456789), proto.Uint64(3912345678), proto.Uint64(12345678)}
	ilz := []*bool{nil, proto.Bool(true), proto.Bool(false)}
	nlz := p32(0, -1, 1, 2, 16, 17, 18, math.MaxInt32, math.MinInt32)
	ext := ps("", "1", "é", "\xff", strings.Repeat("9", 300), ";ext=4")
	src := p32(0, 1, 5, 10, 20, 99, -1, math.MaxInt32)
	car := ps("", "12", "é", "\xff", "$1", strings.Repeat("5", 300))
	raw := ps("", "+", "+1 650-253-0000", "011 16502530000", "1-800-FLOWERS", "x", "650 253 0000 ext. 5", "0", "\xff650", "é中", strings.Repeat("(", 400), "(", "02 3661 8300", "0044 ABC", "*", "١٢٣٤٥٦٧٨٩٠")
	idx := make([]int, 8)
	sizes := []int{len(ccs), len(nns), len(ilz), len(nlz), len(ext), len(src), len(car), len(raw)}
	var rec func(i, left int) bool
	rec = func(i, left int) bool {
		if i == len(idx) {
			return f(ops.Enc(ops.Number{CC: ccs[idx[0]], NN: nns[idx[1]], ILZ: ilz[idx[2]], NLZ: nlz[idx[3]],
				Ext: ext[idx[4]], Src: src[idx[5]], Carrier: car[idx[6]], Raw: raw[idx[7]]}))
		}
		for k := 0; k < sizes[i]; k++ {
			l := left
			if k > 0 {
				if left == 0 {
					break
				}
				l--
			}
			idx[i] = k
			if !rec(i+1, l) {
				return false
			}
		}
		idx[i] = 0
		return true
	}
	return rec(0, bound)
}

// fillKinds calls f with every combination of values for the kinds.
func fillKinds(kinds []ops.Kind, dom func(i int, k ops.Kind) []string, f func([]string) bool) bool {
	cur := make([]string, len(kinds))
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(kinds) {
			return f(cur)
		}
		for _, v := range dom(i, kinds[i]) {
			cur[i] = v
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

func ints(v ...int) []string {
	var out []string
	for _, x := range v {
		out = append(out, strconv.Itoa(x))
	}
	return out
}

func hasKind(ks []ops.Kind, k ops.Kind) bool {
	for _, x := range ks {
		if x == k {
			return true
		}
	}
	return false
}

// narrowDom are one or two values per kind, for the arguments that are not the
// ones being varied.
func narrowDom(k ops.Kind) []string {
	switch k {
	case ops.Text:
		return []string{"+1 650-253-0000", "\xff(0"}
	case ops.Num:
		return []string{ops.Plain(1, 6502530000), ops.Enc(ops.Number{}), ops.Enc(ops.Number{CC: proto.Int32(39), NN: proto.Uint64(236618300), ILZ: proto.Bool(true), Raw: proto.String("02 3661 8300"), Src: proto.Int32(20)})}
	case ops.Region:
		return []string{"US", "IT"}
	case ops.Lang:
		return []string{"en", "und"}
	case ops.CC:
		return ints(1, 800)
	case ops.Type:
		return ints(0, 11)
	case ops.Format:
		return ints(0, 1, 2, 3)
	case ops.Len:
		return ints(0, 1, 2, 3)
	case ops.Tries:
		return ints(0, 3)
	case ops.Rules:
		return ints(0, 1, 2)
	case ops.Bool:
		return []string{"0", "1"}
	case ops.Keys:
		return []string{"6502530000", "+39023"}
	case ops.Carrier:
		return []string{"", "15", "$1"}
	}
	return ints(0)
}

// wideDom is the whole odd domain of a kind.
func wideDom(k ops.Kind) []string {
	switch k {
	case ops.Region:
		return append(allRegions(), oddRegions...)
	case ops.Lang:
		return oddLangs
	case ops.CC:
		out := ints(-1, -2, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64)
		for i := 0; i < 1100; i++ {
			out = append(out, strconv.Itoa(i))
		}
		return out
	case ops.Type, ops.Format, ops.Len, ops.IntArg:
		out := ints(math.MaxInt32, math.MinInt64)
		for i := -3; i < 16; i++ {
			out = append(out, strconv.Itoa(i))
		}
		return out
	case ops.Tries:
		return ints(0, 1, 2, 65535, math.MaxInt64)
	case ops.Rules:
		var out []string
		for i := 0; i < ops.NRules(); i++ {
			out = append(out, strconv.Itoa(i))
		}
		return out
	case ops.Carrier:
		return append([]string{"", "14", strings.Repeat("9", 300)}, oddTokens...)
	}
	return nil
}

var oddKeys = []string{"1", "0", "5", "9", "+", "*", "#", " ", "-", "x", "٣", "９", "𝟗", "＋", "é", "\ufffd", "\x00",
	"\x02-1\x02", "\x0255296\x02", "\x021114112\x02", "\x022147483647\x02", "\x02-2147483648\x02"}

func init() {
	explore.Register(&explore.Property{
		ID:          "C01",
		Rule:        "every exported function and method, on every combination of: texts of up to 3 tokens (thorough 4) over 47 tokens (digits of several scripts, pluses, punctuation, extension and RFC 3966 markers, letters, combining marks, controls, invalid UTF-8), repeated tokens and token pairs at lengths around every limit and up to 20 kB (thorough 200 kB); PhoneNumbers with up to 3 (thorough 4) fields away from an ordinary number over boundary values of all eight fields; all regions, calling codes -2..1099 and extremes, out-of-range enum values, odd languages; keystroke words of length 4 (thorough 5) over 22 keys including runes no text can hold",
		Assumptions: []string{"a call that takes longer than 45 s counts as not returning", "nil *PhoneNumber arguments are outside the property (no number was built)", "maxTries is not negative, as documented"},
		Init:        initWorld,
		Oracles:     map[string]explore.Oracle{"call": callOracle, "long": longOracle},
		Explore: func(c *explore.Ctx) {
			depth := 3
			if c.Thorough {
				depth = 4
			}
			var textOps, numOps []*ops.Op
			for _, o := range ops.All {
				if len(o.Kinds) > 0 && o.Kinds[0] == ops.Text && o.Name != "IsNumberMatch" {
					textOps = append(textOps, o)
				}
				if hasKind(o.Kinds, ops.Num) {
					numOps = append(numOps, o)
				}
			}
			few := func(k ops.Kind) []string {
				switch k {
				case ops.Region:
					return []string{"US", "", "BR"}
				case ops.Tries:
					return ints(3)
				}
				return narrowDom(k)
			}
			c.Par("texts", len(oddTokens), func(k *explore.Worker, u int) {
				words(oddTokens, depth-1, func(s string) bool {
					t := oddTokens[u] + s
					for _, o := range textOps {
						if !fillKinds(o.Kinds, func(i int, kd ops.Kind) []string {
							if i == 0 {
								return []string{t}
							}
							return few(kd)
						}, func(a []string) bool { return k.Do("call", append([]string{o.Name}, a...)...) }) {
							return false
						}
					}
					return true
				})
			})
			c.Par("two texts", len(oddTokens), func(k *explore.Worker, u int) {
				words(oddTokens, 1, func(s string) bool {
					return words(oddTokens, 1, func(t string) bool {
						a, b := oddTokens[u]+s, t
						return k.Do("call", "IsNumberMatch", a, b) && k.Do("call", "IsNumberMatch", "+1650253"+b, a+"+1") &&
							k.Do("call", "IsNumberMatchWithOneNumber", ops.Plain(1, 6502530000), a+b) &&
							k.Do("call", "IsNumberMatchWithOneNumber", ops.Enc(ops.Number{}), a+b)
					})
				})
			})
			lens := []int{200, 248, 249, 250, 251, 252, 1000, 20000}
			if c.Thorough {
				lens = append(lens, 200000)
			}
			c.Par("long texts", len(oddTokens), func(k *explore.Worker, u int) {
				pairs := append([]string{""}, oddTokens...)
				for _, b := range pairs {
					for _, n := range lens {
						if n > 20000 && b != "" {
							continue
						}
						for _, o := range textOps {
							heads := []string{"", "+1 650 253"}
							if n >= 1000 {
								heads = heads[:1]
							}
							for _, h := range heads {
								if !fillKinds(o.Kinds[1:], func(i int, kd ops.Kind) []string {
									if kd == ops.Len {
										return ints(0, 3)
									}
									return few(kd)[:1]
								}, func(a []string) bool {
									return k.Do("long", append([]string{o.Name, h, oddTokens[u] + b, strconv.Itoa(n), "9"}, a...)...)
								}) {
									return
								}
							}
						}
					}
				}
			})
			bound := 3
			if c.Thorough {
				bound = 4
			}
			near := map[string]bool{}
			oddNums(2, func(s string) bool { near[s] = true; return true })
			var nums []string
			oddNums(bound, func(s string) bool { nums = append(nums, s); return true })
			c.Note("%d odd numbers", len(nums))
			c.Par("numbers", len(nums), func(k *explore.Worker, u int) {
				for _, o := range numOps {
					if !fillKinds(o.Kinds, func(i int, kd ops.Kind) []string {
						if kd == ops.Num {
							if o.Name == "IsNumberMatchWithNumbers" && i == 1 {
								return append(narrowDom(kd), nums[u])
							}
							return nums[u : u+1]
						}
						if kd == ops.Region && near[nums[u]] {
							return []string{"US", "IT", "BR", "CO", "AU", "AR", "MX", "ZZ", "", "001", "UZ", "CL", "HU"}
						}
						if kd == ops.Lang && near[nums[u]] {
							return []string{"en", "und", "zh", "it"}
						}
						return narrowDom(kd)
					}, func(a []string) bool { return k.Do("call", append([]string{o.Name}, a...)...) }) {
						return
					}
				}
			})
			// one argument at a time over its whole domain
			var units []func(k *explore.Worker)
			for _, o := range ops.All {
				for i, kd := range o.Kinds {
					if wideDom(kd) == nil {
						continue
					}
					units = append(units, func(k *explore.Worker) {
						fillKinds(o.Kinds, func(j int, kj ops.Kind) []string {
							if i == j {
								return wideDom(kd)
							}
							return narrowDom(kj)
						}, func(a []string) bool { return k.Do("call", append([]string{o.Name}, a...)...) })
					})
				}
				if len(o.Kinds) == 0 {
					units = append(units, func(k *explore.Worker) { k.Do("call", o.Name) })
				}
			}
			c.Par("arguments", len(units), func(k *explore.Worker, u int) { units[u](k) })
			kd := 4
			if c.Thorough {
				kd = 5
			}
			regs := []string{"US", "", "AR", "QQ"}
			c.Par("keys", len(oddKeys)*len(regs), func(k *explore.Worker, u int) {
				words(oddKeys, kd-1, func(s string) bool {
					if len(s) == 0 || strings.Count(s, "") < 2 {
						return true
					}
					return k.Do("call", "AsYouType", regs[u%len(regs)], oddKeys[u/len(regs)]+s)
				})
				words(oddKeys, 2, func(s string) bool {
					return k.Do("call", "AsYouTypeReuse", regs[u%len(regs)], oddKeys[u/len(regs)]+"65025"+s)
				})
			})
			all := w.RegionList()
			c.Par("keys everywhere", len(all), func(k *explore.Worker, u int) {
				for _, a := range oddKeys {
					for _, b := range oddKeys {
						if !k.Do("call", "AsYouType", all[u], "0"+a+"23"+b+"45678901234567890") ||
							!k.Do("call", "AsYouType", all[u], a+b+strconv.Itoa(w.Region(all[u]).CC)+a+"123456") {
							return
						}
					}
				}
			})
		},
	})
}
