package props

import (
	"regexp"
	"sync"
)

var prefixMemo sync.Map

// prefixWords lists, shortest first, digit strings of at most maxLen digits
// that a pattern matches as a whole.
func prefixWords(pattern string, maxLen, limit int) []string {
	if pattern == "" {
		return nil
	}
	type key struct {
		p    string
		n, l int
	}
	k := key{pattern, maxLen, limit}
	if v, ok := prefixMemo.Load(k); ok {
		return v.([]string)
	}
	re := regexp.MustCompile(`^(?:` + pattern + `)$`)
	var out []string
	// breadth first over digit strings; patterns of prefixes are short
	level := []string{""}
	for n := 0; n <= maxLen && len(out) < limit; n++ {
		for _, s := range level {
			if n > 0 && re.MatchString(s) {
				out = append(out, s)
				if len(out) >= limit {
					break
				}
			}
		}
		if n == maxLen || n >= 4 {
			break
		}
		var next []string
		for _, s := range level {
			for d := byte('0'); d <= '9'; d++ {
				next = append(next, s+string(d))
			}
		}
		level = next
	}
	prefixMemo.Store(k, out)
	return out
}

func iddCache(p string, limit int) []string { return prefixWords(p, 5, limit) }

// extensionForms are the ways of introducing an extension, right and nearly
// right: what stands before the label, the label, what follows it.
func extensionForms(yield func(intro string)) {
	before := []string{"", " ", "\u00A0", "\t", ",", " , ", "\t\u00A0", "\u3000", "."}
	labels := []string{"ext", "extn", "xt", "xtn", "e", "extension", "extensi\u00F3n", "extensio\u0301n", "extensio", "\uFF45\uFF58\uFF54", "\uFF58\uFF54\uFF4E", "\uFF45\uFF58\uFF54\uFF4E", "\uFF58\uFF54",
		"\u0434\u043E\u0431", "\u0414\u041E\u0411", "anexo", "ANEXO", "anex", "x", "X", "\uFF58", "#", "\uFF03", "~", "\uFF5E", "int", "INT", "\uFF49\uFF4E\uFF54", ";", ",,", ",", ",,,", ";;", "-", " -", ";ext=", "EXT", ""}
	after := []string{"", ":", ".", "\uFF0E", " ", "\u00A0", "\t", ",", "-", ": -", ".\t,", "::", " :"}
	for _, b := range before {
		for _, l := range labels {
			for _, a := range after {
				yield(b + l + a)
			}
		}
	}
}

var extensionDigits = []string{"", "5", "12", "123456", "1234567", "123456789", "1234567890", "123456789012345", "1234567890123456", "12345678901234567890", "123456789012345678901", "\u0665", "\uFF11\uFF12", "5a", "5 6"}
