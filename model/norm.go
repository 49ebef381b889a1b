package model

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

var digitTable = func() map[rune]byte {
	m := map[rune]byte{}
	start := rune(-1)
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if unicode.Is(unicode.Nd, r) {
			if start < 0 {
				start = r
			}
			m[r] = byte('0' + (r-start)%10)
		} else {
			start = -1
		}
	}
	return m
}()

// DigitValue gives the ASCII digit of a decimal digit of any script.
func DigitValue(r rune) (byte, bool) {
	if r < 0x80 {
		if r >= '0' && r <= '9' {
			return byte(r), true
		}
		return 0, false
	}
	v, ok := digitTable[r]
	return v, ok
}

const keypad = "22233344455566677778889999"

// Digits keeps only decimal digits, as ASCII.
func Digits(s string) string {
	var b strings.Builder
	for _, r := range s {
		if v, ok := DigitValue(r); ok {
			b.WriteByte(v)
		}
	}
	return b.String()
}

// AsciiDigits replaces decimal digits by their ASCII form and keeps the rest.
func AsciiDigits(s string) string {
	var b strings.Builder
	for _, r := range s {
		if v, ok := DigitValue(r); ok {
			b.WriteByte(v)
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// Diallable keeps only 0-9, +, * and #.
func Diallable(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= '0' && r <= '9' || r == '+' || r == '*' || r == '#' {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func keypadOf(r rune) (byte, bool) {
	if r >= '0' && r <= '9' {
		return byte(r), true
	}
	u := unicode.ToUpper(r)
	if u >= 'A' && u <= 'Z' {
		return keypad[u-'A'], true
	}
	return 0, false
}

// ConvertAlpha replaces letters by keypad digits and keeps everything else.
func ConvertAlpha(s string) string {
	var b strings.Builder
	for _, r := range s {
		if v, ok := keypadOf(r); ok {
			b.WriteByte(v)
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func asciiLetters(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		c := s[i] | 0x20
		if c >= 'a' && c <= 'z' {
			n++
		}
	}
	return n
}

// isVanity: three or more ASCII letters (and no line break, which never gets
// this far in a viable number).
func isVanity(s string) bool {
	return asciiLetters(s) >= 3 && !strings.Contains(s, "\n")
}

// normalize strips punctuation; letters count as keypad digits only in vanity
// numbers.
func normalize(s string) string {
	if !isVanity(s) {
		return Digits(s)
	}
	var b strings.Builder
	for _, r := range s {
		if v, ok := keypadOf(r); ok {
			b.WriteByte(v)
		}
	}
	return b.String()
}

const punctChars = "-x\u2010\u2011\u2012\u2013\u2014\u2015\u2212\u30FC\uFF0D\uFF0E\uFF0F \u00A0\u00AD\u200B\u2060\u3000()\uFF08\uFF09\uFF3B\uFF3D.[]/~\u2053\u223C\uFF5E"

func isPunct(r rune) bool { return strings.ContainsRune(punctChars, r) && r != utf8.RuneError }
func isPlus(r rune) bool  { return r == '+' || r == '\uFF0B' }

// groupingChars: alpha, digits and grouping symbols retained when keeping the
// caller's own spelling.
func groupingChar(r rune) (rune, bool) {
	switch r {
	case '-', '\uFF0D', '\u2010', '\u2011', '\u2012', '\u2013', '\u2014', '\u2015', '\u2212':
		return '-', true
	case '/', '\uFF0F':
		return '/', true
	case ' ', '\u3000', '\u2060':
		return ' ', true
	case '.', '\uFF0E':
		return '.', true
	case '+', '*':
		return r, true
	}
	if r >= '0' && r <= '9' {
		return r, true
	}
	u := unicode.ToUpper(r)
	if u >= 'A' && u <= 'Z' {
		return u, true
	}
	return 0, false
}
