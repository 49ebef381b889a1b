package model

import (
	"encoding/binary"
	"fmt"
	"sort"
)

// FieldSpec is one field of a record: its Go and wire names, its number on the
// wire, what it holds and its value when unset.
type FieldSpec struct {
	Go, Name string
	Num      int
	Kind     string // i32, u64, str, bool, enum, strs, i32s, msg:X, msgs:X
	Default  string
}

// Records are the messages of phonenumber.proto and phonemetadata.proto.
var Records = map[string][]FieldSpec{
	"PhoneNumber": {
		{"CountryCode", "country_code", 1, "i32", "0"},
		{"NationalNumber", "national_number", 2, "u64", "0"},
		{"Extension", "extension", 3, "str", ""},
		{"ItalianLeadingZero", "italian_leading_zero", 4, "bool", "false"},
		{"RawInput", "raw_input", 5, "str", ""},
		{"CountryCodeSource", "country_code_source", 6, "enum", "0"},
		{"PreferredDomesticCarrierCode", "preferred_domestic_carrier_code", 7, "str", ""},
		{"NumberOfLeadingZeros", "number_of_leading_zeros", 8, "i32", "1"},
	},
	"NumberFormat": {
		{"Pattern", "pattern", 1, "str", ""},
		{"Format", "format", 2, "str", ""},
		{"LeadingDigitsPattern", "leading_digits_pattern", 3, "strs", ""},
		{"NationalPrefixFormattingRule", "national_prefix_formatting_rule", 4, "str", ""},
		{"DomesticCarrierCodeFormattingRule", "domestic_carrier_code_formatting_rule", 5, "str", ""},
		{"NationalPrefixOptionalWhenFormatting", "national_prefix_optional_when_formatting", 6, "bool", "false"},
	},
	"PhoneNumberDesc": {
		{"NationalNumberPattern", "national_number_pattern", 2, "str", ""},
		{"ExampleNumber", "example_number", 6, "str", ""},
		{"PossibleLength", "possible_length", 9, "i32s", ""},
		{"PossibleLengthLocalOnly", "possible_length_local_only", 10, "i32s", ""},
	},
	"PhoneMetadata": {
		{"GeneralDesc", "general_desc", 1, "msg:PhoneNumberDesc", ""},
		{"FixedLine", "fixed_line", 2, "msg:PhoneNumberDesc", ""},
		{"Mobile", "mobile", 3, "msg:PhoneNumberDesc", ""},
		{"TollFree", "toll_free", 4, "msg:PhoneNumberDesc", ""},
		{"PremiumRate", "premium_rate", 5, "msg:PhoneNumberDesc", ""},
		{"SharedCost", "shared_cost", 6, "msg:PhoneNumberDesc", ""},
		{"PersonalNumber", "personal_number", 7, "msg:PhoneNumberDesc", ""},
		{"Voip", "voip", 8, "msg:PhoneNumberDesc", ""},
		{"Id", "id", 9, "str", ""},
		{"CountryCode", "country_code", 10, "i32", "0"},
		{"InternationalPrefix", "international_prefix", 11, "str", ""},
		{"NationalPrefix", "national_prefix", 12, "str", ""},
		{"PreferredExtnPrefix", "preferred_extn_prefix", 13, "str", ""},
		{"NationalPrefixForParsing", "national_prefix_for_parsing", 15, "str", ""},
		{"NationalPrefixTransformRule", "national_prefix_transform_rule", 16, "str", ""},
		{"PreferredInternationalPrefix", "preferred_international_prefix", 17, "str", ""},
		{"SameMobileAndFixedLinePattern", "same_mobile_and_fixed_line_pattern", 18, "bool", "false"},
		{"NumberFormat", "number_format", 19, "msgs:NumberFormat", ""},
		{"IntlNumberFormat", "intl_number_format", 20, "msgs:NumberFormat", ""},
		{"Pager", "pager", 21, "msg:PhoneNumberDesc", ""},
		{"MainCountryForCode", "main_country_for_code", 22, "bool", "false"},
		{"LeadingDigits", "leading_digits", 23, "str", ""},
		{"NoInternationalDialling", "no_international_dialling", 24, "msg:PhoneNumberDesc", ""},
		{"Uan", "uan", 25, "msg:PhoneNumberDesc", ""},
		{"LeadingZeroPossible", "leading_zero_possible", 26, "bool", "false"},
		{"Emergency", "emergency", 27, "msg:PhoneNumberDesc", ""},
		{"Voicemail", "voicemail", 28, "msg:PhoneNumberDesc", ""},
		{"ShortCode", "short_code", 29, "msg:PhoneNumberDesc", ""},
		{"StandardRate", "standard_rate", 30, "msg:PhoneNumberDesc", ""},
		{"CarrierSpecific", "carrier_specific", 31, "msg:PhoneNumberDesc", ""},
		{"MobileNumberPortableRegion", "mobile_number_portable_region", 32, "bool", "false"},
		{"SmsServices", "sms_services", 33, "msg:PhoneNumberDesc", ""},
	},
	"PhoneMetadataCollection": {
		{"Metadata", "metadata", 1, "msgs:PhoneMetadata", ""},
	},
}

// SourceNames are the values of the country-code source.
var SourceNames = map[int32]string{0: "UNSPECIFIED", 1: "FROM_NUMBER_WITH_PLUS_SIGN", 5: "FROM_NUMBER_WITH_IDD", 10: "FROM_NUMBER_WITHOUT_PLUS_SIGN", 20: "FROM_DEFAULT_COUNTRY"}

// Record is the value of a record: for each set field int32, uint64, string,
// bool, []string, []int32, Record or []Record; an enum is an int32.
type Record map[string]any

// EncodeRecord writes a record, its fields in the order given by less.
func EncodeRecord(msg string, r Record, backwards bool) []byte {
	specs := append([]FieldSpec{}, Records[msg]...)
	sort.Slice(specs, func(i, j int) bool { return (specs[i].Num < specs[j].Num) != backwards })
	var b []byte
	tag := func(n, t int) { b = binary.AppendUvarint(b, uint64(n<<3|t)) }
	raw := func(n int, p []byte) {
		tag(n, 2)
		b = binary.AppendUvarint(b, uint64(len(p)))
		b = append(b, p...)
	}
	i32 := func(n int, v int32) { tag(n, 0); b = binary.AppendUvarint(b, uint64(int64(v))) }
	for _, f := range specs {
		switch v := r[f.Go].(type) {
		case nil:
		case int32:
			i32(f.Num, v)
		case uint64:
			tag(f.Num, 0)
			b = binary.AppendUvarint(b, v)
		case bool:
			tag(f.Num, 0)
			if v {
				b = append(b, 1)
			} else {
				b = append(b, 0)
			}
		case string:
			raw(f.Num, []byte(v))
		case []string:
			for _, x := range v {
				raw(f.Num, []byte(x))
			}
		case []int32:
			for _, x := range v {
				i32(f.Num, x)
			}
		case Record:
			raw(f.Num, EncodeRecord(sub(f.Kind), v, backwards))
		case []Record:
			for _, x := range v {
				raw(f.Num, EncodeRecord(sub(f.Kind), x, backwards))
			}
		}
	}
	return b
}

func sub(kind string) string {
	for i := range kind {
		if kind[i] == ':' {
			return kind[i+1:]
		}
	}
	return ""
}

// DecodeRecord reads a record back.
func DecodeRecord(msg string, b []byte) (Record, error) {
	byNum := map[int]FieldSpec{}
	for _, f := range Records[msg] {
		byNum[f.Num] = f
	}
	r := Record{}
	for len(b) > 0 {
		t, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, fmt.Errorf("%s: bad tag", msg)
		}
		b = b[n:]
		f, ok := byNum[int(t>>3)]
		if !ok {
			return nil, fmt.Errorf("%s: a field numbered %d", msg, t>>3)
		}
		v, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, fmt.Errorf("%s.%s: bad value", msg, f.Go)
		}
		b = b[n:]
		kind := f.Kind
		if i := len(sub(kind)); i > 0 {
			kind = kind[:len(kind)-i]
		}
		var p []byte
		if t&7 == 2 {
			if uint64(len(b)) < v {
				return nil, fmt.Errorf("%s.%s: too short", msg, f.Go)
			}
			p, b = b[:v], b[v:]
		} else if t&7 != 0 {
			return nil, fmt.Errorf("%s.%s: wire type %d", msg, f.Go, t&7)
		}
		if (t&7 == 2) != (kind == "str" || kind == "strs" || kind == "msg:" || kind == "msgs:") {
			return nil, fmt.Errorf("%s.%s: wire type %d", msg, f.Go, t&7)
		}
		switch kind {
		case "i32", "enum":
			r[f.Go] = int32(v)
		case "u64":
			r[f.Go] = v
		case "bool":
			r[f.Go] = v != 0
		case "str":
			r[f.Go] = string(p)
		case "strs":
			s, _ := r[f.Go].([]string)
			r[f.Go] = append(s, string(p))
		case "i32s":
			s, _ := r[f.Go].([]int32)
			r[f.Go] = append(s, int32(v))
		case "msg:", "msgs:":
			x, err := DecodeRecord(sub(f.Kind), p)
			if err != nil {
				return nil, err
			}
			if kind == "msg:" {
				r[f.Go] = x
			} else {
				s, _ := r[f.Go].([]Record)
				r[f.Go] = append(s, x)
			}
		}
	}
	return r, nil
}

// MergeFormat folds b into a.
func MergeFormat(a, b Record) Record {
	out := Record{}
	for k, v := range a {
		out[k] = v
	}
	for k, v := range b {
		if k == "LeadingDigitsPattern" {
			old, _ := out[k].([]string)
			v = append(append([]string{}, old...), v.([]string)...)
		}
		out[k] = v
	}
	return out
}

// Has reports whether a list has a length.
func Has(list []int32, n int32) bool {
	for i := len(list) - 1; i >= 0; i-- {
		if list[i] == n {
			return true
		}
	}
	return false
}
