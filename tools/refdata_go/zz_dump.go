package idna

import "unicode/utf8"

func Dump(r rune) (string, string) {
	var buf [4]byte
	n := utf8.EncodeRune(buf[:], r)
	v, _ := trie.lookupString(string(buf[:n]))
	c := info(v)
	m := ""
	if c.isMapped() {
		m = string(c.appendMapping(nil, string(buf[:n])))
	}
	switch c.category() {
	case mapped:
		return "mapped", m
	case disallowedSTD3Mapped:
		return "disallowed_STD3_mapped", m
	case deviation:
		return "deviation", m
	case valid:
		return "valid", ""
	case validNV8:
		return "valid NV8", ""
	case validXV8:
		return "valid XV8", ""
	case disallowed:
		return "disallowed", ""
	case disallowedSTD3Valid:
		return "disallowed_STD3_valid", ""
	case ignored:
		return "ignored", ""
	case unknown:
		return "unknown", ""
	}
	return "?", ""
}
