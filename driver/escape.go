package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// The specification sees a text as a sequence of characters. Printable ASCII stands for
// itself; anything else, and the backslash, is written \u{....}, and a byte that is not
// UTF-8 is written \x{..}.

func chars(s string) []string {
	out := make([]string, 0, len(s))
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n <= 1:
			out = append(out, fmt.Sprintf("\\x{%02x}", s[i]))
			n = 1
		case r < 0x20 || r > 0x7e || r == '\\':
			out = append(out, fmt.Sprintf("\\u{%04x}", r))
		default:
			out = append(out, string(r))
		}
		i += n
	}
	return out
}

func escape(s string) string { return strings.Join(chars(s), "") }

func unescape(s string) (string, error) {
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] != '\\' {
			b.WriteByte(s[i])
			i++
			continue
		}
		end := strings.IndexByte(s[i:], '}')
		if end < 4 || s[i+2] != '{' {
			return "", fmt.Errorf("bad escape in %q", s)
		}
		v, err := strconv.ParseUint(s[i+3:i+end], 16, 32)
		if err != nil {
			return "", err
		}
		switch s[i+1] {
		case 'u':
			b.WriteRune(rune(v))
		case 'x':
			b.WriteByte(byte(v))
		default:
			return "", fmt.Errorf("bad escape in %q", s)
		}
		i += end + 1
	}
	return b.String(), nil
}
