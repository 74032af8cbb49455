package kit

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/rand"
	"net/url"
	"strings"
	"unicode"
)

// NearMisses lists strings which differ from s but resemble it.
func NearMisses(s string) []string {
	out := []string{"", s + "/", s + " ", " " + s, s + "\x00", s + "#", s + "?", s + "?a=b", s + "#f", s + s, s + ".", s + "%20", s + "x", "x" + s, s + "\n", s + "=",
		"Bearer " + s, "bearer " + s, "DPoP " + s, "\"" + s + "\"", "<" + s + ">", s + ";", s + ",", s + "&x=y", s + "~", "~" + s, "\t" + s, "\ufeff" + s, s + "\u200b", "urn:" + s,
		"0" + s, s + s[len(s)/2:], s + ":", ":" + s, s + "\x00" + s, s + "*", s + "%00", s + "|" + s, s + "-1", s + "_",
		"www." + s, "https://" + s, "http://" + s, s + ":443", s + ".json", s + "/..", s + "@" + s, s + "&", s + ";v=1", s + "/.", s + "+", "//" + s}
	if len(s) > 1 {
		out = append(out, s[1:], s[:len(s)-1], strings.ToUpper(s), strings.ToLower(s), s[:len(s)/2], s[len(s)/2:], s[1:]+s[:1],
			strings.Replace(s, "e", "%65", 1), strings.Replace(s, "/", "%2F", 1), strings.Replace(s, "https", "http", 1), strings.TrimSuffix(s, "/"),
			strings.Replace(s, "a", "а", 1), strings.Replace(s, "://", ":///", 1), strings.Replace(s, ".", "x", 1), strings.Replace(s, "example/", "example:443/", 1),
			strings.Replace(s, "https://", "https://u@", 1), s[:len(s)-1]+string(s[len(s)-1]^1), string(s[0]^1)+s[1:])
		out = append(out, url.QueryEscape(s), base64.RawURLEncoding.EncodeToString([]byte(s)), hex.EncodeToString([]byte(s)), strings.ReplaceAll(s, "-", "_"), strings.ReplaceAll(s, "_", "-"),
			fullwidth(s), s[:len(s)-1]+fmt.Sprintf("%%%02X", s[len(s)-1]), s[:len(s)/2]+"/./"+s[len(s)/2:], s[:len(s)/2]+" "+s[len(s)/2:],
			strings.Replace(s, "/", "//", 1), strings.Replace(s, "/", "\\", 1), strings.Replace(s, ".", "", 1), s[len(s)-1:]+s[:len(s)-1], s[:len(s)-2], s[2:], s[:1]+s,
			strings.Replace(s, "://", "://www.", 1), strings.Replace(s, "www.", "", 1), strings.TrimPrefix(s, "https://"), strings.TrimPrefix(s, "http://"), strings.TrimPrefix(s, "urn:"))
		if u, err := url.Parse(s); err == nil && u.Host != "" {
			out = append(out, u.Host, u.Hostname(), u.Scheme+"://"+u.Host, u.Scheme+"://"+u.Host+"/", u.Path)
		}
		i := len(s) / 3
		out = append(out, s[:i]+flip(s[i])+s[i+1:])
	}
	uniq := out[:0]
	seen := map[string]bool{s: true}
	for _, o := range out {
		if !seen[o] {
			seen[o] = true
			uniq = append(uniq, o)
		}
	}
	return uniq
}

// fullwidth replaces the first letter or digit by its compatibility form.
func fullwidth(s string) string {
	for i := 0; i < len(s); i++ {
		if c := s[i]; c > ' ' && c < 0x7f {
			return s[:i] + string(rune(c)-0x20+0xff00) + s[i+1:]
		}
	}
	return s
}

func flip(b byte) string {
	if unicode.IsUpper(rune(b)) {
		return strings.ToLower(string(b))
	}
	if unicode.IsLower(rune(b)) {
		return strings.ToUpper(string(b))
	}
	return string(b ^ 4)
}

// NearMiss picks one.
func NearMiss(r *rand.Rand, s string) string {
	n := NearMisses(s)
	return n[r.Intn(len(n))]
}

// Garbage is an arbitrary byte string biased to interesting shapes.
func Garbage(r *rand.Rand, max int) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return RandString(r, 1+r.Intn(max), Alnum+"._-~")
	case 2:
		return strings.Repeat(Pick(r, "A", ".", "{", "[", "é", "\x00", "%", "_", "~", "="), 1+r.Intn(max))
	case 3:
		b := make([]byte, 1+r.Intn(max))
		r.Read(b)
		return string(b)
	case 4:
		return Pick(r, "..", "a.b.c", "e30.e30.e30", "eyJhbGciOiJub25lIn0..", "eyJhbGciOiJub25lIn0.e30.", "null", "{}", "[]", `{"a":`, "-1", "�", "urn:solid:", "https://", "://", "%zz", "~", "~~", "_", "__", "sldat_", "sldat__", "a~b", "a.b.c~d.e.f", ".", "...", "....", ".....")
	case 5:
		return RandString(r, 1+r.Intn(20), Alnum+"-_") + "." + RandString(r, 1+r.Intn(max), Alnum+"-_") + "." + RandString(r, 1+r.Intn(max), Alnum+"-_")
	case 6:
		return RandString(r, 1+r.Intn(max), "0123456789")
	default:
		return RandString(r, 1+r.Intn(max), "{}[]\":,0123456789eE+-.truefalsn \\u")
	}
}

// MutateBytes alters a byte string in a random way (never returning it unchanged).
func MutateBytes(r *rand.Rand, in []byte) []byte {
	for {
		b := append([]byte{}, in...)
		switch r.Intn(8) {
		case 0:
			if len(b) > 0 {
				b[r.Intn(len(b))] ^= 1 << r.Intn(8)
			}
		case 1:
			if len(b) > 0 {
				b = b[:r.Intn(len(b))]
			}
		case 2:
			i := r.Intn(len(b) + 1)
			b = append(b[:i:i], append([]byte{byte(r.Intn(256))}, b[i:]...)...)
		case 3:
			if len(b) > 1 {
				i := r.Intn(len(b))
				b = append(b[:i:i], b[i+1:]...)
			}
		case 4:
			if len(b) > 1 {
				i, j := r.Intn(len(b)), r.Intn(len(b))
				b[i], b[j] = b[j], b[i]
			}
		case 5:
			if len(b) > 0 {
				b[r.Intn(len(b))] = byte(r.Intn(256))
			}
		case 6:
			n := 1 + r.Intn(10)
			for i := 0; i < n; i++ {
				b = append(b, byte(r.Intn(256)))
			}
		case 7:
			if len(b) > 2 {
				i := r.Intn(len(b) - 1)
				j := i + 1 + r.Intn(len(b)-i-1)
				b = append(b[:i:i], b[j:]...)
			}
		}
		if string(b) != string(in) {
			return b
		}
	}
}
