package kit

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"
)

// Family is a named group of strings.
type Family struct {
	Name    string
	Members []string
}

// Families lists groups of strings built from base. The members of a group are different strings which a careless
// normalisation, parser or formatter would take for the same.
func Families(r *rand.Rand, base string) []Family {
	b := base
	up, low := strings.ToUpper(b), strings.ToLower(b)
	f := map[string][]string{
		"utf8":      {b + "\xff", b + "\xfe", b + "\xc0\x80", b + "\xed\xa0\x80", b + "\ufffd", b + "\xe2\x82"},
		"nfc":       {b + "é", b + "e\u0301", b + "e", b + "è", b + "É"},
		"width":     {b + "A", b + "Ａ", b + "А", b + "Α", b + "𝐀", b + "a"},
		"digits":    {b + "1", b + "١", b + "１", b + "①", b + "²", b + "I", b + "l"},
		"numbers":   {b + "1", b + "01", b + "1.0", b + "+1", b + "1e0", b + "0x1", b + "1 ", b + "1_"},
		"bignum":    {b + "9007199254740992", b + "9007199254740993", b + "9.007199254740993e15"},
		"zero":      {b, b + "\u200b", b + "\u200d", b + "\ufeff", b + "\u00ad", b + "\u2060", b + "\ufe0f"},
		"nul":       {b, b + "\x00", b + "\x00x", b + "\x00y", b + "%00", b + "\\0"},
		"percent":   {b + "/c", b + "%2Fc", b + "%2fc", b + "%252Fc", b + "\\c", b + "//c", b + "/./c"},
		"plus":      {b + " c", b + "+c", b + "%20c", b + "\u00a0c", b + "\tc", b + "_c"},
		"case":      {b + "aß", b + "aSS", b + "ass", b + "aẞ", b + "aſs", b + "AK", b + "aK", b + "ak"},
		"turkish":   {b + "i", b + "I", b + "ı", b + "İ", b + "i\u0307"},
		"html":      {b + "&c", b + "&amp;c", b + "\\u0026c", b + "&#38;c", b + "%26c"},
		"quotes":    {b + "\"", b + "\\\"", b + "'", b + "''", b + "\\u0022", b + "“"},
		"lines":     {b + "\nc", b + "\r\nc", b + "\rc", b + "\u2028c", b + "\u0085c", b + "\\nc"},
		"lists":     {b + "a b", b + "b a", b + "a  b", b + "a,b", b + "a b a", b + "[\"a\",\"b\"]", b + "a;b", b + "a"},
		"base64":    {b + "YQ==", b + "YQ", b + "YR==", b + "YQ=", b + "-_", b + "+/"},
		"host":      {"https://" + low + ".example", "https://" + low + ".example/", "https://" + low + ".example:443", "https://" + up + ".example", "https://" + low + ".example.", "https://www." + low + ".example", "http://" + low + ".example", "https://" + low + ".example?", "https://" + low + ".example#", "https://" + low + ".example//", "https://u@" + low + ".example", low + ".example", "//" + low + ".example", "https://" + low + ".example/.", "https://" + low + ".example/a/..", "HTTPS://" + low + ".example"},
		"idn":       {"https://münchen" + low + ".example", "https://mu\u0308nchen" + low + ".example", "https://xn--mnchen-3ya" + low + ".example", "https://m%C3%BCnchen" + low + ".example"},
		"separator": {b + ":c", b + "|c", b + "c", b + "#c", b + "~c", b + ".c", b + "-c", b + "_c", b + "::c", b + "; c"},
		"escape":    {b + "\\c", b + "\\\\c", b + "\\u005cc", b + "%5Cc", b + "/c"},
		"long":      {},
	}
	// strings which share long prefixes and suffixes
	for _, n := range []int{15, 16, 31, 32, 63, 64, 72, 127, 128, 255, 256, 1023, 1024, 4095, 4096} {
		p := strings.Repeat("z", n)
		f["long"] = append(f["long"], b+p+"1", b+p+"2", "1"+p+b, "2"+p+b, b+p)
	}
	f["swap"] = []string{fmt.Sprint(b, "xy"), fmt.Sprint(b, "yx"), fmt.Sprint("xy", b), fmt.Sprint("yx", b)}
	var out []Family
	for n := range f {
		out = append(out, Family{Name: n})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	for i, x := range out {
		g := f[x.Name]
		seen := map[string]bool{}
		u := g[:0]
		for _, s := range g {
			if !seen[s] {
				seen[s] = true
				u = append(u, s)
			}
		}
		r.Shuffle(len(u), func(i, j int) { u[i], u[j] = u[j], u[i] })
		out[i].Members = u
	}
	return out
}

// Printable tells whether s consists of printable ASCII.
func Printable(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' || s[i] > '~' {
			return false
		}
	}
	return s != ""
}

// Odd is a member of some family of base; only of printable ASCII if asked so.
func Odd(r *rand.Rand, base string, printable bool) string {
	fs := Families(r, base)
	for {
		f := fs[r.Intn(len(fs))]
		if v := f.Members[r.Intn(len(f.Members))]; Printable(v) || !printable && utf8.ValidString(v) {
			return v
		}
	}
}

// Subject names a user the way deployments do, printable ASCII only.
func Subject(r *rand.Rand, issuer, client string) string {
	id := RandString(r, 8, Alnum)
	if !Printable(issuer) {
		issuer = "https://as.example"
	}
	return Pick(r, "user-"+id, "user-"+id, "user-"+id, id+"@example.com", id+"@"+issuer, issuer+"/users/"+id, issuer+"#"+id, "acct:"+id+"@as.example",
		"auth0|"+id, "CN="+id+",OU=People,DC=example", client+":"+id, id+" "+id, "0000"+RandString(r, 6, "0123456789"), strings.ToUpper(id), `DOMAIN\\`+id, `"`+id+`"`, "null-"+id, "client:"+id, "<"+id+">", id+"=", "urn:uuid:"+id)
}
