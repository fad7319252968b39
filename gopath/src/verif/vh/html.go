package vh

import (
	"fmt"
	"html"
	"strings"
	"unicode"
)

// Tok is a tag or a run of text of an HTML page.
type Tok struct {
	Tag   string // lower-case name with leading / for end tags; "" for text
	Attrs map[string]string
	Text  string // unescaped
}

// Squash removes all white space.
func Squash(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s)
}

// Tokens splits a page. Blank text is dropped.
func Tokens(page string) ([]Tok, error) {
	var toks []Tok
	for len(page) > 0 {
		i := strings.IndexByte(page, '<')
		if i < 0 {
			i = len(page)
		}
		if i > 0 {
			s := html.UnescapeString(page[:i])
			if Squash(s) != "" {
				toks = append(toks, Tok{Text: s})
			}
			page = page[i:]
			continue
		}
		t, n, err := tag(page)
		if err != nil {
			return nil, err
		}
		toks = append(toks, t)
		page = page[n:]
	}
	return toks, nil
}

func isName(c byte) bool {
	return c == '-' || c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == ':'
}

func tag(s string) (t Tok, n int, err error) {
	i := 1
	bad := func() (Tok, int, error) {
		if len(s) > 60 {
			s = s[:60]
		}
		return Tok{}, 0, fmt.Errorf("bad tag at %q", s)
	}
	if i < len(s) && s[i] == '/' {
		i++
	}
	if i >= len(s) || !(s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z') {
		return bad()
	}
	for i < len(s) && isName(s[i]) {
		i++
	}
	t.Tag = strings.ToLower(s[1:i])
	t.Attrs = map[string]string{}
	for {
		for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r' || s[i] == '/') {
			i++
		}
		if i >= len(s) {
			return bad()
		}
		if s[i] == '>' {
			return t, i + 1, nil
		}
		j := i
		for i < len(s) && isName(s[i]) {
			i++
		}
		if i == j {
			return bad()
		}
		name := strings.ToLower(s[j:i])
		val := ""
		if i < len(s) && s[i] == '=' {
			i++
			if i < len(s) && (s[i] == '"' || s[i] == '\'') {
				q := s[i]
				j = i + 1
				i = j
				for i < len(s) && s[i] != q {
					i++
				}
				if i >= len(s) {
					return bad()
				}
				val = s[j:i]
				i++
			} else {
				j = i
				for i < len(s) && !strings.ContainsRune(" \t\r\n>", rune(s[i])) {
					i++
				}
				val = s[j:i]
			}
		}
		t.Attrs[name] = html.UnescapeString(val)
	}
}
