package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"encoding/xml"
	"io"
	"math"
	"strconv"
	"strings"

	"gopkg.in/yaml.v2"
)

func gunzip(b []byte) ([]byte, bool) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, false
	}
	p, err := io.ReadAll(r)
	return p, err == nil
}

func thousandths(f float64) int { return int(math.Round(f * 1000)) }

type wire struct {
	ContentType     string   `json:"contentType" yaml:"contenttype"`
	ContentLanguage string   `json:"contentLanguage" yaml:"contentlanguage"`
	ContentEncoding []string `json:"contentEncoding" yaml:"contentencoding"`
	ContentLocation string   `json:"contentLocation" yaml:"contentlocation"`
	ContentCharset  string   `json:"contentCharset" yaml:"contentcharset"`
	ContentFeatures []string `json:"contentFeatures" yaml:"contentfeatures"`
	SourceQuality   *float64 `json:"sourceQuality" yaml:"sourcequality"`
}

type wireList struct {
	XMLName         xml.Name `json:"-" yaml:"-"`
	Representations []wire   `json:"representations" yaml:"representations"`
}

func items(ws []wire) []Item {
	out := []Item{}
	for _, w := range ws {
		qs := -1 // not stated
		if w.SourceQuality != nil {
			qs = thousandths(*w.SourceQuality)
		}
		out = append(out, Item{Ct: w.ContentType, Lang: w.ContentLanguage, Cs: w.ContentCharset,
			Enc: append([]string{}, w.ContentEncoding...), Feat: append([]string{}, w.ContentFeatures...),
			Loc: w.ContentLocation, Qs: qs})
	}
	return out
}

// decodeList reads a list document without the help of the library.
func decodeList(b []byte) (string, []Item, bool) {
	var l wireList
	if err := json.Unmarshal(b, &l); err == nil {
		return "json", items(l.Representations), bytes.Contains(b, []byte(`"representations"`))
	}
	l = wireList{}
	if err := xml.Unmarshal(b, &l); err == nil {
		return "xml", items(l.Representations), true
	}
	l = wireList{}
	if err := yaml.Unmarshal(b, &l); err == nil {
		return "yaml", items(l.Representations), bytes.Contains(b, []byte("representations:"))
	}
	return "", nil, false
}

// parseAlternates reads the variant descriptions of RFC 2295, section 8.3.
func parseAlternates(values []string) Alts {
	a := Alts{Ok: true, Fields: len(values), Vs: []Variant{}, Fb: []string{}}
	for _, group := range groups(strings.Join(values, ","), ',') {
		inner, ok := unbrace(group)
		if !ok {
			a.Ok = false
			return a
		}
		uri, rest, ok := quoted(inner)
		if !ok {
			a.Ok = false
			return a
		}
		rest = strings.TrimSpace(rest)
		if rest == "" {
			a.Fb = append(a.Fb, uri)
			continue
		}
		v := Variant{Uri: uri, Features: []string{}, Length: -1}
		q := rest
		if i := strings.IndexAny(rest, " {"); i != -1 {
			q = rest[:i]
		}
		f, err := strconv.ParseFloat(q, 64)
		if err != nil {
			a.Ok = false
			return a
		}
		v.Qs = thousandths(f)
		for _, attr := range groups(rest[len(q):], ' ') {
			body, ok := unbrace(attr)
			if !ok {
				a.Ok = false
				return a
			}
			body = strings.TrimSpace(body)
			key, value, _ := strings.Cut(body, " ")
			value = strings.TrimSpace(value)
			if len(value) > 1 && value[0] == '"' && value[len(value)-1] == '"' {
				value = value[1 : len(value)-1]
			}
			switch strings.ToLower(key) {
			case "type":
				v.Type = value
			case "charset":
				v.Charset = value
			case "language":
				v.Language = value
			case "features":
				v.Features = append([]string{}, strings.Fields(value)...)
			case "length":
				if v.Length, err = strconv.Atoi(value); err != nil {
					a.Ok = false
					return a
				}
			}
		}
		a.Vs = append(a.Vs, v)
	}
	return a
}

// groups splits at the separator outside of braces and quotes.
func groups(s string, sep byte) []string {
	var out []string
	depth, start, quote := 0, 0, false
	flush := func(end int) {
		if g := strings.TrimSpace(s[start:end]); g != "" {
			out = append(out, g)
		}
		start = end + 1
	}
	for i := 0; i < len(s); i++ {
		switch {
		case quote && s[i] == '\\':
			i++
		case s[i] == '"':
			quote = !quote
		case quote:
		case s[i] == '{':
			depth++
		case s[i] == '}':
			depth--
		case s[i] == sep && depth == 0:
			flush(i)
		}
	}
	if start <= len(s) {
		flush(len(s))
	}
	return out
}

func unbrace(s string) (string, bool) {
	s = strings.TrimSpace(s)
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return "", false
	}
	return strings.TrimSpace(s[1 : len(s)-1]), true
}

func quoted(s string) (string, string, bool) {
	if s == "" || s[0] != '"' {
		return "", "", false
	}
	for i := 1; i < len(s); i++ {
		if s[i] == '\\' {
			i++
		} else if s[i] == '"' {
			u, err := strconv.Unquote(s[:i+1])
			return u, s[i+1:], err == nil
		}
	}
	return "", "", false
}
