package main

import (
	"bytes"
	"encoding/json"
)

// Before some cases the relatives of the case run, their verdict ignored: the
// same case with the letters' case swapped, and with the last letter of every
// text and the last digit of every number changed, and with whole numbers given as
// texts. Code that remembers
// anything between calls under a key that does not tell them apart then
// answers the case with what it remembers.

// never holds the keys whose texts select what a case does.
var never = map[string]bool{"k": true, "K": true, "op": true, "n": true, "kind": true, "dir": true, "type": true, "w": true, "how": true, "clause": true, "b64": true}

var wholeNumber = map[string]bool{"int": true, "int8": true, "int16": true, "int32": true, "int64": true}

func relatives(c []byte) (out [][]byte) {
	for _, change := range []func(string) string{swapCase, changeLast, nil} {
		d := json.NewDecoder(bytes.NewReader(c))
		d.UseNumber()
		var v interface{}
		if d.Decode(&v) != nil {
			return nil
		}
		b, err := json.Marshal(vary("", v, change))
		if err == nil && !bytes.Equal(b, c) {
			out = append(out, b)
		}
	}
	return out
}

func vary(key string, v interface{}, change func(string) string) interface{} {
	switch v := v.(type) {
	case string:
		if never[key] || change == nil {
			return v
		}
		return change(v)
	case []interface{}:
		for i := range v {
			v[i] = vary(key, v[i], change)
		}
	case map[string]interface{}:
		if kind, ok := v["k"].(string); ok && change == nil && wholeNumber[kind] {
			i, ok := v["i"].(string)
			if !ok {
				i = "0"
			}
			return map[string]interface{}{"k": "string", "s": i}
		}
		for k := range v {
			v[k] = vary(k, v[k], change)
		}
	}
	return v
}

func swapCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' {
			b[i] = c ^ 0x20
		}
	}
	return string(b)
}

func changeLast(s string) string {
	b := []byte(s)
	for i := len(b) - 1; i >= 0; i-- {
		switch c := b[i]; {
		case '0' <= c && c <= '9':
			b[i] = c ^ 1
			return string(b)
		case 'a' <= c && c < 'z' || 'A' <= c && c < 'Z':
			b[i] = c + 1
			return string(b)
		}
	}
	return string(b)
}

// runKin runs the relatives of a case.
func runKin(f *Facet, c []byte) {
	for _, b := range relatives(c) {
		if k, err := f.decode(b); err == nil {
			_, _ = runCase(f, k, newRec())
		}
	}
}
