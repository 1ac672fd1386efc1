package h

import (
	"encoding/base64"
	"encoding/json"
	"strings"
	"unicode/utf8"
)

// Names and link targets may be any bytes; JSON strings may not.

const escMark = "\x00b64:"

func esc(s string) string {
	if utf8.ValidString(s) && !strings.HasPrefix(s, escMark) {
		return s
	}
	return escMark + base64.StdEncoding.EncodeToString([]byte(s))
}

func unesc(s string) string {
	if !strings.HasPrefix(s, escMark) {
		return s
	}
	b, _ := base64.StdEncoding.DecodeString(s[len(escMark):])
	return string(b)
}

type nodeAlias Node

func (n Node) MarshalJSON() ([]byte, error) {
	a := nodeAlias(n)
	a.P, a.L = esc(a.P), esc(a.L)
	return json.Marshal(a)
}

func (n *Node) UnmarshalJSON(b []byte) error {
	var a nodeAlias
	if err := json.Unmarshal(b, &a); err != nil {
		return err
	}
	a.P, a.L = unesc(a.P), unesc(a.L)
	*n = Node(a)
	return nil
}

type opAlias Op

func (o Op) MarshalJSON() ([]byte, error) {
	a := opAlias(o)
	a.P, a.S = esc(a.P), esc(a.S)
	return json.Marshal(a)
}

func (o *Op) UnmarshalJSON(b []byte) error {
	var a opAlias
	if err := json.Unmarshal(b, &a); err != nil {
		return err
	}
	a.P, a.S = unesc(a.P), unesc(a.S)
	*o = Op(a)
	return nil
}
