package main

import (
	"encoding/base64"
	"encoding/json"
	"strconv"
)

// B is a byte string that survives JSON.
type B string

func (b B) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]string{"q": strconv.QuoteToASCII(clip(string(b), 400)), "b64": base64.StdEncoding.EncodeToString([]byte(b))})
}
func (b *B) UnmarshalJSON(p []byte) error {
	var m map[string]string
	if err := json.Unmarshal(p, &m); err != nil {
		return err
	}
	v, err := base64.StdEncoding.DecodeString(m["b64"])
	*b = B(v)
	return err
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(" + strconv.Itoa(len(s)) + " bytes)"
	}
	return s
}
