package kit

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"strings"

	"github.com/prospik/libsignal-protocol-go/logger"
)

// Ear hears what the library says: texts of errors, and what it logs as
// information, warning or error.
type Ear struct {
	texts   []string
	secrets map[string]string
}

func (e *Ear) Debug(caller, message string)   {}
func (e *Ear) Info(caller, message string)    { e.texts = append(e.texts, message) }
func (e *Ear) Warning(caller, message string) { e.texts = append(e.texts, message) }
func (e *Ear) Error(caller, message string)   { e.texts = append(e.texts, message) }
func (e *Ear) Configure(settings string)      {}

// Write takes what the default logger prints.
func (e *Ear) Write(b []byte) (int, error) {
	e.texts = append(e.texts, string(b))
	return len(b), nil
}

var onErr func(error)

func hear(err *error) {
	if onErr != nil && *err != nil {
		onErr(*err)
	}
}

// Listen hears everything until Close, through the library's own logger or
// through one of the caller.
func Listen(own bool) *Ear {
	e := &Ear{secrets: map[string]string{}}
	onErr = e.Err
	if own {
		SetLogger(true)
		log.SetOutput(e)
	} else {
		var l logger.Loggable = e
		logger.Setup(&l)
	}
	return e
}

// Err hears an error.
func (e *Ear) Err(err error) {
	if err != nil {
		e.texts = append(e.texts, fmt.Sprintf("%v %+v", err, err))
	}
}

// Texts is the number of texts heard.
func (e *Ear) Texts() int { return len(e.texts) }

// Close stops listening.
func (e *Ear) Close() {
	onErr = nil
	log.SetOutput(io.Discard)
	SetLogger(false)
}

// Secret adds something that must not be told.
func (e *Ear) Secret(what string, b []byte) {
	if len(b) >= 12 {
		e.secrets[string(b)] = what
	}
}

// Store adds all secret keys in the records of a store.
func (e *Ear) Store(s *Store) {
	p := s.own.PrivateKey().Serialize()
	e.Secret("the identity key", p[:])
	for name, b := range s.Snapshot() {
		if b[0] == '{' {
			e.Record(name, b)
		}
	}
}

// Record adds all secret keys in a record.
func (e *Ear) Record(name string, b []byte) {
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		panic(err)
	}
	var walk func(field string, v interface{})
	walk = func(field string, v interface{}) {
		switch x := v.(type) {
		case map[string]interface{}:
			for k, y := range x {
				walk(k, y)
			}
		case []interface{}:
			for _, y := range x {
				walk(field, y)
			}
		case string:
			secret := strings.Contains(field, "Private")
			switch field {
			case "RootKey", "Key", "ChainKey", "CipherKey", "MacKey", "Seed":
				secret = true
			}
			if d, err := base64.StdEncoding.DecodeString(x); err == nil && secret {
				e.Secret(field+" of "+name, d)
			}
		}
	}
	walk("", v)
}

// distinct says whether bytes are varied enough not to occur by chance.
func distinct(b []byte) bool {
	seen := map[byte]bool{}
	for _, x := range b {
		seen[x] = true
	}
	return len(seen) >= 6
}

// Told names a secret that was told and the text that has it.
func (e *Ear) Told() (what, text string) {
	all := strings.Join(e.texts, "\n")
	upper := strings.ToUpper(all)
	for s, name := range e.secrets {
		for at := 0; at+8 <= len(s) && at < 64; at += 8 {
			w := []byte(s[at : at+8])
			if !distinct(w) {
				continue
			}
			found := strings.Contains(all, string(w)) || strings.Contains(upper, strings.ToUpper(hex.EncodeToString(w)))
			dec := strings.Trim(fmt.Sprint(w), "[]")
			sharp := strings.TrimSuffix(strings.TrimPrefix(fmt.Sprintf("%#v", w), "[]byte{"), "}")
			found = found || strings.Contains(all, dec) || strings.Contains(all, sharp)
			if at%3 == 0 {
				found = found || strings.Contains(all, base64.StdEncoding.EncodeToString(w[:6])) || strings.Contains(all, base64.URLEncoding.EncodeToString(w[:6]))
			}
			if found {
				for _, t := range e.texts {
					one := &Ear{texts: []string{t}, secrets: map[string]string{s: name}}
					if len(e.texts) == 1 {
						return name, t
					}
					if n, _ := one.Told(); n != "" {
						return name, t
					}
				}
				return name, all
			}
		}
	}
	return "", ""
}

// ClearText makes a plaintext that is recognised wherever it is told.
func ClearText(src *Source, n int) []byte {
	b := make([]byte, 12)
	src.Read(b)
	return bytes.Repeat([]byte("text "+hex.EncodeToString(b)), n)
}
