// Driver: runs recorded or generated histories of API calls on the real engine and records
// what each call returned. One history per input line, one per output line.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"runtime/debug"
	"time"

	m "github.com/octarinesec/MAPL/MAPL_engine"
)

type event map[string]interface{}

type history struct {
	ID string                   `json:"id"`
	Ev []map[string]interface{} `json:"ev"`
}

// env is the state of one history: rules and messages by name.
type env struct {
	rules map[string]*m.Rule
	msgs  map[string]*m.MessageAttributes
	dead  map[string]bool // handles whose loading failed
}

var scratch string

func main() {
	in := flag.String("in", "", "histories")
	out := flag.String("out", "", "log")
	flag.StringVar(&scratch, "scratch", "", "directory for files the loaders read")
	flag.Parse()
	log.SetOutput(ioutil.Discard)
	debug.SetMaxStack(64 << 20)

	f, err := os.Open(*in)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	w, err := os.Create(*out)
	if err != nil {
		fatal(err)
	}
	defer w.Close()

	rd := bufio.NewReaderSize(f, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			var h history
			if err := json.Unmarshal(line, &h); err != nil {
				fatal(err)
			}
			run(&h)
			b, err := json.Marshal(h)
			if err != nil {
				fatal(err)
			}
			if _, err := w.Write(append(b, '\n')); err != nil {
				fatal(err)
			}
		}
		if err != nil {
			return
		}
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "driver:", err)
	os.Exit(3)
}

// run executes a history; calls on a rule that did not load are left out of the log.
func run(h *history) {
	e := &env{rules: map[string]*m.Rule{}, msgs: map[string]*m.MessageAttributes{}, dead: map[string]bool{}}
	m.SetGlobalPredefinedStringsAndLists(m.PredefinedStringsAndLists{})
	kept := []map[string]interface{}{}
	for _, ev := range h.Ev {
		if e.skip(ev) {
			continue
		}
		obs := guarded(func() map[string]interface{} { return e.do(ev) })
		ev["obs"] = obs
		kept = append(kept, ev)
		if obs["panic"] != "" {
			break // the state after a crash is unknown
		}
	}
	h.Ev = kept
}

func (e *env) skip(ev map[string]interface{}) bool {
	op := ev["op"]
	if op == "load" || op == "loads" || op == "msg" {
		return false
	}
	if h, ok := ev["h"].(string); ok && e.rules[h] == nil {
		return true
	}
	if h, ok := ev["to"].(string); ok && op == "hash" && e.rules[h] == nil {
		return true
	}
	if hs, ok := ev["hs"].([]interface{}); ok {
		for _, h := range hs {
			if e.rules[h.(string)] == nil {
				return true
			}
		}
	}
	return false
}

// guarded runs one call, turning a panic or a hang into an observation.
func guarded(f func() map[string]interface{}) map[string]interface{} {
	ch := make(chan map[string]interface{}, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- map[string]interface{}{"panic": fmt.Sprintf("%v", r)}
			}
		}()
		o := f()
		if _, ok := o["panic"]; !ok {
			o["panic"] = ""
		}
		ch <- o
	}()
	select {
	case o := <-ch:
		return o
	case <-time.After(60 * time.Second):
		return map[string]interface{}{"panic": "no answer within 60 s"}
	}
}
