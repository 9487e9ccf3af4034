package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"go.mongodb.org/mongo-driver/bson"
	"gopkg.in/yaml.v2"
)

// Tagged values: {"t":"s|n|b|a|o|z","v":...}; see spec/Doc.tla.

func obj(x interface{}) map[string]interface{} { o, _ := x.(map[string]interface{}); return o }
func arr(x interface{}) []interface{}          { a, _ := x.([]interface{}); return a }
func text(x interface{}) string                { s, _ := x.(string); return s }

func absent(x interface{}) bool { return x == nil || text(obj(x)["t"]) == "z" }

// jsonText renders a tagged value as compact JSON.
func jsonText(x interface{}) string {
	o := obj(x)
	switch text(o["t"]) {
	case "s":
		var b bytes.Buffer
		enc := json.NewEncoder(&b)
		enc.SetEscapeHTML(false)
		enc.Encode(text(o["v"]))
		return strings.TrimSpace(b.String())
	case "n", "b":
		return text(o["v"])
	case "a":
		parts := []string{}
		for _, y := range arr(o["v"]) {
			parts = append(parts, jsonText(y))
		}
		return "[" + strings.Join(parts, ",") + "]"
	case "o":
		parts := []string{}
		for _, p := range arr(o["v"]) {
			k, _ := json.Marshal(text(obj(p)["k"]))
			parts = append(parts, string(k)+":"+jsonText(obj(p)["v"]))
		}
		return "{" + strings.Join(parts, ",") + "}"
	}
	return "null"
}

// plain renders a tagged value as a Go value that keeps the order of keys (for YAML).
func plain(x interface{}) interface{} {
	o := obj(x)
	switch text(o["t"]) {
	case "s":
		return text(o["v"])
	case "n":
		if i, err := strconv.ParseInt(text(o["v"]), 10, 64); err == nil {
			return i
		}
		f, _ := strconv.ParseFloat(text(o["v"]), 64)
		return f
	case "b":
		return text(o["v"]) == "true"
	case "a":
		out := []interface{}{}
		for _, y := range arr(o["v"]) {
			out = append(out, plain(y))
		}
		return out
	case "o":
		out := yaml.MapSlice{}
		for _, p := range arr(o["v"]) {
			out = append(out, yaml.MapItem{Key: text(obj(p)["k"]), Value: plain(obj(p)["v"])})
		}
		return out
	}
	return nil
}

// plainD is plain for BSON.
func plainD(x interface{}) interface{} {
	o := obj(x)
	switch text(o["t"]) {
	case "a":
		out := bson.A{}
		for _, y := range arr(o["v"]) {
			out = append(out, plainD(y))
		}
		return out
	case "o":
		out := bson.D{}
		for _, p := range arr(o["v"]) {
			out = append(out, bson.E{Key: text(obj(p)["k"]), Value: plainD(obj(p)["v"])})
		}
		return out
	}
	return plain(x)
}

// tag turns a Go value (query, returned value) into a tagged one.
func tag(x interface{}) map[string]interface{} {
	switch v := x.(type) {
	case nil:
		return map[string]interface{}{"t": "z", "v": ""}
	case string:
		return map[string]interface{}{"t": "s", "v": v}
	case bool:
		return map[string]interface{}{"t": "b", "v": fmt.Sprintf("%v", v)}
	case float64:
		return map[string]interface{}{"t": "n", "v": strconv.FormatFloat(v, 'f', -1, 64)}
	case int, int32, int64:
		return map[string]interface{}{"t": "n", "v": fmt.Sprintf("%d", v)}
	case []bson.M:
		out := []interface{}{}
		for _, y := range v {
			out = append(out, tag(y))
		}
		return map[string]interface{}{"t": "a", "v": out}
	case []interface{}:
		out := []interface{}{}
		for _, y := range v {
			out = append(out, tag(y))
		}
		return map[string]interface{}{"t": "a", "v": out}
	case bson.M:
		return tagMap(v)
	case map[string]interface{}:
		return tagMap(v)
	}
	panic(fmt.Sprintf("value of unexpected type %T", x))
}

func tagMap(v map[string]interface{}) map[string]interface{} {
	keys := []string{}
	for k := range v {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := []interface{}{}
	for _, k := range keys {
		out = append(out, map[string]interface{}{"k": k, "v": tag(v[k])})
	}
	return map[string]interface{}{"t": "o", "v": out}
}

// compact is JSON with sorted keys and without HTML escapes.
func compact(x interface{}) string {
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(x); err != nil {
		return "not serialisable: " + err.Error()
	}
	return strings.TrimSpace(b.String())
}

// sets renders returned values, one text per set; values that are not there are left out.
func sets(x []map[string]interface{}) []string {
	out := []string{}
	for _, set := range x {
		keys := []string{}
		for k, v := range set {
			if v != nil {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		parts := []string{}
		for _, k := range keys {
			parts = append(parts, k+":"+compact(set[k]))
		}
		out = append(out, "{"+strings.Join(parts, ",")+"}")
	}
	return out
}

func pairs(x map[string]string) []interface{} {
	keys := []string{}
	for k := range x {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := []interface{}{}
	for _, k := range keys {
		out = append(out, map[string]interface{}{"k": k, "v": x[k]})
	}
	return out
}

func textMap(x interface{}) map[string]string {
	out := map[string]string{}
	for _, p := range arr(x) {
		out[text(obj(p)["k"])] = text(obj(p)["v"])
	}
	return out
}
