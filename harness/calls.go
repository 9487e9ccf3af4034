package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	m "github.com/octarinesec/MAPL/MAPL_engine"
	"go.mongodb.org/mongo-driver/bson"
	"gopkg.in/yaml.v2"
)

type M = map[string]interface{}

func (e *env) do(ev M) M {
	switch text(ev["op"]) {
	case "load":
		rs, err := loadRules([]interface{}{ev["rule"]}, text(ev["fmt"]), ev["p"], text(ev["style"]))
		if err == nil && len(rs) == 1 {
			e.rules[text(ev["h"])] = &rs[0]
		}
		return M{"ok": err == nil && len(rs) == 1}
	case "loads":
		names := arr(ev["to"])
		rs, err := loadRules(arr(ev["rules"]), text(ev["fmt"]), ev["p"], text(ev["style"]))
		if err == nil && len(rs) == len(names) {
			for i := range rs {
				e.rules[text(names[i])] = &rs[i]
			}
		}
		return M{"ok": err == nil && len(rs) == len(names)}
	case "setp":
		p, err := readSet(ev["p"])
		if err != nil {
			return M{"ok": false}
		}
		return M{"ok": e.rules[text(ev["h"])].SetPredefinedStringsAndLists(p) == nil}
	case "prep":
		return M{"ok": e.prepare(text(ev["h"]), ev["p"], text(ev["via"]))}
	case "setg":
		p, err := unreadSet(ev["p"])
		if err == nil {
			err = m.SetGlobalPredefinedStringsAndLists(p)
		}
		return M{"ok": err == nil}
	case "msg":
		e.msgs[text(ev["m"])] = message(ev)
		return M{}
	case "check":
		rules, back := e.list(ev["hs"])
		defer back()
		return checkObs(m.Check(e.msgs[text(ev["m"])], rules))
	case "one", "onef":
		r, msg := e.rules[text(ev["h"])], e.msgs[text(ev["m"])]
		var d int
		var x []map[string]interface{}
		if text(ev["via"]) == "method" {
			d, x = r.Check(msg)
		} else {
			d, x = m.CheckOneRule(msg, r)
		}
		return M{"dec": d, "ex": sets(x)}
	case "test", "testf":
		r, msg := e.rules[text(ev["h"])], e.msgs[text(ev["m"])]
		var f bool
		var x []map[string]interface{}
		if text(ev["via"]) == "method" {
			f, x = r.TestConditions(msg)
		} else {
			f, x = m.TestConditions(r, msg)
		}
		return M{"f": f, "ex": sets(x)}
	case "val":
		return M{"ok": m.ValidateRule(e.rules[text(ev["h"])]) == nil}
	case "low":
		e.rules[text(ev["h"])].ToLower()
		return M{}
	case "copy":
		c := *e.rules[text(ev["h"])]
		e.rules[text(ev["to"])] = &c
		return M{}
	case "rt":
		return e.roundTrip(e.rules[text(ev["h"])], text(ev["to"]), text(ev["fmt"]))
	case "hash":
		a, b := *e.rules[text(ev["h"])], *e.rules[text(ev["to"])]
		o := M{"eq": m.RuleMD5Hash(a) == m.RuleMD5Hash(b), "ceq": m.RuleMD5HashConditions(a) == m.RuleMD5HashConditions(b),
			"deq": a.ConditionsEqual(b)}
		if (a.String() == b.String()) != o["eq"].(bool) {
			o["panic"] = "text form and fingerprint disagree"
		}
		return o
	case "nofile":
		return M{"ok": noFile(text(ev["what"]), text(ev["name"])) == nil}
	case "show":
		s := m.GetRuleStrings(e.rules[text(ev["h"])])
		return M{"snd": s.SenderString, "rcv": s.ReceiverString, "proto": s.ProtocolString, "res": s.ResourceString, "oper": s.OperationString,
			"dec": s.DecisionString, "cond": s.ConditionsString}
	case "snap":
		return M{"text": ruleText(e.rules[text(ev["h"])])}
	case "msnap":
		return M{"text": messageText(e.msgs[text(ev["m"])])}
	case "cov":
		return e.coverage(ev)
	case "conc":
		return e.concurrent(ev)
	case "mongo":
		q, err := e.rules[text(ev["h"])].ToMongoQuery(text(ev["base"]))
		if err != nil {
			return M{"ok": false, "type": "", "q": tag(nil)}
		}
		return M{"ok": true, "type": string(q.Type), "q": tag(q.Query)}
	case "msgload":
		return loadMessages(ev)
	case "crash":
		crash(ev)
		return M{}
	}
	panic("unknown operation " + text(ev["op"]))
}

// noFile reads a file that does not exist, or a directory when the name is empty
func noFile(what, name string) error {
	name = filepath.Join(scratch, name)
	var err error
	switch what {
	case "rules":
		_, err = m.YamlReadRulesFromFile(name)
	case "rules+lists":
		_, err = m.YamlReadRulesFromFileWithPredefinedStrings(name, m.PredefinedStringsAndLists{})
	case "lists":
		_, err = m.YamlReadStringListsFromFile(name)
	case "messages":
		_, err = m.YamlReadMessagesFromFile(name)
	}
	return err
}

// ------------------------------------------------------------------ rules

type field struct{ name, key string }

// ruleValue gives the tagged value of a whole rule as a user would write it.
func ruleValue(r M) M {
	part := func(fs ...field) (out []interface{}) {
		for _, f := range fs {
			if v := text(r[f.key]); v != "" {
				out = append(out, M{"k": f.name, "v": M{"t": "s", "v": v}})
			}
		}
		return out
	}
	all := part(field{"ruleID", "id"})
	sub := func(name string, fs ...field) {
		if p := part(fs...); len(p) > 0 {
			all = append(all, M{"k": name, "v": M{"t": "o", "v": p}})
		}
	}
	sub("sender", field{"senderName", "sn"}, field{"senderType", "st"})
	sub("receiver", field{"receiverName", "rn"}, field{"receiverType", "rt"})
	all = append(all, part(field{"protocol", "proto"})...)
	sub("resource", field{"resourceType", "rest"}, field{"resourceName", "resn"})
	all = append(all, part(field{"operation", "oper"})...)
	if !absent(r["cond"]) {
		all = append(all, M{"k": "conditions", "v": r["cond"]})
	}
	all = append(all, part(field{"decision", "dec"})...)
	if meta := arr(r["meta"]); len(meta) > 0 {
		ps := []interface{}{}
		for _, p := range meta {
			ps = append(ps, M{"k": obj(p)["k"], "v": M{"t": "s", "v": obj(p)["v"]}})
		}
		all = append(all, M{"k": "metadata", "v": M{"t": "o", "v": ps}})
	}
	return M{"t": "o", "v": all}
}

func rulesText(rs []interface{}, style string) string {
	list := []interface{}{}
	for _, r := range rs {
		list = append(list, ruleValue(obj(r)))
	}
	doc := M{"t": "o", "v": []interface{}{M{"k": "rules", "v": M{"t": "a", "v": list}}}}
	if style == "flow" { // JSON text read as YAML
		return jsonText(doc)
	}
	b, err := yaml.Marshal(plain(doc))
	if err != nil {
		panic(err)
	}
	return string(b)
}

func scratchFile(content string) string {
	f, err := ioutil.TempFile(scratch, "text")
	if err != nil {
		panic("cannot create scratch file: " + err.Error())
	}
	f.WriteString(content)
	f.Close()
	return f.Name()
}

func loadRules(rs []interface{}, format string, set interface{}, style string) ([]m.Rule, error) {
	switch format {
	case "yaml":
		out, err := m.YamlReadRulesFromString(rulesText(rs, style))
		return out.Rules, err
	case "file":
		name := scratchFile(rulesText(rs, style))
		defer os.Remove(name)
		out, err := m.YamlReadRulesFromFile(name)
		return out.Rules, err
	case "yamlp", "filep":
		p, err := readSet(set)
		if err != nil {
			return nil, err
		}
		if format == "yamlp" {
			out, err := m.YamlReadRulesFromStringWithPredefinedStrings(rulesText(rs, style), p)
			return out.Rules, err
		}
		name := scratchFile(rulesText(rs, style))
		defer os.Remove(name)
		out, err := m.YamlReadRulesFromFileWithPredefinedStrings(name, p)
		return out.Rules, err
	case "json":
		var out m.Rules
		err := json.Unmarshal([]byte(rulesText(rs, "flow")), &out)
		if err != nil {
			return nil, err
		}
		return out.Rules, nil
	case "bson":
		out := []m.Rule{}
		for _, r := range rs {
			b, err := bson.Marshal(plainD(ruleValue(obj(r))))
			if err != nil {
				panic(err)
			}
			var rule m.Rule
			if err := bson.Unmarshal(b, &rule); err != nil {
				return nil, err
			}
			out = append(out, rule)
		}
		return out, nil
	}
	panic("unknown format " + format)
}

func setText(p interface{}) string {
	s, l := M{}, M{}
	for _, x := range arr(obj(p)["s"]) {
		s[text(obj(x)["k"])] = obj(x)["v"]
	}
	for _, x := range arr(obj(p)["l"]) {
		l[text(obj(x)["k"])] = obj(x)["v"]
	}
	b, err := yaml.Marshal(M{"predefinedStrings": s, "predefinedLists": l})
	if err != nil {
		panic(err)
	}
	return string(b)
}

// readSet reads a predefined set from text or from a file.
func readSet(p interface{}) (m.PredefinedStringsAndLists, error) {
	t := setText(p)
	if len(t)%2 == 0 {
		return m.YamlReadStringListsFromString(t)
	}
	name := scratchFile(t)
	defer os.Remove(name)
	return m.YamlReadStringListsFromFile(name)
}

// unreadSet only decodes the text (references inside lists are not resolved yet).
func unreadSet(p interface{}) (m.PredefinedStringsAndLists, error) {
	var out m.PredefinedStringsAndLists
	err := yaml.Unmarshal([]byte(setText(p)), &out)
	return out, err
}

// list gives the rules of a call; back stores what the call left in them.
func (e *env) list(hs interface{}) (*m.Rules, func()) {
	rules := &m.Rules{}
	for _, h := range arr(hs) {
		rules.Rules = append(rules.Rules, *e.rules[text(h)])
	}
	return rules, func() {
		for i, h := range arr(hs) {
			*e.rules[text(h)] = rules.Rules[i]
		}
	}
}

func checkObs(dec int, name string, rel int, res []int, app []int, desc string, ex [][]map[string]interface{}) M {
	x := []interface{}{}
	for _, s := range ex {
		x = append(x, sets(s))
	}
	return M{"dec": dec, "name": name, "rel": rel, "res": append([]int{}, res...), "app": append([]int{}, app...), "desc": desc, "ex": x}
}

// prepare prepares a rule in place; one that cannot be prepared is read again.
func (e *env) prepare(h string, set interface{}, via string) bool {
	before, err := json.Marshal(e.rules[h])
	if err != nil {
		return false
	}
	p, err := readSet(set)
	if err == nil && via == "list" {
		rules := m.Rules{Rules: []m.Rule{*e.rules[h]}}
		err = m.PrepareRulesWithPredefinedStrings(&rules, p)
		*e.rules[h] = rules.Rules[0]
	} else if err == nil {
		err = m.PrepareOneRuleWithPredefinedStrings(e.rules[h], p)
	}
	if err != nil {
		again := m.Rule{}
		if json.Unmarshal(before, &again) == nil {
			e.rules[h] = &again
		}
	}
	return err == nil
}

func ruleText(r *m.Rule) string {
	b, err := json.Marshal(r)
	if err != nil {
		return "not serialisable: " + err.Error()
	}
	return string(b) + " " + r.String() + " " + m.RuleMD5Hash(*r) + " " + m.RuleMD5HashConditions(*r)
}

func (e *env) roundTrip(r *m.Rule, to, format string) M {
	var out m.Rule
	var err error
	var b []byte
	switch format {
	case "json":
		if b, err = json.Marshal(r); err == nil {
			err = json.Unmarshal(b, &out)
		}
	case "jsonlist":
		list := m.Rules{}
		if b, err = json.Marshal(m.Rules{Rules: []m.Rule{*r}}); err == nil {
			if err = json.Unmarshal(b, &list); err == nil {
				out = list.Rules[0]
			}
		}
	case "bson":
		if b, err = bson.Marshal(r); err == nil {
			err = bson.Unmarshal(b, &out)
		}
	default:
		panic("unknown format " + format)
	}
	if err != nil {
		return M{"ok": false, "text": true, "meta": []interface{}{}, "id": ""}
	}
	same := r.String() == out.String() && m.RuleMD5Hash(*r) == m.RuleMD5Hash(out) &&
		m.RuleMD5HashConditions(*r) == m.RuleMD5HashConditions(out) && r.ConditionsEqual(out)
	e.rules[to] = &out
	return M{"ok": true, "text": same, "meta": pairs(out.Metadata), "id": out.RuleID}
}

// --------------------------------------------------------------- messages

func message(ev M) *m.MessageAttributes {
	a := obj(ev["a"])
	t := func(k string) string { return text(a[k]) }
	msg := &m.MessageAttributes{
		MessageID: t("id"), SourceIp: t("sip"), DestinationIp: t("dip"), SourceService: t("ssvc"), DestinationService: t("dsvc"),
		RequestHost: t("host"), ContextProtocol: t("proto"), ContextType: t("ptype"), RequestPath: t("path"),
		DestinationPort: t("port"), RequestMethod: t("method"), RequestUseragent: t("ua"), EncryptionType: t("enct"),
		Domain: t("dom"), SourceNamespace: t("sns"), DestinationNamespace: t("dns"), SourceCluster: t("scl"),
		DestinationCluster: t("dcl"), SourceLabels: textMap(a["sl"]), DestinationLabels: textMap(a["dl"]),
	}
	msg.RequestSize, _ = strconv.ParseInt(t("size"), 10, 64)
	msg.RequestTimeHoursFromMidnightUTC, _ = strconv.ParseFloat(t("hours"), 64)
	if t("encv") != "" {
		v, _ := strconv.ParseFloat(t("encv"), 64)
		msg.EncryptionVersion = &v
	}
	m.AddNetIpToMessage(msg)
	if !absent(a["doc"]) {
		attach(msg, jsonText(a["doc"]), text(ev["mode"]))
	}
	return msg
}

func attach(msg *m.MessageAttributes, doc string, mode string) {
	switch mode {
	case "raw":
		b := []byte(doc)
		msg.RequestJsonRaw = &b
	case "pretty":
		var v interface{}
		dec := json.NewDecoder(strings.NewReader(doc))
		dec.UseNumber()
		if err := dec.Decode(&v); err != nil {
			panic(err)
		}
		b, _ := json.MarshalIndent(v, "", "  ")
		b = append([]byte("\n "), append(b, '\n')...)
		msg.RequestJsonRaw = &b
	case "parsed":
		var v interface{}
		if err := json.Unmarshal([]byte(doc), &v); err != nil {
			panic(err)
		}
		msg.RequestRawInterface = &v
	}
}

func messageText(msg *m.MessageAttributes) string {
	t, err := msg.ToJson()
	if err != nil {
		return "not serialisable: " + err.Error()
	}
	if msg.RequestRawInterface != nil {
		t += compact(*msg.RequestRawInterface)
	}
	if msg.RequestJsonRaw != nil {
		t += string(*msg.RequestJsonRaw)
	}
	return t
}

func (e *env) coverage(ev M) M {
	rules, back := e.list(ev["hs"])
	defer back()
	msgs := &m.Messages{}
	for _, name := range arr(ev["ms"]) {
		msgs.Messages = append(msgs.Messages, *e.msgs[text(name)])
	}
	mc, rc := m.Coverage(msgs, rules)
	outM, outR := []string{}, []string{}
	num := func(x []int) string {
		s := []string{}
		for _, d := range x {
			s = append(s, strconv.Itoa(d))
		}
		return strings.Join(s, "+")
	}
	for id, c := range mc {
		cov := "-"
		if c.Covered {
			cov = "covered"
		}
		outM = append(outM, strings.Join([]string{id, cov, strconv.Itoa(c.Decision), strings.Join(c.IdsOfCoveringRules, "+"), num(c.DecisionsOfCoveringRules)}, "|"))
	}
	for id, c := range rc {
		outR = append(outR, id+"|"+strings.Join(c, "+"))
	}
	sort.Strings(outM)
	sort.Strings(outR)
	return M{"msg": outM, "rule": outR}
}

// concurrent checks the messages from several goroutines on the same rules. Every goroutine has its
// own copy of a message; documents are shared only when they are read only by contract.
func (e *env) concurrent(ev M) M {
	rules, back := e.list(ev["hs"])
	defer back()
	ms := arr(ev["ms"])
	n, _ := strconv.Atoi(text(ev["n"]))
	reps, _ := strconv.Atoi(text(ev["reps"]))
	type res struct {
		j int
		o string
	}
	found := map[res]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	start := make(chan bool)
	crashed := ""
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					crashed = fmt.Sprintf("%v", r)
					mu.Unlock()
				}
			}()
			j := g % len(ms)
			msg := *e.msgs[text(ms[j])]
			<-start
			for k := 0; k < reps; k++ {
				o := compact(checkObs(m.Check(&msg, rules)))
				mu.Lock()
				found[res{j + 1, o}] = true
				mu.Unlock()
			}
		}(g)
	}
	before := races()
	close(start)
	wg.Wait()
	out := []interface{}{}
	for f := range found {
		var o M
		json.Unmarshal([]byte(f.o), &o)
		out = append(out, M{"j": f.j, "o": o})
	}
	sort.Slice(out, func(i, k int) bool { return compact(out[i]) < compact(out[k]) })
	return M{"r": out, "race": races() > before, "panic": crashed}
}

var textFields = map[string]string{"sip": "sender_ip", "dip": "receiver_ip", "sns": "sender_namespace", "scl": "sender_cluster",
	"dns": "receiver_namespace", "dcl": "receiver_cluster", "port": "receiver_port", "path": "request_path", "host": "request_host",
	"method": "request_method", "time": "request_time", "ua": "request_user_agent", "proto": "request_protocol", "id": "message_id",
	"ssvc": "sender_service", "dsvc": "receiver_service", "sl": "sender_labels", "dl": "receiver_labels", "enct": "encryption_type", "dom": "domain"}

func loadMessages(ev M) M {
	list := []interface{}{}
	for _, x := range arr(ev["a"]) {
		a := obj(x)
		y := M{}
		for k, name := range textFields {
			if text(a[k]) != "" {
				y[name] = text(a[k])
			}
		}
		if text(a["size"]) != "" {
			y["request_size"], _ = strconv.ParseInt(text(a["size"]), 10, 64)
		}
		if text(a["encv"]) != "" {
			y["encryption_version"], _ = strconv.ParseFloat(text(a["encv"]), 64)
		}
		list = append(list, y)
	}
	b, err := yaml.Marshal(M{"messages": list})
	if err != nil {
		panic(err)
	}
	var msgs m.Messages
	if text(ev["via"]) == "file" {
		name := scratchFile(string(b))
		defer os.Remove(name)
		msgs, err = m.YamlReadMessagesFromFile(name)
	} else {
		msgs, err = m.YamlReadMessagesFromString(string(b))
	}
	if err != nil {
		return M{"ok": false, "a": []interface{}{}}
	}
	out := []interface{}{}
	for i, x := range msgs.Messages {
		if i >= len(list) {
			break
		}
		a := obj(arr(ev["a"])[i])
		out = append(out, M{"ptype": x.ContextType, "secs": nanos(x.RequestTimeSecondsFromMidnightUTC),
			"mins": nanos(x.RequestTimeMinutesFromMidnightUTC * 60), "hours": nanos(x.RequestTimeHoursFromMidnightUTC * 3600),
			"sip": groups(x.SourceNetIp), "dip": groups(x.DestinationNetIp), "sl": pairs(x.SourceLabels), "dl": pairs(x.DestinationLabels),
			"kept": kept(a, x)})
	}
	if len(msgs.Messages) != len(list) {
		out = []interface{}{}
	}
	return M{"ok": true, "a": out}
}

// nanos writes seconds with nine decimals; a double keeps the nanoseconds of a day
func nanos(x float64) string {
	n := int64(math.Round(x * 1e9))
	return fmt.Sprintf("%d.%09d", n/1e9, n%1e9)
}

func groups(ip net.IP) []int {
	out := []int{}
	if v4 := ip.To4(); v4 != nil {
		for _, b := range v4 {
			out = append(out, int(b))
		}
		return out
	}
	for i := 0; i+1 < len(ip); i += 2 {
		out = append(out, int(ip[i])<<8+int(ip[i+1]))
	}
	return out
}

func kept(a M, x m.MessageAttributes) bool {
	have := map[string]string{"sip": x.SourceIp, "dip": x.DestinationIp, "sns": x.SourceNamespace, "scl": x.SourceCluster,
		"dns": x.DestinationNamespace, "dcl": x.DestinationCluster, "port": x.DestinationPort, "path": x.RequestPath, "host": x.RequestHost,
		"method": x.RequestMethod, "time": x.RequestTime, "ua": x.RequestUseragent, "proto": x.ContextProtocol, "id": x.MessageID,
		"ssvc": x.SourceService, "dsvc": x.DestinationService, "sl": x.SourceLabelsJson, "dl": x.DestinationLabelsJson,
		"enct": x.EncryptionType, "dom": x.Domain}
	for k, v := range have {
		if v != text(a[k]) {
			return false
		}
	}
	size, _ := strconv.ParseInt(text(a["size"]), 10, 64)
	if x.RequestSize != size {
		return false
	}
	if text(a["encv"]) == "" {
		return x.EncryptionVersion == nil
	}
	v, _ := strconv.ParseFloat(text(a["encv"]), 64)
	return x.EncryptionVersion != nil && *x.EncryptionVersion == v
}

// ------------------------------------------------------------ never crash

// crash feeds arbitrary text to the loaders and exercises whatever loads.
func crash(ev M) {
	body := text(ev["text"])
	switch text(ev["kind"]) {
	case "messages":
		m.YamlReadMessagesFromString(body)
		m.YamlReadMessageAttributes(body)
	case "lists":
		m.YamlReadStringListsFromString(body)
	case "rules":
		docs := []string{}
		for _, d := range arr(ev["docs"]) {
			docs = append(docs, text(d))
		}
		if rs, err := m.YamlReadRulesFromString(body); err == nil {
			exercise(rs.Rules, docs)
		}
		name := filepath.Join(scratch, "crash.yaml")
		ioutil.WriteFile(name, []byte(body), 0600)
		m.YamlReadRulesFromFile(name)
		os.Remove(name)
		var rs m.Rules
		if err := json.Unmarshal([]byte(body), &rs); err == nil {
			exercise(rs.Rules, docs)
		}
	}
}

func exercise(rs []m.Rule, docs []string) {
	set, _ := m.YamlReadStringListsFromString("predefinedStrings:\n  s: abc\npredefinedLists:\n  l: [a, '#s']\n")
	msgs := []*m.MessageAttributes{{}}
	for _, d := range docs {
		b := []byte(d)
		msgs = append(msgs, &m.MessageAttributes{RequestJsonRaw: &b})
		var v interface{}
		if json.Unmarshal(b, &v) == nil {
			msgs = append(msgs, &m.MessageAttributes{RequestRawInterface: &v})
			b2 := []byte(d)
			msgs = append(msgs, &m.MessageAttributes{RequestRawInterface: &v, RequestJsonRaw: &b2})
		}
	}
	for i := range rs {
		r := &rs[i]
		m.ValidateRule(r)
		_ = r.String()
		m.RuleMD5Hash(*r)
		m.RuleMD5HashConditions(*r)
		r.ConditionsEqual(*r)
		for _, msg := range msgs {
			m.Check(msg, &m.Rules{Rules: []m.Rule{*r}})
		}
		if b, err := json.Marshal(r); err == nil {
			var r2 m.Rule
			json.Unmarshal(b, &r2)
		}
		if b, err := bson.Marshal(r); err == nil {
			var r2 m.Rule
			bson.Unmarshal(b, &r2)
		}
		for k := 0; k < 2; k++ {
			for _, msg := range msgs {
				msg.SourceService, msg.DestinationService = "a", "b"
				r.Check(msg)
				r.TestConditions(msg)
			}
			r.ToMongoQuery("")
			r.ToMongoQuery("raw")
			r.SetPredefinedStringsAndLists(set)
			_ = r.GetPreparedRule().String()
		}
		r.ToLower()
	}
	all := &m.Rules{Rules: rs}
	list := &m.Messages{}
	for _, msg := range msgs {
		list.Messages = append(list.Messages, *msg)
	}
	m.Coverage(list, all)
}
