From 8964d02c57ca92e0c083c9a57ea502a7d1732271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:51 +0000
Subject: [PATCH 01/32] fix: rule whose preparation fails no longer crashes or
 keeps a stale rule

Checking a rule that could not be prepared dereferenced a nil prepared rule.
When an earlier preparation had succeeded, the stale one stayed in place.
A rule that cannot be prepared now does not apply, and translating it to a
query returns the preparation error.
---
 MAPL_engine/check.go             | 5 ++++-
 MAPL_engine/rule_mongo_plugin.go | 5 ++++-
 MAPL_engine/rules_load.go        | 1 +
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index e0f5817..e29fa4c 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -104,6 +104,9 @@ func CheckOneRule(message *MessageAttributes, ruleOriginal *Rule) (int, []map[st
 		ruleOriginal.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
 	}
 	rule := ruleOriginal.preparedRule // the prepared rule is the one used below!
+	if rule == nil {                  // the rule could not be prepared so it does not apply
+		return DEFAULT, []map[string]interface{}{}
+	}
 	// ----------------------
 	// compare basic message attributes:
 
@@ -251,7 +254,7 @@ func TestConditions(rule *Rule, message *MessageAttributes) (bool, []map[string]
 		rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists)
 	}
 
-	if rule.preparedRule.Conditions.ConditionsTree != nil {
+	if rule.preparedRule != nil && rule.preparedRule.Conditions.ConditionsTree != nil {
 		return rule.preparedRule.Conditions.ConditionsTree.Eval(message)
 	}
 	return false, []map[string]interface{}{}
diff --git a/MAPL_engine/rule_mongo_plugin.go b/MAPL_engine/rule_mongo_plugin.go
index a11265d..43abe2e 100644
--- a/MAPL_engine/rule_mongo_plugin.go
+++ b/MAPL_engine/rule_mongo_plugin.go
@@ -17,7 +17,10 @@ type MaplToMongoResult struct {
 func (rule *Rule) ToMongoQuery(parentField string) (MaplToMongoResult, error) {
 
 	if !rule.ruleAlreadyPrepared {
-		rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		err := rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		if err != nil {
+			return MaplToMongoResult{"", nil}, err
+		}
 	}
 
 	if rule.preparedRule.Conditions.ConditionsTree == nil {
diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index c92017f..b14166a 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -64,6 +64,7 @@ func YamlReadRulesFromFile(filename string) (Rules, error) {
 func (rule *Rule) SetPredefinedStringsAndLists(stringsAndlists PredefinedStringsAndLists) error {
 
 	rule.ruleAlreadyPrepared = false
+	rule.preparedRule = nil // a failed preparation must not leave a previously prepared rule in use
 
 	var ruleCopy Rule
 	err := deepcopy.Copy(&ruleCopy, rule)
-- 
2.43.0


From 46d4d0f5db747dcb606b596c1506525a43a2abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:28 +0000
Subject: [PATCH 02/32] fix: serialise ANY, ALL and condition nodes as valid
 JSON

Quotes in a parent path, and control characters in a condition value, produced
invalid JSON. Preparing such a rule failed because preparation copies the rule
through JSON.
---
 MAPL_engine/conditions_tree.go  | 12 ++++++++++--
 MAPL_engine/definitions_rule.go | 21 +++++++++++++++------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 9533e86..1b29e1f 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -268,7 +268,11 @@ func (a *Any) MarshalJSON() ([]byte, error) {
 		returnValueJsonpath = a.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"ANY":{"parentJsonpathAttribute":"%v",`, parentJsonpathAttributeString)
+	parentJsonpathAttributeJson, err := json.Marshal(parentJsonpathAttributeString)
+	if err != nil {
+		return []byte{}, err
+	}
+	str := fmt.Sprintf(`{"ANY":{"parentJsonpathAttribute":%v,`, string(parentJsonpathAttributeJson))
 	if len(returnValueJsonpath) > 0 {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
 		str = fmt.Sprintf(`%v"returnValueJsonpath": %v,`, str, string(returnValueJsonpathJson))
@@ -479,7 +483,11 @@ func (a *All) MarshalJSON() ([]byte, error) {
 		returnValueJsonpath = a.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"ALL":{"parentJsonpathAttribute":"%v",`, parentJsonpathAttributeString)
+	parentJsonpathAttributeJson, err := json.Marshal(parentJsonpathAttributeString)
+	if err != nil {
+		return []byte{}, err
+	}
+	str := fmt.Sprintf(`{"ALL":{"parentJsonpathAttribute":%v,`, string(parentJsonpathAttributeJson))
 	if len(returnValueJsonpath) > 0 {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
 		str = fmt.Sprintf(`%v"returnValueJsonpath":%v,`, str, string(returnValueJsonpathJson))
diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index b433801..7b5ef99 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -287,8 +287,6 @@ func (c *Condition) MarshalJSON() ([]byte, error) {
 	if len(c.OriginalAttribute) > 0 {
 		attributeString = c.OriginalAttribute
 	}
-	attributeString = strings.Replace(attributeString, "\\", "\\\\", -1)
-	attributeString = strings.Replace(attributeString, "\"", "\\\"", -1)
 
 	methodString := c.Method
 	if len(c.OriginalMethod) > 0 {
@@ -299,19 +297,30 @@ func (c *Condition) MarshalJSON() ([]byte, error) {
 	if len(c.OriginalValue) > 0 {
 		valueString = c.OriginalValue
 	}
-	valueString = strings.Replace(valueString, "\\", "\\\\", -1)
-	valueString = strings.Replace(valueString, "\"", "\\\"", -1)
 
 	returnValueJsonpath := c.ReturnValueJsonpath
 	if len(c.ReturnValueJsonpathOriginal) > 0 {
 		returnValueJsonpath = c.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"condition":{"attribute":"%v","method":"%v","value":"%v"}}`, attributeString, methodString, valueString)
+	attributeJson, err := json.Marshal(attributeString)
+	if err != nil {
+		return []byte{}, err
+	}
+	methodJson, err := json.Marshal(methodString)
+	if err != nil {
+		return []byte{}, err
+	}
+	valueJson, err := json.Marshal(valueString)
+	if err != nil {
+		return []byte{}, err
+	}
+
+	str := fmt.Sprintf(`{"condition":{"attribute":%v,"method":%v,"value":%v}}`, string(attributeJson), string(methodJson), string(valueJson))
 
 	if returnValueJsonpath != nil {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
-		str = fmt.Sprintf(`{"condition":{"attribute":"%v","method":"%v","value":"%v","returnValueJsonpath":%v}}`, attributeString, methodString, valueString, string(returnValueJsonpathJson))
+		str = fmt.Sprintf(`{"condition":{"attribute":%v,"method":%v,"value":%v,"returnValueJsonpath":%v}}`, string(attributeJson), string(methodJson), string(valueJson), string(returnValueJsonpathJson))
 	}
 	return []byte(str), nil
 }
-- 
2.43.0


From 44232cba76d0a80c7e352e94e207f1d0ed3302ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:28 +0000
Subject: [PATCH 03/32] fix: comparing a number with a non-numeric rule value
 no longer crashes

A condition such as EQ "abc" panicked when the document held a number, and
payloadSize panicked on a fraction or a value with units. A number differs from
any value that is not a number; payloadSize falls back to the float value.
---
 MAPL_engine/check.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index e29fa4c..f0e0feb 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -283,7 +283,11 @@ func testOneCondition(c *Condition, message *MessageAttributes) (bool, []map[str
 
 	case ("payloadSize"):
 		valueToCompareInt = message.RequestSize
-		result = compareIntFunc(valueToCompareInt, c.Method, c.ValueInt)
+		if c.ValueInt != nil {
+			result = compareIntFunc(valueToCompareInt, c.Method, c.ValueInt)
+		} else { // the value is a fraction or has units
+			result = compareFloatFunc(float64(valueToCompareInt), c.Method, c.ValueFloat)
+		}
 
 	case ("requestUseragent"):
 		valueToCompareString = message.RequestUseragent
@@ -811,6 +815,13 @@ func compareIntFunc(value1 int64, method string, value2 *int64) bool { //value2
 
 // compareFloatFunc compares one float value according the method string.
 func compareFloatFunc(value1 float64, method string, value2 *float64) bool { //value2 is the reference value from the rule
+	if value2 == nil { // the value in the rule is not a number
+		switch method {
+		case "NEQ", "neq", "ne", "NE":
+			return true
+		}
+		return false
+	}
 	switch method {
 	case "EQ", "eq":
 		return (value1 == *value2)
-- 
2.43.0


From d3e27f580898bc356c0ccc9006ffaac785804c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:29 +0000
Subject: [PATCH 04/32] fix: encryptionVersion condition on a message without a
 version

The missing version was dereferenced. The condition is now false.
---
 MAPL_engine/check.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index f0e0feb..7a84e30 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -310,6 +310,9 @@ func testOneCondition(c *Condition, message *MessageAttributes) (bool, []map[str
 		}
 
 	case ("encryptionVersion"):
+		if message.EncryptionVersion == nil {
+			return false, []map[string]interface{}{}
+		}
 		valueToCompareFloat = *message.EncryptionVersion
 		result = compareFloatFunc(valueToCompareFloat, c.Method, c.ValueFloat)
 
-- 
2.43.0


From 7ae9db5aa4e29b61a7fc407979989e9181fc93bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:29 +0000
Subject: [PATCH 05/32] fix: $VALUE sub-fields on parsed documents

A condition on $VALUE.x evaluated every field of the value instead of x when the
document was given as parsed data.
---
 MAPL_engine/conditions_tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 1b29e1f..9012efb 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -390,6 +390,9 @@ func prepareJsonpathQuery(query string) (jsonpath.FilterFunc, error) {
 	if query == "$*" {
 		query = "$.*"
 	}
+	if strings.HasPrefix(query, "$VALUE.") { // a sub-field of the value
+		query = strings.Replace(query, "$VALUE.", "$.", 1)
+	}
 	if strings.Contains(query, "$KEY") || strings.Contains(query, "$VALUE") {
 		preparedJsonpath, _ := jsonpath.Prepare("$.*") // just instead of nil. we are not going to use it
 		return preparedJsonpath, nil
-- 
2.43.0


From d21bbde1da259f9f02eb2e9ede6023b759a22889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:29 +0000
Subject: [PATCH 06/32] fix: braces inside strings no longer break ANY/ALL on
 raw documents

Elements of an array were split by counting braces, including those inside
strings, so elements were lost or merged.
---
 MAPL_engine/check.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 7a84e30..56e3fc3 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -1066,7 +1066,20 @@ func getArrayOfJsonsFromInterfaceArray(arrayData []byte) ([][]byte, error) {
 	arrayJson := [][]byte{}
 	c := 0
 	start := -1
+	inString := false
 	for i := 0; i < len(arrayData); i++ {
+		if inString { // braces inside strings are not structure
+			if arrayData[i] == '\\' {
+				i++
+			} else if arrayData[i] == '"' {
+				inString = false
+			}
+			continue
+		}
+		if arrayData[i] == '"' {
+			inString = true
+			continue
+		}
 		if arrayData[i] == '{' {
 			if c == 0 {
 				start = i
-- 
2.43.0


From 3880a290e59cc94970c490f5e424331bb3988f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:58 +0000
Subject: [PATCH 07/32] fix: ANY/ALL and $KEY/$VALUE on parsed documents of
 unexpected shape

A parent path that leads to a scalar, or an element that is not an object,
panicked. On an element with several fields $KEY and $VALUE used a random one.
Such an element now has no key and no value, as it already is for raw documents.
---
 MAPL_engine/check.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 56e3fc3..91a6e47 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -708,19 +708,17 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 
 func getKeyValueFromInterface(c *Condition, message *MessageAttributes) (interface{}, error) {
 	var valueToCompareInterface interface{}
-	var err error
+	yy, err := getSingleFieldMap(*message.RequestRawInterfaceRelative)
+	if err != nil {
+		return nil, err
+	}
 	if c.AttributeJsonpathQuery == "$KEY" {
-		xx := (*message).RequestRawInterfaceRelative
-		yy := (*xx).(map[string]interface{})
 		for k := range yy {
 			valueToCompareInterface = k
 			err = nil
 			break
 		}
 	} else {
-
-		xx := (*message).RequestRawInterfaceRelative
-		yy := (*xx).(map[string]interface{})
 		for _, v := range yy {
 			if c.AttributeJsonpathQuery == "$VALUE" {
 				valueToCompareInterface = v
@@ -735,6 +733,15 @@ func getKeyValueFromInterface(c *Condition, message *MessageAttributes) (interfa
 	return valueToCompareInterface, err
 }
 
+func getSingleFieldMap(element interface{}) (map[string]interface{}, error) {
+	// $KEY and $VALUE are defined only on an element which is one key-value pair
+	fields, ok := element.(map[string]interface{})
+	if !ok || len(fields) != 1 {
+		return nil, errors.New("not a key-value pair")
+	}
+	return fields, nil
+}
+
 func queryInterface(preparedJsonpathQuery jsonpath.FilterFunc, rawInterface interface{}) (interface{}, error) {
 	valueToCompareInterface, err := preparedJsonpathQuery(rawInterface)
 	if err != nil {
@@ -917,7 +924,7 @@ func getArrayOfInterfaces(a AnyAllNode, message *MessageAttributes) ([]interface
 		if parentJsonpath == "$RELATIVE*" {
 			var temp []interface{}
 			xx := (*message).RequestRawInterfaceRelative
-			yy := (*xx).(map[string]interface{})
+			yy, _ := (*xx).(map[string]interface{}) // no elements if it is not a map
 			for k, v := range yy {
 				zz := make(map[string]interface{}, 1)
 				zz[k] = v
@@ -965,7 +972,10 @@ func ArrangeArrayInterface(arrayDataInterface interface{}) []interface{} {
 		if arrayDataInterface == nil {
 			return []interface{}{}
 		}
-		tempArray := arrayDataInterface.([]interface{})
+		tempArray, ok := arrayDataInterface.([]interface{})
+		if !ok { // neither an array nor a map so there are no elements
+			return []interface{}{}
+		}
 		tempArrayOut := []interface{}{}
 		for _, x := range tempArray {
 			switch x.(type) {
-- 
2.43.0


From f3464036e18d8bfe5ab4656daf1bcefa0fe8c237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:27 +0000
Subject: [PATCH 08/32] fix: ANY/ALL on a message without the document they
 refer to

Evaluating ANY or ALL on a message without a document panicked. So did a
relative parent path or a relative return value outside of an ANY/ALL node.
ANY and ALL are now false and the return value is omitted.
---
 MAPL_engine/check.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 91a6e47..52accc9 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -366,6 +366,9 @@ func getExtraDataFromInterface(preparedReturnValueJsonpathQueryMap map[string]js
 	extraDataTemp := make(map[string]interface{})
 
 	for queryName, preparedQuery := range preparedReturnValueJsonpathQueryMap {
+		if preparedReturnValueJsonpathQueryRelativeFlag[queryName] && message.RequestRawInterfaceRelative == nil {
+			continue // there is no sub-document to return values from
+		}
 		if returnValueJsonpathMap[queryName] == "$*" {
 			if preparedReturnValueJsonpathQueryRelativeFlag[queryName] {
 				extraDataTemp[queryName] = *message.RequestRawInterfaceRelative
@@ -400,6 +403,9 @@ func getExtraDataFromByteArray(returnValueJsonpathMap map[string]string, returnV
 	for queryName, queryString := range returnValueJsonpathMap {
 		var extraDataBytes []byte
 
+		if returnValueJsonpathQueryRelativeFlag[queryName] && message.RequestJsonRawRelative == nil {
+			continue // there is no sub-document to return values from
+		}
 		if returnValueJsonpathQueryRelativeFlag[queryName] {
 			extraDataBytes, _ = jsonslice.Get(*message.RequestJsonRawRelative, queryString)
 		} else {
@@ -921,6 +927,9 @@ func getArrayOfInterfaces(a AnyAllNode, message *MessageAttributes) ([]interface
 	parentJsonpath := a.GetParentJsonpathAttribute()
 	if strings.HasPrefix(parentJsonpath, "$RELATIVE.") || parentJsonpath == "$RELATIVE*" || strings.HasPrefix(parentJsonpath, "$KEY.") || strings.HasPrefix(parentJsonpath, "$VALUE.") { // to-do: create a flag once when parsing!
 
+		if message.RequestRawInterfaceRelative == nil {
+			return []interface{}{}, errors.New("no data")
+		}
 		if parentJsonpath == "$RELATIVE*" {
 			var temp []interface{}
 			xx := (*message).RequestRawInterfaceRelative
@@ -1001,6 +1010,9 @@ func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error)
 	parentJsonpathList := a.GetParentJsonpathAttributeArray()
 	for _, parentJsonpath := range parentJsonpathList {
 		if strings.HasPrefix(parentJsonpath, "$RELATIVE.") || parentJsonpath == "$RELATIVE*" || strings.HasPrefix(parentJsonpath, "$KEY.") || strings.HasPrefix(parentJsonpath, "$VALUE.") { // to-do: create a flag once when parsing!
+			if message.RequestJsonRawRelative == nil {
+				return [][]byte{}, errors.New("no data")
+			}
 			parentJsonpath = strings.Replace(parentJsonpath, "$RELATIVE.", "$.", 1)
 			parentJsonpath = strings.Replace(parentJsonpath, "$KEY.", "$.", 1) // to do: this is not supported. remove
 			parentJsonpath = strings.Replace(parentJsonpath, "$VALUE.", "$.", 1)
@@ -1009,6 +1021,9 @@ func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error)
 			}
 			arrayDataTemp, err = jsonslice.Get(*message.RequestJsonRawRelative, parentJsonpath)
 		} else {
+			if message.RequestJsonRaw == nil {
+				return [][]byte{}, errors.New("no data")
+			}
 			arrayDataTemp, err = jsonslice.Get(*message.RequestJsonRaw, parentJsonpath)
 		}
 		if err == nil {
-- 
2.43.0


From 7af9d3aed19e078f6f648c43e3de016fec97393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:27 +0000
Subject: [PATCH 09/32] fix: NE on document strings is the same as NEQ

NE was always false when the document value was not a number.
---
 MAPL_engine/check.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 52accc9..b3515bb 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -583,7 +583,7 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 		valueToCompareFloat = valueToCompareFloat * factor
 
 		if err != nil {
-			if method == "EQ" || method == "NEQ" {
+			if method == "EQ" || method == "NEQ" || method == "NE" {
 				result = compareStringFunc(valueToCompareString, c.Method, c.Value) // compare strings (strightforward comparison. use of wildcards is only via RE)
 			} else {
 				log.Println("can't parse jsonpath value [float]")
@@ -677,7 +677,7 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 			valueToCompareFloat, err = strconv.ParseFloat(valueStringWithoutUnits, 64)
 			if err != nil {
 				log.Println("can't parse jsonpath value [float]")
-				if method == "NEQ" {
+				if method == "NEQ" || method == "NE" {
 					return true
 				}
 				return false
@@ -687,7 +687,7 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 		}
 
 		if !flagCompareToNumber {
-			if method == "EQ" || method == "NEQ" {
+			if method == "EQ" || method == "NEQ" || method == "NE" {
 				//return compareStringWithWildcardsFunc(valueToCompareString, c.Method, c.ValueStringRegex) // compare strings with wildcards
 				return compareStringFunc(valueToCompareString, c.Method, c.Value) // compare strings (strightforward comparison. use of wildcards is only via RE)
 			} else {
-- 
2.43.0


From 9269a23ec458395cf7b579ae69e5f4634d0daf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:28 +0000
Subject: [PATCH 10/32] fix: reject malformed condition trees instead of
 crashing

A non-string attribute, method, key, parent path or return path panicked while
loading. An ANY/ALL or NOT node without a condition panicked when evaluated, and
ANY/ALL with two conditions used one of them at random. They are now rejected.
---
 MAPL_engine/conditions_tree.go  | 20 ++++++++++++++------
 MAPL_engine/definitions_rule.go |  8 ++++----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 9012efb..12cae82 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -841,14 +841,15 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 		anyAllNode = &All{}
 	}
 
+	numberOfConditions := 0
 	for key, val := range v2 {
 		switch key {
 		case "parentJsonpathAttribute":
-			parentJsonpathAttribute := val.(string)
-			if isValidParentJsonpathAttribute(parentJsonpathAttribute) {
+			parentJsonpathAttribute, ok := val.(string)
+			if ok && isValidParentJsonpathAttribute(parentJsonpathAttribute) {
 				anyAllNode.SetParentJsonpathAttribute(parentJsonpathAttribute)
 			} else {
-				return nil, fmt.Errorf("invalid parentJsonpathAttribute [%v]", parentJsonpathAttribute)
+				return nil, fmt.Errorf("invalid parentJsonpathAttribute [%v]", val)
 			}
 		case "returnValueJsonpath":
 			returnValueJsonpath := map[string]interface{}{}
@@ -863,8 +864,8 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 
 			returnValueJsonpathMap := map[string]string{}
 			for k, v := range returnValueJsonpath {
-				vString := v.(string)
-				if strings.HasPrefix(vString, "jsonpath:$RELATIVE") {
+				vString, ok := v.(string)
+				if ok && strings.HasPrefix(vString, "jsonpath:$RELATIVE") {
 					returnValueJsonpathMap[k] = vString
 				} else {
 					return nil, fmt.Errorf("invalid returnValueJsonpath [%v] [should start with jsonpath:$RELATIVE]", returnValueJsonpath[k])
@@ -877,8 +878,12 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 				return nil, err
 			}
 			anyAllNode.Append(node)
+			numberOfConditions += 1
 		}
 	}
+	if numberOfConditions != 1 {
+		return nil, fmt.Errorf("ANY/ALL node must have exactly one condition")
+	}
 	if anyAllNode.GetParentJsonpathAttribute() == "" {
 		return nil, fmt.Errorf("parentJsonpathAttribute is missing")
 	}
@@ -928,7 +933,7 @@ func isValidParentJsonpathAttribute(parentJsonpathAttribute string) bool {
 func mapInterfaceToMapString(node map[interface{}]interface{}) map[string]interface{} {
 	node_out := make(map[string]interface{})
 	for k, val := range node {
-		node_out[k.(string)] = val
+		node_out[fmt.Sprintf("%v", k)] = val
 	}
 	return node_out
 }
@@ -964,6 +969,9 @@ func handleInterfaceArray(node interface{}, parentString string) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if parentString == "NOT" && len(v2) == 0 {
+		return nil, fmt.Errorf("NOT node without a condition")
+	}
 	for _, subNode := range v2 {
 		subNode2, err := InterpretNode(subNode, "") // recursion!
 		if err != nil {
diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index 7b5ef99..d580f07 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -170,10 +170,10 @@ func ReadCondition(v map[string]interface{}) ConditionNode {
 	for k, val := range v {
 		switch k {
 		case "attribute", "Attribute":
-			c.Attribute = val.(string)
+			c.Attribute = fmt.Sprintf("%v", val)
 
 		case "method", "Method":
-			c.Method = val.(string)
+			c.Method = fmt.Sprintf("%v", val)
 
 		case "value", "Value":
 			c.Value = fmt.Sprintf("%v", val) // to avoid interface interpreted as int which causes panic
@@ -184,12 +184,12 @@ func ReadCondition(v map[string]interface{}) ConditionNode {
 			case map[string]interface{}:
 				val2 := val.(map[string]interface{})
 				for kk, vv := range val2 {
-					c.ReturnValueJsonpath[kk] = vv.(string)
+					c.ReturnValueJsonpath[kk] = fmt.Sprintf("%v", vv)
 				}
 			case map[interface{}]interface{}:
 				val2 := val.(map[interface{}]interface{})
 				for kk, vv := range val2 {
-					c.ReturnValueJsonpath[kk.(string)] = vv.(string)
+					c.ReturnValueJsonpath[fmt.Sprintf("%v", kk)] = fmt.Sprintf("%v", vv)
 				}
 			}
 		}
-- 
2.43.0


From b5dc881d55e99b474c06948e1929c2e285710206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:44 +0000
Subject: [PATCH 11/32] fix: NEQ in a mongo query does not match documents
 without the field

$ne also selects documents where the field is missing, while a NEQ condition is
false on them.
---
 MAPL_engine/mongo_plugin.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 2a60930..18b839b 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -194,7 +194,9 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 	case "EQ":
 		q = bson.M{field: bson.M{"$eq": valToUse}}
 	case "NEQ", "NE":
-		q = bson.M{field: bson.M{"$ne": valToUse}}
+		q1 := bson.M{field: bson.M{"$ne": valToUse}} // $ne is also true when the field does not exist
+		q2 := bson.M{field: bson.M{"$exists": true}}
+		q = bson.M{"$and": []bson.M{q1, q2}}
 	case "GT":
 		q = bson.M{field: bson.M{"$gt": valToUse}}
 	case "GE":
-- 
2.43.0


From 719f56cb8df54d62c1330c97eadef28406a0bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:45 +0000
Subject: [PATCH 12/32] fix: mongo query for $KEY/$VALUE tests one key-value
 pair at a time

NEQ, NRE and NEX were tested on all the pairs together, so ANY behaved like ALL.
Under AND, OR or NOT the parent object was lost and the query could never match;
this is now reported as unsupported.
---
 MAPL_engine/mongo_plugin.go | 17 +++++++++++++++--
 docs/Mongo_Plugin.md        |  4 ++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 18b839b..1baf54d 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -127,6 +127,7 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 	}
 
 	var field string
+	var keyValueField string // the array of key-value pairs of the parent object (used with $KEY and $VALUE)
 	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$RELATIVE") {
 		field = strings.Replace(c.OriginalAttribute, "jsonpath:$RELATIVE.", "", 1)
 	}
@@ -136,12 +137,16 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		if inArrayCounter >= 2 {
 			return bson.M{}, []bson.M{}, fmt.Errorf("VALUE within array is not supported") // if neccessary we can do [$unwind, $addFields, $merge] steps!
 		}
+		if parentString == "" {
+			return bson.M{}, []bson.M{}, fmt.Errorf("VALUE is supported only directly under ANY")
+		}
 		//if strings.Contains(c.OriginalAttribute,"jsonpath:$VALUE."){
 		//	return bson.M{}, []bson.M{}, fmt.Errorf("json VALUE is not supported")
 		//}
 		subField := strings.Replace(c.OriginalAttribute, "jsonpath:$VALUE", "", 1)
 		addedField := fmt.Sprintf("addedField.%v", parentString)
-		field = fmt.Sprintf("%v.v%v", addedField, subField)
+		field = fmt.Sprintf("v%v", subField)
+		keyValueField = addedField
 
 		addFieldStep := bson.M{"$addFields": bson.M{addedField: bson.M{"$objectToArray": "$" + parentString}}}
 
@@ -153,13 +158,17 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		if inArrayCounter >= 2 {
 			return bson.M{}, []bson.M{}, fmt.Errorf("KEY within array is not supported")
 		}
+		if parentString == "" {
+			return bson.M{}, []bson.M{}, fmt.Errorf("KEY is supported only directly under ANY")
+		}
 		if strings.Contains(c.OriginalAttribute, "jsonpath:$KEY.") {
 			return bson.M{}, []bson.M{}, fmt.Errorf("json KEY is not supported")
 		}
 
 		field0 := parentString
 		field1 := fmt.Sprintf("addedField.%v", field0)
-		field = fmt.Sprintf("%v.k", field1)
+		field = "k"
+		keyValueField = field1
 
 		addFieldStep := bson.M{"$addFields": bson.M{field1: bson.M{"$objectToArray": "$" + field0}}}
 
@@ -220,6 +229,10 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		return bson.M{}, []bson.M{}, fmt.Errorf("methods IN,NIN are not supported yet")
 	}
 
+	if keyValueField != "" { // the condition must hold for one of the key-value pairs
+		q = bson.M{keyValueField: bson.M{"$elemMatch": q}}
+	}
+
 	return q, initialSteps, nil
 }
 
diff --git a/docs/Mongo_Plugin.md b/docs/Mongo_Plugin.md
index a164fcc..1a55997 100644
--- a/docs/Mongo_Plugin.md
+++ b/docs/Mongo_Plugin.md
@@ -80,7 +80,7 @@ Mongo **Aggregate** query =
 ```
   [ 
      {"$addFields":{"addedField.raw.metadata.labels":{"$objectToArray":"$raw.metadata.labels"}}},
-     {"$match":{"addedField.raw.metadata.labels.v":{"$eq":"ABC"}}} 
+     {"$match":{"addedField.raw.metadata.labels":{"$elemMatch":{"v":{"$eq":"ABC"}}}}} 
    ]
 ```
 
@@ -106,5 +106,5 @@ If the document in the db contains the value 600m [0.6 core] then the query will
 
 3) Deepscan is not supported
 
-4) Key/Value queries are supported only outside of arrays
+4) Key/Value queries are supported only outside of arrays and directly under an ANY node
 
-- 
2.43.0


From 47d704a5a802a0a7f3b390676081de44bdbd82f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:45 +0000
Subject: [PATCH 13/32] fix: report conditions within ANY/ALL that have no
 mongo translation

An absolute path inside ANY/ALL, and a condition on the element itself, were
translated to a query on a field that does not exist.
---
 MAPL_engine/mongo_plugin.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 1baf54d..0e38435 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -126,6 +126,13 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		return bson.M{}, []bson.M{}, fmt.Errorf("attribute is not a jsonpath")
 	}
 
+	if inArrayCounter > 0 && (strings.HasPrefix(c.OriginalAttribute, "jsonpath:$.") || strings.HasPrefix(c.OriginalAttribute, "jsonpath:.")) {
+		return bson.M{}, []bson.M{}, fmt.Errorf("absolute jsonpath within ANY/ALL is not supported")
+	}
+	if c.OriginalAttribute == "jsonpath:$RELATIVE" {
+		return bson.M{}, []bson.M{}, fmt.Errorf("condition on the array element itself is not supported")
+	}
+
 	var field string
 	var keyValueField string // the array of key-value pairs of the parent object (used with $KEY and $VALUE)
 	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$RELATIVE") {
-- 
2.43.0


From f59f9aaa86b1301b06bb88ab17dc58e300c7a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:49 +0000
Subject: [PATCH 14/32] fix: mongo translation of the parent path of ANY/ALL
 nodes

A list of parents, a path starting with '.', an indexed path and an empty base
field produced a query on a field that does not exist. Deepscan in a condition
was translated as a plain path. An absolute parent inside another ANY/ALL cannot
be expressed and is now reported.
---
 MAPL_engine/mongo_plugin.go | 80 ++++++++++++++++++++++++++++++-------
 1 file changed, 65 insertions(+), 15 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 0e38435..b04b3c7 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -61,17 +61,16 @@ func (n *Not) ToMongoQuery(base string, parentString string, inArrayCounter int)
 }
 
 func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
+	parentFields, err := getMongoParentFields(a.ParentJsonpathAttributeOriginal, base, inArrayCounter)
+	if err != nil {
+		return bson.M{}, []bson.M{}, err
+	}
 	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
 		inArrayCounter += 1
 	}
 	if strings.HasPrefix(a.ParentJsonpathAttributeOriginal, "jsonpath:$..") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
 	}
-	parentField := strings.Replace(a.ParentJsonpathAttributeOriginal, "jsonpath:$.", base+".", 1)
-	parentField = strings.Replace(parentField, "jsonpath:$RELATIVE.", "", 1)
-	parentField = strings.Replace(parentField, "[:]", "", -1)
-	parentField = strings.Replace(parentField, "[*]", "", -1)
-
 	q, pipeline, err := a.Node.ToMongoQuery(base, "", inArrayCounter+1)
 	if err != nil {
 		return bson.M{}, []bson.M{}, err
@@ -81,8 +80,11 @@ func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	}
 
 	q_not := bson.M{"$nor": []bson.M{q}}
-	q_all_not := bson.M{parentField: bson.M{"$elemMatch": q_not}}
-	q_not_all_not := bson.M{"$nor": []bson.M{q_all_not}} // all == not(any(not(conditions))
+	q_all_not := []bson.M{}
+	for _, parentField := range parentFields {
+		q_all_not = append(q_all_not, bson.M{parentField: bson.M{"$elemMatch": q_not}})
+	}
+	q_not_all_not := bson.M{"$nor": q_all_not} // all == not(any(not(conditions))
 
 	return q_not_all_not, pipeline, nil
 
@@ -90,6 +92,10 @@ func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int)
 
 func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
 
+	parentFields, err := getMongoParentFields(a.ParentJsonpathAttributeOriginal, base, inArrayCounter)
+	if err != nil {
+		return bson.M{}, []bson.M{}, err
+	}
 	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
 		inArrayCounter += 1
 	}
@@ -97,11 +103,10 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	if strings.HasPrefix(a.ParentJsonpathAttributeOriginal, "jsonpath:$..") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
 	}
-	parentField := strings.Replace(a.ParentJsonpathAttributeOriginal, "jsonpath:$.", base+".", 1)
-	parentField = strings.Replace(parentField, "jsonpath:$RELATIVE.", "", 1)
-	parentField = strings.Replace(parentField, "[:]", "", -1)
-	parentField = strings.Replace(parentField, "[*]", "", -1)
-
+	parentField := ""
+	if len(parentFields) == 1 {
+		parentField = parentFields[0]
+	}
 	q, pipeline, err := a.Node.ToMongoQuery(base, parentField, inArrayCounter+1)
 	if err != nil {
 		return bson.M{}, []bson.M{}, err
@@ -109,13 +114,54 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 
 	var q_all bson.M
 	if len(pipeline) == 0 {
-		q_all = bson.M{parentField: bson.M{"$elemMatch": q}}
+		q_any := []bson.M{}
+		for _, p := range parentFields {
+			q_any = append(q_any, bson.M{p: bson.M{"$elemMatch": q}})
+		}
+		q_all = q_any[0]
+		if len(q_any) > 1 { // a list of parents
+			q_all = bson.M{"$or": q_any}
+		}
 	} else {
 		q_all = q
 	}
 	return q_all, pipeline, nil
 }
 
+// getMongoParentFields translates the (list of) parent jsonpath of an ANY/ALL node to field names
+func getMongoParentFields(parentJsonpathAttribute string, base string, inArrayCounter int) ([]string, error) {
+	newBase := ""
+	if len(base) > 0 {
+		newBase = base + "."
+	}
+	parentFields := []string{}
+	for _, parent := range strings.Split(strings.Replace(parentJsonpathAttribute, "jsonpath:", "", -1), ",") {
+		isAbsolute := strings.HasPrefix(parent, "$.") || strings.HasPrefix(parent, ".")
+		switch {
+		case isAbsolute && inArrayCounter > 0:
+			return []string{}, fmt.Errorf("absolute jsonpath within ANY/ALL is not supported")
+		case strings.Contains(parent, ".."):
+			return []string{}, fmt.Errorf("deepscan is not supported")
+		case strings.HasPrefix(parent, "$."):
+			parent = strings.Replace(parent, "$.", newBase, 1)
+		case strings.HasPrefix(parent, "."):
+			parent = strings.Replace(parent, ".", newBase, 1)
+		case strings.HasPrefix(parent, "$RELATIVE."):
+			parent = strings.Replace(parent, "$RELATIVE.", "", 1)
+		default:
+			return []string{}, fmt.Errorf("parentJsonpathAttribute is not supported [%v]", parent)
+		}
+		parent = strings.Replace(parent, "[:]", "", -1)
+		parent = strings.Replace(parent, "[*]", "", -1)
+		parentField, err := removeQuotes(parent)
+		if err != nil {
+			return []string{}, err
+		}
+		parentFields = append(parentFields, parentField)
+	}
+	return parentFields, nil
+}
+
 func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) {
 
 	//see: https://docs.mongodb.com/manual/reference/operator/query/
@@ -129,6 +175,9 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 	if inArrayCounter > 0 && (strings.HasPrefix(c.OriginalAttribute, "jsonpath:$.") || strings.HasPrefix(c.OriginalAttribute, "jsonpath:.")) {
 		return bson.M{}, []bson.M{}, fmt.Errorf("absolute jsonpath within ANY/ALL is not supported")
 	}
+	if strings.Contains(c.OriginalAttribute, "..") {
+		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
+	}
 	if c.OriginalAttribute == "jsonpath:$RELATIVE" {
 		return bson.M{}, []bson.M{}, fmt.Errorf("condition on the array element itself is not supported")
 	}
@@ -182,13 +231,14 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		initialSteps = append(initialSteps, addFieldStep)
 	}
 
-	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$.") {
+	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$.") || strings.HasPrefix(c.OriginalAttribute, "jsonpath:.") {
 
 		newBase := ""
 		if len(base) > 0 {
 			newBase = base + "."
 		}
-		field = strings.Replace(c.OriginalAttribute, "jsonpath:$.", newBase, 1)
+		field = strings.Replace(c.OriginalAttribute, "jsonpath:.", "jsonpath:$.", 1)
+		field = strings.Replace(field, "jsonpath:$.", newBase, 1)
 	}
 
 	field, err := removeQuotes(field)
-- 
2.43.0


From a7d14f79532f631747584d7e2b35629dcaa2f5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:49 +0000
Subject: [PATCH 15/32] fix: AND returns no values when it is false

Values collected by the first sub-nodes were returned together with false.
---
 MAPL_engine/conditions_tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 12cae82..cf5e65c 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -130,7 +130,7 @@ func (a *And) Eval(message *MessageAttributes) (bool, []map[string]interface{})
 			extraData = extraDataTemp
 		}
 		if flag == false {
-			return false, extraData // no need to check the rest
+			return false, []map[string]interface{}{} // no need to check the rest
 		}
 	}
 	return true, extraData
-- 
2.43.0


From 22eb889f424571ac03fbe4cb6ca45a481a6f5a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:49 +0000
Subject: [PATCH 16/32] fix: printing a rule without conditions no longer
 crashes

---
 MAPL_engine/tools.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/tools.go b/MAPL_engine/tools.go
index 9a57538..e901df6 100644
--- a/MAPL_engine/tools.go
+++ b/MAPL_engine/tools.go
@@ -158,7 +158,9 @@ func GetRuleStrings(r *Rule) RuleStrings {
 		output.DecisionString = r.Decision
 	}
 
-	output.ConditionsString = r.Conditions.ConditionsTree.String()
+	if r.Conditions.ConditionsTree != nil {
+		output.ConditionsString = r.Conditions.ConditionsTree.String()
+	}
 
 	return output
 }
-- 
2.43.0


From d1f0da8ab15c023a99e532bce4fa8483d601fe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:50 +0000
Subject: [PATCH 17/32] fix: lower case in, nin, re and nre work like their
 upper case forms

Lower case in and nin were accepted but never matched. Lists referenced by lower
case re and nre were joined by commas instead of alternatives.
---
 MAPL_engine/rules_load.go          | 9 +++++----
 MAPL_engine/validate_conditions.go | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index b14166a..0d03dd4 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -269,7 +269,7 @@ func ReplaceStringsAndListsInCondition(c *Condition, stringsAndlists PredefinedS
 	newList, ok, isReplaceable := isReplaceableList(c.Value, stringsAndlists)
 	if ok {
 		newValue := ""
-		if c.Method == "RE" || c.Method == "NRE" {
+		if slice.ContainsString(regexSlice, c.Method) {
 			newValue = convertListToRegexString(newList)
 			_, err := regexp.Compile(newValue)
 			if err != nil {
@@ -331,15 +331,16 @@ func ConvertConditionStringToIntFloatRegex(condition *Condition) error { // TO-D
 	condition.OriginalMethod = condition.Method
 	condition.OriginalValue = condition.Value
 
-	if condition.Method == "IN" || condition.Method == "NIN" || condition.Method == "IS" {
+	method := strings.ToUpper(condition.Method)
+	if method == "IN" || method == "NIN" || method == "IS" {
 		tempString := strings.Replace(condition.Value, "[", "", -1)
 		tempString = strings.Replace(tempString, "]", "", -1)
 		tempString = strings.Replace(tempString, ",", "$|^", -1)
 		tempString = "^" + tempString + "$"
-		if condition.Method == "IN" || condition.Method == "IS" {
+		if method == "IN" || method == "IS" {
 			condition.Method = "RE"
 		}
-		if condition.Method == "NIN" {
+		if method == "NIN" {
 			condition.Method = "NRE"
 		}
 		condition.Value = tempString
diff --git a/MAPL_engine/validate_conditions.go b/MAPL_engine/validate_conditions.go
index 6a857e5..6c675c9 100755
--- a/MAPL_engine/validate_conditions.go
+++ b/MAPL_engine/validate_conditions.go
@@ -129,7 +129,7 @@ func validateMethod(condition *Condition) (bool, error) {
 	if !slice.ContainsString(supportedMethodsSlice, condition.Method) {
 		return false, fmt.Errorf("invalid method in condition [%v]", condition.Method)
 	}
-	if condition.Method == "IN" || condition.Method == "NIN" {
+	if method := strings.ToUpper(condition.Method); method == "IN" || method == "NIN" {
 		L := len(condition.Value)
 		if L == 0 {
 			return false, fmt.Errorf("test membership in empty array")
-- 
2.43.0


From e6499ea8ea828c4dfbbba225f6ea5d26c5150474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:50 +0000
Subject: [PATCH 18/32] fix: NEX on labels is the negation of EX

NEX was false on a message without the label and true on an empty label value.
---
 MAPL_engine/check.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index b3515bb..cf75db7 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -464,6 +464,10 @@ func testSenderLabelCondition(c *Condition, message *MessageAttributes) bool {
 		log.Println("senderLabel without the correct format")
 		return false
 	}
+	if c.Method == "NEX" || c.Method == "nex" { // just test that the key does not exist
+		_, ok := message.SourceLabels[c.AttributeSenderLabelKey]
+		return !ok
+	}
 	if valueToCompareString1, ok := message.SourceLabels[c.AttributeSenderLabelKey]; ok { // enter the block only if the key exists
 		if c.ValueIsReceiverLabel {
 			if valueToCompareString2, ok2 := message.DestinationLabels[c.ValueReceiverLabelKey]; ok2 {
@@ -494,6 +498,10 @@ func testReceiverLabelCondition(c *Condition, message *MessageAttributes) bool {
 		log.Println("receiverLabel without the correct format")
 		return false
 	}
+	if c.Method == "NEX" || c.Method == "nex" { // just test that the key does not exist
+		_, ok := message.DestinationLabels[c.AttributeReceiverLabelKey]
+		return !ok
+	}
 	if valueToCompareString1, ok := message.DestinationLabels[c.AttributeReceiverLabelKey]; ok { // enter the block only if the key exists
 		if c.Method == "RE" || c.Method == "re" || c.Method == "NRE" || c.Method == "nre" {
 			result = compareRegexFunc(valueToCompareString1, c.Method, c.ValueRegex)
-- 
2.43.0


From 5e3db399bb4cb55954f096489c539e1edfec21d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:00 +0000
Subject: [PATCH 19/32] fix: ANY/ALL over raw documents skipped array elements
 that are not objects

---
 MAPL_engine/check.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index cf75db7..0050e8e 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -1097,7 +1097,7 @@ func getArrayOfJsonsFromInterfaceArray(arrayData []byte) ([][]byte, error) {
 	}
 
 	arrayJson := [][]byte{}
-	c := 0
+	c := 0 // depth. the elements are the values inside the outer array
 	start := -1
 	inString := false
 	for i := 0; i < len(arrayData); i++ {
@@ -1113,22 +1113,22 @@ func getArrayOfJsonsFromInterfaceArray(arrayData []byte) ([][]byte, error) {
 			inString = true
 			continue
 		}
-		if arrayData[i] == '{' {
+		switch arrayData[i] {
+		case '{', '[':
 			if c == 0 {
-				start = i
+				start = i + 1
 			}
 			c += 1
-		}
-		if arrayData[i] == '}' {
+		case '}', ']':
 			c -= 1
-		}
-		if c == 0 {
-			if start == -1 {
-				continue
+			if c == 0 && i > start {
+				arrayJson = append(arrayJson, arrayData[start:i])
+			}
+		case ',':
+			if c == 1 {
+				arrayJson = append(arrayJson, arrayData[start:i])
+				start = i + 1
 			}
-			y := arrayData[start : i+1]
-			start = -1
-			arrayJson = append(arrayJson, y)
 		}
 	}
 
-- 
2.43.0


From baacd3b54a96fa101ea01927cd4a0e25973a65a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:40 +0000
Subject: [PATCH 20/32] fix: parent path of ANY/ALL without the leading $ can
 be used

---
 MAPL_engine/conditions_tree.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index cf5e65c..ed08d06 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -375,7 +375,11 @@ func (a *Any) PrepareAndValidate(stringsAndlists PredefinedStringsAndLists) erro
 
 	a.ParentJsonpathAttributeArray = strings.Split(a.GetParentJsonpathAttribute(), ",")
 
-	for _, j := range a.GetParentJsonpathAttributeArray() {
+	for i, j := range a.GetParentJsonpathAttributeArray() {
+		if strings.HasPrefix(j, ".") { // the leading '$' may be omitted (as in conditions)
+			j = "$" + j
+			a.ParentJsonpathAttributeArray[i] = j
+		}
 		preparedJsonpath, err := prepareJsonpathQuery(j)
 		if err != nil {
 			return err
@@ -567,7 +571,11 @@ func (a *All) PrepareAndValidate(stringsAndlists PredefinedStringsAndLists) erro
 
 	a.ParentJsonpathAttributeArray = strings.Split(a.GetParentJsonpathAttribute(), ",")
 
-	for _, j := range a.GetParentJsonpathAttributeArray() {
+	for i, j := range a.GetParentJsonpathAttributeArray() {
+		if strings.HasPrefix(j, ".") { // the leading '$' may be omitted (as in conditions)
+			j = "$" + j
+			a.ParentJsonpathAttributeArray[i] = j
+		}
 		preparedJsonpath, err := prepareJsonpathQuery(j)
 		if err != nil {
 			return err
-- 
2.43.0


From e9b3e87d1adaaee337468334c9824d15a188772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:13 +0000
Subject: [PATCH 21/32] fix: sub-fields of $VALUE named in brackets on raw
 documents

A condition on $VALUE.["name"] compared the whole value of the pair when
the document was given as bytes.
---
 MAPL_engine/check.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 0050e8e..692bb98 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -533,8 +533,8 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 		}
 		if c.AttributeJsonpathQuery == "$KEY" || strings.HasPrefix(c.AttributeJsonpathQuery, "$VALUE") {
 			valueToCompareBytes, err = getKeyValue(*message.RequestJsonRawRelative, c.AttributeJsonpathQuery)
-			if strings.HasPrefix(c.AttributeJsonpathQuery, "$VALUE.") {
-				tempQuery := strings.Replace(c.AttributeJsonpathQuery, "$VALUE.", "$.", 1)
+			if strings.HasPrefix(c.AttributeJsonpathQuery, "$VALUE.") || strings.HasPrefix(c.AttributeJsonpathQuery, "$VALUE[") {
+				tempQuery := strings.Replace(c.AttributeJsonpathQuery, "$VALUE", "$", 1)
 				valueToCompareBytes, err = jsonslice.Get(valueToCompareBytes, tempQuery)
 			}
 		} else {
-- 
2.43.0


From 000a20ed5e372dfae332a28e2e0f87626366f4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:13 +0000
Subject: [PATCH 22/32] fix: ANY/ALL over a list of paths changed the raw
 document

The elements of the second path were appended to a slice of the message
bytes and so overwrote what follows the first collection.
---
 MAPL_engine/check.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 692bb98..4f6f00a 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -1036,7 +1036,7 @@ func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error)
 		}
 		if err == nil {
 			if len(arrayData) == 0 {
-				arrayData = arrayDataTemp
+				arrayData = append([]byte{}, arrayDataTemp...) // a copy. appending to the result of the query changes the message itself
 			} else {
 				if len(arrayDataTemp) != 0 {
 					arrayData = append(arrayData, ',')
-- 
2.43.0


From 9cd944026250b8f3ac6a47feff64aa8a5f272d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:13 +0000
Subject: [PATCH 23/32] fix: EX/NEX on arrays that mix strings and other values

Such an array was rejected as badly quoted text, so that it neither
existed nor was missing.
---
 MAPL_engine/check.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 4f6f00a..7c53274 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -567,6 +567,10 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
 
+	if c.Method == "EX" || c.Method == "ex" || c.Method == "NEX" || c.Method == "nex" { // just test the existence of the key
+		return c.Method == "EX" || c.Method == "ex"
+	}
+
 	result := false
 	L := len(valueToCompareString) - 1
 	if L > 0 {
@@ -667,6 +671,10 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
 
+	if c.Method == "EX" || c.Method == "ex" || c.Method == "NEX" || c.Method == "nex" { // just test the existence of the key
+		return c.Method == "EX" || c.Method == "ex"
+	}
+
 	valueToCompareString, ok := removeQuotesFromResult(valueToCompareString)
 	{
 		if !ok {
-- 
2.43.0


From ac0a86dd433913bee3ffdd8368501dd6a30cea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:36 +0000
Subject: [PATCH 24/32] fix: sub-fields of $VALUE named in brackets on parsed
 documents

---
 MAPL_engine/conditions_tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index ed08d06..ab2b0ae 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -394,8 +394,8 @@ func prepareJsonpathQuery(query string) (jsonpath.FilterFunc, error) {
 	if query == "$*" {
 		query = "$.*"
 	}
-	if strings.HasPrefix(query, "$VALUE.") { // a sub-field of the value
-		query = strings.Replace(query, "$VALUE.", "$.", 1)
+	if strings.HasPrefix(query, "$VALUE.") || strings.HasPrefix(query, "$VALUE[") { // a sub-field of the value
+		query = strings.Replace(query, "$VALUE", "$", 1)
 	}
 	if strings.Contains(query, "$KEY") || strings.Contains(query, "$VALUE") {
 		preparedJsonpath, _ := jsonpath.Prepare("$.*") // just instead of nil. we are not going to use it
-- 
2.43.0


From 838b666929e004b19643ebc070825bd23f9cf84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:06 +0000
Subject: [PATCH 25/32] fix: ANY/ALL over several arrays counted an empty array
 as an element

---
 MAPL_engine/check.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 7c53274..4575123 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -2,6 +2,7 @@
 package MAPL_engine
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -1182,13 +1183,21 @@ func getArrayFromArrayOfArrays(arrayData []byte) ([]byte, error) {
 		return arrayDataNew, nil
 	}
 
-	arrayDataString := string(arrayDataNew)
-	arrayDataString = strings.Replace(arrayDataString, "[[", "[", 1)
-	arrayDataString = strings.Replace(arrayDataString, "]]", "]", 1)
-	arrayDataString = strings.Replace(arrayDataString, "],[", ",", -1)
-
-	if strings.Contains(arrayDataString, "[[") || strings.Contains(arrayDataString, "]]") {
-		return []byte{}, fmt.Errorf("malformed arrayData")
+	elements, err := getArrayOfJsonsFromInterfaceArray(arrayDataNew)
+	if err != nil {
+		return []byte{}, err
+	}
+	flat := [][]byte{}
+	for _, element := range elements {
+		if len(element) > 0 && element[0] == '[' {
+			element = element[1 : len(element)-1]
+			if len(element) > 0 && element[0] == '[' {
+				return []byte{}, fmt.Errorf("malformed arrayData")
+			}
+		}
+		if len(element) > 0 { // an empty array adds no element
+			flat = append(flat, element)
+		}
 	}
-	return []byte(arrayDataString), nil
+	return append(append([]byte{'['}, bytes.Join(flat, []byte{','})...), ']'), nil
 }
-- 
2.43.0


From 0c36631c2320834a1b4ac8c94d1d2b95d38c839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:13:32 +0000
Subject: [PATCH 26/32] fix: do not store in BSON that the fields of a rule are
 already converted

The converted fields themselves cannot be read back from BSON, so a rule
stored after it was prepared matched every operation and resource.
---
 MAPL_engine/definitions_rule.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index d580f07..8289be5 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -109,7 +109,7 @@ type Rule struct {
 	Hash string `yaml:"hash,omitempty" json:"hash,omitempty" bson:"hash" structs:"hash,omitempty"`
 
 	OperationRegex                    *regexp.Regexp `yaml:"operationRegex,omitempty" json:"operationRegex,omitempty" bson:"operationRegex,omitempty" structs:"operationRegex,omitempty"`
-	AlreadyConvertedFieldsToRegexFlag bool           `yaml:"-,omitempty" json:"-,omitempty" bson:"-,omitempty" structs:"-,omitempty"` // default is false
+	AlreadyConvertedFieldsToRegexFlag bool           `yaml:"-,omitempty" json:"-,omitempty" bson:"-" structs:"-,omitempty"` // default is false
 
 	predefinedStringsAndLists PredefinedStringsAndLists
 	ruleAlreadyPrepared       bool
-- 
2.43.0


From b15c313b43964974c324bed28e03861d581913e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:29 +0000
Subject: [PATCH 27/32] fix: do not compare large numbers of parsed documents
 in exponent form

A number of a million or more in a document attached as a parsed value was
turned into text like 1e+06. RE, NRE, IN and NIN conditions compared that
text, so they gave another result than on the raw document.
---
 MAPL_engine/check.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 4575123..b8baad9 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -659,6 +659,8 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 	case map[string]interface{}, []interface{}:
 		jsonBytes, _ := json.Marshal(valueToCompareInterface)
 		valueToCompareString = string(jsonBytes)
+	case float64: // without an exponent, as in the raw document
+		valueToCompareString = strconv.FormatFloat(valueToCompareInterface.(float64), 'f', -1, 64)
 	default:
 		valueToCompareString = fmt.Sprintf("%v", valueToCompareInterface)
 	}
-- 
2.43.0


From 41bf3f038f6bfd1865119cab91074b9bb4b671f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:37:30 +0000
Subject: [PATCH 28/32] fix: do not read large numbers in rule conditions in
 exponent form

A condition value written as a number of a million or more in JSON, or a
fraction in YAML, was turned into text like 1e+06. The rule then had another
fingerprint than the same rule in YAML, and IN and RE never matched.
---
 MAPL_engine/definitions_rule.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index 8289be5..d5daa20 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -8,6 +8,7 @@ import (
 	dc "gopkg.in/getlantern/deepcopy.v1"
 	"net"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -177,6 +178,9 @@ func ReadCondition(v map[string]interface{}) ConditionNode {
 
 		case "value", "Value":
 			c.Value = fmt.Sprintf("%v", val) // to avoid interface interpreted as int which causes panic
+			if valFloat, ok := val.(float64); ok { // a number in json. no exponent
+				c.Value = strconv.FormatFloat(valFloat, 'f', -1, 64)
+			}
 
 		case "returnValueJsonpath", "ReturnValueJsonpath":
 			c.ReturnValueJsonpath = make(map[string]string)
-- 
2.43.0


From 85ecb96e65ca29d7aea1717759097f385a155975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:44:33 +0000
Subject: [PATCH 29/32] fix: evaluate every parent path of an ANY/ALL list on
 its own

On raw documents the collections of a list of parent paths were joined as
text. A list that named objects, or objects and arrays, had no elements or
wrong ones. It now gives the same elements as on a parsed document.
---
 MAPL_engine/check.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index b8baad9..652c591 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -1022,7 +1022,7 @@ func ArrangeArrayInterface(arrayDataInterface interface{}) []interface{} {
 
 func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error) {
 	// used in eval of ANY/ALL node (getting the data from the message attributes by the parentJsonpath)
-	arrayData := []byte{}
+	arrayJson := [][]byte{}
 	arrayDataTemp := []byte{}
 
 	err := errors.New("error")
@@ -1046,22 +1046,22 @@ func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error)
 			arrayDataTemp, err = jsonslice.Get(*message.RequestJsonRaw, parentJsonpath)
 		}
 		if err == nil {
-			if len(arrayData) == 0 {
-				arrayData = append([]byte{}, arrayDataTemp...) // a copy. appending to the result of the query changes the message itself
-			} else {
-				if len(arrayDataTemp) != 0 {
-					arrayData = append(arrayData, ',')
-					arrayData = append(arrayData, arrayDataTemp...)
-				}
+			elements, errElements := getElementsOfParent(arrayDataTemp)
+			if errElements != nil {
+				return [][]byte{}, errElements
 			}
+			arrayJson = append(arrayJson, elements...)
 		}
 	}
 
 	if err != nil {
 		return [][]byte{}, err
 	}
+	return arrayJson, nil
+}
 
-	arrayData, err = getArrayFromArrayOfArrays(arrayData)
+func getElementsOfParent(arrayData []byte) ([][]byte, error) {
+	arrayData, err := getArrayFromArrayOfArrays(arrayData)
 	if err != nil {
 		return [][]byte{}, err
 	}
-- 
2.43.0


From cc90d7f687cf384f1ce70b69447b45f092701128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:50:54 +0000
Subject: [PATCH 30/32] fix: look up every parent path of an ANY/ALL list in
 its own document

For parsed documents the first path of the list decided whether all paths
were looked up in the current element or in the whole document. Lists that
mix both kinds gave other elements than for raw documents.
---
 MAPL_engine/check.go | 48 +++++++++++++-------------------------------
 1 file changed, 14 insertions(+), 34 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 652c591..45287e4 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -941,50 +941,30 @@ func compareRegexFunc(value1 string, method string, value2 *regexp.Regexp) bool
 func getArrayOfInterfaces(a AnyAllNode, message *MessageAttributes) ([]interface{}, error) {
 	// used in eval of ANY/ALL node (getting the data from the message raw interface attributes by the parentJsonpath)
 
-	var arrayDataInterface interface{}
-	err := errors.New("error")
-	parentJsonpath := a.GetParentJsonpathAttribute()
-	if strings.HasPrefix(parentJsonpath, "$RELATIVE.") || parentJsonpath == "$RELATIVE*" || strings.HasPrefix(parentJsonpath, "$KEY.") || strings.HasPrefix(parentJsonpath, "$VALUE.") { // to-do: create a flag once when parsing!
-
-		if message.RequestRawInterfaceRelative == nil {
+	returnArray := []interface{}{}
+	preparedJsonpathQueries := a.GetPreparedJsonpathQuery()
+	for i, parentJsonpath := range a.GetParentJsonpathAttributeArray() {
+		rawInterface := message.RequestRawInterface
+		if strings.HasPrefix(parentJsonpath, "$RELATIVE.") || parentJsonpath == "$RELATIVE*" || strings.HasPrefix(parentJsonpath, "$KEY.") || strings.HasPrefix(parentJsonpath, "$VALUE.") { // to-do: create a flag once when parsing!
+			rawInterface = message.RequestRawInterfaceRelative
+		}
+		if rawInterface == nil {
 			return []interface{}{}, errors.New("no data")
 		}
 		if parentJsonpath == "$RELATIVE*" {
-			var temp []interface{}
-			xx := (*message).RequestRawInterfaceRelative
-			yy, _ := (*xx).(map[string]interface{}) // no elements if it is not a map
+			yy, _ := (*rawInterface).(map[string]interface{}) // no elements if it is not a map
 			for k, v := range yy {
 				zz := make(map[string]interface{}, 1)
 				zz[k] = v
-				temp = append(temp, zz)
+				returnArray = append(returnArray, zz)
 			}
-			return temp, nil
+			continue
 		}
 
-		returnArray := []interface{}{}
-		for _, jsonpathQueryFunc := range a.GetPreparedJsonpathQuery() {
-			arrayDataInterface, err = jsonpathQueryFunc(*message.RequestRawInterfaceRelative)
-			a := ArrangeArrayInterface(arrayDataInterface)
-			for _, aa := range a {
-				returnArray = append(returnArray, aa)
-			}
-		}
-		return returnArray, nil
-	} else {
-		returnArray := []interface{}{}
-		for _, jsonpathQueryFunc := range a.GetPreparedJsonpathQuery() {
-			arrayDataInterface, err = jsonpathQueryFunc(*message.RequestRawInterface)
-			a := ArrangeArrayInterface(arrayDataInterface)
-			for _, aa := range a {
-				returnArray = append(returnArray, aa)
-			}
-		}
-		return returnArray, nil
-	}
-	if arrayDataInterface != nil {
-		return ArrangeArrayInterface(arrayDataInterface), nil
+		arrayDataInterface, _ := preparedJsonpathQueries[i](*rawInterface)
+		returnArray = append(returnArray, ArrangeArrayInterface(arrayDataInterface)...)
 	}
-	return []interface{}{}, err
+	return returnArray, nil
 }
 
 func ArrangeArrayInterface(arrayDataInterface interface{}) []interface{} {
-- 
2.43.0


From 3b62af0ec989c81c58bf893405bd3af58aa6f9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:08:49 +0000
Subject: [PATCH 31/32] fix: compare strings of raw documents without their
 escapes, null counts as empty

---
 MAPL_engine/check.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 45287e4..d14b073 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -559,6 +559,10 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 	}
 
 	valueToCompareString := string(valueToCompareBytes)
+	var text string
+	if json.Unmarshal(valueToCompareBytes, &text) == nil { // a string, to be compared without its escapes, or null which counts as empty
+		valueToCompareString = text
+	}
 	if len(valueToCompareString) == 0 {
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
@@ -798,7 +802,10 @@ func getKeyValue(jsonRaw []byte, attribute string) ([]byte, error) {
 		return []byte{}, err
 	}
 	if attribute == "$KEY" {
-		valueToCompareBytes = []byte(keys[0])
+		valueToCompareBytes, err = json.Marshal(keys[0])
+		if err != nil {
+			return []byte{}, err
+		}
 	} else {
 		z2, err := json.Marshal(z[keys[0]])
 		if err != nil {
-- 
2.43.0


From a1e0212e38857aeabd40ad2b0dd20525a04c36be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:08:49 +0000
Subject: [PATCH 32/32] fix: prepare comparisons with receiver labels whose key
 is no valid expression

---
 MAPL_engine/rules_load.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index 0d03dd4..0f3d968 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -383,6 +383,9 @@ func ConvertConditionStringToIntFloatRegex(condition *Condition) error { // TO-D
 	if condition.AttributeIsJsonpath || condition.AttributeIsJsonpathRelative {
 		return nil
 	}
+	if condition.AttributeIsSenderLabel && condition.ValueIsReceiverLabel { // compared as texts, the key of the label is no regex
+		return nil
+	}
 	if flagError {
 		return fmt.Errorf("condition.Value could not be converted to regex")
 	}
-- 
2.43.0

