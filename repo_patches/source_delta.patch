From 788f43ef2b3096751388119716d1dcf16f66b1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 01/49] fix: hashtree built from an empty block list no longer
 panics

---
 domain/hashtree/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/hashtree/block.go b/domain/hashtree/block.go
index 0d7bde0..2716326 100644
--- a/domain/hashtree/block.go
+++ b/domain/hashtree/block.go
@@ -13,7 +13,7 @@ type block struct {
 
 func createBlockFromData(data [][]byte) (Block, error) {
 
-	if len(data) <= 1 {
+	for len(data) <= 1 {
 		data = append(data, []byte(""))
 	}
 
-- 
2.43.0


From 1ef3cb2aebe191957d69a4bdec83946b2086d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 02/49] fix: hashtree Order keeps every block when blocks
 repeat or are empty

---
 domain/hashtree/hashtree.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/domain/hashtree/hashtree.go b/domain/hashtree/hashtree.go
index e47aede..3f25991 100644
--- a/domain/hashtree/hashtree.go
+++ b/domain/hashtree/hashtree.go
@@ -62,7 +62,7 @@ func (obj *hashtree) Compact() Compact {
 // Order orders data that matches the leafs of the HashTree
 func (obj *hashtree) Order(data [][]byte) ([][]byte, error) {
 	hashAdapter := hash.NewAdapter()
-	hashed := map[string][]byte{}
+	hashed := map[string][][]byte{}
 	for _, oneData := range data {
 		hsh, err := hashAdapter.FromBytes(oneData)
 		if err != nil {
@@ -70,15 +70,16 @@ func (obj *hashtree) Order(data [][]byte) ([][]byte, error) {
 		}
 
 		hashAsString := hsh.String()
-		hashed[hashAsString] = oneData
+		hashed[hashAsString] = append(hashed[hashAsString], oneData)
 	}
 
 	out := [][]byte{}
 	leaves := obj.parentLeaf.BlockLeaves().Leaves()
 	for _, oneLeaf := range leaves {
 		leafHashAsString := oneLeaf.Head().String()
-		if oneData, ok := hashed[leafHashAsString]; ok {
-			out = append(out, oneData)
+		if remaining := hashed[leafHashAsString]; len(remaining) > 0 {
+			out = append(out, remaining[0])
+			hashed[leafHashAsString] = remaining[1:]
 			continue
 		}
 
-- 
2.43.0


From ec4f18fcd629f4298f545993505394fcba791372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 03/49] fix: building a hashtree no longer overwrites the
 caller's block slice

---
 domain/hashtree/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/hashtree/block.go b/domain/hashtree/block.go
index 2716326..a52cfb4 100644
--- a/domain/hashtree/block.go
+++ b/domain/hashtree/block.go
@@ -14,7 +14,7 @@ type block struct {
 func createBlockFromData(data [][]byte) (Block, error) {
 
 	for len(data) <= 1 {
-		data = append(data, []byte(""))
+		data = append(data[:len(data):len(data)], []byte(""))
 	}
 
 	hashes := []hash.Hash{}
-- 
2.43.0


From feaad33b445fd212a2a929609ff570cbb37e9674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 04/49] fix: unit contents with different amounts and nonces no
 longer share a hash

---
 domain/genesis/sdk.go                 | 3 +++
 domain/genesis/unitcontent_builder.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/domain/genesis/sdk.go b/domain/genesis/sdk.go
index aec270e..c655c95 100644
--- a/domain/genesis/sdk.go
+++ b/domain/genesis/sdk.go
@@ -7,6 +7,9 @@ import (
 	"github.com/steve-care-software/steve/domain/rings"
 )
 
+// hashDelimiter separates the variable-length fields that are hashed together
+const hashDelimiter = "|"
+
 // NewBuilder creates a new builder
 func NewBuilder() Builder {
 	hashAdapter := hash.NewAdapter()
diff --git a/domain/genesis/unitcontent_builder.go b/domain/genesis/unitcontent_builder.go
index 94f38ae..c11e8a8 100644
--- a/domain/genesis/unitcontent_builder.go
+++ b/domain/genesis/unitcontent_builder.go
@@ -85,8 +85,11 @@ func (app *unitContentBuilder) Now() (UnitContent, error) {
 
 	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
 		[]byte(strconv.Itoa(int(app.amount))),
+		[]byte(hashDelimiter),
 		[]byte(app.nonce),
+		[]byte(hashDelimiter),
 		[]byte(strconv.Itoa(int(app.activatedOn.UTC().UnixNano()))),
+		[]byte(hashDelimiter),
 		[]byte(strconv.Itoa(int(app.createdOn.UTC().UnixNano()))),
 	})
 
-- 
2.43.0


From 20346cb356d2a1aa613f80ca57e9a463f95656e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 05/49] fix: transaction secrets with different data no longer
 share a hash

---
 domain/transactions/secrets/sdk.go            | 9 +++++++++
 domain/transactions/secrets/secret_builder.go | 7 +++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/domain/transactions/secrets/sdk.go b/domain/transactions/secrets/sdk.go
index 230c9b2..210bc4a 100644
--- a/domain/transactions/secrets/sdk.go
+++ b/domain/transactions/secrets/sdk.go
@@ -5,6 +5,15 @@ import (
 	"github.com/steve-care-software/steve/domain/transactions"
 )
 
+// hashDelimiter separates the variable-length fields that are hashed together
+const hashDelimiter = "|"
+
+// hashOriginPrefix announces the origin in the hashed data
+const hashOriginPrefix = "o"
+
+// hashSidesPrefix announces the sides in the hashed data
+const hashSidesPrefix = "s"
+
 // NewBuilder creates a new builder instance
 func NewBuilder() Builder {
 	hashAdapter := hash.NewAdapter()
diff --git a/domain/transactions/secrets/secret_builder.go b/domain/transactions/secrets/secret_builder.go
index 2066e88..f886339 100644
--- a/domain/transactions/secrets/secret_builder.go
+++ b/domain/transactions/secrets/secret_builder.go
@@ -84,15 +84,18 @@ func (app *secretBuilder) Now() (Secret, error) {
 	data := [][]byte{
 		app.public.Hash().Bytes(),
 		[]byte(strconv.Itoa(int(app.amount))),
+		[]byte(hashDelimiter),
+		[]byte(strconv.Itoa(len(app.nonce))),
+		[]byte(hashDelimiter),
 		[]byte(app.nonce),
 	}
 
 	if app.origin != nil {
-		data = append(data, app.origin.Hash().Bytes())
+		data = append(data, []byte(hashOriginPrefix), app.origin.Hash().Bytes())
 	}
 
 	if app.sides != nil {
-		data = append(data, app.sides.Hash().Bytes())
+		data = append(data, []byte(hashSidesPrefix), app.sides.Hash().Bytes())
 	}
 
 	hash, err := app.hashAdapter.FromMultiBytes(data)
-- 
2.43.0


From 074c5d6123c6dfda42985e9d882ef43b71778e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 06/49] fix: the hash of receipts and private transactions
 depends on their content

---
 domain/receipts/builder.go                      | 6 +++++-
 domain/transactions/privates/private_builder.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/domain/receipts/builder.go b/domain/receipts/builder.go
index 75ce327..2128fcc 100644
--- a/domain/receipts/builder.go
+++ b/domain/receipts/builder.go
@@ -53,7 +53,11 @@ func (app *builder) Now() (Receipt, error) {
 		return nil, errors.New("the signature is mandatory in order to build a Receipt instance")
 	}
 
-	hash, err := app.hashAdapter.FromMultiBytes([][]byte{})
+	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
+		app.secret.Hash().Bytes(),
+		[]byte(app.sig.String()),
+	})
+
 	if err != nil {
 		return nil, err
 	}
diff --git a/domain/transactions/privates/private_builder.go b/domain/transactions/privates/private_builder.go
index 910ce8b..75000fa 100644
--- a/domain/transactions/privates/private_builder.go
+++ b/domain/transactions/privates/private_builder.go
@@ -53,7 +53,11 @@ func (app *privateBuilder) Now() (Private, error) {
 		return nil, errors.New("the receipt is mandatory in order to build a Private instance")
 	}
 
-	hash, err := app.hashAdapter.FromMultiBytes([][]byte{})
+	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
+		[]byte(app.pk.String()),
+		app.receipt.Hash().Bytes(),
+	})
+
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From fd2ea20c24ed5f13b59c64979630611033b553ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 07/49] fix: export the units builder, without which no genesis
 can be built

---
 domain/genesis/sdk.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/domain/genesis/sdk.go b/domain/genesis/sdk.go
index c655c95..c8693c5 100644
--- a/domain/genesis/sdk.go
+++ b/domain/genesis/sdk.go
@@ -16,6 +16,12 @@ func NewBuilder() Builder {
 	return createBuilder(hashAdapter)
 }
 
+// NewUnitsBuilder creates a new units builder
+func NewUnitsBuilder() UnitsBuilder {
+	hashAdapter := hash.NewAdapter()
+	return createUnitsBuilder(hashAdapter)
+}
+
 // NewUnitBuilder creates a new unit builder
 func NewUnitBuilder() UnitBuilder {
 	hashAdapter := hash.NewAdapter()
-- 
2.43.0


From 90b23ff57845689ab741c444749cc98cf20e2e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 08/49] fix: a peer string with a negative port is refused
 instead of wrapping around

---
 domain/peers/peer_builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/peers/peer_builder.go b/domain/peers/peer_builder.go
index 78b1c4c..e27016d 100644
--- a/domain/peers/peer_builder.go
+++ b/domain/peers/peer_builder.go
@@ -61,12 +61,12 @@ func (app *peerBuilder) Now() (Peer, error) {
 			return nil, errors.New(str)
 		}
 
-		portInt, err := strconv.Atoi(sections[1])
+		portUint, err := strconv.ParseUint(sections[1], 10, strconv.IntSize)
 		if err != nil {
 			return nil, err
 		}
 
-		port := uint(portInt)
+		port := uint(portUint)
 		app.port = &port
 		app.host = sections[0]
 	}
-- 
2.43.0


From 3fc14a29fd77fffad1918b5340fbeac6136758f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 09/49] fix: cardinalities with negative numbers or a maximum
 below the minimum are refused

---
 domain/languages/lexers/cardinality/range_builder.go   | 10 ++++++++++
 .../languages/lexers/cardinality/specific_adapter.go   |  6 +++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/domain/languages/lexers/cardinality/range_builder.go b/domain/languages/lexers/cardinality/range_builder.go
index 2d7beaf..4e3b9c8 100644
--- a/domain/languages/lexers/cardinality/range_builder.go
+++ b/domain/languages/lexers/cardinality/range_builder.go
@@ -1,5 +1,10 @@
 package cardinality
 
+import (
+	"errors"
+	"fmt"
+)
+
 type rangeBuilder struct {
 	min uint
 	max *uint
@@ -34,6 +39,11 @@ func (app *rangeBuilder) WithMaximum(max uint) RangeBuilder {
 // Now builds a new Range instance
 func (app *rangeBuilder) Now() (Range, error) {
 	if app.max != nil {
+		if *app.max < app.min {
+			str := fmt.Sprintf("the maximum (%d) cannot be smaller than the minimum (%d) in order to build a Range instance", *app.max, app.min)
+			return nil, errors.New(str)
+		}
+
 		return createRangeWithMaximum(app.min, app.max), nil
 	}
 
diff --git a/domain/languages/lexers/cardinality/specific_adapter.go b/domain/languages/lexers/cardinality/specific_adapter.go
index 05e6421..1c96bdd 100644
--- a/domain/languages/lexers/cardinality/specific_adapter.go
+++ b/domain/languages/lexers/cardinality/specific_adapter.go
@@ -49,7 +49,7 @@ func (app *specificAdapter) ToSpecific(content string) (Specific, error) {
 	builder := app.specificBuilder.Create()
 	sections := strings.Split(trimmedContent, app.rangeSeparator)
 	if len(sections) == 1 {
-		amount, err := strconv.Atoi(sections[0])
+		amount, err := strconv.ParseUint(sections[0], 10, strconv.IntSize)
 		if err != nil {
 			return nil, err
 		}
@@ -58,7 +58,7 @@ func (app *specificAdapter) ToSpecific(content string) (Specific, error) {
 	}
 
 	if len(sections) == 2 {
-		min, err := strconv.Atoi(sections[0])
+		min, err := strconv.ParseUint(sections[0], 10, strconv.IntSize)
 		if err != nil {
 			return nil, err
 		}
@@ -66,7 +66,7 @@ func (app *specificAdapter) ToSpecific(content string) (Specific, error) {
 		rangeBuilder := app.rangeBuilder.Create().WithMinimum(uint(min))
 		trimmedSection := strings.TrimSpace(sections[1])
 		if trimmedSection != "" {
-			max, err := strconv.Atoi(trimmedSection)
+			max, err := strconv.ParseUint(trimmedSection, 10, strconv.IntSize)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From a08492f17bef4d40c08cfb7071d383d8872e1c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 10/49] fix: writing the pattern of a mandatory cardinality no
 longer panics

---
 domain/languages/lexers/cardinality/adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domain/languages/lexers/cardinality/adapter.go b/domain/languages/lexers/cardinality/adapter.go
index 896bfe5..22d1853 100644
--- a/domain/languages/lexers/cardinality/adapter.go
+++ b/domain/languages/lexers/cardinality/adapter.go
@@ -68,6 +68,11 @@ func (app *adapter) ToPatternString(cardinality Cardinality) (string, error) {
 		return app.multipleCharacter, nil
 	}
 
+	if cardinality.IsMandatory() {
+		_, amount := cardinality.Delimiter()
+		return app.specificAdapter.ToPatternString(createSpecificWithAmount(amount))
+	}
+
 	specific := cardinality.Specific()
 	return app.specificAdapter.ToPatternString(specific)
 }
-- 
2.43.0


From e1ffb457390ab9a3910cf1bcbdf1c75a69bb27b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 11/49] fix: the remaining content of a matched group starts
 after the match

---
 domain/languages/lexers/containers/patterns/adapter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index 4058980..9a48d6b 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -131,8 +131,9 @@ func (app *adapter) FromGroupToResult(group Group, content string) (Result, erro
 		}
 
 		builder := app.resultBuilder.Create().WithDiscoveries(discoveries).WithInput(content)
-		if matchedAmount < uint(len(content)) {
-			builder.WithRemaining(content[matchedAmount:])
+		endIndex := i + int(matchedAmount)
+		if endIndex < len(content) {
+			builder.WithRemaining(content[endIndex:])
 		}
 
 		ins, err := builder.Now()
-- 
2.43.0


From 0107bb0d98c64ae9f41b7e0dd62a69e23ff6e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:26 +0000
Subject: [PATCH 12/49] fix: a reversed serie without a match keeps the
 remaining content

---
 domain/languages/lexers/containers/patterns/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index 9a48d6b..99d844f 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -312,7 +312,7 @@ func (app *adapter) matchReversedSerie(serie Serie, content string, index uint)
 	}
 
 	if amount <= 0 {
-		return false, nil, nil, "", nil
+		return false, nil, nil, content, nil
 	}
 
 	container, err := app.containerBuilder.Create().WithReverse(serie).Now()
-- 
2.43.0


From e09ce81195a0ec2fcc63de20f375e6cc01944f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 13/49] fix: a rule that is neither a constant nor a pattern is
 refused instead of panicking

---
 domain/languages/lexers/containers/rules/adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domain/languages/lexers/containers/rules/adapter.go b/domain/languages/lexers/containers/rules/adapter.go
index a270047..4c18bca 100644
--- a/domain/languages/lexers/containers/rules/adapter.go
+++ b/domain/languages/lexers/containers/rules/adapter.go
@@ -182,6 +182,11 @@ func (app *adapter) pattern(ruleName string, content string, ptrns patterns.Patt
 
 	pattern := regexp.MustCompile(patternStr)
 	matches := pattern.FindStringSubmatch(content)
+	if matches == nil {
+		str := fmt.Sprintf("the rule (name: %s) contains neither a constant nor patterns: '%s'", ruleName, content)
+		return nil, errors.New(str)
+	}
+
 	cardinalityContent := strings.Replace(content, matches[0], "", 1)
 	cardinality, err := app.cardinalityAdapter.ToCardinality(cardinalityContent)
 	if err != nil {
-- 
2.43.0


From 8ad1b57f47e85c89855858d3890b0fd342f677a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 14/49] fix: the number sign is no longer mistaken for an
 escaped quotation mark

---
 domain/languages/lexers/containers/patterns/sdk.go | 2 +-
 domain/languages/lexers/containers/rules/sdk.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/sdk.go b/domain/languages/lexers/containers/patterns/sdk.go
index 0972d4e..1e25847 100644
--- a/domain/languages/lexers/containers/patterns/sdk.go
+++ b/domain/languages/lexers/containers/patterns/sdk.go
@@ -23,7 +23,7 @@ func NewAdapter() Adapter {
 	stringDelimiter := "\""
 	whiteSpacePattern := "[ \t\r\n]*"
 	anythingExcept := "[^%s]*"
-	escapeReplacementCode := "###"
+	escapeReplacementCode := "\x00"
 	return createAdapter(
 		builder,
 		patternBuilder,
diff --git a/domain/languages/lexers/containers/rules/sdk.go b/domain/languages/lexers/containers/rules/sdk.go
index edd76e7..db1d9a7 100644
--- a/domain/languages/lexers/containers/rules/sdk.go
+++ b/domain/languages/lexers/containers/rules/sdk.go
@@ -28,7 +28,7 @@ func NewAdapter() Adapter {
 	contentDelimiter := "\""
 	openRegexPatternDelimiter := "\\["
 	closeRegexPatternDelimiter := "\\]"
-	escapeReplacementCode := "###"
+	escapeReplacementCode := "\x00"
 	return createAdapter(
 		builder,
 		ruleBuilder,
-- 
2.43.0


From 6aa6617d2c7abba560f236cce1cb03890d5d0180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:40 +0000
Subject: [PATCH 15/49] fix: a channel switch written after an element is no
 longer dropped

---
 .../lexers/containers/tokens/adapter.go         | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/domain/languages/lexers/containers/tokens/adapter.go b/domain/languages/lexers/containers/tokens/adapter.go
index 88da9ad..34db112 100644
--- a/domain/languages/lexers/containers/tokens/adapter.go
+++ b/domain/languages/lexers/containers/tokens/adapter.go
@@ -413,15 +413,6 @@ func (app *adapter) instructions(content string) ([]Instruction, error) {
 		ruleMatches := oneMatch[index:]
 
 		instructionBuilder := app.instructionBuilder.Create()
-		if oneMatch[0] == app.switchChannelCharacter {
-			ins, err := instructionBuilder.IsChannelSwitch().Now()
-			if err != nil {
-				return nil, err
-			}
-
-			out = append(out, ins)
-		}
-
 		if tokenMatches[0] != "" {
 			tokenElement, err := app.tokenElement(tokenMatches)
 			if err != nil {
@@ -450,6 +441,14 @@ func (app *adapter) instructions(content string) ([]Instruction, error) {
 			out = append(out, ins)
 		}
 
+		if strings.HasSuffix(oneMatch[0], app.switchChannelCharacter) {
+			ins, err := app.instructionBuilder.Create().IsChannelSwitch().Now()
+			if err != nil {
+				return nil, err
+			}
+
+			out = append(out, ins)
+		}
 	}
 
 	return out, nil
-- 
2.43.0


From df55e3b5b53851d8ebe1a7bcb836094a7226387f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 16/49] fix: specifiers may be separated by white space from
 the cardinality before them

---
 domain/languages/lexers/containers/tokens/adapter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/containers/tokens/adapter.go b/domain/languages/lexers/containers/tokens/adapter.go
index 34db112..c3a0cb0 100644
--- a/domain/languages/lexers/containers/tokens/adapter.go
+++ b/domain/languages/lexers/containers/tokens/adapter.go
@@ -376,8 +376,9 @@ func (app *adapter) instructions(content string) ([]Instruction, error) {
 	)
 
 	elementSuffixPattern := fmt.Sprintf(
-		"(%s)?(%s)?",
+		"(%s)?%s(%s)?",
 		cardinalityPattern,
+		app.whiteSpacePattern,
 		subElementPattern,
 	)
 
-- 
2.43.0


From e33bcdfc407208319a7b21ad16a5c9c20f0078a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 17/49] fix: an include with a single path is refused instead
 of panicking

---
 domain/languages/lexers/references/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/references/adapter.go b/domain/languages/lexers/references/adapter.go
index b7c9417..18f03c1 100644
--- a/domain/languages/lexers/references/adapter.go
+++ b/domain/languages/lexers/references/adapter.go
@@ -108,7 +108,7 @@ func (app *adapter) includes(content string) (map[string]links.Include, error) {
 		pathStrings := strings.Split(oneMatch[2], app.pathSeparator)
 		amount := len(pathStrings)
 		name := oneMatch[1]
-		if amount > 3 {
+		if amount < 2 || amount > 3 {
 			str := fmt.Sprintf("the include (name: %s) must contain {2,3} (rules, tokens, channels (optional)) paths, %d paths provided", name, amount)
 			return nil, errors.New(str)
 		}
-- 
2.43.0


From 04eac6aa88de5602cc584e6d271b7095a9e5e172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 18/49] fix: an optional element missing at the end of the
 script does not end its line

---
 domain/languages/lexers/asts/tokens/adapter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 0def7c4..2548439 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -332,6 +332,10 @@ func (app *adapter) lineToMatches(line paths.Line, dependencies paths.Dependenci
 		}
 
 		if match == nil {
+			if currentContainer.Cardinality().IsValid(0) {
+				continue
+			}
+
 			break
 		}
 
-- 
2.43.0


From 3f2513de49521aecdbbf68da539bbf07f0ec8f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 19/49] fix: a repeated rule stops where its next occurrence
 does not follow

---
 domain/languages/lexers/asts/tokens/adapter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 2548439..aaf794e 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -751,6 +751,10 @@ func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAre
 			break
 		}
 
+		if len(list) > 0 && res.Matches().List()[0].Discoveries().Index() > 0 {
+			break
+		}
+
 		list = append(list, res)
 		content := res.Content()
 
-- 
2.43.0


From b7f0194a3917e49d8bb88f11185e1a61db04d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 20/49] fix: a token whose own line is invalid is not valid
 because its forbidden line is absent

---
 domain/languages/lexers/asts/tokens/tokencontent.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/tokencontent.go b/domain/languages/lexers/asts/tokens/tokencontent.go
index 509136e..025dd92 100644
--- a/domain/languages/lexers/asts/tokens/tokencontent.go
+++ b/domain/languages/lexers/asts/tokens/tokencontent.go
@@ -32,8 +32,8 @@ func createTokenContentInternally(
 
 // IsValid returns true if the token is valid, false otherwise
 func (obj *tokenContent) IsValid() bool {
-	if obj.HasNot() {
-		return !obj.Not().Matches().IsValid()
+	if obj.HasNot() && obj.Not().Matches().IsValid() {
+		return false
 	}
 
 	return obj.must.Matches().IsValid()
-- 
2.43.0


From fff5e793692f3ece714100b583ce77d95fff9b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 21/49] fix: a line that fails keeps the matches read before
 its mistake

---
 domain/languages/lexers/asts/tokens/adapter.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index aaf794e..f7e43a2 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -341,10 +341,7 @@ func (app *adapter) lineToMatches(line paths.Line, dependencies paths.Dependenci
 
 		// if the match is invalid:
 		if !match.IsValid() {
-			matches = []BlockMatch{
-				match,
-			}
-
+			matches = append(matches, match)
 			break
 		}
 
-- 
2.43.0


From 54cb7158e8742e3df6d7d636540bb292852314be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 22/49] fix: a mistake is reported on the line that was read
 the farthest

---
 domain/languages/lexers/asts/tokens/adapter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index f7e43a2..9b63d8b 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -271,6 +271,7 @@ func (app *adapter) bestLineToMatches(lines []paths.Line, dependencies paths.Dep
 			if amount > biggestAmountOfInvalidMatches {
 				invalidMatches = matches
 				invalidMatchIndex = index
+				biggestAmountOfInvalidMatches = amount
 			}
 
 			continue
-- 
2.43.0


From eeeb99219dd08bc9cdaf5c37e6a19cd7cdda8c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 23/49] fix: mistakes after the first result of a repeated rule
 count

---
 domain/languages/lexers/asts/mistakes/adapter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/mistakes/adapter.go b/domain/languages/lexers/asts/mistakes/adapter.go
index b537823..aea8f6a 100644
--- a/domain/languages/lexers/asts/mistakes/adapter.go
+++ b/domain/languages/lexers/asts/mistakes/adapter.go
@@ -351,7 +351,9 @@ func (app *adapter) ruleMatch(parentTokenNames []string, ruleMatch tokens.RuleMa
 				return nil, err
 			}
 
-			return mistake, nil
+			if mistake != nil {
+				return mistake, nil
+			}
 		}
 	}
 
-- 
2.43.0


From 22b438217d6ef5135b950387921d4d94c2f0d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 24/49] fix: a forbidden prefix is located before the content
 found after it

---
 domain/languages/lexers/asts/mistakes/adapter.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/domain/languages/lexers/asts/mistakes/adapter.go b/domain/languages/lexers/asts/mistakes/adapter.go
index aea8f6a..bbb9d46 100644
--- a/domain/languages/lexers/asts/mistakes/adapter.go
+++ b/domain/languages/lexers/asts/mistakes/adapter.go
@@ -386,11 +386,6 @@ func (app *adapter) patternResults(parentTokenNames []string, ruleName string, r
 }
 
 func (app *adapter) patternResult(parentTokenNames []string, ruleName string, match patterns.Result, canContainPrefix bool) (Mistake, error) {
-	app.currentScript = strings.Join([]string{
-		app.currentScript,
-		match.Discoveries().Content(),
-	}, "")
-
 	index := match.Discoveries().Index()
 	if !canContainPrefix && index > 0 {
 		input := match.Input()
@@ -412,6 +407,11 @@ func (app *adapter) patternResult(parentTokenNames []string, ruleName string, ma
 		)
 	}
 
+	app.currentScript = strings.Join([]string{
+		app.currentScript,
+		match.Discoveries().Content(),
+	}, "")
+
 	return nil, nil
 }
 
-- 
2.43.0


From 2e78204b0ae2730dd4c26d7217fa8be4d9c55d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 25/49] fix: the location of a mistake in a nested token counts
 the script read before it

---
 domain/languages/lexers/asts/mistakes/adapter.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/domain/languages/lexers/asts/mistakes/adapter.go b/domain/languages/lexers/asts/mistakes/adapter.go
index bbb9d46..1a6c7a6 100644
--- a/domain/languages/lexers/asts/mistakes/adapter.go
+++ b/domain/languages/lexers/asts/mistakes/adapter.go
@@ -64,12 +64,13 @@ func (app *adapter) token(parentTokenNames []string, result tokens.Token, canCon
 	}
 
 	// verify if there is not matches:
+	script := app.currentScript
 	name := result.Name()
 	content := result.Content()
 	dependencies := result.Path().Dependencies()
 	if content.HasNot() {
 		not := content.Not()
-		notMistake, err := app.lineMatchAndResetCurrentScript(parentTokenNames, name, not, dependencies, canContainPrefix)
+		notMistake, err := app.lineMatchAndResetCurrentScript(script, parentTokenNames, name, not, dependencies, canContainPrefix)
 		if err != nil {
 			return nil, err
 		}
@@ -96,7 +97,7 @@ func (app *adapter) token(parentTokenNames []string, result tokens.Token, canCon
 	}
 
 	must := content.Must()
-	out, err := app.lineMatchAndResetCurrentScript(parentTokenNames, name, must, dependencies, canContainPrefix)
+	out, err := app.lineMatchAndResetCurrentScript(script, parentTokenNames, name, must, dependencies, canContainPrefix)
 	if err != nil {
 		return nil, err
 	}
@@ -119,8 +120,8 @@ func (app *adapter) rootTokenNotFound(parentTokenNames []string, result tokens.T
 	return app.buildMistakeFromPath(pathContainer, "", content)
 }
 
-func (app *adapter) lineMatchAndResetCurrentScript(parentTokenNames []string, tokenName string, lineMatch tokens.LineMatch, dependencies paths.Dependencies, canContainPrefix bool) (Mistake, error) {
-	app.currentScript = ""
+func (app *adapter) lineMatchAndResetCurrentScript(script string, parentTokenNames []string, tokenName string, lineMatch tokens.LineMatch, dependencies paths.Dependencies, canContainPrefix bool) (Mistake, error) {
+	app.currentScript = script
 	return app.lineMatch(parentTokenNames, tokenName, lineMatch, dependencies, canContainPrefix)
 }
 
-- 
2.43.0


From 4518a83dcf1c19c39ad0185a09c0b50634f9b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:09 +0000
Subject: [PATCH 26/49] fix: channels are tried in the order of their names,
 not in a random one

---
 domain/languages/lexers/asts/tokens/adapter.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 9b63d8b..50e9c79 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -3,6 +3,7 @@ package tokens
 import (
 	"errors"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/steve-care-software/steve/domain/languages/lexers/asts/paths"
@@ -297,7 +298,14 @@ func (app *adapter) bestLineToMatches(lines []paths.Line, dependencies paths.Dep
 }
 
 func (app *adapter) findMatchesInChannels(script string) (LineMatch, error) {
-	for _, oneChannel := range app.channels {
+	names := []string{}
+	for oneName := range app.channels {
+		names = append(names, oneName)
+	}
+
+	sort.Strings(names)
+	for _, oneName := range names {
+		oneChannel := app.channels[oneName]
 		token, err := app.elementToToken(oneChannel.Element(), oneChannel.Dependencies(), script, false)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From d2b70dc0703ce80f95ab48c09a773cd891c66f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:37 +0000
Subject: [PATCH 27/49] fix: the element expected after the end of a script is
 found in left recursive tokens

---
 .../languages/lexers/asts/tokens/adapter.go   | 55 ++++++++++++++-----
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 50e9c79..bcb8691 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -429,39 +429,64 @@ func (app *adapter) buildNextElement(container paths.Container, dep paths.Depend
 }
 
 func (app *adapter) buildNextElementFromTokenName(name string, dep paths.Dependencies) (NextElement, error) {
-	rule, err := app.fetchFirstRuleFromTokenName(name, dep)
+	rule, err := app.fetchFirstRuleFromTokenName(name, dep, map[string]bool{})
 	if err != nil {
 		return nil, err
 	}
 
+	if rule == nil {
+		str := fmt.Sprintf("the token (name: %s) never begins with a rule", name)
+		return nil, errors.New(str)
+	}
+
 	return app.buildNextElementFromRule(rule)
 }
 
-func (app *adapter) fetchFirstRuleFromTokenName(name string, dep paths.Dependencies) (rules.Rule, error) {
+// fetchFirstRuleFromTokenName returns the first rule of the first line that begins with one, nil if there is none
+func (app *adapter) fetchFirstRuleFromTokenName(name string, dep paths.Dependencies, visited map[string]bool) (rules.Rule, error) {
+	if visited[name] {
+		return nil, nil
+	}
+
+	visited[name] = true
 	tokenPath, err := dep.Fetch(name)
 	if err != nil {
 		return nil, err
 	}
 
 	mustLines := tokenPath.Must()
-	firstContainer, err := app.fetchFirstContainerFromLine(mustLines[0])
-	if err != nil {
-		return nil, err
-	}
+	for _, oneLine := range mustLines {
+		firstContainer, err := app.fetchFirstContainerFromLine(oneLine)
+		if err != nil {
+			return nil, err
+		}
 
-	if firstContainer.IsToken() {
-		nextToken := firstContainer.Token().Path().Element().Name()
-		return app.fetchFirstRuleFromTokenName(nextToken, dep)
-	}
+		if firstContainer.IsRule() {
+			return firstContainer.Rule().Base(), nil
+		}
 
-	if firstContainer.IsRule() {
-		return firstContainer.Rule().Base(), nil
-	}
+		firstTokenName := ""
+		if firstContainer.IsToken() {
+			firstTokenName = firstContainer.Token().Path().Element().Name()
+		}
+
+		if firstContainer.IsRecursive() {
+			firstTokenName = firstContainer.Recursive().Name()
+		}
+
+		rule, err := app.fetchFirstRuleFromTokenName(firstTokenName, dep, visited)
+		if err != nil {
+			return nil, err
+		}
 
-	recursiveToken := firstContainer.Recursive().Name()
-	return app.fetchFirstRuleFromTokenName(recursiveToken, dep)
+		if rule != nil {
+			return rule, nil
+		}
+	}
 
+	return nil, nil
 }
+
 func (app *adapter) fetchFirstContainerFromLine(line paths.Line) (paths.Container, error) {
 	instructions := line.Instructions()
 	for _, oneInstruction := range instructions {
-- 
2.43.0


From 2fbb48afc65ab91ebf9301d02d8491e6bcc42575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 28/49] fix: a token with several left recursive lines no
 longer recurses without end

---
 domain/languages/lexers/asts/tokens/adapter.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index bcb8691..6629c1d 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -37,6 +37,12 @@ type adapter struct {
 	canContainPrefix          bool
 	canContainSuffix          bool
 	recursiveTokens           map[string]string
+	currentTokens             map[recursiveKey]bool
+}
+
+type recursiveKey struct {
+	name   string
+	script string
 }
 
 func createAdapterWithChannels(
@@ -192,6 +198,7 @@ func createAdapterInternally(
 		canContainPrefix:          canContainPrefix,
 		canContainSuffix:          canContainSuffix,
 		recursiveTokens:           map[string]string{},
+		currentTokens:             map[recursiveKey]bool{},
 	}
 
 	return &out
@@ -200,6 +207,7 @@ func createAdapterInternally(
 // ToToken converts a script to a Token instance
 func (app *adapter) ToToken(script string) (Token, error) {
 	app.recursiveTokens = map[string]string{}
+	app.currentTokens = map[recursiveKey]bool{}
 	return app.elementToToken(app.rootPath.Element(), app.rootPath.Dependencies(), script, true)
 }
 
@@ -614,6 +622,15 @@ func (app *adapter) containerToMatch(container paths.Container, dependencies pat
 			}
 		}
 
+		// the token is already being matched at the same location:
+		key := recursiveKey{name: name, script: script}
+		if app.currentTokens[key] {
+			return nil, nil
+		}
+
+		app.currentTokens[key] = true
+		defer delete(app.currentTokens, key)
+
 		app.recursiveTokens[name] = script
 		element, err := dependencies.Fetch(name)
 		if err != nil {
-- 
2.43.0


From 6a1195e402794f6ab08296dc8cdf14f3cf8ad2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:47 +0000
Subject: [PATCH 29/49] fix: a rule made of a pattern respects the minimum of
 its cardinality

---
 domain/languages/lexers/asts/results/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/results/adapter.go b/domain/languages/lexers/asts/results/adapter.go
index bbcf8b7..5e4003e 100644
--- a/domain/languages/lexers/asts/results/adapter.go
+++ b/domain/languages/lexers/asts/results/adapter.go
@@ -80,7 +80,7 @@ func (app *adapter) ToResult(input rules.Rule, script string) (Result, error) {
 			remaining = remaining[amount:]
 		}
 
-		if len(list) > 0 {
+		if len(list) > 0 && cardinality.IsValid(uint(len(list))) {
 			builder.WithMatches(list)
 		}
 
-- 
2.43.0


From e66f6fa3eab95740b7cdf004afc2619f73aa1246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:35 +0000
Subject: [PATCH 30/49] fix: the result of a rule in an AST keeps its input,
 prefix and suffix, not slices of the code of the rule

---
 domain/languages/lexers/asts/adapter.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/domain/languages/lexers/asts/adapter.go b/domain/languages/lexers/asts/adapter.go
index 4e86616..745c067 100644
--- a/domain/languages/lexers/asts/adapter.go
+++ b/domain/languages/lexers/asts/adapter.go
@@ -225,8 +225,7 @@ func (app *adapter) tokenMatch(tokenMatch ast_tokens.TokenMatch) (TokenMatch, er
 func (app *adapter) ruleMatch(ruleMatch ast_tokens.RuleMatch) (RuleMatch, error) {
 	name := ruleMatch.Rule().Base().Name()
 	astResult := ruleMatch.Result().Result()
-	input := ruleMatch.Result().Path().Base().Code()
-	result, err := app.ruleResult(name, astResult, input)
+	result, err := app.ruleResult(name, astResult)
 	if err != nil {
 		return nil, err
 	}
@@ -238,11 +237,13 @@ func (app *adapter) ruleMatch(ruleMatch ast_tokens.RuleMatch) (RuleMatch, error)
 	return app.ruleMatchBuilder.Create().WithRule(name).WithResult(result).Now()
 }
 
-func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result, input string) (Result, error) {
+func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result) (Result, error) {
 	if !ruleResult.HasResults() {
 		return nil, nil
 	}
 
+	input := ""
+	isFirst := true
 	firstIndex := uint(0)
 	results := ruleResult.Results()
 	discoveriesContent := ruleResult.Discoveries()
@@ -253,12 +254,14 @@ func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result, input
 		}
 
 		matches := oneResult.Matches().List()
-		for idx, oneMatch := range matches {
+		for _, oneMatch := range matches {
 			oneDiscoveries := oneMatch.Discoveries()
 			discoveriesList = append(discoveriesList, oneDiscoveries.All()...)
 
-			if idx <= 0 {
-				firstIndex = oneMatch.Discoveries().Index()
+			if isFirst {
+				input = oneMatch.Input()
+				firstIndex = oneDiscoveries.Index()
+				isFirst = false
 			}
 		}
 	}
@@ -280,7 +283,7 @@ func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result, input
 	inputLength := uint(len(input))
 	contentWithPrefixLength := firstIndex + uint(len(discoveriesContent))
 	if contentWithPrefixLength < inputLength {
-		builder.WithSuffix(input[:contentWithPrefixLength])
+		builder.WithSuffix(input[contentWithPrefixLength:])
 	}
 
 	return builder.Now()
-- 
2.43.0


From bb2580687f93e73855d0f384aa5498d392bd8bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 31/49] fix: included files are read with the patterns of the
 file that includes them

---
 applications/languages/lexers/application.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index 76a54b8..d3459c4 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -400,8 +400,9 @@ func (app *application) fetchNotFoundPaths(
 	}
 
 	refList := references.References().All()
+	patterns := resContainer.Patterns()
 	for _, oneReference := range refList {
-		path, err := app.linkToPathFromFile(oneReference, replacementPaths)
+		path, err := app.linkToPathFromFile(oneReference, patterns, replacementPaths)
 		if err != nil {
 			return nil, err
 		}
@@ -415,6 +416,7 @@ func (app *application) fetchNotFoundPaths(
 
 func (app *application) linkToPathFromFile(
 	reference links.Link,
+	patterns string,
 	replacements map[string]asts_paths.Path,
 ) (asts_paths.Path, error) {
 	applicationBuilder := app.builder.Create()
@@ -440,7 +442,7 @@ func (app *application) linkToPathFromFile(
 		return nil, err
 	}
 
-	resContainer, err := app.resourcesContainerBuilder.Create().WithRules(string(rulesContent)).WithTokens(string(tokenContent)).Now()
+	resContainer, err := app.resourcesContainerBuilder.Create().WithPatterns(patterns).WithRules(string(rulesContent)).WithTokens(string(tokenContent)).Now()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 14c87ac35c9bcc2b2e6fe3f818860cb0ec7dff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 32/49] fix: replacements of one resource no longer apply to
 the resources read afterwards

---
 applications/languages/lexers/application.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index d3459c4..bd3e1fe 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -369,6 +369,12 @@ func (app *application) fetchReplacementPaths(
 		return replacementPaths, nil
 	}
 
+	// the paths given are shared with other calls and applications, so work on a copy:
+	output := map[string]asts_paths.Path{}
+	for name, path := range replacementPaths {
+		output[name] = path
+	}
+
 	repList := references.Replacements().All()
 	for _, oneReplacement := range repList {
 		localTokenName := oneReplacement.LocalToken()
@@ -377,16 +383,16 @@ func (app *application) fetchReplacementPaths(
 			return nil, err
 		}
 
-		refPath, err := app.path(resPath, replacementPaths, true)
+		refPath, err := app.path(resPath, output, true)
 		if err != nil {
 			return nil, err
 		}
 
 		refTokenName := oneReplacement.ReferenceToken()
-		replacementPaths[refTokenName] = refPath
+		output[refTokenName] = refPath
 	}
 
-	return replacementPaths, nil
+	return output, nil
 }
 
 func (app *application) fetchNotFoundPaths(
-- 
2.43.0


From 97b04679bbe5f9787cc49dabe1b79c83833872e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 33/49] fix: scanning nodes finds the nearest element, whatever
 the order of the map

---
 domain/languages/lexers/roots/nodes.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/roots/nodes.go b/domain/languages/lexers/roots/nodes.go
index 3c89ec2..9c9c1ed 100644
--- a/domain/languages/lexers/roots/nodes.go
+++ b/domain/languages/lexers/roots/nodes.go
@@ -3,6 +3,7 @@ package roots
 import (
 	"errors"
 	"fmt"
+	"sort"
 )
 
 type nodes struct {
@@ -41,7 +42,18 @@ func (obj *nodes) Fetch(name string) (Node, error) {
 
 // Scan scans the node
 func (obj *nodes) Scan(name string) (Root, Node, Container, string, error) {
-	for _, node := range obj.list {
+	if node, ok := obj.list[name]; ok {
+		return nil, node, nil, "", nil
+	}
+
+	names := []string{}
+	for name := range obj.list {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+	for _, oneName := range names {
+		node := obj.list[oneName]
 		root, subNode, container, content, err := node.Scan(name)
 		if err != nil {
 			continue
-- 
2.43.0


From 05b14315d8a831b91785407da6a434fa0b9bef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 34/49] fix: tokens that read the same text no longer share one
 root

---
 domain/languages/lexers/roots/adapter.go | 43 ++----------------------
 1 file changed, 3 insertions(+), 40 deletions(-)

diff --git a/domain/languages/lexers/roots/adapter.go b/domain/languages/lexers/roots/adapter.go
index 8482f37..02ed56b 100644
--- a/domain/languages/lexers/roots/adapter.go
+++ b/domain/languages/lexers/roots/adapter.go
@@ -10,7 +10,6 @@ type adapter struct {
 	nodeBuilder       NodeBuilder
 	containersBuilder ContainersBuilder
 	containerBuilder  ContainerBuilder
-	tokenRoots        map[string]Root
 }
 
 func createAdapter(
@@ -26,19 +25,13 @@ func createAdapter(
 		nodeBuilder:       nodeBuilder,
 		containersBuilder: containersBuilder,
 		containerBuilder:  containerBuilder,
-		tokenRoots:        nil,
 	}
 
 	return &out
 }
 
-func (app *adapter) init() {
-	app.tokenRoots = map[string]Root{}
-}
-
 // ToRoot converts a root token to an instance
 func (app *adapter) ToRoot(token asts.Token) (Root, error) {
-	app.init()
 	return app.toRoot(token)
 }
 
@@ -48,23 +41,8 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 		return nil, nil
 	}
 
-	// enter the sub tokens:
-	matches := lineMatch.Matches()
-	for _, oneMatch := range matches {
-		if !oneMatch.IsToken() {
-			continue
-		}
-
-		tokens := oneMatch.Token().Matches()
-		for _, oneToken := range tokens {
-			_, err := app.toRoot(oneToken)
-			if err != nil {
-				return nil, err
-			}
-		}
-	}
-
 	// create the containers map:
+	matches := lineMatch.Matches()
 	containersMap := map[string][]Container{}
 	for _, oneMatch := range matches {
 		if oneMatch.IsToken() {
@@ -72,7 +50,7 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 			tokenName := tokenMatch.Token()
 			matchTokens := tokenMatch.Matches()
 			for _, oneMatchToken := range matchTokens {
-				root, err := app.toRootWithCache(oneMatchToken)
+				root, err := app.toRoot(oneMatchToken)
 				if err != nil {
 					return nil, err
 				}
@@ -122,20 +100,5 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 
 	name := token.Name()
 	content := token.Discovery()
-	ins, err := app.builder.Create().WithNodes(nodes).WithName(name).WithContent(content).Now()
-	if err != nil {
-		return nil, err
-	}
-
-	app.tokenRoots[content] = ins
-	return ins, nil
-}
-
-func (app *adapter) toRootWithCache(token asts.Token) (Root, error) {
-	content := token.Discovery()
-	if ref, ok := app.tokenRoots[content]; ok {
-		return ref, nil
-	}
-
-	return app.toRoot(token)
+	return app.builder.Create().WithNodes(nodes).WithName(name).WithContent(content).Now()
 }
-- 
2.43.0


From ca1d1895f9088a444e095284c8223c4c83f737b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 35/49] fix: variable declarations cannot be built from an
 empty list

---
 .../scripts/base/parsers/variabledeclarations_builder.go        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/scripts/base/parsers/variabledeclarations_builder.go b/domain/languages/scripts/base/parsers/variabledeclarations_builder.go
index 2f27638..4ae6466 100644
--- a/domain/languages/scripts/base/parsers/variabledeclarations_builder.go
+++ b/domain/languages/scripts/base/parsers/variabledeclarations_builder.go
@@ -27,7 +27,7 @@ func (app *variableDeclarationsBuilder) WithDeclarations(declarations []Variable
 
 // Now builds a new VariableDeclarations instance
 func (app *variableDeclarationsBuilder) Now() (VariableDeclarations, error) {
-	if app.list == nil && len(app.list) <= 0 {
+	if app.list != nil && len(app.list) <= 0 {
 		app.list = nil
 	}
 
-- 
2.43.0


From 7d8ba2208d73d9b0e1c4728bbda29a169ca52a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 36/49] fix: scalars followed by other bytes are refused

---
 domain/cryptography/keys/signature/helper.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/domain/cryptography/keys/signature/helper.go b/domain/cryptography/keys/signature/helper.go
index 8de7896..c0ce8b2 100644
--- a/domain/cryptography/keys/signature/helper.go
+++ b/domain/cryptography/keys/signature/helper.go
@@ -1,7 +1,6 @@
 package signature
 
 import (
-	"bytes"
 	"encoding/hex"
 
 	kyber "go.dedis.ch/kyber/v3"
@@ -26,8 +25,7 @@ func fromStringToScalar(str string) (kyber.Scalar, error) {
 	}
 
 	x := curve.Scalar()
-	reader := bytes.NewReader(decoded)
-	_, err := x.UnmarshalFrom(reader)
+	err := x.UnmarshalBinary(decoded)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From fee7923a57eb1a5f2783974aeaaf90bb97043138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 37/49] fix: a ring signature needs keys and as many scalars

---
 .../cryptography/keys/signature/ringsignature_adapter.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/domain/cryptography/keys/signature/ringsignature_adapter.go b/domain/cryptography/keys/signature/ringsignature_adapter.go
index bf3de64..436d05f 100644
--- a/domain/cryptography/keys/signature/ringsignature_adapter.go
+++ b/domain/cryptography/keys/signature/ringsignature_adapter.go
@@ -66,6 +66,15 @@ func (app *ringSignatureAdapter) ToSignature(sig string) (RingSignature, error)
 		s = append(s, scalar)
 	}
 
+	if len(ring) <= 0 {
+		return nil, errors.New("the ring signature was expected to contain at least 1 PublicKey")
+	}
+
+	if len(ring) != len(s) {
+		str := fmt.Sprintf("the ring signature was expected to contain as many scalars as PublicKeys (%d), %d found", len(ring), len(s))
+		return nil, errors.New(str)
+	}
+
 	e, err := fromStringToScalar(splitted[2])
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 0f682f904c30f747b9dba9e93282b1e0e28d2c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 38/49] fix: ring signatures no longer use or publish the
 secret number of another signature

---
 domain/cryptography/keys/signature/privatekey.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/domain/cryptography/keys/signature/privatekey.go b/domain/cryptography/keys/signature/privatekey.go
index 1546d25..2e5d131 100644
--- a/domain/cryptography/keys/signature/privatekey.go
+++ b/domain/cryptography/keys/signature/privatekey.go
@@ -45,8 +45,16 @@ func (app *privateKey) RingSign(msg string, ringPubKeys []PublicKey) (RingSignat
 		return nil, errors.New("the signer PublicKey is not in the ring")
 	}
 
+	// bind the generated numbers to this ring, so that they are used for no other signature:
+	ringStr := ""
+	for _, oneRingPubKey := range ringPubKeys {
+		ringStr = fmt.Sprintf("%s%s", ringStr, oneRingPubKey.String())
+	}
+
+	seed := genK(app.x, ringStr)
+
 	// generate k:
-	k := genK(app.x, msg)
+	k := genK(seed, fmt.Sprintf("%d%s%s", signerIndex, delimiter, msg))
 
 	// random base:
 	g := curve.Point().Base()
@@ -65,7 +73,7 @@ func (app *privateKey) RingSign(msg string, ringPubKeys []PublicKey) (RingSignat
 	// loop:
 	for i := beginIndex; i != signerIndex; i = (i + 1) % r {
 		// si = random value
-		ss[i] = genK(app.x, fmt.Sprintf("%s%d", msg, i))
+		ss[i] = genK(seed, fmt.Sprintf("%d%s%s", i, delimiter, msg))
 
 		//eiPlus1ModR = H(m || si * G + ei * Pi)
 		sig := curve.Point().Mul(ss[i], g)
-- 
2.43.0


From a3f79f99238173e1523d8e5426ab7ef9d4a6ac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:40 +0000
Subject: [PATCH 39/49] fix: a replacement applies to the tokens of the file it
 names, and to no other token of that name

---
 applications/languages/lexers/application.go | 50 ++++++++++----------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index bd3e1fe..cb0e299 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -135,7 +135,7 @@ func (app *application) AST(rootResource resources_singles.Single, content conte
 		return nil, err
 	}
 
-	notFoundFunc, replacementFunc, err := app.createNotFoundAndReplacementFuncs(container, references, app.replacementPaths, false)
+	notFoundFunc, replacementFunc, err := app.createNotFoundAndReplacementFuncs(container, references, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -159,10 +159,10 @@ func (app *application) AST(rootResource resources_singles.Single, content conte
 
 // Path executes the path resource and the content to produce the Path AST root
 func (app *application) Path(resource resources_paths.Path) (asts_paths.Path, error) {
-	return app.path(resource, app.replacementPaths, false)
+	return app.path(resource, nil)
 }
 
-func (app *application) path(resource resources_paths.Path, replacementPaths map[string]asts_paths.Path, skipReplacement bool) (asts_paths.Path, error) {
+func (app *application) path(resource resources_paths.Path, includeReplacementPaths map[string]map[string]asts_paths.Path) (asts_paths.Path, error) {
 	container := resource.Container()
 	patternsScript := container.Patterns()
 	rulesScript := container.Rules()
@@ -179,7 +179,7 @@ func (app *application) path(resource resources_paths.Path, replacementPaths map
 	}
 
 	pathAdapterBuilder := app.pathAdapterBuilder.Create().WithTokens(tokens)
-	notFoundFunc, replacementFunc, err := app.createNotFoundAndReplacementFuncs(container, references, replacementPaths, skipReplacement)
+	notFoundFunc, replacementFunc, err := app.createNotFoundAndReplacementFuncs(container, references, includeReplacementPaths)
 	if err != nil {
 		return nil, err
 	}
@@ -249,7 +249,7 @@ func (app *application) Tests(resource resources_multiples.Multiple) ([]suites.S
 		suiteApplicationBuilder.WithChannels(channels)
 	}
 
-	notFoundFunc, replacementFunc, err := app.createNotFoundAndReplacementFuncs(container, references, app.replacementPaths, false)
+	notFoundFunc, replacementFunc, err := app.createNotFoundAndReplacementFuncs(container, references, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -330,19 +330,18 @@ func (app *application) createTokens(patternsScript string, rulesScript string,
 func (app *application) createNotFoundAndReplacementFuncs(
 	resContainer resources_containers.Container,
 	references references.References,
-	replacementPaths map[string]asts_paths.Path,
-	skipReplacement bool,
+	includeReplacementPaths map[string]map[string]asts_paths.Path,
 ) (asts_paths.FetchTokenNotFoundFn, asts_paths.FetchElementReplacementFn, error) {
-	if !skipReplacement {
-		replacement, err := app.fetchReplacementPaths(references, resContainer, replacementPaths)
+	if includeReplacementPaths == nil {
+		replacements, err := app.fetchReplacementPaths(references, resContainer)
 		if err != nil {
 			return nil, nil, err
 		}
 
-		replacementPaths = replacement
+		includeReplacementPaths = replacements
 	}
 
-	notFoundPaths, err := app.fetchNotFoundPaths(references, resContainer, replacementPaths)
+	notFoundPaths, err := app.fetchNotFoundPaths(references, resContainer, includeReplacementPaths)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -353,26 +352,21 @@ func (app *application) createNotFoundAndReplacementFuncs(
 	}
 
 	var replacementFn asts_paths.FetchElementReplacementFn
-	if len(replacementPaths) > 0 {
-		replacementFn = app.returnFetchElementReplacementFn(replacementPaths)
+	if len(app.replacementPaths) > 0 {
+		replacementFn = app.returnFetchElementReplacementFn(app.replacementPaths)
 	}
 
 	return notFoundFn, replacementFn, nil
 }
 
+// fetchReplacementPaths returns the replacement paths of each include, by the name of the include
 func (app *application) fetchReplacementPaths(
 	references references.References,
 	resContainer resources_containers.Container,
-	replacementPaths map[string]asts_paths.Path,
-) (map[string]asts_paths.Path, error) {
+) (map[string]map[string]asts_paths.Path, error) {
+	output := map[string]map[string]asts_paths.Path{}
 	if !references.HasReplacements() {
-		return replacementPaths, nil
-	}
-
-	// the paths given are shared with other calls and applications, so work on a copy:
-	output := map[string]asts_paths.Path{}
-	for name, path := range replacementPaths {
-		output[name] = path
+		return output, nil
 	}
 
 	repList := references.Replacements().All()
@@ -383,13 +377,18 @@ func (app *application) fetchReplacementPaths(
 			return nil, err
 		}
 
-		refPath, err := app.path(resPath, output, true)
+		refPath, err := app.path(resPath, output)
 		if err != nil {
 			return nil, err
 		}
 
+		includeName := oneReplacement.Include().Name()
+		if _, ok := output[includeName]; !ok {
+			output[includeName] = map[string]asts_paths.Path{}
+		}
+
 		refTokenName := oneReplacement.ReferenceToken()
-		output[refTokenName] = refPath
+		output[includeName][refTokenName] = refPath
 	}
 
 	return output, nil
@@ -398,7 +397,7 @@ func (app *application) fetchReplacementPaths(
 func (app *application) fetchNotFoundPaths(
 	references references.References,
 	resContainer resources_containers.Container,
-	replacementPaths map[string]asts_paths.Path,
+	includeReplacementPaths map[string]map[string]asts_paths.Path,
 ) (map[string]asts_paths.Path, error) {
 	notFoundPaths := map[string]asts_paths.Path{}
 	if !references.HasReferences() {
@@ -408,6 +407,7 @@ func (app *application) fetchNotFoundPaths(
 	refList := references.References().All()
 	patterns := resContainer.Patterns()
 	for _, oneReference := range refList {
+		replacementPaths := includeReplacementPaths[oneReference.Include().Name()]
 		path, err := app.linkToPathFromFile(oneReference, patterns, replacementPaths)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 366b6bacb6af54ef6e90742de0c0f65bb22be719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:10 +0000
Subject: [PATCH 40/49] fix: an amount of discoveries is in range of a maximum
 above the largest int

---
 domain/languages/lexers/containers/patterns/discoveries.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/discoveries.go b/domain/languages/lexers/containers/patterns/discoveries.go
index a425206..c9a65cc 100644
--- a/domain/languages/lexers/containers/patterns/discoveries.go
+++ b/domain/languages/lexers/containers/patterns/discoveries.go
@@ -66,8 +66,8 @@ func (obj *discoveries) IsAmount(amount uint) bool {
 
 // IsInRange returns true if in range, false otherwise
 func (obj *discoveries) IsInRange(min uint, max uint) bool {
-	currentAmount := len(obj.list)
-	return obj.IsAtLeast(min) && int(max) >= currentAmount
+	currentAmount := obj.Amount()
+	return obj.IsAtLeast(min) && currentAmount <= max
 }
 
 // IsAtLeast returns true if the current amount is at least, false otherwise
-- 
2.43.0


From 076380637918bb8b9ae65d335e231d52c9601e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:10 +0000
Subject: [PATCH 41/49] fix: matches are in range when there are as many as the
 maximum

---
 domain/languages/lexers/asts/tokens/tokenresultmatches.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/tokens/tokenresultmatches.go b/domain/languages/lexers/asts/tokens/tokenresultmatches.go
index eb9f311..b0a2325 100644
--- a/domain/languages/lexers/asts/tokens/tokenresultmatches.go
+++ b/domain/languages/lexers/asts/tokens/tokenresultmatches.go
@@ -69,7 +69,7 @@ func (obj *tokenResultMatches) IsAmount(amount uint) bool {
 // IsInRange returns true if the amount of tokens is within the given range
 func (obj *tokenResultMatches) IsInRange(min uint, max uint) bool {
 	listAmount := len(obj.list)
-	return obj.IsAtLeast(min) && int(max) > listAmount
+	return obj.IsAtLeast(min) && max >= uint(listAmount)
 }
 
 // IsAtLeast returns true if there is at least this amount of tokens
-- 
2.43.0


From 9b711410a77c3f4543d5e9b2ef7ae8819a7f6d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:10 +0000
Subject: [PATCH 42/49] fix: the input of a block match with a next element is
 its prefix

---
 domain/languages/lexers/asts/tokens/blockmatch.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/blockmatch.go b/domain/languages/lexers/asts/tokens/blockmatch.go
index d48d6f7..a8e4b1a 100644
--- a/domain/languages/lexers/asts/tokens/blockmatch.go
+++ b/domain/languages/lexers/asts/tokens/blockmatch.go
@@ -47,10 +47,14 @@ func (obj *blockMatch) Input() string {
 		}, "")
 	}
 
-	return strings.Join([]string{
-		prefix,
-		content.Block().Input(),
-	}, "")
+	if content.IsBlock() {
+		return strings.Join([]string{
+			prefix,
+			content.Block().Input(),
+		}, "")
+	}
+
+	return prefix
 }
 
 // IsValid returns true if the blockMatch is valid, false otherwise
-- 
2.43.0


From 95fe85b61d6f8de3fe491eda398a2d9849bbcc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 43/49] fix: matches are at least a minimum above the largest
 int only when there are as many

---
 domain/languages/lexers/asts/tokens/tokenresultmatches.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/tokens/tokenresultmatches.go b/domain/languages/lexers/asts/tokens/tokenresultmatches.go
index b0a2325..5ffb489 100644
--- a/domain/languages/lexers/asts/tokens/tokenresultmatches.go
+++ b/domain/languages/lexers/asts/tokens/tokenresultmatches.go
@@ -75,5 +75,5 @@ func (obj *tokenResultMatches) IsInRange(min uint, max uint) bool {
 // IsAtLeast returns true if there is at least this amount of tokens
 func (obj *tokenResultMatches) IsAtLeast(min uint) bool {
 	listAmount := len(obj.list)
-	return int(min) <= listAmount
+	return min <= uint(listAmount)
 }
-- 
2.43.0


From 301eecc57025e899b9f87f47ce051a02196162f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:58 +0000
Subject: [PATCH 44/49] fix: a reversed serie may be empty, as in an empty
 comment

---
 domain/languages/lexers/containers/patterns/adapter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index 99d844f..dbe5ffd 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -199,9 +199,9 @@ func (app *adapter) matchPattern(pattern Pattern, content string, nextIndex uint
 	remaining := content
 	discoveriesList := []Discovery{}
 	choices := pattern.Content().List()
-	for idx, oneChoice := range choices {
+	for _, oneChoice := range choices {
 		currentIndex := uint(0)
-		if idx <= 0 {
+		if len(discoveriesList) <= 0 {
 			currentIndex = nextIndex
 		}
 
@@ -312,7 +312,7 @@ func (app *adapter) matchReversedSerie(serie Serie, content string, index uint)
 	}
 
 	if amount <= 0 {
-		return false, nil, nil, content, nil
+		return true, nil, nil, content, nil
 	}
 
 	container, err := app.containerBuilder.Create().WithReverse(serie).Now()
-- 
2.43.0


From e829e8ec81764c9f0f69e9cc4e281f7f03c19a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:58 +0000
Subject: [PATCH 45/49] fix: a value true or false that is assigned is a value,
 not a list of that name

---
 domain/languages/scripts/resources/base/tokens.alex | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/scripts/resources/base/tokens.alex b/domain/languages/scripts/resources/base/tokens.alex
index 733c4d5..3ee07cb 100644
--- a/domain/languages/scripts/resources/base/tokens.alex
+++ b/domain/languages/scripts/resources/base/tokens.alex
@@ -539,8 +539,8 @@ commaAssignable
     ;
 
 assignable
-    : totalListAssignable
-    | singleAssignable
+    : singleAssignable
+    | totalListAssignable
     +++
     :
         -456.543
-- 
2.43.0


From c506855bdebd903333a7cbc9d073bdf93c1fc926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:35 +0000
Subject: [PATCH 46/49] fix: an escaped quotation mark among other characters
 of a group option is one

---
 domain/languages/lexers/containers/patterns/adapter.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index dbe5ffd..578d987 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -494,12 +494,7 @@ func (app *adapter) findGroups(content string) (Groups, error) {
 		characters := []string{}
 		options := strings.Split(oneMatch[2], app.delimiter)
 		for _, oneOption := range options {
-
-			if oneOption == app.escapeReplacementCode {
-				oneOption = app.stringDelimiter
-			}
-
-			characters = append(characters, oneOption)
+			characters = append(characters, strings.Replace(oneOption, app.escapeReplacementCode, app.stringDelimiter, -1))
 		}
 
 		group, err := app.groupBuilder.Create().WithName(oneMatch[1]).WithList(characters).Now()
-- 
2.43.0


From 6c2bfd3a22864655d1c6b01b8ae908c99dc91b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:51 +0000
Subject: [PATCH 47/49] fix: a repeated rule after a prefix does not read the
 same text again

---
 domain/languages/lexers/asts/tokens/adapter.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 6629c1d..e47fc46 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -805,10 +805,12 @@ func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAre
 
 		list = append(list, res)
 		content := res.Content()
+		prefixLength := 0
 
 		if res.HasMatches() {
 			matches := res.Matches().List()
 			index := matches[0].Discoveries().Index()
+			prefixLength = int(index)
 			if index > 0 {
 				app.canContainPrefix = false
 			}
@@ -818,12 +820,12 @@ func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAre
 			}
 		}
 
-		contentLength := len(content)
-		if scriptLength <= contentLength {
+		consumed := prefixLength + len(content)
+		if scriptLength <= consumed {
 			break
 		}
 
-		remaining = remaining[contentLength:]
+		remaining = remaining[consumed:]
 		if pMax != nil && uint(len(list)) >= *pMax {
 			break
 		}
-- 
2.43.0


From 20791497c79ec1cbfd5c5d4e725e8a06d9a6d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:51 +0000
Subject: [PATCH 48/49] fix: a script that was read with a prefix does not make
 prefixes illegal in the next ones

---
 domain/languages/lexers/asts/tokens/adapter.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index e47fc46..109225a 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -36,6 +36,7 @@ type adapter struct {
 	channels                  map[string]paths.Path
 	canContainPrefix          bool
 	canContainSuffix          bool
+	isPrefixFound             bool
 	recursiveTokens           map[string]string
 	currentTokens             map[recursiveKey]bool
 }
@@ -208,6 +209,7 @@ func createAdapterInternally(
 func (app *adapter) ToToken(script string) (Token, error) {
 	app.recursiveTokens = map[string]string{}
 	app.currentTokens = map[recursiveKey]bool{}
+	app.isPrefixFound = false
 	return app.elementToToken(app.rootPath.Element(), app.rootPath.Dependencies(), script, true)
 }
 
@@ -787,7 +789,7 @@ func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAre
 	rule := rulePath.Base()
 	scriptLength := len(script)
 	list := []results.Result{}
-	canContainPrefix := app.canContainPrefix && chansAreActivated
+	canContainPrefix := app.canContainPrefix && !app.isPrefixFound && chansAreActivated
 	_, pMax := rulePath.Cardinality().Delimiter()
 	for {
 		res, err := app.resultAdapter.ToResult(rule, remaining)
@@ -812,7 +814,7 @@ func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAre
 			index := matches[0].Discoveries().Index()
 			prefixLength = int(index)
 			if index > 0 {
-				app.canContainPrefix = false
+				app.isPrefixFound = true
 			}
 
 			if index > 0 && !canContainPrefix {
@@ -842,7 +844,7 @@ func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAre
 	}
 
 	builder := app.ruleMatchBuilder.Create().WithRule(rulePath).WithResult(ruleMatchResult)
-	if app.canContainPrefix && chansAreActivated {
+	if app.canContainPrefix && !app.isPrefixFound && chansAreActivated {
 		builder.CanContainPrefix()
 		//app.canContainPrefix = false
 	}
-- 
2.43.0


From 994b4fb14a3e80cb3dfb408d7b70fb73825657e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:51 +0000
Subject: [PATCH 49/49] fix: text of a channel further in the script does not
 make a prefix illegal

---
 domain/languages/lexers/asts/tokens/adapter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 109225a..6db5de5 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -813,13 +813,13 @@ func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAre
 			matches := res.Matches().List()
 			index := matches[0].Discoveries().Index()
 			prefixLength = int(index)
-			if index > 0 {
-				app.isPrefixFound = true
-			}
-
 			if index > 0 && !canContainPrefix {
 				break
 			}
+
+			if index > 0 {
+				app.isPrefixFound = true
+			}
 		}
 
 		consumed := prefixLength + len(content)
-- 
2.43.0

