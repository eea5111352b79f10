From 64cbde1276622add18ba256d86f97fa5c232b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 01/10] fix: return the error of a failed next element instead
 of panicking on nil

Providing a character, word or phrase ignored the error of every element
after the first, so a text with a doubled or trailing space, or a storage
failure, ended in a nil pointer panic.
---
 internal/concrete/character/repository.go | 3 +++
 internal/concrete/phrase/repository.go    | 3 +++
 internal/concrete/word/repository.go      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/internal/concrete/character/repository.go b/internal/concrete/character/repository.go
index ec0a55a..6b9ec43 100644
--- a/internal/concrete/character/repository.go
+++ b/internal/concrete/character/repository.go
@@ -42,6 +42,9 @@ func (r *Repository) Provide(integer rune) (abstractCharacter.Aggregate, error)
 	for _, bitValue := range path[1:] {
 
 		characterElement, err = characterElement.ProvideNextElement(bitValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
diff --git a/internal/concrete/phrase/repository.go b/internal/concrete/phrase/repository.go
index 51584c9..33a9a2a 100644
--- a/internal/concrete/phrase/repository.go
+++ b/internal/concrete/phrase/repository.go
@@ -42,6 +42,9 @@ func (r *Repository) Provide(words string) (abstractPhrase.Aggregate, error) {
 	for _, wordValue := range path[1:] {
 
 		phraseElement, err = phraseElement.ProvideNextElement(wordValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
diff --git a/internal/concrete/word/repository.go b/internal/concrete/word/repository.go
index eb21950..316602f 100644
--- a/internal/concrete/word/repository.go
+++ b/internal/concrete/word/repository.go
@@ -46,6 +46,9 @@ func (r *Repository) Provide(word string) (abstractWord.Aggregate, error) {
 	for _, characterValue := range path[1:] {
 
 		wordElement, err = wordElement.ProvideNextElement(characterValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
-- 
2.43.0


From 54222bb7873a32c929ae43e5268d5b97b4c4eab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 02/10] fix: report the storage failures that reads and writes
 ignored

Extracting characters, words and phrases, providing the first element of a
character, looking for a common detail and navigating facts, stories and
remarks dropped an error and went on with an empty value, which ended in a
panic, a wrong answer or a detail stored twice.
---
 internal/concrete/character/aggragate.go |  3 +++
 internal/concrete/character/elements.go  |  3 +++
 internal/concrete/detail/factory.go      |  3 +++
 internal/concrete/fact/aggregate.go      | 15 +++++++++++++++
 internal/concrete/phrase/aggregate.go    |  3 +++
 internal/concrete/remark/aggregate.go    |  3 +++
 internal/concrete/word/aggregate.go      |  3 +++
 7 files changed, 33 insertions(+)

diff --git a/internal/concrete/character/aggragate.go b/internal/concrete/character/aggragate.go
index 0a3910e..c9f24ad 100644
--- a/internal/concrete/character/aggragate.go
+++ b/internal/concrete/character/aggragate.go
@@ -54,6 +54,9 @@ func (a Aggregate) Extract() (rune, error) {
 		}
 
 		characterElement, err = characterElement.GetPreviousElement()
+		if err != nil {
+			return 0, err
+		}
 
 		bitValue, err := characterElement.ExtractBitValue()
 		if err != nil {
diff --git a/internal/concrete/character/elements.go b/internal/concrete/character/elements.go
index d88350a..c346197 100644
--- a/internal/concrete/character/elements.go
+++ b/internal/concrete/character/elements.go
@@ -43,6 +43,9 @@ func (e *Elements) ProvideFirstElement(bitValue bool) (abstractCharacter.Element
 	}
 
 	character, err := e.characterFactory.ProvideHeadEntity(class, firstBit)
+	if err != nil {
+		return nil, err
+	}
 
 	return Element{
 		character:        character,
diff --git a/internal/concrete/detail/factory.go b/internal/concrete/detail/factory.go
index 7412678..d817690 100644
--- a/internal/concrete/detail/factory.go
+++ b/internal/concrete/detail/factory.go
@@ -31,6 +31,9 @@ func (f *Factory) ProvideEntity(
 	}
 
 	propertySourceDetails, err := propertyPhrase.GetSourceDetails()
+	if err != nil {
+		return nil, err
+	}
 
 	commonDetailIdentifiers := make([]uint, 0, 1)
 
diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index 798781f..b951c43 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -59,6 +59,9 @@ func (a Aggregate) GetFirstRemark() (uint, error) {
 func (a Aggregate) HasNextStory() (bool, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return false, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -71,6 +74,9 @@ func (a Aggregate) HasNextStory() (bool, error) {
 func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -106,6 +112,9 @@ func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 func (a Aggregate) HasParentStory() (bool, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return false, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -118,6 +127,9 @@ func (a Aggregate) HasParentStory() (bool, error) {
 func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -153,6 +165,9 @@ func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
diff --git a/internal/concrete/phrase/aggregate.go b/internal/concrete/phrase/aggregate.go
index 2c6519e..502e979 100644
--- a/internal/concrete/phrase/aggregate.go
+++ b/internal/concrete/phrase/aggregate.go
@@ -52,6 +52,9 @@ func (a Aggregate) Extract() (string, error) {
 		}
 
 		phraseElement, err = phraseElement.GetPreviousElement()
+		if err != nil {
+			return "", err
+		}
 
 		wordValue, err := phraseElement.ExtractWordValue()
 		if err != nil {
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 02cc0cc..a60b2cd 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -35,6 +35,9 @@ func (a Aggregate) GetNextRemark() (abstractRemark.Aggregate, error) {
 	}
 
 	nextRemark, err := a.remarkStorage.ReadEntityByPosition(nextRemarkIdentifier)
+	if err != nil {
+		return nil, err
+	}
 
 	class, err := a.classRepository.ProvideEntity()
 	if err != nil {
diff --git a/internal/concrete/word/aggregate.go b/internal/concrete/word/aggregate.go
index a10c393..c46929d 100644
--- a/internal/concrete/word/aggregate.go
+++ b/internal/concrete/word/aggregate.go
@@ -34,6 +34,9 @@ func (a Aggregate) Extract() (string, error) {
 		}
 
 		wordElement, err = wordElement.GetPreviousElement()
+		if err != nil {
+			return "", err
+		}
 
 		characterValue, err := wordElement.ExtractCharacterValue()
 		if err != nil {
-- 
2.43.0


From 6389366ae11c458c1311172aa46a08312c1e6506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 03/10] fix: look for the word of a character at its word node

HasTargetWord read the links of the character node, which lead to longer
characters. Words were stored anew every time, and a word beginning with a
character that continues others ("0" after "a") could not be stored.
---
 internal/concrete/character/entity.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/concrete/character/entity.go b/internal/concrete/character/entity.go
index 3f415c8..5c08317 100644
--- a/internal/concrete/character/entity.go
+++ b/internal/concrete/character/entity.go
@@ -102,7 +102,7 @@ func (e Entity) MarkWord(sourceIdentifier uint) error {
 
 func (e Entity) HasTargetWord() (bool, error) {
 
-	targets, err := e.storage.ReadTargets(e.character)
+	targets, err := e.storage.ReadTargets(e.word)
 	if err != nil {
 		return false, err
 	}
@@ -113,7 +113,7 @@ func (e Entity) HasTargetWord() (bool, error) {
 	case 1:
 		return true, nil
 	default:
-		return false, fmt.Errorf("character has wrong number of target words: %d at %d", len(targets), e.character)
+		return false, fmt.Errorf("character has wrong number of target words: %d at %d", len(targets), e.word)
 	}
 }
 
-- 
2.43.0


From 9223e36833d1bd4e92533ce0a71e23a7235d9f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 04/10] fix: link a new detail to its phrases only when it is
 complete

The phrases led to the detail before its references were set. A crash or
a storage failure in between left a detail that every later write of the
same object and property used, and that no remark could be read through.
---
 internal/concrete/detail/storage.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/concrete/detail/storage.go b/internal/concrete/detail/storage.go
index 9928fa8..4153363 100644
--- a/internal/concrete/detail/storage.go
+++ b/internal/concrete/detail/storage.go
@@ -35,27 +35,27 @@ func (s *Storage) CreateEntity(
 		return nil, err
 	}
 
-	err = objectPhrase.AddTargetDetail(phrase)
+	remark, err := s.storage.Create()
 	if err != nil {
 		return nil, err
 	}
 
-	err = propertyPhrase.AddSourceDetail(phrase)
+	err = s.storage.SetReference(class, phrase)
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := s.storage.Create()
+	err = s.storage.SetReference(phrase, remark)
 	if err != nil {
 		return nil, err
 	}
 
-	err = s.storage.SetReference(class, phrase)
+	err = objectPhrase.AddTargetDetail(phrase)
 	if err != nil {
 		return nil, err
 	}
 
-	err = s.storage.SetReference(phrase, remark)
+	err = propertyPhrase.AddSourceDetail(phrase)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3ad66e3c964ed7dbde6af391c2e271f223266bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 05/10] fix: complete the class nodes after an interrupted
 first use

The first node stood for all eight. A crash or a storage failure while
they were being created left a storage on which no write could succeed
any more, or on which other nodes took the place of the missing ones.
---
 internal/concrete/class/repository.go | 133 +++++---------------------
 1 file changed, 26 insertions(+), 107 deletions(-)

diff --git a/internal/concrete/class/repository.go b/internal/concrete/class/repository.go
index 5222321..0f9c0a0 100644
--- a/internal/concrete/class/repository.go
+++ b/internal/concrete/class/repository.go
@@ -37,117 +37,36 @@ func (r *Repository) ProvideEntity() (class.Entity, error) {
 
 	if !r.isInitialized {
 
-		hasFirstNode, err := r.storage.Has(1)
+		hasLastNode, err := r.storage.Has(storyIdentifier)
 		if err != nil {
 			return Entity{}, err
 		}
 
-		if !hasFirstNode {
-			result, err := r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != bitIdentifier {
-				return Entity{}, fmt.Errorf("wrong bit class node %d", result)
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != characterIdentifier {
-				return Entity{}, fmt.Errorf("wrong character class node %d", result)
-			}
-
-			err = r.storage.SetReference(bitIdentifier, characterIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != wordIdentifier {
-				return Entity{}, fmt.Errorf("wrong word class node %d", result)
-			}
-
-			err = r.storage.SetReference(characterIdentifier, wordIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != phraseIdentifier {
-				return Entity{}, fmt.Errorf("wrong phrase class node %d", result)
-			}
-
-			err = r.storage.SetReference(wordIdentifier, phraseIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != detailIdentifier {
-				return Entity{}, fmt.Errorf("wrong detail class node %d", result)
-			}
-
-			err = r.storage.SetReference(phraseIdentifier, detailIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != remarkIdentifier {
-				return Entity{}, fmt.Errorf("wrong position class node %d", result)
-			}
-
-			err = r.storage.SetReference(detailIdentifier, remarkIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != factIdentifier {
-				return Entity{}, fmt.Errorf("wrong fact class node %d", result)
-			}
-
-			err = r.storage.SetReference(remarkIdentifier, factIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != storyIdentifier {
-				return Entity{}, fmt.Errorf("wrong story class node %d", result)
-			}
-
-			err = r.storage.SetReference(factIdentifier, storyIdentifier)
-			if err != nil {
-				return Entity{}, err
+		if !hasLastNode {
+			// a part of the nodes may be there if the first attempt was interrupted
+			for identifier := bitIdentifier; identifier <= storyIdentifier; identifier++ {
+				hasNode, err := r.storage.Has(identifier)
+				if err != nil {
+					return Entity{}, err
+				}
+
+				if !hasNode {
+					result, err := r.storage.Create()
+					if err != nil {
+						return Entity{}, err
+					}
+
+					if result != identifier {
+						return Entity{}, fmt.Errorf("wrong class node %d", result)
+					}
+				}
+
+				if identifier != bitIdentifier {
+					err = r.storage.SetReference(identifier-1, identifier)
+					if err != nil {
+						return Entity{}, err
+					}
+				}
 			}
 		}
 
-- 
2.43.0


From 587ab3e4b79214b58553cc153a68d8055bea01cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 06/10] fix: complete the two bits after an interrupted first
 use

One bit node without the other made every later write fail. Two bit nodes
whose characters were not there yet were taken for complete: both bits
became node 0, and texts were read back as other texts.
---
 internal/concrete/bit/layer.go | 141 ++++++++++++---------------------
 1 file changed, 49 insertions(+), 92 deletions(-)

diff --git a/internal/concrete/bit/layer.go b/internal/concrete/bit/layer.go
index 0022055..9106272 100644
--- a/internal/concrete/bit/layer.go
+++ b/internal/concrete/bit/layer.go
@@ -35,113 +35,70 @@ func (l *layer) initialize() (Entity, Entity, error) {
 			return Entity{}, Entity{}, err
 		}
 
-		switch len(classIdentifiers) {
-		case 0:
-			var classIdentifiers [2]uint
-			var zeroClassIdentifier uint
-			var oneClassIdentifier uint
-
-			classIdentifiers[0], err = classEntity.CreateBit()
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
-
-			classIdentifiers[1], err = classEntity.CreateBit()
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
-
-			if classIdentifiers[0] < classIdentifiers[1] {
-				zeroClassIdentifier = classIdentifiers[0]
-				oneClassIdentifier = classIdentifiers[1]
-			} else {
-				zeroClassIdentifier = classIdentifiers[1]
-				oneClassIdentifier = classIdentifiers[0]
-			}
-
-			// zero
-
-			zeroCharacterIdentifier, err := l.storage.Create()
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
-
-			err = l.storage.SetReference(zeroClassIdentifier, zeroCharacterIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
-
-			l.zeroEntity = Entity{
-				value:     false,
-				class:     zeroClassIdentifier,
-				character: zeroCharacterIdentifier,
-				storage:   l.storage,
-			}
-
-			// one
+		if len(classIdentifiers) > 2 {
+			return Entity{}, Entity{}, fmt.Errorf("wrong number of bit nodes in class %d", len(classIdentifiers))
+		}
 
-			oneCharacterIdentifier, err := l.storage.Create()
+		// a part of the nodes may be there if the first attempt was interrupted
+		for len(classIdentifiers) < 2 {
+			classIdentifier, err := classEntity.CreateBit()
 			if err != nil {
 				return Entity{}, Entity{}, err
 			}
 
-			err = l.storage.SetReference(oneClassIdentifier, oneCharacterIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
+			classIdentifiers = append(classIdentifiers, classIdentifier)
+		}
 
-			l.oneEntity = Entity{
-				value:     true,
-				class:     oneClassIdentifier,
-				character: oneCharacterIdentifier,
-				storage:   l.storage,
-			}
+		zeroClassIdentifier := classIdentifiers[0]
+		oneClassIdentifier := classIdentifiers[1]
+		if zeroClassIdentifier > oneClassIdentifier {
+			zeroClassIdentifier, oneClassIdentifier = oneClassIdentifier, zeroClassIdentifier
+		}
 
-		case 2:
-			var zeroClassIdentifier uint
-			var oneClassIdentifier uint
+		zeroCharacterIdentifier, err := l.provideCharacterIdentifier(zeroClassIdentifier)
+		if err != nil {
+			return Entity{}, Entity{}, err
+		}
 
-			if classIdentifiers[0] < classIdentifiers[1] {
-				zeroClassIdentifier = classIdentifiers[0]
-				oneClassIdentifier = classIdentifiers[1]
-			} else {
-				zeroClassIdentifier = classIdentifiers[1]
-				oneClassIdentifier = classIdentifiers[0]
-			}
+		oneCharacterIdentifier, err := l.provideCharacterIdentifier(oneClassIdentifier)
+		if err != nil {
+			return Entity{}, Entity{}, err
+		}
 
-			// zero
+		l.zeroEntity = Entity{
+			value:     false,
+			class:     zeroClassIdentifier,
+			character: zeroCharacterIdentifier,
+			storage:   l.storage,
+		}
 
-			_, zeroCharacterIdentifier, err := l.storage.GetReference(zeroClassIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
+		l.oneEntity = Entity{
+			value:     true,
+			class:     oneClassIdentifier,
+			character: oneCharacterIdentifier,
+			storage:   l.storage,
+		}
 
-			l.zeroEntity = Entity{
-				value:     false,
-				class:     zeroClassIdentifier,
-				character: zeroCharacterIdentifier,
-				storage:   l.storage,
-			}
+		l.isInitialized = true
+	}
 
-			// one
+	return l.zeroEntity, l.oneEntity, nil
+}
 
-			_, oneCharacterIdentifier, err := l.storage.GetReference(oneClassIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
+func (l *layer) provideCharacterIdentifier(classIdentifier uint) (uint, error) {
+	_, characterIdentifier, err := l.storage.GetReference(classIdentifier)
+	if err != nil {
+		return 0, err
+	}
 
-			l.oneEntity = Entity{
-				value:     true,
-				class:     oneClassIdentifier,
-				character: oneCharacterIdentifier,
-				storage:   l.storage,
-			}
-		default:
-			return Entity{}, Entity{}, fmt.Errorf("wrong number of bit nodes in class %d", len(classIdentifiers))
-		}
+	if characterIdentifier != 0 {
+		return characterIdentifier, nil
+	}
 
-		l.isInitialized = true
+	characterIdentifier, err = l.storage.Create()
+	if err != nil {
+		return 0, err
 	}
 
-	return l.zeroEntity, l.oneEntity, nil
+	return characterIdentifier, l.storage.SetReference(classIdentifier, characterIdentifier)
 }
-- 
2.43.0


From 63974e8c799728d55ca69c90f5cc48f8ff631c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 07/10] fix: refuse to look up a remark under an identifier of
 something else

Any node with three references behind it was returned as a remark, which
could then be written to, corrupting what the node belonged to.
---
 internal/concrete/remark/repository.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/concrete/remark/repository.go b/internal/concrete/remark/repository.go
index 60cc3d3..4603531 100644
--- a/internal/concrete/remark/repository.go
+++ b/internal/concrete/remark/repository.go
@@ -1,6 +1,7 @@
 package remark
 
 import (
+	"fmt"
 	"github.com/mem-memov/semnet/internal/abstract"
 	abstractClass "github.com/mem-memov/semnet/internal/abstract/class"
 	abstractDetail "github.com/mem-memov/semnet/internal/abstract/detail"
@@ -94,6 +95,20 @@ func (r *Repository) GetRemark(remarkIdentifier uint) (abstractRemark.Aggregate,
 		return nil, err
 	}
 
+	class, err := r.classRepository.ProvideEntity()
+	if err != nil {
+		return nil, err
+	}
+
+	isRemark, err := class.IsRemark(remark.GetClass())
+	if err != nil {
+		return nil, err
+	}
+
+	if !isRemark {
+		return nil, fmt.Errorf("no remark at %d", remarkIdentifier)
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    r.remarkStorage,
-- 
2.43.0


From 8c9f36967fa973ac209c088b1df561ec4d181fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 08/10] fix: navigate from the fact a remark belongs to

Looking for the next fact or story started at the remark's own node
instead of the fact it points to, so it read what lies around node 0,
which is the same for every story.
---
 internal/concrete/remark/aggregate.go | 28 +++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index a60b2cd..371d56f 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -64,7 +64,12 @@ func (a Aggregate) GetNextRemark() (abstractRemark.Aggregate, error) {
 
 func (a Aggregate) HasNextFact() (bool, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return false, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return false, err
 	}
@@ -74,7 +79,12 @@ func (a Aggregate) HasNextFact() (bool, error) {
 
 func (a Aggregate) GetNextFact() (abstractRemark.Aggregate, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -142,7 +152,12 @@ func (a Aggregate) GetFirstFact() (abstractRemark.Aggregate, error) {
 
 func (a Aggregate) HasNextStory() (bool, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return false, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return false, err
 	}
@@ -152,7 +167,12 @@ func (a Aggregate) HasNextStory() (bool, error) {
 
 func (a Aggregate) GetNextStory() (abstractRemark.Aggregate, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b150a884dd1c01ed95b4140e0cbfa00adcab6cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 09/10] fix: append a new fact to the facts of its own story

AddFactToStory linked the new fact behind node 0 instead of the story's
last fact, took its story from there too, and never led from the fact to
its remark. Facts of different stories shared one list and the second
fact could not be read. The link that makes the fact visible is now the
last one, so that an interrupted write leaves no half of a fact.
---
 internal/abstract/fact/aggregate.go   |  3 +++
 internal/concrete/fact/aggregate.go   | 35 +++++++++++++++++++++++++++
 internal/concrete/fact/repository.go  | 12 ++++-----
 internal/concrete/remark/aggregate.go | 29 +++++++++++++++++++++-
 4 files changed, 72 insertions(+), 7 deletions(-)

diff --git a/internal/abstract/fact/aggregate.go b/internal/abstract/fact/aggregate.go
index 9b4cc0b..f7ad54c 100644
--- a/internal/abstract/fact/aggregate.go
+++ b/internal/abstract/fact/aggregate.go
@@ -2,10 +2,13 @@ package fact
 
 type Aggregate interface {
 	GetRemark() uint
+	GetPosition() uint
 	GetStory() uint
 	PointToRemark(remark uint) error
+	PointToPosition(position uint) error
 	HasNextFact() (bool, error)
 	ToNextFact() (Aggregate, error)
+	ToLastFact() (Aggregate, error)
 	GetFirstRemark() (uint, error)
 
 	HasNextStory() (bool, error)
diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index b951c43..9ef11d6 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -18,6 +18,11 @@ func (a Aggregate) GetRemark() uint {
 	return a.fact.GetRemark()
 }
 
+func (a Aggregate) GetPosition() uint {
+
+	return a.fact.GetPosition()
+}
+
 func (a Aggregate) GetStory() uint {
 
 	return a.fact.GetStory()
@@ -28,6 +33,11 @@ func (a Aggregate) PointToRemark(remark uint) error {
 	return a.fact.PointToRemark(remark)
 }
 
+func (a Aggregate) PointToPosition(position uint) error {
+
+	return a.fact.PointToPosition(position)
+}
+
 func (a Aggregate) HasNextFact() (bool, error) {
 
 	return a.fact.HasTargetFact()
@@ -47,10 +57,32 @@ func (a Aggregate) ToNextFact() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            nextFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
 
+func (a Aggregate) ToLastFact() (abstractFact.Aggregate, error) {
+
+	var lastFact abstractFact.Aggregate = a
+
+	for {
+		hasNextFact, err := lastFact.HasNextFact()
+		if err != nil {
+			return nil, err
+		}
+
+		if !hasNextFact {
+			return lastFact, nil
+		}
+
+		lastFact, err = lastFact.ToNextFact()
+		if err != nil {
+			return nil, err
+		}
+	}
+}
+
 func (a Aggregate) GetFirstRemark() (uint, error) {
 
 	return a.fact.GetFirstRemark()
@@ -105,6 +137,7 @@ func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            nextFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -158,6 +191,7 @@ func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            parentFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -186,6 +220,7 @@ func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            firstFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 5304dc9..fae9200 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -87,32 +87,32 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
-	story, err := r.storyRepository.FetchByFact(fact.GetStory())
+	storyIdentifier, err := fact.GetTargetStory()
 	if err != nil {
 		return nil, err
 	}
 
-	class, err := r.classRepository.ProvideEntity()
+	story, err := r.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
 		return nil, err
 	}
 
-	classIdentifier, err := class.CreateFact()
+	class, err := r.classRepository.ProvideEntity()
 	if err != nil {
 		return nil, err
 	}
 
-	nextFact, err := r.factStorage.CreateEntity(classIdentifier)
+	classIdentifier, err := class.CreateFact()
 	if err != nil {
 		return nil, err
 	}
 
-	err = nextFact.PointToStory(story.GetFact())
+	nextFact, err := r.factStorage.CreateEntity(classIdentifier)
 	if err != nil {
 		return nil, err
 	}
 
-	err = fact.PointToPosition(nextFact.GetPosition())
+	err = nextFact.PointToStory(story.GetFact())
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 371d56f..6f81e0d 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -317,7 +317,17 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 
 	// fact
 
-	nextFact, err := a.factRepository.CreateNextFact(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
+	if err != nil {
+		return nil, err
+	}
+
+	nextFact, err := a.factRepository.CreateNextFact(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -327,6 +337,23 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 		return nil, err
 	}
 
+	err = nextFact.PointToRemark(remark.GetFact())
+	if err != nil {
+		return nil, err
+	}
+
+	// the story leads to the new fact only when it is complete
+
+	lastFact, err := fact.ToLastFact()
+	if err != nil {
+		return nil, err
+	}
+
+	err = lastFact.PointToPosition(nextFact.GetPosition())
+	if err != nil {
+		return nil, err
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    a.remarkStorage,
-- 
2.43.0


From b70f02eb31199b1df44924c443e87f141d93fa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 10/10] fix: give a story all of its children in the order of
 creation

CreateChildStory took the parent from node 0 and never linked a child to
its siblings. Every child is now linked to its parent, a further child
behind the last one, and only after its fact and remark are complete.
---
 internal/abstract/fact/repository.go  |  2 +-
 internal/abstract/story/entity.go     |  1 +
 internal/concrete/fact/repository.go  | 76 ++++++++-------------------
 internal/concrete/remark/aggregate.go | 14 ++++-
 internal/concrete/story/entity.go     |  5 ++
 5 files changed, 41 insertions(+), 57 deletions(-)

diff --git a/internal/abstract/fact/repository.go b/internal/abstract/fact/repository.go
index cf82db6..27238aa 100644
--- a/internal/abstract/fact/repository.go
+++ b/internal/abstract/fact/repository.go
@@ -4,5 +4,5 @@ type Repository interface {
 	CreateFirstStoryFact() (Aggregate, error)
 	FetchByRemark(remarkIdentifier uint) (Aggregate, error)
 	CreateNextFact(remarkIdentifier uint) (Aggregate, error)
-	CreateChildStoryFact(remarkIdentifier uint) (Aggregate, error)
+	AddChildStory(remarkIdentifier uint, childRemarkIdentifier uint) error
 }
diff --git a/internal/abstract/story/entity.go b/internal/abstract/story/entity.go
index 6458a73..6eff4e2 100644
--- a/internal/abstract/story/entity.go
+++ b/internal/abstract/story/entity.go
@@ -20,4 +20,5 @@ type Entity interface {
 
 	HasSourceTree() (bool, error)
 	GetSourceTree() (uint, error)
+	GetSourceTrees() ([]uint, error)
 }
diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index fae9200..f3c7012 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -124,44 +124,34 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 	}, nil
 }
 
-func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.Aggregate, error) {
+// AddChildStory makes the story of the child fact the last child of the story of the fact.
+func (r *Repository) AddChildStory(remarkIdentifier uint, childRemarkIdentifier uint) error {
 
-	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
-	if err != nil {
-		return nil, err
-	}
-
-	story, err := r.storyRepository.FetchByFact(fact.GetStory())
+	story, err := r.fetchStory(remarkIdentifier)
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	hasTargetTree, err := story.HasTargetTree()
+	childStory, err := r.fetchStory(childRemarkIdentifier)
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	childStory, err := r.storyRepository.CreateStory()
+	siblingTrees, err := story.GetSourceTrees()
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	err = childStory.PointToTree(story.GetTree())
-	if err != nil {
-		return nil, err
-	}
-
-	if hasTargetTree {
-
-		siblingStory, err := r.storyRepository.FetchByTree(story.GetTree())
+	if len(siblingTrees) != 0 {
+		siblingStory, err := r.storyRepository.FetchByTree(siblingTrees[0])
 		if err != nil {
-			return nil, err
+			return err
 		}
 
 		for {
 			hasTargetPosition, err := siblingStory.HasTargetPosition()
 			if err != nil {
-				return nil, err
+				return err
 			}
 
 			if !hasTargetPosition {
@@ -170,59 +160,35 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 
 			targetPosition, err := siblingStory.GetTargetPosition()
 			if err != nil {
-				return nil, err
+				return err
 			}
 
 			siblingStory, err = r.storyRepository.FetchByPosition(targetPosition)
 			if err != nil {
-				return nil, err
+				return err
 			}
 		}
 
 		err = siblingStory.PointToPosition(childStory.GetPosition())
 		if err != nil {
-			return nil, err
+			return err
 		}
-
-		err = story.PointToTree(childStory.GetTree())
-		if err != nil {
-			return nil, err
-		}
-
-	}
-
-	//
-
-	class, err := r.classRepository.ProvideEntity()
-	if err != nil {
-		return nil, err
 	}
 
-	classIdentifier, err := class.CreateFact()
-	if err != nil {
-		return nil, err
-	}
+	return childStory.PointToTree(story.GetTree())
+}
 
-	firstFact, err := r.factStorage.CreateEntity(classIdentifier)
-	if err != nil {
-		return nil, err
-	}
+func (r *Repository) fetchStory(remarkIdentifier uint) (abstractStory.Entity, error) {
 
-	err = firstFact.PointToStory(childStory.GetFact())
+	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
 	if err != nil {
 		return nil, err
 	}
 
-	err = childStory.PointToFact(firstFact.GetStory())
+	storyIdentifier, err := fact.GetTargetStory()
 	if err != nil {
 		return nil, err
 	}
 
-	//
-
-	return Aggregate{
-		fact:            firstFact,
-		factStorage:     r.factStorage,
-		storyRepository: r.storyRepository,
-	}, nil
+	return r.storyRepository.FetchByFact(storyIdentifier)
 }
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 6f81e0d..6552992 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -394,7 +394,12 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 
 	// fact
 
-	firstFact, err := a.factRepository.CreateChildStoryFact(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	firstFact, err := a.factRepository.CreateFirstStoryFact()
 	if err != nil {
 		return nil, err
 	}
@@ -409,6 +414,13 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 		return nil, err
 	}
 
+	// the parent gets the new story only when it is complete
+
+	err = a.factRepository.AddChildStory(factIdentifier, firstFact.GetRemark())
+	if err != nil {
+		return nil, err
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    a.remarkStorage,
diff --git a/internal/concrete/story/entity.go b/internal/concrete/story/entity.go
index 0eb4685..7d05004 100644
--- a/internal/concrete/story/entity.go
+++ b/internal/concrete/story/entity.go
@@ -136,3 +136,8 @@ func (e Entity) GetSourceTree() (uint, error) {
 
 	return sources[0], nil
 }
+
+func (e Entity) GetSourceTrees() ([]uint, error) {
+
+	return e.storage.ReadSources(e.tree)
+}
-- 
2.43.0

