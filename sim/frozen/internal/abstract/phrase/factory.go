package phrase

import (
	"semnetsim/frozen/internal/abstract/class"
	"semnetsim/frozen/internal/abstract/word"
)

type Factory interface {
	ProvideHeadEntity(classEntity class.Entity, wordEntity word.Aggregate) (Entity, error)
	CreateTailEntity(classEntity class.Entity, wordAggregate word.Aggregate, previousPhraseEntity Entity) (Entity, error)
}
