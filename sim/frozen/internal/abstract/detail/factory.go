package detail

import (
	"semnetsim/frozen/internal/abstract/class"
	"semnetsim/frozen/internal/abstract/phrase"
)

type Factory interface {
	ProvideEntity(classEntity class.Entity, objectPhrase phrase.Aggregate, propertyPhrase phrase.Aggregate) (Entity, error)
}
