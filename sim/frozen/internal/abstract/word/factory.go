package word

import (
	"semnetsim/frozen/internal/abstract/character"
	"semnetsim/frozen/internal/abstract/class"
)

type Factory interface {
	ProvideHeadEntity(classEntity class.Entity, characterEntity character.Aggregate) (Entity, error)
	CreateTailEntity(classEntity class.Entity, bitEntity character.Aggregate, previousWordEntity Entity) (Entity, error)
}
