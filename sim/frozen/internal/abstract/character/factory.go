package character

import (
	"semnetsim/frozen/internal/abstract/bit"
	"semnetsim/frozen/internal/abstract/class"
)

type Factory interface {
	ProvideHeadEntity(classEntity class.Entity, bitEntity bit.Entity) (Entity, error)
	CreateTailEntity(classEntity class.Entity, bitEntity bit.Entity, previousCharacterEntity Entity) (Entity, error)
}
