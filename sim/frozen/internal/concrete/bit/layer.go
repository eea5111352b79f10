package bit

import (
	"fmt"
	"semnetsim/frozen/internal/abstract"
	"semnetsim/frozen/internal/concrete/class"
)

type layer struct {
	storage         abstract.Storage
	classRepository *class.Repository
	isInitialized   bool
	zeroEntity      Entity
	oneEntity       Entity
}

func newLayer(storage abstract.Storage, classRepository *class.Repository) *layer {
	return &layer{
		storage:         storage,
		classRepository: classRepository,
		isInitialized:   false,
	}
}

func (l *layer) initialize() (Entity, Entity, error) {

	if !l.isInitialized {
		classEntity, err := l.classRepository.ProvideEntity()
		if err != nil {
			return Entity{}, Entity{}, err
		}

		classIdentifiers, err := classEntity.GetAllBits()
		if err != nil {
			return Entity{}, Entity{}, err
		}

		if len(classIdentifiers) > 2 {
			return Entity{}, Entity{}, fmt.Errorf("wrong number of bit nodes in class %d", len(classIdentifiers))
		}

		// a part of the nodes may be there if the first attempt was interrupted
		for len(classIdentifiers) < 2 {
			classIdentifier, err := classEntity.CreateBit()
			if err != nil {
				return Entity{}, Entity{}, err
			}

			classIdentifiers = append(classIdentifiers, classIdentifier)
		}

		zeroClassIdentifier := classIdentifiers[0]
		oneClassIdentifier := classIdentifiers[1]
		if zeroClassIdentifier > oneClassIdentifier {
			zeroClassIdentifier, oneClassIdentifier = oneClassIdentifier, zeroClassIdentifier
		}

		zeroCharacterIdentifier, err := l.provideCharacterIdentifier(zeroClassIdentifier)
		if err != nil {
			return Entity{}, Entity{}, err
		}

		oneCharacterIdentifier, err := l.provideCharacterIdentifier(oneClassIdentifier)
		if err != nil {
			return Entity{}, Entity{}, err
		}

		l.zeroEntity = Entity{
			value:     false,
			class:     zeroClassIdentifier,
			character: zeroCharacterIdentifier,
			storage:   l.storage,
		}

		l.oneEntity = Entity{
			value:     true,
			class:     oneClassIdentifier,
			character: oneCharacterIdentifier,
			storage:   l.storage,
		}

		l.isInitialized = true
	}

	return l.zeroEntity, l.oneEntity, nil
}

func (l *layer) provideCharacterIdentifier(classIdentifier uint) (uint, error) {
	_, characterIdentifier, err := l.storage.GetReference(classIdentifier)
	if err != nil {
		return 0, err
	}

	if characterIdentifier != 0 {
		return characterIdentifier, nil
	}

	characterIdentifier, err = l.storage.Create()
	if err != nil {
		return 0, err
	}

	return characterIdentifier, l.storage.SetReference(classIdentifier, characterIdentifier)
}
