package class

import (
	"fmt"
	"semnetsim/frozen/internal/abstract/class"
	"semnetsim/frozen/internal/concrete/class/node"
)

const (
	bitIdentifier uint = iota + 1
	characterIdentifier
	wordIdentifier
	phraseIdentifier
	detailIdentifier
	remarkIdentifier
	factIdentifier
	storyIdentifier
)

type Repository struct {
	storage       storage
	isInitialized bool
	entity        Entity
}

var _ class.Repository = &Repository{}

func NewRepository(storage storage) *Repository {
	return &Repository{
		storage:       storage,
		isInitialized: false,
		entity:        Entity{},
	}
}

func (r *Repository) ProvideEntity() (class.Entity, error) {

	if !r.isInitialized {

		hasLastNode, err := r.storage.Has(storyIdentifier)
		if err != nil {
			return Entity{}, err
		}

		if !hasLastNode {
			// a part of the nodes may be there if the first attempt was interrupted
			for identifier := bitIdentifier; identifier <= storyIdentifier; identifier++ {
				hasNode, err := r.storage.Has(identifier)
				if err != nil {
					return Entity{}, err
				}

				if !hasNode {
					result, err := r.storage.Create()
					if err != nil {
						return Entity{}, err
					}

					if result != identifier {
						return Entity{}, fmt.Errorf("wrong class node %d", result)
					}
				}

				if identifier != bitIdentifier {
					err = r.storage.SetReference(identifier-1, identifier)
					if err != nil {
						return Entity{}, err
					}
				}
			}
		}

		r.entity = newEntity(
			node.NewBit(bitIdentifier, r.storage),
			node.NewCharacter(characterIdentifier, r.storage),
			node.NewWord(wordIdentifier, r.storage),
			node.NewPhrase(phraseIdentifier, r.storage),
			node.NewDetail(detailIdentifier, r.storage),
			node.NewRemark(remarkIdentifier, r.storage),
			node.NewFact(factIdentifier, r.storage),
			node.NewStory(storyIdentifier, r.storage),
		)
	}

	return r.entity, nil
}
