package frozen

import (
	"semnetsim/frozen/internal/abstract"
	"semnetsim/frozen/internal/concrete/bit"
	"semnetsim/frozen/internal/concrete/character"
	"semnetsim/frozen/internal/concrete/class"
	"semnetsim/frozen/internal/concrete/detail"
	"semnetsim/frozen/internal/concrete/fact"
	"semnetsim/frozen/internal/concrete/phrase"
	"semnetsim/frozen/internal/concrete/remark"
	"semnetsim/frozen/internal/concrete/story"
	"semnetsim/frozen/internal/concrete/word"
)

type Graph struct {
	storyRepository  *story.Repository
	factRepository   *fact.Repository
	remarkRepository *remark.Repository
	detailRepository *detail.Repository
	phraseRepository *phrase.Repository
}

func NewGraph(storage abstract.Storage) *Graph {

	classRepository := class.NewRepository(storage)
	bitRepository := bit.NewRepository(storage, classRepository)
	characterRepository := character.NewRepository(storage, classRepository, bitRepository)
	wordRepository := word.NewRepository(storage, classRepository, characterRepository)
	phraseRepository := phrase.NewRepository(storage, classRepository, wordRepository)
	detailRepository := detail.NewRepository(storage, classRepository, phraseRepository)

	storyRepository := story.NewRepository(storage, classRepository)
	factRepository := fact.NewRepository(storage, classRepository, storyRepository)

	remarkRepository := remark.NewRepository(storage, classRepository, detailRepository, factRepository)

	return &Graph{
		remarkRepository: remarkRepository,
	}
}

func (g *Graph) CreateStory(object string, property string) (Remark, error) {

	aggregate, err := g.remarkRepository.CreateFirstUserRemark(object, property)
	if err != nil {
		return Remark{}, err
	}

	return Remark{Aggregate: aggregate}, nil
}

func (g *Graph) GetRemark(remarkIdentifier uint) (Remark, error) {

	aggregate, err := g.remarkRepository.GetRemark(remarkIdentifier)
	if err != nil {
		return Remark{}, err
	}

	return Remark{Aggregate: aggregate}, nil
}
