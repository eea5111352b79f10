package fact

import (
	"semnetsim/frozen/internal/abstract"
	abstractClass "semnetsim/frozen/internal/abstract/class"
	abstractFact "semnetsim/frozen/internal/abstract/fact"
	abstractStory "semnetsim/frozen/internal/abstract/story"
)

type Repository struct {
	factStorage     abstractFact.Storage
	classRepository abstractClass.Repository
	storyRepository abstractStory.Repository
}

var _ abstractFact.Repository = &Repository{}

func NewRepository(
	storage abstract.Storage,
	classRepository abstractClass.Repository,
	storyRepository abstractStory.Repository,
) *Repository {
	return &Repository{
		factStorage:     NewStorage(storage),
		classRepository: classRepository,
		storyRepository: storyRepository,
	}
}

func (r *Repository) CreateFirstStoryFact() (abstractFact.Aggregate, error) {

	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateFact()
	if err != nil {
		return nil, err
	}

	fact, err := r.factStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	story, err := r.storyRepository.CreateStory()
	if err != nil {
		return nil, err
	}

	err = fact.PointToStory(story.GetFact())
	if err != nil {
		return nil, err
	}

	err = story.PointToFact(fact.GetStory())
	if err != nil {
		return nil, err
	}

	return Aggregate{
		fact:            fact,
		factStorage:     r.factStorage,
		storyRepository: r.storyRepository,
	}, nil
}

func (r *Repository) FetchByRemark(remarkIdentifier uint) (abstractFact.Aggregate, error) {

	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
	if err != nil {
		return nil, err
	}

	return Aggregate{
		fact:            fact,
		factStorage:     r.factStorage,
		storyRepository: r.storyRepository,
	}, nil
}

func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggregate, error) {

	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
	if err != nil {
		return nil, err
	}

	storyIdentifier, err := fact.GetTargetStory()
	if err != nil {
		return nil, err
	}

	story, err := r.storyRepository.FetchByFact(storyIdentifier)
	if err != nil {
		return nil, err
	}

	class, err := r.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateFact()
	if err != nil {
		return nil, err
	}

	nextFact, err := r.factStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	err = nextFact.PointToStory(story.GetFact())
	if err != nil {
		return nil, err
	}

	return Aggregate{
		fact:            nextFact,
		factStorage:     r.factStorage,
		storyRepository: r.storyRepository,
	}, nil
}

// AddChildStory makes the story of the child fact the last child of the story of the fact.
func (r *Repository) AddChildStory(remarkIdentifier uint, childRemarkIdentifier uint) error {

	story, err := r.fetchStory(remarkIdentifier)
	if err != nil {
		return err
	}

	childStory, err := r.fetchStory(childRemarkIdentifier)
	if err != nil {
		return err
	}

	siblingTrees, err := story.GetSourceTrees()
	if err != nil {
		return err
	}

	if len(siblingTrees) != 0 {
		siblingStory, err := r.storyRepository.FetchByTree(siblingTrees[0])
		if err != nil {
			return err
		}

		for {
			hasTargetPosition, err := siblingStory.HasTargetPosition()
			if err != nil {
				return err
			}

			if !hasTargetPosition {
				break
			}

			targetPosition, err := siblingStory.GetTargetPosition()
			if err != nil {
				return err
			}

			siblingStory, err = r.storyRepository.FetchByPosition(targetPosition)
			if err != nil {
				return err
			}
		}

		err = siblingStory.PointToPosition(childStory.GetPosition())
		if err != nil {
			return err
		}
	}

	return childStory.PointToTree(story.GetTree())
}

func (r *Repository) fetchStory(remarkIdentifier uint) (abstractStory.Entity, error) {

	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
	if err != nil {
		return nil, err
	}

	storyIdentifier, err := fact.GetTargetStory()
	if err != nil {
		return nil, err
	}

	return r.storyRepository.FetchByFact(storyIdentifier)
}
