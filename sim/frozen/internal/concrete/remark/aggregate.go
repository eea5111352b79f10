package remark

import (
	"fmt"
	abstractClass "semnetsim/frozen/internal/abstract/class"
	abstractDetail "semnetsim/frozen/internal/abstract/detail"
	abstractFact "semnetsim/frozen/internal/abstract/fact"
	abstractRemark "semnetsim/frozen/internal/abstract/remark"
)

type Aggregate struct {
	remark           abstractRemark.Entity
	remarkStorage    abstractRemark.Storage
	classRepository  abstractClass.Repository
	detailRepository abstractDetail.Repository
	factRepository   abstractFact.Repository
}

var _ abstractRemark.Aggregate = Aggregate{}

func (a Aggregate) GetIdentifier() uint {
	return a.remark.GetClass()
}

func (a Aggregate) HasNextRemark() (bool, error) {

	return a.remark.HasNextRemark()
}

func (a Aggregate) GetNextRemark() (abstractRemark.Aggregate, error) {

	nextRemarkIdentifier, err := a.remark.GetNextRemark()
	if err != nil {
		return nil, err
	}

	nextRemark, err := a.remarkStorage.ReadEntityByPosition(nextRemarkIdentifier)
	if err != nil {
		return nil, err
	}

	class, err := a.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	isRemark, err := class.IsRemark(nextRemark.GetClass())
	if err != nil {
		return nil, err
	}

	if !isRemark {
		return Aggregate{}, fmt.Errorf("remark has wrong class: %d", nextRemark.GetClass())
	}

	return Aggregate{
		remark:           nextRemark,
		remarkStorage:    a.remarkStorage,
		classRepository:  a.classRepository,
		detailRepository: a.detailRepository,
		factRepository:   a.factRepository,
	}, nil
}

func (a Aggregate) HasNextFact() (bool, error) {

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return false, err
	}

	fact, err := a.factRepository.FetchByRemark(factIdentifier)
	if err != nil {
		return false, err
	}

	return fact.HasNextFact()
}

func (a Aggregate) GetNextFact() (abstractRemark.Aggregate, error) {

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	fact, err := a.factRepository.FetchByRemark(factIdentifier)
	if err != nil {
		return nil, err
	}

	nextFact, err := fact.ToNextFact()
	if err != nil {
		return nil, err
	}

	remarkFact, err := nextFact.GetFirstRemark()
	if err != nil {
		return nil, err
	}

	remark, err := a.remarkStorage.ReadEntityByFact(remarkFact)
	if err != nil {
		return nil, err
	}

	return Aggregate{
		remark:           remark,
		remarkStorage:    a.remarkStorage,
		classRepository:  a.classRepository,
		detailRepository: a.detailRepository,
		factRepository:   a.factRepository,
	}, nil
}

func (a Aggregate) GetFirstFact() (abstractRemark.Aggregate, error) {

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}


	fact, err := a.factRepository.FetchByRemark(factIdentifier)
	if err != nil {
		return nil, err
	}

	firstFact, err := fact.ToFirstFact()
	if err != nil {
		return nil, err
	}

	remarkFact, err := firstFact.GetFirstRemark()
	if err != nil {
		return nil, err
	}

	remark, err := a.remarkStorage.ReadEntityByFact(remarkFact)
	if err != nil {
		return nil, err
	}

	return Aggregate{
		remark:           remark,
		remarkStorage:    a.remarkStorage,
		classRepository:  a.classRepository,
		detailRepository: a.detailRepository,
		factRepository:   a.factRepository,
	}, nil
}

func (a Aggregate) HasNextStory() (bool, error) {

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return false, err
	}

	fact, err := a.factRepository.FetchByRemark(factIdentifier)
	if err != nil {
		return false, err
	}

	return fact.HasNextStory()
}

func (a Aggregate) GetNextStory() (abstractRemark.Aggregate, error) {

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	fact, err := a.factRepository.FetchByRemark(factIdentifier)
	if err != nil {
		return nil, err
	}

	nextFact, err := fact.ToNextStory()
	if err != nil {
		return nil, err
	}

	nextIdentifier, err := nextFact.GetFirstRemark()
	if err != nil {
		return nil, err
	}

	nextRemark, err := a.remarkStorage.ReadEntityByFact(nextIdentifier)
	if err != nil {
		return nil, err
	}

	return Aggregate{
		remark:           nextRemark,
		remarkStorage:    a.remarkStorage,
		classRepository:  a.classRepository,
		detailRepository: a.detailRepository,
		factRepository:   a.factRepository,
	}, nil
}

func (a Aggregate) GetObjectAndProperty() (string, string, error) {

	detailIdentifier, err := a.remark.GetSourceDetail()
	if err != nil {
		return "", "", err
	}

	detail, err := a.detailRepository.Fetch(detailIdentifier)
	if err != nil {
		return "", "", err
	}

	return detail.GetObjectAndProperty()
}

func (a Aggregate) AddRemarkToFact(property string) (abstractRemark.Aggregate, error) {

	class, err := a.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateRemark()
	if err != nil {
		return nil, err
	}

	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	// detail

	detailIdentifier, err := a.remark.GetSourceDetail()
	if err != nil {
		return nil, err
	}

	aggregateDetail, err := a.detailRepository.Fetch(detailIdentifier)
	if err != nil {
		return nil, err
	}

	aggregateObject, _, err := aggregateDetail.GetObjectAndProperty()
	if err != nil {
		return nil, err
	}

	detail, err := a.detailRepository.Provide(aggregateObject, property)
	if err != nil {
		return nil, err
	}

	err = detail.PointToRemark(remark.GetDetail())
	if err != nil {
		return nil, err
	}

	// fact

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	fact, err := a.factRepository.FetchByRemark(factIdentifier)
	if err != nil {
		return nil, err
	}

	err = remark.PointToFact(fact.GetRemark())
	if err != nil {
		return nil, err
	}

	return Aggregate{
		remark:           remark,
		remarkStorage:    a.remarkStorage,
		classRepository:  a.classRepository,
		detailRepository: a.detailRepository,
		factRepository:   a.factRepository,
	}, nil
}

func (a Aggregate) AddFactToStory(object string, property string) (abstractRemark.Aggregate, error) {

	class, err := a.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateRemark()
	if err != nil {
		return nil, err
	}

	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	// detail

	detail, err := a.detailRepository.Provide(object, property)
	if err != nil {
		return nil, err
	}

	err = detail.PointToRemark(remark.GetDetail())
	if err != nil {
		return nil, err
	}

	// fact

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	fact, err := a.factRepository.FetchByRemark(factIdentifier)
	if err != nil {
		return nil, err
	}

	nextFact, err := a.factRepository.CreateNextFact(factIdentifier)
	if err != nil {
		return nil, err
	}

	err = remark.PointToFact(nextFact.GetRemark())
	if err != nil {
		return nil, err
	}

	err = nextFact.PointToRemark(remark.GetFact())
	if err != nil {
		return nil, err
	}

	// the story leads to the new fact only when it is complete

	lastFact, err := fact.ToLastFact()
	if err != nil {
		return nil, err
	}

	err = lastFact.PointToPosition(nextFact.GetPosition())
	if err != nil {
		return nil, err
	}

	return Aggregate{
		remark:           remark,
		remarkStorage:    a.remarkStorage,
		classRepository:  a.classRepository,
		detailRepository: a.detailRepository,
		factRepository:   a.factRepository,
	}, nil
}

func (a Aggregate) CreateChildStory(object string, property string) (abstractRemark.Aggregate, error) {

	class, err := a.classRepository.ProvideEntity()
	if err != nil {
		return nil, err
	}

	classIdentifier, err := class.CreateRemark()
	if err != nil {
		return nil, err
	}

	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
	if err != nil {
		return nil, err
	}

	// detail

	detail, err := a.detailRepository.Provide(object, property)
	if err != nil {
		return nil, err
	}

	err = detail.PointToRemark(remark.GetDetail())
	if err != nil {
		return nil, err
	}

	// fact

	factIdentifier, err := a.remark.GetTargetFact()
	if err != nil {
		return nil, err
	}

	firstFact, err := a.factRepository.CreateFirstStoryFact()
	if err != nil {
		return nil, err
	}

	err = remark.PointToFact(firstFact.GetRemark())
	if err != nil {
		return nil, err
	}

	err = firstFact.PointToRemark(remark.GetFact())
	if err != nil {
		return nil, err
	}

	// the parent gets the new story only when it is complete

	err = a.factRepository.AddChildStory(factIdentifier, firstFact.GetRemark())
	if err != nil {
		return nil, err
	}

	return Aggregate{
		remark:           remark,
		remarkStorage:    a.remarkStorage,
		classRepository:  a.classRepository,
		detailRepository: a.detailRepository,
		factRepository:   a.factRepository,
	}, nil
}
