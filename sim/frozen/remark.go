package frozen

import abstractRemark "semnetsim/frozen/internal/abstract/remark"

type Remark struct {
	abstractRemark.Aggregate
}
