package zzmodels

//sym:redirect errors.Is
func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	cmp := IsComparable(target)
	for {
		if cmp && IsComparable(err) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}
