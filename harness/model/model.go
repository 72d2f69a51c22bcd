// Package model has substitutes, in plain Go, for library functions the engine cannot interpret.
package model

import "errors"

// ErrorsIs stands for errors.Is (which needs reflection only to ask whether the target is comparable).
func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return errorsIs(err, target)
}

func errorsIs(err, target error) bool {
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

var _ = errors.New
