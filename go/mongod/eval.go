package mongod

import (
	"bytes"
	"fmt"
	"strings"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

func class(v any) int {
	switch v.(type) {
	case nil, primitive.Null, primitive.Undefined:
		return 1
	case int32, int64, float64:
		return 2
	case string:
		return 3
	case D:
		return 4
	case A:
		return 5
	case primitive.Binary:
		return 6
	case primitive.ObjectID:
		return 7
	case bool:
		return 8
	case primitive.DateTime:
		return 9
	}
	return 10
}

// cmp compares values in BSON order.
func cmp(a, b any) int {
	ca, cb := class(a), class(b)
	if ca != cb {
		return ca - cb
	}
	switch x := a.(type) {
	case int32, int64, float64:
		f, _ := number(a)
		g, _ := number(b)
		switch {
		case f < g:
			return -1
		case f > g:
			return 1
		}
		return 0
	case string:
		return strings.Compare(x, b.(string))
	case D:
		y := b.(D)
		for i := 0; i < len(x) && i < len(y); i++ {
			if k := strings.Compare(x[i].Key, y[i].Key); k != 0 {
				return k
			}
			if k := cmp(x[i].Value, y[i].Value); k != 0 {
				return k
			}
		}
		return len(x) - len(y)
	case A:
		y := b.(A)
		for i := 0; i < len(x) && i < len(y); i++ {
			if k := cmp(x[i], y[i]); k != 0 {
				return k
			}
		}
		return len(x) - len(y)
	case primitive.Binary:
		return bytes.Compare(x.Data, b.(primitive.Binary).Data)
	case primitive.ObjectID:
		y := b.(primitive.ObjectID)
		return bytes.Compare(x[:], y[:])
	case bool:
		y := b.(bool)
		switch {
		case x == y:
			return 0
		case !x:
			return -1
		}
		return 1
	case primitive.DateTime:
		y := b.(primitive.DateTime)
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	case nil:
		return 0
	}
	return strings.Compare(fmt.Sprint(a), fmt.Sprint(b))
}

// sameFields tells documents with numbers of different types apart.
func sameFields(a, b D) bool {
	x, _ := bson.Marshal(a)
	y, _ := bson.Marshal(b)
	return bytes.Equal(x, y)
}

func lookup(x D, path string) (any, bool) {
	if v, ok := get(x, path); ok {
		return v, ok
	}
	h, t, ok := strings.Cut(path, ".")
	if !ok {
		return nil, false
	}
	v, _ := get(x, h)
	if d, ok := v.(D); ok {
		return lookup(d, t)
	}
	return nil, false
}

func match(x, f D) (bool, error) {
	for _, e := range f {
		switch e.Key {
		case "$and", "$or", "$nor":
			a, ok := e.Value.(A)
			if !ok || len(a) == 0 {
				return false, fail(2, "BadValue", "%s must be a nonempty array", e.Key)
			}
			n := 0
			for _, y := range a {
				ok, err := match(x, y.(D))
				if err != nil {
					return false, err
				}
				if ok {
					n++
				}
			}
			if e.Key == "$and" && n != len(a) || e.Key == "$or" && n == 0 || e.Key == "$nor" && n > 0 {
				return false, nil
			}
			continue
		case "$comment":
			continue
		case "$expr", "$where", "$text", "$jsonSchema":
			return false, fail(9, "FailedToParse", "%s is not supported by this model", e.Key)
		}
		v, ok := lookup(x, e.Key)
		m, err := cond(v, ok, e.Value)
		if err != nil || !m {
			return false, err
		}
	}
	return true, nil
}

func eq(v any, present bool, w any) bool {
	if class(w) == 1 {
		return !present || class(v) == 1
	}
	if !present {
		return false
	}
	if a, ok := v.(A); ok && class(w) != 5 {
		for _, y := range a {
			if cmp(y, w) == 0 {
				return true
			}
		}
	}
	return cmp(v, w) == 0
}

func cond(v any, present bool, c any) (bool, error) {
	o, ok := c.(D)
	if !ok || len(o) == 0 || !strings.HasPrefix(o[0].Key, "$") {
		return eq(v, present, c), nil
	}
	for _, e := range o {
		r := false
		switch e.Key {
		case "$eq":
			r = eq(v, present, e.Value)
		case "$ne":
			r = !eq(v, present, e.Value)
		case "$gt", "$gte", "$lt", "$lte":
			if present && class(v) == class(e.Value) {
				k := cmp(v, e.Value)
				r = e.Key == "$gt" && k > 0 || e.Key == "$gte" && k >= 0 || e.Key == "$lt" && k < 0 || e.Key == "$lte" && k <= 0
			}
		case "$in", "$nin":
			a, ok := e.Value.(A)
			if !ok {
				return false, fail(2, "BadValue", "%s needs an array", e.Key)
			}
			for _, w := range a {
				r = r || eq(v, present, w)
			}
			if e.Key == "$nin" {
				r = !r
			}
		case "$exists":
			b, isBool := e.Value.(bool)
			if !isBool {
				f, _ := number(e.Value)
				b = f != 0
			}
			r = present == b
		case "$not":
			m, err := cond(v, present, e.Value)
			if err != nil {
				return false, err
			}
			r = !m
		default:
			return false, fail(2, "BadValue", "unknown operator: %s", e.Key)
		}
		if !r {
			return false, nil
		}
	}
	return true, nil
}

func isOps(u D) bool { return len(u) > 0 && strings.HasPrefix(u[0].Key, "$") }

func set(x D, path string, v any) D {
	h, t, dotted := strings.Cut(path, ".")
	for i, e := range x {
		if e.Key == h {
			y := append(D(nil), x...)
			if dotted {
				sub, _ := e.Value.(D)
				v = set(sub, t, v)
			}
			y[i].Value = v
			return y
		}
	}
	if dotted {
		v = set(D{}, t, v)
	}
	return append(x[:len(x):len(x)], bson.E{Key: h, Value: v})
}

func unset(x D, k string) D {
	var y D
	for _, e := range x {
		if e.Key != k {
			y = append(y, e)
		}
	}
	return y
}

// apply makes the document after an update.
func apply(x, u D, inserting bool) (D, error) {
	id, hasID := get(x, "_id")
	if !isOps(u) {
		for _, e := range u {
			if strings.HasPrefix(e.Key, "$") {
				return nil, fail(52, "DollarPrefixedFieldName", "The dollar ($) prefixed field '%s' is not allowed", e.Key)
			}
		}
		nid, ok := get(u, "_id")
		if ok && hasID && cmp(id, nid) != 0 {
			return nil, fail(66, "ImmutableField", "the (immutable) field '_id' was found to have been altered")
		}
		if !ok && hasID {
			return append(D{{Key: "_id", Value: id}}, u...), nil
		}
		return idFirst(append(D(nil), u...)), nil
	}
	seen := map[string]bool{}
	for _, op := range u {
		fs, ok := op.Value.(D)
		if !ok {
			return nil, fail(9, "FailedToParse", "Modifiers operate on fields")
		}
		for _, e := range fs {
			if seen[e.Key] {
				return nil, fail(40, "ConflictingUpdateOperators", "Updating the path '%s' would create a conflict", e.Key)
			}
			seen[e.Key] = true
			switch op.Key {
			case "$set":
				x = set(x, e.Key, e.Value)
			case "$setOnInsert":
				if inserting {
					x = set(x, e.Key, e.Value)
				}
			case "$unset":
				x = unset(x, e.Key)
			case "$inc":
				v, _ := lookup(x, e.Key)
				a, _ := number(v)
				b, _ := number(e.Value)
				x = set(x, e.Key, int64(a+b))
			case "$min", "$max":
				v, ok := lookup(x, e.Key)
				if !ok || op.Key == "$min" && cmp(e.Value, v) < 0 || op.Key == "$max" && cmp(e.Value, v) > 0 {
					x = set(x, e.Key, e.Value)
				}
			default:
				return nil, fail(9, "FailedToParse", "Unknown modifier: %s", op.Key)
			}
		}
	}
	if nid, ok := get(x, "_id"); hasID && (!ok || cmp(id, nid) != 0) {
		return nil, fail(66, "ImmutableField", "Performing an update on the path '_id' would modify the immutable field '_id'")
	}
	return idFirst(x), nil
}

// upserted makes the document an upsert inserts.
func upserted(q, u D) (D, error) {
	var x D
	for _, e := range q {
		if strings.HasPrefix(e.Key, "$") {
			continue
		}
		if v, ok := equality(D{e}, e.Key); ok && (isOps(u) || e.Key == "_id") {
			x = append(x, bson.E{Key: e.Key, Value: v})
		}
	}
	return apply(x, u, true)
}
