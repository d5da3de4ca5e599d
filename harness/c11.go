package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"
	"unicode"

	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

func init() {
	register("C11", checkScalars)
	register("C12", checkFunctionNames)
}

type scalarRef struct {
	name  string
	arity int
	exact bool
	f     func(a []float64) (float64, bool) // value, in the domain
}

func in1(f func(float64) float64) func(a []float64) (float64, bool) {
	return func(a []float64) (float64, bool) { return f(a[0]), true }
}

// roundHalfAway is the rounding of the SQL standard, computed without math.Round.
func roundHalfAway(x float64) float64 {
	t := math.Trunc(x)
	if 0.5 <= math.Abs(x-t) {
		return t + math.Copysign(1, x)
	}
	return t
}

var mathRefs = []scalarRef{
	{"ABS", 1, true, in1(func(x float64) float64 {
		if x < 0 {
			return -x
		}
		return x
	})},
	{"CEIL", 1, true, in1(math.Ceil)},
	{"FLOOR", 1, true, in1(math.Floor)},
	{"ROUND", 1, true, in1(roundHalfAway)},
	{"SQRT", 1, false, func(a []float64) (float64, bool) { return math.Sqrt(a[0]), 0 <= a[0] }},
	{"LOG", 1, false, func(a []float64) (float64, bool) { return math.Log(a[0]), 0 < a[0] }},
	{"LOG10", 1, false, func(a []float64) (float64, bool) { return math.Log10(a[0]), 0 < a[0] }},
	{"EXP", 1, false, in1(math.Exp)},
	{"POWER", 2, false, func(a []float64) (float64, bool) {
		if a[0] == 0 && a[1] < 0 || a[0] < 0 && a[1] != math.Trunc(a[1]) {
			return 0, false
		}
		return math.Pow(a[0], a[1]), true
	}},
	{"MOD", 2, true, func(a []float64) (float64, bool) { return math.Mod(a[0], a[1]), a[1] != 0 }},
	{"SIN", 1, false, in1(math.Sin)},
	{"COS", 1, false, in1(math.Cos)},
	{"TAN", 1, false, in1(math.Tan)},
	{"PI", 0, true, func(a []float64) (float64, bool) { return math.Pi, true }},
	{"+", 2, true, func(a []float64) (float64, bool) { return a[0] + a[1], true }},
	{"-", 2, true, func(a []float64) (float64, bool) { return a[0] - a[1], true }},
	{"*", 2, true, func(a []float64) (float64, bool) { return a[0] * a[1], true }},
	{"/", 2, true, func(a []float64) (float64, bool) { return a[0] / a[1], a[1] != 0 }},
	{"%", 2, true, func(a []float64) (float64, bool) { return math.Mod(a[0], a[1]), a[1] != 0 }},
}

func newScalar(name string, opts ...fn.ExecutorOption) (fn.Executor, error) {
	return fn.NewExecutorForName(name, opts...)
}

// numberOf reads a numeric result of any numeric type.
func numberOf(v any) (float64, bool) {
	switch v := v.(type) {
	case float64:
		return v, true
	case float32:
		return float64(v), true
	case int:
		return float64(v), true
	case int64:
		return float64(v), true
	case int32:
		return float64(v), true
	case uint64:
		return float64(v), true
	case uint:
		return float64(v), true
	}
	return 0, false
}

func sameNumber(a, b float64, exact bool) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	if exact {
		return false
	}
	return math.Abs(a-b) <= 1e-12*math.Max(math.Abs(a), math.Abs(b))
}

var hardNumbers = []float64{0, 1, -1, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 0.49999999999999994, -0.49999999999999994, 2, 3, 10, 100, 1000, -7, 7, 4, 9, 16, 0.25, 1e-9, -1e-9, 1e15, -1e15, 1e18, -1e18, 1e19, -1e19, 1e300, -1e300, 1e308,
	math.MaxInt32, math.MinInt32, math.MaxUint32, 9007199254740992, -9007199254740992, 4503599627370496.5, 9.223372036854775e18, 9223372036854775808, -9223372036854775808, 9223372036854774784, 18446744073709551616, 18446744073709549568, math.Pi, math.E, math.SmallestNonzeroFloat64, 0.1, 127, 128, 255, 256, -128, -129, 65535, 65536, 99.5, 0.9999999999999999}

func randNumber(rng *rand.Rand) float64 {
	switch rng.Intn(5) {
	case 0, 1:
		return hardNumbers[rng.Intn(len(hardNumbers))]
	case 2:
		return float64(rng.Intn(2001) - 1000)
	case 3:
		return rng.NormFloat64() * math.Pow(10, float64(rng.Intn(12)-4))
	}
	return math.Trunc(rng.NormFloat64()*100) + 0.5
}

// typesOf gives the same number in every Go type that holds it exactly.
func typesOf(x float64) []any {
	out := []any{x}
	if f := float32(x); float64(f) == x {
		out = append(out, f)
	}
	out = append(out, strconv.FormatFloat(x, 'g', -1, 64))
	if x == math.Trunc(x) && math.Abs(x) < 1<<63 && !(x == 0 && math.Signbit(x)) {
		i := int64(x)
		out = append(out, i, int(i))
		if math.MinInt32 <= i && i <= math.MaxInt32 {
			out = append(out, int32(i))
		}
		if math.MinInt16 <= i && i <= math.MaxInt16 {
			out = append(out, int16(i))
		}
		if -128 <= i && i <= 127 {
			out = append(out, int8(i))
		}
		if 0 <= i {
			out = append(out, uint64(i), uint(i))
			if i <= math.MaxUint32 {
				out = append(out, uint32(i))
			}
			if i <= math.MaxUint16 {
				out = append(out, uint16(i))
			}
			if i <= 255 {
				out = append(out, uint8(i))
			}
		}
	}
	return out
}

func describe(args []any) string {
	strs := []string{}
	for _, a := range args {
		strs = append(strs, fmt.Sprintf("%T(%v)", a, a))
	}
	return "[" + strings.Join(strs, ", ") + "]"
}

func checkScalars(r *Run) {
	r.Rule = "every scalar function and operator on boundary and random numbers in every Go numeric type and as text, as a list, as a row and by name from an object, against an independent reference; wrong argument counts, non-numeric and out-of-domain arguments must give errors; non-trivial: distinct calls"
	argNames := []string{"alpha", "b2", "Gamma"}
	judge := func(ref scalarRef, args []any, nums []float64) {
		want, ok := ref.f(nums)
		call := ref.name + describe(args)
		names := argNames[:len(args)]
		obj := map[string]any{"other": 1, "zzz": "x", "beta": -5}
		for k, n := range names {
			obj[n] = args[k]
		}
		ways := []struct {
			way string
			f   func() (any, error)
		}{
			{"list", func() (any, error) { return fn.ExecuteFunction(ref.name, args) }},
			{"row", func() (any, error) {
				ex, err := newScalar(ref.name)
				if err != nil {
					return nil, err
				}
				return ex.Execute(fn.NewRow(args...))
			}},
			{"object", func() (any, error) {
				ex, err := newScalar(ref.name, fn.WithExecutorArguments(names))
				if err != nil {
					return nil, err
				}
				return ex.Execute(obj)
			}},
			{"map", func() (any, error) {
				ex, err := newScalar(ref.name, fn.WithExecutorArguments(names))
				if err != nil {
					return nil, err
				}
				return ex.Execute(fn.NewMapWithMap(obj))
			}},
		}
		// Literal arguments, in a row that has other columns only.
		lits, literal := []string{}, true
		for _, x := range nums {
			l := strconv.FormatFloat(x, 'f', -1, 64)
			literal = literal && len(l) < 40
			lits = append(lits, l)
		}
		if literal && 0 < len(lits) {
			ways = append(ways, struct {
				way string
				f   func() (any, error)
			}{"literals", func() (any, error) {
				ex, err := newScalar(ref.name, fn.WithExecutorArguments(lits))
				if err != nil {
					return nil, err
				}
				return ex.Execute(map[string]any{"other": 1, "zzz": "x", "beta": -5})
			}})
		}
		for _, w := range ways {
			r.Guard(call+" as "+w.way, func() {
				v, err := w.f()
				r.Ev(ref.name)
				switch {
				case !ok && err == nil:
					r.Fail("out of domain", "%s as %s gave %v instead of an error", call, w.way, v)
				case ok && err != nil:
					r.Fail("error", "%s as %s: %v", call, w.way, err)
				case ok:
					x, isNum := numberOf(v)
					if !isNum || !sameNumber(x, want, ref.exact) {
						r.Fail("value", "%s as %s = %T(%v), want %v", call, w.way, v, v, want)
					}
				}
			})
		}
		if len(args) == 1 { // a single value without a list
			r.Guard(call, func() {
				v, err := fn.ExecuteFunction(ref.name, args[0])
				if ok != (err == nil) {
					r.Fail("single value", "%s: %v %v", call, v, err)
				} else if ok {
					if x, isNum := numberOf(v); !isNum || !sameNumber(x, want, ref.exact) {
						r.Fail("single value", "%s = %v, want %v", call, v, want)
					}
				}
			})
		}
		r.Case(call)
	}
	r.Parallel("math", r.N(40000, 800000), func(i int, rng *rand.Rand) {
		ref := mathRefs[i%len(mathRefs)]
		nums := make([]float64, ref.arity)
		args := make([]any, ref.arity)
		for k := range nums {
			nums[k] = randNumber(rng)
			if rng.Intn(12) == 0 && ref.arity == 2 && k == 1 {
				nums[k] = 0
			}
			forms := typesOf(nums[k])
			args[k] = forms[rng.Intn(len(forms))]
		}
		judge(ref, args, nums)
	})
	// All hard numbers in all types.
	r.Parallel("hard", len(hardNumbers)*len(mathRefs), func(i int, rng *rand.Rand) {
		ref := mathRefs[i%len(mathRefs)]
		x := hardNumbers[i/len(mathRefs)]
		if ref.arity == 0 {
			return
		}
		for _, a := range typesOf(x) {
			if ref.arity == 1 {
				judge(ref, []any{a}, []float64{x})
				continue
			}
			y := hardNumbers[rng.Intn(len(hardNumbers))]
			judge(ref, []any{a, y}, []float64{x, y})
			judge(ref, []any{y, a}, []float64{y, x})
		}
	})
	// Infinite arguments of the functions that have an obvious value.
	for _, name := range []string{"ABS", "FLOOR", "CEIL", "ROUND"} {
		for _, x := range []float64{math.Inf(1), math.Inf(-1)} {
			r.Guard(name, func() {
				want := x
				if name == "ABS" {
					want = math.Inf(1)
				}
				v, err := fn.ExecuteFunction(name, []any{x})
				if err != nil {
					return
				}
				if n, ok := numberOf(v); !ok || n != want {
					r.Fail("infinite", "%s(%v) = %v", name, x, v)
				}
			})
			r.Case(fmt.Sprint(name, x))
		}
	}
	// Wrong counts and kinds of arguments.
	junk := []any{nil, "abc", "", "1x", "--1", "0x", struct{}{}, []int{1}, map[string]int{}, make(chan int), func() {}, []any{1}, "１", "NULL", "'1'", "1,5", " "}
	strFns := []string{"UPPER", "LOWER", "TRIM"}
	r.Parallel("bad", r.N(6000, 60000), func(i int, rng *rand.Rand) {
		ref := mathRefs[rng.Intn(len(mathRefs))]
		args := []any{}
		why := "wrong number of arguments"
		name := ref.name
		if rng.Intn(2) == 0 || ref.arity == 0 {
			n := rng.Intn(6)
			if n == ref.arity {
				n++
			}
			if rng.Intn(5) == 0 {
				name = strFns[rng.Intn(3)]
				if n == 1 {
					n = 2 * rng.Intn(3)
				}
			}
			for k := 0; k < n; k++ {
				args = append(args, randNumber(rng))
			}
		} else {
			why = "not a number"
			for k := 0; k < ref.arity; k++ {
				args = append(args, randNumber(rng))
			}
			args[rng.Intn(ref.arity)] = junk[rng.Intn(len(junk))]
		}
		call := name + describe(args)
		r.Guard(call, func() {
			v, err := fn.ExecuteFunction(name, args)
			if err == nil {
				r.Fail(why, "%s = %v", call, v)
			}
			ex, err := newScalar(name, fn.WithExecutorArguments([]string{"k0", "k1", "k2", "k3", "k4", "k5"}[:len(args)]))
			if err != nil {
				r.Fail("resolve", "%s: %v", name, err)
				return
			}
			obj := map[string]any{}
			for k, a := range args {
				obj[fmt.Sprintf("k%d", k)] = a
			}
			if v, err := ex.Execute(obj); err == nil {
				r.Fail(why+" by name", "%s = %v", call, v)
			}
			if 0 < len(args) {
				delete(obj, fmt.Sprintf("k%d", rng.Intn(len(args))))
				if v, err := ex.Execute(obj); err == nil {
					r.Fail("missing column", "%s without one column = %v", call, v)
				}
			}
		})
		r.Ev(why)
		r.Case(why + " " + call)
	})
	// A column that the row does not have is an error, never a made-up value.
	r.Parallel("missing", r.N(2000, 20000), func(i int, rng *rand.Rand) {
		name := append(append([]string{}, scalarOfRefs()...), strFns...)[rng.Intn(len(mathRefs)+3)]
		arity := 1
		for _, ref := range mathRefs {
			if ref.name == name {
				arity = ref.arity
			}
		}
		if arity == 0 {
			r.Case("")
			return
		}
		names := append([]string{}, argNames[:arity]...)
		missing := rng.Intn(arity)
		if rng.Intn(3) == 0 { // a name that is easily taken for a value
			names[missing] = []string{"", "inf", "NaN", "Infinity", "e5", "true", "null", "x1", "_1", " "}[rng.Intn(10)]
		}
		obj := map[string]any{"q": 3}
		for k, n := range names {
			if k != missing {
				obj[n] = randNumber(rng)
			}
		}
		r.Guard(name, func() {
			ex, err := newScalar(name, fn.WithExecutorArguments(names))
			if err != nil {
				r.Fail("resolve", "%s: %v", name, err)
				return
			}
			if v, err := ex.Execute(obj); err == nil {
				r.Fail("missing column", "%s(%v) on %v = %v", name, names, obj, v)
			}
		})
		r.Ev("missing column")
		r.Case(fmt.Sprint("missing ", name, names, obj))
	})
	// Functions that the caller makes.
	r.Parallel("own", r.N(1500, 15000), func(i int, rng *rand.Rand) {
		name := randName(rng, false)
		x := randNumber(rng)
		fails := rng.Intn(4) == 0
		calls, got := 0, any(nil)
		own := errors.New("own error")
		r.Guard("own "+name, func() {
			ex := fn.NewCastFunctionWith(name, func(v any) (any, error) {
				calls++
				got = v
				if fails {
					return nil, own
				}
				return fmt.Sprint("cast ", v), nil
			})
			if ex.Name() != name || ex.Type() != fn.CastFunction {
				r.Fail("own cast", "%q: name %q kind %v", name, ex.Name(), ex.Type())
			}
			for n := 0; n < 4; n++ {
				calls = 0
				args := []any{}
				for len(args) < n {
					args = append(args, x)
				}
				var v any
				var err error
				if rng.Intn(2) == 0 {
					v, err = ex.Execute(args)
				} else {
					v, err = ex.Execute(fn.NewRow(args...))
				}
				switch {
				case n != 1:
					if err == nil || calls != 0 {
						r.Fail("own cast", "%q of %d arguments: %v after %d calls", name, n, v, calls)
					}
				case calls != 1 || got != any(x):
					r.Fail("own cast", "%q of %v: %d calls, the last with %v", name, x, calls, got)
				case fails && !errors.Is(err, own), !fails && (err != nil || v != any(fmt.Sprint("cast ", x))):
					r.Fail("own cast", "%q of %v: %v %v", name, x, v, err)
				}
			}
			if v, err := ex.Execute(x); fails != (err != nil) || !fails && v != any(fmt.Sprint("cast ", x)) {
				r.Fail("own cast", "%q of the single %v: %v %v", name, x, v, err)
			}
			// An executor hands its function the arguments in the order of their names.
			k := 1 + many(rng, 4)
			names := make([]string, k)
			obj := map[string]any{"unrelated": 99}
			want := []any{}
			for j := range names {
				names[j] = fmt.Sprintf("a%d", rng.Intn(2+k/2))
				if _, ok := obj[names[j]]; !ok {
					obj[names[j]] = randNumber(rng)
				}
				want = append(want, obj[names[j]])
			}
			kind := []fn.FunctionType{fn.MathFunction, fn.CastFunction, fn.SessionFunction, fn.UnknownFunctionType}[rng.Intn(4)]
			var seen []any
			own2 := fn.NewExecutor(fn.WithExecutorArguments(names), fn.WithExecutorName(name), fn.WithExecutorType(kind), fn.WithExecutorFunc(func(a ...any) (any, error) {
				seen = append([]any{}, a...)
				return len(a), nil
			}))
			if own2.Name() != name || own2.Type() != kind || fmt.Sprint(own2.Arguments()) != fmt.Sprint(names) {
				r.Fail("own executor", "%q %v %v: %q %v %v", name, kind, names, own2.Name(), own2.Type(), own2.Arguments())
			}
			if v, err := own2.Execute(obj); err != nil || v != any(k) || fmt.Sprint(seen) != fmt.Sprint(want) {
				r.Fail("own executor", "%q(%v) on %v: got %v (%v), want %v", name, names, obj, seen, err, want)
			}
			if v, err := own2.Execute(fn.NewMapWithMap(obj)); err != nil || v != any(k) || fmt.Sprint(seen) != fmt.Sprint(want) {
				r.Fail("own executor", "%q(%v) on map %v: got %v (%v), want %v", name, names, obj, seen, err, want)
			}
			if v, err := own2.Execute(want); err != nil || v != any(k) || fmt.Sprint(seen) != fmt.Sprint(want) {
				r.Fail("own executor", "%q of %v: got %v (%v)", name, want, seen, err)
			}
			if v, err := fn.NewExecutor(fn.WithExecutorName(name)).Execute([]any{x}); err == nil {
				r.Fail("own executor", "%q without a function gave %v", name, v)
			}
			f := fn.NewFunction(fn.WithFunctionExecutor(own2))
			if e, err := f.Executor(); err != nil || e != fn.Executor(own2) || f.IsAggregator() {
				r.Fail("own executor", "the function of %q has the executor %v (%v)", name, e, err)
			}
			if g := fn.NewFunction(fn.WithFunctionName("own_"+name), fn.WithFunctionType(kind)); g.Type() != kind || !g.IsType(kind) || !strings.EqualFold(g.Name(), "own_"+name) {
				r.Fail("own executor", "the function %q of kind %v: %q %v", "own_"+name, kind, g.Name(), g.Type())
			}
		})
		r.Ev("own functions")
		r.Case(fmt.Sprint("own ", name, x))
	})
	// Text functions.
	r.Parallel("text", r.N(4000, 60000), func(i int, rng *rand.Rand) {
		s := randString(rng, i%50 == 0)
		if rng.Intn(2) == 0 {
			sp := []string{" ", "\t", "\n", "  ", "\r\n", "\u00a0", "", ""}
			s = sp[rng.Intn(8)] + s + sp[rng.Intn(8)]
		}
		refs := map[string]func(string) string{
			"UPPER": func(s string) string { return strings.Map(unicode.ToUpper, s) },
			"LOWER": func(s string) string { return strings.Map(unicode.ToLower, s) },
			"TRIM": func(s string) string {
				return strings.TrimRightFunc(strings.TrimLeftFunc(s, unicode.IsSpace), unicode.IsSpace)
			},
		}
		for name, f := range refs {
			want := f(s)
			for way := 0; way < 4; way++ {
				r.Guard(name+strconv.Quote(s), func() {
					var v any
					var err error
					switch way {
					case 3: // a value by itself
						v, err = fn.ExecuteFunction(name, s)
					case 0:
						v, err = fn.ExecuteFunction(name, []any{s})
					case 1:
						var ex fn.Executor
						if ex, err = newScalar(name, fn.WithExecutorArguments([]string{"c"})); err == nil {
							v, err = ex.Execute(map[string]any{"c": s, "d": "other"})
						}
					case 2: // a literal argument
						var ex fn.Executor
						if ex, err = newScalar(name, fn.WithExecutorArguments([]string{quoted(s)})); err == nil {
							v, err = ex.Execute(map[string]any{"c": "other"})
						}
					}
					if err != nil || v != any(want) {
						r.Fail("text", "%s(%q) = %q (%v), want %q", name, s, v, err, want)
					}
				})
			}
			r.Ev(name)
		}
		r.Case("text " + strconv.Quote(s))
	})
	// RAND and the time functions.
	seen := map[float64]bool{}
	low, high := 0, 0
	n := r.N(20000, 200000)
	r.Guard("RAND", func() {
		for k := 0; k < n; k++ {
			v, err := fn.ExecuteFunction("RAND", []any{})
			x, ok := v.(float64)
			if err != nil || !ok || !(0 <= x && x < 1) {
				r.Fail("RAND", "RAND() = %v %v", v, err)
				return
			}
			seen[x] = true
			if x < 0.5 {
				low++
			} else {
				high++
			}
		}
		if len(seen) < n*9/10 || low < n/3 || high < n/3 {
			r.Fail("RAND", "%d calls: %d distinct values, %d below 0.5", n, len(seen), low)
		}
	})
	for n := 1; n < 4; n++ {
		r.Guard("RAND", func() {
			if v, err := fn.ExecuteFunction("RAND", make([]any, n)); err == nil {
				r.Fail("RAND", "RAND of %d arguments = %v", n, v)
			}
		})
	}
	r.Case("RAND")
	for k := 0; k < 200; k++ {
		for _, name := range []string{"NOW", "CURRENT_TIMESTAMP"} {
			r.Guard(name, func() {
				t0 := time.Now()
				v, err := fn.ExecuteFunction(name, []any{})
				t1 := time.Now()
				t, ok := v.(time.Time)
				if err != nil || !ok || t.Before(t0) || t1.Before(t) {
					r.Fail("time", "%s() = %v %v, called between %v and %v", name, v, err, t0, t1)
				}
			})
			r.Ev(name)
		}
	}
	r.Case("NOW")
	r.Case("CURRENT_TIMESTAMP")
}

func scalarOfRefs() []string {
	out := []string{}
	for _, ref := range mathRefs {
		out = append(out, ref.name)
	}
	return out
}

var functionKinds = map[string]fn.FunctionType{
	"ABS": fn.MathFunction, "CEIL": fn.MathFunction, "FLOOR": fn.MathFunction, "ROUND": fn.MathFunction, "SQRT": fn.MathFunction, "LOG": fn.MathFunction, "LOG10": fn.MathFunction, "EXP": fn.MathFunction, "POWER": fn.MathFunction, "MOD": fn.MathFunction,
	"SIN": fn.MathFunction, "COS": fn.MathFunction, "TAN": fn.MathFunction, "RAND": fn.MathFunction, "PI": fn.MathFunction,
	"UPPER": fn.StringFunction, "LOWER": fn.StringFunction, "TRIM": fn.StringFunction, "CURRENT_TIMESTAMP": fn.TimeFunction, "NOW": fn.TimeFunction,
	"MAX": fn.AggregateFunction, "MIN": fn.AggregateFunction, "SUM": fn.AggregateFunction, "AVG": fn.AggregateFunction, "COUNT": fn.AggregateFunction,
	"+": fn.ArithOperator, "-": fn.ArithOperator, "*": fn.ArithOperator, "/": fn.ArithOperator, "%": fn.ArithOperator,
}

// behavesAs decides by computing that the executor is the function of the name.
func behavesAs(name string, ex fn.Executor) error {
	switch name {
	case "UPPER", "LOWER", "TRIM":
		want := map[string]string{"UPPER": " AB ", "LOWER": " ab ", "TRIM": "aB"}[name]
		if v, err := ex.Execute([]any{" aB "}); err != nil || v != any(want) {
			return fmt.Errorf("%q gave %v %v", " aB ", v, err)
		}
		return nil
	case "NOW", "CURRENT_TIMESTAMP":
		if v, err := ex.Execute([]any{}); err != nil {
			return err
		} else if _, ok := v.(time.Time); !ok {
			return fmt.Errorf("gave %T", v)
		}
		return nil
	case "RAND":
		v, err := ex.Execute([]any{})
		if x, ok := v.(float64); err != nil || !ok || x < 0 || 1 <= x {
			return fmt.Errorf("gave %v %v", v, err)
		}
		return nil
	}
	for _, ref := range mathRefs {
		if ref.name != name {
			continue
		}
		args := [][]float64{{}, {2.7}, {7.5, 2.25}}[ref.arity]
		list := []any{}
		for _, a := range args {
			list = append(list, a)
		}
		want, _ := ref.f(args)
		v, err := ex.Execute(list)
		if x, ok := numberOf(v); err != nil || !ok || !sameNumber(x, want, false) {
			return fmt.Errorf("%v gave %v %v instead of %v", args, v, err, want)
		}
		return nil
	}
	return fmt.Errorf("unknown function")
}

func aggregatesAs(name string, ag fn.Aggregator) error {
	want := map[string]float64{"MAX": 6, "MIN": 1, "SUM": 9, "AVG": 3, "COUNT": 3}[name]
	if err := ag.Reset(); err != nil {
		return err
	}
	for _, v := range []any{2, 1, 6} {
		if err := ag.Aggregate([]any{v}); err != nil {
			return err
		}
	}
	rs, err := ag.Finalize()
	if err != nil {
		return err
	}
	if !rs.Next() {
		return fmt.Errorf("no row")
	}
	row, err := rs.Row()
	if err != nil || len(row) != 1 {
		return fmt.Errorf("row %v %v", row, err)
	}
	if x, ok := numberOf(row[0]); !ok || x != want {
		return fmt.Errorf("2, 1, 6 gave %v instead of %v", row[0], want)
	}
	return nil
}

// foreignNames are function names of other databases and plausible synonyms; those that are registered are left out.
var foreignNames = []string{
	"LN", "LOG2", "LG", "POW", "SQR", "CBRT", "TRUNC", "TRUNCATE", "SIGN", "ASIN", "ACOS", "ATAN", "ATAN2", "COT", "SINH", "COSH", "TANH", "DEGREES", "RADIANS", "RANDOM", "RND", "MODULO", "REMAINDER", "SQUARE", "SQUAREROOT", "ABSOLUTE", "EXPONENT", "FLR", "CEILINGS", "ROUNDUP", "DIV", "GREATEST", "LEAST",
	"UCASE", "LCASE", "UPPERCASE", "LOWERCASE", "TOUPPER", "TOLOWER", "LTRIM", "RTRIM", "BTRIM", "STRIP", "SUBSTR", "SUBSTRING", "LENGTH", "LEN", "CHAR_LENGTH", "CONCAT", "REPLACE", "REVERSE", "INITCAP", "LEFT", "RIGHT", "COALESCE", "IFNULL", "NULLIF", "CAST", "CONVERT",
	"CURRENT_TIME", "CURRENT_DATE", "LOCALTIME", "LOCALTIMESTAMP", "SYSDATE", "GETDATE", "TIMESTAMP", "DATE", "TIME", "CURTIME", "CURDATE", "UTC_TIMESTAMP", "CLOCK_TIMESTAMP", "CURRENTTIMESTAMP", "CURRENT TIMESTAMP",
	"MAXIMUM", "MINIMUM", "AVERAGE", "MEAN", "MEDIAN", "TOTAL", "SUMMATION", "CNT", "COUNT_BIG", "COUNT_DISTINCT", "STDDEV", "VARIANCE", "VAR", "FIRST", "LAST", "GROUP_CONCAT", "STRING_AGG",
	"ADD", "PLUS", "SUB", "MINUS", "MUL", "MULTIPLY", "TIMES", "DIVIDE", "**", "^", "||", "&", "|", "//", "++", "--", "=", "<", ">", "!", "~", "×", "÷", "−",
	"DATABASE", "VERSION", "USER", "CURRENT_USER", "CURRENT_SCHEMA", "CURRENT_DATABASE", "*)", "+(", "",
}

func checkFunctionNames(r *Run) {
	r.Rule = "every registered name in every or random letter case and near misses of it (prefixes, extensions, inserted, removed and swapped letters, spaces), looked up directly, in the registry and from parsed SELECTs, and identified by computing; non-trivial: distinct names"
	reg := fn.RegisteredFunctionNames()
	have := map[string]bool{}
	for _, n := range reg {
		have[n] = true
	}
	for n := range functionKinds {
		if !have[n] {
			r.Fail("registry", "%s is not registered", n)
		}
	}
	for _, n := range reg {
		if _, ok := functionKinds[n]; !ok {
			// A function that is newer than this monitor: it only has to resolve consistently.
			t, err := fn.NewFunctionTypeForName(n)
			if err != nil || t == fn.UnknownFunctionType {
				r.Fail("registry", "%s is registered but has no kind: %v", n, err)
			}
		}
	}
	resolve := func(base, name string) {
		kind := functionKinds[base]
		desc := fmt.Sprintf("name %q", name)
		r.Guard(desc, func() {
			if !fn.IsRegisteredFunction(name) {
				r.Fail("registry", "%s is not reported as registered", desc)
			}
			if t, err := fn.NewFunctionTypeForName(name); err != nil || t != kind {
				r.Fail("kind", "%s: kind %v (%v), want %v", desc, t, err, kind)
			}
			f := fn.NewFunction(fn.WithFunctionName(name), fn.WithFunctionArguments(fn.NewArgumentWith("c1")))
			if f.Type() != kind || !f.IsType(kind) || f.IsAggregator() != (kind == fn.AggregateFunction) || !strings.EqualFold(f.Name(), base) || !f.IsName(base) || !f.IsName(name) || !f.IsName(strings.ToLower(base)) {
				r.Fail("function", "%s: name %s kind %v aggregator %v", desc, f.Name(), f.Type(), f.IsAggregator())
			}
			for _, t := range []fn.FunctionType{fn.UnknownFunctionType, fn.MathFunction, fn.AggregateFunction, fn.CastFunction, fn.ArithOperator, fn.TimeFunction, fn.StringFunction, fn.SessionFunction} {
				if f.IsType(t) != (t == kind) {
					r.Fail("function", "%s: IsType(%v) is %v", desc, t, f.IsType(t))
				}
			}
			if g, ok := f.Function(); !f.IsFunction() || !ok || g == nil || f.IsAsterisk() {
				r.Fail("function", "%s: not reported as a function", desc)
			}
			for other := range functionKinds {
				if other != base && f.IsName(other) {
					r.Fail("function", "%s: also named %s", desc, other)
				}
			}
			// A function keeps its name and kind whatever is resolved from it, and a function made of what it resolves to has them too.
			keeps := func(f fn.Function, how string) {
				if f.Type() != kind || !f.IsType(kind) || f.IsAggregator() != (kind == fn.AggregateFunction) || !f.IsName(base) || !f.IsFunction() {
					r.Fail("function", "%s %s: name %s kind %v aggregator %v", desc, how, f.Name(), f.Type(), f.IsAggregator())
				}
				if kind == fn.AggregateFunction {
					if ex, err := f.Executor(); err == nil {
						r.Fail("function", "%s %s: has the executor %s", desc, how, ex.Name())
					}
					ag, err := f.Aggregator()
					if err != nil || !strings.EqualFold(ag.Name(), base) || ag.Type() != kind {
						r.Fail("function", "%s %s: aggregator %v", desc, how, err)
					} else if err := aggregatesAs(base, ag); err != nil {
						r.Fail("function", "%s %s: %v", desc, how, err)
					}
				} else {
					if ag, err := f.Aggregator(); err == nil {
						r.Fail("function", "%s %s: has the aggregator %s", desc, how, ag.Name())
					}
					ex, err := f.Executor()
					if err != nil || !strings.EqualFold(ex.Name(), base) || ex.Type() != kind {
						r.Fail("function", "%s %s: executor %v", desc, how, err)
					} else if err := behavesAs(base, ex); err != nil {
						r.Fail("function", "%s %s: %v", desc, how, err)
					}
				}
				if f.Type() != kind || f.IsAggregator() != (kind == fn.AggregateFunction) || !f.IsName(base) {
					r.Fail("function", "%s %s, after resolving: name %s kind %v aggregator %v", desc, how, f.Name(), f.Type(), f.IsAggregator())
				}
			}
			keeps(fn.NewFunction(fn.WithFunctionArguments(fn.NewArgumentWith("c1")), fn.WithFunctionName(name)), "by name")
			if kind == fn.AggregateFunction {
				if ag, err := fn.NewAggregatorForName(name, fn.WithAggregatorArguments([]string{"c1"})); err == nil {
					f := fn.NewFunction(fn.WithFunctionAggregator(ag))
					keeps(f, "of an aggregator")
					if g, err := f.Aggregator(); err != nil || g != ag {
						r.Fail("function", "%s: the function of an aggregator has another one: %v", desc, err)
					}
				}
			} else if ex, err := fn.NewExecutorForName(name); err == nil {
				f := fn.NewFunction(fn.WithFunctionExecutor(ex))
				keeps(f, "of an executor")
				if g, err := f.Executor(); err != nil || g != ex {
					r.Fail("function", "%s: the function of an executor has another one: %v", desc, err)
				}
			}
			if kind == fn.AggregateFunction {
				for way := 0; way < 2; way++ {
					var ag fn.Aggregator
					var err error
					if way == 0 {
						ag, err = fn.NewAggregatorForName(name, fn.WithAggregatorArguments([]string{"c1"}))
					} else {
						ag, err = f.Aggregator()
					}
					if err != nil {
						r.Fail("aggregate", "%s: %v", desc, err)
						continue
					}
					if !strings.EqualFold(ag.Name(), base) || ag.Type() != fn.AggregateFunction {
						r.Fail("aggregate", "%s: name %s kind %v", desc, ag.Name(), ag.Type())
					}
					if err := aggregatesAs(base, ag); err != nil {
						r.Fail("aggregate", "%s: %v", desc, err)
					}
				}
				if ex, err := fn.NewExecutorForName(name); err == nil {
					r.Fail("aggregate", "%s resolves to the scalar %s", desc, ex.Name())
				} else if !errors.Is(err, fn.ErrNotSupported) {
					r.Fail("aggregate", "%s as a scalar: %v", desc, err)
				}
				return
			}
			for way := 0; way < 3; way++ {
				var ex fn.Executor
				var err error
				switch way {
				case 0:
					ex, err = fn.NewExecutorForName(name)
				case 1:
					ex, err = f.Executor()
				case 2:
					if kind != fn.ArithOperator {
						continue
					}
					ex, err = fn.NewArithOperatorFor(name)
				}
				if err != nil {
					r.Fail("scalar", "%s: %v", desc, err)
					continue
				}
				if !strings.EqualFold(ex.Name(), base) || ex.Type() != kind {
					r.Fail("scalar", "%s: name %s kind %v, want %s %v", desc, ex.Name(), ex.Type(), base, kind)
				}
				if err := behavesAs(base, ex); err != nil {
					r.Fail("scalar", "%s: %v", desc, err)
				}
			}
			if ag, err := fn.NewAggregatorForName(name, fn.WithAggregatorArguments([]string{"c1"})); err == nil {
				r.Fail("scalar", "%s resolves to the aggregate %s", desc, ag.Name())
			} else if !errors.Is(err, fn.ErrNotSupported) {
				r.Fail("scalar", "%s as an aggregate: %v", desc, err)
			}
		})
		r.Ev("resolved")
		r.Case(desc)
	}
	isKnown := func(n string) bool {
		_, ok := functionKinds[strings.ToUpper(n)]
		return ok || have[strings.ToUpper(n)] || strings.EqualFold(n, "CEILING")
	}
	unknown := func(name string) {
		desc := fmt.Sprintf("unknown name %q", name)
		r.Guard(desc, func() {
			if ex, err := fn.NewExecutorForName(name); err == nil {
				r.Fail("unknown resolved", "%s to %s", desc, ex.Name())
			} else if !errors.Is(err, fn.ErrNotSupported) {
				r.Fail("unknown error", "%s: %v", desc, err)
			}
			if ag, err := fn.NewAggregatorForName(name, fn.WithAggregatorArguments([]string{"c1"})); err == nil {
				r.Fail("unknown resolved", "%s to aggregate %s", desc, ag.Name())
			} else if !errors.Is(err, fn.ErrNotSupported) {
				r.Fail("unknown error", "%s: %v", desc, err)
			}
			if set, err := fn.NewAggregatorSetForNames([]string{"SUM", name, "max"}, fn.WithAggregatorArguments([]string{"c1"})); err == nil {
				r.Fail("unknown resolved", "%s in a set of %d aggregates", desc, len(set))
			}
			if ex, err := fn.NewArithOperatorFor(name); err == nil {
				r.Fail("unknown resolved", "%s to operator %s", desc, ex.Name())
			} else if !errors.Is(err, fn.ErrNotSupported) {
				r.Fail("unknown error", "%s: %v", desc, err)
			}
			if v, err := fn.ExecuteFunction(name, []any{1.0}); err == nil {
				r.Fail("unknown executed", "%s gave %v", desc, v)
			}
			if t, err := fn.NewFunctionTypeForName(name); err == nil || t != fn.UnknownFunctionType {
				r.Fail("unknown kind", "%s: %v %v", desc, t, err)
			} else if !errors.Is(err, fn.ErrNotSupported) {
				r.Fail("unknown error", "%s: %v", desc, err)
			}
			f := fn.NewFunction(fn.WithFunctionName(name), fn.WithFunctionArguments(fn.NewArgumentWith("c1")))
			if f.IsAggregator() || f.Type() != fn.UnknownFunctionType {
				r.Fail("unknown kind", "%s: function kind %v", desc, f.Type())
			}
			if ex, err := f.Executor(); err == nil {
				r.Fail("unknown resolved", "%s to %s", desc, ex.Name())
			}
			if ag, err := f.Aggregator(); err == nil {
				r.Fail("unknown resolved", "%s to aggregate %s", desc, ag.Name())
			}
			// The registry also accepts a name followed by its parenthesis.
			bare := name
			if k := strings.IndexAny(name, "()"); 0 <= k {
				bare = name[:k]
			}
			if !isKnown(bare) && fn.IsRegisteredFunction(name) {
				r.Fail("unknown registered", "%s", desc)
			}
		})
		r.Ev("unknown names refused")
		r.Case(desc)
	}
	bases := []string{}
	for _, b := range reg {
		if _, ok := functionKinds[b]; ok {
			bases = append(bases, b)
		}
	}
	// Names of functions elsewhere that are not registered here.
	for _, n := range foreignNames {
		if !isKnown(n) {
			unknown(n)
			unknown(strings.ToLower(n))
		}
	}
	// Every letter case of short names.
	for _, b := range bases {
		if len(b) <= 5 {
			for m := 0; m < 1<<len(b); m++ {
				bs := []byte(strings.ToLower(b))
				for k := range bs {
					if m>>k&1 == 1 {
						bs[k] = b[k]
					}
				}
				if m != 0 || b != string(bs) || len(b) == 1 {
					resolve(b, string(bs))
				}
			}
		}
		resolve(b, b)
		resolve(b, strings.ToLower(b))
	}
	r.Parallel("names", r.N(4000, 60000), func(i int, rng *rand.Rand) {
		b := bases[rng.Intn(len(bases))]
		resolve(b, randCase(rng, b))
		n := randCase(rng, b)
		switch rng.Intn(10) {
		case 0:
			n = n[:rng.Intn(len(n))]
		case 1:
			n += string(rune('a' + rng.Intn(26)))
		case 2:
			n = string(rune('a'+rng.Intn(26))) + n
		case 3:
			n += []string{" ", "\n", "(", ")", "()", "_", "1", "2", "(x)", ";", "."}[rng.Intn(11)]
		case 4:
			n = []string{" ", "(", "_", "x."}[rng.Intn(4)] + n + []string{"", ")", "("}[rng.Intn(3)]
		case 5:
			k := rng.Intn(len(n))
			n = n[:k] + n[k+1:]
		case 6:
			k := rng.Intn(len(n))
			n = n[:k] + string(rune('a'+rng.Intn(26))) + n[k+1:]
		case 7:
			n += randCase(rng, bases[rng.Intn(len(bases))])
		case 8:
			n = randName(rng, false)
		case 9:
			n = ""
			for k := 0; k < 1+rng.Intn(6); k++ {
				n += string(rune('!' + rng.Intn(90)))
			}
		}
		if !isKnown(n) {
			unknown(n)
		}
	})
	// From parsed statements.
	r.Parallel("parsed", r.N(1500, 20000), func(i int, rng *rand.Rand) {
		names, want := []string{}, []string{}
		for k, n := 0, 1+rng.Intn(4); k < n; k++ {
			b := bases[rng.Intn(len(bases))]
			if len(b) == 1 || b == "CURRENT_TIMESTAMP" {
				b = "NOW"
			}
			args := map[int]string{0: "", 1: "c1", 2: "c1, c2"}[arityOf(b)]
			names = append(names, randCase(rng, b)+"("+args+")")
			want = append(want, b)
		}
		text := "SELECT " + strings.Join(names, ", ") + " FROM t"
		r.Guard(text, func() {
			stmts, err := Parse(text)
			if err != nil || len(stmts) != 1 {
				r.Fail("parse", "%s: %v", text, err)
				return
			}
			sels := stmts[0].(query.Select).Selectors()
			if len(sels) != len(want) {
				r.Fail("parse", "%s: %d selectors", text, len(sels))
				return
			}
			for k, s := range sels {
				f, ok := s.Function()
				if !ok || !s.IsFunction() {
					r.Fail("parsed", "%s: selector %d is no function", text, k)
					continue
				}
				if !f.IsName(want[k]) || f.Type() != functionKinds[want[k]] || f.IsAggregator() != (functionKinds[want[k]] == fn.AggregateFunction) {
					r.Fail("parsed", "%s: selector %d is %s of kind %v", text, k, f.Name(), f.Type())
				}
				if f.IsAggregator() {
					ag, err := f.Aggregator()
					if err != nil || !strings.EqualFold(ag.Name(), want[k]) {
						r.Fail("parsed", "%s: aggregator of %d: %v", text, k, err)
					} else if err := aggregatesAs(want[k], ag); err != nil {
						r.Fail("parsed", "%s: aggregator of %d: %v", text, k, err)
					}
					continue
				}
				ex, err := f.Executor()
				if err != nil {
					r.Fail("parsed", "%s: executor of %d: %v", text, k, err)
				} else if err := behavesAs(want[k], ex); err != nil {
					r.Fail("parsed", "%s: executor of %d: %v", text, k, err)
				}
			}
		})
		r.Ev("parsed calls")
		r.Case(text)
	})
}

func arityOf(name string) int {
	for _, ref := range mathRefs {
		if ref.name == name {
			return ref.arity
		}
	}
	switch name {
	case "NOW", "CURRENT_TIMESTAMP", "RAND":
		return 0
	}
	return 1
}
