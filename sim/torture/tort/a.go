package tort

import (
	"bytes"
	"errors"
	"fmt"
	"iter"
	"maps"
	"math"
	"math/bits"
	"math/rand"
	randv2 "math/rand/v2"
	"os"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	at "sync/atomic"
	tm "time"
	"unicode/utf8"
	"unsafe"

	. "torture/other"
	oth "torture/other"
)

type kind int

const (
	kA kind = iota
	kB
	kC
)

func (k kind) String() string { return [...]string{"A", "B", "C"}[k] }

var (
	table = map[kind]func(int) int{kA: func(i int) int { return i + 1 }, kB: double}
	x0, y0 = initPair()
	zero   [4]int
	mu     sync.Mutex
	once   sync.Once
	rw     sync.RWMutex
	pool   = sync.Pool{New: func() any { return new(bytes.Buffer) }}
	smap   sync.Map
	lazy   = sync.OnceValue(func() int { return 42 })
	lazyF  = sync.OnceFunc(func() { inited++ })
	lazy2  = sync.OnceValues(func() (int, error) { return 7, nil })
	inited int
	cnt    at.Int64
	flag   at.Bool
	ptr    at.Pointer[node]
	anyv   at.Value
	raw    int32
	_      = fmt.Sprint
	ErrX   = errors.New("x")
	hook   func(string) = nil
	lit    = []struct {
		n string
		f func() int
	}{{"one", func() int { return 1 }}, {"two", func() int { return 2 }}}
)

func double(i int) int { return i * 2 }
func initPair() (int, string) {
	return 3, "y"
}

func init() { zero[1] = 5 }
func init() { inited = 1 }

type node struct {
	next *node
	val  int
	kids []*node
	m    map[string][]int
	arr  [3]struct{ a, b int }
	fn   func(int) int
}

type emb struct {
	*node
	sync.Mutex
	name string
}

type list[T any] struct {
	head *elem[T]
	n    int
}
type elem[T any] struct {
	v    T
	next *elem[T]
}

func (l *list[T]) push(v T) *list[T] { l.head = &elem[T]{v, l.head}; l.n++; return l }
func (l *list[T]) all() iter.Seq2[int, T] {
	return func(yield func(int, T) bool) {
		i := 0
		for e := l.head; e != nil; e = e.next {
			if !yield(i, e.v) {
				return
			}
			i++
		}
	}
}

func mapf[T, U any, S ~[]T](s S, f func(T) U) []U {
	r := make([]U, 0, len(s))
	for _, v := range s {
		r = append(r, f(v))
	}
	return r
}

type number interface {
	~int | ~int8 | ~int64 | ~float64
}

func sum[N number](ns ...N) (t N) {
	for _, n := range ns {
		t += n
	}
	return
}
func idx[S ~[]E | ~string, E any](s S, i int) int { return len(s) - i }
func getk[M ~map[K]V, K comparable, V any](m M, k K) (V, bool) { v, ok := m[k]; return v, ok }
func elemAt[S []byte | string](s S, i int) byte                { return s[i] }
func rng[S ~[]E, E comparable](s S, e E) int {
	for i := range s {
		if s[i] == e {
			return i
		}
	}
	return -1
}

func Labels() string {
	var sb strings.Builder
outer:
	for i := 0; i < 5; i++ {
	inner:
		for j := range 5 {
			switch {
			case j == 3:
				continue outer
			case i == 3:
				break outer
			case (i+j)%2 == 0:
				continue inner
			default:
			}
			fmt.Fprint(&sb, i, j, " ")
		}
	}
	i := 0
again:
	i++
	if i < 3 {
		goto again
	}
	fmt.Fprint(&sb, i)
blk:
	{
		if i == 3 {
			goto sw
		}
		if i == 99 {
			goto blk
		}
	}
sw:
	switch i {
	case 3:
		for {
			break sw
		}
	}
	m := []int{1, 2, 3}
lp:
	for _, v := range m {
		for k := range map[int]int{1: 1} {
			if v == 2 {
				continue lp
			}
			_ = k
		}
		fmt.Fprint(&sb, "v", v)
	}
	goto end
end:
	return sb.String()
}

func Switches(v any) (r string) {
	switch x := v.(type) {
	case nil:
		r = "nil"
	case int, int64:
		r = fmt.Sprintf("int %v", x)
	case string:
		r = "s" + x
	case *node:
		x.val++
		r = strconv.Itoa(x.val)
	case func() int:
		r = fmt.Sprint(x())
	case error:
		r = x.Error()
	case []int:
		for _, e := range x {
			r += strconv.Itoa(e)
		}
	case fmt.Stringer:
		r = x.String()
	default:
		r = fmt.Sprintf("%T", x)
	}
	switch n := len(r); {
	case n > 3:
		r += "!"
		fallthrough
	case n > 2:
		r += "?"
	}
	switch y := v.(type) {
	case string:
		f := func() { y += "z" }
		f()
		r += y
	}
	switch any(r).(type) {
	}
	switch v.(type) {
	case int:
		r += "i"
	}
	return
}

func Defers() (r string, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("rec: %v", e)
			r += "d"
		}
	}()
	for i := range 3 {
		defer func(n int) { r += strconv.Itoa(n) }(i)
	}
	for _, v := range []int{7, 8} {
		defer func() { r += strconv.Itoa(v) }()
	}
	mu.Lock()
	defer mu.Unlock()
	var a []int
	_ = a[len(r)]
	return "x", nil
}

func Structs() string {
	n := node{val: 1, m: map[string][]int{"k": {1, 2}}, kids: []*node{{val: 2}, {val: 3, next: &node{val: 4}}}}
	n.arr[1].a = 4
	n.arr[1].b++
	p := &n.arr[1]
	p.a += 2
	n.m["k"][1] = 9
	n.m["z"] = append(n.m["z"], 5, 6)
	delete(n.m, "q")
	n.kids[1].next.val *= 2
	n.fn = func(i int) int { return i + n.val }
	e := emb{node: &n, name: "e"}
	e.Lock()
	e.val++
	e.arr[2].a = e.fn(3)
	e.Unlock()
	f := e.fn
	g := n.kids[0].get
	h := (*node).get
	k := kind.String
	anon := struct {
		a, b int
		c    [2]string
	}{1, 2, [2]string{"x", "y"}}
	anon.c[0] += "w"
	cp := anon
	cp.a = 9
	arr := [...]int{3: 4, 1: 2}
	sl := arr[1:3:4]
	sl[0]++
	sl = append(sl, 1)
	pa := &arr
	pa[0] = 8
	for i, v := range pa {
		pa[i] = v + 1
	}
	for i := range arr {
		arr[i]--
	}
	for i, v := range arr {
		arr[len(arr)-1-i] = v
	}
	pp := &p
	(*pp).a++
	(**pp).b--
	*(&n.val) = 77
	mm := map[struct{ a int }]*int{{1}: new(int)}
	*mm[struct{ a int }{1}]++
	ms := map[string]struct{ q int }{"a": {3}}
	q := ms["a"].q
	mp := map[string]*node{"r": {val: 5}}
	mp["r"].val++
	var ifc interface{ get() int } = mp["r"]
	v2, ok := ifc.(*node)
	mat := [][]int{{1, 2}, {3}}
	mat[0][1], mat[1][0] = mat[1][0], mat[0][1]
	a1, b1 := Pair(1, "p")
	return fmt.Sprint(f(1), g(), h(n.kids[1]), k(kC), anon, cp, arr, sl, *pa, n.arr, *mm[struct{ a int }{1}], q, v2.val, ok, mat, a1, b1, n.m, unsafe.Sizeof(n.val), len(arr), cap(sl), min(1, 2, q), max(2.5, float64(q)), e.name, e.node.val)
}
func (n *node) get() int { return n.val }

func Closures() string {
	var fs []func() int
	for i := 0; i < 3; i++ {
		fs = append(fs, func() int { i *= 2; return i })
	}
	var fib func(int) int
	fib = func(n int) int {
		if n < 2 {
			return n
		}
		return fib(n-1) + fib(n-2)
	}
	c := 0
	inc := func() (int, error) { c++; return c, nil }
	var err error
	c, err = inc()
	d, err := inc()
	if e, err2 := inc(); err2 == nil && e > 0 {
		c += e
	} else if z := c; z > 3 {
		c = z
	} else {
		c--
	}
	for a, b := 0, 10; a < b; a, b = a+1, b-1 {
		c += func() int { return a * b }()
	}
	var once sync.Once
	for range 3 {
		once.Do(func() { c += 100 })
	}
	r := ""
	for _, f := range fs {
		r += fmt.Sprint(f(), f())
	}
	func() {
		defer func() { recover() }()
		panic("p")
	}()
	if v := hook; v != nil {
		v("x")
	}
	return fmt.Sprint(r, fib(10), c, d, err)
}

func Generics() string {
	l := (&list[string]{}).push("a").push("b")
	r := ""
	for i, v := range l.all() {
		r += strconv.Itoa(i) + v
		if i == 0 {
			continue
		}
	}
	type ints []int
	r += fmt.Sprint(mapf[int, string](ints{1, 2}, strconv.Itoa), mapf([]string{"q"}, func(s string) int { return len(s) }))
	f := mapf[int, int, []int]
	r += fmt.Sprint(f([]int{4}, double), sum(1, 2, 3), sum[float64](), sum([]int8{1, 2}...))
	v, ok := getk(map[string]int{"a": 4}, "a")
	r += fmt.Sprint(v, ok, elemAt("abc", 1), elemAt([]byte("abc"), 2), rng([]string{"a", "b"}, "b"), idx[string, byte]("abc", 1))
	c := &Cfg{}
	With(4)(c)
	oth.Tag(c, 5, func(i int) string { return strconv.Itoa(i) })
	oth.Tag[string](c, "x", strings.ToUpper)
	oth.Counter++
	Global["b"] = oth.Counter
	return r + fmt.Sprint(*c, len(oth.Global), Counter)
}

func Std() string {
	s := []int{3, 1, 2}
	sort.Ints(s)
	slices.Reverse(s)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	slices.SortFunc(s, func(a, b int) int { return b - a })
	ks := slices.Sorted(maps.Keys(map[string]int{"b": 1, "a": 2}))
	vs := slices.Collect(maps.Values(map[int]string{1: "z"}))
	for k, v := range maps.All(map[int]int{1: 2}) {
		ks = append(ks, fmt.Sprint(k, v))
	}
	m2 := maps.Clone(map[int]int{5: 6})
	maps.Copy(m2, map[int]int{7: 8})
	maps.DeleteFunc(m2, func(k, v int) bool { return k == 5 })
	var bb bytes.Buffer
	bb.WriteString("hi")
	bb.WriteByte('!')
	fmt.Fprintf(&bb, "%d", 3)
	var sb strings.Builder
	sb.Grow(10)
	w := &sb
	w.WriteRune('é')
	for i, r := range "aé\xff" {
		fmt.Fprint(w, i, string(r), utf8.RuneLen(r))
	}
	b := []byte("abc")
	b = append(b, "def"...)
	copy(b[1:], "ZZ")
	b = strconv.AppendInt(b, 5, 10)
	n, err := strconv.Atoi("12x")
	clear(s)
	x := reflect.ValueOf(&bb).Elem().NumField()
	u := bits.Len(8) | 1<<3&^2
	fl := math.Float64bits(1.5)
	bs := unsafe.String(&b[0], 3)
	return fmt.Sprint(ks, vs, m2, bb.String(), sb.String(), string(b), n, err, s, x, u, fl, bs, slices.Contains(ks, "a"), slices.IndexFunc(ks, func(s string) bool { return s == "b" }), errors.Is(ErrX, ErrX), os.Getenv("NOPE"))
}

func Sync() string {
	var wg sync.WaitGroup
	var total int
	ch := make(chan int)
	done := make(chan struct{})
	res := make(chan string, 4)
	for i := range 4 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			total += i
			mu.Unlock()
			cnt.Add(int64(i))
			at.AddInt32(&raw, 1)
			ch <- i
		}()
	}
	go worker(ch, done, res, "w")
	wg.Wait()
	close(done)
	r := <-res
	if _, ok := <-done; ok {
		r += "bad"
	}
	rw.RLock()
	r += fmt.Sprint(inited)
	rw.RUnlock()
	once.Do(func() { inited = 5 })
	buf := pool.Get().(*bytes.Buffer)
	buf.Reset()
	buf.WriteString("pool")
	r += buf.String()
	pool.Put(buf)
	smap.Store("a", 1)
	v, ok := smap.Load("a")
	act, loaded := smap.LoadOrStore("b", 2)
	smap.Range(func(k, v any) bool { r += fmt.Sprint(k, v); return true })
	smap.Delete("a")
	lazyF()
	lazyF()
	l2, e2 := lazy2()
	flag.Store(true)
	ptr.Store(&node{val: 3})
	anyv.Store("q")
	sw := flag.CompareAndSwap(true, false)
	cond := sync.NewCond(&mu)
	ready := false
	go func() { mu.Lock(); ready = true; cond.Broadcast(); mu.Unlock() }()
	mu.Lock()
	for !ready {
		cond.Wait()
	}
	mu.Unlock()
	var wg2 sync.WaitGroup
	wg2.Go(func() { flag.Store(true) })
	wg2.Wait()
	return fmt.Sprint(r, total, cnt.Load(), at.LoadInt32(&raw), v, ok, act, loaded, inited, l2, e2, sw, ptr.Load().val, anyv.Load(), lazy(), flag.Load(), mu.TryLock())
}

func worker(in <-chan int, done chan struct{}, out chan<- string, name string) {
	t := 0
	n := 0
loop:
	for {
		select {
		case v, ok := <-in:
			if !ok {
				break loop
			}
			t += v
			n++
		case <-done:
			break loop
		}
	}
	select {
	case v := <-in:
		t += v
	default:
	}
	out <- fmt.Sprint(name, t, n)
}

func Selects() string {
	a, b := make(chan int, 1), make(chan string, 1)
	r := ""
	select {
	case a <- 1:
		r += "sent"
	case s := <-b:
		r += s
	}
	var nilch chan int
	select {
	case <-nilch:
		r += "never"
	case x := <-a:
		r += fmt.Sprint(x)
	}
	arr := []int{0}
	a <- 4
	select {
	case arr[0] = <-a:
		r += fmt.Sprint(arr)
	}
	var ok bool
	close(b)
	var z string
	select {
	case z, ok = <-b:
		r += fmt.Sprint(z, ok)
	default:
		r += "def"
	}
	go func() { b := 1; _ = b; a <- 9 }()
	for v := range a {
		r += fmt.Sprint(v)
		break
	}
	g := producer(3)
	for v := range g {
		r += fmt.Sprint(v)
	}
	return r
}
func producer(n int) <-chan int {
	c := make(chan int)
	go func() {
		defer close(c)
		for i := range n {
			c <- i
		}
	}()
	return c
}

func Consts() string {
	const big = 1 << 40
	var a [big >> 38]int
	a[2] = big >> 39
	x := 5
	x <<= 2
	x &^= 4
	x ^= 1
	x |= x << 1
	var u8 uint8 = 255
	u8++
	var p *int = &x
	*p += 2
	(*p)++
	y, z := *p, -*p
	y %= 7
	var e interface{} = x
	i, _ := e.(int)
	_, ok := e.(string)
	var c complex128 = complex(1, 2)
	c += 1i
	return fmt.Sprint(a, x, u8, y, z, i, ok, real(c), imag(c), !ok, ^x, +x, x0, y0, zero, table[kA](1), table[kB](4), lit[0].n, lit[1].f())
}

func Random() string {
	n := rand.Intn(1) + randv2.IntN(1)
	p := rand.Perm(3)
	t := tm.Now()
	el := tm.Since(t) >= 0
	tm.Sleep(1)
	d := tm.Until(t) <= 0
	fn := tm.Now
	_ = fn()
	_ = rand.Float64
	rand.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
	return fmt.Sprint(n, len(p), el, d, t.Year() > 2000)
}

func Shadow() string {
	strings := func(s string) int { return len(s) }
	len := func(s string) int { return 99 }
	append := 3
	max := 4
	time := "t"
	return fmt.Sprint(strings("abc"), len("a"), append+max, time)
}

func Linked() (r string) {
	type T = map[string]any
	t := T{"a": []any{1, "x", T{"b": nil}}}
	var walk func(v any, depth int)
	walk = func(v any, depth int) {
		switch v := v.(type) {
		case T:
			for k, e := range v {
				r += k
				walk(e, depth+1)
			}
		case []any:
			for i := range v {
				walk(v[i], depth+1)
			}
		default:
			r += fmt.Sprint(v, depth)
		}
	}
	walk(t, 0)
	if t["a"].([]any)[2].(T)["b"] == nil {
		r += "nil"
	}
	var np *node
	if np != nil && np.next.val > 0 || np == nil {
		r += "np"
	}
	for n := (&node{val: 1, next: &node{val: 2}}); n != nil; n = n.next {
		r += fmt.Sprint(n.val)
	}
	var (
		a, b = 1, "q"
		c    [2]int
	)
	c[a] = 3
	r += b + fmt.Sprint(c)
	func(xs ...int) { r += fmt.Sprint(xs) }(append([]int(nil), c[:]...)...)
	go func(s string) { _ = s }(r)
	go fmt.Sprint(1)
	defer fmt.Sprint(2)
	defer delete(t, "a")
	return
}

type seqT[T any] func(yield func(T) bool)

func Iters() string {
	r := ""
	var s seqT[int] = func(y func(int) bool) {
		for i := 0; ; i++ {
			if !y(i) {
				return
			}
		}
	}
	for v := range s {
		if v > 3 {
			break
		}
		if v == 1 {
			continue
		}
		r += fmt.Sprint(v)
	}
	f := func() (q int) {
		for v := range s {
			if v == 7 {
				return v
			}
		}
		return -1
	}
	r += fmt.Sprint(f())
	next, stop := iter.Pull(iter.Seq[int](s))
	a, _ := next()
	b, _ := next()
	stop()
	r += fmt.Sprint(a, b)
	for range 2 {
		r += "."
	}
	for i := range uint8(3) {
		r += fmt.Sprint(i)
	}
	for i := range len(r) {
		if i > 1 {
			break
		}
		r += "x"
	}
	m := map[string]int{"q": 1}
	for m["w"] = range 3 {
	}
	var st struct{ i, v int }
	for st.i, st.v = range []int{4, 5} {
	}
	for k := range m {
		delete(m, k)
	}
	var e any
	for _, e = range []string{"a"} {
	}
	return fmt.Sprint(r, m, st, e)
}

type Sorter []string

func (s Sorter) Len() int           { return len(s) }
func (s Sorter) Less(i, j int) bool { return s[i] < s[j] }
func (s Sorter) Swap(i, j int)      { s[i], s[j] = s[j], s[i] }

func All() (out []string) {
	d, e := Defers()
	s := Sorter{"b", "a"}
	sort.Sort(s)
	out = append(out, Labels(), Switches(nil), Switches(3), Switches("abc"), Switches(&node{}), Switches(ErrX), Switches([]int{1, 2}), Switches(kB), Switches(1.5), d, fmt.Sprint(e),
		Structs(), Closures(), Generics(), Std(), Sync(), Selects(), Consts(), Random(), Shadow(), Linked(), Iters(), s[0], tagged(), fmt.Sprint(Fields()))
	return
}
