package other

var Global = map[string]int{"a": 1}
var Counter int

type Opt func(*Cfg)
type Cfg struct {
	N    int
	Tags []string
}

func Tag[T any](c *Cfg, v T, f func(T) string) *Cfg { c.Tags = append(c.Tags, f(v)); return c }
func With(n int) Opt                                 { return func(c *Cfg) { c.N = n } }
func Pair[A, B any](a A, b B) (A, B)                 { return a, b }
