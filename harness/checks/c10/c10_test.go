package c10

import (
	"crypto/md5"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/keystore"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

var (
	root string
	seq  int
)

func TestMain(m *testing.M) {
	var err error
	if root, err = os.MkdirTemp(os.Getenv("H_SCRATCH"), "c10"); err != nil {
		panic(err)
	}
	h.Main(m)
}

// admin is the part of the store every category offers.
type admin interface {
	Load()
	PutAdmin(name, pwd string, _type int8)
	DelAdmin(name string)
	GetAdmin(name string) (*keystore.UserBean, bool)
	AdminList() []string
	PutClient(name, pwd string, _type int8)
	DelClient(name string)
	GetClient(name string) (*keystore.UserBean, bool)
	ClientList() []string
	PutMq(name, pwd string, _type int8)
	DelMq(name string)
	GetMq(name string) (*keystore.UserBean, bool)
	MqList() []string
	PutOther(key, value string)
	DelOther(key string)
	GetOther(key string) (string, bool)
}

type user struct {
	pwd string
	typ int8
}

type model struct {
	users [3]map[string]user
	other map[string]string
}

func newModel() *model {
	m := &model{other: map[string]string{}}
	for i := range m.users {
		m.users[i] = map[string]user{}
	}
	return m
}

type cat struct {
	name string
	put  func(n, p string, ty int8)
	del  func(n string)
	get  func(n string) (*keystore.UserBean, bool)
	list func() []string
}

func cats(s admin) []cat {
	return []cat{{"admin", s.PutAdmin, s.DelAdmin, s.GetAdmin, s.AdminList}, {"client", s.PutClient, s.DelClient, s.GetClient, s.ClientList}, {"mq", s.PutMq, s.DelMq, s.GetMq, s.MqList}}
}

func hash(p string) string { return strings.ToUpper(fmt.Sprintf("%x", md5.Sum([]byte(p)))) }

// kept are beans handed out, with what they said: a later change does not reach into them.
type kept []struct {
	u *keystore.UserBean
	w keystore.UserBean
}

func (l *kept) keep(u *keystore.UserBean, ok bool) {
	if ok && u != nil && len(*l) < 60 {
		*l = append(*l, struct {
			u *keystore.UserBean
			w keystore.UserBean
		}{u, *u})
	}
}

func (l kept) check(t *rapid.T, c *h.C, when string) {
	for _, k := range l {
		h.Must(t, c, *k.u == k.w, "%s: an answer given before has changed from %v to %v", when, k.w, *k.u)
	}
}

func look(t *rapid.T, c *h.C, s admin, m *model, names []string, when string) {
	for i, k := range cats(s) {
		for _, n := range names {
			u, ok := k.get(n)
			w, there := m.users[i][n]
			h.Must(t, c, ok == there, "%s: %s %q found=%v, want %v", when, k.name, n, ok, there)
			if there {
				h.Must(t, c, u != nil && u.Name == n && u.Pwd == hash(w.pwd) && u.Type == w.typ, "%s: %s %q is %v, want password hash %s type %d", when, k.name, n, u, hash(w.pwd), w.typ)
			}
		}
		got := k.list()
		var want []string
		for n := range m.users[i] {
			want = append(want, n)
		}
		sort.Strings(got)
		sort.Strings(want)
		h.Must(t, c, fmt.Sprintf("%q", got) == fmt.Sprintf("%q", append([]string{}, want...)), "%s: %s list is %q, want %q", when, k.name, got, want)
	}
	for _, n := range names {
		v, ok := s.GetOther(n)
		w, there := m.other[n]
		h.Must(t, c, ok == there && v == w, "%s: setting %q is %q, %v; want %q, %v", when, n, v, ok, w, there)
	}
}

func openStore(t *rapid.T, c *h.C, dir string) admin {
	ks, err := keystore.NewKeyStore(dir, "ks")
	h.Must(t, c, err == nil, "NewKeyStore: %v", err)
	keystore.KeyStore = ks
	s := keystore.NewStoreAdmin()
	s.Load()
	return s
}

func str(t *rapid.T, l string) string {
	switch rapid.IntRange(0, 4).Draw(t, l+".how") {
	case 0:
		return string(h.Bytes(t, l, 60))
	case 1:
		return string(h.Bytes(t, l, 5000))
	default:
		return rapid.StringN(0, 8, -1).Draw(t, l)
	}
}

func TestHistory(t *testing.T) {
	h.Check(t, 500, 8000, func(t *rapid.T, c *h.C) {
		seq++
		dir := filepath.Join(root, fmt.Sprint(seq))
		defer os.RemoveAll(dir)
		names := []string{str(t, "name"), str(t, "name"), "root", "", "a"}
		s := openStore(t, c, dir)
		m := newModel()
		look(t, c, s, m, names, "fresh store")
		var given kept
		steps := rapid.IntRange(1, 25).Draw(t, "steps")
		for i := 0; i < steps; i++ {
			n := names[rapid.IntRange(0, len(names)-1).Draw(t, "who")]
			k := rapid.IntRange(0, 3).Draw(t, "category")
			if k < 3 {
				given.keep(cats(s)[k].get(n))
			}
			switch op := rapid.SampledFrom([]string{"put", "put", "put", "del", "reload", "reopen"}).Draw(t, "op"); op {
			case "put":
				v := str(t, "value")
				if k == 3 {
					c.Note("setting %q=%q", n, h.B([]byte(v)))
					s.PutOther(n, v)
					m.other[n] = v
				} else {
					ty := rapid.Int8().Draw(t, "type")
					c.Note("put %d %q %s %d", k, n, h.B([]byte(v)), ty)
					cats(s)[k].put(n, v, ty)
					m.users[k][n] = user{v, ty}
				}
				c.Key([]byte(v))
				c.NonTrivialIf(i > 0)
			case "del":
				c.Note("del %d %q", k, n)
				if k == 3 {
					s.DelOther(n)
					delete(m.other, n)
				} else {
					cats(s)[k].del(n)
					delete(m.users[k], n)
				}
			case "reload":
				c.Note("reload")
				s.Load()
			case "reopen":
				c.Note("reopen")
				s = openStore(t, c, dir)
			}
			look(t, c, s, m, names, fmt.Sprintf("after step %d", i))
			given.check(t, c, fmt.Sprintf("after step %d", i))
		}
		look(t, c, openStore(t, c, dir), m, names, "reopened at the end")
	})
}

// Goroutines work on their own names; the store must end as all of them left it.
func TestConcurrent(t *testing.T) {
	h.Check(t, 60, 1000, func(t *rapid.T, c *h.C) {
		seq++
		dir := filepath.Join(root, fmt.Sprint(seq))
		defer os.RemoveAll(dir)
		s := openStore(t, c, dir)
		m := newModel()
		g := rapid.IntRange(2, 5).Draw(t, "goroutines")
		type op struct {
			cat, del int
			name     string
			val      string
			typ      int8
		}
		plan := make([][]op, g)
		var names []string
		for i := range plan {
			mine := []string{fmt.Sprintf("n%d", i), fmt.Sprintf("m%d", i)}
			names = append(names, mine...)
			for k := rapid.IntRange(1, 8).Draw(t, "ops"); k > 0; k-- {
				o := op{rapid.IntRange(0, 3).Draw(t, "cat"), rapid.IntRange(0, 3).Draw(t, "del"), mine[rapid.IntRange(0, 1).Draw(t, "n")], rapid.StringN(0, 6, -1).Draw(t, "v"), rapid.Int8().Draw(t, "ty")}
				plan[i] = append(plan[i], o)
				c.Note("%d:%v", i, o)
				if o.cat == 3 {
					if o.del == 0 {
						delete(m.other, o.name)
					} else {
						m.other[o.name] = o.val
					}
				} else if o.del == 0 {
					delete(m.users[o.cat], o.name)
				} else {
					m.users[o.cat][o.name] = user{o.val, o.typ}
				}
			}
		}
		c.NonTrivial()
		errs := make([]string, g)
		var wg sync.WaitGroup
		for i := range plan {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range plan[i] {
					if o.cat == 3 {
						if o.del == 0 {
							s.DelOther(o.name)
						} else {
							s.PutOther(o.name, o.val)
							if v, ok := s.GetOther(o.name); !ok || v != o.val {
								errs[i] = fmt.Sprintf("setting %q reads %q, %v after %q was put", o.name, v, ok, o.val)
							}
						}
						continue
					}
					k := cats(s)[o.cat]
					if o.del == 0 {
						k.del(o.name)
						if _, ok := k.get(o.name); ok {
							errs[i] = fmt.Sprintf("%s %q is there after its deletion", k.name, o.name)
						}
					} else {
						k.put(o.name, o.val, o.typ)
						if u, ok := k.get(o.name); !ok || u.Pwd != hash(o.val) || u.Type != o.typ {
							errs[i] = fmt.Sprintf("%s %q reads %v, %v after it was put", k.name, o.name, u, ok)
						}
					}
					k.list()
				}
			}()
		}
		wg.Wait()
		for i, e := range errs {
			h.Must(t, c, e == "", "goroutine %d: %s", i, e)
		}
		look(t, c, s, m, names, "after all goroutines")
		look(t, c, openStore(t, c, dir), m, names, "reopened")
	})
}

// Hundreds of names, long values.
func TestMany(t *testing.T) {
	h.Check(t, 4, 40, func(t *rapid.T, c *h.C) {
		seq++
		dir := filepath.Join(root, fmt.Sprint(seq))
		defer os.RemoveAll(dir)
		s := openStore(t, c, dir)
		m := newModel()
		n := rapid.SampledFrom([]int{127, 129, 200, 257}).Draw(t, "names")
		big := string(h.Big(t, "value", 2<<20))
		c.Note("%d names, a value of %d bytes", n, len(big))
		c.NonTrivial()
		c.Label("large")
		var names []string
		for i := 0; i < n; i++ {
			name := fmt.Sprint("name", i)
			names = append(names, name)
			for j, k := range cats(s) {
				if (i+j)%3 > 0 {
					k.put(name, name+"pwd", int8(i))
					m.users[j][name] = user{name + "pwd", int8(i)}
				}
			}
			s.PutOther(name, "v"+name)
			m.other[name] = "v" + name
		}
		look(t, c, s, m, names, "filled")
		for i := 0; i < n; i += 2 {
			s.DelClient(names[i])
			delete(m.users[1], names[i])
		}
		s.PutOther("big", big)
		m.other["big"] = big
		s.PutAdmin("big", big, 1) // (only its digest is kept)
		m.users[0]["big"] = user{big, 1}
		names = append(names, "big")
		look(t, c, s, m, names, "with long values")
		s = openStore(t, c, dir)
		look(t, c, s, m, names, "reopened")
		s.DelOther("big")
		delete(m.other, "big")
		look(t, c, openStore(t, c, dir), m, names, "reopened at the end")
	})
}
