package scen

import (
	"fmt"
	"strings"

	"github.com/donnie4w/gofer/keystore"
	"github.com/donnie4w/gofer/util"
	"github.com/donnie4w/gofer/verifsim/sim"
)

// acct addresses the four tables of the account store uniformly: value v is
// stored as password (or value) "v<v>" and type v%100.
type acct struct {
	s interface {
		PutAdmin(name, pwd string, t int8)
		DelAdmin(string)
		GetAdmin(string) (*keystore.UserBean, bool)
		AdminList() []string
		PutClient(name, pwd string, t int8)
		DelClient(string)
		GetClient(string) (*keystore.UserBean, bool)
		ClientList() []string
		PutMq(name, pwd string, t int8)
		DelMq(string)
		GetMq(string) (*keystore.UserBean, bool)
		MqList() []string
		PutOther(k, v string)
		DelOther(string)
		GetOther(string) (string, bool)
	}
	names     []string
	same      int64 // > 0: only so many different passwords
	held, was []*keystore.UserBean
	lists     [][]string
	listWas   []string
}

// recheck fails if an entry that a Get returned has changed since.
func (a *acct) recheck() {
	for i, u := range a.held {
		if w := a.was[i]; u.Name != w.Name || u.Pwd != w.Pwd || u.Type != w.Type {
			sim.Fail("content", "an account that Get returned as %q (type %d) has become %q (type %d) since", w.Name, w.Type, u.Name, u.Type)
		}
	}
	for i, l := range a.lists {
		if s := strings.Join(l, "\x00,"); s != a.listWas[i] {
			sim.Fail("content", "a list of accounts that was returned has changed since")
		}
	}
}

// acctPwd and acctType are the password (or value) and type of value v.
func acctPwd(v int64) string {
	if v == 3 {
		return ""
	}
	return fmt.Sprint("v", v) + []string{"", "-\x00\xff", strings.Repeat("-p", 700), "-密码", ""}[v%5]
}

func acctType(v int64) int8 { return int8(v * 37) }

// pwd is the password of value v: v's own, or one of a few.
func (a *acct) pwd(v int64) string {
	if a.same > 0 && v < 200 {
		v = 1 + v%a.same
	}
	return acctPwd(v)
}

func (a *acct) put(tb int64, name string, v int64) {
	t := acctType(v)
	switch tb {
	case 0:
		a.s.PutAdmin(name, a.pwd(v), t)
	case 1:
		a.s.PutClient(name, a.pwd(v), t)
	case 2:
		a.s.PutMq(name, a.pwd(v), t)
	case 3:
		a.s.PutOther(name, acctPwd(v))
	}
}

func (a *acct) del(tb int64, name string) {
	switch tb {
	case 0:
		a.s.DelAdmin(name)
	case 1:
		a.s.DelClient(name)
	case 2:
		a.s.DelMq(name)
	case 3:
		a.s.DelOther(name)
	}
}

// get returns the stored value, 0 when absent.
func (a *acct) get(tb int64, name string) int64 {
	var u *keystore.UserBean
	var ok bool
	switch tb {
	case 0:
		u, ok = a.s.GetAdmin(name)
	case 1:
		u, ok = a.s.GetClient(name)
	case 2:
		u, ok = a.s.GetMq(name)
	case 3:
		s, ok := a.s.GetOther(name)
		var v int64
		if ok {
			if s == "" {
				v = 3
			} else if fmt.Sscanf(s, "v%d", &v); s != acctPwd(v) {
				sim.Fail("content", "stored value %q was never put", s)
			}
		}
		return v
	}
	if !ok {
		return 0
	}
	a.held, a.was = append(a.held, u), append(a.was, &keystore.UserBean{Name: u.Name, Pwd: u.Pwd, Type: u.Type})
	if u.Name != name {
		sim.Fail("content", "account %q carries the name %q", name, u.Name)
	}
	for v := int64(1); v < 200; v++ { // the types of these differ
		if u.Type == acctType(v) && u.Pwd == util.Md5Str(a.pwd(v)) {
			return v
		}
	}
	for _, v := range []int64{999, 7777} {
		if u.Type == acctType(v) && u.Pwd == util.Md5Str(acctPwd(v)) {
			return v
		}
	}
	sim.Fail("content", "account %q has a password and type (%d) that were never put together", name, u.Type)
	return 0
}

// list returns the set of known names as a bit mask.
func (a *acct) list(tb int64) int64 {
	var l []string
	switch tb {
	case 0:
		l = a.s.AdminList()
	case 1:
		l = a.s.ClientList()
	case 2:
		l = a.s.MqList()
	default:
		return 0
	}
	a.lists, a.listWas = append(a.lists, l), append(a.listWas, strings.Join(l, "\x00,"))
	m := int64(0)
	for _, n := range l {
		bit := int64(0)
		if strings.HasPrefix(n, "bulk-") {
			continue
		}
		for i, k := range a.names {
			if k == n {
				bit = 1 << i
			}
		}
		if bit == 0 || m&bit != 0 {
			sim.Fail("content", "the list of accounts has the unexpected or repeated name %q", n)
		}
		m |= bit
	}
	return m
}
