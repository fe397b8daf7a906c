package main

// The symbolic model of group messaging: keys are names, a member opens exactly the
// messages whose key it has left.

const (
	maxGroupFuture  = 2000
	maxGroupSkipped = 2000
	maxGroupKeys    = 2000
)

type GKeyState struct {
	Key, Next int
	Skipped   []int
}

type GDist struct{ Key, Iter int }

type GMsg struct{ Key, Iter int }

type GModel struct {
	Cur   []int                  // name -> current key of its sender (-1: none)
	NKey  []int                  // name -> keys made so far
	Iter  []int                  // name -> next iteration of the current key
	Dists [][]GDist              // name -> distribution messages made
	Msgs  [][]GMsg               // name -> messages sent
	Recv  map[[2]int][]GKeyState // (member, name) -> received keys in order; values are replaced, never changed
	Deliv map[[3]int]bool        // (member, name, message)
}

func newGModel(names int) *GModel {
	m := &GModel{Recv: map[[2]int][]GKeyState{}, Deliv: map[[3]int]bool{}, Cur: make([]int, names), NKey: make([]int, names), Iter: make([]int, names),
		Dists: make([][]GDist, names), Msgs: make([][]GMsg, names)}
	for i := range m.Cur {
		m.Cur[i] = -1
	}
	return m
}

func (m *GModel) clone() *GModel {
	n := &GModel{Cur: append([]int{}, m.Cur...), NKey: append([]int{}, m.NKey...), Iter: append([]int{}, m.Iter...), Recv: cp(m.Recv), Deliv: cp(m.Deliv)}
	for _, d := range m.Dists {
		n.Dists = append(n.Dists, d[:len(d):len(d)])
	}
	for _, d := range m.Msgs {
		n.Msgs = append(n.Msgs, d[:len(d):len(d)])
	}
	return n
}

// Create gives the distribution message of the current key, making one if there is none.
func (m *GModel) Create(n int) GDist {
	if m.Cur[n] < 0 {
		m.Cur[n], m.Iter[n] = m.NKey[n], 0
		m.NKey[n]++
	}
	d := GDist{m.Cur[n], m.Iter[n]}
	m.Dists[n] = append(m.Dists[n], d)
	return d
}

func (m *GModel) Rotate(n int) GDist {
	m.Cur[n] = -1
	return m.Create(n)
}

func (m *GModel) Send(n int) GMsg {
	g := GMsg{m.Cur[n], m.Iter[n]}
	m.Msgs[n] = append(m.Msgs[n], g)
	m.Iter[n]++
	return g
}

func (m *GModel) Process(b, n int, d GDist) {
	l := m.Recv[[2]int{b, n}]
	for _, k := range l {
		if k.Key == d.Key {
			return
		}
	}
	l = append(l[:len(l):len(l)], GKeyState{Key: d.Key, Next: d.Iter})
	if len(l) > maxGroupKeys {
		l = l[1:]
	}
	m.Recv[[2]int{b, n}] = l
}

// Deliver: member b gets message g; on rejection nothing changes.
func (m *GModel) Deliver(b, n int, g GMsg) (bool, string) {
	l := m.Recv[[2]int{b, n}]
	for i, k := range l {
		if k.Key != g.Key {
			continue
		}
		if g.Iter < k.Next {
			for j, x := range k.Skipped {
				if x == g.Iter {
					sk := append(append([]int{}, k.Skipped[:j]...), k.Skipped[j+1:]...)
					m.put(b, n, i, GKeyState{k.Key, k.Next, sk})
					return true, ""
				}
			}
			return false, "used, dropped or older than the distribution message"
		}
		if g.Iter-k.Next > maxGroupFuture {
			return false, "too far ahead"
		}
		sk := append([]int{}, k.Skipped...)
		for x := k.Next; x < g.Iter; x++ {
			sk = append(sk, x)
		}
		if len(sk) > maxGroupSkipped {
			sk = sk[len(sk)-maxGroupSkipped:]
		}
		m.put(b, n, i, GKeyState{k.Key, g.Iter + 1, sk})
		return true, ""
	}
	return false, "key not known"
}

func (m *GModel) put(b, n, i int, k GKeyState) {
	l := append([]GKeyState{}, m.Recv[[2]int{b, n}]...)
	l[i] = k
	m.Recv[[2]int{b, n}] = l
}
