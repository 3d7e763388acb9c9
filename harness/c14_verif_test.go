package mls

import (
	"bytes"
	"fmt"
	"testing"
)

// rlistValid decides the conditions of section 12.2 that property C14 names.
func rlistValid(ps []proposal, senders []leafIndex, committer leafIndex) error {
	for i, p := range ps {
		target := func(i int) (leafIndex, bool) {
			switch ps[i].proposalType {
			case 2:
				return senders[i], true
			case 3:
				return ps[i].remove.removed, true
			}
			return 0, false
		}
		if l, ok := target(i); ok {
			if l == committer {
				return fmt.Errorf("update or removal of the committer")
			}
			for j := 0; j < i; j++ {
				if m, ok := target(j); ok && l == m {
					return fmt.Errorf("leaf %d twice", l)
				}
			}
		}
		for j := 0; j < i; j++ {
			q := ps[j]
			if p.proposalType != q.proposalType {
				continue
			}
			switch p.proposalType {
			case 1:
				if bytes.Equal(p.add.keyPackage.leafNode.signatureKey, q.add.keyPackage.leafNode.signatureKey) {
					return fmt.Errorf("signature key twice")
				}
			case 4:
				a, b := p.preSharedKey.psk, q.preSharedKey.psk
				if bytes.Equal(renc(func(w *rw) { w.pskID(&a) }), renc(func(w *rw) { w.pskID(&b) })) {
					return fmt.Errorf("PSK twice")
				}
			case 7:
				return fmt.Errorf("two group context extensions")
			}
		}
		if p.proposalType == 5 && len(ps) > 1 {
			return fmt.Errorf("reinit with others")
		}
		if p.proposalType == 6 {
			return fmt.Errorf("external init")
		}
	}
	return nil
}

func TestVerifC14(t *testing.T) {
	h := newVH(t, "C14", "one case per proposal list (exhaustive up to length 3 over 14 proposals, sampled above), reference list, and invalid commit kind; distinct by those")
	defer h.done()
	g := &rgen{h.rng}

	// lists over a small alphabet, exhaustively up to length 3
	k1, k2 := g.keyPackage(), g.keyPackage()
	k3 := g.keyPackage()
	k1.leafNode.signatureKey, k2.leafNode.signatureKey, k3.leafNode.signatureKey = []byte{1}, []byte{2}, []byte{1}
	psk := func(id string, nonce byte) proposal {
		return proposal{proposalType: 4, preSharedKey: &preSharedKey{psk: preSharedKeyID{pskType: 1, pskID: []byte(id), pskNonce: []byte{nonce}}}}
	}
	type item struct {
		p proposal
		s leafIndex
	}
	const committer = 3
	alphabet := []item{
		{raddProp(&k1), 0}, {raddProp(&k2), 1}, {raddProp(&k3), committer},
		{proposal{proposalType: 2, update: &update{}}, 0}, {proposal{proposalType: 2, update: &update{}}, 1}, {proposal{proposalType: 2, update: &update{}}, committer},
		{rremoveProp(0), 1}, {rremoveProp(1), committer}, {rremoveProp(committer), 1},
		{psk("a", 0), 0}, {psk("a", 1), 0},
		{proposal{proposalType: 5, reInit: &reInit{}}, 0},
		{proposal{proposalType: 6, externalInit: &externalInit{}}, 0},
		{proposal{proposalType: 7, groupContextExtensions: &groupContextExtensions{}}, 0},
	}
	check := func(list []int) {
		var ps []proposal
		var ss []leafIndex
		for _, x := range list {
			ps = append(ps, alphabet[x].p)
			ss = append(ss, alphabet[x].s)
		}
		h.run("list", fmt.Sprint("list ", list), func() error {
			want := rlistValid(ps, ss, committer)
			got := verifyProposalList(ps, ss, committer)
			vCheck(got != nil || want == nil, "list %v is accepted: %v", list, want)
			needs := len(ps) == 0
			for _, p := range ps {
				switch p.proposalType {
				case 2, 3, 6, 7:
					needs = true
				}
			}
			vCheck(proposalListNeedsPath(ps) == needs, "list %v: path required %v, want %v", list, !needs, needs)
			return nil
		})
	}
	check(nil)
	n := len(alphabet)
	for a := 0; a < n; a++ {
		check([]int{a})
		for b := 0; b < n; b++ {
			check([]int{a, b})
			for c := 0; c < n; c++ {
				check([]int{a, b, c})
			}
		}
	}
	for i := h.scale(500, 20000); i > 0; i-- {
		var l []int
		for k := 4 + g.Intn(5); k > 0; k-- {
			l = append(l, g.Intn(n))
		}
		check(l)
	}

	// resolution
	for i := h.scale(1500, 20000); i > 0; i-- {
		refs := [][]byte{{1}, {1, 0}, {}, {2}, {1, 2, 3}}
		var pend []pendingProposal
		for k := g.Intn(5); k > 0; k-- {
			p := alphabet[g.Intn(n)]
			pend = append(pend, pendingProposal{ref: refs[g.Intn(len(refs))], proposal: &p.p, sender: leafIndex(g.Intn(6))})
		}
		var ps []proposalOrRef
		for k := g.Intn(5); k > 0; k-- {
			if g.Intn(2) == 0 {
				ps = append(ps, rinline(alphabet[g.Intn(n)].p)...)
			} else {
				ps = append(ps, proposalOrRef{typ: 2, reference: refs[g.Intn(len(refs))]})
			}
		}
		sender := leafIndex(g.Intn(9))
		desc := fmt.Sprint("committer ", sender, " pending")
		for _, p := range pend {
			desc += fmt.Sprintf(" %x:%d/%d", []byte(p.ref), p.sender, p.proposal.proposalType)
		}
		for _, p := range ps {
			if p.typ == 1 {
				desc += fmt.Sprint(" inline ", p.proposal.proposalType)
			} else {
				desc += fmt.Sprintf(" ref %x", []byte(p.reference))
			}
		}
		h.run("resolution", desc, func() error {
			got, senders, err := resolveProposals(ps, sender, pend)
			if err != nil {
				return nil
			}
			vCheck(len(got) == len(ps) && len(senders) == len(ps), "%d proposals resolve to %d from %d senders", len(ps), len(got), len(senders))
			for i, p := range ps {
				if p.typ == 1 {
					vCheck(requal(&got[i], p.proposal) && senders[i] == sender, "inline proposal %d is attributed to %d (%s)", i, senders[i], desc)
					continue
				}
				ok := false
				for _, q := range pend {
					ok = ok || bytes.Equal(q.ref, p.reference) && requal(&got[i], q.proposal) && senders[i] == q.sender
				}
				vCheck(ok, "reference %x resolves to something else (%s)", []byte(p.reference), desc)
			}
			return nil
		})
	}

	// commits by reference take the sender of the proposal
	for _, cs := range []CipherSuite{1, 2} {
		base := rbattle(cs)
		for i := h.scale(10, 60); i > 0; i-- {
			h.run("valid commit", fmt.Sprint("suite ", cs, " valid ", i), func() error {
				w := rcopyWorld(base)
				al := w.alive()
				by := al[g.Intn(len(al))]
				c := &rscene{w: w, g: w.members[by], by: by, q: g, cs: cs}
				var ps []proposalOrRef
				gone := -1
				for _, x := range al {
					if x == by {
						continue
					}
					switch g.Intn(4) {
					case 0:
						p, priv := rupdateProp(w.members[x])
						raw, ref := rproposalMsg(w.members[x], &p, &rmsgOpts{private: g.Intn(2) == 0})
						c.send(raw)
						w.members[x].privTree[2*x] = priv
						ps = append(ps, proposalOrRef{typ: 2, reference: ref})
					case 1:
						if gone < 0 {
							gone = x
							ps = append(ps, rinline(rremoveProp(x))...)
						}
					case 2:
						ps = append(ps, rinline(raddProp(&rkey(cs, "add").Public))...)
					}
				}
				r := rcommit(w.members[by], &rcommitOpts{path: true, proposals: ps})
				for _, x := range al {
					if x == by || x == gone {
						continue
					}
					if _, err := w.members[x].UnmarshalAndProcessMessage(r.raw); err != nil {
						continue
					}
					rexpect(w.members[x], r)
				}
				return nil
			})
		}
	}
	rplayAll(h, "C14", true)
}
