package mls

import (
	"bytes"
	"fmt"
	"testing"
)

func TestVerifC08(t *testing.T) {
	h := newVH(t, "C08", "one case per function, suite and random input, and per group history step; distinct by function, suite and input")
	defer h.done()
	g := &rgen{h.rng}
	eq := func(what string, got []byte, err error, want []byte) {
		vMust(err)
		vCheck(bytes.Equal(got, want), "%s is %x, want %x", what, got, want)
	}
	for i := h.scale(300, 5000); i > 0; i-- {
		cs := rallSuites[g.Intn(7)]
		nh := rsuites[cs].nh
		ctx := g.groupContext()
		ctx.cipherSuite = cs
		init, commit, psk := g.key(nh), g.key(nh), g.key(nh)
		switch g.Intn(4) {
		case 0:
			init = make([]byte, nh)
		case 1:
			commit = make([]byte, nh)
		case 2:
			psk = make([]byte, nh)
		}
		key := fmt.Sprintf("suite %d init %s commit %s psk %s", cs, hexs(init), hexs(commit), hexs(psk))
		h.run("key schedule", key, func() error {
			want := rkeySchedule(cs, init, commit, psk, &ctx)
			j, err := ctx.extractJoinerSecret(init, commit)
			eq("joiner secret", j, err, want.joiner)
			e, err := ctx.extractEpochSecret(j, psk)
			eq("epoch secret", e, err, want.epoch)
			e, err = ctx.extractEpochSecret(j, nil)
			eq("epoch secret without a PSK", e, err, rfromJoiner(cs, j, make([]byte, nh), &ctx).epoch)
			w, err := extractWelcomeSecret(cs, j, psk)
			eq("welcome secret", w, err, want.welcome)
			w, err = extractWelcomeSecret(cs, j, nil)
			eq("welcome secret without a PSK", w, err, rfromJoiner(cs, j, make([]byte, nh), &ctx).welcome)
			tag, err := ctx.signConfirmationTag(want.epoch)
			eq("confirmation tag", tag, err, rmac(cs, rderive(cs, want.epoch, "confirm"), ctx.confirmedTranscriptHash))
			auth := framedContentAuthData{confirmationTag: tag}
			vCheck(auth.verifyConfirmationTag(cs, rderive(cs, want.epoch, "confirm"), ctx.confirmedTranscriptHash), "confirmation tag is rejected")
			auth.confirmationTag = rflip(tag)
			vCheck(!auth.verifyConfirmationTag(cs, rderive(cs, want.epoch, "confirm"), ctx.confirmedTranscriptHash), "wrong confirmation tag is accepted")
			for _, l := range [][2]string{
				{string(secretLabelInit), "init"}, {string(secretLabelSenderData), "sender data"}, {string(secretLabelEncryption), "encryption"},
				{string(secretLabelConfirm), "confirm"}, {string(secretLabelMembership), "membership"},
			} {
				vCheck(l[0] == l[1], "secret label %q, want %q", l[0], l[1])
			}
			return nil
		})
		label, context := g.bytes(), g.bytes()
		n := uint16(g.Intn(100))
		h.run("exporter", fmt.Sprintf("suite %d %s %s %s %d", cs, hexs(init), hexs(label), hexs(context), n), func() error {
			got, err := deriveExporter(cs, init, label, context, n)
			eq("exporter", got, err, rexpandLabel(cs, rderive(cs, init, string(label)), "exported", rhash(cs, context), int(n)))
			return nil
		})
		a := g.authenticatedContent()
		for a.content.contentType != 3 {
			a = g.authenticatedContent()
		}
		interim := g.bytes()
		h.run("transcript", fmt.Sprintf("suite %d %s %s", cs, hexs(interim), hexs(rhash(1, renc(func(w *rw) { w.authenticatedContent(&a) })))), func() error {
			got, err := a.confirmedTranscriptHashInput().hash(cs, interim)
			eq("confirmed transcript hash", got, err, rconfirmedHash(cs, interim, &a))
			got, err = nextInterimTranscriptHash(cs, interim, a.auth.confirmationTag)
			eq("interim transcript hash", got, err, rinterimHash(cs, interim, a.auth.confirmationTag))
			return nil
		})
		var ids []preSharedKeyID
		var psks [][]byte
		k := g.Intn(5)
		if g.Intn(64) == 0 {
			k = 250 + g.Intn(800)
		}
		for ; k > 0; k-- {
			ids = append(ids, g.pskID())
			psks = append(psks, g.bytes())
		}
		h.run("PSK secret", fmt.Sprintf("suite %d %d PSKs %s", cs, len(ids), hexs(bytes.Join(psks, nil))), func() error {
			got, err := extractPSKSecret(cs, ids, psks)
			eq(fmt.Sprint("PSK secret of ", len(ids)), got, err, rpskSecret(cs, ids, psks))
			return nil
		})
	}

	// Groups: every member computes the schedule of the epoch it enters.
	for _, cs := range rallSuites {
		for i := h.scale(2, 12); i > 0; i-- {
			h.run("new group", fmt.Sprint("suite ", cs, " new ", i), func() error {
				w := rnewWorld(cs, "fresh", 1)
				m := w.members[0]
				vCheck(len(m.epochSecret) == rsuites[cs].nh, "epoch secret has %d bytes", len(m.epochSecret))
				eq("init secret", m.initSecret, nil, rderive(cs, m.epochSecret, "init"))
				vCheck(len(m.groupContext.confirmedTranscriptHash) == 0, "confirmed transcript hash of a new group is not empty")
				eq("tree hash", m.groupContext.treeHash, nil, rrootHash(cs, m.tree))
				tag := rmac(cs, rderive(cs, m.epochSecret, "confirm"), nil)
				eq("interim transcript hash", m.interimTranscriptHash, nil, rinterimHash(cs, nil, tag))
				return nil
			})
			h.run("commit without a path", fmt.Sprint("suite ", cs, " no path ", i), func() error {
				w := rnewWorld(cs, "nopath", 3)
				by := g.Intn(3)
				var ps []proposal
				var ids []preSharedKeyID
				var vals [][]byte
				ps = append(ps, raddProp(&rkey(cs, "new").Public))
				for k := g.Intn(4); k > 0; k-- {
					id := preSharedKeyID{pskType: 1, pskID: g.key(4), pskNonce: g.key(rsuites[cs].nh)}
					ids = append(ids, id)
					vals = append(vals, g.bytes())
					ps = append(ps, proposal{proposalType: 4, preSharedKey: &preSharedKey{psk: id}})
				}
				r := rcommit(w.members[by], &rcommitOpts{proposals: rinline(ps...), psks: ids, pskValues: vals})
				for _, i := range w.alive() {
					vMust(w.members[i].processCommit(r.auth, ids, vals, nil))
					rexpect(w.members[i], r)
				}
				return nil
			})
			h.run("invitation", fmt.Sprint("suite ", cs, " invitation ", i), func() error {
				w := rnewWorld(cs, "invite", 2)
				m := w.members[g.Intn(2)]
				nk := rkey(cs, "new")
				wel, raw, err := m.CreateWelcome([]KeyPackage{nk.Public})
				vMust(err)
				a, _, err := ropenPrivate(m, raw)
				vMust(err)
				r := routcome(m, a, nil, nil)
				eq("confirmation tag", a.auth.confirmationTag, nil, r.tag)
				for _, i := range w.alive() {
					_, err := w.members[i].UnmarshalAndProcessMessage(raw)
					vMust(err)
					rexpect(w.members[i], r)
				}
				j, err := GroupFromWelcome(wel, nk)
				vMust(err)
				rexpect(j, r)
				ref := rrefHash(cs, "MLS 1.0 KeyPackage Reference", renc(func(w *rw) { w.keyPackage(&nk.Public) }))
				gs, err := wel.decryptGroupSecrets(ref, nk.Private.InitKey)
				vMust(err)
				eq("joiner secret in the welcome", gs.joinerSecret, nil, r.sched.joiner)
				return nil
			})
		}
	}
	for _, cs := range rpathSuites {
		for i := h.scale(2, 10); i > 0; i-- {
			h.run("commit with a path and PSKs", fmt.Sprint("suite ", cs, " path ", i), func() error {
				w := rnewWorld(cs, "path", 4)
				by := g.Intn(4)
				id := preSharedKeyID{pskType: 1, pskID: g.key(4), pskNonce: g.key(rsuites[cs].nh)}
				ids, vals := []preSharedKeyID{id}, [][]byte{g.bytes()}
				nk := rkey(cs, "new")
				r := rcommit(w.members[by], &rcommitOpts{path: true, proposals: rinline(proposal{proposalType: 4, preSharedKey: &preSharedKey{psk: id}}, raddProp(&nk.Public)), psks: ids, pskValues: vals})
				for _, i := range w.alive() {
					if i != by {
						vMust(w.members[i].processCommit(r.auth, ids, vals, nil))
						rexpect(w.members[i], r)
					}
				}
				wel := rwelcome(w.members[by], r, []*KeyPackage{&nk.Public}, ids, nil)
				ref, err := nk.Public.GenerateRef()
				vMust(err)
				gs, err := wel.decryptGroupSecrets(ref, nk.Private.InitKey)
				vMust(err)
				j, err := groupFromSecrets(wel, nk, gs, &groupFromSecretsOptions{psks: vals})
				vMust(err)
				rexpect(j, r)
				return nil
			})
		}
	}
	rplayAll(h, "C08", true)
}
