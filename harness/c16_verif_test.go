package mls

import (
	"bytes"
	"fmt"
	"testing"
	"time"
)

func TestVerifC16(t *testing.T) {
	h := newVH(t, "C16", "one case per generated leaf node or key package, valid or with defects; distinct by content")
	defer h.done()
	g := &rgen{h.rng}
	okLeaf, okKP := 0, 0
	for i := h.scale(1500, 20000); i > 0; i-- {
		cs := CipherSuite(1)
		if g.Intn(5) == 0 {
			cs = rallSuites[g.Intn(7)]
		}
		f := newFactory(cs)
		f.n = g.Intn(len(f.keys))
		l := f.leaf(g)
		now := time.Unix(time.Now().Unix(), int64(g.Intn(3))*499999999)
		at := g.Intn(5)
		gid := []byte("group")
		opts := &leafNodeVerifyOptions{cipherSuite: cs, groupID: gid, leafIndex: leafIndex(at),
			supportedCreds: map[credentialType]struct{}{1: {}}, signatureKeys: map[string]struct{}{"x": {}}, encryptionKeys: map[string]struct{}{"y": {}},
			now: func() time.Time { return now }}
		if g.Intn(3) == 0 {
			l.leafNodeSource, l.lifetime, l.parentHash = 3, nil, g.bytes()
		}
		if g.Intn(3) == 0 {
			l.capabilities.extensions = []extensionType{9, 10}
			l.extensions = []extension{{10, g.bytes()}}
		}
		signAt, signGid := at, gid
		kind := g.Intn(16)
		switch kind {
		case 1:
			signAt++
		case 2:
			signGid = []byte("other")
		case 3:
			l.credential = Credential{credentialType: 2}
		case 4:
			delete(opts.supportedCreds, 1)
			opts.supportedCreds[2] = struct{}{}
		case 5, 6, 7, 8:
			u := uint64(now.Unix())
			day := uint64(86400)
			l.leafNodeSource, l.parentHash = 1, nil
			l.lifetime = []*lifetime{
				{u - 10, u + 90*day - 10}, {u - 10, u + 90*day - 9}, {u - 90*day + 10, u + 10}, {u - 90*day + 9, u + 10},
				{u + 1, u + 10}, {u + 2, u + 10}, {u - 10, u - 1}, {u - 10, u - 2}, {u, u}, {u + 5, u - 5}, {u - 5, u + 5}, {0, ^uint64(0)}, {1, 1 << 40},
				{u - 1, ^uint64(0)}, {^uint64(0) - 5, u + 5}, {u + 10, u + 20}, {u - 20, u - 10}, {0, 0}, {^uint64(0), ^uint64(0)}, {1 << 63, 1<<63 + 100},
			}[g.Intn(20)]
		case 9:
			l.extensions = []extension{{10, nil}, {11, nil}}
			l.capabilities.extensions = []extensionType{10}
		case 10:
			l.extensions = []extension{{uint16ext(g), nil}}
			l.capabilities.extensions = nil
		case 11:
			opts.signatureKeys[string(l.signatureKey)] = struct{}{}
		case 12:
			opts.encryptionKeys[string(l.encryptionKey)] = struct{}{}
		}
		for _, k := range f.keys {
			if bytes.Equal(k.Public.leafNode.signatureKey, l.signatureKey) {
				l.signature = rsign(cs, k.Private.SignatureKey, "LeafNodeTBS", renc(func(w *rw) { w.leafNodeTBS(l, signGid, leafIndex(signAt)) }))
			}
		}
		switch kind {
		case 13:
			l.signature = rflip(l.signature)
		case 14: // change a field after signing
			switch g.Intn(7) {
			case 0:
				l.encryptionKey = rflip(l.encryptionKey)
			case 1:
				l.credential = *NewBasicCredential([]byte("mallory"))
			case 2:
				l.capabilities.versions = append([]protocolVersion{}, l.capabilities.versions...)
				l.capabilities.versions = append(l.capabilities.versions, 1)
			case 3:
				l.capabilities.proposals = append([]proposalType{}, 7)
			case 4:
				if l.lifetime != nil {
					l.lifetime = &lifetime{l.lifetime.notBefore - 1, l.lifetime.notAfter}
				} else if l.leafNodeSource == 3 {
					l.parentHash = append([]byte{1}, l.parentHash...)
				}
			case 5:
				l.capabilities.extensions = append([]extensionType{44}, l.capabilities.extensions...)
			case 6:
				if len(l.extensions) > 0 {
					l.extensions = []extension{{l.extensions[0].extensionType, []byte("changed")}}
				}
			}
		case 15:
			l.signature = nil
		}
		want := func() error {
			tree := []*node{{nodeType: 1, leafNode: &leafNode{capabilities: capabilities{}}}}
			for c := range opts.supportedCreds {
				tree[0].leafNode.capabilities.credentials = append(tree[0].leafNode.capabilities.credentials, c)
			}
			if err := rleafValid(cs, tree, l, gid, at, now); err != nil {
				return err
			}
			if kind == 11 || kind == 12 {
				return fmt.Errorf("key in use")
			}
			return nil
		}()
		h.run("leaf", fmt.Sprintf("suite %d kind %d %s", cs, kind, hexs(rhash(1, renc(func(w *rw) { w.leafNode(l) })))), func() error {
			before := fmt.Sprintf("%+v", *l)
			err := l.verify(opts)
			vCheck(err != nil || want == nil, "suite %d: a leaf with a defect (%v, kind %d, lifetime %+v) is accepted", cs, want, kind, l.lifetime)
			vCheck(fmt.Sprintf("%+v", *l) == before, "verification changes the leaf")
			if err == nil {
				okLeaf++
			}
			return nil
		})
	}
	for i := h.scale(1200, 12000); i > 0; i-- {
		cs := CipherSuite(1)
		if g.Intn(5) == 0 {
			cs = rallSuites[g.Intn(7)]
		}
		f := newFactory(cs)
		kpp := f.keys[g.Intn(len(f.keys))]
		k := kpp.Public
		ctx := g.groupContext()
		ctx.cipherSuite, ctx.version = cs, 1
		k.extensions = g.extensions()
		kind := g.Intn(12)
		bad := true
		switch kind {
		case 1:
			ctx.version = 2
		case 2:
			ctx.cipherSuite = cs%7 + 1
		case 3:
			k.leafNode.leafNodeSource, k.leafNode.lifetime = 2, nil
		case 4:
			k.leafNode.leafNodeSource, k.leafNode.lifetime, k.leafNode.parentHash = 3, nil, g.bytes()
		case 5:
			k.initKey = k.leafNode.encryptionKey
		default:
			bad = false
		}
		rresign(kpp, &k)
		switch kind {
		case 6:
			k.signature = rflip(k.signature)
			bad = true
		case 7:
			k.initKey = rflip(k.initKey)
			bad = true
		case 8:
			k.extensions = append(append([]extension{}, k.extensions...), extension{1, nil})
			bad = true
		case 9:
			k.leafNode.credential = *NewBasicCredential(g.key(6))
			bad = true
		case 10:
			k.leafNode.signature = rflip(k.leafNode.signature)
			bad = true
		case 11:
			if len(k.signature) > 0 {
				k.signature = k.leafNode.signature
				bad = true
			}
		}
		h.run("key package", fmt.Sprintf("suite %d kind %d %s", cs, kind, hexs(rhash(1, renc(func(w *rw) { w.keyPackage(&k) })))), func() error {
			err := k.verify(&ctx)
			vCheck(err != nil || !bad, "suite %d: a key package with defect %d is accepted", cs, kind)
			if err == nil {
				okKP++
			}
			return nil
		})
	}
	h.run("generator", "valid ones are accepted", func() error {
		vCheck(okLeaf > 0 && okKP > 0, "%d leaves and %d key packages accepted", okLeaf, okKP)
		return nil
	})
	// credential types: supported means supported by every member
	for i := h.scale(400, 5000); i > 0; i-- {
		n := 1 << uint(g.Intn(4))
		tr := rshape(g, n, g.Uint64()&g.Uint64())
		desc := ""
		for x := 0; x < len(tr); x += 2 {
			if tr[x] != nil {
				var cr []credentialType
				for k := g.Intn(5); k > 0; k-- {
					cr = append(cr, credentialType(1+g.Intn(3)))
				}
				if g.Intn(3) != 0 {
					cr = append(cr, 1)
				}
				tr[x].leafNode.capabilities.credentials = cr
				desc += fmt.Sprint(cr)
			}
		}
		h.run("credentials", fmt.Sprint(n, desc), func() error {
			got := ratchetTree(tr).supportedCreds()
			for c := range got {
				for x := 0; x < len(tr); x += 2 {
					if tr[x] == nil {
						continue
					}
					ok := false
					for _, d := range tr[x].leafNode.capabilities.credentials {
						ok = ok || c == d
					}
					vCheck(ok, "credential type %d counts as supported by all, but leaf %d of %s does not list it", c, x/2, desc)
				}
			}
			sig, enc := ratchetTree(tr).keys()
			for x := 0; x < len(tr); x++ {
				if tr[x] == nil || tr[x].leafNode == nil {
					continue
				}
				_, a := sig[string(tr[x].leafNode.signatureKey)]
				_, b := enc[string(tr[x].leafNode.encryptionKey)]
				vCheck(a && b, "keys of leaf %d are not collected", x/2)
			}
			return nil
		})
	}
	rplayAll(h, "C16", true)
}

func uint16ext(g *rgen) extensionType { return extensionType(g.u16()) }
