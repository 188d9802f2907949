package main

import (
	"bytes"
	"crypto/rand"
	"sync"

	"aead.dev/minisign"
	"filippo.io/age"
	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
	"github.com/pojntfx/stfs/pkg/config"
)

// KeySet holds parsed keys for one configuration.
type KeySet struct{ EncPub, EncPriv, SigPub, SigPriv interface{} }

var (
	keyMu    sync.Mutex
	encCache = map[string][2]interface{}{}
	sigCache = map[string][2]interface{}{}
)

func newEntity() *openpgp.Entity {
	e, err := openpgp.NewEntity("STFS", "", "stfs@example.com", &packet.Config{Algorithm: packet.PubKeyAlgoEdDSA})
	if err != nil {
		panic(err)
	}
	// Go through the wire format like real keys do.
	var b bytes.Buffer
	if err := e.SerializePrivate(&b, nil); err != nil {
		panic(err)
	}
	el, err := openpgp.ReadKeyRing(&b)
	if err != nil {
		panic(err)
	}
	return el[0]
}

func encPair(format, tag string) (pub, priv interface{}) {
	keyMu.Lock()
	defer keyMu.Unlock()
	k := format + "/" + tag
	if p, ok := encCache[k]; ok {
		return p[0], p[1]
	}
	switch format {
	case config.EncryptionFormatAgeKey:
		id, err := age.GenerateX25519Identity()
		if err != nil {
			panic(err)
		}
		pub, priv = id.Recipient(), id
	case config.EncryptionFormatPGPKey:
		e := newEntity()
		pub, priv = openpgp.EntityList{e}, openpgp.EntityList{e}
	}
	encCache[k] = [2]interface{}{pub, priv}
	return
}

func sigPair(format, tag string) (pub, priv interface{}) {
	keyMu.Lock()
	defer keyMu.Unlock()
	k := format + "/" + tag
	if p, ok := sigCache[k]; ok {
		return p[0], p[1]
	}
	switch format {
	case config.SignatureFormatMinisignKey:
		p, s, err := minisign.GenerateKey(rand.Reader)
		if err != nil {
			panic(err)
		}
		pub, priv = p, s
	case config.SignatureFormatPGPKey:
		e := newEntity()
		pub, priv = openpgp.EntityList{e}, openpgp.EntityList{e}
	}
	sigCache[k] = [2]interface{}{pub, priv}
	return
}

func keysFor(c Cfg) *KeySet { return keysTagged(c, "a") }

func keysTagged(c Cfg, tag string) *KeySet {
	ks := &KeySet{}
	ks.EncPub, ks.EncPriv = encPair(c.Enc, tag)
	ks.SigPub, ks.SigPriv = sigPair(c.Sig, tag)
	return ks
}
