package main

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/rand"
	"embed"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
)

//go:embed keys/*.pgp
var keyFiles embed.FS

//go:embed fixtures
var fixtureFiles embed.FS

// keyNames lists the committed test keys. "sub" has a signing subkey.
var keyNames = []string{"rsaA", "rsaB", "rsa3072", "ed25519", "p256", "p384", "sub", "dsa"}

type testKey struct {
	Name   string
	Entity *openpgp.Entity
	Key    *packet.PrivateKey // the one that signs
}

var keyring = sync.OnceValue(func() map[string]*testKey {
	out := map[string]*testKey{}
	for _, name := range keyNames {
		b, err := keyFiles.ReadFile("keys/" + name + ".pgp")
		check(err)
		el, err := openpgp.ReadKeyRing(bytes.NewReader(b))
		check(err)
		k := &testKey{Name: name, Entity: el[0], Key: el[0].PrivateKey}
		if name == "sub" {
			for _, s := range el[0].Subkeys {
				if s.Sig.FlagsValid && s.Sig.FlagSign {
					k.Key = s.PrivateKey
				}
			}
			if k.Key == el[0].PrivateKey {
				panic(internalError{"no signing subkey"})
			}
		}
		out[name] = k
	}
	return out
})

func key(name string) *testKey { return keyring()[name] }

func ring(names ...string) openpgp.EntityList {
	el := openpgp.EntityList{}
	for _, n := range names {
		el = append(el, key(n).Entity)
	}
	return el
}

var strangersMade openpgp.EntityList

// strangers are many keys that sign nothing.
func strangers() openpgp.EntityList {
	for k := 0; len(strangersMade) < 300; k++ {
		e, err := openpgp.NewEntity(fmt.Sprint("Stranger ", k), "", "", &packet.Config{Algorithm: packet.PubKeyAlgoEdDSA})
		check(err)
		strangersMade = append(strangersMade, e)
	}
	return strangersMade
}

func fixture(name string) []byte {
	b, err := fixtureFiles.ReadFile("fixtures/" + name)
	check(err)
	return b
}

func fixtureRpms() []string {
	var out []string
	ents, err := fixtureFiles.ReadDir("fixtures")
	check(err)
	for _, e := range ents {
		if filepath.Ext(e.Name()) == ".rpm" {
			out = append(out, e.Name())
		}
	}
	return out
}

// sub genkeys DIR regenerates the committed test keys
func init() {
	subModes["genkeys"] = func(args []string) {
		at := time.Date(2021, 3, 4, 5, 6, 7, 0, time.UTC)
		for _, name := range keyNames {
			if _, err := os.Stat(filepath.Join(args[0], name+".pgp")); err == nil {
				continue // keep what is there
			}
			cfg := &packet.Config{Time: func() time.Time { return at }, DefaultHash: crypto.SHA256}
			switch name {
			case "rsaA", "rsaB", "sub":
				cfg.Algorithm, cfg.RSABits = packet.PubKeyAlgoRSA, 2048
			case "rsa3072":
				cfg.Algorithm, cfg.RSABits = packet.PubKeyAlgoRSA, 3072
			case "ed25519":
				cfg.Algorithm, cfg.Curve = packet.PubKeyAlgoEdDSA, packet.Curve25519
			case "p256":
				cfg.Algorithm, cfg.Curve = packet.PubKeyAlgoECDSA, packet.CurveNistP256
			case "p384":
				cfg.Algorithm, cfg.Curve = packet.PubKeyAlgoECDSA, packet.CurveNistP384
			}
			var e *openpgp.Entity
			var err error
			if name == "dsa" {
				var k dsa.PrivateKey
				check(dsa.GenerateParameters(&k.Parameters, rand.Reader, dsa.L2048N256))
				check(dsa.GenerateKey(&k, rand.Reader))
				priv := packet.NewDSAPrivateKey(at, &k)
				e = &openpgp.Entity{PrimaryKey: &priv.PublicKey, PrivateKey: priv, Identities: map[string]*openpgp.Identity{}}
				check(e.AddUserId("Test "+name, "comment", name+"@example.com", cfg))
			} else {
				e, err = openpgp.NewEntity("Test "+name, "comment", name+"@example.com", cfg)
				check(err)
			}
			if name == "sub" {
				check(e.AddSigningSubkey(cfg))
			}
			f, err := os.Create(filepath.Join(args[0], name+".pgp"))
			check(err)
			check(e.SerializePrivate(f, cfg))
			check(f.Close())
			fmt.Println(name, e.PrimaryKey.KeyIdString(), len(e.Subkeys))
		}
	}
}
