package main

import (
	stded "crypto/ed25519"
	"math/rand"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/herumi/bls-go-binary/bls"
)

// sigT is a message with its key and a valid signature.
type sigT struct {
	f             string
	key, msg, sig []byte
}

func makeSigs(r *rand.Rand) []sigT {
	var l []sigT
	rnd := func(n int) []byte { b := make([]byte, n); r.Read(b); return b }
	for k := 0; k < 3; k++ {
		m := []byte("message " + string(rune('a'+k)))
		ed := stded.NewKeyFromSeed(rnd(32))
		l = append(l, sigT{"verifyEd25519", ed.Public().(stded.PublicKey), m, stded.Sign(ed, m)})
		sk, pk := btcec.PrivKeyFromBytes(btcec.S256(), rnd(32))
		s, err := sk.Sign(chainhash.DoubleHashB(m))
		if err != nil {
			panic(err)
		}
		kb := pk.SerializeCompressed()
		if k == 1 {
			kb = pk.SerializeUncompressed()
		}
		l = append(l, sigT{"verifySecp256k1", kb, m, s.Serialize()})
		b := &bls.SecretKey{}
		lb := rnd(32)
		lb[31] &= 0x1f
		if err := b.SetLittleEndian(lb); err != nil {
			panic(err)
		}
		l = append(l, sigT{"verifyBLS", b.GetPublicKey().Serialize(), m, b.Sign(string(m)).Serialize()})
	}
	return l
}

// sigArgs chooses a valid signature and sometimes spoils a part.
func (d *Drv) sigArgs(f string) (key, msg, sig []byte) {
	var l []sigT
	for _, s := range d.Sigs {
		if s.f == f {
			l = append(l, s)
		}
	}
	x := l[d.R.Intn(len(l))]
	key, msg, sig = append([]byte{}, x.key...), append([]byte{}, x.msg...), append([]byte{}, x.sig...)
	switch d.R.Intn(5) {
	case 0:
		msg[d.R.Intn(len(msg))] ^= 1
	case 1:
		msg = append(msg, 'x')
	case 2:
		key = append([]byte{}, l[d.R.Intn(len(l))].key...)
	case 3:
		if f != "verifySecp256k1" { // malformed keys and signatures as well
			sig[d.R.Intn(len(sig))] ^= byte(1 << uint(d.R.Intn(8)))
		} else {
			sig[len(sig)-1-d.R.Intn(20)] ^= 4
		}
	}
	return
}
