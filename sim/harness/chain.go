package verifsim

import (
	"crypto/sha256"
	"encoding/binary"

	"github.com/btcsuite/btcd/btcutil/gcs/builder"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
)

// The block chain of the simulated world, and the model the oracles use.

type Blk struct {
	H       *block.Header
	Height  uint32
	Hash    chainhash.Hash
	Hdr     []byte // serialized header
	Raw     []byte // serialized block
	Txs     []*transaction.Transaction
	TxIDs   []string
	Filter  []byte // N || filter data
	Invalid bool   // not part of the chain
}

type utxo struct {
	hash   chainhash.Hash
	idx    uint32
	script []byte
}

type Chain struct {
	NetName string
	Magic   [4]byte
	Blocks  []*Blk // by height; 0 is the genesis block
	byHash  map[chainhash.Hash]*Blk
	rng     *Rng
	utxos   []utxo
	Scripts [][]byte // scripts the workload watches
	HitPct  int      // percent of transactions paying a watched script
	MaxTxs  int
	BigPct  int // percent of blocks with many outputs (large filters)
	EmptyPM int // per mille of blocks with an empty filter
	unconf  []*transaction.Transaction
	MaxUtxo int
	Spends  []utxo // outpoints spent in the chain
	lAsset  []byte
}

var netInfo = map[string]struct {
	magic   [4]byte
	genesis string
}{
	"regtest": {[4]byte{0x12, 0x34, 0x56, 0x78}, "00902a6b70c2ca83b5d9c815d96a0e2f4202179316970d14ea1847dae5b1ca21"},
	"liquid":  {[4]byte{0xfa, 0xbf, 0xb5, 0xda}, "1466275836220db2944ca059a3a10ef6fd2ea684b0688d2c379296888a206003"},
	"testnet": {[4]byte{0x41, 0x0e, 0xdd, 0x62}, "a771da8e52ee6ad581ed1e9a99825e5b3b7992225534eaa2ae23244fe26ab1c1"},
}

var netNames = []string{"regtest", "liquid", "testnet"}

func NewChain(seed uint64, netName string) *Chain {
	ni := netInfo[netName]
	c := &Chain{NetName: netName, Magic: ni.magic, rng: NewRng(seed, "chain"), byHash: map[chainhash.Hash]*Blk{}, HitPct: 25, MaxTxs: 4, BigPct: 5, EmptyPM: 60, MaxUtxo: 200}
	g, err := chainhash.NewHashFromStr(ni.genesis)
	if err != nil {
		panic(err)
	}
	gb := &Blk{Hash: *g}
	c.Blocks = []*Blk{gb}
	c.byHash[*g] = gb
	c.lAsset = append([]byte{1}, c.rng.Bytes(32)...)
	return c
}

func (c *Chain) Tip() *Blk { return c.Blocks[len(c.Blocks)-1] }

func (c *Chain) Height() uint32 { return uint32(len(c.Blocks) - 1) }

func (c *Chain) ByHash(h chainhash.Hash) *Blk { return c.byHash[h] }

func (c *Chain) value(v uint64) []byte {
	b := make([]byte, 9)
	b[0] = 1
	binary.BigEndian.PutUint64(b[1:], v)
	return b
}

func (c *Chain) randScript() []byte {
	switch c.rng.N(3) {
	case 0:
		return append([]byte{0x00, 0x14}, c.rng.Bytes(20)...)
	case 1:
		return append([]byte{0x00, 0x20}, c.rng.Bytes(32)...)
	}
	return append(append([]byte{0x76, 0xa9, 0x14}, c.rng.Bytes(20)...), 0x88, 0xac)
}

// NewTx makes a transaction; hit decides whether it pays a watched script.
func (c *Chain) NewTx(hit bool, outs int) (*transaction.Transaction, [][]byte) {
	r := c.rng
	tx := transaction.NewTx(2)
	var prev [][]byte
	nin := 1 + r.N(2)
	for i := 0; i < nin; i++ {
		if len(c.utxos) > 0 && r.P(60) {
			k := r.N(len(c.utxos))
			u := c.utxos[k]
			c.utxos[k] = c.utxos[len(c.utxos)-1]
			c.utxos = c.utxos[:len(c.utxos)-1]
			tx.AddInput(transaction.NewTxInput(u.hash.CloneBytes(), u.idx))
			prev = append(prev, u.script)
		} else {
			tx.AddInput(transaction.NewTxInput(r.Bytes(32), uint32(r.N(4))))
			prev = append(prev, c.randScript())
		}
	}
	if r.P(40) {
		tx.Flag = 1
		tx.Inputs[0].Witness = [][]byte{r.Bytes(71), r.Bytes(33)}
	}
	for i := 0; i < outs; i++ {
		tx.AddOutput(transaction.NewTxOutput(c.lAsset, c.value(1000+uint64(r.N(1000000))), c.randScript()))
	}
	if hit && len(c.Scripts) > 0 {
		for k := 1 + r.N(5)/4; k > 0; k-- { // sometimes two outputs in one transaction
			tx.AddOutput(transaction.NewTxOutput(c.lAsset, c.value(5000+uint64(r.N(1000000))), c.Scripts[r.N(len(c.Scripts))]))
		}
	}
	tx.AddOutput(transaction.NewTxOutput(c.lAsset, c.value(500), []byte{})) // fee
	return tx, prev
}

func (c *Chain) header(prev chainhash.Hash, height uint32) *block.Header {
	r := c.rng
	h := &block.Header{
		Version: 0x20000000, PrevBlockHash: prev.CloneBytes(), MerkleRoot: r.Bytes(32),
		Timestamp: 1600000000 + height*60, Height: height,
	}
	switch r.N(8) {
	case 0: // dynamic federation, compact parameters
		h.ExtData = &block.ExtData{IsDyna: true, DynamicFederation: &block.DynamicFederation{
			Current: &block.DynamicFederationParams{CompactParams: &block.CompactParams{
				SignBlockScript: r.Bytes(34), SignBlockWitnessLimit: 150, ElidedRoot: r.Bytes(32)}},
			SignBlockWitness: [][]byte{r.Bytes(72), r.Bytes(37)},
		}}
	default:
		h.ExtData = &block.ExtData{Proof: &block.Proof{Challenge: r.Bytes(1 + r.N(40)), Solution: r.Bytes(1 + r.N(80))}}
	}
	return h
}

func (c *Chain) build(prev chainhash.Hash, height uint32, txs []*transaction.Transaction, prevScripts [][]byte) *Blk {
	h := c.header(prev, height)
	b := &block.Block{Header: h, TransactionsData: &block.Transactions{Transactions: txs}}
	raw, err := b.SerializeBlock()
	if err != nil {
		panic(err)
	}
	hdr, err := h.Serialize()
	if err != nil {
		panic(err)
	}
	hash, err := h.Hash()
	if err != nil {
		panic(err)
	}
	bl := &Blk{H: h, Height: height, Hash: hash, Hdr: hdr, Raw: raw, Txs: txs}
	fb := builder.WithKeyHash(&hash)
	for _, s := range prevScripts {
		fb.AddEntry(s)
	}
	for _, t := range txs {
		bl.TxIDs = append(bl.TxIDs, t.TxHash().String())
		for _, o := range t.Outputs {
			if len(o.Script) > 0 && o.Script[0] != 0x6a {
				fb.AddEntry(o.Script)
			}
		}
	}
	f, err := fb.Build()
	if err != nil {
		panic(err)
	}
	bl.Filter, err = f.NBytes()
	if err != nil {
		panic(err)
	}
	return bl
}

// Mine extends the chain by one block.
func (c *Chain) Mine() *Blk {
	r := c.rng
	cb := transaction.NewTx(2)
	cb.AddInput(transaction.NewTxInput(make([]byte, 32), 0xffffffff))
	cb.Inputs[0].Script = append([]byte{4}, binary.LittleEndian.AppendUint32(nil, c.Height()+1)...)
	cb.AddOutput(transaction.NewTxOutput(c.lAsset, c.value(0), append([]byte{0x6a, 36}, r.Bytes(36)...)))
	txs := []*transaction.Transaction{cb}
	var prev [][]byte
	if !r.PM(c.EmptyPM) {
		n := r.N(c.MaxTxs + 1)
		for i := 0; i < n; i++ {
			outs := 1 + r.N(2)
			if r.P(c.BigPct) {
				outs = 40 + r.N(120)
			}
			tx, p := c.NewTx(r.P(c.HitPct), outs)
			txs = append(txs, tx)
			prev = append(prev, p...)
			for k, in := range tx.Inputs {
				var h chainhash.Hash
				copy(h[:], in.Hash)
				c.Spends = append(c.Spends, utxo{h, in.Index, p[k]})
			}
		}
		for _, tx := range c.unconf {
			txs = append(txs, tx)
		}
		c.unconf = nil
	}
	b := c.build(c.Tip().Hash, c.Height()+1, txs, prev)
	for _, tx := range txs {
		h := tx.TxHash()
		for i, o := range tx.Outputs {
			if len(o.Script) > 0 && o.Script[0] != 0x6a && len(c.utxos) < c.MaxUtxo {
				c.utxos = append(c.utxos, utxo{h, uint32(i), o.Script})
			}
		}
	}
	c.Blocks = append(c.Blocks, b)
	c.byHash[b.Hash] = b
	return b
}

func (c *Chain) MineN(n int) {
	for i := 0; i < n; i++ {
		c.Mine()
	}
}

// Fork makes a block at a height which is not part of the chain.
func (c *Chain) Fork(prev chainhash.Hash, height uint32) *Blk {
	tx, p := c.NewTx(false, 1)
	b := c.build(prev, height, []*transaction.Transaction{tx}, p)
	b.Invalid = true
	return b
}

func dsha(b []byte) [32]byte {
	h := sha256.Sum256(b)
	return sha256.Sum256(h[:])
}
