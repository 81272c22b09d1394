package ref

// RegEntry is a SLIP-0132 row. Path "-" means the document gives none.
type RegEntry struct {
	Coin      string
	Pub       uint32
	PubPrefix string
	Prv       uint32
	PrvPrefix string
	Enc       []string
	Path      string
}

// Registry is SLIP-0132 as documented at the pinned commit.
var Registry = []RegEntry{
	{"Bitcoin", 0x0488b21e, "xpub", 0x0488ade4, "xprv", []string{"P2PKH", "P2SH"}, "m/44'/0'"},
	{"Bitcoin", 0x049d7cb2, "ypub", 0x049d7878, "yprv", []string{"P2WPKHInP2SH"}, "m/49'/0'"},
	{"Bitcoin", 0x04b24746, "zpub", 0x04b2430c, "zprv", []string{"P2WPKH"}, "m/84'/0'"},
	{"Bitcoin", 0x0295b43f, "Ypub", 0x0295b005, "Yprv", []string{"P2WSHInP2SH"}, "-"},
	{"Bitcoin", 0x02aa7ed3, "Zpub", 0x02aa7a99, "Zprv", []string{"P2WSH"}, "-"},
	{"Bitcoin Testnet", 0x043587cf, "tpub", 0x04358394, "tprv", []string{"P2PKH", "P2SH"}, "m/44'/1'"},
	{"Bitcoin Testnet", 0x044a5262, "upub", 0x044a4e28, "uprv", []string{"P2WPKHInP2SH"}, "m/49'/1'"},
	{"Bitcoin Testnet", 0x045f1cf6, "vpub", 0x045f18bc, "vprv", []string{"P2WPKH"}, "m/84'/1'"},
	{"Bitcoin Testnet", 0x024289ef, "Upub", 0x024285b5, "Uprv", []string{"P2WSHInP2SH"}, "-"},
	{"Bitcoin Testnet", 0x02575483, "Vpub", 0x02575048, "Vprv", []string{"P2WSH"}, "-"},
	{"Groestlcoin", 0x0488b21e, "xpub", 0x0488ade4, "xprv", []string{"P2PKH", "P2SH"}, "m/44'/17'"},
	{"Groestlcoin", 0x049d7cb2, "ypub", 0x049d7878, "yprv", []string{"P2WPKHInP2SH"}, "m/49'/17'"},
	{"Groestlcoin", 0x04b24746, "zpub", 0x04b2430c, "zprv", []string{"P2WPKH"}, "m/84'/17'"},
	{"Groestlcoin", 0x0295b43f, "Ypub", 0x0295b005, "Yprv", []string{"P2WSHInP2SH"}, "-"},
	{"Groestlcoin", 0x02aa7ed3, "Zpub", 0x02aa7a99, "Zprv", []string{"P2WSH"}, "-"},
	{"Groestlcoin Testnet", 0x043587cf, "tpub", 0x04358394, "tprv", []string{"P2PKH", "P2SH"}, "m/44'/1'"},
	{"Groestlcoin Testnet", 0x044a5262, "upub", 0x044a4e28, "uprv", []string{"P2WPKHInP2SH"}, "m/49'/1'"},
	{"Groestlcoin Testnet", 0x045f1cf6, "vpub", 0x045f18bc, "vprv", []string{"P2WPKH"}, "m/84'/1'"},
	{"Groestlcoin Testnet", 0x024289ef, "Upub", 0x024285b5, "Uprv", []string{"P2WSHInP2SH"}, "-"},
	{"Groestlcoin Testnet", 0x02575483, "Vpub", 0x02575048, "Vprv", []string{"P2WSH"}, "-"},
	{"Litecoin", 0x019da462, "Ltub", 0x019d9cfe, "Ltpv", []string{"P2PKH", "P2SH"}, "m/44'/2'"},
	{"Litecoin", 0x01b26ef6, "Mtub", 0x01b26792, "Mtpv", []string{"P2WPKHInP2SH"}, "m/49'/2'"},
	{"Litecoin Testnet", 0x0436f6e1, "ttub", 0x0436ef7d, "ttpv", []string{"P2PKH", "P2SH"}, "m/44'/1'"},
	{"Nexa", 0x42696720, "xpub", 0x426c6b73, "xprv", []string{"P2PKT", "P2PKH", "P2SH"}, "m/44'/29223'"},
	{"Nexa Testnet", 0x043587cf, "xpub", 0x04358394, "xprv", []string{"P2PKT", "P2PKH", "P2SH"}, "m/44'/1'"},
	{"Vertcoin", 0x0488b21e, "vtcp", 0x0488ade4, "vtcv", []string{"P2PKH", "P2SH"}, "m/44'/28'"},
	{"Polis", 0x03e25d7e, "ppub", 0x03e25945, "pprv", []string{"P2PKH"}, "m/44'/1997'"},
	{"Syscoin", 0x04b24746, "zpub", 0x04b2430c, "zprv", []string{"P2WPKH"}, "m/84'/57'"},
	{"Syscoin", 0x02aa7ed3, "Zpub", 0x02aa7a99, "Zprv", []string{"P2WSH"}, "-"},
}

// PubVersion maps a registered private version to its public one; PrvVersion back.
var PubVersion, PrvVersion = map[uint32]uint32{}, map[uint32]uint32{}

// PrvVersions and PubVersions list the distinct registered versions in order.
var PrvVersions, PubVersions []uint32

func init() {
	for _, r := range Registry {
		if _, ok := PubVersion[r.Prv]; !ok {
			PrvVersions = append(PrvVersions, r.Prv)
			PubVersions = append(PubVersions, r.Pub)
		}
		PubVersion[r.Prv] = r.Pub
		PrvVersion[r.Pub] = r.Prv
	}
}
